//! C13: polynomials and monomials in generalized variables.
use super::norm::canon;
use super::{Prop, DEF};
use crate::cx::*;
use crate::eval::*;
use crate::num::*;
use crate::rng::Rng;
use crate::tree::*;
use calcu_rs::atom::{Atom, SymbolicExpr};
use calcu_rs::polynomial::{VarPow, VarSet};
use calcu_rs::Expr;
use std::collections::BTreeMap;

/// the generalized variables; index into this list everywhere below
fn gvars() -> Vec<Expr> {
    let v = Expr::var;
    vec![
        v("x"),
        v("y"),
        v("z"),
        Expr::sin(v("a")),
        sum(vec![v("a"), v("b")]),
        Expr::ln(v("b")),
        Expr::tan(v("n")),
    ]
}
const N_GV: usize = 7;
type Exps = [i128; N_GV];
struct Term {
    /// rational coefficient
    c: (i128, i128),
    pi: bool,
    /// has powers of products
    composite: bool,
    exps: Exps,
    /// the factors in the order in which they are multiplied, with repetitions
    expr: Expr,
}
fn term(cx: &mut Cx, rng: &mut Rng, use_sum: bool) -> Res<Term> {
    let (n, d) = loop {
        let T::Rat(n, d) = Gen::new(rng, RATFN).coef() else { unreachable!() };
        if n != 0 {
            break (n, d);
        }
    };
    let pi = rng.chance(1, 6);
    let (mut c, mut exps) = ((n, d), [0; N_GV]);
    let mut factors = vec![];
    if (n, d) != (1, 1) || rng.chance(1, 6) {
        factors.push(mk_rat(n, d));
    }
    if pi {
        factors.push(Expr::pi());
    }
    for _ in 0..rng.us(5) {
        factors.extend(factor(rng, use_sum, 1, &mut exps));
    }
    // powers of products of numbers and variables
    let composite = rng.chance(1, 4);
    if composite {
        for _ in 0..1 + rng.us(2) {
            let k = rng.int(1, 3) as i128;
            let mut fs = vec![];
            if rng.chance(2, 3) {
                let (n, d) = (rng.int(1, 4) as i128 * if rng.chance(1, 2) { -1 } else { 1 }, *rng.pick(&[1i128, 1, 2]));
                fs.push(mk_rat(n, d));
                c = (c.0 * n.pow(k as u32), c.1 * d.pow(k as u32));
            }
            for _ in 0..1 + rng.us(3) {
                fs.extend(factor(rng, use_sum, k, &mut exps));
            }
            rng.shuffle(&mut fs);
            factors.push(Expr::pow_raw(prod(fs), Expr::from(k)));
        }
    }
    rng.shuffle(&mut factors);
    let expr = match rng.us(5) {
        _ if factors.len() == 1 => factors.remove(0),
        0 if !factors.is_empty() => cx.setup(|| factors.iter().fold(Expr::one(), |p, f| Expr::mul(p, f)))?,
        1 if !factors.is_empty() => {
            let last = factors.pop().unwrap();
            prod(vec![prod(factors), last])
        }
        2 if factors.len() > 1 => {
            // a product of products
            let mut parts = vec![];
            while !factors.is_empty() {
                let n = (1 + rng.us(3)).min(factors.len());
                parts.push(prod(factors.drain(..n).collect()));
            }
            prod(parts)
        }
        _ => prod(factors),
    };
    let g = num_integer::gcd(c.0, c.1);
    Ok(Term { c: (c.0 / g, c.1 / g), pi, composite, exps, expr })
}
/// a power of a generalized variable; records the exponent, k times
fn factor(rng: &mut Rng, use_sum: bool, k: i128, exps: &mut Exps) -> Option<Expr> {
    let gv = gvars();
    let i = match rng.us(3) {
        0 => rng.us(N_GV),
        _ => rng.us(3),
    };
    if i == 4 && !use_sum {
        return None;
    }
    let e = *rng.pick(&[1, 1, 1, 2, 2, 3, 4, 7]) as i128;
    exps[i] += e * k;
    Some(if e == 1 { gv[i].clone() } else { Expr::pow_raw(&gv[i], Expr::from(e)) })
}
/// value of the factors that are not among the variables
fn coeff_value(t: &Term, set: &[usize], env: &Env, gv: &[Expr]) -> R<N> {
    let mut v = N::frac(t.c.0, t.c.1);
    if t.pi {
        v = v.mul(&N::pi())?;
    }
    for i in 0..N_GV {
        if t.exps[i] > 0 && !set.contains(&i) {
            v = v.mul(&eval(&gv[i], env)?.pow(&N::int(t.exps[i]))?)?;
        }
    }
    Ok(v)
}
fn part(t: &Term, set: &[usize]) -> Vec<i128> {
    set.iter().map(|i| t.exps[*i]).collect()
}
fn key(set: &[usize], part: &[i128], gv: &[Expr], rng: &mut Rng) -> VarPow {
    let mut v: Vec<(Expr, i128)> = set.iter().zip(part).filter(|(_, d)| **d > 0).map(|(i, d)| (gv[*i].clone(), *d)).collect();
    rng.shuffle(&mut v);
    v.into()
}
fn eq<A: PartialEq + std::fmt::Debug>(what: &str, got: A, want: A) -> Res {
    if got != want {
        return fail(format!("{what}: wrong result"), format!("{what} gave {got:?}, expected {want:?}"));
    }
    Ok(())
}
/// the coefficient expression has the value of the given terms' coefficients
fn same(cx: &mut Cx, what: &str, got: &Expr, want: &dyn Fn(&Env) -> R<N>, rng: &mut Rng) -> Res {
    let env = env(rng, false);
    match (eval(got, &env), want(&env)) {
        (Ok(a), Ok(b)) => {
            cx.count("coefficients compared");
            if compare(&a, &b) == Cmp::Differ {
                return fail(format!("{what}: wrong coefficient"), format!("{what}: {} has the value {a}, expected {b} at {}", skel(got), env.show()));
            }
            Ok(())
        }
        (Err(e), Ok(b)) => fail(format!("{what}: undefined coefficient"), format!("{what}: {} has no value ({e:?}), expected {b}", skel(got))),
        _ => Ok(()),
    }
}

/// exponents of any size
fn huge(cx: &mut Cx, rng: &mut Rng) -> Res {
    let gv = gvars();
    let set = [0usize, 1, 3];
    let vars = VarSet::from(set.iter().map(|i| gv[*i].clone()).collect::<Vec<_>>());
    let mut want: BTreeMap<[i128; 3], Expr> = BTreeMap::new();
    let mut terms = vec![];
    let mut composite = false;
    for i in 0..1 + rng.us(4) {
        let mut exps = [0i128; 3];
        let mut fs = vec![];
        let c = Expr::var(["p", "q", "r", "s"][i]);
        fs.push(c.clone());
        let big = |rng: &mut Rng, bits: usize| (1i128 << rng.us(bits)) + rng.int(0, 3) as i128;
        for _ in 0..1 + rng.us(4) {
            let j = rng.us(3);
            let e = big(rng, 100);
            exps[j] += e;
            fs.push(Expr::pow_raw(&gv[set[j]], Expr::from(e)));
        }
        if rng.chance(1, 2) {
            composite = true;
            let k = big(rng, 50);
            let inner = (0..1 + rng.us(3))
                .map(|_| {
                    let j = rng.us(3);
                    let e = big(rng, 50);
                    exps[j] += e * k;
                    Expr::pow_raw(&gv[set[j]], Expr::from(e))
                })
                .collect();
            fs.push(Expr::pow_raw(prod(inner), Expr::from(k)));
        }
        rng.shuffle(&mut fs);
        if want.insert(exps, c).is_some() {
            return skip("like terms");
        }
        terms.push(prod(fs));
    }
    let poly = if terms.len() == 1 { terms.remove(0) } else { sum(terms) };
    cx.input = format!("{} in x, y, sin(a)", skel(&poly));
    cx.count("polynomials with exponents of any size");
    let p = poly.as_polynomial_view(&vars);
    if !composite {
        eq("check", cx.call("check", || p.check())?, true)?;
    }
    eq("degree", cx.call("degree", || p.degree())?, want.keys().map(|e| e.iter().sum::<i128>()).max())?;
    let coeffs = cx.call("coeffs", || p.coeffs())?;
    eq("coeffs: number of monomials", coeffs.len(), want.len())?;
    for (e, c) in &want {
        let v: Vec<(Expr, i128)> = set.iter().zip(e).filter(|x| *x.1 > 0).map(|(i, d)| (gv[*i].clone(), *d)).collect();
        let got = coeffs.get(&VarPow::from(v));
        if got.map(|g| skel(&g.reduce())) != Some(skel(c)) {
            return fail("coeffs: missing", format!("the coefficient of the exponents {e:?} is {:?}", got.map(skel)));
        }
    }
    for (k, i) in set.iter().enumerate() {
        let max = want.keys().map(|e| e[k]).max().unwrap();
        eq("degree_of", cx.call("degree_of", || p.degree_of(&gv[*i]))?, (max > 0).then_some(max))?;
        let with: Vec<_> = want.iter().filter(|(e, _)| e[k] == max).collect();
        if with.len() == 1 {
            let c = cx.call("leading_coeff_of", || p.leading_coeff_of(&gv[*i]))?;
            let of = cx.call("coeffs_of_deg", || p.coeffs_of_deg(&gv[*i], &max))?;
            for (what, c) in [("leading_coeff_of", c), ("coeffs_of_deg", of)] {
                if !c.as_ref().is_some_and(|c| any(c, &mut |s| s == with[0].1)) {
                    return fail(format!("{what}: wrong coefficient"), format!("{what} of {} is {:?}", skel(&gv[*i]), c.map(|c| skel(&c))));
                }
            }
        }
    }
    cx.seen(&cx.input.clone());
    Ok(())
}

fn view(cx: &mut Cx, rng: &mut Rng) -> Res {
    if rng.chance(1, 60) {
        return huge(cx, rng);
    }
    let gv = gvars();
    let use_sum = rng.chance(1, 3);
    let smart = !use_sum && rng.chance(1, 2);
    let k = *rng.pick(&[1, 1, 2, 2, 3, 4, 5, 7]);
    let mut terms = vec![];
    for _ in 0..k {
        terms.push(term(cx, rng, use_sum)?);
    }
    let mut set: Vec<usize> = (0..N_GV).collect();
    rng.shuffle(&mut set);
    let ns = 1 + rng.us(3);
    set.truncate(ns);
    if rng.chance(2, 3) && !set.contains(&0) {
        set[0] = 0;
    }
    let vars = match rng.us(3) {
        0 => VarSet::new(set.iter().map(|i| &gv[*i]).collect::<Vec<_>>()),
        1 if ns == 1 => VarSet::from(gv[set[0]].clone()),
        _ => VarSet::from(set.iter().map(|i| gv[*i].clone()).collect::<Vec<_>>()),
    };
    for (i, g) in gv.iter().enumerate() {
        eq("VarSet::has", vars.has(g), set.contains(&i))?;
    }
    eq("VarSet::iter", vars.iter().map(skel).collect::<Vec<_>>(), set.iter().map(|i| skel(&gv[*i])).collect())?;
    let poly = if terms.len() == 1 && rng.chance(2, 3) {
        terms[0].expr.clone()
    } else if smart {
        cx.setup(|| terms.iter().fold(Expr::zero(), |s, t| Expr::add(s, &t.expr)))?
    } else {
        sum(terms.iter().map(|t| t.expr.clone()).collect())
    };
    let mut groups: BTreeMap<Vec<i128>, Vec<&Term>> = BTreeMap::new();
    for t in &terms {
        groups.entry(part(t, &set)).or_default().push(t);
    }
    let names: Vec<String> = set.iter().map(|i| skel(&gv[*i])).collect();
    cx.input = format!("{} in {{{}}}", skel(&poly), names.join(", "));
    // terms that cancel are not part of a polynomial
    let probe = env(rng, false);
    for g in groups.values() {
        let mut s = N::int(0);
        for t in g {
            let Ok(v) = coeff_value(t, &set, &probe, &gv) else { return skip("probe") };
            let Ok(x) = s.add(&v) else { return skip("probe") };
            s = x;
        }
        if s.positive() != Some(true) && s.neg().positive() != Some(true) {
            return skip("cancelling terms");
        }
    }
    // all coefficients over all variables must not cancel either if the sum was simplified
    let zero_env = s_is_zero(&poly);
    // nor leave a zero behind
    let zero_term = matches!(poly.atom(), Atom::Sum(s) if s.args.iter().any(s_is_zero));
    if zero_env || zero_term {
        return skip("zero");
    }
    monomials(cx, rng, &terms, &set, &gv, &vars)?;
    let p = poly.as_polynomial_view(&vars);
    // whether the power of a product is itself a monomial is left open
    if !terms.iter().any(|t| t.composite) {
        eq("check", cx.call("check", || p.check())?, true)?;
    }
    let total = groups.keys().map(|e| e.iter().sum::<i128>()).max();
    eq("degree", cx.call("degree", || p.degree())?, total)?;
    let coeffs = cx.call("coeffs", || p.coeffs())?;
    eq("coeffs: number of monomials", coeffs.len(), groups.len())?;
    for (e, ts) in &groups {
        let k = key(&set, e, &gv, rng);
        let Some(c) = coeffs.get(&k) else {
            return fail("coeffs: missing", format!("no coefficient for the exponents {e:?} of {names:?}"));
        };
        same(cx, "coeffs", c, &|env| ts.iter().try_fold(N::int(0), |s, t| s.add(&coeff_value(t, &set, env, &gv)?)), rng)?;
    }
    for (i, v) in set.iter().enumerate() {
        let v = &gv[*v];
        let max = groups.keys().map(|e| e[i]).max().unwrap();
        let d = cx.call("degree_of", || p.degree_of(v))?;
        eq("degree_of", d, (max > 0).then_some(max))?;
        let of = cx.call("coeffs_of", || p.coeffs_of(v))?;
        let mut by_deg: BTreeMap<i128, Vec<&Term>> = BTreeMap::new();
        for t in &terms {
            by_deg.entry(t.exps[set[i]]).or_default().push(t);
        }
        let mut ds: Vec<i128> = of.keys().copied().collect();
        ds.sort();
        eq("coeffs_of: degrees", ds, by_deg.keys().copied().collect())?;
        let only = [set[i]];
        for (d, ts) in &by_deg {
            let want = |env: &Env| ts.iter().try_fold(N::int(0), |s, t| s.add(&coeff_value(t, &only, env, &gv)?));
            same(cx, "coeffs_of", &of[d], &want, rng)?;
            let c = cx.call("coeffs_of_deg", || p.coeffs_of_deg(v, d))?;
            match c {
                Some(c) => same(cx, "coeffs_of_deg", &c, &want, rng)?,
                None => return fail("coeffs_of_deg: none", format!("no coefficient of degree {d} in {}", skel(v))),
            }
            if *d == max {
                match cx.call("leading_coeff_of", || p.leading_coeff_of(v))? {
                    Some(c) => same(cx, "leading_coeff_of", &c, &want, rng)?,
                    None => return fail("leading_coeff_of: none", format!("no leading coefficient in {}", skel(v))),
                }
            }
        }
        let absent = max + 1 + rng.us(3) as i128;
        if cx.call("coeffs_of_deg", || p.coeffs_of_deg(v, &absent))?.is_some() {
            return fail("coeffs_of_deg: invented", format!("a coefficient of degree {absent} in {}", skel(v)));
        }
    }
    for v in (0..N_GV).filter(|i| !set.contains(i)) {
        eq("degree_of another", cx.call("degree_of", || p.degree_of(&gv[v]))?, None)?;
        let of = cx.call("coeffs_of", || p.coeffs_of(&gv[v]))?;
        eq("coeffs_of another: degrees", of.keys().copied().collect::<Vec<_>>(), vec![0])?;
    }
    match cx.call("collect_terms", || p.collect_terms())? {
        None => return fail("collect_terms: none", "None for a polynomial"),
        Some(c) => {
            let want = |env: &Env| eval(&poly, env);
            same(cx, "collect_terms", &c, &want, rng)?;
            if poly_is_sum(&poly) && groups.len() > 1 {
                // one term per monomial
                let got = match c.atom() {
                    Atom::Sum(s) => s.args.len(),
                    _ => 1,
                };
                let const_sum = groups.contains_key(&vec![0; set.len()]) || set.contains(&4);
                if got != groups.len() && !const_sum {
                    return fail("collect_terms: not collected", format!("{} monomials collected into {}", groups.len(), skel(&c)));
                }
            }
        }
    }
    non_polynomial(cx, rng, &terms, &set, &gv, &vars)?;
    if rng.chance(1, 4) {
        itself(cx, rng)?;
    }
    cx.count("polynomials");
    if terms.len() > 1 || terms[0].exps.iter().any(|e| *e > 0) {
        cx.input = format!("{} in {{{}}}", skel(&poly), names.join(", "));
        cx.seen(&cx.input.clone());
        cx.sample(|| format!("{} in {{{}}}: {} monomials, degree {total:?}", skel(&poly), names.join(", "), groups.len()));
    }
    Ok(())
}
fn poly_is_sum(e: &Expr) -> bool {
    matches!(e.atom(), Atom::Sum(_))
}
fn s_is_zero(e: &Expr) -> bool {
    matches!(e.atom(), Atom::Rational(r) if r.numer() == 0)
}
fn monomials(cx: &mut Cx, rng: &mut Rng, terms: &[Term], set: &[usize], gv: &[Expr], vars: &VarSet) -> Res {
    let t = rng.pick(terms);
    let e = part(t, set);
    let m = t.expr.as_monomial_view(vars);
    let check = t.composite || cx.call("monomial.check", || m.check())?;
    eq("monomial check", check, true)?;
    eq("monomial degree", cx.call("monomial.degree", || m.degree())?, Some(e.iter().sum::<i128>()))?;
    match cx.call("monomial.coeff", || m.coeff())? {
        None => return fail("monomial coeff: none", format!("no coefficient for {}", skel(&t.expr))),
        Some((c, k)) => {
            if k != key(set, &e, gv, rng) {
                return fail("monomial coeff: wrong variables", format!("{k:?} for {}", skel(&t.expr)));
            }
            eq("total_deg", k.total_deg(), e.iter().sum::<i128>())?;
            eq("is_const", k.is_const(), e.iter().all(|d| *d == 0))?;
            same(cx, "monomial coeff", &c, &|env| coeff_value(t, set, env, gv), rng)?;
        }
    }
    for (i, d) in set.iter().zip(&e) {
        let got = cx.call("monomial.degree_of", || m.degree_of(&gv[*i]))?;
        eq("monomial degree_of", got, (*d > 0).then_some(*d))?;
    }
    // anything else is part of the coefficient
    for v in (0..N_GV).filter(|i| !set.contains(i)) {
        eq("monomial degree_of another", cx.call("monomial.degree_of", || m.degree_of(&gv[v]))?, None)?;
    }
    // the generalized variables of a polynomial in plain variables
    let plain: Vec<&Term> = terms.iter().filter(|t| !t.composite && t.exps[3..].iter().all(|d| *d == 0)).collect();
    if !plain.is_empty() {
        let s = sum(plain.iter().map(|t| t.expr.clone()).collect());
        let got = cx.call("variables", || s.variables())?;
        let mut got: Vec<String> = got.iter().map(skel).collect();
        got.sort();
        let want: Vec<String> = (0..3).filter(|i| plain.iter().any(|t| t.exps[*i] > 0)).map(|i| skel(&gv[i])).collect();
        eq("variables", got, want)?;
    }
    Ok(())
}
/// a sum, a product or a power that is itself one of the variables
fn itself(cx: &mut Cx, rng: &mut Rng) -> Res {
    let gv = gvars();
    let g = match rng.us(4) {
        0 | 1 => {
            // a sum whose terms contain other variables
            let mut a = vec![gv[rng.us(3)].clone(), Expr::pow_raw(&gv[rng.us(3)], Expr::two())];
            if rng.chance(1, 2) {
                a.push(mk_rat(rng.int(1, 9) as i128, 1));
            }
            sum(a)
        }
        2 => prod(vec![gv[0].clone(), gv[3].clone()]),
        _ => Expr::pow_raw(&gv[1], &gv[0]),
    };
    let k = rng.int(1, 4) as i128;
    let others: Vec<Expr> = (0..rng.us(3)).map(|i| Expr::var(["k", "l"][i])).collect();
    let vars = VarSet::from(others.iter().cloned().chain([g.clone()]).collect::<Vec<_>>());
    // the variable itself, in another order of arguments; or a power of it
    let e = super::norm::shuffled(&g, rng);
    let (e, deg) = if k == 1 { (e, 1) } else { (Expr::pow_raw(e, Expr::from(k)), k) };
    cx.input = format!("{} in {{{}}}", skel(&e), skel(&g));
    let p = e.as_polynomial_view(&vars);
    let m = e.as_monomial_view(&vars);
    let key = VarPow::from(vec![(g.clone(), deg)]);
    eq("check of a variable", (cx.call("check", || p.check())?, cx.call("monomial.check", || m.check())?), (true, true))?;
    eq("degree of a variable", (cx.call("degree", || p.degree())?, cx.call("monomial.degree", || m.degree())?), (Some(deg), Some(deg)))?;
    eq("degree_of a variable", (cx.call("degree_of", || p.degree_of(&g))?, cx.call("monomial.degree_of", || m.degree_of(&g))?), (Some(deg), Some(deg)))?;
    let c = cx.call("coeffs", || p.coeffs())?;
    eq("coeffs of a variable", (c.len(), c.get(&key).map(skel)), (1, Some("1".into())))?;
    let c = cx.call("monomial.coeff", || m.coeff())?;
    eq("coeff of a variable", c.map(|(c, k)| (skel(&c), k == key)), Some(("1".into(), true)))?;
    let c = cx.call("coeffs_of", || p.coeffs_of(&g))?;
    eq("coeffs_of a variable", (c.len(), c.get(&deg).map(skel)), (1, Some("1".into())))?;
    eq("leading_coeff_of a variable", cx.call("leading_coeff_of", || p.leading_coeff_of(&g))?.map(|c| skel(&c)), Some("1".into()))?;
    let c = cx.call("collect_terms", || p.collect_terms())?;
    eq("collect_terms of a variable", c.as_ref().map(canon), Some(canon(&e)))?;
    // the order of monomials is that of their degrees
    let other = VarPow::from(vec![(gv[5].clone(), rng.int(1, 4) as i128), (gv[6].clone(), 1)]);
    let want = deg.cmp(&other.total_deg());
    eq("VarPow::cmp", (key.cmp(&other), key.partial_cmp(&other)), (want, Some(want)))?;
    cx.count("variables read as polynomials");
    Ok(())
}
/// one term is spoiled: no longer a polynomial in the variables
fn non_polynomial(cx: &mut Cx, rng: &mut Rng, terms: &[Term], set: &[usize], gv: &[Expr], vars: &VarSet) -> Res {
    let v = &gv[*rng.pick(set)];
    let bad = match rng.us(7) {
        0 => Expr::pow_raw(v, Expr::from(-rng.int(1, 3))),
        1 => Expr::pow_raw(v, mk_rat(rng.int(0, 4) as i128 * 2 + 1, 2)),
        2 => Expr::cos(v),
        3 => sum(vec![v.clone(), Expr::one()]),
        4 => Expr::pow_raw(Expr::from(2), v),
        5 => Expr::pow_raw(v, Expr::var("m")),
        _ => Expr::undef(),
    };
    if set.iter().any(|i| canon(&gv[*i]) == canon(&bad)) {
        return Ok(());
    }
    let bad_factor = match rng.us(3) {
        0 => bad.clone(),
        1 => prod(vec![Expr::from(3), bad.clone()]),
        _ => {
            let mut fs: Vec<Expr> = set.iter().map(|i| Expr::pow_raw(&gv[*i], Expr::from(2))).collect();
            fs.insert(rng.us(fs.len() + 1), bad.clone());
            prod(fs)
        }
    };
    let mut args: Vec<Expr> = terms.iter().map(|t| t.expr.clone()).collect();
    let plus_one = matches!(bad.atom(), Atom::Sum(_));
    let m = if plus_one { prod(vec![Expr::from(3), bad.clone()]) } else { bad_factor };
    args.insert(rng.us(args.len() + 1), m.clone());
    let e = if rng.chance(1, 3) { m.clone() } else { sum(args) };
    cx.input = skel(&e);
    let p = e.as_polynomial_view(vars);
    eq("check of a non-polynomial", cx.call("check", || p.check())?, false)?;
    eq("degree of a non-polynomial", cx.call("degree", || p.degree())?, None)?;
    eq("coeffs of a non-polynomial", cx.call("coeffs", || p.coeffs())?.len(), 0)?;
    if cx.call("collect_terms", || p.collect_terms())?.is_some() {
        return fail("collect_terms of a non-polynomial", format!("not None for {}", skel(&e)));
    }
    let mv = m.as_monomial_view(vars);
    eq("check of a non-monomial", cx.call("monomial.check", || mv.check())?, false)?;
    if cx.call("monomial.coeff", || mv.coeff())?.is_some() {
        return fail("coeff of a non-monomial", format!("not None for {}", skel(&m)));
    }
    eq("degree of a non-monomial", cx.call("monomial.degree", || mv.degree())?, None)?;
    for i in set {
        let v = &gv[*i];
        eq("degree_of of a non-monomial", cx.call("monomial.degree_of", || mv.degree_of(v))?, None)?;
        eq("degree_of of a non-polynomial", cx.call("degree_of", || p.degree_of(v))?, None)?;
        eq("coeffs_of of a non-polynomial", cx.call("coeffs_of", || p.coeffs_of(v))?.len(), 0)?;
        eq("leading_coeff_of of a non-polynomial", cx.call("leading_coeff_of", || p.leading_coeff_of(v))?.map(|e| skel(&e)), None)?;
        let d = rng.us(3) as i128;
        eq("coeffs_of_deg of a non-polynomial", cx.call("coeffs_of_deg", || p.coeffs_of_deg(v, &d))?.map(|e| skel(&e)), None)?;
    }
    cx.count("non-polynomials");
    Ok(())
}
pub fn props() -> Vec<Prop> {
    vec![Prop { id: "C13", title: "polynomial views", run: view, quick: 450_000, thorough: 4_000_000, rule: "random tree read as polynomial/monomial in random variables, every query compared with an independent polynomial arithmetic; non-trivial: distinct tree and variable set", ..DEF }]
}
