//! Properties judged by the value oracle.
use super::norm::canon;
use super::{Prop, DEF};
use crate::cx::*;
use crate::eval::*;
use crate::rng::Rng;
use crate::poly::*;
use crate::tree::*;
use calcu_rs::atom::{Atom, Func, Real, Irrational};
use calcu_rs::{Expr, SymbolicExpr};

fn size(rng: &mut Rng) -> usize {
    match rng.us(10) {
        0..=3 => 2 + rng.us(6),
        4..=7 => 6 + rng.us(10),
        8 => 14 + rng.us(16),
        _ => 25 + rng.us(25),
    }
}
/// a random input: tree, profile, expression
pub fn input(cx: &mut Cx, rng: &mut Rng, profs: &[Prof]) -> Res<(T, Prof, Expr)> {
    input_as(cx, rng, profs, true)
}
/// `rich`: multiplying it out may take long
fn input_as(cx: &mut Cx, rng: &mut Rng, profs: &[Prof], rich: bool) -> Res<(T, Prof, Expr)> {
    let p = *rng.pick(profs);
    let t = formula(cx, rng, p, rich);
    let e = made(cx, rng, &t)?;
    Ok((t, p, e))
}
/// the tree as an expression, built in a random way
pub fn made(cx: &mut Cx, rng: &mut Rng, t: &T) -> Res<Expr> {
    let mode = *rng.pick(&MODES);
    let deg = rng.chance(1, 4);
    cx.input = format!("{t} [{mode:?}]");
    let e = cx.setup(|| build(t, mode, deg, rng))?;
    cx.input = format!("{t} [{mode:?}] = {}", skel(&e));
    Ok(e)
}

fn formula(cx: &mut Cx, rng: &mut Rng, p: Prof, rich: bool) -> T {
    if rng.chance(1, 40) {
        cx.count("long sums and products");
        return long(rng, p, rich);
    }
    let n = size(rng);
    gen(rng, p, n)
}
fn construct(cx: &mut Cx, rng: &mut Rng) -> Res {
    let p = *rng.pick(&PROFS);
    let t = formula(cx, rng, p, true);
    let mode = *rng.pick(&MODES);
    let deg = rng.chance(1, 4);
    cx.input = format!("{t} [{mode:?}]");
    let e = cx.call(&format!("construct.{mode:?}"), || build(&t, mode, deg, rng))?;
    let ok = cx.same_value("construct", rng, p.neg_env, 3, &|env| t.eval_strict(env), &e, t.hazard(p.neg_env))?;
    if ok > 0 && size_of(&e) > 2 {
        cx.seen(&skel(&e));
        cx.sample(|| format!("{t} [{mode:?}] -> {}", skel(&e)));
    }
    Ok(())
}
fn size_of(e: &Expr) -> usize {
    crate::eval::size(e)
}

pub fn rewrite(cx: &mut Cx, rng: &mut Rng, op: &str, p: Prof, e: &Expr, f: impl FnOnce(&Expr) -> Expr) -> Res<Expr> {
    let r = cx.call(op, || f(e))?;
    let ok = cx.same_value(op, rng, p.neg_env, 3, &|env| eval_strict(e, env), &r, hazard(e, p.neg_env))?;
    if ok > 0 && size_of(e) > 2 {
        let (a, b) = (skel(e), skel(&r));
        if a != b {
            cx.count(&format!("changed.{op}"));
            cx.seen(&format!("{op} {a}"));
            cx.sample(|| format!("{op}: {a} -> {b}"));
        }
    }
    Ok(r)
}

fn reduce(cx: &mut Cx, rng: &mut Rng) -> Res {
    let (_, p, e) = input(cx, rng, &PROFS)?;
    rewrite(cx, rng, "reduce", p, &e, |e| e.reduce())?;
    Ok(())
}
fn expand(cx: &mut Cx, rng: &mut Rng) -> Res {
    if rng.chance(1, 3) {
        return expand_poly(cx, rng);
    }
    let (_, p, e) = input_as(cx, rng, &PROFS, false)?;
    let op: (&str, fn(&Expr) -> Expr) =
        *rng.pick(&[("expand", Expr::expand as fn(&Expr) -> Expr), ("expand_main_op", Expr::expand_main_op), ("distribute", Expr::distribute)]);
    rewrite(cx, rng, op.0, p, &e, op.1)?;
    Ok(())
}
fn int_pow(e: &Expr) -> Option<(&Expr, i128)> {
    match e.atom() {
        Atom::Pow(p) => match p.exponent().atom() {
            Atom::Rational(r) if r.denom() == 1 => Some((p.base(), r.numer())),
            _ => None,
        },
        _ => None,
    }
}
fn is_prod(e: &Expr) -> bool {
    matches!(e.atom(), Atom::Prod(s) if s.args.len() > 1)
}
fn is_sum(e: &Expr) -> bool {
    matches!(e.atom(), Atom::Sum(s) if s.args.len() > 1)
}
/// expanding a polynomial expression yields its monomials
fn expand_poly(cx: &mut Cx, rng: &mut Rng) -> Res {
    let n = size(rng).min(24);
    let t = gen(rng, POLY, n);
    let Some(poly) = Poly::of_tree(&t) else { return skip("not a (small) polynomial") };
    if !poly.small(60) {
        return skip("large coefficients");
    }
    for t in [t.clone(), rearranged(&t, rng)] {
        let mode = *rng.pick(&MODES);
        cx.input = format!("{t} [{mode:?}]");
        let mut e = cx.setup(|| build(&t, mode, false, rng))?;
        e = cx.setup(|| e.reduce())?;
        cx.input = format!("{t} [{mode:?}] = {}", skel(&e));
        let x = cx.call("expand", || e.expand())?;
        if any(&x, &mut |e| matches!(e.atom(), Atom::Prod(p) if p.args.iter().any(is_sum))) {
            return fail("expand: product of a sum left", format!("expand gave {}", skel(&x)));
        }
        if any(&x, &mut |e| int_pow(e).is_some_and(|(b, n)| n >= 2 && is_sum(b))) {
            return fail("expand: power of a sum left", format!("expand gave {}", skel(&x)));
        }
        let r = cx.call("reduce", || x.reduce())?;
        match Poly::of_expanded(&r) {
            Ok(q) if q == poly => (),
            Ok(q) => return fail("expand: other polynomial", format!("expand and reduce gave {} = {}, expected {}", skel(&r), q.show(), poly.show())),
            Err(why) => return fail("expand: not a sum of monomials", format!("expand and reduce gave {} ({why}), expected {}", skel(&r), poly.show())),
        }
        if poly.0.is_empty() {
            cx.count("poly.zero");
        }
        cx.count("poly.expanded");
        if size_of(&e) > 2 {
            cx.seen(&skel(&e));
            cx.sample(|| format!("expand: {} -> {}", skel(&e), skel(&r)));
        }
    }
    Ok(())
}
fn frac(cx: &mut Cx, rng: &mut Rng) -> Res {
    match rng.us(5) {
        0 => return common(cx, rng),
        1 => return separate(cx, rng),
        _ => (),
    }
    let (_, p, e) = input_as(cx, rng, &PROFS, false)?;
    let op: (&str, fn(&Expr) -> Expr) = *rng.pick(&[
        ("rationalize", Expr::rationalize as fn(&Expr) -> Expr),
        ("factor_out", Expr::factor_out),
        ("cancel", Expr::cancel),
        ("num/den", |e| Expr::div_raw(e.numerator(), e.denominator())),
        ("try_as_div", |e| match e.try_as_div() {
            Some((n, d)) => Expr::div_raw(n, d),
            None => e.clone(),
        }),
    ]);
    let reduced = rng.chance(1, 3);
    let e = if reduced { cx.setup(|| e.reduce())? } else { e };
    cx.input = skel(&e);
    let r = rewrite(cx, rng, op.0, p, &e, op.1)?;
    if op.0 == "rationalize" && reduced {
        cx.count("rationalize.structure");
        if let Atom::Sum(s) = r.atom() {
            if s.args.iter().any(has_denominator) {
                return fail("rationalize: fraction left", format!("rationalize gave {}", skel(&r)));
            }
        }
    }
    Ok(())
}
/// a term with a reciprocal factor or a fraction as coefficient
fn has_denominator(e: &Expr) -> bool {
    match e.atom() {
        Atom::Rational(r) => r.denom() != 1,
        Atom::Pow(p) => p.exponent().is_min_one(),
        Atom::Prod(p) => p.args.iter().any(has_denominator),
        _ => false,
    }
}
fn mono(rng: &mut Rng, n: usize) -> (T, [i128; 3]) {
    let mut t = int(rng.int(1, 6) as i128);
    let mut d = [0; 3];
    let mut v = vec![0usize, 1, 2];
    rng.shuffle(&mut v);
    for i in v.into_iter().take(n) {
        let k = rng.int(1, 4) as i128;
        d[i] = k;
        let x = bx(var(i as u8));
        let f = if k == 1 { *x } else { T::Pow(x, bx(int(k))) };
        t = if rng.chance(1, 2) { T::Mul(bx(t), bx(f)) } else { T::Mul(bx(f), bx(t)) };
    }
    (t, d)
}
/// the product of two monomials' variables that divides both
fn common_mono(cx: &mut Cx, rng: &mut Rng) -> Res {
    let (ka, kb) = (rng.us(4), rng.us(4));
    let (a, da) = mono(rng, ka);
    let (b, db) = mono(rng, kb);
    let mode = *rng.pick(&[Mode::Smart, Mode::Ops]);
    cx.input = format!("{a} and {b} [{mode:?}]");
    let (l, r) = cx.setup(|| (build(&a, mode, false, rng).reduce(), build(&b, mode, false, rng).reduce()))?;
    cx.input = format!("{} and {}", skel(&l), skel(&r));
    let f = cx.call("common_factors", || Expr::common_factors(&l, &r))?;
    let f = cx.setup(|| f.reduce())?;
    let mut w = [0u32; 6];
    for i in 0..3 {
        w[i] = da[i].min(db[i]) as u32;
    }
    match Poly::of_expanded(&f) {
        Ok(q) if q.0.keys().eq([&w]) => (),
        _ => return fail("common_factors: not the greatest common monomial", format!("the common factor of {} and {} is {}", skel(&l), skel(&r), skel(&f))),
    }
    cx.count("monomial pairs");
    cx.seen(&cx.input.clone());
    Ok(())
}
/// the same for positive fractional exponents, variables and functions as bases
fn common_frac(cx: &mut Cx, rng: &mut Rng) -> Res {
    let bases = [var(0), var(1), T::Fun("sin", bx(var(0))), T::Ln(bx(var(2)))];
    let side = |rng: &mut Rng| {
        let mut t = Gen::new(rng, POLY).coef();
        if t == int(0) {
            t = int(6)
        }
        let mut w = [(0i128, 1i128); 4];
        for i in 0..4 {
            if rng.chance(3, 5) {
                let n = match rng.us(16) {
                    0 => (1i128 << rng.us(90)) + rng.int(0, 2) as i128,
                    _ => rng.int(1, 9) as i128,
                };
                let e = norm(n, rng.int(1, 4) as i128);
                let T::Rat(n, d) = e else { unreachable!() };
                w[i] = (n, d);
                let f = if (n, d) == (1, 1) { bases[i].clone() } else { T::Pow(bx(bases[i].clone()), bx(e)) };
                t = if rng.chance(1, 2) { T::Mul(bx(t), bx(f)) } else { T::Mul(bx(f), bx(t)) };
            }
        }
        (t, w)
    };
    let ((a, wa), (b, wb)) = (side(rng), side(rng));
    cx.input = format!("{a} and {b}");
    let (l, r) = cx.setup(|| (build(&a, Mode::Smart, false, rng).reduce(), build(&b, Mode::Smart, false, rng).reduce()))?;
    cx.input = format!("{} and {}", skel(&l), skel(&r));
    let f = cx.call("common_factors", || Expr::common_factors(&l, &r))?;
    let f = cx.setup(|| f.reduce())?;
    let bases: Vec<String> = cx.setup(|| bases.iter().map(|b| skel(&build(b, Mode::Smart, false, rng))).collect())?;
    let mut got = [(0i128, 1i128); 4];
    let args = match f.atom() {
        Atom::Prod(p) => p.args.clone(),
        _ => vec![f.clone()],
    };
    let mut bad = false;
    for a in &args {
        let (b, e) = match a.atom() {
            Atom::Rational(_) => continue,
            Atom::Pow(p) => match p.exponent().atom() {
                Atom::Rational(r) => (p.base().clone(), (r.numer(), r.denom())),
                _ => (a.clone(), (1, 1)),
            },
            _ => (a.clone(), (1, 1)),
        };
        match bases.iter().position(|x| *x == skel(&b)) {
            Some(i) if got[i].0 == 0 => got[i] = e,
            _ => bad = true,
        }
    }
    let min = |a: (i128, i128), b: (i128, i128)| if a.0 * b.1 <= b.0 * a.1 { a } else { b };
    if bad || (0..4).any(|i| got[i] != if wa[i].0 == 0 || wb[i].0 == 0 { (0, 1) } else { min(wa[i], wb[i]) }) {
        return fail("common_factors: not the greatest common monomial", format!("the common factor of {} and {} is {}", skel(&l), skel(&r), skel(&f)));
    }
    cx.count("fractional monomial pairs");
    cx.seen(&cx.input.clone());
    Ok(())
}
/// exponents of the variables that are direct factors of e
fn direct(e: &Expr, w: &mut [i128; 3], sign: i128) {
    match e.atom() {
        Atom::Prod(p) => p.args.iter().for_each(|a| direct(a, w, sign)),
        Atom::Var(v) => {
            let i = VARS.iter().position(|x| *x == v.to_string()).unwrap();
            w[i] += sign
        }
        Atom::Pow(p) => {
            if let Some((b, n)) = int_pow(e) {
                direct(b, w, sign * n)
            }
            let _ = p;
        }
        _ => (),
    }
}
fn content(rng: &mut Rng) -> Option<(T, [i128; 3])> {
    // a polynomial of several terms without a monomial factor, times a monomial
    let n = 3 + rng.us(8);
    let t = gen(rng, Prof { max_pow: 2, ..POLY }, n);
    let p = Poly::of_tree(&t)?;
    if p.0.len() < 2 || !p.small(20) {
        return None;
    }
    if (0..3).any(|i| p.0.keys().all(|m| m[i] > 0)) {
        return None;
    }
    let k = rng.us(4);
    let (m, d) = mono(rng, k);
    Some((T::Mul(bx(t), bx(m)), d))
}
fn pull_out(cx: &mut Cx, rng: &mut Rng) -> Res {
    let (Some((a, da)), Some((b, db))) = (content(rng), content(rng)) else { return skip("no content") };
    cx.input = format!("{a} over {b}");
    let (l, r) = cx.setup(|| (build(&a, Mode::Smart, false, rng).expand().reduce(), build(&b, Mode::Smart, false, rng).expand().reduce()))?;
    if rng.chance(1, 2) {
        cx.input = skel(&l);
        let f = cx.call("factor_out", || l.factor_out())?;
        let mut w = [0; 3];
        direct(&f, &mut w, 1);
        if w != da {
            return fail("factor_out: common factor not pulled out", format!("{} gave {}", skel(&l), skel(&f)));
        }
    } else {
        let e = cx.setup(|| Expr::div(&l, &r))?;
        cx.input = skel(&e);
        let f = cx.call("cancel", || e.cancel())?;
        let mut w = [0; 3];
        direct(&f, &mut w, 1);
        for i in 0..3 {
            if w[i] != da[i] - db[i] {
                return fail("cancel: common factor not cancelled", format!("{} gave {}", skel(&e), skel(&f)));
            }
        }
    }
    cx.count("contents");
    cx.seen(&cx.input.clone());
    Ok(())
}
fn common(cx: &mut Cx, rng: &mut Rng) -> Res {
    match rng.us(4) {
        0 if rng.chance(1, 2) => return common_frac(cx, rng),
        0 => return common_mono(cx, rng),
        1 => return pull_out(cx, rng),
        _ => (),
    }
    let p = *rng.pick(&PROFS);
    // expressions that share factors
    let mut g = || {
        let n = 1 + size(rng) / 3;
        gen(rng, p, n)
    };
    let (a, b, c) = (g(), g(), g());
    let (l, r) = match rng.us(4) {
        0 => (a.clone(), b.clone()),
        1 => (T::Mul(bx(a.clone()), bx(c.clone())), T::Mul(bx(c.clone()), bx(b.clone()))),
        2 => (T::Add(bx(T::Mul(bx(a.clone()), bx(c.clone()))), bx(T::Mul(bx(b.clone()), bx(c.clone())))), T::Mul(bx(c.clone()), bx(a.clone()))),
        _ => (T::Pow(bx(c.clone()), bx(int(rng.int(1, 5) as i128))), T::Mul(bx(b.clone()), bx(T::Pow(bx(c.clone()), bx(int(rng.int(1, 5) as i128)))))),
    };
    let mode = *rng.pick(&MODES);
    cx.input = format!("{l} and {r} [{mode:?}]");
    let (le, re) = cx.setup(|| (build(&l, mode, false, rng), build(&r, mode, false, rng)))?;
    cx.input = format!("{} and {}", skel(&le), skel(&re));
    let (f, (x, y)) = cx.call("factorize_common_terms", || Expr::factorize_common_terms(&le, &re))?;
    let f2 = cx.call("common_factors", || Expr::common_factors(&le, &re))?;
    if skel(&f) != skel(&f2) {
        return fail("common_factors", format!("{} but factorize_common_terms gave {}", skel(&f2), skel(&f)));
    }
    let hz = hazard(&le, p.neg_env) || hazard(&re, p.neg_env);
    let mut ok = 0;
    for (whole, other, part) in [(&le, &re, &x), (&re, &le, &y)] {
        ok += cx.same_fn(
            "factorize_common_terms",
            rng,
            p.neg_env,
            2,
            &|env| {
                eval_strict(other, env)?;
                eval_strict(whole, env)
            },
            &|env| {
                let (a, b) = (eval(&f, env)?, eval(part, env)?);
                a.mul(&b)
            },
            &|| format!("{} * {}", skel(&f), skel(part)),
            hz,
        )?;
    }
    if ok > 0 && !f.is_one() {
        cx.count("common factor found");
        cx.seen(&cx.input.clone());
        cx.sample(|| format!("{} and {}: common {}, rests {} and {}", skel(&le), skel(&re), skel(&f), skel(&x), skel(&y)));
    }
    Ok(())
}
fn separate(cx: &mut Cx, rng: &mut Rng) -> Res {
    let (_, p, e) = input_as(cx, rng, &PROFS, false)?;
    let name = VARS[rng.us(3)];
    let x = Expr::var(name);
    let (free, dep) = cx.call("separate_factors", || e.separate_factors(&x))?;
    let has = |e: &Expr| any(e, &mut |s| matches!(s.atom(), Atom::Var(v) if v.to_string() == name));
    if has(&free) {
        return fail("separate_factors: not free", format!("the part of {} free of {name} is {}", skel(&e), skel(&free)));
    }
    if let Atom::Prod(q) = e.atom() {
        // every factor went to the side where it belongs
        if !q.args.iter().any(&has) && has(&dep) {
            return fail("separate_factors: dependent", format!("{} -> {}", skel(&e), skel(&dep)));
        }
    }
    let hz = hazard(&e, p.neg_env);
    let ok = cx.same_fn(
        "separate_factors",
        rng,
        p.neg_env,
        2,
        &|env| eval_strict(&e, env),
        &|env| eval(&free, env)?.mul(&eval(&dep, env)?),
        &|| format!("{} and {}", skel(&free), skel(&dep)),
        hz,
    )?;
    if ok > 0 && matches!(e.atom(), Atom::Prod(_)) && !dep.is_one() && !free.is_one() {
        cx.count("separated");
        cx.seen(&format!("separate {name} {}", skel(&e)));
    }
    Ok(())
}
/// a product of a number, powers of variables and powers of sines and cosines
fn trig_monomial(cx: &mut Cx, rng: &mut Rng) -> Res<Expr> {
    // one power, or several different functions
    let power = rng.chance(1, 2);
    let mut t = Gen::new(rng, POLY).coef();
    let k = if power { 1 } else { 1 + rng.us(4) };
    // powers that are not contracted, next to functions that are
    let odd = !power && rng.chance(1, 3);
    let mut args = vec![];
    while args.len() < k {
        let a = T::Add(bx(T::Mul(bx(int(rng.int(1, 4) as i128)), bx(var(rng.us(2) as u8)))), bx(var(2)));
        let a = if rng.chance(1, 2) { var(rng.us(3) as u8) } else { a };
        if !args.contains(&a) {
            args.push(a);
        }
    }
    for arg in args {
        let f = T::Fun(*rng.pick(&["sin", "cos"]), bx(arg));
        let f = match power {
            true => T::Pow(bx(f), bx(int(rng.int(2, 6) as i128))),
            _ if odd && rng.chance(1, 2) => {
                let (n, d) = *rng.pick(&[(1, 2), (3, 2), (1, 3), (2, 3), (5, 2), (-1, 1), (-2, 1), (-1, 2), (-3, 2)]);
                T::Pow(bx(f), bx(T::Rat(n, d)))
            }
            _ => f,
        };
        t = T::Mul(bx(t), bx(f));
        if rng.chance(1, 3) {
            t = T::Mul(bx(t), bx(var(rng.us(3) as u8)));
        }
    }
    let e = cx.setup(|| build(&t, Mode::Smart, false, rng).reduce())?;
    cx.count("trig monomials");
    Ok(e)
}
/// a product of sums of few different sines and cosines: powers and products show up
/// only when it is multiplied out
fn trig_product(cx: &mut Cx, rng: &mut Rng) -> Res<Expr> {
    let n = 2 + rng.us(2);
    let mut fs = vec![];
    for _ in 0..n {
        let mut t = None;
        for _ in 0..1 + rng.us(2) {
            let f = T::Fun(*rng.pick(&["sin", "cos"]), bx(var(rng.us(2) as u8)));
            let f = match rng.us(5) {
                0 => T::Mul(bx(int(rng.int(2, 3) as i128)), bx(f)),
                1 => T::Mul(bx(var(2)), bx(f)),
                2 => var(rng.us(2) as u8),
                _ => f,
            };
            t = Some(match t {
                None => f,
                Some(t) => T::Add(bx(t), bx(f)),
            });
        }
        fs.push(t.unwrap());
    }
    let t = fs.into_iter().reduce(|a, b| T::Mul(bx(a), bx(b))).unwrap();
    let mode = *rng.pick(&[Mode::Smart, Mode::Ops, Mode::Mixed]);
    let e = cx.setup(|| build(&t, mode, false, rng))?;
    cx.count("products of trig sums");
    Ok(e)
}
fn trig(cx: &mut Cx, rng: &mut Rng) -> Res {
    let op: (&str, fn(&Expr) -> Expr) = *rng.pick(&[
        ("expand_trig", Expr::expand_trig as fn(&Expr) -> Expr),
        ("contract_trig", Expr::contract_trig),
        ("substitute_trig", Expr::substitute_trig),
        ("simplify_trig", Expr::simplify_trig),
    ]);
    let profs = [TRIG, TRIG, TRIG2, FULL];
    let (p, e) = if op.0 == "simplify_trig" {
        // its output grows exponentially with the input: keep the inputs small
        let p = Prof { max_pow: 2, ..*rng.pick(&profs) };
        let n = 2 + rng.us(9);
        let t = gen(rng, p, n);
        (p, made(cx, rng, &t)?)
    } else {
        let (_, p, e) = input_as(cx, rng, &profs, false)?;
        (p, e)
    };
    let reduced = rng.chance(1, 2);
    let mut e = if reduced { cx.setup(|| e.reduce())? } else { e };
    let monomial = op.0 == "contract_trig" && rng.chance(1, 3);
    if monomial {
        e = trig_monomial(cx, rng)?;
    } else if (op.0 == "contract_trig" || op.0 == "expand_trig") && rng.chance(1, 4) {
        e = trig_product(cx, rng)?;
    }
    cx.input = skel(&e);
    let r = rewrite(cx, rng, op.0, p, &e, op.1)?;
    if op.0 == "substitute_trig" && any(&r, &mut |e| matches!(e.atom(), Atom::Func(Func::Tan(_) | Func::Cot(_) | Func::Sec(_) | Func::Csc(_)))) {
        return fail("substitute_trig: not substituted", format!("substitute_trig gave {}", skel(&r)));
    }
    {
        let sc = |e: &Expr| matches!(e.atom(), Atom::Func(Func::Sin(_) | Func::Cos(_)));
        let bad = match op.0 {
            "contract_trig" if monomial => any(&r, &mut |e| match e.atom() {
                Atom::Prod(p) => p.args.iter().filter(|a| sc(a)).count() > 1,
                Atom::Pow(_) => int_pow(e).is_some_and(|(b, n)| n > 1 && sc(b)),
                _ => false,
            }),
            "expand_trig" => any(&r, &mut |e| match e.atom() {
                Atom::Func(Func::Sin(x) | Func::Cos(x)) => is_sum(x),
                _ => false,
            }),
            _ => false,
        };
        if bad {
            return fail(format!("{}: structure", op.0), format!("{}", skel(&r)));
        }
    }
    Ok(())
}
/// numbers whose values are out of reach: exp(n*x + y) = exp(x)^n * exp(y) and ln(x^n*y) = n*ln(x) + ln(y)
fn expln_huge(cx: &mut Cx, rng: &mut Rng) -> Res {
    let n = (1i128 << rng.us(120)) + rng.int(1, 3) as i128;
    let n = mk_rat(if rng.chance(1, 3) { -n } else { n }, 1);
    let (x, y) = (Expr::var(VARS[rng.us(3)]), Expr::var("w"));
    let rest = rng.chance(1, 2);
    cx.count("exponents of any size");
    let (what, e, want) = if rng.chance(1, 2) {
        let nx = prod(vec![n.clone(), x.clone()]);
        let ex = |e: &Expr| Expr::pow_raw(Expr::e(), e);
        let (e, want) = if rest { (ex(&sum(vec![nx.clone(), y.clone()])), prod(vec![ex(&nx), ex(&y)])) } else { (ex(&nx), ex(&nx)) };
        ("expand_exponential", e, want)
    } else {
        let xn = Expr::pow_raw(&x, &n);
        let ln = prod(vec![n.clone(), Expr::ln(&x)]);
        if rest {
            ("expand_ln", Expr::ln(prod(vec![xn, y.clone()])), sum(vec![ln, Expr::ln(&y)]))
        } else {
            ("expand_ln", Expr::ln(xn), ln)
        }
    };
    cx.input = skel(&e);
    let r = cx.call(what, || if what == "expand_ln" { e.expand_ln() } else { e.expand_exponential() })?;
    let got = cx.call("reduce", || r.reduce())?;
    let want = cx.call("reduce", || want.reduce())?;
    if canon(&got) != canon(&want) {
        return fail(format!("{what}: value"), format!("{what} gives {}, expected {}", skel(&got), skel(&want)));
    }
    cx.seen(&cx.input.clone());
    Ok(())
}
fn expln(cx: &mut Cx, rng: &mut Rng) -> Res {
    if rng.chance(1, 200) {
        return expln_huge(cx, rng);
    }
    let (_, p, e) = input_as(cx, rng, &[EXPLN, EXPLN, FULL, POWX], false)?;
    let op: (&str, fn(&Expr) -> Expr) =
        *rng.pick(&[("expand_exponential", Expr::expand_exponential as fn(&Expr) -> Expr), ("expand_ln", Expr::expand_ln)]);
    let reduced = rng.chance(1, 2);
    let e = if reduced { cx.setup(|| e.reduce())? } else { e };
    cx.input = skel(&e);
    let r = rewrite(cx, rng, op.0, p, &e, op.1)?;
    if reduced {
        let bad = match op.0 {
            "expand_exponential" => any(&r, &mut |e| matches!(e.atom(), Atom::Pow(p) if matches!(p.base().atom(), Atom::Irrational(Irrational::E)) && is_sum(p.exponent()))),
            _ => any(&r, &mut |e| matches!(e.atom(), Atom::Func(Func::Log(Real::Irrational(Irrational::E), x)) if is_prod(x) || matches!(x.atom(), Atom::Pow(_)))),
        };
        if bad {
            return fail(format!("{}: structure", op.0), format!("{}", skel(&r)));
        }
    }
    Ok(())
}
pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C03", title: "construct", run: construct, quick: 2_400_000, thorough: 10000000, rule: "random formula (8 grammars: polynomial, rational, algebraic, variable exponents, trigonometric, exp/log, all) built over a random construction route, value compared with the formula's at 3 random points; non-trivial: distinct built tree of more than 2 nodes with at least one compared point", budget_is_violation: true, fuel: 60_000_000, cpu_ms: 60_000, ..DEF },
        Prop { id: "C04", title: "reduce", run: reduce, quick: 2_400_000, thorough: 10000000, rule: "random tree (5 construction routes, degenerate sums and products included), value compared before and after reduce at random points; non-trivial: distinct tree of more than 2 nodes with at least one compared point", budget_is_violation: true, fuel: 60_000_000, cpu_ms: 60_000, ..DEF },
        Prop { id: "C07", title: "expand", run: expand, quick: 900_000, thorough: 7500000, rule: "random tree expanded by each of the expanding operations, value compared at random points; polynomial trees also compared with the sum of monomials of an independent polynomial arithmetic; non-trivial: distinct tree with a compared point that expansion changed, or a distinct polynomial", ..DEF },
        Prop { id: "C08", title: "frac", run: frac, quick: 2_400_000, thorough: 10000000, rule: "random tree sent through each fraction/factoring operation, value compared at random points, structural claims checked on reduced trees and pairs of trees; non-trivial: distinct tree with a compared point", ..DEF },
        Prop { id: "C09", title: "trig", run: trig, quick: 600_000, thorough: 5000000, rule: "random trigonometric tree (or trigonometric monomial) sent through expand/contract/substitute/simplify_trig, value compared at random points, structure of the result checked; non-trivial: distinct tree with a compared point", ..DEF },
        Prop { id: "C10", title: "expln", run: expln, quick: 1_800_000, thorough: 10000000, rule: "random tree with exponentials and logarithms expanded, value compared at random points, structure of the result checked; non-trivial: distinct tree with a compared point", ..DEF },
    ]
}
