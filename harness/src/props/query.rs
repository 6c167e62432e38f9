//! C15 structural queries, C16 equality, hash and order.
use super::norm::{canon, shuffled, tweaked};
use super::value::{input, made};
use super::{Prop, DEF};
use crate::cx::*;
use crate::eval::*;
use crate::num::*;
use crate::rng::Rng;
use crate::tree::*;
use calcu_rs::algos::{CostFn, ExprCost};
use calcu_rs::atom::{Atom, Func, Irrational, Real};
use calcu_rs::rational::Rational;
use calcu_rs::{Expr, SymbolicExpr};
use std::cell::RefCell;
use std::cmp::Ordering;
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::ops::ControlFlow;

fn eq<A: PartialEq + Debug>(what: &str, got: A, want: A) -> Res {
    if got != want {
        return fail(format!("{what}: wrong answer"), format!("{what} is {got:?}, expected {want:?}"));
    }
    Ok(())
}
/// the arguments, taken from the tree itself
fn kids(e: &Expr) -> Vec<Expr> {
    match e.atom() {
        Atom::Undef | Atom::Rational(_) | Atom::Irrational(_) | Atom::Var(_) => vec![],
        Atom::Sum(s) => s.args.clone(),
        Atom::Prod(s) => s.args.clone(),
        Atom::Pow(p) => vec![p.base().clone(), p.exponent().clone()],
        Atom::Func(f) => vec![match f {
            Func::Sin(x) | Func::ArcSin(x) | Func::Cos(x) | Func::ArcCos(x) | Func::Tan(x) | Func::ArcTan(x) | Func::Sec(x)
            | Func::ArcSec(x) | Func::Cot(x) | Func::ArcCot(x) | Func::Csc(x) | Func::ArcCsc(x) | Func::Log(_, x) => x.clone(),
        }],
    }
}
fn walk(e: &Expr, out: &mut Vec<Expr>) {
    out.push(e.clone());
    kids(e).iter().for_each(|a| walk(a, out));
}
fn rebuilt(e: &Expr, mut k: Vec<Expr>) -> Expr {
    match e.atom() {
        Atom::Sum(_) => sum(k),
        Atom::Prod(_) => prod(k),
        Atom::Pow(_) => Expr::pow_raw(&k[0], &k[1]),
        Atom::Func(Func::Log(b, _)) => Expr::from(Atom::Func(Func::Log(b.clone(), k.remove(0)))),
        Atom::Func(f) => func_raw(fname(f), k.remove(0)),
        a => Expr::from(a.clone()),
    }
}
/// rename a variable, but not inside powers if `stop`
pub fn renamed(e: &Expr, from: &str, to: &str, stop: bool) -> Expr {
    match e.atom() {
        Atom::Var(v) if v.to_string() == from => Expr::var(to),
        Atom::Pow(_) if stop => e.clone(),
        _ => rebuilt(e, kids(e).iter().map(|a| renamed(a, from, to, stop)).collect()),
    }
}
fn is_const(e: &Expr) -> bool {
    matches!(e.atom(), Atom::Rational(_) | Atom::Irrational(_))
}
fn is_rat(e: &Expr) -> bool {
    matches!(e.atom(), Atom::Rational(_))
}
fn is_v(e: &Expr, n: i128) -> bool {
    matches!(e.atom(), Atom::Rational(r) if r.numer() == n && r.denom() == 1)
}

/// what an expression is a polynomial in: its variables, functions, powers (of positive
/// integer ones the base) and the sums among the factors of products
fn general(e: &Expr, factor: bool, out: &mut Vec<String>) {
    let mut put = |e: &Expr| {
        let c = canon(e);
        if !out.contains(&c) {
            out.push(c)
        }
    };
    match e.atom() {
        Atom::Var(_) | Atom::Func(_) => put(e),
        Atom::Pow(p) => match p.exponent().atom() {
            Atom::Rational(r) if r.denom() == 1 && r.numer() > 0 => put(p.base()),
            _ => put(e),
        },
        Atom::Sum(_) if factor => put(e),
        Atom::Sum(_) => kids(e).iter().for_each(|a| general(a, false, out)),
        Atom::Prod(_) => kids(e).iter().for_each(|a| general(a, true, out)),
        _ => (),
    }
}
fn query(cx: &mut Cx, rng: &mut Rng) -> Res {
    let (_, p, e) = input(cx, rng, &PROFS)?;
    let mut subs = vec![];
    walk(&e, &mut subs);
    // ---- listing
    let listed: Vec<String> = cx.call("iter_compl_sub_exprs", || e.iter_compl_sub_exprs().map(skel).collect())?;
    let mut listed = listed;
    listed.sort();
    let mut want: Vec<String> = subs.iter().map(skel).collect();
    want.sort();
    eq("iter_compl_sub_exprs", listed, want.clone())?;
    eq("ExprCost::cost", cx.call("cost", || ExprCost::cost(&e))?, subs.len())?;
    let visited = RefCell::new(vec![]);
    let mut copy = e.clone();
    cx.call("for_each_compl_sub_expr", || copy.for_each_compl_sub_expr(|s| visited.borrow_mut().push(skel(s))))?;
    let mut visited = visited.into_inner();
    visited.sort();
    eq("for_each_compl_sub_expr", visited, want)?;
    let (from, to) = (VARS[rng.us(3)], "w");
    let mut copy = e.clone();
    let rename = |s: &mut Expr| {
        if matches!(s.atom(), Atom::Var(v) if v.to_string() == from) {
            *s = Expr::var(to)
        }
    };
    cx.call("for_each_compl_sub_expr", || copy.for_each_compl_sub_expr(rename))?;
    eq("for_each_compl_sub_expr, renaming", skel(&copy), skel(&renamed(&e, from, to, false)))?;
    let mut copy = e.clone();
    cx.call("try_for_each_compl_sub_expr", || {
        copy.try_for_each_compl_sub_expr(|s| {
            rename(s);
            match s.atom() {
                Atom::Pow(_) => ControlFlow::Break(()),
                _ => ControlFlow::Continue(()),
            }
        })
    })?;
    eq("try_for_each_compl_sub_expr, stopping at powers", skel(&copy), skel(&renamed(&e, from, to, true)))?;
    let mut want = vec![];
    general(&e, false, &mut want);
    want.sort();
    let mut got: Vec<String> = cx.call("variables", || e.variables())?.iter().map(canon).collect();
    got.sort();
    if !want.is_empty() {
        cx.count("generalized variables");
    }
    eq("variables", got, want)?;
    // ---- containment
    let mut probes = vec![];
    for _ in 0..3 {
        let s = rng.pick(&subs).clone();
        probes.push(match rng.us(4) {
            0 => shuffled(&s, rng),
            1 => tweaked(&s, rng),
            2 => {
                let n = 1 + rng.us(3);
                let t = gen(rng, p, n);
                cx.setup(|| build(&t, Mode::Mixed, false, rng))?
            }
            _ => s,
        });
    }
    let keys: Vec<String> = subs.iter().map(canon).collect();
    let mut all_free = true;
    for q in &probes {
        let free = !keys.contains(&canon(q));
        all_free &= free;
        cx.count(if free { "free" } else { "contained" });
        let got = cx.call("free_of", || e.free_of(q))?;
        eq(&format!("free_of({})", skel(q)), got, free)?;
    }
    eq("free_of_set", cx.call("free_of_set", || e.free_of_set(probes.iter()))?, all_free)?;
    eq("free_of_set of nothing", cx.call("free_of_set", || e.free_of_set(std::iter::empty()))?, true)?;
    // ---- every sub-expression
    rng.shuffle(&mut subs);
    for s in subs.iter().take(8) {
        cx.input = skel(s);
        one(cx, rng, s)?;
    }
    if size(&e) > 2 {
        cx.seen(&skel(&e));
        cx.sample(|| format!("{}: {} sub-expressions", skel(&e), subs.len()));
    }
    Ok(())
}
fn one(cx: &mut Cx, rng: &mut Rng, s: &Expr) -> Res {
    let k = kids(s);
    let ks: Vec<String> = k.iter().map(skel).collect();
    eq("args", s.args().iter().map(skel).collect(), ks.clone())?;
    eq("iter_args", s.iter_args().map(skel).collect(), ks.clone())?;
    eq("n_args", s.n_args(), k.len())?;
    eq("is_atom", s.is_atom(), k.is_empty())?;
    let mut seen = vec![];
    s.for_each_arg(|a| seen.push(skel(a)));
    eq("for_each_arg", seen, ks)?;
    let m = cx.call("map_args", || s.clone().map_args(|a| *a = Expr::var("w")))?;
    eq("map_args", skel(&m), skel(&rebuilt(s, k.iter().map(|_| Expr::var("w")).collect())))?;

    // ---- type predicates
    use Atom as A;
    let a = s.atom();
    let r: Option<(i128, i128)> = match a {
        A::Rational(r) => Some((r.numer(), r.denom())),
        _ => None,
    };
    let int = match r {
        Some((n, 1)) => Some(n),
        _ => None,
    };
    let tests: [(&str, bool, bool); 24] = cx.call("predicates", || [
        ("is_zero", s.is_zero(), int == Some(0)),
        ("is_one", s.is_one(), int == Some(1)),
        ("is_min_one", s.is_min_one(), int == Some(-1)),
        ("is_neg", s.is_neg(), r.is_some_and(|r| r.0 < 0)),
        ("is_pos", s.is_pos(), r.is_some_and(|r| r.0 > 0)),
        ("is_int", s.is_int(), int.is_some()),
        ("is_even", s.is_even(), int.is_some_and(|i| i % 2 == 0)),
        ("is_odd", s.is_odd(), int.is_some_and(|i| i % 2 != 0)),
        ("is_number", s.is_number(), is_const(s)),
        ("is_real", s.is_real(), is_const(s)),
        ("is_const", s.is_const(), is_const(s)),
        ("is_rational", s.is_rational(), r.is_some()),
        ("is_irrational", s.is_irrational(), matches!(a, A::Irrational(_))),
        ("is_pi", s.is_pi(), matches!(a, A::Irrational(Irrational::PI))),
        ("is_e", s.is_e(), matches!(a, A::Irrational(Irrational::E))),
        ("is_undef", s.is_undef(), matches!(a, A::Undef)),
        ("is_var", s.is_var(), matches!(a, A::Var(_))),
        ("is_sum", s.is_sum(), matches!(a, A::Sum(_))),
        ("is_prod", s.is_prod(), matches!(a, A::Prod(_))),
        ("is_pow", s.is_pow(), matches!(a, A::Pow(_))),
        ("is_func", s.is_func(), matches!(a, A::Func(_))),
        ("is_sin", s.is_sin(), matches!(a, A::Func(Func::Sin(_)))),
        ("is_cos", s.is_cos(), matches!(a, A::Func(Func::Cos(_)))),
        ("is_irreducible", s.is_irreducible(), matches!(a, A::Undef | A::Rational(_) | A::Irrational(_) | A::Var(_))),
    ])?;
    for (name, got, want) in tests {
        eq(name, got, want)?;
    }
    eq("is_trig", s.is_trig(), matches!(a, A::Func(f) if !matches!(f, Func::Log(..))))?;
    eq("try_unwrap_int", s.try_unwrap_int(), int)?;
    if let Some(i) = int {
        eq("unwrap_int", s.unwrap_int(), i)?;
        eq("Expr::rational", skel(&Expr::rational(i)), skel(s))?;
    }
    match a {
        A::Sum(x) => {
            eq("Sum::is_zero", x.is_zero(), k.is_empty() || k.len() == 1 && is_v(&k[0], 0) || x.is_zero() && k.iter().all(|a| is_v(a, 0)))?;
            if x.is_undef() && !k.iter().any(|a| a.is_undef()) {
                return fail("Sum::is_undef", skel(s));
            }
        }
        A::Prod(x) => {
            eq("Prod::is_one", x.is_one(), k.is_empty() || k.len() == 1 && is_v(&k[0], 1) || x.is_one() && k.iter().all(|a| is_v(a, 1)))?;
            if x.is_undef() && !k.iter().any(|a| a.is_undef()) || x.is_zero() && !k.iter().any(|a| is_v(a, 0)) {
                return fail("Prod::is_undef or is_zero", skel(s));
            }
            if k.len() == 1 && (x.is_zero() != is_v(&k[0], 0) || x.is_undef() != k[0].is_undef()) {
                return fail("Prod::is_undef or is_zero", skel(s));
            }
        }
        _ => (),
    }
    let c = rng.int(-3, 3) as i128;
    eq("is_rational_and", s.is_rational_and(|r| r.numer() > c), r.is_some_and(|r| r.0 > c))?;
    let real = match a {
        A::Rational(r) => Some(format!("{}/{}", r.numer(), r.denom())),
        A::Irrational(Irrational::E) => Some("E".into()),
        A::Irrational(Irrational::PI) => Some("PI".into()),
        _ => None,
    };
    let got = s.try_as_real();
    if let Some(g) = &got {
        eq("Atom == Real", s.atom() == g, true)?;
        let ap = g.f64_approx();
        let want = match (a, r) {
            (A::Irrational(Irrational::E), _) => std::f64::consts::E,
            (A::Irrational(_), _) => std::f64::consts::PI,
            (_, Some((n, d))) => n as f64 / d as f64,
            _ => unreachable!(),
        };
        if (ap - want).abs() > 1e-12 * want.abs() {
            return fail("f64_approx", format!("f64_approx is {ap}, expected {want}"));
        }
    }
    let got = got.map(|r| match r {
        Real::Rational(r) => format!("{}/{}", r.numer(), r.denom()),
        Real::Irrational(Irrational::E) => "E".into(),
        Real::Irrational(Irrational::PI) => "PI".into(),
    });
    eq("try_as_real", got, real)?;
    if let A::Func(f) = a {
        let nat = matches!(f, Func::Log(Real::Irrational(Irrational::E), _));
        eq("is_nat_log", f.is_nat_log(), nat)?;
        eq("try_unwrap_nat_log_ref", f.try_unwrap_nat_log_ref().map(skel), nat.then(|| skel(&k[0])))?;
        let b = Real::Rational(Rational::from(rng.int(2, 10)));
        let hit = matches!(f, Func::Log(Real::Rational(r), _) if Real::Rational(*r) == b);
        eq("try_unwrap_log_base", f.try_unwrap_log_base(&b).map(skel), hit.then(|| skel(&k[0])))?;
        let name = match f {
            Func::Log(Real::Irrational(Irrational::E), _) => "ln",
            Func::Log(Real::Rational(r), _) if r.numer() == 10 && r.denom() == 1 => "log",
            Func::Log(..) => "",
            f => fname(f),
        };
        if !name.is_empty() {
            eq("name", f.name(), name.to_string())?;
        }
    }
    if let A::Pow(pw) = a {
        if !is_v(pw.exponent(), 1) {
            eq("is_exponential", s.is_exponential(), pw.base().is_e())?;
            eq("base", skel(&s.base()), skel(&k[0]))?;
            eq("exponent", skel(&s.exponent()), skel(&k[1]))?;
        }
    } else {
        eq("is_exponential", s.is_exponential(), false)?;
        if k.len() != 1 || matches!(a, A::Func(_)) {
            eq("base", skel(&s.base()), skel(s))?;
            eq("exponent", skel(&s.exponent()), "1".into())?;
        }
    }
    let again = Expr::pow_raw(s.base(), s.exponent());
    cx.same_value("base^exponent", rng, false, 1, &|env| eval_strict(s, env), &again, true)?;
    let flat = match a {
        A::Sum(_) | A::Prod(_) if k.len() == 1 => k[0].clone(),
        A::Pow(_) if is_v(&k[1], 1) => k[0].clone(),
        _ => s.clone(),
    };
    eq("flatten", skel(s.flatten()), skel(&flat))?;

    // ---- coefficient and term
    let (coeff, term) = match a {
        A::Undef | A::Rational(_) => (None, None),
        A::Prod(_) => {
            let mut c = Q::int(1);
            for x in &k {
                if let A::Rational(r) = x.atom() {
                    c = c.mul(&Q::frac(r.numer(), r.denom()));
                }
            }
            let rest: Vec<Expr> = k.iter().filter(|x| !is_rat(x)).cloned().collect();
            (Some(c), packed(rest))
        }
        _ => (Some(Q::int(1)), Some(s.clone())),
    };
    let got = cx.call("rational_coeff", || s.rational_coeff())?.map(|r| Q::frac(r.numer(), r.denom()));
    eq("rational_coeff", got, coeff)?;
    let got = cx.call("non_rational_term", || s.non_rational_term())?;
    eq("non_rational_term", got.as_ref().map(canon), term.as_ref().map(canon))?;
    match a {
        A::Prod(x) => {
            let rest: Vec<Expr> = k.iter().filter(|x| !is_const(x)).cloned().collect();
            eq("Prod::term", x.term().as_ref().map(canon), packed(rest).as_ref().map(canon))?;
            let (l, r) = x.as_binary_mul();
            split("as_binary_mul", &l, &r, &k, false)?;
            eq("Prod::first", x.first().map(|a| skel(&Expr::from(a.clone()))), k.first().map(skel))?;
        }
        A::Sum(x) => {
            let (l, r) = x.as_binary_sum();
            split("as_binary_sum", &l, &r, &k, true)?;
            eq("Sum::first", x.first().map(|a| skel(&Expr::from(a.clone()))), k.first().map(skel))?;
        }
        _ => (),
    }
    cx.count("sub-expressions queried");
    Ok(())
}
fn packed(mut v: Vec<Expr>) -> Option<Expr> {
    match v.len() {
        0 => None,
        1 => Some(v.remove(0)),
        _ => Some(prod(v)),
    }
}
/// the two halves hold all arguments, or the arguments and the neutral element
fn split(what: &str, l: &Expr, r: &Expr, k: &[Expr], add: bool) -> Res {
    let neutral = if add { 0 } else { 1 };
    let ok = match k.len() {
        0 => is_v(l, neutral) && is_v(r, neutral),
        1 => skel(l) == skel(&k[0]) && is_v(r, neutral) || skel(r) == skel(&k[0]) && is_v(l, neutral),
        2 => canon(&sum(vec![l.clone(), r.clone()])) == canon(&sum(k.to_vec())),
        _ => {
            // one half is an argument, the other a sum/product of the rest
            let join = |a: &Expr, b: &Expr| {
                let same = if add { matches!(b.atom(), Atom::Sum(_)) } else { matches!(b.atom(), Atom::Prod(_)) };
                let mut v = kids(b);
                v.push(a.clone());
                same && canon(&sum(v)) == canon(&sum(k.to_vec()))
            };
            join(l, r) || join(r, l)
        }
    };
    if !ok {
        return fail(format!("{what}: wrong split"), format!("{what} gave {} and {}", skel(l), skel(r)));
    }
    Ok(())
}

// ---------------------------------------------------------------- C16
const NAMES: [&str; 14] = ["x", "y", "z", "a", "sin", "cos", "arcsin", "log", "ln", "pi", "e", "X", "x1", "sinx"];
fn names(e: &Expr, rng: &mut Rng) -> Expr {
    match e.atom() {
        Atom::Var(_) => Expr::var(rng.pick(&NAMES)),
        _ => rebuilt(e, kids(e).iter().map(|a| names(a, rng)).collect()),
    }
}
fn hash(e: &Expr) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    e.hash(&mut h);
    h.finish()
}
/// decimal and continued fraction approximations of pi and e, and other numbers
fn number(rng: &mut Rng) -> Expr {
    const PI: i128 = 31415926535897932384626433832795028841;
    const E: i128 = 27182818284590452353602874713526624977;
    match rng.us(6) {
        0 => Expr::pi(),
        1 => Expr::e(),
        2 | 3 => {
            let k = rng.int(0, 37) as u32;
            let d = 10i128.pow(k);
            let x = if rng.chance(1, 2) { PI } else { E };
            let n = x / 10i128.pow(37 - k) + rng.int(-2, 2) as i128;
            mk_rat_norm(n, d)
        }
        4 => {
            let (n, d) = *rng.pick(&[(22, 7), (355, 113), (333, 106), (193, 71), (2721, 1001), (19, 7), (3, 1), (2, 1), (4, 1), (103993, 33102), (104348, 33215)]);
            mk_rat_norm(n, d)
        }
        _ => build(&Gen::new(rng, ALG).coef(), Mode::Smart, false, rng),
    }
}
fn mk_rat_norm(n: i128, d: i128) -> Expr {
    use num_integer::Integer;
    let g = n.gcd(&d).max(1);
    mk_rat(n / g, d / g)
}
fn value(e: &Expr) -> Option<std::result::Result<Q, bool>> {
    match e.atom() {
        Atom::Rational(r) => Some(Ok(Q::frac(r.numer(), r.denom()))),
        Atom::Irrational(Irrational::PI) => Some(Err(true)),
        Atom::Irrational(Irrational::E) => Some(Err(false)),
        _ => None,
    }
}
/// exact comparison of numbers; pi and e to 60 digits
fn cmp_num(a: &Expr, b: &Expr) -> Option<Ordering> {
    use num_bigint::BigInt;
    let digits = |pi: bool| -> Q {
        let s = if pi { "3141592653589793238462643383279502884197169399375105820974944" } else { "2718281828459045235360287471352662497757247093699959574966967" };
        Q::new(s.parse().unwrap(), BigInt::from(10).pow(60)).unwrap()
    };
    let (a, b) = (value(a)?, value(b)?);
    if a == b {
        return Some(Ordering::Equal);
    }
    let f = |x: std::result::Result<Q, bool>| x.unwrap_or_else(digits);
    Some(f(a).cmp(&f(b)))
}

fn hash_of<T: Hash>(e: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    e.hash(&mut h);
    h.finish()
}
/// what an expression is made of compares as the expression does
fn parts(cx: &mut Cx, a: &Expr, b: &Expr, same: bool, o: Ordering) -> Res {
    fn all<T: PartialEq + PartialOrd + Ord + Hash>(a: &T, b: &T, same: bool) -> bool {
        (a == b) == same && (a != b) != same && (!same || hash_of(a) == hash_of(b)) && a.partial_cmp(b) == Some(a.cmp(b)) && (a < b) == a.cmp(b).is_lt()
            && a.cmp(b) == b.cmp(a).reverse()
    }
    let ok = cx.call("parts", || {
        let (x, y) = (a.atom(), b.atom());
        let mut ok = all(x, y, same) && x.partial_cmp(y) == Some(o);
        ok &= match (x, y) {
            (Atom::Sum(x), Atom::Sum(y)) => all(x, y, same),
            (Atom::Prod(x), Atom::Prod(y)) => all(x, y, same),
            (Atom::Pow(x), Atom::Pow(y)) => all(x, y, same),
            (Atom::Func(x), Atom::Func(y)) => all(x, y, same),
            (Atom::Var(x), Atom::Var(y)) => all(x, y, same) && x.cmp(y) == o,
            (Atom::Rational(x), Atom::Rational(y)) => all(x, y, same) && x.cmp(y) == o,
            (Atom::Irrational(x), Atom::Irrational(y)) => all(x, y, same) && x.cmp(y) == o,
            _ => true,
        };
        if let (Some(r), Some(s)) = (x.try_as_real(), y.try_as_real()) {
            ok &= all(&r, &s, same) && r.cmp(&s) == o && (r == *y) == same && (*x == s) == same;
        } else if let Some(r) = x.try_as_real() {
            ok &= r != *y && *y != r;
        }
        ok
    })?;
    if !ok {
        return fail("the parts compare differently", format!("{} and {}", skel(a), skel(b)));
    }
    cx.count("parts compared");
    Ok(())
}

fn order(cx: &mut Cx, rng: &mut Rng) -> Res {
    let p = *rng.pick(&PROFS);
    let mut pool: Vec<Expr> = vec![];
    let k = 4 + rng.us(4);
    let sorted = rng.chance(1, 2);
    let odd_names = rng.chance(1, 3);
    let nums = rng.chance(1, 8);
    let wide = !nums && rng.chance(1, 200);
    cx.input = "pool".into();
    while pool.len() < k {
        let e = if nums {
            number(rng)
        } else if wide && pool.is_empty() {
            // a sum or product of many arguments, some of them equal
            cx.count("pools of long sums and products");
            let n = 20 + rng.us(120);
            let few = rng.chance(1, 2);
            let args = (0..n)
                .map(|i| match rng.us(3) {
                    0 if few => Expr::var(VARS[i % 3]),
                    0 => Expr::var(&format!("{}{i}", VARS[i % 4])),
                    1 => func_raw(*rng.pick(&FUNS), Expr::var(VARS[rng.us(3)])),
                    _ => Expr::pow_raw(Expr::var(VARS[rng.us(4)]), mk_rat(rng.int(-9, 9) as i128, 1)),
                })
                .collect();
            if rng.chance(1, 2) {
                sum(args)
            } else {
                prod(args)
            }
        } else if pool.is_empty() || rng.chance(1, 4) {
            let n = 1 + rng.us(9);
            let t = gen(rng, p, n);
            if rng.chance(1, 16) {
                Expr::undef()
            } else {
                made(cx, rng, &t)?
            }
        } else {
            let i = rng.us(pool.len());
            let b = pool[i].clone();
            match rng.us(8) {
                0 => shuffled(&b, rng),
                1 | 2 => tweaked(&b, rng),
                3 => {
                    let mut s = vec![];
                    walk(&b, &mut s);
                    rng.pick(&s).clone()
                }
                4 => {
                    let t = gen(rng, p, 2);
                    let c = made(cx, rng, &t)?;
                    match rng.us(4) {
                        0 => sum(vec![c, b]),
                        1 => prod(vec![c, b]),
                        2 => Expr::pow_raw(b, c),
                        _ => func_raw(*rng.pick(&FUNS), b),
                    }
                }
                5 => Expr::pow_raw(b, number(rng)),
                6 => prod(vec![number(rng), b]),
                _ => {
                    let s = shuffled(&b, rng);
                    tweaked(&s, rng)
                }
            }
        };
        let e = if odd_names && !nums { names(&e, rng) } else { e };
        if size(&e) > if wide { 600 } else { 60 } {
            continue;
        }
        pool.push(e);
    }
    if sorted {
        for e in pool.iter_mut() {
            *e = cx.setup(|| e.sort_args())?;
        }
    }
    let show: Vec<String> = pool.iter().map(skel).collect();
    cx.input = show.join(" ; ");
    let keys: Vec<String> = pool.iter().map(canon).collect();
    let mut m = vec![vec![Ordering::Equal; k]; k];
    for i in 0..k {
        for j in 0..k {
            let (a, b) = (&pool[i], &pool[j]);
            let same = keys[i] == keys[j];
            let got = cx.call("eq", || a == b)?;
            if got != same {
                return fail("== is wrong", format!("{} == {} is {got}", show[i], show[j]));
            }
            if (a != b) == got || (a.atom() == b.atom()) != got {
                return fail("!= is wrong", format!("{} and {}", show[i], show[j]));
            }
            if same && hash(a) != hash(b) {
                return fail("equal expressions, different hashes", format!("{} and {}", show[i], show[j]));
            }
            m[i][j] = cx.call("cmp", || a.cmp(b))?;
            if a.partial_cmp(b) != Some(m[i][j]) || a.atom().cmp(b.atom()) != m[i][j] || (a < b) != m[i][j].is_lt() {
                return fail("partial_cmp differs from cmp", format!("{} and {}", show[i], show[j]));
            }
            parts(cx, a, b, same, m[i][j])?;
            if m[i][j].is_eq() && !same {
                return fail("cmp says Equal for different expressions", format!("{} and {}", show[i], show[j]));
            }
            if sorted && same && !m[i][j].is_eq() {
                return fail("cmp says not Equal for equal sorted expressions", format!("{} and {}", show[i], show[j]));
            }
            if i == j && !m[i][j].is_eq() {
                return fail("cmp is not reflexive", show[i].clone());
            }
            if let Some(o) = cmp_num(a, b) {
                cx.count("numbers compared");
                if o != m[i][j] {
                    return fail("numbers are not ordered by value", format!("{} cmp {} is {:?}", show[i], show[j], m[i][j]));
                }
            }
            cx.count("pairs");
            if same && i != j {
                cx.count("equal pairs");
            }
        }
    }
    for i in 0..k {
        for j in 0..k {
            if m[i][j] != m[j][i].reverse() {
                return fail("cmp is not antisymmetric", format!("{} and {}: {:?} and {:?}", show[i], show[j], m[i][j], m[j][i]));
            }
            for l in 0..k {
                cx.count("triples");
                if m[i][j].is_le() && m[j][l].is_le() && (m[i][l].is_gt() || m[i][l].is_eq() && (m[i][j].is_lt() || m[j][l].is_lt())) {
                    return fail("cmp is not transitive", format!("{} <= {} <= {}", show[i], show[j], show[l]));
                }
            }
        }
    }
    cx.seen(&cx.input.clone());
    cx.sample(|| show.join(" ; "));
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C15", title: "structural queries", run: query, quick: 600_000, thorough: 5_000_000, rule: "random tree, every query on it and on up to 8 of its sub-expressions compared with a walk over the tree, containment probed with sub-expressions, shuffled, changed and unrelated expressions; non-trivial: distinct tree of more than 2 nodes", budget_is_violation: true, fuel: 60_000_000, cpu_ms: 60_000, ..DEF },
        Prop { id: "C16", title: "equality, hash, order", run: order, quick: 900_000, thorough: 8_000_000, rule: "pools of 4-7 related expressions (shuffled copies, one-place changes, parts, wholes, approximations of pi and e, variables named like functions), all pairs and triples; non-trivial: distinct pool", budget_is_violation: true, fuel: 60_000_000, cpu_ms: 60_000, ..DEF },
    ]
}
