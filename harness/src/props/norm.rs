//! C05 / C15 / C16 / C24: normal form, structural queries, equality and order.
use super::value::*;
use super::{Prop, DEF};
use crate::cx::*;
use crate::eval::*;
use crate::num::*;
use crate::rng::Rng;
use crate::tree::*;
use calcu_rs::atom::{Atom, Func};
use calcu_rs::{Expr, SymbolicExpr};

fn is_rat(e: &Expr) -> bool {
    matches!(e.atom(), Atom::Rational(_))
}
fn is_rat_v(e: &Expr, v: i128) -> bool {
    matches!(e.atom(), Atom::Rational(r) if r.numer() == v && r.denom() == 1)
}
/// structural text with the arguments of sums and products in a canonical order
pub fn canon(e: &Expr) -> String {
    let kids = || e.args().iter().map(canon).collect::<Vec<_>>();
    match e.atom() {
        Atom::Sum(_) | Atom::Prod(_) => {
            let mut k = kids();
            k.sort();
            format!("{}[{}]", if matches!(e.atom(), Atom::Sum(_)) { "Sum" } else { "Prod" }, k.join(","))
        }
        Atom::Pow(_) => format!("Pow[{}]", kids().join(",")),
        Atom::Func(_) => {
            let s = skel(e);
            format!("{}[{}]", &s[..s.find('[').unwrap()], kids().join(","))
        }
        _ => skel(e),
    }
}
/// the factor of a term that is not a number, as canonical text; None for numbers
fn like_key(e: &Expr) -> Option<String> {
    match e.atom() {
        Atom::Rational(_) => None,
        Atom::Prod(p) => {
            let mut k: Vec<String> = p.args.iter().filter(|a| !is_rat(a)).map(canon).collect();
            k.sort();
            Some(k.join("*"))
        }
        _ => Some(canon(e)),
    }
}
fn base_key(e: &Expr) -> String {
    match e.atom() {
        Atom::Pow(p) => canon(p.base()),
        _ => canon(e),
    }
}
fn dup(v: Vec<String>) -> Option<String> {
    let mut v = v;
    v.sort();
    v.windows(2).find(|w| w[0] == w[1]).map(|w| w[0].clone())
}
/// the first way in which `e` is not in normal form
pub fn not_normal(e: &Expr) -> Option<(&'static str, String)> {
    for a in e.args() {
        if let Some(x) = not_normal(a) {
            return Some(x);
        }
    }
    let bad = |why: &'static str| Some((why, skel(e)));
    match e.atom() {
        Atom::Sum(s) => {
            if s.args.len() < 2 {
                return bad("sum with fewer than two terms");
            }
            if s.args.iter().any(|a| matches!(a.atom(), Atom::Sum(_))) {
                return bad("sum inside a sum");
            }
            if s.args.iter().any(|a| is_rat_v(a, 0)) {
                return bad("zero term");
            }
            if s.args.iter().any(|a| matches!(a.atom(), Atom::Undef)) {
                return bad("undef term");
            }
            if s.args.iter().filter(|a| is_rat(a)).count() > 1 {
                return bad("two numbers in a sum");
            }
            if dup(s.args.iter().filter_map(like_key).collect()).is_some() {
                return bad("like terms");
            }
        }
        Atom::Prod(p) => {
            if p.args.len() < 2 {
                return bad("product with fewer than two factors");
            }
            if p.args.iter().any(|a| matches!(a.atom(), Atom::Prod(_))) {
                return bad("product inside a product");
            }
            if p.args.iter().any(|a| is_rat_v(a, 0)) {
                return bad("zero factor");
            }
            if p.args.iter().any(|a| is_rat_v(a, 1)) {
                return bad("factor one");
            }
            if p.args.iter().any(|a| matches!(a.atom(), Atom::Undef)) {
                return bad("undef factor");
            }
            if p.args.iter().filter(|a| is_rat(a)).count() > 1 {
                return bad("two numbers in a product");
            }
            if dup(p.args.iter().filter(|a| !is_rat(a)).map(base_key).collect()).is_some() {
                return bad("factors with one base");
            }
        }
        Atom::Pow(p) => {
            if is_rat_v(p.exponent(), 1) || is_rat_v(p.exponent(), 0) || is_rat_v(p.base(), 1) {
                return bad("trivial power");
            }
            if matches!(p.base().atom(), Atom::Undef) || matches!(p.exponent().atom(), Atom::Undef) {
                return bad("undef in a power");
            }
        }
        _ => (),
    }
    None
}
pub const CONST: Prof = Prof { name: "const", nvars: 0, ..RATFN };

/// terms (factors) added to a sum (product) in place, one after the other
fn accumulated(cx: &mut Cx, rng: &mut Rng) -> Res {
    let p = *rng.pick(&[ALG, EXPLN, TRIG]);
    let add = rng.chance(1, 2);
    let k = if rng.chance(1, 3) { 20 + rng.us(50) } else { 2 + rng.us(16) };
    let mut units: Vec<Expr> = vec![];
    for _ in 0..2 + rng.us(k) {
        let n = 1 + rng.us(4);
        let t = gen(rng, p, n);
        let t = if rng.chance(1, 2) { T::Add(bx(t), bx(var(rng.us(3) as u8))) } else { t };
        let u = cx.setup(|| build(&t, Mode::Smart, false, rng).reduce())?;
        // plain ones: variables, functions, sums
        if matches!(u.atom(), Atom::Var(_) | Atom::Func(_) | Atom::Sum(_)) {
            units.push(u);
        }
    }
    for i in 0..rng.us(k) {
        units.push(Expr::var(&format!("v{i}")));
    }
    if units.is_empty() {
        return skip("no terms");
    }
    let mut s = calcu_rs::atom::Sum { args: vec![] };
    let mut q = calcu_rs::atom::Prod { args: vec![] };
    let mut text = vec![];
    for _ in 0..k {
        let u = rng.pick(&units).clone();
        let c = mk_rat_norm(rng.int(1, 9) as i128, rng.int(1, 4) as i128);
        let x = if add {
            match rng.us(6) {
                0 => c,
                1 | 2 if !matches!(u.atom(), Atom::Sum(_)) => prod(vec![c, u]),
                _ => match u.atom() {
                    Atom::Sum(_) => Expr::pow_raw(u, Expr::two()),
                    _ => u,
                },
            }
        } else {
            match rng.us(6) {
                0 => c,
                1 | 2 => Expr::pow_raw(u, mk_rat_norm(rng.int(-5, 5).max(1) as i128 * 2 - 1, rng.int(1, 3) as i128)),
                _ => u,
            }
        };
        let x = if rng.chance(1, 3) { shuffled(&x, rng) } else { x };
        text.push(skel(&x));
        cx.input = format!("{} of {}", if add { "add_rhs" } else { "mul_rhs" }, text.join(" ; "));
        let d = if add {
            cx.call("add_rhs", || s.add_rhs(&x))?;
            dup(s.args.iter().filter_map(like_key).collect())
        } else {
            cx.call("mul_rhs", || q.mul_rhs(&x))?;
            dup(q.args.iter().filter(|a| !is_rat(a)).map(base_key).collect())
        };
        let args = if add { &s.args } else { &q.args };
        if let Some(d) = d {
            return fail(format!("{}: not merged", if add { "add_rhs" } else { "mul_rhs" }), format!("{d} occurs twice in {:?}", args.iter().map(skel).collect::<Vec<_>>()));
        }
        if args.iter().filter(|a| is_rat(a)).count() > 1 {
            return fail("two numbers accumulated", format!("{:?}", args.iter().map(skel).collect::<Vec<_>>()));
        }
    }
    cx.count("accumulated");
    cx.seen(&cx.input.clone());
    Ok(())
}
fn mk_rat_norm(n: i128, d: i128) -> Expr {
    let T::Rat(n, d) = norm(n, d) else { unreachable!() };
    mk_rat(n, d)
}
fn normal(cx: &mut Cx, rng: &mut Rng) -> Res {
    if rng.chance(1, 30) {
        return accumulated(cx, rng);
    }
    let p = *rng.pick(&[POLY, POLY, RATFN, RATFN, ALG, TRIG, EXPLN, FULL, POWX]);
    let many = rng.chance(1, 40);
    let numbers = !many && rng.chance(1, 5);
    let n = 2 + rng.us(18);
    let mut t = gen(rng, p, n);
    if many {
        cx.count("long sums and products");
        t = long(rng, p, true);
    } else if numbers {
        let n = 2 + rng.us(10);
        t = gen(rng, RATFN, n);
        for v in 0..6 {
            let c = Gen::new(rng, RATFN).coef();
            t = t.subst(&var(v), &c);
        }
    }
    let e = made(cx, rng, &t)?;
    let r = cx.call("reduce", || e.reduce())?;
    if let Some((why, at)) = not_normal(&r) {
        return fail(format!("reduce: {why}"), format!("{} reduces to {} ({why} in {at})", skel(&e), skel(&r)));
    }
    let again = cx.call("reduce", || r.reduce())?;
    let pow_of_prod = any(&r, &mut |e| matches!(e.atom(), Atom::Pow(p) if matches!(p.base().atom(), Atom::Prod(_))));
    if !pow_of_prod && canon(&again) != canon(&r) {
        return fail("reduce: not idempotent", format!("{} reduces to {}, which reduces to {}", skel(&e), skel(&r), skel(&again)));
    }
    if rng.chance(1, 5) {
        let o = shuffled(&e, rng);
        let ro = cx.call("reduce", || o.reduce())?;
        cx.count("reordered");
        // powers of products are not split in every order, nor roots of numbers joined with numbers
        let pow_of_prod = |e: &Expr| any(e, &mut |e| matches!(e.atom(), Atom::Pow(p) if matches!(p.base().atom(), Atom::Prod(_) | Atom::Rational(_))));
        if canon(&ro) != canon(&r) && !pow_of_prod(&r) && !pow_of_prod(&ro) && !pow_of_prod(&e) {
            return fail("reduce: depends on the order of arguments", format!("{} reduces to {}, but reordered as {} to {}", skel(&e), skel(&r), skel(&o), skel(&ro)));
        }
    }
    if numbers {
        let env = Env { vals: vec![] };
        if let (Ok(N::Q(q)), true) = (t.eval(&env), t.small(&env, 60)) {
            cx.count("numbers.folded");
            match r.atom() {
                Atom::Rational(x) if q == Q::new(x.numer().into(), x.denom().into()).unwrap() => (),
                _ => return fail("reduce: number not folded", format!("{} is {q} but reduces to {}", t, skel(&r))),
            }
        }
    }
    if canon(&e) != canon(&r) {
        cx.count("changed");
    }
    if size(&e) > 2 {
        cx.seen(&skel(&e));
        cx.sample(|| format!("{} -> {}", skel(&e), skel(&r)));
    }
    Ok(())
}

/// a fresh copy with the arguments of sums and products in another order; no sharing with `e`
pub fn shuffled(e: &Expr, rng: &mut Rng) -> Expr {
    let mut kids: Vec<Expr> = e.args().iter().map(|a| shuffled(a, rng)).collect();
    match e.atom() {
        Atom::Sum(_) => {
            rng.shuffle(&mut kids);
            sum(kids)
        }
        Atom::Prod(_) => {
            rng.shuffle(&mut kids);
            prod(kids)
        }
        Atom::Pow(_) => Expr::pow_raw(&kids[0], &kids[1]),
        Atom::Func(f) => {
            let mut f = f.clone();
            f.args_mut()[0] = kids.remove(0);
            f.into()
        }
        a => Expr::from(a.clone()),
    }
}
/// a copy that differs in exactly one place
pub fn tweaked(e: &Expr, rng: &mut Rng) -> Expr {
    let n = e.args().len();
    if n > 0 && rng.chance(4, 5) {
        let i = rng.us(n);
        let mut kids: Vec<Expr> = e.args().to_vec();
        kids[i] = tweaked(&kids[i], rng);
        return match e.atom() {
            Atom::Sum(_) => sum(kids),
            Atom::Prod(_) => prod(kids),
            Atom::Pow(_) => Expr::pow_raw(&kids[0], &kids[1]),
            Atom::Func(f) => {
                let mut f = f.clone();
                f.args_mut()[0] = kids.remove(0);
                f.into()
            }
            _ => unreachable!(),
        };
    }
    match e.atom() {
        Atom::Sum(s) => {
            let mut k = s.args.clone();
            match rng.us(3) {
                0 if k.len() > 0 => {
                    k.remove(rng.us(k.len()));
                    sum(k)
                }
                1 if k.len() > 0 => {
                    k.push(k[0].clone());
                    sum(k)
                }
                _ => prod(k),
            }
        }
        Atom::Prod(s) => {
            let mut k = s.args.clone();
            match rng.us(3) {
                0 if k.len() > 0 => {
                    k.remove(rng.us(k.len()));
                    prod(k)
                }
                1 if k.len() > 0 => {
                    k.push(k[0].clone());
                    prod(k)
                }
                _ => sum(k),
            }
        }
        Atom::Pow(p) => Expr::pow_raw(p.exponent(), p.base()),
        Atom::Func(Func::Log(_, x)) if rng.chance(2, 3) => Expr::log(base_real(rng.us(BASES.len()) as u8), x),
        Atom::Func(f) => {
            let i = FUNS.iter().position(|n| *n == fname(f)).map(|i| (i + 1 + rng.us(11)) % 12).unwrap_or(rng.us(12));
            func_raw(FUNS[i], f.args()[0].clone())
        }
        Atom::Rational(_) => {
            let c = Gen::new(rng, ALG).coef();
            build(&c, Mode::Smart, false, rng)
        }
        _ => {
            let c = Gen::new(rng, ALG).leaf();
            build(&c, Mode::Smart, false, rng)
        }
    }
}

fn order(cx: &mut Cx, rng: &mut Rng) -> Res {
    let long = rng.chance(1, 4);
    let p = *rng.pick(&PROFS);
    let e = if long {
        // many terms of mixed kinds
        let k = if rng.chance(1, 12) { 60 + rng.us(120) } else { 15 + rng.us(40) };
        let ts: Vec<T> = (0..k)
            .map(|_| {
                let n = 1 + rng.us(5);
                gen(rng, p, n)
            })
            .collect();
        cx.input = "long".into();
        let args = cx.setup(|| ts.iter().map(|t| build(t, Mode::Mixed, false, rng)).collect::<Vec<_>>())?;
        if rng.chance(3, 4) {
            sum(args)
        } else {
            prod(args)
        }
    } else {
        input(cx, rng, &[p])?.2
    };
    cx.input = skel(&e);
    let s = cx.call("sort_args", || e.sort_args())?;
    if canon(&s) != canon(&e) {
        return fail("sort_args: changed the arguments", format!("{} became {}", skel(&e), skel(&s)));
    }
    let again = cx.call("sort_args", || s.sort_args())?;
    if skel(&again) != skel(&s) {
        return fail("sort_args: not idempotent", format!("{} then {}", skel(&s), skel(&again)));
    }
    let o = shuffled(&e, rng);
    let so = cx.call("sort_args", || o.sort_args())?;
    if skel(&so) != skel(&s) {
        return fail("sort_args: depends on the given order", format!("{} sorts to {} but {} sorts to {}", skel(&e), skel(&s), skel(&o), skel(&so)));
    }
    if skel(&o) != skel(&e) || skel(&e) != skel(&s) {
        cx.seen(&skel(&e));
        cx.sample(|| format!("{} -> {}", skel(&e), skel(&s)));
    }
    Ok(())
}
pub fn props() -> Vec<Prop> {
    vec![Prop { id: "C05", title: "normal form", run: normal, quick: 3_600_000, thorough: 10_000_000, rule: "random tree reduced and checked for every normal form clause, reduced again, reordered and reduced, compared with its exact number if it has no variables (one case in 30: 2-69 terms or factors accumulated in place, checked after each); non-trivial: distinct tree of more than 2 nodes", budget_is_violation: true, fuel: 60_000_000, cpu_ms: 60_000, ..DEF },
    Prop { id: "C24", title: "sort_args", run: order, quick: 1_500_000, thorough: 10_000_000, rule: "random tree (one in four a sum or product of 15-54, now and then up to 179, mixed terms) sorted, sorted again, and a shuffled copy sorted; non-trivial: distinct tree for which sorting or shuffling changed the order", budget_is_violation: true, fuel: 60_000_000, cpu_ms: 60_000, ..DEF },
    ]
}
