//! C19 operations are pure, C21 they terminate and do not panic, C22 memory.
use super::norm::{shuffled, tweaked};
use super::value::made;
use super::{Prop, DEF};
use crate::cx::*;
use crate::eval::*;
use crate::rng::Rng;
use crate::tree::*;
use calcu_rs::algos::{separate_sin_cos, CostFn, ExprCost};
use calcu_rs::atom::{Atom, Func, Irrational, Real};
use calcu_rs::polynomial::VarSet;
use calcu_rs::rational::Rational;
use calcu_rs::{Expr, SymbolicExpr};
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};

/// what an operation answers: expressions (also used as further inputs) and other facts
#[derive(Default)]
pub struct Ans {
    pub es: Vec<Expr>,
    pub facts: Vec<String>,
}
impl Ans {
    fn e(e: Expr) -> Ans {
        Ans { es: vec![e], facts: vec![] }
    }
    fn es(es: Vec<Expr>) -> Ans {
        Ans { es, facts: vec![] }
    }
    fn o(e: Option<Expr>) -> Ans {
        Ans { facts: vec![format!("{}", e.is_some())], es: e.into_iter().collect() }
    }
    fn f(f: impl std::fmt::Debug) -> Ans {
        Ans { es: vec![], facts: vec![format!("{f:?}")] }
    }
    pub fn show(&self) -> Vec<String> {
        let mut v: Vec<String> = self.es.iter().map(skel).collect();
        v.extend(self.facts.iter().cloned());
        v
    }
}
pub type Op = (&'static str, fn(&Expr, &Expr, &Expr) -> Ans);
fn sorted(it: impl IntoIterator<Item = Expr>) -> Vec<Expr> {
    let mut v: Vec<Expr> = it.into_iter().collect();
    v.sort_by_key(skel);
    v
}
fn vars() -> VarSet {
    let v: Vec<Expr> = ["x", "y"].iter().map(|v| Expr::var(v)).collect();
    VarSet::new(v.iter())
}
pub const OPS: &[Op] = &[
    ("reduce", |a, _, _| Ans::e(a.reduce())),
    ("expand", |a, _, _| Ans::e(a.expand())),
    ("expand_main_op", |a, _, _| Ans::e(a.expand_main_op())),
    ("distribute", |a, _, _| Ans::e(a.distribute())),
    ("rationalize", |a, _, _| Ans::e(a.rationalize())),
    ("factor_out", |a, _, _| Ans::e(a.factor_out())),
    ("cancel", |a, _, _| Ans::e(a.cancel())),
    ("expand_trig", |a, _, _| Ans::e(a.expand_trig())),
    ("contract_trig", |a, _, _| Ans::e(a.contract_trig())),
    ("substitute_trig", |a, _, _| Ans::e(a.substitute_trig())),
    ("simplify_trig", |a, _, _| Ans::e(a.simplify_trig())),
    ("expand_exponential", |a, _, _| Ans::e(a.expand_exponential())),
    ("expand_ln", |a, _, _| Ans::e(a.expand_ln())),
    ("sort_args", |a, _, _| Ans::e(a.sort_args())),
    ("simplify", |a, _, _| Ans::es(if size(a) <= 9 { a.simplify() } else { vec![] })),
    ("derivative", |a, _, _| Ans::e(a.derivative(Expr::var("x")))),
    ("derivative w.r.t. any", |a, b, _| Ans::e(a.derivative(b))),
    ("add", |a, b, _| Ans::e(Expr::add(a, b))),
    ("sub", |a, b, _| Ans::e(Expr::sub(a, b))),
    ("mul", |a, b, _| Ans::e(Expr::mul(a, b))),
    ("div", |a, b, _| Ans::e(Expr::div(a, b))),
    ("pow", |a, b, _| Ans::e(Expr::pow(a, b))),
    ("add_raw", |a, b, _| Ans::e(Expr::add_raw(a, b))),
    ("mul_raw", |a, b, _| Ans::e(Expr::mul_raw(a, b))),
    ("div_raw", |a, b, _| Ans::e(Expr::div_raw(a, b))),
    ("pow_raw", |a, b, _| Ans::e(Expr::pow_raw(a, b))),
    ("exp", |a, _, _| Ans::e(Expr::exp(a))),
    ("ln", |a, _, _| Ans::e(Expr::ln(a))),
    ("log10", |a, _, _| Ans::e(Expr::log10(a))),
    ("log pi", |a, _, _| Ans::e(Expr::log(Irrational::PI, a))),
    ("sqrt", |a, _, _| Ans::e(Expr::sqrt(a))),
    ("sin", |a, _, _| Ans::e(Expr::sin(a))),
    ("arc_tan", |a, _, _| Ans::e(Expr::arc_tan(a))),
    ("numerator", |a, _, _| Ans::e(a.numerator())),
    ("denominator", |a, _, _| Ans::e(a.denominator())),
    ("base", |a, _, _| Ans::e(a.base())),
    ("exponent", |a, _, _| Ans::e(a.exponent())),
    ("try_as_div", |a, _, _| Ans::es(a.try_as_div().map(|(a, b)| vec![a, b]).unwrap_or_default())),
    ("rational_coeff", |a, _, _| Ans::f(a.rational_coeff().map(|r| (r.numer(), r.denom())))),
    ("non_rational_term", |a, _, _| Ans::o(a.non_rational_term())),
    ("variables", |a, _, _| Ans::es(sorted(a.variables()))),
    ("predicates", |a, _, _| {
        let b = [a.is_zero(), a.is_one(), a.is_min_one(), a.is_neg(), a.is_pos(), a.is_int(), a.is_even(), a.is_odd(), a.is_number(), a.is_real(), a.is_const(), a.is_rational(), a.is_irrational(),
            a.is_undef(), a.is_var(), a.is_func(), a.is_sum(), a.is_prod(), a.is_pow(), a.is_trig(), a.is_sin(), a.is_cos(), a.is_pi(), a.is_e(), a.is_exponential(), a.is_irreducible(), a.is_atom()];
        Ans::f((b, a.try_unwrap_int(), a.n_args(), a.try_as_real().map(|r| r.f64_approx().to_bits())))
    }),
    ("free_of", |a, b, c| Ans::f((a.free_of(b), a.free_of_set([b, c])))),
    ("flatten", |a, _, _| Ans::e(a.flatten().clone())),
    ("sub-expressions", |a, _, _| Ans::es(a.iter_compl_sub_exprs().take(12).cloned().collect())),
    ("cost", |a, _, _| Ans::f(ExprCost::cost(a))),
    ("substitude", |a, b, c| Ans::e(a.substitude(b, c))),
    ("seq_substitude", |a, b, c| Ans::e(a.seq_substitude([(b, c), (c, b)]))),
    ("concurr_substitude", |a, b, c| Ans::e(a.concurr_substitude([(b, c), (c, b)]))),
    ("factorize_common_terms", |a, b, _| {
        let (c, (x, y)) = Expr::factorize_common_terms(a, b);
        Ans::es(vec![c, x, y])
    }),
    ("common_factors", |a, b, _| Ans::e(Expr::common_factors(a, b))),
    ("separate_factors", |a, b, _| {
        let (x, y) = a.separate_factors(b);
        Ans::es(vec![x, y])
    }),
    ("separate_sin_cos", |a, _, _| {
        let (x, y) = separate_sin_cos(a);
        Ans::es(vec![x, y])
    }),
    ("display", |a, _, _| Ans::f(a.to_string())),
    ("debug", |a, _, _| Ans::f(format!("{a:?}"))),
    ("serialize", |a, _, _| Ans::f(serde_json::to_string(a).unwrap())),
    ("compare", |a, b, _| Ans::f((a == b, a.cmp(b)))),
    ("hash", |a, _, _| {
        let mut h = DefaultHasher::new();
        a.hash(&mut h);
        Ans::f(h.finish())
    }),
    ("monomial", |a, _, _| {
        let v = vars();
        let m = a.as_monomial_view(&v);
        let c = m.coeff().map(|(c, p)| format!("{} {:?}", skel(&c), p.total_deg()));
        Ans::f((m.check(), m.degree(), c, m.degree_of(&Expr::var("x"))))
    }),
    ("polynomial", |a, _, _| {
        let v = vars();
        let p = a.as_polynomial_view(&v);
        let x = Expr::var("x");
        let mut cs: Vec<String> = p.coeffs().into_iter().map(|(k, c)| format!("{} {:?} {}", k.total_deg(), k.degree_of(&x), skel(&c))).collect();
        cs.sort();
        let mut by: Vec<String> = p.coeffs_of(&x).into_iter().map(|(k, c)| format!("{k} {}", skel(&c))).collect();
        by.sort();
        Ans { es: p.leading_coeff_of(&x).into_iter().chain(p.collect_terms()).collect(), facts: vec![format!("{} {:?} {:?} {cs:?} {by:?}", p.check(), p.degree(), p.degree_of(&x))] }
    }),
];
/// operations that write through `&mut`; the result is the written expression
pub const MUTS: &[(&str, fn(&mut Expr, &Expr))] = &[
    ("+=", |a, b| *a += b),
    ("-=", |a, b| *a -= b),
    ("*=", |a, b| *a *= b),
    ("/=", |a, b| *a /= b),
    ("+= own", |a, b| *a += b.clone()),
    ("for_each_compl_sub_expr", |a, _| {
        a.for_each_compl_sub_expr(|s| {
            if matches!(s.atom(), Atom::Var(v) if v.to_string() == "x") {
                *s = sum(vec![Expr::var("w"), Expr::two()])
            }
        })
    }),
    ("try_for_each_compl_sub_expr", |a, _| {
        a.try_for_each_compl_sub_expr(|s| {
            if let Atom::Rational(_) = s.atom() {
                *s = Expr::var("w");
                return std::ops::ControlFlow::Break(());
            }
            std::ops::ControlFlow::Continue(())
        })
    }),
    ("atom_mut", |a, b| *a.atom_mut() = b.atom().clone()),
    ("args_mut", |a, b| {
        for x in a.args_mut() {
            *x = b.clone()
        }
    }),
    ("args_mut, deep", |a, _| {
        for x in a.args_mut() {
            for y in x.args_mut() {
                *y = Expr::var("w")
            }
        }
    }),
    ("push an argument", |a, b| match a.atom_mut() {
        Atom::Sum(s) => s.args.push(b.clone()),
        Atom::Prod(s) => s.args.push(b.clone()),
        _ => (),
    }),
    ("drop an argument", |a, _| match a.atom_mut() {
        Atom::Sum(s) => drop(s.args.pop()),
        Atom::Prod(s) => drop(s.args.pop()),
        _ => (),
    }),
    ("add_rhs", |a, b| match a.atom_mut() {
        Atom::Sum(s) => s.add_rhs(b),
        Atom::Prod(s) => s.mul_rhs(b),
        _ => (),
    }),
    ("mul_rhs_raw", |a, b| {
        if let Atom::Prod(s) = a.atom_mut() {
            s.mul_rhs_raw(b)
        }
    }),
    ("map_args", |a, b| {
        let r = a.clone().map_args(|x| *x = b.clone());
        *a = r
    }),
];
/// a copy that shares no node with the original
pub fn deep(e: &Expr) -> Expr {
    match e.atom() {
        Atom::Undef => Expr::from(Atom::Undef),
        Atom::Rational(r) => Expr::from(*r),
        Atom::Irrational(i) => Expr::from(*i),
        Atom::Var(v) => Expr::var(&v.to_string()),
        Atom::Sum(s) => sum(s.args.iter().map(deep).collect()),
        Atom::Prod(s) => prod(s.args.iter().map(deep).collect()),
        Atom::Pow(p) => Expr::pow_raw(deep(p.base()), deep(p.exponent())),
        Atom::Func(Func::Log(b, x)) => Expr::from(Atom::Func(Func::Log(b.clone(), deep(x)))),
        Atom::Func(f) => func_raw(fname(f), deep(&f.args()[0])),
    }
}
/// an unshared copy with other names
fn renamed(e: &Expr, name: &dyn Fn(&str) -> String, base: &dyn Fn(&Real) -> Real) -> Expr {
    let r = |e: &Expr| renamed(e, name, base);
    match e.atom() {
        Atom::Var(v) => Expr::var(&name(&v.to_string())),
        Atom::Sum(s) => sum(s.args.iter().map(r).collect()),
        Atom::Prod(s) => prod(s.args.iter().map(r).collect()),
        Atom::Pow(p) => Expr::pow_raw(r(p.base()), r(p.exponent())),
        Atom::Func(Func::Log(b, x)) => Expr::from(Atom::Func(Func::Log(base(b), r(x)))),
        Atom::Func(f) => func_raw(fname(f), r(&f.args()[0])),
        _ => deep(e),
    }
}
/// the same, as text that can cross threads
#[derive(Clone)]
enum D {
    A(i128, i128),
    V(String),
    C(u8),
    N(u8, Vec<D>),
    F(&'static str, Box<D>),
    L(String, Box<D>),
}
fn send(e: &Expr) -> D {
    match e.atom() {
        Atom::Undef => D::C(0),
        Atom::Rational(r) => D::A(r.numer(), r.denom()),
        Atom::Irrational(Irrational::PI) => D::C(1),
        Atom::Irrational(_) => D::C(2),
        Atom::Var(v) => D::V(v.to_string()),
        Atom::Sum(s) => D::N(0, s.args.iter().map(send).collect()),
        Atom::Prod(s) => D::N(1, s.args.iter().map(send).collect()),
        Atom::Pow(p) => D::N(2, vec![send(p.base()), send(p.exponent())]),
        Atom::Func(Func::Log(b, x)) => D::L(serde_json::to_string(b).unwrap(), Box::new(send(x))),
        Atom::Func(f) => D::F(fname(f), Box::new(send(&f.args()[0]))),
    }
}
fn recv(d: &D) -> Expr {
    match d {
        D::C(0) => Expr::from(Atom::Undef),
        D::C(1) => Expr::from(Irrational::PI),
        D::C(_) => Expr::from(Irrational::E),
        D::A(n, d) => mk_rat(*n, *d),
        D::V(v) => Expr::var(v),
        D::N(0, a) => sum(a.iter().map(recv).collect()),
        D::N(1, a) => prod(a.iter().map(recv).collect()),
        D::N(_, a) => Expr::pow_raw(recv(&a[0]), recv(&a[1])),
        D::L(b, x) => Expr::from(Atom::Func(Func::Log(serde_json::from_str(b).unwrap(), recv(x)))),
        D::F(n, x) => func_raw(n, recv(x)),
    }
}
fn constants() -> Vec<String> {
    let c = [Expr::undef(), Expr::min_two(), Expr::min_one(), Expr::zero(), Expr::one(), Expr::two(), Expr::pi(), Expr::e(), Expr::from(0), Expr::from(1)];
    c.iter().map(skel).collect()
}
const CONSTANTS: [&str; 10] = ["undef", "-2", "-1", "0", "1", "2", "PI", "E", "0", "1"];

fn small(cx: &mut Cx, rng: &mut Rng, max: usize) -> Res<Expr> {
    let mut p = *rng.pick(&PROFS);
    p.max_pow = 3;
    let n = 1 + rng.us(max);
    let t = gen(rng, p, n);
    let e = made(cx, rng, &t)?;
    Ok(if rng.chance(1, 12) {
        sum(vec![e, Expr::undef()])
    } else {
        e
    })
}
fn pool(cx: &mut Cx, rng: &mut Rng, k: usize, max: usize) -> Res<Vec<Expr>> {
    let mut v: Vec<Expr> = vec![];
    for _ in 0..k {
        let e = match rng.us(8) {
            // built from others, sharing them
            0 if !v.is_empty() => sum(vec![rng.pick(&v).clone(), rng.pick(&v).clone(), Expr::var("x")]),
            1 if !v.is_empty() => prod(vec![rng.pick(&v).clone(), Expr::two(), rng.pick(&v).clone()]),
            2 if !v.is_empty() => Expr::pow_raw(rng.pick(&v), rng.pick(&v)),
            3 if !v.is_empty() => {
                let e = rng.pick(&v).clone();
                shuffled(&e, rng)
            }
            4 if !v.is_empty() => {
                let e = rng.pick(&v).clone();
                tweaked(&e, rng)
            }
            5 => rng.pick(&[Expr::zero(), Expr::one(), Expr::two(), Expr::min_one(), Expr::pi(), Expr::e(), Expr::undef(), Expr::min_two()]).clone(),
            _ => small(cx, rng, max)?,
        };
        if size(&e) <= 30 {
            v.push(e);
        }
    }
    if v.is_empty() {
        v.push(Expr::var("x"));
    }
    Ok(v)
}
fn show(pool: &[Expr]) -> String {
    pool.iter().map(skel).collect::<Vec<_>>().join(" ; ")
}
/// may this operation blow up legitimately?
fn tame(e: &Expr) -> bool {
    /// no powers of sums and the like above 4, nor above 6 when nested
    fn powers(e: &Expr, power: u128) -> bool {
        match e.atom() {
            Atom::Pow(p) if !p.base().is_atom() => {
                let mut sum = 0u128;
                any(p.exponent(), &mut |x| {
                    if let Atom::Rational(r) = x.atom() {
                        sum = sum.saturating_add(r.numer().unsigned_abs())
                    }
                    sum > 4
                });
                let power = power.saturating_mul(sum.max(1));
                sum <= 4 && power <= 6 && powers(p.base(), power) && powers(p.exponent(), 1)
            }
            Atom::Func(f) => powers(&f.args()[0], 1),
            _ => e.args().iter().all(|a| powers(a, power)),
        }
    }
    size(e) <= 24 && powers(e, 1)
}

fn trig(e: &Expr) -> bool {
    matches!(e.atom(), Atom::Func(f) if !matches!(f, Func::Log(..)))
}
/// expanding multiple angles, and angles of angles, takes exponentially long by nature
fn heavy(op: &str, e: &Expr) -> bool {
    (op.contains("trig") || op == "simplify") && !tame_trig(e)
}
fn tame_trig(e: &Expr) -> bool {
    fn weight(e: &Expr, power: usize, w: &mut usize) -> bool {
        match e.atom() {
            Atom::Pow(p) if any(p.base(), &mut trig) => {
                let mut k = 1;
                any(p.exponent(), &mut |x| {
                    if let Atom::Rational(r) = x.atom() {
                        k = k.max(r.numer().unsigned_abs().min(100) as usize)
                    }
                    false
                });
                weight(p.base(), power * k, w) && weight(p.exponent(), power, w)
            }
            Atom::Func(f) if trig(e) => {
                let a = &f.args()[0];
                *w += size(a) * power;
                size(a) <= 5
                    && !any(a, &mut |x| match x.atom() {
                        Atom::Rational(r) => r.numer().abs() > 3,
                        Atom::Prod(p) => p.args.iter().any(|y| !y.is_atom()),
                        Atom::Pow(p) => !p.base().is_atom() || !p.exponent().is_atom(),
                        _ => trig(x),
                    })
            }
            Atom::Func(f) => weight(&f.args()[0], power, w),
            _ => e.args().iter().all(|a| weight(a, power, w)),
        }
    }
    let mut w = 0;
    weight(e, 1, &mut w) && w <= 8
}
// ------------------------------------------------------------------ C19
fn pure(cx: &mut Cx, rng: &mut Rng) -> Res {
    let k = 3 + rng.us(4);
    let mut pool = pool(cx, rng, k, 9)?;
    let mut log: Vec<(&'static str, [D; 3], Vec<String>)> = vec![];
    let mut text: Vec<String> = vec![];
    let steps = 2 + rng.us(6);
    for _ in 0..steps {
        let before: Vec<String> = pool.iter().map(skel).collect();
        // handles to inner nodes, too
        let inner: Vec<Expr> = pool.iter().flat_map(|e| e.iter_compl_sub_exprs().take(20).cloned().collect::<Vec<_>>()).collect();
        let inner_before: Vec<String> = inner.iter().map(skel).collect();
        cx.input = format!("{} after [{}]", before.join(" ; "), text.join(", "));
        if rng.chance(2, 5) {
            let m = rng.pick(MUTS);
            let (i, j) = (rng.us(pool.len()), rng.us(pool.len()));
            if !tame(&pool[i]) || !tame(&pool[j]) {
                continue;
            }
            // once on a handle that shares everything, once on an unshared copy
            let mut shared = pool[i].clone();
            let arg = pool[j].clone();
            cx.call(m.0, || m.1(&mut shared, &arg))?;
            let mut alone = deep(&pool[i]);
            let arg2 = deep(&pool[j]);
            if let Ret::Val(()) = guard(|| m.1(&mut alone, &arg2)) {
                if skel(&alone) != skel(&shared) {
                    return fail(format!("{}: depends on sharing", m.0), format!("{} is {} on a shared, {} on an unshared expression", m.0, skel(&shared), skel(&alone)));
                }
            }
            cx.count("mutations");
            text.push(format!("{}({i}, {j})", m.0));
            unchanged(cx, m.0, &pool, &before, &inner, &inner_before, &arg)?;
            if rng.chance(1, 2) && size(&shared) <= 30 {
                pool.push(shared)
            }
        } else {
            let op = rng.pick(OPS);
            let (i, j, l) = (rng.us(pool.len()), rng.us(pool.len()), rng.us(pool.len()));
            if !tame(&pool[i]) || !tame(&pool[j]) || !tame(&pool[l]) || heavy(op.0, &pool[i]) {
                continue;
            }
            let r = cx.call(op.0, || op.1(&pool[i], &pool[j], &pool[l]))?;
            cx.count("operations");
            text.push(format!("{}({i}, {j}, {l})", op.0));
            unchanged(cx, op.0, &pool, &before, &inner, &inner_before, &pool[j])?;
            let want = r.show();
            let (a, b, c) = (deep(&pool[i]), deep(&pool[j]), deep(&pool[l]));
            if let Ret::Val(again) = guard(|| op.1(&a, &b, &c)) {
                if again.show() != want {
                    return fail(format!("{}: depends on sharing or history", op.0), format!("{} of {} is {want:?} and then {:?}", op.0, skel(&a), again.show()));
                }
            } else {
                return fail(format!("{}: panics the second time only", op.0), skel(&a));
            }
            if rng.chance(1, 4) {
                // the same operation on the same nodes, whose content has changed in between
                let m = rng.pick(MUTS);
                let mut x = deep(&pool[i]);
                let y = deep(&pool[j]);
                let z = if rng.chance(1, 2) { y.clone() } else { deep(&pool[l]) };
                if let Ret::Val(_) = guard(|| op.1(&x, &y, &z)) {
                    if let Ret::Val(()) = guard(|| m.1(&mut x, &y)) {
                        if tame(&x) && !heavy(op.0, &x) {
                            let (x2, y2, z2) = (deep(&x), deep(&y), deep(&z));
                            cx.input = format!("{} of {} after {} in place", op.0, skel(&x), m.0);
                            let after = cx.call(op.0, || op.1(&x, &y, &z))?.show();
                            cx.count("operations repeated on nodes changed in place");
                            if let Ret::Val(fresh) = guard(|| op.1(&x2, &y2, &z2)) {
                                if fresh.show() != after {
                                    return fail(format!("{}: remembers what has been changed", op.0), format!("{} of {} is {after:?}, of a copy {:?}", op.0, skel(&x), fresh.show()));
                                }
                            }
                        }
                    }
                }
            }
            log.push((op.0, [send(&a), send(&b), send(&c)], want));
            for e in r.es {
                if size(&e) <= 30 && pool.len() < 10 {
                    pool.push(e);
                }
            }
        }
        for (c, want) in constants().iter().zip(CONSTANTS) {
            if c != want {
                return fail("a constant changed", format!("{want} is now {c}"));
            }
        }
    }
    // the same in a thread that has seen nothing else, in another order
    if rng.chance(1, 3) {
        cx.count("fresh threads");
        rng.shuffle(&mut log);
        cx.add("operations repeated in a fresh thread", log.len() as u64);
        let r = std::thread::Builder::new().stack_size(16 << 20).spawn(move || {
            for (name, args, want) in log {
                let op = OPS.iter().find(|o| o.0 == name).unwrap().1;
                let [a, b, c] = [recv(&args[0]), recv(&args[1]), recv(&args[2])];
                match guard(|| op(&a, &b, &c)) {
                    Ret::Val(r) if r.show() == want => (),
                    Ret::Val(r) => return Some((name, format!("{name} of {} is {want:?}, but {:?} in a fresh thread", skel(&a), r.show()))),
                    _ => return Some((name, format!("{name} of {} panics in a fresh thread only", skel(&a)))),
                }
            }
            None
        });
        let r = match r {
            Ok(h) => h.join(),
            Err(_) => return skip("no thread"),
        };
        match r {
            Ok(None) => (),
            Ok(Some((name, m))) => return fail(format!("{name}: depends on the thread or history"), m),
            Err(_) => return skip("thread panicked"),
        }
    }
    cx.seen(&format!("{} {}", cx.input, text.join(",")));
    cx.sample(|| format!("{} : {}", show(&pool[..2.min(pool.len())]), text.join(", ")));
    Ok(())
}
fn unchanged(cx: &mut Cx, op: &str, pool: &[Expr], before: &[String], inner: &[Expr], inner_before: &[String], arg: &Expr) -> Res {
    cx.add("handles checked", (before.len() + inner.len()) as u64);
    let _ = arg;
    for (e, b) in pool.iter().zip(before).chain(inner.iter().zip(inner_before)) {
        let now = skel(e);
        if now != *b {
            return fail(format!("{op}: changed another expression"), format!("{op} changed {b} to {now}"));
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C21
/// a power of a number or symbol with an exponent of any size
fn edge(rng: &mut Rng) -> Expr {
    let b = match rng.us(12) {
        0 | 1 => Expr::var("x"),
        2 => Expr::pi(),
        3 => Expr::e(),
        4 | 5 => Expr::min_one(),
        6 => Expr::zero(),
        7 => mk_rat(1, 2),
        8 => mk_rat(-3, 2),
        _ => mk_rat(rng.int(-3, 3) as i128, 1),
    };
    let n: i128 = match rng.us(8) {
        0 => 1_000,
        1 => 1_000_001,
        2 => 1 << 32,
        3 => (1 << 40) + 1,
        4 => (1 << 62) + 1,
        5 => 1 << 64,
        6 => (1 << 100) + 1,
        _ => 1 << rng.us(120),
    };
    let n = if rng.chance(1, 3) { -n } else { n };
    let q = Expr::pow_raw(b, mk_rat(n, if rng.chance(1, 4) { 2 } else { 1 }));
    match rng.us(6) {
        0 => sum(vec![q, Expr::var("x"), Expr::var("y")]),
        1 => prod(vec![Expr::var("y"), q]),
        2 => prod(vec![q, Expr::pow_raw(Expr::var("x"), mk_rat(n - 1, 1))]),
        3 => sum(vec![q, mk_rat(n, 1)]),
        4 => Expr::pow_raw(q, mk_rat(if rng.chance(1, 2) { 2 } else { -1 }, 1)),
        _ => q,
    }
}
/// one more level around e; one occurrence of it
fn level(rng: &mut Rng, k: usize, e: Expr) -> Expr {
    let v = Expr::var(rng.pick(&["a", "b", "x", "y"]));
    let n = |n: i128| mk_rat(n, 1);
    let c = mk_rat(*rng.pick(&[-3, -2, -1, 1, 2, 3, 5]), *rng.pick(&[1, 1, 1, 2, 3]));
    match k {
        0..=5 => func_raw(FUNS[rng.us(FUNS.len())], e),
        6 | 7 => func_raw(rng.pick(&["sin", "cos"]), prod(vec![c, e])),
        8 => func_raw(rng.pick(&["sin", "cos", "tan"]), sum(vec![v, e])),
        9 => Expr::ln(prod(vec![v, e])),
        10 => Expr::exp(sum(vec![v, e])),
        11 => Expr::exp(prod(vec![c, e])),
        12 => Expr::pow_raw(v, e),
        13 => Expr::pow_raw(e, v),
        14 => Expr::pow_raw(Expr::pow_raw(v, n(2)), e),
        15 => Expr::pow_raw(Expr::pow_raw(e, n(2)), n(3)),
        16 => prod(vec![v.clone(), Expr::pow_raw(v, e)]),
        17 => sum(vec![v, prod(vec![Expr::var("b"), e])]),
        18 => prod(vec![c, sum(vec![n(1), e])]),
        19 => sum(vec![prod(vec![c, e]), v]),
        20 => Expr::pow_raw(sum(vec![n(1), e]), n(-1)),
        21 => Expr::pow_raw(sum(vec![v, e]), mk_rat(1, 2)),
        22 => Expr::pow_raw(func_raw(FUNS[rng.us(12)], e), n(2)),
        23 => prod(vec![func_raw("sin", e), func_raw("cos", v)]),
        24 => sum(vec![e]),
        25 => prod(vec![e]),
        26 => sum(vec![func_raw("tan", e), v.clone(), v]),
        27 => prod(vec![n(2), prod(vec![c, sum(vec![e, n(1)])])]),
        28 => Expr::pow_raw(prod(vec![v, sum(vec![e, n(1)])]), mk_rat(1, 2)),
        29 => prod(vec![Expr::pow_raw(v.clone(), n(-1)), Expr::pow_raw(v, sum(vec![e, n(1)]))]),
        30 => Expr::pow_raw(n(2), prod(vec![c, e])),
        31 => sum(vec![prod(vec![n(2), func_raw("tan", e)]), n(1), n(2)]),
        32 => Expr::log(Irrational::PI, e),
        _ => sum(vec![e, n(1)]),
    }
}
/// what takes a tree as it is, without multiplying out
const DEEP: [&str; 22] = ["reduce", "reduce", "reduce", "display", "debug", "hash", "compare", "serialize", "substitude", "free_of", "cost", "variables", "derivative", "sort_args", "substitute_trig", "expand_ln", "flatten",
    "sub-expressions", "predicates", "numerator", "rational_coeff", "polynomial"];
/// levels of nesting, each around one of the level before: the size grows by a few nodes per
/// level, and so may the effort
fn nested(cx: &mut Cx, rng: &mut Rng) -> Res {
    let n = 20 + rng.us(30);
    // one kind of level all the way, or several
    let kinds: Vec<usize> = (0..*rng.pick(&[1, 1, 2, 5])).map(|_| rng.us(34)).collect();
    let inner = if rng.chance(1, 2) { sum(vec![Expr::var("x"), Expr::var("x")]) } else { Expr::var("x") };
    let stack = |rng: &mut Rng, n: usize| (0..n).fold(inner.clone(), |e, _| {
        let k = *rng.pick(&kinds);
        level(rng, k, e)
    });
    let seed = rng.next();
    let e = cx.setup(|| stack(&mut Rng::new(seed), n))?;
    // a copy that shares nothing, the same a little higher, or something else inside
    let f = cx.setup(|| match rng.us(3) {
        0 => stack(&mut Rng::new(seed), n),
        1 => stack(&mut Rng::new(seed), n + 1),
        _ => stack(&mut Rng::new(seed), n).substitude(&Expr::var("x"), &Expr::var("zz")),
    })?;
    let z = Expr::var("z");
    let name = *rng.pick(&DEEP);
    let op = OPS.iter().find(|o| o.0 == name).unwrap();
    cx.input = format!("{} of {n} levels {} , {}", op.0, skel(&e), skel(&f));
    let r = match op.0 {
        "substitude" => cx.call(op.0, || op.1(&e, &Expr::var("x"), &z))?,
        "free_of" => cx.call(op.0, || op.1(&e, &z, &f))?,
        _ => cx.call(op.0, || op.1(&e, &f, &z))?,
    };
    cx.count("deep");
    cx.count(&format!("deep.{}", op.0));
    cx.seen(&cx.input.clone());
    cx.sample(|| format!("{} levels, {} -> {} nodes", n, op.0, r.es.iter().map(size).sum::<usize>()));
    Ok(())
}
fn total(cx: &mut Cx, rng: &mut Rng) -> Res {
    if rng.chance(1, 300) {
        return nested(cx, rng);
    }
    let mut pool = pool(cx, rng, 3, 8)?;
    if rng.chance(1, 12) {
        cx.count("powers with exponents of any size");
        let i = rng.us(pool.len());
        pool[i] = edge(rng);
    }
    let steps = 1 + rng.us(5);
    for _ in 0..steps {
        let (i, j, l) = (rng.us(pool.len()), rng.us(pool.len()), rng.us(pool.len()));
        if !tame(&pool[i]) || !tame(&pool[j]) || !tame(&pool[l]) {
            cx.count("too large to go on");
            continue;
        }
        let a0 = ALLOCS.load(std::sync::atomic::Ordering::Relaxed);
        if rng.chance(1, 6) {
            let m = rng.pick(MUTS);
            cx.input = format!("{} of {} , {}", m.0, skel(&pool[i]), skel(&pool[j]));
            let mut e = pool[i].clone();
            cx.call(m.0, || m.1(&mut e, &pool[j]))?;
            if size(&e) > 2 {
                cx.seen(&cx.input.clone());
            }
            pool.push(e);
        } else {
            let op = rng.pick(OPS);
            if heavy(op.0, &pool[i]) {
                cx.count("trigonometry too large to go on");
                continue;
            }
            cx.input = format!("{} of {} , {} , {}", op.0, skel(&pool[i]), skel(&pool[j]), skel(&pool[l]));
            let r = cx.call(op.0, || op.1(&pool[i], &pool[j], &pool[l]))?;
            if size(&pool[i]) > 2 {
                cx.seen(&cx.input.clone());
                cx.sample(|| format!("{} of {} -> {}", op.0, skel(&pool[i]), r.show().join(" ; ")));
            }
            pool.extend(r.es);
        }
        let n = ALLOCS.load(std::sync::atomic::Ordering::Relaxed) - a0;
        let k = match n {
            0..=999 => "allocations.below 1000",
            1000..=9999 => "allocations.below 10000",
            10_000..=99_999 => "allocations.below 100000",
            100_000..=999_999 => "allocations.below 1000000",
            _ => "allocations.more",
        };
        cx.count(k);
        pool.truncate(8);
    }
    Ok(())
}

// ------------------------------------------------------------------ C22
fn memory(cx: &mut Cx, rng: &mut Rng) -> Res {
    constants();
    let seed = rng.next();
    let (case, fresh) = (cx.idx, rng.chance(1, 2));
    let mut no = 0u64;
    // everything inside is dropped at its end; returns what was observed there
    let mut round = |cx: &mut Cx, what: &mut String| -> Res<u64> {
        let mut rng = Rng::new(seed);
        let rng = &mut rng;
        let mut pool = pool(cx, rng, 3, 9)?;
        let multiple = rng.chance(1, 8);
        if multiple {
            // functions of multiples: the longest expansions
            cx.count("rounds with multiples of an angle");
            let a = match rng.us(3) {
                0 => rng.pick(&[Expr::var("x"), Expr::var("y"), Expr::pi(), prod(vec![Expr::var("x"), Expr::var("z")])]).clone(),
                _ => pool[0].clone(),
            };
            let a = if size(&a) <= 5 { a } else { Expr::var("x") };
            let k = rng.int(-9, 9) as i128;
            let f = func_raw(rng.pick(&["sin", "cos", "tan"]), prod(vec![mk_rat(k, 1), a]));
            pool[0] = if rng.chance(1, 4) { Expr::pow_raw(f, mk_rat(2, 1)) } else { f };
        }
        if fresh {
            // names and numbers no round has seen before
            cx.count("rounds with new names and numbers");
            no += 1;
            let k = (case.wrapping_mul(8) + no) as i128;
            let kept = VARS[case as usize % 6];
            let name = |v: &str| if v == kept { v.to_string() } else { format!("{v}{k}") };
            let base = |b: &Real| match b {
                Real::Rational(r) if r.denom() == 1 => Real::Rational(Rational::from(r.numer() + k + 1_000)),
                b => b.clone(),
            };
            pool = pool.iter().map(|e| renamed(e, &name, &base)).collect();
            pool.push(sum(vec![pool[0].clone(), mk_rat(k + 1_000, 7)]));
            pool.push(prod(vec![mk_rat(-k - 1_000, 1), pool[0].clone()]));
        }
        let mut keep = vec![];
        let mut clones = 0;
        if rng.chance(1, 100) {
            // however many handles there are
            let k = *rng.pick(&[20usize, 100, 150, 300, 300, 1_000, 3_000, 70_000]);
            let e = &pool[rng.us(pool.len())];
            cx.count("expressions with many handles");
            let mut v: Vec<Expr> = Vec::with_capacity(k);
            let n0 = thread_allocs();
            v.extend((0..k).map(|_| e.clone()));
            let n1 = thread_allocs();
            clones += k as u64;
            if n1 != n0 {
                return fail("copying an expression allocates", format!("{k} copies of {} allocate {} times", skel(e), n1 - n0));
            }
        }
        for _ in 0..4 {
            let (i, j, l) = (rng.us(pool.len()), rng.us(pool.len()), rng.us(pool.len()));
            if !tame(&pool[i]) || !tame(&pool[j]) || !tame(&pool[l]) {
                continue;
            }
            let op = if multiple && rng.chance(1, 2) { OPS.iter().find(|o| o.0 == *["expand_trig", "contract_trig", "derivative", "expand"].get(rng.us(6)).unwrap_or(&"expand_trig")).unwrap() } else { rng.pick(OPS) };
            let i = if multiple && op.0 == "expand_trig" { 0 } else { i };
            if heavy(op.0, &pool[i]) && !(i == 0 && multiple && op.0 == "expand_trig") {
                cx.count("trigonometry too large to go on");
                continue;
            }
            *what = format!("{} of {} , {} , {}", op.0, skel(&pool[i]), skel(&pool[j]), skel(&pool[l]));
            cx.input = what.clone();
            let r = cx.call(op.0, || op.1(&pool[i], &pool[j], &pool[l]))?;
            keep.extend(r.es);
            if rng.chance(1, 3) {
                let m = rng.pick(MUTS);
                let mut e = pool[j].clone();
                cx.call(m.0, || m.1(&mut e, &pool[l]))?;
                keep.push(e);
            }
            // copying and dropping a handle costs nothing, whatever the size
            for e in keep.iter().chain(&pool).take(6) {
                let (b, _) = thread_mem();
                let n0 = thread_allocs();
                let c = e.clone();
                let c2 = c.clone();
                let n1 = thread_allocs();
                drop(c2);
                drop(c);
                let (b2, _) = thread_mem();
                clones += 2;
                if n1 != n0 || b2 != b {
                    return fail("copying an expression allocates", format!("copying {} allocates {} times", skel(e), n1 - n0));
                }
            }
        }
        Ok(clones)
    };
    let mut deltas = vec![];
    for _ in 0..4 {
        cx.input = String::new();
        cx.count("rounds");
        let before = thread_mem();
        let mut w = String::new();
        let r = round(cx, &mut w);
        let input = std::mem::take(&mut cx.input);
        drop(input);
        let r = match r {
            Ok(n) => n,
            Err(e) => return Err(e),
        };
        cx.add("copies", r);
        drop(w);
        let after = thread_mem();
        deltas.push((after.0 - before.0, after.1 - before.1));
        if deltas.last() == Some(&(0, 0)) {
            break;
        }
    }
    cx.count("released");
    if deltas.len() == 4 && deltas[1..].iter().all(|d| d.1 > 0) {
        return fail("memory is not released", format!("blocks (bytes) still allocated after dropping everything, four times the same: {deltas:?}"));
    }
    cx.seen_h(seed);
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C19", title: "operations are pure", run: pure, quick: 360_000, thorough: 4_000_000, rule: "pool of 3-10 expressions that share nodes, 2-7 random operations and in-place mutations of copies; every handle (to inner nodes too) and every constant compared with its former self after each, every result compared with that on unshared copies and in a fresh thread; non-trivial: distinct pool and sequence", ..DEF },
        Prop { id: "C21", title: "operations terminate", run: total, quick: 1_500_000, thorough: 20_000_000, budget_is_violation: true, fuel: 60_000_000, cpu_ms: 60_000, rule: "1-5 random operations applied to small expressions and to their own results; non-trivial: distinct operation and operands", ..DEF },
        Prop { id: "C22", title: "memory", run: memory, quick: 600_000, thorough: 6_000_000, rule: "small pool, four random operations, everything dropped, live blocks of the thread compared; copies of every handle made while counting allocations; non-trivial: every round", budget_is_violation: true, fuel: 60_000_000, cpu_ms: 60_000, ..DEF },
    ]
}
