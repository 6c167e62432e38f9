//! C06 undefinedness, C11 simplify, C12 derivatives, C14 substitution.
use super::norm::{canon, shuffled, CONST};
use super::value::{input, made};
use super::{Prop, DEF};
use crate::cx::*;
use crate::eval::*;
use crate::num::*;
use crate::rng::Rng;
use crate::tree::*;
use calcu_rs::atom::Atom;
use calcu_rs::{Expr, SymbolicExpr};

// ---------------------------------------------------------------- C06
pub(super) fn is_undef(e: &Expr) -> bool {
    matches!(e.atom(), Atom::Undef)
}
/// exact value, or the fact that a division by zero occurs; None: outside the property
#[derive(Clone, Debug, PartialEq)]
pub(super) enum V {
    Num(Q),
    Undef,
}
pub(super) fn numeric(t: &T, bits: u64) -> Option<V> {
    use T::*;
    let two = |a: &T, b: &T| -> Option<Result<(Q, Q), V>> {
        Some(match (numeric(a, bits)?, numeric(b, bits)?) {
            (V::Num(a), V::Num(b)) => Ok((a, b)),
            _ => Err(V::Undef),
        })
    };
    let v = match t {
        Rat(n, d) => V::Num(Q::new((*n).into(), (*d).into())?),
        T::Undef => V::Undef,
        Neg(a) => match numeric(a, bits)? {
            V::Num(q) => V::Num(q.neg()),
            u => u,
        },
        Add(a, b) => two(a, b)?.map_or_else(|u| u, |(a, b)| V::Num(a.add(&b))),
        Sub(a, b) => two(a, b)?.map_or_else(|u| u, |(a, b)| V::Num(a.sub(&b))),
        Mul(a, b) => two(a, b)?.map_or_else(|u| u, |(a, b)| V::Num(a.mul(&b))),
        Div(a, b) => two(a, b)?.map_or_else(|u| u, |(a, b)| a.div(&b).map_or(V::Undef, V::Num)),
        Pow(a, b) => match two(a, b)? {
            Err(u) => u,
            Ok((a, b)) => {
                if a.is_zero() && !b.is_pos() {
                    V::Undef
                } else {
                    match (N::Q(a).pow(&N::Q(b))).ok()? {
                        N::Q(q) => V::Num(q),
                        _ => return None,
                    }
                }
            }
        },
        _ => return None,
    };
    match &v {
        V::Num(q) if q.bits() > bits => None,
        _ => Some(v),
    }
}
/// a power of, or division by, something that is not an integer
pub(super) fn lazy_power(t: &T) -> bool {
    use T::*;
    let frac = |t: &T| !matches!(numeric(t, 200), Some(V::Num(q)) if q.is_int());
    match t {
        Div(a, b) => frac(b) || lazy_power(a) || lazy_power(b),
        Pow(a, b) => frac(a) || lazy_power(a) || lazy_power(b),
        Add(a, b) | Sub(a, b) | Mul(a, b) => lazy_power(a) || lazy_power(b),
        Neg(a) => lazy_power(a),
        _ => false,
    }
}
fn undef(cx: &mut Cx, rng: &mut Rng) -> Res {
    if rng.chance(1, 2) {
        // every operation with an undefined operand, every division by zero
        let (_, _, e) = input(cx, rng, &PROFS)?;
        let z = if rng.chance(1, 2) { Expr::zero() } else { Expr::from(0) };
        let u = Expr::undef();
        // the other operand may be the same handle, or another undefined one or zero
        let e = match rng.us(30) {
            0 => u.clone(),
            1 => Expr::undef(),
            2 => z.clone(),
            3 => mk_rat(0, 7),
            _ => e,
        };
        let own = rng.chance(1, 2);
        let in_place = |name: &'static str, cx: &mut Cx, mut c: Expr, r: &Expr| -> Res<(&'static str, Expr)> {
            let r = r.clone();
            let c = cx.call(name, || {
                match (&name[..1], own) {
                    ("+", false) => c += &r,
                    ("+", true) => c += r,
                    ("-", false) => c -= &r,
                    ("-", true) => c -= r,
                    ("*", false) => c *= &r,
                    ("*", true) => c *= r,
                    (_, false) => c /= &r,
                    (_, true) => c /= r,
                }
                c
            })?;
            Ok((name, c))
        };
        let form = *rng.pick(&["+=", "-=", "*=", "/="]);
        let (name, r): (&str, Expr) = match rng.us(20) {
            16 => in_place(form, cx, e.clone(), &u)?,
            17 => in_place(form, cx, u.clone(), &e)?,
            18 => in_place("/= 0", cx, e.clone(), &z)?,
            19 => match rng.us(5) {
                0 => ("&u - e", cx.call("sub", || &u - e.clone())?),
                1 => ("u * &e", cx.call("mul", || u.clone() * &e)?),
                2 => ("e / u", cx.call("div", || e.clone() / u.clone())?),
                3 => ("e / 0", cx.call("div", || e.clone() / z.clone())?),
                _ => ("u + e", cx.call("add", || u.clone() + e.clone())?),
            },
            0 => ("add(e, undef)", cx.call("add", || Expr::add(&e, &u))?),
            1 => ("add(undef, e)", cx.call("add", || Expr::add(&u, &e))?),
            2 => ("sub(e, undef)", cx.call("sub", || Expr::sub(&e, &u))?),
            3 => ("sub(undef, e)", cx.call("sub", || Expr::sub(&u, &e))?),
            4 => ("mul(e, undef)", cx.call("mul", || Expr::mul(&e, &u))?),
            5 => ("mul(undef, e)", cx.call("mul", || Expr::mul(&u, &e))?),
            6 => ("div(e, undef)", cx.call("div", || Expr::div(&e, &u))?),
            7 => ("div(undef, e)", cx.call("div", || Expr::div(&u, &e))?),
            8 => ("pow(e, undef)", cx.call("pow", || Expr::pow(&e, &u))?),
            9 => ("pow(undef, e)", cx.call("pow", || Expr::pow(&u, &e))?),
            10 => ("div(e, 0)", cx.call("div", || Expr::div(&e, &z))?),
            11 => ("e / 0", cx.call("div", || &e / &z)?),
            12 => ("pow(0, negative)", {
                let n = -rng.int(1, 40) as i128;
                let d = *rng.pick(&[1, 1, 2, 2, 3, 4, 5, 7]);
                cx.call("pow", || Expr::pow(&z, mk_rat(n, d)))?
            }),
            13 => ("pow(0, 0)", cx.call("pow", || Expr::pow(&z, Expr::zero()))?),
            14 => ("e += undef", {
                let mut c = e.clone();
                cx.call("add", || {
                    c += &u;
                    c
                })?
            }),
            _ => ("e *= undef", {
                let mut c = e.clone();
                cx.call("mul", || {
                    c *= &u;
                    c
                })?
            }),
        };
        if !is_undef(&r) {
            return fail(format!("{name}: not undefined"), format!("{name} with e = {} is {}", skel(&e), skel(&r)));
        }
        cx.count(name);
        if size(&e) > 1 {
            cx.seen(&format!("{name} {}", skel(&e)));
        }
        // and somewhere inside an arithmetic tree
        let parts = [Expr::add_raw(&e, &u), Expr::mul_raw(&e, &u), Expr::pow_raw(&e, &u), Expr::pow_raw(&u, &e), Expr::pow_raw(&z, Expr::from(-1)),
            Expr::pow_raw(&z, &z), Expr::pow_raw(&z, mk_rat(-rng.int(1, 9) as i128, rng.int(1, 6) as i128)), sum(vec![e.clone(), u.clone(), e.clone()]), prod(vec![e.clone(), u.clone(), e.clone()]), sum(vec![u.clone()]), prod(vec![u.clone()])];
        let mut i = rng.us(parts.len());
        if i == 1 && is_zero_node(&e) {
            i = 8;
        }
        let mut t = parts[i].clone();
        for _ in 0..rng.us(4) {
            let n = 1 + rng.us(4);
            let f = gen(rng, POLY, n);
            let f = cx.setup(|| build(&f, Mode::Direct, false, rng))?;
            t = match rng.us(4) {
                0 => sum(vec![f, t]),
                1 => prod(vec![t, f]),
                2 => Expr::pow_raw(t, f),
                _ => sum(vec![t, f.clone(), f]),
            };
        }
        cx.input = skel(&t);
        let r = cx.call("reduce", || t.reduce())?;
        if !is_undef(&r) {
            return fail("reduce: undefined operand disappears", format!("{} reduces to {}", skel(&t), skel(&r)));
        }
        cx.count("nested");
        cx.seen(&skel(&t));
        return Ok(());
    }
    // formulas of numbers
    let n = 2 + rng.us(10);
    let mut t = gen(rng, RATFN, n);
    let zero_heavy = rng.chance(1, 2);
    for v in 0..3 {
        let c = if zero_heavy { *rng.pick(&[0i128, 0, 1, -1, 2]) } else { rng.int(-3, 3) as i128 };
        t = t.subst(&var(v), &int(c));
    }
    let Some(v) = numeric(&t, 40) else { return skip("value not exactly representable") };
    let mode = *rng.pick(&[Mode::Smart, Mode::Ops, Mode::Direct]);
    cx.input = format!("{t} [{mode:?}]");
    let e = cx.setup(|| build(&t, mode, false, rng))?;
    cx.input = format!("{t} [{mode:?}] = {}", skel(&e));
    let r = cx.call("reduce", || e.reduce())?;
    match v {
        V::Undef => {
            cx.count("undefined formulas");
            if !is_undef(&r) {
                // the operators leave powers of fractions to reduce: 0 * (a power not yet known to be undefined) is 0
                if !matches!(mode, Mode::Direct) && lazy_power(&t) {
                    return skip("undefined power not folded by the operators");
                }
                return fail("reduce: undefined formula", format!("{t} is undefined but {} reduces to {}", skel(&e), skel(&r)));
            }
        }
        V::Num(q) => {
            cx.count("defined formulas");
            match r.atom() {
                Atom::Rational(x) if q == Q::new(x.numer().into(), x.denom().into()).unwrap() => (),
                _ => return fail("reduce: defined formula", format!("{t} is {q} but {} reduces to {}", skel(&e), skel(&r))),
            }
        }
    }
    cx.seen(&skel(&e));
    cx.sample(|| format!("{t} [{mode:?}] -> {}", skel(&r)));
    Ok(())
}
fn is_zero_node(e: &Expr) -> bool {
    matches!(e.atom(), Atom::Rational(r) if r.numer() == 0)
}

// ---------------------------------------------------------------- C11
fn cost(e: &Expr) -> usize {
    1 + e.args().iter().map(cost).sum::<usize>()
}
fn simplify(cx: &mut Cx, rng: &mut Rng) -> Res {
    let p = Prof { max_pow: 2, ..*rng.pick(&PROFS) };
    let n = 2 + rng.us(8);
    let t = gen(rng, p, n);
    let e = made(cx, rng, &t)?;
    let list = cx.call("simplify", || e.simplify())?;
    let irr = matches!(e.atom(), Atom::Undef | Atom::Rational(_) | Atom::Irrational(_) | Atom::Var(_));
    if list.is_empty() != irr {
        return fail("simplify: empty", format!("simplify of {} gave {} forms", skel(&e), list.len()));
    }
    let costs: Vec<usize> = list.iter().map(cost).collect();
    if costs.windows(2).any(|w| w[0] > w[1]) {
        return fail("simplify: not ordered by size", format!("the sizes are {costs:?}"));
    }
    let mut keys: Vec<String> = list.iter().map(canon).collect();
    keys.sort();
    if let Some(w) = keys.windows(2).find(|w| w[0] == w[1]) {
        return fail("simplify: duplicate", format!("{} occurs twice", w[0]));
    }
    let again = cx.call("simplify", || e.clone().simplify())?;
    if again.iter().map(skel).ne(list.iter().map(skel)) {
        return fail("simplify: not deterministic", "two calls gave different lists");
    }
    let hz = hazard(&e, p.neg_env);
    let mut compared = 0;
    for m in list.iter().take(40) {
        compared += cx.same_value("simplify", rng, p.neg_env, 2, &|env| eval_strict(&e, env), m, hz)?;
    }
    cx.add("members", list.len() as u64);
    if compared > 0 && list.len() > 1 {
        cx.seen(&skel(&e));
        cx.sample(|| format!("{} -> {} forms, smallest {}", skel(&e), list.len(), skel(&list[0])));
    }
    Ok(())
}

// ---------------------------------------------------------------- C12
/// powers whose values are out of reach: the derivative of x^n is n * x^(n - 1)
fn derivative_huge(cx: &mut Cx, rng: &mut Rng) -> Res {
    let n = (1i128 << rng.us(120)) + rng.int(0, 3) as i128;
    let n = if rng.chance(1, 3) { -n } else { n };
    let (n, d) = if rng.chance(1, 4) { (2 * n + 1, 2) } else { (n, 1) };
    if n == d || n == 2 * d || n == 0 {
        return skip("a small exponent");
    }
    let x = Expr::var(VARS[rng.us(3)]);
    let inner = if rng.chance(1, 3) { Expr::sin(&x) } else { x.clone() };
    let e = Expr::pow_raw(&inner, mk_rat(n, d));
    cx.input = format!("{} by {}", skel(&e), skel(&x));
    cx.count("exponents of any size");
    let got = cx.call("derivative", || e.derivative(&x))?;
    let got = cx.call("reduce", || got.reduce())?;
    let mut fs = vec![mk_rat(n, d), Expr::pow_raw(&inner, mk_rat(n - d, d))];
    if inner != x {
        fs.push(Expr::cos(&x));
    }
    let want = prod(fs);
    if canon(&got) != canon(&want) {
        return fail("derivative of a power", format!("the derivative reduces to {}, expected {}", skel(&got), skel(&want)));
    }
    cx.seen(&cx.input.clone());
    Ok(())
}
fn derivative(cx: &mut Cx, rng: &mut Rng) -> Res {
    if rng.chance(1, 200) {
        return derivative_huge(cx, rng);
    }
    let (_, p, e) = input(cx, rng, &PROFS)?;
    let vi = rng.us(p.nvars as usize + 1);
    let x = VARS[vi];
    let d = cx.call("derivative", || e.derivative(Expr::var(x)))?;
    let orig = |env: &Env| -> R<N> {
        eval_strict(&e, env)?;
        Ok(eval_dual(&e, env, x)?.d)
    };
    let hz = hazard(&e, p.neg_env);
    let mut ok = cx.same_value("derivative", rng, p.neg_env, 3, &orig, &d, hz)?;
    if rng.chance(1, 3) {
        let r = cx.call("reduce", || d.reduce())?;
        ok += cx.same_value("derivative, reduced", rng, p.neg_env, 2, &orig, &r, hz)?;
    }
    let depends = any(&e, &mut |s| matches!(s.atom(), Atom::Var(v) if v.to_string() == x));
    cx.count(if depends { "dependent" } else { "independent" });
    if ok > 0 && depends && size(&e) > 2 {
        cx.seen(&format!("{} {x}", skel(&e)));
        cx.sample(|| format!("d/d{x} {} = {}", skel(&e), skel(&d)));
    }
    Ok(())
}

// ---------------------------------------------------------------- C14
fn with_args(e: &Expr, mut kids: Vec<Expr>) -> Expr {
    match e.atom() {
        Atom::Sum(_) => sum(kids),
        Atom::Prod(_) => prod(kids),
        Atom::Pow(_) => Expr::pow_raw(&kids[0], &kids[1]),
        Atom::Func(f) => {
            let mut f = f.clone();
            f.args_mut()[0] = kids.remove(0);
            f.into()
        }
        _ => e.clone(),
    }
}
/// outermost matches first, replacements are not searched again
fn subst_ref(e: &Expr, pairs: &[(String, Expr)], hits: &mut usize) -> Expr {
    let key = canon(e);
    if let Some((_, to)) = pairs.iter().find(|(from, _)| *from == key) {
        *hits += 1;
        return to.clone();
    }
    let kids: Vec<Expr> = e.args().iter().map(|a| subst_ref(a, pairs, hits)).collect();
    if kids.is_empty() {
        return e.clone();
    }
    with_args(e, kids)
}
fn sub_exprs(e: &Expr, out: &mut Vec<Expr>) {
    out.push(e.clone());
    e.args().iter().for_each(|a| sub_exprs(a, out));
}
fn substitution(cx: &mut Cx, rng: &mut Rng) -> Res {
    let (_, p, e) = input(cx, rng, &PROFS)?;
    let mut subs = vec![];
    sub_exprs(&e, &mut subs);
    let k = match rng.us(8) {
        0..=2 => 1,
        3 | 4 => 2,
        5 | 6 => 3,
        _ => 4 + rng.us(9),
    };
    let mut pairs: Vec<(Expr, Expr)> = vec![];
    for _ in 0..k {
        let from = match rng.us(6) {
            0 => Expr::var(VARS[rng.us(3)]),
            1 => {
                let n = 1 + rng.us(4);
                let t = gen(rng, p, n);
                cx.setup(|| build(&t, Mode::Mixed, false, rng))?
            }
            2 => shuffled(rng.pick(&subs), rng),
            3 if !pairs.is_empty() => pairs[rng.us(pairs.len())].1.clone(),
            // again
            4 if k > 3 && !pairs.is_empty() => pairs[rng.us(pairs.len())].0.clone(),
            _ => rng.pick(&subs).clone(),
        };
        let n = 1 + rng.us(5);
        let t = gen(rng, p, n);
        let mut to = cx.setup(|| build(&t, Mode::Mixed, false, rng))?;
        if rng.chance(1, 3) {
            to = match rng.us(3) {
                0 => sum(vec![from.clone(), to]),
                1 => Expr::pow_raw(&from, &to),
                _ => from.clone(),
            };
        }
        pairs.push((from, to));
    }
    let shown: Vec<String> = pairs.iter().map(|(a, b)| format!("{} -> {}", skel(a), skel(b))).collect();
    cx.input = format!("{} with {}", skel(&e), shown.join("; "));
    let before = skel(&e);
    let refs: Vec<(&Expr, &Expr)> = pairs.iter().map(|(a, b)| (a, b)).collect();
    let keyed: Vec<(String, Expr)> = pairs.iter().map(|(a, b)| (canon(a), b.clone())).collect();
    let check = |op: &str, got: &Expr, want: &Expr| -> Res {
        if skel(got) != skel(want) {
            return fail(format!("{op}: wrong result"), format!("{op} gave {}, expected {}", skel(got), skel(want)));
        }
        Ok(())
    };
    let mut hits = 0;
    let one = cx.call("substitude", || e.substitude(refs[0].0, refs[0].1))?;
    check("substitude", &one, &subst_ref(&e, &keyed[..1], &mut hits))?;
    let con = cx.call("concurr_substitude", || e.concurr_substitude(&*leak_refs(&refs)))?;
    check("concurr_substitude", &con, &subst_ref(&e, &keyed, &mut hits))?;
    let seq = cx.call("seq_substitude", || e.seq_substitude(refs.iter().copied()))?;
    let mut want = e.clone();
    for i in 0..keyed.len() {
        want = subst_ref(&want, &keyed[i..i + 1], &mut hits);
    }
    check("seq_substitude", &seq, &want)?;
    if skel(&e) != before {
        return fail("substitution changed its input", format!("{before} became {}", skel(&e)));
    }
    // replacing a variable by a term means evaluating at the value of the term
    let x = VARS[rng.us(3)];
    let to = pairs[0].1.clone();
    let s = cx.call("substitude", || e.substitude(&Expr::var(x), &to))?;
    for _ in 0..2 {
        let env = env(rng, p.neg_env);
        let Ok(tv) = eval(&to, &env) else { continue };
        let mut at = env.clone();
        at.vals.iter_mut().for_each(|(n, v)| {
            if n == x {
                *v = tv.clone()
            }
        });
        if let (Ok(a), Ok(b)) = (eval(&e, &at), eval(&s, &env)) {
            cx.count("points.compared");
            if compare(&a, &b) == Cmp::Differ {
                return fail("substitude: value", format!("{x} -> {}: value {b} instead of {a} at {}", skel(&to), env.show()));
            }
        }
    }
    cx.add("replacements", hits as u64);
    if hits > 0 {
        cx.seen(&cx.input.clone());
        cx.sample(|| format!("{} with {} -> {}", skel(&e), shown.join("; "), skel(&con)));
    }
    Ok(())
}
/// concurr_substitude wants a Copy iterator
fn leak_refs<'a, 'b>(r: &'b [(&'a Expr, &'a Expr)]) -> Box<Pairs<'a, 'b>> {
    Box::new(Pairs(r))
}
#[derive(Clone, Copy)]
pub struct Pairs<'a, 'b>(&'b [(&'a Expr, &'a Expr)]);
impl<'a, 'b> IntoIterator for &Pairs<'a, 'b> {
    type Item = (&'a Expr, &'a Expr);
    type IntoIter = std::iter::Copied<std::slice::Iter<'b, (&'a Expr, &'a Expr)>>;
    fn into_iter(self) -> Self::IntoIter {
        self.0.iter().copied()
    }
}

pub fn props() -> Vec<Prop> {
    let _ = CONST;
    vec![
        Prop { id: "C06", title: "undefined", run: undef, quick: 2_400_000, thorough: 10_000_000, rule: "random tree combined with undef / zero operands by every operation and nested in larger trees, or a random formula of numbers with its exact definedness; non-trivial: distinct tree", budget_is_violation: true, fuel: 60_000_000, cpu_ms: 60_000, ..DEF },
        Prop { id: "C11", title: "simplify", run: simplify, quick: 60_000, thorough: 800_000, fuel: 10_000_000, rule: "random tree of up to 9 nodes simplified: order by size, duplicates, emptiness, repeatability, value of up to 40 members at random points; non-trivial: distinct tree with at least 2 members and a compared point", ..DEF },
        Prop { id: "C12", title: "derivative", run: derivative, quick: 1_500_000, thorough: 10_000_000, rule: "random tree differentiated by a random variable, value compared with forward-mode automatic differentiation at random points, also after reduce; non-trivial: distinct tree containing the variable with a compared point", budget_is_violation: true, fuel: 60_000_000, cpu_ms: 60_000, ..DEF },
        Prop { id: "C14", title: "substitution", run: substitution, quick: 1_500_000, thorough: 8_000_000, rule: "random tree and 1-3, now and then up to 12, replacement pairs (sub-expressions, shuffled copies, replacements containing the replaced), results compared with an independent substitution, values compared for variables; non-trivial: distinct input in which something was replaced", budget_is_violation: true, fuel: 60_000_000, cpu_ms: 60_000, ..DEF },
    ]
}
