//! C23 the builtins of the integration rules.
use super::value::made;
use super::{Prop, DEF};
use crate::cx::*;
use crate::eval::*;
use crate::rng::Rng;
use crate::tree::*;
use calcu_rs::atom::{Atom, Func, Irrational, Real};
use calcu_rs::rubi::verif::{call, Value as V};
use calcu_rs::Expr;

const PREDS: [&str; 12] = ["FalseQ", "TrueQ", "IntegerQ", "FractionQ", "NumberQ", "EvenQ", "OddQ", "ProductQ", "SumQ", "PowQ", "AtomQ", "ComplexNumberQ"];
const FUNS: [(&str, &str); 8] = [
    ("Sin", "sin"),
    ("ArcSin", "arcsin"),
    ("Cos", "cos"),
    ("ArcCos", "arccos"),
    ("Tan", "tan"),
    ("ArcTan", "arctan"),
    ("Sqrt", ""),
    ("Exp", ""),
];

fn holds(p: &str, v: &V) -> bool {
    let e = match v {
        V::None => return false,
        V::Bool(b) => return p == "TrueQ" && *b || p == "FalseQ" && !*b,
        V::Expr(e) => e.atom(),
    };
    let int = match e {
        Atom::Rational(r) if r.denom() == 1 => Some(r.numer()),
        _ => None,
    };
    match p {
        "IntegerQ" => int.is_some(),
        "FractionQ" => matches!(e, Atom::Rational(_)) && int.is_none(),
        "NumberQ" => matches!(e, Atom::Rational(_) | Atom::Irrational(_)),
        "EvenQ" => int.is_some_and(|n| n & 1 == 0),
        "OddQ" => int.is_some_and(|n| n & 1 == 1),
        "ProductQ" => matches!(e, Atom::Prod(_)),
        "SumQ" => matches!(e, Atom::Sum(_)),
        "PowQ" => matches!(e, Atom::Pow(_)),
        "AtomQ" => !matches!(e, Atom::Prod(_) | Atom::Sum(_) | Atom::Pow(_) | Atom::Func(_)),
        _ => false,
    }
}
fn arg(cx: &mut Cx, rng: &mut Rng) -> Res<(V, String)> {
    let e = match rng.us(8) {
        0 => return Ok((V::None, "none".into())),
        1 => {
            let b = rng.chance(1, 2);
            return Ok((V::Bool(b), format!("{b}")));
        }
        2 => {
            let n = ((rng.next() as i128) << 64 | rng.next() as i128) >> rng.us(127);
            mk_rat(n, if rng.chance(1, 8) { 1 + rng.next() as i128 } else { 1 })
        }
        3 => mk_rat(rng.us(60) as i128 - 30, 1 + rng.us(7) as i128),
        4 => Expr::from(if rng.chance(1, 2) { Irrational::PI } else { Irrational::E }),
        _ => expr(cx, rng)?.0,
    };
    let s = skel(&e);
    Ok((V::Expr(e), s))
}
fn expr(cx: &mut Cx, rng: &mut Rng) -> Res<(Expr, Prof)> {
    let p = *rng.pick(&PROFS);
    let n = 1 + rng.us(10);
    let t = gen(rng, p, n);
    Ok((made(cx, rng, &t)?, p))
}
/// a call with arguments it must not accept
fn rejected(cx: &mut Cx, name: &str, args: Vec<V>) -> Res {
    cx.count("rejected calls");
    match guard(|| call(name, args)) {
        Ret::Panic(m) if m.contains("expected") => {
            cx.seen(&cx.input.clone());
            Ok(())
        }
        Ret::Panic(m) => fail(format!("{name}: wrong rejection"), m),
        Ret::Overflow => skip("overflow"),
        Ret::Val(v) => fail(format!("{name}: accepts anything"), format!("{name} of the wrong arguments gave {v:?}")),
    }
}
/// the square root of a number of any size, decided exactly
fn exact_root(cx: &mut Cx, rng: &mut Rng) -> Res {
    let r = (rng.next() & (u64::MAX >> 1) | 1) >> rng.us(62);
    let r = r as i128;
    let n = match rng.us(4) {
        0 => r * r,
        1 => r,
        _ => r * r + rng.int(-3, 3) as i128,
    };
    let d = if rng.chance(1, 3) {
        let bits = rng.us(16);
        let d = 1 + rng.us(1 << bits) as i128;
        d * d
    } else {
        1
    };
    let q = mk_rat(n, d);
    cx.input = format!("Sqrt {}", skel(&q));
    let e = q.clone();
    let v = cx.call("Sqrt", move || call("Sqrt", vec![V::Expr(e)]))?;
    let Some(V::Expr(v)) = v else { return fail("Sqrt: no expression", format!("{v:?}")) };
    cx.count("square roots decided exactly");
    let square = |r: &Expr| -> Option<Expr> {
        let Atom::Rational(r) = r.atom() else { return None };
        let (a, b) = (r.numer(), r.denom());
        Some(mk_rat(a.checked_mul(a)?, b.checked_mul(b)?))
    };
    let wrong = match v.atom() {
        Atom::Rational(r) => r.numer() < 0 || square(&v).is_some_and(|s| s != q),
        // any other number must still be the root of the same
        Atom::Pow(p) if matches!((p.base().atom(), p.exponent().atom()), (Atom::Rational(_), Atom::Rational(h)) if (h.numer(), h.denom()) == (1, 2)) => *p.base() != q,
        _ => false,
    };
    if wrong {
        return fail("Sqrt: another number", format!("Sqrt of {} is {}", skel(&q), skel(&v)));
    }
    cx.seen(&cx.input.clone());
    Ok(())
}
fn builtins(cx: &mut Cx, rng: &mut Rng) -> Res {
    match rng.us(10) {
        0..=3 => {
            let (v, s) = arg(cx, rng)?;
            cx.input = s.clone();
            for p in PREDS {
                let r = cx.call(p, || call(p, vec![v.clone()]))?;
                let want = holds(p, &v);
                if r != Some(V::Bool(want)) {
                    return fail(format!("{p}: wrong answer"), format!("{p}[{s}] is {r:?}, expected {want}"));
                }
                cx.count(&format!("{p}.{want}"));
            }
            if let V::Bool(b) = v {
                let r = cx.call("Not", || call("Not", vec![v.clone()]))?;
                if r != Some(V::Bool(!b)) {
                    return fail("Not: wrong answer", format!("Not[{b}] is {r:?}"));
                }
            }
            cx.seen(&s);
            Ok(())
        }
        4 if rng.chance(1, 6) => exact_root(cx, rng),
        4..=6 => {
            let (e, p) = expr(cx, rng)?;
            let log = rng.chance(1, 3);
            let (name, f) = *rng.pick(&FUNS);
            let (name, args, raw): (&str, Vec<V>, Expr) = if log {
                let base = rng.us(7);
                let (b, r) = match base {
                    0 => (None, Real::from(Irrational::E)),
                    1 => (Some(Expr::from(Irrational::E)), Real::from(Irrational::E)),
                    2 => (Some(Expr::from(Irrational::PI)), Real::from(Irrational::PI)),
                    5 | 6 => {
                        let q = mk_rat(1 + rng.us(40) as i128, 1 + rng.us(12) as i128);
                        let Atom::Rational(r) = q.atom() else { return skip("no number") };
                        (Some(q.clone()), Real::from(*r))
                    }
                    _ => {
                        let (n, d) = *rng.pick(&[(2, 1), (10, 1), (1, 2), (3, 1), (5, 3)]);
                        let q = mk_rat(n, d);
                        let Atom::Rational(r) = q.atom() else { return skip("no number") };
                        (Some(q.clone()), Real::from(*r))
                    }
                };
                let mut args: Vec<V> = b.into_iter().map(V::Expr).collect();
                args.push(V::Expr(e.clone()));
                ("Log", args, Expr::from(Atom::Func(Func::Log(r, e.clone()))))
            } else {
                let raw = match name {
                    "Sqrt" => Expr::pow_raw(&e, mk_rat(1, 2)),
                    "Exp" => Expr::pow_raw(Expr::from(Irrational::E), &e),
                    _ => func_raw(f, e.clone()),
                };
                (name, vec![V::Expr(e.clone())], raw)
            };
            cx.input = format!("{name} {}", skel(&raw));
            let r = cx.call(name, || call(name, args))?;
            let Some(V::Expr(r)) = r else { return fail(format!("{name}: no expression"), format!("{r:?}")) };
            let ok = cx.same_value(name, rng, p.neg_env, 3, &|env| eval_strict(&raw, env), &r, hazard(&raw, p.neg_env))?;
            if ok > 0 {
                cx.seen(&cx.input.clone());
                cx.sample(|| format!("{name}: {} -> {}", skel(&raw), skel(&r)));
            }
            Ok(())
        }
        7 => {
            let (e, _) = expr(cx, rng)?;
            let x = Expr::var(*rng.pick(&["x", "y", "z"]));
            let (name, args) = if rng.chance(1, 2) { ("Derivative", vec![e.clone(), x.clone()]) } else { ("Expand", vec![e.clone()]) };
            cx.input = format!("{name} {}", skel(&e));
            let r = cx.call(name, || call(name, args.into_iter().map(V::Expr).collect()))?;
            let want = cx.setup(|| if name == "Expand" { e.expand() } else { e.derivative(&x) })?;
            match r {
                Some(V::Expr(r)) if r == want => (),
                r => return fail(format!("{name}: another result"), format!("{name} is {r:?}, expected {}", skel(&want))),
            }
            cx.seen(&cx.input.clone());
            Ok(())
        }
        _ => {
            let names: Vec<&str> = FUNS.iter().map(|f| f.0).chain(["Expand", "Log"]).collect();
            let bad = |rng: &mut Rng| if rng.chance(1, 3) { V::None } else { V::Bool(rng.chance(1, 2)) };
            let (e, _) = expr(cx, rng)?;
            let (name, args) = match rng.us(8) {
                6 => (*rng.pick(&names[..9]), vec![]),
                7 => (*rng.pick(&["Log", "Derivative", "Sin", "EvenQ", "Not", "Expand"]), vec![V::Expr(e.clone()), V::Expr(e.clone()), V::Expr(e)]),
                // not an expression
                0 => (*rng.pick(&names), vec![bad(rng)]),
                1 => (*rng.pick(&["Log", "Derivative"]), if rng.chance(1, 2) { vec![bad(rng), V::Expr(e)] } else { vec![V::Expr(e), bad(rng)] }),
                // the wrong number of arguments
                2 => (*rng.pick(&names[..9]), vec![V::Expr(e.clone()), V::Expr(e)]),
                3 => (*rng.pick(&PREDS[..11]), vec![V::Expr(e.clone()), V::Expr(e)]),
                4 => ("Derivative", vec![V::Expr(e)]),
                // a base that is no number
                _ => {
                    if matches!(e.atom(), Atom::Rational(_) | Atom::Irrational(_)) {
                        return skip("a number");
                    }
                    ("Log", vec![V::Expr(e), V::Expr(Expr::var("x"))])
                }
            };
            cx.input = format!("{name} {args:?}");
            rejected(cx, name, args)
        }
    }
}
pub fn props() -> Vec<Prop> {
    vec![Prop { id: "C23", title: "builtins of the integration rules", run: builtins, quick: 450_000, thorough: 4_000_000, rule: "random builtin with random arguments (truth values, nothing, numbers, expressions; one or two); non-trivial: distinct call with a decided answer", budget_is_violation: true, fuel: 60_000_000, cpu_ms: 60_000, ..DEF }]
}
