//! C01 / C02: rational arithmetic against arbitrary-precision rationals.
use super::{Prop, DEF};
use crate::cx::*;
use crate::num::Q;
use crate::rng::Rng;
use calcu_rs::rational::{binomial_coeff, Rational};
use num_bigint::BigInt;
use num_integer::Integer;
use num_traits::{Signed, ToPrimitive, Zero};
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};

/// integers with many shapes: tiny, shared factors, powers of two and neighbours, up to 2^bits
fn some_int(rng: &mut Rng, bits: u32) -> i128 {
    let v: i128 = match rng.us(8) {
        0..=2 => rng.int(-12, 12) as i128,
        3 => rng.int(-1000, 1000) as i128,
        4 => {
            let p = [2i128, 3, 5, 7, 11, 13];
            let mut v = 1i128;
            for _ in 0..rng.us(12) {
                let n = v * *rng.pick(&p);
                if n < 1i128 << bits {
                    v = n
                }
            }
            v * if rng.chance(1, 2) { -1 } else { 1 }
        }
        5 => {
            let b = rng.us(bits as usize + 1) as u32;
            (1i128 << b) + rng.int(-1, 1) as i128
        }
        _ => {
            let b = 1 + rng.us(bits as usize) as u32;
            let raw = ((rng.next() as u128) << 64 | rng.next() as u128) & ((1u128 << b) - 1);
            raw as i128 * if rng.chance(1, 2) { -1 } else { 1 }
        }
    };
    let lim = 1i128 << bits;
    v.clamp(-lim, lim)
}
pub fn some_rat(rng: &mut Rng, bits: u32) -> (i128, i128) {
    let n = some_int(rng, bits);
    let d = match rng.us(3) {
        0 => 1,
        _ => loop {
            let d = some_int(rng, bits);
            if d != 0 {
                break d;
            }
        },
    };
    (n, d)
}
fn q(n: i128, d: i128) -> Q {
    Q::new(n.into(), d.into()).unwrap()
}
fn of(r: &Rational) -> Option<Q> {
    Q::new(r.numer().into(), r.denom().into())
}
/// the representation every user of numer()/denom()/Hash/Display sees
fn canonical(op: &str, r: &Rational) -> Res {
    let (n, d) = (r.numer(), r.denom());
    if d <= 0 {
        return fail(format!("{op}: denominator not positive"), format!("{op} gave {n}/{d}"));
    }
    if n.gcd(&d) != 1 {
        return fail(format!("{op}: not in lowest terms"), format!("{op} gave {n}/{d}"));
    }
    Ok(())
}
fn expect_q(op: &str, r: &Rational, want: &Q) -> Res {
    canonical(op, r)?;
    if of(r).as_ref() != Some(want) {
        return fail(format!("{op}: wrong value"), format!("{op} gave {}/{}, exactly {want}", r.numer(), r.denom()));
    }
    Ok(())
}
fn expect<T: PartialEq + std::fmt::Debug>(op: &str, got: T, want: T) -> Res {
    if got != want {
        return fail(format!("{op}: wrong result"), format!("{op} gave {got:?}, expected {want:?}"));
    }
    Ok(())
}
fn h(r: &Rational) -> u64 {
    let mut s = DefaultHasher::new();
    r.hash(&mut s);
    s.finish()
}

/// the ends of the machine integers the conversions start from
const EDGES: [i128; 16] = [
    i8::MAX as i128, u8::MAX as i128, i16::MIN as i128, u16::MAX as i128, i32::MIN as i128, i32::MAX as i128, u32::MAX as i128, 1 << 53, -(1 << 53),
    i64::MIN as i128, i64::MAX as i128, u64::MAX as i128, 1 << 100, -(1 << 100), (1 << 126) - 1, -(1 << 126),
];

pub fn arith(cx: &mut Cx, rng: &mut Rng) -> Res {
    let bits = *rng.pick(&[8u32, 16, 31, 31, 40, 60, 64, 90, 122]);
    let (an, ad) = some_rat(rng, bits);
    let (bn, bd) = match rng.us(8) {
        0 => (an, ad),
        // a large operand meets a small one
        1 | 2 => some_rat(rng, 8),
        // and one over the same, or a related, denominator
        3 => (some_int(rng, bits), ad),
        _ => some_rat(rng, bits),
    };
    cx.input = format!("{an}/{ad} and {bn}/{bd}");
    let a = cx.call("new", || Rational::new(an, ad))?;
    let b = cx.call("from", || Rational::from((bn, bd)))?;
    let (qa, qb) = (q(an, ad), q(bn, bd));
    expect_q("new", &a, &qa)?;
    expect_q("from", &b, &qb)?;
    // a chain of operations on an accumulator, so that results feed later operations
    let mut acc = a;
    let mut qacc = qa.clone();
    let mut cur = b;
    let mut qcur = qb.clone();
    let steps = 1 + rng.us(6);
    let mut done = String::new();
    for _ in 0..steps {
        let op = rng.us(4);
        let name = ["add", "sub", "mul", "div"][op];
        let (want, big) = {
            let w = match op {
                0 => qacc.add(&qcur),
                1 => qacc.sub(&qcur),
                2 => qacc.mul(&qcur),
                _ if qcur.is_zero() => {
                    cx.count("skip.division-by-zero");
                    continue;
                }
                _ => qacc.div(&qcur).unwrap(),
            };
            // no intermediate value of the schoolbook formula leaves i128
            let pairs = match op {
                0 | 1 => [(&qacc.n, &qcur.d), (&qcur.n, &qacc.d), (&qacc.d, &qcur.d)],
                2 => [(&qacc.n, &qcur.n), (&qacc.d, &qcur.d), (&qacc.d, &qcur.d)],
                _ => [(&qacc.n, &qcur.d), (&qacc.d, &qcur.n), (&qacc.d, &qcur.n)],
            };
            let big = pairs.iter().any(|(x, y)| (*x * *y).bits() > 125);
            (w, big)
        };
        if big {
            cx.count("skip.operands-too-large");
            break;
        }
        let form = rng.us(4);
        let (x, y) = (acc, cur);
        let label = format!("{name}.{form}");
        cx.input = format!("{}/{} {name} {}/{} (form {form})", x.numer(), x.denom(), y.numer(), y.denom());
        let r = match guard(|| {
            let mut z = x;
            match (op, form) {
                (0, 0) => x + y,
                (0, 1) => x + &y,
                (0, 2) => {
                    z += y;
                    z
                }
                (0, _) => {
                    z += &y;
                    z
                }
                (1, 0) => x - y,
                (1, 1) => x - &y,
                (1, 2) => {
                    z -= y;
                    z
                }
                (1, _) => {
                    z -= &y;
                    z
                }
                (2, 0) => x * y,
                (2, 1) => x * &y,
                (2, 2) => {
                    z *= y;
                    z
                }
                (2, _) => {
                    z *= &y;
                    z
                }
                (_, 0) => x / y,
                (_, 1) => x / &y,
                (_, 2) => {
                    z /= y;
                    z
                }
                _ => {
                    z /= &y;
                    z
                }
            }
        }) {
            Ret::Val(v) => v,
            Ret::Overflow => return fail(format!("{name}: overflow"), format!("{name} overflowed although every intermediate value fits")),
            Ret::Panic(m) => return fail(format!("{name}: panic"), format!("{name} panicked: {m}")),
        };
        cx.count(&format!("calls.{label}"));
        expect_q(&label, &r, &want)?;
        done.push_str(&label);
        acc = r;
        qacc = want;
        if rng.chance(1, 3) {
            std::mem::swap(&mut acc, &mut cur);
            std::mem::swap(&mut qacc, &mut qcur);
        }
    }
    // order, equality and hash are those of the numbers
    let pairs = [(a, qa.clone(), b, qb.clone()), (acc, qacc.clone(), a, qa.clone()), (acc, qacc.clone(), b, qb.clone())];
    for (x, qx, y, qy) in &pairs {
        if qx.bits().max(qy.bits()) > 125 {
            continue;
        }
        cx.input = format!("{qx} versus {qy}");
        let c = cx.call("cmp", || (x.cmp(y), x.partial_cmp(y), x == y, x < y, x <= y, x > y, x >= y, *x.max(y)))?;
        let w = qx.cmp(qy);
        let mx = if w.is_lt() { y } else { x };
        expect("cmp", c, (w, Some(w), w.is_eq(), w.is_lt(), w.is_le(), w.is_gt(), w.is_ge(), *mx))?;
        if w.is_eq() {
            expect("hash", h(x), h(y))?;
        }
    }
    for (x, qx) in [(a, &qa), (b, &qb), (acc, &qacc), (-1i64).into_pair()].into_iter().map(|(x, q)| (x, q.clone())).collect::<Vec<_>>() {
        if qx.bits() > 120 {
            continue;
        }
        cx.input = format!("unary operations of {qx}");
        unary(cx, x, &qx)?;
    }
    let wide = *rng.pick(&[62u32, 62, 100, 126]);
    let i = match rng.us(4) {
        0 => *rng.pick(&EDGES) + if rng.chance(1, 2) { 0 } else { rng.int(-3, 3) as i128 },
        _ => some_int(rng, wide),
    };
    cx.input = format!("conversions of {i}");
    conversions(cx, i)?;
    cx.count("cases");
    cx.seen(&format!("{an}/{ad} {bn}/{bd} {done}"));
    cx.sample(|| format!("{an}/{ad}, {bn}/{bd}: {done} -> {}/{}", acc.numer(), acc.denom()));
    Ok(())
}
trait IntoPair {
    fn into_pair(self) -> (Rational, &'static Q);
}
impl IntoPair for i64 {
    fn into_pair(self) -> (Rational, &'static Q) {
        use std::sync::OnceLock;
        static M: OnceLock<Q> = OnceLock::new();
        (Rational::MINUS_ONE, M.get_or_init(|| Q::int(-1)))
    }
}

fn unary(cx: &mut Cx, x: Rational, qx: &Q) -> Res {
    expect_q("value", &x, qx)?;
    let abs = cx.call("abs", || x.abs())?;
    expect_q("abs", &abs, &Q::new(qx.n.abs(), qx.d.clone()).unwrap())?;
    let fl = cx.call("floor", || x.floor())?;
    expect("floor", BigInt::from(fl), qx.floor())?;
    let inv = cx.call("inverse", || x.inverse())?;
    match (inv, qx.inv()) {
        (None, None) => (),
        (Some(i), Some(w)) => expect_q("inverse", &i, &w)?,
        (a, b) => return fail("inverse: wrong result", format!("inverse gave {a:?}, expected {b:?}")),
    }
    let (quot, rem) = cx.call("div_rem", || x.div_rem())?;
    let (wq, wr) = qx.n.div_rem(&qx.d);
    expect_q("div_rem quotient", &quot, &Q::new(wq, 1.into()).unwrap())?;
    expect_q("div_rem remainder", &rem, &Q::new(wr, qx.d.clone()).unwrap())?;
    let is = |n: i128| *qx == Q::int(n);
    let even = qx.is_int() && qx.n.is_even();
    let odd = qx.is_int() && qx.n.is_odd();
    for (name, got, want) in cx.call("predicates", || [
        ("is_zero", x.is_zero(), is(0)),
        ("is_one", x.is_one(), is(1)),
        ("is_two", x.is_two(), is(2)),
        ("is_min_one", x.is_min_one(), is(-1)),
        ("is_min_two", x.is_min_two(), is(-2)),
        ("is_pos", x.is_pos(), qx.is_pos()),
        ("is_neg", x.is_neg(), qx.n.is_negative()),
        ("is_int", x.is_int(), qx.is_int()),
        ("is_fraction", x.is_fraction(), !qx.is_int()),
        ("is_even", x.is_even(), even),
        ("is_odd", x.is_odd(), odd),
    ])? {
        expect(name, got, want)?;
    }
    expect("to_int", x.to_int().map(BigInt::from), qx.is_int().then(|| qx.n.clone()))?;
    let f = cx.call("f64_approx", || x.f64_approx())?;
    let w = qx.to_f64();
    if (f - w).abs() > w.abs() * 1e-12 {
        return fail("f64_approx: wrong result", format!("f64_approx gave {f}, expected {w}"));
    }
    Ok(())
}
fn conversions(cx: &mut Cx, i: i128) -> Res {
    let w = Q::int(i);
    expect_q("from i128", &Rational::from(i), &w)?;
    expect_q("new_int", &Rational::new_int(i), &w)?;
    if let Ok(v) = i64::try_from(i) {
        expect_q("from i64", &Rational::from(v), &w)?;
    }
    if let Ok(v) = u64::try_from(i) {
        expect_q("from u64", &Rational::from(v), &w)?;
    }
    if let Ok(v) = i32::try_from(i) {
        expect_q("from i32", &Rational::from(v), &w)?;
        expect_q("from (i32, i32)", &Rational::from((v / 2, 6)), &q((v / 2) as i128, 6))?;
        expect_q("from (i32, i32)", &Rational::from((6, -1 - (v / 2).abs())), &q(6, -1 - (v as i128 / 2).abs()))?;
    }
    if let Ok(v) = u32::try_from(i) {
        expect_q("from u32", &Rational::from(v), &w)?;
    }
    expect_q("default", &Rational::default(), &Q::int(0))?;
    cx.count("conversions");
    Ok(())
}

/// is x representable as num/den in i128
fn fits(x: &Q) -> bool {
    x.n.to_i128().is_some() && x.d.to_i128().is_some()
}
/// certainly representable including every intermediate result of repeated squaring
fn fits_well(x: &Q) -> bool {
    x.n.bits().max(x.d.bits()) <= 62
}

pub fn powers(cx: &mut Cx, rng: &mut Rng) -> Res {
    let bits = *rng.pick(&[3u32, 3, 8, 16, 31]);
    let (bn, bd) = some_rat(rng, bits);
    let (en, ed) = match rng.us(7) {
        0..=2 => (rng.int(-12, 12) as i128, 1),
        3 | 4 => (rng.int(-40, 40) as i128, rng.int(1, 7) as i128),
        // just beyond a machine integer, as a numerator or as the whole part of a fraction
        5 => {
            let k = *rng.pick(&[7u32, 8, 15, 16, 31, 32, 33, 53, 63, 64, 65, 96, 120]);
            let n = ((1i128 << k) + rng.int(-4, 8) as i128) * *rng.pick(&[1, 1, -1]);
            (n, *rng.pick(&[1i128, 1, 2, 3]))
        }
        _ => {
            let b = *rng.pick(&[4u32, 12, 40, 60, 90]);
            some_rat(rng, b)
        }
    };
    let (b, e) = (Rational::new(bn, bd), Rational::new(en, ed));
    let (qb, qe) = (q(bn, bd), q(en, ed));
    cx.input = format!("({qb}) ^ ({qe})");
    if !(qb.is_zero() && qe.is_zero()) {
        let r = match guard(|| b.pow(e)) {
            Ret::Val(v) => v,
            Ret::Overflow => return fail("pow: overflow", "pow panicked with an overflow instead of returning its input"),
            Ret::Panic(m) => return fail("pow: panic", format!("pow panicked: {m}")),
        };
        cx.count("calls.pow");
        canonical("pow base", &r.0)?;
        canonical("pow remainder", &r.1)?;
        let (rb, re) = (of(&r.0).unwrap(), of(&r.1).unwrap());
        // what repeated multiplication says
        let trunc = qe.n.div_rem(&qe.d).0;
        let rem = qe.sub(&Q::new(trunc.clone(), 1.into()).unwrap());
        let t = trunc.to_i64().filter(|t| t.abs() <= 4096);
        let size = qb.bits();
        let trivial = qb.n.abs() <= 1.into() && qb.d == 1.into();
        let exact = match t {
            Some(t) if size * t.unsigned_abs() <= 40_000 || trivial => qb.powi(t),
            _ if trivial && !qb.is_zero() => qb.powi(if trunc.is_even() { 2 } else { 1 }),
            _ if trivial && trunc.is_positive() => Some(Q::int(0)),
            _ => None,
        };
        let input = rb == qb && re == qe;
        let computed = exact.as_ref().is_some_and(|x| *x == rb && re == rem);
        let proper = !qe.is_int() && trunc.is_zero();
        let zero_neg = qb.is_zero() && qe.n.is_negative();
        let must_input = zero_neg || exact.as_ref().is_some_and(|x| !fits(x)) || exact.is_none() && !trivial;
        let must_compute = !zero_neg && !proper && exact.as_ref().is_some_and(fits_well) && t.is_some();
        if !(input || computed) {
            return fail("pow: wrong result", format!("pow gave ({rb}, {re}); expected {exact:?} with remainder {rem}, or the input"));
        }
        if must_compute && !computed {
            return fail("pow: not computed", format!("pow returned its input although the power is {}", exact.unwrap()));
        }
        if must_input && !input {
            return fail("pow: invented", format!("pow gave ({rb}, {re}) although the power cannot be represented"));
        }
        let basic = match guard(|| b.pow_basic(e)) {
            Ret::Val(v) => v,
            _ => return fail("pow_basic: panic", "pow_basic panicked"),
        };
        match &basic {
            Some(x) => {
                canonical("pow_basic", x)?;
                if !qe.is_int() || exact.as_ref() != of(x).as_ref() {
                    return fail("pow_basic: wrong result", format!("pow_basic gave {x:?}, expected {exact:?}"));
                }
            }
            None => {
                if qe.is_int() && must_compute {
                    return fail("pow_basic: not computed", "pow_basic gave None although the power is representable");
                }
            }
        }
        cx.count(if computed && !proper { "pow.computed" } else { "pow.input" });
        if qe.is_int() {
            cx.count("pow.integer-exponent");
        }
        cx.seen(&cx.input.clone());
        cx.sample(|| format!("({qb}) ^ ({qe}) -> ({rb}, {re})"));
    }
    // gcd of fractions over one denominator
    let d = rng.int(1, 60) as i128;
    let (m, k) = (some_int(rng, 31), some_int(rng, 31));
    let (x, y) = (Rational::new(m, d), Rational::new(k, d));
    cx.input = format!("int_gcd of {m}/{d} and {k}/{d}");
    let g = cx.call("int_gcd", || x.int_gcd(&y))?;
    if x.denom() != y.denom() {
        if g.is_some() {
            return fail("int_gcd: different denominators", format!("int_gcd gave {g:?}"));
        }
    } else {
        let w = q(x.numer().gcd(&y.numer()), x.denom());
        match g {
            Some(g) => expect_q("int_gcd", &g, &w)?,
            None => return fail("int_gcd: none", "int_gcd gave None for equal denominators"),
        }
    }
    let n = rng.int(0, 60) as i128;
    let k = rng.int(0, n as i64) as i128;
    cx.input = format!("binomial({n}, {k})");
    let c = cx.call("binomial_coeff", || binomial_coeff(n, k))?;
    let mut w = BigInt::from(1);
    for i in 0..k {
        w = w * (n - i) / (i + 1);
    }
    expect("binomial_coeff", BigInt::from(c), w)?;
    Ok(())
}
pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C01", title: "rational arithmetic", run: arith, quick: 2_400_000, thorough: 20_000_000, rule: "chains of 1-8 operations on 1-4 random rationals (small, huge, near i128 limits), every operator form; non-trivial: a distinct operand/operation pair with a non-integer or large operand", budget_is_violation: true, fuel: 60_000_000, cpu_ms: 60_000, ..DEF },
        Prop { id: "C02", title: "rational powers", run: powers, quick: 4_500_000, thorough: 20_000_000, rule: "random base/exponent pairs (small, huge, fractional, negative, zero), gcds of two fractions, binomials; non-trivial: distinct inputs other than exponents 0 and 1", budget_is_violation: true, fuel: 60_000_000, cpu_ms: 60_000, ..DEF },
    ]
}
