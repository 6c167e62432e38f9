//! The value domain of the oracle: exact rationals, degrading to error-bounded
//! balls (midpoint-radius f64) as soon as something irrational is involved.
use num_bigint::BigInt;
use num_integer::Integer;
use num_traits::{One, Signed, ToPrimitive, Zero};

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Q {
    pub n: BigInt,
    pub d: BigInt,
}
impl Q {
    pub fn new(n: BigInt, d: BigInt) -> Option<Q> {
        if d.is_zero() {
            return None;
        }
        let g = n.gcd(&d);
        let (mut n, mut d) = (n / &g, d / &g);
        if d.is_negative() {
            n = -n;
            d = -d;
        }
        Some(Q { n, d })
    }
    pub fn int(i: i128) -> Q {
        Q { n: i.into(), d: BigInt::one() }
    }
    pub fn frac(n: i128, d: i128) -> Q {
        Q::new(n.into(), d.into()).unwrap()
    }
    pub fn is_zero(&self) -> bool {
        self.n.is_zero()
    }
    pub fn is_int(&self) -> bool {
        self.d.is_one()
    }
    pub fn is_pos(&self) -> bool {
        self.n.is_positive()
    }
    pub fn add(&self, o: &Q) -> Q {
        Q::new(&self.n * &o.d + &o.n * &self.d, &self.d * &o.d).unwrap()
    }
    pub fn neg(&self) -> Q {
        Q { n: -&self.n, d: self.d.clone() }
    }
    pub fn sub(&self, o: &Q) -> Q {
        self.add(&o.neg())
    }
    pub fn mul(&self, o: &Q) -> Q {
        Q::new(&self.n * &o.n, &self.d * &o.d).unwrap()
    }
    pub fn inv(&self) -> Option<Q> {
        Q::new(self.d.clone(), self.n.clone())
    }
    pub fn div(&self, o: &Q) -> Option<Q> {
        o.inv().map(|i| self.mul(&i))
    }
    pub fn cmp(&self, o: &Q) -> std::cmp::Ordering {
        (&self.n * &o.d).cmp(&(&o.n * &self.d))
    }
    pub fn powi(&self, e: i64) -> Option<Q> {
        if e < 0 {
            return self.inv()?.powi(-e);
        }
        let e = u32::try_from(e).ok()?;
        Some(Q { n: self.n.pow(e), d: self.d.pow(e) })
    }
    pub fn bits(&self) -> u64 {
        self.n.bits().max(self.d.bits())
    }
    pub fn floor(&self) -> BigInt {
        self.n.div_floor(&self.d)
    }
    /// nearest-ish f64 (relative error <= 2^-50)
    pub fn to_f64(&self) -> f64 {
        let nb = self.n.bits() as i64;
        let db = self.d.bits() as i64;
        if nb < 1000 && db < 1000 {
            return self.n.to_f64().unwrap() / self.d.to_f64().unwrap();
        }
        let shn = (nb - 500).max(0);
        let shd = (db - 500).max(0);
        let n = (&self.n >> shn as usize).to_f64().unwrap();
        let d = (&self.d >> shd as usize).to_f64().unwrap();
        n / d * 2f64.powi((shn - shd).clamp(-3000, 3000) as i32)
    }
}
impl std::fmt::Display for Q {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        if self.d.is_one() {
            write!(f, "{}", self.n)
        } else {
            write!(f, "{}/{}", self.n, self.d)
        }
    }
}

const EPS: f64 = 4.5e-16;

#[derive(Clone, Copy, Debug)]
pub struct Ball {
    pub m: f64,
    pub r: f64,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Stop {
    /// division by exactly zero, 0^0, 0^negative
    DivZero,
    /// not a real number at this point (log or root of a negative, ...)
    Undefined,
    /// an explicit undefined atom was met
    UndefAtom,
    /// a power or log whose base/argument has a non-positive multiplicative leaf
    Unsafe,
    /// the numeric oracle cannot decide (ball too wide, overflow, pole)
    Imprecise,
}
pub type R<T> = Result<T, Stop>;

fn fin(m: f64, r: f64) -> R<Ball> {
    let r = r * 1.0000001 + m.abs() * EPS + 1e-300;
    if !m.is_finite() || !r.is_finite() || m.abs() > 1e200 {
        return Err(Stop::Imprecise);
    }
    Ok(Ball { m, r })
}
impl Ball {
    pub fn exact(m: f64) -> Ball {
        Ball { m, r: 0.0 }
    }
    pub fn add(self, o: Ball) -> R<Ball> {
        fin(self.m + o.m, self.r + o.r)
    }
    pub fn neg(self) -> Ball {
        Ball { m: -self.m, r: self.r }
    }
    pub fn mul(self, o: Ball) -> R<Ball> {
        fin(self.m * o.m, self.m.abs() * o.r + o.m.abs() * self.r + self.r * o.r)
    }
    pub fn inv(self) -> R<Ball> {
        if self.m.abs() <= self.r {
            return Err(if self.m == 0.0 && self.r == 0.0 { Stop::DivZero } else { Stop::Imprecise });
        }
        let a = self.m.abs();
        // (the product of the two denominators may be beyond f64)
        fin(1.0 / self.m, self.r / a / (a - self.r))
    }
    pub fn exp(self) -> R<Ball> {
        if self.r > 1.0 {
            return Err(Stop::Imprecise);
        }
        let m = self.m.exp();
        fin(m, m * self.r.exp_m1() + 4.0 * EPS * m)
    }
    pub fn ln(self) -> R<Ball> {
        if self.m + self.r <= 0.0 {
            return Err(Stop::Undefined);
        }
        if self.m <= self.r {
            return Err(Stop::Imprecise);
        }
        fin(self.m.ln(), self.r / (self.m - self.r) + 4.0 * EPS)
    }
    pub fn sin(self) -> R<Ball> {
        if self.m.abs() > 1e6 {
            return Err(Stop::Imprecise);
        }
        fin(self.m.sin(), self.r + 4.0 * EPS)
    }
    pub fn cos(self) -> R<Ball> {
        if self.m.abs() > 1e6 {
            return Err(Stop::Imprecise);
        }
        fin(self.m.cos(), self.r + 4.0 * EPS)
    }
    pub fn asin(self) -> R<Ball> {
        let a = self.m.abs();
        if a - self.r > 1.0 {
            return Err(Stop::Undefined);
        }
        if a + self.r >= 1.0 {
            return Err(Stop::Imprecise);
        }
        let b = a + self.r;
        fin(self.m.asin(), self.r / (1.0 - b * b).sqrt() + 4.0 * EPS)
    }
    pub fn acos(self) -> R<Ball> {
        let s = self.asin()?;
        fin(self.m.acos(), s.r + 4.0 * EPS)
    }
    pub fn atan(self) -> R<Ball> {
        fin(self.m.atan(), self.r + 4.0 * EPS)
    }
    pub fn powi(self, e: i64) -> R<Ball> {
        if e < 0 {
            return self.inv()?.powi(-e);
        }
        let mut acc = Ball::exact(1.0);
        let mut b = self;
        let mut e = e;
        while e > 0 {
            if e & 1 == 1 {
                acc = acc.mul(b)?;
            }
            e >>= 1;
            if e > 0 {
                b = b.mul(b)?;
            }
        }
        Ok(acc)
    }
}

#[derive(Clone, Debug)]
pub enum N {
    Q(Q),
    B(Ball),
}
impl std::fmt::Display for N {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            N::Q(q) => write!(f, "{q}"),
            N::B(b) => write!(f, "{:.12}±{:.1e}", b.m, b.r),
        }
    }
}

const MAX_BITS: u64 = 3000;
impl N {
    pub fn int(i: i128) -> N {
        N::Q(Q::int(i))
    }
    pub fn frac(n: i128, d: i128) -> N {
        N::Q(Q::frac(n, d))
    }
    pub fn ball(&self) -> R<Ball> {
        match self {
            N::B(b) => Ok(*b),
            N::Q(q) => {
                let m = q.to_f64();
                fin(m, m.abs() * 2.0 * EPS)
            }
        }
    }
    fn q(q: Q) -> R<N> {
        if q.bits() > MAX_BITS {
            return Ok(N::B(N::Q(q).ball()?));
        }
        Ok(N::Q(q))
    }
    pub fn add(&self, o: &N) -> R<N> {
        match (self, o) {
            (N::Q(a), N::Q(b)) => N::q(a.add(b)),
            _ => Ok(N::B(self.ball()?.add(o.ball()?)?)),
        }
    }
    pub fn neg(&self) -> N {
        match self {
            N::Q(a) => N::Q(a.neg()),
            N::B(b) => N::B(b.neg()),
        }
    }
    pub fn sub(&self, o: &N) -> R<N> {
        self.add(&o.neg())
    }
    pub fn mul(&self, o: &N) -> R<N> {
        match (self, o) {
            (N::Q(a), N::Q(b)) => N::q(a.mul(b)),
            // exact zero annihilates
            (N::Q(a), _) | (_, N::Q(a)) if a.is_zero() => Ok(N::int(0)),
            _ => Ok(N::B(self.ball()?.mul(o.ball()?)?)),
        }
    }
    pub fn inv(&self) -> R<N> {
        match self {
            N::Q(a) => N::q(a.inv().ok_or(Stop::DivZero)?),
            N::B(b) => Ok(N::B(b.inv()?)),
        }
    }
    pub fn div(&self, o: &N) -> R<N> {
        self.mul(&o.inv()?)
    }
    pub fn is_exact_zero(&self) -> bool {
        matches!(self, N::Q(q) if q.is_zero())
    }
    pub fn is_exact_int(&self) -> bool {
        matches!(self, N::Q(q) if q.is_int())
    }
    /// Some(true): certainly positive, Some(false): certainly not positive
    pub fn positive(&self) -> Option<bool> {
        match self {
            N::Q(q) => Some(q.is_pos()),
            N::B(b) if b.m > b.r => Some(true),
            N::B(b) if b.m <= -b.r => Some(false),
            _ => None,
        }
    }
    /// real power, principal value; undefined for 0^0, 0^neg and negative^non-integer
    pub fn pow(&self, e: &N) -> R<N> {
        if let N::Q(qe) = e {
            if qe.is_int() {
                if qe.is_zero() {
                    if self.is_exact_zero() {
                        return Err(Stop::DivZero);
                    }
                    if matches!(self, N::B(b) if b.m.abs() <= b.r) {
                        return Err(Stop::Imprecise);
                    }
                    return Ok(N::int(1));
                }
                let ei = qe.n.to_i64().ok_or(Stop::Imprecise)?;
                return match self {
                    N::Q(b) => {
                        let bits = b.bits();
                        if bits > 1 && bits.saturating_mul(ei.unsigned_abs()) > MAX_BITS {
                            if b.is_zero() {
                                return if ei > 0 { Ok(N::int(0)) } else { Err(Stop::DivZero) };
                            }
                            if ei.unsigned_abs() > 100_000 {
                                return Err(Stop::Imprecise);
                            }
                            return Ok(N::B(self.ball()?.powi(ei)?));
                        }
                        if b.is_zero() {
                            return if ei > 0 { Ok(N::int(0)) } else { Err(Stop::DivZero) };
                        }
                        if bits <= 1 {
                            // 1 or -1
                            return Ok(N::int(if b.is_pos() || ei % 2 == 0 { 1 } else { -1 }));
                        }
                        N::q(b.powi(ei).ok_or(Stop::DivZero)?)
                    }
                    N::B(b) => {
                        if ei.unsigned_abs() > 100_000 {
                            return Err(Stop::Imprecise);
                        }
                        Ok(N::B(b.powi(ei)?))
                    }
                };
            }
        }
        if self.is_exact_zero() {
            return match e.positive() {
                Some(true) => Ok(N::int(0)),
                Some(false) => Err(Stop::DivZero),
                None => Err(Stop::Imprecise),
            };
        }
        match self.positive() {
            Some(true) => (),
            Some(false) => return Err(Stop::Undefined),
            None => return Err(Stop::Imprecise),
        }
        if let N::Q(q) = self {
            if q.n.is_one() && q.d.is_one() {
                return Ok(N::int(1));
            }
        }
        let l = self.ball()?.ln()?;
        Ok(N::B(e.ball()?.mul(l)?.exp()?))
    }
    pub fn ln(&self) -> R<N> {
        if let N::Q(q) = self {
            if !q.is_pos() {
                return Err(Stop::Undefined);
            }
            if q.n.is_one() && q.d.is_one() {
                return Ok(N::int(0));
            }
        }
        Ok(N::B(self.ball()?.ln()?))
    }
    pub fn pi() -> N {
        N::B(Ball { m: std::f64::consts::PI, r: 4e-16 })
    }
    pub fn e() -> N {
        N::B(Ball { m: std::f64::consts::E, r: 4e-16 })
    }
    pub fn fun1(&self, name: &str) -> R<N> {
        let one = || N::int(1);
        if self.is_exact_zero() {
            match name {
                "sin" | "tan" | "arcsin" | "arctan" => return Ok(N::int(0)),
                "cos" | "sec" => return Ok(N::int(1)),
                "cot" | "csc" | "arcsec" | "arccsc" => return Err(Stop::DivZero),
                _ => (),
            }
        }
        let b = self.ball()?;
        Ok(N::B(match name {
            "sin" => b.sin()?,
            "cos" => b.cos()?,
            "tan" => return N::B(b.sin()?).div(&N::B(b.cos()?)),
            "cot" => return N::B(b.cos()?).div(&N::B(b.sin()?)),
            "sec" => return one().div(&N::B(b.cos()?)),
            "csc" => return one().div(&N::B(b.sin()?)),
            "arcsin" => b.asin()?,
            "arccos" => b.acos()?,
            "arctan" => b.atan()?,
            "arcsec" => self.inv()?.ball()?.acos()?,
            "arccsc" => self.inv()?.ball()?.asin()?,
            // pi/2 - atan(x): differentiable everywhere
            "arccot" => Ball { m: std::f64::consts::FRAC_PI_2, r: 2e-16 }.add(b.atan()?.neg())?,
            _ => panic!("unknown function {name}"),
        }))
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Cmp {
    Same,
    Differ,
    Unknown,
}
/// Differ is only answered when the two enclosures are disjoint.
pub fn compare(a: &N, b: &N) -> Cmp {
    if let (N::Q(x), N::Q(y)) = (a, b) {
        return if x == y { Cmp::Same } else { Cmp::Differ };
    }
    let (Ok(x), Ok(y)) = (a.ball(), b.ball()) else { return Cmp::Unknown };
    let d = (x.m - y.m).abs();
    let tol = (x.r + y.r) * 1.01 + 1e-13 * (x.m.abs() + y.m.abs()) + 1e-290;
    if d > tol {
        return Cmp::Differ;
    }
    if tol > 1e-6 * x.m.abs().max(y.m.abs()).max(1e-3) {
        return Cmp::Unknown;
    }
    Cmp::Same
}
