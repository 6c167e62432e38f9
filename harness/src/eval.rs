//! The denotation of an expression at a point: the reference against which every
//! rewriting operation is judged.
use crate::num::*;
use calcu_rs::atom::{Atom, Func, Irrational, Real};
use calcu_rs::{Expr, SymbolicExpr};
use num_traits::ToPrimitive;

#[derive(Clone, Debug)]
pub struct Env {
    pub vals: Vec<(String, N)>,
}
impl Env {
    pub fn get(&self, v: &str) -> Option<&N> {
        self.vals.iter().find(|(n, _)| n == v).map(|(_, x)| x)
    }
    pub fn show(&self) -> String {
        self.vals.iter().map(|(n, v)| format!("{n}={v}")).collect::<Vec<_>>().join(", ")
    }
}

pub fn rat(r: &calcu_rs::rational::Rational) -> R<N> {
    let (n, d) = (r.numer(), r.denom());
    Q::new(n.into(), d.into()).map(N::Q).ok_or(Stop::Undefined)
}
pub fn real(r: &Real) -> R<N> {
    match r {
        Real::Rational(r) => rat(r),
        Real::Irrational(i) => Ok(irr(i)),
    }
}
pub fn irr(i: &Irrational) -> N {
    match i {
        Irrational::E => N::e(),
        Irrational::PI => N::pi(),
    }
}
/// canonical function name, independent of the library's own naming
pub fn fname(f: &Func) -> &'static str {
    match f {
        Func::Sin(_) => "sin",
        Func::ArcSin(_) => "arcsin",
        Func::Cos(_) => "cos",
        Func::ArcCos(_) => "arccos",
        Func::Tan(_) => "tan",
        Func::ArcTan(_) => "arctan",
        Func::Sec(_) => "sec",
        Func::ArcSec(_) => "arcsec",
        Func::Cot(_) => "cot",
        Func::ArcCot(_) => "arccot",
        Func::Csc(_) => "csc",
        Func::ArcCsc(_) => "arccsc",
        Func::Log(..) => "log",
    }
}

/// `strict`: additionally require that every base of a non-integer power and every log
/// argument has only positive multiplicative leaves, i.e. that the power laws
/// (ab)^c = a^c b^c and (a^b)^c = a^(bc) hold at this point.
pub struct Ev<'a> {
    pub env: &'a Env,
    pub strict: bool,
}

impl<'a> Ev<'a> {
    fn leaves_positive(&self, e: &Expr) -> R<()> {
        match e.atom() {
            Atom::Prod(p) => p.args.iter().try_for_each(|a| self.leaves_positive(a)),
            Atom::Pow(p) => self.leaves_positive(p.base()),
            Atom::Sum(s) => {
                // a rewriting may factor a sum or merge its terms: look into the terms
                s.args.iter().try_for_each(|a| self.term_positive(a))?;
                self.positive(e)
            }
            // sin(-x) = -sin(x)
            Atom::Func(f) => {
                self.leaves_positive(&f.args()[0])?;
                self.positive(e)
            }
            _ => self.positive(e),
        }
    }
    /// like leaves_positive, for a term of a sum: it may be zero or have a negative coefficient
    fn term_positive(&self, e: &Expr) -> R<()> {
        match e.atom() {
            Atom::Rational(_) => Ok(()),
            Atom::Prod(p) => p.args.iter().try_for_each(|a| match a.atom() {
                Atom::Sum(_) => self.leaves_positive(a),
                _ => self.term_positive(a),
            }),
            Atom::Sum(s) => s.args.iter().try_for_each(|a| self.term_positive(a)),
            _ => self.leaves_positive(e),
        }
    }
    fn positive(&self, e: &Expr) -> R<()> {
        {
            match self.eval(e)?.positive() {
                Some(true) => Ok(()),
                Some(false) => Err(Stop::Unsafe),
                None => Err(Stop::Imprecise),
            }
        }
    }
    pub fn eval(&self, e: &Expr) -> R<N> {
        Ok(match e.atom() {
            Atom::Undef => return Err(Stop::UndefAtom),
            Atom::Rational(r) => rat(r)?,
            Atom::Irrational(i) => irr(i),
            Atom::Var(v) => {
                let name = v.to_string();
                self.env.get(&name).cloned().unwrap_or_else(|| panic!("ORACLE: unbound variable {name}"))
            }
            Atom::Sum(s) => {
                let mut acc = N::int(0);
                for a in &s.args {
                    acc = acc.add(&self.eval(a)?)?;
                }
                acc
            }
            Atom::Prod(p) => {
                let mut acc = N::int(1);
                let mut zero = false;
                for a in &p.args {
                    let v = self.eval(a)?;
                    zero |= v.is_exact_zero();
                    acc = acc.mul(&v)?;
                }
                if zero {
                    N::int(0)
                } else {
                    acc
                }
            }
            Atom::Pow(p) => {
                let b = self.eval(p.base())?;
                let x = self.eval(p.exponent())?;
                if self.strict && !x.is_exact_int() {
                    self.leaves_positive(p.base())?;
                }
                b.pow(&x)?
            }
            Atom::Func(f) => {
                let a = f.args().first().unwrap();
                let v = self.eval(a)?;
                match f {
                    Func::Log(base, _) => {
                        let lb = real(base)?.ln()?;
                        if lb.is_exact_zero() {
                            return Err(Stop::Undefined);
                        }
                        if self.strict {
                            self.leaves_positive(a)?;
                        }
                        if let Real::Irrational(Irrational::E) = base {
                            v.ln()?
                        } else {
                            v.ln()?.div(&lb)?
                        }
                    }
                    f => v.fun1(fname(f))?,
                }
            }
        })
    }
}
pub fn eval(e: &Expr, env: &Env) -> R<N> {
    Ev { env, strict: false }.eval(e)
}
pub fn eval_strict(e: &Expr, env: &Env) -> R<N> {
    Ev { env, strict: true }.eval(e)
}

/// built from positive numbers and variables by + * / ^ only, hence positive for
/// positive variables, and so is whatever a rewriting may take it apart into
fn deep_positive(e: &Expr, neg: bool) -> bool {
    match e.atom() {
        Atom::Undef => false,
        Atom::Rational(r) => r.numer() > 0,
        Atom::Irrational(_) => true,
        Atom::Var(_) => !neg,
        Atom::Sum(s) => !s.args.is_empty() && s.args.iter().all(|a| deep_positive(a, neg)),
        Atom::Prod(p) => p.args.iter().all(|a| deep_positive(a, neg)),
        Atom::Pow(p) => deep_positive(p.base(), neg) && !hazard(p.exponent(), neg),
        Atom::Func(_) => false,
    }
}
/// may a correct rewriting step outside the reals here (a non-integer power or a
/// logarithm of something that has non-positive parts)?
pub fn hazard(e: &Expr, neg: bool) -> bool {
    any(e, &mut |e| match e.atom() {
        Atom::Pow(p) => !p.exponent().is_int() && !deep_positive(p.base(), neg),
        Atom::Func(Func::Log(_, a)) => !deep_positive(a, neg),
        Atom::Func(Func::ArcSin(_) | Func::ArcCos(_) | Func::ArcSec(_) | Func::ArcCsc(_)) => true,
        _ => false,
    })
}

/// forward-mode differentiation over the original expression: value and d/dvar
#[derive(Clone, Debug)]
pub struct Dual {
    pub v: N,
    pub d: N,
}
pub fn eval_dual(e: &Expr, env: &Env, var: &str) -> R<Dual> {
    let zero = || N::int(0);
    Ok(match e.atom() {
        Atom::Undef => return Err(Stop::UndefAtom),
        Atom::Rational(_) | Atom::Irrational(_) => Dual { v: eval(e, env)?, d: zero() },
        Atom::Var(v) => Dual { v: eval(e, env)?, d: N::int((v.to_string() == var) as i128) },
        Atom::Sum(s) => {
            let mut acc = Dual { v: zero(), d: zero() };
            for a in &s.args {
                let x = eval_dual(a, env, var)?;
                acc = Dual { v: acc.v.add(&x.v)?, d: acc.d.add(&x.d)? };
            }
            acc
        }
        Atom::Prod(p) => {
            let mut acc = Dual { v: N::int(1), d: zero() };
            for a in &p.args {
                let x = eval_dual(a, env, var)?;
                acc = Dual { d: acc.d.mul(&x.v)?.add(&acc.v.mul(&x.d)?)?, v: acc.v.mul(&x.v)? };
            }
            acc
        }
        Atom::Pow(p) => {
            let b = eval_dual(p.base(), env, var)?;
            let x = eval_dual(p.exponent(), env, var)?;
            if b.v.is_exact_zero() || b.v.positive().is_none() {
                // the power rule divides by the base, which is (or may be) zero
                return Err(Stop::Unsafe);
            }
            let v = b.v.pow(&x.v)?;
            // x b^(x-1) b' + b^x ln(b) x'
            let mut d = zero();
            if !b.d.is_exact_zero() && !x.v.is_exact_zero() {
                let xm1 = x.v.sub(&N::int(1))?;
                let pm1 = if xm1.is_exact_zero() { N::int(1) } else { b.v.pow(&xm1)? };
                d = x.v.mul(&pm1)?.mul(&b.d)?;
            }
            if !x.d.is_exact_zero() {
                d = d.add(&v.mul(&b.v.ln()?)?.mul(&x.d)?)?;
            }
            Dual { v, d }
        }
        Atom::Func(f) => {
            let a = eval_dual(f.args().first().unwrap(), env, var)?;
            let one = || N::int(1);
            let v = eval(e, env)?;
            let x = &a.v;
            let sq = |n: &N| n.mul(n);
            let half = N::frac(1, 2);
            // outer derivative from textbook formulas in terms of sin/cos/algebraic only
            let o = match f {
                Func::Sin(_) => x.fun1("cos")?,
                Func::Cos(_) => x.fun1("sin")?.neg(),
                Func::Tan(_) => sq(&x.fun1("cos")?)?.inv()?,
                Func::Cot(_) => sq(&x.fun1("sin")?)?.inv()?.neg(),
                Func::Sec(_) => x.fun1("sin")?.div(&sq(&x.fun1("cos")?)?)?,
                Func::Csc(_) => x.fun1("cos")?.div(&sq(&x.fun1("sin")?)?)?.neg(),
                Func::ArcSin(_) => one().sub(&sq(x)?)?.pow(&half)?.inv()?,
                Func::ArcCos(_) => one().sub(&sq(x)?)?.pow(&half)?.inv()?.neg(),
                Func::ArcTan(_) => one().add(&sq(x)?)?.inv()?,
                Func::ArcCot(_) => one().add(&sq(x)?)?.inv()?.neg(),
                // d acos(1/x) = 1/(x^2 sqrt(1-1/x^2))
                Func::ArcSec(_) | Func::ArcCsc(_) => {
                    let x2 = sq(x)?;
                    let s = one().sub(&x2.inv()?)?.pow(&half)?;
                    let r = x2.mul(&s)?.inv()?;
                    if matches!(f, Func::ArcSec(_)) {
                        r
                    } else {
                        r.neg()
                    }
                }
                Func::Log(b, _) => {
                    let lb = real(b)?.ln()?;
                    if matches!(b, Real::Irrational(Irrational::E)) {
                        x.inv()?
                    } else {
                        x.mul(&lb)?.inv()?
                    }
                }
            };
            Dual { v, d: if a.d.is_exact_zero() { zero() } else { o.mul(&a.d)? } }
        }
    })
}

pub fn size(e: &Expr) -> usize {
    1 + e.args().iter().map(size).sum::<usize>()
}
pub fn depth(e: &Expr) -> usize {
    1 + e.args().iter().map(depth).max().unwrap_or(0)
}
pub fn any(e: &Expr, f: &mut dyn FnMut(&Expr) -> bool) -> bool {
    if f(e) {
        return true;
    }
    e.args().iter().any(|a| any(a, f))
}
pub fn has_undef(e: &Expr) -> bool {
    any(e, &mut |e| matches!(e.atom(), Atom::Undef))
}
pub fn as_i64(n: &N) -> Option<i64> {
    match n {
        N::Q(q) if q.is_int() => q.n.to_i64(),
        _ => None,
    }
}
/// structural fingerprint text, independent of the library's Debug/Display code
pub fn skel(e: &Expr) -> String {
    let mut s = String::new();
    skel_into(e, &mut s);
    s
}
fn skel_into(e: &Expr, s: &mut String) {
    use std::fmt::Write;
    let kids = |s: &mut String, name: &str, xs: &[Expr]| {
        s.push_str(name);
        s.push('[');
        for (i, a) in xs.iter().enumerate() {
            if i > 0 {
                s.push(',');
            }
            skel_into(a, s);
        }
        s.push(']');
    };
    match e.atom() {
        Atom::Undef => s.push_str("undef"),
        Atom::Rational(r) => {
            if r.denom() == 1 {
                let _ = write!(s, "{}", r.numer());
            } else {
                let _ = write!(s, "{}/{}", r.numer(), r.denom());
            }
        }
        Atom::Irrational(Irrational::E) => s.push_str("E"),
        Atom::Irrational(Irrational::PI) => s.push_str("PI"),
        Atom::Var(v) => {
            let _ = write!(s, "{v}");
        }
        Atom::Sum(x) => kids(s, "Sum", &x.args),
        Atom::Prod(x) => kids(s, "Prod", &x.args),
        Atom::Pow(x) => kids(s, "Pow", x.args()),
        Atom::Func(f) => match f {
            Func::Log(b, x) => {
                let b = match b {
                    Real::Rational(r) => format!("{}/{}", r.numer(), r.denom()),
                    Real::Irrational(Irrational::E) => "E".into(),
                    Real::Irrational(Irrational::PI) => "PI".into(),
                };
                kids(s, &format!("log<{b}>"), std::slice::from_ref(x))
            }
            f => kids(s, fname(f), f.args()),
        },
    }
}
