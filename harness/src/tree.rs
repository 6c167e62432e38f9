//! A specification-level expression tree: what the user *means*, independent of the
//! library's own representation. It has its own evaluator and several ways of being
//! turned into library expressions.
use crate::num::*;
use crate::rng::Rng;
use calcu_rs::atom::{Atom, Func, Irrational, Prod, Real, Sum};
use calcu_rs::rational::Rational;
use calcu_rs::Expr;
use std::fmt;

pub const VARS: [&str; 6] = ["x", "y", "z", "a", "b", "n"];
pub const FUNS: [&str; 12] = [
    "sin", "cos", "tan", "sec", "cot", "csc", "arcsin", "arccos", "arctan", "arcsec", "arccot", "arccsc",
];

/// bases of logarithms, (0, 0) is pi
pub const BASES: [(i128, i128); 14] =
    [(2, 1), (3, 1), (4, 1), (7, 1), (10, 1), (100, 1), (1, 2), (10, 3), (10, 7), (3, 2), (2, 3), (1, 10), (0, 0), (12, 1)];
pub fn base_real(i: u8) -> Real {
    match BASES[i as usize] {
        (0, 0) => Real::Irrational(Irrational::PI),
        (n, d) => Real::Rational(Rational::from((n, d))),
    }
}
fn base_value(i: u8) -> N {
    match BASES[i as usize] {
        (0, 0) => N::pi(),
        (n, d) => N::frac(n, d),
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum T {
    Rat(i128, i128),
    Var(u8),
    Pi,
    E,
    Undef,
    Add(Box<T>, Box<T>),
    Sub(Box<T>, Box<T>),
    Mul(Box<T>, Box<T>),
    Div(Box<T>, Box<T>),
    Pow(Box<T>, Box<T>),
    Neg(Box<T>),
    Fun(&'static str, Box<T>),
    Ln(Box<T>),
    Log10(Box<T>),
    /// log to the base [BASES]
    LogB(u8, Box<T>),
    Exp(Box<T>),
    Sqrt(Box<T>),
}
use T::*;
pub fn bx(t: T) -> Box<T> {
    Box::new(t)
}
pub fn int(i: i128) -> T {
    Rat(i, 1)
}
pub fn var(i: u8) -> T {
    Var(i)
}

impl fmt::Display for T {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            Rat(n, 1) if *n < 0 => write!(f, "({n})"),
            Rat(n, 1) => write!(f, "{n}"),
            Rat(n, d) => write!(f, "({n}/{d})"),
            Var(i) => write!(f, "{}", VARS[*i as usize]),
            Pi => write!(f, "pi"),
            E => write!(f, "E"),
            Undef => write!(f, "undef"),
            Add(a, b) => write!(f, "({a} + {b})"),
            Sub(a, b) => write!(f, "({a} - {b})"),
            Mul(a, b) => write!(f, "({a} * {b})"),
            Div(a, b) => write!(f, "({a} / {b})"),
            Pow(a, b) => write!(f, "({a} ^ {b})"),
            Neg(a) => write!(f, "(-{a})"),
            Fun(n, a) => write!(f, "{n}({a})"),
            Ln(a) => write!(f, "ln({a})"),
            Log10(a) => write!(f, "log10({a})"),
            LogB(b, a) => write!(f, "log[{}]({a})", base_value(*b)),
            Exp(a) => write!(f, "exp({a})"),
            Sqrt(a) => write!(f, "sqrt({a})"),
        }
    }
}

impl T {
    pub fn size(&self) -> usize {
        match self {
            Rat(..) | Var(_) | Pi | E | Undef => 1,
            Add(a, b) | Sub(a, b) | Mul(a, b) | Div(a, b) | Pow(a, b) => 1 + a.size() + b.size(),
            Neg(a) | Fun(_, a) | Ln(a) | Log10(a) | LogB(_, a) | Exp(a) | Sqrt(a) => 1 + a.size(),
        }
    }
    pub fn eval(&self, env: &Env) -> R<N> {
        Ok(match self {
            Rat(n, d) => N::frac(*n, *d),
            Var(i) => env.get(VARS[*i as usize]).cloned().expect("unbound"),
            Pi => N::pi(),
            E => N::e(),
            Undef => return Err(Stop::UndefAtom),
            Add(a, b) => a.eval(env)?.add(&b.eval(env)?)?,
            Sub(a, b) => a.eval(env)?.sub(&b.eval(env)?)?,
            Mul(a, b) => a.eval(env)?.mul(&b.eval(env)?)?,
            Div(a, b) => a.eval(env)?.div(&b.eval(env)?)?,
            Pow(a, b) => a.eval(env)?.pow(&b.eval(env)?)?,
            Neg(a) => a.eval(env)?.neg(),
            Fun(n, a) => a.eval(env)?.fun1(n)?,
            Ln(a) => a.eval(env)?.ln()?,
            Log10(a) => a.eval(env)?.ln()?.div(&N::int(10).ln()?)?,
            LogB(b, a) => a.eval(env)?.ln()?.div(&base_value(*b).ln()?)?,
            Exp(a) => N::e().pow(&a.eval(env)?)?,
            Sqrt(a) => a.eval(env)?.pow(&N::frac(1, 2))?,
        })
    }
    /// the value of every subtree has at most `bits` bits
    pub fn small(&self, env: &Env, bits: u64) -> bool {
        let me = matches!(self.eval(env), Ok(N::Q(q)) if q.bits() <= bits);
        me && match self {
            Rat(..) | Var(_) | Pi | E | Undef => true,
            Add(a, b) | Sub(a, b) | Mul(a, b) | Div(a, b) | Pow(a, b) => a.small(env, bits) && b.small(env, bits),
            Neg(a) | Fun(_, a) | Ln(a) | Log10(a) | LogB(_, a) | Exp(a) | Sqrt(a) => a.small(env, bits),
        }
    }
    fn leaves_positive(&self, env: &Env) -> R<()> {
        match self {
            Mul(a, b) | Div(a, b) => {
                a.leaves_positive(env)?;
                b.leaves_positive(env)
            }
            Pow(a, _) => a.leaves_positive(env),
            Exp(_) => Ok(()),
            Sqrt(a) => a.leaves_positive(env),
            Neg(_) => Err(Stop::Unsafe),
            Add(a, b) | Sub(a, b) => {
                a.term_positive(env)?;
                b.term_positive(env)?;
                self.positive(env)
            }
            Fun(_, a) => {
                a.leaves_positive(env)?;
                self.positive(env)
            }
            _ => self.positive(env),
        }
    }
    fn positive(&self, env: &Env) -> R<()> {
        match self.eval(env)?.positive() {
            Some(true) => Ok(()),
            Some(false) => Err(Stop::Unsafe),
            None => Err(Stop::Imprecise),
        }
    }
    fn factor_positive(&self, env: &Env) -> R<()> {
        match self {
            Add(..) | Sub(..) => self.leaves_positive(env),
            _ => self.term_positive(env),
        }
    }
    fn term_positive(&self, env: &Env) -> R<()> {
        match self {
            Rat(..) => Ok(()),
            Neg(a) => a.factor_positive(env),
            Mul(a, b) => {
                a.factor_positive(env)?;
                b.factor_positive(env)
            }
            Add(a, b) | Sub(a, b) => {
                a.term_positive(env)?;
                b.term_positive(env)
            }
            _ => self.leaves_positive(env),
        }
    }
    /// value, provided that every base of a non-integer power and every log argument
    /// consists of positive factors only (the domain on which the power laws hold)
    pub fn eval_strict(&self, env: &Env) -> R<N> {
        self.strict(env)?;
        self.eval(env)
    }
    fn strict(&self, env: &Env) -> R<()> {
        match self {
            Rat(..) | Var(_) | Pi | E | Undef => Ok(()),
            Add(a, b) | Sub(a, b) | Mul(a, b) | Div(a, b) => {
                a.strict(env)?;
                b.strict(env)
            }
            Pow(a, b) => {
                a.strict(env)?;
                b.strict(env)?;
                if !b.eval(env)?.is_exact_int() {
                    a.leaves_positive(env)?;
                }
                Ok(())
            }
            Neg(a) | Fun(_, a) | Exp(a) => a.strict(env),
            Ln(a) | Log10(a) | LogB(_, a) | Sqrt(a) => {
                a.strict(env)?;
                a.leaves_positive(env)
            }
        }
    }
    fn deep_positive(&self, neg: bool) -> bool {
        match self {
            Rat(n, _) => *n > 0,
            Pi | E => true,
            Var(_) => !neg,
            Add(a, b) | Mul(a, b) | Div(a, b) => a.deep_positive(neg) && b.deep_positive(neg),
            Pow(a, b) => a.deep_positive(neg) && !b.hazard(neg),
            Sqrt(a) => a.deep_positive(neg),
            Exp(a) => !a.hazard(neg),
            _ => false,
        }
    }
    pub fn hazard(&self, neg: bool) -> bool {
        match self {
            Rat(..) | Var(_) | Pi | E | Undef => false,
            Add(a, b) | Sub(a, b) | Mul(a, b) | Div(a, b) => a.hazard(neg) || b.hazard(neg),
            Pow(a, b) => a.hazard(neg) || b.hazard(neg) || !matches!(**b, Rat(_, 1)) && !a.deep_positive(neg),
            Neg(a) | Exp(a) => a.hazard(neg),
            Fun(n, a) => a.hazard(neg) || matches!(*n, "arcsin" | "arccos" | "arcsec" | "arccsc"),
            Ln(a) | Log10(a) | LogB(_, a) | Sqrt(a) => a.hazard(neg) || !a.deep_positive(neg),
        }
    }
    pub fn subst(&self, from: &T, to: &T) -> T {
        if self == from {
            return to.clone();
        }
        let s = |a: &T| bx(a.subst(from, to));
        match self {
            Rat(..) | Var(_) | Pi | E | Undef => self.clone(),
            Add(a, b) => Add(s(a), s(b)),
            Sub(a, b) => Sub(s(a), s(b)),
            Mul(a, b) => Mul(s(a), s(b)),
            Div(a, b) => Div(s(a), s(b)),
            Pow(a, b) => Pow(s(a), s(b)),
            Neg(a) => Neg(s(a)),
            Fun(n, a) => Fun(n, s(a)),
            Ln(a) => Ln(s(a)),
            Log10(a) => Log10(s(a)),
            LogB(b, a) => LogB(*b, s(a)),
            Exp(a) => Exp(s(a)),
            Sqrt(a) => Sqrt(s(a)),
        }
    }
}
use crate::eval::Env;

pub fn apply_fun(name: &str, e: &Expr) -> Expr {
    match name {
        "sin" => Expr::sin(e),
        "cos" => Expr::cos(e),
        "tan" => Expr::tan(e),
        "sec" => Expr::sec(e),
        "cot" => Expr::cot(e),
        "csc" => Expr::csc(e),
        "arcsin" => Expr::arc_sin(e),
        "arccos" => Expr::arc_cos(e),
        "arctan" => Expr::arc_tan(e),
        "arcsec" => Expr::arc_sec(e),
        "arccot" => Expr::arc_cot(e),
        "arccsc" => Expr::arc_csc(e),
        _ => unreachable!(),
    }
}
pub fn mk_rat(n: i128, d: i128) -> Expr {
    if d == 1 {
        Expr::from(n)
    } else {
        Expr::from(Rational::from((n, d)))
    }
}
pub fn sum(args: Vec<Expr>) -> Expr {
    Atom::Sum(Sum { args }).into()
}
pub fn prod(args: Vec<Expr>) -> Expr {
    Atom::Prod(Prod { args }).into()
}
pub fn func_raw(name: &str, e: Expr) -> Expr {
    Atom::Func(match name {
        "sin" => Func::Sin(e),
        "cos" => Func::Cos(e),
        "tan" => Func::Tan(e),
        "sec" => Func::Sec(e),
        "cot" => Func::Cot(e),
        "csc" => Func::Csc(e),
        "arcsin" => Func::ArcSin(e),
        "arccos" => Func::ArcCos(e),
        "arctan" => Func::ArcTan(e),
        "arcsec" => Func::ArcSec(e),
        "arccot" => Func::ArcCot(e),
        "arccsc" => Func::ArcCsc(e),
        _ => unreachable!(),
    })
    .into()
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Mode {
    /// Expr::add / sub / mul / div / pow
    Smart,
    /// operator overloads in all value/reference/assign flavours
    Ops,
    /// add_raw / mul_raw / pow_raw / div_raw
    Raw,
    /// n-ary nodes assembled by hand, nothing merged
    Direct,
    /// Sum::add_rhs, Prod::mul_rhs, mul_rhs_raw one argument after the other
    Accum,
    /// any of the above at every node
    Mixed,
}
pub const MODES: [Mode; 6] = [Mode::Smart, Mode::Ops, Mode::Raw, Mode::Direct, Mode::Accum, Mode::Mixed];

/// degenerate but legal n-ary nodes (empty, single-argument, nested) in Direct mode
pub struct Build<'a> {
    pub mode: Mode,
    pub degenerate: bool,
    pub rng: &'a mut Rng,
}
impl<'a> Build<'a> {
    fn mode(&mut self) -> Mode {
        if self.mode == Mode::Mixed {
            *self.rng.pick(&MODES[..5])
        } else {
            self.mode
        }
    }
    fn flat(t: &T, add: bool, out: &mut Vec<T>) {
        match (t, add) {
            (Add(a, b), true) | (Mul(a, b), false) => {
                Self::flat(a, add, out);
                Self::flat(b, add, out);
            }
            _ => out.push(t.clone()),
        }
    }
    pub fn build(&mut self, t: &T) -> Expr {
        let e = match t {
            Rat(n, d) => mk_rat(*n, *d),
            Var(i) => Expr::var(VARS[*i as usize]),
            Pi => Expr::pi(),
            E => Expr::e(),
            Undef => Expr::undef(),
            Neg(a) => {
                let a = self.build(a);
                match self.mode() {
                    Mode::Raw => Expr::mul_raw(Expr::from(-1), &a),
                    Mode::Direct => prod(vec![Expr::min_one(), a]),
                    Mode::Ops => Expr::min_one() * a,
                    _ => Expr::mul(Expr::from(-1), a),
                }
            }
            Fun(n, a) => {
                let a = self.build(a);
                if self.rng.chance(1, 2) {
                    apply_fun(n, &a)
                } else {
                    func_raw(n, a)
                }
            }
            Ln(a) => Expr::ln(self.build(a)),
            Log10(a) => Expr::log10(self.build(a)),
            LogB(b, a) => {
                let a = self.build(a);
                Expr::log(base_real(*b), a)
            }
            Exp(a) => {
                let a = self.build(a);
                match self.mode() {
                    Mode::Raw | Mode::Direct => Expr::pow_raw(Expr::e(), a),
                    _ => Expr::exp(a),
                }
            }
            Sqrt(a) => {
                let a = self.build(a);
                match self.mode() {
                    Mode::Raw | Mode::Direct => Expr::pow_raw(a, mk_rat(1, 2)),
                    _ => Expr::sqrt(a),
                }
            }
            Add(a, b) => match self.mode() {
                Mode::Direct => {
                    let mut v = vec![];
                    if self.rng.chance(2, 3) {
                        Self::flat(t, true, &mut v);
                    } else {
                        v = vec![(**a).clone(), (**b).clone()];
                    }
                    let args = v.iter().map(|x| self.build(x)).collect();
                    sum(args)
                }
                m => {
                    let (a, b) = (self.build(a), self.build(b));
                    match m {
                        Mode::Raw => Expr::add_raw(&a, &b),
                        Mode::Accum => {
                            let mut s = Sum::zero();
                            s.add_rhs(&a);
                            s.add_rhs(&b);
                            s.into()
                        }
                        Mode::Ops => match self.rng.us(5) {
                            0 => a + b,
                            1 => &a + b,
                            2 => a + &b,
                            3 => &a + &b,
                            _ => {
                                let mut c = a;
                                c += b;
                                c
                            }
                        },
                        _ => Expr::add(a, b),
                    }
                }
            },
            Sub(a, b) => {
                let m = self.mode();
                let (a, b) = (self.build(a), self.build(b));
                match m {
                    Mode::Direct => sum(vec![a, prod(vec![Expr::min_one(), b])]),
                    Mode::Raw => Expr::add_raw(&a, &Expr::mul_raw(Expr::min_one(), b)),
                    Mode::Ops => match self.rng.us(5) {
                        0 => a - b,
                        1 => &a - b,
                        2 => a - &b,
                        3 => &a - &b,
                        _ => {
                            let mut c = a;
                            c -= &b;
                            c
                        }
                    },
                    _ => Expr::sub(&a, &b),
                }
            }
            Mul(a, b) => match self.mode() {
                Mode::Direct => {
                    let mut v = vec![];
                    if self.rng.chance(2, 3) {
                        Self::flat(t, false, &mut v);
                    } else {
                        v = vec![(**a).clone(), (**b).clone()];
                    }
                    let args = v.iter().map(|x| self.build(x)).collect();
                    prod(args)
                }
                m => {
                    let (a, b) = (self.build(a), self.build(b));
                    match m {
                        Mode::Raw => Expr::mul_raw(&a, &b),
                        Mode::Accum => {
                            let mut p = Prod::one();
                            if self.rng.chance(2, 3) {
                                p.mul_rhs(&a);
                                p.mul_rhs(&b);
                            } else {
                                p.mul_rhs_raw(&a);
                                p.mul_rhs_raw(&b);
                            }
                            p.into()
                        }
                        Mode::Ops => match self.rng.us(5) {
                            0 => a * b,
                            1 => &a * b,
                            2 => a * &b,
                            3 => &a * &b,
                            _ => {
                                let mut c = a;
                                c *= b;
                                c
                            }
                        },
                        _ => Expr::mul(&a, &b),
                    }
                }
            },
            Div(a, b) => {
                let m = self.mode();
                let (a, b) = (self.build(a), self.build(b));
                match m {
                    Mode::Direct => prod(vec![a, Expr::pow_raw(b, Expr::min_one())]),
                    Mode::Raw => Expr::div_raw(&a, &b),
                    Mode::Ops => match self.rng.us(5) {
                        0 => a / b,
                        1 => &a / b,
                        2 => a / &b,
                        3 => &a / &b,
                        _ => {
                            let mut c = a;
                            c /= &b;
                            c
                        }
                    },
                    _ => Expr::div(&a, &b),
                }
            }
            Pow(a, b) => {
                let m = self.mode();
                let (a, b) = (self.build(a), self.build(b));
                match m {
                    Mode::Direct | Mode::Raw => Expr::pow_raw(a, b),
                    _ => Expr::pow(&a, &b),
                }
            }
        };
        if self.degenerate && self.rng.chance(1, 12) {
            return match self.rng.us(6) {
                0 => sum(vec![e]),
                1 => prod(vec![e]),
                2 => sum(vec![e, sum(vec![])]),
                3 => prod(vec![prod(vec![]), e]),
                4 => Expr::pow_raw(e, Expr::one()),
                _ => sum(vec![sum(vec![e])]),
            };
        }
        e
    }
}
pub fn build(t: &T, mode: Mode, degenerate: bool, rng: &mut Rng) -> Expr {
    Build { mode, degenerate, rng }.build(t)
}

#[derive(Clone, Copy, Debug)]
pub struct Prof {
    pub name: &'static str,
    pub nvars: u8,
    pub div: bool,
    pub neg_pow: bool,
    pub frac_pow: bool,
    pub var_exp: bool,
    pub trig: bool,
    pub trig2: bool,
    pub inv: bool,
    pub ln: bool,
    pub exp: bool,
    pub irr: bool,
    pub max_pow: i128,
    pub neg_env: bool,
}
pub const POLY: Prof = Prof {
    name: "poly", nvars: 3, div: false, neg_pow: false, frac_pow: false, var_exp: false, trig: false,
    trig2: false, inv: false, ln: false, exp: false, irr: false, max_pow: 3, neg_env: true,
};
pub const RATFN: Prof = Prof { name: "ratfn", div: true, neg_pow: true, ..POLY };
pub const ALG: Prof = Prof { name: "alg", frac_pow: true, irr: true, neg_env: false, ..RATFN };
pub const POWX: Prof = Prof { name: "powx", var_exp: true, exp: true, ..ALG };
pub const TRIG: Prof = Prof { name: "trig", trig: true, nvars: 2, ..RATFN };
pub const TRIG2: Prof = Prof { name: "trig2", trig2: true, irr: true, ..TRIG };
pub const EXPLN: Prof = Prof { name: "expln", exp: true, ln: true, ..ALG };
pub const FULL: Prof = Prof { name: "full", var_exp: true, trig: true, trig2: true, inv: true, ln: true, exp: true, ..ALG };
pub const PROFS: [Prof; 8] = [POLY, RATFN, ALG, POWX, TRIG, TRIG2, EXPLN, FULL];

pub struct Gen<'a> {
    pub rng: &'a mut Rng,
    pub p: Prof,
    pool: Vec<T>,
}
impl<'a> Gen<'a> {
    pub fn new(rng: &'a mut Rng, p: Prof) -> Self {
        Gen { rng, p, pool: vec![] }
    }
    pub fn coef(&mut self) -> T {
        match self.rng.us(10) {
            0 => int(0),
            1 => int(1),
            2 => int(-1),
            3 => int(2),
            4..=6 => int(self.rng.int(-6, 9) as i128),
            _ => {
                let n = self.rng.int(-7, 9) as i128;
                let d = self.rng.int(2, 6) as i128;
                norm(n, d)
            }
        }
    }
    fn var(&mut self) -> T {
        var(self.rng.below(self.p.nvars as u64) as u8)
    }
    pub fn leaf(&mut self) -> T {
        match self.rng.us(12) {
            0..=3 => self.coef(),
            4 if self.p.irr => {
                if self.rng.chance(1, 2) {
                    Pi
                } else {
                    E
                }
            }
            _ => self.var(),
        }
    }
    /// `n`: target number of nodes
    pub fn gen(&mut self, n: usize) -> T {
        if n <= 1 {
            return self.leaf();
        }
        if !self.pool.is_empty() && self.rng.chance(3, 10) {
            let i = self.rng.us(self.pool.len());
            if self.pool[i].size() <= n {
                let t = self.pool[i].clone();
                return if self.rng.chance(1, 4) { self.tweak(&t) } else { t };
            }
        }
        let t = self.node(n);
        if t.size() <= 8 && t.size() > 1 && self.pool.len() < 24 {
            self.pool.push(t.clone());
        }
        t
    }
    /// the same with one place changed, within the profile
    pub fn tweak(&mut self, t: &T) -> T {
        let go = |s: &mut Self, a: &T| bx(s.tweak(a));
        let here = self.rng.chance(1, 4);
        match t {
            Rat(n, d) if *d == 1 && *n > 0 => int(n + if self.rng.chance(1, 2) { 1 } else { -1 }),
            Rat(..) | Var(_) | Pi | E | Undef => self.leaf(),
            Add(a, b) if here => Sub(a.clone(), b.clone()),
            Sub(a, b) if here => Add(b.clone(), a.clone()),
            Mul(a, b) if here => Add(a.clone(), b.clone()),
            Add(a, b) if self.rng.chance(1, 2) => Add(go(self, a), b.clone()),
            Add(a, b) => Add(a.clone(), go(self, b)),
            Sub(a, b) if self.rng.chance(1, 2) => Sub(go(self, a), b.clone()),
            Sub(a, b) => Sub(a.clone(), go(self, b)),
            Mul(a, b) if self.rng.chance(1, 2) => Mul(go(self, a), b.clone()),
            Mul(a, b) => Mul(a.clone(), go(self, b)),
            Div(a, b) if self.rng.chance(1, 2) => Div(go(self, a), b.clone()),
            Div(a, b) => Div(a.clone(), go(self, b)),
            Pow(a, _) if here => (**a).clone(),
            Pow(a, b) if self.rng.chance(1, 2) => Pow(go(self, a), b.clone()),
            Pow(a, _) => {
                let e = self.exponent(2);
                Pow(a.clone(), bx(e))
            }
            Neg(a) if here => (**a).clone(),
            Neg(a) => Neg(go(self, a)),
            Fun(n, a) => Fun(n, go(self, a)),
            Ln(a) => Ln(go(self, a)),
            Log10(a) => Log10(go(self, a)),
            LogB(b, a) => LogB(*b, go(self, a)),
            Exp(a) => Exp(go(self, a)),
            Sqrt(a) => Sqrt(go(self, a)),
        }
    }
    fn split(&mut self, n: usize) -> (usize, usize) {
        let m = n.saturating_sub(1).max(2);
        let l = 1 + self.rng.us(m - 1);
        (l, m - l)
    }
    fn node(&mut self, n: usize) -> T {
        let p = self.p;
        // a chain of terms / factors sharing structure
        if n >= 6 && self.rng.chance(1, 6) {
            let k = 2 + self.rng.us(5);
            let add = self.rng.chance(2, 3);
            let per = (n / k).max(1);
            let mut acc = self.gen(per);
            for _ in 1..k {
                let t = self.gen(per);
                acc = match (add, self.rng.us(4)) {
                    (true, 0) => Sub(bx(acc), bx(t)),
                    (true, _) => Add(bx(acc), bx(t)),
                    (false, _) => Mul(bx(acc), bx(t)),
                };
            }
            return acc;
        }
        // two similar parts
        if n >= 5 && self.rng.chance(1, 12) {
            let a = self.gen((n - 1) / 2);
            let b = self.tweak(&a);
            let (a, b) = if self.rng.chance(1, 2) { (a, b) } else { (b, a) };
            return match self.rng.us(4) {
                0 if p.div => Div(bx(a), bx(b)),
                0 | 1 => Mul(bx(a), bx(b)),
                2 => Add(bx(a), bx(b)),
                _ => Sub(bx(a), bx(b)),
            };
        }
        let (l, r) = self.split(n);
        match self.rng.us(20) {
            0..=4 => {
                let (a, b) = (self.gen(l), self.gen(r));
                Add(bx(a), bx(b))
            }
            5..=6 => {
                let (a, b) = (self.gen(l), self.gen(r));
                Sub(bx(a), bx(b))
            }
            7..=11 => {
                let (a, b) = (self.gen(l), self.gen(r));
                Mul(bx(a), bx(b))
            }
            12 => {
                let a = self.gen(n - 1);
                Neg(bx(a))
            }
            13 if p.div => {
                let (a, b) = (self.gen(l), self.gen(r));
                Div(bx(a), bx(b))
            }
            14..=16 => {
                let e = self.exponent(n / 3 + 1);
                let b = self.gen((n.saturating_sub(1 + e.size())).max(1));
                Pow(bx(b), bx(e))
            }
            _ => {
                let mut opts: Vec<u8> = vec![];
                if p.trig {
                    opts.extend([0, 0, 0]);
                }
                if p.trig2 {
                    opts.push(1);
                }
                if p.inv {
                    opts.push(2);
                }
                if p.ln {
                    opts.extend([3, 3]);
                }
                if p.exp {
                    opts.extend([4, 4]);
                }
                if p.frac_pow {
                    opts.push(5);
                }
                if opts.is_empty() {
                    let (a, b) = (self.gen(l), self.gen(r));
                    return Mul(bx(a), bx(b));
                }
                let k = *self.rng.pick(&opts);
                // a function of a function, its inverse for preference
                if n >= 3 && self.rng.chance(1, 5) {
                    let u = bx(self.gen((n - 2).min(6)));
                    return match k {
                        0..=2 if p.inv => {
                            let i = self.rng.us(6);
                            let j = if self.rng.chance(2, 3) { i } else { self.rng.us(6) };
                            match self.rng.us(3) {
                                0 => Fun(FUNS[6 + i], bx(Fun(FUNS[j], u))),
                                1 => Fun(FUNS[6 + i], bx(Fun(FUNS[6 + j], u))),
                                _ => Fun(FUNS[i], bx(Fun(FUNS[6 + j], u))),
                            }
                        }
                        0 | 1 if p.trig2 => Fun(FUNS[self.rng.us(6)], bx(Fun(FUNS[self.rng.us(6)], u))),
                        0..=2 => Fun(FUNS[self.rng.us(2)], bx(Fun(FUNS[self.rng.us(2)], u))),
                        3 if p.exp => Ln(bx(Exp(u))),
                        3 => Ln(bx(Ln(u))),
                        4 if p.ln => Exp(bx(Ln(u))),
                        4 => Exp(bx(Exp(u))),
                        _ => {
                            let (a, b) = (self.rng.int(2, 4) as i128, self.rng.int(2, 4) as i128);
                            match self.rng.us(3) {
                                0 => Sqrt(bx(Pow(u, bx(int(a))))),
                                1 => Pow(bx(Pow(u, bx(int(a)))), bx(norm(1, b))),
                                _ => Pow(bx(Pow(u, bx(norm(1, b)))), bx(int(a))),
                            }
                        }
                    };
                }
                let a = bx(self.gen((n - 1).min(9)));
                match k {
                    0 => Fun(self.rng.pick(&["sin", "cos"]), a),
                    1 => Fun(self.rng.pick(&["tan", "sec", "cot", "csc"]), a),
                    2 => Fun(self.rng.pick(&FUNS[6..]), a),
                    3 => match self.rng.us(6) {
                        0 => Log10(a),
                        1 => LogB(self.rng.us(BASES.len()) as u8, a),
                        _ => Ln(a),
                    },
                    4 => Exp(a),
                    _ => Sqrt(a),
                }
            }
        }
    }
    fn exponent(&mut self, n: usize) -> T {
        let p = self.p;
        if p.var_exp && self.rng.chance(1, 4) {
            return self.gen(n.min(4));
        }
        if p.frac_pow && self.rng.chance(1, 3) {
            let d = self.rng.int(2, 4) as i128;
            let lo = if p.neg_pow { -5 } else { 1 };
            let n = self.rng.int(lo, 7) as i128;
            return norm(n, d);
        }
        if p.neg_pow && self.rng.chance(1, 4) {
            return int(-self.rng.int(1, 3) as i128);
        }
        let lo = if self.rng.chance(1, 8) { 0 } else { 1 };
        int(self.rng.int(lo, p.max_pow as i64) as i128)
    }
}
pub fn norm(n: i128, d: i128) -> T {
    use num_integer::Integer;
    let g = n.gcd(&d).max(1);
    Rat(n / g, d / g)
}
pub fn gen(rng: &mut Rng, p: Prof, n: usize) -> T {
    Gen::new(rng, p).gen(n)
}
/// a sum or product of many operands, like ones far apart; not `rich`: multiplying out stays cheap
pub fn long(rng: &mut Rng, p: Prof, rich: bool) -> T {
    let k = if rng.chance(1, 3) { 30 + rng.us(60) } else { 9 + rng.us(24) };
    let add = rng.chance(1, 2);
    let mut g = Gen::new(rng, p);
    let mut bases: Vec<T> = (0..p.nvars).map(var).collect();
    let mut sums = 0;
    let mut trig = 0;
    let n = if add { 3 + g.rng.us(5) } else { k };
    while bases.len() < n {
        let x = g.var();
        let c = int(g.rng.int(1, 40) as i128);
        let s = Add(bx(x.clone()), bx(c.clone()));
        let cx = Mul(bx(c), bx(x.clone()));
        let b = match g.rng.us(8) {
            0 if p.ln => Ln(bx(s)),
            1 if p.ln => LogB(g.rng.us(BASES.len()) as u8, bx(s)),
            2 if p.exp => Exp(bx(cx)),
            3 if p.frac_pow => Pow(bx(s), bx(Rat(1 + 2 * g.rng.us(3) as i128, 2))),
            4 if p.trig && trig < 3 => {
                trig += 1;
                Fun(g.rng.pick(&["sin", "cos"]), bx(cx))
            }
            5 if p.trig2 => Fun(g.rng.pick(&["tan", "sec", "cot", "csc"]), bx(cx)),
            6 if p.neg_pow && (rich || sums < 2) => {
                sums += 1;
                Pow(bx(s), bx(int(-1)))
            }
            _ if rich || sums < 3 => {
                sums += 1;
                s
            }
            _ if add => break,
            _ => Pow(bx(x), bx(int(g.rng.int(1, 2) as i128))),
        };
        bases.push(b);
    }
    let power = |g: &mut Gen, b: T| match g.rng.us(3) {
        0 if !matches!(b, Pow(..)) && (rich || !matches!(b, Add(..))) => Pow(bx(b), bx(int(g.rng.int(1, p.max_pow as i64) as i128))),
        _ => b,
    };
    let mut ops: Vec<T> = vec![];
    for i in 0..k {
        ops.push(if !add {
            power(&mut g, bases[i].clone())
        } else if g.rng.chance(1, 12) {
            g.coef()
        } else {
            // a term: its number of factors and their exponents make it differ from most others
            let mut t = power(&mut g, bases[i % bases.len()].clone());
            if !rich && !matches!(t, Var(_) | Pow(..)) {
                t = var(0);
            }
            let x = var(g.rng.below(p.nvars as u64) as u8);
            t = Mul(bx(t), bx(Pow(bx(x), bx(int(g.rng.int(1, 9) as i128)))));
            if g.rng.chance(1, 2) {
                let c = g.coef();
                t = Mul(bx(c), bx(t));
            }
            t
        });
    }
    // repeat some: unchanged, with another number, or with another exponent
    for _ in 0..1 + k / 6 {
        let t = g.rng.pick(&ops).clone();
        let c = int(g.rng.int(-4, 5) as i128);
        let again = match (add, g.rng.us(3)) {
            (true, 0) => Mul(bx(c), bx(t)),
            (true, 1) => Neg(bx(t)),
            (false, 0) if rich && !matches!(t, Pow(..)) => Pow(bx(t), bx(int(g.rng.int(1, 2) as i128))),
            _ if !add && !rich && matches!(t, Add(..)) => var(0),
            _ => t,
        };
        let at = if g.rng.chance(1, 2) { ops.len() } else { g.rng.us(ops.len()) };
        ops.insert(at, again);
    }
    if g.rng.chance(1, 3) {
        g.rng.shuffle(&mut ops);
    }
    ops.into_iter().reduce(|a, b| if add { Add(bx(a), bx(b)) } else { Mul(bx(a), bx(b)) }).unwrap()
}
/// the base of a logarithm, of any size
pub fn any_base(rng: &mut Rng) -> Real {
    use num_integer::Integer;
    let part = |rng: &mut Rng| (rng.next() as i128) << 62 >> rng.us(122) & (1 << 125) - 1 | 1;
    let (n, d) = (part(rng), if rng.chance(1, 2) { 1 } else { part(rng) });
    let g = n.gcd(&d);
    if n == d {
        return Real::Rational(Rational::from(2));
    }
    Real::Rational(Rational::from((n / g, d / g)))
}
pub fn env(rng: &mut Rng, neg: bool) -> Env {
    let vals = VARS
        .iter()
        .map(|v| {
            let n = rng.int(1, 19) as i128;
            let d = *rng.pick(&[1i64, 1, 2, 3, 5, 7, 11]) as i128;
            let s = if neg && rng.chance(1, 2) { -1 } else { 1 };
            (v.to_string(), N::frac(s * n, d))
        })
        .collect();
    Env { vals }
}
pub fn irrational(i: &Irrational) -> Real {
    Real::Irrational(*i)
}
