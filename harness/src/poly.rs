//! Reference polynomials: maps from exponent vectors to exact coefficients.
use crate::num::Q;
use crate::tree::*;
use calcu_rs::atom::Atom;
use calcu_rs::Expr;
use std::collections::BTreeMap;

pub type Mono = [u32; 6];
#[derive(Clone, Debug, PartialEq)]
pub struct Poly(pub BTreeMap<Mono, Q>);

pub const MAX_TERMS: usize = 300;
impl Poly {
    pub fn konst(q: Q) -> Poly {
        let mut p = Poly(BTreeMap::new());
        if !q.is_zero() {
            p.0.insert([0; 6], q);
        }
        p
    }
    pub fn var(i: usize) -> Poly {
        let mut m = [0; 6];
        m[i] = 1;
        Poly([(m, Q::int(1))].into())
    }
    pub fn add(&self, o: &Poly) -> Poly {
        let mut r = self.clone();
        for (m, c) in &o.0 {
            let s = r.0.get(m).cloned().unwrap_or(Q::int(0)).add(c);
            if s.is_zero() {
                r.0.remove(m);
            } else {
                r.0.insert(*m, s);
            }
        }
        r
    }
    pub fn neg(&self) -> Poly {
        Poly(self.0.iter().map(|(m, c)| (*m, Q::int(0).sub(c))).collect())
    }
    pub fn mul(&self, o: &Poly) -> Option<Poly> {
        let mut r = Poly(BTreeMap::new());
        for (m, c) in &self.0 {
            for (n, d) in &o.0 {
                let mut k = *m;
                for i in 0..6 {
                    k[i] += n[i]
                }
                let s = r.0.get(&k).cloned().unwrap_or(Q::int(0)).add(&c.mul(d));
                if s.is_zero() {
                    r.0.remove(&k);
                } else {
                    r.0.insert(k, s);
                }
            }
            if r.0.len() > MAX_TERMS {
                return None;
            }
        }
        Some(r)
    }
    pub fn pow(&self, n: u32) -> Option<Poly> {
        let mut r = Poly::konst(Q::int(1));
        for _ in 0..n {
            r = r.mul(self)?;
        }
        Some(r)
    }
    /// every coefficient has at most `bits` bits
    pub fn small(&self, bits: u64) -> bool {
        self.0.values().all(|c| c.bits() <= bits)
    }
    pub fn show(&self) -> String {
        let t: Vec<String> = self
            .0
            .iter()
            .map(|(m, c)| {
                let v: Vec<String> = (0..6).filter(|i| m[*i] > 0).map(|i| format!("{}^{}", VARS[i], m[i])).collect();
                format!("{c}*{}", v.join("*"))
            })
            .collect();
        t.join(" + ")
    }
    /// the polynomial that a tree denotes; None if it is not (written as) a polynomial
    pub fn of_tree(t: &T) -> Option<Poly> {
        Some(match t {
            T::Rat(n, d) => Poly::konst(Q::new((*n).into(), (*d).into())?),
            T::Var(i) => Poly::var(*i as usize),
            T::Add(a, b) => Poly::of_tree(a)?.add(&Poly::of_tree(b)?),
            T::Sub(a, b) => Poly::of_tree(a)?.add(&Poly::of_tree(b)?.neg()),
            T::Mul(a, b) => Poly::of_tree(a)?.mul(&Poly::of_tree(b)?)?,
            T::Neg(a) => Poly::of_tree(a)?.neg(),
            T::Pow(a, b) => match **b {
                T::Rat(n, 1) if (0..=12).contains(&n) => {
                    let p = Poly::of_tree(a)?;
                    if n == 0 && p.0.is_empty() {
                        return None;
                    }
                    p.pow(n as u32)?
                }
                _ => return None,
            },
            _ => return None,
        })
    }
    /// Read off a sum of monomials. Err says why the expression is not one.
    pub fn of_expanded(e: &Expr) -> Result<Poly, String> {
        let mut p = Poly(BTreeMap::new());
        let terms: Vec<&Expr> = match e.atom() {
            Atom::Sum(s) => s.args.iter().collect(),
            _ => vec![e],
        };
        let single = terms.len() == 1;
        for t in terms {
            let (m, c) = monomial(t)?;
            if c.is_zero() {
                if single {
                    return Ok(p);
                }
                return Err("zero term".into());
            }
            if p.0.insert(m, c).is_some() {
                return Err("two terms with one monomial".into());
            }
        }
        Ok(p)
    }
}
fn monomial(t: &Expr) -> Result<(Mono, Q), String> {
    let mut m = [0u32; 6];
    let mut c = Q::int(1);
    let factors: Vec<&Expr> = match t.atom() {
        Atom::Prod(p) => p.args.iter().collect(),
        _ => vec![t],
    };
    let mut numbers = 0;
    for f in factors {
        let (base, exp) = match f.atom() {
            Atom::Rational(r) => {
                numbers += 1;
                c = c.mul(&Q::new(r.numer().into(), r.denom().into()).ok_or("bad number")?);
                continue;
            }
            Atom::Var(_) => (f, 1),
            Atom::Pow(p) => match p.exponent().atom() {
                Atom::Rational(r) if r.denom() == 1 && r.numer() >= 1 => (p.base(), r.numer() as u32),
                _ => return Err(format!("exponent in {}", crate::eval::skel(f))),
            },
            _ => return Err(format!("factor {}", crate::eval::skel(f))),
        };
        let Atom::Var(v) = base.atom() else { return Err(format!("base {}", crate::eval::skel(base))) };
        let name = v.to_string();
        let i = VARS.iter().position(|x| *x == name).ok_or("unknown variable")?;
        if m[i] != 0 {
            return Err(format!("{name} twice in {}", crate::eval::skel(t)));
        }
        m[i] = exp;
    }
    if numbers > 1 {
        return Err("two numbers".into());
    }
    Ok((m, c))
}
/// another tree for the same polynomial
pub fn rearranged(t: &T, rng: &mut crate::rng::Rng) -> T {
    use T::*;
    let t = match t {
        Add(a, b) => Add(bx(rearranged(a, rng)), bx(rearranged(b, rng))),
        Sub(a, b) => Sub(bx(rearranged(a, rng)), bx(rearranged(b, rng))),
        Mul(a, b) => Mul(bx(rearranged(a, rng)), bx(rearranged(b, rng))),
        Neg(a) => Neg(bx(rearranged(a, rng))),
        Pow(a, b) => Pow(bx(rearranged(a, rng)), b.clone()),
        _ => t.clone(),
    };
    let t = match (rng.us(3), t) {
        (0, Add(a, b)) => Add(b, a),
        (0, Mul(a, b)) => Mul(b, a),
        (0, Sub(a, b)) => Add(bx(Neg(b)), a),
        (0, Neg(a)) => Sub(bx(int(0)), a),
        (1, Add(a, b)) => match *a {
            Add(x, y) => Add(x, bx(Add(y, b))),
            a => Add(bx(a), b),
        },
        (1, Mul(a, b)) => match (*a, *b) {
            (Mul(x, y), b) => Mul(x, bx(Mul(y, bx(b)))),
            (Add(x, y), b) => Add(bx(Mul(x, bx(b.clone()))), bx(Mul(y, bx(b)))),
            (a, Add(x, y)) => Add(bx(Mul(bx(a.clone()), x)), bx(Mul(bx(a), y))),
            (a, b) => Mul(bx(a), bx(b)),
        },
        (_, Pow(a, b)) => match *b {
            Rat(n, 1) if (2..=4).contains(&n) => {
                let rest = if n == 2 { (*a).clone() } else { Pow(a.clone(), bx(int(n - 1))) };
                Mul(a, bx(rest))
            }
            b => Pow(a, bx(b)),
        },
        (_, t) => t,
    };
    if rng.chance(1, 10) {
        // + u - u
        let u = var(rng.below(3) as u8);
        return Sub(bx(Add(bx(t), bx(u.clone()))), bx(u));
    }
    t
}
