//! C17 printed formulas read back, C18 serialization.
use super::norm::canon;
use super::query::renamed;
use super::value::input;
use super::{Prop, DEF};
use crate::cx::*;
use crate::eval::*;
use crate::num::*;
use crate::rng::Rng;
use crate::tree::*;
use calcu_rs::atom::{Atom, Func, Irrational, Real, Var};
use calcu_rs::rational::Rational;
use calcu_rs::{Expr, SymbolicExpr};

// ------------------------------------------------------------------ a reader for the printed form
#[derive(Debug, Clone)]
pub enum P {
    Num(i128),
    Var(String),
    Pi,
    E,
    Undef,
    Bin(char, Box<P>, Box<P>),
    Neg(Box<P>),
    Fun(&'static str, Box<P>),
    Log(Box<P>, Box<P>),
}
impl P {
    fn eval(&self, env: &Env) -> R<N> {
        Ok(match self {
            P::Num(n) => N::int(*n),
            P::Var(v) => env.get(v).cloned().ok_or(Stop::UndefAtom)?,
            P::Pi => N::pi(),
            P::E => N::e(),
            P::Undef => return Err(Stop::UndefAtom),
            P::Bin(o, a, b) => {
                let (a, b) = (a.eval(env)?, b.eval(env)?);
                match o {
                    '+' => a.add(&b)?,
                    '-' => a.sub(&b)?,
                    '*' => a.mul(&b)?,
                    '/' => a.div(&b)?,
                    _ => a.pow(&b)?,
                }
            }
            P::Neg(a) => a.eval(env)?.neg(),
            P::Fun(n, a) => a.eval(env)?.fun1(n)?,
            P::Log(b, a) => match **b {
                P::E => a.eval(env)?.ln()?,
                _ => {
                    let lb = b.eval(env)?.ln()?;
                    if lb.is_exact_zero() {
                        return Err(Stop::Undefined);
                    }
                    a.eval(env)?.ln()?.div(&lb)?
                }
            },
        })
    }
    fn vars(&self, out: &mut Vec<String>) {
        match self {
            P::Var(v) => out.push(v.clone()),
            P::Bin(_, a, b) | P::Log(a, b) => {
                a.vars(out);
                b.vars(out)
            }
            P::Neg(a) | P::Fun(_, a) => a.vars(out),
            _ => (),
        }
    }
    fn has_undef(&self) -> bool {
        match self {
            P::Undef => true,
            P::Bin(_, a, b) | P::Log(a, b) => a.has_undef() || b.has_undef(),
            P::Neg(a) | P::Fun(_, a) => a.has_undef(),
            _ => false,
        }
    }
}
/// Ordinary mathematical notation: `^` binds its two atoms, then `·`, `/` and
/// juxtaposition from left to right, then `+`, `−`; a leading `-` negates a product.
struct Reader {
    s: Vec<char>,
    i: usize,
    /// a minus sign may follow an operator
    minus: bool,
}
type PR<T> = Result<T, String>;
fn b(p: P) -> Box<P> {
    Box::new(p)
}
pub fn read(s: &str) -> PR<P> {
    read_as(s, false)
}
fn read_as(s: &str, minus: bool) -> PR<P> {
    let mut r = Reader { s: s.chars().collect(), i: 0, minus };
    let p = r.sum()?;
    if r.i < r.s.len() {
        return Err(format!("unexpected '{}' at {}", r.s[r.i], r.i));
    }
    Ok(p)
}
impl Reader {
    fn peek(&self) -> Option<char> {
        self.s.get(self.i).copied()
    }
    fn space(&mut self) {
        while self.peek() == Some(' ') {
            self.i += 1
        }
    }
    fn eat(&mut self, c: char) -> bool {
        let save = self.i;
        self.space();
        if self.peek() == Some(c) {
            self.i += 1;
            return true;
        }
        self.i = save;
        false
    }
    fn sum(&mut self) -> PR<P> {
        let mut a = self.prod()?;
        loop {
            let o = if self.eat('+') {
                '+'
            } else if self.eat('−') || self.eat('-') {
                '-'
            } else {
                return Ok(a);
            };
            a = P::Bin(o, b(a), b(self.prod()?));
        }
    }
    fn prod(&mut self) -> PR<P> {
        if self.eat('-') || self.eat('−') {
            return Ok(P::Neg(b(self.prod()?)));
        }
        let mut a = self.power()?;
        loop {
            let o = if self.eat('·') || self.eat('*') {
                '*'
            } else if self.eat('/') {
                '/'
            } else if self.starts_factor() {
                '*'
            } else {
                return Ok(a);
            };
            a = P::Bin(o, b(a), b(self.power()?));
        }
    }
    /// juxtaposition: no digit directly after a factor
    fn starts_factor(&mut self) -> bool {
        let save = self.i;
        self.space();
        let ok = self.peek().is_some_and(|c| c == '(' || c == '∅' || c == '𝓮' || ident(c));
        self.i = save;
        ok
    }
    fn power(&mut self) -> PR<P> {
        if self.minus && (self.eat('-') || self.eat('−')) {
            return Ok(P::Neg(b(self.power()?)));
        }
        let a = self.atom()?;
        if self.eat('^') {
            // x^-2
            let neg = self.minus && (self.eat('-') || self.eat('−'));
            let e = self.atom()?;
            let e = if neg { P::Neg(b(e)) } else { e };
            if self.eat('^') {
                return Err("a^b^c".into());
            }
            return Ok(P::Bin('^', b(a), b(e)));
        }
        Ok(a)
    }
    fn digits(&mut self) -> Option<i128> {
        let st = self.i;
        while self.peek().is_some_and(|c| c.is_ascii_digit()) {
            self.i += 1
        }
        self.s[st..self.i].iter().collect::<String>().parse().ok()
    }
    fn paren(&mut self) -> PR<P> {
        if !self.eat('(') {
            return Err(format!("expected ( at {}", self.i));
        }
        let p = self.sum()?;
        if !self.eat(')') {
            return Err(format!("expected ) at {}", self.i));
        }
        Ok(p)
    }
    fn atom(&mut self) -> PR<P> {
        self.space();
        let c = self.peek().ok_or("unexpected end")?;
        if c == '(' {
            return self.paren();
        }
        if c == '∅' || c == '𝓮' {
            self.i += 1;
            return Ok(if c == '∅' { P::Undef } else { P::E });
        }
        if c.is_ascii_digit() {
            return self.digits().map(P::Num).ok_or("bad number".into());
        }
        if !ident(c) {
            return Err(format!("unexpected '{c}' at {}", self.i));
        }
        if c == 'π' {
            self.i += 1;
            return Ok(P::Pi);
        }
        let st = self.i;
        while self.peek().is_some_and(|c| ident(c) && c != 'π' || c.is_ascii_digit()) {
            self.i += 1
        }
        let name: String = self.s[st..self.i].iter().collect();
        if let Some(f) = FUNS.iter().find(|f| **f == name) {
            return self.fun(|a| P::Fun(f, b(a)));
        }
        if name == "ln" {
            return self.fun(|a| P::Log(b(P::E), b(a)));
        }
        if let Some(base) = name.strip_prefix("log") {
            let base = if let Ok(n) = base.parse::<i128>() {
                // log1/2(x)
                if self.peek() == Some('/') {
                    self.i += 1;
                    let d = self.digits().ok_or("log base")?;
                    P::Bin('/', b(P::Num(n)), b(P::Num(d)))
                } else {
                    P::Num(n)
                }
            } else if base.is_empty() {
                match self.peek() {
                    Some('π') => {
                        self.i += 1;
                        P::Pi
                    }
                    Some('𝓮') => {
                        self.i += 1;
                        P::E
                    }
                    _ => P::Num(10),
                }
            } else {
                return Ok(P::Var(name));
            };
            return self.fun(move |a| P::Log(b(base), b(a)));
        }
        Ok(P::Var(name))
    }
    /// `sin(x)` or `sin^3(x)`
    fn fun(&mut self, f: impl FnOnce(P) -> P) -> PR<P> {
        let e = match self.eat('^') {
            true => {
                let neg = self.minus && (self.eat('-') || self.eat('−'));
                let e = self.atom()?;
                Some(if neg { P::Neg(b(e)) } else { e })
            }
            false => None,
        };
        let a = self.paren()?;
        Ok(match e {
            Some(e) => P::Bin('^', b(f(a)), b(e)),
            None => f(a),
        })
    }
}
fn ident(c: char) -> bool {
    c.is_alphabetic() && c != '𝓮' || c == '_' || c == '\''
}

const NAMES: [&str; 14] = ["alpha", "x1", "x_2", "θ", "ab", "e", "E", "pi", "i", "tmp10", "A", "Ω", "x'", "longer_name"];

fn other_logs(e: &Expr, rng: &mut Rng) -> Expr {
    let bases = [
        Real::Rational(Rational::new(1, 2)),
        Real::Rational(Rational::new(7, 3)),
        Real::Rational(Rational::from(2)),
        Real::Rational(Rational::from(10)),
        Real::Irrational(Irrational::PI),
        Real::Irrational(Irrational::E),
        any_base(rng),
        any_base(rng),
    ];
    let l = |r: &mut Rng, e: &Expr| Expr::from(Atom::Func(Func::Log(r.pick(&bases).clone(), e.clone())));
    match rng.us(4) {
        0 => l(rng, e),
        1 => prod(vec![Expr::from(2), l(rng, &Expr::var("x")), e.clone()]),
        2 => Expr::pow_raw(l(rng, &Expr::var("y")), e),
        _ => sum(vec![e.clone(), Expr::pow_raw(l(rng, &Expr::var("x")), mk_rat(rng.int(-4, 5) as i128, rng.int(1, 3) as i128))]),
    }
}
fn display(cx: &mut Cx, rng: &mut Rng) -> Res {
    let (_, p, mut e) = input(cx, rng, &PROFS)?;
    if rng.chance(1, 8) {
        e = cx.setup(|| e.reduce())?;
    }
    if rng.chance(1, 6) {
        e = other_logs(&e, rng);
    }
    if rng.chance(1, 8) {
        // an undefined part somewhere
        e = match rng.us(4) {
            0 => sum(vec![e, Expr::undef()]),
            1 => prod(vec![Expr::undef(), e]),
            2 => Expr::pow_raw(Expr::undef(), e),
            _ => Expr::pow_raw(e, Expr::undef()),
        };
    }
    let mut names: Vec<(&str, String)> = VARS.iter().map(|v| (*v, v.to_string())).collect();
    if rng.chance(1, 3) {
        let mut pool = NAMES.to_vec();
        rng.shuffle(&mut pool);
        for ((v, n), new) in names.iter_mut().zip(pool) {
            *n = new.to_string();
            e = renamed(&e, v, new, false);
        }
    }
    cx.input = skel(&e);
    let text = cx.call("Display", || e.to_string())?;
    let ast = cx.call("fmt_ast", || e.fmt_ast().to_string())?;
    let atom = cx.call("Display of Atom", || e.atom().to_string())?;
    if text != ast || text != atom {
        return fail("Expr, Atom and fmt_ast print differently", format!("{text} / {atom} / {ast}"));
    }
    cx.input = format!("{} displayed as {text}", skel(&e));
    let read = match read(&text) {
        Ok(p) => p,
        Err(m) => return fail("Display: not a formula", format!("{text} cannot be read: {m}")),
    };
    let mut shown = vec![];
    read.vars(&mut shown);
    shown.sort();
    let mut want = vec![];
    any(&e, &mut |s| {
        if let Atom::Var(v) = s.atom() {
            want.push(v.to_string())
        }
        false
    });
    want.sort();
    if shown != want {
        return fail("Display: variables", format!("{text} shows the variables {shown:?}, the expression has {want:?}"));
    }
    if read.has_undef() != has_undef(&e) {
        return fail("Display: undefined marker", format!("{text} read from {}", skel(&e)));
    }
    if has_undef(&e) {
        cx.count("undefined");
        cx.seen(&text);
        return Ok(());
    }
    let named = |env: &Env| Env { vals: env.vals.iter().map(|(v, n)| (names.iter().find(|x| x.0 == v).unwrap().1.clone(), n.clone())).collect() };
    let ok = cx.same_fn("Display", rng, p.neg_env, 3, &|env| eval(&e, &named(env)), &|env| read.eval(&named(env)), &|| text.clone(), false)?;
    if ok > 0 && size(&e) > 2 {
        cx.seen(&text);
        cx.sample(|| format!("{} displayed as {text}", skel(&e)));
    }
    if rng.chance(1, 3) {
        let (_, _, o) = input(cx, rng, &PROFS)?;
        if !has_undef(&o) && size(&o) <= 20 && size(&e) <= 20 && names.iter().all(|n| n.0 == n.1) {
            fmt_arith(cx, rng, p.neg_env, &e, &o)?;
        }
    }
    // the pieces
    if let Atom::Func(f) = e.atom() {
        let t = cx.call("Display of Func", || f.to_string())?;
        let r = match self::read(&t) {
            Ok(p) => p,
            Err(m) => return fail("Display of Func: not a formula", format!("{t} cannot be read: {m}")),
        };
        cx.same_fn("Display of Func", rng, p.neg_env, 2, &|env| eval(&e, &named(env)), &|env| r.eval(&named(env)), &|| t.clone(), false)?;
    }
    numbers(cx, rng)
}
/// formulas put together from printed parts
fn fmt_arith(cx: &mut Cx, rng: &mut Rng, neg: bool, a: &Expr, b: &Expr) -> Res {
    let o = *rng.pick(&['+', '-', '*', '/', '^']);
    cx.input = format!("{} {o} {} as FmtAtom", skel(a), skel(b));
    let t = cx.call("FmtAtom", || {
        let (a, b) = (a.fmt_ast(), b.fmt_ast());
        let r = match o {
            '+' => a + b,
            '-' => a - b,
            '*' => a * b,
            '/' => a / b,
            _ => a.pow(b),
        };
        r.to_string()
    })?;
    cx.input = format!("{} printed as {t}", cx.input);
    let read = match read_as(&t, true) {
        Ok(p) => p,
        Err(m) => return fail(format!("FmtAtom {o}: not a formula"), format!("{t} cannot be read: {m}")),
    };
    let want = |env: &Env| -> R<N> {
        let (a, b) = (eval(a, env)?, eval(b, env)?);
        match o {
            '+' => a.add(&b),
            '-' => a.sub(&b),
            '*' => a.mul(&b),
            '/' => a.div(&b),
            _ => a.pow(&b),
        }
    };
    cx.same_fn(&format!("FmtAtom {o}"), rng, neg, 2, &want, &|env| read.eval(env), &|| t.clone(), false)?;
    Ok(())
}
fn numbers(cx: &mut Cx, rng: &mut Rng) -> Res {
    let big = rng.chance(1, 4);
    let n = if big { rng.next() as i128 * rng.next() as i128 >> rng.us(100) } else { rng.int(-30, 30) as i128 };
    let d = if rng.chance(1, 2) { 1 } else { rng.int(1, 40) as i128 };
    let n = if big && rng.chance(1, 2) { -n } else { n };
    let Some(q) = Q::new(n.into(), d.into()) else { return Ok(()) };
    let r = cx.setup(|| Rational::new(n, d))?;
    let want = q.to_string();
    for t in [r.to_string(), Real::Rational(r).to_string(), format!("{r:?}")] {
        if t != want {
            return fail("Display of Rational", format!("{n}/{d} displayed as {t}, not {want}"));
        }
    }
    // as a whole expression, and as a coefficient
    cx.input = format!("{n}/{d}");
    let env = Env { vals: vec![("x".into(), N::frac(3, 7))] };
    for e in [Expr::from(r), prod(vec![Expr::from(r), Expr::var("x")]), Expr::pow_raw(Expr::var("x"), Expr::from(r)), Expr::pow_raw(Expr::from(r), Expr::var("x"))] {
        if n == i128::MIN {
            continue;
        }
        let t = cx.call("Display", || e.to_string())?;
        let p = match read(&t) {
            Ok(p) => p,
            Err(m) => return fail("Display: not a formula", format!("{} displayed as {t}: {m}", skel(&e))),
        };
        if let (Ok(a), Ok(b)) = (eval(&e, &env), p.eval(&env)) {
            if let Cmp::Differ = compare(&a, &b) {
                return fail("Display of a number", format!("{} displayed as {t}", skel(&e)));
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ serialization
const HOSTILE: [&str; 12] = ["", "a\"b", "\\", "\u{0}", "line\nbreak", "\u{1F600}", "Undef", "{\"Var\":\"x\"}", "null", " x ", "\u{202e}r", "é"];

fn json(cx: &mut Cx, rng: &mut Rng) -> Res {
    let (_, _, mut e) = input(cx, rng, &PROFS)?;
    if rng.chance(1, 6) {
        e = other_logs(&e, rng);
    }
    if rng.chance(1, 4) {
        for v in VARS {
            if rng.chance(1, 2) {
                e = renamed(&e, v, *rng.pick(&HOSTILE), false);
            }
        }
    }
    if rng.chance(1, 10) {
        e = sum(vec![e, Expr::undef()]);
    }
    if rng.chance(1, 6) {
        let n = (rng.next() as i128 * rng.next() as i128) >> rng.us(120);
        let n = if rng.chance(1, 2) { -n } else { n };
        let n = if rng.chance(1, 20) { *rng.pick(&[i128::MAX, i128::MIN, i128::MIN + 1, i64::MIN as i128, u64::MAX as i128]) } else { n };
        let d = 1 + (rng.next() as i128 * rng.next() as i128) / 2 >> rng.us(120);
        if let Ok(r) = cx.setup(|| Rational::new(n, d.max(1))) {
            e = prod(vec![Expr::from(r), e]);
        }
    }
    cx.input = skel(&e);
    let want = skel(&e);
    let text = match cx.call("to_string", || serde_json::to_string(&e))? {
        Ok(t) => t,
        Err(m) => return fail("serialize: error", m.to_string()),
    };
    cx.input = format!("{want} as JSON {text}");
    let back = |cx: &mut Cx, how: &str, f: &dyn Fn() -> serde_json::Result<Expr>| -> Res {
        match cx.call(how, f)? {
            Ok(r) => {
                let got = skel(&r);
                if got != want || r != e {
                    return fail(format!("{how}: round trip changed the expression"), format!("{want} read back as {got}"));
                }
                Ok(())
            }
            Err(m) if m.to_string().contains("recursion limit") => skip("nested too deeply for serde_json"),
            Err(m) => fail(format!("{how}: cannot read back"), m.to_string()),
        }
    };
    back(cx, "from_str", &|| serde_json::from_str::<Expr>(&text))?;
    back(cx, "from_slice", &|| serde_json::from_slice::<Expr>(text.as_bytes()))?;
    back(cx, "from_reader", &|| serde_json::from_reader::<_, Expr>(text.as_bytes()))?;
    let pretty = serde_json::to_string_pretty(&e).unwrap();
    back(cx, "from_str pretty", &|| serde_json::from_str::<Expr>(&pretty))?;
    back(cx, "as Atom", &|| {
        let t = serde_json::to_string(e.atom())?;
        Ok(Expr::from(serde_json::from_str::<Atom>(&t)?))
    })?;
    match e.atom() {
        Atom::Func(f) => back(cx, "as Func", &|| Ok(Expr::from(Atom::Func(serde_json::from_str::<Func>(&serde_json::to_string(f)?)?))))?,
        Atom::Sum(f) => back(cx, "as Sum", &|| Ok(Expr::from(Atom::Sum(serde_json::from_str(&serde_json::to_string(f)?)?))))?,
        Atom::Prod(f) => back(cx, "as Prod", &|| Ok(Expr::from(Atom::Prod(serde_json::from_str(&serde_json::to_string(f)?)?))))?,
        Atom::Pow(f) => back(cx, "as Pow", &|| Ok(Expr::from(Atom::Pow(serde_json::from_str(&serde_json::to_string(f)?)?))))?,
        Atom::Var(f) => back(cx, "as Var", &|| Ok(Expr::from(Atom::Var(serde_json::from_str::<Var>(&serde_json::to_string(f)?)?))))?,
        Atom::Rational(r) => back(cx, "as Real", &|| {
            Ok(match serde_json::from_str::<Real>(&serde_json::to_string(&Real::Rational(*r))?)? {
                Real::Rational(r) => Expr::from(r),
                r => Expr::from(r),
            })
        })?,
        _ => (),
    }
    // a list shares nothing it should not
    let list = vec![e.clone(), Expr::from(1), e.clone()];
    match cx.call("list", || serde_json::from_str::<Vec<Expr>>(&serde_json::to_string(&list).unwrap()))? {
        Ok(l) if l == list => (),
        Ok(_) => return fail("list: round trip changed it", want),
        Err(m) if m.to_string().contains("recursion limit") => (),
        Err(m) => return fail("list: cannot read back", m.to_string()),
    }
    if size(&e) > 2 {
        cx.seen(&want);
        cx.sample(|| text.chars().take(200).collect());
    }
    if rng.chance(1, 2) {
        unreduced(cx, rng)
    } else {
        mutated(cx, rng, &text)
    }
}
/// numbers and damaged text from outside: an error, or a well-formed expression
fn unreduced(cx: &mut Cx, rng: &mut Rng) -> Res {
    let (n, d) = (rng.int(-40, 40) as i128, rng.int(-12, 12) as i128);
    let text = format!("[{n},{d}]");
    cx.input = text.clone();
    let r = cx.call("read rational", || serde_json::from_str::<Rational>(&text))?;
    cx.count("rationals read");
    match (r, Q::new(n.into(), d.into())) {
        (Err(_), None) => Ok(()),
        (Ok(r), Some(q)) if q.to_string() == if r.denom() == 1 { format!("{}", r.numer()) } else { format!("{}/{}", r.numer(), r.denom()) } => {
            if r != Rational::new(n, d) {
                return fail("rational read from text differs from the constructed one", text);
            }
            Ok(())
        }
        (r, _) => fail("rational read from text", format!("{text} read as {:?}", r.map(|r| (r.numer(), r.denom())))),
    }
}
fn mutated(cx: &mut Cx, rng: &mut Rng, text: &str) -> Res {
    let mut s: Vec<char> = text.chars().collect();
    for _ in 0..1 + rng.us(3) {
        let i = rng.us(s.len());
        match rng.us(4) {
            0 => {
                s.remove(i);
            }
            1 => s.insert(i, *rng.pick(&['0', '1', '-', ',', '[', ']', '{', '}', '"', 'x', 'e'])),
            2 => s[i] = *rng.pick(&['0', '1', '2', '-', ',', '[', '"', 'S', 'P']),
            _ => {
                let j = rng.us(s.len());
                s.swap(i, j)
            }
        }
        if s.is_empty() {
            return Ok(());
        }
    }
    let text: String = s.into_iter().collect();
    cx.input = format!("damaged JSON {text}");
    match cx.call("read damaged", || serde_json::from_str::<Expr>(&text))? {
        Err(_) => cx.count("damaged text rejected"),
        Ok(e) => {
            cx.count("damaged text still readable");
            let bad = any(&e, &mut |s| match s.atom() {
                Atom::Rational(r) => r.denom() < 1 || num_integer::Integer::gcd(&r.numer(), &r.denom()) != 1,
                Atom::Func(Func::Log(Real::Rational(r), _)) => r.denom() < 1 || num_integer::Integer::gcd(&r.numer(), &r.denom()) != 1,
                _ => false,
            });
            if bad {
                return fail("a rational that is not in lowest terms was read", skel(&e));
            }
            let again: Expr = match serde_json::from_str(&serde_json::to_string(&e).unwrap()) {
                Ok(e) => e,
                Err(m) => return fail("cannot read back what was read", m.to_string()),
            };
            if canon(&again) != canon(&e) {
                return fail("round trip changed the expression", format!("{} and {}", skel(&e), skel(&again)));
            }
        }
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C17", title: "display", run: display, quick: 600_000, thorough: 5_000_000, rule: "random tree (all profiles, every construction route, odd variable names, other logarithm bases, undefined parts) printed and read back by an independent reader, values compared at random points; non-trivial: distinct printed text of a tree of more than 2 nodes compared at a point at least once", budget_is_violation: true, fuel: 60_000_000, cpu_ms: 60_000, ..DEF },
        Prop { id: "C18", title: "serialization", run: json, quick: 360_000, thorough: 3_000_000, rule: "random tree (hostile variable names, 127-bit numbers, undefined parts) through JSON as expression, atom, list and part, unreduced rationals and damaged text read; non-trivial: distinct tree of more than 2 nodes", budget_is_violation: true, fuel: 60_000_000, cpu_ms: 60_000, ..DEF },
    ]
}
