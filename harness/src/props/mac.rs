//! C20: the `expr!` macro. The formulas of a run are written to a source file
//! (`vmon gen-mac`), compiled with the macro into the program `mac`, and judged there.
use super::extra::{is_undef, lazy_power, numeric, V};
use super::{Prop, DEF};
use crate::cx::*;
use crate::eval::*;
use crate::num::*;
use crate::rng::Rng;
use crate::tree::*;
use calcu_rs::atom::Atom;
use calcu_rs::{Expr, SymbolicExpr};
use std::sync::OnceLock;

pub type Table = &'static [(&'static str, fn() -> Expr)];
pub static TABLE: OnceLock<Table> = OnceLock::new();

const NAMES: [&str; 16] = ["alpha", "pie", "e", "E", "undefx", "oo1", "Pi", "i", "_a", "x1", "sin", "long_name_2", "self_", "PI", "u", "exp"];

/// precedence: + - 1, * / 2, ^ 3 (all from left to right), operands 4
fn prec(t: &T) -> u8 {
    match t {
        T::Add(..) | T::Sub(..) => 1,
        T::Mul(..) | T::Div(..) => 2,
        T::Pow(..) => 3,
        T::Rat(n, d) if *d != 1 => {
            let _ = n;
            2
        }
        T::Rat(n, _) if *n < 0 => 4,
        _ => 4,
    }
}
struct Printer<'a> {
    rng: &'a mut Rng,
    names: Vec<String>,
}
impl Printer<'_> {
    fn sp(&mut self) -> &'static str {
        *self.rng.pick(&[" ", "", " ", "  "])
    }
    fn sub(&mut self, t: &T, min: u8) -> String {
        let s = self.go(t);
        // a superfluous pair of parentheses is allowed anywhere
        if prec(t) < min || self.rng.chance(1, 12) {
            format!("({s})")
        } else {
            s
        }
    }
    /// the base of a power: what a minus sign in front of it means there is left open
    fn base(&mut self, t: &T) -> String {
        let s = self.sub(t, 3);
        // (the minus of a power's own base was put in parentheses already)
        if s.starts_with('-') {
            format!("({s})")
        } else {
            s
        }
    }
    fn call(&mut self, f: &str, args: &[&T]) -> String {
        let args: Vec<String> = args.iter().map(|a| self.go(a)).collect();
        let (a, b) = (self.sp(), self.sp());
        let comma = if self.rng.chance(1, 8) { "," } else { "" };
        format!("{f}{a}({}{comma}{b})", args.join(", "))
    }
    fn bin(&mut self, a: &T, o: &str, b: &T, p: u8) -> String {
        let f = match o {
            "+" => "add",
            "-" => "sub",
            "*" => "mul",
            "/" => "div",
            _ => "pow",
        };
        if self.rng.chance(1, 14) {
            let raw = if f != "sub" && self.rng.chance(1, 2) { "_raw" } else { "" };
            return self.call(&format!("{f}{raw}"), &[a, b]);
        }
        let l = if o == "^" { self.base(a) } else { self.sub(a, p) };
        let r = self.sub(b, p + 1);
        // `a <- b`, `->`: not formulas
        let (x, y) = (self.sp(), self.sp());
        format!("{l}{x}{o}{y}{r}")
    }
    fn int(&mut self, n: u128) -> String {
        match self.rng.us(12) {
            0 => format!("{n:#x}"),
            1 => format!("{n}_i64").replace("_i64", ""),
            2 if n > 9 => {
                let s = n.to_string();
                format!("{}_{}", &s[..1], &s[1..])
            }
            _ => n.to_string(),
        }
    }
    fn go(&mut self, t: &T) -> String {
        match t {
            T::Rat(n, 1) => {
                let s = self.int(n.unsigned_abs());
                if *n < 0 {
                    let sp = self.sp();
                    format!("-{sp}{s}")
                } else {
                    s
                }
            }
            T::Rat(n, d) => self.bin(&int(*n), "/", &int(*d), 2),
            T::Var(i) => self.names[*i as usize].clone(),
            T::Pi => "pi".into(),
            T::E => self.call("exp", &[&int(1)]),
            T::Undef => "undef".into(),
            T::Neg(a) => {
                let s = self.sub(a, 4);
                // `--x` is not a formula
                if s.starts_with('-') {
                    format!("-({s})")
                } else {
                    format!("-{s}")
                }
            }
            T::Add(a, b) => self.bin(a, "+", b, 1),
            T::Sub(a, b) => self.bin(a, "-", b, 1),
            T::Mul(a, b) => self.bin(a, "*", b, 2),
            T::Div(a, b) => self.bin(a, "/", b, 2),
            T::Pow(a, b) => self.bin(a, "^", b, 3),
            T::Fun(n, a) => {
                let n = n.replace("arc", "arc_");
                self.call(&n, &[a])
            }
            T::Ln(a) => self.call("ln", &[a]),
            T::Log10(a) => self.call("log10", &[a]),
            T::LogB(_, a) => self.call("ln", &[a]),
            T::Exp(a) => self.call("exp", &[a]),
            T::Sqrt(a) => self.call("sqrt", &[a]),
        }
    }
}
fn no_log_base(t: &mut T) {
    match t {
        T::LogB(_, a) => {
            no_log_base(a);
            *t = T::Ln(a.clone())
        }
        T::Add(a, b) | T::Sub(a, b) | T::Mul(a, b) | T::Div(a, b) | T::Pow(a, b) => {
            no_log_base(a);
            no_log_base(b)
        }
        T::Neg(a) | T::Fun(_, a) | T::Ln(a) | T::Log10(a) | T::Exp(a) | T::Sqrt(a) => no_log_base(a),
        _ => (),
    }
}
/// a formula of numbers only: often undefined, often with equal operands, or with large powers
fn numbers(rng: &mut Rng) -> T {
    let n = 1 + rng.us(9);
    let mut t = gen(rng, RATFN, n);
    let zero_heavy = rng.chance(1, 2);
    for v in 0..3 {
        let c = match zero_heavy {
            true => *rng.pick(&[0i128, 0, 1, -1, 2]),
            false => rng.int(-12, 12) as i128,
        };
        t = t.subst(&var(v), &int(c));
    }
    for _ in 0..rng.us(3) {
        let u = bx(match rng.us(6) {
            0 => T::Undef,
            1 => T::Div(bx(int(rng.int(-3, 3) as i128)), bx(int(0))),
            2 => int(*rng.pick(&[0, 0, 1, -1])),
            3 => T::Pow(bx(int(rng.int(-20, 20) as i128)), bx(int(rng.int(2, 99) as i128))),
            4 => int((rng.next() as i64 >> rng.us(60)) as i128),
            _ => t.clone(),
        });
        t = match rng.us(9) {
            0 => T::Sub(u.clone(), u),
            1 => T::Div(u.clone(), u),
            2 => T::Add(u.clone(), u),
            3 => T::Mul(u.clone(), u),
            4 => T::Sub(bx(t), u),
            5 => T::Mul(u, bx(t)),
            6 => T::Div(u, bx(t)),
            7 => T::Pow(bx(t), bx(int(rng.int(-6, 30) as i128))),
            _ => T::Add(bx(t), u),
        };
    }
    t
}
/// the formula of a case: what it means, the names of its variables, its text
fn formula(rng: &mut Rng) -> (T, Prof, Vec<String>, String) {
    let p = *rng.pick(&PROFS);
    let max = if rng.chance(1, 5) { 24 } else { 10 };
    let n = 1 + rng.us(max);
    let mut t = gen(rng, p, n);
    no_log_base(&mut t);
    if rng.chance(1, 8) {
        t = numbers(rng);
    } else if rng.chance(1, 12) {
        let big = rng.next() as i64 as i128 >> rng.us(50);
        t = match rng.us(3) {
            0 => T::Add(bx(int(big)), bx(t)),
            1 => T::Mul(bx(t), bx(int(big))),
            _ => T::Sub(bx(t), bx(int(big))),
        }
    }
    if rng.chance(1, 20) {
        t = match rng.us(3) {
            0 => T::Add(bx(t), bx(T::Undef)),
            1 => T::Mul(bx(T::Undef), bx(t)),
            _ => T::Sub(bx(t), bx(T::Undef)),
        }
    }
    let mut names: Vec<String> = VARS.iter().map(|v| v.to_string()).collect();
    if rng.chance(1, 4) {
        let mut pool = NAMES.to_vec();
        rng.shuffle(&mut pool);
        for (n, new) in names.iter_mut().zip(pool) {
            *n = new.to_string();
        }
    }
    let mut pr = Printer { rng, names: names.clone() };
    let s = pr.go(&t);
    (t, p, names, s)
}
fn has_undef_t(t: &T) -> bool {
    format!("{t}").contains("undef")
}
pub fn source(seed: u64, n: u64) -> String {
    let mut s = String::from("pub static TABLE: &[(&str, fn() -> calcu_rs::Expr)] = &[\n");
    for idx in 0..n {
        let mut rng = Rng::for_case(seed, "C20", idx);
        let (_, _, _, text) = formula(&mut rng);
        s.push_str(&format!("(r#\"{text}\"#, || calcu_rs::expr!({text})),\n"));
    }
    s.push_str("];\n");
    s
}

fn run(cx: &mut Cx, rng: &mut Rng) -> Res {
    let Some(table) = TABLE.get() else { return fail("harness", "C20 runs in the program mac") };
    let (t, p, names, text) = formula(rng);
    let Some((s, make)) = table.get(cx.idx as usize) else { return skip("not compiled") };
    if *s != text {
        return fail("harness", format!("{s} compiled, {text} expected"));
    }
    cx.input = format!("expr!({text}) meaning {t}");
    let e = cx.call("expr!", make)?;
    let mut extra = vec![];
    any(&e, &mut |x| {
        if let Atom::Var(v) = x.atom() {
            if !names.contains(&v.to_string()) {
                extra.push(v.to_string())
            }
        }
        false
    });
    if !extra.is_empty() {
        return fail("expr!: unknown variable", format!("{extra:?} in {}", skel(&e)));
    }
    // (a product left as it is, 0 * 1 say, is not seen to be 0 by the constructors)
    if !matches!(t, T::Rat(..)) && !text.contains("_raw") {
        if let Some(v) = numeric(&t, 160) {
            let r = cx.call("reduce", || e.reduce())?;
            match &v {
                V::Undef if is_undef(&r) => cx.count("undefined numbers"),
                // the constructors leave powers of fractions to reduce: 0 * (a power not yet known to be undefined) is 0
                V::Undef if lazy_power(&t) => return skip("undefined power not folded by the constructors"),
                V::Undef => return fail("expr!: undefined formula", format!("{t} is undefined but {} reduces to {}", skel(&e), skel(&r))),
                V::Num(q) => {
                    match r.atom() {
                        Atom::Rational(x) if *q == Q::new(x.numer().into(), x.denom().into()).unwrap() => cx.count("numbers"),
                        Atom::Rational(_) | Atom::Undef => return fail("expr!: another number", format!("{t} is {q} but {} reduces to {}", skel(&e), skel(&r))),
                        // a power of 0, or one beyond the integers: left as it is; judged by its value, below
                        _ => cx.count("numbers not folded"),
                    }
                }
            }
            if v == V::Undef {
                cx.seen(&text);
                return Ok(());
            }
        }
    }
    if has_undef_t(&t) {
        if !has_undef(&e) {
            return fail("expr!: undef lost", skel(&e));
        }
        cx.count("undefined");
        cx.seen(&text);
        return Ok(());
    }
    let named = |env: &Env| Env { vals: env.vals.iter().map(|(v, n)| (names[VARS.iter().position(|x| x == v).unwrap()].clone(), n.clone())).collect() };
    let ok = cx.same_fn("expr!", rng, p.neg_env, 4, &|env| t.eval_strict(env), &|env| eval(&e, &named(env)), &|| skel(&e), t.hazard(p.neg_env))?;
    if ok > 0 && t.size() > 2 {
        cx.seen(&text);
        cx.sample(|| format!("expr!({text}) = {}", skel(&e)));
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop { id: "C20", title: "expr! macro", run, quick: 8_000, thorough: 40_000, rule: "random formula (all operators, functions, names, integer notations, spacing, parentheses only where precedence needs them and sometimes elsewhere) compiled with the macro, its value compared with that of the formula at random points; non-trivial: distinct text of a formula of more than 2 nodes compared at a point at least once", ..DEF }]
}
