//! Per-case context: monitored calls, event counters, coverage fingerprints, samples.
use crate::eval::*;
use crate::num::*;
use crate::rng::{hash_str, mix, Rng};
use crate::tree;
use calcu_rs::Expr;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering::Relaxed};

// ---------------------------------------------------------------- allocator monitor
pub struct Mon;
pub static ALLOCS: AtomicU64 = AtomicU64::new(0);
pub static LIVE: AtomicI64 = AtomicI64::new(0);
pub static LIVE_BLOCKS: AtomicI64 = AtomicI64::new(0);
pub static FUEL: AtomicU64 = AtomicU64::new(u64::MAX);
extern "C" {
    fn _exit(code: i32) -> !;
}
pub const EXIT_FUEL: i32 = 77;
pub const EXIT_MEM: i32 = 78;
pub const EXIT_CPU: i32 = 79;
pub fn hard_exit(code: i32) -> ! {
    unsafe { _exit(code) }
}
thread_local! {
    static T_ALLOCS: Cell<u64> = const { Cell::new(0) };
    static T_LIVE: Cell<i64> = const { Cell::new(0) };
    static T_BLOCKS: Cell<i64> = const { Cell::new(0) };
}
fn note(bytes: i64, blocks: i64, allocs: u64) {
    let _ = T_LIVE.try_with(|c| c.set(c.get() + bytes));
    let _ = T_BLOCKS.try_with(|c| c.set(c.get() + blocks));
    let _ = T_ALLOCS.try_with(|c| c.set(c.get() + allocs));
}
/// live bytes and blocks that this thread allocated minus those it released
pub fn thread_mem() -> (i64, i64) {
    (T_LIVE.with(|c| c.get()), T_BLOCKS.with(|c| c.get()))
}
pub fn thread_allocs() -> u64 {
    T_ALLOCS.with(|c| c.get())
}
unsafe impl GlobalAlloc for Mon {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let n = ALLOCS.fetch_add(1, Relaxed);
        if n > FUEL.load(Relaxed) {
            hard_exit(EXIT_FUEL)
        }
        LIVE_BLOCKS.fetch_add(1, Relaxed);
        note(l.size() as i64, 1, 1);
        if LIVE.fetch_add(l.size() as i64, Relaxed) > (3i64 << 30) {
            hard_exit(EXIT_MEM)
        }
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size() as i64, Relaxed);
        LIVE_BLOCKS.fetch_sub(1, Relaxed);
        note(-(l.size() as i64), -1, 0);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        LIVE.fetch_add(n as i64 - l.size() as i64, Relaxed);
        ALLOCS.fetch_add(1, Relaxed);
        note(n as i64 - l.size() as i64, 0, 1);
        System.realloc(p, l, n)
    }
}

// ---------------------------------------------------------------- outcomes
#[derive(Debug, Clone)]
pub enum Out {
    Skip(String),
    Fail { sig: String, msg: String },
}
pub type Res<T = ()> = Result<T, Out>;
pub fn fail<T>(sig: impl Into<String>, msg: impl Into<String>) -> Res<T> {
    Err(Out::Fail { sig: sig.into(), msg: msg.into() })
}
pub fn skip<T>(why: impl Into<String>) -> Res<T> {
    Err(Out::Skip(why.into()))
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

thread_local! {
    pub static PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}
pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "<non-string panic>".into());
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let _ = PANIC.try_with(|p| *p.borrow_mut() = Some((msg, loc)));
    }));
}
/// i128 arithmetic leaving its range: outside the stated domain of (almost) every property
pub fn is_overflow(msg: &str) -> bool {
    msg.contains("with overflow") || msg.contains("attempt to negate")
}

/// a monitored result of calling the code under test
pub enum Ret<T> {
    Val(T),
    Overflow,
    Panic(String),
}
pub fn guard<T>(f: impl FnOnce() -> T) -> Ret<T> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ret::Val(v),
        Err(_) => {
            let (msg, loc) = PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
            if msg.starts_with("ORACLE") || loc.starts_with("src/") && loc.contains("harness") {
                return Ret::Panic(format!("HARNESS BUG {msg} at {loc}"));
            }
            if is_overflow(&msg) {
                Ret::Overflow
            } else {
                let loc = loc.rsplit_once("/repo/").map(|x| x.1.to_string()).unwrap_or(loc);
                let m: String = msg.chars().take(160).collect();
                Ret::Panic(format!("{m} at {loc}"))
            }
        }
    }
}

pub struct Cx {
    pub prop: String,
    pub seed: u64,
    pub idx: u64,
    pub tier: Tier,
    pub counters: BTreeMap<String, u64>,
    pub hashes: HashSet<u64>,
    /// hashes not yet written out
    pub fresh: Vec<u64>,
    pub samples: Vec<String>,
    pub input: String,
    pub phase: Box<dyn Fn(u8)>,
    pub trace: bool,
    case_nontrivial: bool,
}
pub const PH_SETUP: u8 = 0;
pub const PH_OP: u8 = 1;
pub const PH_ORACLE: u8 = 2;

impl Cx {
    pub fn new(prop: &str, seed: u64, tier: Tier) -> Cx {
        Cx {
            prop: prop.into(),
            seed,
            idx: 0,
            tier,
            counters: Default::default(),
            hashes: Default::default(),
            fresh: vec![],
            samples: vec![],
            input: String::new(),
            phase: Box::new(|_| ()),
            trace: false,
            case_nontrivial: false,
        }
    }
    pub fn begin(&mut self, idx: u64) -> Rng {
        self.idx = idx;
        self.input.clear();
        self.case_nontrivial = false;
        (self.phase)(PH_SETUP);
        Rng::for_case(self.seed, &self.prop, idx)
    }
    pub fn count(&mut self, k: &str) {
        self.add(k, 1)
    }
    pub fn add(&mut self, k: &str, n: u64) {
        if let Some(v) = self.counters.get_mut(k) {
            *v += n
        } else {
            self.counters.insert(k.to_string(), n);
        }
    }
    /// register one distinct, non-trivial observation
    pub fn seen(&mut self, key: &str) {
        self.case_nontrivial = true;
        self.note(hash_str(key));
    }
    pub fn seen_h(&mut self, h: u64) {
        self.case_nontrivial = true;
        self.note(mix(h));
    }
    fn note(&mut self, h: u64) {
        if self.hashes.insert(h) {
            self.fresh.push(h);
        }
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.samples.len() < 3 && self.idx % 7 < 2 || self.samples.is_empty() {
            let s: String = f().chars().take(400).collect();
            self.samples.push(s);
        }
    }
    /// Build an input. Any trouble here is a skip: constructing inputs is judged elsewhere.
    pub fn setup<T>(&mut self, f: impl FnOnce() -> T) -> Res<T> {
        (self.phase)(PH_SETUP);
        match guard(f) {
            Ret::Val(v) => Ok(v),
            Ret::Overflow => skip("overflow in setup"),
            Ret::Panic(m) => {
                if m.starts_with("HARNESS") {
                    return fail("harness", m);
                }
                skip(format!("setup panic: {m}"))
            }
        }
    }
    /// A monitored call into the code under test.
    pub fn call<T>(&mut self, op: &str, f: impl FnOnce() -> T) -> Res<T> {
        (self.phase)(PH_OP);
        self.add(&format!("calls.{op}"), 1);
        if self.trace {
            println!("input: {} |> {op}", self.input);
        }
        let r = guard(f);
        (self.phase)(PH_ORACLE);
        match r {
            Ret::Val(v) => Ok(v),
            Ret::Overflow => {
                self.count("skip.i128-overflow");
                skip("overflow")
            }
            Ret::Panic(m) => fail(format!("panic in {op} at {}", m.rsplit(" at ").next().unwrap_or("")), format!("{op} panicked: {m}")),
        }
    }
    /// Compare the value of `res` with `orig` at random points of the domain.
    /// Returns how many points were decided.
    pub fn same_value(
        &mut self,
        op: &str,
        rng: &mut Rng,
        neg: bool,
        npts: usize,
        orig: &dyn Fn(&Env) -> R<N>,
        res: &Expr,
        hazard: bool,
    ) -> Res<usize> {
        self.same_fn(op, rng, neg, npts, orig, &|env| eval(res, env), &|| skel(res), hazard)
    }
    pub fn same_fn(
        &mut self,
        op: &str,
        rng: &mut Rng,
        neg: bool,
        npts: usize,
        orig: &dyn Fn(&Env) -> R<N>,
        res: &dyn Fn(&Env) -> R<N>,
        show: &dyn Fn() -> String,
        hazard: bool,
    ) -> Res<usize> {
        (self.phase)(PH_ORACLE);
        let (mut ok, mut undef, mut divz, mut tries) = (0usize, 0usize, 0usize, 0usize);
        let mut last = None;
        while ok + undef < npts && tries < npts * 3 + 2 {
            tries += 1;
            let env = tree::env(rng, neg && tries % 3 != 0);
            let v = match orig(&env) {
                Ok(v) => v,
                Err(_) => {
                    self.count("points.out-of-domain");
                    continue;
                }
            };
            match res(&env) {
                Ok(w) => match compare(&v, &w) {
                    Cmp::Same => {
                        ok += 1;
                        self.count("points.compared");
                    }
                    Cmp::Unknown => self.count("points.undecided"),
                    Cmp::Differ => {
                        return fail(
                            format!("{op}: value changed"),
                            format!("{op}: value changed from {v} to {w} at {}; result {}", env.show(), show()),
                        )
                    }
                },
                Err(Stop::UndefAtom) => {
                    return fail(
                        format!("{op}: undef"),
                        format!("{op}: result contains undef but the value is {v} at {}; result {}", env.show(), show()),
                    )
                }
                Err(Stop::DivZero) => {
                    divz += 1;
                    undef += 1;
                    last = Some(env.show());
                }
                Err(Stop::Undefined) => {
                    undef += 1;
                    last = Some(env.show());
                }
                Err(_) => self.count("points.undecided"),
            }
        }
        if ok == 0 && undef >= 2 && (divz > 0 || !hazard) {
            let kind = if divz > 0 { "division by zero" } else { "real-undefined" };
            return fail(
                format!("{op}: result undefined ({kind})"),
                format!("{op}: result has no value ({kind}) at any of {undef} points where the input has one, e.g. {}; result {}", last.unwrap(), show()),
            );
        }
        self.add("points.result-undefined", undef as u64);
        Ok(ok)
    }
}
