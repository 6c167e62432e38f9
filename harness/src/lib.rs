pub mod cx;
pub mod eval;
pub mod num;
pub mod poly;
pub mod props;
pub mod rng;
pub mod tree;

use cx::*;
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, Ordering::Relaxed};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[global_allocator]
pub static GLOBAL: Mon = Mon;

const SHARDS: u64 = 8;
const STACK: usize = 64 << 20;

fn arg(args: &[String], k: &str) -> Option<String> {
    args.iter().position(|a| a == k).and_then(|i| args.get(i + 1).cloned())
}
fn tier_of(s: &str) -> Tier {
    if s == "thorough" {
        Tier::Thorough
    } else {
        Tier::Quick
    }
}
fn tier_name(t: Tier) -> &'static str {
    match t {
        Tier::Quick => "quick",
        Tier::Thorough => "thorough",
    }
}

/// the command line of `vmon` and of the generated `mac` program
pub fn run() -> ! {
    let args: Vec<String> = std::env::args().collect();
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("check") => check(&args),
        Some("worker") => worker(&args),
        Some("replay") => replay(&args),
        Some("list") => {
            for p in props::all() {
                println!("{} quick={} thorough={} {}", p.id, p.quick, p.thorough, p.title);
            }
            0
        }
        Some("gen-mac") => {
            let p = props::find("C20").unwrap();
            let seed = args[2].parse().unwrap();
            let n = args[3].parse().unwrap_or(if tier_of(&args[3]) == Tier::Thorough { p.thorough } else { p.quick });
            print!("{}", props::mac::source(seed, n));
            0
        }
        _ => {
            eprintln!("usage: vmon check|worker|replay|list ...");
            2
        }
    };
    std::process::exit(code);
}

fn big_stack<T: Send + 'static>(f: impl FnOnce() -> T + Send + 'static) -> T {
    let size = std::env::var("VMON_STACK").ok().and_then(|s| s.parse().ok()).unwrap_or(STACK);
    std::thread::Builder::new().stack_size(size).spawn(f).unwrap().join().unwrap()
}

// ------------------------------------------------------------------------- worker
fn cpu_ms() -> u64 {
    let s = std::fs::read_to_string("/proc/self/stat").unwrap_or_default();
    let rest = s.rsplit(')').next().unwrap_or("");
    let f: Vec<&str> = rest.split_whitespace().collect();
    let t = |i: usize| f.get(i).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
    (t(11) + t(12)) * 10
}

fn worker(args: &[String]) -> i32 {
    let prop = arg(args, "--prop").unwrap();
    let seed: u64 = arg(args, "--seed").unwrap().parse().unwrap();
    let tier = tier_of(&arg(args, "--tier").unwrap());
    let start: u64 = arg(args, "--start").unwrap().parse().unwrap();
    let end: u64 = arg(args, "--end").unwrap().parse().unwrap();
    let stride: u64 = arg(args, "--stride").unwrap().parse().unwrap();
    let out = PathBuf::from(arg(args, "--out").unwrap());
    let max_fail: u64 = arg(args, "--max-fail").unwrap().parse().unwrap();
    let deadline: u64 = arg(args, "--deadline").unwrap().parse().unwrap();
    install_hook();
    let p = props::find(&prop).expect("unknown property");
    let beat = Arc::new(std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(true).open(out.with_extension("beat")).unwrap());
    let cpu_limit = p.cpu_ms;
    let fuel_factor: u64 = std::env::var("VMON_FUELX").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    {
        let beat = beat.clone();
        std::thread::spawn(move || {
            let (mut last, mut since) = (u64::MAX, 0);
            loop {
                std::thread::sleep(Duration::from_millis(250));
                let mut b = [0u8; 9];
                let _ = beat.read_at(&mut b, 0);
                let idx = u64::from_le_bytes(b[..8].try_into().unwrap());
                let now = cpu_ms();
                if idx != last {
                    last = idx;
                    since = now;
                } else if now - since > cpu_limit {
                    hard_exit(EXIT_CPU);
                }
            }
        });
    }
    big_stack(move || {
        let t0 = Instant::now();
        let mut cx = Cx::new(&prop, seed, tier);
        {
            let beat = beat.clone();
            cx.phase = Box::new(move |ph| {
                let _ = beat.write_at(&[ph], 8);
            });
        }
        let mut vio = std::fs::File::create(out.with_extension("vio")).unwrap();
        let mut fails = 0u64;
        let mut done = 0u64;
        let mut skips: BTreeMap<String, u64> = BTreeMap::new();
        let mut idx = start;
        let mut next_flush = Instant::now() + Duration::from_millis(30);
        let mut hash_file = std::fs::File::create(out.with_extension("hash")).unwrap();
        let mut flush = |cx: &mut Cx, done: u64, skips: &BTreeMap<String, u64>, next: u64| {
            let h: Vec<u8> = cx.fresh.drain(..).flat_map(|x| x.to_le_bytes()).collect();
            hash_file.write_all(&h).unwrap();
            let j = json!({"done": done, "next": next, "counters": cx.counters, "skips": skips, "samples": cx.samples});
            std::fs::write(out.with_extension("json.tmp"), j.to_string()).unwrap();
            std::fs::rename(out.with_extension("json.tmp"), out.with_extension("json")).unwrap();
        };
        while idx < end {
            let _ = beat.write_at(&idx.to_le_bytes(), 0);
            FUEL.store(ALLOCS.load(Relaxed) + p.fuel * fuel_factor, Relaxed);
            let mut rng = cx.begin(idx);
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (p.run)(&mut cx, &mut rng)));
            FUEL.store(u64::MAX, Relaxed);
            (cx.phase)(PH_ORACLE);
            done += 1;
            match r {
                Ok(Ok(())) => (),
                Ok(Err(Out::Skip(why))) => *skips.entry(why).or_default() += 1,
                Ok(Err(Out::Fail { sig, msg })) => {
                    fails += 1;
                    let j = json!({"idx": idx, "sig": sig, "msg": msg, "input": cx.input});
                    writeln!(vio, "{j}").unwrap();
                }
                Err(_) => {
                    let (m, l) = PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
                    if l.contains("/repo/") && !is_overflow(&m) {
                        // a query made outside a monitored call
                        fails += 1;
                        let m: String = m.chars().take(160).collect();
                        let j = json!({"idx": idx, "sig": format!("panic at {l}"), "msg": format!("panicked: {m} at {l}"), "input": cx.input});
                        writeln!(vio, "{j}").unwrap();
                    } else {
                        *skips.entry(format!("harness panic: {m} at {l}")).or_default() += 1;
                    }
                }
            }
            idx += stride;
            if fails >= max_fail || t0.elapsed().as_secs() >= deadline {
                break;
            }
            if Instant::now() > next_flush {
                flush(&mut cx, done, &skips, idx);
                next_flush = Instant::now() + Duration::from_millis(30);
            }
        }
        flush(&mut cx, done, &skips, idx);
    });
    0
}

// ------------------------------------------------------------------------- parent
#[derive(Default)]
struct Agg {
    done: u64,
    counters: BTreeMap<String, u64>,
    skips: BTreeMap<String, u64>,
    samples: Vec<String>,
    hashes: HashSet<u64>,
    vios: Vec<Value>,
    crashes: BTreeMap<String, u64>,
}
const RERUNS: &str = "repeated with the usual stack and a larger budget";
impl Agg {
    fn exits(&self) -> u64 {
        self.crashes.iter().filter(|(k, _)| *k != RERUNS).map(|(_, n)| n).sum()
    }
    fn absorb(&mut self, out: &Path) {
        if let Ok(s) = std::fs::read_to_string(out.with_extension("json")) {
            if let Ok(j) = serde_json::from_str::<Value>(&s) {
                self.done += j["done"].as_u64().unwrap_or(0);
                for (dst, k) in [(&mut self.counters, "counters"), (&mut self.skips, "skips")] {
                    for (k, v) in j[k].as_object().unwrap() {
                        *dst.entry(k.clone()).or_default() += v.as_u64().unwrap();
                    }
                }
                for s in j["samples"].as_array().unwrap() {
                    self.samples.push(s.as_str().unwrap().to_string());
                }
            }
        }
        if let Ok(b) = std::fs::read(out.with_extension("hash")) {
            for c in b.chunks_exact(8) {
                self.hashes.insert(u64::from_le_bytes(c.try_into().unwrap()));
            }
        }
        if let Ok(s) = std::fs::read_to_string(out.with_extension("vio")) {
            self.vios.extend(s.lines().filter_map(|l| serde_json::from_str(l).ok()));
        }
        for e in ["json", "json.tmp", "hash", "vio", "beat"] {
            let _ = std::fs::remove_file(out.with_extension(e));
        }
    }
}

/// one case again, with 8 MB of stack and a larger budget: does it overflow the stack?
fn overflows(exe: &Path, scratch: &Path, id: &str, seed: u64, tier: Tier, idx: u64) -> bool {
    let out = scratch.join(format!("again-{idx}.x"));
    let o = Command::new(exe)
        .args(["worker", "--prop", id, "--seed", &seed.to_string(), "--tier", tier_name(tier)])
        .args(["--start", &idx.to_string(), "--end", &(idx + 1).to_string(), "--stride", "1", "--max-fail", "1", "--deadline", "60"])
        .arg("--out")
        .arg(&out)
        .envs([("VMON_STACK", (8 << 20).to_string()), ("VMON_FUELX", "2".to_string())])
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(Stdio::piped())
        .output()
        .expect("spawn worker");
    let beat = std::fs::read(out.with_extension("beat")).unwrap_or_default();
    for e in ["json", "json.tmp", "hash", "vio", "beat"] {
        let _ = std::fs::remove_file(out.with_extension(e));
    }
    beat.get(8) == Some(&PH_OP) && String::from_utf8_lossy(&o.stderr).contains("overflowed its stack")
}

fn check(args: &[String]) -> i32 {
    let t0 = Instant::now();
    let id = args.get(2).cloned().unwrap_or_default();
    let Some(p) = props::find(&id) else {
        eprintln!("unknown property {id}");
        return 2;
    };
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let tier = tier_of(&arg(args, "--tier").or(std::env::var("VERIF_TIER").ok()).unwrap_or_default());
    let explore = std::env::var("VMON_ALL").is_ok();
    let root = PathBuf::from(std::env::var("VMON_ROOT").unwrap_or("/verif".into()));
    let cases = std::env::var("VMON_CASES").ok().and_then(|s| s.parse().ok()).unwrap_or(match tier {
        Tier::Quick => p.quick,
        Tier::Thorough => p.thorough,
    });
    let deadline: u64 = match tier {
        Tier::Quick => 240,
        Tier::Thorough => 3000,
    };
    let exe = std::env::current_exe().unwrap();
    let scratch = root.join("scratch").join(format!("{}-{}", id, std::process::id()));
    std::fs::create_dir_all(&scratch).unwrap();
    let agg = Arc::new(Mutex::new(Agg::default()));
    let stop = Arc::new(AtomicBool::new(false));
    let threads: Vec<_> = (0..SHARDS)
        .map(|shard| {
            let (exe, scratch, agg, stop, id) = (exe.clone(), scratch.clone(), agg.clone(), stop.clone(), id.clone());
            std::thread::spawn(move || {
                let mut start = shard;
                let mut gen = 0;
                while start < cases && !stop.load(Relaxed) && t0.elapsed().as_secs() < deadline {
                    let out = scratch.join(format!("s{shard}-{gen}.x"));
                    gen += 1;
                    let child = Command::new(&exe)
                        .args(["worker", "--prop", &id, "--seed", &seed.to_string(), "--tier", tier_name(tier)])
                        .args(["--start", &start.to_string(), "--end", &cases.to_string(), "--stride", &SHARDS.to_string()])
                        .args(["--max-fail", if explore { "1000000" } else { "3" }])
                        .args(["--deadline", &(deadline.saturating_sub(t0.elapsed().as_secs())).to_string()])
                        .arg("--out")
                        .arg(&out)
                        .stdin(Stdio::null())
                        .stdout(Stdio::null())
                        .stderr(Stdio::piped())
                        .spawn()
                        .expect("spawn worker");
                    let o = child.wait_with_output().unwrap();
                    let beat = std::fs::read(out.with_extension("beat")).unwrap_or_default();
                    let mut a = agg.lock().unwrap();
                    a.absorb(&out);
                    if o.status.success() {
                        if a.vios.len() >= 3 && !explore {
                            stop.store(true, Relaxed);
                        }
                        break;
                    }
                    if beat.len() < 9 {
                        a.crashes.entry("worker did not start".into()).and_modify(|n| *n += 1).or_insert(1);
                        if gen > 3 {
                            break;
                        }
                        continue;
                    }
                    let idx = u64::from_le_bytes(beat[..8].try_into().unwrap());
                    let phase = beat[8];
                    let err = String::from_utf8_lossy(&o.stderr);
                    let what = match (o.status.code(), o.status.signal()) {
                        (Some(EXIT_FUEL), _) => "allocation budget exceeded".to_string(),
                        (Some(EXIT_MEM), _) => "memory budget exceeded".to_string(),
                        (Some(EXIT_CPU), _) => "cpu budget exceeded".to_string(),
                        (_, Some(_)) if err.contains("overflowed its stack") => "stack overflow".to_string(),
                        (c, s) => format!("killed (code {c:?} signal {s:?}) {}", err.lines().last().unwrap_or("")),
                    };
                    let budget = what.ends_with("budget exceeded");
                    let ph = ["setup", "op", "oracle"][(phase as usize).min(2)];
                    let mem_kill = o.status.signal() == Some(9);
                    // large, or endless? An endless recursion overflows the stack a program usually has.
                    let endless = budget && phase == PH_OP && !p.budget_is_violation && {
                        let again = a.crashes.get(RERUNS).copied().unwrap_or(0) < 32;
                        if again {
                            *a.crashes.entry(RERUNS.into()).or_default() += 1;
                        }
                        drop(a);
                        let r = again && overflows(&exe, &scratch, &id, seed, tier, idx);
                        a = agg.lock().unwrap();
                        r
                    };
                    let what = if endless { "stack overflow".to_string() } else { what };
                    let budget = budget && !endless;
                    a.crashes.entry(format!("{what} in {ph}")).and_modify(|n| *n += 1).or_insert(1);
                    if phase == PH_OP && !mem_kill && (!budget || p.budget_is_violation || std::env::var("VMON_BUDGET").is_ok()) {
                        let v = json!({"idx": idx, "sig": what, "msg": format!("the call under test did not return: {what}"), "input": "(see replay)"});
                        a.vios.push(v);
                    }
                    if a.vios.len() >= if budget { 3 } else { 12 } && !explore || a.exits() > 400.max(a.done / 50) {
                        stop.store(true, Relaxed);
                        break;
                    }
                    start = idx + SHARDS;
                }
            })
        })
        .collect();
    for t in threads {
        t.join().unwrap();
    }
    let _ = std::fs::remove_dir_all(&scratch);
    let mut agg = Arc::try_unwrap(agg).ok().unwrap().into_inner().unwrap();

    // directed scenarios and other one-off parts of the check run in the parent's children too
    let mut violations = 0;
    let mut broken = false;
    let known = known_findings(&root, &id);
    let mut shown: HashSet<String> = HashSet::new();
    let mut by_sig: BTreeMap<String, (u64, Value)> = BTreeMap::new();
    for v in agg.vios.drain(..) {
        let sig = v["sig"].as_str().unwrap_or("").to_string();
        let len = v["input"].as_str().unwrap_or("").len();
        let e = by_sig.entry(sig).or_insert((0, v.clone()));
        e.0 += 1;
        if len < e.1["input"].as_str().unwrap_or("").len() {
            e.1 = v;
        }
    }
    let rdir = root.join("replays");
    for (sig, (n, v)) in &by_sig {
        let text = format!("{sig} {} {}", v["msg"].as_str().unwrap_or(""), v["input"].as_str().unwrap_or(""));
        if let Some(k) = known.iter().find(|k| text.contains(k.as_str())) {
            if shown.insert(k.clone()) {
                println!("KNOWN-FINDING: property={id} {k}");
            }
            continue;
        }
        if sig == "harness" {
            println!("HARNESS: {n}x {} {}", v["msg"], v["input"]);
            broken = true;
            continue;
        }
        violations += n;
        let mut v = v.clone();
        let idx = v["idx"].as_u64().unwrap();
        std::fs::create_dir_all(&rdir).unwrap();
        let rp = rdir.join(format!("{id}-{seed}-{idx}.json"));
        let j = json!({"property": id, "seed": seed, "idx": idx, "tier": tier_name(tier), "sig": sig,
            "message": v["msg"], "input": v["input"], "how": format!("{} replay {}", exe.display(), rp.display())});
        std::fs::write(&rp, serde_json::to_string_pretty(&j).unwrap()).unwrap();
        if v["input"] == "(see replay)" {
            // the worker died: run the case once more to learn what it was doing
            if let Ok(o) = Command::new("timeout").args(["-s", "KILL", "30"]).arg(&exe).arg("replay").arg(&rp).env("VMON_TRACE", "1").output() {
                let s = String::from_utf8_lossy(&o.stdout).to_string();
                if let Some(l) = s.lines().filter(|l| l.starts_with("input: ")).last() {
                    v["input"] = json!(&l[7..]);
                }
            }
        }
        println!("-- {n}x {sig}\n   input: {}\n   {}", v["input"].as_str().unwrap_or(""), v["msg"].as_str().unwrap_or(""));
        println!("VIOLATION property={id} replay={}", rp.display());
    }
    let wall = t0.elapsed().as_secs_f64();
    agg.samples.sort_by_key(|s| std::cmp::Reverse(s.len().min(160)));
    agg.samples.truncate(6);
    let ev = json!({
        "property": id, "tier": tier_name(tier), "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": agg.done,
            "distinct_nontrivial": agg.hashes.len(),
            "rule": p.rule,
            "samples": agg.samples,
            "events": agg.counters,
            "skipped": agg.skips,
            "worker_exits": agg.crashes,
            "planned_cases": cases,
        },
        "assumptions": p.assumptions,
        "wall_s": (wall * 100.0).round() / 100.0,
        "violations": violations,
    });
    let edir = root.join("evidence");
    std::fs::create_dir_all(&edir).unwrap();
    std::fs::write(edir.join(format!("{id}.json")), serde_json::to_string_pretty(&ev).unwrap()).unwrap();
    println!(
        "{id} {}: {} cases, {} distinct non-trivial observations, {} skipped, {} worker exits, {violations} violations, {wall:.1}s",
        tier_name(tier), agg.done, agg.hashes.len(), agg.skips.values().sum::<u64>(), agg.exits()
    );
    if explore {
        println!("{}", serde_json::to_string_pretty(&ev["coverage"]).unwrap());
    }
    if violations > 0 {
        return 1;
    }
    if broken {
        return 2;
    }
    // a check that observed next to nothing has not decided anything
    if agg.done == 0 || agg.hashes.is_empty() {
        println!("INCONCLUSIVE: nothing was observed");
        return 3;
    }
    0
}

/// lines "known: property=<id> <text that identifies the failing input or call site>"
fn known_findings(root: &Path, id: &str) -> Vec<String> {
    let s = std::fs::read_to_string(root.join("known-findings.txt")).unwrap_or_default();
    let pre = format!("known: property={id} ");
    s.lines().filter_map(|l| l.strip_prefix(&pre)).map(|s| s.trim().to_string()).filter(|s| !s.is_empty()).collect()
}

fn replay(args: &[String]) -> i32 {
    let f = std::fs::read_to_string(&args[2]).expect("replay file");
    let j: Value = serde_json::from_str(&f).unwrap();
    let id = j["property"].as_str().unwrap().to_string();
    let (seed, idx) = (j["seed"].as_u64().unwrap(), j["idx"].as_u64().unwrap());
    let tier = tier_of(j["tier"].as_str().unwrap());
    install_hook();
    let p = props::find(&id).unwrap();
    big_stack(move || {
        let mut cx = Cx::new(&id, seed, tier);
        FUEL.store(ALLOCS.load(Relaxed) + p.fuel, Relaxed);
        cx.trace = std::env::var("VMON_TRACE").is_ok();
        let mut rng = cx.begin(idx);
        let r = (p.run)(&mut cx, &mut rng);
        FUEL.store(u64::MAX, Relaxed);
        println!("input: {}", cx.input);
        match r {
            Err(Out::Fail { sig, msg }) => {
                println!("{sig}\n{msg}");
                println!("VIOLATION property={id} replay={}", "given");
                1
            }
            r => {
                println!("{r:?}");
                0
            }
        }
    })
}
