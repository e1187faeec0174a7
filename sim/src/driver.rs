//! Search, minimisation, replay and reporting.

use crate::alloc::SutFlag;
use crate::ctx::{ctx, per, Ctx};
use crate::rng::{hash_str, mix};
use crate::run::{run, WORLDS};
use crate::sched::{self, Policy};
use crate::spec::{Op, Spec, K};
use crate::stats::stats;
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::io::{BufRead, BufReader, Write};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::*};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub const WORKERS: u64 = 8;

const NO_END: &str = "the run does not end (no progress)";

static CURRENT: Mutex<Option<Spec>> = Mutex::new(None);

extern "C" {
    fn _exit(code: i32) -> !;
}

fn emit(line: &str) {
    let mut o = std::io::stdout().lock();
    let _ = o.write_all(line.as_bytes());
    let _ = o.write_all(b"\n");
    let _ = o.flush();
}

/// Ends the process with a report of the violation and of the exact run that led to it
pub fn die_with_violation(msg: &str) -> ! {
    let _f = SutFlag::set(false);
    let spec = CURRENT.lock().ok().and_then(|mut s| s.take()).map(|mut s| {
        if let Some(r) = sched::recorded_so_far() {
            s.sched = Some(Policy::Explicit(r));
        }
        s
    });
    emit(&format!("V {}", json!({"msg": msg, "spec": spec})));
    unsafe { _exit(1) }
}

/// Called at every operation: says now and then that the run makes progress
pub fn beat() {
    static LAST: Mutex<Option<Instant>> = Mutex::new(None);
    let _f = SutFlag::set(false);
    let Ok(mut last) = LAST.lock() else { return };
    if last.map_or(true, |l| l.elapsed() > Duration::from_secs(2)) {
        if last.is_some() {
            emit("H");
        }
        *last = Some(Instant::now());
    }
}

/// The harness itself is wrong
pub fn die_broken(msg: &str) -> ! {
    let _f = SutFlag::set(false);
    emit(&format!("B {msg}"));
    unsafe { _exit(2) }
}

pub fn install() {
    std::panic::set_hook(Box::new(|info| {
        let _f = SutFlag::set(false);
        let m = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let loc = info.location().map(|l| (l.file().to_string(), l.line()));
        let own = loc.as_ref().map_or(false, |l| l.0.starts_with("src/") && !l.0.contains("/repo/"));
        if ctx().verbose {
            eprintln!("   panic: {m} at {loc:?}");
            crate::ctx::backtrace();
        }
        if own {
            // The harness has no business panicking, whatever the tree does in a run; if it does, the tree has
            // behaved in a way that the oracles did not foresee.
            let msg = format!("the checker could not make sense of the tree: {m} at {loc:?}");
            if CURRENT.lock().map_or(false, |c| c.is_some()) {
                die_with_violation(&msg);
            }
            die_broken(&msg);
        }
        per().last_panic = m;
    }));
    #[cfg(sherman_sim)]
    sherman::sim::set_hook(|op, addr| {
        let _f = SutFlag::set(false);
        let _ = (op, addr);
        sched::point(sched::Pt::Count);
    });
}

pub fn run_seed(prop: &str, base: u64, i: u64) -> u64 {
    mix(base ^ hash_str(prop)).wrapping_add(mix(i))
}

/// Run `i`; every second one is for the build without debug assertions
fn nth(prop: &str, thorough: bool, base: u64, i: u64) -> Spec {
    let mut s = crate::gen::gen(prop, thorough, run_seed(prop, base, i));
    s.rel = i % 2 == 1;
    s
}

/// The simulator built with (`sim`) or without (`simrel`) debug assertions
fn exe(rel: bool) -> std::path::PathBuf {
    let own = std::env::current_exe().expect("harness: own path");
    let target = own.parent().and_then(|p| p.parent()).expect("harness: own path");
    target.join(if rel { "simrel" } else { "sim" }).join("shersim")
}

fn execute(spec: &Spec) -> crate::run::Out {
    *CURRENT.lock().unwrap() = Some(spec.clone());
    run(spec)
}

// ------------------------------------------------------------------ worker

/// worker PROP TIER BASE FIRST STEP END
pub fn worker(a: &[String]) {
    install();
    let (prop, thorough) = (&a[0], a[1] == "thorough");
    let n = |k: usize| a[k].parse::<u64>().unwrap();
    let (base, first, step, count) = (n(2), n(3), n(4), n(5));
    let (mut steps, mut done, mut threaded, mut faulty) = (0, 0u64, 0u64, 0u64);
    let mut hashes: HashSet<u64> = HashSet::new();
    let mut i = first;
    while i < count {
        emit(&format!("R {i}"));
        let spec = nth(prop, thorough, base, i);
        let before: u64 = fault_count();
        let out = execute(&spec);
        let f = fault_count() - before;
        steps += out.steps;
        done += 1;
        threaded += !spec.threads.is_empty() as u64;
        faulty += (f > 0) as u64;
        let ops = spec.init.len() + spec.threads.iter().map(|t| t.len()).sum::<usize>();
        if ops >= 3 {
            hashes.insert(out.hash);
        }
        i += step;
    }
    let s = stats();
    emit(&format!(
        "S {}",
        json!({
            "runs": done, "steps": steps, "threaded": threaded, "faulty": faulty,
            "sum": s.sum, "max": s.max,
            "ops": s.ops.iter().map(|(k, v)| (format!("{k:?}"), *v)).collect::<BTreeMap<_, _>>(),
            "hashes": hashes.iter().map(|h| format!("{h:x}")).collect::<Vec<_>>(),
        })
    ));
}

fn fault_count() -> u64 {
    stats().sum.iter().filter(|(k, _)| k.starts_with("fault:")).map(|x| *x.1).sum()
}

/// exec FILE [-v]
pub fn exec(a: &[String]) -> i32 {
    install();
    let text = std::fs::read_to_string(&a[0]).expect("harness: cannot read run file");
    let v: Value = serde_json::from_str(&text).expect("harness: run file is not JSON");
    let spec: Spec = serde_json::from_value(v.get("spec").cloned().unwrap_or(v)).expect("harness: bad run file");
    if spec.rel == cfg!(debug_assertions) {
        use std::os::unix::process::CommandExt;
        let e = Command::new(exe(spec.rel)).arg("exec").args(a).exec();
        emit(&format!("B cannot start the other build: {e}"));
        return 2;
    }
    Ctx::reset();
    ctx().verbose = a.iter().any(|x| x == "-v");
    let o = execute(&spec);
    emit(&format!("OK {:016x} steps {}", o.hash, o.steps));
    0
}

/// gen PROP BASE INDEX
pub fn gen_cmd(a: &[String]) {
    let (b, i) = (a[1].parse().unwrap(), a[2].parse().unwrap());
    println!("{}", serde_json::to_string_pretty(&nth(&a[0], false, b, i)).unwrap());
}

/// hashes PROP BASE FIRST STEP END: one line per run, to compare executions
pub fn hashes(a: &[String]) {
    install();
    let n = |k: usize| a[k].parse::<u64>().unwrap();
    let mut i = n(2);
    while i < n(4) {
        let spec = crate::gen::gen(&a[0], false, run_seed(&a[0], n(1), i));
        let o = execute(&spec);
        emit(&format!("{i} {:016x} {}", o.hash, o.steps));
        i += n(3);
    }
}

// ------------------------------------------------------------------ one child run

#[derive(Clone, Debug)]
pub struct Fail {
    pub msg: String,
    pub spec: Option<Spec>,
}

/// Message with everything that varies between equivalent failures removed
pub fn class(m: &str) -> String {
    let m = m.split(" [during").next().unwrap();
    let mut out = String::new();
    let mut depth = 0;
    let mut last = ' ';
    for c in m.chars() {
        match c {
            '[' | '{' | '(' => depth += 1,
            ']' | '}' | ')' => depth -= 1,
            _ if depth > 0 => {}
            '0'..='9' => {
                if last != '#' {
                    out.push('#');
                    last = '#';
                }
            }
            c => {
                out.push(c);
                last = c;
            }
        }
    }
    out.split("Seen").next().unwrap().chars().take(60).collect()
}

/// Runs the spec in a fresh process
fn child(spec: &Spec, file: &str, timeout: Duration) -> Result<Option<Fail>, String> {
    std::fs::write(file, serde_json::to_vec(spec).unwrap()).map_err(|e| e.to_string())?;
    let exe = std::env::current_exe().map_err(|e| e.to_string())?;
    let mut c = Command::new(exe)
        .args(["exec", file])
        .stdin(Stdio::null())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .map_err(|e| e.to_string())?;
    let out = c.stdout.take().unwrap();
    let reader = std::thread::spawn(move || BufReader::new(out).lines().map_while(Result::ok).collect::<Vec<_>>());
    let t = Instant::now();
    let status = loop {
        match c.try_wait() {
            Ok(Some(s)) => break Some(s),
            Ok(None) if t.elapsed() > timeout => {
                let _ = c.kill();
                let _ = c.wait();
                break None;
            }
            Ok(None) => std::thread::sleep(Duration::from_micros(300)),
            Err(e) => return Err(e.to_string()),
        }
    };
    let lines = reader.join().unwrap_or_default();
    for l in &lines {
        if let Some(v) = l.strip_prefix("V ") {
            let v: Value = serde_json::from_str(v).map_err(|e| e.to_string())?;
            return Ok(Some(Fail {
                msg: v["msg"].as_str().unwrap_or("?").to_string(),
                spec: serde_json::from_value(v["spec"].clone()).ok(),
            }));
        }
        if let Some(b) = l.strip_prefix("B ") {
            return Err(b.to_string());
        }
    }
    match status {
        None => Ok(Some(Fail { msg: NO_END.into(), spec: None })),
        Some(s) if s.success() => Ok(None),
        Some(s) => Ok(Some(Fail { msg: died(&s), spec: None })),
    }
}

fn died(s: &std::process::ExitStatus) -> String {
    use std::os::unix::process::ExitStatusExt;
    match s.signal() {
        Some(6) => "the process aborted (panic while unwinding, or an abort)".into(),
        Some(11) | Some(7) => "the process was killed by a memory fault".into(),
        Some(n) => format!("the process was killed by signal {n}"),
        None => format!("the process exited with status {:?}", s.code()),
    }
}

// ------------------------------------------------------------------ minimisation

struct Min {
    file: String,
    class: String,
    best: Spec,
    msg: String,
    until: Instant,
    tries: u64,
}

impl Min {
    fn attempt(&mut self, s: Spec) -> bool {
        if Instant::now() > self.until || s == self.best {
            return false;
        }
        self.tries += 1;
        let slow = self.class.contains("does not end");
        match child(&s, &self.file, Duration::from_secs(if slow { 4 } else { 20 })) {
            Ok(Some(f)) if class(&f.msg) == self.class => {
                self.best = s;
                self.msg = f.msg;
                true
            }
            _ => false,
        }
    }

    fn list<T: Clone>(&mut self, get: impl Fn(&mut Spec) -> Option<&mut Vec<T>>) {
        let len = |s: &Min| {
            let mut b = s.best.clone();
            get(&mut b).map_or(0, |v| v.len())
        };
        let mut chunk = (len(self) / 2).max(1);
        loop {
            let mut at = 0;
            let mut any = false;
            while at < len(self) {
                let mut s = self.best.clone();
                if let Some(v) = get(&mut s) {
                    let e = (at + chunk).min(v.len());
                    v.drain(at..e);
                }
                if self.attempt(s) {
                    any = true;
                } else {
                    at += chunk;
                }
                if Instant::now() > self.until {
                    return;
                }
            }
            if chunk == 1 {
                if !any {
                    break;
                }
            } else {
                chunk = (chunk / 2).max(1);
            }
        }
    }

    fn args(&mut self) {
        let places: Vec<(usize, usize)> = {
            let b = &self.best;
            (0..=b.threads.len())
                .flat_map(|t| {
                    let n = if t == 0 { b.init.len() } else { b.threads[t - 1].len() };
                    (0..n).map(move |i| (t, i))
                })
                .collect()
        };
        for (t, i) in places {
            fn at(s: &mut Spec, t: usize, i: usize) -> &mut Op {
                if t == 0 {
                    &mut s.init[i]
                } else {
                    &mut s.threads[t - 1][i]
                }
            }
            let tweaks: [fn(&mut Op); 14] = [
                |o| o.un = false,
                |o| o.k = if o.k == K::Burst { K::Insert } else { o.k },
                |o| o.re = 0,
                |o| {
                    o.f.pop();
                },
                |o| o.h = 0,
                |o| o.h %= 6,
                |o| o.a = 0,
                |o| o.a %= 64,
                |o| o.b = 0,
                |o| o.b %= 64,
                |o| o.c = 0,
                |o| o.c %= 64,
                |o| o.d = 0,
                |o| o.d %= 64,
            ];
            for tw in tweaks {
                let mut s = self.best.clone();
                tw(at(&mut s, t, i));
                self.attempt(s);
            }
        }
    }
}

fn minimise(f: &Fail, file: &str, secs: u64) -> (Spec, String, u64) {
    let spec = f.spec.clone().unwrap();
    let mut m = Min {
        file: file.to_string(),
        class: class(&f.msg),
        best: spec,
        msg: f.msg.clone(),
        until: Instant::now() + Duration::from_secs(secs),
        tries: 0,
    };
    for _ in 0..3 {
        let before = m.best.clone();
        for t in (0..m.best.threads.len()).rev() {
            let mut s = m.best.clone();
            s.threads[t].clear();
            m.attempt(s);
        }
        let mut s = m.best.clone();
        s.threads.clear();
        s.stalls.clear();
        s.sched = None;
        s.shared = false;
        m.attempt(s);
        m.list(|s| Some(&mut s.init));
        for t in 0..m.best.threads.len() {
            m.list(move |s| s.threads.get_mut(t));
        }
        m.list(|s| Some(&mut s.stalls));
        m.list(|s| match &mut s.sched {
            Some(Policy::Explicit(v)) => Some(v),
            _ => None,
        });
        for f in [
            (|s: &mut Spec| s.every = 0) as fn(&mut Spec),
            |s| s.every = 1,
            |s| s.shared = false,
            |s| s.twin = false,
            |s| s.cost = false,
            |s| s.yield_cb = 0,
            |s| s.end = 0,
        ] {
            let mut s = m.best.clone();
            f(&mut s);
            m.attempt(s);
        }
        m.args();
        if m.best == before || Instant::now() > m.until {
            break;
        }
    }
    (m.best, m.msg, m.tries)
}

/// min PROP BASE RUN OUT: development aid; minimises one failing run
pub fn min_cmd(a: &[String]) -> i32 {
    let spec = crate::gen::gen(&a[0], false, run_seed(&a[0], a[1].parse().unwrap(), a[2].parse().unwrap()));
    let tmp = format!("{}.tmp", a[3]);
    match child(&spec, &tmp, Duration::from_secs(60)) {
        Ok(Some(f)) => {
            println!("{}", f.msg);
            let f = Fail { spec: f.spec.or(Some(spec)), msg: f.msg };
            let (s, m, n) = minimise(&f, &tmp, 60);
            println!("{m}  ({n} attempts)");
            std::fs::write(&a[3], serde_json::to_string(&s).unwrap()).unwrap();
            0
        }
        r => {
            println!("{r:?}");
            1
        }
    }
}

/// replay FILE: executes the recorded run again, showing it; exit 1 if it fails as recorded
pub fn replay(file: &str) -> i32 {
    let text = std::fs::read_to_string(file).expect("harness: cannot read replay file");
    let v: Value = serde_json::from_str(&text).expect("harness: replay file is not JSON");
    let prop = v["property"].as_str().unwrap_or("?").to_string();
    let exe = std::env::current_exe().unwrap();
    let mut c = Command::new(exe)
        .args(["exec", file, "-v"])
        .stdin(Stdio::null())
        .stdout(Stdio::piped())
        .spawn()
        .expect("spawn");
    let out = c.stdout.take().unwrap();
    let mut got = None;
    let rd = std::thread::spawn(move || {
        let mut got = None;
        for l in BufReader::new(out).lines().map_while(Result::ok) {
            if let Some(v) = l.strip_prefix("V ") {
                let v: Value = serde_json::from_str(v).unwrap_or(Value::Null);
                got = Some(v["msg"].as_str().unwrap_or("?").to_string());
            } else {
                println!("{l}");
            }
        }
        got
    });
    let t = Instant::now();
    let st = loop {
        match c.try_wait() {
            Ok(Some(s)) => break Some(s),
            _ if t.elapsed() > Duration::from_secs(60) => {
                let _ = c.kill();
                let _ = c.wait();
                break None;
            }
            _ => std::thread::sleep(Duration::from_millis(2)),
        }
    };
    if let Ok(Some(m)) = rd.join() {
        got = Some(m);
    }
    let got = match (got, st) {
        (Some(m), _) => Some(m),
        (None, None) => Some(NO_END.into()),
        (None, Some(s)) if !s.success() => Some(died(&s)),
        _ => None,
    };
    match got {
        Some(m) => {
            println!("replayed: {m}");
            println!("recorded: {}", v["message"].as_str().unwrap_or("?"));
            println!("VIOLATION property={prop} replay={file}");
            1
        }
        None => {
            println!("the recorded run passes");
            0
        }
    }
}

// ------------------------------------------------------------------ known findings

/// (probe file name, property, class) of every finding on record
fn known(dir: &str, prop: &str) -> Vec<(String, String, String)> {
    let Ok(t) = std::fs::read_to_string(format!("{dir}/known_findings.json")) else { return vec![] };
    let v: Value = serde_json::from_str(&t).expect("harness: known_findings.json");
    v["findings"]
        .as_array()
        .map(|a| {
            a.iter()
                .filter(|f| f["property"] == prop && f["status"] == "known")
                .map(|f| {
                    let s = |k: &str| f[k].as_str().unwrap_or("").to_string();
                    (s("probe"), s("message"), s("what"))
                })
                .collect()
        })
        .unwrap_or_default()
}

// ------------------------------------------------------------------ check

fn budget(prop: &str, thorough: bool) -> (u64, u64) {
    // (runs, seconds); the seconds only bound the worst case
    let quick = match prop {
        "C01" | "C02" | "C04" => 200_000,
        "C06" | "C13" | "C14" | "C15" => 300_000,
        "C09" => 400_000,
        "C07" => 240_000,
        "C16" => 40_000,
        "C17" => 40_000,
        "C20" => 160_000,
        "C21" => 240_000,
        _ => 120_000,
    };
    if thorough {
        (quick * 30, 780)
    } else {
        (quick, 240)
    }
}

pub fn check(prop: &str, tier: &str, dir: &str) -> i32 {
    let thorough = tier == "thorough";
    let base: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let (mut runs, secs) = budget(prop, thorough);
    if let Some(n) = std::env::var("SHERSIM_RUNS").ok().and_then(|s| s.parse().ok()) {
        runs = n;
    }
    println!("property={prop} tier={tier} VERIF_SEED={base} runs={runs}");
    let start = Instant::now();
    let tmp = format!("{dir}/sim/target/tmp.{}", std::process::id());
    std::fs::create_dir_all(&tmp).unwrap();
    let code = check_in(prop, tier, dir, &tmp, base, runs, secs, start);
    let _ = std::fs::remove_dir_all(&tmp);
    code
}

#[allow(clippy::too_many_arguments)]
fn check_in(prop: &str, tier: &str, dir: &str, tmp: &str, base: u64, runs: u64, secs: u64, start: Instant) -> i32 {
    let thorough = tier == "thorough";
    let deadline = start + Duration::from_secs(secs);
    // findings on record: their probes must fail exactly as recorded
    let mut findings = vec![];
    let mut fail: Option<Fail> = None;
    for (probe, message, what) in known(dir, prop) {
        let t = std::fs::read_to_string(format!("{dir}/{probe}")).expect("harness: probe missing");
        let spec: Spec = serde_json::from_str(&t).expect("harness: probe unreadable");
        match child(&spec, &format!("{tmp}/probe.json"), Duration::from_secs(30)) {
            Err(e) => {
                println!("harness error: {e}");
                return 2;
            }
            Ok(None) => {}
            Ok(Some(f)) if f.msg.contains(&message) => {
                println!("KNOWN-FINDING: property={prop} {what}");
                findings.push(what);
            }
            Ok(Some(f)) => {
                fail = Some(Fail { spec: f.spec.or(Some(spec)), msg: f.msg });
                break;
            }
        }
    }
    let stop = Arc::new(AtomicBool::new(false));
    let agg: Arc<Mutex<Vec<Value>>> = Arc::new(Mutex::new(vec![]));
    let found: Arc<Mutex<Vec<(u64, Fail)>>> = Arc::new(Mutex::new(vec![]));
    let broken: Arc<Mutex<Option<String>>> = Arc::new(Mutex::new(None));
    let partial = Arc::new(AtomicU64::new(0));
    let mut hs = vec![];
    for k in 0..WORKERS {
        if fail.is_some() {
            break;
        }
        let (exe, stop, agg, found, broken, partial) =
            (exe(k % 2 == 1), stop.clone(), agg.clone(), found.clone(), broken.clone(), partial.clone());
        let (prop, tier) = (prop.to_string(), tier.to_string());
        hs.push(std::thread::spawn(move || {
            // a worker handles its share in segments, so that its counters survive the time limit
            let seg = (runs / 40).max(400);
            let mut from = 0;
            while from < runs && !stop.load(Relaxed) {
                if Instant::now() > deadline {
                    partial.fetch_add(1, Relaxed);
                    return;
                }
                let to = (from + seg).min(runs);
                let first = from + (k + WORKERS - from % WORKERS) % WORKERS;
                let mut c = Command::new(&exe)
                    .args(["worker", &prop, &tier, &base.to_string(), &first.to_string(), &WORKERS.to_string(), &to.to_string()])
                    .stdin(Stdio::null())
                    .stdout(Stdio::piped())
                    .stderr(Stdio::null())
                    .spawn()
                    .expect("spawn worker");
                let out = c.stdout.take().unwrap();
                let cur = Arc::new(AtomicU64::new(first));
                let beat = Arc::new(AtomicU64::new(0));
                let rep: Arc<Mutex<Option<Result<Value, String>>>> = Arc::new(Mutex::new(None));
                let (cur2, beat2, rep2) = (cur.clone(), beat.clone(), rep.clone());
                let agg2 = agg.clone();
                let rd = std::thread::spawn(move || {
                    for l in BufReader::new(out).lines().map_while(Result::ok) {
                        beat2.fetch_add(1, Relaxed);
                        if let Some(i) = l.strip_prefix("R ") {
                            cur2.store(i.parse().unwrap_or(0), Relaxed);
                        } else if let Some(v) = l.strip_prefix("V ") {
                            *rep2.lock().unwrap() = Some(Ok(serde_json::from_str(v).unwrap_or(Value::Null)));
                        } else if let Some(b) = l.strip_prefix("B ") {
                            *rep2.lock().unwrap() = Some(Err(b.to_string()));
                        } else if let Some(s) = l.strip_prefix("S ") {
                            if let Ok(v) = serde_json::from_str(s) {
                                agg2.lock().unwrap().push(v);
                            }
                        }
                    }
                });
                let mut seen = (0, Instant::now());
                let status = loop {
                    if let Ok(Some(s)) = c.try_wait() {
                        break Some(s);
                    }
                    if stop.load(Relaxed) {
                        let _ = c.kill();
                        let _ = c.wait();
                        let _ = rd.join();
                        return;
                    }
                    let b = beat.load(Relaxed);
                    if b != seen.0 {
                        seen = (b, Instant::now());
                    } else if seen.1.elapsed() > Duration::from_secs(60) {
                        let _ = c.kill();
                        let _ = c.wait();
                        break None;
                    }
                    std::thread::sleep(Duration::from_millis(3));
                };
                let _ = rd.join();
                let i = cur.load(Relaxed);
                let gen = || nth(&prop, tier == "thorough", base, i);
                match (rep.lock().unwrap().take(), status) {
                    (Some(Err(b)), _) => {
                        *broken.lock().unwrap() = Some(format!("{b} (run {i})"));
                        stop.store(true, Relaxed);
                    }
                    (Some(Ok(v)), _) => {
                        let f = Fail {
                            msg: v["msg"].as_str().unwrap_or("?").into(),
                            spec: serde_json::from_value(v["spec"].clone()).ok().or_else(|| Some(gen())),
                        };
                        found.lock().unwrap().push((i, f));
                        stop.store(true, Relaxed);
                    }
                    (None, None) => {
                        found.lock().unwrap().push((i, Fail { msg: NO_END.into(), spec: Some(gen()) }));
                        stop.store(true, Relaxed);
                    }
                    (None, Some(s)) if !s.success() => {
                        found.lock().unwrap().push((i, Fail { msg: died(&s), spec: Some(gen()) }));
                        stop.store(true, Relaxed);
                    }
                    _ => {}
                }
                from = to;
            }
        }));
    }
    for h in hs {
        let _ = h.join();
    }
    if let Some(b) = broken.lock().unwrap().take() {
        println!("harness error: {b}");
        return 2;
    }
    let wall = start.elapsed().as_secs_f64();
    let mut seed_of = None;
    if fail.is_none() {
        let mut f = found.lock().unwrap();
        f.sort_by_key(|x| x.0);
        if let Some((i, x)) = f.first() {
            seed_of = Some((*i, run_seed(prop, base, *i)));
            fail = Some(x.clone());
        }
    }
    let mut replay = None;
    if fail.as_ref().map_or(false, |f| f.msg == NO_END && f.spec.is_some()) {
        // a machine that stood still is not a tree that does
        let spec = fail.as_ref().unwrap().spec.as_ref().unwrap();
        if let Ok(None) = child(spec, &format!("{tmp}/run.json"), Duration::from_secs(120)) {
            println!("note: a run made no progress for a minute, but ends in a fresh process; not counted");
            fail = None;
            partial.fetch_add(1, Relaxed);
        }
    }
    if let Some(f) = &fail {
        // the failure must repeat in a fresh process
        let file = format!("{tmp}/run.json");
        let first = child(f.spec.as_ref().unwrap(), &file, Duration::from_secs(60));
        let same = matches!(&first, Ok(Some(g)) if class(&g.msg) == class(&f.msg));
        if !same {
            println!("note: the first execution said {:?}, a fresh process says {:?}", f.msg, first.as_ref().map(|x| x.as_ref().map(|x| &x.msg)));
        }
        let f2 = match first {
            Ok(Some(g)) => Fail { msg: g.msg, spec: f.spec.clone() },
            _ => f.clone(),
        };
        let (spec, msg, tries) = minimise(&f2, &file, if thorough { 120 } else { 60 });
        let dirp = format!("{dir}/replay");
        let _ = std::fs::create_dir_all(&dirp);
        let path = format!("{dirp}/{prop}.json");
        let body = json!({
            "property": prop, "message": msg, "first_message": f.msg,
            "verif_seed": base, "run": seed_of.map(|x| x.0), "run_seed": seed_of.map(|x| x.1),
            "world": WORLDS[spec.world % WORLDS.len()], "minimisation_attempts": tries,
            "how": "bash /verif/run.sh replay <this file>",
            "spec": spec, "original_spec": f.spec,
        });
        std::fs::write(&path, serde_json::to_vec_pretty(&body).unwrap()).unwrap();
        println!("violated: {msg}");
        println!("VIOLATION property={prop} replay={path}");
        replay = Some(path);
    }
    evidence(prop, tier, dir, base, runs, wall, &agg.lock().unwrap(), &findings, fail.is_some(), partial.load(Relaxed) > 0);
    i32::from(replay.is_some())
}

/// Executes some runs a second time in other processes, after other predecessors: (executed twice, identical)
fn repeat(prop: &str, base: u64) -> (u64, u64) {
    let part = |first: u64, step: u64| -> Vec<String> {
        Command::new(std::env::current_exe().unwrap())
            .args(["hashes", prop, &base.to_string(), &first.to_string(), &step.to_string(), "40"])
            .stdin(Stdio::null())
            .stderr(Stdio::null())
            .output()
            .map(|o| String::from_utf8_lossy(&o.stdout).lines().map(|l| l.to_string()).collect())
            .unwrap_or_default()
    };
    let a = part(0, 1);
    let b: HashSet<String> = part(0, 2).into_iter().chain(part(1, 2)).collect();
    (a.len() as u64, a.iter().filter(|l| b.contains(*l)).count() as u64)
}

fn sample_of(prop: &str, tier: &str, base: u64, i: u64) -> Value {
    let s = nth(prop, tier == "thorough", base, i);
    let show = |v: &Vec<Op>| v.iter().take(12).map(|o| serde_json::to_value(o).unwrap()).collect::<Vec<_>>();
    json!({
        "run": i, "seed": run_seed(prop, base, i), "world": WORLDS[s.world % WORLDS.len()], "without_debug_assertions": s.rel, "schedule": s.sched, "stalls": s.stalls,
        "operations": s.init.len(), "first_operations": show(&s.init),
        "threads": s.threads.iter().map(show).collect::<Vec<_>>(),
    })
}

#[allow(clippy::too_many_arguments)]
fn evidence(
    prop: &str,
    tier: &str,
    dir: &str,
    base: u64,
    planned: u64,
    wall: f64,
    agg: &[Value],
    findings: &[String],
    violated: bool,
    cut: bool,
) {
    let mut sum: BTreeMap<String, u64> = BTreeMap::new();
    let mut max: BTreeMap<String, u64> = BTreeMap::new();
    let mut ops: BTreeMap<String, u64> = BTreeMap::new();
    let mut hashes: HashSet<String> = HashSet::new();
    let mut top: BTreeMap<&str, u64> = BTreeMap::new();
    let add = |m: &mut BTreeMap<String, u64>, v: &Value, mx: bool| {
        if let Some(o) = v.as_object() {
            for (k, n) in o {
                let e = m.entry(k.clone()).or_insert(0);
                let n = n.as_u64().unwrap_or(0);
                *e = if mx { (*e).max(n) } else { *e + n };
            }
        }
    };
    for a in agg {
        add(&mut sum, &a["sum"], false);
        add(&mut max, &a["max"], true);
        add(&mut ops, &a["ops"], false);
        for h in a["hashes"].as_array().into_iter().flatten() {
            hashes.insert(h.as_str().unwrap_or("").to_string());
        }
        for k in ["runs", "steps", "threaded", "faulty"] {
            *top.entry(k).or_insert(0) += a[k].as_u64().unwrap_or(0);
        }
    }
    let runs = *top.get("runs").unwrap_or(&0);
    let faults: BTreeMap<_, _> = sum.iter().filter(|x| x.0.starts_with("fault:")).collect();
    let other: BTreeMap<_, _> = sum.iter().filter(|x| !x.0.starts_with("fault:")).collect();
    let per_h = |n: u64| (n as f64 / wall.max(0.001) * 3600.0) as u64;
    let again = if violated { (0, 0) } else { repeat(prop, base) };
    let ev = json!({
        "property": prop, "tier": tier, "seed": base, "level": "exploration",
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": hashes.len(),
            "rule": "A case is one simulated run, drawn from hash(VERIF_SEED, property, run number): build, instantiation, operation sequence, hints, faults, schedule. Distinct: runs whose hash over every slice created, cloned, split, joined and destroyed and (with threads) over every scheduling decision differs; non-trivial: at least three operations.",
            "samples": [sample_of(prop, tier, base, 0), sample_of(prop, tier, base, 1)],
            "planned_runs": planned,
            "stopped_by_time_limit": cut,
            "runs_per_hour": per_h(runs),
            "seeds_per_hour": per_h(runs),
            "runs_with_simulated_threads": top.get("threaded"),
            "runs_with_a_fault_that_fired": top.get("faulty"),
            "simulated_time": {"unit": "scheduler steps (the code has no clock)", "steps": top.get("steps")},
            "executed_twice_in_other_processes": again.0,
            "of_which_identical": again.1,
            "operations": ops,
            "faults_fired": faults,
            "counters": other,
            "maxima": max,
            "real_components": ["all of /repo/src, compiled from the working tree with --cfg sherman_sim; every second run by a build without debug assertions and overflow checks, as shipped, which checks what is merely assumed there", "threads (real, one running at a time)", "serde_json"],
            "stubbed_components": ["user slice, index, cursor and range types (instrumented)", "thread scheduler", "allocator (instrumented, quarantining)", "streams (simulated)"],
            "known_findings_seen": findings,
        },
        "assumptions": [
            "Interleavings are sequentially consistent, with yield points before every shared-count operation, user callback, allocation and release.",
            "Sampled, not enumerated: a clean batch is evidence, not proof."
        ],
        "wall_s": wall,
        "violations": u64::from(violated),
    });
    let _ = std::fs::create_dir_all(format!("{dir}/evidence"));
    std::fs::write(format!("{dir}/evidence/{prop}.json"), serde_json::to_vec_pretty(&ev).unwrap()).unwrap();
    println!(
        "{prop}: {runs} runs, {} distinct, {} scheduler steps, {} faults fired, {wall:.1} s",
        hashes.len(),
        top.get("steps").unwrap_or(&0),
        faults.values().map(|x| **x).sum::<u64>()
    );
}
