//! Runs the generated cases of a property, shrinks a failure, writes results.
use crate::case::{splitmix, Case, Failed, Inconclusive, Injected};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub struct Sub {
    pub name: &'static str,
    pub f: fn(&Case),
    /// Cases in the quick and thorough tiers.
    pub quick: u64,
    pub thorough: u64,
    /// Cases in the quick and thorough tiers under Miri (0: not run there).
    pub miri_quick: u64,
    pub miri_thorough: u64,
    /// Miri only: skip this sub natively.
    pub miri_only: bool,
    /// Cases run on this many threads at once.
    pub workers: usize,
}

pub fn sub(name: &'static str, f: fn(&Case), quick: u64, thorough: u64) -> Sub {
    Sub { name, f, quick, thorough, miri_quick: 0, miri_thorough: 0, miri_only: false, workers: 8 }
}

impl Sub {
    pub fn miri(mut self, quick: u64, thorough: u64) -> Self {
        self.miri_quick = quick;
        self.miri_thorough = thorough;
        self
    }
    pub fn miri_only(mut self) -> Self {
        self.miri_only = true;
        self
    }
    pub fn workers(mut self, n: usize) -> Self {
        self.workers = n;
        self
    }
}

pub struct Prop {
    pub id: &'static str,
    /// How cases are made and what makes one non-trivial.
    pub rule: &'static str,
    pub subs: Vec<Sub>,
}

thread_local! {
    static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}

fn install_hook() {
    let verbose = std::env::var_os("VH_PANICS").is_some();
    std::panic::set_hook(Box::new(move |info| {
        let p = info.payload();
        let m = if let Some(s) = p.downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = p.downcast_ref::<String>() {
            s.clone()
        } else if p.is::<Failed>() || p.is::<Inconclusive>() || p.is::<Injected>() {
            return;
        } else {
            "non-string panic".into()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if verbose {
            eprintln!("panic: {m} at {loc}\n{}", std::backtrace::Backtrace::force_capture());
        }
        let _ = LAST_PANIC.try_with(|c| *c.borrow_mut() = Some(format!("panic: {m} at {loc}")));
    }));
}

/// The message of the last panic on this thread.
pub fn last_panic() -> Option<String> {
    LAST_PANIC.with(|c| c.borrow_mut().take())
}

#[derive(Debug, Clone, PartialEq)]
pub enum Outcome {
    Ok,
    Inconclusive,
    Fail(String),
}

pub fn exec(f: fn(&Case), case: &Case) -> Outcome {
    let _ = last_panic();
    #[cfg(futures_verif)]
    crate::sched::known();
    let r = catch_unwind(AssertUnwindSafe(|| f(case)));
    if case.with(|i| i.foreign) {
        return Outcome::Inconclusive;
    }
    if let Some(m) = case.with(|i| i.fail.clone()) {
        return Outcome::Fail(m);
    }
    match r {
        Ok(()) => {
            if case.with(|i| i.inconclusive) {
                Outcome::Inconclusive
            } else {
                Outcome::Ok
            }
        }
        Err(p) => {
            if p.is::<Inconclusive>() || case.with(|i| i.inconclusive) {
                Outcome::Inconclusive
            } else if let Some(i) = p.downcast_ref::<Injected>() {
                Outcome::Fail(format!("injected panic {} escaped", i.0))
            } else {
                Outcome::Fail(last_panic().unwrap_or_else(|| "panic".into()))
            }
        }
    }
}

pub fn seed_of(seed: u64, prop: &str, sub: &str, idx: u64) -> u64 {
    let mut h = seed ^ 0xcbf29ce484222325;
    for b in prop.bytes().chain([b'/']).chain(sub.bytes()) {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    let mut s = h ^ idx.wrapping_mul(0x9E3779B97F4A7C15);
    splitmix(&mut s)
}

fn tape_hash(t: &[u32]) -> u64 {
    let mut h = 0x1234567u64;
    for x in t {
        h ^= *x as u64;
        h = splitmix(&mut h);
    }
    h
}

struct Stats {
    evals: u64,
    inconclusive: u64,
    nontrivial: HashSet<u64>,
    labels: BTreeMap<String, u64>,
    samples: Vec<(u64, Vec<u32>)>,
    fail: Option<(u64, Vec<u32>, String)>,
}

static PROGRESS: AtomicU64 = AtomicU64::new(0);
/// Set once a case has used controlled threads: there a hang may come from an
/// operation the scheduler does not see, so it is no verdict.
pub static USED_THREADS: AtomicBool = AtomicBool::new(false);
/// The case each worker is in, plus one.
static IN_CASE: [AtomicU64; 16] = [const { AtomicU64::new(0) }; 16];
static WORKER: AtomicU64 = AtomicU64::new(0);

fn run_sub(prop: &str, s: &Sub, seed: u64, start: u64, n: u64, workers: usize) -> Stats {
    let stats = Mutex::new(Stats {
        evals: 0,
        inconclusive: 0,
        nontrivial: HashSet::new(),
        labels: BTreeMap::new(),
        samples: vec![],
        fail: None,
    });
    #[cfg(futures_verif)]
    crate::sched::reset();
    let next = AtomicU64::new(start);
    let min_fail = AtomicU64::new(u64::MAX);
    let end = start + n;
    let chunk = if cfg!(miri) { 1 } else { 16 };
    WORKER.store(0, Ordering::Relaxed);
    let trace = std::env::var_os("VH_TRACE").is_some();
    let body = || {
        let slot = &IN_CASE[WORKER.fetch_add(1, Ordering::Relaxed) as usize % 16];
        let mut local = Stats {
            evals: 0,
            inconclusive: 0,
            nontrivial: HashSet::new(),
            labels: BTreeMap::new(),
            samples: vec![],
            fail: None,
        };
        'outer: loop {
            let a = next.fetch_add(chunk, Ordering::Relaxed);
            if a >= end {
                break;
            }
            for idx in a..(a + chunk).min(end) {
                if idx > min_fail.load(Ordering::Relaxed) {
                    break 'outer;
                }
                let case = Case::new(vec![], Some(seed_of(seed, prop, s.name, idx)), false);
                slot.store(idx + 1, Ordering::Relaxed);
                if trace {
                    println!("CASE {} {idx}", s.name);
                }
                let out = exec(s.f, &case);
                slot.store(0, Ordering::Relaxed);
                PROGRESS.fetch_add(1, Ordering::Relaxed);
                local.evals += 1;
                match out {
                    Outcome::Ok => {
                        let tape = case.tape();
                        case.with(|i| {
                            for (k, v) in &i.labels {
                                *local.labels.entry(k.to_string()).or_insert(0) += v;
                            }
                            if i.nontrivial {
                                local.nontrivial.insert(tape_hash(&tape));
                                if local.samples.len() < 2 && idx < start + 200 {
                                    local.samples.push((idx, tape.clone()));
                                }
                            }
                        });
                    }
                    Outcome::Inconclusive => local.inconclusive += 1,
                    Outcome::Fail(m) => {
                        min_fail.fetch_min(idx, Ordering::Relaxed);
                        if local.fail.as_ref().map_or(true, |f| idx < f.0) {
                            local.fail = Some((idx, case.tape(), m));
                        }
                        break;
                    }
                }
            }
        }
        let mut g = stats.lock().unwrap();
        g.evals += local.evals;
        g.inconclusive += local.inconclusive;
        g.nontrivial.extend(local.nontrivial);
        for (k, v) in local.labels {
            *g.labels.entry(k).or_insert(0) += v;
        }
        g.samples.extend(local.samples);
        if let Some(f) = local.fail {
            if g.fail.as_ref().map_or(true, |x| f.0 < x.0) {
                g.fail = Some(f);
            }
        }
    };
    if workers <= 1 {
        body();
    } else {
        std::thread::scope(|sc| {
            for _ in 0..workers {
                sc.spawn(&body);
            }
        });
    }
    let mut st = stats.into_inner().unwrap();
    st.samples.sort();
    st.samples.truncate(2);
    st
}

/// Edits the tape towards a shorter and smaller one that still fails.
fn shrink(f: fn(&Case), tape: Vec<u32>, msg: String) -> (Vec<u32>, String) {
    let t0 = Instant::now();
    let mut best = tape;
    let mut best_msg = msg;
    let mut runs = 0u32;
    let mut attempt = |cand: Vec<u32>, best: &mut Vec<u32>, best_msg: &mut String| -> bool {
        if runs > 4000 || t0.elapsed() > Duration::from_secs(25) {
            return false;
        }
        runs += 1;
        let case = Case::new(cand, None, false);
        PROGRESS.fetch_add(1, Ordering::Relaxed);
        if let Outcome::Fail(m) = exec(f, &case) {
            let t = case.tape();
            let better = (t.len(), t.iter().map(|x| *x as u64).sum::<u64>())
                < (best.len(), best.iter().map(|x| *x as u64).sum::<u64>());
            if better {
                *best = t;
                *best_msg = m;
                return true;
            }
        }
        false
    };
    loop {
        let before = best.clone();
        let mut size = best.len().max(1);
        while size > 0 {
            let mut i = 0;
            while i + size <= best.len() {
                let mut c = best.clone();
                c.drain(i..i + size);
                if !attempt(c, &mut best, &mut best_msg) {
                    i += size.max(1);
                }
            }
            size /= 2;
        }
        let mut size = best.len().min(16);
        while size > 0 {
            let mut i = 0;
            while i + size <= best.len() {
                if best[i..i + size].iter().any(|x| *x != 0) {
                    let mut c = best.clone();
                    c[i..i + size].fill(0);
                    attempt(c, &mut best, &mut best_msg);
                }
                i += size;
            }
            size /= 2;
        }
        let mut i = 0;
        while i < best.len() {
            let v = best[i];
            for cand in [v / 2, v.saturating_sub(1)] {
                if cand < v && i < best.len() && best[i] == v {
                    let mut c = best.clone();
                    c[i] = cand;
                    attempt(c, &mut best, &mut best_msg);
                }
            }
            i += 1;
        }
        if best == before {
            break;
        }
    }
    (best, best_msg)
}

fn logged(f: fn(&Case), tape: &[u32]) -> (Outcome, Vec<String>) {
    let case = Case::new(tape.to_vec(), None, true);
    let o = exec(f, &case);
    (o, case.with(|i| i.log.clone()))
}

pub fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn arr<T>(xs: &[T], f: impl Fn(&T) -> String) -> String {
    format!("[{}]", xs.iter().map(f).collect::<Vec<_>>().join(","))
}

fn get(args: &[String], k: &str) -> Option<String> {
    args.iter().position(|a| a == k).and_then(|i| args.get(i + 1).cloned())
}

pub fn main_for(props: Vec<Prop>) {
    install_hook();
    let args: Vec<String> = std::env::args().collect();
    let cmd = args.get(1).map(|s| s.as_str()).unwrap_or("");
    match cmd {
        "list" => {
            for p in &props {
                for s in &p.subs {
                    println!(
                        "{} {} {} {} {} {} {}",
                        p.id, s.name, s.quick, s.thorough, s.miri_quick, s.miri_thorough, s.miri_only as u8
                    );
                }
            }
        }
        "run" => std::process::exit(run(&props, &args)),
        "miri" => std::process::exit(run_miri(&props, &args)),
        "replay" => std::process::exit(replay(&props, &args)),
        _ => {
            eprintln!("usage: list | run ID --tier T --seed N --out FILE --replays DIR | miri ID SUB --start A --n N --seed S | replay FILE");
            std::process::exit(2)
        }
    }
}

/// Under Miri: a range of cases of one sub, on real threads, no shrinking.
fn run_miri(props: &[Prop], args: &[String]) -> i32 {
    let p = props.iter().find(|p| p.id == args[2]).expect("property");
    let s = p.subs.iter().find(|s| s.name == args[3]).expect("sub");
    let seed: u64 = get(args, "--seed").unwrap().parse().unwrap();
    let start: u64 = get(args, "--start").unwrap().parse().unwrap();
    let n: u64 = get(args, "--n").unwrap().parse().unwrap();
    let mut nontrivial = 0u64;
    let mut hashes = vec![];
    for idx in start..start + n {
        // Printed first, so that an abort by Miri tells which case it was in.
        println!("CASE {idx}");
        let case = Case::new(vec![], Some(seed_of(seed, p.id, s.name, idx)), true);
        match exec(s.f, &case) {
            Outcome::Fail(m) => {
                println!("CASE-FAIL {idx} {m}");
                for l in case.with(|i| i.log.clone()) {
                    println!("LOG {l}");
                }
                return 1;
            }
            Outcome::Ok => {
                if case.with(|i| i.nontrivial) {
                    nontrivial += 1;
                    hashes.push(tape_hash(&case.tape()));
                }
                if idx == start {
                    for l in case.with(|i| i.log.clone()) {
                        println!("SAMPLE {l}");
                    }
                }
            }
            Outcome::Inconclusive => {}
        }
    }
    hashes.sort();
    hashes.dedup();
    println!("MIRI-DONE {n} {nontrivial} {}", hashes.len());
    0
}

fn run(props: &[Prop], args: &[String]) -> i32 {
    let p = props.iter().find(|p| p.id == args[2]).expect("unknown property");
    let tier = get(args, "--tier").unwrap_or("quick".into());
    let seed: u64 = get(args, "--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let out = get(args, "--out");
    let replays = get(args, "--replays").unwrap_or("/tmp".into());
    let only = get(args, "--sub");
    let cases: Option<u64> = get(args, "--cases").and_then(|s| s.parse().ok());
    let mult: f64 = std::env::var("VH_MULT").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
    static DONE: AtomicBool = AtomicBool::new(false);
    static SUB: Mutex<&'static str> = Mutex::new("");
    let workers: Option<usize> = get(args, "--workers").and_then(|s| s.parse().ok());
    let (id, rdir) = (p.id, replays.clone());
    std::thread::spawn(move || {
        let mut last = (PROGRESS.load(Ordering::Relaxed), Instant::now());
        loop {
            std::thread::sleep(Duration::from_millis(500));
            if DONE.load(Ordering::Relaxed) {
                return;
            }
            let p = PROGRESS.load(Ordering::Relaxed);
            if p != last.0 {
                last = (p, Instant::now());
            } else if last.1.elapsed() > Duration::from_secs(90) {
                let cases: Vec<u64> = IN_CASE.iter().map(|c| c.load(Ordering::Relaxed)).filter(|c| *c > 0).map(|c| c - 1).collect();
                eprintln!("WATCHDOG: no case finished for 90 s; in cases {cases:?}");
                if USED_THREADS.load(Ordering::Relaxed) || cases.is_empty() {
                    std::process::exit(3);
                }
                // Single-threaded code on a small finite input that does not return.
                let sub = *SUB.lock().unwrap();
                let path = format!("{rdir}/{id}-{sub}-hang-{}.json", cases[0]);
                let _ = std::fs::create_dir_all(&rdir);
                let _ = std::fs::write(
                    &path,
                    format!(
                        "{{\"property\":{},\"sub\":{},\"seed\":{seed},\"case\":{},\"message\":\"does not return on a finite input\"}}\n",
                        esc(id), esc(sub), cases[0]
                    ),
                );
                println!("HANG {path}");
                std::process::exit(4);
            }
        }
    });
    let t0 = Instant::now();
    let mut subs_json = vec![];
    let mut samples = vec![];
    let (mut evals, mut nontriv, mut incon) = (0u64, 0u64, 0u64);
    let mut violations = vec![];
    for s in &p.subs {
        if s.miri_only || only.as_ref().map_or(false, |o| !s.name.contains(o.as_str())) {
            continue;
        }
        let n = cases.unwrap_or(((if tier == "thorough" { s.thorough } else { s.quick }) as f64 * mult) as u64);
        let t = Instant::now();
        *SUB.lock().unwrap() = s.name;
        USED_THREADS.store(false, Ordering::Relaxed);
        let st = run_sub(p.id, s, seed, 0, n, workers.unwrap_or(s.workers));
        evals += st.evals;
        nontriv += st.nontrivial.len() as u64;
        incon += st.inconclusive;
        let lbl: Vec<String> = st.labels.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect();
        eprintln!(
            "{} {}: {} cases, {} distinct non-trivial, {} inconclusive, {:.2}s {}",
            p.id, s.name, st.evals, st.nontrivial.len(), st.inconclusive, t.elapsed().as_secs_f64(),
            lbl.join(" ")
        );
        subs_json.push(format!(
            "{{\"sub\":{},\"evaluations\":{},\"distinct_nontrivial\":{},\"inconclusive\":{},\"labels\":{{{}}},\"wall_s\":{:.2}}}",
            esc(s.name), st.evals, st.nontrivial.len(), st.inconclusive, lbl.join(","), t.elapsed().as_secs_f64()
        ));
        for (idx, tape) in st.samples.iter().take(1) {
            let (_, log) = logged(s.f, tape);
            let log: Vec<String> = log.into_iter().take(40).collect();
            samples.push(format!(
                "{{\"sub\":{},\"case\":{},\"choices\":{},\"trace\":{}}}",
                esc(s.name), idx, arr(&tape[..tape.len().min(120)], |x| x.to_string()), arr(&log, |l| esc(l))
            ));
        }
        if let Some((idx, tape, msg)) = st.fail {
            eprintln!("  FAIL case {idx}: {msg}; shrinking");
            let orig_msg = msg.clone();
            let orig_tape = tape.clone();
            let (tape, msg) = shrink(s.f, tape, msg);
            let (o, log) = logged(s.f, &tape);
            // A failure that does not reproduce from its own tape keeps the original record.
            let reproduced = matches!(o, Outcome::Fail(_));
            let path = format!("{}/{}-{}-{:016x}.json", replays, p.id, s.name, tape_hash(&tape));
            let _ = std::fs::create_dir_all(&replays);
            let body = format!(
                "{{\"property\":{},\"sub\":{},\"seed\":{},\"case\":{},\"message\":{},\"original_message\":{},\"reproduced\":{},\"tape\":{},\"original_tape\":{},\"log\":{}}}\n",
                esc(p.id), esc(s.name), seed, idx, esc(&msg), esc(&orig_msg), reproduced,
                arr(&tape, |x| x.to_string()), arr(&orig_tape, |x| x.to_string()), arr(&log, |l| esc(l))
            );
            std::fs::write(&path, body).expect("write replay");
            eprintln!("  shrunk to {} choices (reproduced={reproduced}): {msg}", tape.len());
            for l in log.iter().take(60) {
                eprintln!("    {l}");
            }
            violations.push((s.name, msg, path));
        }
    }
    DONE.store(true, Ordering::Relaxed);
    if let Some(out) = out {
        let body = format!(
            "{{\"property\":{},\"rule\":{},\"evaluations\":{},\"distinct_nontrivial\":{},\"inconclusive\":{},\"subs\":[{}],\"samples\":[{}],\"violations\":{},\"wall_s\":{:.3}}}\n",
            esc(p.id), esc(p.rule), evals, nontriv, incon, subs_json.join(","), samples.join(","),
            arr(&violations, |v| format!("{{\"sub\":{},\"message\":{},\"replay\":{}}}", esc(v.0), esc(&v.1), esc(&v.2))),
            t0.elapsed().as_secs_f64()
        );
        std::fs::write(out, body).expect("write result");
    }
    if violations.is_empty() {
        0
    } else {
        1
    }
}

fn replay(props: &[Prop], args: &[String]) -> i32 {
    let text = std::fs::read_to_string(&args[2]).expect("replay file");
    let field = |k: &str| -> String {
        let pat = format!("\"{k}\":\"");
        let i = text.find(&pat).expect(k) + pat.len();
        text[i..].split('"').next().unwrap().to_string()
    };
    let p = props.iter().find(|p| p.id == field("property")).expect("property");
    let s = p.subs.iter().find(|s| s.name == field("sub")).expect("sub");
    let (o, log) = match text.find("\"tape\":[") {
        Some(i) => {
            let j = text[i..].find(']').unwrap() + i;
            let tape: Vec<u32> =
                text[i + 8..j].split(',').filter(|s| !s.is_empty()).map(|s| s.trim().parse().unwrap()).collect();
            logged(s.f, &tape)
        }
        None => {
            let num = |k: &str| -> u64 {
                let pat = format!("\"{k}\":");
                let i = text.find(&pat).expect(k) + pat.len();
                text[i..].split(|c: char| !c.is_ascii_digit()).next().unwrap().parse().unwrap()
            };
            let case = Case::new(vec![], Some(seed_of(num("seed"), p.id, s.name, num("case"))), true);
            let o = exec(s.f, &case);
            (o, case.with(|i| i.log.clone()))
        }
    };
    for l in log {
        println!("{l}");
    }
    println!("{o:?}");
    if matches!(o, Outcome::Fail(_)) {
        1
    } else {
        0
    }
}
