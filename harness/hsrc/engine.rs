//! Runs a property: fixed number of generated cases spread over worker processes, shrinking of a
//! failing case on its choice sequence, evidence and replay files.

use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::process::{Child, Command, Stdio};
use std::sync::Mutex;
use std::time::{Duration, Instant};

use serde_json::{json, Value};

use crate::source::{hash64, Src};

#[derive(Clone, Debug)]
pub struct Fail {
    /// Stable name of what went wrong; shrinking keeps it and known findings are keyed on it.
    pub kind: String,
    pub detail: String,
}

pub type Res<T = ()> = Result<T, Fail>;

pub fn fail<T>(kind: impl Into<String>, detail: impl Into<String>) -> Res<T> {
    Err(Fail { kind: kind.into(), detail: detail.into() })
}

#[macro_export]
macro_rules! check {
    ($cond:expr, $kind:expr, $($fmt:tt)+) => {
        if !($cond) {
            return $crate::engine::fail($kind, format!($($fmt)+));
        }
    };
}

#[derive(Default)]
pub struct Ctx {
    pub classes: BTreeMap<String, u64>,
    nontrivial: HashSet<u64>,
    this_nontrivial: Option<u64>,
    notes: Vec<String>,
    take_notes: bool,
}

impl Ctx {
    pub fn class(&mut self, name: impl Into<String>) { *self.classes.entry(name.into()).or_insert(0) += 1; }
    /// Marks this case as non-trivial; `key` identifies it for counting distinct ones.
    pub fn nontrivial(&mut self, key: &[u8]) { self.this_nontrivial = Some(hash64(key)); }
    /// Describes the case, only evaluated for samples and failures.
    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if self.take_notes {
            self.notes.push(f());
        }
    }
}

pub struct Prop {
    pub id: &'static str,
    /// Run half of the cases in the build without the silent payments feature.
    pub dual: bool,
    pub quick: u64,
    pub thorough: u64,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub run: fn(&mut Src, &mut Ctx) -> Res,
}

pub const VARIANT: &str = if cfg!(feature = "sp") { "sp" } else { "nosp" };

static LAST_PANIC: Mutex<String> = Mutex::new(String::new());

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            String::new()
        };
        if let Ok(mut g) = LAST_PANIC.lock() {
            *g = format!("panicked at {}: {}", loc, msg);
        }
    }));
}

pub fn last_panic() -> String { LAST_PANIC.lock().map(|g| g.clone()).unwrap_or_default() }

/// Runs library code that must not panic, reporting a panic as a failure of kind `kind`.
pub fn no_panic<T>(kind: &str, f: impl FnOnce() -> T) -> Res<T> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(t) => Ok(t),
        Err(_) => fail(format!("panic in {}", kind), last_panic()),
    }
}

fn run_case(p: &Prop, src: &mut Src, ctx: &mut Ctx) -> Res {
    match catch_unwind(AssertUnwindSafe(|| (p.run)(src, ctx))) {
        Ok(r) => r,
        Err(_) => fail("panic", last_panic()),
    }
}

fn shrink(p: &Prop, choices: Vec<u64>, kind: &str, budget: Duration) -> (Vec<u64>, u64) {
    let start = Instant::now();
    let mut best = choices;
    let mut tries = 0u64;
    let attempt = |cand: &[u64], tries: &mut u64| -> Option<Vec<u64>> {
        *tries += 1;
        let mut src = Src::replay(cand.to_vec());
        let mut ctx = Ctx::default();
        match run_case(p, &mut src, &mut ctx) {
            Err(f) if f.kind == kind => {
                let mut rec = src.rec;
                while rec.last() == Some(&0) {
                    rec.pop();
                }
                Some(rec)
            }
            _ => None,
        }
    };
    let smaller = |a: &[u64], b: &[u64]| (a.len(), a) < (b.len(), b);
    if let Some(r) = attempt(&best.clone(), &mut tries) {
        if smaller(&r, &best) {
            best = r;
        }
    }
    let mut improved = true;
    while improved && start.elapsed() < budget {
        improved = false;
        // Delete chunks.
        let mut size = (best.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i < best.len() && start.elapsed() < budget {
                let mut cand = best.clone();
                cand.drain(i..(i + size).min(best.len()));
                match attempt(&cand, &mut tries) {
                    Some(r) if smaller(&r, &best) => {
                        best = r;
                        improved = true;
                    }
                    _ => i += size.max(1),
                }
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // Zero chunks, then lower single values.
        for size in [16usize, 4, 1] {
            let mut i = 0;
            while i < best.len() && start.elapsed() < budget {
                let end = (i + size).min(best.len());
                if best[i..end].iter().any(|v| *v != 0) {
                    let mut cand = best.clone();
                    cand[i..end].iter_mut().for_each(|v| *v = 0);
                    if let Some(r) = attempt(&cand, &mut tries) {
                        if smaller(&r, &best) {
                            best = r;
                            improved = true;
                        }
                    }
                }
                i += size;
            }
        }
        let mut i = 0;
        while i < best.len() && start.elapsed() < budget {
            for f in [|v: u64| v / 2, |v: u64| v.saturating_sub(1), |v: u64| if v > 1 { 1 } else { v }] {
                let v = best[i];
                let n = f(v);
                if n >= v {
                    continue;
                }
                let mut cand = best.clone();
                cand[i] = n;
                if let Some(r) = attempt(&cand, &mut tries) {
                    if smaller(&r, &best) {
                        best = r;
                        improved = true;
                    }
                }
                if i >= best.len() {
                    break;
                }
            }
            i += 1;
        }
    }
    (best, tries)
}

pub struct WorkerArgs {
    pub seed: u64,
    pub w: u64,
    pub n: u64,
    pub total: u64,
    pub out: String,
    pub progress: String,
    pub only: Option<u64>,
    pub deadline_s: u64,
    pub known: Vec<String>,
}

pub fn worker(p: &Prop, a: WorkerArgs) {
    install_panic_hook();
    let start = Instant::now();
    let prog = std::fs::OpenOptions::new().create(true).write(true).truncate(true).open(&a.progress).unwrap();
    let mut ctx = Ctx::default();
    let mut evals = 0u64;
    let mut samples: Vec<Value> = vec![];
    let mut known_hits: BTreeMap<String, u64> = BTreeMap::new();
    let mut failure: Option<Value> = None;
    let mut truncated = false;
    let mut choices_total = 0u64;
    let mut idx = a.only.unwrap_or(a.w);
    let mut nontrivial_cases = 0u64;
    while idx < a.total || a.only.is_some() {
        prog.write_all_at(&idx.to_le_bytes(), 0).unwrap();
        if start.elapsed().as_secs() > a.deadline_s {
            truncated = true;
            break;
        }
        // A few samples early and some from later in the run.
        ctx.take_notes = samples.len() < 2 || (idx / a.n) % 5000 == 4999 && samples.len() < 4;
        ctx.notes.clear();
        ctx.this_nontrivial = None;
        let mut src = Src::random(a.seed, p.id, idx);
        let r = run_case(p, &mut src, &mut ctx);
        evals += 1;
        choices_total += src.rec.len() as u64;
        if let Some(h) = ctx.this_nontrivial {
            nontrivial_cases += 1;
            ctx.nontrivial.insert(h);
            if ctx.take_notes && r.is_ok() {
                samples.push(json!({"case": idx, "variant": VARIANT, "what": shorten(&ctx.notes.join("; "))}));
            }
        }
        if let Err(f) = r {
            if a.known.iter().any(|k| *k == f.kind) {
                *known_hits.entry(f.kind).or_insert(0) += 1;
            } else {
                let (choices, tries) = shrink(p, src.rec.clone(), &f.kind, Duration::from_secs(60));
                let mut c2 = Ctx { take_notes: true, ..Ctx::default() };
                let mut s2 = Src::replay(choices.clone());
                let f2 = run_case(p, &mut s2, &mut c2).err().unwrap_or(f);
                failure = Some(json!({
                    "property": p.id, "variant": VARIANT, "seed": a.seed, "case": idx,
                    "kind": f2.kind, "detail": f2.detail, "notes": c2.notes,
                    "choices": choices, "original_choices": src.rec.len(), "shrink_tries": tries,
                }));
                break;
            }
        }
        if a.only.is_some() {
            break;
        }
        idx += a.n;
    }
    let hashes: Vec<u64> = ctx.nontrivial.into_iter().collect();
    let res = json!({
        "evals": evals, "nontrivial_cases": nontrivial_cases, "classes": ctx.classes, "hashes": hashes,
        "samples": samples, "failure": failure, "truncated": truncated, "known_hits": known_hits,
        "choices": choices_total,
    });
    std::fs::write(&a.out, serde_json::to_vec(&res).unwrap()).unwrap();
}

struct W {
    child: Child,
    out: String,
    progress: String,
    bin: String,
    done: bool,
    last: (u64, Instant),
}

fn read_progress(path: &str) -> u64 {
    std::fs::read(path).ok().and_then(|v| v.get(..8).map(|b| u64::from_le_bytes(b.try_into().unwrap()))).unwrap_or(u64::MAX)
}

fn spawn(bin: &str, p: &Prop, seed: u64, w: u64, n: u64, total: u64, dir: &str, tag: &str, only: Option<u64>, deadline: u64, known: &[String]) -> W {
    let out = format!("{}/out-{}", dir, tag);
    let progress = format!("{}/progress-{}", dir, tag);
    let _ = std::fs::remove_file(&out);
    let mut c = Command::new(bin);
    c.args(["worker", p.id, &seed.to_string(), &w.to_string(), &n.to_string(), &total.to_string(), &out, &progress, &deadline.to_string()]);
    c.arg(only.map(|i| i.to_string()).unwrap_or_else(|| "-".into()));
    c.arg(known.join("\u{1}"));
    c.stdin(Stdio::null()).stdout(Stdio::null());
    let err = std::fs::File::create(format!("{}/stderr-{}", dir, tag)).unwrap();
    c.stderr(err);
    let child = c.spawn().expect("spawn worker");
    W { child, out, progress, bin: bin.to_string(), done: false, last: (u64::MAX, Instant::now()) }
}

/// Re-runs one case alone. Returns Some(description) if it crashes or hangs again.
fn confirm(w: &W, p: &Prop, seed: u64, idx: u64, dir: &str, hang: bool) -> Option<String> {
    let mut c = spawn(&w.bin, p, seed, 0, 1, u64::MAX, dir, "confirm", Some(idx), 3600, &[]);
    let start = Instant::now();
    loop {
        if let Some(st) = c.child.try_wait().unwrap() {
            if std::path::Path::new(&c.out).exists() {
                return None;
            }
            let err = std::fs::read_to_string(format!("{}/stderr-confirm", dir)).unwrap_or_default();
            return if hang { None } else { Some(format!("process died: {} {}", st, err.trim())) };
        }
        if start.elapsed() > Duration::from_secs(100) {
            let _ = c.child.kill();
            let _ = c.child.wait();
            return if hang { Some("does not terminate within 100 s".into()) } else { None };
        }
        std::thread::sleep(Duration::from_millis(20));
    }
}

pub struct CheckArgs {
    pub tier: String,
    pub seed: u64,
    pub root: String,
    pub bin_sp: String,
    pub bin_nosp: String,
    pub workers: u64,
    pub cases: Option<u64>,
}

/// Known findings: lines `known: property=<id> kind=<kind> :: <text>`.
fn known_findings(root: &str, id: &str) -> Vec<(String, String)> {
    let text = std::fs::read_to_string(format!("{}/KNOWN_FINDINGS.txt", root)).unwrap_or_default();
    let pre = format!("known: property={} kind=", id);
    text.lines()
        .filter_map(|l| l.strip_prefix(&pre))
        .filter_map(|l| l.split_once(" :: "))
        .map(|(k, t)| (k.trim().to_string(), t.trim().to_string()))
        .collect()
}

pub fn check(p: &Prop, a: CheckArgs) -> i32 {
    let start = Instant::now();
    let dir = format!("{}/harness/target/run-{}", a.root, p.id);
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&dir).unwrap();
    std::fs::create_dir_all(format!("{}/evidence", a.root)).unwrap();
    std::fs::create_dir_all(format!("{}/replays", a.root)).unwrap();
    let known = known_findings(&a.root, p.id);
    let kinds: Vec<String> = known.iter().map(|k| k.0.clone()).collect();
    for (_, text) in &known {
        println!("KNOWN-FINDING: property={} {}", p.id, text);
    }
    let total = a.cases.unwrap_or(if a.tier == "thorough" { p.thorough } else { p.quick });
    let deadline = if a.tier == "thorough" { 3 * 3600 } else { 560 };
    let n = a.workers;
    let mut ws: Vec<W> = (0..n)
        .map(|w| {
            let bin = if p.dual && w % 2 == 1 { &a.bin_nosp } else { &a.bin_sp };
            spawn(bin, p, a.seed, w, n, total, &dir, &w.to_string(), None, deadline, &kinds)
        })
        .collect();
    let mut failure: Option<Value> = None;
    let mut error: Option<String> = None;
    'outer: loop {
        let mut running = false;
        for i in 0..ws.len() {
            if ws[i].done {
                continue;
            }
            match ws[i].child.try_wait().unwrap() {
                Some(st) => {
                    ws[i].done = true;
                    if std::path::Path::new(&ws[i].out).exists() {
                        let v: Value = serde_json::from_slice(&std::fs::read(&ws[i].out).unwrap()).unwrap();
                        if !v["failure"].is_null() {
                            failure = Some(v["failure"].clone());
                            break 'outer;
                        }
                    } else {
                        let idx = read_progress(&ws[i].progress);
                        if idx == u64::MAX {
                            error = Some(format!("worker {} did not start: {}", i, st));
                            break 'outer;
                        }
                        match confirm(&ws[i], p, a.seed, idx, &dir, false) {
                            Some(d) => {
                                let variant = if ws[i].bin == a.bin_sp { "sp" } else { "nosp" };
                                failure = Some(json!({"property": p.id, "variant": variant, "seed": a.seed, "case": idx, "kind": "crash", "detail": d}));
                            }
                            None => error = Some(format!("worker {} died ({}) at case {} but the case alone does not reproduce it", i, st, idx)),
                        }
                        break 'outer;
                    }
                }
                None => {
                    running = true;
                    let cur = read_progress(&ws[i].progress);
                    if cur != ws[i].last.0 {
                        ws[i].last = (cur, Instant::now());
                    } else if ws[i].last.1.elapsed() > Duration::from_secs(150) {
                        let _ = ws[i].child.kill();
                        let _ = ws[i].child.wait();
                        // A hang is a violation only where termination is promised.
                        let promised = p.id == "C01" || p.id == "C02";
                        match confirm(&ws[i], p, a.seed, cur, &dir, true) {
                            Some(d) if promised => {
                                let variant = if ws[i].bin == a.bin_sp { "sp" } else { "nosp" };
                                failure = Some(json!({"property": p.id, "variant": variant, "seed": a.seed, "case": cur, "kind": "hang", "detail": d}));
                            }
                            _ => error = Some(format!("worker {} stuck at case {}", i, cur)),
                        }
                        break 'outer;
                    }
                }
            }
        }
        if !running {
            break;
        }
        std::thread::sleep(Duration::from_millis(20));
    }
    for w in ws.iter_mut() {
        if !w.done {
            let _ = w.child.kill();
            let _ = w.child.wait();
        }
    }
    // Merge.
    let (mut evals, mut choices, mut ntc) = (0u64, 0u64, 0u64);
    let mut classes: BTreeMap<String, u64> = BTreeMap::new();
    let mut hashes: BTreeSet<u64> = BTreeSet::new();
    let mut samples: Vec<Value> = vec![];
    let mut truncated = false;
    let mut hits: BTreeMap<String, u64> = BTreeMap::new();
    for w in &ws {
        let Ok(b) = std::fs::read(&w.out) else { continue };
        let v: Value = serde_json::from_slice(&b).unwrap();
        evals += v["evals"].as_u64().unwrap();
        ntc += v["nontrivial_cases"].as_u64().unwrap();
        choices += v["choices"].as_u64().unwrap();
        truncated |= v["truncated"].as_bool().unwrap();
        for (k, n) in v["classes"].as_object().unwrap() {
            *classes.entry(k.clone()).or_insert(0) += n.as_u64().unwrap();
        }
        for (k, n) in v["known_hits"].as_object().unwrap() {
            *hits.entry(k.clone()).or_insert(0) += n.as_u64().unwrap();
        }
        hashes.extend(v["hashes"].as_array().unwrap().iter().map(|h| h.as_u64().unwrap()));
        for s in v["samples"].as_array().unwrap().iter().take(2) {
            if samples.len() < 12 {
                samples.push(s.clone());
            }
        }
    }
    let mut code = 0;
    if let Some(f) = &failure {
        let path = format!("{}/replays/{}-seed{}-case{}.json", a.root, p.id, a.seed, f["case"]);
        std::fs::write(&path, serde_json::to_string_pretty(f).unwrap()).unwrap();
        println!("property {}: {} -- {}", p.id, f["kind"].as_str().unwrap_or(""), clip(f["detail"].as_str().unwrap_or(""), 1500));
        if let Some(ns) = f["notes"].as_array() {
            for n in ns {
                println!("  {}", clip(n.as_str().unwrap_or(""), 1500));
            }
        }
        println!("VIOLATION property={} replay={}", p.id, path);
        code = 1;
    } else if let Some(e) = &error {
        println!("ERROR property={} {}", p.id, e);
        code = 2;
    }
    let dead: Vec<String> = vec![];
    let evidence = json!({
        "property": p.id, "tier": a.tier, "seed": a.seed, "level": "exploration",
        "coverage": {
            "evaluations": evals,
            "distinct_nontrivial": hashes.len(),
            "nontrivial_cases": ntc,
            "rule": p.rule,
            "samples": samples,
            "classes": classes,
            "random_choices_drawn": choices,
            "builds": if p.dual { json!(["silent-payments on", "silent-payments off"]) } else { json!(["silent-payments on"]) },
            "stopped_by_time_limit": truncated,
            "known_finding_hits": hits,
            "exhaustive": false,
        },
        "assumptions": p.assumptions,
        "wall_s": start.elapsed().as_secs_f64(),
        "violations": if failure.is_some() { 1 } else { 0 },
    });
    let _ = dead;
    let mut f = std::fs::File::create(format!("{}/evidence/{}.json", a.root, p.id)).unwrap();
    f.write_all(serde_json::to_string_pretty(&evidence).unwrap().as_bytes()).unwrap();
    let _ = std::fs::remove_dir_all(&dir);
    println!(
        "{}: {} cases, {} non-trivial, {} distinct, {:.1} s{}",
        p.id, evals, ntc, hashes.len(), start.elapsed().as_secs_f64(),
        if truncated { " (stopped by the time limit)" } else { "" }
    );
    code
}

pub fn clip(s: &str, n: usize) -> String {
    if s.len() <= n {
        s.to_string()
    } else {
        let mut e = n;
        while !s.is_char_boundary(e) {
            e -= 1;
        }
        format!("{}... ({} bytes)", &s[..e], s.len())
    }
}

/// Replays a file written by `check`; exits 1 if it still fails.
pub fn replay(p: &Prop, f: &Value) -> i32 {
    install_panic_hook();
    let mut src = match f["choices"].as_array() {
        Some(c) => Src::replay(c.iter().map(|v| v.as_u64().unwrap()).collect()),
        None => Src::random(f["seed"].as_u64().unwrap(), p.id, f["case"].as_u64().unwrap()),
    };
    let mut ctx = Ctx { take_notes: true, ..Ctx::default() };
    let r = run_case(p, &mut src, &mut ctx);
    for n in &ctx.notes {
        println!("note: {}", n);
    }
    for (k, n) in &ctx.classes {
        println!("class: {} {}", k, n);
    }
    match r {
        Ok(()) => {
            println!("{}: the case passes", p.id);
            0
        }
        Err(e) => {
            println!("{}: {} -- {}", p.id, e.kind, e.detail);
            1
        }
    }
}

/// Samples are for reading.
fn shorten(s: &str) -> String {
    match s.char_indices().nth(2400) {
        Some((i, _)) => format!("{}... ({} bytes in all)", &s[..i], s.len()),
        None => s.to_string(),
    }
}
