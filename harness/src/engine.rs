//! Property-based testing engine: choice-sequence generation, parallel search,
//! integrated shrinking, replay files, evidence and known findings.
//!
//! Every generated case is fully determined by a sequence of bounded integer choices.  The
//! generator draws them from a ChaCha stream keyed by (VERIF_SEED, property, case index); the
//! shrinker and the replayer feed an explicit sequence instead.
use rand_chacha::ChaCha8Rng;
use rand_core::{RngCore, SeedableRng};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone, Debug)]
pub struct Failure {
    pub sig: String,
    pub msg: String,
}
pub type R<T = ()> = Result<T, Failure>;

pub fn fail<T>(sig: impl Into<String>, msg: impl Into<String>) -> R<T> {
    Err(Failure { sig: sig.into(), msg: msg.into() })
}

/// The choice source.
pub struct Src {
    data: Vec<u64>,
    pos: usize,
    rng: Option<ChaCha8Rng>,
    spans: Vec<(usize, usize)>,
    open: Vec<usize>,
}

impl Src {
    pub fn random(seed: u64, stream: u64) -> Self {
        let mut s = [0u8; 32];
        s[..8].copy_from_slice(&seed.to_le_bytes());
        s[8..16].copy_from_slice(&stream.to_le_bytes());
        Src { data: vec![], pos: 0, rng: Some(ChaCha8Rng::from_seed(s)), spans: vec![], open: vec![] }
    }
    pub fn replay(data: Vec<u64>) -> Self {
        Src { data, pos: 0, rng: None, spans: vec![], open: vec![] }
    }
    pub fn pos(&self) -> usize {
        self.pos
    }
    /// The choices made since position `p`.
    pub fn since(&self, p: usize) -> Vec<u64> {
        self.data[p.min(self.data.len())..self.pos.min(self.data.len())].to_vec()
    }
    /// uniform in 0..n
    pub fn below(&mut self, n: u64) -> u64 {
        assert!(n > 0);
        let v = match &mut self.rng {
            Some(r) => {
                let v = if n == 1 { 0 } else { ((r.next_u64() as u128 * n as u128) >> 64) as u64 };
                self.data.push(v);
                v
            }
            None => {
                let v = self.data.get(self.pos).copied().unwrap_or(0).min(n - 1);
                if self.pos < self.data.len() {
                    self.data[self.pos] = v;
                }
                v
            }
        };
        self.pos += 1;
        v
    }
    pub fn begin(&mut self) {
        self.open.push(self.pos);
    }
    pub fn end(&mut self) {
        if let Some(s) = self.open.pop() {
            self.spans.push((s, self.pos));
        }
    }
    pub fn bool(&mut self, num: u64, den: u64) -> bool {
        // simplest choice (0) is false
        self.below(den) >= den - num
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len() as u64) as usize]
    }
    /// index drawn with the given weights
    pub fn weighted(&mut self, w: &[u64]) -> usize {
        let tot: u64 = w.iter().sum();
        let mut v = self.below(tot);
        for (i, x) in w.iter().enumerate() {
            if v < *x {
                return i;
            }
            v -= x;
        }
        unreachable!()
    }
    /// uniform in lo..=hi
    pub fn range(&mut self, lo: i128, hi: i128) -> i128 {
        assert!(lo <= hi, "range {lo}..{hi}");
        let w = (hi - lo) as u128;
        if w < u64::MAX as u128 {
            return lo + self.below(w as u64 + 1) as i128;
        }
        let h = self.below((w >> 64) as u64 + 1) as u128;
        let l = self.below(u64::MAX) as u128;
        let v = (h << 64) | l;
        lo + v.min(w) as i128
    }
    /// roughly log-uniform in lo..=hi (lo >= 0), with round numbers and end points over-represented
    pub fn logu(&mut self, lo: i128, hi: i128) -> i128 {
        assert!(0 <= lo && lo <= hi, "logu {lo}..{hi}");
        if lo == hi {
            return lo;
        }
        let lb = 128 - (lo.max(1) as u128).leading_zeros() as i128;
        let hb = 128 - (hi as u128).leading_zeros() as i128;
        let kind = self.below(20);
        match kind {
            17 => return lo,
            18 => return hi,
            19 => {
                // power of ten (maybe +-1)
                let e = self.below(39) as u32;
                let d = self.range(-1, 1);
                let v = 10i128.checked_pow(e).unwrap_or(hi).saturating_add(d);
                return v.clamp(lo, hi);
            }
            _ => {}
        }
        let b = self.range(lb, hb) as u32;
        let top: i128 = if b >= 127 { i128::MAX } else { (1i128 << b) - 1 };
        let bot: i128 = if b <= 1 { 0 } else { 1i128 << (b - 1) };
        let a = bot.max(lo).min(hi);
        let z = top.min(hi).max(a);
        let v = self.range(a, z);
        v.clamp(lo, hi)
    }
}

#[derive(Default, Clone)]
pub struct Stats {
    pub labels: BTreeMap<String, u64>,
}

pub struct Ctx {
    pub src: Src,
    pub prop: &'static str,
    pub tier_thorough: bool,
    pub trace: Vec<String>,
    pub labels: HashMap<&'static str, u64>,
    pub nontrivial: bool,
    known: HashSet<String>,
    pub known_hits: BTreeMap<String, u64>,
}

impl Ctx {
    pub fn on(&self, p: &str) -> bool {
        self.prop == p
    }
    pub fn label(&mut self, l: &'static str) {
        *self.labels.entry(l).or_insert(0) += 1;
    }
    pub fn log(&mut self, s: impl Into<String>) {
        self.trace.push(s.into());
    }
    /// A failure that need not end the case: counted and passed over when it is a listed finding.
    pub fn soft(&mut self, sig: &str, msg: String) -> R {
        if self.known.contains(sig) {
            *self.known_hits.entry(sig.to_string()).or_insert(0) += 1;
            Ok(())
        } else {
            fail(sig, msg)
        }
    }
    /// Draw the number of steps; small is simple.
    pub fn steps(&mut self, min: u64, max: u64) -> u64 {
        // number of steps: drawn once, small is simple
        min + self.src.below(max - min + 1)
    }
}

/// An assertion of property `$p` (ignored when another property is being checked).
#[macro_export]
macro_rules! check {
    ($ctx:expr, $p:expr, $cond:expr, $sig:expr, $($arg:tt)*) => {
        if $ctx.on($p) && !($cond) {
            return Err($crate::engine::Failure { sig: $sig.to_string(), msg: format!($($arg)*) });
        }
    };
}

/// An assertion shared by several properties.
#[macro_export]
macro_rules! check_any {
    ($ctx:expr, [$($p:expr),*], $cond:expr, $sig:expr, $($arg:tt)*) => {
        if ($($ctx.on($p) ||)* false) && !($cond) {
            return Err($crate::engine::Failure { sig: $sig.to_string(), msg: format!($($arg)*) });
        }
    };
}

pub struct Scenario {
    pub name: &'static str,
    pub run: fn(&mut Ctx) -> R,
    pub quick: u64,
    pub thorough: u64,
}

pub struct Prop {
    pub id: &'static str,
    pub title: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub scenarios: Vec<Scenario>,
}

struct CaseOut {
    failure: Option<Failure>,
    data: Vec<u64>,
    spans: Vec<(usize, usize)>,
    trace: Vec<String>,
    labels: HashMap<&'static str, u64>,
    nontrivial: bool,
    known_hits: BTreeMap<String, u64>,
}

thread_local! {
    static PANIC_MSG: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

/// Calls one case may make; many times what the longest histories need.  A history that the code
/// under test keeps from ending (say, a stake that is never given back) stops there.
pub const MAX_CALLS: u32 = 100_000;

thread_local! {
    static CALLS: std::cell::Cell<u32> = const { std::cell::Cell::new(0) };
}

pub fn count_call() {
    CALLS.with(|c| {
        c.set(c.get() + 1);
        assert!(c.get() < MAX_CALLS, "the history does not end: {} calls", MAX_CALLS);
    });
}

/// Cases that are being run: (since, scenario, case) by thread.
static RUNNING: Mutex<BTreeMap<u64, (Instant, &'static str, u64)>> = Mutex::new(BTreeMap::new());
static NEXT_THREAD: AtomicU64 = AtomicU64::new(0);
thread_local! {
    static THREAD: u64 = NEXT_THREAD.fetch_add(1, Ordering::Relaxed);
    static CASE: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
}

/// A case usually takes a fraction of a second; code that never comes back (the contracts are
/// metered, the packages that are called directly are not) is reported after this long.
const HANG: Duration = Duration::from_secs(180);

fn watch(prop: &'static str, seed: u64, root: String) {
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_secs(1));
        let late = RUNNING.lock().unwrap().values().find(|x| x.0.elapsed() > HANG).copied();
        if let Some((_, scenario, case)) = late {
            let _ = std::fs::create_dir_all(format!("{root}/replays"));
            let path = format!("{root}/replays/{prop}-{scenario}-{seed}.json");
            let rep = json!({"property": prop, "scenario": scenario, "seed": seed, "case": case, "hang": true,
                "signature": "hang", "message": "the case does not end", "choices": []});
            let _ = std::fs::write(&path, serde_json::to_string_pretty(&rep).unwrap());
            println!("  [hang] case {case} of {scenario} does not end");
            println!("VIOLATION property={prop} replay={path}");
            std::process::exit(1);
        }
    });
}

fn run_case(prop: &'static str, sc: &Scenario, src: Src, thorough: bool, known: &HashSet<String>) -> CaseOut {
    CALLS.with(|c| c.set(0));
    let me = THREAD.with(|t| *t);
    RUNNING.lock().unwrap().insert(me, (Instant::now(), sc.name, CASE.with(|c| c.get())));
    let o = run_case_here(prop, sc, src, thorough, known);
    RUNNING.lock().unwrap().remove(&me);
    o
}

fn run_case_here(prop: &'static str, sc: &Scenario, src: Src, thorough: bool, known: &HashSet<String>) -> CaseOut {
    let mut ctx = Ctx {
        src,
        prop,
        tier_thorough: thorough,
        trace: vec![],
        labels: HashMap::new(),
        nontrivial: false,
        known: known.clone(),
        known_hits: BTreeMap::new(),
    };
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (sc.run)(&mut ctx)));
    let failure = match r {
        Ok(Ok(())) => None,
        Ok(Err(f)) => Some(f),
        Err(_) => Some(Failure {
            sig: "panic".into(),
            msg: format!("panic outside a contract call: {}", PANIC_MSG.with(|m| m.borrow().clone())),
        }),
    };
    CaseOut {
        failure,
        data: std::mem::take(&mut ctx.src.data),
        spans: std::mem::take(&mut ctx.src.spans),
        trace: ctx.trace,
        labels: ctx.labels,
        nontrivial: ctx.nontrivial,
        known_hits: ctx.known_hits,
    }
}

fn fnv(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

fn shrink(prop: &'static str, sc: &Scenario, first: CaseOut, thorough: bool, known: &HashSet<String>, limit: Duration) -> (CaseOut, u64) {
    let t0 = Instant::now();
    let sig = first.failure.as_ref().unwrap().sig.clone();
    let mut best = first;
    let mut runs = 0u64;
    let mut attempt = |best: &mut CaseOut, cand: Vec<u64>| -> bool {
        runs += 1;
        let o = run_case(prop, sc, Src::replay(cand), thorough, known);
        if o.failure.as_ref().map(|f| f.sig == sig).unwrap_or(false) {
            *best = o;
            true
        } else {
            false
        }
    };
    loop {
        let mut improved = false;
        // delete whole spans (operations), last first
        let mut i = best.spans.len();
        while i > 0 {
            i -= 1;
            if t0.elapsed() > limit {
                return (best, runs);
            }
            if i >= best.spans.len() {
                i = best.spans.len();
                continue;
            }
            let (s, e) = best.spans[i];
            if e <= s || e > best.data.len() {
                continue;
            }
            let mut c = best.data.clone();
            c.drain(s..e);
            if attempt(&mut best, c) {
                improved = true;
            }
        }
        // delete blocks
        for k in [16usize, 8, 4, 2, 1] {
            let mut i = 0;
            while i + k <= best.data.len() {
                if t0.elapsed() > limit {
                    return (best, runs);
                }
                let mut c = best.data.clone();
                c.drain(i..i + k);
                if c.len() < best.data.len() && attempt(&mut best, c) {
                    improved = true;
                } else {
                    i += k;
                }
            }
        }
        // lower values
        for i in 0..best.data.len() {
            if t0.elapsed() > limit {
                return (best, runs);
            }
            if i >= best.data.len() || best.data[i] == 0 {
                continue;
            }
            let mut c = best.data.clone();
            c[i] = 0;
            if attempt(&mut best, c) {
                improved = true;
                continue;
            }
            let mut lo = 0u64; // fails to reproduce
            let mut steps = 0;
            while i < best.data.len() && best.data[i] > lo + 1 && steps < 24 {
                steps += 1;
                let hi = best.data[i];
                let mid = lo + (hi - lo) / 2;
                let mut c = best.data.clone();
                c[i] = mid;
                if attempt(&mut best, c) {
                    improved = true;
                } else {
                    lo = mid;
                }
                if t0.elapsed() > limit {
                    return (best, runs);
                }
            }
        }
        if !improved {
            return (best, runs);
        }
    }
}

pub struct Finding {
    pub property: String,
    pub sig: String,
    pub what: String,
    pub scenario: String,
    pub choices: Vec<u64>,
}

pub fn load_findings(path: &str) -> Vec<Finding> {
    let Ok(s) = std::fs::read_to_string(path) else { return vec![] };
    let v: Value = serde_json::from_str(&s).expect("known findings file is not JSON");
    let mut out = vec![];
    for f in v["findings"].as_array().cloned().unwrap_or_default() {
        out.push(Finding {
            property: f["property"].as_str().unwrap_or("").to_string(),
            sig: f["signature"].as_str().unwrap_or("").to_string(),
            what: f["what"].as_str().unwrap_or("").to_string(),
            scenario: f["scenario"].as_str().unwrap_or("").to_string(),
            choices: f["choices"].as_array().cloned().unwrap_or_default().iter().filter_map(|x| x.as_u64()).collect(),
        });
    }
    out
}

pub struct Config {
    pub seed: u64,
    pub thorough: bool,
    pub scale: f64,
    pub time_cap: Duration,
    pub root: String,
}

fn env_num(name: &str) -> Option<u64> {
    std::env::var(name).ok().and_then(|s| s.parse().ok())
}

fn hook_panics() {
    std::panic::set_hook(Box::new(|info| {
        let s = info.to_string();
        PANIC_MSG.with(|m| *m.borrow_mut() = s);
    }));
}

/// Runs one property; returns the exit code.
pub fn run_prop(p: &Prop, cfg: &Config) -> i32 {
    hook_panics();
    watch(p.id, cfg.seed, cfg.root.clone());
    let t0 = Instant::now();
    let known: Vec<Finding> = load_findings(&format!("{}/known_findings.json", cfg.root))
        .into_iter()
        .filter(|f| f.property == p.id)
        .collect();
    let known_sigs: HashSet<String> = known.iter().map(|f| f.sig.clone()).collect();

    // 1. listed findings are demonstrated from their recorded history
    let mut known_lines = vec![];
    for f in &known {
        let sc = p.scenarios.iter().find(|s| s.name == f.scenario);
        let still = match sc {
            Some(sc) => {
                let o = run_case(p.id, sc, Src::replay(f.choices.clone()), cfg.thorough, &HashSet::new());
                matches!(&o.failure, Some(x) if x.sig == f.sig)
            }
            None => false,
        };
        if still {
            println!("KNOWN-FINDING: property={} {}", p.id, f.what);
            known_lines.push(f.what.clone());
        } else {
            println!("note: listed finding [{}] no longer reproduces from its recorded history", f.sig);
        }
    }

    let mut evaluations = 0u64;
    let mut nontrivial = 0u64;
    let mut distinct: HashSet<u64> = HashSet::new();
    let mut labels: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples: Vec<Value> = vec![];
    let mut known_hits: BTreeMap<String, u64> = BTreeMap::new();
    let mut violations: Vec<Value> = vec![];
    let mut capped = false;
    let mut exit = 0;
    let mut per_scenario = vec![];
    let nsc = p.scenarios.len() as u32;

    for (si, sc) in p.scenarios.iter().enumerate() {
        let total = ((if cfg.thorough { sc.thorough } else { sc.quick }) as f64 * cfg.scale).ceil() as u64;
        let next = AtomicU64::new(0);
        let stop = AtomicBool::new(false);
        let first_bad: Mutex<Option<(u64, CaseOut)>> = Mutex::new(None);
        struct Acc {
            n: u64,
            nt: u64,
            distinct: HashSet<u64>,
            labels: BTreeMap<String, u64>,
            samples: Vec<(u64, Vec<String>)>,
            known: BTreeMap<String, u64>,
            capped: bool,
        }
        let acc = Mutex::new(Acc {
            n: 0,
            nt: 0,
            distinct: HashSet::new(),
            labels: BTreeMap::new(),
            samples: vec![],
            known: BTreeMap::new(),
            capped: false,
        });
        let base = fnv(&format!("{}/{}", p.id, sc.name));
        let sc_start = Instant::now();
        // remaining time is shared over the remaining scenarios
        let left = cfg.time_cap.saturating_sub(t0.elapsed());
        let sc_cap = left / (nsc - si as u32);
        let nthreads = env_num("VH_THREADS").map(|n| n as usize).unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(16));
        std::thread::scope(|scope| {
            for _ in 0..nthreads {
                std::thread::Builder::new()
                    .stack_size(256 << 20)
                    .spawn_scoped(scope, || loop {
                        if stop.load(Ordering::Relaxed) {
                            break;
                        }
                        if sc_start.elapsed() > sc_cap {
                            acc.lock().unwrap().capped = true;
                            break;
                        }
                        let i = next.fetch_add(1, Ordering::Relaxed);
                        if i >= total {
                            break;
                        }
                        let src = Src::random(cfg.seed ^ base, i);
                        CASE.with(|c| c.set(i));
                        let o = run_case(p.id, sc, src, cfg.thorough, &known_sigs);
                        let mut a = acc.lock().unwrap();
                        a.n += 1;
                        for (k, v) in &o.labels {
                            *a.labels.entry(format!("{}.{}", sc.name, k)).or_insert(0) += v;
                        }
                        for (k, v) in &o.known_hits {
                            *a.known.entry(k.clone()).or_insert(0) += v;
                        }
                        if o.nontrivial {
                            a.nt += 1;
                            let mut h = 0xcbf29ce484222325u64;
                            for d in &o.data {
                                h ^= *d;
                                h = h.wrapping_mul(0x100000001b3);
                            }
                            a.distinct.insert(h);
                            if a.samples.len() < 40 || i < 40 {
                                a.samples.push((i, o.trace.clone()));
                            }
                        }
                        if let Some(f) = &o.failure {
                            if known_sigs.contains(&f.sig) {
                                *a.known.entry(f.sig.clone()).or_insert(0) += 1;
                            } else {
                                drop(a);
                                let mut b = first_bad.lock().unwrap();
                                if b.as_ref().map(|(j, _)| i < *j).unwrap_or(true) {
                                    *b = Some((i, o));
                                }
                                stop.store(true, Ordering::Relaxed);
                            }
                        }
                    })
                    .unwrap();
            }
        });
        let a = acc.into_inner().unwrap();
        evaluations += a.n;
        nontrivial += a.nt;
        for d in a.distinct {
            distinct.insert(d ^ base);
        }
        for (k, v) in a.labels {
            *labels.entry(k).or_insert(0) += v;
        }
        for (k, v) in a.known {
            *known_hits.entry(k).or_insert(0) += v;
        }
        capped |= a.capped;
        let mut s = a.samples;
        s.sort_by_key(|x| x.0);
        for (i, t) in s.into_iter().take(2) {
            let t: Vec<String> = t.into_iter().take(30).collect();
            samples.push(json!({"scenario": sc.name, "case": i, "history": t}));
        }
        per_scenario.push(json!({"scenario": sc.name, "planned": total, "run": a.n, "nontrivial": a.nt,
            "wall_s": sc_start.elapsed().as_secs_f64()}));
        if let Some((i, o)) = first_bad.into_inner().unwrap() {
            let orig_len = o.data.len();
            CASE.with(|c| c.set(i));
            let (best, runs) = shrink(p.id, sc, o, cfg.thorough, &known_sigs, Duration::from_secs(env_num("VH_SHRINK").unwrap_or(if cfg.thorough { 120 } else { 40 })));
            let f = best.failure.clone().unwrap();
            let dir = format!("{}/replays", cfg.root);
            let _ = std::fs::create_dir_all(&dir);
            let path = format!("{}/{}-{}-{}.json", dir, p.id, sc.name, cfg.seed);
            let rep = json!({
                "property": p.id, "scenario": sc.name, "seed": cfg.seed, "case": i,
                "signature": f.sig, "message": f.msg,
                "choices": best.data, "history": best.trace,
                "shrunk_from_choices": orig_len, "shrink_runs": runs,
            });
            std::fs::write(&path, serde_json::to_string_pretty(&rep).unwrap()).expect("write replay");
            println!("failing history ({} / case {}):", sc.name, i);
            for l in &best.trace {
                println!("    {}", l);
            }
            println!("  [{}] {}", f.sig, f.msg);
            println!("VIOLATION property={} replay={}", p.id, path);
            violations.push(json!({"signature": f.sig, "message": f.msg, "replay": path}));
            exit = 1;
            break;
        }
    }

    let ev = json!({
        "property": p.id,
        "title": p.title,
        "tier": if cfg.thorough { "thorough" } else { "quick" },
        "seed": cfg.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": distinct.len(),
            "nontrivial": nontrivial,
            "rule": p.rule,
            "classes": labels,
            "scenarios": per_scenario,
            "time_capped": capped,
            "known_finding_hits": known_hits,
            "samples": samples,
        },
        "known_findings": known_lines,
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": violations,
        "assumptions": p.assumptions,
    });
    let _ = std::fs::create_dir_all(format!("{}/evidence", cfg.root));
    std::fs::write(format!("{}/evidence/{}.json", cfg.root, p.id), serde_json::to_string_pretty(&ev).unwrap())
        .expect("write evidence");
    println!(
        "{}: {} cases, {} non-trivial ({} distinct), {:.1}s{}",
        p.id,
        evaluations,
        nontrivial,
        distinct.len(),
        t0.elapsed().as_secs_f64(),
        if capped { " (time cap reached)" } else { "" }
    );
    if exit == 0 && distinct.is_empty() {
        println!("{}: no non-trivial case was generated", p.id);
        return 3;
    }
    exit
}

pub fn replay(props: &[Prop], path: &str) -> i32 {
    hook_panics();
    let v: Value = serde_json::from_str(&std::fs::read_to_string(path).expect("read replay")).expect("json");
    let pid = v["property"].as_str().unwrap();
    let p = props.iter().find(|p| p.id == pid).expect("unknown property");
    let sc = p.scenarios.iter().find(|s| Some(s.name) == v["scenario"].as_str()).expect("unknown scenario");
    let data: Vec<u64> = v["choices"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap()).collect();
    let src = match (v["hang"].as_bool(), v["seed"].as_u64(), v["case"].as_u64()) {
        (Some(true), Some(seed), Some(case)) => {
            watch(p.id, seed, std::env::temp_dir().to_string_lossy().into_owned());
            Src::random(seed ^ fnv(&format!("{}/{}", p.id, sc.name)), case)
        }
        _ => Src::replay(data),
    };
    let o = run_case(p.id, sc, src, false, &HashSet::new());
    for l in &o.trace {
        println!("    {}", l);
    }
    match o.failure {
        Some(f) => {
            println!("  [{}] {}", f.sig, f.msg);
            println!("VIOLATION property={} replay={}", p.id, path);
            1
        }
        None => {
            println!("replay passes");
            0
        }
    }
}
