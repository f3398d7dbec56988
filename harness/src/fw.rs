//! Property-based testing driver: sharded proptest runners, shrinking, replay files, evidence.
use proptest::strategy::{BoxedStrategy, Strategy};
use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
use serde::{Serialize, de::DeserializeOwned};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::Mutex;
use std::sync::atomic::{AtomicBool, Ordering};
use std::time::{Duration, Instant};

/// Outcome of one generated case.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Out {
    /// Evaluated, and exercised the behaviour that the property is about.
    Hit,
    /// Evaluated, but trivially.
    Trivial,
    /// Precondition not met: not an evaluation.
    Discard,
}

#[derive(Clone, Debug)]
pub struct Fail {
    pub sig: String,
    pub msg: String,
}

pub type R = Result<Out, Fail>;

pub fn fail<T>(sig: &str, msg: impl Into<String>) -> Result<T, Fail> {
    Err(Fail {
        sig: sig.to_string(),
        msg: msg.into(),
    })
}

#[macro_export]
macro_rules! req {
    ($cond:expr, $sig:expr, $($arg:tt)*) => {
        if !($cond) {
            return $crate::fw::fail($sig, format!($($arg)*));
        }
    };
}

/// Relative-or-absolute closeness; NaN is never close.
pub fn close(a: f64, b: f64, rel: f64, abs: f64) -> bool {
    (a - b).abs() <= abs + rel * a.abs().max(b.abs())
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub struct Ctx {
    pub prop: String,
    pub tier: Tier,
    pub seed: u64,
    pub known: BTreeMap<(String, String), String>, // (sub, sig) -> what
    pub start: Instant,
    pub budget: Duration,
    pub shards: usize,
    pub case_limit: Duration,
}

#[derive(Default)]
pub struct SubReport {
    pub name: String,
    pub rule: String,
    pub evals: u64,
    pub hits: u64,
    pub discards: u64,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
    pub known_hit: BTreeSet<String>,
    pub failure: Option<(String, String, String)>, // sig, msg, minimal json
    pub truncated: bool,
    pub wall_s: f64,
}

pub trait Sub: Send + Sync {
    fn name(&self) -> &str;
    fn run(&self, ctx: &Ctx) -> SubReport;
    fn replay(&self, json: &str) -> R;
}

struct SubImpl<T, G, F> {
    name: &'static str,
    rule: &'static str,
    quick: u32,
    thorough: u32,
    mk: G,
    f: F,
    _p: std::marker::PhantomData<fn() -> T>,
}

/// Declares a sub-check: `quick`/`thorough` = number of generated cases for each tier.
pub fn sub<T, G, F, S>(
    name: &'static str,
    rule: &'static str,
    quick: u32,
    thorough: u32,
    mk: G,
    f: F,
) -> Box<dyn Sub>
where
    T: Debug + Clone + Serialize + DeserializeOwned + 'static,
    S: Strategy<Value = T> + 'static,
    G: Fn() -> S + Send + Sync + 'static,
    F: Fn(&T) -> R + Send + Sync + 'static,
{
    Box::new(SubImpl {
        name,
        rule,
        quick,
        thorough,
        mk: move || mk().boxed(),
        f,
        _p: std::marker::PhantomData::<fn() -> T>,
    })
}

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{msg} at {loc}"));
    }));
}

/// Calls `f`, turning a panic of the code under test into a failure.
pub fn guarded<X>(f: impl FnOnce() -> X) -> Result<X, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(x) => Ok(x),
        Err(p) => {
            let mut m = LAST_PANIC.with(|p| p.borrow().clone());
            if m.is_empty() {
                m = if let Some(s) = p.downcast_ref::<String>() {
                    s.clone()
                } else if let Some(s) = p.downcast_ref::<&str>() {
                    s.to_string()
                } else {
                    "panic".into()
                };
            }
            LAST_PANIC.with(|p| p.borrow_mut().clear());
            Err(m)
        }
    }
}

pub fn h64(s: &str) -> u64 {
    // FNV-1a: stable across toolchains.
    let mut h: u64 = 0xcbf29ce484222325;
    for b in s.as_bytes() {
        h ^= *b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

fn seed_bytes(parts: &str) -> [u8; 32] {
    let mut out = [0u8; 32];
    for i in 0..4 {
        let mut hasher = Fnv(0xcbf29ce484222325 ^ (i as u64).wrapping_mul(0x9E3779B97F4A7C15));
        parts.hash(&mut hasher);
        out[8 * i..8 * i + 8].copy_from_slice(&hasher.finish().to_le_bytes());
    }
    out
}

struct Fnv(u64);
impl Hasher for Fnv {
    fn finish(&self) -> u64 {
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    fn write(&mut self, bytes: &[u8]) {
        for b in bytes {
            self.0 ^= *b as u64;
            self.0 = self.0.wrapping_mul(0x100000001b3);
        }
    }
}

impl<T, G, F> SubImpl<T, G, F>
where
    T: Debug + Clone + Serialize + DeserializeOwned + 'static,
    G: Fn() -> BoxedStrategy<T> + Send + Sync + 'static,
    F: Fn(&T) -> R + Send + Sync + 'static,
{
    fn eval(&self, v: &T) -> R {
        match guarded(|| (self.f)(v)) {
            Ok(r) => r,
            Err(m) => fail("panic", format!("panicked: {m}")),
        }
    }
}

impl<T, G, F> Sub for SubImpl<T, G, F>
where
    T: Debug + Clone + Serialize + DeserializeOwned + 'static,
    G: Fn() -> BoxedStrategy<T> + Send + Sync + 'static,
    F: Fn(&T) -> R + Send + Sync + 'static,
{
    fn name(&self) -> &str {
        self.name
    }

    fn replay(&self, json: &str) -> R {
        let v: T = serde_json::from_str(json).map_err(|e| Fail {
            sig: "replay".into(),
            msg: format!("cannot parse the replay input: {e}"),
        })?;
        self.eval(&v)
    }

    fn run(&self, ctx: &Ctx) -> SubReport {
        let t0 = Instant::now();
        let total = match ctx.tier {
            Tier::Quick => self.quick,
            Tier::Thorough => self.thorough,
        };
        let shards = ctx.shards.min(total.max(1) as usize).max(1);
        let rep = Mutex::new(SubReport {
            name: self.name.into(),
            rule: self.rule.into(),
            ..Default::default()
        });
        let stop = AtomicBool::new(false);
        // Current case of each shard, for the watchdog.
        let current: Vec<Mutex<Option<(Instant, String)>>> =
            (0..shards).map(|_| Mutex::new(None)).collect();
        let fails: Mutex<BTreeMap<usize, (String, String, String)>> = Mutex::new(BTreeMap::new());
        let done = AtomicBool::new(false);

        std::thread::scope(|sc| {
            let mut handles = Vec::new();
            for shard in 0..shards {
                let rep = &rep;
                let stop = &stop;
                let current = &current;
                let fails = &fails;
                handles.push(std::thread::Builder::new().stack_size(32 << 20).spawn_scoped(sc, move || {
                    let cases = total / shards as u32
                        + u32::from((shard as u32) < total % shards as u32);
                    if cases == 0 {
                        return;
                    }
                    let cfg = Config {
                        cases,
                        failure_persistence: None,
                        max_shrink_iters: 600,
                        max_shrink_time: 40_000,
                        max_global_rejects: 1_000_000,
                        max_local_rejects: 1_000_000,
                        ..Config::default()
                    };
                    let seed = seed_bytes(&format!(
                        "{}/{}/{}/{}",
                        ctx.seed, ctx.prop, self.name, shard
                    ));
                    let rng = TestRng::from_seed(RngAlgorithm::ChaCha, &seed);
                    let mut runner = TestRunner::new_with_rng(cfg, rng);
                    let strat = (self.mk)();
                    let failed = RefCell::new(false);
                    let last = RefCell::new((String::new(), String::new()));
                    let res = runner.run(&strat, |v| {
                        if !*failed.borrow() {
                            if stop.load(Ordering::Relaxed) {
                                return Ok(());
                            }
                            if ctx.start.elapsed() > ctx.budget {
                                rep.lock().unwrap().truncated = true;
                                return Ok(());
                            }
                        }
                        let js = serde_json::to_string(&v).unwrap_or_default();
                        *current[shard].lock().unwrap() = Some((Instant::now(), js.clone()));
                        let r = self.eval(&v);
                        *current[shard].lock().unwrap() = None;
                        let counting = !*failed.borrow();
                        match r {
                            Ok(o) => {
                                if counting {
                                    let mut g = rep.lock().unwrap();
                                    match o {
                                        Out::Discard => g.discards += 1,
                                        Out::Trivial => g.evals += 1,
                                        Out::Hit => {
                                            g.evals += 1;
                                            g.hits += 1;
                                            g.distinct.insert(h64(&js));
                                            if g.samples.len() < 3 {
                                                let mut s = js;
                                                if s.len() > 600 {
                                                    let mut k = 600;
                                                    while !s.is_char_boundary(k) {
                                                        k -= 1;
                                                    }
                                                    s.truncate(k);
                                                    s.push('…');
                                                }
                                                g.samples.push(s);
                                            }
                                        }
                                    }
                                }
                                Ok(())
                            }
                            Err(f) => {
                                if ctx
                                    .known
                                    .contains_key(&(self.name.to_string(), f.sig.clone()))
                                {
                                    let mut g = rep.lock().unwrap();
                                    if counting {
                                        g.evals += 1;
                                    }
                                    g.known_hit.insert(f.sig);
                                    return Ok(());
                                }
                                if counting {
                                    rep.lock().unwrap().evals += 1;
                                }
                                *failed.borrow_mut() = true;
                                stop.store(true, Ordering::Relaxed);
                                *last.borrow_mut() = (f.sig.clone(), f.msg.clone());
                                Err(TestCaseError::fail(f.msg))
                            }
                        }
                    });
                    if let Err(e) = res {
                        let (sig, msg) = last.into_inner();
                        match e {
                            TestError::Fail(_, v) => {
                                // Re-evaluate the minimal case to report its own message.
                                let (sig, msg) = match self.eval(&v) {
                                    Err(f) => (f.sig, f.msg),
                                    _ => (sig, msg),
                                };
                                fails.lock().unwrap().insert(
                                    shard,
                                    (sig, msg, serde_json::to_string(&v).unwrap_or_default()),
                                );
                            }
                            TestError::Abort(r) => {
                                // The generator itself gave up: not a verdict about the code.
                                eprintln!("generator aborted in {}: {r}", self.name);
                            }
                        }
                    }
                }).expect("cannot start a worker"));
            }
            // Watchdog
            let current = &current;
            let done_r = &done;
            let ctx_r = &ctx;
            let name = self.name;
            sc.spawn(move || {
                while !done_r.load(Ordering::Relaxed) {
                    std::thread::sleep(Duration::from_millis(100));
                    for c in current {
                        let g = c.lock().unwrap();
                        if let Some((t, js)) = &*g
                            && t.elapsed() > ctx_r.case_limit
                        {
                            let p = write_replay(
                                &ctx_r.prop,
                                name,
                                "hang",
                                &format!("no answer after {:?}", ctx_r.case_limit),
                                js,
                            );
                            println!("[{}] {name}: case did not terminate", ctx_r.prop);
                            println!("VIOLATION property={} replay={}", ctx_r.prop, p);
                            std::process::exit(1);
                        }
                    }
                }
            });
            for h in handles {
                let _ = h.join();
            }
            done.store(true, Ordering::Relaxed);
        });

        let mut rep = rep.into_inner().unwrap();
        rep.failure = fails.into_inner().unwrap().into_values().next();
        rep.wall_s = t0.elapsed().as_secs_f64();
        rep
    }
}

pub fn verif_dir() -> String {
    std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".to_string())
}

pub fn write_replay(prop: &str, sub: &str, sig: &str, msg: &str, input: &str) -> String {
    let dir = format!("{}/replays", verif_dir());
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{dir}/{prop}-{sub}.json");
    let v = serde_json::json!({
        "property": prop, "sub": sub, "signature": sig, "message": msg, "input": input,
        "how": format!("bash {}/check.sh --replay {path}", verif_dir()),
    });
    let _ = std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap());
    path
}

/// Known findings: lines `known: property=<id> sub=<sub> sig=<sig> <what fails>`.
pub fn load_known(prop: &str) -> BTreeMap<(String, String), String> {
    let mut m = BTreeMap::new();
    let path = format!("{}/known_findings.txt", verif_dir());
    if let Ok(s) = std::fs::read_to_string(path) {
        for line in s.lines() {
            let Some(rest) = line.trim().strip_prefix("known:") else {
                continue;
            };
            let mut it = rest.trim().splitn(4, ' ');
            let p = it.next().and_then(|x| x.strip_prefix("property="));
            let su = it.next().and_then(|x| x.strip_prefix("sub="));
            let si = it.next().and_then(|x| x.strip_prefix("sig="));
            if let (Some(p), Some(su), Some(si)) = (p, su, si)
                && p == prop
            {
                m.insert(
                    (su.to_string(), si.to_string()),
                    it.next().unwrap_or("").to_string(),
                );
            }
        }
    }
    m
}

pub struct Prop {
    pub id: &'static str,
    pub assumptions: &'static [&'static str],
    pub subs: Vec<Box<dyn Sub>>,
}

/// Runs all sub-checks of a property, writes evidence, and returns the exit code.
pub fn run_prop(prop: &Prop, tier: Tier, seed: u64, only: Option<&str>) -> i32 {
    let start = Instant::now();
    let env_u64 = |k: &str, d: u64| {
        std::env::var(k)
            .ok()
            .and_then(|v| v.parse::<u64>().ok())
            .unwrap_or(d)
    };
    let budget = match tier {
        Tier::Quick => env_u64("VERIF_BUDGET_S", 330),
        Tier::Thorough => env_u64("VERIF_BUDGET_S", 3600),
    };
    let shards = std::thread::available_parallelism()
        .map(|n| n.get())
        .unwrap_or(8)
        .clamp(8, 8);
    let ctx = Ctx {
        prop: prop.id.to_string(),
        tier,
        seed,
        known: load_known(prop.id),
        start,
        budget: Duration::from_secs(budget),
        shards,
        case_limit: Duration::from_secs(env_u64("VERIF_CASE_S", 150)),
    };
    let mut violations = Vec::new();
    let mut evals = 0u64;
    let mut distinct = 0u64;
    let mut rules = Vec::new();
    let mut samples = Vec::new();
    let mut known_lines = BTreeSet::new();
    let mut per_sub = Vec::new();
    let mut truncated = false;
    for s in &prop.subs {
        if let Some(o) = only
            && o != s.name()
        {
            continue;
        }
        let r = s.run(&ctx);
        println!(
            "[{}] {:<28} evaluated {:>7}  non-trivial {:>7}  discarded {:>6}  {:.1} s{}",
            prop.id,
            r.name,
            r.evals,
            r.hits,
            r.discards,
            r.wall_s,
            if r.truncated { "  (time budget reached)" } else { "" }
        );
        evals += r.evals;
        distinct += r.distinct.len() as u64;
        truncated |= r.truncated;
        rules.push(format!("{}: {}", r.name, r.rule));
        for x in &r.samples {
            samples.push(format!("{}: {}", r.name, x));
        }
        for k in &r.known_hit {
            known_lines.insert(
                ctx.known[&(r.name.clone(), k.clone())].clone(),
            );
        }
        per_sub.push(serde_json::json!({
            "name": r.name, "evaluations": r.evals, "nontrivial": r.hits,
            "distinct_nontrivial": r.distinct.len(), "discarded": r.discards, "wall_s": r.wall_s,
        }));
        if let Some((sig, msg, js)) = r.failure {
            let p = write_replay(prop.id, &r.name, &sig, &msg, &js);
            println!("[{}] {} FAILED [{}]: {}", prop.id, r.name, sig, msg);
            println!("    minimal input: {js}");
            println!("VIOLATION property={} replay={}", prop.id, p);
            violations.push(p);
        }
    }
    for k in &known_lines {
        println!("KNOWN-FINDING: property={} {}", prop.id, k);
    }
    let wall = start.elapsed().as_secs_f64();
    samples.truncate(24);
    let mut assumptions: Vec<String> = prop.assumptions.iter().map(|s| s.to_string()).collect();
    if truncated {
        assumptions.push("the time budget was reached before all planned cases ran".into());
    }
    let ev = serde_json::json!({
        "property": prop.id,
        "tier": if tier == Tier::Quick { "quick" } else { "thorough" },
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evals,
            "distinct_nontrivial": distinct,
            "rule": rules.join(" | "),
            "samples": samples,
            "per_check": per_sub,
        },
        "wall_s": wall,
        "violations": violations.len(),
        "assumptions": assumptions,
    });
    let dir = format!("{}/evidence", verif_dir());
    let _ = std::fs::create_dir_all(&dir);
    if only.is_none() {
        let _ = std::fs::write(
            format!("{dir}/{}.json", prop.id),
            serde_json::to_string_pretty(&ev).unwrap(),
        );
    }
    if violations.is_empty() { 0 } else { 1 }
}
