//! Property-based testing harness for sqrid: runner, evidence, replay.
//!
//! A check (one binary per property) is a list of facets. A facet is a proptest strategy plus a
//! test function with an explicit oracle; each facet is run in `SHARDS` independent, fixed-work
//! shards whose random streams are a pure function of VERIF_SEED, the facet's name and the shard
//! number. The first failure of a facet is shrunk by proptest and written as a JSON replay file,
//! which `--replay FILE` re-executes without proptest.

use proptest::strategy::{BoxedStrategy, Strategy};
use proptest::test_runner::{
    Config, RngAlgorithm, RngSeed, TestCaseError, TestError, TestRng, TestRunner,
};
use serde::de::DeserializeOwned;
use serde::Serialize;
use std::any::Any;
use std::cell::RefCell;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::sync::Mutex;
use std::time::Instant;

pub mod dims;
pub mod gen;
pub mod iterlaw;
pub mod maze;
pub mod race;
pub mod rustc;

pub type R = Result<(), String>;

const SHARDS: u64 = 8;

/// The build without overflow checks and debug assertions: it runs other cases, fewer of them, and
/// leaves its counts for the checked build, which runs after it and writes the evidence.
pub const PLAIN: bool = !cfg!(debug_assertions);

fn part_file(property: &str) -> PathBuf {
    verif_dir().join("target").join(format!("{property}-plain.json"))
}

/// Per-case observations: is the case non-trivial, which classes does it belong to.
#[derive(Default, Clone)]
pub struct Obs {
    pub nontrivial: bool,
    pub labels: Vec<&'static str>,
    pub excluded: u64,
}

impl Obs {
    pub fn nt(&mut self, cond: bool) {
        self.nontrivial |= cond;
    }
    pub fn label(&mut self, l: &'static str) {
        if !self.labels.contains(&l) {
            self.labels.push(l);
        }
    }
    pub fn label_if(&mut self, cond: bool, l: &'static str) {
        if cond {
            self.label(l);
        }
    }
    /// Count something left out by construction because it is a listed known finding.
    pub fn exclude(&mut self) {
        self.excluded += 1;
    }
}

/// Fail the current case unless the condition holds.
#[macro_export]
macro_rules! ensure {
    ($cond:expr, $($arg:tt)*) => {
        if !($cond) {
            return Err(format!($($arg)*));
        }
    };
}

/// Fail the current case unless both values are equal.
#[macro_export]
macro_rules! ensure_eq {
    ($a:expr, $b:expr, $($arg:tt)*) => {
        match (&$a, &$b) {
            (a, b) => {
                if !(*a == *b) {
                    return Err(format!("{}: got {:?}, expected {:?}", format!($($arg)*), a, b));
                }
            }
        }
    };
}

pub trait Case: Serialize + DeserializeOwned + Debug + Clone + Hash + Send + 'static {}
impl<T: Serialize + DeserializeOwned + Debug + Clone + Hash + Send + 'static> Case for T {}

/* Panic capture **************************************************************/

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = payload_str(info.payload());
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{msg} at {loc}"));
    }));
}

fn payload_str(p: &dyn Any) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".to_string()
    }
}

/// Run `f`; a panic becomes an `Err` with its message.
pub fn no_panic<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f))
        .map_err(|_| format!("panicked: {}", LAST_PANIC.with(|p| p.borrow().clone())))
}

/// True if `f` panics.
pub fn panics<T>(f: impl FnOnce() -> T) -> bool {
    catch_unwind(AssertUnwindSafe(f)).is_err()
}

pub fn hash_of<T: Hash>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

/* Facets *********************************************************************/

pub struct RunCfg {
    pub seed: u64,
    pub thorough: bool,
}

#[derive(Default)]
pub struct FacetOut {
    pub evaluations: u64,
    pub excluded: u64,
    pub nontrivial: HashSet<u64>,
    pub labels: BTreeMap<&'static str, u64>,
    pub samples: Vec<String>,
    /// (message, serialized minimal case, debug of minimal case)
    pub failure: Option<(String, serde_json::Value, String)>,
}

pub trait FacetDyn: Sync {
    fn name(&self) -> &'static str;
    fn rule(&self) -> &'static str;
    fn exhaustive(&self) -> bool;
    fn run(&self, cfg: &RunCfg) -> FacetOut;
    fn replay(&self, case: serde_json::Value) -> Result<R, String>;
}

/// A facet driven by a proptest strategy.
pub struct Facet<T> {
    pub name: &'static str,
    pub rule: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub strategy: fn(bool) -> BoxedStrategy<T>,
    pub test: fn(&T, &mut Obs) -> R,
}

/// A facet that enumerates a finite space completely.
pub struct Exhaustive<T> {
    pub name: &'static str,
    pub rule: &'static str,
    pub cases: fn(bool) -> Vec<T>,
    pub test: fn(&T, &mut Obs) -> R,
}

fn run_case<T>(test: fn(&T, &mut Obs) -> R, case: &T, obs: &mut Obs) -> R {
    let r = match no_panic(|| test(case, obs)) {
        Ok(r) => r,
        Err(e) => Err(e),
    };
    r.map_err(|e| truncate(e, 1500))
}

/* Watchdog *******************************************************************/

/// A single case takes milliseconds; one that is still running after this many seconds does not
/// terminate for practical purposes, and no listed property allows that.
const HANG_S: u64 = 120;

struct Running {
    since: Instant,
    facet: &'static str,
    /// The case, as a closure over a reference that outlives the entry.
    show: Box<dyn Fn() -> (serde_json::Value, String) + Send>,
}

/// Set when every case is to be written down before it is run (to find one that kills the process).
static TRACE: std::sync::OnceLock<(&'static str, u64)> = std::sync::OnceLock::new();

static RUNNING: Mutex<Vec<Option<Running>>> = Mutex::new(Vec::new());

struct Ptr<T>(*const T);
// The case is only read, and by plain data accessors.
unsafe impl<T> Send for Ptr<T> {}
impl<T> Ptr<T> {
    fn get(&self) -> *const T {
        self.0
    }
}

/// Run a case with its entry in the watchdog's table.
fn watched<T: Case>(
    facet: &'static str,
    shard: usize,
    test: fn(&T, &mut Obs) -> R,
    case: &T,
    obs: &mut Obs,
) -> R {
    let ptr = Ptr(case as *const T);
    if let Some((property, seed)) = TRACE.get() {
        let json = serde_json::to_value(case).unwrap_or(serde_json::Value::Null);
        let name = format!("{property}-crash-{shard}");
        write_replay_as(&name, property, facet, *seed, "the process died on this case", &json);
    }
    {
        let mut t = RUNNING.lock().unwrap();
        while t.len() <= shard {
            t.push(None);
        }
        t[shard] = Some(Running {
            since: Instant::now(),
            facet,
            show: Box::new(move || {
                // SAFETY: the entry is removed, under the lock, before `case` goes out of scope.
                let case = unsafe { &*ptr.get() };
                (
                    serde_json::to_value(case).unwrap_or(serde_json::Value::Null),
                    truncate(format!("{case:?}"), 2000),
                )
            }),
        });
    }
    let r = run_case(test, case, obs);
    RUNNING.lock().unwrap()[shard] = None;
    r
}

fn start_watchdog(property: &'static str, seed: u64) {
    std::thread::spawn(move || loop {
        std::thread::sleep(std::time::Duration::from_secs(2));
        let t = RUNNING.lock().unwrap();
        for r in t.iter().flatten() {
            if r.since.elapsed().as_secs() > HANG_S {
                let (json, dbg) = (r.show)();
                let msg = format!("the case did not terminate within {HANG_S} s");
                let path = write_replay(property, r.facet, seed, &msg, &json);
                eprintln!("[{property}] facet {}: {msg}\n  case: {dbg}", r.facet);
                println!("VIOLATION property={property} replay={}", path.display());
                std::process::exit(1);
            }
        }
    });
}

fn write_replay(
    property: &str,
    facet: &str,
    seed: u64,
    msg: &str,
    json: &serde_json::Value,
) -> PathBuf {
    write_replay_as(&format!("{property}-{facet}"), property, facet, seed, msg, json)
}

fn write_replay_as(
    name: &str,
    property: &str,
    facet: &str,
    seed: u64,
    msg: &str,
    json: &serde_json::Value,
) -> PathBuf {
    let dir = verif_dir().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{name}.json"));
    let body = serde_json::json!({
        "property": property, "facet": facet, "seed": seed, "message": msg, "case": json,
        "build": if PLAIN { "plain" } else { "checked" },
    });
    if let Err(e) = std::fs::write(&path, serde_json::to_string_pretty(&body).unwrap() + "\n") {
        eprintln!("cannot write {}: {e}", path.display());
    }
    path
}

fn truncate(mut s: String, n: usize) -> String {
    if s.len() > n {
        let mut m = n;
        while !s.is_char_boundary(m) {
            m -= 1;
        }
        s.truncate(m);
        s.push_str(" ...");
    }
    s
}

fn record<T: Debug + Hash>(out: &mut FacetOut, case: &T, obs: &Obs) {
    out.evaluations += 1;
    out.excluded += obs.excluded;
    for l in &obs.labels {
        *out.labels.entry(l).or_default() += 1;
    }
    // Above this many, the count of distinct cases is a lower bound (memory).
    if obs.nontrivial && out.nontrivial.len() < 4_000_000 {
        let new = out.nontrivial.insert(hash_of(case));
        if new && out.samples.len() < 2 {
            out.samples.push(truncate(format!("{case:?}"), 1500));
        }
    }
}

fn merge(outs: Vec<FacetOut>) -> FacetOut {
    let mut m = FacetOut::default();
    for o in outs {
        m.evaluations += o.evaluations;
        m.excluded += o.excluded;
        m.nontrivial.extend(o.nontrivial);
        for (k, v) in o.labels {
            *m.labels.entry(k).or_default() += v;
        }
        for s in o.samples {
            if m.samples.len() < 3 {
                m.samples.push(s);
            }
        }
        if m.failure.is_none() {
            m.failure = o.failure;
        }
    }
    m
}

fn shard_seed(seed: u64, name: &str, shard: u64) -> [u8; 32] {
    let mut out = [0u8; 32];
    for i in 0..4u64 {
        // FNV-1a, stable across toolchains
        let mut h: u64 = 0xcbf29ce484222325;
        let mut eat = |b: u8| {
            h ^= b as u64;
            h = h.wrapping_mul(0x100000001b3);
        };
        for b in seed.to_le_bytes() {
            eat(b);
        }
        for b in name.bytes() {
            eat(b);
        }
        for b in shard.to_le_bytes() {
            eat(b);
        }
        for b in i.to_le_bytes() {
            eat(b);
        }
        out[i as usize * 8..][..8].copy_from_slice(&h.to_le_bytes());
    }
    out
}

fn parallel<F: Fn(u64) -> FacetOut + Sync>(f: F) -> FacetOut {
    let outs = std::thread::scope(|s| {
        let hs: Vec<_> = (0..SHARDS)
            .map(|i| {
                let f = &f;
                std::thread::Builder::new()
                    .stack_size(512 << 20)
                    .spawn_scoped(s, move || f(i))
                    .expect("thread")
            })
            .collect();
        hs.into_iter().map(|h| h.join().expect("shard died")).collect::<Vec<_>>()
    });
    merge(outs)
}

impl<T: Case> FacetDyn for Facet<T> {
    fn name(&self) -> &'static str {
        self.name
    }
    fn rule(&self) -> &'static str {
        self.rule
    }
    fn exhaustive(&self) -> bool {
        false
    }
    fn run(&self, cfg: &RunCfg) -> FacetOut {
        let total = if cfg.thorough { self.thorough } else { self.quick };
        let total = if PLAIN { total.div_ceil(2) } else { total };
        parallel(|shard| {
            let cases = total / SHARDS + u64::from(shard < total % SHARDS);
            let out = RefCell::new(FacetOut::default());
            if cases == 0 {
                return out.into_inner();
            }
            let config = Config {
                cases: cases as u32,
                failure_persistence: None,
                max_shrink_iters: 6000,
                max_shrink_time: 60_000,
                max_global_rejects: 0,
                max_local_rejects: 1_000_000,
                rng_seed: RngSeed::Fixed(cfg.seed),
                ..Config::default()
            };
            let rng = TestRng::from_seed(
                RngAlgorithm::ChaCha,
                &shard_seed(cfg.seed, self.name, shard + if PLAIN { SHARDS } else { 0 }),
            );
            let mut runner = TestRunner::new_with_rng(config, rng);
            let strategy = (self.strategy)(cfg.thorough);
            let failed = RefCell::new(false);
            let res = runner.run(&strategy, |case| {
                let mut obs = Obs::default();
                let r = watched(self.name, shard as usize, self.test, &case, &mut obs);
                if !*failed.borrow() {
                    record(&mut out.borrow_mut(), &case, &obs);
                }
                r.map_err(|e| {
                    *failed.borrow_mut() = true;
                    TestCaseError::fail(e)
                })
            });
            let mut out = out.into_inner();
            match res {
                Ok(()) => {}
                Err(TestError::Fail(_, case)) => {
                    // re-run the minimal case for its own message
                    let mut obs = Obs::default();
                    let msg = run_case(self.test, &case, &mut obs)
                        .err()
                        .unwrap_or_else(|| "failure did not reproduce".to_string());
                    let json = serde_json::to_value(&case).unwrap_or(serde_json::Value::Null);
                    out.failure = Some((msg, json, truncate(format!("{case:?}"), 2000)));
                }
                Err(TestError::Abort(r)) => {
                    eprintln!("harness error in facet {}: {r}", self.name);
                    std::process::exit(3);
                }
            }
            out
        })
    }
    fn replay(&self, case: serde_json::Value) -> Result<R, String> {
        let case: T = serde_json::from_value(case).map_err(|e| e.to_string())?;
        let mut obs = Obs::default();
        Ok(run_case(self.test, &case, &mut obs))
    }
}

impl<T: Case + Sync> FacetDyn for Exhaustive<T> {
    fn name(&self) -> &'static str {
        self.name
    }
    fn rule(&self) -> &'static str {
        self.rule
    }
    fn exhaustive(&self) -> bool {
        true
    }
    fn run(&self, cfg: &RunCfg) -> FacetOut {
        let cases = (self.cases)(cfg.thorough);
        parallel(|shard| {
            let mut out = FacetOut::default();
            for case in cases.iter().skip(shard as usize).step_by(SHARDS as usize) {
                let mut obs = Obs::default();
                let r = watched(self.name, shard as usize, self.test, case, &mut obs);
                record(&mut out, case, &obs);
                if let Err(e) = r {
                    let json = serde_json::to_value(case).unwrap_or(serde_json::Value::Null);
                    out.failure = Some((e, json, truncate(format!("{case:?}"), 2000)));
                    break;
                }
            }
            out
        })
    }
    fn replay(&self, case: serde_json::Value) -> Result<R, String> {
        let case: T = serde_json::from_value(case).map_err(|e| e.to_string())?;
        let mut obs = Obs::default();
        Ok(run_case(self.test, &case, &mut obs))
    }
}

/// A probe for a recorded finding: `fails` is true while the finding is still present.
pub struct Probe {
    pub key: &'static str,
    pub what: &'static str,
    pub fails: fn() -> bool,
}

/* Main ***********************************************************************/

pub fn verif_dir() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".to_string()))
}

/// Keys of the findings of a property listed in KNOWN_FINDINGS.txt.
fn known_findings(property: &str) -> Vec<String> {
    let text = std::fs::read_to_string(verif_dir().join("KNOWN_FINDINGS.txt")).unwrap_or_default();
    let mut keys = vec![];
    for line in text.lines() {
        let Some(rest) = line.strip_prefix("finding:") else {
            continue;
        };
        let mut words = rest.split_whitespace();
        if words.next() == Some(&format!("property={property}")) {
            if let Some(k) = words.next().and_then(|w| w.strip_prefix("key=")) {
                keys.push(k.to_string());
            }
        }
    }
    keys
}

/// Run all facets of a property; never returns.
pub fn main_check(property: &'static str, facets: &[&dyn FacetDyn], probes: &[Probe]) -> ! {
    main_check_with(property, facets, probes, &["harness links the library from /repo's working tree; optimised builds, one with overflow checks and debug assertions and one without"])
}

pub fn main_check_with(
    property: &'static str,
    facets: &[&dyn FacetDyn],
    probes: &[Probe],
    assumptions: &[&str],
) -> ! {
    install_hook();
    let args: Vec<String> = std::env::args().collect();
    if args.len() == 3 && args[1] == "--replay" {
        replay(property, facets, probes, &args[2]);
    }
    let seed =
        std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse::<u64>().ok()).unwrap_or(1);
    let thorough = std::env::var("VERIF_TIER").is_ok_and(|t| t == "thorough");
    let only = std::env::var("VERIF_FACET").ok();
    let cfg = RunCfg { seed, thorough };
    start_watchdog(property, seed);
    if std::env::var_os("VERIF_TRACE").is_some() {
        let _ = TRACE.set((property, seed));
    }
    let t0 = Instant::now();

    let mut violations: Vec<(String, serde_json::Value, String, String)> = vec![];
    let mut facet_json = vec![];
    let (mut evals, mut nontrivial, mut excluded) = (0u64, 0u64, 0u64);
    let mut samples: Vec<serde_json::Value> = vec![];
    let mut rules = vec![];
    let mut all_exhaustive = true;

    // Known findings first.
    let known = known_findings(property);
    let mut kf_json = vec![];
    for p in probes {
        let fails = (p.fails)();
        kf_json.push(serde_json::json!({"key": p.key, "still_fails": fails}));
        if fails {
            if known.iter().any(|k| k == p.key) {
                println!("KNOWN-FINDING: property={property} {}: {}", p.key, p.what);
            } else {
                violations.push((
                    format!("probe-{}", p.key),
                    serde_json::Value::String(p.key.to_string()),
                    p.what.to_string(),
                    p.key.to_string(),
                ));
            }
        }
    }

    for f in facets {
        if only.as_deref().is_some_and(|o| o != f.name()) {
            continue;
        }
        let ft = Instant::now();
        let out = f.run(&cfg);
        evals += out.evaluations;
        nontrivial += out.nontrivial.len() as u64;
        excluded += out.excluded;
        all_exhaustive &= f.exhaustive();
        rules.push(format!("{}: {}", f.name(), f.rule()));
        for s in &out.samples {
            samples.push(serde_json::json!({"facet": f.name(), "case": s}));
        }
        eprintln!(
            "[{property}{}] {:<28} {:>9} cases {:>9} distinct non-trivial {:>7.1}s {:?}",
            if PLAIN { " plain" } else { "" },
            f.name(),
            out.evaluations,
            out.nontrivial.len(),
            ft.elapsed().as_secs_f64(),
            out.labels
        );
        facet_json.push(serde_json::json!({
            "facet": f.name(),
            "rule": f.rule(),
            "evaluations": out.evaluations,
            "distinct_nontrivial": out.nontrivial.len(),
            "excluded_known": out.excluded,
            "classes": out.labels,
            "exhaustive": f.exhaustive(),
            "wall_s": ft.elapsed().as_secs_f64(),
            "failed": out.failure.is_some(),
        }));
        if let Some((msg, json, dbg)) = out.failure {
            violations.push((f.name().to_string(), json, msg, dbg));
            break;
        }
    }

    let mut replay_paths = vec![];
    for (facet, json, msg, dbg) in &violations {
        let path = write_replay(property, facet, seed, msg, json);
        eprintln!("[{property}] facet {facet}: {msg}\n  minimal case: {dbg}");
        replay_paths.push(path);
    }

    if PLAIN && violations.is_empty() {
        let part = serde_json::json!({
            "seed": seed, "thorough": thorough, "evaluations": evals, "distinct_nontrivial": nontrivial,
            "facets": facet_json, "wall_s": t0.elapsed().as_secs_f64(),
        });
        if let Err(e) = std::fs::write(part_file(property), part.to_string()) {
            eprintln!("cannot write {}: {e}", part_file(property).display());
            std::process::exit(3);
        }
        rustc::cleanup();
        println!(
            "plain build: property={property} evaluations={evals} distinct_nontrivial={nontrivial}"
        );
        std::process::exit(0);
    }
    let mut plain = serde_json::Value::Null;
    if std::env::var_os("VERIF_PLAIN_DONE").is_some() {
        let text = std::fs::read_to_string(part_file(property)).unwrap_or_default();
        plain = serde_json::from_str(&text).unwrap_or_default();
        evals += plain["evaluations"].as_u64().unwrap_or(0);
        // `distinct_nontrivial` stays that of the checked build: a case may have run in both.
    }
    let evidence = serde_json::json!({
        "property": property,
        "tier": if thorough { "thorough" } else { "quick" },
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evals,
            "distinct_nontrivial": nontrivial,
            "rule": rules.join(" | "),
            "samples": samples,
            "facets": facet_json,
            "excluded_by_known_findings": excluded,
            "known_finding_probes": kf_json,
            "exhaustive": all_exhaustive,
            "plain_build": plain,
        },
        "assumptions": assumptions,
        "build_of_facets": if PLAIN { "plain" } else { "checked" },
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": violations.len(),
    });
    let edir = verif_dir().join("evidence");
    let _ = std::fs::create_dir_all(&edir);
    let epath = edir.join(format!("{property}.json"));
    if let Err(e) = std::fs::write(&epath, serde_json::to_string_pretty(&evidence).unwrap() + "\n")
    {
        eprintln!("cannot write {}: {e}", epath.display());
        std::process::exit(3);
    }
    rustc::cleanup();
    if violations.is_empty() {
        println!(
            "OK property={property} evaluations={evals} distinct_nontrivial={nontrivial} seed={seed}"
        );
        std::process::exit(0);
    }
    for p in &replay_paths {
        println!("VIOLATION property={property} replay={}", p.display());
    }
    std::process::exit(1);
}

fn replay(property: &str, facets: &[&dyn FacetDyn], probes: &[Probe], path: &str) -> ! {
    let err = |m: String| -> ! {
        eprintln!("{m}");
        std::process::exit(3);
    };
    let text = std::fs::read_to_string(path).unwrap_or_else(|e| err(format!("{path}: {e}")));
    let v: serde_json::Value =
        serde_json::from_str(&text).unwrap_or_else(|e| err(format!("{path}: {e}")));
    let facet = v["facet"].as_str().unwrap_or_default().to_string();
    let result = if let Some(key) = facet.strip_prefix("probe-") {
        match probes.iter().find(|p| p.key == key) {
            Some(p) if (p.fails)() => Err(p.what.to_string()),
            Some(_) => Ok(()),
            None => err(format!("no probe {key}")),
        }
    } else {
        match facets.iter().find(|f| f.name() == facet) {
            Some(f) => {
                let case = v["case"].clone();
                let done = std::thread::scope(|s| {
                    std::thread::Builder::new()
                        .stack_size(512 << 20)
                        .spawn_scoped(s, move || f.replay(case))
                        .expect("thread")
                        .join()
                });
                match done {
                    Ok(Ok(r)) => r,
                    Ok(Err(e)) => err(e),
                    Err(_) => err("the replay thread died".to_string()),
                }
            }
            None => err(format!("no facet {facet}")),
        }
    };
    rustc::cleanup();
    match result {
        Ok(()) => {
            println!("OK property={property} replay passes");
            std::process::exit(0)
        }
        Err(m) => {
            eprintln!("[{property}] {m}");
            println!("VIOLATION property={property} replay={path}");
            std::process::exit(1)
        }
    }
}

/// Serialises access to process-wide resources from tests (used by the compile checks).
pub static GLOBAL: Mutex<()> = Mutex::new(());

/// Boxes a strategy (shorthand).
pub fn boxed<S: Strategy + 'static>(s: S) -> BoxedStrategy<S::Value> {
    s.boxed()
}
