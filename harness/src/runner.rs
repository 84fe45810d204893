//! Drives one property: regression cases first, then generated cases in parallel shards with
//! shrinking; writes evidence and replay files.
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::path::{Path, PathBuf};
use std::sync::Mutex;
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicU64, Ordering};
use std::time::{Duration, Instant};

use proptest::strategy::{BoxedStrategy, Strategy};
use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
use serde::Serialize;
use serde::de::DeserializeOwned;
use serde_json::{Value, json};

#[derive(Default, Debug)]
pub struct Outcome {
    pub fail: Option<String>,
    pub nontrivial: bool,
    pub classes: Vec<&'static str>,
}

impl Outcome {
    pub fn fail(msg: impl Into<String>) -> Self {
        Self { fail: Some(msg.into()), nontrivial: true, classes: vec![] }
    }
    /// Records the first failure only.
    pub fn problem(&mut self, msg: impl Into<String>) {
        if self.fail.is_none() {
            self.fail = Some(msg.into());
        }
    }
    pub fn class(&mut self, c: &'static str) {
        if !self.classes.contains(&c) {
            self.classes.push(c);
        }
    }
}

pub struct Check<C> {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub quick: u32,
    pub thorough: u32,
    pub strategy: fn() -> BoxedStrategy<C>,
    pub run: fn(&C) -> Outcome,
    /// Wall-clock seconds after which a case counts as stuck.
    pub case_limit_s: u64,
    pub shards: u32,
}

pub trait AnyCheck: Sync {
    fn id(&self) -> &'static str;
    fn execute(&self, tier: &str, seed: u64, cases: Option<u32>) -> i32;
    fn replay(&self, path: &Path) -> i32;
}

struct ShardResult {
    failure: Option<(Value, String)>,
    evals: u64,
    nontrivial: HashSet<u64>,
    classes: BTreeMap<&'static str, u64>,
    samples: Vec<Value>,
    error: Option<String>,
}

fn hash_json(v: &str) -> u64 {
    let mut h: u64 = 0xcbf2_9ce4_8422_2325;
    for b in v.bytes() {
        h ^= u64::from(b);
        h = h.wrapping_mul(0x0100_0000_01b3);
    }
    h
}

fn seed_bytes(seed: u64, id: &str, shard: u32) -> [u8; 32] {
    let mut out = [0u8; 32];
    let mut x = seed ^ hash_json(id) ^ (u64::from(shard) << 48).wrapping_mul(0x9E37_79B9);
    for c in out.chunks_mut(8) {
        x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = x;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^= z >> 31;
        c.copy_from_slice(&z.to_le_bytes());
    }
    out
}

/// What a worker is busy with.
struct Slot<C> {
    since: AtomicU64,
    case: Mutex<Option<C>>,
}

static EPOCH: std::sync::OnceLock<Instant> = std::sync::OnceLock::new();
fn now_ms() -> u64 {
    EPOCH.get_or_init(Instant::now).elapsed().as_millis() as u64 + 1
}

pub fn verif_dir() -> PathBuf {
    std::env::var_os("VERIF_DIR").map_or_else(
        || PathBuf::from(concat!(env!("CARGO_MANIFEST_DIR"), "/..")),
        PathBuf::from,
    )
}

impl<C> Check<C>
where
    C: Debug + Clone + Serialize + DeserializeOwned + Send + Sync + 'static,
{
    /// Runs one case; a panic that escapes from the code under test is a failure of the case.
    fn guarded(&self, case: &C, slot: &Slot<C>) -> Outcome {
        *slot.case.lock().unwrap_or_else(|e| e.into_inner()) = Some(case.clone());
        slot.since.store(now_ms(), Ordering::Relaxed);
        let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (self.run)(case)));
        slot.since.store(0, Ordering::Relaxed);
        res.unwrap_or_else(|e| {
            let msg = e
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| e.downcast_ref::<&str>().map(|s| (*s).to_string()))
                .unwrap_or_default();
            Outcome::fail(format!("panicked: {msg}"))
        })
    }

    fn shard(&self, seed: u64, shard: u32, cases: u32, stop_at: &AtomicU32, slot: &Slot<C>) -> ShardResult {
        let config = Config {
            cases,
            failure_persistence: None,
            max_shrink_iters: 20_000,
            max_shrink_time: 25_000,
            max_global_rejects: 1_000_000,
            ..Config::default()
        };
        let rng = TestRng::from_seed(RngAlgorithm::ChaCha, &seed_bytes(seed, self.id, shard));
        let mut runner = TestRunner::new_with_rng(config, rng);
        struct Acc {
            evals: u64,
            nontrivial: HashSet<u64>,
            classes: BTreeMap<&'static str, u64>,
            samples: Vec<Value>,
            failing: bool,
        }
        let acc = RefCell::new(Acc {
            evals: 0,
            nontrivial: HashSet::new(),
            classes: BTreeMap::new(),
            samples: vec![],
            failing: false,
        });
        let strategy = (self.strategy)();
        let res = runner.run(&strategy, |case| {
            if !acc.borrow().failing && stop_at.load(Ordering::Relaxed) < shard {
                return Ok(());
            }
            let out = self.guarded(&case, slot);
            let mut a = acc.borrow_mut();
            if !a.failing {
                a.evals += 1;
                for c in &out.classes {
                    *a.classes.entry(c).or_default() += 1;
                }
                if out.nontrivial {
                    let text = serde_json::to_string(&case).unwrap_or_default();
                    let new = a.nontrivial.insert(hash_json(&text));
                    let n = a.nontrivial.len();
                    if new && a.samples.len() < 2 && (n == 1 || n == 40) && text.len() < 4000 {
                        a.samples.push(serde_json::to_value(&case).unwrap_or(Value::Null));
                    }
                }
            }
            match out.fail {
                Some(msg) => {
                    a.failing = true;
                    Err(TestCaseError::fail(msg))
                }
                None => Ok(()),
            }
        });
        let a = acc.into_inner();
        let mut r = ShardResult {
            failure: None,
            evals: a.evals,
            nontrivial: a.nontrivial,
            classes: a.classes,
            samples: a.samples,
            error: None,
        };
        match res {
            Ok(()) => {}
            Err(TestError::Fail(_, case)) => {
                stop_at.fetch_min(shard, Ordering::Relaxed);
                // the minimal case decides; take its own message
                let out = self.guarded(&case, slot);
                let msg = out
                    .fail
                    .unwrap_or_else(|| "failure did not repeat on the shrunk case".into());
                r.failure = Some((serde_json::to_value(&case).unwrap_or(Value::Null), msg));
            }
            Err(TestError::Abort(why)) => r.error = Some(format!("generator gave up: {why}")),
        }
        r
    }

    fn write_replay(&self, case: &Value, msg: &str, seed: u64) -> PathBuf {
        let dir = verif_dir().join("replays");
        let _ = std::fs::create_dir_all(&dir);
        let text = case.to_string();
        let path = dir.join(format!("{}-{:016x}.json", self.id, hash_json(&text)));
        let body = json!({"property": self.id, "seed": seed, "message": msg, "case": case});
        let _ = std::fs::write(&path, serde_json::to_string_pretty(&body).unwrap_or_default());
        path.canonicalize().unwrap_or(path)
    }
}

fn load_case(path: &Path) -> Result<Value, String> {
    let text = std::fs::read_to_string(path).map_err(|e| format!("{}: {e}", path.display()))?;
    let v: Value = serde_json::from_str(&text).map_err(|e| format!("{}: {e}", path.display()))?;
    Ok(v.get("case").cloned().unwrap_or(v))
}

struct Known {
    path: PathBuf,
    what: String,
}

impl<C> AnyCheck for Check<C>
where
    C: Debug + Clone + Serialize + DeserializeOwned + Send + Sync + 'static,
{
    fn id(&self) -> &'static str {
        self.id
    }

    fn replay(&self, path: &Path) -> i32 {
        let case = match load_case(path).and_then(|v| {
            serde_json::from_value::<C>(v).map_err(|e| e.to_string())
        }) {
            Ok(c) => c,
            Err(e) => {
                eprintln!("cannot load {}: {e}", path.display());
                return 2;
            }
        };
        let out = (self.run)(&case);
        match out.fail {
            Some(msg) => {
                println!("{msg}");
                println!("VIOLATION property={} replay={}", self.id, path.display());
                1
            }
            None => {
                println!("property {} holds on {}", self.id, path.display());
                0
            }
        }
    }

    fn execute(&self, tier: &str, seed: u64, cases: Option<u32>) -> i32 {
        let t0 = Instant::now();
        now_ms();
        let total = cases.unwrap_or(if tier == "thorough" { self.thorough } else { self.quick });
        let shards = self.shards.max(1).min(total.max(1));
        let mut regressions = 0u64;
        let mut violations: Vec<(PathBuf, String)> = vec![];

        // watchdog: no property allows the code to spin or block for that long
        let slots: Vec<Slot<C>> = (0..=shards)
            .map(|_| Slot { since: AtomicU64::new(0), case: Mutex::new(None) })
            .collect();
        let finished = AtomicBool::new(false);
        let limit = self.case_limit_s * 1000;
        let results: Mutex<Vec<(u32, ShardResult)>> = Mutex::new(vec![]);
        let mut errors: Vec<String> = vec![];
        std::thread::scope(|s| {
            s.spawn(|| {
                while !finished.load(Ordering::Relaxed) {
                    std::thread::sleep(Duration::from_millis(200));
                    for b in &slots {
                        let since = b.since.load(Ordering::Relaxed);
                        if since != 0 && now_ms().saturating_sub(since) > limit {
                            let case = b.case.lock().unwrap_or_else(|e| e.into_inner()).clone();
                            let case = serde_json::to_value(&case).unwrap_or(Value::Null);
                            let msg = format!("a case is stuck for over {} s of wall time", self.case_limit_s);
                            let path = self.write_replay(&case, &msg, seed);
                            println!("{msg}");
                            println!("VIOLATION property={} replay={}", self.id, path.display());
                            crate::sim::cleanup_scratch();
                            std::process::exit(1);
                        }
                    }
                }
            });

            // committed reproductions of known findings
            let mut known: Vec<Known> = vec![];
            let kf = verif_dir().join("known_findings.json");
            if let Ok(text) = std::fs::read_to_string(&kf)
                && let Ok(Value::Object(v)) = serde_json::from_str::<Value>(&text)
                && let Some(Value::Array(list)) = v.get("known")
            {
                for e in list {
                    if e.get("property").and_then(Value::as_str) == Some(self.id) {
                        known.push(Known {
                            path: verif_dir().join(e.get("case").and_then(Value::as_str).unwrap_or("")),
                            what: e.get("what").and_then(Value::as_str).unwrap_or("").to_string(),
                        });
                    }
                }
            }
            for k in &known {
                match load_case(&k.path).and_then(|v| serde_json::from_value::<C>(v).map_err(|e| e.to_string())) {
                    Ok(case) => {
                        let out = self.guarded(&case, &slots[shards as usize]);
                        if out.fail.is_some() {
                            println!("KNOWN-FINDING: property={} {}", self.id, k.what);
                        }
                    }
                    Err(e) => errors.push(format!("known finding {}: {e}", k.path.display())),
                }
            }

            // committed regression cases
            let dir = verif_dir().join("regressions").join(self.id);
            let mut files: Vec<PathBuf> = std::fs::read_dir(&dir)
                .map(|d| d.filter_map(|e| e.ok().map(|e| e.path())).collect())
                .unwrap_or_default();
            files.retain(|p| p.extension().is_some_and(|e| e == "json"));
            files.sort();
            for f in files {
                match load_case(&f).and_then(|v| serde_json::from_value::<C>(v).map_err(|e| e.to_string())) {
                    Ok(case) => {
                        regressions += 1;
                        let out = self.guarded(&case, &slots[shards as usize]);
                        if let Some(msg) = out.fail {
                            violations.push((f.canonicalize().unwrap_or(f), msg));
                            break;
                        }
                    }
                    Err(e) => errors.push(format!("regression {}: {e}", f.display())),
                }
            }

            if violations.is_empty() {
                let stop_at = AtomicU32::new(u32::MAX);
                std::thread::scope(|s| {
                    for shard in 0..shards {
                        let n = total / shards + u32::from(shard < total % shards);
                        let (results, stop_at, slot) = (&results, &stop_at, &slots[shard as usize]);
                        s.spawn(move || {
                            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                                self.shard(seed, shard, n, stop_at, slot)
                            }))
                            .unwrap_or_else(|_| ShardResult {
                                failure: None,
                                evals: 0,
                                nontrivial: HashSet::new(),
                                classes: BTreeMap::new(),
                                samples: vec![],
                                error: Some("the generator panicked".into()),
                            });
                            results.lock().unwrap_or_else(|e| e.into_inner()).push((shard, r));
                        });
                    }
                });
            }
            finished.store(true, Ordering::Relaxed);
        });
        let mut results = results.into_inner().unwrap_or_else(|e| e.into_inner());
        results.sort_by_key(|r| r.0);
        let mut evals = 0;
        let mut nontrivial: HashSet<u64> = HashSet::new();
        let mut classes: BTreeMap<&str, u64> = BTreeMap::new();
        let mut samples = vec![];
        for (_, r) in &results {
            evals += r.evals;
            nontrivial.extend(&r.nontrivial);
            for (c, n) in &r.classes {
                *classes.entry(c).or_default() += n;
            }
            if samples.len() < 4 {
                samples.extend(r.samples.iter().take(1).cloned());
            }
            if let Some(e) = &r.error {
                errors.push(e.clone());
            }
        }
        for (_, r) in &results {
            if let Some((case, msg)) = &r.failure {
                let path = self.write_replay(case, msg, seed);
                violations.push((path, msg.clone()));
                break;
            }
        }
        let evidence = json!({
            "property": self.id,
            "tier": if tier == "thorough" { "thorough" } else { "quick" },
            "seed": seed,
            "level": "exploration",
            "coverage": {
                "evaluations": evals,
                "distinct_nontrivial": nontrivial.len(),
                "rule": self.rule,
                "samples": samples,
                "classes": classes,
                "regression_cases_replayed": regressions,
            },
            "assumptions": self.assumptions,
            "wall_s": (t0.elapsed().as_secs_f64() * 100.0).round() / 100.0,
            "violations": violations.len(),
        });
        let dir = verif_dir().join("evidence");
        let _ = std::fs::create_dir_all(&dir);
        if let Err(e) = std::fs::write(
            dir.join(format!("{}.json", self.id)),
            serde_json::to_string_pretty(&evidence).unwrap_or_default(),
        ) {
            errors.push(format!("cannot write evidence: {e}"));
        }
        println!(
            "{}: {} cases, {} distinct non-trivial, {} regression cases, {:.1} s",
            self.id,
            evals,
            nontrivial.len(),
            regressions,
            t0.elapsed().as_secs_f64()
        );
        println!("classes: {classes:?}");
        if let Some((path, msg)) = violations.first() {
            println!("{msg}");
            println!("VIOLATION property={} replay={}", self.id, path.display());
            return 1;
        }
        if !errors.is_empty() {
            for e in errors {
                eprintln!("error: {e}");
            }
            return 2;
        }
        0
    }
}

/// Command line: BIN --property ID [--tier T] [--cases N] [--replay FILE]
pub fn main_with(checks: &[&dyn AnyCheck]) -> ! {
    let args: Vec<String> = std::env::args().collect();
    let get = |k: &str| {
        args.iter()
            .position(|a| a == k)
            .and_then(|i| args.get(i + 1).cloned())
    };
    let Some(id) = get("--property") else {
        eprintln!("usage: --property ID [--tier quick|thorough] [--cases N] [--replay FILE]");
        std::process::exit(2);
    };
    let Some(check) = checks.iter().find(|c| c.id() == id) else {
        eprintln!("unknown property {id}");
        std::process::exit(2);
    };
    crate::sim::install_panic_hook();
    let code = if let Some(f) = get("--replay") {
        check.replay(Path::new(&f))
    } else {
        let tier = get("--tier")
            .or_else(|| std::env::var("VERIF_TIER").ok())
            .unwrap_or_else(|| "quick".into());
        let seed = std::env::var("VERIF_SEED")
            .ok()
            .and_then(|s| s.trim().parse::<u64>().ok())
            .unwrap_or(1);
        check.execute(&tier, seed, get("--cases").and_then(|c| c.parse().ok()))
    };
    crate::sim::cleanup_scratch();
    std::process::exit(code);
}

/// Convenience for strategies.
pub fn boxed<S: Strategy + 'static>(s: S) -> BoxedStrategy<S::Value> {
    s.boxed()
}
