use proptest::strategy::BoxedStrategy;
use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
use serde::de::DeserializeOwned;
use serde::Serialize;
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::os::unix::process::ExitStatusExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub const WORKERS: usize = 8;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

impl Tier {
    pub fn pick<T>(self, quick: T, thorough: T) -> T {
        match self {
            Tier::Quick => quick,
            Tier::Thorough => thorough,
        }
    }
    fn name(self) -> &'static str {
        self.pick("quick", "thorough")
    }
}

/// What one case says about the property.
pub enum Verdict {
    Pass {
        /// Elementary inputs evaluated in this case.
        evaluations: u64,
        /// How many of them were non-trivial by the property's rule.
        nontrivial: u64,
        labels: Vec<&'static str>,
    },
    /// The case is outside of the property's domain.
    Discard(&'static str),
    Fail(String),
}

pub fn pass(nontrivial: bool, labels: Vec<&'static str>) -> Verdict {
    Verdict::Pass {
        evaluations: 1,
        nontrivial: u64::from(nontrivial),
        labels,
    }
}

/// `Err` is a violation.
pub type Check = Result<Verdict, String>;

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $($arg:tt)+) => {
        if !$cond {
            return Err(format!($($arg)+));
        }
    };
}

pub trait Property: Sync {
    type Case: Debug + Clone + Serialize + DeserializeOwned + Send + Sync;

    fn id(&self) -> &'static str;
    /// How cases are made and what makes one non-trivial.
    fn rule(&self) -> &'static str;
    fn assumptions(&self) -> Vec<&'static str> {
        vec![]
    }
    /// Number of generated cases.
    fn cases(&self, tier: Tier) -> u32;
    fn strategy(&self, tier: Tier) -> Option<BoxedStrategy<Self::Case>>;
    /// Cases enumerated in addition to the generated ones: the i-th of `enumerated_len`.
    fn enumerated_len(&self, _tier: Tier) -> usize {
        0
    }
    fn enumerated(&self, _tier: Tier, _index: usize) -> Self::Case {
        unreachable!()
    }
    /// The enumeration covers its finite space completely.
    fn exhaustive(&self) -> bool {
        false
    }
    /// Cases retained from earlier failures, run first on every run.
    fn regressions(&self) -> Vec<Self::Case> {
        vec![]
    }
    /// A smaller failing case of an enumerated case that failed.
    fn narrow(&self, case: &Self::Case) -> Self::Case {
        case.clone()
    }
    fn check(&self, case: &Self::Case) -> Check;
    fn sample(&self, case: &Self::Case) -> Value {
        serde_json::to_value(case).unwrap_or(Value::Null)
    }
}

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
    static IN_SUT: RefCell<bool> = const { RefCell::new(false) };
}

/// A sample for the evidence file, with long lists cut.
fn shortened(v: Value) -> Value {
    const KEEP: usize = 40;
    match v {
        Value::Array(mut items) => {
            let more = items.len().saturating_sub(KEEP);
            items.truncate(KEEP);
            let mut items: Vec<Value> = items.into_iter().map(shortened).collect();
            if more > 0 {
                items.push(Value::String(format!("and {more} more")));
            }
            Value::Array(items)
        }
        Value::Object(fields) => {
            Value::Object(fields.into_iter().map(|(k, v)| (k, shortened(v))).collect())
        }
        v => v,
    }
}

/// Run code under test: a panic of it is returned as an error.
pub fn sut<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, String> {
    match quiet(f) {
        Ok(v) => Ok(v),
        Err(m) => Err(format!("{what} panicked: {m}")),
    }
}

/// Run code that may be expected to panic.
pub fn quiet<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let before = IN_SUT.with(|s| s.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    IN_SUT.with(|s| *s.borrow_mut() = before);
    r.map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()))
}

fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let message = if let Some(s) = info.payload().downcast_ref::<&str>() {
            (*s).to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let location = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        if IN_SUT.with(|s| *s.borrow()) {
            LAST_PANIC.with(|p| *p.borrow_mut() = format!("{message} (at {location})"));
        } else {
            // A bug of the harness is an error of the check, never a verdict.
            eprintln!("HARNESS ERROR: {message} at {location}");
            std::process::exit(3);
        }
    }));
}

#[derive(Default)]
struct Stats {
    evaluations: u64,
    cases: u64,
    nontrivial: u64,
    seen: HashSet<u64>,
    labels: BTreeMap<&'static str, u64>,
    discards: BTreeMap<&'static str, u64>,
    samples: Vec<Value>,
}

fn hash_case<C: Debug>(case: &C) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    format!("{case:?}").hash(&mut h);
    h.finish()
}

fn record<P: Property>(p: &P, case: &P::Case, verdict: &Verdict, stats: &Mutex<Stats>) {
    match verdict {
        Verdict::Pass {
            evaluations,
            nontrivial,
            labels,
        } => {
            let hash = hash_case(case);
            let mut s = stats.lock().unwrap();
            s.cases += 1;
            s.evaluations += evaluations;
            for l in labels {
                *s.labels.entry(l).or_default() += 1;
            }
            if *nontrivial > 0 && s.seen.insert(hash) {
                s.nontrivial += nontrivial;
                // Keep the first cases and some spread over the run.
                let n = s.seen.len();
                if s.samples.len() < 2 || (s.samples.len() < 5 && n.is_power_of_two()) {
                    s.samples.push(shortened(p.sample(case)));
                }
            }
        }
        Verdict::Discard(why) => {
            let mut s = stats.lock().unwrap();
            s.cases += 1;
            *s.discards.entry(why).or_default() += 1;
        }
        Verdict::Fail(_) => {}
    }
}

/// A case under evaluation.
struct Entry {
    /// An entry is removed before the case goes out of scope, so that the address is valid while
    /// the list is locked.
    address: usize,
    thread: String,
    number: usize,
}

static RUNNING: Mutex<Vec<Entry>> = Mutex::new(Vec::new());
static NUMBER: AtomicUsize = AtomicUsize::new(0);

/// Processor time that a thread spends on a case. No case needs more than a few seconds.
const HANG_S: u64 = 120;

thread_local! {
    static THREAD: String = std::fs::read_link("/proc/thread-self")
        .map(|p| p.file_name().unwrap_or_default().to_string_lossy().into_owned())
        .unwrap_or_default();
}

/// Processor time of a thread of this process in seconds.
fn cpu_seconds(thread: &str) -> Option<u64> {
    let stat = std::fs::read_to_string(format!("/proc/self/task/{thread}/stat")).ok()?;
    let mut fields = stat.rsplit_once(')')?.1.split_whitespace().skip(11);
    let user: u64 = fields.next()?.parse().ok()?;
    let system: u64 = fields.next()?.parse().ok()?;
    Some((user + system) / 100)
}

struct Running(usize);

impl Running {
    fn new<C>(case: &C) -> Self {
        let number = NUMBER.fetch_add(1, Ordering::Relaxed);
        RUNNING.lock().unwrap().push(Entry {
            address: std::ptr::from_ref(case) as usize,
            thread: THREAD.with(String::clone),
            number,
        });
        Running(number)
    }
}

impl Drop for Running {
    fn drop(&mut self) {
        let mut r = RUNNING.lock().unwrap();
        let i = r.iter().position(|e| e.number == self.0).expect("an entry");
        r.swap_remove(i);
    }
}

/// Report a case that never finishes.
fn watch<P: Property>(id: &'static str) {
    std::thread::spawn(move || {
        let mut first_seen: BTreeMap<usize, u64> = BTreeMap::new();
        loop {
            std::thread::sleep(Duration::from_secs(2));
            let r = RUNNING.lock().unwrap();
            first_seen.retain(|n, _| r.iter().any(|e| e.number == *n));
            for entry in r.iter() {
                let Some(now) = cpu_seconds(&entry.thread) else {
                    continue;
                };
                let start = *first_seen.entry(entry.number).or_insert(now);
                if now - start < HANG_S {
                    continue;
                }
                let case = unsafe { &*(entry.address as *const P::Case) };
                report(
                    id,
                    &serde_json::to_value(case).unwrap(),
                    &format!("not finished after {HANG_S} s of processor time"),
                );
                std::process::exit(1);
            }
        }
    });
}

fn evaluate<P: Property>(p: &P, case: &P::Case) -> Verdict {
    let _running = Running::new(case);
    if let Ok(path) = std::env::var("VHARNESS_TRACE") {
        let _ = std::fs::write(path, serde_json::to_string(case).unwrap());
    }
    match p.check(case) {
        Ok(v) => v,
        Err(m) => Verdict::Fail(m),
    }
}

/// A failure may depend on hash seeds or on timing: try a few times.
fn evaluate_again<P: Property>(p: &P, case: &P::Case) -> Verdict {
    let mut verdict = evaluate(p, case);
    for _ in 0..30 {
        if matches!(verdict, Verdict::Fail(_)) {
            break;
        }
        verdict = evaluate(p, case);
    }
    verdict
}

fn seed_bytes(seed: u64, id: &str, worker: usize) -> [u8; 32] {
    let mut out = [0u8; 32];
    let mut x = seed ^ 0x9E37_79B9_7F4A_7C15;
    for b in id.bytes().chain([worker as u8]) {
        x = (x ^ u64::from(b)).wrapping_mul(0x0000_0100_0000_01B3);
    }
    for chunk in out.chunks_mut(8) {
        x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = x;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        chunk.copy_from_slice(&(z ^ (z >> 31)).to_le_bytes());
    }
    out
}

pub fn verif_root() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into()))
}

struct Failure<C> {
    order: (usize, usize),
    case: C,
    message: String,
}

fn run<P: Property>(p: &P, tier: Tier, seed: u64) -> i32 {
    let start = Instant::now();
    let stats = Mutex::new(Stats::default());
    let stop = AtomicBool::new(false);
    let failures: Mutex<Vec<Failure<P::Case>>> = Mutex::new(vec![]);
    let trace = std::env::var("VHARNESS_TRACE").is_ok();
    let threads = if trace { 1 } else { WORKERS };

    // Phase 0: regression cases.
    for (i, case) in p.regressions().into_iter().enumerate() {
        let v = evaluate(p, &case);
        record(p, &case, &v, &stats);
        if let Verdict::Fail(message) = v {
            failures.lock().unwrap().push(Failure {
                order: (0, i),
                case,
                message,
            });
            break;
        }
    }

    // Phase 1: enumeration.
    let total = p.enumerated_len(tier);
    let next = AtomicUsize::new(0);
    std::thread::scope(|scope| {
        for _ in 0..threads {
            scope.spawn(|| loop {
                let i = next.fetch_add(1, Ordering::Relaxed);
                if i >= total || stop.load(Ordering::Relaxed) {
                    return;
                }
                let case = p.enumerated(tier, i);
                let v = evaluate(p, &case);
                record(p, &case, &v, &stats);
                if let Verdict::Fail(message) = v {
                    stop.store(true, Ordering::Relaxed);
                    let narrow = p.narrow(&case);
                    let (case, message) = match evaluate(p, &narrow) {
                        Verdict::Fail(m) => (narrow, m),
                        _ => (case, message),
                    };
                    failures.lock().unwrap().push(Failure {
                        order: (1, i),
                        case,
                        message,
                    });
                }
            });
        }
    });

    // Phase 2: generation. The workers' case streams depend on the seed only.
    let cases = p.cases(tier);
    let worker = |w: usize| {
        let Some(strategy) = p.strategy(tier) else {
            return;
        };
        let share = cases / WORKERS as u32 + u32::from((w as u32) < cases % WORKERS as u32);
        if share == 0 || stop.load(Ordering::Relaxed) {
            return;
        }
        let config = Config {
            cases: share,
            failure_persistence: None,
            max_shrink_iters: 4096,
            max_shrink_time: 90_000,
            max_global_rejects: 0,
            verbose: 0,
            ..Config::default()
        };
        let rng = TestRng::from_seed(RngAlgorithm::ChaCha, &seed_bytes(seed, p.id(), w));
        let mut runner = TestRunner::new_with_rng(config, rng);
        let shrinking = AtomicBool::new(false);
        let result = runner.run(&strategy, |case| {
            if stop.load(Ordering::Relaxed) && !shrinking.load(Ordering::Relaxed) {
                return Ok(());
            }
            let v = evaluate(p, &case);
            if !shrinking.load(Ordering::Relaxed) {
                record(p, &case, &v, &stats);
            }
            match v {
                Verdict::Fail(m) => {
                    shrinking.store(true, Ordering::Relaxed);
                    stop.store(true, Ordering::Relaxed);
                    Err(TestCaseError::fail(m))
                }
                _ => Ok(()),
            }
        });
        match result {
            Ok(()) => {}
            Err(TestError::Fail(reason, case)) => {
                // The reason of the minimal case, judged again.
                let message = match evaluate_again(p, &case) {
                    Verdict::Fail(m) => m,
                    _ => format!("not reproduced by re-evaluation: {reason}"),
                };
                failures.lock().unwrap().push(Failure {
                    order: (2, w),
                    case,
                    message,
                });
            }
            Err(TestError::Abort(reason)) => {
                eprintln!("HARNESS ERROR: generation aborted: {reason}");
                std::process::exit(3);
            }
        }
    };
    if failures.lock().unwrap().is_empty() {
        if trace {
            (0..WORKERS).for_each(worker);
        } else {
            std::thread::scope(|scope| {
                for w in 0..WORKERS {
                    std::thread::Builder::new()
                        .stack_size(64 << 20)
                        .spawn_scoped(scope, move || worker(w))
                        .unwrap();
                }
            });
        }
    }

    let mut failures = failures.into_inner().unwrap();
    failures.sort_by_key(|f| f.order);
    let s = stats.into_inner().unwrap();
    let evidence = json!({
        "property": p.id(),
        "tier": tier.name(),
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": s.evaluations,
            "distinct_nontrivial": s.nontrivial,
            "rule": p.rule(),
            "samples": s.samples,
            "cases": s.cases,
            "enumerated_cases": total,
            "generated_cases_requested": cases,
            "classes": s.labels,
            "discarded": s.discards,
            "exhaustive": p.exhaustive() && cases == 0,
        },
        "assumptions": p.assumptions(),
        "wall_s": start.elapsed().as_secs_f64(),
        "violations": usize::from(!failures.is_empty()),
    });
    let dir = verif_root().join("evidence");
    std::fs::create_dir_all(&dir).expect("evidence directory");
    std::fs::write(
        dir.join(format!("{}.json", p.id())),
        serde_json::to_string_pretty(&evidence).unwrap() + "\n",
    )
    .expect("evidence file");
    println!(
        "{}: {} cases, {} evaluations, {} distinct non-trivial, classes {:?}, discarded {:?}, {:.1} s",
        p.id(), s.cases, s.evaluations, s.nontrivial, s.labels, s.discards,
        start.elapsed().as_secs_f64()
    );
    if let Some(f) = failures.first() {
        report(p.id(), &serde_json::to_value(&f.case).unwrap(), &f.message);
        return 1;
    }
    // A run that tested nothing must not count as a pass.
    if s.nontrivial == 0 {
        eprintln!("HARNESS ERROR: no non-trivial case was generated");
        return 3;
    }
    0
}

fn report(id: &str, case: &Value, message: &str) {
    let dir = verif_root().join("replays");
    std::fs::create_dir_all(&dir).expect("replay directory");
    let text = serde_json::to_string(&json!({"property": id, "case": case, "message": message})).unwrap();
    let mut h = std::collections::hash_map::DefaultHasher::new();
    case.to_string().hash(&mut h);
    let path = dir.join(format!("{id}-{:016x}.json", h.finish()));
    std::fs::write(&path, text + "\n").expect("replay file");
    let short: String = message.chars().take(1500).collect();
    println!("{id} violated: {short}");
    println!("VIOLATION property={id} replay={}", path.display());
}

/// Entry of a check: `<bin> <property> [--replay FILE]`.
pub fn main_with<P: Property>(p: P) -> ! {
    install_panic_hook();
    let args: Vec<String> = std::env::args().collect();
    let tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let seed = std::env::var("VERIF_SEED")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(1u64);
    if std::env::var("VHARNESS_CHILD").is_ok() || args.iter().any(|a| a == "--replay") {
        watch::<P>(p.id());
    }
    if let Some(i) = args.iter().position(|a| a == "--replay") {
        let text = std::fs::read_to_string(&args[i + 1]).expect("replay file");
        let v: Value = serde_json::from_str(&text).expect("replay file");
        let case: P::Case = serde_json::from_value(v["case"].clone()).expect("replay case");
        let code = match evaluate_again(&p, &case) {
            Verdict::Fail(m) => {
                println!("{} violated: {m}", p.id());
                println!("VIOLATION property={} replay={}", p.id(), args[i + 1]);
                1
            }
            Verdict::Discard(why) => {
                println!("{}: case outside of the domain ({why})", p.id());
                0
            }
            Verdict::Pass { .. } => {
                println!("{}: case passes", p.id());
                0
            }
        };
        std::process::exit(code);
    }
    if std::env::var("VHARNESS_CHILD").is_ok() {
        let limit = Duration::from_secs(tier.pick(780, 7200));
        std::thread::spawn(move || {
            std::thread::sleep(limit);
            eprintln!("HARNESS ERROR: time limit reached, inconclusive");
            std::process::exit(4);
        });
        std::process::exit(run(&p, tier, seed));
    }
    // Supervisor: a crash of the child (stack overflow, abort) is located by a traced second run.
    let spawn = |extra: &[(&str, &str)], args: &[String]| {
        let mut c = std::process::Command::new(std::env::current_exe().unwrap());
        c.args(args).envs(extra.iter().copied());
        c.status().expect("child process")
    };
    let status = spawn(&[("VHARNESS_CHILD", "1")], &args[1..]);
    if let Some(code) = status.code() {
        std::process::exit(code);
    }
    let signal = status.signal().unwrap_or(0);
    eprintln!("child ended by signal {signal}");
    // SIGSEGV, SIGABRT, SIGILL, SIGBUS, SIGFPE; SIGKILL (out of memory) is inconclusive.
    if ![11, 6, 4, 7, 8].contains(&signal) {
        std::process::exit(5);
    }
    let dir = verif_root().join("replays");
    std::fs::create_dir_all(&dir).expect("replay directory");
    let trace = dir.join(format!("{}-trace.json", p.id()));
    let _ = std::fs::remove_file(&trace);
    let status = spawn(
        &[
            ("VHARNESS_CHILD", "1"),
            ("VHARNESS_TRACE", trace.to_str().unwrap()),
        ],
        &args[1..],
    );
    if let Some(code) = status.code() {
        std::process::exit(if code == 1 { 1 } else { 5 });
    }
    let Ok(text) = std::fs::read_to_string(&trace) else {
        std::process::exit(5)
    };
    let case: Value = serde_json::from_str(&text).expect("traced case");
    report(
        p.id(),
        &case,
        &format!("the process was ended by signal {signal}"),
    );
    std::process::exit(1);
}
