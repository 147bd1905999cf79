//! Property-checking framework: generated cases, shards in child processes, shrinking, replay, evidence.
use proptest::strategy::{BoxedStrategy, Strategy};
use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
use serde::de::DeserializeOwned;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

/// What a check observed about one case.
#[derive(Default)]
pub struct Obs {
    labels: Vec<String>,
    nontrivial: bool,
    known: Vec<String>,
    pub thorough: bool,
}

impl Obs {
    pub fn label(&mut self, l: impl Into<String>) {
        self.labels.push(l.into());
    }
    /// marks the case as non-trivial by the facet's rule
    pub fn nontrivial(&mut self) {
        self.nontrivial = true;
    }
    pub fn nontrivial_if(&mut self, b: bool) {
        if b {
            self.nontrivial = true;
        }
    }
    /// The case shows the known finding `id` (a violation unless listed in known_findings.json)
    pub fn known_finding(&mut self, id: &str) {
        self.known.push(id.to_string());
    }
}

pub type Res = Result<(), String>;

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($arg:tt)*) => { if !($c) { return Err(format!($($arg)*)); } };
}

#[derive(Default, Serialize, Deserialize, Clone, Debug)]
pub struct FacetOut {
    pub name: String,
    pub rule: String,
    pub cases: u64,
    pub nontrivial: u64,
    pub labels: BTreeMap<String, u64>,
    pub hashes: Vec<u64>,
    pub samples: Vec<Value>,
    pub known: BTreeMap<String, u64>,
    pub secs: f64,
    pub failure: Option<Failure>,
    pub error: Option<String>,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Failure {
    pub facet: String,
    pub case: Value,
    pub message: String,
    #[serde(default)]
    pub replay: Option<String>,
}

#[derive(Default, Serialize, Deserialize, Clone, Debug)]
pub struct ShardOut {
    pub facets: Vec<FacetOut>,
    pub failures: Vec<Failure>,
    pub known_lines: Vec<String>,
    pub corpus_cases: u64,
}

pub struct RunCtx {
    pub tier: Tier,
    pub seed: u64,
    pub shard: u32,
    pub shards: u32,
    pub trace: Option<PathBuf>,
    pub known: HashSet<String>,
}

pub trait AnyFacet {
    fn name(&self) -> &'static str;
    fn run(&self, ctx: &RunCtx) -> FacetOut;
    fn replay(&self, case: &Value, ctx: &RunCtx) -> Result<Vec<String>, String>;
}

pub struct Facet<T: Debug> {
    name: &'static str,
    rule: &'static str,
    quick: u32,
    thorough: u32,
    strategy: BoxedStrategy<T>,
    #[allow(clippy::type_complexity)]
    check: Box<dyn Fn(&T, &mut Obs) -> Res>,
    shrink_secs: u64,
}

/// A facet: `quick`/`thorough` are the total numbers of generated cases over all shards.
pub fn facet<T, S>(
    name: &'static str,
    rule: &'static str,
    quick: u32,
    thorough: u32,
    strategy: S,
    check: impl Fn(&T, &mut Obs) -> Res + 'static,
) -> Box<dyn AnyFacet>
where
    T: Debug + Clone + Serialize + DeserializeOwned + 'static,
    S: Strategy<Value = T> + 'static,
{
    Box::new(Facet {
        name,
        rule,
        quick,
        thorough,
        strategy: strategy.boxed(),
        check: Box::new(check),
        shrink_secs: 25,
    })
}

pub fn hash_bytes(b: &[u8]) -> u64 {
    let mut h: u64 = 0xcbf2_9ce4_8422_2325;
    for x in b {
        h ^= *x as u64;
        h = h.wrapping_mul(0x0000_0100_0000_01b3);
    }
    mix(h)
}

pub fn mix(x: u64) -> u64 {
    let mut z = x.wrapping_add(0x9e37_79b9_7f4a_7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    z ^ (z >> 31)
}

static PANIC_MSG: Mutex<String> = Mutex::new(String::new());
static IN_CASE: AtomicBool = AtomicBool::new(false);
static CASE_START: AtomicU64 = AtomicU64::new(0);

fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let mut g = PANIC_MSG.lock().unwrap_or_else(|e| e.into_inner());
        if g.is_empty() {
            *g = format!("panic: {msg} at {loc}");
        }
        if !IN_CASE.load(SeqCst) {
            eprintln!("panic: {msg} at {loc}");
        }
    }));
}

/// Runs `f`, turning a panic into an error text.
pub fn guard<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    PANIC_MSG.lock().unwrap_or_else(|e| e.into_inner()).clear();
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => Ok(r),
        Err(_) => {
            let mut g = PANIC_MSG.lock().unwrap_or_else(|e| e.into_inner());
            let m = if g.is_empty() { "panic".to_string() } else { g.clone() };
            g.clear();
            Err(m)
        }
    }
}

impl<T> Facet<T>
where
    T: Debug + Clone + Serialize + DeserializeOwned + 'static,
{
    fn eval(&self, case: &T, text: &str, ctx: &RunCtx) -> (Res, Obs) {
        let mut obs = Obs { thorough: ctx.tier == Tier::Thorough, ..Obs::default() };
        if let Some(t) = &ctx.trace {
            let _ = std::fs::write(t, json!({"facet": self.name, "case": serde_json::from_str::<Value>(text).unwrap_or(Value::Null)}).to_string());
        }
        *CURRENT.lock().unwrap_or_else(|e| e.into_inner()) = Some((self.name, text.to_string()));
        CASE_START.store(now_secs(), SeqCst);
        fastrand::ctl::seeded(hash_bytes(text.as_bytes()));
        let r = guard(|| (self.check)(case, &mut obs));
        let _ = fastrand::ctl::stop_count();
        CASE_START.store(0, SeqCst);
        let r = match r {
            Ok(r) => r,
            Err(p) => Err(p),
        };
        let r = match r {
            Ok(()) => match obs.known.iter().find(|k| !ctx.known.contains(*k)) {
                Some(k) => Err(format!("unlisted finding {k}")),
                None => Ok(()),
            },
            e => e,
        };
        (r, obs)
    }
}

fn now_secs() -> u64 {
    // monotone clock used by the watchdog only
    use std::sync::OnceLock;
    static START: OnceLock<Instant> = OnceLock::new();
    START.get_or_init(Instant::now).elapsed().as_secs() + 1
}

impl<T> AnyFacet for Facet<T>
where
    T: Debug + Clone + Serialize + DeserializeOwned + 'static,
{
    fn name(&self) -> &'static str {
        self.name
    }

    fn run(&self, ctx: &RunCtx) -> FacetOut {
        let total = match ctx.tier {
            Tier::Quick => self.quick,
            Tier::Thorough => self.thorough,
        };
        let share = total / ctx.shards + u32::from(ctx.shard < total % ctx.shards);
        let out = RefCell::new(FacetOut {
            name: self.name.to_string(),
            rule: self.rule.to_string(),
            ..FacetOut::default()
        });
        if share == 0 {
            return out.into_inner();
        }
        let start = Instant::now();
        let mut seed = [0u8; 32];
        let mut h = hash_bytes(self.name.as_bytes()) ^ mix(ctx.seed) ^ mix(ctx.shard as u64 + 77);
        for c in seed.chunks_mut(8) {
            h = mix(h);
            c.copy_from_slice(&h.to_le_bytes());
        }
        let cfg = Config {
            cases: share,
            failure_persistence: None,
            max_shrink_iters: 4000,
            max_shrink_time: (self.shrink_secs * 1000) as u32,
            max_local_rejects: 1_000_000,
            max_global_rejects: 1_000_000,
            verbose: 0,
            ..Config::default()
        };
        let mut runner = TestRunner::new_with_rng(cfg, TestRng::from_seed(RngAlgorithm::ChaCha, &seed));
        let failed = RefCell::new(false);
        let seen: RefCell<HashSet<u64>> = RefCell::new(HashSet::new());
        let last_fail: RefCell<Option<(Value, String)>> = RefCell::new(None);
        let res = runner.run(&self.strategy, |case: T| {
            let text = match serde_json::to_string(&case) {
                Ok(t) => t,
                Err(e) => return Err(TestCaseError::fail(format!("cannot serialise case: {e}"))),
            };
            let (r, obs) = self.eval(&case, &text, ctx);
            if !*failed.borrow() {
                let mut o = out.borrow_mut();
                o.cases += 1;
                for l in &obs.labels {
                    *o.labels.entry(l.clone()).or_insert(0) += 1;
                }
                for k in &obs.known {
                    *o.known.entry(k.clone()).or_insert(0) += 1;
                }
                if obs.nontrivial {
                    o.nontrivial += 1;
                    let h = hash_bytes(text.as_bytes());
                    if seen.borrow_mut().insert(h) {
                        o.hashes.push(h);
                    }
                    if ctx.shard == 0 && o.samples.len() < 2 {
                        let v: Value = if text.len() <= 1500 {
                            serde_json::from_str(&text).unwrap_or(Value::Null)
                        } else {
                            let cut: String = text.chars().take(1500).collect();
                            Value::String(format!("{cut}..."))
                        };
                        o.samples.push(json!({"facet": self.name, "case": v}));
                    }
                }
            }
            match r {
                Ok(()) => Ok(()),
                Err(m) => {
                    *failed.borrow_mut() = true;
                    let v = serde_json::from_str(&text).unwrap_or(Value::Null);
                    *last_fail.borrow_mut() = Some((v, m.clone()));
                    Err(TestCaseError::fail(m))
                }
            }
        });
        let mut o = out.into_inner();
        match res {
            Ok(()) => {}
            Err(TestError::Fail(reason, value)) => {
                let text = serde_json::to_string(&value).unwrap_or_default();
                let (r, _) = self.eval(&value, &text, ctx);
                let (case, message) = match r {
                    Err(m) => (serde_json::from_str(&text).unwrap_or(Value::Null), m),
                    Ok(()) => last_fail
                        .into_inner()
                        .unwrap_or((Value::Null, format!("not reproducible: {reason}"))),
                };
                o.failure = Some(Failure { facet: self.name.to_string(), case, message, replay: None });
            }
            Err(TestError::Abort(r)) => o.error = Some(format!("generator gave up: {r}")),
        }
        o.secs = start.elapsed().as_secs_f64();
        o
    }

    fn replay(&self, case: &Value, ctx: &RunCtx) -> Result<Vec<String>, String> {
        let c: T = serde_json::from_value(case.clone()).map_err(|e| format!("cannot read case: {e}"))?;
        let text = serde_json::to_string(&c).map_err(|e| e.to_string())?;
        let (r, obs) = self.eval(&c, &text, ctx);
        r.map(|_| obs.known)
    }
}

fn verif_dir() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".to_string()))
}

#[derive(Serialize, Deserialize, Clone, Debug)]
struct KnownFinding {
    property: String,
    id: String,
    what: String,
    #[serde(default)]
    facet: Option<String>,
    #[serde(default)]
    case: Option<Value>,
    #[serde(default)]
    signature: Option<String>,
}

#[derive(Serialize, Deserialize, Clone, Debug, Default)]
struct KnownFile {
    #[serde(default)]
    findings: Vec<KnownFinding>,
    #[serde(default)]
    fixed: Vec<String>,
}

fn known_file(prop: &str) -> Vec<KnownFinding> {
    let p = verif_dir().join("known_findings.json");
    let Ok(t) = std::fs::read_to_string(p) else { return vec![] };
    let k: KnownFile = serde_json::from_str(&t).expect("known_findings.json is not valid");
    k.findings.into_iter().filter(|f| f.property == prop).collect()
}

fn set_limits() {
    // keep a runaway recursion or allocation from taking the sandbox down
    unsafe {
        let lim = libc::rlimit { rlim_cur: 6 << 30, rlim_max: 6 << 30 };
        libc::setrlimit(libc::RLIMIT_AS, &lim);
        let core = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &core);
    }
}

/// a case takes milliseconds, at most some seconds
fn case_limit(tier: Tier) -> u64 {
    if tier == Tier::Quick {
        200
    } else {
        1200
    }
}

static CURRENT: Mutex<Option<(&'static str, String)>> = Mutex::new(None);

fn start_watchdog(limit: u64, outfile: Option<PathBuf>) {
    let _ = now_secs();
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(500));
        let s = CASE_START.load(SeqCst);
        if s != 0 && now_secs().saturating_sub(s) > limit {
            eprintln!("watchdog: one case runs for more than {limit} s");
            let cur = CURRENT.lock().unwrap_or_else(|e| e.into_inner()).clone();
            if let (Some((facet, text)), Some(o)) = (cur, &outfile) {
                let f = Failure {
                    facet: facet.to_string(),
                    case: serde_json::from_str(&text).unwrap_or(Value::Null),
                    message: format!("does not come to an end within {limit} s"),
                    replay: None,
                };
                let out = ShardOut { failures: vec![f], ..ShardOut::default() };
                let _ = std::fs::write(o, serde_json::to_vec(&out).unwrap_or_default());
            }
            std::process::exit(97);
        }
    });
}

/// Entry point of every check binary.
pub fn run_main(prop: &'static str, facets: fn() -> Vec<Box<dyn AnyFacet>>, assumptions: &[&str]) {
    let args: Vec<String> = std::env::args().collect();
    match args.get(1).map(|s| s.as_str()) {
        Some("shard") => {
            // big stack: deep recursion in the code under test is bounded by max_depth
            let h = std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn(move || shard_main(prop, facets(), &args))
                .unwrap();
            let code = h.join().unwrap_or(98);
            std::process::exit(code);
        }
        Some("replay") => {
            let file = args.get(2).cloned().unwrap_or_default();
            let h = std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn(move || replay_main(prop, facets(), &file))
                .unwrap();
            std::process::exit(h.join().unwrap_or(98));
        }
        _ => std::process::exit(parent_main(prop, assumptions)),
    }
}

fn ctx_for(prop: &str, tier: Tier, seed: u64, shard: u32, shards: u32, trace: Option<PathBuf>) -> RunCtx {
    let known = known_file(prop).into_iter().map(|k| k.id).collect();
    RunCtx { tier, seed, shard, shards, trace, known }
}

fn replay_main(prop: &'static str, facets: Vec<Box<dyn AnyFacet>>, file: &str) -> i32 {
    install_panic_hook();
    set_limits();
    IN_CASE.store(true, SeqCst);
    start_watchdog(200, None);
    let t = match std::fs::read_to_string(file) {
        Ok(t) => t,
        Err(e) => {
            eprintln!("cannot read {file}: {e}");
            return 2;
        }
    };
    let f: Failure = match serde_json::from_str(&t) {
        Ok(f) => f,
        Err(e) => {
            eprintln!("cannot parse {file}: {e}");
            return 2;
        }
    };
    let ctx = ctx_for(prop, Tier::Quick, 1, 0, 1, None);
    for fc in &facets {
        if fc.name() == f.facet {
            return match fc.replay(&f.case, &ctx) {
                Ok(_) => {
                    println!("replay: property {prop} holds on this case");
                    0
                }
                Err(m) => {
                    println!("replay: property {prop} violated: {m}");
                    1
                }
            };
        }
    }
    eprintln!("no facet {}", f.facet);
    2
}

fn shard_main(prop: &'static str, facets: Vec<Box<dyn AnyFacet>>, args: &[String]) -> i32 {
    install_panic_hook();
    set_limits();
    IN_CASE.store(true, SeqCst);
    let shard: u32 = args[2].parse().unwrap();
    let shards: u32 = args[3].parse().unwrap();
    let tier = if args[4] == "thorough" { Tier::Thorough } else { Tier::Quick };
    let seed: u64 = args[5].parse().unwrap();
    let outfile = PathBuf::from(&args[6]);
    let trace = args.get(7).map(PathBuf::from);
    start_watchdog(case_limit(tier), Some(outfile.clone()));
    let ctx = ctx_for(prop, tier, seed, shard, shards, trace);
    let only = std::env::var("VERIF_FACET").ok();
    let mut out = ShardOut::default();
    if shard == 0 {
        for k in known_file(prop) {
            let (Some(fname), Some(case)) = (&k.facet, &k.case) else { continue };
            for fc in facets.iter().filter(|f| f.name() == fname) {
                match fc.replay(case, &ctx) {
                    Ok(_) => {}
                    Err(m) if k.signature.as_ref().is_some_and(|s| m.contains(s)) => {
                        out.known_lines.push(format!("KNOWN-FINDING: property={prop} {}", k.what));
                    }
                    Err(m) => out.failures.push(Failure {
                        facet: fname.clone(),
                        case: case.clone(),
                        message: m,
                        replay: None,
                    }),
                }
            }
        }
        let dir = verif_dir().join("corpus").join(prop);
        let mut files: Vec<PathBuf> = std::fs::read_dir(dir)
            .map(|d| d.filter_map(|e| e.ok().map(|e| e.path())).collect())
            .unwrap_or_default();
        files.sort();
        for f in files {
            let Ok(t) = std::fs::read_to_string(&f) else { continue };
            let Ok(fl) = serde_json::from_str::<Failure>(&t) else { continue };
            for fc in facets.iter().filter(|x| x.name() == fl.facet) {
                out.corpus_cases += 1;
                if let Err(m) = fc.replay(&fl.case, &ctx) {
                    out.failures.push(Failure {
                        facet: fl.facet.clone(),
                        case: fl.case.clone(),
                        message: m,
                        replay: Some(f.display().to_string()),
                    });
                }
            }
        }
    }
    for fc in &facets {
        if only.as_ref().is_some_and(|o| o != fc.name()) {
            continue;
        }
        if !out.failures.is_empty() {
            break;
        }
        let fo = fc.run(&ctx);
        if let Some(f) = &fo.failure {
            out.failures.push(f.clone());
        }
        out.facets.push(fo);
        let _ = std::fs::write(&outfile, serde_json::to_vec(&out).unwrap());
    }
    let _ = std::fs::write(&outfile, serde_json::to_vec(&out).unwrap());
    0
}

fn spawn_shard(i: u32, n: u32, tier: &str, seed: u64, out: &Path, trace: Option<&Path>) -> std::process::Child {
    let exe = std::env::current_exe().unwrap();
    let mut c = Command::new(exe);
    c.arg("shard").arg(i.to_string()).arg(n.to_string()).arg(tier).arg(seed.to_string()).arg(out);
    if let Some(t) = trace {
        c.arg(t);
    }
    if std::env::var("RAYON_NUM_THREADS").is_err() {
        c.env("RAYON_NUM_THREADS", "1");
    }
    c.stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::inherit());
    c.spawn().expect("cannot start shard")
}

/// waits; None when the deadline passed and the child was killed
fn wait_until(c: &mut std::process::Child, deadline: Instant) -> Option<std::process::ExitStatus> {
    loop {
        if let Ok(Some(s)) = c.try_wait() {
            return Some(s);
        }
        if Instant::now() > deadline {
            let _ = c.kill();
            let _ = c.wait();
            return None;
        }
        std::thread::sleep(Duration::from_millis(20));
    }
}

fn parent_main(prop: &'static str, assumptions: &[&str]) -> i32 {
    let start = Instant::now();
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let tier = if tier == "thorough" { "thorough" } else { "quick" };
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let dir = verif_dir();
    let run = dir.join("run").join(format!("{prop}-{}", std::process::id()));
    std::fs::create_dir_all(&run).expect("cannot create run directory");
    std::env::set_var("VERIF_RUN", &run);
    let code = parent_inner(prop, assumptions, tier, seed, &dir, &run, start);
    let _ = std::fs::remove_dir_all(&run);
    code
}

fn parent_inner(
    prop: &'static str,
    assumptions: &[&str],
    tier: &str,
    seed: u64,
    dir: &Path,
    run: &Path,
    start: Instant,
) -> i32 {
    let shards: u32 = std::env::var("VERIF_SHARDS").ok().and_then(|s| s.parse().ok()).unwrap_or(8);
    let deadline = start + Duration::from_secs(if tier == "quick" { 820 } else { 14_400 });
    let mut children = vec![];
    for i in 0..shards {
        let o = run.join(format!("out{i}.json"));
        children.push((i, spawn_shard(i, shards, tier, seed, &o, None), o));
    }
    let mut outs: Vec<ShardOut> = vec![];
    let mut errors: Vec<String> = vec![];
    let mut crashes: Vec<(u32, String)> = vec![];
    for (i, c, o) in &mut children {
        match wait_until(c, deadline) {
            None => errors.push(format!("shard {i} ran out of time")),
            Some(s) if s.success() => {}
            // the shard has written the case
            Some(s) if s.code() == Some(97) => errors.push(format!("shard {i}: a case did not finish in time")),
            Some(s) => crashes.push((*i, format!("{s}"))),
        }
        if let Ok(t) = std::fs::read(&*o) {
            if let Ok(x) = serde_json::from_slice::<ShardOut>(&t) {
                outs.push(x);
            }
        }
    }
    let mut failures: Vec<Failure> = outs.iter().flat_map(|o| o.failures.clone()).collect();
    if failures.is_empty() {
        for (i, how) in &crashes {
            // find the case that crashes the process, and confirm it alone
            let o = run.join(format!("trace-out{i}.json"));
            let tr = run.join(format!("trace{i}.json"));
            let mut c = spawn_shard(*i, shards, tier, seed, &o, Some(&tr));
            let st = wait_until(&mut c, deadline);
            let mut done = false;
            if let (Some(s), Ok(t)) = (st, std::fs::read_to_string(&tr)) {
                if !s.success() && s.code() != Some(97) {
                    if let Ok(mut v) = serde_json::from_str::<Value>(&t) {
                        v["message"] = json!(format!("process died: {s}"));
                        let rf = run.join(format!("crash{i}.json"));
                        let _ = std::fs::write(&rf, v.to_string());
                        let exe = std::env::current_exe().unwrap();
                        let mut c = Command::new(exe)
                            .arg("replay")
                            .arg(&rf)
                            .env("RAYON_NUM_THREADS", "1")
                            .stdout(Stdio::null())
                            .stderr(Stdio::null())
                            .spawn()
                            .unwrap();
                        if let Some(s2) = wait_until(&mut c, deadline) {
                            if !s2.success() && s2.code() != Some(2) && s2.code() != Some(97) {
                                failures.push(Failure {
                                    facet: v["facet"].as_str().unwrap_or("").to_string(),
                                    case: v["case"].clone(),
                                    message: format!("the process died ({s2}) on this case"),
                                    replay: None,
                                });
                                done = true;
                            }
                        }
                    }
                }
            }
            if !done {
                errors.push(format!("shard {i} died ({how}) and the case could not be confirmed"));
            }
            if !failures.is_empty() {
                break;
            }
        }
    }
    // merge
    let mut facets: BTreeMap<String, FacetOut> = BTreeMap::new();
    let mut order: Vec<String> = vec![];
    let mut hashes: HashSet<(String, u64)> = HashSet::new();
    let mut known_lines: Vec<String> = vec![];
    let mut corpus = 0;
    for o in &outs {
        corpus += o.corpus_cases;
        known_lines.extend(o.known_lines.iter().cloned());
        for f in &o.facets {
            if !order.contains(&f.name) {
                order.push(f.name.clone());
            }
            let e = facets.entry(f.name.clone()).or_insert_with(|| FacetOut {
                name: f.name.clone(),
                rule: f.rule.clone(),
                ..FacetOut::default()
            });
            e.cases += f.cases;
            e.nontrivial += f.nontrivial;
            for (l, n) in &f.labels {
                *e.labels.entry(l.clone()).or_insert(0) += n;
            }
            for (l, n) in &f.known {
                *e.known.entry(l.clone()).or_insert(0) += n;
            }
            e.samples.extend(f.samples.iter().cloned());
            e.secs = e.secs.max(f.secs);
            for h in &f.hashes {
                hashes.insert((f.name.clone(), *h));
            }
            if let Some(er) = &f.error {
                errors.push(format!("{}: {er}", f.name));
            }
        }
    }
    let kf = known_file(prop);
    for f in facets.values() {
        for id in f.known.keys() {
            if let Some(k) = kf.iter().find(|k| &k.id == id) {
                known_lines.push(format!("KNOWN-FINDING: property={prop} {}", k.what));
            }
        }
    }
    known_lines.sort();
    known_lines.dedup();
    let evaluations: u64 = facets.values().map(|f| f.cases).sum::<u64>() + corpus;
    let mut rules = String::from("Cases are drawn by the proptest strategies of each facet from VERIF_SEED; non-trivial: ");
    for n in &order {
        rules.push_str(&format!("[{n}] {}; ", facets[n].rule));
    }
    let samples: Vec<Value> = order.iter().flat_map(|n| facets[n].samples.iter().take(2).cloned()).collect();
    let fj: Vec<Value> = order
        .iter()
        .map(|n| {
            let f = &facets[n];
            json!({"facet": n, "cases": f.cases, "nontrivial": f.nontrivial,
                   "distinct_nontrivial": hashes.iter().filter(|(a, _)| a == n).count(),
                   "classes": f.labels, "slowest_shard_s": (f.secs * 100.).round() / 100.})
        })
        .collect();
    let mut ev = json!({
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": hashes.len(),
            "rule": rules,
            "samples": samples,
            "facets": fj,
            "regression_cases": corpus,
            "shards": shards,
            "known_findings": known_lines,
        },
        "assumptions": assumptions,
        "wall_s": (start.elapsed().as_secs_f64() * 100.).round() / 100.,
        "violations": failures.len(),
    });
    if ev.to_string().len() > 60_000 {
        ev["coverage"]["samples"] = json!(samples.iter().take(3).collect::<Vec<_>>());
    }
    let evdir = dir.join("evidence");
    let _ = std::fs::create_dir_all(&evdir);
    if let Err(e) = std::fs::write(evdir.join(format!("{prop}.json")), serde_json::to_string_pretty(&ev).unwrap()) {
        errors.push(format!("cannot write evidence: {e}"));
    }
    for l in &known_lines {
        println!("{l}");
    }
    for n in &order {
        let f = &facets[n];
        println!(
            "{prop} {n}: {} cases, {} non-trivial, {:.1} s  {:?}",
            f.cases, f.nontrivial, f.secs, f.labels
        );
    }
    if !failures.is_empty() {
        let rd = dir.join("replays");
        let _ = std::fs::create_dir_all(&rd);
        failures.sort_by_key(|f| f.case.to_string().len());
        let mut seen = HashSet::new();
        for f in &failures {
            if !seen.insert(f.facet.clone()) {
                continue;
            }
            let path = match &f.replay {
                Some(p) => PathBuf::from(p),
                None => {
                    let h = hash_bytes(f.case.to_string().as_bytes());
                    let p = rd.join(format!("{prop}-{}-{h:016x}.json", f.facet.replace(' ', "-")));
                    let _ = std::fs::write(
                        &p,
                        serde_json::to_string_pretty(&json!({"property": prop, "facet": f.facet, "case": f.case,
                            "message": f.message, "seed": seed, "tier": tier}))
                        .unwrap(),
                    );
                    p
                }
            };
            println!("{}: {}", f.facet, f.message);
            println!("VIOLATION property={prop} replay={}", path.display());
        }
        return 1;
    }
    if !errors.is_empty() {
        for e in &errors {
            eprintln!("ERROR {prop}: {e}");
        }
        return 3;
    }
    if evaluations == 0 && std::env::var("VERIF_FACET").is_err() {
        eprintln!("ERROR {prop}: nothing was evaluated");
        return 3;
    }
    println!("OK {prop}: {evaluations} cases, {} distinct non-trivial, {:.1} s", hashes.len(), start.elapsed().as_secs_f64());
    0
}
