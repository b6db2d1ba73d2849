//! The search engine shared by all checks: sharded proptest runs, counters, replay files.

use proptest::strategy::{Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
use serde::{de::DeserializeOwned, Serialize};
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

/// What a case says about itself.
#[derive(Default)]
pub struct Info {
    nontrivial: bool,
    labels: Vec<&'static str>,
}

impl Info {
    pub fn nontrivial(&mut self) {
        self.nontrivial = true
    }
    pub fn nontrivial_if(&mut self, b: bool) {
        if b {
            self.nontrivial = true
        }
    }
    pub fn label(&mut self, l: &'static str) {
        self.labels.push(l)
    }
    pub fn label_if(&mut self, b: bool, l: &'static str) {
        if b {
            self.labels.push(l)
        }
    }
}

pub type Check = Result<(), String>;

#[derive(Default, Serialize, serde::Deserialize)]
pub struct SubStats {
    pub name: String,
    pub rule: String,
    pub evaluations: u64,
    pub nontrivial: HashSet<u64>,
    pub labels: BTreeMap<String, u64>,
    pub samples: Vec<serde_json::Value>,
    pub wall_s: f64,
    pub corpus: u64,
}

#[derive(Clone, Serialize, serde::Deserialize)]
pub struct Failure {
    pub sub: String,
    pub message: String,
    pub value: serde_json::Value,
}

pub enum Mode {
    Run,
    /// Run a single recorded case of one sub-check.
    Replay(String, serde_json::Value),
}

/// The case being run, in memory shared through a file: it survives the death of the process.
pub struct Current {
    map: *mut u8,
}

const CURRENT_SIZE: usize = 64 << 20;

impl Current {
    pub fn create(path: &Path) -> Option<Current> {
        use std::os::fd::AsRawFd;
        let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(true).open(path).ok()?;
        f.set_len(CURRENT_SIZE as u64).ok()?;
        let map = unsafe { libc::mmap(std::ptr::null_mut(), CURRENT_SIZE, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0) };
        (map != libc::MAP_FAILED).then_some(Current { map: map as *mut u8 })
    }

    fn set(&self, data: &[u8]) {
        let n = if data.len() + 16 <= CURRENT_SIZE { data.len() } else { 0 };
        unsafe {
            std::ptr::copy_nonoverlapping(data.as_ptr(), self.map.add(16), n);
            let count = (self.map as *mut u64).add(1);
            count.write_volatile(count.read_volatile() + 1);
            std::ptr::copy_nonoverlapping((n as u64).to_le_bytes().as_ptr(), self.map, 8);
        }
    }

    /// The number of cases started so far.
    pub fn count(path: &Path) -> u64 {
        use std::io::Read;
        let mut n = [0u8; 16];
        match std::fs::File::open(path).and_then(|mut f| f.read_exact(&mut n)) {
            Ok(()) => u64::from_le_bytes(n[8..].try_into().unwrap()),
            Err(_) => 0,
        }
    }

    pub fn read(path: &Path) -> Option<serde_json::Value> {
        use std::io::Read;
        let mut f = std::fs::File::open(path).ok()?;
        let mut n = [0u8; 8];
        f.read_exact(&mut n).ok()?;
        f.read_exact(&mut [0u8; 8]).ok()?;
        let mut v = vec![0; u64::from_le_bytes(n) as usize];
        f.read_exact(&mut v).ok()?;
        serde_json::from_slice(&v).ok()
    }
}

/// Runs the sub-checks of a property in one process. The cases are shared between SHARDS processes
/// (threads would contend on the regular expressions of the checked code).
pub struct Runner {
    pub id: String,
    pub tier: Tier,
    pub seed: u64,
    pub mode: Mode,
    pub shard: u32,
    pub scratch: PathBuf,
    /// Created when another process has found a violation.
    pub stop_file: PathBuf,
    pub only: Option<String>,
    pub corpus: Vec<(String, serde_json::Value)>,
    pub stats: Vec<SubStats>,
    pub failure: Option<Failure>,
    pub replayed: bool,
    pub current: Option<Current>,
}

pub const SHARDS: u32 = 8;

thread_local! {
    static LAST_PANIC: std::cell::RefCell<Option<String>> = const { std::cell::RefCell::new(None) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "?".into());
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let _ = LAST_PANIC.try_with(|p| *p.borrow_mut() = Some(format!("{} at {}", msg, loc)));
    }));
}

/// Run `f`, turning a panic into an error message.
pub fn no_panic<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| {
        let m = LAST_PANIC
            .with(|p| p.borrow_mut().take())
            .unwrap_or_else(|| "?".into());
        format!("panic: {}", m)
    })
}

pub fn mix(mut x: u64) -> u64 {
    x = x.wrapping_add(0x9e3779b97f4a7c15);
    x = (x ^ (x >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    x = (x ^ (x >> 27)).wrapping_mul(0x94d049bb133111eb);
    x ^ (x >> 31)
}

pub fn hash_bytes(b: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for c in b {
        h = (h ^ *c as u64).wrapping_mul(0x100000001b3);
    }
    mix(h)
}

fn seed_bytes(seed: u64, name: &str, shard: u64) -> [u8; 32] {
    let mut x = mix(seed ^ hash_bytes(name.as_bytes()).rotate_left(17) ^ mix(shard + 1));
    let mut out = [0u8; 32];
    for c in out.chunks_mut(8) {
        x = mix(x);
        c.copy_from_slice(&x.to_le_bytes());
    }
    out
}

const MAX_SAMPLE: usize = 600;

static CASE_NR: AtomicU64 = AtomicU64::new(0);

impl SubStats {
    fn count<V: Serialize>(&mut self, v: &V, info: &Info) {
        self.evaluations += 1;
        for l in &info.labels {
            match self.labels.get_mut(*l) {
                Some(n) => *n += 1,
                None => {
                    self.labels.insert(l.to_string(), 1);
                }
            }
        }
        if !info.nontrivial {
            return;
        }
        let bytes = serde_json::to_vec(v).unwrap_or_default();
        if !self.nontrivial.insert(hash_bytes(&bytes)) {
            return;
        }
        if self.samples.is_empty() && bytes.len() <= MAX_SAMPLE {
            self.samples.push(serde_json::to_value(v).unwrap());
        } else if self.samples.is_empty() && self.nontrivial.len() == 20 {
            let mut t = String::from_utf8_lossy(&bytes).to_string();
            let mut cut = MAX_SAMPLE.min(t.len());
            while !t.is_char_boundary(cut) {
                cut -= 1;
            }
            t.truncate(cut);
            self.samples.push(serde_json::json!(format!("{}... ({} bytes)", t, bytes.len())));
        }
    }

    pub fn merge(&mut self, o: SubStats) {
        self.evaluations += o.evaluations;
        self.nontrivial.extend(o.nontrivial);
        for (l, n) in o.labels {
            *self.labels.entry(l).or_default() += n;
        }
        if self.samples.len() < 3 {
            self.samples.extend(o.samples);
        }
        self.wall_s = self.wall_s.max(o.wall_s);
        self.corpus += o.corpus;
    }
}

impl Runner {
    pub fn cases(&self, quick: u32, thorough: u32) -> u32 {
        match self.tier {
            Tier::Quick => quick,
            Tier::Thorough => thorough,
        }
    }

    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }

    /// One sub-check over generated values, shared between the processes.
    pub fn sub<S, F>(&mut self, name: &str, rule: &str, cases: u32, strategy: impl Fn() -> S, check: F)
    where
        S: Strategy,
        S::Value: Serialize + DeserializeOwned + Clone + Send + 'static,
        F: Fn(&S::Value, &mut Info) -> Check,
    {
        let per_shard = cases.div_ceil(SHARDS).max(1);
        self.run_sub(name, rule, per_shard, strategy, check)
    }

    /// As `sub`, in the first process only (for few and expensive cases that use all cores).
    pub fn sub_serial<S, F>(&mut self, name: &str, rule: &str, cases: u32, strategy: impl Fn() -> S, check: F)
    where
        S: Strategy,
        S::Value: Serialize + DeserializeOwned + Clone + Send + 'static,
        F: Fn(&S::Value, &mut Info) -> Check,
    {
        if self.shard == 0 {
            self.run_sub(name, rule, cases, strategy, check)
        }
    }

    fn skip(&self, name: &str) -> bool {
        self.failure.is_some()
            || self.only.as_ref().is_some_and(|only| !name.contains(only.as_str()))
            || matches!(&self.mode, Mode::Replay(sub, _) if sub != name)
    }

    /// Another process has found a violation, or a slow machine has used up the time of the quick tier.
    fn stopped(&self, sub: std::time::Instant) -> bool {
        static START: std::sync::OnceLock<std::time::Instant> = std::sync::OnceLock::new();
        let all = START.get_or_init(std::time::Instant::now).elapsed().as_secs();
        let late = matches!(self.tier, Tier::Quick) && (all > 480 || sub.elapsed().as_secs() > 240);
        late || self.stop_file.exists()
    }

    /// Replay mode: run the recorded case.
    fn run_recorded<T, F>(&mut self, name: &str, check: &F) -> bool
    where
        T: DeserializeOwned,
        F: Fn(&T, &mut Info) -> Check,
    {
        let Mode::Replay(_, value) = &self.mode else { return false };
        let v: T = serde_json::from_value(value.clone()).expect("replay value");
        self.replayed = true;
        if let Err(message) = run_one(check, &v, &mut Info::default()) {
            self.failure = Some(Failure { sub: name.into(), message, value: value.clone() });
        }
        true
    }

    /// Record the case that is about to run.
    fn trace<T: Serialize>(&self, name: &str, v: &T) {
        if let Some(t) = &self.current {
            #[derive(Serialize)]
            struct Traced<'a, T> {
                sub: &'a str,
                value: &'a T,
            }
            t.set(&serde_json::to_vec(&Traced { sub: name, value: v }).unwrap_or_default())
        }
    }

    fn run_sub<S, F>(&mut self, name: &str, rule: &str, cases: u32, strategy: impl Fn() -> S, check: F)
    where
        S: Strategy,
        S::Value: Serialize + DeserializeOwned + Clone + Send + 'static,
        F: Fn(&S::Value, &mut Info) -> Check,
    {
        if self.skip(name) || self.run_recorded::<S::Value, F>(name, &check) {
            return;
        }
        let started = std::time::Instant::now();
        let mut st = SubStats { name: name.into(), rule: rule.into(), ..Default::default() };
        st.corpus = self.replay_corpus::<S::Value, F>(name, &check);
        st.evaluations = st.corpus;
        if self.failure.is_some() {
            self.stats.push(st);
            return;
        }
        let full_name = format!("{}/{}", self.id, name);
        let rng = TestRng::from_seed(RngAlgorithm::ChaCha, &seed_bytes(self.seed, &full_name, self.shard as u64));
        let config = Config {
            cases,
            failure_persistence: None,
            max_shrink_iters: 3000,
            max_shrink_time: 25_000,
            max_global_rejects: 1 << 20,
            verbose: 0,
            ..Config::default()
        };
        let mut runner = TestRunner::new_with_rng(config, rng);
        let stats = std::cell::RefCell::new(st);
        let failing = std::cell::Cell::new(false);
        let this = &*self;
        let res = runner.run(&strategy(), |v| {
            if !failing.get() && this.stopped(started) {
                return Ok(());
            }
            this.trace(name, &v);
            let mut info = Info::default();
            let res = run_one(&check, &v, &mut info);
            if !failing.get() {
                stats.borrow_mut().count(&v, &info);
            }
            res.map_err(|e| {
                failing.set(true);
                let _ = std::fs::write(&this.stop_file, "");
                TestCaseError::fail(e)
            })
        });
        let mut st = stats.into_inner();
        st.wall_s = started.elapsed().as_secs_f64();
        self.stats.push(st);
        match res {
            Ok(()) => {}
            Err(TestError::Fail(reason, value)) => {
                self.failure = Some(Failure {
                    sub: name.into(),
                    message: reason.to_string(),
                    value: serde_json::to_value(&value).expect("serialise failure"),
                });
            }
            Err(TestError::Abort(reason)) => {
                eprintln!("ERROR {}: generation aborted: {}", full_name, reason);
                std::process::exit(2);
            }
        }
    }

    /// A fixed enumeration instead of a generator.
    pub fn enumerate<T, F>(&mut self, name: &str, rule: &str, values: Vec<T>, check: F)
    where
        T: Serialize + DeserializeOwned + Clone + std::fmt::Debug + 'static,
        F: Fn(&T, &mut Info) -> Check,
    {
        if self.skip(name) || self.run_recorded::<T, F>(name, &check) {
            return;
        }
        let started = std::time::Instant::now();
        let mut st = SubStats { name: name.into(), rule: rule.into(), ..Default::default() };
        st.corpus = self.replay_corpus::<T, F>(name, &check);
        st.evaluations = st.corpus;
        for (_, v) in values.iter().enumerate().filter(|(i, _)| *i as u32 % SHARDS == self.shard) {
            if self.failure.is_some() || self.stopped(started) {
                break;
            }
            self.trace(name, v);
            let mut info = Info::default();
            let res = run_one(&check, v, &mut info);
            st.count(v, &info);
            if let Err(message) = res {
                let _ = std::fs::write(&self.stop_file, "");
                self.failure = Some(Failure { sub: name.into(), message, value: serde_json::to_value(v).unwrap() });
            }
        }
        st.wall_s = started.elapsed().as_secs_f64();
        self.stats.push(st);
    }

    /// Run the saved cases of a sub-check, before generating new ones.
    fn replay_corpus<T, F>(&mut self, name: &str, check: &F) -> u64
    where
        T: DeserializeOwned,
        F: Fn(&T, &mut Info) -> Check,
    {
        let mut n = 0;
        if self.shard != 0 {
            return 0;
        }
        for (sub, value) in self.corpus.clone() {
            if sub != name || self.failure.is_some() {
                continue;
            }
            let Ok(v) = serde_json::from_value::<T>(value.clone()) else {
                eprintln!("WARNING {}/{}: stale corpus entry ignored", self.id, name);
                continue;
            };
            n += 1;
            self.trace(name, &value);
            if let Err(message) = run_one(check, &v, &mut Info::default()) {
                let _ = std::fs::write(&self.stop_file, "");
                self.failure = Some(Failure { sub, message, value });
            }
        }
        n
    }

    /// A new empty directory for one case, removed when dropped.
    pub fn case_dir(&self) -> CaseDir {
        case_dir(&self.scratch)
    }
}

pub fn case_dir(scratch: &Path) -> CaseDir {
    let n = CASE_NR.fetch_add(1, Ordering::SeqCst);
    let p = scratch.join(format!("c{}", n));
    std::fs::create_dir_all(&p).expect("case dir");
    CaseDir(p)
}

pub struct CaseDir(PathBuf);

impl CaseDir {
    pub fn path(&self) -> &Path {
        &self.0
    }
}

impl Drop for CaseDir {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

fn run_one<V>(check: &impl Fn(&V, &mut Info) -> Check, v: &V, info: &mut Info) -> Check {
    no_panic(|| check(v, info)).unwrap_or_else(Err)
}

/// Draw one value, for fixed corpora derived from the seed.
pub fn draw<S: Strategy>(s: &S, seed: u64) -> S::Value {
    let rng = TestRng::from_seed(RngAlgorithm::ChaCha, &seed_bytes(seed, "draw", 0));
    let mut r = TestRunner::new_with_rng(Config::default(), rng);
    s.new_tree(&mut r).unwrap().current()
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($arg:tt)+) => {
        if !($c) {
            return Err(format!($($arg)+));
        }
    };
}

/// Shorten a debug rendering for messages.
pub fn short<T: std::fmt::Debug>(t: T) -> String {
    let s = format!("{:?}", t);
    if s.len() > 400 {
        let mut cut = 400;
        while !s.is_char_boundary(cut) {
            cut -= 1;
        }
        format!("{}...", &s[..cut])
    } else {
        s
    }
}
