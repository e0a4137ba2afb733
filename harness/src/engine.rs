//! A small property-based testing engine in the style of Hypothesis: every
//! case is decoded from a recorded sequence of bounded choices, so shrinking
//! works on the choice sequence and keeps all generator invariants.  A run is
//! a pure function of the code under test, VERIF_SEED and VERIF_TIER.

use std::any::Any;
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::fmt::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::time::{Duration, Instant};

// ------------------------------------------------------------------ rng

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

pub fn hash_str(s: &str) -> u64 {
    let mut h: u64 = 0xcbf2_9ce4_8422_2325;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x0000_0100_0000_01B3);
    }
    mix(h)
}

struct Rng(u64);

impl Rng {
    fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        mix(self.0)
    }
}

// ------------------------------------------------------------ generation

/// Source of choices: random (recording) or replayed.
pub struct Gen {
    given: Vec<u64>,
    taken: Vec<u64>,
    rng: Option<Rng>,
}

impl Gen {
    fn random(seed: u64) -> Self {
        Gen { given: vec![], taken: vec![], rng: Some(Rng(seed)) }
    }

    pub fn replay(choices: &[u64]) -> Self {
        Gen { given: choices.to_vec(), taken: vec![], rng: None }
    }

    /// A choice in 0..n; shrinks towards 0.
    pub fn below(&mut self, n: u64) -> u64 {
        assert!(n > 0);
        let k = self.taken.len();
        let x = if k < self.given.len() {
            self.given[k].min(n - 1)
        } else if let Some(rng) = &mut self.rng {
            ((rng.next() as u128 * n as u128) >> 64) as u64
        } else if k < self.given.len() + 10_000 {
            0
        } else {
            // so that a generator waiting for some other choice comes to an end
            mix(k as u64) % n
        };
        self.taken.push(x);
        x
    }

    /// Uniform in lo..=hi, shrinking towards the value closest to zero.
    pub fn int(&mut self, lo: i64, hi: i64) -> i64 {
        assert!(lo <= hi);
        let origin = if lo > 0 { lo } else if hi < 0 { hi } else { 0 };
        let up = (hi - origin) as u64;
        let down = (origin - lo) as u64;
        let x = self.below(up + down + 1);
        // interleave: 0, +1, -1, +2, -2, ... as long as both sides last
        let both = up.min(down);
        if x <= 2 * both {
            if x % 2 == 1 { origin + (x / 2 + 1) as i64 }
            else { origin - (x / 2) as i64 }
        } else if up > down {
            origin + (x - both) as i64
        } else {
            origin - (x - both) as i64
        }
    }

    pub fn size(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below((hi - lo + 1) as u64) as usize
    }

    /// In lo..=hi, but now and then larger, up to `most`.
    pub fn larger(&mut self, lo: usize, hi: usize, most: usize) -> usize {
        if self.chance(1, 24) { self.size(hi, most) } else { self.size(lo, hi) }
    }

    /// True with probability num/den; shrinks to false.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num
    }

    pub fn flip(&mut self) -> bool {
        self.below(2) == 1
    }

    pub fn pick<'a, T>(&mut self, items: &'a [T]) -> &'a T {
        &items[self.below(items.len() as u64) as usize]
    }

    /// Index chosen with the given weights (index 0 is the simplest).
    pub fn weighted(&mut self, weights: &[u64]) -> usize {
        let total: u64 = weights.iter().sum();
        let mut x = self.below(total);
        for (i, w) in weights.iter().enumerate() {
            if x < *w {
                return i;
            }
            x -= w;
        }
        unreachable!()
    }

    pub fn vec<T>(
        &mut self, lo: usize, hi: usize, mut f: impl FnMut(&mut Gen) -> T
    ) -> Vec<T> {
        let n = self.size(lo, hi);
        (0..n).map(|_| f(self)).collect()
    }

    /// Fisher-Yates permutation of 0..n; shrinks to the identity.
    pub fn perm(&mut self, n: usize) -> Vec<usize> {
        let mut p: Vec<usize> = (0..n).collect();
        for i in 0..n {
            let j = i + self.below((n - i) as u64) as usize;
            p.swap(i, j);
        }
        p
    }

    pub fn shuffled<T: Clone>(&mut self, v: &[T]) -> Vec<T> {
        self.perm(v.len()).into_iter().map(|i| v[i].clone()).collect()
    }

    /// Integers of widely varying magnitude, up to `hi` in absolute value.
    pub fn skewed(&mut self, hi: i64) -> i64 {
        let bits = 64 - (hi as u64).leading_zeros() as u64;
        let b = self.below(bits + 1);
        let m = if b >= 63 { i64::MAX } else { (1i64 << b) - 1 };
        let m = m.min(hi);
        self.int(-m, m)
    }
}

// --------------------------------------------------------- observations

#[derive(Default)]
pub struct Obs {
    labels: Vec<&'static str>,
    nontrivial: bool,
}

impl Obs {
    pub fn label(&mut self, l: &'static str) {
        if !self.labels.contains(&l) {
            self.labels.push(l);
        }
    }

    pub fn label_if(&mut self, cond: bool, l: &'static str) {
        if cond {
            self.label(l);
        }
    }

    pub fn nontrivial(&mut self, cond: bool) {
        self.nontrivial |= cond;
    }
}

pub type Outcome = Result<(), String>;

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $($arg:tt)+) => {
        if !$cond {
            return Err(format!($($arg)+));
        }
    };
}

#[macro_export]
macro_rules! ensure_eq {
    ($a:expr, $b:expr, $($arg:tt)+) => {{
        let (a, b) = (&$a, &$b);
        if a != b {
            return Err(format!(
                "{}: got {:?}, expected {:?}", format!($($arg)+), a, b
            ));
        }
    }};
}

// --------------------------------------------------------- panic control

thread_local! {
    static LAST_PANIC: RefCell<String> = RefCell::new(String::new());
}

/// Panic payload of a deliberate step budget overrun.
pub struct BudgetExceeded;

/// Runs code of the system under test, turning a panic into an error.
pub fn sut<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let r = catch_unwind(AssertUnwindSafe(f));
    r.map_err(|e| {
        if e.downcast_ref::<BudgetExceeded>().is_some() {
            "does not terminate within the step budget".to_string()
        } else {
            format!("panic: {}", LAST_PANIC.with(|p| p.borrow().clone()))
        }
    })
}

/// A deterministic step counter that aborts a runaway computation.
pub struct Budget {
    left: Cell<u64>,
}

impl Budget {
    pub fn new(n: u64) -> Self {
        Budget { left: Cell::new(n) }
    }

    pub fn tick(&self) {
        let n = self.left.get();
        if n == 0 {
            std::panic::panic_any(BudgetExceeded);
        }
        self.left.set(n - 1);
    }
}

fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "(no message)".to_string()
        };
        let loc = info.location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let text = format!("{} at {}", msg, loc);
        LAST_PANIC.with(|p| *p.borrow_mut() = text);
    }));
}

// --------------------------------------------------------------- harness

const SHARDS: usize = 8;

pub struct Harness {
    pub id: String,
    pub thorough: bool,
    seed: u64,
    rules: Vec<String>,
    assumptions: Vec<String>,
    evaluations: u64,
    distinct: u64,
    labels: BTreeMap<String, u64>,
    samples: Vec<String>,
    subs: Vec<String>,
    exhaustive: Vec<String>,
    replay: Option<(String, Replay)>,
    replay_found: bool,
    violations: Vec<(String, String)>,
    known: Vec<(String, String)>,
    known_hits: BTreeMap<String, u64>,
    start: Instant,
    scale: u64,
    boost: u64,
    ordinal: u64,
}

enum Replay {
    Choices(Vec<u64>),
    Example(usize),
    Index(u64),
}

struct ShardResult {
    evaluations: u64,
    hashes: HashSet<u64>,
    labels: BTreeMap<&'static str, u64>,
    samples: Vec<(u64, String)>,
    failure: Option<(u64, Vec<u64>, String)>,
    known_hits: BTreeMap<String, u64>,
}

static CASE_STARTED: [AtomicU64; SHARDS] = [const { AtomicU64::new(0) }; SHARDS];
static WATCH_LIMIT: AtomicU64 = AtomicU64::new(120);

const RSS_LIMIT_MB: u64 = 6000;

fn rss_mb() -> u64 {
    std::fs::read_to_string("/proc/self/statm").ok()
        .and_then(|t| t.split_whitespace().nth(1).and_then(|x| x.parse::<u64>().ok()))
        .map(|pages| pages * 4 / 1024).unwrap_or(0)
}

/// Ends the process if a single case runs away; the parent then confirms.
fn watchdog(start: Instant) {
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(100));
        if rss_mb() > RSS_LIMIT_MB {
            println!("a case uses more than {} MB", RSS_LIMIT_MB);
            std::process::exit(RUNAWAY);
        }
        let now = start.elapsed().as_secs() + 1;
        for s in &CASE_STARTED {
            let t = s.load(Ordering::Relaxed);
            let limit = WATCH_LIMIT.load(Ordering::Relaxed);
            if t > 0 && now > t + limit {
                println!("a single case ran for over {} s", limit);
                std::process::exit(RUNAWAY);
            }
        }
    });
}

const RUNAWAY: i32 = 3;
const EXAMPLE: u64 = 1 << 63;

static SLOTS: std::sync::OnceLock<std::fs::File> = std::sync::OnceLock::new();

/// Notes the case a shard is working on where the parent process finds it
/// if this process dies.
fn mark(shard: usize, ordinal: u64, index: u64) {
    use std::os::unix::fs::FileExt;
    if let Some(f) = SLOTS.get() {
        let mut b = [0u8; 16];
        b[..8].copy_from_slice(&ordinal.to_le_bytes());
        b[8..].copy_from_slice(&index.to_le_bytes());
        let _ = f.write_at(&b, 16 * shard as u64);
    }
}

/// Passes error output on; returns its beginning once it is complete.
fn copy_errors(mut from: std::process::ChildStderr) -> String {
    use std::io::{Read, Write};
    let mut kept = vec![];
    let mut b = [0u8; 4096];
    while let Ok(n) = from.read(&mut b) {
        if n == 0 { break; }
        let _ = std::io::stderr().write_all(&b[..n]);
        if kept.len() < 1 << 16 { kept.extend_from_slice(&b[..n]); }
    }
    String::from_utf8_lossy(&kept).to_string()
}

/// Runs the check in a child process. If that dies or runs away, the cases
/// it was working on are run again one by one, to find the one to blame.
fn supervise(id: &str, seed: u64) -> ! {
    use std::process::{exit, Command};
    let exe = std::env::current_exe().expect("own path");
    let slots = std::env::temp_dir()
        .join(format!("verif-{}-{}.slots", id, std::process::id()));
    std::fs::write(&slots, [0u8; 16 * SHARDS]).expect("slots file");
    let mut child = Command::new(&exe).arg(id)
        .env("VERIF_CHILD", &slots)
        .stderr(std::process::Stdio::piped())
        .spawn().expect("child process");
    let report = copy_errors(child.stderr.take().expect("child errors"));
    let status = child.wait().expect("child process");
    let marks = std::fs::read(&slots).unwrap_or_default();
    let _ = std::fs::remove_file(&slots);
    match status.code() {
        Some(RUNAWAY) | None => {},
        Some(c @ 0..=2) => exit(c),
        Some(_) => exit(2),
    }
    println!("the check ended early ({}); looking for the case", status);
    let word = |k: usize| u64::from_le_bytes(
        marks[8 * k..8 * k + 8].try_into().unwrap()
    );
    // a fault that depends on the schedule may need several attempts
    let attempts = if status.code().is_none() { 12 } else { 1 };
    let mut found = None;
    for _ in 0..attempts {
    let mut jobs = vec![];
    for s in 0..SHARDS {
        let (ordinal, index) = (word(2 * s), word(2 * s + 1));
        if ordinal > 0 {
            let child = Command::new(&exe)
                .args([id, "--case", &ordinal.to_string(), &index.to_string()])
                .stdout(std::process::Stdio::piped())
                .stderr(std::process::Stdio::piped())
                .spawn().expect("child process");
            jobs.push((ordinal, index, child));
        }
    }
    for (ordinal, index, child) in jobs {
        let out = child.wait_with_output().expect("child output");
        let text = String::from_utf8_lossy(&out.stdout).to_string();
        let err = String::from_utf8_lossy(&out.stderr).to_string();
        let why = match out.status.code() {
            Some(0) | Some(2) => continue,
            Some(1) => "the case fails".to_string(),
            Some(RUNAWAY) => "no result within the limits for a single case \
                (time or memory)".to_string(),
            c => format!("the process ended with {:?}: {}", c, clip(err.trim(), 300)),
        };
        if found.is_none() {
            found = Some((ordinal, index, text, why));
        }
    }
    if found.is_some() { break; }
    }
    let bad_access = report.lines().find(|l| l.contains("ERROR: AddressSanitizer:")
        && !["out-of-memory", "allocation-size-too-big", "requested allocation",
            "out of memory", "rss-limit"].iter().any(|w| l.contains(w)));
    if let (None, Some(l)) = (&found, bad_access) {
        // the report stands, whichever of the cases under way it belongs to
        if let Some(s) = (0..SHARDS).find(|s| word(2 * s) > 0) {
            found = Some((word(2 * s), word(2 * s + 1), String::new(), format!(
                "{} (during this case or one that ran at the same time; not \
                 seen again in {} attempts)", l, attempts)));
        }
    }
    let Some((ordinal, index, text, why)) = found else {
        println!("INCONCLUSIVE: no single case to blame");
        exit(3);
    };
    let field = |k: &str| text.lines().find_map(|l| l.strip_prefix(k))
        .unwrap_or("").to_string();
    let (kind, k) = if index & EXAMPLE != 0 {
        ("example", index & !EXAMPLE)
    } else {
        ("index", index)
    };
    let dir = "/verif/replays";
    let _ = std::fs::create_dir_all(dir);
    let path = format!("{}/{}-runaway-{}.json", dir, id, seed);
    let _ = std::fs::write(&path, format!(
        "{{\n  \"property\": {},\n  \"sub\": {},\n  \"{}\": {},\n  \
         \"seed\": {},\n  \"case\": {},\n  \"failure\": {}\n}}\n",
        jstr(id), jstr(&format!("#{}", ordinal)), kind, jstr(&k.to_string()),
        jstr(&seed.to_string()), jstr(&field("case: ")), jstr(&why)
    ));
    let shown = jstr(&clip(&field("case: "), 1200));
    let _ = std::fs::create_dir_all("/verif/evidence");
    let _ = std::fs::write(format!("/verif/evidence/{}.json", id), format!(
        "{{\"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": \
         \"exploration\", \"coverage\": {{\"evaluations\": 1, \
         \"distinct_nontrivial\": 1, \"rule\": \"ended early by a runaway \
         case\", \"samples\": [{}]}}, \"assumptions\": [], \"wall_s\": 0, \
         \"violations\": 1}}\n",
        jstr(id), jstr(&std::env::var("VERIF_TIER").unwrap_or("quick".to_string())),
        seed, shown
    ));
    println!("case: {}", clip(&field("case: "), 2000));
    println!("failure: {}", why);
    println!("VIOLATION property={} replay={}", id, path);
    exit(1);
}

enum Run {
    Pass,
    Fail(String),
    HarnessError(String),
}

fn run_case<C>(
    gen: &(impl Fn(&mut Gen) -> C + Sync),
    test: &(impl Fn(&C, &mut Obs) -> Outcome + Sync),
    g: &mut Gen,
    obs: &mut Obs,
) -> (Run, Option<C>) {
    let c: Result<C, Box<dyn Any + Send>> =
        catch_unwind(AssertUnwindSafe(|| gen(g)));
    let Ok(c) = c else {
        return (
            Run::HarnessError(LAST_PANIC.with(|p| p.borrow().clone())), None
        );
    };
    (run_test(test, &c, obs), Some(c))
}

/// A panic outside `sut` comes from evaluating what the system returned.
fn run_test<C>(
    test: &(impl Fn(&C, &mut Obs) -> Outcome + Sync), c: &C, obs: &mut Obs
) -> Run {
    match catch_unwind(AssertUnwindSafe(|| test(c, obs))) {
        Ok(Ok(())) => Run::Pass,
        Ok(Err(m)) => Run::Fail(m),
        Err(_) => Run::Fail(format!(
            "panic: {}", LAST_PANIC.with(|p| p.borrow().clone())
        )),
    }
}

fn clip(s: &str, n: usize) -> String {
    if s.chars().count() <= n {
        s.to_string()
    } else {
        let t: String = s.chars().take(n).collect();
        format!("{}...", t)
    }
}

impl Harness {
    pub fn rule(&mut self, s: &str) {
        self.rules.push(s.to_string());
    }

    pub fn assume(&mut self, s: &str) {
        self.assumptions.push(s.to_string());
    }

    /// Multiplies the number of generated cases of the following sub-checks.
    pub fn boost(&mut self, n: u64) {
        self.boost = n;
    }

    pub fn note_exhaustive(&mut self, s: &str) {
        self.exhaustive.push(s.to_string());
    }

    /// One sub-check: examples first, then a fixed number of generated cases.
    pub fn sub<C: Debug>(
        &mut self,
        name: &str,
        quick: u64,
        thorough: u64,
        examples: Vec<C>,
        gen: impl Fn(&mut Gen) -> C + Sync,
        test: impl Fn(&C, &mut Obs) -> Outcome + Sync,
    ) {
        if !self.violations.is_empty() {
            return;
        }
        self.ordinal += 1;
        let ordinal = self.ordinal;
        let base = mix(self.seed)
            ^ hash_str(&self.id) ^ hash_str(name).rotate_left(17);
        if let Some((sub, rep)) = &self.replay {
            if sub != name && *sub != format!("#{}", ordinal) {
                return;
            }
            self.replay_found = true;
            let (msg, shown) = match rep {
                Replay::Choices(cs) => {
                    let mut g = Gen::replay(cs);
                    let mut obs = Obs::default();
                    let (r, c) = run_case(&gen, &test, &mut g, &mut obs);
                    (r, c.map(|c| format!("{:?}", c)).unwrap_or_default())
                },
                Replay::Example(k) => {
                    let c = &examples[*k];
                    let mut obs = Obs::default();
                    println!("case: {:?}", c);
                    let r = run_test(&test, c, &mut obs);
                    (r, String::new())
                },
                Replay::Index(i) => {
                    println!("sub: {}", name);
                    let mut g = Gen::random(mix(base ^ mix(*i)));
                    let c = gen(&mut g);
                    println!("case: {:?}", c);
                    let mut obs = Obs::default();
                    (run_test(&test, &c, &mut obs), String::new())
                }
            };
            if !shown.is_empty() {
                println!("case: {}", shown);
            }
            match msg {
                Run::Pass => println!("replay passes"),
                Run::Fail(m) => {
                    println!("fails: {}", m);
                    self.violations.push((name.to_string(), m));
                },
                Run::HarnessError(m) => {
                    println!("HARNESS ERROR: {}", m);
                    std::process::exit(2);
                }
            }
            return;
        }

        let t0 = Instant::now();
        let n_examples = examples.len();
        for (k, c) in examples.iter().enumerate() {
            let mut obs = Obs::default();
            mark(0, ordinal, EXAMPLE | k as u64);
            CASE_STARTED[0].store(
                self.start.elapsed().as_secs() + 1, Ordering::Relaxed
            );
            let r = run_test(&test, c, &mut obs);
            CASE_STARTED[0].store(0, Ordering::Relaxed);
            mark(0, 0, 0);
            self.evaluations += 1;
            if let Run::Fail(m) = r {
                let shown = format!("{:?}", c);
                if self.is_known(name, &shown) {
                    continue;
                }
                self.report(name, &m, &shown, "example", &format!("{}", k), &m);
                return;
            }
        }

        let n = if self.thorough { thorough } else { quick };
        let n = n * self.boost * self.scale / 100;
        let min_fail = AtomicUsize::new(usize::MAX);
        let start = self.start;
        let known: Vec<String> = self.known.iter()
            .filter(|(s, _)| s == name).map(|(_, c)| c.clone()).collect();
        let worker = |shard: usize| -> ShardResult {
            let mut res = ShardResult {
                evaluations: 0, hashes: HashSet::new(),
                labels: BTreeMap::new(), samples: vec![], failure: None,
                known_hits: BTreeMap::new(),
            };
            let mut i = shard as u64;
            while i < n {
                if (i as usize) > min_fail.load(Ordering::Relaxed) {
                    break;
                }
                let mut g = Gen::random(mix(base ^ mix(i)));
                let mut obs = Obs::default();
                mark(shard, ordinal, i);
                CASE_STARTED[shard].store(
                    start.elapsed().as_secs() + 1, Ordering::Relaxed
                );
                let (r, c) = run_case(&gen, &test, &mut g, &mut obs);
                CASE_STARTED[shard].store(0, Ordering::Relaxed);
                mark(shard, 0, 0);
                res.evaluations += 1;
                for l in &obs.labels {
                    *res.labels.entry(l).or_insert(0) += 1;
                }
                match r {
                    Run::Pass => {
                        if obs.nontrivial {
                            let s = format!("{:?}", c.unwrap());
                            if res.hashes.insert(hash_str(&s))
                                && res.samples.len() < 2
                                && s.len() < 1500
                            {
                                res.samples.push((i, s));
                            }
                        }
                    },
                    Run::Fail(m) => {
                        let shown = format!("{:?}", c.unwrap());
                        if known.contains(&shown) {
                            *res.known_hits.entry(shown).or_insert(0) += 1;
                        } else {
                            min_fail.fetch_min(i as usize, Ordering::Relaxed);
                            res.failure = Some((i, g.taken.clone(), m));
                            break;
                        }
                    },
                    Run::HarnessError(m) => {
                        println!(
                            "HARNESS ERROR in {} case {}: {}\nchoices {:?}",
                            name, i, m, g.taken
                        );
                        std::process::exit(2);
                    }
                }
                i += SHARDS as u64;
            }
            res
        };

        let results: Vec<ShardResult> = std::thread::scope(|s| {
            let hs: Vec<_> = (0..SHARDS).map(|k| {
                let w = &worker;
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(s, move || w(k)).unwrap()
            }).collect();
            hs.into_iter().map(|h| h.join().unwrap()).collect()
        });

        let mut hashes = HashSet::new();
        let mut failure: Option<(u64, Vec<u64>, String)> = None;
        let mut samples = vec![];
        let mut evals = 0;
        for r in results {
            evals += r.evaluations;
            hashes.extend(r.hashes);
            samples.extend(r.samples);
            for (l, k) in r.labels {
                *self.labels.entry(format!("{}: {}", name, l)).or_insert(0)
                    += k;
            }
            for (s, k) in r.known_hits {
                *self.known_hits.entry(s).or_insert(0) += k;
            }
            if let Some(f) = r.failure {
                if failure.as_ref().map_or(true, |g| f.0 < g.0) {
                    failure = Some(f);
                }
            }
        }
        samples.sort();
        for (_, s) in samples.into_iter().take(2) {
            self.samples.push(format!("{}: {}", name, s));
        }
        self.evaluations += evals;
        self.distinct += hashes.len() as u64;
        self.subs.push(format!(
            "{}: {} generated, {} distinct non-trivial, {} examples, {:.1} s",
            name, evals, hashes.len(), n_examples, t0.elapsed().as_secs_f64()
        ));

        if let Some((i, choices, m0)) = failure {
            println!("case {} of {} fails: {}", i, name, clip(&m0, 400));
            let (choices, msg, shown) = shrink(&gen, &test, choices, m0.clone());
            let list: Vec<String> =
                choices.iter().map(|c| c.to_string()).collect();
            self.report(name, &msg, &shown, "choices", &list.join(" "), &m0);
        }
    }

    fn is_known(&mut self, sub: &str, shown: &str) -> bool {
        if self.known.iter().any(|(s, c)| s == sub && c == shown) {
            *self.known_hits.entry(shown.to_string()).or_insert(0) += 1;
            true
        } else {
            false
        }
    }

    fn report(
        &mut self, sub: &str, msg: &str, shown: &str, kind: &str, data: &str,
        original: &str,
    ) {
        let dir = "/verif/replays";
        let _ = std::fs::create_dir_all(dir);
        let path = format!("{}/{}-{}-{}.json", dir, self.id, sub, self.seed);
        let text = format!(
            "{{\n  \"property\": {},\n  \"sub\": {},\n  \"{}\": {},\n  \
             \"case\": {},\n  \"failure\": {},\n  \"before_shrinking\": {}\n}}\n",
            jstr(&self.id), jstr(sub), kind, jstr(data), jstr(shown),
            jstr(msg), jstr(original)
        );
        if let Err(e) = std::fs::write(&path, text) {
            println!("cannot write {}: {}", path, e);
        }
        println!("minimal case: {}", clip(shown, 2000));
        println!("failure: {}", clip(msg, 2000));
        println!("VIOLATION property={} replay={}", self.id, path);
        self.violations.push((sub.to_string(), msg.to_string()));
    }

    fn write_evidence(&self) {
        let mut o = String::new();
        let list = |v: &Vec<String>| format!(
            "[{}]", v.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(", ")
        );
        let labels = self.labels.iter()
            .map(|(k, v)| format!("{}: {}", jstr(k), v))
            .collect::<Vec<_>>().join(", ");
        let _ = write!(
            o,
            "{{\"property\": {}, \"tier\": {}, \"seed\": {}, \
             \"level\": \"exploration\", \"coverage\": {{\
             \"evaluations\": {}, \"distinct_nontrivial\": {}, \
             \"rule\": {}, \"samples\": {}, \"sub_checks\": {}, \
             \"labels\": {{{}}}",
            jstr(&self.id),
            jstr(if self.thorough { "thorough" } else { "quick" }),
            self.seed, self.evaluations, self.distinct,
            jstr(&self.rules.join(" ")), list(&self.samples),
            list(&self.subs), labels
        );
        if !self.exhaustive.is_empty() {
            let _ = write!(
                o, ", \"exhaustive_parts\": {}", list(&self.exhaustive)
            );
        }
        let _ = write!(
            o,
            "}}, \"assumptions\": {}, \"wall_s\": {:.2}, \"violations\": {}}}\n",
            list(&self.assumptions), self.start.elapsed().as_secs_f64(),
            self.violations.len()
        );
        let _ = std::fs::create_dir_all("/verif/evidence");
        std::fs::write(format!("/verif/evidence/{}.json", self.id), o)
            .expect("cannot write evidence");
    }
}

fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            },
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

// -------------------------------------------------------------- shrinking

fn shrink<C: Debug>(
    gen: &(impl Fn(&mut Gen) -> C + Sync),
    test: &(impl Fn(&C, &mut Obs) -> Outcome + Sync),
    choices: Vec<u64>,
    msg: String,
) -> (Vec<u64>, String, String) {
    let mut best = choices;
    let mut best_msg = msg;
    let mut shown = String::new();
    let mut budget = 4000;
    let deadline = Instant::now() + Duration::from_secs(60);

    let eval = |cs: &[u64]| -> Option<(Vec<u64>, String, String)> {
        let mut g = Gen::replay(cs);
        let mut obs = Obs::default();
        match run_case(gen, test, &mut g, &mut obs) {
            (Run::Fail(m), Some(c)) =>
                Some((g.taken.clone(), m, format!("{:?}", c))),
            _ => None,
        }
    };
    let trim = |mut v: Vec<u64>| { while v.last() == Some(&0) { v.pop(); } v };

    if let Some((t, m, s)) = eval(&best) {
        best = trim(t);
        best_msg = m;
        shown = s;
    }

    let smaller = |a: &Vec<u64>, b: &Vec<u64>| {
        (a.len(), a) < (b.len(), b)
    };

    let mut improved = true;
    while improved && budget > 0 && Instant::now() < deadline {
        improved = false;
        macro_rules! attempt {
            ($cand:expr) => {{
                let cand: Vec<u64> = $cand;
                if budget > 0 && Instant::now() < deadline && cand != best {
                    budget -= 1;
                    match eval(&cand) {
                        Some((t, m, s)) => {
                            let t = trim(t);
                            if smaller(&t, &best) {
                                best = t;
                                best_msg = m;
                                shown = s;
                                improved = true;
                                true
                            } else { false }
                        },
                        None => false,
                    }
                } else { false }
            }};
        }
        // delete chunks
        for size in [64usize, 32, 16, 8, 5, 4, 3, 2, 1] {
            let mut i = best.len();
            while i > 0 {
                i -= 1;
                if i + size <= best.len() {
                    let mut c = best.clone();
                    c.drain(i..i + size);
                    attempt!(c);
                }
            }
        }
        // zero chunks
        for size in [16usize, 8, 4, 2] {
            let mut i = 0;
            while i + size <= best.len() {
                let mut c = best.clone();
                for x in &mut c[i..i + size] { *x = 0; }
                attempt!(c);
                i += size;
            }
        }
        // lower single values
        let mut i = 0;
        while i < best.len() {
            if best[i] > 0 {
                let mut c = best.clone();
                c[i] = 0;
                if !attempt!(c) {
                    let (mut lo, mut hi) = (0, best[i]);
                    while lo + 1 < hi && i < best.len() {
                        let mid = lo + (hi - lo) / 2;
                        let mut c = best.clone();
                        c[i] = mid;
                        if attempt!(c) { hi = mid; } else { lo = mid; }
                    }
                    for d in [1u64, 2] {
                        if i < best.len() && best[i] >= d {
                            let mut c = best.clone();
                            c[i] -= d;
                            attempt!(c);
                        }
                    }
                }
            }
            i += 1;
        }
        // lower a value (a length, say) while deleting something later
        let mut i = 0;
        while i < best.len() {
            if best[i] > 0 && best[i] < 64 {
                'outer: for size in 1..=6usize {
                    for j in (i + 1)..best.len() {
                        if j + size <= best.len() {
                            let mut c = best.clone();
                            c[i] -= 1;
                            c.drain(j..j + size);
                            if attempt!(c) { break 'outer; }
                        }
                    }
                }
            }
            i += 1;
        }
    }
    if shown.is_empty() {
        shown = "(not reproduced)".to_string();
    }
    (best, best_msg, shown)
}

// ------------------------------------------------------------------ main

fn json_field(text: &str, key: &str) -> Option<String> {
    // replay files are written by this program, one string field per line
    for line in text.lines() {
        let line = line.trim();
        let prefix = format!("\"{}\": \"", key);
        if let Some(r) = line.strip_prefix(&prefix) {
            let r = r.trim_end_matches(',');
            return r.strip_suffix('"').map(|s| s.to_string());
        }
    }
    None
}

pub type Check = fn(&mut Harness);

pub fn main(checks: &[(&str, Check)]) {
    install_panic_hook();
    let args: Vec<String> = std::env::args().collect();
    let id = args.get(1).cloned().unwrap_or_default();
    let check = checks.iter().find(|c| c.0 == id);
    let Some(check) = check else {
        println!("unknown property {}", id);
        std::process::exit(2);
    };
    let seed = std::env::var("VERIF_SEED").ok()
        .and_then(|s| s.trim().parse::<u64>().ok()).unwrap_or(1);
    let thorough = std::env::var("VERIF_TIER")
        .map(|t| t == "thorough").unwrap_or(false);
    let scale = std::env::var("VERIF_SCALE").ok()
        .and_then(|s| s.parse().ok()).unwrap_or(100);
    let mut seed = seed;
    let mode = args.get(2).map(|s| s.as_str());
    if mode.is_none() {
        match std::env::var_os("VERIF_CHILD") {
            None => supervise(&id, seed),
            Some(path) => {
                let f = std::fs::OpenOptions::new().write(true).open(path)
                    .expect("slots file");
                let _ = SLOTS.set(f);
            }
        }
    }
    let replay = if mode == Some("--case") {
        let k: u64 = args[4].parse().unwrap();
        let r = if k & EXAMPLE != 0 {
            Replay::Example((k & !EXAMPLE) as usize)
        } else {
            Replay::Index(k)
        };
        Some((format!("#{}", args[3]), r))
    } else if mode == Some("--replay") {
        let text = std::fs::read_to_string(&args[3]).expect("replay file");
        let sub = json_field(&text, "sub").expect("sub");
        if let Some(s) = json_field(&text, "seed") {
            seed = s.parse().unwrap();
        }
        let r = if let Some(k) = json_field(&text, "index") {
            Replay::Index(k.parse().unwrap())
        } else if let Some(c) = json_field(&text, "choices") {
            Replay::Choices(
                c.split_whitespace().map(|x| x.parse().unwrap()).collect()
            )
        } else {
            Replay::Example(
                json_field(&text, "example").unwrap().parse().unwrap()
            )
        };
        Some((sub, r))
    } else {
        None
    };

    // lines "known: property=C01 sub=name case=<exact case>"
    let mut known = vec![];
    let mut known_text = BTreeMap::new();
    let path = std::env::var("VERIF_KNOWN")
        .unwrap_or("/verif/known_findings.txt".to_string());
    if let Ok(text) = std::fs::read_to_string(path) {
        for line in text.lines() {
            if let Some(r) = line.strip_prefix(&format!("known: property={} ", id)) {
                if let Some(r) = r.strip_prefix("sub=") {
                    if let Some((sub, case)) = r.split_once(" case=") {
                        known.push((sub.to_string(), case.to_string()));
                        known_text.insert(case.to_string(), sub.to_string());
                    }
                }
            }
        }
    }

    let start = Instant::now();
    watchdog(start);
    if thorough {
        WATCH_LIMIT.store(900, Ordering::Relaxed);
    }
    if mode == Some("--case") {
        // the whole process serves a single case
        WATCH_LIMIT.store(if thorough { 600 } else { 60 }, Ordering::Relaxed);
        CASE_STARTED[0].store(1, Ordering::Relaxed);
    }
    let mut h = Harness {
        id: id.clone(), thorough, seed, rules: vec![], assumptions: vec![],
        evaluations: 0, distinct: 0, labels: BTreeMap::new(), samples: vec![],
        subs: vec![], exhaustive: vec![], replay, replay_found: false,
        violations: vec![], known, known_hits: BTreeMap::new(), start, scale,
        boost: 1, ordinal: 0,
    };
    (check.1)(&mut h);

    if h.replay.is_some() {
        if !h.replay_found {
            println!("no such sub-check");
            std::process::exit(2);
        }
        std::process::exit(if h.violations.is_empty() { 0 } else { 1 });
    }
    h.write_evidence();
    for (case, sub) in &known_text {
        println!(
            "KNOWN-FINDING: property={} sub={} case={} (seen {} times)",
            id, sub, case, h.known_hits.get(case).unwrap_or(&0)
        );
    }
    for s in &h.subs {
        println!("  {}", s);
    }
    if std::env::var("VERIF_LABELS").is_ok() {
        for (k, v) in &h.labels {
            println!("    {:60} {}", k, v);
        }
    }
    if h.violations.is_empty() {
        println!(
            "OK {}: {} evaluations, {} distinct non-trivial, {:.1} s",
            id, h.evaluations, h.distinct, start.elapsed().as_secs_f64()
        );
    } else {
        std::process::exit(1);
    }
}
