//! Property-based testing engine: seeded choice-sequence generation, parallel search, shrinking,
//! replay files and evidence.
//!
//! A generator is a plain function drawing from `G`. `G` records every draw, so a failing case is
//! shrunk by simplifying the recorded draw sequence and re-running the generator on it.

use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Value};
use sha2::{Digest, Sha256};
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

// ---------------------------------------------------------------- random source

pub struct G {
    state: u64,
    replay: Option<Vec<u64>>,
    pos: usize,
    pub rec: Vec<u64>,
    hints: Hints,
    /// The latest words of the case.
    recent: Vec<u64>,
}

/// Constants that the code under test compares its values with, in order.
pub type Hints = &'static [u64];

fn splitmix(s: &mut u64) -> u64 {
    *s = s.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = *s;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

impl G {
    /// A source without hints: what it yields depends on the seed alone.
    pub fn seeded(seed: u64) -> Self {
        G { state: seed, replay: None, pos: 0, rec: Vec::new(), hints: &[], recent: Vec::new() }
    }
    fn replaying(choices: Vec<u64>, hints: Hints) -> Self {
        G { state: 0, replay: Some(choices), pos: 0, rec: Vec::new(), hints, recent: Vec::new() }
    }
    fn with(mut self, hints: Hints) -> Self {
        self.hints = hints;
        self
    }
    /// Keeps a word of the case, so that others may repeat it.
    pub fn keep(&mut self, w: u64) -> u64 {
        if self.recent.len() < 12 {
            self.recent.push(w);
        } else {
            let at = self.rec.len() % 12;
            self.recent[at] = w;
        }
        w
    }
    /// One of the latest words of the case, or next to it.
    pub fn repeat(&mut self) -> Option<u64> {
        if self.recent.is_empty() {
            return None;
        }
        let at = self.below(self.recent.len());
        let w = self.recent[at];
        Some(match self.below(6) {
            0..=2 => w,
            3 => w.wrapping_add(1),
            4 => w.wrapping_sub(1),
            _ => !w,
        })
    }
    /// A value at or next to a constant that the code under test compares something with, or a
    /// small multiple or part of one.
    pub fn hint(&mut self, max: u64) -> Option<u64> {
        let n = self.hints.partition_point(|c| *c <= max);
        if n == 0 {
            return None;
        }
        let c = self.hints[self.below(n)];
        let v = match self.below(12) {
            0..=3 => c,
            4 | 5 => c.wrapping_add(1),
            6 | 7 => c - 1,
            8 => c.wrapping_add(self.below(300) as u64),
            9 => c.wrapping_mul(8),
            10 => c / 8,
            _ => c.wrapping_mul(*self.pick(&[2, 3, 4])),
        };
        Some(v.min(max))
    }
    fn draw(&mut self, bound: u64) -> u64 {
        // bound 0 means the full 64-bit range
        let v = match &self.replay {
            Some(c) => {
                let v = c.get(self.pos).copied().unwrap_or(0);
                if bound == 0 { v } else { v.min(bound - 1) }
            }
            None => {
                let v = splitmix(&mut self.state);
                if bound == 0 { v } else { ((v as u128 * bound as u128) >> 64) as u64 }
            }
        };
        self.pos += 1;
        self.rec.push(v);
        v
    }
    /// Uniform in 0..n; shrinks towards 0.
    pub fn below(&mut self, n: usize) -> usize {
        if n <= 1 {
            return 0;
        }
        self.draw(n as u64) as usize
    }
    pub fn u64(&mut self) -> u64 {
        self.draw(0)
    }
    /// True with probability num/den; shrinks towards false.
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) >= den - num
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len())]
    }
    /// `len` pseudo-random bytes for a single recorded draw; the zero draw gives zero bytes.
    pub fn blob(&mut self, len: usize) -> Vec<u8> {
        let seed = self.draw(0);
        expand(seed, len)
    }
}

pub fn expand(seed: u64, len: usize) -> Vec<u8> {
    let mut v = Vec::with_capacity(len + 8);
    if seed == 0 {
        v.resize(len, 0);
        return v;
    }
    let mut s = seed;
    while v.len() < len {
        v.extend_from_slice(&splitmix(&mut s).to_le_bytes());
    }
    v.truncate(len);
    v
}

// ---------------------------------------------------------------- allocation meter

pub mod alloc_meter {
    use std::alloc::{GlobalAlloc, Layout, System};
    use std::cell::Cell;

    pub struct Meter;

    /// Requests of this size while armed are reported at once, because granting them could end the process.
    pub const FATAL: usize = 1 << 30;

    thread_local! {
        static ARMED: Cell<bool> = const { Cell::new(false) };
        static TOTAL: Cell<usize> = const { Cell::new(0) };
    }

    #[inline]
    fn note(size: usize) {
        let _ = ARMED.try_with(|a| {
            if a.get() {
                TOTAL.with(|t| t.set(t.get().saturating_add(size)));
                if size >= FATAL {
                    a.set(false);
                    super::emergency("a single allocation of 1 GiB or more was requested");
                }
            }
        });
    }

    unsafe impl GlobalAlloc for Meter {
        unsafe fn alloc(&self, l: Layout) -> *mut u8 {
            note(l.size());
            System.alloc(l)
        }
        unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
            note(l.size());
            System.alloc_zeroed(l)
        }
        unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
            if new > l.size() {
                note(new - l.size());
            }
            System.realloc(p, l, new)
        }
        unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
            System.dealloc(p, l)
        }
    }

    /// Runs `f` and returns its result and the bytes it requested on this thread.
    pub fn measure<R>(f: impl FnOnce() -> R) -> (R, usize) {
        struct Guard;
        impl Drop for Guard {
            fn drop(&mut self) {
                ARMED.with(|a| a.set(false));
            }
        }
        TOTAL.with(|t| t.set(0));
        ARMED.with(|a| a.set(true));
        let g = Guard;
        let r = f();
        drop(g);
        (r, TOTAL.with(|t| t.get()))
    }
}

#[global_allocator]
static METER: alloc_meter::Meter = alloc_meter::Meter;

// ---------------------------------------------------------------- per-case observations

/// What the oracle reports about one case besides its verdict.
#[derive(Default)]
pub struct Obs {
    pub nontrivial: bool,
    pub classes: Vec<&'static str>,
}

impl Obs {
    pub fn nt(&mut self, b: bool) {
        self.nontrivial |= b;
    }
    pub fn class(&mut self, c: &'static str) {
        self.classes.push(c);
    }
    pub fn class_if(&mut self, b: bool, c: &'static str) {
        if b {
            self.classes.push(c);
        }
    }
}

pub type Res = Result<(), String>;

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !($c) { return Err(format!($($t)*)); } };
}
#[macro_export]
macro_rules! ensure_eq {
    ($a:expr, $b:expr, $($t:tt)*) => {{
        let (a, b) = (&$a, &$b);
        if a != b { return Err(format!("{}: got {:?}, expected {:?}", format!($($t)*), a, b)); }
    }};
}

// ---------------------------------------------------------------- context

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Tier {
    Quick,
    Thorough,
}

pub struct Ctx {
    pub id: String,
    pub tier: Tier,
    pub seed: u64,
    replay: Option<(String, Value)>,
    pub replayed: bool,
    /// (part, case index) to generate again instead of searching, and the case once generated.
    regen: Option<(String, u64)>,
    regenerated: Option<Value>,
    pub rule: String,
    evaluations: u64,
    distinct: u64,
    classes: BTreeMap<String, u64>,
    parts: Vec<Value>,
    samples: Vec<Value>,
    pub failure: Option<(String, Value, String)>,
    started: Instant,
    scale: f64,
    /// What the cases of the parts so far noted.
    hints: Hints,
}

struct Emergency {
    id: String,
    label: String,
    regen: Box<dyn Fn(u64) -> Value + Send + Sync>,
}
static EMERGENCY: Mutex<Option<std::sync::Arc<Emergency>>> = Mutex::new(None);
thread_local! {
    static CURRENT: std::cell::Cell<Option<u64>> = const { std::cell::Cell::new(None) };
    static PANIC_MSG: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
    static QUIET: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

fn verif_dir() -> std::path::PathBuf {
    std::env::var("PTX_VERIF").map(Into::into).unwrap_or_else(|_| "/verif".into())
}

fn write_replay(id: &str, label: &str, case: &Value, err: &str) -> String {
    let dir = verif_dir().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{id}-{label}.json"));
    let v = json!({"property": id, "label": label, "error": err, "case": case});
    let _ = std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap_or_default());
    path.display().to_string()
}

/// Reports the running case and ends the process: used where unwinding is not possible.
pub fn emergency(what: &str) {
    let idx = CURRENT.with(|c| c.get());
    report_and_exit(idx, what)
}

fn report_and_exit(idx: Option<u64>, what: &str) -> ! {
    let e = EMERGENCY.lock().ok().and_then(|e| e.clone());
    if let (Some(e), Some(i)) = (e, idx) {
        let case = (e.regen)(i);
        let path = write_replay(&e.id, &e.label, &case, what);
        println!("{}", what);
        println!("VIOLATION property={} replay={}", e.id, path);
        std::process::exit(1);
    }
    eprintln!("harness error: {what}");
    std::process::exit(2)
}

fn case_seed(seed: u64, id: &str, label: &str) -> impl Fn(u64) -> u64 + Copy + Send + Sync + 'static {
    let base = mix(&[&seed.to_le_bytes(), id.as_bytes(), label.as_bytes()]);
    move |i| mix(&[&base.to_le_bytes(), &i.to_le_bytes()])
}

/// Where the searching process notes which cases are running, so that the process that started it can
/// tell which of them ended it: the part's name in 64 bytes, then each shard's case index + 1.
struct Journal(Option<std::fs::File>);

/// Which hints the cases of the running part are generated with: those up to the turn with what the parts
/// before it noted, the others with what those cases noted too.
#[derive(Clone, Copy, Default, Serialize)]
struct Phases {
    turn: u64,
    before: Hints,
    after: Hints,
}
static PHASES: Mutex<Option<Phases>> = Mutex::new(None);

fn hints_of(i: u64) -> Hints {
    match PHASES.lock().ok().and_then(|p| *p) {
        Some(p) if i < p.turn => p.before,
        Some(p) => p.after,
        None => &[],
    }
}

impl Phases {
    fn file(journal: &std::path::Path) -> std::path::PathBuf {
        journal.with_extension("hints")
    }
    /// Makes these the current ones, here and in the journal.
    fn set(self) {
        *PHASES.lock().unwrap() = Some(self);
        if let Some(p) = std::env::var_os(JOURNAL).filter(|p| *p != "/dev/null") {
            let _ = std::fs::write(Self::file(p.as_ref()), serde_json::to_vec(&self).unwrap_or_default());
        }
    }
    fn read(journal: &std::path::Path) -> Option<Self> {
        let v: Value = serde_json::from_slice(&std::fs::read(Self::file(journal)).ok()?).ok()?;
        let list = |k: &str| -> Option<Hints> { Some(serde_json::from_value::<Vec<u64>>(v[k].clone()).ok()?.leak()) };
        Some(Phases { turn: v["turn"].as_u64()?, before: list("before")?, after: list("after")? })
    }
}

const JOURNAL: &str = "PTX_JOURNAL";

impl Journal {
    fn open() -> Self {
        Journal(std::env::var_os(JOURNAL).and_then(|p| std::fs::OpenOptions::new().write(true).open(p).ok()))
    }
    fn write(&self, at: u64, bytes: &[u8]) {
        use std::os::unix::fs::FileExt;
        if let Some(f) = &self.0 {
            let _ = f.write_all_at(bytes, at);
        }
    }
    fn part(&self, label: &str) {
        let mut b = [0u8; 64 + 8 * SHARDS as usize];
        b[..label.len()].copy_from_slice(label.as_bytes());
        self.write(0, &b)
    }
    fn case(&self, shard: u64, value: u64) {
        self.write(64 + 8 * shard, &value.to_le_bytes())
    }
    fn read(path: &std::path::Path) -> Option<(String, Vec<u64>)> {
        let b = std::fs::read(path).ok()?;
        let label = b.get(..64)?.iter().take_while(|c| **c != 0).map(|c| *c as char).collect();
        let mut running: Vec<u64> = b[64..]
            .chunks_exact(8)
            .map(|c| u64::from_le_bytes(c.try_into().unwrap()))
            .filter(|v| *v > 0)
            .map(|v| v - 1)
            .collect();
        running.sort_unstable();
        Some((label, running))
    }
}

/// The signal that ended a process, if it is one the code it ran brings about.
fn crash(status: std::process::ExitStatus) -> Option<i32> {
    use std::os::unix::process::ExitStatusExt;
    // SIGILL, SIGTRAP, SIGABRT, SIGBUS, SIGFPE, SIGSEGV
    status.signal().filter(|s| [4, 5, 6, 7, 8, 11].contains(s))
}

/// Runs this program again, with `args`, as a process whose death can be looked into.
/// `run` is the table of properties.
pub fn supervise(args: &[String], ctx: Ctx, run: impl Fn(&str, &mut Ctx) -> bool) -> i32 {
    let exe = match std::env::current_exe() {
        Ok(e) => e,
        Err(e) => {
            eprintln!("harness error: {e}");
            return 2;
        }
    };
    let dir = verif_dir().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let journal = dir.join(format!(".running-{}-{}", ctx.id, std::process::id()));
    let _ = std::fs::write(&journal, []);
    let status = std::process::Command::new(&exe).args(args).env(JOURNAL, &journal).status();
    let noted = Journal::read(&journal);
    *PHASES.lock().unwrap() = Phases::read(&journal);
    let _ = std::fs::remove_file(&journal);
    let _ = std::fs::remove_file(Phases::file(&journal));
    let status = match status {
        Ok(s) => s,
        Err(e) => {
            eprintln!("harness error: {e}");
            return 2;
        }
    };
    if let Some(c) = status.code() {
        return c;
    }
    let Some(signal) = crash(status) else {
        eprintln!("harness error: the search was ended: {status}");
        return 2;
    };
    let what = format!("the process was ended by signal {signal}");
    if ctx.replay.is_some() {
        println!("{}: {what}", ctx.id);
        return 1;
    }
    let Some((label, running)) = noted.filter(|n| !n.1.is_empty()) else {
        eprintln!("harness error: {what} while no case was running");
        return 2;
    };
    let id = ctx.id.clone();
    let mut ctx = ctx;
    let mut first = None;
    for i in running {
        ctx.regen = Some((label.clone(), i));
        ctx.regenerated = None;
        run(&id, &mut ctx);
        let Some(case) = ctx.regenerated.take() else { continue };
        let path = write_replay(&id, &label, &case, &what);
        let again = std::process::Command::new(&exe)
            .args(["replay", &path])
            .env(JOURNAL, "/dev/null")
            .stdout(std::process::Stdio::null())
            .status();
        let dies = matches!(again, Ok(s) if !s.success());
        if dies {
            first = Some(path);
            break;
        }
        first.get_or_insert(path);
    }
    match first {
        Some(path) => {
            println!("{id}/{label}: {what}");
            println!("VIOLATION property={id} replay={path}");
            1
        }
        None => {
            eprintln!("harness error: {what}, and no running case could be generated again");
            2
        }
    }
}

/// Whether this process is the one that searches.
pub fn supervised() -> bool {
    std::env::var_os(JOURNAL).is_some()
}

fn mix(parts: &[&[u8]]) -> u64 {
    let mut h = Sha256::new();
    for p in parts {
        h.update((p.len() as u64).to_le_bytes());
        h.update(p);
    }
    u64::from_le_bytes(h.finalize()[..8].try_into().unwrap())
}

struct ShardOut {
    evals: u64,
    nontrivial: HashSet<u64>,
    classes: BTreeMap<&'static str, u64>,
    samples: Vec<(usize, Value)>,
    fail: Option<(u64, Vec<u64>, String)>,
}

const SHARDS: u64 = 8;
const CASE_LIMIT: Duration = Duration::from_secs(200);
const WATCH: Duration = Duration::from_millis(500);

/// How much more than its base count a property's cheap cases are run, so that every check searches
/// for a few seconds.
fn weight(id: &str) -> f64 {
    match id {
        "C06" => 150.0,
        "C04" => 90.0,
        "C03" => 60.0,
        "C01" | "C02" | "C05" => 30.0,
        "C27" | "C28" => 25.0,
        "C09" | "C16" | "C30" | "C33" => 20.0,
        "C10" | "C12" => 18.0,
        "C20" => 12.0,
        "C13" | "C34" => 10.0,
        "C08" | "C15" => 9.0,
        "C07" | "C19" => 6.0,
        "C14" | "C22" | "C32" => 4.0,
        "C24" | "C26" => 4.0,
        "C35" => 5.0,
        "C11" | "C17" | "C18" | "C23" | "C31" | "C36" => 2.0,
        _ => 1.0,
    }
}

impl Ctx {
    pub fn new(id: &str, tier: Tier, seed: u64, replay: Option<(String, Value)>) -> Self {
        let scale = std::env::var("PTX_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
        Ctx {
            id: id.to_string(),
            tier,
            seed,
            replay,
            replayed: false,
            regen: None,
            regenerated: None,
            rule: String::new(),
            evaluations: 0,
            distinct: 0,
            classes: BTreeMap::new(),
            parts: Vec::new(),
            samples: Vec::new(),
            failure: None,
            started: Instant::now(),
            scale,
            hints: {
                ptx_cmp::note_sources("/repo/src".as_ref());
                ptx_cmp::noted().leak()
            },
        }
    }

    pub fn rule(&mut self, r: &str) {
        self.rule = r.split_whitespace().collect::<Vec<_>>().join(" ");
    }

    /// One part of a property: `n` generated cases in the quick tier, 40 times that in the thorough
    /// one, each judged by `check`.
    pub fn part<C, GF, CF>(&mut self, label: &'static str, n: u64, gen: GF, check: CF)
    where
        C: Serialize + DeserializeOwned + Hash + Clone + 'static,
        GF: Fn(&mut G) -> C + Sync + Send + Copy + 'static,
        CF: Fn(&C, &mut Obs) -> Res + Sync,
    {
        if let Some((l, v)) = &self.replay {
            if l == label {
                self.replayed = true;
                match serde_json::from_value::<C>(v.clone()) {
                    Ok(c) => {
                        let v = v.clone();
                        if let Err(e) = judge(&check, &c, &mut Obs::default()) {
                            self.failure = Some((label.into(), v, e));
                        }
                    }
                    Err(e) => {
                        eprintln!("harness error: cannot read the replay case: {e}");
                        std::process::exit(2);
                    }
                }
            }
            return;
        }
        if self.failure.is_some() {
            return;
        }
        if let Some((l, i)) = &self.regen {
            if l == label {
                let mut g = G::seeded(case_seed(self.seed, &self.id, label)(*i)).with(hints_of(*i));
                self.regenerated = serde_json::to_value(gen(&mut g)).ok();
            }
            return;
        }
        let n = match self.tier {
            Tier::Quick => n,
            Tier::Thorough => n * 40,
        };
        let n = if n == 1 { 1 } else { ((n as f64 * self.scale * weight(&self.id)) as u64).max(1) };
        let case_seed = case_seed(self.seed, &self.id, label);
        let journal = Journal::open();
        journal.part(label);
        let t0 = Instant::now();
        {
            let e = Emergency {
                id: self.id.clone(),
                label: label.to_string(),
                regen: Box::new(move |i| {
                    let mut g = G::seeded(case_seed(i)).with(hints_of(i));
                    serde_json::to_value(gen(&mut g)).unwrap_or(Value::Null)
                }),
            };
            *EMERGENCY.lock().unwrap() = Some(std::sync::Arc::new(e));
        }
        let stop = AtomicBool::new(false);
        // running[s]: case index + 1, since[s]: milliseconds since t0 when it began
        let running: Vec<AtomicU64> = (0..SHARDS).map(|_| AtomicU64::new(0)).collect();
        let since: Vec<AtomicU64> = (0..SHARDS).map(|_| AtomicU64::new(0)).collect();
        let deadline = match self.tier {
            // also on code that is much slower, a quick check ends in time
            Tier::Quick => Duration::from_secs(600)
                .saturating_sub(self.started.elapsed())
                .clamp(Duration::from_secs(5), Duration::from_secs(150)),
            Tier::Thorough => Duration::from_secs(3600),
        };
        let search = |from: u64, to: u64, hints: Hints| -> Vec<ShardOut> {
            let done = AtomicBool::new(false);
            std::thread::scope(|sc| {
            let (check, stop, running, since, done) = (&check, &stop, &running, &since, &done);
            let journal = &journal;
            let watchdog = sc.spawn(move || {
                // counted in its own steps, so that a time when nothing runs is no time of the case
                let mut seen = [(0, 0, 0); SHARDS as usize];
                loop {
                    std::thread::park_timeout(WATCH);
                    if done.load(Ordering::SeqCst) {
                        return;
                    }
                    for (s, seen) in seen.iter_mut().enumerate() {
                        let r = running[s].load(Ordering::SeqCst);
                        let b = since[s].load(Ordering::SeqCst);
                        *seen = if (seen.0, seen.1) == (r, b) { (r, b, seen.2 + 1) } else { (r, b, 0) };
                        if r != 0 && WATCH * seen.2 > CASE_LIMIT {
                            let secs = CASE_LIMIT.as_secs();
                            report_and_exit(Some(r - 1), &format!("the case did not finish within {secs} s"));
                        }
                    }
                }
            });
            let hs: Vec<_> = (0..SHARDS)
                .map(|s| {
                    sc.spawn(move || {
                        let mut o = ShardOut {
                            evals: 0,
                            nontrivial: HashSet::new(),
                            classes: BTreeMap::new(),
                            samples: Vec::new(),
                            fail: None,
                        };
                        let mut i = from + (s + SHARDS - from % SHARDS) % SHARDS;
                        while i < to && !stop.load(Ordering::Relaxed) {
                            if t0.elapsed() > deadline {
                                break;
                            }
                            let mut g = G::seeded(case_seed(i)).with(hints);
                            let c = gen(&mut g);
                            let mut obs = Obs::default();
                            since[s as usize].store(t0.elapsed().as_millis() as u64, Ordering::SeqCst);
                            running[s as usize].store(i + 1, Ordering::SeqCst);
                            journal.case(s, i + 1);
                            CURRENT.with(|x| x.set(Some(i)));
                            let r = judge(check, &c, &mut obs);
                            CURRENT.with(|x| x.set(None));
                            running[s as usize].store(0, Ordering::SeqCst);
                            journal.case(s, 0);
                            o.evals += 1;
                            for c in &obs.classes {
                                *o.classes.entry(c).or_default() += 1;
                            }
                            if obs.nontrivial {
                                let mut h = std::collections::hash_map::DefaultHasher::new();
                                c.hash(&mut h);
                                let new = o.nontrivial.insert(h.finish());
                                if new && o.samples.len() < 3 && i % 7 == s % 7 {
                                    let v = serde_json::to_value(&c).unwrap_or(Value::Null);
                                    let len = v.to_string().len();
                                    o.samples.push((len, v));
                                }
                            }
                            if let Err(e) = r {
                                stop.store(true, Ordering::Relaxed);
                                o.fail = Some((i, g.rec, e));
                                break;
                            }
                            i += SHARDS;
                        }
                        o
                    })
                })
                .collect();
            let outs = hs.into_iter().map(|h| h.join().unwrap_or_else(|_| {
                // a generator failed: that is the harness's own fault, not an answer
                eprintln!("harness error in a shard");
                std::process::exit(2)
            })).collect();
            done.store(true, Ordering::SeqCst);
            watchdog.thread().unpark();
            outs
            })
        };
        let turn = if n < 64 { n } else { n / 8 };
        let mut phases = Phases { turn, before: self.hints, after: self.hints };
        phases.set();
        let mut outs = search(0, turn, phases.before);
        phases.after = ptx_cmp::noted().leak();
        self.hints = phases.after;
        phases.set();
        if turn < n && outs.iter().all(|o| o.fail.is_none()) {
            outs.extend(search(turn, n, phases.after));
        }
        let mut uniq: HashSet<u64> = HashSet::new();
        let mut evals = 0;
        let mut fails = Vec::new();
        let mut samples = Vec::new();
        for o in outs {
            evals += o.evals;
            uniq.extend(o.nontrivial);
            for (k, v) in o.classes {
                *self.classes.entry(format!("{label}: {k}")).or_default() += v;
            }
            samples.extend(o.samples);
            fails.extend(o.fail);
        }
        self.evaluations += evals;
        self.distinct += uniq.len() as u64;
        samples.sort_by_key(|s| s.0);
        let skip = samples.len() / 4;
        for (len, v) in samples.into_iter().skip(skip).take(2) {
            let v = if len > 4000 {
                let mut s = v.to_string();
                let mut cut = 4000;
                while !s.is_char_boundary(cut) {
                    cut -= 1;
                }
                s.truncate(cut);
                Value::String(s + "... (cut)")
            } else {
                v
            };
            self.samples.push(json!({"part": label, "case": v}));
        }
        self.parts.push(json!({"part": label, "evaluations": evals, "distinct_nontrivial": uniq.len(),
            "wall_s": t0.elapsed().as_secs_f64()}));
        fails.sort_by_key(|f| f.0);
        if let Some((i, rec, err)) = fails.into_iter().next() {
            journal.case(0, i + 1);
            let found = serde_json::to_value(gen(&mut G::replaying(rec.clone(), hints_of(i)))).unwrap_or(Value::Null);
            let (id, msg) = (self.id.clone(), err.clone());
            // the smaller cases tried could hang where the one found does not
            std::thread::spawn(move || {
                std::thread::sleep(CASE_LIMIT);
                let path = write_replay(&id, label, &found, &msg);
                println!("{id}/{label}: {msg}");
                println!("VIOLATION property={id} replay={path}");
                std::process::exit(1)
            });
            let (case, err) = shrink(&gen, &check, rec, hints_of(i), err);
            let v = serde_json::to_value(&case).unwrap_or(Value::Null);
            self.failure = Some((label.into(), v, err));
        }
    }

    pub fn finish(self) -> i32 {
        let wall = self.started.elapsed().as_secs_f64();
        if let Some((label, _)) = &self.replay {
            if !self.replayed {
                eprintln!("harness error: property {} has no part {label}", self.id);
                return 2;
            }
            return match &self.failure {
                Some((_, _, e)) => {
                    println!("{}: {}", self.id, e);
                    1
                }
                None => {
                    println!("{}: the replayed case holds", self.id);
                    0
                }
            };
        }
        let ev = json!({
            "property": self.id,
            "tier": if self.tier == Tier::Quick { "quick" } else { "thorough" },
            "seed": self.seed,
            "level": "exploration",
            "coverage": {
                "evaluations": self.evaluations,
                "distinct_nontrivial": self.distinct,
                "rule": self.rule,
                "samples": self.samples,
                "classes": self.classes,
                "parts": self.parts,
                "compared_constants": self.hints.len(),
            },
            "wall_s": wall,
            "violations": self.failure.is_some() as u64,
        });
        let dir = verif_dir().join("evidence");
        let _ = std::fs::create_dir_all(&dir);
        if let Err(e) = std::fs::write(
            dir.join(format!("{}.json", self.id)),
            serde_json::to_string_pretty(&ev).unwrap() + "\n",
        ) {
            eprintln!("harness error: cannot write evidence: {e}");
            return 2;
        }
        println!(
            "{}: {} cases, {} distinct non-trivial, {:.1} s",
            self.id, self.evaluations, self.distinct, wall
        );
        match &self.failure {
            Some((label, case, err)) => {
                let path = write_replay(&self.id, label, case, err);
                println!("{}/{}: {}", self.id, label, err);
                println!("VIOLATION property={} replay={}", self.id, path);
                1
            }
            None => 0,
        }
    }
}

pub fn install_panic_hook() {
    let old = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        if QUIET.with(|q| q.get()) {
            PANIC_MSG.with(|m| *m.borrow_mut() = info.to_string());
        } else {
            old(info)
        }
    }));
}

/// Runs `f`, turning a panic into an error.
pub fn no_panic<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    let was = QUIET.with(|q| q.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| q.set(was));
    r.map_err(|_| format!("panicked: {}", PANIC_MSG.with(|m| m.borrow().clone())))
}

fn judge<C>(check: &impl Fn(&C, &mut Obs) -> Res, c: &C, obs: &mut Obs) -> Res {
    match no_panic(|| check(c, obs)) {
        Ok(r) => r,
        Err(e) => Err(e),
    }
}

fn shrink<C: Clone>(
    gen: &impl Fn(&mut G) -> C,
    check: &impl Fn(&C, &mut Obs) -> Res,
    rec: Vec<u64>,
    hints: Hints,
    err: String,
) -> (C, String) {
    let t0 = Instant::now();
    let mut best = rec;
    let mut best_err = err;
    let mut budget = 4000u32;
    let mut attempt = |cand: Vec<u64>, best: &mut Vec<u64>, best_err: &mut String| -> bool {
        if budget == 0 || t0.elapsed() > Duration::from_secs(20) || cand == *best {
            return false;
        }
        budget -= 1;
        let mut g = G::replaying(cand, hints);
        let c = match no_panic(|| gen(&mut g)) {
            Ok(c) => c,
            Err(_) => return false,
        };
        let simpler = (g.rec.len(), &g.rec) < (best.len(), &*best);
        if !simpler {
            return false;
        }
        match judge(check, &c, &mut Obs::default()) {
            Err(e) => {
                *best = g.rec;
                *best_err = e;
                true
            }
            Ok(()) => false,
        }
    };
    loop {
        let mut progress = false;
        for size in [64usize, 16, 8, 4, 3, 2, 1] {
            let mut i = 0;
            while i + size <= best.len() {
                let mut c = best.clone();
                c.drain(i..i + size);
                if attempt(c, &mut best, &mut best_err) {
                    progress = true;
                } else {
                    i += size.max(1).min(4).max(size / 2);
                }
            }
        }
        let mut i = 0;
        while i < best.len() {
            if best[i] != 0 {
                let mut c = best.clone();
                c[i] = 0;
                if attempt(c, &mut best, &mut best_err) {
                    progress = true;
                } else {
                    let mut lo = 0u64;
                    let mut hi = best[i];
                    let mut steps = 0;
                    while hi - lo > 1 && steps < 20 && i < best.len() {
                        let mid = lo + (hi - lo) / 2;
                        let mut c = best.clone();
                        c[i] = mid;
                        if attempt(c, &mut best, &mut best_err) {
                            progress = true;
                            if i >= best.len() {
                                break;
                            }
                            hi = best[i].min(mid);
                        } else {
                            lo = mid;
                        }
                        steps += 1;
                    }
                }
            }
            i += 1;
        }
        if !progress || t0.elapsed() > Duration::from_secs(20) {
            break;
        }
    }
    let c = gen(&mut G::replaying(best, hints));
    (c, best_err)
}
