//! Exhaustive explorer: deterministic choice sequences, depth-first over every choice,
//! parallel over the items of a phase. Each execution runs the real library.

#![allow(dead_code)]

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Tier {
    Quick,
    Thorough,
}
impl Tier {
    pub fn name(&self) -> &'static str {
        match self {
            Tier::Quick => "quick",
            Tier::Thorough => "thorough",
        }
    }
    pub fn thorough(&self) -> bool {
        *self == Tier::Thorough
    }
    pub fn pick<T>(&self, quick: T, thorough: T) -> T {
        match self {
            Tier::Quick => quick,
            Tier::Thorough => thorough,
        }
    }
}

/// A property violation: `key` identifies the failing input for the known-findings file.
#[derive(Clone, Debug)]
pub struct V {
    pub key: String,
    pub msg: String,
}
pub type R = Result<(), V>;

pub fn fail(key: impl Into<String>, msg: impl Into<String>) -> R {
    Err(V { key: key.into(), msg: msg.into() })
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $key:expr, $($a:tt)*) => {
        if !($c) {
            return Err($crate::engine::V { key: ($key).to_string(), msg: format!($($a)*) });
        }
    };
}
#[macro_export]
macro_rules! ensure_eq {
    ($l:expr, $r:expr, $key:expr, $($a:tt)*) => {{
        let (l, r) = (&$l, &$r);
        if l != r {
            return Err($crate::engine::V { key: ($key).to_string(),
                msg: format!("{}: got {:?}, expected {:?}", format!($($a)*), l, r) });
        }
    }};
}

#[derive(Default)]
pub struct Stats {
    pub execs: u64,
    pub transitions: u64,
    pub states: HashSet<u64, BuildIdent>,
    pub states_capped: bool,
    pub outcomes: HashSet<u64, BuildIdent>,
    pub samples: Vec<String>,
    pub max_depth: usize,
    /// how often each listed finding was met without ending the execution
    pub met: std::collections::BTreeMap<String, u64>,
}

#[derive(Default, Clone)]
pub struct BuildIdent;
impl std::hash::BuildHasher for BuildIdent {
    type Hasher = Ident;
    fn build_hasher(&self) -> Ident {
        Ident(0)
    }
}
pub struct Ident(u64);
impl Hasher for Ident {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, _: &[u8]) {
        unreachable!()
    }
    fn write_u64(&mut self, v: u64) {
        self.0 = v;
    }
}

const STATE_CAP: usize = 6_000_000;

pub use crate::hash::{fp, mix};

pub struct Ctx<'a> {
    trail: Vec<(u32, u32)>,
    cursor: usize,
    pub stats: &'a mut Stats,
    pub replay: bool,
    pub log: Vec<String>,
    want_sample: bool,
    phase: &'static str,
    mirror: bool,
}

impl<'a> Ctx<'a> {
    /// A violation that the known-findings file may list: if it does, it is counted and the execution goes on.
    pub fn finding(&mut self, key: &str, msg: impl FnOnce() -> String) -> R {
        if self.mirror {
            return Ok(());
        }
        let full = format!("{}/{}", self.phase, key);
        let listed = KNOWN.lock().unwrap().iter().any(|(k, _)| *k == full);
        if listed {
            *self.stats.met.entry(full).or_insert(0) += 1;
            Ok(())
        } else {
            fail(key, msg())
        }
    }
    /// A nondeterministic choice among `n` alternatives, all of which get explored.
    pub fn choose(&mut self, n: usize) -> usize {
        assert!(n > 0, "harness: choose(0)");
        let c;
        if self.cursor < self.trail.len() {
            let (ch, tot) = self.trail[self.cursor];
            assert_eq!(tot as usize, n, "harness: nondeterministic replay (choice count changed)");
            c = ch;
        } else {
            self.trail.push((0, n as u32));
            c = 0;
        }
        self.cursor += 1;
        c as usize
    }
    pub fn pick<'b, T>(&mut self, xs: &'b [T]) -> &'b T {
        let i = self.choose(xs.len());
        &xs[i]
    }
    pub fn flag(&mut self) -> bool {
        self.choose(2) == 1
    }
    /// Counts one operation executed against the implementation.
    pub fn step(&mut self) {
        self.stats.transitions += 1;
    }
    pub fn steps(&mut self, n: u64) {
        self.stats.transitions += n;
    }
    /// Records a reached state (fingerprint of the abstract state the model is in).
    pub fn state<T: Hash + ?Sized>(&mut self, t: &T) {
        if self.stats.states.len() < STATE_CAP {
            self.stats.states.insert(fp(t));
        } else {
            self.stats.states_capped = true;
        }
    }
    /// Records an observed outcome (to show that the runs are not all the same).
    pub fn outcome<T: Hash + ?Sized>(&mut self, t: &T) {
        if self.stats.outcomes.len() < STATE_CAP {
            self.stats.outcomes.insert(fp(t));
        }
    }
    /// Counts one complete execution within an item that loops on its own.
    pub fn exec(&mut self) {
        self.stats.execs += 1;
        beat();
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.want_sample && self.stats.samples.len() < 6 {
            self.want_sample = false;
            let s = f();
            self.stats.samples.push(s);
        }
    }
    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if self.replay {
            let s = f();
            eprintln!("  {}", s);
            self.log.push(s);
        }
    }
}

pub type PhaseFn = Box<dyn Fn(usize, &mut Ctx) -> R + Send + Sync>;
pub struct Phase {
    pub name: &'static str,
    pub bound: String,
    pub items: usize,
    pub run: PhaseFn,
}
impl Phase {
    pub fn new(
        name: &'static str,
        bound: impl Into<String>,
        items: usize,
        run: impl Fn(usize, &mut Ctx) -> R + Send + Sync + 'static,
    ) -> Phase {
        Phase { name, bound: bound.into(), items, run: Box::new(run) }
    }
}

// ---------------------------------------------------------------- allocation guard

pub struct Guard;
thread_local! {
    static BYPASS: Cell<bool> = const { Cell::new(true) };
    static PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
    static SLOT: RefCell<Option<Arc<Slot>>> = const { RefCell::new(None) };
    /// overrides ALLOC_CAP if not zero
    static CAP: Cell<u64> = const { Cell::new(0) };
}
/// Largest single allocation an execution may ask for (bytes); 0 = no limit.
static ALLOC_CAP: AtomicU64 = AtomicU64::new(0);

/// Sets the limit of this thread; 0: the general one.
pub fn alloc_cap(n: u64) {
    CAP.with(|c| c.set(n));
}
unsafe impl GlobalAlloc for Guard {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        check(l.size());
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        check(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        check(n);
        System.realloc(p, l, n)
    }
}
#[inline]
fn check(n: usize) {
    if n >= (32 << 20) {
        check_slow(n)
    }
}
#[cold]
fn check_slow(n: usize) {
    let own = CAP.try_with(|c| c.get()).unwrap_or(0);
    let cap = if own != 0 { own } else { ALLOC_CAP.load(Ordering::Relaxed) };
    if cap != 0 && n as u64 > cap && BYPASS.try_with(|b| !b.get()).unwrap_or(false) {
        BYPASS.with(|b| b.set(true));
        let slot = SLOT.with(|s| s.borrow().clone());
        if let Some(slot) = slot {
            fatal(
                &slot,
                V { key: "allocation".into(), msg: format!("a single allocation of {} bytes was requested (limit {})", n, cap) },
            );
        }
    }
}

// ---------------------------------------------------------------- watchdog

struct Slot {
    tid_clock: AtomicU64,
    beat: AtomicU64,
    cur: Mutex<Option<(usize, usize, Vec<(u32, u32)>)>>, // phase, item, trail at start of the execution
    active: AtomicBool,
}
thread_local! { static BEAT: Cell<u64> = const { Cell::new(0) }; }
/// Marks progress of the running execution (the watchdog limit applies between beats).
pub fn beat() {
    SLOT.with(|s| {
        if let Some(s) = s.borrow().as_ref() {
            s.beat.fetch_add(1, Ordering::Relaxed);
        }
    });
}

#[repr(C)]
struct Timespec {
    sec: i64,
    nsec: i64,
}
extern "C" {
    fn pthread_self() -> u64;
    fn pthread_getcpuclockid(t: u64, c: *mut i32) -> i32;
    fn clock_gettime(c: i32, t: *mut Timespec) -> i32;
}
fn my_clock() -> u64 {
    let mut c = 0i32;
    unsafe {
        pthread_getcpuclockid(pthread_self(), &mut c);
    }
    c as u32 as u64
}
fn cpu(clock: u64) -> f64 {
    let mut t = Timespec { sec: 0, nsec: 0 };
    let r = unsafe { clock_gettime(clock as u32 as i32, &mut t) };
    if r != 0 {
        return 0.0;
    }
    t.sec as f64 + t.nsec as f64 * 1e-9
}

struct Global {
    prop: String,
    tier: Tier,
    phase_names: Vec<&'static str>,
    verif: String,
    known: Vec<(String, String)>, // (key, description)
    t0: Instant,
}
static GLOBAL: Mutex<Option<Arc<Global>>> = Mutex::new(None);
/// The listed findings (key, description) of the property.
static KNOWN: Mutex<Vec<(String, String)>> = Mutex::new(Vec::new());
static REPORTED: AtomicBool = AtomicBool::new(false);

fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 || (c as u32) > 126 => {
                let mut b = [0u16; 2];
                for u in c.encode_utf16(&mut b) {
                    o.push_str(&format!("\\u{:04x}", u));
                }
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn write_replay(g: &Global, phase: usize, item: usize, trail: &[(u32, u32)], v: &V) -> String {
    let dir = format!("{}/replays", g.verif);
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{}/{}-{}-{}-{:016x}.json", dir, g.prop, g.phase_names[phase], item, fp(trail));
    let t: Vec<String> = trail.iter().map(|(c, n)| format!("[{},{}]", c, n)).collect();
    let s = format!(
        "{{\"property\":{},\"tier\":{},\"phase\":{},\"item\":{},\"trail\":[{}],\"key\":{},\"message\":{}}}\n",
        json_str(&g.prop),
        json_str(g.tier.name()),
        json_str(g.phase_names[phase]),
        item,
        t.join(","),
        json_str(&v.key),
        json_str(&v.msg)
    );
    let _ = std::fs::write(&path, s);
    path
}

fn is_known<'a>(g: &'a Global, phase: usize, v: &V) -> Option<&'a (String, String)> {
    let full = format!("{}/{}", g.phase_names[phase], v.key);
    g.known.iter().find(|(k, _)| *k == full)
}

/// Reports a violation from which the process cannot continue (hang, huge allocation).
fn fatal(slot: &Slot, v: V) -> ! {
    let g = GLOBAL.lock().unwrap().clone().unwrap();
    let (ph, item, trail) = slot.cur.lock().unwrap().clone().unwrap_or((0, 0, vec![]));
    if REPORTED.swap(true, Ordering::SeqCst) {
        loop {
            std::thread::sleep(Duration::from_secs(1));
        }
    }
    let path = write_replay(&g, ph, item, &trail, &v);
    println!("violation: phase {} item {}: [{}] {}", g.phase_names[ph], item, v.key, v.msg);
    println!("VIOLATION property={} replay={}", g.prop, path);
    write_evidence_failed(&g, &v);
    use std::io::Write;
    let _ = std::io::stdout().flush();
    std::process::exit(1)
}

fn write_evidence_failed(g: &Global, v: &V) {
    let s = format!(
        "{{\"property\":{},\"tier\":{},\"seed\":{},\"level\":\"model_checking\",\"coverage\":{{\"states\":0,\"transitions\":0,\"traces_validated_against_impl\":0,\"samples\":[{}]}},\"wall_s\":{:.3},\"violations\":1}}\n",
        json_str(&g.prop), json_str(g.tier.name()), seed(), json_str(&v.msg), g.t0.elapsed().as_secs_f64());
    let _ = std::fs::write(format!("{}/evidence/{}.json", g.verif, g.prop), s);
}

pub fn seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1)
}

fn run_one(ph: &Phase, item: usize, trail: Vec<(u32, u32)>, stats: &mut Stats, replay: bool, sample: bool) -> (R, Vec<(u32, u32)>) {
    run_any(ph, item, trail, stats, replay, sample, false)
}
fn run_any(ph: &Phase, item: usize, trail: Vec<(u32, u32)>, stats: &mut Stats, replay: bool, sample: bool, mirror: bool) -> (R, Vec<(u32, u32)>) {
    let mut ctx = Ctx { trail, cursor: 0, stats, replay, log: vec![], want_sample: sample, phase: ph.name, mirror };
    PANIC.with(|p| *p.borrow_mut() = None);
    let prev = BYPASS.with(|b| b.replace(false));
    let r = catch_unwind(AssertUnwindSafe(|| (ph.run)(item, &mut ctx)));
    BYPASS.with(|b| b.set(prev));
    let r = match r {
        Ok(r) => r,
        Err(_) => {
            let m = PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "unknown panic".into());
            // key: the panic's message without data-dependent numbers is too weak to identify the
            // input; use the full message and location.
            Err(V { key: format!("panic@{}", m.split('\n').next().unwrap_or("")), msg: format!("panicked: {}", m) })
        }
    };
    let mut trail = std::mem::take(&mut ctx.trail);
    if r.is_err() {
        trail.truncate(ctx.cursor);
    }
    let d = ctx.cursor;
    stats.max_depth = stats.max_depth.max(d);
    (r, trail)
}

/// All executions of one item, as a fingerprint of their results and outcomes, up to the first violation.
pub fn mirror(ph: &Phase, item: usize) -> (u64, Option<String>) {
    let mut st = Stats::default();
    let mut trail = vec![];
    let mut bad = None;
    loop {
        let (r, done) = run_any(ph, item, trail, &mut st, false, false, true);
        beat();
        if let Err(v) = r {
            bad = Some(v);
            break;
        }
        match next_trail(done) {
            Some(t) => trail = t,
            None => break,
        }
    }
    let mut o: Vec<u64> = st.outcomes.into_iter().collect();
    o.sort();
    (fp(&(o, st.execs, bad.as_ref().map(|v| v.key.clone()))), bad.map(|v| format!("[{}] {}", v.key, v.msg)))
}

/// Runs `f` and turns a panic into a violation that says what was being done.
pub fn guarded<T>(what: impl Fn() -> String, f: impl FnOnce() -> T) -> Result<T, V> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| {
        let m = PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "unknown panic".into());
        V { key: format!("panic@{}", m.split('\n').next().unwrap_or("")), msg: format!("{}: panicked: {}", what(), m) }
    })
}

fn next_trail(mut t: Vec<(u32, u32)>) -> Option<Vec<(u32, u32)>> {
    while let Some((c, n)) = t.pop() {
        if c + 1 < n {
            t.push((c + 1, n));
            return Some(t);
        }
    }
    None
}

pub struct Opts {
    pub alloc_cap: u64,
    pub assumptions: Vec<String>,
    pub watchdog_cpu_s: f64,
}
impl Default for Opts {
    fn default() -> Self {
        Opts { alloc_cap: 0, assumptions: vec![], watchdog_cpu_s: 25.0 }
    }
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "non-string panic".into()
        };
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let _ = PANIC.try_with(|p| {
            if let Ok(mut p) = p.try_borrow_mut() {
                if p.is_none() {
                    *p = Some(format!("{} at {}", m, loc));
                }
            }
        });
        if std::env::var_os("MC_PANIC").is_some() {
            eprintln!("PANIC {} at {}\n{}", m, loc, std::backtrace::Backtrace::force_capture());
        }
    }));
}

fn load_known(verif: &str, prop: &str) -> Vec<(String, String)> {
    // Lines:  known: property=<id> key=<phase>/<key> :: <description>
    let mut out = vec![];
    if let Ok(s) = std::fs::read_to_string(format!("{}/known_findings.txt", verif)) {
        for l in s.lines() {
            let l = l.trim();
            if let Some(rest) = l.strip_prefix("known: property=") {
                if let Some((id, rest)) = rest.split_once(' ') {
                    if id == prop {
                        if let Some(rest) = rest.trim().strip_prefix("key=") {
                            if let Some((k, d)) = rest.split_once(" :: ") {
                                out.push((k.trim().to_string(), d.trim().to_string()));
                            }
                        }
                    }
                }
            }
        }
    }
    out
}

fn parse_replay(s: &str) -> (String, String, usize, Vec<(u32, u32)>) {
    let get = |k: &str| -> String {
        let pat = format!("\"{}\":", k);
        let i = s.find(&pat).expect("replay field") + pat.len();
        let r = &s[i..];
        if let Some(r) = r.strip_prefix('"') {
            r[..r.find('"').unwrap()].to_string()
        } else if r.starts_with("[[") || r.starts_with("[]") {
            let e = if r.starts_with("[]") { 2 } else { r.find("]]").unwrap() + 2 };
            r[..e].to_string()
        } else {
            r[..r.find(|c: char| c == ',' || c == '}').unwrap()].to_string()
        }
    };
    let t = get("trail");
    let nums: Vec<u32> = t.split(|c: char| !c.is_ascii_digit()).filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect();
    (get("tier"), get("phase"), get("item").parse().unwrap(), nums.chunks(2).map(|c| (c[0], c[1])).collect())
}

/// Re-executes one recorded execution, printing what it does. Returns the process exit code.
pub fn replay(prop: &str, phases: Vec<Phase>, file: &str, opts: Opts) -> i32 {
    install_hook();
    let s = std::fs::read_to_string(file).expect("replay file");
    let (tier, phase, item, trail) = parse_replay(&s);
    let pi = phases.iter().position(|p| p.name == phase).expect("unknown phase");
    *KNOWN.lock().unwrap() = load_known(&std::env::var("MC_VERIF").unwrap_or_else(|_| "/verif".into()), prop);
    println!("replaying {} tier={} phase={} item={} trail={:?}", prop, tier, phase, item, trail);
    ALLOC_CAP.store(opts.alloc_cap, Ordering::Relaxed);
    let mut stats = Stats::default();
    let (r, _) = run_one(&phases[pi], item, trail, &mut stats, true, false);
    match r {
        Ok(()) => {
            println!("replay: no violation");
            0
        }
        Err(v) => {
            println!("replay: [{}] {}", v.key, v.msg);
            println!("VIOLATION property={} replay={}", prop, file);
            1
        }
    }
}

/// Explores every phase completely, writes the evidence file and returns the exit code.
pub fn explore(prop: &str, tier: Tier, phases: Vec<Phase>, opts: Opts) -> i32 {
    install_hook();
    let verif = std::env::var("MC_VERIF").unwrap_or_else(|_| "/verif".into());
    let _ = std::fs::create_dir_all(format!("{}/evidence", verif));
    let g = Arc::new(Global {
        prop: prop.to_string(),
        tier,
        phase_names: phases.iter().map(|p| p.name).collect(),
        known: load_known(&verif, prop),
        verif: verif.clone(),
        t0: Instant::now(),
    });
    *KNOWN.lock().unwrap() = g.known.clone();
    *GLOBAL.lock().unwrap() = Some(g.clone());
    ALLOC_CAP.store(opts.alloc_cap, Ordering::Relaxed);
    let deadline = Duration::from_secs(
        std::env::var("MC_DEADLINE").ok().and_then(|s| s.parse().ok()).unwrap_or(tier.pick(600, 800)),
    );
    let nthreads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(16);
    let phases = Arc::new(phases);
    let only = std::env::var("MC_PHASE").ok();

    let slots: Arc<Vec<Arc<Slot>>> = Arc::new(
        (0..nthreads)
            .map(|_| {
                Arc::new(Slot {
                    tid_clock: AtomicU64::new(u64::MAX),
                    beat: AtomicU64::new(0),
                    cur: Mutex::new(None),
                    active: AtomicBool::new(false),
                })
            })
            .collect(),
    );
    // monitor
    {
        let slots = slots.clone();
        let limit = opts.watchdog_cpu_s;
        std::thread::spawn(move || {
            let mut last: Vec<(u64, f64)> = slots.iter().map(|_| (u64::MAX, 0.0)).collect();
            loop {
                std::thread::sleep(Duration::from_millis(500));
                for (i, s) in slots.iter().enumerate() {
                    let c = s.tid_clock.load(Ordering::Relaxed);
                    if c == u64::MAX || !s.active.load(Ordering::Relaxed) {
                        last[i].0 = u64::MAX;
                        continue;
                    }
                    let b = s.beat.load(Ordering::Relaxed);
                    let now = cpu(c);
                    if b != last[i].0 {
                        last[i] = (b, now);
                    } else if now - last[i].1 > limit {
                        fatal(
                            s,
                            V {
                                key: "nontermination".into(),
                                msg: format!("one execution used more than {} s of CPU time without finishing", limit),
                            },
                        );
                    }
                }
            }
        });
    }

    let violations: Arc<Mutex<Vec<(usize, usize, Vec<(u32, u32)>, V)>>> = Arc::new(Mutex::new(vec![]));
    let known_hits: Arc<Mutex<std::collections::BTreeMap<String, u64>>> = Default::default();
    let mut total = Stats::default();
    let mut per_phase: Vec<String> = vec![];
    let mut capped = false;
    for (pi, ph) in phases.iter().enumerate() {
        if let Some(o) = &only {
            if !ph.name.contains(o.as_str()) {
                continue;
            }
        }
        let t0 = Instant::now();
        let next = Arc::new(AtomicUsize::new(0));
        let stop = Arc::new(AtomicBool::new(false));
        let hit_cap = Arc::new(AtomicBool::new(false));
        let merged: Arc<Mutex<Stats>> = Arc::new(Mutex::new(Stats::default()));
        std::thread::scope(|sc| {
            for w in 0..nthreads.min(ph.items.max(1)) {
                let (next, stop, merged, violations, known_hits, g, slots, hit_cap, phases) = (
                    next.clone(), stop.clone(), merged.clone(), violations.clone(), known_hits.clone(), g.clone(), slots.clone(), hit_cap.clone(), phases.clone(),
                );
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(sc, move || {
                        let ph = &phases[pi];
                        let slot = slots[w].clone();
                        slot.tid_clock.store(my_clock(), Ordering::Relaxed);
                        slot.active.store(true, Ordering::Relaxed);
                        SLOT.with(|s| *s.borrow_mut() = Some(slot.clone()));
                        let mut st = Stats::default();
                        'items: loop {
                            let item = next.fetch_add(1, Ordering::Relaxed);
                            if item >= ph.items || stop.load(Ordering::Relaxed) {
                                break;
                            }
                            let mut trail: Vec<(u32, u32)> = vec![];
                            let mut n_in_item = 0u64;
                            loop {
                                if stop.load(Ordering::Relaxed) {
                                    break 'items;
                                }
                                if (n_in_item & 63) == 0 && g.t0.elapsed() > deadline {
                                    hit_cap.store(true, Ordering::Relaxed);
                                    break 'items;
                                }
                                *slot.cur.lock().unwrap() = Some((pi, item, trail.clone()));
                                slot.beat.fetch_add(1, Ordering::Relaxed);
                                st.execs += 1;
                                let sample = (n_in_item == 0 && (item == 0 || item == ph.items / 2)) || n_in_item == 7;
                                n_in_item += 1;
                                let (r, done) = run_one(ph, item, trail, &mut st, false, sample);
                                let mut resume = done.clone();
                                if let Err(v) = r {
                                    if is_known(&g, pi, &v).is_some() {
                                        *known_hits.lock().unwrap().entry(format!("{}/{}", ph.name, v.key)).or_insert(0) += 1;
                                    } else {
                                        // determinism: the same choices must fail the same way
                                        let mut scratch = Stats::default();
                                        let (r2, _) = run_one(ph, item, done.clone(), &mut scratch, false, false);
                                        let same = matches!(&r2, Err(v2) if v2.key == v.key && v2.msg == v.msg);
                                        let mut v = v;
                                        if !same {
                                            v.msg = format!("{} (second run of the same choices differed: {:?})", v.msg, r2.err().map(|x| x.msg));
                                        }
                                        violations.lock().unwrap().push((pi, item, done.clone(), v));
                                        if std::env::var_os("MC_ALL").is_none() {
                                            stop.store(true, Ordering::Relaxed);
                                            break 'items;
                                        }
                                        resume = done;
                                    }
                                }
                                match next_trail(resume) {
                                    Some(t) => trail = t,
                                    None => break,
                                }
                            }
                        }
                        slot.active.store(false, Ordering::Relaxed);
                        for (k, n) in std::mem::take(&mut st.met) {
                            *known_hits.lock().unwrap().entry(k).or_insert(0) += n;
                        }
                        SLOT.with(|s| *s.borrow_mut() = None);
                        let mut m = merged.lock().unwrap();
                        m.execs += st.execs;
                        m.transitions += st.transitions;
                        m.states.extend(st.states.drain());
                        m.outcomes.extend(st.outcomes.drain());
                        m.states_capped |= st.states_capped;
                        m.max_depth = m.max_depth.max(st.max_depth);
                        m.samples.append(&mut st.samples);
                    })
                    .unwrap();
            }
        });
        let m = std::mem::take(&mut *merged.lock().unwrap());
        let cap_here = hit_cap.load(Ordering::Relaxed);
        capped |= cap_here;
        let line = format!(
            "{{\"phase\":{},\"bound\":{},\"items\":{},\"executions\":{},\"transitions\":{},\"distinct_states\":{},\"distinct_outcomes\":{},\"max_choice_depth\":{},\"complete\":{},\"wall_s\":{:.2}}}",
            json_str(ph.name), json_str(&ph.bound), ph.items, m.execs, m.transitions, m.states.len(), m.outcomes.len(), m.max_depth,
            !cap_here && !stop.load(Ordering::Relaxed), t0.elapsed().as_secs_f64()
        );
        println!(
            "{} {:<28} items={} executions={} transitions={} states={}{} outcomes={} depth={} {:.1}s{}",
            prop, ph.name, ph.items, m.execs, m.transitions, m.states.len(), if m.states_capped { "+" } else { "" }, m.outcomes.len(), m.max_depth,
            t0.elapsed().as_secs_f64(), if cap_here { " (time cap hit)" } else { "" }
        );
        per_phase.push(line);
        total.execs += m.execs;
        total.transitions += m.transitions;
        for s in m.states {
            total.states.insert(mix(s ^ (pi as u64) << 56));
        }
        for s in m.outcomes {
            total.outcomes.insert(mix(s ^ (pi as u64) << 56));
        }
        total.states_capped |= m.states_capped;
        for s in m.samples.into_iter().take(3) {
            total.samples.push(format!("[{}] {}", ph.name, s));
        }
        if !violations.lock().unwrap().is_empty() && std::env::var_os("MC_ALL").is_none() {
            break;
        }
        if cap_here {
            break;
        }
    }

    for (k, n) in known_hits.lock().unwrap().iter() {
        let d = g.known.iter().find(|(kk, _)| kk == k).map(|x| x.1.clone()).unwrap_or_default();
        println!("KNOWN-FINDING: property={} {} ({} executions, key {})", prop, d, n, k);
    }
    let vs = violations.lock().unwrap().clone();
    let wall = g.t0.elapsed().as_secs_f64();
    let samples: Vec<String> = total.samples.iter().map(|s| json_str(s)).collect();
    let ass: Vec<String> = opts.assumptions.iter().map(|s| json_str(s)).collect();
    let ev = format!(
        "{{\"property\":{},\"tier\":{},\"seed\":{},\"level\":\"model_checking\",\"coverage\":{{\"states\":{},\"transitions\":{},\"traces_validated_against_impl\":{},\"distinct_outcomes\":{},\"states_is_lower_bound\":{},\"exhaustive\":{},\"phases\":[{}],\"samples\":[{}]}},\"assumptions\":[{}],\"wall_s\":{:.3},\"violations\":{}}}\n",
        json_str(prop), json_str(tier.name()), seed(), total.states.len(), total.transitions, total.execs, total.outcomes.len(),
        total.states_capped, !capped && vs.is_empty() && only.is_none(), per_phase.join(","), samples.join(","), ass.join(","), wall, vs.len()
    );
    std::fs::write(format!("{}/evidence/{}.json", verif, prop), ev).expect("evidence");
    println!("{} total executions={} transitions={} states={} wall={:.1}s", prop, total.execs, total.transitions, total.states.len(), wall);
    if vs.is_empty() {
        return 0;
    }
    let mut seen = HashSet::new();
    let mut shown = 0;
    for (pi, item, trail, v) in &vs {
        if !seen.insert((*pi, v.key.clone())) {
            continue;
        }
        let path = write_replay(&g, *pi, *item, trail, v);
        println!("violation: phase {} item {}: [{}] {}", g.phase_names[*pi], item, v.key, v.msg);
        println!("VIOLATION property={} replay={}", prop, path);
        shown += 1;
        if shown >= 20 {
            break;
        }
    }
    1
}
