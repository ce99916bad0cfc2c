//! Run-time of the checks: parallel exhaustive enumeration, panic/crash/hang/allocation
//! monitoring, replay files, evidence.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::fs;
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Mutex, OnceLock};
use std::time::{Duration, Instant};

// ---------------------------------------------------------------- allocator

pub struct Alloc;

thread_local! {
    static LIVE: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
    static PANIC_MSG: RefCell<String> = const { RefCell::new(String::new()) };
    static SLOT: Cell<usize> = const { Cell::new(usize::MAX) };
}

/// No single allocation above this is granted: the process then aborts and the supervisor reports.
const MAX_ONE: usize = 1 << 31;

fn acct(n: isize) {
    let _ = LIVE.try_with(|l| {
        let v = l.get() + n;
        l.set(v);
        let _ = PEAK.try_with(|p| {
            if v > p.get() {
                p.set(v)
            }
        });
    });
}

unsafe impl GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if l.size() > MAX_ONE {
            return std::ptr::null_mut();
        }
        acct(l.size() as isize);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if l.size() > MAX_ONE {
            return std::ptr::null_mut();
        }
        acct(l.size() as isize);
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        acct(-(l.size() as isize));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if n > MAX_ONE {
            return std::ptr::null_mut();
        }
        acct(n as isize - l.size() as isize);
        System.realloc(p, l, n)
    }
}

/// Run `f` and return its result with the peak number of bytes it held at a time.
pub fn peak<R>(f: impl FnOnce() -> R) -> (R, usize) {
    let base = LIVE.with(|l| l.get());
    PEAK.with(|p| p.set(base));
    let r = f();
    let m = PEAK.with(|p| p.get());
    (r, (m - base).max(0) as usize)
}

// ---------------------------------------------------------------- guarded memory

extern "C" {
    fn mmap(a: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn mprotect(a: *mut u8, len: usize, prot: i32) -> i32;
    fn munmap(a: *mut u8, len: usize) -> i32;
}

/// Trits in front of a fenced buffer, more than any field takes except large signatures.
pub const BEHIND: usize = 28672;

/// A buffer of trits, with `BEHIND` zeros in front of it, that ends right at an inaccessible page: an access outside of it kills the process and the supervisor reports the case.
pub struct Fenced {
    base: *mut u8,
    len: usize,
    p: *mut u8,
    n: usize,
}
impl Fenced {
    pub fn new(n: usize) -> Self {
        let pages = (n + BEHIND + 4095) / 4096;
        let len = (pages + 2) * 4096;
        unsafe {
            let base = mmap(std::ptr::null_mut(), len, 3, 0x22, -1, 0);
            assert!(base as isize != -1, "harness: mmap failed");
            assert_eq!(0, mprotect(base, 4096, 0));
            assert_eq!(0, mprotect(base.add(len - 4096), 4096, 0));
            Fenced { base, len, p: base.add(len - 4096 - n), n }
        }
    }
    /// The last `k` trits, filled from `t`.
    pub fn load(&mut self, t: &[u8]) -> &mut [u8] {
        assert!(t.len() <= self.n);
        let k = t.len();
        unsafe {
            let q = self.p.add(self.n - k);
            std::ptr::copy(t.as_ptr(), q, k);
            std::slice::from_raw_parts_mut(q, k)
        }
    }
    /// The last `k` trits as what remains of a longer buffer, whose first `d` trits have been read.
    pub fn behind(&self, k: usize, d: usize) -> iota_mam::trits::TritSlice<'_> {
        assert!(k <= self.n && d <= BEHIND);
        unsafe { iota_mam::trits::TritSlice::from_raw_ptr(k + d, self.p.add(self.n - k).sub(d)).drop(d) }
    }
}
impl Drop for Fenced {
    fn drop(&mut self) {
        unsafe {
            munmap(self.base, self.len);
        }
    }
}

// ---------------------------------------------------------------- coverage

#[derive(Default)]
pub struct Cov {
    pub evals: u64,
    pub nontriv: u64,
    pub trans: u64,
    pub traces: u64,
    pub states: HashSet<u64>,
    /// States counted without a set, where the enumeration makes them distinct by construction.
    pub nstates: u64,
    pub samples: Vec<String>,
}
impl Cov {
    pub fn case(&mut self, nontrivial: bool) {
        self.evals += 1;
        if nontrivial {
            self.nontriv += 1;
        }
    }
    pub fn cases(&mut self, n: u64) {
        self.evals += n;
        self.nontriv += n;
    }
    pub fn state<T: std::hash::Hash + ?Sized>(&mut self, t: &T) -> bool {
        self.states.insert(h64(t))
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.samples.len() < 2 {
            let mut s = f();
            if s.len() > 300 {
                let mut k = 300;
                while !s.is_char_boundary(k) {
                    k -= 1;
                }
                s.truncate(k);
                s.push_str("...");
            }
            self.samples.push(s);
        }
    }
    fn merge(&mut self, o: Cov) {
        self.evals += o.evals;
        self.nontriv += o.nontriv;
        self.trans += o.trans;
        self.traces += o.traces;
        self.nstates += o.nstates;
        if self.states.is_empty() {
            self.states = o.states;
        } else {
            self.states.extend(o.states);
        }
        for s in o.samples {
            if self.samples.len() < 12 {
                self.samples.push(s);
            }
        }
    }
}

pub fn h64<T: std::hash::Hash + ?Sized>(t: &T) -> u64 {
    use std::hash::Hasher;
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

// ---------------------------------------------------------------- context

#[derive(Clone, Copy, PartialEq)]
pub enum Level {
    ModelChecking,
    Exploration,
    FaultEnumeration,
}

pub struct Def {
    pub id: &'static str,
    pub level: Level,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub run: fn(&Ctx),
}

struct Viol {
    key: String,
    msg: String,
}

pub struct Ctx {
    pub def: &'static Def,
    pub thorough: bool,
    pub seed: u64,
    pub only: Option<(String, u64)>,
    pub threads: usize,
    cov: Mutex<Cov>,
    groups: Mutex<BTreeMap<String, (u64, f64)>>,
    viols: Mutex<Vec<Viol>>,
    start: Instant,
    dir: String,
}

struct Slot {
    key: Mutex<(String, u64)>,
    since: AtomicU64,
}
const NSLOTS: usize = 64;
static SLOTS: OnceLock<Vec<Slot>> = OnceLock::new();
static SLOT_FILE: OnceLock<fs::File> = OnceLock::new();
static T0: OnceLock<Instant> = OnceLock::new();
static NEXT_SLOT: AtomicUsize = AtomicUsize::new(0);

fn now_ms() -> u64 {
    T0.get().unwrap().elapsed().as_millis() as u64 + 1
}

fn my_slot() -> usize {
    SLOT.with(|s| {
        if s.get() == usize::MAX {
            s.set(NEXT_SLOT.fetch_add(1, Ordering::Relaxed) % NSLOTS);
        }
        s.get()
    })
}

fn enter(group: &str, i: u64) {
    let k = my_slot();
    let s = &SLOTS.get().unwrap()[k];
    {
        let mut g = s.key.lock().unwrap();
        if g.0 != group {
            g.0 = group.to_string();
        }
        g.1 = i;
    }
    s.since.store(now_ms(), Ordering::Relaxed);
    if let Some(f) = SLOT_FILE.get() {
        let mut b = [b' '; 128];
        let t = format!("{}:{}\n", group, i);
        let n = t.len().min(127);
        b[..n].copy_from_slice(&t.as_bytes()[..n]);
        b[127] = b'\n';
        let _ = f.write_at(&b, (k * 128) as u64);
    }
}
fn leave() {
    let k = my_slot();
    SLOTS.get().unwrap()[k].since.store(0, Ordering::Relaxed);
}
fn clear_slot_file() {
    let k = my_slot();
    if let Some(f) = SLOT_FILE.get() {
        let mut b = [b' '; 128];
        b[127] = b'\n';
        let _ = f.write_at(&b, (k * 128) as u64);
    }
}

/// Catch a panic of `f` as an error text.
pub fn guarded<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    PANIC_MSG.with(|p| p.borrow_mut().clear());
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| {
        let m = PANIC_MSG.with(|p| p.borrow().clone());
        format!("panic: {}", m)
    })
}

/// Built as users build it, without debug assertions and overflow checks? This second pass runs after the first one has
/// found nothing.
pub const RELEASE: bool = !cfg!(debug_assertions);

/// Which cases of a group of `n` the release pass runs: all of a small group, a fixed fifth of a large one.
fn chosen(i: u64, n: u64) -> bool {
    let mut z = i.wrapping_add(0x9e3779b97f4a7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    !RELEASE || n <= 1000 || (z ^ (z >> 31)) % 5 == 0
}

impl Ctx {
    /// Quick or thorough bound.
    pub fn q<T>(&self, quick: T, thorough: T) -> T {
        if self.thorough {
            thorough
        } else {
            quick
        }
    }

    /// Enumerate the `n` cases of `group` in parallel. A case fails by returning `Err` or by panicking.
    pub fn par<F>(&self, group: &str, n: u64, f: F)
    where
        F: Fn(u64, &mut Cov) -> Result<(), String> + Sync,
    {
        let t = Instant::now();
        let (lo, hi) = match &self.only {
            None => (0, n),
            Some((g, i)) if g == group => (*i, (*i + 1).min(n)),
            _ => return,
        };
        let next = AtomicU64::new(lo);
        let ran = AtomicU64::new(0);
        let stop = AtomicBool::new(false);
        let body = || {
            let mut cov = Cov::default();
            loop {
                if stop.load(Ordering::Relaxed) {
                    break;
                }
                let i = next.fetch_add(1, Ordering::Relaxed);
                if i >= hi {
                    break;
                }
                if self.only.is_none() && !chosen(i, n) {
                    continue;
                }
                ran.fetch_add(1, Ordering::Relaxed);
                enter(group, i);
                let r = guarded(|| f(i, &mut cov)).and_then(|r| r);
                leave();
                if let Err(m) = r {
                    self.viols.lock().unwrap().push(Viol { key: format!("{}:{}", group, i), msg: m });
                    stop.store(true, Ordering::Relaxed);
                }
            }
            clear_slot_file();
            self.cov.lock().unwrap().merge(cov);
        };
        let nt = self.threads.min((hi - lo) as usize).max(1);
        if nt == 1 {
            body();
        } else {
            std::thread::scope(|s| {
                for _ in 0..nt {
                    std::thread::Builder::new().stack_size(32 << 20).spawn_scoped(s, &body).unwrap();
                }
            });
        }
        let mut g = self.groups.lock().unwrap();
        let e = g.entry(group.to_string()).or_insert((0, 0.0));
        e.0 += ran.into_inner();
        e.1 += t.elapsed().as_secs_f64();
    }

    /// One case on its own.
    pub fn one<F>(&self, group: &str, f: F)
    where
        F: Fn(&mut Cov) -> Result<(), String> + Sync,
    {
        self.par(group, 1, |_, c| f(c));
    }

    pub fn add_cov(&self, c: Cov) {
        self.cov.lock().unwrap().merge(c);
    }

    /// Preparation that calls the code under test: a panic in it is a violation.
    pub fn setup<R>(&self, name: &str, f: impl FnOnce() -> R) -> R {
        enter(name, 0);
        let r = guarded(f);
        leave();
        clear_slot_file();
        match r {
            Ok(r) => r,
            Err(m) => {
                self.viols.lock().unwrap().push(Viol { key: format!("{}:0", name), msg: m });
                std::process::exit(finish(self));
            }
        }
    }
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 || c as u32 > 126 => {
                let mut b = [0u16; 2];
                for u in c.encode_utf16(&mut b) {
                    o.push_str(&format!("\\u{:04x}", u));
                }
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn level_name(l: Level) -> &'static str {
    match l {
        Level::ModelChecking => "model_checking",
        Level::Exploration => "exploration",
        Level::FaultEnumeration => "fault_enumeration",
    }
}

fn known(dir: &str, id: &str, key: &str) -> Option<String> {
    let t = fs::read_to_string(format!("{}/known-findings.txt", dir)).unwrap_or_default();
    for l in t.lines() {
        if let Some(r) = l.strip_prefix("finding: ") {
            let mut w = r.split_whitespace();
            if w.next() == Some(&format!("property={}", id)) && w.next() == Some(&format!("key={}", key)) {
                return Some(w.collect::<Vec<_>>().join(" "));
            }
        }
    }
    None
}

fn write_replay(dir: &str, id: &str, tier: &str, key: &str, msg: &str) -> String {
    let p = format!("replays/{}-{}.json", id, key.replace(['/', ':', ' '], "_"));
    let _ = fs::create_dir_all(format!("{}/replays", dir));
    let mut m = msg.to_string();
    m.truncate(20000.min(m.len()));
    let _ = fs::write(
        format!("{}/{}", dir, p),
        format!(
            "{{\n \"property\": {},\n \"tier\": {},\n \"case\": {},\n \"what\": {},\n \"rerun\": {}\n}}\n",
            esc(id),
            esc(tier),
            esc(key),
            esc(&m),
            esc(&format!("cd /verif && ./check.sh {} {} --only {}", id, tier, key))
        ),
    );
    p
}

fn write_evidence(c: &Ctx, nviol: usize) {
    let cov = c.cov.lock().unwrap();
    if RELEASE && c.only.is_none() {
        // a note in the evidence of the first pass
        let p = format!("{}/evidence/{}.json", c.dir, c.def.id);
        let Ok(t) = fs::read_to_string(&p) else { return };
        let n: u64 = c.groups.lock().unwrap().values().map(|v| v.0).sum();
        let note = format!(
            "\"release_build\": {{\"cases\": {}, \"wall_s\": {:.2}, \"violations\": {}}},\n  \"exhaustive\": true,",
            n,
            c.start.elapsed().as_secs_f64(),
            nviol
        );
        let t = t.replacen("\"exhaustive\": true,", &note, 1).replacen("\"violations\": 0\n}", &format!("\"violations\": {}\n}}", nviol), 1);
        if let Err(e) = fs::write(&p, t) {
            eprintln!("cannot write {}: {}", p, e);
            std::process::exit(2);
        }
        return;
    }
    let mut o = String::from("{\n");
    o += &format!(" \"property\": {},\n", esc(c.def.id));
    o += &format!(" \"tier\": {},\n", esc(if c.thorough { "thorough" } else { "quick" }));
    o += &format!(" \"seed\": {},\n", c.seed);
    o += &format!(" \"level\": {},\n", esc(level_name(c.def.level)));
    o += " \"coverage\": {\n";
    match c.def.level {
        Level::ModelChecking => {
            o += &format!("  \"states\": {},\n", cov.states.len() as u64 + cov.nstates);
            o += &format!("  \"transitions\": {},\n", cov.trans);
            o += &format!("  \"traces_validated_against_impl\": {},\n", cov.traces);
        }
        _ => {
            o += &format!("  \"evaluations\": {},\n", cov.evals);
            o += &format!("  \"distinct_nontrivial\": {},\n", cov.nontriv);
        }
    }
    o += &format!("  \"rule\": {},\n", esc(c.def.rule));
    o += "  \"exhaustive\": true,\n";
    o += "  \"groups\": {";
    let g = c.groups.lock().unwrap();
    o += &g
        .iter()
        .map(|(k, v)| format!("{}: {{\"cases\": {}, \"wall_s\": {:.2}}}", esc(k), v.0, v.1))
        .collect::<Vec<_>>()
        .join(", ");
    o += "},\n  \"samples\": [";
    o += &cov.samples.iter().map(|s| esc(s)).collect::<Vec<_>>().join(", ");
    o += "]\n },\n \"assumptions\": [";
    o += &c.def.assumptions.iter().map(|s| esc(s)).collect::<Vec<_>>().join(", ");
    o += &format!("],\n \"wall_s\": {:.2},\n \"violations\": {}\n}}\n", c.start.elapsed().as_secs_f64(), nviol);
    let _ = fs::create_dir_all(format!("{}/evidence", c.dir));
    let p = format!("{}/evidence/{}.json", c.dir, c.def.id);
    if c.only.is_none() {
        if let Err(e) = fs::write(&p, o) {
            eprintln!("cannot write {}: {}", p, e);
            std::process::exit(2);
        }
    }
}

fn finish(c: &Ctx) -> i32 {
    let tier = if c.thorough { "thorough" } else { "quick" };
    let mut v = c.viols.lock().unwrap();
    v.sort_by(|a, b| a.key.cmp(&b.key));
    let mut bad = 0;
    for x in v.iter() {
        if let Some(what) = known(&c.dir, c.def.id, &x.key) {
            println!("KNOWN-FINDING: property={} {}", c.def.id, what);
            continue;
        }
        bad += 1;
        let p = write_replay(&c.dir, c.def.id, tier, &x.key, &x.msg);
        let mut m = x.msg.replace('\n', " | ");
        if m.len() > 600 {
            let mut k = 600;
            while !m.is_char_boundary(k) {
                k -= 1;
            }
            m.truncate(k);
        }
        println!("  case {}: {}", x.key, m);
        println!("VIOLATION property={} replay={}", c.def.id, p);
    }
    write_evidence(c, bad);
    if bad == 0 {
        let cov = c.cov.lock().unwrap();
        println!(
            "OK property={} tier={}{} evals={} nontrivial={} states={} transitions={} traces={} wall={:.1}s",
            c.def.id,
            tier,
            if RELEASE { " release-build" } else { "" },
            cov.evals,
            cov.nontriv,
            cov.states.len() as u64 + cov.nstates,
            cov.trans,
            cov.traces,
            c.start.elapsed().as_secs_f64()
        );
        if std::env::var_os("VERIF_TIMES").is_some() {
            for (k, v) in c.groups.lock().unwrap().iter() {
                println!("   {:30} {:9} cases {:8.2}s", k, v.0, v.1);
            }
        }
    }
    let _ = std::io::stdout().flush();
    (bad != 0) as i32
}

pub fn main(defs: &'static [Def]) -> i32 {
    let args: Vec<String> = std::env::args().collect();
    let get = |n: &str| args.iter().position(|a| a == n).and_then(|i| args.get(i + 1)).cloned();
    let id = args.get(1).cloned().unwrap_or_default();
    let Some(def) = defs.iter().find(|d| d.id == id) else {
        eprintln!("unknown check {:?}", id);
        return 2;
    };
    let dir = std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into());
    let tier = get("--tier").unwrap_or_else(|| "quick".into());
    let slots = format!("{}/replays/.slots-{}-{}", dir, id, if args.iter().any(|a| a == "--child") { get("--child").unwrap() } else { std::process::id().to_string() });

    if !args.iter().any(|a| a == "--child") {
        // Supervisor: run the exploration in a child, report if it dies.
        let _ = fs::create_dir_all(format!("{}/replays", dir));
        if !RELEASE {
            let _ = fs::remove_file(format!("{}/evidence/{}.json", dir, id));
        }
        let _ = fs::write(&slots, b"");
        let t = Instant::now();
        let st = std::process::Command::new(std::env::current_exe().unwrap())
            .args(&args[1..])
            .arg("--child")
            .arg(std::process::id().to_string())
            .status();
        let text = fs::read_to_string(&slots).unwrap_or_default();
        let _ = fs::remove_file(&slots);
        let st = match st {
            Ok(s) => s,
            Err(e) => {
                eprintln!("cannot run: {}", e);
                return 2;
            }
        };
        if let Some(c) = st.code() {
            return if c == 0 || c == 1 { c } else { 2 };
        }
        let sig = st.signal().unwrap_or(0);
        let keys: Vec<&str> = text.lines().map(|l| l.trim().trim_matches('\0')).filter(|l| !l.is_empty()).collect();
        if sig == 9 || sig == 15 || sig == 2 || keys.is_empty() {
            eprintln!("the exploration process was ended by signal {}", sig);
            return 2;
        }
        let msg = format!("the process died with signal {} while running one of the cases {:?}", sig, keys);
        let p = write_replay(&dir, &id, &tier, keys[0], &msg);
        let _ = fs::create_dir_all(format!("{}/evidence", dir));
        let covj = match def.level {
            Level::ModelChecking => "{\"states\": 0, \"transitions\": 0, \"traces_validated_against_impl\": 0, \"samples\": []}",
            _ => "{\"evaluations\": 0, \"distinct_nontrivial\": 0, \"rule\": \"crashed\", \"samples\": []}",
        };
        let _ = fs::write(
            format!("{}/evidence/{}.json", dir, id),
            format!(
                "{{\"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": {}, \"coverage\": {}, \"wall_s\": {:.2}, \"violations\": 1}}\n",
                esc(&id),
                esc(&tier),
                seed(),
                esc(level_name(def.level)),
                covj,
                t.elapsed().as_secs_f64()
            ),
        );
        println!("  {}", msg);
        println!("VIOLATION property={} replay={}", id, p);
        return 1;
    }

    T0.set(Instant::now()).unwrap();
    let _ = SLOTS.set((0..NSLOTS).map(|_| Slot { key: Mutex::new((String::new(), 0)), since: AtomicU64::new(0) }).collect());
    if let Ok(f) = fs::OpenOptions::new().write(true).create(true).truncate(false).open(&slots) {
        let _ = SLOT_FILE.set(f);
    }
    std::panic::set_hook(Box::new(|i| {
        let m = i
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| i.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC_MSG.with(|p| *p.borrow_mut() = format!("{} at {}", m, l));
    }));
    let only = get("--only").map(|s| {
        let (g, i) = s.rsplit_once(':').expect("--only group:index");
        (g.to_string(), i.parse().expect("--only group:index"))
    });
    let ctx: &'static Ctx = Box::leak(Box::new(Ctx {
        def,
        thorough: tier == "thorough",
        seed: seed(),
        only,
        threads: std::thread::available_parallelism().map(|n| n.get()).unwrap_or(8).min(16),
        cov: Mutex::new(Cov::default()),
        groups: Mutex::new(BTreeMap::new()),
        viols: Mutex::new(Vec::new()),
        start: Instant::now(),
        dir,
    }));
    let limit_ms: u64 = if ctx.thorough { 900_000 } else { 120_000 };
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(500));
        let t = now_ms();
        for s in SLOTS.get().unwrap() {
            let b = s.since.load(Ordering::Relaxed);
            if b != 0 && t > b + limit_ms {
                let (g, i) = s.key.lock().unwrap().clone();
                ctx.viols
                    .lock()
                    .unwrap()
                    .push(Viol { key: format!("{}:{}", g, i), msg: format!("no result after {} s", limit_ms / 1000) });
                std::process::exit(finish(ctx));
            }
        }
    });
    let r = guarded(|| (def.run)(ctx));
    if let Err(m) = r {
        ctx.viols.lock().unwrap().push(Viol { key: "outside:0".into(), msg: m });
    }
    finish(ctx)
}

pub fn seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1)
}
