//! The simulator: one seed decides every choice.  Clients are OS threads of which exactly one runs at any
//! time; the baton changes hands only inside `yp` (a seam call), and who gets it is drawn from `Choices`.
use std::any::Any;
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use fine::own::AtomicU64;
use std::sync::atomic::Ordering;
use std::sync::{Condvar, Mutex};

#[derive(Clone, Debug)]
pub struct Viol {
    pub class: String,
    pub msg: String,
}
pub type R<T = ()> = Result<T, Viol>;
pub fn viol<T>(class: &str, msg: impl Into<String>) -> R<T> {
    Err(Viol { class: class.into(), msg: msg.into() })
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $class:expr, $($a:tt)*) => { if !$c { return $crate::world::viol($class, format!($($a)*)); } };
}

// ---------------------------------------------------------------- randomness

pub fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}
pub fn mix(a: u64, b: u64) -> u64 {
    let mut s = a ^ b.wrapping_mul(0xD6E8FEB86659FD93).rotate_left(23);
    splitmix(&mut s);
    splitmix(&mut s)
}
/// A local generator whose seed is itself a choice.
pub struct Lrng(pub u64);
impl Lrng {
    pub fn below(&mut self, n: u64) -> u64 {
        splitmix(&mut self.0) % n.max(1)
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            v.swap(i, self.below(i as u64 + 1) as usize);
        }
    }
}

/// Every decision of a run, in order.  Recorded when drawn, replayed when given.
pub struct Choices {
    state: u64,
    replay: Option<Vec<u32>>,
    pos: usize,
    /// The first LOG_CAP decisions.
    pub log: Vec<u32>,
    /// Written through at once when a run may kill the process.
    pub sink: Option<std::fs::File>,
}
pub const LOG_CAP: usize = 1_000_000;
impl Choices {
    pub fn drawn(&self) -> usize {
        self.pos
    }
    pub fn from_seed(seed: u64) -> Self {
        Choices { state: seed, replay: None, pos: 0, log: vec![], sink: None }
    }
    pub fn from_list(l: Vec<u32>) -> Self {
        Choices { state: 0, replay: Some(l), pos: 0, log: vec![], sink: None }
    }
    pub fn draw(&mut self, n: u32) -> u32 {
        if n <= 1 {
            return 0;
        }
        let v = match &self.replay {
            Some(l) => {
                let v = l.get(self.pos).copied().unwrap_or(0);
                if v < n { v } else { v % n }
            }
            None => (splitmix(&mut self.state) % n as u64) as u32,
        };
        self.pos += 1;
        if self.pos > LOG_CAP {
            return v;
        }
        self.log.push(v);
        if let Some(f) = &mut self.sink {
            use std::io::Write;
            let _ = f.write_all(format!("{v} ").as_bytes());
        }
        v
    }
}

// The randomness of std's hash maps goes through getrandom(2): this binary provides it.
pub static HASH_SEED: AtomicU64 = AtomicU64::new(1);
pub static HASH_CTR: AtomicU64 = AtomicU64::new(0);
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    let c = HASH_CTR.fetch_add(1, Ordering::SeqCst);
    let mut s = mix(HASH_SEED.load(Ordering::SeqCst), c);
    for i in 0..len {
        *buf.add(i) = splitmix(&mut s) as u8;
    }
    len as isize
}

// Time as clients see it: every look at a clock moves it on, by what the run's style says, and sleeping takes no time.
// No code of the repository looks at a clock today; what it computes must not come to depend on one.
#[repr(C)]
pub struct Timespec {
    s: i64,
    ns: i64,
}
/// nanoseconds the monotonic and the wall clock have been moved on so far
static MONO: AtomicU64 = AtomicU64::new(0);
static WALL: AtomicU64 = AtomicU64::new(0);
static TIME_STYLE: AtomicU64 = AtomicU64::new(0);
fn reset_time() {
    MONO.store(5_000_000_000, Ordering::SeqCst);
    WALL.store(1_700_000_000_000_000_000, Ordering::SeqCst);
    TIME_STYLE.store(0, Ordering::SeqCst);
}
fn pass_time(ns: u64) {
    if MONO.load(Ordering::SeqCst) < 5_000_000_000_000_000_000 {
        MONO.fetch_add(ns, Ordering::SeqCst);
        WALL.fetch_add(ns, Ordering::SeqCst);
    }
}
/// A look at a clock by code under simulation; false where real time is wanted.
fn look() -> bool {
    if REAL_TIME.with(|r| r.get()) || world().is_none() {
        return false;
    }
    let style = match TIME_STYLE.load(Ordering::SeqCst) {
        0 => {
            let k = 1 + draw(5) as u64;
            TIME_STYLE.store(k, Ordering::SeqCst);
            k
        }
        k => k,
    };
    count("op.clock_looked_at");
    let ns = match style {
        1 => 1_000,
        2 => 1_000_000_000,
        3 => 3_600_000_000_000,
        4 => 315_360_000_000_000_000,
        _ => [1_000, 1_000, 1_000_000, 1_000_000_000, 3_600_000_000_000][draw(5) as usize],
    };
    if ns >= 1_000_000_000 {
        count("fault.clock_jumps");
    }
    pass_time(ns);
    if style == 5 && draw(4) == 3 {
        count("fault.wall_clock_set_back");
        WALL.fetch_sub(7_200_000_000_000, Ordering::SeqCst);
    }
    true
}
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clock: i32, t: *mut Timespec) -> i32 {
    if !look() {
        return syscall(228, clock as i64, t as i64, 0, 0, 0, 0) as i32;
    }
    let v = if clock == 0 || clock == 5 { WALL.load(Ordering::SeqCst) } else { MONO.load(Ordering::SeqCst) };
    *t = Timespec { s: (v / 1_000_000_000) as i64, ns: (v % 1_000_000_000) as i64 };
    0
}
/// Code under simulation sleeps or yields: to wait for others, maybe, who then have to get on even where nothing is
/// scheduled.
fn rest() {
    if MUTED.with(|m| m.get()) > 0 && CLIENT.with(|c| c.get()) {
        if let Some(w) = world() {
            let _p = fine::Pause::new();
            w.preempt_here(ME.with(|m| m.get()), fine::Kind::Atomic);
        }
    }
    yp(Pt::Sleep);
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(d: *const Timespec, left: *mut Timespec) -> i32 {
    if REAL_TIME.with(|r| r.get()) || world().is_none() {
        return syscall(35, d as i64, left as i64, 0, 0, 0, 0) as i32;
    }
    pass_time((*d).s as u64 * 1_000_000_000 + (*d).ns as u64);
    rest();
    0
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(clock: i32, flags: i32, d: *const Timespec, left: *mut Timespec) -> i32 {
    if REAL_TIME.with(|r| r.get()) || world().is_none() {
        return if syscall(230, clock as i64, flags as i64, d as i64, left as i64, 0, 0) == 0 { 0 } else { 4 };
    }
    let v = (*d).s as u64 * 1_000_000_000 + (*d).ns as u64;
    if flags == 1 {
        let now = if clock == 0 { WALL.load(Ordering::SeqCst) } else { MONO.load(Ordering::SeqCst) };
        pass_time(v.saturating_sub(now));
    } else {
        pass_time(v);
    }
    rest();
    0
}
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> i32 {
    if REAL_TIME.with(|r| r.get()) || world().is_none() {
        return syscall(24, 0, 0, 0, 0, 0, 0) as i32;
    }
    rest();
    0
}

// ---------------------------------------------------------------- seam calls

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
#[repr(usize)]
pub enum Pt {
    Col = 0,
    Next,
    Filt,
    Cmp,
    Hash,
    Field,
    Basis,
    Edge,
    Source,
    /// the code under test sleeps or yields (it does not fail there)
    Sleep,
}
pub const PT_NAMES: [&str; 10] = [
    "column", "entry", "filtration", "compare", "hash", "field", "basis", "edge_time", "source", "sleep",
];

/// Seam kinds that are scheduling (and failure) points in this run.
pub static MASK: AtomicU64 = AtomicU64::new(u64::MAX);
/// Swarm: some runs disable the frequent, fine-grained points.
pub fn draw_mask() {
    let m = match draw(4) {
        0 => u64::MAX,
        1 => u64::MAX & !(1 << Pt::Cmp as u64) & !(1 << Pt::Hash as u64),
        2 => u64::MAX & !(1 << Pt::Field as u64) & !(1 << Pt::Cmp as u64),
        _ => u64::MAX & !(1 << Pt::Field as u64) & !(1 << Pt::Cmp as u64) & !(1 << Pt::Hash as u64) & !(1 << Pt::Next as u64),
    };
    MASK.store(m, Ordering::SeqCst);
}
pub fn full_mask() {
    reset_time();
    MASK.store(u64::MAX, Ordering::SeqCst);
    UNIT.store(0.25f64.to_bits(), Ordering::SeqCst);
}

/// The floating-point value that distances and edge times of this run are (whole) multiples of.
static UNIT: AtomicU64 = AtomicU64::new(0);
pub fn unit() -> f64 {
    f64::from_bits(UNIT.load(Ordering::SeqCst))
}
pub fn draw_unit() {
    if chance(1, 4) {
        let e = [-1000, -52, -40, -20, 10, 30, 52, 900][draw(8) as usize];
        UNIT.store(2f64.powi(e).to_bits(), Ordering::SeqCst);
        desc(|| format!("in units of 2^{e}"));
        count("probe.extreme_magnitudes");
    }
}
/// The whole number of units in a value the code handed out.
pub fn in_units(x: f64) -> R<i64> {
    let v = x / unit();
    ensure!(v.fract() == 0.0 && v.abs() < 9e15, "filtration-value", "filtration value {x} is not one that was supplied");
    Ok(v as i64)
}

/// Seam calls of this run, scheduling points or not.
pub static RAW: AtomicU64 = AtomicU64::new(0);
pub static PROGRESS: std::sync::OnceLock<std::fs::File> = std::sync::OnceLock::new();
/// For the parent: a long run is getting on.
#[cold]
fn beat(n: u64) {
    use std::os::unix::fs::FileExt;
    if let Some(p) = PROGRESS.get() {
        let _ = p.write_all_at(format!(" {n:010}").as_bytes(), 20);
    }
}
pub const RAW_LIMIT: u64 = crate::runner::STEP_LIMIT;

/// A failure of a user-supplied part; the number tells which one.
pub struct InjectedFault(u64);
const FAILURES: [&str; 3] = ["the disk is on fire", "no such row", ""];
pub struct StepLimit;

#[derive(Clone, Debug)]
pub struct Ev {
    pub step: u64,
    pub what: String,
}

pub struct Inner {
    pub choices: Choices,
    n: usize,
    alive: Vec<bool>,
    /// Waiting for something outside the simulator (a lock another client holds while parked).
    blocked: Vec<bool>,
    current: usize,
    quantum: u32,
    qstyle: u32,
    fine: u32,
    preemptions: u32,
    fine_atomics: u32,
    atomic_preemptions: u32,
    /// Waits for locks with nothing else happening in between.
    idle_waits: u32,
    pub steps: u64,
    pub limit: u64,
    pub switches: u64,
    tids: Vec<i32>,
    ended: bool,
    calls: Vec<u64>,
    fault_at: Vec<Option<u64>>,
    /// the part keeps failing (once `down`) until the failure is disarmed
    lasting: Vec<bool>,
    down: Vec<bool>,
    pub digest: u64,
    pub sched_digest: u64,
    pub trace: Vec<Ev>,
    pub counts: BTreeMap<&'static str, u64>,
    pub desc: Vec<String>,
}

pub struct World {
    m: Mutex<Inner>,
    cvs: Vec<Condvar>,
    over: Condvar,
}
extern "C" {
    fn gettid() -> i32;
    fn __errno_location() -> *mut i32;
}
unsafe fn kernel(n: i64, a: [i64; 6]) -> i64 {
    let r: i64;
    std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a[0], in("rsi") a[1], in("rdx") a[2], in("r10") a[3],
        in("r8") a[4], in("r9") a[5], out("rcx") _, out("r11") _, options(nostack));
    r
}
const FUTEX: i64 = 202;
/// What the standard library waits with, for every lock, condition and `park`. A client that would wait lets another
/// one run instead, and looks again when it is its turn.
#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    if n == FUTEX && matches!(b & 127, 0 | 9) && !fine::paused() {
        if let (Some(w), true) = (world(), CLIENT.with(|c| c.get())) {
            if *(a as *const u32) != c as u32 {
                *__errno_location() = 11;
                return -1;
            }
            {
                let _p = fine::Pause::new();
                w.wait_here(ME.with(|m| m.get()), a, c);
            }
            if d != 0 {
                pass_time(1_000_000_000);
                *__errno_location() = 110;
                return -1;
            }
            return 0;
        }
    }
    let r = kernel(n, [a, b, c, d, e, f]);
    if (-4095..0).contains(&r) {
        *__errno_location() = -r as i32;
        return -1;
    }
    r
}

thread_local! {
    static WORLD: Cell<*const World> = const { Cell::new(std::ptr::null()) };
    static ME: Cell<usize> = const { Cell::new(0) };
    /// Code of a client runs on this thread, and others may take turns with it.
    static CLIENT: Cell<bool> = const { Cell::new(false) };
    static REAL_TIME: Cell<bool> = const { Cell::new(false) };
    static SPINS: Cell<u32> = const { Cell::new(0) };
    static MUTED: Cell<u32> = const { Cell::new(0) };
    static NESTED: RefCell<Nest> = const { RefCell::new(Nest { left: 0, every: 0, times: 0, op: None, bad: None }) };
    /// The last failure injected in this thread: its number and the shape of its payload.
    static LAST_FAULT: Cell<(u64, u32)> = const { Cell::new((0, 0)) };
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "non-string panic".into()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{msg} @ {loc}"));
    }));
}
pub fn last_panic() -> String {
    LAST_PANIC.with(|p| p.borrow().clone())
}

/// The simulator's own state, in hand; nobody is preempted meanwhile.
pub struct Held<'w> {
    g: std::sync::MutexGuard<'w, Inner>,
    _p: fine::Pause,
}
impl std::ops::Deref for Held<'_> {
    type Target = Inner;
    fn deref(&self) -> &Inner {
        &self.g
    }
}
impl std::ops::DerefMut for Held<'_> {
    fn deref_mut(&mut self) -> &mut Inner {
        &mut self.g
    }
}
/// A preemption at a point that is no seam call (`fine` build).
pub fn preempt(kind: fine::Kind) -> u64 {
    let Some(w) = world() else { return u64::MAX };
    if MUTED.with(|m| m.get()) > 0 || std::thread::panicking() {
        // nothing is scheduled here, except for one who spins: it waits for somebody else
        if kind == fine::Kind::Point || SPINS.with(|s| s.replace(s.get() + 1)) < 200 {
            return 200;
        }
    }
    SPINS.with(|s| s.set(0));
    w.preempt_here(ME.with(|m| m.get()), kind)
}

const MAX_CLIENTS: usize = 24;
const TRACE_CAP: usize = 4000;

impl World {
    pub fn new(choices: Choices, limit: u64) -> Box<World> {
        Box::new(World {
            m: Mutex::new(Inner {
                choices,
                n: 0,
                alive: vec![],
                blocked: vec![],
                current: 0,
                quantum: 0,
                qstyle: 0,
                fine: 0,
                preemptions: 0,
                fine_atomics: 0,
                atomic_preemptions: 0,
                idle_waits: 0,
                steps: 0,
                limit,
                switches: 0,
                tids: vec![0; MAX_CLIENTS],
                ended: false,
                calls: vec![0; MAX_CLIENTS],
                fault_at: vec![None; MAX_CLIENTS],
                lasting: vec![false; MAX_CLIENTS],
                down: vec![false; MAX_CLIENTS],
                digest: 0xcbf29ce484222325,
                sched_digest: 0xcbf29ce484222325,
                trace: vec![],
                counts: BTreeMap::new(),
                desc: vec![],
            }),
            cvs: (0..MAX_CLIENTS).map(|_| Condvar::new()).collect(),
            over: Condvar::new(),
        })
    }
    fn raw(&self) -> std::sync::MutexGuard<'_, Inner> {
        self.m.lock().unwrap_or_else(|e| e.into_inner())
    }
    pub fn lock(&self) -> Held<'_> {
        let p = fine::Pause::new();
        Held { g: self.raw(), _p: p }
    }
    pub fn into_inner(self: Box<World>) -> Inner {
        self.m.into_inner().unwrap_or_else(|e| e.into_inner())
    }

    /// Attach the current thread as the (only) deciding thread, outside client execution.
    pub fn attach_main(&self) {
        WORLD.with(|w| w.set(self as *const World));
        ME.with(|m| m.set(0));
        MUTED.with(|m| m.set(1));
    }

    /// Run the clients to completion under the seeded scheduler; results in client order.
    pub fn run_clients<'e>(&self, clients: Vec<Box<dyn FnOnce() -> R + Send + 'e>>) -> Vec<R> {
        let n = clients.len();
        assert!(n <= MAX_CLIENTS);
        {
            let mut i = self.lock();
            i.n = n;
            i.alive = vec![true; n];
            i.blocked = vec![false; n];
            for c in i.calls.iter_mut() {
                *c = 0;
            }
            i.qstyle = if n > 1 { i.choices.draw(5) } else { 0 };
            i.current = i.choices.draw(n as u32) as usize;
            i.quantum = 0;
            (i.fine, i.preemptions, i.fine_atomics, i.atomic_preemptions, i.idle_waits) = (0, 0, 0, 0, 0);
            if cfg!(feature = "fine") && n > 1 {
                // preempted between seams, after up to 2^k points
                i.fine = i.choices.draw(19);
                if i.fine > 3 {
                    i.preemptions = 300;
                }
                i.fine_atomics = i.choices.draw(9);
                if i.fine_atomics > 0 {
                    i.atomic_preemptions = 2000;
                }
            }
            i.ended = false;
            i.tids = vec![0; MAX_CLIENTS];
            *i.counts.entry("clients").or_default() += n as u64;
            if n > 1 {
                *i.counts.entry("runs_multi_client").or_default() += 1;
            }
        }
        let wptr = self as *const World as usize;
        std::thread::scope(|s| {
            let hs: Vec<_> = clients
                .into_iter()
                .enumerate()
                .map(|(id, f)| {
                    std::thread::Builder::new()
                        .stack_size(4 << 20)
                        .spawn_scoped(s, move || {
                            let w = unsafe { &*(wptr as *const World) };
                            WORLD.with(|c| c.set(w as *const World));
                            ME.with(|m| m.set(id));
                            MUTED.with(|m| m.set(0));
                            w.lock().tids[id] = unsafe { gettid() };
                            w.wait_turn(id);
                            fine::set_left(w.first_gaps());
                            CLIENT.with(|c| c.set(true));
                            let r = guard(f);
                            CLIENT.with(|c| c.set(false));
                            fine::set_left(fine::FOR_EVER);
                            MUTED.with(|m| m.set(1));
                            w.finish(id);
                            r
                        })
                        .expect("spawn")
                })
                .collect();
            if n > 1 {
                REAL_TIME.with(|r| r.set(true));
                self.watch();
                REAL_TIME.with(|r| r.set(false));
            }
            hs.into_iter()
                .map(|h| h.join().unwrap_or_else(|_| viol("harness", "client thread died")))
                .collect()
        })
    }

    fn wait_turn(&self, id: usize) {
        let mut g = self.raw();
        while g.current != id {
            g = self.cvs[id].wait(g).unwrap_or_else(|e| e.into_inner());
        }
    }

    /// A client that holds the baton and sleeps waits for a lock of another, parked, client: pass the baton on.
    /// (No code of the repository does this today; should it, that is no deadlock.)
    fn watch(&self) {
        let mut g = self.raw();
        let mut last = (0, 0);
        let mut still = 0;
        while !g.ended {
            let (h, t) = self.over.wait_timeout(g, std::time::Duration::from_millis(100)).unwrap_or_else(|e| e.into_inner());
            g = h;
            if !t.timed_out() || g.ended {
                continue;
            }
            let now = (g.steps, g.current);
            let tid = g.tids[g.current];
            let asleep = std::fs::read_to_string(format!("/proc/self/task/{tid}/stat")).is_ok_and(|s| s.rsplit(") ").next().is_some_and(|x| x.starts_with('S')));
            still = if now == last && asleep && tid != 0 { still + 1 } else { 0 };
            last = now;
            if still < 4 {
                continue;
            }
            let c = g.current;
            if g.ready() == [c] && still < 30 {
                continue;
            }
            still = 0;
            g.blocked[c] = true;
            g.note(format!("client {c} waits for a lock"));
            *g.counts.entry("clients_blocked_on_locks").or_default() += 1;
            let ready = g.ready();
            if ready.is_empty() {
                g.note("no client can run".into());
                println!("DEADLOCK");
                std::process::exit(77);
            }
            let k = g.choices.draw(ready.len() as u32) as usize;
            g.current = ready[k];
            g.quantum = 0;
            self.cvs[ready[k]].notify_one();
        }
    }

    /// A client woken by a lock, not by the scheduler, waits for its turn.
    fn regain<'g>(&self, mut g: std::sync::MutexGuard<'g, Inner>, me: usize) -> std::sync::MutexGuard<'g, Inner> {
        if g.current != me {
            g.blocked[me] = false;
            if !g.alive[g.current] || g.blocked[g.current] {
                g.current = me;
            }
            while g.current != me {
                g = self.cvs[me].wait(g).unwrap_or_else(|e| e.into_inner());
            }
        }
        g.blocked[me] = false;
        g
    }

    fn finish(&self, id: usize) {
        let mut g = self.raw();
        g = self.regain(g, id);
        g.alive[id] = false;
        let alive = g.ready();
        if alive.is_empty() {
            g.ended = !g.alive.contains(&true);
            self.over.notify_one();
            return;
        }
        let k = g.choices.draw(alive.len() as u32) as usize;
        let nx = alive[k];
        g.current = nx;
        g.note(format!("client {id} done, client {nx} runs"));
        g.quantum = 0;
        self.cvs[nx].notify_one();
    }

    fn yield_here(&self, me: usize, pt: Pt) {
        let mut g = self.raw();
        if g.n > 1 {
            g = self.regain(g, me);
        }
        g.steps += 1;
        g.idle_waits = 0;
        g.calls[me] += 1;
        let d = (g.digest ^ ((me as u64) << 8 | pt as u64)).wrapping_mul(0x100000001b3);
        g.digest = d;
        if g.steps > g.limit {
            drop(g);
            std::panic::panic_any(StepLimit);
        }
        if g.down[me] && pt != Pt::Sleep {
            drop(g);
            fail();
        }
        if let Some(at) = g.fault_at[me] {
            if g.calls[me] >= at && pt != Pt::Sleep {
                g.fault_at[me] = None;
                g.down[me] = g.lasting[me];
                let s = g.steps;
                let name: &'static str = match pt {
                    Pt::Col => "fault.column_fails",
                    Pt::Next => "fault.entry_stream_fails",
                    Pt::Filt => "fault.filtration_fails",
                    Pt::Cmp => "fault.compare_fails",
                    Pt::Hash => "fault.hash_fails",
                    Pt::Field => "fault.field_op_fails",
                    Pt::Basis => "fault.basis_fails",
                    Pt::Edge => "fault.edge_time_fails",
                    Pt::Source | Pt::Sleep => "fault.source_fails",
                };
                *g.counts.entry(name).or_default() += 1;
                g.note(format!("client {me}: injected failure at {} (seam call {at}, step {s})", PT_NAMES[pt as usize]));
                drop(g);
                fail();
            }
        }
        if g.n > 1 {
            if g.quantum > 0 {
                g.quantum -= 1;
                return;
            }
            drop(self.switch(g, me, PT_NAMES[pt as usize]));
        }
    }

    /// Somebody's turn, perhaps that of the same client again.
    fn switch<'g>(&'g self, mut g: std::sync::MutexGuard<'g, Inner>, me: usize, place: &str) -> std::sync::MutexGuard<'g, Inner> {
            let alive = g.ready();
            if alive.len() > 1 {
                let q = match g.qstyle {
                    0 => 0,
                    1 => [0, 0, 1, 2, 3, 7][g.choices.draw(6) as usize],
                    2 => [0, 3, 10, 40][g.choices.draw(4) as usize],
                    3 => [5, 50, 500][g.choices.draw(3) as usize],
                    _ => [20, 100, 1000, 4000][g.choices.draw(4) as usize],
                };
                // changing threads costs the host dear: long runs change less often
                let q = if g.switches > 60_000 { q.max(2000) } else { q };
                g.quantum = q;
                let k = g.choices.draw(alive.len() as u32) as usize;
                let nx = alive[k];
                if nx != me {
                    g.note(format!("client {me} parked at {place}, client {nx} runs (quantum {q})"));
                    g = self.hand_over(g, me, nx);
                }
            }
        g
    }

    fn preempt_here(&self, me: usize, kind: fine::Kind) -> u64 {
        let mut g = self.raw();
        if g.n < 2 {
            return u64::MAX;
        }
        g = self.regain(g, me);
        g.steps += 1;
        g.idle_waits = 0;
        g.digest = (g.digest ^ ((me as u64) << 8 | 0xf1)).wrapping_mul(0x100000001b3);
        if kind == fine::Kind::Atomic {
            g.atomic_preemptions = g.atomic_preemptions.saturating_sub(1);
            *g.counts.entry("op.preempted_at_atomic").or_default() += 1;
        } else {
            g.preemptions = g.preemptions.saturating_sub(1);
            *g.counts.entry("op.preempted_between_seams").or_default() += 1;
        }
        g = self.switch(g, me, if kind == fine::Kind::Atomic { "an atomic operation" } else { "a point between seams" });
        g.gap(kind)
    }
    /// How far a client gets before it may be preempted for the first time.
    fn first_gaps(&self) -> fine::Left {
        let mut g = self.raw();
        fine::Left { points: g.gap(fine::Kind::Point), atomics: g.gap(fine::Kind::Atomic) }
    }
    /// A client would wait (for a lock, most likely): somebody else's turn.
    fn wait_here(&self, me: usize, place: i64, value: i64) {
        let mut g = self.raw();
        g = self.regain(g, me);
        g.steps += 1;
        g.idle_waits += 1;
        *g.counts.entry("op.waited_for_lock").or_default() += 1;
        let others: Vec<usize> = g.ready().into_iter().filter(|&i| i != me).collect();
        if others.is_empty() || g.idle_waits > 500 {
            // nobody to wait for but threads that are no clients
            if g.idle_waits > 5000 {
                println!("DEADLOCK");
                std::process::exit(77);
            }
            drop(g);
            let t = Timespec { s: 0, ns: 1_000_000 };
            unsafe { kernel(FUTEX, [place, 128, value, &t as *const _ as i64, 0, 0]) };
            g = self.raw();
            g = self.regain(g, me);
        }
        if !others.is_empty() {
            let k = g.choices.draw(others.len() as u32) as usize;
            let nx = others[k];
            g.quantum = 0;
            g.note(format!("client {me} waits for a lock, client {nx} runs"));
            drop(self.hand_over(g, me, nx));
        }
    }
    fn hand_over<'g>(&'g self, mut g: std::sync::MutexGuard<'g, Inner>, me: usize, nx: usize) -> std::sync::MutexGuard<'g, Inner> {
        g.switches += 1;
        let s = g.steps;
        g.sched_digest = (g.sched_digest ^ (s << 8 | nx as u64)).wrapping_mul(0x100000001b3);
        g.current = nx;
        self.cvs[nx].notify_one();
        while g.current != me {
            g = self.cvs[me].wait(g).unwrap_or_else(|e| e.into_inner());
        }
        g
    }
}

impl Inner {
    /// After how many further points of a kind a client may be preempted: a power of two is drawn first, so that
    /// preemptions come close together and far apart.
    fn gap(&mut self, kind: fine::Kind) -> u64 {
        let (span, left) = match kind {
            fine::Kind::Point => (self.fine, self.preemptions),
            fine::Kind::Atomic => (self.fine_atomics, self.atomic_preemptions),
        };
        if !cfg!(feature = "fine") || self.n < 2 {
            return u64::MAX;
        }
        if left == 0 {
            // who spins on an atomic waits for somebody else
            return if kind == fine::Kind::Atomic { 20_000 } else { u64::MAX };
        }
        let k = self.choices.draw(span + 1);
        1 + self.choices.draw(1 << k) as u64
    }
    fn ready(&self) -> Vec<usize> {
        (0..self.n).filter(|&i| self.alive[i] && !self.blocked[i]).collect()
    }
    pub fn note(&mut self, what: String) {
        if self.trace.len() < TRACE_CAP {
            let step = self.steps;
            self.trace.push(Ev { step, what });
        }
    }
}

fn world() -> Option<&'static World> {
    let p = WORLD.with(|w| w.get());
    if p.is_null() {
        None
    } else {
        Some(unsafe { &*p })
    }
}

/// A seam call: a scheduling point and a possible failure point.
#[inline]
pub fn yp(pt: Pt) {
    // also where nothing may be scheduled: a computation that never ends has to end here
    let raw = RAW.fetch_add(1, Ordering::Relaxed);
    if raw > RAW_LIMIT && !std::thread::panicking() {
        std::panic::panic_any(StepLimit);
    }
    if raw & 0xf_ffff == 0xf_ffff {
        beat(raw >> 20);
    }
    if MASK.load(Ordering::Relaxed) >> (pt as u32) & 1 == 0 {
        return;
    }
    if MUTED.with(|m| m.get()) > 0 {
        return;
    }
    if std::thread::panicking() {
        // comparisons are made by the standard library's own heap when it cleans up
        if !matches!(pt, Pt::Cmp | Pt::Hash | Pt::Field | Pt::Sleep) {
            if let Some(w) = world() {
                let me = ME.with(|m| m.get());
                if w.lock().down[me] {
                    panic!("a part that had failed was called again while its failure unwound");
                }
            }
        }
        return;
    }
    if let Some(w) = world() {
        {
            let _p = fine::Pause::new();
            w.yield_here(ME.with(|m| m.get()), pt);
        }
        if !matches!(pt, Pt::Cmp | Pt::Hash | Pt::Sleep) {
            interrupt(pt);
        }
    }
}

// ---------------------------------------------------------------- operations inside operations

/// An operation started by a user-supplied part in the middle of another one, on the same thread.
struct Nest {
    left: u32,
    every: u32,
    times: u32,
    op: Option<*const dyn Fn() -> R>,
    bad: Option<Viol>,
}
fn interrupt(pt: Pt) {
    let op = NESTED.with(|n| {
        let Ok(mut n) = n.try_borrow_mut() else { return None };
        if n.times == 0 || n.bad.is_some() {
            return None;
        }
        if n.left > 0 {
            n.left -= 1;
            return None;
        }
        n.op.take()
    });
    let Some(op) = op else { return };
    let me = ME.with(|m| m.get());
    count("op.nested");
    note(|| format!("client {me}: another operation runs inside this one, at {}", PT_NAMES[pt as usize]));
    // SAFETY: `nested` keeps the closure alive while it is registered
    let r = contained(|| guard(|| unsafe { (*op)() }));
    note(|| format!("client {me}: back in the outer operation"));
    NESTED.with(|n| {
        let mut n = n.borrow_mut();
        n.times -= 1;
        n.left = n.every;
        n.op = Some(op);
        n.bad = r.err();
    });
}
/// Run `f`; sometimes `op` runs inside it, started at one of its seam calls.
pub fn nested<T>(op: &dyn Fn() -> R, f: impl FnOnce() -> R<T>) -> R<T> {
    if !chance(1, 4) || NESTED.with(|n| n.borrow().times > 0) {
        return f();
    }
    let every = draw([6, 40, 300, 2000][draw(4) as usize]);
    let times = range(1, 2);
    struct Clear;
    impl Drop for Clear {
        fn drop(&mut self) {
            NESTED.with(|n| {
                let mut n = n.borrow_mut();
                n.times = 0;
                n.op = None;
                n.bad = None;
            });
        }
    }
    let p: *const (dyn Fn() -> R + '_) = op;
    NESTED.with(|n| {
        let op = Some(unsafe { std::mem::transmute::<*const (dyn Fn() -> R + '_), *const (dyn Fn() -> R + 'static)>(p) });
        *n.borrow_mut() = Nest { left: every, every, times, op, bad: None };
    });
    let _c = Clear;
    let r = catch_unwind(AssertUnwindSafe(f));
    let bad = NESTED.with(|n| n.borrow_mut().bad.take());
    match (r, bad) {
        (_, Some(v)) => Err(v),
        (Ok(r), None) => r,
        (Err(p), None) => std::panic::resume_unwind(p),
    }
}
pub fn draw(n: u32) -> u32 {
    world().expect("draw outside a world").lock().choices.draw(n)
}
/// Workloads that many users at once would make too long.
const LARGE: [&str; 14] = [
    "probe.big_matrix", "probe.deep_matrix", "probe.disjoint_union", "probe.huge_column", "probe.huge_complex", "probe.huge_matrix", "probe.large_algebraic",
    "probe.large_column", "probe.large_complex", "probe.many_columns", "probe.many_points", "probe.many_vertices", "probe.vast", "probe.projective_plane",
];
/// How many users work at the same time: one of these, rarely very many.
pub fn users(usual: &[u32]) -> u32 {
    let k = usual[draw(usual.len() as u32) as usize];
    let large = {
        let g = world().unwrap().lock();
        LARGE.iter().any(|x| g.counts.contains_key(x))
    };
    if large || !chance(1, 100) {
        return k;
    }
    count("probe.many_users");
    range(5, MAX_CLIENTS as u32 - 4)
}
/// One thing to work on, or several that the same users work on in turn.
pub fn several<T>(mut mk: impl FnMut() -> T) -> Vec<T> {
    let mut v = vec![mk()];
    if chance(1, 4) {
        count("probe.several_matrices");
        v.push(mk());
    }
    v
}
/// Things made, used and dropped one after the other in one thread, where the last one was in memory.
pub fn lifetimes<T>(w: &World, mut mk: impl FnMut() -> T + Send, use_it: impl Fn(&T) -> R + Send) -> R {
    count("probe.lifetimes");
    let c: Box<dyn FnOnce() -> R + Send> = Box::new(move || {
        for _ in 0..range(2, 4) {
            let t = mk();
            for _ in 0..range(1, 2) {
                use_it(&t)?;
            }
            drop(t);
        }
        Ok(())
    });
    w.run_clients(vec![c]).into_iter().collect()
}
pub fn draw_seed() -> u64 {
    // 0 is the simplest value
    let v = draw(1 << 16);
    if v == 0 { 0 } else { mix(0x51ED, v as u64) | 1 }
}
/// true with probability num/den; the simplest choice is false
pub fn chance(num: u32, den: u32) -> bool {
    draw(den) >= den - num
}
pub fn range(lo: u32, hi: u32) -> u32 {
    lo + draw(hi - lo + 1)
}
pub fn count(k: &'static str) {
    count_n(k, 1)
}
pub fn count_n(k: &'static str, n: u64) {
    if let Some(w) = world() {
        *w.lock().counts.entry(k).or_default() += n;
    }
}
pub fn note(s: impl FnOnce() -> String) {
    if let Some(w) = world() {
        let mut g = w.lock();
        if g.trace.len() < TRACE_CAP {
            g.note(s());
        }
    }
}
pub fn desc(s: impl FnOnce() -> String) {
    if let Some(w) = world() {
        let mut g = w.lock();
        if g.desc.len() < 60 {
            let mut t = s();
            if t.len() > 40_000 {
                let cut = (0..=40_000).rev().find(|&i| t.is_char_boundary(i)).unwrap();
                t.truncate(cut);
                t.push_str(" ...");
            }
            g.desc.push(t);
        }
    }
}
/// Run without scheduling or failing (used by oracles).
pub fn muted<T>(f: impl FnOnce() -> T) -> T {
    struct G;
    impl Drop for G {
        fn drop(&mut self) {
            MUTED.with(|m| m.set(m.get() - 1));
        }
    }
    MUTED.with(|m| m.set(m.get() + 1));
    let _g = G;
    f()
}
/// Arm a failure of this client at its `at`-th seam call from now (1-based).
/// In part of the runs it keeps failing from then on, even in calls made while the first failure unwinds.
pub fn arm_fault(at: u64) {
    let lasting = chance(1, 4);
    let me = ME.with(|m| m.get());
    let mut g = world().unwrap().lock();
    let c = g.calls[me];
    g.fault_at[me] = Some(c + at.max(1));
    g.lasting[me] = lasting;
    g.down[me] = false;
    if lasting {
        *g.counts.entry("op.lasting_failure_armed").or_default() += 1;
    }
}
pub fn disarm_fault() -> bool {
    let me = ME.with(|m| m.get());
    let mut g = world().unwrap().lock();
    g.down[me] = false;
    g.lasting[me] = false;
    g.fault_at[me].take().is_some()
}
/// Run an operation that is to fail itself, inside one for which a failure may be armed.
pub fn contained<T>(f: impl FnOnce() -> T) -> T {
    let me = ME.with(|m| m.get());
    let w = world().unwrap();
    let outer = {
        let mut g = w.lock();
        let c = g.calls[me];
        let l = g.lasting[me];
        g.fault_at[me].take().map(|at| (at.saturating_sub(c), l))
    };
    let r = f();
    let mut g = w.lock();
    let c = g.calls[me];
    g.fault_at[me] = outer.map(|(left, _)| c + left);
    g.lasting[me] = outer.is_some_and(|(_, l)| l);
    g.down[me] = false;
    r
}
pub fn my_calls() -> u64 {
    let me = ME.with(|m| m.get());
    world().unwrap().lock().calls[me]
}

/// Unwind, as a user-supplied part may: with a payload of its own type, or with a message.
pub fn fail() -> ! {
    let shape = draw(5);
    let k = LAST_FAULT.with(|l| {
        let k = l.get().0 + 1;
        l.set((k, shape));
        k
    });
    match shape {
        0 | 1 => std::panic::panic_any(InjectedFault(k)),
        2 => std::panic::panic_any(FAILURES[k as usize % 3]),
        3 => std::panic::panic_any(format!("failure {k}")),
        _ => std::panic::resume_unwind(Box::new(InjectedFault(k))),
    }
}
/// Whether this is the payload of the failure injected last.
fn is_injected(p: &(dyn Any + Send)) -> bool {
    let (k, shape) = LAST_FAULT.with(|l| l.get());
    match shape {
        2 => p.downcast_ref::<&'static str>().is_some_and(|s| *s == FAILURES[k as usize % 3]),
        3 => p.downcast_ref::<String>().is_some_and(|s| *s == format!("failure {k}")),
        _ => p.downcast_ref::<InjectedFault>().is_some_and(|f| f.0 == k),
    }
}

pub enum Outcome<T> {
    Done(T),
    Failed, // with exactly the injected failure
}
/// Run an operation in which an injected failure may fire; any other unwinding is a violation.
pub fn attempt<T>(f: impl FnOnce() -> R<T>) -> R<Outcome<T>> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => r.map(Outcome::Done),
        Err(p) if is_injected(&*p) => Ok(Outcome::Failed),
        Err(p) => Err(panic_viol(p)),
    }
}
fn panic_viol(p: Box<dyn Any + Send>) -> Viol {
    if p.is::<StepLimit>() {
        return Viol { class: "no-termination".into(), msg: "no result within the step bound".into() };
    }
    if p.is::<crate::field::Discard>() {
        return Viol { class: "discard".into(), msg: "rational coefficients outgrew the machine type".into() };
    }
    if let Some(f) = p.downcast_ref::<crate::field::FieldMismatch>() {
        return Viol { class: "field".into(), msg: f.0.clone() };
    }
    if p.is::<InjectedFault>() || is_injected(&*p) {
        return Viol { class: "failure-again".into(), msg: "a failure injected earlier surfaced once more, in an operation that met none".into() };
    }
    let m = last_panic();
    if crate::field::native_rational() && m.contains("with overflow") {
        return Viol { class: "discard".into(), msg: "rational coefficients outgrew the machine type".into() };
    }
    let m0: String = m.split(" @ ").last().unwrap_or("").split(':').next().unwrap_or("").rsplit('/').next().unwrap_or("").into();
    Viol { class: format!("panic:{m0}"), msg: format!("unexpected panic: {m}") }
}
pub fn guard(f: impl FnOnce() -> R) -> R {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => r,
        Err(p) => Err(panic_viol(p)),
    }
}
