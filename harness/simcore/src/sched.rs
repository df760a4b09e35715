//! Cooperative scheduler over real OS threads: exactly one task holds the
//! baton; who gets it next is decided by an explicit decision list. Yield
//! points: every callback into a field parser, peek or renderer, and chosen
//! heap allocations (through the allocator seam). The allocation counter also
//! serves as the step budget of an operation.
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::{Condvar, Mutex, MutexGuard};

pub const NONE: usize = usize::MAX;
pub struct State {
    active: bool,
    current: usize,
    done: Vec<bool>,
    blocked: Vec<bool>,
    /// waits for the baton
    waiting: Vec<bool>,
    tid: Vec<i32>,
    started: usize,
    decisions: Vec<u8>,
    pos: usize,
    /// (task, yields so far) at every switch
    pub trace: u64,
    pub switches: u64,
    pub alloc_switches: u64,
    yields: u64,
    pub forced: u64,
}
static STATE: Mutex<State> = Mutex::new(State {
    active: false,
    current: NONE,
    done: Vec::new(),
    blocked: Vec::new(),
    waiting: Vec::new(),
    tid: Vec::new(),
    started: 0,
    decisions: Vec::new(),
    pos: 0,
    trace: 0,
    switches: 0,
    alloc_switches: 0,
    yields: 0,
    forced: 0,
});
static CV: Condvar = Condvar::new();
static PROGRESS: AtomicU64 = AtomicU64::new(0);
static ACTIVE: AtomicBool = AtomicBool::new(false);
pub static ALLOC_BUDGET: AtomicU64 = AtomicU64::new(3_000_000);
/// called when the step budget of an operation is exhausted; must not return
pub static ON_BUDGET: Mutex<Option<fn()>> = Mutex::new(None);
static CUR_TASK: AtomicUsize = AtomicUsize::new(NONE);

thread_local! {
    static TASK: Cell<usize> = const { Cell::new(NONE) };
    static IN_OP: Cell<bool> = const { Cell::new(false) };
    static SIM: Cell<u32> = const { Cell::new(0) };
    static ALLOCS: Cell<u64> = const { Cell::new(0) };
    static GAP_PTR: Cell<*const u32> = const { Cell::new(std::ptr::null()) };
    static GAP_LEN: Cell<usize> = const { Cell::new(0) };
    static GAP_NEXT: Cell<u64> = const { Cell::new(u64::MAX) };
    static YALLOCS: Cell<u64> = const { Cell::new(0) };
}
unsafe extern "C" {
    fn gettid() -> i32;
}
fn lock() -> MutexGuard<'static, State> {
    STATE.lock().unwrap_or_else(|e| e.into_inner())
}
/// While alive, allocations on this thread are the simulator's own.
pub struct Sim;
impl Sim {
    pub fn new() -> Sim {
        let _ = SIM.try_with(|s| s.set(s.get() + 1));
        Sim
    }
}
impl Default for Sim {
    fn default() -> Self {
        Sim::new()
    }
}
impl Drop for Sim {
    fn drop(&mut self) {
        let _ = SIM.try_with(|s| s.set(s.get() - 1));
    }
}
/// Code outside the simulator's own, run from within it.
pub fn outside_sim<R>(f: impl FnOnce() -> R) -> R {
    struct R0(u32);
    impl Drop for R0 {
        fn drop(&mut self) {
            SIM.with(|s| s.set(self.0));
        }
    }
    let _r = R0(SIM.with(|s| s.replace(0)));
    f()
}
/// From the global allocator.
#[inline]
pub fn on_alloc() {
    let _ = IN_OP.try_with(|f| {
        if f.get() && SIM.with(|s| s.get()) == 0 {
            slow_alloc();
        }
    });
}
#[cold]
fn slow_alloc() {
    let n = ALLOCS.with(|a| {
        a.set(a.get() + 1);
        a.get()
    });
    if n > ALLOC_BUDGET.load(SeqCst) {
        let _s = Sim::new();
        ALLOCS.with(|a| a.set(0));
        let f = *ON_BUDGET.lock().unwrap_or_else(|e| e.into_inner());
        if let Some(f) = f {
            f();
        }
        std::process::exit(42);
    }
    let y = YALLOCS.with(|a| {
        a.set(a.get() + 1);
        a.get()
    });
    if y >= GAP_NEXT.with(|g| g.get()) {
        let _s = Sim::new();
        next_gap(y);
        point(true);
    }
}
fn next_gap(now: u64) {
    let len = GAP_LEN.with(|l| l.get());
    if len == 0 {
        GAP_NEXT.with(|g| g.set(u64::MAX));
        return;
    }
    let p = GAP_PTR.with(|p| p.get());
    let v = unsafe { *p };
    GAP_PTR.with(|q| q.set(unsafe { p.add(1) }));
    GAP_LEN.with(|l| l.set(len - 1));
    GAP_NEXT.with(|g| g.set(now + 1 + v as u64));
}
/// Step budget of one operation.
pub fn op_begin() -> (bool, u64) {
    (
        IN_OP.with(|f| f.replace(true)),
        ALLOCS.with(|a| a.replace(0)),
    )
}
pub fn op_end(prev: (bool, u64)) -> u64 {
    IN_OP.with(|f| f.set(prev.0));
    ALLOCS.with(|a| a.replace(prev.1))
}
/// A callback yield point.
pub fn yield_point() {
    PROGRESS.fetch_add(1, SeqCst);
    if ACTIVE.load(SeqCst) {
        let _s = Sim::new();
        point(false);
    }
}
fn runnable(s: &State, except: usize) -> Vec<usize> {
    (0..s.done.len())
        .filter(|i| *i != except && !s.done[*i] && !s.blocked[*i])
        .collect()
}
fn decide(s: &mut State) -> u8 {
    let d = s.decisions.get(s.pos).copied().unwrap_or(0);
    s.pos += 1;
    d
}
fn note(s: &mut State, to: usize, kind: u64) {
    s.switches += 1;
    s.trace = crate::rng::fnv(crate::rng::fnv(s.trace, s.yields), (to as u64) << 2 | kind);
}
fn point(alloc: bool) {
    let me = TASK.with(|t| t.get());
    if me == NONE {
        return;
    }
    PROGRESS.fetch_add(1, SeqCst);
    let mut s = lock();
    if !s.active {
        return;
    }
    s.yields += 1;
    if s.current != me {
        // the monitor took the baton away while this task was blocked
        s.blocked[me] = false;
        if s.current == NONE {
            s.current = me;
            CUR_TASK.store(me, SeqCst);
        }
    } else {
        let r = runnable(&s, me);
        if !r.is_empty() {
            let mut d = decide(&mut s) as usize;
            if alloc && d == 0 {
                d = 1;
            }
            if d > 0 {
                let to = r[(d - 1) % r.len()];
                if alloc {
                    s.alloc_switches += 1;
                }
                note(&mut s, to, alloc as u64);
                s.current = to;
                CUR_TASK.store(to, SeqCst);
                CV.notify_all();
            }
        }
    }
    wait_turn(s, me);
}
fn wait_turn(mut s: MutexGuard<'static, State>, me: usize) {
    while s.current != me {
        s.waiting[me] = true;
        s = CV.wait(s).unwrap_or_else(|e| e.into_inner());
    }
    s.waiting[me] = false;
    PROGRESS.fetch_add(1, SeqCst);
}
/// Prepare a run of `n` tasks.
pub fn begin(n: usize, decisions: &[u8]) {
    let mut s = lock();
    s.active = true;
    s.current = NONE;
    CUR_TASK.store(NONE, SeqCst);
    s.done = vec![false; n];
    s.blocked = vec![false; n];
    s.waiting = vec![false; n];
    s.tid = vec![0; n];
    s.started = 0;
    s.decisions = decisions.to_vec();
    s.pos = 0;
    s.trace = crate::rng::FNV0;
    s.switches = 0;
    s.alloc_switches = 0;
    s.yields = 0;
    s.forced = 0;
    ACTIVE.store(true, SeqCst);
}
pub struct Stats {
    pub trace: u64,
    pub switches: u64,
    pub alloc_switches: u64,
    pub forced: u64,
    pub yields: u64,
}
pub fn end() -> Stats {
    let mut s = lock();
    s.active = false;
    ACTIVE.store(false, SeqCst);
    Stats {
        trace: s.trace,
        switches: s.switches,
        alloc_switches: s.alloc_switches,
        forced: s.forced,
        yields: s.yields,
    }
}
/// On the task's thread: wait for the baton for the first time.
pub fn enter(me: usize, gaps: &[u32]) {
    let _s = Sim::new();
    TASK.with(|t| t.set(me));
    GAP_PTR.with(|p| p.set(gaps.as_ptr()));
    GAP_LEN.with(|l| l.set(gaps.len()));
    YALLOCS.with(|a| a.set(0));
    next_gap(0);
    let mut s = lock();
    s.tid[me] = unsafe { gettid() };
    s.started += 1;
    if s.started == s.done.len() {
        let n = s.done.len();
        let d = decide(&mut s) as usize % n;
        s.current = d;
        CUR_TASK.store(d, SeqCst);
        CV.notify_all();
    }
    wait_turn(s, me);
}
/// On the task's thread: finished, pass the baton on.
pub fn leave(me: usize) {
    let _s = Sim::new();
    GAP_NEXT.with(|g| g.set(u64::MAX));
    let mut s = lock();
    TASK.with(|t| t.set(NONE));
    s.done[me] = true;
    s.blocked[me] = false;
    if s.current == me {
        let r = runnable(&s, me);
        s.current = if r.is_empty() {
            NONE
        } else {
            let d = decide(&mut s) as usize % r.len();
            note(&mut s, r[d], 2);
            r[d]
        };
        CUR_TASK.store(s.current, SeqCst);
        CV.notify_all();
    }
}
/// a run is in progress
pub fn active() -> bool {
    ACTIVE.load(SeqCst)
}
pub fn progress() -> u64 {
    PROGRESS.load(SeqCst)
}
fn sleeping(tid: i32) -> bool {
    let st = std::fs::read_to_string(format!("/proc/self/task/{tid}/stat")).unwrap_or_default();
    st.rsplit(')').next().is_some_and(|x| x.trim_start().starts_with('S'))
}
/// Does the baton holder sleep in something the simulator does not own? Looks
/// without holding any of the simulator's locks.
pub fn holder_sleeps() -> bool {
    let tid = {
        let s = lock();
        if !s.active {
            return false;
        }
        if s.current == NONE {
            return true;
        }
        if s.waiting[s.current] {
            return false;
        }
        s.tid[s.current]
    };
    sleeping(tid)
}
/// Called by the monitor when the baton holder sleeps in a lock the simulator
/// does not own: let another task run. Returns false if nobody can run
/// (deadlock).
pub fn unblock() -> bool {
    let mut s = lock();
    if !s.active || s.current == NONE {
        // every unfinished task is blocked outside the simulator
        return !(s.active
            && s.started == s.done.len()
            && s.done.iter().zip(&s.blocked).any(|(d, b)| !d && *b)
            && s.done.iter().zip(&s.blocked).all(|(d, b)| *d || *b));
    }
    let c = s.current;
    if s.waiting[c] {
        return true;
    }
    s.forced += 1;
    s.blocked[c] = true;
    let r = runnable(&s, c);
    s.current = r.first().copied().unwrap_or(NONE);
    CUR_TASK.store(s.current, SeqCst);
    let dead = s.current == NONE;
    CV.notify_all();
    !dead
}
/// A thread of the simulated process; its name is part of the surroundings.
pub fn thread(world: u64) -> std::thread::Builder {
    let b = std::thread::Builder::new().stack_size(16 << 20);
    let names = ["", "main", "rustc", "w", "proc-macro-server", "opt cgu.0", "tests::it"];
    match names[(world >> 8) as usize % names.len()] {
        "" => b,
        n => b.name(n.into()),
    }
}
