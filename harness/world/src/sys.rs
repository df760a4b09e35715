//! Process-level seams: allocator, randomness, fork, monitor.
use simcore::exec;
use simcore::json::J;
use simcore::sched;
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicPtr, AtomicU64, Ordering::SeqCst};
use std::time::Duration;

pub struct A;
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        sched::on_alloc();
        unsafe { System.alloc(l) }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        sched::on_alloc();
        unsafe { System.alloc_zeroed(l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        sched::on_alloc();
        unsafe { System.realloc(p, l, n) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        unsafe { System.dealloc(p, l) }
    }
}
unsafe extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, st: *mut i32, opt: i32) -> i32;
    fn pipe(fd: *mut i32) -> i32;
    fn read(fd: i32, p: *mut core::ffi::c_void, n: usize) -> isize;
    fn write(fd: i32, p: *const core::ffi::c_void, n: usize) -> isize;
    fn close(fd: i32) -> i32;
    fn _exit(c: i32) -> !;
    fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn alarm(s: u32) -> u32;
    fn syscall(n: i64, a: i64, p: *mut [i64; 2]) -> i64;
    fn chdir(p: *const u8) -> i32;
    static environ: *const *const u8;
    fn dup2(a: i32, b: i32) -> i32;
    fn setrlimit(r: i32, v: *const [u64; 2]) -> i32;
}
// ------------------------------------------------------------ randomness
static HASH: AtomicU64 = AtomicU64::new(1);
pub static HASH_USES: AtomicU64 = AtomicU64::new(0);
pub fn seed_hash(s: u64) {
    HASH.store(s, SeqCst);
}
/// std asks this for the keys of its hash maps
#[unsafe(no_mangle)]
pub extern "C" fn getrandom(p: *mut u8, n: usize, _flags: u32) -> isize {
    HASH_USES.fetch_add(1, SeqCst);
    for i in 0..n {
        let x = HASH.fetch_add(0x9e37_79b9_7f4a_7c15, SeqCst);
        let mut z = x;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        unsafe { *p.add(i) = (z >> 56) as u8 };
    }
    n as isize
}
// ------------------------------------------------------------ surroundings
// What a compiler process finds around it: environment variables, clocks and
// the current directory. Set for the sessions only.
static WORLD: AtomicU64 = AtomicU64::new(0);
static TICKS: AtomicU64 = AtomicU64::new(0);
pub static ENV_USES: AtomicU64 = AtomicU64::new(0);
pub static CLOCK_USES: AtomicU64 = AtomicU64::new(0);
pub fn seed_world(s: u64) {
    unsafe { chdir([c"/", c"/tmp", c"/usr", c"/dev"][s as usize % 4].as_ptr() as *const u8) };
    WORLD.store(s | 1, SeqCst);
}
pub fn real_world() {
    WORLD.store(0, SeqCst);
}
/// std asks this for environment variables
#[unsafe(no_mangle)]
pub unsafe extern "C" fn getenv(name: *const u8) -> *const u8 {
    let name = unsafe { std::ffi::CStr::from_ptr(name as *const _) }.to_bytes();
    let w = WORLD.load(SeqCst);
    if w != 0 && !name.starts_with(b"SIM_") && !name.starts_with(b"RUST_") {
        ENV_USES.fetch_add(1, SeqCst);
        let mut h = w.wrapping_mul(0x9e37_79b9_7f4a_7c15);
        for b in name {
            h = (h ^ *b as u64).wrapping_mul(0x0100_0000_01b3);
        }
        let v = [c"", c"1", c"0", c"structmeta", c"some_test", c"/usr/src/x", c"debug", c"release"];
        return match (h >> 33) as usize % 12 {
            i if i < v.len() => v[i].as_ptr() as *const u8,
            _ => std::ptr::null(),
        };
    }
    unsafe {
        let mut e = environ;
        while !e.is_null() && !(*e).is_null() {
            let s = std::ffi::CStr::from_ptr(*e as *const _).to_bytes();
            if s.len() > name.len() && s.starts_with(name) && s[name.len()] == b'=' {
                return (*e).add(name.len() + 1);
            }
            e = e.add(1);
        }
    }
    std::ptr::null()
}
/// std asks this for the time
#[unsafe(no_mangle)]
pub unsafe extern "C" fn clock_gettime(c: i32, t: *mut [i64; 2]) -> i32 {
    let r = unsafe { syscall(228, c as i64, t) };
    let w = WORLD.load(SeqCst);
    if w != 0 && r == 0 && matches!(c, 0 | 1 | 7) {
        CLOCK_USES.fetch_add(1, SeqCst);
        let n = TICKS.fetch_add(1 + w % 977, SeqCst) as i64;
        unsafe {
            (*t)[0] = (w % 4_000_000_000) as i64 + n;
            (*t)[1] = (w % 1_000_000_000) as i64;
        }
    }
    r as i32
}
// ------------------------------------------------------------ child processes
static SHARED: AtomicPtr<u64> = AtomicPtr::new(std::ptr::null_mut());
/// a word the child keeps up to date, to know where it died
pub fn mark(v: u64) {
    let p = SHARED.load(SeqCst);
    if !p.is_null() {
        unsafe { std::ptr::write_volatile(p, v) }
    }
}
pub fn marked() -> u64 {
    unsafe { std::ptr::read_volatile(SHARED.load(SeqCst)) }
}
pub fn init() {
    let p = unsafe { mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0) };
    SHARED.store(p as *mut u64, SeqCst);
    std::panic::set_hook(Box::new(|i| {
        if std::env::var_os("SIM_SHOW_PANICS").is_some() {
            eprintln!("{i}");
        }
    }));
    *sched::ON_BUDGET.lock().unwrap() = Some(on_budget);
    unsafe { setrlimit(4, &[0, 0]) }; // no core files
}
fn on_budget() {
    unsafe { _exit(42) }
}
pub enum End {
    /// finished normally and sent this
    Done(Vec<u8>),
    /// an operation exceeded its step budget or stopped making progress
    Hang,
    Deadlock,
    Crash(i32),
    /// the harness itself failed
    Broken(String),
}
impl End {
    pub fn name(&self) -> &'static str {
        match self {
            End::Done(_) => "done",
            End::Hang => "hang",
            End::Deadlock => "deadlock",
            End::Crash(_) => "crash",
            End::Broken(_) => "broken",
        }
    }
}
/// Runs `f` in a fresh process.
pub fn child(f: impl FnOnce() -> Vec<u8>) -> End {
    let mut fd = [0i32; 2];
    if unsafe { pipe(fd.as_mut_ptr()) } != 0 {
        return End::Broken("pipe".into());
    }
    mark(u64::MAX);
    let pid = unsafe { fork() };
    if pid < 0 {
        return End::Broken("fork".into());
    }
    if pid == 0 {
        unsafe {
            close(fd[0]);
            alarm(800);
            if std::env::var_os("SIM_SHOW_PANICS").is_none()
                && let Ok(f) = std::fs::OpenOptions::new().write(true).open("/dev/null") {
                use std::os::fd::IntoRawFd;
                dup2(f.into_raw_fd(), 2);
            }
        }
        std::thread::Builder::new().spawn(monitor).expect("monitor");
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
        let (code, out) = match r {
            Ok(v) => (0, v),
            Err(p) => (
                3,
                p.downcast_ref::<String>()
                    .cloned()
                    .or(p.downcast_ref::<&str>().map(|s| s.to_string()))
                    .unwrap_or_default()
                    .into_bytes(),
            ),
        };
        let mut at = 0;
        while at < out.len() {
            let n = unsafe { write(fd[1], out[at..].as_ptr() as _, out.len() - at) };
            if n <= 0 {
                break;
            }
            at += n as usize;
        }
        unsafe { _exit(code) }
    }
    unsafe { close(fd[1]) };
    let mut out = Vec::new();
    let mut buf = vec![0u8; 65536];
    loop {
        let n = unsafe { read(fd[0], buf.as_mut_ptr() as _, buf.len()) };
        if n <= 0 {
            break;
        }
        out.extend_from_slice(&buf[..n as usize]);
    }
    let mut st = 0;
    unsafe {
        close(fd[0]);
        waitpid(pid, &mut st, 0);
    }
    if st & 0x7f != 0 {
        return match st & 0x7f {
            // killed from outside (memory watchdog) or the last-resort alarm
            9 | 14 | 15 => End::Broken(format!("killed by signal {}", st & 0x7f)),
            s => End::Crash(s),
        };
    }
    match (st >> 8) & 0xff {
        0 => End::Done(out),
        42 => End::Hang,
        43 => End::Deadlock,
        c => End::Broken(format!("exit {c}: {}", String::from_utf8_lossy(&out))),
    }
}
pub fn child_json(f: impl FnOnce() -> J) -> Result<J, End> {
    match child(|| f().to_text().into_bytes()) {
        End::Done(v) => J::parse(&String::from_utf8_lossy(&v)).map_err(|e| End::Broken(format!("json {e}"))),
        e => Err(e),
    }
}
fn cpu_ms() -> i64 {
    let mut t = [0i64; 2];
    unsafe { clock_gettime(2, &mut t) };
    t[0] * 1000 + t[1] / 1_000_000
}
/// CPU time without any scheduling point after which an operation counts as
/// endless
pub const HANG_CPU_MS: i64 = 12_000;
fn monitor() {
    let mut last = sched::progress();
    let mut cpu = cpu_ms();
    let mut idle = 0;
    loop {
        std::thread::sleep(Duration::from_millis(10));
        let p = sched::progress();
        if p != last || !sched::active() {
            last = p;
            cpu = cpu_ms();
            idle = 0;
            continue;
        }
        if cpu_ms() - cpu > HANG_CPU_MS {
            unsafe { _exit(42) }
        }
        if !sched::holder_sleeps() {
            idle = 0;
            continue;
        }
        idle += 1;
        // asleep at four looks in a row, and no progress in between
        if idle >= 4 && sched::progress() == last && !sched::unblock() {
            // nobody can run: make sure it stays that way
            std::thread::sleep(Duration::from_millis(300));
            if sched::progress() == last && !sched::unblock() {
                unsafe { _exit(43) }
            }
        }
    }
}
pub fn current() -> Option<std::sync::Arc<simcore::op::Run>> {
    exec::CURRENT.lock().ok().and_then(|x| x.clone())
}
