//! Deterministic simulation by libc interposition.
//!
//! When enabled (only inside a forked case process) this module owns
//!   * the clocks      -- `clock_gettime` (REALTIME and MONOTONIC families) reads a virtual clock,
//!   * blocking        -- `epoll_wait` with a non-zero timeout and `nanosleep`/`clock_nanosleep`
//!                        park the calling thread in the scheduler below,
//!   * thread creation -- `pthread_create` registers every new thread.
//! At most one registered thread runs at a time (a freshly created thread also runs until its
//! first park). When every thread is parked, one runnable thread is picked by a seeded PRNG; when
//! none is runnable, the virtual clock jumps to the next deadline. Nothing in the code under test
//! is changed for this: it is driven through its public API on the real actix/tokio runtimes.

use std::cell::Cell;
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, Ordering::SeqCst};
use std::sync::{Condvar, Mutex, MutexGuard};
use std::task::Waker;

use libc::{c_int, c_long, c_void, clockid_t, pthread_attr_t, pthread_t, timespec};

static ENABLED: AtomicBool = AtomicBool::new(false);
/// virtual nanoseconds since the simulation started
static VNOW: AtomicU64 = AtomicU64::new(0);
/// virtual unix time (ns) at simulation start
static REAL_BASE: AtomicI64 = AtomicI64::new(0);
const MONO_BASE: u64 = 1_000_000_000_000;

#[derive(Clone, Copy, PartialEq, Debug)]
enum St {
    /// chosen by the scheduler, not yet awake
    Granted,
    Running,
    /// found waiting in the kernel for another thread (a lock, a join, a channel)
    Blocked,
    Parked { epfd: i32, deadline: Option<u64> },
    Dead,
}

struct State {
    threads: Vec<St>,
    tids: Vec<i32>,
    timers: BTreeMap<(u64, u64), Waker>,
    timer_seq: u64,
    rng: u64,
    steps: u64,
    /// steps taken without the clock moving
    same: u64,
}

/// Scheduling steps granted to one case; longer ones are cut off and judged as far as they got.
pub const MAX_STEPS: u64 = 150_000;
/// Steps within one virtual instant beyond which the system is said to spin.
const MAX_SAME: u64 = 60_000;

static STATE: Mutex<Option<State>> = Mutex::new(None);
static CV: Condvar = Condvar::new();
type DeadlockFn = fn(&str) -> !;
static ON_STUCK: Mutex<Option<DeadlockFn>> = Mutex::new(None);

thread_local! {
    static ME: Cell<usize> = const { Cell::new(usize::MAX) };
    static UNTRACKED_SPAWN: Cell<bool> = const { Cell::new(false) };
    /// this thread's start, modulo 1 ms: its runtime's timers fire on this phase
    static PHASE: Cell<u64> = const { Cell::new(0) };
}

fn lock() -> MutexGuard<'static, Option<State>> {
    STATE.lock().unwrap_or_else(|e| e.into_inner())
}

fn next_rand(s: &mut State) -> u64 {
    s.rng = s.rng.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = s.rng;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

/// Turn the simulation on for this process; the calling thread becomes thread 0.
pub fn enable(sched_seed: u64, real_base_ns: i64, on_stuck: DeadlockFn) {
    *lock() = Some(State {
        threads: vec![St::Running],
        tids: vec![gettid()],
        timers: BTreeMap::new(),
        timer_seq: 0,
        rng: sched_seed,
        steps: 0,
        same: 0,
    });
    *ON_STUCK.lock().unwrap() = Some(on_stuck);
    REAL_BASE.store(real_base_ns, SeqCst);
    VNOW.store(0, SeqCst);
    ME.with(|m| m.set(0));
    ENABLED.store(true, SeqCst);
    spawn_untracked(watchdog);
}

fn gettid() -> i32 {
    unsafe { libc::syscall(libc::SYS_gettid) as i32 }
}

fn real_sleep_ms(ms: i64) {
    let ts = timespec { tv_sec: ms / 1000, tv_nsec: (ms % 1000) * 1_000_000 };
    unsafe {
        libc::syscall(libc::SYS_nanosleep, &ts as *const timespec, std::ptr::null::<timespec>());
    }
}

fn in_futex(tid: i32) -> bool {
    std::fs::read_to_string(format!("/proc/self/task/{tid}/syscall"))
        .map(|s| s.starts_with(&format!("{} ", libc::SYS_futex)))
        .unwrap_or(false)
}

/// A registered thread may block in the kernel on another one (join, lock, channel) without
/// parking here. When nothing moves for a while and every running thread sits in a futex wait,
/// let the others go on.
fn watchdog() {
    let mut last = (u64::MAX, vec![]);
    let mut same = 0;
    let mut main_blocked = 0;
    loop {
        real_sleep_ms(25);
        let mut g = lock();
        let Some(s) = g.as_mut() else { continue };
        if s.threads[0] == St::Blocked {
            main_blocked += 1;
            if main_blocked > 400 {
                let f = *ON_STUCK.lock().unwrap();
                drop(g);
                if let Some(f) = f {
                    f("the client thread is blocked inside a call");
                }
                std::process::abort();
            }
        } else {
            main_blocked = 0;
        }
        if s.threads.iter().any(|t| *t == St::Granted) {
            same = 0;
            continue;
        }
        let running: Vec<usize> = (0..s.threads.len()).filter(|i| s.threads[*i] == St::Running).collect();
        let cur = (s.steps, running.clone());
        if running.is_empty() || cur != last || !running.iter().all(|i| in_futex(s.tids[*i])) {
            last = cur;
            same = 0;
            continue;
        }
        same += 1;
        if same >= 3 {
            same = 0;
            for i in running {
                s.threads[i] = St::Blocked;
            }
            let g = schedule(g);
            drop(g);
        }
    }
}

/// virtual ns since start
pub fn now() -> u64 {
    VNOW.load(SeqCst)
}
/// virtual unix time in ns
pub fn unix_ns() -> i64 {
    REAL_BASE.load(SeqCst) + VNOW.load(SeqCst) as i64
}
/// scheduling decisions taken so far
pub fn steps() -> u64 {
    lock().as_ref().map(|s| s.steps).unwrap_or(0)
}

/// Spawn a helper thread the scheduler does not know about (servers for fake services).
pub fn spawn_untracked<F: FnOnce() + Send + 'static>(f: F) {
    UNTRACKED_SPAWN.with(|u| u.set(true));
    std::thread::spawn(f);
    UNTRACKED_SPAWN.with(|u| u.set(false));
}

/// A timer with nanosecond precision on the virtual clock (tokio's has 1 ms precision).
pub struct SleepUntil {
    at: u64,
    armed: bool,
}
pub fn sleep_until(at: u64) -> SleepUntil {
    SleepUntil { at, armed: false }
}
pub fn sleep_ns(d: u64) -> SleepUntil {
    sleep_until(now() + d)
}
impl std::future::Future for SleepUntil {
    type Output = ();
    fn poll(
        mut self: std::pin::Pin<&mut Self>,
        cx: &mut std::task::Context<'_>,
    ) -> std::task::Poll<()> {
        if now() >= self.at {
            return std::task::Poll::Ready(());
        }
        let mut g = lock();
        let s = g.as_mut().expect("simulation not enabled");
        let seq = s.timer_seq;
        s.timer_seq += 1;
        s.timers.insert((self.at, seq), cx.waker().clone());
        self.armed = true;
        std::task::Poll::Pending
    }
}

fn fd_ready(fd: i32) -> bool {
    if fd < 0 {
        return false;
    }
    let mut p = libc::pollfd { fd, events: libc::POLLIN, revents: 0 };
    unsafe { libc::syscall(libc::SYS_poll, &mut p as *mut _, 1 as c_long, 0 as c_long) > 0 }
}

/// Called with the lock held whenever a thread parks or dies.
fn schedule(mut g: MutexGuard<'static, Option<State>>) -> MutexGuard<'static, Option<State>> {
    loop {
        let s = g.as_mut().unwrap();
        if s.threads.iter().any(|t| matches!(t, St::Running | St::Granted)) {
            return g;
        }
        let vnow = VNOW.load(SeqCst);
        let mut runnable = vec![];
        let mut min_deadline: Option<u64> = None;
        for (i, t) in s.threads.iter().enumerate() {
            if let St::Parked { epfd, deadline } = t {
                let due = deadline.map(|d| d <= vnow).unwrap_or(false);
                if due || fd_ready(*epfd) {
                    runnable.push(i);
                }
                if let Some(d) = deadline {
                    min_deadline = Some(min_deadline.map_or(*d, |m: u64| m.min(*d)));
                }
            }
        }
        if !runnable.is_empty() {
            let k = if runnable.len() == 1 { 0 } else { (next_rand(s) % runnable.len() as u64) as usize };
            s.threads[runnable[k]] = St::Granted;
            s.steps += 1;
            s.same += 1;
            if s.same > MAX_SAME {
                let f = *ON_STUCK.lock().unwrap();
                drop(g);
                if let Some(f) = f {
                    f("livelock: the threads keep waking each other without time passing");
                }
                std::process::abort();
            }
            if s.steps > MAX_STEPS {
                drop(g);
                crate::engine::cut_case();
            }
            CV.notify_all();
            return g;
        }
        if let Some((&(t, _), _)) = s.timers.iter().next() {
            min_deadline = Some(min_deadline.map_or(t, |m| m.min(t)));
        }
        match min_deadline {
            Some(d) => {
                if d > vnow {
                    s.same = 0;
                    VNOW.store(d, SeqCst);
                    crate::forked::show_clock(d);
                }
                // fire harness timers that are due (their wakers write an eventfd)
                let mut due = vec![];
                while let Some((&(t, q), _)) = s.timers.iter().next() {
                    if t > d.max(vnow) {
                        break;
                    }
                    due.push(s.timers.remove(&(t, q)).unwrap());
                }
                drop(g);
                for w in due {
                    w.wake();
                }
                g = lock();
            }
            None => {
                let f = *ON_STUCK.lock().unwrap();
                drop(g);
                match f {
                    Some(f) => f("every thread is parked and no timer is armed"),
                    None => std::process::abort(),
                }
            }
        }
    }
}

fn park(epfd: i32, deadline: Option<u64>) {
    let me = ME.with(|m| m.get());
    let mut g = lock();
    g.as_mut().unwrap().threads[me] = St::Parked { epfd, deadline };
    g = schedule(g);
    while g.as_ref().unwrap().threads[me] != St::Granted {
        g = CV.wait(g).unwrap_or_else(|e| e.into_inner());
    }
    g.as_mut().unwrap().threads[me] = St::Running;
}

fn tracked() -> bool {
    ENABLED.load(SeqCst) && ME.try_with(|m| m.get()).unwrap_or(usize::MAX) != usize::MAX
}

unsafe fn real_epoll_wait(epfd: c_int, ev: *mut libc::epoll_event, max: c_int, timeout: c_int) -> c_int {
    let r = libc::syscall(
        libc::SYS_epoll_pwait,
        epfd as c_long,
        ev,
        max as c_long,
        timeout as c_long,
        std::ptr::null::<c_void>(),
        8usize,
    );
    r as c_int
}

#[no_mangle]
pub unsafe extern "C" fn epoll_wait(
    epfd: c_int,
    ev: *mut libc::epoll_event,
    max: c_int,
    timeout: c_int,
) -> c_int {
    if timeout == 0 || !tracked() {
        return real_epoll_wait(epfd, ev, max, timeout);
    }
    // tokio's timers fire on whole milliseconds of its clock, but it computes the timeout from the
    // floor of the current time: wake exactly on the millisecond, as a precise kernel timer would
    let phase = PHASE.with(|p| p.get());
    let deadline = if timeout < 0 { None } else { Some(((now() - phase) / 1_000_000 + timeout as u64) * 1_000_000 + phase) };
    park(epfd, deadline);
    real_epoll_wait(epfd, ev, max, 0)
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: clockid_t, ts: *mut timespec) -> c_int {
    if ENABLED.load(SeqCst) {
        match clk {
            libc::CLOCK_REALTIME | libc::CLOCK_REALTIME_COARSE | libc::CLOCK_TAI => {
                let n = unix_ns();
                (*ts).tv_sec = n.div_euclid(1_000_000_000);
                (*ts).tv_nsec = n.rem_euclid(1_000_000_000);
                return 0;
            }
            libc::CLOCK_MONOTONIC
            | libc::CLOCK_MONOTONIC_RAW
            | libc::CLOCK_MONOTONIC_COARSE
            | libc::CLOCK_BOOTTIME => {
                let n = MONO_BASE + now();
                (*ts).tv_sec = (n / 1_000_000_000) as i64;
                (*ts).tv_nsec = (n % 1_000_000_000) as i64;
                return 0;
            }
            _ => {}
        }
    }
    libc::syscall(libc::SYS_clock_gettime, clk as c_long, ts) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const timespec, rem: *mut timespec) -> c_int {
    if tracked() {
        park(-1, Some(now() + (*req).tv_sec as u64 * 1_000_000_000 + (*req).tv_nsec as u64));
        return 0;
    }
    libc::syscall(libc::SYS_nanosleep, req, rem) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(
    clk: clockid_t,
    flags: c_int,
    req: *const timespec,
    rem: *mut timespec,
) -> c_int {
    if tracked() {
        let t = (*req).tv_sec as i128 * 1_000_000_000 + (*req).tv_nsec as i128;
        let at = if flags & libc::TIMER_ABSTIME == 0 {
            now() as i128 + t
        } else if clk == libc::CLOCK_REALTIME {
            t - REAL_BASE.load(SeqCst) as i128
        } else {
            t - MONO_BASE as i128
        };
        park(-1, Some(at.max(0) as u64));
        return 0;
    }
    let r = libc::syscall(libc::SYS_clock_nanosleep, clk as c_long, flags as c_long, req, rem);
    if r == 0 { 0 } else { *libc::__errno_location() }
}

type StartFn = extern "C" fn(*mut c_void) -> *mut c_void;
type PthreadCreate =
    unsafe extern "C" fn(*mut pthread_t, *const pthread_attr_t, StartFn, *mut c_void) -> c_int;

struct Tramp {
    start: StartFn,
    arg: *mut c_void,
    slot: usize,
}

extern "C" fn trampoline(p: *mut c_void) -> *mut c_void {
    let t = unsafe { Box::from_raw(p as *mut Tramp) };
    ME.with(|m| m.set(t.slot));
    PHASE.with(|p| p.set(now() % 1_000_000));
    lock().as_mut().unwrap().tids[t.slot] = gettid();
    let r = (t.start)(t.arg);
    let mut g = lock();
    g.as_mut().unwrap().threads[t.slot] = St::Dead;
    ME.with(|m| m.set(usize::MAX));
    let g = schedule(g);
    drop(g);
    r
}

#[no_mangle]
pub unsafe extern "C" fn pthread_create(
    t: *mut pthread_t,
    attr: *const pthread_attr_t,
    start: StartFn,
    arg: *mut c_void,
) -> c_int {
    let sym = libc::dlsym(libc::RTLD_NEXT, c"pthread_create".as_ptr());
    let real: PthreadCreate = std::mem::transmute(sym);
    if !ENABLED.load(SeqCst) || UNTRACKED_SPAWN.with(|u| u.get()) {
        return real(t, attr, start, arg);
    }
    let slot = {
        let mut g = lock();
        let s = g.as_mut().unwrap();
        s.threads.push(St::Running);
        s.tids.push(0);
        s.threads.len() - 1
    };
    let b = Box::into_raw(Box::new(Tramp { start, arg, slot }));
    let r = real(t, attr, trampoline, b as *mut c_void);
    if r != 0 {
        lock().as_mut().unwrap().threads[slot] = St::Dead;
    }
    r
}
