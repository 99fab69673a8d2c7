//! One process per case: the engine under test keeps global state, so every generated case runs in
//! a fork of the (single-threaded) worker and reports through a pipe.
use std::io::Write;
use std::os::fd::{AsRawFd, FromRawFd};
use std::sync::atomic::{AtomicI32, AtomicPtr, AtomicU64, Ordering::SeqCst};

use serde::{Deserialize, Serialize};

use crate::backends::Store;
use crate::jobs::Rec;

#[derive(Serialize, Deserialize, Debug)]
pub enum Outcome {
    Log { log: Vec<Rec>, steps: u64 },
    Crashed { log: Vec<Rec>, store: Store, vnow: u64 },
    Val(serde_json::Value),
}

#[derive(Debug, Clone, PartialEq)]
pub enum ForkErr {
    /// used up its CPU budget: the code under test spins
    Spins,
    /// the process was killed or exited without an answer
    Died(String),
    /// no answer in wall-clock time (inconclusive)
    Timeout,
}

static OUT: AtomicI32 = AtomicI32::new(-1);

/// CPU seconds granted to one case (they normally take milliseconds)
pub const CPU_LIMIT_S: u64 = 25;
const WALL_LIMIT_S: u64 = 150;

/// Report from inside the case process and end it.
pub fn finish(o: &Outcome) -> ! {
    let fd = OUT.swap(-1, SeqCst);
    if fd >= 0 {
        let v = serde_json::to_vec(o).unwrap_or_default();
        let mut f = unsafe { std::fs::File::from_raw_fd(fd) };
        let _ = f.write_all(&v);
        let _ = f.flush();
        unsafe { libc::_exit(0) }
    }
    // another thread is already reporting
    loop {
        std::thread::park();
    }
}

/// What the worker is doing, for the process that watches it: number of the search, number of the
/// case, counter, 1 while it waits for another process.
static PROGRESS: AtomicPtr<AtomicU64> = AtomicPtr::new(std::ptr::null_mut());
pub const SLOTS: usize = 4;

pub fn map_progress(path: &str, create: bool) -> Option<&'static [AtomicU64]> {
    let f = std::fs::OpenOptions::new().read(true).write(true).create(create).truncate(false).open(path).ok()?;
    let len = SLOTS * 8;
    f.set_len(len as u64).ok()?;
    unsafe {
        let m = libc::mmap(std::ptr::null_mut(), len, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0);
        if m == libc::MAP_FAILED {
            return None;
        }
        if create {
            PROGRESS.store(m as *mut AtomicU64, SeqCst);
        }
        Some(std::slice::from_raw_parts(m as *const AtomicU64, SLOTS))
    }
}
pub fn note(slot: usize, v: u64) {
    let p = PROGRESS.load(SeqCst);
    if !p.is_null() {
        unsafe { (*p.add(slot)).store(v, SeqCst) }
    }
}
pub fn bump() {
    let p = PROGRESS.load(SeqCst);
    if !p.is_null() {
        unsafe { (*p.add(2)).fetch_add(1, SeqCst) };
    }
}

/// The virtual clock of the case process, as seen by the worker.
static CLOCK: AtomicPtr<AtomicU64> = AtomicPtr::new(std::ptr::null_mut());
fn clock() -> Option<&'static AtomicU64> {
    unsafe { CLOCK.load(SeqCst).as_ref() }
}
pub fn show_clock(t: u64) {
    if let Some(c) = clock() {
        c.store(t, SeqCst);
    }
}
fn map_clock() {
    if clock().is_none() {
        let m = unsafe { libc::mmap(std::ptr::null_mut(), 8, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0) };
        if m != libc::MAP_FAILED {
            CLOCK.store(m as *mut AtomicU64, SeqCst);
        }
    }
    show_clock(0);
}
/// A case process whose virtual clock moved this recently was slow, it did not spin.
const RECENT_S: u64 = 8;

/// While it lives, the worker waits for another process.
pub struct Waiting;
impl Waiting {
    pub fn new() -> Self {
        note(3, 1);
        Waiting
    }
}
impl Drop for Waiting {
    fn drop(&mut self) {
        note(3, 0);
    }
}

pub fn run<F: FnOnce() -> Outcome>(f: F) -> Result<Outcome, ForkErr> {
    let _waiting = Waiting::new();
    run_limited(f, CPU_LIMIT_S, WALL_LIMIT_S, None)
}

pub fn run_limited<F: FnOnce() -> Outcome>(f: F, cpu_s: u64, wall_s: u64, memory: Option<u64>) -> Result<Outcome, ForkErr> {
    map_clock();
    unsafe {
        let mut fds = [0i32; 2];
        if libc::pipe(fds.as_mut_ptr()) != 0 {
            return Err(ForkErr::Timeout);
        }
        let pid = libc::fork();
        if pid < 0 {
            libc::close(fds[0]);
            libc::close(fds[1]);
            return Err(ForkErr::Timeout);
        }
        if pid == 0 {
            libc::close(fds[0]);
            // die with the worker, and never outlive the budget
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            PROGRESS.store(std::ptr::null_mut(), SeqCst);
            if let Some(m) = memory {
                let lim = libc::rlimit { rlim_cur: m, rlim_max: m };
                libc::setrlimit(libc::RLIMIT_AS, &lim);
            }
            let lim = libc::rlimit { rlim_cur: cpu_s, rlim_max: cpu_s + 1 };
            libc::setrlimit(libc::RLIMIT_CPU, &lim);
            let core = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &core);
            let null = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
            libc::dup2(null, 1);
            if std::env::var_os("AJV_STDERR").is_none() {
                libc::dup2(null, 2);
            }
            OUT.store(fds[1], SeqCst);
            let o = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
                Ok(o) => o,
                Err(_) => {
                    crate::engine::abort_case("panic on the client side");
                }
            };
            finish(&o);
        }
        libc::close(fds[1]);
        let mut buf = Vec::new();
        let start = std::time::Instant::now();
        let mut chunk = vec![0u8; 1 << 16];
        let mut timed_out = false;
        let mut seen = (0u64, std::time::Instant::now());
        loop {
            let t = clock().map_or(0, |c| c.load(SeqCst));
            if t != seen.0 {
                seen = (t, std::time::Instant::now());
            }
            let left = wall_s as i128 * 1000 - start.elapsed().as_millis() as i128;
            if left <= 0 {
                timed_out = true;
                break;
            }
            let mut p = libc::pollfd { fd: fds[0], events: libc::POLLIN, revents: 0 };
            let r = libc::poll(&mut p, 1, left.min(1000) as i32);
            if r <= 0 {
                continue;
            }
            let n = libc::read(fds[0], chunk.as_mut_ptr() as *mut _, chunk.len());
            if n <= 0 {
                break;
            }
            buf.extend_from_slice(&chunk[..n as usize]);
        }
        libc::close(fds[0]);
        if timed_out {
            libc::kill(pid, libc::SIGKILL);
        }
        let mut st = 0;
        libc::waitpid(pid, &mut st, 0);
        if timed_out {
            return Err(ForkErr::Timeout);
        }
        if libc::WIFSIGNALED(st) {
            let s = libc::WTERMSIG(st);
            if s == libc::SIGXCPU && seen.0 > 0 && seen.1.elapsed().as_secs() < RECENT_S {
                return Err(ForkErr::Timeout);
            }
            if s == libc::SIGXCPU {
                return Err(ForkErr::Spins);
            }
            if s == libc::SIGKILL {
                // memory pressure or CPU hard limit; do not guess
                return Err(ForkErr::Timeout);
            }
            return Err(ForkErr::Died(format!("signal {s}")));
        }
        match serde_json::from_slice(&buf) {
            Ok(o) => Ok(o),
            Err(e) => Err(ForkErr::Died(format!("exit status {st}, {} bytes: {e}", buf.len()))),
        }
    }
}
