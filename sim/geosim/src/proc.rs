//! Fork-based isolation: every simulated run and every solo oracle answer is computed in its own
//! process, forked from one that has never called the library.
use simrt::sys;
use std::sync::atomic::{AtomicPtr, Ordering};

#[repr(C)]
struct Head {
    done: u32,
    kind: u32,
    t: u32,
    uid: u32,
    off: u64,
    len: u64,
    progress: u64,
}
const CAP: usize = 256 << 20;
pub struct Slot {
    p: *mut u8,
}
static CUR: AtomicPtr<u8> = AtomicPtr::new(std::ptr::null_mut());

#[derive(Debug, Clone)]
pub enum End {
    Data(Vec<u8>),
    Verdict { kind: u32, t: u32, uid: u32, off: u64 },
    Signal(i32, u64),
    Exit(i32),
    /// out of real time: says nothing about the property
    Timeout,
}
fn on_verdict(kind: u32, t: u32, uid: u32, off: u64) -> ! {
    let h = CUR.load(Ordering::Relaxed) as *mut Head;
    unsafe {
        (*h).kind = kind;
        (*h).t = t;
        (*h).uid = uid;
        (*h).off = off;
        (*h).done = 2;
    }
    sys::exit_now(0)
}
/// free-form progress marker (uid being executed), readable by the parent after a crash
pub fn progress(x: u64) {
    let h = CUR.load(Ordering::Relaxed) as *mut Head;
    if !h.is_null() {
        unsafe { (*h).progress = x }
    }
}
impl Slot {
    pub fn new() -> Slot {
        unsafe {
            simrt::sched::ON_VERDICT = Some(on_verdict);
        }
        Slot { p: sys::mmap_shared(CAP) }
    }
    pub fn run(&self, f: impl FnOnce() -> Vec<u8>) -> End {
        let h = self.p as *mut Head;
        unsafe {
            *h = Head { done: 0, kind: 0, t: 0, uid: 0, off: 0, len: 0, progress: 0 };
            let pid = libc::fork();
            if pid < 0 {
                eprintln!("fork failed");
                sys::exit_now(2);
            }
            if pid == 0 {
                CUR.store(self.p, Ordering::Relaxed);
                // CPU-time limit for loops in code that is not instrumented, wall limit for
                // anything that blocks in the kernel
                let cpu = libc::itimerval { it_interval: std::mem::zeroed(), it_value: libc::timeval { tv_sec: 40, tv_usec: 0 } };
                libc::setitimer(libc::ITIMER_PROF, &cpu, std::ptr::null_mut());
                libc::alarm(150);
                let v = f();
                if v.len() + 128 > CAP {
                    sys::exit_now(96);
                }
                std::ptr::copy_nonoverlapping(v.as_ptr(), self.p.add(128), v.len());
                (*h).len = v.len() as u64;
                (*h).done = 1;
                sys::exit_now(0);
            }
            let mut st = 0;
            loop {
                let r = libc::waitpid(pid, &mut st, 0);
                if r == pid {
                    break;
                }
            }
            if libc::WIFSIGNALED(st) {
                let s = libc::WTERMSIG(st);
                if s == libc::SIGPROF || s == libc::SIGALRM {
                    return End::Timeout;
                }
                return End::Signal(s, (*h).progress);
            }
            match (*h).done {
                1 => End::Data(std::slice::from_raw_parts(self.p.add(128), (*h).len as usize).to_vec()),
                2 => End::Verdict { kind: (*h).kind, t: (*h).t, uid: (*h).uid, off: (*h).off },
                _ => End::Exit(libc::WEXITSTATUS(st)),
            }
        }
    }
}
