//! Operating-system seams: these symbols take precedence over libc's in this program, so the
//! standard library's locks, clocks, sleeps, randomness and environment reads - and anything the
//! library under test would build on them - go through the simulator while a simulated thread
//! runs, and straight to the kernel otherwise.
use crate::rng::hash2;
use crate::sched::{self, with_ctl};
use crate::sys::sc6;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::os::raw::{c_char, c_int, c_long, c_void};

unsafe fn ret(r: i64) -> c_long {
    if r < 0 && r > -4096 {
        *libc::__errno_location() = -r as i32;
        -1
    } else {
        r
    }
}

#[no_mangle]
pub unsafe extern "C" fn syscall(n: c_long, a: c_long, b: c_long, c: c_long, d: c_long, e: c_long, f: c_long) -> c_long {
    if sched::in_sim() {
        if n == libc::SYS_futex {
            let op = (b as i32) & 0x7f;
            let addr = a as usize;
            if op == libc::FUTEX_WAIT || op == libc::FUTEX_WAIT_BITSET {
                let v = std::ptr::read_volatile(addr as *const u32);
                if v != c as u32 {
                    return ret(-(libc::EAGAIN as i64));
                }
                let until = if d != 0 {
                    let ts = &*(d as *const libc::timespec);
                    let ns = ts.tv_sec as u64 * 1_000_000_000 + ts.tv_nsec as u64;
                    if op == libc::FUTEX_WAIT {
                        with_ctl(|c| c.vclock).unwrap().saturating_add(ns)
                    } else {
                        ns
                    }
                } else {
                    u64::MAX
                };
                if FOREIGN.load(Ordering::Relaxed) {
                    // whoever wakes us may be a thread the simulator does not schedule: let the
                    // others run, wait a little for real, and look again
                    let now = with_ctl(|c| c.vclock).unwrap();
                    sched::block(addr, until.min(now + 1000));
                    let ts = libc::timespec { tv_sec: 0, tv_nsec: 200_000 };
                    sc6(libc::SYS_futex, a, libc::FUTEX_WAIT as i64, c, &ts as *const _ as i64, 0, 0);
                    return if with_ctl(|c| c.vclock).unwrap() >= until { ret(-(libc::ETIMEDOUT as i64)) } else { 0 };
                }
                return if sched::block(addr, until) { 0 } else { ret(-(libc::ETIMEDOUT as i64)) };
            }
            if op == libc::FUTEX_WAKE || op == libc::FUTEX_WAKE_BITSET {
                let k = sched::wake(addr, c as u32 as u64);
                if FOREIGN.load(Ordering::Relaxed) {
                    sc6(libc::SYS_futex, a, libc::FUTEX_WAKE as i64, c, 0, 0, 0);
                }
                sched::yield_point();
                return k as c_long;
            }
        }
        if n == libc::SYS_getrandom {
            fill(a as *mut u8, b as usize);
            return b;
        }
    }
    ret(sc6(n, a, b, c, d, e, f))
}

/// set once a simulated thread has started a thread of its own, which runs for real
static FOREIGN: AtomicBool = AtomicBool::new(false);
type Start = extern "C" fn(*mut c_void) -> *mut c_void;
#[no_mangle]
pub unsafe extern "C" fn pthread_create(t: *mut libc::pthread_t, a: *const libc::pthread_attr_t, f: Start, x: *mut c_void) -> c_int {
    type Real = unsafe extern "C" fn(*mut libc::pthread_t, *const libc::pthread_attr_t, Start, *mut c_void) -> c_int;
    static REAL: AtomicUsize = AtomicUsize::new(0);
    if REAL.load(Ordering::Relaxed) == 0 {
        REAL.store(libc::dlsym(libc::RTLD_NEXT, c"pthread_create".as_ptr()) as usize, Ordering::Relaxed);
    }
    if sched::in_sim() {
        FOREIGN.store(true, Ordering::Relaxed);
        with_ctl(|c| c.stats.foreign_threads += 1);
    }
    std::mem::transmute::<usize, Real>(REAL.load(Ordering::Relaxed))(t, a, f, x)
}

unsafe fn fill(p: *mut u8, n: usize) {
    with_ctl(|c| {
        let mut k = c.stats.random_reads;
        for i in 0..n {
            *p.add(i) = hash2(c.plan.env_seed ^ 0x7a2d, k * 4096 + i as u64) as u8;
        }
        k += 1;
        c.stats.random_reads = k;
    });
}
#[no_mangle]
pub unsafe extern "C" fn getrandom(p: *mut c_void, n: usize, flags: u32) -> isize {
    if sched::in_sim() {
        fill(p as *mut u8, n);
        return n as isize;
    }
    ret(sc6(libc::SYS_getrandom, p as i64, n as i64, flags as i64, 0, 0, 0)) as isize
}
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: c_int, ts: *mut libc::timespec) -> c_int {
    if sched::in_sim() {
        with_ctl(|c| {
            c.stats.clock_reads += 1;
            let h = hash2(c.plan.env_seed ^ 0xc10c, c.stats.clock_reads);
            c.vclock += 50 + h % 5000;
            let mut t = c.vclock;
            if c.plan.clock_jumps {
                if h % 3 == 0 {
                    c.stats.clock_jumps += 1;
                    // forward jump: seconds to days
                    c.vclock += 1_000_000_000u64 << (h >> 8) % 17;
                    t = c.vclock;
                }
                if id == libc::CLOCK_REALTIME && h % 5 == 0 {
                    c.stats.clock_jumps += 1;
                    t = t.wrapping_sub(1_000_000_000u64 << (h >> 16) % 10).min(t);
                }
            }
            if id == libc::CLOCK_REALTIME {
                t += 1_700_000_000_000_000_000;
            }
            (*ts).tv_sec = (t / 1_000_000_000) as i64;
            (*ts).tv_nsec = (t % 1_000_000_000) as i64;
        });
        return 0;
    }
    ret(sc6(libc::SYS_clock_gettime, id as i64, ts as i64, 0, 0, 0, 0)) as c_int
}
unsafe fn sleep_for(ts: *const libc::timespec, abs: bool) {
    let ns = ((*ts).tv_sec as u64).saturating_mul(1_000_000_000).saturating_add((*ts).tv_nsec as u64);
    let until = if abs { ns } else { with_ctl(|c| c.vclock).unwrap().saturating_add(ns) };
    sched::block(0, until.min(u64::MAX - 1));
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const libc::timespec, rem: *mut libc::timespec) -> c_int {
    if sched::in_sim() {
        sleep_for(req, false);
        return 0;
    }
    ret(sc6(libc::SYS_nanosleep, req as i64, rem as i64, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(id: c_int, flags: c_int, req: *const libc::timespec, rem: *mut libc::timespec) -> c_int {
    if sched::in_sim() {
        sleep_for(req, flags & libc::TIMER_ABSTIME != 0);
        return 0;
    }
    -sc6(libc::SYS_clock_nanosleep, id as i64, flags as i64, req as i64, rem as i64, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> c_int {
    if sched::in_sim() {
        sched::yield_point();
        return 0;
    }
    sc6(libc::SYS_sched_yield, 0, 0, 0, 0, 0, 0) as c_int
}

extern "C" {
    static environ: *const *const c_char;
}
#[no_mangle]
pub unsafe extern "C" fn getenv(name: *const c_char) -> *mut c_char {
    let key = std::ffi::CStr::from_ptr(name).to_bytes();
    if sched::in_sim() && !key.starts_with(b"RUST_") {
        return with_ctl(|c| {
            c.stats.env_reads += 1;
            let mut h = c.plan.env_seed ^ 0xe4;
            for b in key {
                h = hash2(h, *b as u64);
            }
            (match h % 5 {
                0 => std::ptr::null(),
                1 => c"".as_ptr(),
                2 => c"0".as_ptr(),
                3 => c"1".as_ptr(),
                _ => c"true".as_ptr(),
            }) as *mut c_char
        })
        .unwrap();
    }
    let mut p = environ;
    if p.is_null() {
        return std::ptr::null_mut();
    }
    while !(*p).is_null() {
        let s = std::ffi::CStr::from_ptr(*p).to_bytes();
        if s.len() > key.len() && s[key.len()] == b'=' && &s[..key.len()] == key {
            return (*p).add(key.len() + 1) as *mut c_char;
        }
        p = p.add(1);
    }
    std::ptr::null_mut()
}

#[no_mangle]
pub unsafe extern "C" fn getpid() -> c_int {
    if sched::in_sim() {
        return with_ctl(|c| 2 + (hash2(c.plan.env_seed, 0x91d) % 30000) as c_int).unwrap();
    }
    sc6(libc::SYS_getpid, 0, 0, 0, 0, 0, 0) as c_int
}

// ------------------------------------------------------------------ files
/// Files outside the system's own directories exist only in the simulated run: which of them the
/// program finds, and what they say, is the plan's choice; what it writes it finds again.
struct VFile {
    path: u64,
    fd: i64,
}
static mut VFILES: [VFile; 32] = [const { VFile { path: 0, fd: -1 } }; 32];
unsafe fn path_hash(p: *const c_char) -> Option<u64> {
    let b = std::ffi::CStr::from_ptr(p).to_bytes();
    for s in [&b"/proc"[..], b"/sys", b"/dev", b"/usr", b"/lib", b"/etc/ld"] {
        if b.starts_with(s) {
            return None;
        }
    }
    let mut h = 0xf11e;
    for x in b {
        h = hash2(h, *x as u64);
    }
    Some(h | 1)
}
unsafe fn vfind(h: u64) -> Option<usize> {
    (0..32).find(|i| (*(&raw const VFILES))[*i].path == h)
}
unsafe fn vput(h: u64, text: &[u8]) -> Option<usize> {
    let i = (0..32).find(|i| (*(&raw const VFILES))[*i].path == 0)?;
    let fd = sc6(libc::SYS_memfd_create, c"v".as_ptr() as i64, libc::MFD_CLOEXEC as i64, 0, 0, 0, 0);
    if fd < 0 {
        return None;
    }
    if !text.is_empty() {
        sc6(libc::SYS_write, fd, text.as_ptr() as i64, text.len() as i64, 0, 0, 0);
    }
    (*(&raw mut VFILES))[i] = VFile { path: h, fd };
    Some(i)
}
/// the file's place in the table, or why there is none
unsafe fn vlook(h: u64) -> Result<usize, c_int> {
    if let Some(i) = vfind(h) {
        return if (*(&raw const VFILES))[i].fd < 0 { Err(libc::ENOENT) } else { Ok(i) };
    }
    let env = with_ctl(|c| {
        c.stats.file_opens += 1;
        c.plan.env_seed
    })
    .unwrap();
    let k = hash2(env ^ 0xf5, h);
    let text: &[u8] = match k % 8 {
        0 | 1 => return Err(libc::ENOENT),
        2 => return Err(libc::EACCES),
        3 => return Err(libc::EMFILE),
        4 => b"",
        5 => b"1\n",
        6 => b"0.5\n",
        _ => b"a = 1.25\nb = \"x\"\n\xff",
    };
    vput(h, text).ok_or(libc::EIO)
}
unsafe fn vopen(h: u64, flags: c_int) -> Result<i64, c_int> {
    let i = match vlook(h) {
        Ok(i) => {
            if flags & (libc::O_CREAT | libc::O_EXCL) == libc::O_CREAT | libc::O_EXCL {
                return Err(libc::EEXIST);
            }
            i
        }
        Err(libc::ENOENT) if flags & libc::O_CREAT != 0 => {
            if let Some(i) = vfind(h) {
                (*(&raw mut VFILES))[i].path = 0;
            }
            vput(h, b"").ok_or(libc::ENOSPC)?
        }
        Err(e) => return Err(e),
    };
    let mut name = *b"/proc/self/fd/\0\0\0\0\0\0\0\0\0\0\0\0";
    let mut n = (*(&raw const VFILES))[i].fd;
    let mut digits = [0u8; 10];
    let mut k = 0;
    loop {
        digits[k] = b'0' + (n % 10) as u8;
        n /= 10;
        k += 1;
        if n == 0 {
            break;
        }
    }
    for j in 0..k {
        name[14 + j] = digits[k - 1 - j];
    }
    let fl = flags & !(libc::O_CREAT | libc::O_EXCL | libc::O_NOFOLLOW | libc::O_DIRECTORY);
    match sc6(libc::SYS_openat, libc::AT_FDCWD as i64, name.as_ptr() as i64, fl as i64, 0, 0, 0) {
        r if r < 0 => Err(-r as c_int),
        r => Ok(r),
    }
}
unsafe fn fail(e: c_int) -> c_int {
    *libc::__errno_location() = e;
    -1
}
unsafe fn open_at(dir: c_int, p: *const c_char, flags: c_int, mode: libc::mode_t) -> c_int {
    if sched::in_sim() {
        if let Some(h) = path_hash(p) {
            return match vopen(h, flags) {
                Ok(fd) => fd as c_int,
                Err(e) => fail(e),
            };
        }
    }
    ret(sc6(libc::SYS_openat, dir as i64, p as i64, flags as i64, mode as i64, 0, 0)) as c_int
}
// (the third argument is read from the register a variadic caller puts it in)
#[allow(invalid_runtime_symbol_definitions)]
#[no_mangle]
pub unsafe extern "C" fn open(p: *const c_char, flags: c_int, mode: libc::mode_t) -> c_int {
    open_at(libc::AT_FDCWD, p, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn open64(p: *const c_char, flags: c_int, mode: libc::mode_t) -> c_int {
    open_at(libc::AT_FDCWD, p, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat(d: c_int, p: *const c_char, flags: c_int, mode: libc::mode_t) -> c_int {
    open_at(d, p, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat64(d: c_int, p: *const c_char, flags: c_int, mode: libc::mode_t) -> c_int {
    open_at(d, p, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn statx(d: c_int, p: *const c_char, flags: c_int, mask: u32, out: *mut libc::statx) -> c_int {
    if sched::in_sim() && !p.is_null() && *p != 0 {
        if let Some(h) = path_hash(p) {
            return match vlook(h) {
                Ok(i) => {
                    let fd = (*(&raw const VFILES))[i].fd;
                    ret(sc6(libc::SYS_statx, fd, c"".as_ptr() as i64, libc::AT_EMPTY_PATH as i64, mask as i64, out as i64, 0)) as c_int
                }
                Err(e) => fail(e),
            };
        }
    }
    ret(sc6(libc::SYS_statx, d as i64, p as i64, flags as i64, mask as i64, out as i64, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn access(p: *const c_char, mode: c_int) -> c_int {
    if sched::in_sim() {
        if let Some(h) = path_hash(p) {
            return match vlook(h) {
                Ok(_) => 0,
                Err(e) => fail(e),
            };
        }
    }
    ret(sc6(libc::SYS_access, p as i64, mode as i64, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn unlink(p: *const c_char) -> c_int {
    if sched::in_sim() {
        if let Some(h) = path_hash(p) {
            return match vlook(h) {
                Ok(i) => {
                    let f = &mut (*(&raw mut VFILES))[i];
                    sc6(libc::SYS_close, f.fd, 0, 0, 0, 0, 0);
                    f.fd = -1;
                    0
                }
                Err(e) => fail(e),
            };
        }
    }
    ret(sc6(libc::SYS_unlink, p as i64, 0, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn getcwd(buf: *mut c_char, n: usize) -> *mut c_char {
    if sched::in_sim() && !buf.is_null() && n > 4 {
        let k = with_ctl(|c| {
            c.stats.env_reads += 1;
            hash2(c.plan.env_seed, 0xc3d) % 3
        })
        .unwrap();
        for (i, b) in [b'/', b'w', b'0' + k as u8, 0].iter().enumerate() {
            *buf.add(i) = *b as c_char;
        }
        return buf;
    }
    let r = sc6(libc::SYS_getcwd, buf as i64, n as i64, 0, 0, 0, 0);
    if r < 0 {
        fail(-r as c_int);
        return std::ptr::null_mut();
    }
    buf
}
/// how many processors the program thinks it has
#[no_mangle]
pub unsafe extern "C" fn sched_getaffinity(pid: libc::pid_t, n: usize, set: *mut c_void) -> c_int {
    if sched::in_sim() && n >= 8 {
        let k = with_ctl(|c| {
            c.stats.env_reads += 1;
            [1u32, 2, 3, 8, 64][(hash2(c.plan.env_seed, 0xcb0) % 5) as usize]
        })
        .unwrap();
        std::ptr::write_bytes(set as *mut u8, 0, n);
        *(set as *mut u64) = u64::MAX >> (64 - k);
        return 0;
    }
    let r = sc6(libc::SYS_sched_getaffinity, pid as i64, n as i64, set as i64, 0, 0, 0);
    if r < 0 {
        return fail(-r as c_int);
    }
    std::ptr::write_bytes((set as *mut u8).add(r as usize), 0, n - r as usize);
    0
}
#[no_mangle]
pub unsafe extern "C" fn gettimeofday(tv: *mut libc::timeval, _tz: *mut c_void) -> c_int {
    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    clock_gettime(libc::CLOCK_REALTIME, &mut ts);
    (*tv).tv_sec = ts.tv_sec;
    (*tv).tv_usec = ts.tv_nsec / 1000;
    0
}
