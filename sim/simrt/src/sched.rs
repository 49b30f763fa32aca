//! One-at-a-time scheduler. Simulated threads are real OS threads (so thread-locals, unwinding
//! and stacks are real) of which exactly one holds the token; every choice of who runs is made
//! here, from one seed, and recorded as a switch list that replays exactly.
use crate::rng::{hash2, Rng};
use crate::sys;
use std::cell::Cell;
use std::sync::atomic::{AtomicU32, Ordering};

pub const MAX_TH: usize = 144;
const STACK_BASE: usize = 0x2000_0000_0000;
const STACK_STRIDE: usize = 4 << 20;
pub const UID_END: u32 = u32::MAX;

/// "thread `t`, while executing query `uid`, at its `off`-th event hands over to `to`".
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Switch {
    pub t: u32,
    pub uid: u32,
    pub off: u64,
    pub to: u32,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Strategy {
    /// run each thread until it finishes or blocks
    Sequential,
    /// preempt after a geometric number of events with this mean
    Random { mean: f64 },
    /// preempt at query boundaries with probability 1/2 and inside with this mean
    Boundary { mean: f64 },
    /// priorities with `d` change points spread over about `len` events (PCT)
    Pct { d: u32, len: u64 },
}

#[derive(Clone, Debug)]
pub struct Plan {
    pub strategy: Strategy,
    /// preempt at an access to writable static data or an atomic-looking access with chance 1/hot
    pub hot: u64,
    pub seed: u64,
    pub replay: Option<Vec<Switch>>,
    pub first: Option<u32>,
    pub query_cap: u64,
    pub max_switches: u64,
    /// environment seams
    pub env_seed: u64,
    pub clock_jumps: bool,
    pub spurious: bool,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum S {
    Ready,
    Blocked,
    Done,
}

pub struct Th {
    pub id: u32,
    word: AtomicU32,
    state: S,
    pub active: bool,
    pub qev: u64,
    countdown: i64,
    uid: u32,
    lo: usize,
    hi: usize,
    wait_addr: usize,
    wake_at: u64,
    timed_out: bool,
    prio: u64,
    body: Option<Box<dyn FnOnce() + 'static>>,
    /// replay cursor: pending switch offsets for the current query
    pend: Vec<(u64, u32)>,
    pend_ix: usize,
}

#[derive(Default, Clone, Debug)]
pub struct RunStats {
    pub events: u64,
    pub switches: u64,
    pub preempt_inside: u64,
    pub futex_blocks: u64,
    pub spurious: u64,
    pub clock_reads: u64,
    pub clock_jumps: u64,
    pub random_reads: u64,
    pub env_reads: u64,
    pub file_opens: u64,
    pub foreign_threads: u64,
    pub hot_accesses: u64,
    pub heap_accesses: u64,
    pub sched_hash: u64,
    pub max_qev: u64,
}

pub struct Ctl {
    th: Vec<Box<Th>>,
    word: AtomicU32,
    finished: u32,
    rng: Rng,
    pub plan: Plan,
    pub log: Vec<Switch>,
    pub stats: RunStats,
    pub vclock: u64,
    pct_points: Vec<u64>,
    chaos: u64,
}

thread_local! { static CUR: Cell<*mut Th> = const { Cell::new(std::ptr::null_mut()) }; }
static mut CTL: *mut Ctl = std::ptr::null_mut();

/// set by the embedding program: called (on whatever thread) with a verdict; must not return
pub static mut ON_VERDICT: Option<fn(kind: u32, t: u32, uid: u32, off: u64) -> !> = None;
pub const V_HANG: u32 = 1;
pub const V_DEADLOCK: u32 = 2;

extern "C" {
    static __data_start: u8;
    static _end: u8;
}
static mut DATA_LO: usize = 0;
static mut DATA_HI: usize = 0;
pub static mut COV: *mut u8 = std::ptr::null_mut();
pub static mut COV_N: usize = 0;

pub fn init() {
    unsafe {
        DATA_LO = &__data_start as *const u8 as usize;
        DATA_HI = &_end as *const u8 as usize;
    }
    assert!(sys::mmap_fixed(STACK_BASE, STACK_STRIDE * MAX_TH), "cannot map simulated stacks");
    unsafe {
        COV = sys::mmap_shared((COV_N + 1).max(4096));
    }
}

fn ctl() -> &'static mut Ctl {
    unsafe { &mut *CTL }
}
pub fn cur() -> *mut Th {
    CUR.try_with(|c| c.get()).unwrap_or(std::ptr::null_mut())
}
pub fn in_sim() -> bool {
    !cur().is_null()
}
pub fn with_ctl<R>(f: impl FnOnce(&mut Ctl) -> R) -> Option<R> {
    if in_sim() {
        Some(f(ctl()))
    } else {
        None
    }
}
fn verdict(kind: u32, th: &Th) -> ! {
    unsafe {
        if let Some(f) = ON_VERDICT {
            f(kind, th.id, th.uid, th.qev)
        }
    }
    sys::exit_now(98)
}

// ---------------------------------------------------------------- events
#[inline(always)]
fn tick(hot: bool) {
    let p = CUR.with(|c| c.get());
    if p.is_null() {
        return;
    }
    let th = unsafe { &mut *p };
    if !th.active {
        return;
    }
    th.qev += 1;
    th.countdown -= 1;
    if th.countdown <= 0 || hot {
        // the scheduler itself is never preempted
        th.active = false;
        slow(th, hot);
        th.active = true;
    }
}

#[cold]
#[inline(never)]
fn slow(th: &mut Th, hot: bool) {
    let c = ctl();
    if th.qev > c.plan.query_cap {
        verdict(V_HANG, th);
    }
    if hot {
        c.stats.hot_accesses += 1;
    }
    if c.plan.replay.is_some() {
        if th.pend_ix < th.pend.len() && th.pend[th.pend_ix].0 == th.qev {
            let to = th.pend[th.pend_ix].1;
            th.pend_ix += 1;
            arm_replay(th, c);
            if (to as usize) < c.th.len() && to != th.id && c.th[to as usize].state == S::Ready {
                record(c, th, to);
                c.stats.preempt_inside += 1;
                switch(th, to);
            }
        } else {
            arm_replay(th, c);
        }
        return;
    }
    let mut want = th.countdown <= 0 && c.plan.strategy != Strategy::Sequential;
    if th.countdown <= 0 {
        arm(th, c);
    }
    if hot && c.plan.hot > 0 && c.rng.chance(1, c.plan.hot) {
        want = true;
    }
    if !want || c.stats.switches >= c.plan.max_switches {
        return;
    }
    if let Strategy::Pct { .. } = c.plan.strategy {
        // a change point: demote the running thread below everybody
        if !hot {
            let r = c.rng.next() >> 8;
            th.prio = r >> 16;
        }
    }
    if let Some(to) = choose(c, th.id, true) {
        record(c, th, to);
        c.stats.preempt_inside += 1;
        switch(th, to);
    }
}

fn arm(th: &mut Th, c: &mut Ctl) {
    let cap_left = (c.plan.query_cap + 1).saturating_sub(th.qev) as i64;
    let n = match c.plan.strategy {
        Strategy::Sequential => i64::MAX / 4,
        Strategy::Random { mean } | Strategy::Boundary { mean } => c.rng.countdown(mean),
        Strategy::Pct { d: _, len: _ } => match c.pct_points.pop() {
            Some(n) => n as i64,
            None => i64::MAX / 4,
        },
    };
    th.countdown = n.min(cap_left).max(1);
}
fn arm_replay(th: &mut Th, c: &mut Ctl) {
    let cap_left = (c.plan.query_cap + 1).saturating_sub(th.qev) as i64;
    while th.pend_ix < th.pend.len() && th.pend[th.pend_ix].0 <= th.qev {
        th.pend_ix += 1;
    }
    let n = if th.pend_ix < th.pend.len() { (th.pend[th.pend_ix].0 - th.qev) as i64 } else { i64::MAX / 4 };
    th.countdown = n.min(cap_left).max(1);
}

fn choose(c: &mut Ctl, me: u32, exclude_me: bool) -> Option<u32> {
    let ready: Vec<u32> =
        c.th.iter().filter(|t| t.state == S::Ready && (!exclude_me || t.id != me)).map(|t| t.id).collect();
    if ready.is_empty() {
        return None;
    }
    Some(match c.plan.strategy {
        Strategy::Pct { .. } => *ready.iter().max_by_key(|&&i| (c.th[i as usize].prio, i)).unwrap(),
        Strategy::Sequential => ready[0],
        _ => *c.rng.pick(&ready),
    })
}
fn record(c: &mut Ctl, th: &Th, to: u32) {
    let s = Switch { t: th.id, uid: th.uid, off: th.qev, to };
    push_switch(c, s);
}
fn push_switch(c: &mut Ctl, s: Switch) {
    c.stats.switches += 1;
    c.stats.sched_hash = hash2(c.stats.sched_hash, hash2((s.t as u64) << 32 | s.to as u64, (s.uid as u64) << 40 ^ s.off));
    if c.log.len() < 200_000 {
        c.log.push(s);
    }
}

fn handoff(to: &Th) {
    to.word.store(1, Ordering::Release);
    sys::futex_wake(to.word.as_ptr());
}
fn park(w: &AtomicU32) {
    while w.swap(0, Ordering::Acquire) == 0 {
        sys::futex_wait(w.as_ptr(), 0);
    }
}
fn switch(me: &mut Th, to: u32) {
    let c = ctl();
    let e = unsafe { *libc::__errno_location() };
    handoff(&c.th[to as usize]);
    park(&me.word);
    unsafe { *libc::__errno_location() = e };
}

/// An explicit scheduling point (used by simulated components: a slow or stalled component).
pub fn yield_point() {
    tick(true);
}

/// Block the current thread until `addr` is woken or virtual time `until` is reached.
/// Returns false on timeout.
pub(crate) fn block(addr: usize, until: u64) -> bool {
    let th = unsafe { &mut *cur() };
    let was = std::mem::replace(&mut th.active, false);
    let r = block_inner(th, addr, until);
    th.active = was;
    r
}
fn block_inner(th: &mut Th, addr: usize, until: u64) -> bool {
    let c = ctl();
    c.stats.futex_blocks += 1;
    th.qev += 1;
    th.state = S::Blocked;
    th.wait_addr = addr;
    th.wake_at = until;
    th.timed_out = false;
    if c.plan.spurious && addr != 0 && hash2(c.chaos, hash2(th.id as u64 ^ (th.uid as u64) << 8, th.qev)) % 4 == 0 {
        // spurious wake-up: legal for every futex-based primitive
        c.stats.spurious += 1;
        th.state = S::Ready;
        return true;
    }
    let to = next_after_block(c, th);
    if to != th.id {
        record(c, th, to);
        switch(th, to);
    } else {
        // the clock advanced and woke ourselves
    }
    let c = ctl();
    if c.plan.replay.is_some() {
        arm_replay(th, c);
    }
    !th.timed_out
}
fn next_after_block(c: &mut Ctl, th: &mut Th) -> u32 {
    loop {
        if c.plan.replay.is_some() {
            let want = th.pend.iter().find(|p| p.0 == th.qev).map(|p| p.1);
            if let Some(to) = want {
                if (to as usize) < c.th.len() && c.th[to as usize].state == S::Ready {
                    return to;
                }
            }
            let n = c.th.len() as u32;
            if let Some(to) = (1..=n).map(|k| (th.id + k) % n).find(|&i| c.th[i as usize].state == S::Ready) {
                return to;
            }
        } else if let Some(to) = choose(c, th.id, false) {
            return to;
        }
        // nobody runnable: advance the virtual clock to the earliest deadline
        let next = c.th.iter().filter(|t| t.state == S::Blocked && t.wake_at != u64::MAX).map(|t| t.wake_at).min();
        match next {
            None => verdict(V_DEADLOCK, th),
            Some(t) => {
                c.vclock = c.vclock.max(t);
                for x in c.th.iter_mut() {
                    if x.state == S::Blocked && x.wake_at <= c.vclock {
                        x.state = S::Ready;
                        x.timed_out = true;
                    }
                }
            }
        }
    }
}
pub(crate) fn wake(addr: usize, n: u64) -> u64 {
    let c = ctl();
    let mut k = 0;
    for t in c.th.iter_mut() {
        if k < n && t.state == S::Blocked && t.wait_addr == addr {
            t.state = S::Ready;
            k += 1;
        }
    }
    k
}

// ---------------------------------------------------------------- queries
pub fn begin_query(uid: u32) {
    let p = cur();
    if p.is_null() {
        return;
    }
    let th = unsafe { &mut *p };
    let c = ctl();
    th.uid = uid;
    th.qev = 0;
    if let Some(r) = &c.plan.replay {
        th.pend = r.iter().filter(|s| s.t == th.id && s.uid == uid).map(|s| (s.off, s.to)).collect();
        th.pend.sort();
        th.pend_ix = 0;
        arm_replay(th, c);
        // arm_replay skips offsets <= qev (0): boundary switches are recorded with off 0
        if let Some(&(0, to)) = th.pend.first() {
            if (to as usize) < c.th.len() && to != th.id && c.th[to as usize].state == S::Ready {
                record(c, th, to);
                switch(th, to);
            }
        }
    } else {
        let old = th.countdown;
        arm_or_keep(th, c, old);
        let boundary = matches!(c.plan.strategy, Strategy::Boundary { .. }) && c.rng.chance(1, 2);
        if boundary && c.stats.switches < c.plan.max_switches {
            if let Some(to) = choose(c, th.id, true) {
                record(c, th, to);
                switch(th, to);
            }
        }
    }
    unsafe { (*cur()).active = true };
}
fn arm_or_keep(th: &mut Th, c: &mut Ctl, old: i64) {
    // keep a running countdown across queries so that long gaps reach into later queries
    if old > 0 && old < i64::MAX / 8 {
        th.countdown = old.min(c.plan.query_cap as i64 + 1);
    } else {
        arm(th, c);
    }
}
/// ends the query and returns the number of events it took
pub fn end_query() -> u64 {
    let p = cur();
    if p.is_null() {
        return 0;
    }
    let th = unsafe { &mut *p };
    th.active = false;
    let c = ctl();
    c.stats.events += th.qev;
    c.stats.max_qev = c.stats.max_qev.max(th.qev);
    th.qev
}
/// suspends scheduling inside harness code called from the library (returns the old flag)
pub fn set_active(on: bool) -> bool {
    let p = cur();
    if p.is_null() {
        return false;
    }
    let th = unsafe { &mut *p };
    std::mem::replace(&mut th.active, on)
}
pub fn query_events() -> u64 {
    let p = cur();
    if p.is_null() {
        0
    } else {
        unsafe { (*p).qev }
    }
}

// ---------------------------------------------------------------- running
extern "C" fn trampoline(p: *mut libc::c_void) -> *mut libc::c_void {
    let th = unsafe { &mut *(p as *mut Th) };
    park(&th.word);
    CUR.with(|c| c.set(th));
    let body = th.body.take().unwrap();
    // registered before any of the program's own, so destroyed after them
    LAST.with(|l| l.0.set(th));
    body();
    // the destructors of the program's thread-locals are part of the simulated thread
    begin_query(UID_TLS + th.id);
    std::ptr::null_mut()
}
pub const UID_TLS: u32 = 3_000_000;
struct Last(Cell<*mut Th>);
thread_local! { static LAST: Last = const { Last(Cell::new(std::ptr::null_mut())) }; }
impl Drop for Last {
    fn drop(&mut self) {
        if self.0.get().is_null() {
            return;
        }
        end_query();
        let th = unsafe { &mut *self.0.get() };
        CUR.with(|c| c.set(std::ptr::null_mut()));
        // hand the token back to the controller
        let c = ctl();
        c.finished = th.id;
        c.word.store(1, Ordering::Release);
        sys::futex_wake(c.word.as_ptr());
    }
}

/// Runs the bodies as simulated threads under `plan`; returns the switch log and statistics.
pub fn run(plan: Plan, bodies: Vec<Box<dyn FnOnce() + 'static>>) -> (Vec<Switch>, RunStats, u32) {
    let n = bodies.len();
    assert!(n >= 1 && n <= MAX_TH);
    let mut rng = Rng::new(plan.seed);
    let mut pct_points = vec![];
    if let Strategy::Pct { d, len } = plan.strategy {
        for _ in 0..d {
            pct_points.push(rng.below(len.max(1)) + 1);
        }
    }
    let chaos = hash2(plan.env_seed, 0xc4a05);
    let vclock = 1_000_000_000_000u64.wrapping_add(hash2(plan.env_seed, 1) % 1_000_000_000_000_000);
    let mut c = Box::new(Ctl {
        th: vec![],
        word: AtomicU32::new(0),
        finished: 0,
        rng,
        plan,
        log: vec![],
        stats: RunStats::default(),
        vclock,
        pct_points,
        chaos,
    });
    for (i, b) in bodies.into_iter().enumerate() {
        let lo = STACK_BASE + i * STACK_STRIDE + 4096;
        let hi = STACK_BASE + (i + 1) * STACK_STRIDE;
        let prio = c.rng.next() >> 1;
        c.th.push(Box::new(Th {
            id: i as u32,
            word: AtomicU32::new(0),
            state: S::Ready,
            active: false,
            qev: 0,
            countdown: 0,
            uid: UID_END,
            lo,
            hi,
            wait_addr: 0,
            wake_at: u64::MAX,
            timed_out: false,
            prio,
            body: Some(b),
            pend: vec![],
            pend_ix: 0,
        }));
    }
    unsafe {
        CTL = &mut *c;
    }
    let mut tids = vec![];
    for t in c.th.iter_mut() {
        unsafe {
            // the guard page below each stack in use
            libc::mprotect((t.lo - 4096) as *mut _, 4096, libc::PROT_NONE);
            let mut attr: libc::pthread_attr_t = std::mem::zeroed();
            libc::pthread_attr_init(&mut attr);
            let r = libc::pthread_attr_setstack(&mut attr, t.lo as *mut _, t.hi - t.lo);
            assert_eq!(r, 0);
            let mut tid: libc::pthread_t = 0;
            let r = libc::pthread_create(&mut tid, &attr, trampoline, &mut **t as *mut Th as *mut _);
            if r != 0 {
                sys::exit_now(97);
            }
            libc::pthread_attr_destroy(&mut attr);
            tids.push(tid);
        }
    }
    // first thread
    let first = match c.plan.first {
        Some(f) => f.min(n as u32 - 1),
        None => choose(&mut c, u32::MAX, false).unwrap(),
    };
    let mut next = first;
    loop {
        handoff(&c.th[next as usize]);
        park(&c.word);
        let f = c.finished;
        unsafe {
            libc::pthread_join(tids[f as usize], std::ptr::null_mut());
        }
        c.th[f as usize].state = S::Done;
        if c.th.iter().all(|t| t.state == S::Done) {
            break;
        }
        let mut th = Th {
            id: f,
            word: AtomicU32::new(0),
            state: S::Done,
            active: false,
            qev: 0,
            countdown: 0,
            uid: UID_END,
            lo: 0,
            hi: 0,
            wait_addr: 0,
            wake_at: u64::MAX,
            timed_out: false,
            prio: 0,
            body: None,
            pend: vec![],
            pend_ix: 0,
        };
        if let Some(r) = &c.plan.replay {
            th.pend = r.iter().filter(|s| s.t == f && s.uid == UID_END).map(|s| (s.off, s.to)).collect();
        }
        next = next_after_block(&mut c, &mut th);
        push_switch(&mut c, Switch { t: f, uid: UID_END, off: 0, to: next });
    }
    unsafe {
        CTL = std::ptr::null_mut();
    }
    let log = std::mem::take(&mut c.log);
    (log, c.stats.clone(), first)
}

// ---------------------------------------------------------------- coverage callbacks
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(mut start: *mut u32, stop: *mut u32) {
    if start == stop || *start != 0 {
        return;
    }
    while start < stop {
        COV_N += 1;
        *start = COV_N as u32;
        start = start.add(1);
    }
}
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    let p = CUR.with(|c| c.get());
    if p.is_null() || !(*p).active {
        return;
    }
    *COV.add(*g as usize) = 1;
    tick(false);
}
#[inline(always)]
unsafe fn mem(addr: usize) {
    let p = CUR.with(|c| c.get());
    if p.is_null() {
        return;
    }
    let th = &mut *p;
    if !th.active || (addr >= th.lo && addr < th.hi) {
        return;
    }
    let hot = addr >= DATA_LO && addr < DATA_HI;
    tick(hot);
}
macro_rules! memcb { ($($n:ident),*) => { $(
    #[no_mangle] pub unsafe extern "C" fn $n(a: *const u8) { mem(a as usize) }
)* } }
memcb!(
    __sanitizer_cov_load1, __sanitizer_cov_load2, __sanitizer_cov_load4, __sanitizer_cov_load8, __sanitizer_cov_load16,
    __sanitizer_cov_store1, __sanitizer_cov_store2, __sanitizer_cov_store4, __sanitizer_cov_store8, __sanitizer_cov_store16
);
pub fn covered() -> (usize, usize) {
    unsafe {
        let mut n = 0;
        for i in 1..=COV_N {
            if *COV.add(i) != 0 {
                n += 1;
            }
        }
        (n, COV_N)
    }
}
