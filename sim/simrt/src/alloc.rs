//! Fixed-address power-of-two allocator: allocation addresses are a pure function of the
//! allocation history, so behaviour that depends on addresses replays exactly. Free lists are
//! LIFO, which maximises address reuse (an object dropped and re-created lands where the old one
//! was).
use std::alloc::{GlobalAlloc, Layout};
use std::sync::atomic::{AtomicBool, Ordering};

pub struct SimAlloc;
const BASE: usize = 0x4000_0000_0000;
const SIZE: usize = 64 << 30;
struct St {
    init: bool,
    bump: usize,
    free: [usize; 48],
    live_bytes: i64,
    live_count: i64,
    total: u64,
}
static mut ST: St = St { init: false, bump: BASE, free: [0; 48], live_bytes: 0, live_count: 0, total: 0 };
static LOCK: AtomicBool = AtomicBool::new(false);
fn lock() {
    while LOCK.compare_exchange_weak(false, true, Ordering::Acquire, Ordering::Relaxed).is_err() {
        std::hint::spin_loop();
    }
}
fn unlock() {
    LOCK.store(false, Ordering::Release);
}
fn class(l: &Layout) -> u32 {
    let s = l.size().max(l.align()).max(16).next_power_of_two();
    s.trailing_zeros()
}
#[allow(static_mut_refs)]
unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        lock();
        if !ST.init {
            if !crate::sys::mmap_fixed(BASE, SIZE) {
                crate::sys::exit_now(99);
            }
            ST.init = true;
        }
        let c = class(&l) as usize;
        let p = if ST.free[c] != 0 {
            let p = ST.free[c];
            ST.free[c] = *(p as *const usize);
            p
        } else {
            let sz = 1usize << c;
            let al = sz.min(4096).max(l.align());
            let p = (ST.bump + al - 1) & !(al - 1);
            if p + sz > BASE + SIZE {
                unlock();
                return std::ptr::null_mut();
            }
            ST.bump = p + sz;
            p
        };
        ST.live_bytes += l.size() as i64;
        ST.live_count += 1;
        ST.total += 1;
        unlock();
        p as *mut u8
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        lock();
        let c = class(&l) as usize;
        *(p as *mut usize) = ST.free[c];
        ST.free[c] = p as usize;
        ST.live_bytes -= l.size() as i64;
        ST.live_count -= 1;
        unlock();
    }
    // spelled out here so that no code shared with the instrumented crates runs in an allocation
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let q = self.alloc(Layout::from_size_align_unchecked(n, l.align()));
        if !q.is_null() {
            std::ptr::copy_nonoverlapping(p, q, l.size().min(n));
            self.dealloc(p, l);
        }
        q
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let q = self.alloc(l);
        if !q.is_null() {
            std::ptr::write_bytes(q, 0, l.size());
        }
        q
    }
}
#[allow(static_mut_refs)]
pub fn live_bytes() -> i64 {
    unsafe { ST.live_bytes }
}
#[allow(static_mut_refs)]
pub fn live_count() -> i64 {
    unsafe { ST.live_count }
}
