//! Instrumented allocator.
//!
//! Allocations made while the crate under test is running (`in_sut()`), on any thread, are tracked until
//! freed; frees of tracked memory check the layout, overwrite the block and keep it quarantined until the end
//! of the run, so that a use after release reads recognisable garbage, a write after release is detected and a
//! second release is recognised. What is still tracked at the end of a run has been leaked.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::*};

pub struct SimAlloc;

thread_local! {
    static IN_SUT: Cell<bool> = const { Cell::new(false) };
}

pub fn in_sut() -> bool {
    IN_SUT.try_with(|c| c.get()).unwrap_or(false)
}

pub fn set_sut(v: bool) -> bool {
    IN_SUT.try_with(|c| c.replace(v)).unwrap_or(false)
}

/// Restores the previous flag on drop (also while unwinding)
pub struct SutFlag(bool);

impl SutFlag {
    pub fn set(v: bool) -> SutFlag {
        SutFlag(set_sut(v))
    }
}

impl Drop for SutFlag {
    fn drop(&mut self) {
        set_sut(self.0);
    }
}

const CAP: usize = 1 << 17;
const POISON: u8 = 0xD5;
const EMPTY: usize = 0;

#[derive(Copy, Clone)]
struct Entry {
    addr: usize,
    size: usize,
    align: usize,
    freed: bool,
}

struct Table {
    slots: *mut Entry,
    /// slot numbers in use, in order of allocation
    order: *mut u32,
    /// tracked entries (live + quarantined)
    used: usize,
    live: usize,
    quarantined_bytes: usize,
    overflow: bool,
}

static LOCK: AtomicBool = AtomicBool::new(false);
static mut TABLE: Table =
    Table { slots: std::ptr::null_mut(), order: std::ptr::null_mut(), used: 0, live: 0, quarantined_bytes: 0, overflow: false };
pub static ALLOC_CALLS: AtomicU64 = AtomicU64::new(0);
pub static NODE_ALLOCS: AtomicU64 = AtomicU64::new(0);
pub static LIVE_BYTES: AtomicU64 = AtomicU64::new(0);
static ERROR: std::sync::Mutex<Option<&'static str>> = std::sync::Mutex::new(None);

fn set_error(e: &'static str) {
    if let Ok(mut g) = ERROR.lock() {
        if g.is_none() {
            *g = Some(e);
        }
    }
}

/// First allocator-level violation since the last call
pub fn take_error() -> Option<&'static str> {
    ERROR.lock().ok().and_then(|mut g| g.take())
}

fn with<R>(f: impl FnOnce(&mut Table) -> R) -> R {
    while LOCK.compare_exchange_weak(false, true, Acquire, Relaxed).is_err() {
        std::hint::spin_loop();
    }
    // SAFETY: guarded by LOCK
    let r = unsafe {
        let t = &mut *std::ptr::addr_of_mut!(TABLE);
        if t.slots.is_null() {
            t.slots = System.alloc_zeroed(Layout::array::<Entry>(CAP).unwrap()) as *mut Entry;
            t.order = System.alloc_zeroed(Layout::array::<u32>(CAP).unwrap()) as *mut u32;
        }
        f(t)
    };
    LOCK.store(false, Release);
    r
}

fn h(addr: usize) -> usize {
    (addr >> 3).wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 47 & (CAP - 1)
}

impl Table {
    unsafe fn find(&mut self, addr: usize) -> Option<&mut Entry> {
        let mut i = h(addr);
        loop {
            let e = &mut *self.slots.add(i);
            if e.addr == addr {
                return Some(e);
            }
            if e.addr == EMPTY {
                return None;
            }
            i = (i + 1) & (CAP - 1);
        }
    }

    unsafe fn insert(&mut self, n: Entry) {
        if self.used > CAP / 2 {
            self.overflow = true;
            return;
        }
        let mut i = h(n.addr);
        loop {
            let e = &mut *self.slots.add(i);
            if e.addr == EMPTY {
                *e = n;
                *self.order.add(self.used) = i as u32;
                self.used += 1;
                self.live += 1;
                return;
            }
            i = (i + 1) & (CAP - 1);
        }
    }
}

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let sut = in_sut();
        if sut {
            set_sut(false);
            crate::sched::point(crate::sched::Pt::Alloc);
            set_sut(true);
        }
        let p = System.alloc(l);
        if sut && !p.is_null() {
            ALLOC_CALLS.fetch_add(1, Relaxed);
            if l.align() >= 64 {
                NODE_ALLOCS.fetch_add(1, Relaxed);
            }
            LIVE_BYTES.fetch_add(l.size() as u64, Relaxed);
            // uninitialised memory is made recognisable too
            std::ptr::write_bytes(p, 0xA7, l.size());
            with(|t| t.insert(Entry { addr: p as usize, size: l.size(), align: l.align(), freed: false }));
        }
        p
    }

    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let sut = in_sut();
        if sut {
            set_sut(false);
            crate::sched::point(crate::sched::Pt::Dealloc);
            set_sut(true);
        }
        let real = with(|t| {
            if t.used == 0 {
                return true;
            }
            match t.find(p as usize) {
                None => true,
                Some(e) if e.freed => {
                    set_error("memory released twice");
                    false
                }
                Some(e) => {
                    if e.size != l.size() || e.align != l.align() {
                        set_error("memory released with a layout different from its allocation");
                    }
                    e.freed = true;
                    let sz = e.size;
                    std::ptr::write_bytes(p, POISON, sz);
                    t.live -= 1;
                    t.quarantined_bytes += sz;
                    LIVE_BYTES.fetch_sub(sz as u64, Relaxed);
                    false
                }
            }
        });
        if real {
            System.dealloc(p, l);
        }
    }
}

/// Tracked blocks currently live
pub fn live_blocks() -> usize {
    with(|t| t.live)
}

/// Ends a run: checks and empties the quarantine, returns (leaked blocks, total size of leaks)
pub fn end_run() -> (usize, usize) {
    let (mut n, mut sz) = (0, 0);
    let mut late = false;
    with(|t| unsafe {
        for k in 0..t.used {
            let e = &mut *t.slots.add(*t.order.add(k) as usize);
            let l = Layout::from_size_align_unchecked(e.size, e.align);
            if e.freed {
                let s = std::slice::from_raw_parts(e.addr as *const u8, e.size);
                late |= s.iter().any(|b| *b != POISON);
                System.dealloc(e.addr as *mut u8, l);
            } else {
                // leaked: stays allocated on purpose, a stale owner may still exist
                n += 1;
                sz += e.size;
            }
            e.addr = EMPTY;
        }
        t.used = 0;
        t.live = 0;
        t.quarantined_bytes = 0;
        t.overflow = false;
    });
    LIVE_BYTES.store(0, Relaxed);
    if late {
        set_error("memory written after its release");
    }
    (n, sz)
}
