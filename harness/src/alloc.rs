//! Global allocator that records the blocks allocated while tracking is on (that is, inside
//! calls of the library), and checks that they are freed with the layout they were made with.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::UnsafeCell;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::SeqCst};

pub struct Tracking;

/// under Miri, which tracks allocations itself, the table stays empty
const BITS: u32 = if cfg!(miri) { 4 } else { 18 };
const N: usize = 1 << BITS;
/// bigger blocks are not filled
const BIG: usize = 1 << 20;
/// nothing here needs more at once: memory ends there, as it does somewhere for everybody
const END: usize = 1 << 31;

#[derive(Clone, Copy)]
struct Slot {
    ptr: usize,
    size: usize,
    align: usize,
}
struct Table {
    lock: AtomicBool,
    slots: UnsafeCell<[Slot; N]>,
}
unsafe impl Sync for Table {}
static TABLE: Table = Table { lock: AtomicBool::new(false), slots: UnsafeCell::new([Slot { ptr: 0, size: 0, align: 0 }; N]) };
static ACTIVE: AtomicBool = AtomicBool::new(false);
static ARMED: AtomicBool = AtomicBool::new(false);
static LIVE: AtomicUsize = AtomicUsize::new(0);
static BYTES: AtomicUsize = AtomicUsize::new(0);
static BAD: AtomicUsize = AtomicUsize::new(0);

fn hash(p: usize) -> usize {
    (p >> 4).wrapping_mul(0x9e3779b97f4a7c15) >> (64 - BITS)
}

fn locked<R>(f: impl FnOnce(&mut [Slot; N]) -> R) -> R {
    while TABLE.lock.compare_exchange(false, true, SeqCst, SeqCst).is_err() {
        std::hint::spin_loop();
    }
    let r = f(unsafe { &mut *TABLE.slots.get() });
    TABLE.lock.store(false, SeqCst);
    r
}

fn insert(ptr: usize, size: usize, align: usize) {
    locked(|t| {
        if LIVE.load(SeqCst) > N / 2 {
            return;
        }
        let mut i = hash(ptr);
        while t[i].ptr != 0 && t[i].ptr != ptr {
            i = (i + 1) % N;
        }
        if t[i].ptr == 0 {
            LIVE.fetch_add(1, SeqCst);
            BYTES.fetch_add(size, SeqCst);
        }
        t[i] = Slot { ptr, size, align };
    })
}

fn remove(ptr: usize, size: usize, align: usize) {
    locked(|t| {
        let mut i = hash(ptr);
        while t[i].ptr != ptr {
            if t[i].ptr == 0 {
                return;
            }
            i = (i + 1) % N;
        }
        if t[i].size != size || t[i].align != align {
            BAD.fetch_add(1, SeqCst);
        }
        LIVE.fetch_sub(1, SeqCst);
        BYTES.fetch_sub(t[i].size, SeqCst);
        // backward shift deletion
        let mut hole = i;
        let mut j = i;
        loop {
            j = (j + 1) % N;
            if t[j].ptr == 0 {
                break;
            }
            let h = hash(t[j].ptr);
            let dist_hole = (j + N - hole) % N;
            let dist_home = (j + N - h) % N;
            if dist_home >= dist_hole {
                t[hole] = t[j];
                hole = j;
            }
        }
        t[hole].ptr = 0;
    })
}

unsafe impl GlobalAlloc for Tracking {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if l.size() > END {
            return std::ptr::null_mut();
        }
        let p = System.alloc(l);
        // what nobody has written yet is not zero
        if !p.is_null() && l.size() <= BIG {
            p.write_bytes(0xa5, l.size());
        }
        if ACTIVE.load(SeqCst) {
            insert(p as usize, l.size(), l.align());
        }
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let p = System.alloc_zeroed(l);
        if ACTIVE.load(SeqCst) {
            insert(p as usize, l.size(), l.align());
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if LIVE.load(SeqCst) > 0 {
            remove(p as usize, l.size(), l.align());
        }
        if l.size() <= BIG {
            p.write_bytes(0xdd, l.size());
        }
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        if new > END {
            return std::ptr::null_mut();
        }
        let q = if l.size().max(new) <= BIG {
            // always somewhere else, with the old place spoilt
            let q = System.alloc(Layout::from_size_align_unchecked(new, l.align()));
            if !q.is_null() {
                q.write_bytes(0xa5, new);
                q.copy_from_nonoverlapping(p, l.size().min(new));
                p.write_bytes(0xdd, l.size());
                System.dealloc(p, l);
            }
            q
        } else {
            System.realloc(p, l, new)
        };
        if LIVE.load(SeqCst) > 0 {
            remove(p as usize, l.size(), l.align());
        }
        if ACTIVE.load(SeqCst) {
            insert(q as usize, new, l.align());
        }
        q
    }
}

#[cfg(not(miri))]
#[global_allocator]
static GLOBAL: Tracking = Tracking;

/// Guard: allocations are recorded while it lives.
pub struct Tracked(bool);
impl Tracked {
    pub fn off() -> Tracked {
        Tracked(ACTIVE.swap(false, SeqCst))
    }
    /// on, if the case asked for tracking at all
    pub fn on_if() -> Tracked {
        let was = ACTIVE.load(SeqCst);
        if ARMED.load(SeqCst) {
            ACTIVE.store(true, SeqCst);
        }
        Tracked(was)
    }
}
impl Drop for Tracked {
    fn drop(&mut self) {
        ACTIVE.store(self.0, SeqCst)
    }
}

/// Forget everything recorded so far; tracked calls record from now on if `armed`.
pub fn reset(armed: bool) {
    ACTIVE.store(false, SeqCst);
    ARMED.store(armed, SeqCst);
    if LIVE.load(SeqCst) > 0 {
        locked(|t| t.iter_mut().for_each(|s| s.ptr = 0));
    }
    LIVE.store(0, SeqCst);
    BYTES.store(0, SeqCst);
    BAD.store(0, SeqCst);
}
pub fn live() -> usize {
    LIVE.load(SeqCst)
}
pub fn bytes() -> usize {
    BYTES.load(SeqCst)
}
pub fn bad_frees() -> usize {
    BAD.load(SeqCst)
}
/// (address, size) of all recorded blocks, sorted.
pub fn blocks() -> Vec<(usize, usize)> {
    let _off = Tracked::off();
    let mut v = Vec::with_capacity(live() + 8);
    let cap = v.capacity();
    locked(|t| t.iter().filter(|s| s.ptr != 0).take(cap).for_each(|s| v.push((s.ptr, s.size))));
    v.sort();
    v
}
/// Whether [p, p + n) is inside one recorded block.
pub fn inside(p: usize, n: usize) -> bool {
    // pages are found by looking at the few candidates: this is only called with few blocks alive
    locked(|t| {
        if let Some((b, s)) = unsafe { LAST } {
            if p >= b && p + n <= b + s && t_has(t, b, s) {
                return true;
            }
        }
        for s in t.iter() {
            if s.ptr != 0 && p >= s.ptr && p + n <= s.ptr + s.size {
                unsafe { LAST = Some((s.ptr, s.size)) };
                return true;
            }
        }
        false
    })
}
static mut LAST: Option<(usize, usize)> = None;
fn t_has(t: &[Slot; N], ptr: usize, size: usize) -> bool {
    let mut i = hash(ptr);
    while t[i].ptr != 0 {
        if t[i].ptr == ptr {
            return t[i].size == size;
        }
        i = (i + 1) % N;
    }
    false
}
/// How many recorded blocks have this size, vectors of 4 byte integers aside.
pub fn blocks_of(size: usize) -> usize {
    locked(|t| t.iter().filter(|s| s.ptr != 0 && s.size == size && s.align != 4).count())
}

/// No case is running any more.
pub fn quiesce() {
    ACTIVE.store(false, SeqCst);
    ARMED.store(false, SeqCst);
}
