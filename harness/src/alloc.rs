//! A checking global allocator.  It records (never aborts on) every invalid request, surrounds blocks
//! with red zones, aligns a block to exactly the requested alignment and no more, always moves on
//! realloc, fills fresh and freed memory with patterns and keeps small freed blocks in quarantine.
use core::sync::atomic::{AtomicBool, AtomicI64, AtomicU32, AtomicUsize, Ordering::SeqCst};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::UnsafeCell;

pub struct Checking;

/// Set while a call into the code under test runs (blocks allocated then belong to the registry).
pub struct ApiFlag;
pub static IN_API: ApiFlag = ApiFlag;
thread_local! {
    static FLAG: core::cell::Cell<bool> = const { core::cell::Cell::new(false) };
}
impl ApiFlag {
    pub fn load(&self) -> bool {
        FLAG.with(|f| f.get())
    }
    pub fn store(&self, v: bool) {
        FLAG.with(|f| f.set(v))
    }
    pub fn swap(&self, v: bool) -> bool {
        FLAG.with(|f| f.replace(v))
    }
}
/// The registry the running call is for (tags its blocks and drops); per thread.
pub struct Current;
pub static CUR: Current = Current;
thread_local! {
    static REG: core::cell::Cell<usize> = const { core::cell::Cell::new(0) };
}
impl Current {
    pub fn load(&self) -> usize {
        REG.with(|f| f.get())
    }
    pub fn store(&self, v: usize) {
        REG.with(|f| f.set(v))
    }
}
/// Keep the sorted table of live blocks (needed for the containment check of references).
pub static TABLE_ON: AtomicBool = AtomicBool::new(true);
/// Disable quarantine and memory fills for very large populations.
pub static FAST: AtomicBool = AtomicBool::new(false);

pub const MAXR: usize = 64;
#[allow(clippy::declare_interior_mutable_const)]
const Z: AtomicI64 = AtomicI64::new(0);
/// Number of live blocks per registry.
pub static LIVE: [AtomicI64; MAXR] = [Z; MAXR];
/// Number of bytes in them.
pub static BYTES: [AtomicI64; MAXR] = [Z; MAXR];

/// The request for memory that is to be refused, counted from the next one (0: none), and whether one was.
pub static OOM_LEFT: AtomicI64 = AtomicI64::new(0);
pub static OOM_FIRED: AtomicBool = AtomicBool::new(false);

pub const F_ZERO: usize = 0;
pub const F_LAYOUT: usize = 1;
pub const F_REDZONE: usize = 2;
pub const F_DFREE: usize = 3;
pub const F_WFREE: usize = 4;
pub const F_BADALIGN: usize = 5;
const NF: usize = 6;
pub const FAULT_NAMES: [&str; NF] = ["zero", "layout", "redzone", "dfree", "wfree", "badalign"];
#[allow(clippy::declare_interior_mutable_const)]
const ZU: AtomicU32 = AtomicU32::new(0);
pub static FAULTS: [AtomicU32; NF] = [ZU; NF];

const MAGIC: u64 = 0x5AFE_B10C_5AFE_B10C;
const DEAD: u64 = 0xDEAD_B10C_DEAD_B10C;
const RED: usize = 32;
const HDR: usize = 64;

#[repr(C)]
struct Header {
    magic: u64,
    size: usize,
    align: usize,
    base: usize,
    total: usize,
    base_align: usize,
    tag: usize, // 0 = harness, r+1 = registry r
    pad: usize,
}

struct Lock(AtomicBool);
impl Lock {
    fn with<R>(&self, f: impl FnOnce() -> R) -> R {
        while self.0.compare_exchange(false, true, SeqCst, SeqCst).is_err() {
            core::hint::spin_loop();
        }
        let r = f();
        self.0.store(false, SeqCst);
        r
    }
}
static LOCK: Lock = Lock(AtomicBool::new(false));

/// Sorted (start, end) table of live registry blocks, in memory of the system allocator.
struct Table {
    ptr: *mut (usize, usize),
    len: usize,
    cap: usize,
}
struct Shared<T>(UnsafeCell<T>);
unsafe impl<T> Sync for Shared<T> {}
static TABLE: Shared<Table> = Shared(UnsafeCell::new(Table {
    ptr: core::ptr::null_mut(),
    len: 0,
    cap: 0,
}));
const QN: usize = 512;
static QUARANTINE: Shared<[usize; QN]> = Shared(UnsafeCell::new([0; QN]));
static QPOS: AtomicUsize = AtomicUsize::new(0);

fn fault(k: usize) {
    FAULTS[k].fetch_add(1, SeqCst);
}

impl Table {
    unsafe fn find(&self, start: usize) -> Result<usize, usize> {
        if self.len == 0 {
            return Err(0);
        }
        core::slice::from_raw_parts(self.ptr, self.len).binary_search_by_key(&start, |e| e.0)
    }
    unsafe fn insert(&mut self, s: usize, e: usize) {
        if self.len == self.cap {
            let ncap = if self.cap == 0 { 1024 } else { self.cap * 2 };
            let n = System.alloc(Layout::array::<(usize, usize)>(ncap).unwrap()) as *mut (usize, usize);
            if self.cap > 0 {
                core::ptr::copy_nonoverlapping(self.ptr, n, self.len);
                System.dealloc(self.ptr as *mut u8, Layout::array::<(usize, usize)>(self.cap).unwrap());
            }
            self.ptr = n;
            self.cap = ncap;
        }
        let i = match self.find(s) {
            Ok(i) => i,
            Err(i) => i,
        };
        core::ptr::copy(self.ptr.add(i), self.ptr.add(i + 1), self.len - i);
        *self.ptr.add(i) = (s, e);
        self.len += 1;
    }
    unsafe fn remove(&mut self, s: usize) {
        if let Ok(i) = self.find(s) {
            core::ptr::copy(self.ptr.add(i + 1), self.ptr.add(i), self.len - i - 1);
            self.len -= 1;
        }
    }
}

/// Whether [p, p+n) lies inside one live registry block.
pub fn inside(p: usize, n: usize) -> bool {
    if !TABLE_ON.load(SeqCst) {
        return true;
    }
    LOCK.with(|| unsafe {
        let t = &*TABLE.0.get();
        let i = match t.find(p) {
            Ok(i) => i + 1,
            Err(i) => i,
        };
        if i == 0 {
            return false;
        }
        let (s, e) = *t.ptr.add(i - 1);
        s <= p && p + n <= e
    })
}

unsafe fn check_red(user: *mut u8, size: usize) -> bool {
    let mut ok = true;
    for i in 0..RED {
        if *user.add(size + i) != 0xC7 {
            ok = false;
        }
    }
    ok
}

unsafe impl GlobalAlloc for Checking {
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        let size = layout.size();
        let mut align = layout.align();
        let api = IN_API.load();
        if size == 0 && api {
            fault(F_ZERO);
        }
        if api && OOM_LEFT.load(SeqCst) > 0 && OOM_LEFT.fetch_sub(1, SeqCst) == 1 {
            OOM_FIRED.store(true, SeqCst);
            return core::ptr::null_mut();
        }
        if !align.is_power_of_two() {
            fault(F_BADALIGN);
            align = 1;
        }
        // The user pointer is an odd multiple of `align`: aligned as asked for and not better.
        let big = core::cmp::max(align * 2, 16);
        let total = HDR + size + RED + 2 * big;
        let base = System.alloc(Layout::from_size_align_unchecked(total, big));
        if base.is_null() {
            return base;
        }
        let mut user = base as usize + HDR;
        user = (user + big - 1) / big * big + align;
        let hp = header_of(user as *mut u8);
        let tag = if api { CUR.load() + 1 } else { 0 };
        hp.write_unaligned(Header {
            magic: MAGIC,
            size,
            align,
            base: base as usize,
            total,
            base_align: big,
            tag,
            pad: 0,
        });
        let user = user as *mut u8;
        if !FAST.load(SeqCst) {
            core::ptr::write_bytes(user, 0xA5, size);
        }
        core::ptr::write_bytes(user.add(size), 0xC7, RED);
        if tag != 0 {
            LIVE[tag - 1].fetch_add(1, SeqCst);
            BYTES[tag - 1].fetch_add(size as i64, SeqCst);
            if TABLE_ON.load(SeqCst) {
                LOCK.with(|| (*TABLE.0.get()).insert(user as usize, user as usize + size));
            }
        }
        user
    }

    unsafe fn dealloc(&self, ptr: *mut u8, layout: Layout) {
        if ptr.is_null() || (ptr as usize) < 4096 {
            fault(F_DFREE);
            return;
        }
        let hp = header_of(ptr);
        let mut h = hp.read_unaligned();
        if h.magic != MAGIC {
            // Freed twice, or never obtained here.
            fault(F_DFREE);
            return;
        }
        if h.size != layout.size() || h.align != layout.align() {
            fault(F_LAYOUT);
        }
        if !check_red(ptr, h.size) {
            fault(F_REDZONE);
        }
        h.magic = DEAD;
        hp.write_unaligned(h);
        let h = hp.read_unaligned();
        if h.tag != 0 {
            LIVE[h.tag - 1].fetch_sub(1, SeqCst);
            BYTES[h.tag - 1].fetch_sub(h.size as i64, SeqCst);
            if TABLE_ON.load(SeqCst) {
                LOCK.with(|| (*TABLE.0.get()).remove(ptr as usize));
            }
        }
        if FAST.load(SeqCst) || h.size > 1 << 16 {
            raw_release(ptr);
            return;
        }
        core::ptr::write_bytes(ptr, 0xDD, h.size);
        let old = LOCK.with(|| {
            let i = QPOS.fetch_add(1, SeqCst) % QN;
            let q = &mut *QUARANTINE.0.get();
            core::mem::replace(&mut q[i], ptr as usize)
        });
        if old != 0 {
            let o = old as *mut u8;
            let oh = header_of(o).read_unaligned();
            for i in 0..oh.size {
                if *o.add(i) != 0xDD {
                    fault(F_WFREE);
                    break;
                }
            }
            raw_release(o);
        }
    }

    unsafe fn realloc(&self, ptr: *mut u8, layout: Layout, new_size: usize) -> *mut u8 {
        if new_size == 0 && IN_API.load() {
            fault(F_ZERO);
        }
        let n = self.alloc(Layout::from_size_align_unchecked(new_size, layout.align()));
        if n.is_null() {
            return n;
        }
        if !ptr.is_null() && (ptr as usize) >= 4096 {
            let h = header_of(ptr).read_unaligned();
            if h.magic == MAGIC {
                // Copy what the block really holds, so that a wrong layout is a recorded fault only.
                let c = core::cmp::min(h.size, new_size);
                core::ptr::copy_nonoverlapping(ptr, n, c);
            }
        }
        self.dealloc(ptr, layout);
        n
    }
}

unsafe fn header_of(user: *mut u8) -> *mut Header {
    user.sub(HDR) as *mut Header
}
unsafe fn raw_release(user: *mut u8) {
    let h = header_of(user).read_unaligned();
    System.dealloc(
        h.base as *mut u8,
        Layout::from_size_align_unchecked(h.total, h.base_align),
    );
}

/// Checks the red zones and poison that are still in place (called when a registry was dropped).
pub fn sweep() {
    unsafe {
        LOCK.with(|| {
            let q = &*QUARANTINE.0.get();
            for &p in q.iter() {
                if p != 0 {
                    let o = p as *mut u8;
                    let oh = header_of(o).read_unaligned();
                    for i in 0..oh.size {
                        if *o.add(i) != 0xDD {
                            fault(F_WFREE);
                            break;
                        }
                    }
                }
            }
            let t = &*TABLE.0.get();
            for i in 0..t.len {
                let (s, e) = *t.ptr.add(i);
                if !check_red(s as *mut u8, e - s) {
                    fault(F_REDZONE);
                }
            }
        })
    }
}

pub fn take_faults() -> Vec<&'static str> {
    let mut v = Vec::new();
    for i in 0..NF {
        if FAULTS[i].swap(0, SeqCst) > 0 {
            v.push(FAULT_NAMES[i]);
        }
    }
    v
}
