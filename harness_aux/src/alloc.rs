//! Allocator that accounts, per thread, for the memory allocated while tracking is on (inside
//! calls of the interface under test). Tracked blocks that are released are overwritten and kept
//! aside until the end of the case, so that releasing one twice is recognised and reading one
//! gives garbage.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Audit;

const LIVE: u64 = 0x11fe_b10c_11fe_b10c;
const DEAD: u64 = 0xdead_b10c_dead_b10c;
const PLAIN: u64 = 0x97a1_b10c_97a1_b10c;

#[repr(C)]
struct Head {
    magic: u64,
    size: usize,
    align: usize,
    next: *mut Head,
}

thread_local! {
    static ON: Cell<bool> = const { Cell::new(false) };
    static LIVE_N: Cell<i64> = const { Cell::new(0) };
    static TOTAL_N: Cell<u64> = const { Cell::new(0) };
    static DOUBLE: Cell<u64> = const { Cell::new(0) };
    static KEPT: Cell<*mut Head> = const { Cell::new(std::ptr::null_mut()) };
    /// tracked blocks released by this thread are kept aside while this is set
    static CASE: Cell<bool> = const { Cell::new(false) };
}

fn pad(align: usize) -> usize {
    std::mem::size_of::<Head>().max(align).next_multiple_of(align)
}

unsafe impl GlobalAlloc for Audit {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = pad(l.align());
        let Ok(full) = Layout::from_size_align(p + l.size(), l.align().max(16)) else { return std::ptr::null_mut() };
        let raw = System.alloc(full);
        if raw.is_null() {
            return raw;
        }
        let user = raw.add(p);
        let on = ON.with(|c| c.get());
        let head = user.sub(std::mem::size_of::<Head>()) as *mut Head;
        head.write(Head { magic: if on { LIVE } else { PLAIN }, size: l.size(), align: l.align(), next: std::ptr::null_mut() });
        if on {
            LIVE_N.with(|c| c.set(c.get() + 1));
            TOTAL_N.with(|c| c.set(c.get() + 1));
        }
        user
    }
    unsafe fn dealloc(&self, user: *mut u8, l: Layout) {
        let head = user.sub(std::mem::size_of::<Head>()) as *mut Head;
        match (*head).magic {
            LIVE => {
                LIVE_N.with(|c| c.set(c.get() - 1));
                (*head).magic = DEAD;
                if CASE.with(|c| c.get()) {
                    std::ptr::write_bytes(user, 0xDD, (*head).size);
                    (*head).next = KEPT.with(|c| c.get());
                    KEPT.with(|c| c.set(head));
                } else {
                    free(user, l.size(), l.align());
                }
            }
            DEAD => DOUBLE.with(|c| c.set(c.get() + 1)),
            PLAIN => free(user, l.size(), l.align()),
            // not a block of ours (or its header was overwritten)
            _ => DOUBLE.with(|c| c.set(c.get() + 1)),
        }
    }
}

unsafe fn free(user: *mut u8, size: usize, align: usize) {
    let p = pad(align);
    let head = user.sub(std::mem::size_of::<Head>()) as *mut Head;
    (*head).magic = DEAD;
    System.dealloc(user.sub(p), Layout::from_size_align_unchecked(p + size, align.max(16)));
}

/// Run with tracking on.
pub fn tracked<R>(f: impl FnOnce() -> R) -> R {
    let was = ON.with(|c| c.replace(CASE.with(|k| k.get())));
    let r = f();
    ON.with(|c| c.set(was));
    r
}
/// Run with tracking off (nested inside a tracked call: the panic hook).
pub fn untracked<R>(f: impl FnOnce() -> R) -> R {
    let was = ON.with(|c| c.replace(false));
    let r = f();
    ON.with(|c| c.set(was));
    r
}

pub struct Account {
    pub live: i64,
    pub total: u64,
    pub double: u64,
}

pub fn begin() {
    LIVE_N.with(|c| c.set(0));
    TOTAL_N.with(|c| c.set(0));
    DOUBLE.with(|c| c.set(0));
    CASE.with(|c| c.set(true));
}
pub fn account() -> Account {
    Account { live: LIVE_N.with(|c| c.get()), total: TOTAL_N.with(|c| c.get()), double: DOUBLE.with(|c| c.get()) }
}
pub fn end() {
    CASE.with(|c| c.set(false));
    ON.with(|c| c.set(false));
    loop {
        let head = KEPT.with(|c| c.get());
        if head.is_null() {
            return;
        }
        unsafe {
            KEPT.with(|c| c.set((*head).next));
            let user = (head as *mut u8).add(std::mem::size_of::<Head>());
            free(user, (*head).size, (*head).align);
        }
    }
}
