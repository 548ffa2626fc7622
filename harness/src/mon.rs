//! Monitoring global allocator: fault injection, allocation ledger, red zones, poison, quarantine.
//!
//! Faults apply only inside a *scope* (around the operation under test) on the current thread.
//! In guard mode every block carries a header (magic, size, align, scope tag) and a tail red zone;
//! freed blocks are poisoned and quarantined, and the poison is checked on eviction.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicI64, AtomicU32, AtomicU64, Ordering::Relaxed};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Fault {
    None,
    /// fail only the k-th request
    Nth(u32),
    /// fail the k-th request and all later ones
    From(u32),
    /// request i fails when bit i%64 is set
    Mask(u64),
    /// fail requests larger than this many bytes
    SizeOver(u64),
}

pub const PLAIN: bool = cfg!(feature = "plain") || cfg!(miri);
/// Requests above this size are refused as a small machine would (not counted as injected).
pub const CAP: usize = if cfg!(miri) { 1 << 22 } else { 256 << 20 };

struct Tls {
    scope: Cell<bool>,
    kind: Cell<u8>,
    arg: Cell<u64>,
    att: Cell<u32>,
    inj: Cell<u32>,
    refused: Cell<u32>,
    bytes: Cell<u64>,
    biggest: Cell<u64>,
    frees: Cell<u32>,
    reallocs: Cell<u32>,
    qpos: Cell<usize>,
    q: [Cell<*mut u8>; QN],
}
const QN: usize = if PLAIN { 1 } else { 512 };
const NULLC: Cell<*mut u8> = Cell::new(std::ptr::null_mut());

thread_local! {
    static T: Tls = const { Tls {
        scope: Cell::new(false), kind: Cell::new(0), arg: Cell::new(0), att: Cell::new(0),
        inj: Cell::new(0), refused: Cell::new(0), bytes: Cell::new(0), biggest: Cell::new(0),
        frees: Cell::new(0), reallocs: Cell::new(0), qpos: Cell::new(0), q: [NULLC; QN],
    } };
}

/// Blocks and bytes allocated inside scopes and not yet freed (guard mode only).
pub static LIVE_BLOCKS: AtomicI64 = AtomicI64::new(0);
pub static LIVE_BYTES: AtomicI64 = AtomicI64::new(0);
pub static TOTAL_ALLOCS: AtomicU64 = AtomicU64::new(0);
pub static TOTAL_FREES: AtomicU64 = AtomicU64::new(0);
pub static TOTAL_INJ: AtomicU64 = AtomicU64::new(0);
pub static GUARD_CHECKS: AtomicU64 = AtomicU64::new(0);
/// First memory error seen: 0 none, otherwise see `err_text`.
pub static ERR: AtomicU32 = AtomicU32::new(0);
pub static ERR_A: AtomicU64 = AtomicU64::new(0);
pub static ERR_B: AtomicU64 = AtomicU64::new(0);

fn err(code: u32, a: u64, b: u64) {
    if ERR.compare_exchange(0, code, Relaxed, Relaxed).is_ok() {
        ERR_A.store(a, Relaxed);
        ERR_B.store(b, Relaxed);
    }
}
pub fn err_text(code: u32) -> &'static str {
    match code {
        1 => "block freed twice",
        2 => "pointer freed or reallocated that is not a live block",
        3 => "block freed with a size other than the one allocated (freed/allocated)",
        4 => "block freed with an alignment other than the one allocated (freed/allocated)",
        5 => "bytes after the end of a block were overwritten (size/offset)",
        6 => "a freed block was written to (size/offset)",
        7 => "zero-sized layout passed to the allocator",
        _ => "unknown memory error",
    }
}

#[derive(Clone, Copy, Debug, Default)]
pub struct Meas {
    pub att: u32,
    pub inj: u32,
    pub refused: u32,
    pub bytes: u64,
    pub biggest: u64,
    pub frees: u32,
    pub reallocs: u32,
}

pub fn begin(f: Fault) {
    let (k, a) = match f {
        Fault::None => (0, 0),
        Fault::Nth(n) => (1, n as u64),
        Fault::From(n) => (2, n as u64),
        Fault::Mask(m) => (3, m),
        Fault::SizeOver(s) => (4, s),
    };
    T.with(|t| {
        t.kind.set(k);
        t.arg.set(a);
        t.att.set(0);
        t.inj.set(0);
        t.refused.set(0);
        t.bytes.set(0);
        t.biggest.set(0);
        t.frees.set(0);
        t.reallocs.set(0);
        t.scope.set(true);
    })
}
pub fn end() -> Meas {
    T.with(|t| {
        t.scope.set(false);
        t.kind.set(0);
        Meas {
            att: t.att.get(),
            inj: t.inj.get(),
            refused: t.refused.get(),
            bytes: t.bytes.get(),
            biggest: t.biggest.get(),
            frees: t.frees.get(),
            reallocs: t.reallocs.get(),
        }
    })
}
/// Stop injecting (called when a panic starts, so that unwinding itself can allocate).
pub fn disarm() {
    T.with(|t| t.kind.set(0))
}
/// Run harness code (e.g. inside a callback) outside the scope.
pub fn outside<R>(f: impl FnOnce() -> R) -> R {
    let s = T.with(|t| t.scope.replace(false));
    let r = f();
    T.with(|t| t.scope.set(s));
    r
}

/// Decides whether this request is to fail.
#[inline]
fn gate(size: usize) -> (bool, bool) {
    T.with(|t| {
        let mut fail = false;
        let tracked = t.scope.get();
        if tracked {
            let n = t.att.get();
            t.att.set(n.wrapping_add(1));
            t.bytes.set(t.bytes.get().wrapping_add(size as u64));
            if size as u64 > t.biggest.get() {
                t.biggest.set(size as u64)
            }
            let a = t.arg.get();
            fail = match t.kind.get() {
                0 => false,
                1 => n as u64 == a,
                2 => n as u64 >= a,
                3 => (a >> (n % 64)) & 1 == 1,
                4 => size as u64 > a,
                _ => false,
            };
            if fail {
                t.inj.set(t.inj.get() + 1);
                TOTAL_INJ.fetch_add(1, Relaxed);
            } else if size > CAP {
                t.refused.set(t.refused.get() + 1);
            }
        }
        (fail || size > CAP, tracked)
    })
}

const HDR: usize = 32;
const TAIL: usize = 16;
const LIVE: u64 = 0xA11C_0DE5_11FE_B10C;
const DEAD: u64 = 0xDEAD_B10C_DEAD_B10C;
const TAILB: u8 = 0x7E;
const NEWB: u8 = 0xA5;
const FREEB: u8 = 0xDD;

#[repr(C)]
struct Hdr {
    magic: u64,
    size: u64,
    align: u32,
    tag: u32,
    pad: u64,
}

#[inline]
fn pre(align: usize) -> usize {
    if align > HDR { align } else { HDR }
}
unsafe fn raw_alloc(size: usize, align: usize, tracked: bool, zero: bool) -> *mut u8 {
    let a = align.max(16);
    let p = pre(a);
    let lay = match Layout::from_size_align(p + size + TAIL, a) {
        Ok(l) => l,
        Err(_) => return std::ptr::null_mut(),
    };
    let base = if zero { System.alloc_zeroed(lay) } else { System.alloc(lay) };
    if base.is_null() {
        return base;
    }
    let user = base.add(p);
    let h = user.sub(HDR) as *mut Hdr;
    h.write(Hdr { magic: LIVE, size: size as u64, align: align as u32, tag: tracked as u32, pad: 0 });
    if !zero {
        // Very large fresh blocks: fill the beginning only.
        std::ptr::write_bytes(user, NEWB, size.min(1 << 20));
    }
    std::ptr::write_bytes(user.add(size), TAILB, TAIL);
    TOTAL_ALLOCS.fetch_add(1, Relaxed);
    if tracked {
        LIVE_BLOCKS.fetch_add(1, Relaxed);
        LIVE_BYTES.fetch_add(size as i64, Relaxed);
    }
    user
}
unsafe fn raw_release(user: *mut u8, size: usize, align: usize) {
    let a = align.max(16);
    let p = pre(a);
    System.dealloc(user.sub(p), Layout::from_size_align_unchecked(p + size + TAIL, a));
}
unsafe fn evict(user: *mut u8) {
    let h = user.sub(HDR) as *mut Hdr;
    let (size, align) = ((*h).size as usize, (*h).align as usize);
    GUARD_CHECKS.fetch_add(1, Relaxed);
    for i in 0..size {
        if *user.add(i) != FREEB {
            err(6, size as u64, i as u64);
            break;
        }
    }
    raw_release(user, size, align);
}
/// Checks the header; returns the true size and alignment when the block is live.
unsafe fn inspect(user: *mut u8, layout: Layout) -> Option<(usize, usize, bool)> {
    let h = user.sub(HDR) as *mut Hdr;
    GUARD_CHECKS.fetch_add(1, Relaxed);
    match (*h).magic {
        LIVE => {}
        DEAD => {
            err(1, layout.size() as u64, user as u64);
            return None;
        }
        _ => {
            err(2, layout.size() as u64, user as u64);
            return None;
        }
    }
    let (size, align) = ((*h).size as usize, (*h).align as usize);
    if size != layout.size() {
        err(3, layout.size() as u64, size as u64);
    }
    if align != layout.align() {
        err(4, layout.align() as u64, align as u64);
    }
    for i in 0..TAIL {
        if *user.add(size + i) != TAILB {
            err(5, size as u64, i as u64);
            break;
        }
    }
    Some((size, align, (*h).tag == 1))
}
unsafe fn raw_free(user: *mut u8, layout: Layout) {
    let (size, align, tracked) = match inspect(user, layout) {
        Some(x) => x,
        None => return,
    };
    let h = user.sub(HDR) as *mut Hdr;
    (*h).magic = DEAD;
    TOTAL_FREES.fetch_add(1, Relaxed);
    if tracked {
        LIVE_BLOCKS.fetch_sub(1, Relaxed);
        LIVE_BYTES.fetch_sub(size as i64, Relaxed);
    }
    if size > 1 << 16 {
        std::ptr::write_bytes(user, FREEB, 4096);
        raw_release(user, size, align);
        return;
    }
    std::ptr::write_bytes(user, FREEB, size);
    T.with(|t| {
        let i = t.qpos.get();
        let old = t.q[i].replace(user);
        t.qpos.set((i + 1) % QN);
        if !old.is_null() {
            evict(old);
        }
    })
}
/// Check everything in this thread's quarantine now.
pub fn flush() {
    if PLAIN {
        return;
    }
    T.with(|t| {
        for c in t.q.iter() {
            let p = c.replace(std::ptr::null_mut());
            if !p.is_null() {
                unsafe { evict(p) }
            }
        }
    })
}

pub struct Mon;
unsafe impl GlobalAlloc for Mon {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if l.size() == 0 {
            err(7, 0, 0);
        }
        let (fail, tracked) = gate(l.size());
        if fail {
            return std::ptr::null_mut();
        }
        if PLAIN {
            TOTAL_ALLOCS.fetch_add(1, Relaxed);
            return System.alloc(l);
        }
        raw_alloc(l.size(), l.align(), tracked, false)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let (fail, tracked) = gate(l.size());
        if fail {
            return std::ptr::null_mut();
        }
        if PLAIN {
            TOTAL_ALLOCS.fetch_add(1, Relaxed);
            return System.alloc_zeroed(l);
        }
        raw_alloc(l.size(), l.align(), tracked, true)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        T.with(|t| {
            if t.scope.get() {
                t.frees.set(t.frees.get() + 1)
            }
        });
        if PLAIN {
            TOTAL_FREES.fetch_add(1, Relaxed);
            return System.dealloc(p, l);
        }
        raw_free(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        let (fail, tracked) = gate(new);
        T.with(|t| {
            if t.scope.get() {
                t.reallocs.set(t.reallocs.get() + 1)
            }
        });
        if fail {
            return std::ptr::null_mut();
        }
        if PLAIN {
            return System.realloc(p, l, new);
        }
        match inspect(p, l) {
            None => std::ptr::null_mut(),
            Some((size, align, was)) => {
                let n = raw_alloc(new, align, tracked || was, false);
                if !n.is_null() {
                    std::ptr::copy_nonoverlapping(p, n, size.min(new));
                    raw_free(p, Layout::from_size_align_unchecked(size, align));
                }
                n
            }
        }
    }
}
