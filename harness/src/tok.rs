//! Element types whose life is followed: every element has a number, and construction, cloning,
//! comparison and dropping are checked against a table of which numbers are alive.
//! User callbacks (comparison, clone, drop, ...) can be made to panic, fail or be inconsistent.
use crate::mon;
use fallible_collections::{TryClone, TryReserveError};
use std::borrow::Borrow;
use std::cell::Cell;
use std::cmp::Ordering;
use std::fmt;
use std::hash::{Hash, Hasher};
use std::sync::atomic::{AtomicI64, AtomicU32, AtomicU64, AtomicU8, Ordering::Relaxed};

pub const NTOK: usize = if cfg!(miri) { 1 << 15 } else { 1 << 21 };
const UNUSED: u8 = 0;
const ALIVE: u8 = 1;
const DROPPED: u8 = 2;
#[cfg(not(miri))]
mod state {
    use super::*;
    static STATE: [AtomicU8; NTOK] = [const { AtomicU8::new(UNUSED) }; NTOK];
    #[inline]
    pub fn get(i: usize) -> u8 {
        STATE[i].load(Relaxed)
    }
    #[inline]
    pub fn set(i: usize, v: u8) -> u8 {
        STATE[i].swap(v, Relaxed)
    }
}
/// The interpreter tracks every reference ever made to a byte: go through a raw pointer there
/// (elements are only used on one thread under Miri).
#[cfg(miri)]
mod state {
    use super::*;
    static mut STATE: [u8; NTOK] = [UNUSED; NTOK];
    pub fn get(i: usize) -> u8 {
        unsafe { (&raw const STATE as *const u8).add(i).read() }
    }
    pub fn set(i: usize, v: u8) -> u8 {
        unsafe { (&raw mut STATE as *mut u8).add(i).replace(v) }
    }
}
static NEXT: AtomicU32 = AtomicU32::new(1);
pub static LIVE: AtomicI64 = AtomicI64::new(0);
pub static ZLIVE: AtomicI64 = AtomicI64::new(0);
pub static MADE: AtomicU64 = AtomicU64::new(0);
pub static DROPS: AtomicU64 = AtomicU64::new(0);
pub static CBS: AtomicU64 = AtomicU64::new(0);
pub static ERR: AtomicU32 = AtomicU32::new(0);
pub static ERR_ID: AtomicU32 = AtomicU32::new(0);

pub fn err(code: u32, id: u32) {
    if ERR.compare_exchange(0, code, Relaxed, Relaxed).is_ok() {
        ERR_ID.store(id, Relaxed);
    }
}
pub fn err_text(c: u32) -> &'static str {
    match c {
        1 => "an element was dropped twice",
        2 => "an element was used after it was dropped",
        3 => "an element slot holds bytes that are not an element",
        4 => "a reference to an element is misaligned",
        5 => "more zero-sized elements dropped than created",
        _ => "?",
    }
}

/// Forget all numbers (between cases, when nothing is alive). Returns how many were still alive.
pub fn reset() -> i64 {
    let n = (NEXT.swap(1, Relaxed) as usize).min(NTOK);
    for i in 0..n {
        state::set(i, UNUSED);
    }
    ZLIVE.store(0, Relaxed);
    LIVE.swap(0, Relaxed)
}
pub fn alive() -> i64 {
    LIVE.load(Relaxed) + ZLIVE.load(Relaxed)
}

// ---------------------------------------------------------------- callbacks

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
#[repr(u8)]
pub enum Cb {
    None,
    Cmp,
    Clone,
    TryClone,
    Drop,
    Hash,
    Closure,
    Next,
    Read,
    Default,
}
pub const NCB: usize = 10;
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Act {
    Panic,
    Fail,
}
/// What an injected panic carries.
pub struct Inj(pub Cb);

struct CbT {
    on: Cell<bool>,
    kind: Cell<u8>,
    at: Cell<u32>,
    fail: Cell<bool>,
    fired: Cell<bool>,
    counts: [Cell<u32>; NCB],
    ord: Cell<u8>,
    ordseed: Cell<u64>,
}
const ZC: Cell<u32> = Cell::new(0);
thread_local! {
    static C: CbT = const { CbT { on: Cell::new(false), kind: Cell::new(0), at: Cell::new(0), fail: Cell::new(false),
        fired: Cell::new(false), counts: [ZC; NCB], ord: Cell::new(0), ordseed: Cell::new(0) } };
}
pub fn cb_begin(plan: Option<(Cb, u32, Act)>) {
    C.with(|c| {
        for x in c.counts.iter() {
            x.set(0)
        }
        c.fired.set(false);
        match plan {
            None => c.kind.set(0),
            Some((k, at, a)) => {
                c.kind.set(k as u8);
                c.at.set(at);
                c.fail.set(a == Act::Fail);
            }
        }
        c.on.set(true);
    })
}
/// Ends the scope; returns whether the planned callback event happened.
pub fn cb_end() -> bool {
    C.with(|c| {
        c.on.set(false);
        c.kind.set(0);
        c.fired.get()
    })
}
pub fn cb_count(k: Cb) -> u32 {
    C.with(|c| c.counts[k as usize].get())
}
/// Called by user code that the library calls. True: this call is to report failure.
#[inline]
pub fn cb(k: Cb) -> bool {
    C.with(|c| {
        if !c.on.get() {
            return false;
        }
        let n = c.counts[k as usize].get();
        c.counts[k as usize].set(n + 1);
        if c.kind.get() == k as u8 && n == c.at.get() && !c.fired.get() {
            if c.fail.get() {
                c.fired.set(true);
                return true;
            }
            if std::thread::panicking() {
                return false;
            }
            c.fired.set(true);
            mon::disarm();
            std::panic::panic_any(Inj(k));
        }
        false
    })
}
/// Comparison behaviour: 0 consistent, others inconsistent (only inside scopes).
pub fn set_ord(mode: u8, seed: u64) {
    C.with(|c| {
        c.ord.set(mode);
        c.ordseed.set(seed)
    })
}
/// Hashes that do not agree with equality, or with themselves.
fn bent_hash(normal: u32) -> u32 {
    C.with(|c| {
        let m = c.ord.get();
        if m == 0 || !c.on.get() {
            return normal;
        }
        let s = c.ordseed.get().wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        c.ordseed.set(s);
        let r = (s >> 40) as u32;
        match m {
            1 | 7 => r,
            2 if r % 8 == 0 => r,
            3 => 0,
            4 => normal % 2,
            6 => normal ^ (r % 2),
            _ => normal,
        }
    })
}
fn bent(normal: Ordering) -> Ordering {
    C.with(|c| {
        let m = c.ord.get();
        if m == 0 || !c.on.get() {
            return normal;
        }
        let mut s = c.ordseed.get();
        s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        c.ordseed.set(s);
        let r = (s >> 40) as u32;
        match m {
            1 => match r % 3 {
                0 => Ordering::Less,
                1 => Ordering::Equal,
                _ => Ordering::Greater,
            },
            2 => {
                if r % 8 == 0 {
                    normal.reverse()
                } else {
                    normal
                }
            }
            3 => Ordering::Less,
            4 => Ordering::Greater,
            5 => Ordering::Equal,
            6 => {
                if r % 16 == 0 {
                    Ordering::Equal
                } else {
                    normal
                }
            }
            _ => {
                if r % 2 == 0 {
                    Ordering::Less
                } else {
                    Ordering::Greater
                }
            }
        }
    })
}

pub fn reserve_error() -> TryReserveError {
    Vec::<u64>::new().try_reserve(usize::MAX).unwrap_err()
}

// ---------------------------------------------------------------- elements

pub trait Elem: Sized + 'static + Ord + Hash + Clone + TryClone + fmt::Debug + Default {
    const NAME: &'static str;
    /// Elements carry a number that identifies them.
    const IDS: bool;
    const ZST: bool = false;
    /// How many different values there are.
    const DOM: u32;
    /// Allocates when cloned.
    const HEAP: bool = false;
    fn mk(v: u32) -> Self;
    fn val(&self) -> u32;
    fn uid(&self) -> u32 {
        0
    }
    /// Check that this is a live element at a proper address.
    fn check(&self) {}
    /// The bytes are those of memory nobody has written to (or has freed).
    fn raw(&self) -> bool {
        false
    }
    /// Overwrite the value in place (for elements used as map values).
    fn set(&mut self, v: u32);
}
/// An element usable as a map key with a borrowed form.
pub trait KeyE: Elem + Borrow<Self::Q> {
    type Q: ?Sized + Ord + Hash;
    fn q<R>(v: u32, f: impl FnOnce(&Self::Q) -> R) -> R;
}

/// A live-table registration; embedded in the tracked element types.
pub struct Core<const N: usize> {
    canary: u32,
    id: u32,
    val: [u32; N],
}
const CAN: u32 = 0xC0FF_EE11;
impl<const N: usize> Core<N> {
    fn new(v: u32) -> Self {
        let id = NEXT.fetch_add(1, Relaxed);
        if (id as usize) < NTOK {
            state::set(id as usize, ALIVE);
        } else {
            eprintln!("element table full");
            std::process::exit(12);
        }
        LIVE.fetch_add(1, Relaxed);
        MADE.fetch_add(1, Relaxed);
        Core { canary: CAN ^ id, id, val: [v; N] }
    }
    #[inline]
    fn check(&self) {
        if (self as *const Self as usize) % std::mem::align_of::<Self>() != 0 {
            err(4, 0);
            return;
        }
        let id = self.id;
        if self.canary ^ CAN != id || id as usize >= NTOK {
            err(3, id);
            return;
        }
        if state::get(id as usize) != ALIVE {
            err(2, id);
        }
        if N > 1 && self.val[0] != self.val[N - 1] {
            err(3, id);
        }
    }
}
impl<const N: usize> Drop for Core<N> {
    fn drop(&mut self) {
        let id = self.id;
        if self.canary ^ CAN != id || id as usize >= NTOK {
            err(3, id);
            return;
        }
        if state::set(id as usize, DROPPED) != ALIVE {
            err(1, id);
            return;
        }
        self.canary = 0x0BAD_0BAD;
        LIVE.fetch_sub(1, Relaxed);
        DROPS.fetch_add(1, Relaxed);
        CBS.fetch_add(1, Relaxed);
        cb(Cb::Drop);
    }
}

macro_rules! tracked {
    ($t:ident, $n:expr, $name:expr, $(#[$m:meta])*) => {
        $(#[$m])*
        pub struct $t { c: Core<$n> }
        impl $t { #[inline] fn chk(&self) {
            if (self as *const Self as usize) % std::mem::align_of::<Self>() != 0 { err(4, 0); return; }
            self.c.check() } }
        impl Elem for $t {
            const NAME: &'static str = $name;
            const IDS: bool = true;
            const DOM: u32 = u32::MAX;
            fn mk(v: u32) -> Self { $t { c: Core::new(v) } }
            fn val(&self) -> u32 { self.c.val[0] }
            fn uid(&self) -> u32 { self.c.id }
            fn check(&self) { self.chk() }
            fn set(&mut self, v: u32) { self.chk(); self.c.val = [v; $n]; }
        }
        impl Default for $t { fn default() -> Self { cb(Cb::Default); Self::mk(DEFV) } }
        impl Clone for $t {
            fn clone(&self) -> Self { self.chk(); cb(Cb::Clone); Self::mk(self.c.val[0]) }
        }
        impl TryClone for $t {
            fn try_clone(&self) -> Result<Self, TryReserveError> {
                self.chk();
                if cb(Cb::TryClone) { return Err(mon::outside(reserve_error)); }
                Ok(Self::mk(self.c.val[0]))
            }
        }
        impl PartialEq for $t { fn eq(&self, o: &Self) -> bool { self.chk(); o.chk(); cb(Cb::Cmp); bent(self.c.val[0].cmp(&o.c.val[0])) == Ordering::Equal } }
        impl Eq for $t {}
        impl PartialOrd for $t { fn partial_cmp(&self, o: &Self) -> Option<Ordering> { Some(self.cmp(o)) } }
        impl Ord for $t { fn cmp(&self, o: &Self) -> Ordering { self.chk(); o.chk(); cb(Cb::Cmp); bent(self.c.val[0].cmp(&o.c.val[0])) } }
        impl Hash for $t { fn hash<H: Hasher>(&self, h: &mut H) { self.chk(); cb(Cb::Hash); bent_hash(self.c.val[0]).hash(h) } }
        impl fmt::Debug for $t { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { self.chk(); write!(f, "{}", self.c.val[0]) } }
        impl Borrow<u32> for $t { fn borrow(&self) -> &u32 { self.chk(); &self.c.val[0] } }
        impl KeyE for $t { type Q = u32; fn q<R>(v: u32, f: impl FnOnce(&u32) -> R) -> R { f(&v) } }
    };
}
pub const DEFV: u32 = 77;
tracked!(Tok, 1, "tok12",);
tracked!(A64, 1, "align64", #[repr(align(64))]);
tracked!(A32, 1, "align32", #[repr(align(32))]);
tracked!(Big, 70, "big288",);

/// Tracked element that owns heap memory; its try_clone allocates fallibly.
pub struct HTok {
    t: Tok,
    b: Vec<u8>,
}
impl HTok {
    fn body(v: u32) -> [u8; 8] {
        [v as u8, (v >> 8) as u8, (v >> 16) as u8, (v >> 24) as u8, 1, 2, 3, 4]
    }
}
impl Elem for HTok {
    const NAME: &'static str = "heap";
    const IDS: bool = true;
    const DOM: u32 = u32::MAX;
    const HEAP: bool = true;
    fn mk(v: u32) -> Self {
        HTok { t: Tok::mk(v), b: mon::outside(|| Self::body(v).to_vec()) }
    }
    fn val(&self) -> u32 {
        self.t.val()
    }
    fn uid(&self) -> u32 {
        self.t.uid()
    }
    fn check(&self) {
        self.t.check();
        if ERR.load(Relaxed) == 0 && self.b[..] != Self::body(self.t.val())[..] {
            err(3, self.t.uid())
        }
    }
    fn set(&mut self, v: u32) {
        self.check();
        self.t.set(v);
        self.b.copy_from_slice(&Self::body(v));
    }
}
impl Default for HTok {
    fn default() -> Self {
        cb(Cb::Default);
        Self::mk(DEFV)
    }
}
impl Clone for HTok {
    fn clone(&self) -> Self {
        self.check();
        HTok { t: self.t.clone(), b: mon::outside(|| self.b.clone()) }
    }
}
impl TryClone for HTok {
    fn try_clone(&self) -> Result<Self, TryReserveError> {
        self.check();
        let t = self.t.try_clone()?;
        let mut b: Vec<u8> = Vec::new();
        b.try_reserve_exact(8)?;
        b.extend_from_slice(&self.b);
        Ok(HTok { t, b })
    }
}
impl PartialEq for HTok {
    fn eq(&self, o: &Self) -> bool {
        self.t == o.t
    }
}
impl Eq for HTok {}
impl PartialOrd for HTok {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for HTok {
    fn cmp(&self, o: &Self) -> Ordering {
        self.t.cmp(&o.t)
    }
}
impl Hash for HTok {
    fn hash<H: Hasher>(&self, h: &mut H) {
        self.t.hash(h)
    }
}
impl fmt::Debug for HTok {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.t.fmt(f)
    }
}
impl Borrow<u32> for HTok {
    fn borrow(&self) -> &u32 {
        self.t.borrow()
    }
}
impl KeyE for HTok {
    type Q = u32;
    fn q<R>(v: u32, f: impl FnOnce(&u32) -> R) -> R {
        f(&v)
    }
}

/// A key whose hash takes only a few values.
pub struct ColQ(u32);
impl PartialEq for ColQ {
    fn eq(&self, o: &Self) -> bool {
        self.0 == o.0
    }
}
impl Eq for ColQ {}
impl PartialOrd for ColQ {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for ColQ {
    fn cmp(&self, o: &Self) -> Ordering {
        self.0.cmp(&o.0)
    }
}
impl Hash for ColQ {
    fn hash<H: Hasher>(&self, h: &mut H) {
        cb(Cb::Hash);
        (self.0 % 3).hash(h)
    }
}
pub struct Col {
    q: ColQ,
    t: Tok,
}
impl Elem for Col {
    const NAME: &'static str = "collide";
    const IDS: bool = true;
    const DOM: u32 = u32::MAX;
    fn mk(v: u32) -> Self {
        Col { q: ColQ(v), t: Tok::mk(v) }
    }
    fn val(&self) -> u32 {
        self.t.val()
    }
    fn uid(&self) -> u32 {
        self.t.uid()
    }
    fn check(&self) {
        self.t.check();
        if self.q.0 != self.t.val() {
            err(3, self.t.uid())
        }
    }
    fn set(&mut self, _: u32) {}
}
impl Default for Col {
    fn default() -> Self {
        Self::mk(DEFV)
    }
}
impl Clone for Col {
    fn clone(&self) -> Self {
        Col { q: ColQ(self.q.0), t: self.t.clone() }
    }
}
impl TryClone for Col {
    fn try_clone(&self) -> Result<Self, TryReserveError> {
        Ok(Col { q: ColQ(self.q.0), t: self.t.try_clone()? })
    }
}
impl PartialEq for Col {
    fn eq(&self, o: &Self) -> bool {
        self.t == o.t
    }
}
impl Eq for Col {}
impl PartialOrd for Col {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Col {
    fn cmp(&self, o: &Self) -> Ordering {
        self.t.cmp(&o.t)
    }
}
impl Hash for Col {
    fn hash<H: Hasher>(&self, h: &mut H) {
        self.check();
        self.q.hash(h)
    }
}
impl fmt::Debug for Col {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.t.fmt(f)
    }
}
impl Borrow<ColQ> for Col {
    fn borrow(&self) -> &ColQ {
        self.check();
        &self.q
    }
}
impl KeyE for Col {
    type Q = ColQ;
    fn q<R>(v: u32, f: impl FnOnce(&ColQ) -> R) -> R {
        f(&ColQ(v))
    }
}

/// A string key, looked up by `str`.
#[derive(PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct SKey(String);
impl Clone for SKey {
    fn clone(&self) -> Self {
        SKey(mon::outside(|| self.0.clone()))
    }
}
impl Elem for SKey {
    const NAME: &'static str = "string";
    const IDS: bool = false;
    const DOM: u32 = u32::MAX;
    const HEAP: bool = true;
    fn mk(v: u32) -> Self {
        SKey(mon::outside(|| format!("{:010}", v)))
    }
    fn val(&self) -> u32 {
        self.0.parse().unwrap_or_else(|_| {
            err(3, 0);
            0
        })
    }
    fn set(&mut self, v: u32) {
        *self = SKey::mk(v)
    }
}
impl Default for SKey {
    fn default() -> Self {
        Self::mk(DEFV)
    }
}
impl TryClone for SKey {
    fn try_clone(&self) -> Result<Self, TryReserveError> {
        if cb(Cb::TryClone) {
            return Err(mon::outside(reserve_error));
        }
        let mut s = String::new();
        s.try_reserve_exact(self.0.len())?;
        s.push_str(&self.0);
        Ok(SKey(s))
    }
}
impl fmt::Debug for SKey {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.0.fmt(f)
    }
}
impl Borrow<str> for SKey {
    fn borrow(&self) -> &str {
        &self.0
    }
}
impl KeyE for SKey {
    type Q = str;
    fn q<R>(v: u32, f: impl FnOnce(&str) -> R) -> R {
        let mut b = [0u8; 10];
        let mut x = v;
        for i in (0..10).rev() {
            b[i] = b'0' + (x % 10) as u8;
            x /= 10;
        }
        f(std::str::from_utf8(&b).unwrap())
    }
}

/// Zero-sized element, counted.
#[derive(PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Z(());
impl Elem for Z {
    const NAME: &'static str = "zst";
    const IDS: bool = false;
    const ZST: bool = true;
    const DOM: u32 = 1;
    fn mk(_: u32) -> Self {
        ZLIVE.fetch_add(1, Relaxed);
        MADE.fetch_add(1, Relaxed);
        Z(())
    }
    fn val(&self) -> u32 {
        0
    }
    fn set(&mut self, _: u32) {}
}
impl Drop for Z {
    fn drop(&mut self) {
        DROPS.fetch_add(1, Relaxed);
        if ZLIVE.fetch_sub(1, Relaxed) <= 0 {
            err(5, 0)
        }
        cb(Cb::Drop);
    }
}
impl Default for Z {
    fn default() -> Self {
        cb(Cb::Default);
        Self::mk(0)
    }
}
impl Clone for Z {
    fn clone(&self) -> Self {
        cb(Cb::Clone);
        Self::mk(0)
    }
}
impl TryClone for Z {
    fn try_clone(&self) -> Result<Self, TryReserveError> {
        if cb(Cb::TryClone) {
            return Err(mon::outside(reserve_error));
        }
        Ok(Self::mk(0))
    }
}
impl fmt::Debug for Z {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "Z")
    }
}
impl KeyE for Z {
    type Q = Z;
    fn q<R>(v: u32, f: impl FnOnce(&Z) -> R) -> R {
        let z = Z::mk(v);
        f(&z)
    }
}

/// What the monitoring allocator (or AddressSanitizer) fills fresh and freed blocks with.
pub fn unwritten(b: &[u8]) -> bool {
    [0xA5, 0xDD, 0xBE].iter().any(|p| b.iter().all(|x| x == p))
}
macro_rules! plain {
    ($($t:ty),*) => {$(
        impl Elem for $t {
            const NAME: &'static str = stringify!($t);
            const IDS: bool = false;
            const DOM: u32 = if std::mem::size_of::<$t>() == 1 { 256 } else if std::mem::size_of::<$t>() == 2 { 65536 } else { u32::MAX };
            fn mk(v: u32) -> Self { v as $t }
            fn val(&self) -> u32 { *self as u32 }
            fn raw(&self) -> bool { std::mem::size_of::<$t>() >= 4 && unwritten(&self.to_ne_bytes()) }
            fn set(&mut self, v: u32) { *self = v as $t }
        }
        impl KeyE for $t { type Q = $t; fn q<R>(v: u32, f: impl FnOnce(&$t) -> R) -> R { f(&(v as $t)) } }
    )*};
}
plain!(u8, u16, u32, u64, usize);

/// Copy types for the `T: Copy` operations (they are not TryClone in the library).
macro_rules! copyel {
    ($t:ident, $inner:ty, $zst:expr, $dom:expr, $mk:expr, $val:expr, $(#[$m:meta])*) => {
        #[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug, Default)]
        $(#[$m])*
        pub struct $t(pub $inner);
        impl TryClone for $t { fn try_clone(&self) -> Result<Self, TryReserveError> {
            if cb(Cb::TryClone) { return Err(mon::outside(reserve_error)); }
            Ok(*self) } }
        impl Elem for $t {
            const NAME: &'static str = stringify!($t);
            const IDS: bool = false;
            const ZST: bool = $zst;
            const DOM: u32 = $dom;
            fn mk(v: u32) -> Self { ($mk)(v) }
            fn val(&self) -> u32 { ($val)(self) }
            fn check(&self) { if (self as *const Self as usize) % std::mem::align_of::<Self>() != 0 { err(4, 0) } }
            fn raw(&self) -> bool { unwritten(&self.val().to_ne_bytes()) }
            fn set(&mut self, v: u32) { *self = Self::mk(v) }
        }
        impl KeyE for $t { type Q = $t; fn q<R>(v: u32, f: impl FnOnce(&$t) -> R) -> R { f(&<$t>::mk(v)) } }
    };
}
copyel!(C3, [u8; 3], false, 256, |v: u32| C3([v as u8; 3]), |s: &C3| {
    if s.0[0] != s.0[2] { err(3, 0) }
    s.0[0] as u32
},);
/// Blocks larger than a page, with and without an alignment of their own.
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
pub struct Blk<const N: usize>([u32; N]);
impl<const N: usize> Default for Blk<N> {
    fn default() -> Self {
        Blk([0; N])
    }
}
impl<const N: usize> Blk<N> {
    fn of(v: u32) -> Self {
        let mut b = [v; N];
        for (i, x) in b.iter_mut().enumerate() {
            *x ^= (i as u32).wrapping_mul(0x9E37_79B9);
        }
        Blk(b)
    }
    fn get(&self) -> u32 {
        let v = self.0[0];
        for i in (0..N).step_by(1 + N / 37).chain([N - 1]) {
            if self.0[i] ^ (i as u32).wrapping_mul(0x9E37_79B9) != v {
                err(3, 0);
                break;
            }
        }
        v
    }
}
copyel!(B20, Blk<5>, false, u32::MAX, |v: u32| B20(Blk::of(v)), |s: &B20| s.0.get(),);
copyel!(BPage, Blk<1100>, false, u32::MAX, |v: u32| BPage(Blk::of(v)), |s: &BPage| s.0.get(),);
copyel!(BPage64, Blk<1024>, false, u32::MAX, |v: u32| BPage64(Blk::of(v)), |s: &BPage64| s.0.get(), #[repr(align(64))]);
copyel!(BPageA, Blk<1025>, false, u32::MAX, |v: u32| BPageA(Blk::of(v)), |s: &BPageA| s.0.get(), #[repr(align(4096))]);
copyel!(B64k, Blk<16500>, false, u32::MAX, |v: u32| B64k(Blk::of(v)), |s: &B64k| s.0.get(), #[repr(align(32))]);
copyel!(CA128, u32, false, u32::MAX, |v: u32| CA128(v), |s: &CA128| s.0, #[repr(align(128))]);
copyel!(CZ, (), true, 1, |_v: u32| CZ(()), |_s: &CZ| 0,);
/// Zero-sized with an alignment
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug, Default)]
#[repr(align(64))]
pub struct ZA;
impl TryClone for ZA {
    fn try_clone(&self) -> Result<Self, TryReserveError> {
        Ok(ZA)
    }
}
impl Elem for ZA {
    const NAME: &'static str = "zst-align64";
    const IDS: bool = false;
    const ZST: bool = true;
    const DOM: u32 = 1;
    fn mk(_: u32) -> Self {
        ZA
    }
    fn val(&self) -> u32 {
        0
    }
    fn check(&self) {
        if (self as *const Self as usize) % 64 != 0 {
            err(4, 0)
        }
    }
    fn set(&mut self, _: u32) {}
}
impl KeyE for ZA {
    type Q = ZA;
    fn q<R>(_: u32, f: impl FnOnce(&ZA) -> R) -> R {
        f(&ZA)
    }
}

/// Key that counts comparisons and never allocates, for balance measurements.
#[derive(Clone, Copy, Debug, Default, Hash)]
pub struct CK(pub u32);
thread_local! { pub static CMPS: Cell<u64> = const { Cell::new(0) }; }
impl PartialEq for CK {
    fn eq(&self, o: &Self) -> bool {
        self.0 == o.0
    }
}
impl Eq for CK {}
impl PartialOrd for CK {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for CK {
    fn cmp(&self, o: &Self) -> Ordering {
        CMPS.with(|c| c.set(c.get() + 1));
        self.0.cmp(&o.0)
    }
}
impl TryClone for CK {
    fn try_clone(&self) -> Result<Self, TryReserveError> {
        Ok(*self)
    }
}
impl Elem for CK {
    const NAME: &'static str = "counted";
    const IDS: bool = false;
    const DOM: u32 = u32::MAX;
    fn mk(v: u32) -> Self {
        CK(v)
    }
    fn val(&self) -> u32 {
        self.0
    }
    fn set(&mut self, v: u32) {
        self.0 = v
    }
}
impl KeyE for CK {
    type Q = CK;
    fn q<R>(v: u32, f: impl FnOnce(&CK) -> R) -> R {
        f(&CK(v))
    }
}
