//! Histories over Vec (FallibleVec) and TryVec against a list model.
use crate::cx::*;
use crate::mon::Fault;
use crate::tok::*;
use fallible_collections::vec::{FallibleVec, TryCollect, TryFromIterator};
use fallible_collections::{TryClone, TryReserveError, TryVec};

type E = TryReserveError;
pub type M = Vec<(u32, u32)>;

pub fn norm<T: Elem>(v: u32) -> u32 {
    match T::DOM {
        u32::MAX => v,
        d => v % d,
    }
}

pub trait VL<T: Elem>: Sized + TryClone {
    const TRY: bool;
    fn name(op: u8) -> &'static str;
    fn new() -> Self;
    fn with_cap(n: usize) -> Result<Self, E>;
    fn from_vec(v: Vec<T>) -> Self;
    fn into_vec(self) -> Vec<T>;
    fn sl(&self) -> &[T];
    fn slm(&mut self) -> &mut [T];
    fn cap(&self) -> Option<usize>;
    fn push_(&mut self, t: T) -> Result<(), E>;
    fn append_(&mut self, o: &mut Self) -> Result<(), E>;
    fn reserve_(&mut self, n: usize) -> Result<(), E>;
    fn resize_with_(&mut self, n: usize, f: impl FnMut() -> T) -> Result<(), E>;
    fn extend_nc(&mut self, s: &[T]) -> Result<(), E>;
    fn pop_(&mut self) -> Option<T>;
    fn clear_(&mut self);
    fn vec(&mut self) -> Option<&mut Vec<T>>;
    /// all the ways of reading through shared references; returns what each saw
    fn reads(&self, f: &mut dyn FnMut(&'static str, usize, &T));
    fn writes(&mut self, f: &mut dyn FnMut(usize, &mut T));
    /// The iterators, each begun and then ended by an adaptor; `m` is what is in.
    fn finish(&mut self, _cx: &mut Cx, _m: &[(u32, u32)]) {}
    fn eqs(&self, o: &Self, ov: &Vec<T>, os: &[T]) -> [bool; 4];
    fn dbg(&self, w: &mut dyn std::fmt::Write) -> std::fmt::Result;
}
macro_rules! names {
    ($p:literal, $op:expr) => {
        match $op {
            0 => concat!($p, ".push"),
            1 => concat!($p, ".append"),
            2 => concat!($p, ".reserve"),
            3 => concat!($p, ".resize_with"),
            4 => concat!($p, ".extend_from_slice(try_clone)"),
            5 => concat!($p, ".pop"),
            6 => concat!($p, ".clear"),
            7 => concat!($p, ".try_clone"),
            8 => concat!($p, ".with_capacity"),
            9 => concat!($p, ".read"),
            10 => concat!($p, ".write"),
            11 => concat!($p, ".eq"),
            12 => concat!($p, ".into_iter"),
            13 => concat!($p, ".drop"),
            14 => concat!($p, ".reserve(unrepresentable)"),
            15 => concat!($p, ".fill"),
            16 => concat!($p, ".debug"),
            17 => concat!($p, ".new"),
            18 => concat!($p, ".with_capacity(unrepresentable)"),
            19 => concat!($p, ".resize_with(unrepresentable)"),
            20 => concat!($p, ".from_vec"),
            _ => "?",
        }
    };
}
impl<T: Elem> VL<T> for Vec<T> {
    const TRY: bool = false;
    fn name(op: u8) -> &'static str {
        names!("Vec", op)
    }
    fn new() -> Self {
        Vec::new()
    }
    fn with_cap(n: usize) -> Result<Self, E> {
        FallibleVec::try_with_capacity(n)
    }
    fn from_vec(v: Vec<T>) -> Self {
        v
    }
    fn into_vec(self) -> Vec<T> {
        self
    }
    fn sl(&self) -> &[T] {
        self
    }
    fn slm(&mut self) -> &mut [T] {
        self
    }
    fn cap(&self) -> Option<usize> {
        Some(self.capacity())
    }
    fn push_(&mut self, t: T) -> Result<(), E> {
        self.try_push(t)
    }
    fn append_(&mut self, o: &mut Self) -> Result<(), E> {
        self.try_append(o)
    }
    fn reserve_(&mut self, n: usize) -> Result<(), E> {
        FallibleVec::try_reserve(self, n)
    }
    fn resize_with_(&mut self, n: usize, f: impl FnMut() -> T) -> Result<(), E> {
        self.try_resize_with(n, f)
    }
    fn extend_nc(&mut self, s: &[T]) -> Result<(), E> {
        self.try_extend_from_slice_no_copy(s)
    }
    fn pop_(&mut self) -> Option<T> {
        self.pop()
    }
    fn clear_(&mut self) {
        self.clear()
    }
    fn vec(&mut self) -> Option<&mut Vec<T>> {
        Some(self)
    }
    fn reads(&self, f: &mut dyn FnMut(&'static str, usize, &T)) {
        self.iter().enumerate().for_each(|(i, t)| f("iter", i, t))
    }
    fn writes(&mut self, f: &mut dyn FnMut(usize, &mut T)) {
        self.iter_mut().enumerate().for_each(|(i, t)| f(i, t))
    }
    fn eqs(&self, o: &Self, ov: &Vec<T>, os: &[T]) -> [bool; 4] {
        [self == o, self == ov, self[..] == *os, self == o]
    }
    fn dbg(&self, w: &mut dyn std::fmt::Write) -> std::fmt::Result {
        write!(w, "{:?}", self)
    }
}
impl<T: Elem> VL<T> for TryVec<T> {
    const TRY: bool = true;
    fn name(op: u8) -> &'static str {
        names!("TryVec", op)
    }
    fn new() -> Self {
        use std::sync::atomic::{AtomicU32, Ordering::Relaxed};
        static N: AtomicU32 = AtomicU32::new(0);
        if N.fetch_add(1, Relaxed) % 3 == 1 { TryVec::default() } else { TryVec::new() }
    }
    fn with_cap(n: usize) -> Result<Self, E> {
        TryVec::with_capacity(n)
    }
    fn from_vec(v: Vec<T>) -> Self {
        v.into()
    }
    fn into_vec(self) -> Vec<T> {
        self.into_iter().collect()
    }
    fn sl(&self) -> &[T] {
        self.as_slice()
    }
    fn slm(&mut self) -> &mut [T] {
        self.as_mut_slice()
    }
    fn cap(&self) -> Option<usize> {
        None
    }
    fn push_(&mut self, t: T) -> Result<(), E> {
        self.push(t)
    }
    fn append_(&mut self, o: &mut Self) -> Result<(), E> {
        self.append(o)
    }
    fn reserve_(&mut self, n: usize) -> Result<(), E> {
        self.reserve(n)
    }
    fn resize_with_(&mut self, n: usize, f: impl FnMut() -> T) -> Result<(), E> {
        self.resize_with(n, f)
    }
    fn extend_nc(&mut self, s: &[T]) -> Result<(), E> {
        self.extend_from_slice(s)
    }
    fn pop_(&mut self) -> Option<T> {
        self.pop()
    }
    fn clear_(&mut self) {
        self.clear()
    }
    fn vec(&mut self) -> Option<&mut Vec<T>> {
        None
    }
    fn reads(&self, f: &mut dyn FnMut(&'static str, usize, &T)) {
        let mut it = self.iter();
        let mut left = self.len();
        for i in 0.. {
            if it.size_hint() != (left, Some(left)) {
                f("iter size_hint", usize::MAX, self.iter().next().unwrap());
            }
            match it.next() {
                Some(t) => f("iter", i, t),
                None => break,
            }
            left -= 1;
        }
        for (i, t) in self.into_iter().enumerate() {
            f("&into_iter", i, t)
        }
        for (i, t) in (**self).iter().enumerate() {
            f("deref", i, t)
        }
        for (i, t) in self.as_slice().iter().enumerate() {
            f("as_slice", i, t)
        }
        for i in 0..self.len() {
            f("index", i, &self[i])
        }
    }
    fn writes(&mut self, f: &mut dyn FnMut(usize, &mut T)) {
        let n = self.len();
        let mut it = self.iter_mut();
        for i in 0..n / 2 {
            f(i, it.next().unwrap());
        }
        let rest = it.size_hint().0;
        let mut i = n - rest;
        for t in it {
            f(i, t);
            i += 1;
        }
        for (i, t) in self.as_mut_slice().iter_mut().enumerate() {
            f(i, t)
        }
        for (i, t) in (**self).iter_mut().enumerate() {
            f(i, t)
        }
    }
    fn finish(&mut self, cx: &mut Cx, m: &[(u32, u32)]) {
        let at = if cx.rng.chance(1, 2) { 0 } else { cx.rng.us(m.len() + 1) };
        fn id<T: Elem>(t: &T) -> (u32, u32) {
            t.check();
            (t.val(), t.uid())
        }
        if cx.rng.chance(1, 2) {
            let mut it = self.iter();
            let n = it.by_ref().take(at).count();
            ensure!(cx, K::Model, n == at, "TryVec.iter took {n} of {} elements, asked for {at}", m.len());
            crate::fin::forward(cx, it, &m[at..], "TryVec.iter", &mut |t: &T| id(t), crate::fin::key2);
        } else {
            let mut it = self.iter_mut();
            let n = it.by_ref().take(at).count();
            ensure!(cx, K::Model, n == at, "TryVec.iter_mut took {n} of {} elements, asked for {at}", m.len());
            crate::fin::forward(cx, it, &m[at..], "TryVec.iter_mut", &mut |t: &mut T| id(t), crate::fin::key2);
        }
    }
    fn eqs(&self, o: &Self, ov: &Vec<T>, os: &[T]) -> [bool; 4] {
        [self == o, self == ov, *self == os, !(self != o)]
    }
    fn dbg(&self, w: &mut dyn std::fmt::Write) -> std::fmt::Result {
        write!(w, "{:?}", self)
    }
}

pub struct CopyOps<T> {
    pub resize: fn(&mut Vec<T>, usize, T) -> Result<(), E>,
    pub extend: fn(&mut Vec<T>, &[T]) -> Result<(), E>,
}
pub fn copyops<T: Elem + Copy>() -> Option<CopyOps<T>> {
    Some(CopyOps { resize: |v, n, t| v.try_resize(n, t), extend: |v, s| v.try_extend_from_slice(s) })
}

/// A writer into a fixed buffer (never allocates).
pub struct Fixed {
    pub b: [u8; 2048],
    pub n: usize,
    pub over: bool,
}
impl Fixed {
    pub fn new() -> Fixed {
        Fixed { b: [0; 2048], n: 0, over: false }
    }
}
impl std::fmt::Write for Fixed {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        for c in s.bytes() {
            if self.n < self.b.len() {
                self.b[self.n] = c;
                self.n += 1
            } else {
                self.over = true
            }
        }
        Ok(())
    }
}

pub fn snapshot<T: Elem>(s: &[T]) -> M {
    s.iter()
        .map(|t| {
            t.check();
            (t.val(), t.uid())
        })
        .collect()
}
pub fn verify<T: Elem>(cx: &Cx, s: &[T], m: &M, k: K, what: &str) {
    if s.len() != m.len() {
        sane(cx, s, what);
    }
    ensure!(cx, k, s.len() == m.len(), "{what}: length {} expected {}", s.len(), m.len());
    ensure!(cx, K::Drop, s.as_ptr() as usize % std::mem::align_of::<T>() == 0, "{what}: misaligned buffer");
    for i in 0..m.len() {
        s[i].check();
        let g = (s[i].val(), s[i].uid());
        cx.poll(what);
        ensure!(cx, K::Mem, g == m[i] || !s[i].raw(), "{what}: element {i} was never written");
        ensure!(cx, k, g == m[i], "{what}: element {i} is {g:?} (value, number), expected {:?}", m[i]);
    }
}
/// Whatever the elements are, they must be elements.
pub fn sane<T: Elem>(cx: &Cx, s: &[T], what: &str) {
    for (i, t) in s.iter().enumerate().take(1 << 14) {
        t.check();
        cx.poll(what);
        ensure!(cx, K::Mem, !t.raw(), "{what}: element {i} of {} was never written", s.len());
    }
}
fn same_vals<T: Elem>(cx: &Cx, s: &[T], want: &[u32], k: K, what: &str) {
    if s.len() != want.len() {
        sane(cx, s, what);
    }
    ensure!(cx, k, s.len() == want.len(), "{what}: length {} expected {}", s.len(), want.len());
    for i in 0..want.len() {
        s[i].check();
        ensure!(cx, K::Mem, s[i].val() == want[i] || !s[i].raw(), "{what}: element {i} was never written");
        ensure!(cx, k, s[i].val() == want[i], "{what}: element {i} has value {} expected {}", s[i].val(), want[i]);
    }
    cx.poll(what);
}
/// expected number of live tracked elements changed by `d` since `base`
fn alive_now<T: Elem>(cx: &Cx, base: i64, d: i64, what: &str) {
    if !cx.leak_ok && (T::IDS || (T::ZST && T::NAME == "zst")) {
        let a = alive();
        ensure!(cx, K::Leak, a == base + d, "{what}: {} live elements, expected {}", a, base + d);
    }
}

/// After an injected panic: everything readable, no element in two places, a given prefix kept.
fn after_panic<T: Elem>(cx: &mut Cx, s: &[T], m: &mut M, keep: usize, what: &str) {
    cx.leak_ok = true;
    let now = snapshot(s);
    cx.poll(what);
    ensure!(cx, K::Cb, now.len() >= keep, "{what}: after a panic {} elements remain, the first {keep} should", now.len());
    ensure!(cx, K::Cb, now[..keep] == m[..keep], "{what}: after a panic the first {keep} elements changed");
    if T::IDS {
        let mut ids: Vec<u32> = now.iter().map(|x| x.1).collect();
        ids.sort_unstable();
        let n = ids.len();
        ids.dedup();
        ensure!(cx, K::Cb, ids.len() == n, "{what}: after a panic one element is stored twice");
    }
    *m = now;
    cx.cnt("consistent after injected panic", 0, 1);
}

pub struct Hist<T: Elem, C: VL<T>> {
    v: C,
    m: M,
    /// room known to exist in total
    known: usize,
    copy: Option<CopyOps<T>>,
    _t: std::marker::PhantomData<T>,
}

impl<T: Elem, C: VL<T>> Hist<T, C> {
    fn room(&self) -> usize {
        if T::ZST {
            return usize::MAX;
        }
        self.v.cap().unwrap_or(self.known.max(self.m.len()))
    }
    fn spare(&self) -> usize {
        self.room() - self.m.len()
    }
    fn pick_n(&self, cx: &mut Cx) -> usize {
        let sp = if T::ZST { 5 } else { self.spare().min(400) };
        match cx.rng.us(9) {
            0 => 0,
            1 => 1,
            2 => sp.saturating_sub(1),
            3 => sp,
            4 => sp + 1,
            5 => 2 + cx.rng.us(6),
            6 => cx.rng.us(40),
            7 => cx.rng.us(12),
            _ => {
                if cx.miri {
                    3
                } else if cx.rng.chance(1, 8) {
                    200 + cx.rng.us(400)
                } else {
                    cx.rng.us(20)
                }
            }
        }
    }
    /// The operation adds `n` elements: is memory needed?
    fn must_be_free(&self, n: usize) -> bool {
        T::ZST || (n <= self.spare())
    }
    fn val(cx: &mut Cx) -> u32 {
        norm::<T>(if T::DOM == u32::MAX { cx.rng.u32() % 100_000 } else { cx.rng.u32() })
    }
    /// Check the measurements of an operation that adds room for n elements.
    fn capcheck(&mut self, cx: &mut Cx, free: bool, o: &crate::mon::Meas, n: usize, ptr: *const T, what: &str, extra: u32) {
        // `extra`: allocations made by element clones
        if free && extra == 0 {
            soft!(cx, K::Cap, o.att == 0, "{what}: {} allocation request(s) although room for {n} more was there", o.att);
            soft!(cx, K::Cap, ptr == self.v.sl().as_ptr(), "{what}: buffer moved although room for {n} more was there");
            if cx.enabled & K::Cap as u32 != 0 {
                cx.cnt("capacity checks", 0, 1);
            }
        } else if extra == 0 {
            let sz = std::mem::size_of::<T>() as u64;
            let need = (self.m.len() + n) as u64;
            soft!(cx, K::Cap, o.att <= 2, "{what}: {} allocation requests to make room for {n} more", o.att);
            soft!(cx, K::Cap, o.biggest <= 4 * sz * (need + 4) + 64, "{what}: requested {} bytes for {need} elements of {sz}", o.biggest);
        }
    }
    fn step(&mut self, cx: &mut Cx, op: usize) {
        let len = self.m.len() as u64;
        let base = alive();
        match op {
            // push
            0 => {
                let x = Self::val(cx);
                let mut sch = cx.sched(false);
                loop {
                    let mut plan = sch.next();
                    let free = self.must_be_free(1);
                    if cx.zero && free {
                        plan = Plan { fault: Fault::From(0), cb: None };
                    }
                    let t = T::mk(x);
                    let id = t.uid();
                    let ptr = self.v.sl().as_ptr();
                    let v = &mut self.v;
                    let o = cx.run(C::name(0), len, x as u64, plan, || v.push_(t));
                    match o.r {
                        Res::Val(Ok(())) => {
                            self.capcheck(cx, free, &o.m, 1, ptr, C::name(0), 0);
                            if free {
                                soft!(cx, K::Zero, !cx.zero || o.m.att == 0, "push within capacity allocated");
                            }
                            self.m.push((x, id));
                            verify(cx, self.v.sl(), &self.m, K::Model, C::name(0));
                            alive_now::<T>(cx, base, 1, C::name(0));
                            break;
                        }
                        Res::Val(Err(_)) => {
                            soft!(cx, K::Zero, !(free && cx.zero), "push within capacity failed under exhaustion");
                            ensure!(cx, K::ErrSpur, o.faulted(), "push returned Err although no allocation failed");
                            verify(cx, self.v.sl(), &self.m, K::Atom, C::name(0));
                            alive_now::<T>(cx, base, 0, C::name(0));
                            if clean(&plan) {
                                break;
                            }
                        }
                        Res::Injected => {
                            after_panic(cx, self.v.sl(), &mut self.m, len as usize, C::name(0));
                            break;
                        }
                        Res::Panic(s) => cx.fail(K::Panic, &format!("push panicked: {s}")),
                    }
                }
            }
            // push_give_back / insert (Vec)
            1 | 2 => {
                let x = Self::val(cx);
                let idx = cx.rng.range(0, self.m.len());
                let idx = *cx.rng.pick(&[0, idx, self.m.len()]);
                let mut sch = cx.sched(false);
                let name = if op == 1 { "Vec.push_give_back" } else { "Vec.insert" };
                loop {
                    let mut plan = sch.next();
                    let free = self.must_be_free(1);
                    if cx.zero && free {
                        plan = Plan { fault: Fault::From(0), cb: None };
                    }
                    let t = T::mk(x);
                    let id = t.uid();
                    let ptr = self.v.sl().as_ptr();
                    let v = match self.v.vec() {
                        Some(v) => v,
                        None => return,
                    };
                    let o = cx.run(name, len, idx as u64, plan, || if op == 1 { v.try_push_give_back(t) } else { v.try_insert(idx, t) });
                    match o.r {
                        Res::Val(Ok(())) => {
                            self.capcheck(cx, free, &o.m, 1, ptr, name, 0);
                            if op == 1 {
                                self.m.push((x, id))
                            } else {
                                self.m.insert(idx, (x, id))
                            }
                            verify(cx, self.v.sl(), &self.m, K::Model, name);
                            alive_now::<T>(cx, base, 1, name);
                            break;
                        }
                        Res::Val(Err((t, _))) => {
                            soft!(cx, K::Zero, !(free && cx.zero), "{name} within capacity failed under exhaustion");
                            ensure!(cx, K::ErrSpur, o.m.inj + o.m.refused > 0, "{name} returned Err although no allocation failed");
                            t.check();
                            ensure!(cx, K::Atom, (t.val(), t.uid()) == (x, id), "{name} gave back element {:?} instead of {:?}", (t.val(), t.uid()), (x, id));
                            verify(cx, self.v.sl(), &self.m, K::Atom, name);
                            drop(t);
                            alive_now::<T>(cx, base, 0, name);
                            if clean(&plan) {
                                break;
                            }
                        }
                        Res::Injected => {
                            after_panic(cx, self.v.sl(), &mut self.m, if op == 1 { len as usize } else { 0 }, name);
                            break;
                        }
                        Res::Panic(s) => cx.fail(K::Panic, &format!("{name} panicked: {s}")),
                    }
                }
            }
            // append
            3 => {
                let n = self.pick_n(cx);
                let mut src: Vec<T> = Vec::new();
                if cx.rng.chance(1, 2) {
                    src.reserve(n + cx.rng.us(9));
                }
                for _ in 0..n {
                    let x = Self::val(cx);
                    src.push(T::mk(x));
                }
                let sm = snapshot(&src);
                let mut other = C::from_vec(src);
                let base = alive();
                let mut sch = cx.sched(false);
                let name = C::name(1);
                loop {
                    let mut plan = sch.next();
                    let free = self.must_be_free(n);
                    if cx.zero && free {
                        plan = Plan { fault: Fault::From(0), cb: None };
                    }
                    let ptr = self.v.sl().as_ptr();
                    let v = &mut self.v;
                    let oo = &mut other;
                    let o = cx.run(name, len, n as u64, plan, || v.append_(oo));
                    match o.r {
                        Res::Val(Ok(())) => {
                            self.capcheck(cx, free, &o.m, n, ptr, name, 0);
                            self.m.extend_from_slice(&sm);
                            verify(cx, self.v.sl(), &self.m, K::Model, name);
                            ensure!(cx, K::Model, other.sl().is_empty(), "append left {} elements in its argument", other.sl().len());
                            alive_now::<T>(cx, base, 0, name);
                            break;
                        }
                        Res::Val(Err(_)) => {
                            soft!(cx, K::Zero, !(free && cx.zero), "{name} within capacity failed under exhaustion");
                            ensure!(cx, K::ErrSpur, o.faulted(), "{name} returned Err although no allocation failed");
                            verify(cx, self.v.sl(), &self.m, K::Atom, name);
                            verify(cx, other.sl(), &sm, K::Atom, "append (argument)");
                            alive_now::<T>(cx, base, 0, name);
                            if clean(&plan) {
                                break;
                            }
                        }
                        Res::Injected => {
                            after_panic(cx, self.v.sl(), &mut self.m, len as usize, name);
                            break;
                        }
                        Res::Panic(s) => cx.fail(K::Panic, &format!("append panicked: {s}")),
                    }
                }
                // the argument stays usable
                let x = Self::val(cx);
                let t = T::mk(x);
                let l0 = other.sl().len();
                let oo = &mut other;
                let r = cx.plainly("append: push to argument afterwards", 0, 0, || oo.push_(t));
                ensure!(cx, K::ErrSpur, r.is_ok(), "push to the argument of append failed");
                ensure!(cx, K::Atom, other.sl().len() == l0 + 1 && other.sl()[l0].val() == x, "argument of append unusable");
                cx.free("drop append argument", 0, 0, move || drop(other));
            }
            // resize_with
            4 => {
                let grow = cx.rng.chance(2, 3);
                let n = if grow { self.m.len() + self.pick_n(cx) } else { cx.rng.range(0, self.m.len()) };
                let x = Self::val(cx);
                let mut sch = cx.sched(false);
                let name = C::name(3);
                loop {
                    let mut plan = sch.next();
                    let add = n.saturating_sub(self.m.len());
                    let free = self.must_be_free(add);
                    if cx.zero && free {
                        plan = Plan { fault: Fault::From(0), cb: None };
                    }
                    let ptr = self.v.sl().as_ptr();
                    let v = &mut self.v;
                    let mut calls = 0u32;
                    let o = cx.run(name, len, n as u64, plan, || {
                        v.resize_with_(n, || {
                            cb(Cb::Closure);
                            calls += 1;
                            T::mk(x.wrapping_add(calls))
                        })
                    });
                    match o.r {
                        Res::Val(Ok(())) => {
                            self.capcheck(cx, free, &o.m, add, ptr, name, 0);
                            ensure!(cx, K::Model, calls as usize == add, "resize_with called its closure {calls} times for {add} new elements");
                            self.m.truncate(n);
                            let have = self.m.len();
                            ensure!(cx, K::Model, self.v.sl().len() == n, "resize_with({n}) left {} elements", self.v.sl().len());
                            for i in have..n {
                                let want = norm::<T>(x.wrapping_add((i - have) as u32 + 1));
                                let t = &self.v.sl()[i];
                                ensure!(cx, K::Model, t.val() == want, "resize_with stored value {} expected {want}", t.val());
                                self.m.push((want, t.uid()));
                            }
                            verify(cx, self.v.sl(), &self.m, K::Model, name);
                            alive_now::<T>(cx, base, n as i64 - len as i64, name);
                            break;
                        }
                        Res::Val(Err(_)) => {
                            soft!(cx, K::Zero, !(free && cx.zero), "{name} within capacity failed under exhaustion");
                            ensure!(cx, K::ErrSpur, o.faulted(), "{name} returned Err although no allocation failed");
                            ensure!(cx, K::Atom, calls == 0, "failed resize_with had called its closure");
                            verify(cx, self.v.sl(), &self.m, K::Atom, name);
                            alive_now::<T>(cx, base, 0, name);
                            if clean(&plan) {
                                break;
                            }
                        }
                        Res::Injected => {
                            after_panic(cx, self.v.sl(), &mut self.m, n.min(len as usize), name);
                            break;
                        }
                        Res::Panic(s) => cx.fail(K::Panic, &format!("resize_with panicked: {s}")),
                    }
                }
            }
            // resize_no_copy (Vec)
            5 => {
                if self.v.vec().is_none() {
                    return;
                }
                let grow = cx.rng.chance(2, 3);
                let n = if grow { self.m.len() + self.pick_n(cx) } else { cx.rng.range(0, self.m.len()) };
                let x = Self::val(cx);
                let mut sch = cx.sched(true);
                let name = "Vec.resize_no_copy";
                loop {
                    let mut plan = sch.next();
                    let have = self.m.len();
                    let add = n.saturating_sub(have);
                    let free = self.must_be_free(add) && (!T::HEAP || add <= 1);
                    if cx.zero && free {
                        plan = Plan { fault: Fault::From(0), cb: None };
                    }
                    let base = alive();
                    let t = T::mk(x);
                    let ptr = self.v.sl().as_ptr();
                    let v = self.v.vec().unwrap();
                    let o = cx.run(name, have as u64, n as u64, plan, || v.try_resize_no_copy(n, t));
                    match o.r {
                        Res::Val(Ok(())) => {
                            self.capcheck(cx, free, &o.m, add, ptr, name, if T::HEAP { add.saturating_sub(1) as u32 } else { 0 });
                            self.m.truncate(n);
                            ensure!(cx, K::Model, self.v.sl().len() == n, "{name}({n}) left {} elements", self.v.sl().len());
                            for i in have.min(n)..n {
                                let t = &self.v.sl()[i];
                                ensure!(cx, K::Model, t.val() == x, "{name} stored value {} expected {x}", t.val());
                                self.m.push((x, t.uid()));
                            }
                            verify(cx, self.v.sl(), &self.m, K::Model, name);
                            alive_now::<T>(cx, base, n as i64 - have as i64, name);
                            break;
                        }
                        Res::Val(Err(_)) => {
                            soft!(cx, K::Zero, !(free && cx.zero), "{name} within capacity failed under exhaustion");
                            ensure!(cx, K::ErrSpur, o.faulted(), "{name} returned Err although nothing failed");
                            self.partial(cx, have, n - have.min(n), |_| x, name);
                            alive_now::<T>(cx, base, self.m.len() as i64 - have as i64, name);
                            if clean(&plan) {
                                break;
                            }
                        }
                        Res::Injected => {
                            after_panic(cx, self.v.sl(), &mut self.m, n.min(have), name);
                            break;
                        }
                        Res::Panic(s) => cx.fail(K::Panic, &format!("{name} panicked: {s}")),
                    }
                }
            }
            // extend_from_slice with try_clone
            6 => {
                let n = self.pick_n(cx).min(200);
                let x0 = Self::val(cx);
                let src: Vec<T> = (0..n).map(|i| T::mk(x0.wrapping_add(i as u32))).collect();
                let sm = snapshot(&src);
                let base = alive();
                let mut sch = cx.sched(true);
                let name = C::name(4);
                loop {
                    let mut plan = sch.next();
                    let have = self.m.len();
                    let free = self.must_be_free(n) && (!T::HEAP || n == 0);
                    if cx.zero && free {
                        plan = Plan { fault: Fault::From(0), cb: None };
                    }
                    let ptr = self.v.sl().as_ptr();
                    let b2 = alive();
                    let v = &mut self.v;
                    let o = cx.run(name, have as u64, n as u64, plan, || v.extend_nc(&src));
                    verify(cx, &src, &sm, K::Clone, "extend_from_slice (source)");
                    match o.r {
                        Res::Val(Ok(())) => {
                            self.capcheck(cx, free, &o.m, n, ptr, name, if T::HEAP { n as u32 } else { 0 });
                            ensure!(cx, K::Model, self.v.sl().len() == have + n, "{name} of {n} left {} elements after {have}", self.v.sl().len());
                            for i in 0..n {
                                let t = &self.v.sl()[have + i];
                                ensure!(cx, K::Model, t.val() == sm[i].0, "{name} stored value {} expected {}", t.val(), sm[i].0);
                                ensure!(cx, K::Clone, !T::IDS || t.uid() != sm[i].1, "{name} stored the source element itself");
                                self.m.push((sm[i].0, t.uid()));
                            }
                            verify(cx, self.v.sl(), &self.m, K::Model, name);
                            alive_now::<T>(cx, b2, n as i64, name);
                            break;
                        }
                        Res::Val(Err(_)) => {
                            soft!(cx, K::Zero, !(free && cx.zero), "{name} within capacity failed under exhaustion");
                            ensure!(cx, K::ErrSpur, o.faulted(), "{name} returned Err although nothing failed");
                            self.partial(cx, have, n, |i| sm[i].0, name);
                            alive_now::<T>(cx, b2, self.m.len() as i64 - have as i64, name);
                            if clean(&plan) {
                                break;
                            }
                        }
                        Res::Injected => {
                            after_panic(cx, self.v.sl(), &mut self.m, have, name);
                            break;
                        }
                        Res::Panic(s) => cx.fail(K::Panic, &format!("{name} panicked: {s}")),
                    }
                }
                drop(src);
                let _ = base;
            }
            // reserve, then use up the room
            7 => {
                let n = self.pick_n(cx);
                let mut sch = cx.sched(false);
                let name = C::name(2);
                loop {
                    let mut plan = sch.next();
                    let free = self.must_be_free(n);
                    if cx.zero && free {
                        plan = Plan { fault: Fault::From(0), cb: None };
                    }
                    let ptr = self.v.sl().as_ptr();
                    let v = &mut self.v;
                    let o = cx.run(name, len, n as u64, plan, || v.reserve_(n));
                    match o.r {
                        Res::Val(Ok(())) => {
                            self.capcheck(cx, free, &o.m, n, ptr, name, 0);
                            verify(cx, self.v.sl(), &self.m, K::Model, name);
                            if let Some(c) = self.v.cap() {
                                soft!(cx, K::Cap, c - self.m.len() >= n, "reserve({n}) left capacity {c} at length {len}");
                            }
                            self.known = self.known.max(self.m.len() + n);
                            break;
                        }
                        Res::Val(Err(_)) => {
                            soft!(cx, K::Zero, !(free && cx.zero), "{name} of present room failed under exhaustion");
                            ensure!(cx, K::ErrSpur, o.faulted(), "reserve returned Err although no allocation failed");
                            verify(cx, self.v.sl(), &self.m, K::Atom, name);
                            if clean(&plan) {
                                break;
                            }
                        }
                        _ => cx.fail(K::Panic, "reserve panicked"),
                    }
                }
                if cx.rng.chance(1, 2) && n < 600 && self.spare() >= n {
                    let x = Self::val(cx);
                    let ids: M = Vec::with_capacity(n);
                    let items: Vec<T> = (0..n).map(|i| T::mk(x.wrapping_add(i as u32))).collect();
                    let mut ids = ids;
                    ids.extend(items.iter().map(|t| (t.val(), t.uid())));
                    let ptr = self.v.sl().as_ptr();
                    let v = &mut self.v;
                    let o = cx.run(C::name(15), len, n as u64, if cx.zero { Plan { fault: Fault::From(0), cb: None } } else { CLEAN }, || {
                        for t in items {
                            v.push_(t)?;
                        }
                        Ok::<(), E>(())
                    });
                    soft!(cx, K::Cap, o.m.att == 0, "filling room reserved for {n} elements made {} allocation request(s)", o.m.att);
                    soft!(cx, K::Zero, !cx.zero || o.m.att == 0, "filling room reserved for {n} elements made {} allocation request(s)", o.m.att);
                    let r = match o.r {
                        Res::Val(r) => r,
                        _ => cx.fail(K::Panic, "filling reserved room panicked"),
                    };
                    ensure!(cx, K::ErrSpur, r.is_ok(), "pushing {n} elements into reserved room failed");
                    soft!(cx, K::Cap, n == 0 || ptr == self.v.sl().as_ptr(), "buffer moved while filling reserved room");
                    self.m.extend(ids);
                    verify(cx, self.v.sl(), &self.m, K::Model, C::name(15));
                }
            }
            // pop
            8 => {
                let v = &mut self.v;
                let t = cx.free(C::name(5), len, 0, || v.pop_());
                let want = self.m.pop();
                ensure!(cx, K::Model, t.as_ref().map(|t| (t.val(), t.uid())) == want, "pop returned {:?} expected {want:?}", t.as_ref().map(|t| (t.val(), t.uid())));
                drop(t);
                verify(cx, self.v.sl(), &self.m, K::Model, C::name(5));
            }
            // clear
            9 => {
                if !cx.rng.chance(1, 4) {
                    return;
                }
                let kill = if cx.cbs && cx.rng.chance(1, 2) { Some((Cb::Drop, cx.rng.us(4) as u32, Act::Panic)) } else { None };
                let v = &mut self.v;
                if kill.is_some() {
                    let o = cx.run(C::name(6), len, 0, Plan { fault: Fault::None, cb: kill }, || v.clear_());
                    match o.r {
                        Res::Val(()) => self.m.clear(),
                        Res::Injected => after_panic(cx, self.v.sl(), &mut self.m, 0, C::name(6)),
                        Res::Panic(s) => cx.fail(K::Panic, &s),
                    }
                } else {
                    cx.free(C::name(6), len, 0, || v.clear_());
                    self.m.clear();
                }
                verify(cx, self.v.sl(), &self.m, K::Model, C::name(6));
                alive_now::<T>(cx, base, -(len as i64), C::name(6));
            }
            // plain std mutations for variety (Vec): truncate, remove, swap_remove, shrink, dedup-free
            10 => {
                if self.m.is_empty() {
                    return;
                }
                let i = cx.rng.us(self.m.len());
                let w = cx.rng.us(5);
                match self.v.vec() {
                    Some(v) => match w {
                        0 => {
                            v.truncate(i);
                            self.m.truncate(i)
                        }
                        1 => {
                            drop(v.remove(i));
                            self.m.remove(i);
                        }
                        2 => {
                            drop(v.swap_remove(i));
                            self.m.swap_remove(i);
                        }
                        3 => v.shrink_to_fit(),
                        _ => {
                            let j = self.m.len() - 1;
                            v.swap(i, j);
                            self.m.swap(i, j)
                        }
                    },
                    None => {
                        let j = self.m.len() - 1;
                        self.v.slm().swap(i, j);
                        self.m.swap(i, j);
                    }
                }
                cx.note("std op", w as u64, i as u64);
                verify(cx, self.v.sl(), &self.m, K::Model, "std op");
            }
            // try_clone
            11 => {
                let mut sch = cx.sched(true);
                let name = C::name(7);
                loop {
                    let mut plan = sch.next();
                    let free = T::ZST || len == 0;
                    if cx.zero && free {
                        plan = Plan { fault: Fault::From(0), cb: None };
                    }
                    let v = &self.v;
                    let o = cx.run(name, len, 0, plan, || v.try_clone());
                    verify(cx, self.v.sl(), &self.m, K::Clone, "try_clone (original)");
                    match o.r {
                        Res::Val(Ok(c)) => {
                            let want: Vec<u32> = self.m.iter().map(|x| x.0).collect();
                            same_vals(cx, c.sl(), &want, K::Clone, name);
                            if T::IDS {
                                for (i, t) in c.sl().iter().enumerate() {
                                    ensure!(cx, K::Clone, t.uid() != self.m[i].1, "copy shares element {i} with the original");
                                }
                            }
                            if !T::ZST && len > 0 {
                                ensure!(cx, K::Clone, c.sl().as_ptr() != self.v.sl().as_ptr(), "copy shares its buffer with the original");
                            }
                            if !T::HEAP {
                                soft!(cx, K::Cap, o.m.att <= 1, "{name} of {len} elements made {} allocation requests", o.m.att);
                            }
                            alive_now::<T>(cx, base, len as i64, name);
                            // independence: change one, drop one, look at the other
                            let cm = snapshot(c.sl());
                            let mut c = c;
                            if cx.rng.chance(1, 2) {
                                for t in self.v.slm() {
                                    t.set(norm::<T>(t.val().wrapping_add(1)));
                                }
                                verify(cx, c.sl(), &cm, K::Clone, "copy after changing the original");
                                let old = std::mem::replace(&mut self.v, c);
                                cx.free("drop original", len, 0, || drop(old));
                                self.m = cm;
                                self.known = 0;
                            } else {
                                for t in c.slm() {
                                    t.set(norm::<T>(t.val().wrapping_add(1)));
                                }
                                c.clear_();
                                cx.free("drop copy", len, 0, || drop(c));
                            }
                            verify(cx, self.v.sl(), &self.m, K::Clone, "survivor of a copy pair");
                            alive_now::<T>(cx, base, 0, name);
                            break;
                        }
                        Res::Val(Err(_)) => {
                            soft!(cx, K::Zero, !(free && cx.zero), "try_clone of an empty or zero-sized vector failed under exhaustion");
                            ensure!(cx, K::ErrSpur, o.faulted(), "{name} returned Err although nothing failed");
                            alive_now::<T>(cx, base, 0, "failed try_clone");
                            if clean(&plan) {
                                break;
                            }
                        }
                        Res::Injected => {
                            after_panic(cx, self.v.sl(), &mut self.m, len as usize, name);
                            break;
                        }
                        Res::Panic(s) => cx.fail(K::Panic, &format!("{name} panicked: {s}")),
                    }
                }
            }
            // a new container with capacity replaces the old one, elements moved by append
            12 => {
                let n = self.pick_n(cx);
                let mut sch = cx.sched(false);
                let name = C::name(8);
                loop {
                    let mut plan = sch.next();
                    if cx.zero && (n == 0 || T::ZST) {
                        plan = Plan { fault: Fault::From(0), cb: None };
                    }
                    let o = cx.run(name, n as u64, 0, plan, || C::with_cap(n));
                    match o.r {
                        Res::Val(Ok(c)) => {
                            ensure!(cx, K::Model, c.sl().is_empty(), "with_capacity({n}) is not empty");
                            if T::ZST || n == 0 {
                                soft!(cx, K::Cap, o.m.att == 0, "with_capacity({n}) of {} bytes allocated", std::mem::size_of::<T>());
                            } else {
                                soft!(cx, K::Cap, o.m.att == 1, "with_capacity({n}) made {} requests", o.m.att);
                                let sz = std::mem::size_of::<T>() as u64;
                                soft!(cx, K::Cap, o.m.biggest >= sz * n as u64 && o.m.biggest <= 4 * sz * (n as u64 + 4) + 64, "with_capacity({n}) requested {} bytes", o.m.biggest);
                            }
                            if let Some(cap) = c.cap() {
                                soft!(cx, K::Cap, cap >= n, "with_capacity({n}) gave {cap}");
                            }
                            let mut c = c;
                            let l = self.m.len();
                            // filling up to n must be free
                            if l <= n {
                                let ptr = c.sl().as_ptr();
                                let v = &mut self.v;
                                let cc = &mut c;
                                let o = cx.run("append into with_capacity", l as u64, n as u64, CLEAN, || cc.append_(v));
                                soft!(cx, K::Cap, o.m.att == 0, "appending {l} elements to with_capacity({n}) made {} allocation request(s)", o.m.att);
                                soft!(cx, K::Zero, !cx.zero || o.m.att == 0, "appending {l} elements to with_capacity({n}) made {} allocation request(s)", o.m.att);
                                let r = match o.r {
                                    Res::Val(r) => r,
                                    _ => cx.fail(K::Panic, "append panicked"),
                                };
                                ensure!(cx, K::ErrSpur, r.is_ok(), "append into reserved room failed");
                                soft!(cx, K::Cap, T::ZST || l == 0 || n == 0 || ptr == c.sl().as_ptr(), "buffer moved while filling reserved room");
                            } else {
                                let v = &mut self.v;
                                let cc = &mut c;
                                let r = cx.plainly("append into with_capacity", l as u64, n as u64, || cc.append_(v));
                                ensure!(cx, K::ErrSpur, r.is_ok(), "append failed");
                            }
                            std::mem::swap(&mut self.v, &mut c);
                            self.known = n;
                            cx.free(C::name(13), 0, 0, || drop(c));
                            verify(cx, self.v.sl(), &self.m, K::Model, name);
                            break;
                        }
                        Res::Val(Err(_)) => {
                            soft!(cx, K::Zero, !(cx.zero && (n == 0 || T::ZST)), "with_capacity(0) failed under exhaustion");
                            ensure!(cx, K::ErrSpur, o.faulted(), "with_capacity({n}) returned Err although no allocation failed");
                            if clean(&plan) {
                                break;
                            }
                        }
                        Res::Injected => break,
                        Res::Panic(s) => cx.fail(K::Panic, &format!("{name} panicked: {s}")),
                    }
                }
            }
            // requests that cannot be represented
            13 => self.overflow(cx),
            // read everything every way
            14 => {
                let m = &self.m;
                let mut bad: Option<(&'static str, usize)> = None;
                let mut seen = [0usize; 8];
                let v = &self.v;
                cx.free(C::name(9), len, 0, || {
                    v.reads(&mut |how, i, t| {
                        t.check();
                        let slot = match how {
                            "iter" => 0,
                            "&into_iter" => 1,
                            "deref" => 2,
                            "as_slice" => 3,
                            _ => 4,
                        };
                        seen[slot] += 1;
                        if i >= m.len() || m[i] != (t.val(), t.uid()) {
                            bad = Some((how, i))
                        }
                    })
                });
                ensure!(cx, K::Model, bad.is_none(), "reading through {:?} gives a different element", bad);
                let ways = if C::TRY { 5 } else { 1 };
                ensure!(cx, K::Model, seen[..ways].iter().all(|n| *n == m.len()), "iteration visited {seen:?} of {} elements", m.len());
                self.v.finish(cx, &self.m);
            }
            // write through mutable access
            15 => {
                let v = &mut self.v;
                let mut order = true;
                let mut last = 0;
                cx.free(C::name(10), len, 0, || {
                    v.writes(&mut |i, t| {
                        t.check();
                        if i != 0 && i != last + 1 && last + 1 != len as usize {
                            order = false
                        }
                        last = i;
                        let n = norm::<T>(t.val().wrapping_add(3));
                        t.set(n);
                    })
                });
                let k = if C::TRY { 9 } else { 3 };
                for x in self.m.iter_mut() {
                    x.0 = norm::<T>(x.0.wrapping_add(k));
                }
                verify(cx, self.v.sl(), &self.m, K::Model, C::name(10));
            }
            // equality and Debug against std
            16 => {
                let mut ov: Vec<T> = self.m.iter().map(|x| T::mk(x.0)).collect();
                let change = cx.rng.us(5);
                match change {
                    1 if !ov.is_empty() => {
                        let i = cx.rng.us(ov.len());
                        let nv = norm::<T>(ov[i].val().wrapping_add(1));
                        ov[i].set(nv)
                    }
                    2 if !ov.is_empty() => {
                        ov.pop();
                    }
                    3 => {
                        let x = Self::val(cx);
                        ov.push(T::mk(x));
                    }
                    _ => {}
                }
                let want = ov.len() == self.m.len() && ov.iter().zip(&self.m).all(|(a, b)| a.val() == b.0);
                let os: Vec<T> = ov.iter().map(|t| T::mk(t.val())).collect();
                let oc = C::from_vec(ov.iter().map(|t| T::mk(t.val())).collect());
                let v = &self.v;
                let got = cx.free(C::name(11), len, change as u64, || v.eqs(&oc, &ov, &os));
                ensure!(cx, K::Model, got == [want; 4], "equality with (same type, Vec, slice, !=) gave {got:?}, expected {want}");
                if len <= 60 {
                    let mut w = Fixed::new();
                    let v = &self.v;
                    let ok = cx.free(C::name(16), len, 0, || v.dbg(&mut w).is_ok());
                    let want = format!("{:?}", self.v.sl());
                    ensure!(cx, K::Model, ok && (w.over || w.b[..w.n] == *want.as_bytes()), "Debug gave {:?} expected {want}", String::from_utf8_lossy(&w.b[..w.n]));
                }
            }
            // consume: into_iter in part, collect the rest into a new container through try_collect
            17 => {
                let take = cx.rng.range(0, self.m.len());
                let v = std::mem::replace(&mut self.v, C::new());
                let mut it = cx.free(C::name(12), len, take as u64, || v.into_vec().into_iter());
                let m = std::mem::take(&mut self.m);
                for i in 0..take {
                    let t = it.next();
                    ensure!(cx, K::Model, t.as_ref().map(|t| (t.val(), t.uid())) == Some(m[i]), "into_iter gave another element at {i}");
                }
                let how = cx.rng.us(8);
                let late = if cx.rng.chance(1, 2) { Some(T::mk(1)) } else { None };
                let kill = if cx.cbs { Some((Cb::Next, cx.rng.us(20) as u32, Act::Panic)) } else { None };
                let fault = if cx.faults > 0 && cx.rng.chance(1, 2) { Fault::Nth(cx.rng.us(6) as u32) } else { Fault::None };
                let o = cx.run("try_collect", (len as usize - take) as u64, how as u64, Plan { fault, cb: kill }, || {
                    let it = Hinted { it, how, late, ended: false };
                    if how % 2 == 0 {
                        TryCollect::<T>::try_collect::<Vec<T>>(it)
                    } else {
                        <Vec<T> as TryFromIterator<T>>::try_from_iterator(it)
                    }
                });
                match o.r {
                    Res::Val(Ok(v)) => {
                        self.m = m[take..].to_vec();
                        verify(cx, &v, &self.m, K::Model, "try_collect");
                        let lg = usize::BITS - self.m.len().leading_zeros();
                        soft!(cx, K::Cap, T::ZST && o.m.att == 0 || !T::ZST && o.m.att <= lg + 4, "try_collect of {} elements made {} requests", self.m.len(), o.m.att);
                        self.known = v.capacity();
                        self.v = C::from_vec(v);
                        alive_now::<T>(cx, base, -(take as i64), "try_collect");
                    }
                    Res::Val(Err(_)) => {
                        ensure!(cx, K::ErrSpur, o.faulted(), "try_collect returned Err although no allocation failed");
                        self.known = 0;
                        alive_now::<T>(cx, base, -(len as i64), "failed try_collect");
                    }
                    Res::Injected => {
                        cx.leak_ok = true;
                        self.known = 0;
                    }
                    Res::Panic(s) => cx.fail(K::Panic, &format!("try_collect panicked: {s}")),
                }
            }
            // From<Vec> / back
            18 => {
                let v = std::mem::replace(&mut self.v, C::new());
                let vec = v.into_vec();
                verify(cx, &vec, &self.m, K::Model, "into_iter + collect");
                let cap = vec.capacity();
                self.v = cx.free(C::name(20), len, cap as u64, || C::from_vec(vec));
                self.known = cap;
                verify(cx, self.v.sl(), &self.m, K::Model, "From<Vec>");
                let e = cx.free(C::name(17), 0, 0, C::new);
                ensure!(cx, K::Model, e.sl().is_empty(), "a new container is not empty");
            }
            // Copy-type operations
            19 | 20 => {
                let (resize, extend) = match (&self.copy, self.v.vec().is_some()) {
                    (Some(c), true) => (c.resize, c.extend),
                    _ => return,
                };
                let x = Self::val(cx);
                let (n, src): (usize, Vec<T>) = if op == 19 {
                    let n = if cx.rng.chance(2, 3) { self.m.len() + self.pick_n(cx) } else { cx.rng.range(0, self.m.len()) };
                    (n, vec![])
                } else {
                    let k = self.pick_n(cx);
                    (self.m.len() + k, (0..k).map(|i| T::mk(x.wrapping_add(i as u32))).collect())
                };
                let name = if op == 19 { "Vec.resize(copy)" } else { "Vec.extend_from_slice(clone)" };
                let mut sch = cx.sched(false);
                loop {
                    let mut plan = sch.next();
                    let add = n.saturating_sub(self.m.len());
                    let free = self.must_be_free(add);
                    if cx.zero && free {
                        plan = Plan { fault: Fault::From(0), cb: None };
                    }
                    let ptr = self.v.sl().as_ptr();
                    let t = if op == 19 { Some(T::mk(x)) } else { None };
                    let v = self.v.vec().unwrap();
                    let s = &src;
                    let o = cx.run(name, len, n as u64, plan, || match t {
                        Some(t) => resize(v, n, t),
                        None => extend(v, s),
                    });
                    match o.r {
                        Res::Val(Ok(())) => {
                            self.capcheck(cx, free, &o.m, add, ptr, name, 0);
                            ensure!(cx, K::Model, self.v.sl().len() == n, "{name} left {} elements, expected {n}", self.v.sl().len());
                            self.m.truncate(n);
                            let h = self.m.len();
                            for i in h..n {
                                let id = self.v.sl()[i].uid();
                                ensure!(cx, K::Clone, op == 19 || !T::IDS || id != src[i - h].uid(), "{name} stored the source element itself");
                                self.m.push(if op == 19 { (x, id) } else { (src[i - h].val(), id) });
                            }
                            verify(cx, self.v.sl(), &self.m, K::Model, name);
                            break;
                        }
                        Res::Val(Err(_)) => {
                            soft!(cx, K::Zero, !(free && cx.zero), "{name} within capacity failed under exhaustion");
                            ensure!(cx, K::ErrSpur, o.faulted(), "{name} returned Err although no allocation failed");
                            verify(cx, self.v.sl(), &self.m, K::Atom, name);
                            if clean(&plan) {
                                break;
                            }
                        }
                        Res::Injected => {
                            after_panic(cx, self.v.sl(), &mut self.m, n.min(len as usize), name);
                            break;
                        }
                        Res::Panic(s) => cx.fail(K::Panic, &format!("{name} panicked: {s}")),
                    }
                }
            }
            // TryFrom<&[T]>, concat
            21 => {
                let k = cx.rng.us(6);
                let mut parts: Vec<TryVec<T>> = Vec::new();
                let mut want: Vec<u32> = Vec::new();
                for _ in 0..k {
                    let n = *cx.rng.pick(&[0, 1, 2, 5, 9]);
                    let x = Self::val(cx);
                    let src: Vec<T> = (0..n).map(|i| T::mk(x.wrapping_add(i as u32))).collect();
                    want.extend(src.iter().map(|t| t.val()));
                    let mut sch = cx.sched(true);
                    loop {
                        let plan = sch.next();
                        let o = cx.run("TryVec.try_from(slice)", n as u64, 0, plan, || TryVec::<T>::try_from(&src[..]));
                        match o.r {
                            Res::Val(Ok(p)) => {
                                let w: Vec<u32> = src.iter().map(|t| t.val()).collect();
                                same_vals(cx, &p, &w, K::Model, "TryVec.try_from(slice)");
                                parts.push(p);
                                break;
                            }
                            Res::Val(Err(_)) => {
                                ensure!(cx, K::ErrSpur, o.faulted(), "try_from(slice) returned Err although nothing failed");
                            }
                            Res::Injected => {
                                cx.leak_ok = true;
                            }
                            Res::Panic(s) => cx.fail(K::Panic, &format!("try_from(slice) panicked: {s}")),
                        }
                    }
                }
                let nest: TryVec<TryVec<T>> = parts.into();
                let base = alive();
                let mut sch = cx.sched(true);
                loop {
                    let plan = sch.next();
                    let o = cx.run("TryVec.concat", k as u64, want.len() as u64, plan, || nest.concat());
                    let now: Vec<u32> = nest.iter().flat_map(|p| p.iter().map(|t| t.val())).collect();
                    ensure!(cx, K::Atom, now == want, "concat changed its receiver");
                    match o.r {
                        Res::Val(Ok(c)) => {
                            same_vals(cx, &c, &want, K::Model, "TryVec.concat");
                            alive_now::<T>(cx, base, want.len() as i64, "concat");
                            if !T::HEAP {
                                soft!(cx, K::Cap, o.m.att <= 1, "concat made {} requests", o.m.att);
                            }
                            break;
                        }
                        Res::Val(Err(_)) => {
                            ensure!(cx, K::ErrSpur, o.faulted(), "concat returned Err although nothing failed");
                            alive_now::<T>(cx, base, 0, "failed concat");
                        }
                        Res::Injected => {
                            cx.leak_ok = true;
                        }
                        Res::Panic(s) => cx.fail(K::Panic, &format!("concat panicked: {s}")),
                    }
                }
            }
            // growth one by one
            22 => {
                if !cx.rng.chance(1, 4) {
                    return;
                }
                let n = if cx.miri { 20 } else { *cx.rng.pick(&[10usize, 50, 200, 1000]) };
                let items: Vec<T> = (0..n).map(|i| T::mk(i as u32)).collect();
                let mut c = C::new();
                let cc = &mut c;
                let o = cx.run("fill one by one", n as u64, 0, CLEAN, || {
                    for t in items {
                        cc.push_(t)?;
                    }
                    Ok::<(), E>(())
                });
                let ok = matches!(o.r, Res::Val(Ok(())));
                ensure!(cx, K::ErrSpur, ok, "filling one by one failed");
                let lg = usize::BITS - n.leading_zeros();
                let sz = std::mem::size_of::<T>() as u64;
                if T::ZST {
                    soft!(cx, K::Cap, o.m.att == 0, "zero-sized elements allocated");
                } else {
                    soft!(cx, K::Cap, o.m.att <= 2 * lg + 2, "{n} pushes made {} allocation requests", o.m.att);
                    soft!(cx, K::Cap, o.m.biggest <= 4 * sz * (n as u64 + 4) + 64, "{n} pushes requested {} bytes at once", o.m.biggest);
                    soft!(cx, K::Cap, o.m.bytes <= 8 * sz * (n as u64 + 8) + 256, "{n} pushes requested {} bytes in total", o.m.bytes);
                }
                let want: Vec<u32> = (0..n).map(|i| norm::<T>(i as u32)).collect();
                same_vals(cx, c.sl(), &want, K::Model, "fill one by one");
                cx.free(C::name(13), n as u64, 0, || drop(c));
                alive_now::<T>(cx, base, 0, "fill one by one");
            }
            #[cfg(feature = "unstable")]
            23 => {
                let n = *cx.rng.pick(&[0usize, 1, 2, 3, 7, 30]);
                let x = Self::val(cx);
                let mut sch = cx.sched(true);
                loop {
                    let plan = sch.next();
                    let how = cx.rng.us(6);
                    let t = T::mk(x);
                    // how often, and in which order, the macro evaluates its arguments
                    let (mut ev, mut nth) = ([0u32; 3], 0);
                    let o = cx.run("try_from_elem/try_vec!", n as u64, how as u64, plan, || match how {
                        0 => fallible_collections::vec::try_from_elem(t, n),
                        1 => fallible_collections::try_vec![t; n],
                        3 => {
                            let mut t = Some(t);
                            fallible_collections::try_vec![
                                {
                                    ev[0] += 1;
                                    t.take().unwrap()
                                };
                                {
                                    ev[1] += 1;
                                    n
                                }
                            ]
                        }
                        4 => {
                            drop(t);
                            let mut one = |i: usize| {
                                nth += 1;
                                ev[i] += nth;
                                T::mk(x)
                            };
                            fallible_collections::try_vec![one(0), one(1), one(2),]
                        }
                        5 => {
                            drop(t);
                            fallible_collections::try_vec![]
                        }
                        _ => {
                            let b = [t, T::mk(x), T::mk(x)];
                            let [a, b, c] = b;
                            fallible_collections::try_vec![a, b, c]
                        }
                    });
                    let n = match how {
                        2 | 4 => 3,
                        5 => 0,
                        _ => n,
                    };
                    if !matches!(o.r, Res::Injected) {
                        let w = match how {
                            3 => [1, 1, 0],
                            4 => [1, 2, 3],
                            _ => [0; 3],
                        };
                        ensure!(cx, K::Model, ev == w, "try_vec! evaluated its arguments like {ev:?}, expected {w:?}");
                    }
                    match o.r {
                        Res::Val(Ok(v)) => {
                            same_vals(cx, &v, &vec![x; n], K::Model, "try_from_elem/try_vec!");
                            alive_now::<T>(cx, base, n as i64, "try_from_elem/try_vec!");
                            soft!(cx, K::Cap, T::HEAP || o.m.att <= 1, "try_from_elem({n}) made {} requests", o.m.att);
                            let mut v = v;
                            if let Some(t) = v.last_mut() {
                                t.set(norm::<T>(x.wrapping_add(1)));
                            }
                            let cut = n.saturating_sub(1);
                            same_vals(cx, &v[..cut], &vec![x; cut], K::Clone, "try_from_elem copies");
                            cx.free("drop Vec", n as u64, 0, || drop(v));
                            alive_now::<T>(cx, base, 0, "try_from_elem/try_vec!");
                            break;
                        }
                        Res::Val(Err(_)) => {
                            ensure!(cx, K::ErrSpur, o.faulted(), "try_from_elem returned Err although nothing failed");
                            alive_now::<T>(cx, base, 0, "failed try_from_elem");
                        }
                        Res::Injected => {
                            cx.leak_ok = true;
                        }
                        Res::Panic(s) => cx.fail(K::Panic, &format!("try_from_elem panicked: {s}")),
                    }
                }
            }
            _ => {}
        }
        self.known = self.known.min(1 << 40);
        cx.top("longest vector", self.m.len() as u64);
    }
    /// Err from an element-by-element operation: the old elements plus a leading part of the new.
    fn partial(&mut self, cx: &mut Cx, have: usize, n: usize, want: impl Fn(usize) -> u32, what: &str) {
        let l = self.v.sl().len();
        ensure!(cx, K::Atom, l >= have && l <= have + n, "{what}: after Err length {l}, was {have}, asked for {n} more");
        for i in have..l {
            let t = &self.v.sl()[i];
            t.check();
            cx.poll(what);
            ensure!(cx, K::Mem, t.val() == want(i - have) || !t.raw(), "{what}: after Err appended element {} was never written", i - have);
            ensure!(cx, K::Atom, t.val() == want(i - have), "{what}: after Err appended element {} has value {} expected {}", i - have, t.val(), want(i - have));
            let e = (t.val(), t.uid());
            self.m.push(e);
        }
        if l > have {
            cx.cnt("partial extension after Err", 0, 1);
        }
        verify(cx, self.v.sl(), &self.m, K::Atom, what);
        // cut the partial clones off so that the retry starts from the same state
        if let Some(v) = self.v.vec() {
            v.truncate(have);
        } else {
            while self.v.sl().len() > have {
                drop(self.v.pop_());
            }
        }
        // alive_now of the caller counts relative to m
        self.m.truncate(have);
    }
    fn overflow(&mut self, cx: &mut Cx) {
        let sz = std::mem::size_of::<T>();
        let len = self.m.len();
        let im = isize::MAX as usize;
        if sz == 0 {
            let n = *cx.rng.pick(&[usize::MAX, usize::MAX - len, im, usize::MAX / 2]);
            let v = &mut self.v;
            if n as u128 + len as u128 > usize::MAX as u128 {
                let r = cx.plainly(C::name(14), len as u64, n as u64, || v.reserve_(n));
                ensure!(cx, K::Over, r.is_err(), "reserve({n}) of a zero-sized type at length {len} succeeded: the length cannot be represented");
            } else {
                let r = cx.free(C::name(14), len as u64, n as u64, || v.reserve_(n));
                ensure!(cx, K::Over, r.is_ok(), "reserve({n}) of a zero-sized type failed");
            }
            let r = cx.free(C::name(18), n as u64, 0, || C::with_cap(n));
            ensure!(cx, K::Over, r.is_ok(), "with_capacity({n}) of a zero-sized type failed");
            verify(cx, self.v.sl(), &self.m, K::Model, C::name(14));
            return;
        }
        let lim = im / sz; // largest number of elements that can exist
        let n = match cx.rng.us(8) {
            0 => usize::MAX,
            1 => usize::MAX - len,
            2 => usize::MAX / sz,
            3 => lim + 1,
            4 => (usize::MAX / sz).wrapping_add(1).max(lim + 1), // byte count wraps around to something small
            5 => (1usize << 63) + cx.rng.us(9),
            6 => usize::MAX - cx.rng.us(200),
            _ => (lim + 1).max(usize::MAX / sz - cx.rng.us(4)),
        };
        let name = C::name(14);
        let v = &mut self.v;
        let o = cx.run(name, len as u64, n as u64, CLEAN, || v.reserve_(n));
        match o.r {
            Res::Val(Err(_)) => ensure!(cx, K::Over, o.m.att == 0, "reserve({n}) of {sz}-byte elements asked the allocator for {} bytes", o.m.biggest),
            Res::Val(Ok(())) => cx.fail(K::Over, &format!("reserve({n}) of {sz}-byte elements succeeded")),
            _ => cx.fail(K::Over, &format!("reserve({n}) of {sz}-byte elements panicked")),
        }
        let o = cx.run(C::name(18), n as u64, 0, CLEAN, || C::with_cap(n));
        match o.r {
            Res::Val(Err(_)) => {}
            Res::Val(Ok(_)) => cx.fail(K::Over, &format!("with_capacity({n}) of {sz}-byte elements succeeded")),
            _ => cx.fail(K::Over, &format!("with_capacity({n}) of {sz}-byte elements panicked")),
        }
        let mut calls = 0;
        let v = &mut self.v;
        let big = n.max(len + 1);
        let o = cx.run(C::name(19), len as u64, big as u64, CLEAN, || {
            v.resize_with_(big, || {
                calls += 1;
                if calls > 100_000 {
                    panic!("unbounded")
                }
                T::mk(0)
            })
        });
        match o.r {
            Res::Val(Err(_)) => ensure!(cx, K::Over, calls == 0, "refused resize_with called its closure"),
            _ => cx.fail(K::Over, &format!("resize_with({big}) of {sz}-byte elements did not return Err")),
        }
        if let Some(v) = self.v.vec() {
            let t = T::mk(1);
            let o = cx.run("Vec.resize_no_copy(unrepresentable)", len as u64, big as u64, Plan { fault: Fault::None, cb: Some((Cb::TryClone, 1000, Act::Panic)) }, || v.try_resize_no_copy(big, t));
            ensure!(cx, K::Over, matches!(o.r, Res::Val(Err(_))), "resize_no_copy({big}) of {sz}-byte elements did not return Err");
            if let Some(c) = &self.copy {
                let f = c.resize;
                let v = self.v.vec().unwrap();
                let t = T::mk(1);
                let o = cx.run("Vec.resize(copy,unrepresentable)", len as u64, big as u64, CLEAN, || f(v, big, t));
                ensure!(cx, K::Over, matches!(o.r, Res::Val(Err(_))), "try_resize({big}) of {sz}-byte elements did not return Err");
            }
        }
        // representable but larger than any memory: refused by the allocator, reported as Err
        let h = lim - len;
        let v = &mut self.v;
        let o = cx.run("reserve(whole address space)", len as u64, h as u64, CLEAN, || v.reserve_(h));
        ensure!(cx, K::Over, matches!(o.r, Res::Val(Err(_))), "reserve({h}) of {sz}-byte elements did not return Err");
        verify(cx, self.v.sl(), &self.m, K::Atom, name);
    }
}

struct Hinted<T> {
    it: std::vec::IntoIter<T>,
    how: usize,
    /// comes out only when asked for more after the end
    late: Option<T>,
    ended: bool,
}
impl<T> Iterator for Hinted<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        cb(Cb::Next);
        match self.it.next() {
            None if self.ended => self.late.take(),
            None => {
                self.ended = true;
                None
            }
            t => t,
        }
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = self.it.len();
        match self.how {
            0 => (0, None),
            1 => (n, Some(n)),
            2 => (n / 2, Some(n * 2)),
            3 => (0, Some(n)),
            // wrong hints are allowed, as long as they are not believed
            4 => (n / 2, Some(n / 2)),
            5 => (n + 7, Some(n + 7)),
            6 => (0, Some(0)),
            _ => (1, None),
        }
    }
}

fn history<T: Elem, C: VL<T>>(cx: &mut Cx, copy: Option<CopyOps<T>>) {
    let mut h: Hist<T, C> = Hist { v: C::new(), m: vec![], known: 0, copy, _t: std::marker::PhantomData };
    // weights by phase: grow, mixed, shrink
    let start = cx.rng.us(30);
    let vals: Vec<T> = (0..start).map(|i| T::mk(norm::<T>(i as u32 * 7))).collect();
    let mut vals = vals;
    match cx.rng.us(3) {
        0 => vals.shrink_to_fit(),
        1 => vals.reserve(cx.rng.us(20)),
        _ => {}
    }
    h.m = snapshot(&vals);
    h.known = vals.capacity();
    h.v = C::from_vec(vals);
    let n = if cx.miri { 14 } else { 30 + cx.rng.us(30) };
    for _ in 0..n {
        let op = cx.rng.weighted(&[8, 5, 6, 5, 5, 6, 6, 6, 6, 4, 6, 5, 3, 2, 3, 2, 3, 2, 2, 4, 4, 2, 2, 3]);
        h.step(cx, op);
        if h.m.len() > 1500 {
            let m = 30.min(h.m.len());
            if let Some(v) = h.v.vec() {
                v.truncate(m);
            } else {
                while h.v.sl().len() > m {
                    h.v.pop_();
                }
            }
            h.m.truncate(m);
        }
    }
    let Hist { v, m, .. } = h;
    if cx.cbs && cx.rng.chance(1, 2) {
        let kill = Some((Cb::Drop, cx.rng.us(4) as u32, Act::Panic));
        let o = cx.run(C::name(13), m.len() as u64, 0, Plan { fault: Fault::None, cb: kill }, || drop(v));
        if let Res::Injected = o.r {
            cx.leak_ok = true;
        }
    } else {
        cx.free(C::name(13), m.len() as u64, 0, || drop(v));
    }
}

pub fn both<T: Elem>(cx: &mut Cx, copy: Option<CopyOps<T>>) {
    cx.cnt(T::NAME, 0, 1);
    cx.fpmix(T::NAME.len() as u64 * 31 + std::mem::size_of::<T>() as u64);
    if cx.rng.chance(11, 20) {
        history::<T, Vec<T>>(cx, copy)
    } else {
        history::<T, TryVec<T>>(cx, copy)
    }
}

/// Zero-sized vectors whose length is at the limit of usize.
pub fn zst_limit(cx: &mut Cx) {
    let d = cx.rng.us(3);
    let len = usize::MAX - d;
    let mut v: Vec<()> = vec![(); len];
    let k = d + 1 + cx.rng.us(3);
    let src = vec![(); k];
    for op in 0..6 {
        let mut w = vec![(); k];
        let vv = &mut v;
        let o = cx.run("Vec<()> beyond usize::MAX", op, d as u64, CLEAN, || match op {
            0 => vv.try_extend_from_slice(&src).is_err(),
            1 => vv.try_append(&mut w).is_err(),
            2 => FallibleVec::try_reserve(vv, k).is_err(),
            3 => {
                if d == 0 {
                    vv.try_push(()).is_err() && vv.try_push_give_back(()).is_err() && vv.try_insert(0, ()).is_err()
                } else {
                    true
                }
            }
            4 => vv.try_resize(vv.len(), ()).is_ok(),
            _ => FallibleVec::try_reserve(vv, d).is_ok(),
        });
        match o.r {
            Res::Val(true) => {}
            Res::Val(false) => cx.fail(K::Over, &format!("operation {op} on a Vec<()> of length usize::MAX-{d} gave the wrong result")),
            _ => cx.fail(K::Over, &format!("operation {op} on a Vec<()> of length usize::MAX-{d} panicked")),
        }
        ensure!(cx, K::Over, v.len() == len && w.len() == k, "refused operation {op} changed a length");
    }
    let mut v2: Vec<Zt> = vec![Zt; len];
    let s2 = vec![Zt; k];
    let o = cx.run("Vec<Zt>.extend_no_copy beyond usize::MAX", 0, d as u64, CLEAN, || v2.try_extend_from_slice_no_copy(&s2).is_err());
    ensure!(cx, K::Over, matches!(o.r, Res::Val(true)) && v2.len() == len, "extend_from_slice_no_copy beyond usize::MAX did not return Err");
    let nest: TryVec<TryVec<Zt>> = if cx.rng.chance(1, 2) { vec![v2.into(), s2.into()].into() } else { vec![s2.into(), v2.into()].into() };
    let o = cx.run("TryVec<TryVec<Zt>>.concat beyond usize::MAX", 0, d as u64, CLEAN, || nest.concat().is_err());
    match o.r {
        Res::Val(true) => {}
        Res::Val(_) => cx.fail(K::Over, "concat of more than usize::MAX elements did not return Err"),
        Res::Panic(s) => cx.fail(K::Panic, &format!("concat of more than usize::MAX elements panicked: {s}")),
        Res::Injected => {}
    }
}
#[derive(Clone, Copy)]
struct Zt;
impl TryClone for Zt {
    fn try_clone(&self) -> Result<Self, E> {
        Ok(Zt)
    }
}
