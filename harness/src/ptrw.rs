//! Box, TryBox, Rc, Arc: a pool of pointers of every kind, against what std promises of them.
use crate::cx::*;
use crate::mon::{self, Fault};
use crate::tok::*;
use crate::vecw::norm;
#[allow(deprecated)]
use fallible_collections::{FallibleArc, FallibleBox, FallibleRc, TryBox, TryClone, TryReserveError};
use std::mem::{align_of, size_of};
use std::rc::Rc;
use std::sync::atomic::Ordering::Relaxed;
use std::sync::Arc;

enum P<T> {
    B(Box<T>),
    T(TryBox<T>),
    R(Rc<T>),
    A(Arc<T>),
}
impl<T> P<T> {
    fn r(&self) -> &T {
        match self {
            P::B(x) => x,
            P::T(x) => x,
            P::R(x) => x,
            P::A(x) => x,
        }
    }
}
struct Slot<T> {
    p: P<T>,
    val: u32,
    uid: u32,
}
fn look<T: Elem>(cx: &Cx, s: &Slot<T>, k: K, what: &str) {
    let r = s.p.r();
    let at = r as *const T as usize;
    ensure!(cx, K::Mem, at != 0 && at % align_of::<T>() == 0, "{what}: the value lies at {at:#x}, alignment {}", align_of::<T>());
    r.check();
    cx.poll(what);
    ensure!(cx, k, r.val() == s.val && r.uid() == s.uid, "{what}: holds element {} (number {}), expected {} (number {})", r.val(), r.uid(), s.val, s.uid);
}
/// Elements whose end is followed.
fn followed<T: Elem>() -> bool {
    T::IDS || T::NAME == "zst"
}
fn live<T: Elem>(cx: &Cx, base: i64, d: i64, what: &str) {
    if followed::<T>() && !cx.leak_ok {
        let a = alive();
        ensure!(cx, K::Drop, a <= base + d || d >= 0, "{what}: {a} live elements, expected {}", base + d);
        ensure!(cx, K::Leak, a == base + d, "{what}: {a} live elements, expected {}", base + d);
    }
}

#[allow(deprecated)]
fn make<T: Elem>(cx: &mut Cx, pool: &mut Vec<Slot<T>>, kind: usize) {
    let name = ["Box.try_new", "TryBox.try_new", "Rc.try_new", "Arc.try_new"][kind];
    let v = norm::<T>(cx.rng.u32() % 1_000_000);
    let mut sch = cx.sched(false);
    loop {
        let mut plan = sch.next();
        if kind >= 2 && !clean(&plan) && !cfg!(feature = "unstable") {
            // documented: only the first allocation of Rc and Arc creation is covered
            plan = if size_of::<T>() == 0 { CLEAN } else { Plan { fault: Fault::Nth(0), cb: None } };
        }
        let base = alive();
        let blocks = mon::LIVE_BLOCKS.load(Relaxed);
        let t = T::mk(v);
        let (val, uid) = (t.val(), t.uid());
        let o = cx.run(name, size_of::<T>() as u64, 0, plan, || -> Result<P<T>, TryReserveError> {
            Ok(match kind {
                0 => P::B(<Box<T> as FallibleBox<T>>::try_new(t)?),
                1 => P::T(TryBox::try_new(t)?),
                2 => P::R(<Rc<T> as FallibleRc<T>>::try_new(t)?),
                _ => P::A(<Arc<T> as FallibleArc<T>>::try_new(t)?),
            })
        });
        let faulted = o.faulted();
        match o.r {
            Res::Val(Ok(p)) => {
                let s = Slot { p, val, uid };
                look(cx, &s, K::Model, name);
                live::<T>(cx, base, 1, name);
                if kind < 2 {
                    let want = (size_of::<T>() > 0) as u32;
                    ensure!(cx, K::Cap, o.m.att <= want, "{name}: {} allocation requests for a value of {} bytes", o.m.att, size_of::<T>());
                    ensure!(cx, K::Mem, want == 0 || o.m.att >= 1, "{name}: no memory was requested for a value of {} bytes", size_of::<T>());
                    ensure!(cx, K::Cap, o.m.biggest == (want as u64) * size_of::<T>() as u64, "{name}: {} bytes requested for a value of {}", o.m.biggest, size_of::<T>());
                }
                match &s.p {
                    P::R(r) => ensure!(cx, K::Model, Rc::strong_count(r) == 1 && Rc::weak_count(r) == 0, "{name}: counts {} and {}", Rc::strong_count(r), Rc::weak_count(r)),
                    P::A(r) => ensure!(cx, K::Model, Arc::strong_count(r) == 1 && Arc::weak_count(r) == 0, "{name}: counts {} and {}", Arc::strong_count(r), Arc::weak_count(r)),
                    _ => {}
                }
                cx.cnt("pointers made", 0, 1);
                pool.push(s);
                return;
            }
            Res::Val(Err(_)) => {
                ensure!(cx, K::ErrSpur, faulted, "{name} returned Err although nothing failed");
                cx.poll(name);
                live::<T>(cx, base, 0, name);
                let b = mon::LIVE_BLOCKS.load(Relaxed);
                ensure!(cx, K::Leak, b <= blocks, "{name}: {b} blocks alive after Err, {blocks} before");
                cx.cnt("value dropped once after Err", 0, 1);
                if clean(&plan) {
                    return;
                }
            }
            Res::Injected => cx.fail(K::Panic, "unexpected injected panic"),
            Res::Panic(s) => cx.fail(K::Panic, &format!("{name} panicked: {s}")),
        }
    }
}
fn raw<T: Elem>(cx: &mut Cx, s: Slot<T>) -> Slot<T> {
    let Slot { p, val, uid } = s;
    let var = cx.rng.us(6);
    let at = p.r() as *const T;
    let base = alive();
    let p = cx.free("pointer round trip", var as u64, 0, || match p {
        P::B(b) => {
            let r = Box::into_raw(b);
            if var % 2 == 0 {
                P::T(unsafe { TryBox::from_raw(r) })
            } else {
                P::B(unsafe { Box::from_raw(r) })
            }
        }
        P::T(b) => {
            let r = TryBox::into_raw(b);
            if var % 2 == 0 {
                P::T(unsafe { TryBox::from_raw(r) })
            } else {
                P::B(unsafe { Box::from_raw(r) })
            }
        }
        P::R(b) => {
            let r = Rc::into_raw(b);
            P::R(unsafe { Rc::from_raw(r) })
        }
        P::A(b) => {
            let r = Arc::into_raw(b);
            P::A(unsafe { Arc::from_raw(r) })
        }
    });
    ensure!(cx, K::Model, std::ptr::eq(p.r(), at) || size_of::<T>() == 0, "pointer round trip moved the value");
    live::<T>(cx, base, 0, "pointer round trip");
    let s = Slot { p, val, uid };
    look(cx, &s, K::Model, "pointer round trip");
    s
}
fn end<T: Elem>(cx: &mut Cx, s: Slot<T>) {
    let base = alive();
    let Slot { p, val, uid } = s;
    let last = match &p {
        P::R(r) => Rc::strong_count(r) == 1,
        P::A(r) => Arc::strong_count(r) == 1,
        _ => true,
    };
    let take = cx.rng.chance(1, 3);
    let got = cx.free("pointer end", take as u64, last as u64, || {
        if !take {
            drop(p);
            return None;
        }
        match p {
            P::B(b) => Some(*b),
            P::T(b) => Some(*unsafe { Box::from_raw(TryBox::into_raw(b)) }),
            P::R(r) => Rc::try_unwrap(r).ok(),
            P::A(r) => Arc::try_unwrap(r).ok(),
        }
    });
    if take {
        ensure!(cx, K::Model, got.is_some() == last, "taking the value out gives {}, expected {last}", got.is_some());
        if let Some(g) = &got {
            g.check();
            cx.poll("value taken out");
            ensure!(cx, K::Model, g.val() == val && g.uid() == uid, "value taken out is {} (number {}), expected {val} (number {uid})", g.val(), g.uid());
        }
    }
    let was = got.is_some();
    drop(got);
    cx.poll("pointer end");
    live::<T>(cx, base, if last { -1 } else { 0 }, if was { "taking the value out" } else { "dropping a pointer" });
}
fn unsized_arcs(cx: &mut Cx) {
    fn one<T: ?Sized>(cx: &mut Cx, name: &'static str, a: Arc<T>, same: impl Fn(&T, &T) -> bool) {
        let w = Arc::downgrade(&a);
        let extra = if cx.rng.chance(1, 2) { Some(a.clone()) } else { None };
        let n = 1 + extra.is_some() as usize;
        let o = cx.run(name, n as u64, 0, Plan { fault: Fault::From(0), cb: None }, || a.try_clone());
        match o.r {
            Res::Val(Ok(c)) => {
                ensure!(cx, K::Clone, Arc::ptr_eq(&a, &c) && same(&a, &c), "{name}: the clone points elsewhere");
                ensure!(cx, K::Clone, (Arc::strong_count(&a), Arc::weak_count(&c)) == (n + 1, 1), "{name}: counts went from ({n}, 1) to ({}, {})", Arc::strong_count(&a), Arc::weak_count(&c));
                soft!(cx, K::Zero, o.m.att == 0, "{name}: {} allocation requests", o.m.att);
                drop((a, extra));
                ensure!(cx, K::Clone, Arc::strong_count(&c) == 1 && w.upgrade().is_some(), "{name}: the clone alone counts {}", Arc::strong_count(&c));
                drop(c);
                ensure!(cx, K::Clone, w.upgrade().is_none(), "{name}: the value outlives its owners");
                cx.cnt("arcs shared", 0, 1);
            }
            Res::Val(Err(_)) => cx.fail(if cx.zero { K::Zero } else { K::Clone }, &format!("{name} failed")),
            _ => cx.fail(K::Panic, &format!("{name} panicked")),
        }
    }
    let n = cx.rng.us(5) as u32;
    match cx.rng.us(4) {
        0 => one::<str>(cx, "Arc<str>.try_clone", Arc::from("text of some length"), |a, b| a == b),
        1 => one::<[Tok]>(cx, "Arc<[_]>.try_clone", (0..n).map(<Tok as Elem>::mk).collect::<Vec<_>>().into(), |a, b| a.len() == b.len() && std::ptr::eq(a, b)),
        2 => one::<dyn std::fmt::Debug + Send + Sync>(cx, "Arc<dyn>.try_clone", Arc::new(n), |a, b| format!("{a:?}") == format!("{b:?}")),
        _ => one::<()>(cx, "Arc<()>.try_clone", Arc::new(()), |a, b| a == b),
    }
}
fn clone<T: Elem>(cx: &mut Cx, pool: &mut Vec<Slot<T>>, i: usize) {
    let (val, uid) = (pool[i].val, pool[i].uid);
    let name = match pool[i].p {
        P::B(_) => "Box.try_clone",
        P::T(_) => "TryBox.try_clone",
        P::A(_) => "Arc.try_clone",
        P::R(_) => "Rc.clone",
    };
    if let P::R(r) = &pool[i].p {
        let n = Rc::strong_count(r);
        let c = cx.free(name, 0, 0, || r.clone());
        ensure!(cx, K::Model, Rc::strong_count(r) == n + 1 && Rc::ptr_eq(r, &c), "{name}: count {}", Rc::strong_count(r));
        pool.push(Slot { p: P::R(c), val, uid });
        return;
    }
    if let P::A(r) = &pool[i].p {
        let n = Arc::strong_count(r);
        // weak references count on their own, and unsized values are shared just the same
        let weak: Vec<_> = (0..if cx.rng.chance(1, 3) { 1 + cx.rng.us(2) } else { 0 }).map(|_| Arc::downgrade(r)).collect();
        if cx.rng.chance(1, 3) {
            unsized_arcs(cx);
        }
        let plan = Plan { fault: if cx.rng.chance(1, 2) || cx.zero { Fault::From(0) } else { Fault::None }, cb: None };
        let o = cx.run(name, n as u64, 0, plan, || r.try_clone());
        match o.r {
            Res::Val(Ok(c)) => {
                ensure!(cx, K::Clone, Arc::ptr_eq(r, &c), "{name}: the clone points elsewhere");
                ensure!(cx, K::Clone, Arc::strong_count(r) == n + 1 && Arc::weak_count(r) == weak.len(), "{name}: count went from {n} to {}", Arc::strong_count(r));
                soft!(cx, K::Zero, o.m.att == 0, "{name}: {} allocation requests", o.m.att);
                cx.cnt("arcs shared", 0, 1);
                drop(weak);
                pool.push(Slot { p: P::A(c), val, uid });
            }
            Res::Val(Err(_)) => cx.fail(if cx.zero { K::Zero } else { K::Clone }, &format!("{name} failed")),
            _ => cx.fail(K::Panic, &format!("{name} panicked")),
        }
        return;
    }
    let mut sch = cx.sched(true);
    loop {
        let plan = sch.next();
        let base = alive();
        let blocks = mon::LIVE_BLOCKS.load(Relaxed);
        let p = &pool[i].p;
        let o = cx.run(name, 0, 0, plan, || -> Result<P<T>, TryReserveError> {
            Ok(match p {
                P::B(b) => P::B(b.try_clone()?),
                P::T(b) => P::T(b.try_clone()?),
                _ => unreachable!(),
            })
        });
        let faulted = o.faulted();
        match o.r {
            Res::Val(Ok(c)) => {
                ensure!(cx, K::Clone, size_of::<T>() == 0 || !std::ptr::eq(c.r(), pool[i].p.r()), "{name}: both share one place");
                c.r().check();
                cx.poll(name);
                ensure!(cx, K::Clone, c.r().val() == val, "{name}: clone is {}, expected {val}", c.r().val());
                let u = c.r().uid();
                ensure!(cx, K::Clone, !T::IDS || u != uid, "{name}: the clone is the same element");
                look(cx, &pool[i], K::Clone, "original after try_clone");
                live::<T>(cx, base, 1, name);
                if !T::HEAP {
                    ensure!(cx, K::Cap, o.m.att <= 1, "{name}: {} allocation requests", o.m.att);
                }
                let mut s = Slot { p: c, val, uid: u };
                if T::DOM > 1 && cx.rng.chance(1, 2) {
                    // change the copy: the original stays
                    let nv = norm::<T>(val.wrapping_add(1) % 1_000_000);
                    match &mut s.p {
                        P::B(b) => b.set(nv),
                        P::T(b) => unsafe {
                            let r = TryBox::into_raw(std::ptr::read(b));
                            (*r).set(nv);
                            std::ptr::write(b, TryBox::from_raw(r));
                        },
                        _ => {}
                    }
                    s.val = nv;
                    look(cx, &pool[i], K::Clone, "original after its copy was changed");
                }
                cx.cnt("copies compared", 0, 1);
                pool.push(s);
                return;
            }
            Res::Val(Err(_)) => {
                ensure!(cx, K::ErrSpur, faulted, "{name} returned Err although nothing failed");
                look(cx, &pool[i], K::Atom, "original after failed try_clone");
                live::<T>(cx, base, 0, "failed try_clone");
                let b = mon::LIVE_BLOCKS.load(Relaxed);
                ensure!(cx, K::Leak, b == blocks, "{name}: {b} blocks alive after Err, {blocks} before");
                cx.cnt("unchanged after Err", 0, 1);
                if clean(&plan) {
                    return;
                }
            }
            Res::Injected => {
                cx.leak_ok = true;
                look(cx, &pool[i], K::Cb, "original after a panicking clone");
                cx.cnt("consistent after injected panic", 0, 1);
                return;
            }
            Res::Panic(s) => cx.fail(K::Panic, &format!("{name} panicked: {s}")),
        }
    }
}
pub fn pool<T: Elem>(cx: &mut Cx) {
    let mut v: Vec<Slot<T>> = Vec::new();
    let n = if cx.miri { 12 } else { 15 + cx.rng.us(40) };
    cx.fpmix(size_of::<T>() as u64 * 131 + align_of::<T>() as u64);
    for _ in 0..n {
        let op = if v.is_empty() { 0 } else { cx.rng.weighted(&[8, 4, 5, 5, 2, 2]) };
        match op {
            0 => {
                let k = cx.rng.us(4);
                make(cx, &mut v, k)
            }
            1 => {
                let i = cx.rng.us(v.len());
                let s = v.swap_remove(i);
                let s = raw(cx, s);
                v.push(s);
            }
            2 => {
                let i = cx.rng.us(v.len());
                clone(cx, &mut v, i)
            }
            3 => {
                let i = cx.rng.us(v.len());
                let s = v.swap_remove(i);
                end(cx, s)
            }
            4 => {
                // a std pointer from a box made by the library, and weak references
                let i = cx.rng.us(v.len());
                let Slot { p, val, uid } = v.swap_remove(i);
                let arc = cx.rng.chance(1, 2);
                let p = cx.plainly("std conversions", 0, 0, || match p {
                    P::B(b) if arc => P::A(Arc::from(b)),
                    P::B(b) => P::R(Rc::from(b)),
                    P::R(r) => {
                        let w = Rc::downgrade(&r);
                        assert!(Rc::ptr_eq(&w.upgrade().expect("upgrade"), &r) && Rc::weak_count(&r) == 1);
                        P::R(r)
                    }
                    P::A(r) => {
                        let w = Arc::downgrade(&r);
                        assert!(Arc::ptr_eq(&w.upgrade().expect("upgrade"), &r) && Arc::weak_count(&r) == 1);
                        P::A(r)
                    }
                    p => p,
                });
                v.push(Slot { p, val, uid });
            }
            _ => {
                let i = cx.rng.us(v.len());
                let s = &mut v[i];
                let nv = norm::<T>(cx.rng.u32() % 1_000_000);
                let (p, val) = (&mut s.p, s.val);
                let done = cx.free("write through pointer", nv as u64, 0, || match p {
                    P::B(b) => {
                        b.set(nv);
                        true
                    }
                    P::R(r) => {
                        let one = Rc::strong_count(r) == 1;
                        let m = Rc::get_mut(r);
                        assert!(m.is_some() == one);
                        if let Some(m) = m {
                            m.set(nv);
                        }
                        one
                    }
                    P::A(r) => {
                        let one = Arc::strong_count(r) == 1;
                        let m = Arc::get_mut(r);
                        assert!(m.is_some() == one);
                        if let Some(m) = m {
                            m.set(nv);
                        }
                        one
                    }
                    _ => false,
                });
                if done && T::NAME != "collide" {
                    s.val = norm::<T>(nv);
                } else {
                    s.val = val;
                }
            }
        }
        for s in &v {
            look(cx, s, K::Model, "pointer");
        }
    }
    for s in v {
        end(cx, s)
    }
}

// ------------------------------------------------------------------ nested clones

/// Values made of nested containers, seen as numbers.
pub trait Nest: TryClone + 'static {
    fn mk(r: &mut crate::rng::Rng, d: u32) -> Self;
    /// the contents
    fn sig(&self, o: &mut Vec<u64>);
    /// what must not be shared with a copy
    fn own(&self, o: &mut Vec<usize>);
    fn poke(&mut self);
}
macro_rules! nint {
    ($($t:ty),*) => {$(impl Nest for $t {
        fn mk(r: &mut crate::rng::Rng, _: u32) -> Self {
            match r.us(6) { 0 => <$t>::MAX, 1 => <$t>::MIN, 2 => 0, _ => r.u64() as $t }
        }
        fn sig(&self, o: &mut Vec<u64>) { o.push(*self as u64 ^ (std::mem::size_of::<$t>() as u64) << 57) }
        fn own(&self, _: &mut Vec<usize>) {}
        fn poke(&mut self) { *self = self.wrapping_add(1) }
    })*};
}
nint!(u8, u16, u32, u64, usize, i8, i16, i32, i64, isize);
impl Nest for bool {
    fn mk(r: &mut crate::rng::Rng, _: u32) -> Self {
        r.chance(1, 2)
    }
    fn sig(&self, o: &mut Vec<u64>) {
        o.push(*self as u64 + 5)
    }
    fn own(&self, _: &mut Vec<usize>) {}
    fn poke(&mut self) {
        *self = !*self
    }
}
macro_rules! nel {
    ($($t:ty),*) => {$(impl Nest for $t {
        fn mk(r: &mut crate::rng::Rng, _: u32) -> Self { <$t as Elem>::mk(r.u32() % 100_000) }
        fn sig(&self, o: &mut Vec<u64>) { self.check(); o.push(self.val() as u64) }
        fn own(&self, o: &mut Vec<usize>) { o.push(self.uid() as usize) }
        fn poke(&mut self) { let v = self.val(); self.set(v + 1) }
    })*};
}
nel!(Tok, HTok, A64);
impl<T: Nest> Nest for Option<T> {
    fn mk(r: &mut crate::rng::Rng, d: u32) -> Self {
        if r.chance(1, 4) {
            None
        } else {
            Some(T::mk(r, d))
        }
    }
    fn sig(&self, o: &mut Vec<u64>) {
        o.push(0x1000_0000 + self.is_some() as u64);
        if let Some(x) = self {
            x.sig(o)
        }
    }
    fn own(&self, o: &mut Vec<usize>) {
        if let Some(x) = self {
            x.own(o)
        }
    }
    fn poke(&mut self) {
        if let Some(x) = self {
            x.poke()
        }
    }
}
impl<T: Nest> Nest for Box<T> {
    fn mk(r: &mut crate::rng::Rng, d: u32) -> Self {
        Box::new(T::mk(r, d))
    }
    fn sig(&self, o: &mut Vec<u64>) {
        (**self).sig(o)
    }
    fn own(&self, o: &mut Vec<usize>) {
        o.push(&**self as *const T as usize);
        (**self).own(o)
    }
    fn poke(&mut self) {
        (**self).poke()
    }
}
impl<T: Nest> Nest for TryBox<T> {
    fn mk(r: &mut crate::rng::Rng, d: u32) -> Self {
        unsafe { TryBox::from_raw(Box::into_raw(Box::new(T::mk(r, d)))) }
    }
    fn sig(&self, o: &mut Vec<u64>) {
        (**self).sig(o)
    }
    fn own(&self, o: &mut Vec<usize>) {
        o.push(&**self as *const T as usize);
        (**self).own(o)
    }
    fn poke(&mut self) {
        unsafe {
            let r = TryBox::into_raw(std::ptr::read(self));
            (*r).poke();
            std::ptr::write(self, TryBox::from_raw(r));
        }
    }
}
fn count(r: &mut crate::rng::Rng, d: u32) -> usize {
    if d == 0 {
        r.us(3)
    } else {
        r.us(5)
    }
}
impl<T: Nest> Nest for Vec<T> {
    fn mk(r: &mut crate::rng::Rng, d: u32) -> Self {
        let n = count(r, d);
        let mut v = Vec::with_capacity(n + r.us(3));
        for _ in 0..n {
            v.push(T::mk(r, d.saturating_sub(1)))
        }
        v
    }
    fn sig(&self, o: &mut Vec<u64>) {
        o.push(0x2000_0000 + self.len() as u64);
        for x in self {
            x.sig(o)
        }
    }
    fn own(&self, o: &mut Vec<usize>) {
        if self.capacity() > 0 && std::mem::size_of::<T>() > 0 {
            o.push(self.as_ptr() as usize);
        }
        for x in self {
            x.own(o)
        }
    }
    fn poke(&mut self) {
        match self.first_mut() {
            Some(x) if self_len_odd(x) => x.poke(),
            _ => {
                self.pop();
            }
        }
    }
}
fn self_len_odd<T: Nest>(x: &T) -> bool {
    let mut o = vec![];
    x.sig(&mut o);
    o.iter().fold(0u64, |a, b| a ^ b) & 1 == 1
}
impl<T: Nest> Nest for fallible_collections::TryVec<T> {
    fn mk(r: &mut crate::rng::Rng, d: u32) -> Self {
        Vec::mk(r, d).into()
    }
    fn sig(&self, o: &mut Vec<u64>) {
        o.push(0x3000_0000 + self.len() as u64);
        for x in self.iter() {
            x.sig(o)
        }
    }
    fn own(&self, o: &mut Vec<usize>) {
        if !self.is_empty() && std::mem::size_of::<T>() > 0 {
            o.push(self.as_ptr() as usize);
        }
        for x in self.iter() {
            x.own(o)
        }
    }
    fn poke(&mut self) {
        match self.iter_mut().next() {
            Some(x) if self_len_odd(x) => x.poke(),
            _ => {
                self.pop();
            }
        }
    }
}
/// Shared with the copy by design; holds something comparable.
impl<T: Nest> Nest for Arc<T> {
    fn mk(r: &mut crate::rng::Rng, d: u32) -> Self {
        Arc::new(T::mk(r, d))
    }
    fn sig(&self, o: &mut Vec<u64>) {
        o.push(&**self as *const T as u64);
        (**self).sig(o)
    }
    fn own(&self, _: &mut Vec<usize>) {}
    fn poke(&mut self) {}
}
#[cfg(feature = "hashmap")]
impl<T: Nest> Nest for fallible_collections::TryHashMap<u32, T> {
    fn mk(r: &mut crate::rng::Rng, d: u32) -> Self {
        let n = count(r, d);
        let mut t = fallible_collections::TryHashMap::default();
        for i in 0..n {
            let _ = t.insert(i as u32 * 7 + 1, T::mk(r, d.saturating_sub(1)));
        }
        t
    }
    fn sig(&self, o: &mut Vec<u64>) {
        o.push(0x4000_0000 + self.len() as u64);
        let mut v: Vec<_> = self.iter().collect();
        v.sort_unstable_by_key(|x| *x.0);
        for (k, x) in v {
            o.push(*k as u64);
            x.sig(o)
        }
    }
    fn own(&self, o: &mut Vec<usize>) {
        for (k, x) in self.iter() {
            o.push(k as *const u32 as usize);
            x.own(o)
        }
    }
    fn poke(&mut self) {
        self.remove(&1);
    }
}
#[cfg(feature = "unstable")]
impl<T: Nest> Nest for fallible_collections::btree::BTreeMap<u32, T> {
    fn mk(r: &mut crate::rng::Rng, d: u32) -> Self {
        let n = if r.chance(1, 3) { r.us(30) } else { count(r, d) };
        let mut t = fallible_collections::btree::BTreeMap::new();
        for i in 0..n {
            let _ = t.try_insert(i as u32 * 7 + 1, T::mk(r, d.saturating_sub(1)));
        }
        t
    }
    fn sig(&self, o: &mut Vec<u64>) {
        o.push(0x5000_0000 + self.len() as u64);
        for (k, x) in self.iter() {
            o.push(*k as u64);
            x.sig(o)
        }
    }
    fn own(&self, o: &mut Vec<usize>) {
        for (k, x) in self.iter() {
            o.push(k as *const u32 as usize);
            x.own(o)
        }
    }
    fn poke(&mut self) {
        match self.values_mut().last() {
            Some(x) if self_len_odd(x) => x.poke(),
            _ => {
                self.remove(&1);
            }
        }
    }
}
fn sig<T: Nest>(t: &T) -> Vec<u64> {
    let mut o = vec![];
    t.sig(&mut o);
    o
}
fn own<T: Nest>(t: &T) -> Vec<usize> {
    let mut o = vec![];
    t.own(&mut o);
    o.sort_unstable();
    o
}
pub fn nested<T: Nest>(cx: &mut Cx, name: &'static str) {
    let depth = if cx.miri { 1 } else { 1 + cx.rng.us(3) as u32 };
    let rounds = if cx.miri { 2 } else { 4 };
    for _ in 0..rounds {
        let mut a = T::mk(&mut cx.rng, depth);
        let s0 = sig(&a);
        let o0 = own(&a);
        cx.top("largest nested value", s0.len() as u64);
        let mut sch = cx.sched(true);
        loop {
            let plan = sch.next();
            let base = alive();
            let blocks = mon::LIVE_BLOCKS.load(Relaxed);
            let o = cx.run(name, s0.len() as u64, o0.len() as u64, plan, || a.try_clone());
            let faulted = o.faulted();
            match o.r {
                Res::Val(Ok(mut b)) => {
                    let s1 = sig(&b);
                    cx.poll(name);
                    ensure!(cx, K::Clone, s1 == s0, "{name}: the copy holds {s1:x?}, expected {s0:x?}");
                    ensure!(cx, K::Clone, sig(&a) == s0 && own(&a) == o0, "{name}: the original changed");
                    let o1 = own(&b);
                    if let Some(x) = o1.iter().find(|x| o0.binary_search(x).is_ok()) {
                        cx.fail(K::Clone, &format!("{name}: original and copy share storage ({x:#x})"));
                    }
                    cx.cnt("copies compared", 0, 1);
                    match cx.rng.us(4) {
                        0 => {
                            cx.plainly("change copy", 0, 0, || b.poke());
                            ensure!(cx, K::Clone, sig(&a) == s0, "{name}: changing the copy changed the original");
                            cx.free("drop copy", 0, 0, || drop(b));
                            ensure!(cx, K::Clone, sig(&a) == s0, "{name}: dropping the copy changed the original");
                        }
                        1 => {
                            cx.plainly("change original", 0, 0, || a.poke());
                            ensure!(cx, K::Clone, sig(&b) == s0, "{name}: changing the original changed the copy");
                            cx.free("drop original", 0, 0, || drop(a));
                            ensure!(cx, K::Clone, sig(&b) == s0, "{name}: dropping the original changed the copy");
                            return;
                        }
                        2 => {
                            cx.free("drop original", 0, 0, || drop(a));
                            ensure!(cx, K::Clone, sig(&b) == s0, "{name}: dropping the original changed the copy");
                            return;
                        }
                        _ => {
                            cx.free("drop copy", 0, 0, || drop(b));
                            cx.poll(name);
                            ensure!(cx, K::Leak, alive() == base, "{name}: {} live elements after the copy was dropped, {base} before it was made", alive());
                        }
                    }
                    break;
                }
                Res::Val(Err(_)) => {
                    ensure!(cx, K::ErrSpur, faulted, "{name} returned Err although nothing failed");
                    cx.poll(name);
                    ensure!(cx, K::Atom, sig(&a) == s0 && own(&a) == o0, "{name}: failed and changed the original");
                    ensure!(cx, K::Leak, alive() == base, "{name}: {} live elements after Err, {base} before", alive());
                    let b = mon::LIVE_BLOCKS.load(Relaxed);
                    ensure!(cx, K::Leak, b == blocks, "{name}: {b} blocks alive after Err, {blocks} before");
                    cx.cnt("unchanged after Err", 0, 1);
                }
                Res::Injected => {
                    cx.leak_ok = true;
                    ensure!(cx, K::Cb, sig(&a) == s0, "{name}: a panicking clone changed the original");
                    break;
                }
                Res::Panic(s) => cx.fail(K::Panic, &format!("{name} panicked: {s}")),
            }
        }
        cx.free("drop original", 0, 0, || drop(a));
    }
}
pub fn nest(cx: &mut Cx) {
    use fallible_collections::TryVec;
    match cx.rng.us(if cfg!(any(feature = "unstable", feature = "hashmap")) { 26 } else { 20 }) {
        0 => nested::<(u8)>(cx, "u8.try_clone"),
        1 => nested::<i16>(cx, "i16.try_clone"),
        2 => nested::<u16>(cx, "u16.try_clone"),
        3 => nested::<i8>(cx, "i8.try_clone"),
        4 => nested::<bool>(cx, "bool.try_clone"),
        5 => {
            nested::<u32>(cx, "u32.try_clone");
            nested::<i32>(cx, "i32.try_clone")
        }
        6 => {
            nested::<u64>(cx, "u64.try_clone");
            nested::<i64>(cx, "i64.try_clone");
            nested::<usize>(cx, "usize.try_clone");
            nested::<isize>(cx, "isize.try_clone")
        }
        7 => nested::<Option<Option<bool>>>(cx, "Option<Option<bool>>.try_clone"),
        8 => nested::<Option<Tok>>(cx, "Option<Tok>.try_clone"),
        9 => nested::<Vec<Box<Tok>>>(cx, "Vec<Box<Tok>>.try_clone"),
        10 => nested::<Vec<Vec<HTok>>>(cx, "Vec<Vec<HTok>>.try_clone"),
        11 => nested::<TryVec<TryVec<Tok>>>(cx, "TryVec<TryVec<Tok>>.try_clone"),
        12 => nested::<Box<Option<Vec<TryBox<Tok>>>>>(cx, "Box<Option<Vec<TryBox>>>.try_clone"),
        13 => nested::<TryBox<Box<A64>>>(cx, "TryBox<Box<A64>>.try_clone"),
        14 => nested::<Vec<Arc<Tok>>>(cx, "Vec<Arc<Tok>>.try_clone"),
        15 => nested::<TryVec<Option<HTok>>>(cx, "TryVec<Option<HTok>>.try_clone"),
        16 => nested::<Vec<i8>>(cx, "Vec<i8>.try_clone"),
        17 => nested::<Option<Box<Option<Box<u64>>>>>(cx, "Option<Box<Option<Box>>>.try_clone"),
        18 => nested::<TryVec<TryBox<Vec<Arc<Vec<Tok>>>>>>(cx, "TryVec<TryBox<Vec<Arc>>>.try_clone"),
        19 => nested::<Box<TryVec<isize>>>(cx, "Box<TryVec<isize>>.try_clone"),
        #[cfg(feature = "hashmap")]
        20..=21 => nested::<fallible_collections::TryHashMap<u32, TryVec<Tok>>>(cx, "TryHashMap<_,TryVec<Tok>>.try_clone"),
        #[cfg(feature = "hashmap")]
        22..=23 => nested::<Vec<fallible_collections::TryHashMap<u32, Box<HTok>>>>(cx, "Vec<TryHashMap<_,Box>>.try_clone"),
        #[cfg(feature = "hashmap")]
        _ => nested::<Box<fallible_collections::TryHashMap<u32, fallible_collections::TryHashMap<u32, Tok>>>>(cx, "Box<TryHashMap<_,TryHashMap>>.try_clone"),
        #[cfg(feature = "unstable")]
        20..=21 => nested::<fallible_collections::btree::BTreeMap<u32, TryVec<Tok>>>(cx, "BTreeMap<_,TryVec<Tok>>.try_clone"),
        #[cfg(feature = "unstable")]
        22..=23 => nested::<Vec<fallible_collections::btree::BTreeMap<u32, Box<HTok>>>>(cx, "Vec<BTreeMap<_,Box>>.try_clone"),
        #[cfg(feature = "unstable")]
        _ => nested::<Box<fallible_collections::btree::BTreeMap<u32, fallible_collections::btree::BTreeMap<u32, Option<Tok>>>>>(cx, "Box<BTreeMap<_,BTreeMap>>.try_clone"),
        #[cfg(not(any(feature = "unstable", feature = "hashmap")))]
        _ => {}
    }
}
pub fn run(cx: &mut Cx) {
    match cx.rng.us(if cx.miri { 16 } else { 19 }) {
        14 => pool::<B20>(cx),
        15 => pool::<BPage>(cx),
        16 => pool::<BPage64>(cx),
        17 => pool::<BPageA>(cx),
        18 => pool::<B64k>(cx),
        0..=2 => pool::<Tok>(cx),
        3 | 4 => pool::<HTok>(cx),
        5 => pool::<A64>(cx),
        6 => pool::<Big>(cx),
        7 | 8 => pool::<Z>(cx),
        9 => pool::<ZA>(cx),
        10 => pool::<u8>(cx),
        11 => pool::<CA128>(cx),
        12 => pool::<SKey>(cx),
        _ => pool::<C3>(cx),
    }
}
