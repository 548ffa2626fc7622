//! Elements that are cloned by code of their own but have nothing to drop, so that copying their
//! bytes would go unnoticed by every ledger: each clone carries a serial number of its own and the
//! serial number of what it was cloned from.
use crate::cx::*;
use crate::mon::{self, Fault};
use crate::tok::{cb, reserve_error, Cb};
use fallible_collections::{FallibleVec, TryClone, TryReserveError, TryVec};
use std::cell::{Cell, RefCell};
use std::sync::atomic::Ordering::Relaxed;

thread_local! {
    static SER: Cell<u32> = const { Cell::new(1) };
    /// (source, clone) of the operation under way
    static LOG: RefCell<Vec<(u32, u32)>> = const { RefCell::new(Vec::new()) };
    static ZC: Cell<u32> = const { Cell::new(0) };
}
fn serial() -> u32 {
    SER.with(|s| {
        let n = s.get();
        s.set(n.wrapping_add(1).max(1));
        n
    })
}
fn log(from: u32, to: u32) {
    mon::outside(|| LOG.with(|l| l.borrow_mut().push((from, to))));
}
fn fresh() {
    mon::outside(|| LOG.with(|l| l.borrow_mut().clear()));
    ZC.with(|z| z.set(0));
}
fn logged(from: u32, to: u32) -> bool {
    LOG.with(|l| l.borrow().iter().any(|&x| x == (from, to)))
}

pub trait Plain: TryClone + Sized + 'static {
    const NAME: &'static str;
    const ZST: bool = false;
    fn mk(v: u32) -> Self;
    fn val(&self) -> u32;
    fn ser(&self) -> u32;
    fn from(&self) -> u32;
}
macro_rules! plain {
    ($t:ident, $name:literal, $n:expr, $(#[$a:meta])*) => {
        $(#[$a])*
        pub struct $t { val: u32, ser: u32, from: u32, pad: [u32; $n] }
        impl $t {
            fn new(val: u32, from: u32) -> Self { let ser = serial(); $t { val, ser, from, pad: [val ^ ser; $n] } }
        }
        impl Plain for $t {
            const NAME: &'static str = $name;
            fn mk(v: u32) -> Self { Self::new(v, 0) }
            fn val(&self) -> u32 { self.val }
            fn ser(&self) -> u32 { if self.pad.iter().all(|p| *p == self.val ^ self.ser) { self.ser } else { u32::MAX } }
            fn from(&self) -> u32 { self.from }
        }
        impl TryClone for $t {
            fn try_clone(&self) -> Result<Self, TryReserveError> {
                if cb(Cb::TryClone) { return Err(mon::outside(reserve_error)); }
                let n = Self::new(self.val, self.ser);
                log(self.ser, n.ser);
                Ok(n)
            }
        }
        impl PartialEq for $t { fn eq(&self, o: &Self) -> bool { self.val == o.val } }
        impl Eq for $t {}
        impl PartialOrd for $t { fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> { Some(self.cmp(o)) } }
        impl Ord for $t { fn cmp(&self, o: &Self) -> std::cmp::Ordering { self.val.cmp(&o.val) } }
        impl std::hash::Hash for $t { fn hash<H: std::hash::Hasher>(&self, h: &mut H) { self.val.hash(h) } }
    };
}
plain!(P12, "plain12", 0,);
plain!(P64, "plainalign64", 1, #[repr(align(64))]);
plain!(PBig, "plain400", 97,);
/// Nothing to copy at all: the clones are counted.
pub struct PZ(());
impl Plain for PZ {
    const NAME: &'static str = "plainzst";
    const ZST: bool = true;
    fn mk(_: u32) -> Self {
        PZ(())
    }
    fn val(&self) -> u32 {
        0
    }
    fn ser(&self) -> u32 {
        0
    }
    fn from(&self) -> u32 {
        0
    }
}
impl TryClone for PZ {
    fn try_clone(&self) -> Result<Self, TryReserveError> {
        if cb(Cb::TryClone) {
            return Err(mon::outside(reserve_error));
        }
        ZC.with(|z| z.set(z.get() + 1));
        Ok(PZ(()))
    }
}
impl PartialEq for PZ {
    fn eq(&self, _: &Self) -> bool {
        true
    }
}
impl Eq for PZ {}
impl PartialOrd for PZ {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for PZ {
    fn cmp(&self, _: &Self) -> std::cmp::Ordering {
        std::cmp::Ordering::Equal
    }
}
impl std::hash::Hash for PZ {
    fn hash<H: std::hash::Hasher>(&self, _: &mut H) {}
}

type Id = (u32, u32);
fn ids<'a, T: Plain>(i: impl IntoIterator<Item = &'a T>) -> Vec<Id> {
    i.into_iter().map(|x| (x.val(), x.ser())).collect()
}
/// Runs a cloning operation under failures and compares what it made, element by element, with its
/// sources; `given` are elements handed over that may appear themselves, once each.
fn check<T: Plain, R>(
    cx: &mut Cx,
    what: &'static str,
    mut op: impl FnMut() -> (R, Vec<Id>, Vec<Id>),
    run: impl Fn(&mut R) -> Result<(), TryReserveError>,
    got: impl Fn(&R) -> Vec<(Id, u32)>,
    keeps: impl Fn(&R) -> Vec<Id>,
) {
    let mut sch = cx.sched(true);
    loop {
        let plan = sch.next();
        let (mut r, src, given) = op();
        let blocks = mon::LIVE_BLOCKS.load(Relaxed);
        let before = keeps(&r);
        fresh();
        let o = cx.run(what, src.len() as u64, std::mem::size_of::<T>() as u64, plan, || run(&mut r));
        let faulted = o.faulted();
        match o.r {
            Res::Val(Ok(())) => {
                ensure!(cx, K::Clone, !o.fired, "{what} of {}: Ok although try_clone of an element reported failure", T::NAME);
                let g = got(&r);
                ensure!(cx, K::Clone, g.len() == src.len(), "{what} of {}: {} elements made from {}", T::NAME, g.len(), src.len());
                if T::ZST {
                    let n = ZC.with(|z| z.get()) as usize;
                    ensure!(cx, K::Clone, n + given.len() >= src.len(), "{what} of {}: {} elements made with {n} calls of their try_clone", T::NAME, src.len());
                } else {
                    let mut seen = std::collections::HashSet::new();
                    for (i, ((v, s), from)) in g.iter().enumerate() {
                        let w = src[i];
                        ensure!(cx, K::Clone, *v == w.0, "{what} of {}: element {i} holds {v}, expected {}", T::NAME, w.0);
                        ensure!(cx, K::Clone, seen.insert(*s), "{what} of {}: element {i} is a copy of the bytes of another", T::NAME);
                        let own = given.iter().any(|x| x.1 == *s);
                        ensure!(cx, K::Clone, own || logged(*from, *s), "{what} of {}: element {i} (serial {s}, from {from}) was not made by try_clone of its source (serial {})", T::NAME, w.1);
                        ensure!(cx, K::Clone, own || *from == w.1 || !given.is_empty(), "{what} of {}: element {i} was cloned from {from}, expected {}", T::NAME, w.1);
                    }
                }
                let after = keeps(&r);
                ensure!(cx, K::Clone, after == before, "{what} of {}: the original changed", T::NAME);
                cx.cnt("elements traced to their try_clone", 0, g.len() as u64);
                drop(r);
                return;
            }
            Res::Val(Err(_)) => {
                ensure!(cx, K::ErrSpur, faulted, "{what} of {}: Err although nothing failed", T::NAME);
                let after = keeps(&r);
                ensure!(cx, K::Atom, after == before, "{what} of {}: Err and the original changed", T::NAME);
                if matches!(plan.fault, Fault::None) && plan.cb.is_some() {
                    cx.cnt("element clone failures passed on", 0, 1);
                }
                drop(r);
                let b = mon::LIVE_BLOCKS.load(Relaxed);
                ensure!(cx, K::Leak, b <= blocks, "{what} of {}: {b} blocks alive after Err, {blocks} before", T::NAME);
            }
            Res::Injected => {
                cx.leak_ok = true;
                return;
            }
            Res::Panic(p) => cx.fail(K::Panic, &format!("{what} of {} panicked: {p}", T::NAME)),
        }
    }
}
fn two<T: Plain>(x: &T) -> (Id, u32) {
    ((x.val(), x.ser()), x.from())
}
fn all<'a, T: Plain>(i: impl IntoIterator<Item = &'a T>) -> Vec<(Id, u32)> {
    i.into_iter().map(|x| two(x)).collect()
}
fn some<T: Plain>(cx: &mut Cx, n: usize) -> Vec<T> {
    let spare = cx.rng.us(5);
    let base = cx.rng.u32() % 1000;
    let mut v = Vec::with_capacity(n + spare);
    v.extend((0..n).map(|i| T::mk(base + i as u32)));
    v
}
fn ops<T: Plain + Ord + std::hash::Hash>(cx: &mut Cx) {
    let n = match cx.rng.us(6) {
        0 => 0,
        1 => 1,
        2 => 2,
        3 | 4 => cx.rng.us(12),
        _ => cx.rng.us(if cx.miri { 20 } else { 70 }),
    };
    let lo = cx.rng.us(n + 1);
    let a = some::<T>(cx, n);
    let n0 = cx.rng.us(4);
    let spare = cx.rng.us(2 * n + 2);
    let id = |v: &[T]| ids(v);
    let dst = || {
        let mut d: Vec<T> = Vec::with_capacity(n0 + spare);
        d.extend((0..n0 as u32).map(|i| T::mk(5000 + i)));
        d
    };
    match cx.rng.us(14) {
        0 => check::<T, (Vec<T>, Option<Vec<T>>)>(cx, "Vec::try_clone", || { let v = mkfrom(&a); let s = id(&v); ((v, None), s, vec![]) }, |r| { r.1 = Some(r.0.try_clone()?); Ok(()) }, |r| all(r.1.as_ref().unwrap()), |r| ids(&r.0)),
        1 => check::<T, (TryVec<T>, Option<TryVec<T>>)>(cx, "TryVec::try_clone", || { let v = mkfrom(&a); let s = id(&v); ((TryVec::from(v), None), s, vec![]) }, |r| { r.1 = Some(r.0.try_clone()?); Ok(()) }, |r| all(r.1.as_ref().unwrap().iter()), |r| ids(r.0.iter())),
        2 => check::<T, (Vec<T>, Option<TryVec<T>>)>(cx, "TryVec::try_from(slice)", || { let v = mkfrom(&a); let s = id(&v[lo..]); ((v, None), s, vec![]) }, |r| { r.1 = Some(TryVec::try_from(&r.0[lo..])?); Ok(()) }, |r| all(r.1.as_ref().unwrap().iter()), |r| ids(&r.0)),
        3 => check::<T, (Vec<T>, Vec<T>)>(cx, "try_extend_from_slice_no_copy", || { let v = mkfrom(&a); let s = id(&v); ((v, dst()), s, vec![]) }, |r| r.1.try_extend_from_slice_no_copy(&r.0), |r| all(&r.1[n0..]), |r| { let mut k = ids(&r.0); k.extend(ids(&r.1[..n0.min(r.1.len())])); k }),
        4 => check::<T, (Vec<T>, TryVec<T>)>(cx, "TryVec::extend_from_slice", || { let v = mkfrom(&a); let s = id(&v[lo..]); ((v, TryVec::from(dst())), s, vec![]) }, |r| r.1.extend_from_slice(&r.0[lo..]), |r| all(&r.1[n0..]), |r| { let mut k = ids(&r.0); k.extend(ids(&r.1[..n0.min(r.1.len())])); k }),
        5 => check::<T, (Option<T>, Vec<T>)>(cx, "try_resize_no_copy", || { let x = T::mk(9); let i = (x.val(), x.ser()); ((Some(x), dst()), vec![i; n], if n > 0 { vec![i] } else { vec![] }) }, |r| { let x = r.0.take().unwrap(); r.1.try_resize_no_copy(n0 + n, x) }, |r| all(&r.1[n0..]), |r| ids(&r.1[..n0.min(r.1.len())])),
        6 => {
            let k = cx.rng.us(4);
            check::<T, (TryVec<TryVec<T>>, Option<TryVec<T>>)>(cx, "TryVec::concat", || {
                let mut vv: Vec<TryVec<T>> = Vec::new();
                let mut s = vec![];
                for j in 0..k {
                    let v = mkfrom(&a[..n * j / k.max(1)]);
                    s.extend(id(&v));
                    vv.push(TryVec::from(v));
                }
                ((TryVec::from(vv), None), s, vec![])
            }, |r| { r.1 = Some(r.0.concat()?); Ok(()) }, |r| all(r.1.as_ref().unwrap().iter()), |r| r.0.iter().flat_map(|v| ids(v.iter())).collect())
        }
        7 => check::<T, (Vec<Vec<T>>, Option<Vec<Vec<T>>>)>(cx, "Vec<Vec>::try_clone", || { let (v, w) = (mkfrom(&a[..lo]), mkfrom(&a[lo..])); let mut s = id(&v); s.extend(id(&w)); ((vec![v, vec![], w], None), s, vec![]) }, |r| { r.1 = Some(r.0.try_clone()?); Ok(()) }, |r| r.1.as_ref().unwrap().iter().flat_map(|v| all(v)).collect(), |r| r.0.iter().flat_map(|v| ids(v)).collect()),
        8 => check::<T, (Vec<Option<T>>, Option<Vec<Option<T>>>)>(cx, "Vec<Option>::try_clone", || { let v: Vec<Option<T>> = a.iter().flat_map(|x| [None, Some(T::mk(x.val()))]).collect(); let s = ids(v.iter().flatten()); ((v, None), s, vec![]) }, |r| { r.1 = Some(r.0.try_clone()?); Ok(()) }, |r| all(r.1.as_ref().unwrap().iter().flatten()), |r| ids(r.0.iter().flatten())),
        9 => check::<T, (Box<T>, Option<Box<T>>)>(cx, "Box::try_clone", || { let x = T::mk(4); let i = (x.val(), x.ser()); ((Box::new(x), None), vec![i], vec![]) }, |r| { r.1 = Some(TryClone::try_clone(&r.0)?); Ok(()) }, |r| all(r.1.as_deref()), |r| ids([&*r.0])),
        10 => check::<T, (fallible_collections::TryBox<T>, Option<fallible_collections::TryBox<T>>)>(cx, "TryBox::try_clone", || { let x = T::mk(4); let i = (x.val(), x.ser()); ((fallible_collections::TryBox::try_new(x).unwrap(), None), vec![i], vec![]) }, |r| { r.1 = Some(r.0.try_clone()?); Ok(()) }, |r| all(r.1.as_deref()), |r| ids([&*r.0])),
        11 => check::<T, (Option<T>, Option<T>)>(cx, "Option::try_clone", || { let x = T::mk(4); let i = (x.val(), x.ser()); ((Some(x), None), vec![i], vec![]) }, |r| { r.1 = r.0.try_clone()?; Ok(()) }, |r| all(&r.1), |r| ids(&r.0)),
        #[cfg(feature = "hashmap")]
        12 | 13 => {
            hashed::<T>(cx, &a);
        }
        #[cfg(feature = "unstable")]
        12 => {
            use fallible_collections::btree::BTreeMap as M;
            check::<T, (M<T, T>, Option<M<T, T>>)>(
                cx,
                "BTreeMap::try_clone",
                || {
                    let mut m = M::new();
                    for x in a.iter() {
                        let _ = m.try_insert(T::mk(x.val()), T::mk(x.val() + 70_000));
                    }
                    let s = m.iter().flat_map(|(k, v)| [(k.val(), k.ser()), (v.val(), v.ser())]).collect();
                    ((m, None), s, vec![])
                },
                |r| {
                    r.1 = Some(r.0.try_clone()?);
                    Ok(())
                },
                |r| r.1.as_ref().unwrap().iter().flat_map(|(k, v)| [two(k), two(v)]).collect(),
                |r| r.0.iter().flat_map(|(k, v)| [(k.val(), k.ser()), (v.val(), v.ser())]).collect(),
            )
        }
        #[cfg(feature = "unstable")]
        13 => {
            let mac = cx.rng.chance(1, 2);
            check::<T, (Option<T>, Option<Vec<T>>)>(
                cx,
                "try_from_elem",
                || {
                    let x = T::mk(9);
                    let i = (x.val(), x.ser());
                    ((Some(x), None), vec![i; n], if n > 0 { vec![i] } else { vec![] })
                },
                |r| {
                    let x = r.0.take().unwrap();
                    r.1 = Some(if mac { fallible_collections::try_vec![x; n]? } else { fallible_collections::vec::try_from_elem(x, n)? });
                    Ok(())
                },
                |r| all(r.1.as_ref().unwrap()),
                |_| vec![],
            )
        }
        _ => {}
    }
}
fn mkfrom<T: Plain>(a: &[T]) -> Vec<T> {
    let mut v = Vec::with_capacity(a.len());
    v.extend(a.iter().map(|x| T::mk(x.val())));
    v
}
#[cfg(feature = "hashmap")]
fn hashed<T: Plain + Ord + std::hash::Hash>(cx: &mut Cx, a: &[T]) {
    use fallible_collections::TryHashMap as M;
    let made = || {
        let mut m: M<T, T> = M::with_capacity(0).unwrap();
        for x in a.iter() {
            m.insert(T::mk(x.val()), T::mk(x.val() + 70_000)).unwrap();
        }
        m
    };
    fn flat<T: Plain + Eq + std::hash::Hash>(m: &M<T, T>) -> Vec<(Id, u32)> {
        let mut f: Vec<_> = m.iter().flat_map(|(k, v)| [two(k), two(v)]).collect();
        f.sort();
        f
    }
    check::<T, (M<T, T>, Option<M<T, T>>)>(
        cx,
        "TryHashMap::try_clone",
        || {
            let m = made();
            let s = flat(&m).into_iter().map(|x| x.0).collect();
            ((m, None), s, vec![])
        },
        |r| {
            r.1 = Some(r.0.try_clone()?);
            Ok(())
        },
        |r| flat(r.1.as_ref().unwrap()),
        |r| flat(&r.0).into_iter().map(|x| x.0).collect(),
    )
}
pub fn run(cx: &mut Cx) {
    for _ in 0..(if cx.miri { 2 } else { 4 }) {
        match cx.rng.us(6) {
            0..=2 => ops::<P12>(cx),
            3 => ops::<P64>(cx),
            4 => ops::<PBig>(cx),
            _ => ops::<PZ>(cx),
        }
    }
}
