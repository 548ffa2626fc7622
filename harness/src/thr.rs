//! Threads: private histories, shared reading, handing collections over.
//! Threads synchronise by starting and joining only, so that the race detectors see exactly what
//! the library itself does.
use crate::cx::*;
use crate::mon::{self, Fault};
use crate::rng::{mix, Rng};
use crate::tok::*;
use fallible_collections::{FallibleBox, FallibleVec, TryBox, TryClone, TryCollect, TryVec};
use std::collections::BTreeMap as Std;
use std::sync::atomic::{AtomicU8, AtomicUsize, Ordering::Relaxed};

#[cfg(feature = "unstable")]
use fallible_collections::btree::{BTreeMap, BTreeSet};
#[cfg(feature = "hashmap")]
use fallible_collections::TryHashMap;

const LOG: usize = if cfg!(miri) { 64 } else { 2048 };
/// Which thread did the n-th operation.
static ORDER: [AtomicU8; LOG] = [const { AtomicU8::new(0) }; LOG];
static AT: AtomicUsize = AtomicUsize::new(0);
fn mark(who: u8) {
    let i = AT.fetch_add(1, Relaxed);
    if i < LOG {
        ORDER[i].store(who, Relaxed);
    }
}
/// Moves across threads whatever the compiler thinks of it: the markers are checked separately.
struct Over<T>(T);
impl<T: Copy> Clone for Over<T> {
    fn clone(&self) -> Self {
        Over(self.0)
    }
}
impl<T: Copy> Copy for Over<T> {}
unsafe impl<T> Send for Over<T> {}
impl<T> Over<T> {
    fn take(self) -> T {
        self.0
    }
}

pub struct Coll<V: Elem> {
    v: TryVec<V>,
    mv: Vec<u32>,
    b: Option<TryBox<V>>,
    mb: Option<u32>,
    #[cfg(feature = "unstable")]
    t: BTreeMap<u32, V>,
    #[cfg(feature = "unstable")]
    s: BTreeSet<u32>,
    #[cfg(feature = "hashmap")]
    h: TryHashMap<u32, V>,
    m: Std<u32, u32>,
    /// Counted from all threads at once when the collection is shared.
    a: std::sync::Arc<u32>,
}
type Bad = Result<(), String>;
macro_rules! want {
    ($c:expr, $($t:tt)+) => { if !$c { return Err(mon::outside(|| format!($($t)+))); } };
}
impl<V: Elem> Coll<V> {
    fn new() -> Self {
        Coll {
            v: TryVec::new(),
            mv: vec![],
            b: None,
            mb: None,
            #[cfg(feature = "unstable")]
            t: BTreeMap::new(),
            #[cfg(feature = "unstable")]
            s: BTreeSet::new(),
            #[cfg(feature = "hashmap")]
            h: TryHashMap::default(),
            m: Std::new(),
            a: std::sync::Arc::new(77),
        }
    }
    fn check(&self) -> Bad {
        want!(self.v.len() == self.mv.len(), "vector of {} elements, expected {}", self.v.len(), self.mv.len());
        for (i, (a, b)) in self.v.iter().zip(&self.mv).enumerate() {
            a.check();
            want!(a.val() == *b, "vector element {i} is {}, expected {b}", a.val());
        }
        want!(self.b.as_ref().map(|b| b.val()) == self.mb, "box holds something else than {:?}", self.mb);
        #[cfg(feature = "unstable")]
        {
            want!(self.t.len() == self.m.len() && self.s.len() == self.m.len(), "map of {} and set of {}, expected {}", self.t.len(), self.s.len(), self.m.len());
            let mut n = 0;
            for ((k, v), (mk, mv)) in self.t.iter().zip(&self.m) {
                v.check();
                want!(k == mk && v.val() == *mv, "map entry ({k}, {}), expected ({mk}, {mv})", v.val());
                n += 1;
            }
            want!(n == self.m.len(), "map yields {n} of {}", self.m.len());
            want!(self.s.iter().eq(self.m.keys()), "set differs");
        }
        #[cfg(feature = "hashmap")]
        {
            want!(self.h.len() == self.m.len(), "hash map of {}, expected {}", self.h.len(), self.m.len());
            for (k, v) in self.h.iter() {
                v.check();
                want!(self.m.get(k) == Some(&v.val()), "hash map entry ({k}, {}), expected {:?}", v.val(), self.m.get(k));
            }
        }
        Ok(())
    }
    fn add(&mut self, r: &mut Rng, k: u32) -> Bad {
        let v = r.u32() % 1000;
        #[cfg(feature = "unstable")]
        {
            let old = match r.us(3) {
                0 => self.t.try_insert(k, V::mk(v)).map(|o| o.map(|x| x.val())),
                1 => match self.t.try_entry(k) {
                    Ok(fallible_collections::btree::map::Entry::Occupied(mut e)) => Ok(Some(e.insert(V::mk(v)).val())),
                    Ok(fallible_collections::btree::map::Entry::Vacant(e)) => e.try_insert(V::mk(v)).map(|_| None),
                    Err(e) => Err(e),
                },
                _ => {
                    let had = self.t.get(&k).map(|x| x.val());
                    self.t.try_insert(k, V::mk(v)).map(|_| had)
                }
            };
            let fresh = self.s.try_insert(k);
            let w = self.m.get(&k).copied();
            want!(matches!(old, Ok(o) if o == w), "map insertion of {k} gave {old:?}, expected {w:?}");
            want!(matches!(fresh, Ok(f) if f == w.is_none()), "set insertion of {k} gave {fresh:?}");
        }
        #[cfg(feature = "hashmap")]
        {
            let old = self.h.insert(k, V::mk(v)).map(|o| o.map(|x| x.val()));
            let w = self.m.get(&k).copied();
            want!(matches!(old, Ok(o) if o == w), "hash map insertion of {k} gave {old:?}, expected {w:?}");
        }
        mon::outside(|| self.m.insert(k, v));
        Ok(())
    }
    fn del(&mut self, k: u32) -> Bad {
        let w = mon::outside(|| self.m.remove(&k));
        #[cfg(feature = "unstable")]
        {
            let g = self.t.remove(&k).map(|x| x.val());
            want!(g == w, "map removal of {k} gave {g:?}, expected {w:?}");
            want!(self.s.remove(&k) == w.is_some(), "set removal of {k}, expected {w:?}");
        }
        #[cfg(feature = "hashmap")]
        {
            let g = self.h.remove(&k).map(|x| x.val());
            want!(g == w, "hash map removal of {k} gave {g:?}, expected {w:?}");
        }
        let _ = w;
        Ok(())
    }
    fn step(&mut self, r: &mut Rng) -> Bad {
        let k = r.us(if cfg!(miri) { 25 } else { 60 }) as u32;
        match r.us(19) {
            0..=3 => self.add(r, k)?,
            4 | 5 => self.del(k)?,
            6 => {
                let x = r.u32() % 1000;
                if self.v.push(V::mk(x)).is_err() {
                    return Err("push failed".into());
                }
                mon::outside(|| self.mv.push(x));
            }
            7 => {
                let w = self.mv.pop();
                let g = self.v.pop().map(|x| x.val());
                want!(g == w, "pop gave {g:?}, expected {w:?}");
            }
            8 => {
                let x = r.u32() % 1000;
                self.b = TryBox::try_new(V::mk(x)).ok();
                self.mb = Some(x);
                want!(self.b.is_some(), "TryBox::try_new failed");
                let b = <Box<V> as FallibleBox<V>>::try_new(V::mk(x));
                want!(matches!(&b, Ok(b) if b.val() == x), "Box::try_new");
                #[allow(deprecated)]
                {
                    use std::{rc::Rc, sync::Arc};
                    let a = <Arc<V> as fallible_collections::FallibleArc<V>>::try_new(V::mk(x));
                    let c = a.as_ref().ok().and_then(|a| a.try_clone().ok());
                    want!(matches!((&a, &c), (Ok(a), Some(c)) if a.val() == x && c.val() == x && Arc::ptr_eq(a, c) && Arc::strong_count(c) == 2), "Arc::try_new and try_clone");
                    drop(a);
                    want!(c.map(|c| Arc::strong_count(&c)) == Some(1), "count of an Arc");
                    let a = <Rc<V> as fallible_collections::FallibleRc<V>>::try_new(V::mk(x));
                    want!(matches!(&a, Ok(a) if a.val() == x && Rc::strong_count(a) == 1), "Rc::try_new");
                }
            }
            9 => {
                let c = self.v.try_clone();
                want!(matches!(&c, Ok(c) if c.len() == self.mv.len() && c.iter().zip(&self.mv).all(|(a, b)| a.val() == *b)), "clone of the vector differs");
                let l: Result<Vec<u32>, _> = (0..k).try_collect();
                want!(matches!(&l, Ok(l) if l.len() == k as usize), "try_collect");
                let mut l = l.unwrap();
                want!(l.try_extend_from_slice(&[1, 2, 3]).is_ok() && l.len() == k as usize + 3, "extend");
            }
            #[cfg(feature = "unstable")]
            10 => {
                let mut hi = match self.t.split_off(&k) {
                    Ok(x) => x,
                    Err(_) => return Err("split_off failed".into()),
                };
                want!(self.t.iter().all(|e| *e.0 < k) && hi.iter().all(|e| *e.0 >= k) && hi.len() + self.t.len() == self.m.len(), "split_off at {k}");
                want!(hi.range(k..).count() == hi.len() && self.t.range(..k).rev().count() == self.t.len(), "ranges around {k}");
                self.t.append(&mut hi);
                want!(hi.is_empty(), "append left something");
            }
            #[cfg(feature = "unstable")]
            11 => empties::<V>(k)?,
            #[cfg(feature = "hashmap")]
            11 => {
                let mut e: TryHashMap<u32, V> = TryHashMap::default();
                want!(e.get(&k).is_none() && e.remove(&k).is_none() && e.len() == 0 && e.iter().next().is_none(), "an empty hash map holds something");
                want!(e.insert(k, V::mk(k)).is_ok() && e.get(&k).map(|x| x.val()) == Some(k), "insertion into an empty hash map");
                let c = e.try_clone();
                want!(matches!(&c, Ok(c) if c.len() == 1), "clone of a hash map");
                want!(e.into_iter().count() == 1, "into_iter");
            }
            13 => refused(k)?,
            14 => texts(k)?,
            #[cfg(feature = "std_io")]
            15 => bytes(k)?,
            16 => vectors(k)?,
            #[cfg(feature = "unstable")]
            17 => {
                self.t.iter_mut().rev().take(3).for_each(|e| e.1.check());
                self.t.range_mut(k..).for_each(|e| e.1.check());
                self.t.values_mut().for_each(|e| e.check());
                want!(self.s.range(..k).rev().count() == self.m.range(..k).count(), "range of a set");
                let w = self.m.contains_key(&k);
                want!(self.s.take(&k) == w.then_some(k) && (!w || matches!(self.s.replace(k), Ok(None))), "take and replace of {k}, there {w}");
                want!(matches!(self.s.replace(k), Ok(x) if x == w.then_some(k)) && (w || self.s.remove(&k)), "replace of {k}, there {w}");
                let c = self.s.clone();
                want!(c == self.s && c.cmp(&self.s).is_eq() && &c - &self.s == BTreeSet::new(), "clone of a set");
                let mut i = c.into_iter();
                let _ = (i.next(), i.next_back());
                let mut d: BTreeMap<u32, u64> = BTreeMap::new();
                for j in 0..k {
                    match d.try_entry(j % 7).and_then(|e| e.or_default()) {
                        Ok(x) => *x += 1,
                        Err(_) => return Err("or_default failed".into()),
                    }
                }
                want!(d.values().sum::<u64>() == k as u64, "counting to {k}");
                let e = d.try_clone();
                let e = match e {
                    Ok(e) => e,
                    Err(_) => return Err("clone of a map failed".into()),
                };
                want!(e == d && e.into_iter().map(|x| x.1).sum::<u64>() == k as u64, "clone of a map");
            }
            _ => self.check()?,
        }
        Ok(())
    }
}
/// Reservations that cannot be met, and requests that are refused.
fn refused(k: u32) -> Bad {
    let mut v: Vec<u64> = Vec::new();
    want!(FallibleVec::try_reserve(&mut v, usize::MAX - k as usize).is_err() && TryVec::<u64>::with_capacity(usize::MAX / 2).is_err(), "absurd vector");
    #[cfg(feature = "hashmap")]
    want!(TryHashMap::<u64, u64>::with_capacity(usize::MAX / 2).is_err(), "absurd hash map");
    want!(fallible_collections::format::try_format(usize::MAX, format_args!("{k}")).is_err(), "absurd text");
    #[cfg(feature = "std_io")]
    {
        let mut b: TryVec<u8> = TryVec::new();
        want!(fallible_collections::try_read_up_to(&mut &b"abc"[..], u64::MAX, &mut b).is_err(), "absurd limit");
    }
    let m = mon::end();
    mon::begin(Fault::From(0));
    let mut all = TryBox::try_new(k).is_err() && <Box<u64> as FallibleBox<u64>>::try_new(7).is_err() && v.try_push(1).is_err();
    all &= (0..3u64).try_collect::<Vec<u64>>().is_err() && fallible_collections::format::try_format(9, format_args!("{k}")).is_err();
    #[cfg(feature = "hashmap")]
    {
        let mut h: TryHashMap<u32, u32> = TryHashMap::default();
        all &= h.insert(k, k).is_err() && h.get(&k).is_none() && TryHashMap::<u64, u64>::with_capacity(9).is_err();
    }
    #[cfg(feature = "unstable")]
    {
        let mut t: BTreeMap<u32, u32> = BTreeMap::new();
        let mut s: BTreeSet<u32> = BTreeSet::new();
        all &= t.try_insert(k, k).is_err() && t.get(&k).is_none() && t.try_entry(k).is_err() && s.try_insert(k).is_err() && s.replace(k).is_err();
    }
    #[cfg(feature = "std_io")]
    {
        use std::io::Write;
        let mut b: TryVec<u8> = TryVec::new();
        all &= b.write_all(b"x").is_err() && fallible_collections::try_read_up_to(&mut &b"abc"[..], 3, &mut b).is_err() && b.is_empty();
    }
    mon::end();
    mon::begin(Fault::None);
    let _ = m;
    want!(all, "an operation claims success although every request was refused");
    Ok(())
}
fn texts(k: u32) -> Bad {
    let a = fallible_collections::tryformat!(64, "{k}-{:?}", Some(k));
    want!(matches!(&a, Ok(a) if *a == mon::outside(|| format!("{k}-{:?}", Some(k)))), "text {a:?}");
    let l = fallible_collections::tryformat!(16, "literal");
    want!(matches!(&l, Ok(l) if l == "literal"), "text {l:?}");
    Ok(())
}
#[cfg(feature = "std_io")]
fn bytes(k: u32) -> Bad {
    use fallible_collections::TryRead;
    use std::io::{Read, Write};
    let mut b: TryVec<u8> = TryVec::new();
    for i in 0..k {
        want!(b.write_all(&i.to_le_bytes()).is_ok(), "write");
    }
    let src = b.try_clone();
    want!(src.is_ok(), "clone of bytes");
    let src = src.unwrap();
    let g = (&src[..]).take(2 * k as u64).read_into_try_vec();
    want!(matches!(&g, Ok(g) if g[..] == b[..2 * k as usize]), "reading {} bytes", 2 * k);
    Ok(())
}
fn vectors(k: u32) -> Bad {
    let n = k as usize;
    let mut a: Vec<u32> = Vec::new();
    let mut ok = a.try_resize(n, 1).is_ok() && a.try_resize_with(2 * n, || 2).is_ok() && a.try_insert(n, 3).is_ok() && a.try_resize_no_copy(2 * n + 5, 4).is_ok();
    let mut b = a.try_clone().unwrap_or_default();
    ok &= a == b && a.try_append(&mut b).is_ok() && b.is_empty() && a.len() == 4 * n + 10;
    ok &= a.iter().map(|x| *x as usize).sum::<usize>() == 2 * (n + 2 * n + 3 + 16);
    let parts = mon::outside(|| (0..4u32).map(|i| TryVec::from(vec![i; n])).collect::<Vec<_>>());
    let c = TryVec::from(parts).concat();
    ok &= matches!(&c, Ok(c) if c.len() == 4 * n && c.iter().enumerate().all(|(i, x)| *x as usize == i / n));
    #[cfg(feature = "unstable")]
    {
        let e = fallible_collections::try_vec![k; n];
        ok &= matches!(&e, Ok(e) if e.len() == n && e.iter().all(|x| *x == k));
        let z = fallible_collections::try_vec![0u8; n];
        ok &= matches!(&z, Ok(z) if z.len() == n && z.iter().all(|x| *x == 0));
    }
    want!(ok, "vectors of {n}");
    Ok(())
}
/// Everything one can do with a map that holds nothing: they all share one static node.
#[cfg(feature = "unstable")]
fn empties<V: Elem>(k: u32) -> Bad {
    let mut e: BTreeMap<u32, V> = BTreeMap::new();
    let mut f: BTreeMap<u32, V> = BTreeMap::default();
    want!(e.get(&k).is_none() && e.get_mut(&k).is_none() && e.remove(&k).is_none() && !e.contains_key(&k), "an empty map holds {k}");
    want!(e.iter().next().is_none() && e.iter_mut().next_back().is_none() && e.range(..k).next().is_none() && e.range_mut(k..).next_back().is_none(), "an empty map yields something");
    want!(e.keys().next().is_none() && e.values_mut().next().is_none() && e.len() == 0, "an empty map yields something");
    e.append(&mut f);
    e.clear();
    want!(e == f && e.is_empty(), "two empty maps differ");
    want!(matches!(e.try_entry(k), Ok(fallible_collections::btree::map::Entry::Vacant(_))), "an empty map has an entry");
    let mut e: BTreeMap<u32, V> = BTreeMap::new();
    match e.split_off(&k) {
        Ok(g) => want!(g.is_empty() && g.into_iter().next().is_none(), "split of an empty map"),
        Err(_) => return Err("split_off of an empty map failed".into()),
    }
    let mut g: BTreeMap<u32, V> = BTreeMap::new();
    want!(g.try_insert(k, V::mk(k)).is_ok() && g.len() == 1, "insertion into an empty map");
    e.append(&mut g);
    want!(e.len() == 1 && g.is_empty() && e.remove(&k).is_some() && e.is_empty(), "append to an empty map");
    let h: BTreeMap<u32, V> = BTreeMap::new();
    want!(h.into_iter().next_back().is_none(), "into_iter of an empty map");
    let c = f.try_clone();
    want!(matches!(c, Ok(c) if c.is_empty()), "clone of an empty map");
    let s: BTreeSet<u32> = BTreeSet::new();
    want!(s.union(&s).next().is_none() && s.difference(&s).next().is_none() && s.is_subset(&s) && s.is_disjoint(&s), "algebra on empty sets");
    Ok(())
}

fn history<V: Elem>(who: u8, seed: u64, mut c: Coll<V>, steps: usize, shared: *const Coll<V>) -> (Over<Coll<V>>, Bad) {
    let mut r = Rng(seed);
    let mut res = Ok(());
    let mut held: Vec<std::sync::Arc<u32>> = Vec::with_capacity(8);
    mon::begin(Fault::None);
    for i in 0..steps {
        mark(who);
        if let Err(e) = c.step(&mut r) {
            res = Err(format!("thread {who}, step {i}: {e}"));
            break;
        }
        if i % 3 == 0 {
            // safe: the main thread keeps it until all are joined, nobody writes
            let s = unsafe { &*shared };
            let k = r.us(60) as u32;
            let mut e = s.check();
            #[cfg(feature = "unstable")]
            if e.is_ok() && (s.t.get(&k).map(|x| x.val()) != s.m.get(&k).copied() || s.t.range(..k).count() != s.m.range(..k).count() || s.s.contains(&k) != s.m.contains_key(&k)) {
                e = Err(format!("reading key {k} of a shared map"));
            }
            #[cfg(feature = "hashmap")]
            if e.is_ok() && s.h.get(&k).map(|x| x.val()) != s.m.get(&k).copied() {
                e = Err(format!("reading key {k} of a shared map"));
            }
            for _ in 0..r.us(4) {
                match s.a.try_clone() {
                    Ok(x) if held.len() < 8 => held.push(x),
                    Ok(x) => {
                        drop(x);
                        let n = r.us(8);
                        let d = held.try_clone();
                        if !matches!(&d, Ok(d) if d.iter().all(|x| **x == 77)) || std::sync::Arc::strong_count(&s.a) < 17 {
                            e = Err("clones of a shared Arc".into());
                        }
                        held.truncate(n);
                    }
                    Err(_) => e = Err("cloning a shared Arc failed".into()),
                }
            }
            if e.is_ok() && i % 4 == 1 {
                // printing and comparing read it as well
                #[allow(clippy::eq_op)]
                let mut same = s.v == s.v && s.v.len() == s.mv.len();
                #[cfg(feature = "unstable")]
                {
                    use std::hash::{Hash, Hasher};
                    let hash = |x: &BTreeSet<u32>| {
                        let mut h = std::collections::hash_map::DefaultHasher::new();
                        x.hash(&mut h);
                        h.finish()
                    };
                    let d: BTreeSet<u32> = s.s.clone();
                    same &= d == s.s && hash(&d) == hash(&s.s) && d.partial_cmp(&s.s) == Some(std::cmp::Ordering::Equal);
                    same &= mon::outside(|| format!("{:?}", s.s) == format!("{:?}", s.m.keys().collect::<std::collections::BTreeSet<_>>()));
                    same &= matches!(s.t.try_clone(), Ok(d) if d.len() == s.m.len());
                }
                #[cfg(feature = "hashmap")]
                {
                    same &= matches!(s.h.try_clone(), Ok(d) if d.len() == s.m.len());
                }
                if !same {
                    e = Err("a shared collection differs from itself".into());
                }
            }
            if e.is_ok() && i % 2 == 0 {
                let d = s.v.try_clone();
                if !matches!(&d, Ok(d) if d.len() == s.mv.len()) {
                    e = Err("cloning a shared vector".into());
                }
                // merging reads both sides
                #[cfg(feature = "unstable")]
                {
                    let n = s.s.union(&c.s).count() + s.s.intersection(&c.s).count();
                    if n != s.s.len() + c.s.len() {
                        e = Err("algebra with a shared set".into());
                    }
                }
            }
            if let Err(e) = e {
                res = Err(format!("thread {who}, step {i}, shared: {e}"));
                break;
            }
        }
        if !cfg!(miri) && r.chance(1, 12) {
            std::thread::yield_now();
        }
    }
    if res.is_ok() {
        res = c.check().map_err(|e| format!("thread {who}, at the end: {e}"));
    }
    if res.is_err() && std::thread::panicking() {
        res = Err("panicking".into());
    }
    drop(held);
    mon::end();
    mon::flush();
    (Over(c), res)
}
fn go<V: Elem>(cx: &mut Cx) {
    let n = if cx.miri { 3 } else { 4 };
    // the threads of a process's first round are the first to call the library at all: whatever
    // it sets up once is set up by several threads at a time
    static COLD: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(true);
    let cold = COLD.swap(false, Relaxed);
    cx.cnt("rounds of threads in a fresh process", 0, cold as u64);
    let steps = if cx.miri { 8 } else { 60 } * if cold { 5 } else { 1 };
    let rounds = if cx.miri { 2 } else { 4 };
    #[cfg(feature = "hashmap")]
    crate::hashw::warm();
    // a shared collection, sometimes one that holds nothing
    let mut s: Coll<V> = Coll::new();
    let fill = if cold || cx.rng.chance(1, 3) { 0 } else { cx.rng.us(40) };
    let mut r = Rng(cx.rng.u64());
    let made = cx.plainly("fill shared collection", fill as u64, 0, || (0..fill).try_for_each(|_| s.step(&mut r)));
    ensure!(cx, K::Model, made.is_ok(), "{:?}", made);
    let shared = Box::into_raw(Box::new(s));
    let mut pool: Vec<Coll<V>> = (0..n).map(|_| Coll::new()).collect();
    for round in 0..rounds {
        AT.store(0, Relaxed);
        let mut hs = vec![];
        for (i, c) in pool.drain(..).enumerate() {
            let (seed, p, c) = (cx.rng.u64(), Over(shared as *const Coll<V>), Over(c));
            hs.push(std::thread::spawn(move || {
                let c = c.take();
                std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| history::<V>(i as u8 + 1, seed, c, steps, p.take())))
            }));
        }
        let mut first: Bad = Ok(());
        for h in hs {
            match h.join() {
                Ok(Ok((c, r))) => {
                    pool.push(c.take());
                    if first.is_ok() {
                        first = r
                    }
                }
                _ => first = Err(format!("a thread panicked: {}", panic_msg())),
            }
        }
        // how the threads ran into each other
        let k = AT.load(Relaxed).min(LOG);
        let mut f = 0u64;
        let mut changes = 0;
        for i in 0..k {
            let w = ORDER[i].load(Relaxed);
            f = mix(f ^ w as u64);
            changes += (i > 0 && ORDER[i - 1].load(Relaxed) != w) as u64;
        }
        cx.nops += k as u64;
        cx.fpmix(f);
        cx.cnt("steps in threads", 0, k as u64);
        cx.cnt("switches between threads seen", 0, changes);
        cx.top("switches in one round", changes);
        cx.note("round of threads", round as u64, changes);
        cx.poll("threads");
        if let Err(e) = first {
            cx.fail(K::Model, &e);
        }
        ensure!(cx, K::Model, pool.len() == n, "a collection got lost");
        let k = std::sync::Arc::strong_count(unsafe { &(*shared).a });
        ensure!(cx, K::Clone, k == 1, "{k} owners of an Arc all of whose clones, made and dropped in several threads, are gone");
        // whatever was made there is used here, and by another thread in the next round
        for c in pool.iter_mut() {
            if let Err(e) = c.check() {
                cx.fail(K::Model, &format!("after coming back from a thread: {e}"));
            }
            let mut r = Rng(cx.rng.u64());
            let e = cx.plainly("use of a collection made in a thread", 0, 0, || (0..5).try_for_each(|_| c.step(&mut r)));
            if let Err(e) = e {
                cx.fail(K::Model, &format!("after coming back from a thread: {e}"));
            }
        }
        pool.rotate_left(1);
        if cx.rng.chance(1, 2) {
            // dropped elsewhere
            let c = Over(pool.pop().unwrap());
            let h = std::thread::spawn(move || {
                let c = c.take();
                mon::begin(Fault::None);
                drop(c);
                mon::end();
                mon::flush();
            });
            ensure!(cx, K::Panic, h.join().is_ok(), "dropping in another thread panicked");
            cx.poll("drop in another thread");
            pool.push(Coll::new());
        }
    }
    let s = unsafe { Box::from_raw(shared) };
    cx.plainly("drop", 0, 0, || drop(s));
    cx.plainly("drop", 0, 0, || drop(pool));
}
#[cfg(feature = "unstable")]
fn iters(cx: &mut Cx) {
    // iterators themselves cross threads: front part there, back part here
    let n = cx.rng.us(60) as u32;
    let t: BTreeMap<u32, u32> = cx.plainly("build map", n as u64, 0, || (0..n).map(|i| (i, i ^ 9)).collect());
    let cut = cx.rng.us(n as usize + 1);
    let mut i = t.into_iter();
    let front: Vec<u32> = i.by_ref().take(cut).map(|x| x.0).collect();
    let i = Over(i);
    let back = std::thread::spawn(move || i.take().rev().map(|x| x.0).collect::<Vec<u32>>()).join();
    let back = match back {
        Ok(b) => b,
        Err(_) => cx.fail(K::Panic, "an iterator moved to another thread panicked"),
    };
    let all: Vec<u32> = front.into_iter().chain(back.into_iter().rev()).collect();
    ensure!(cx, K::Model, all.iter().copied().eq(0..n), "an iterator split over two threads yields {all:?} of 0..{n}");
    cx.cnt("iterators handed over", 0, 1);
    cx.nops += 1;
}
pub fn run(cx: &mut Cx) {
    if cfg!(miri) {
        match cx.rng.us(2) {
            0 => go::<SKey>(cx),
            _ => go::<u64>(cx),
        }
    } else {
        match cx.rng.us(4) {
            0 => go::<Tok>(cx),
            1 => go::<HTok>(cx),
            2 => go::<SKey>(cx),
            _ => go::<u64>(cx),
        }
    }
    #[cfg(feature = "unstable")]
    iters(cx);
}
