//! Histories over TryHashMap against std's BTreeMap as model.
use crate::cx::*;
use crate::mon::Fault;
use crate::rng::mix;
use crate::tok::*;
use crate::vecw::{norm, Fixed};
use fallible_collections::{TryClone, TryHashMap, TryReserveError};
use std::fmt::Write;

type E = TryReserveError;
/// key -> (key number, value, value number)
type MM = std::collections::BTreeMap<u32, (u32, u32, u32)>;
type Ent = (u32, u32, u32, u32);

fn ent<A: Elem, V: Elem>(k: &A, v: &V) -> Ent {
    k.check();
    v.check();
    (k.val(), k.uid(), v.val(), v.uid())
}
fn sum(e: Ent) -> u64 {
    mix(e.0 as u64 ^ (e.1 as u64) << 32) ^ mix(0x55 ^ e.2 as u64 ^ (e.3 as u64) << 32).rotate_left(9)
}
fn flat(e: (&u32, &(u32, u32, u32))) -> Ent {
    (*e.0, (e.1).0, (e.1).1, (e.1).2)
}
struct H<A: KeyE, V: Elem> {
    t: TryHashMap<A, V>,
    m: MM,
    dom: u32,
    /// entries that fit without allocation
    room: usize,
    removed: bool,
    fills: u32,
}

/// The hasher state and the allocator's first use must not be counted to an operation.
pub fn warm() {
    let mut t: TryHashMap<u32, u32> = TryHashMap::default();
    let _ = t.insert(1, 1);
    std::hint::black_box(t.get(&1));
}

fn full<A: KeyE, V: Elem>(cx: &Cx, t: &TryHashMap<A, V>, m: &MM, k: K, what: &str) {
    ensure!(cx, k, t.len() == m.len(), "{what}: len() is {} expected {}", t.len(), m.len());
    let mut got: Vec<Ent> = Vec::with_capacity(m.len());
    for (a, b) in t.iter() {
        let e = ent(a, b);
        cx.poll(what);
        ensure!(cx, k, got.len() < m.len(), "{what}: iteration yields more than {} entries", m.len());
        got.push(e);
    }
    got.sort_unstable();
    let mut i = 0;
    for w in m.iter() {
        let w = flat(w);
        ensure!(cx, k, i < got.len(), "{what}: iteration yields {i} of {} entries", m.len());
        ensure!(cx, k, got[i] == w, "{what}: iteration yields {:?} (key, its number, value, its number), expected {w:?}", got[i]);
        i += 1;
    }
    cx.poll(what);
}
fn tracked<A: Elem, V: Elem>() -> bool {
    let t = |ids: bool, n: &str| ids || n == "zst";
    t(A::IDS, A::NAME) || t(V::IDS, V::NAME)
}
fn per<A: Elem, V: Elem>() -> i64 {
    (A::IDS || A::NAME == "zst") as i64 + (V::IDS || V::NAME == "zst") as i64
}
fn rel<A: Elem, V: Elem>(cx: &Cx, d: i64, base: i64, what: &str) {
    if tracked::<A, V>() && !cx.leak_ok {
        let a = alive();
        ensure!(cx, K::Leak, a == base + d, "{what}: {a} live elements, expected {}", base + d);
    }
}

impl<A: KeyE, V: Elem> H<A, V> {
    fn key(&self, cx: &mut Cx) -> u32 {
        norm::<A>(cx.rng.us(self.dom as usize) as u32)
    }
    fn probe(&self, cx: &mut Cx) -> u32 {
        if cx.rng.chance(1, 2) && !self.m.is_empty() {
            let x = self.key(cx);
            return *self.m.range(x..).next().or(self.m.iter().next()).unwrap().0;
        }
        self.key(cx)
    }
    /// After a panic of user code: what is there must be consistent.
    fn resync(&mut self, cx: &mut Cx, extra: Option<(u32, u32, u32, u32)>, what: &str) {
        cx.leak_ok = true;
        self.removed = true;
        self.room = 0;
        let mut now = MM::new();
        let mut n = 0;
        for (k, v) in self.t.iter() {
            let e = ent(k, v);
            cx.poll(what);
            n += 1;
            ensure!(cx, K::Cb, n <= self.m.len() + 1, "{what}: after a panic the map yields {n} entries, it had {}", self.m.len());
            let old = now.insert(e.0, (e.1, e.2, e.3));
            ensure!(cx, K::Cb, old.is_none(), "{what}: after a panic key {} is there twice", e.0);
            let known = self.m.get(&e.0).map(flat2);
            let ok = known.map_or(false, |w| w.0 == e.1 && (w.1 == e.2 && w.2 == e.3)) || extra == Some(e) || (known.is_some() && extra.map_or(false, |x| x.0 == e.0 && known.unwrap().0 == e.1 && x.2 == e.2 && x.3 == e.3));
            ensure!(cx, K::Cb, ok, "{what}: after a panic the map holds {e:?}, which it never held");
        }
        ensure!(cx, K::Cb, n == self.t.len(), "{what}: after a panic len() is {} but {n} entries are there", self.t.len());
        self.m = now;
        cx.cnt("consistent after injected panic", 0, 1);
    }
    fn insert(&mut self, cx: &mut Cx, x: u32, verify: bool) {
        let y = norm::<V>(cx.rng.u32() % 100_000);
        let name = "TryHashMap.insert";
        let exists = self.m.contains_key(&x);
        let mut sch = cx.sched(false);
        loop {
            let mut plan = sch.next();
            let free = !self.removed && self.m.len() < self.room;
            if free && cx.is(6) {
                plan = CLEAN;
            }
            let base = alive();
            let (k, v) = (A::mk(x), V::mk(y));
            let (kid, vid) = (k.uid(), v.uid());
            let t = &mut self.t;
            let o = cx.run(name, self.m.len() as u64, x as u64, plan, || t.insert(k, v));
            match o.r {
                Res::Val(Ok(old)) => {
                    let got = old.as_ref().map(|v| {
                        v.check();
                        (v.val(), v.uid())
                    });
                    cx.poll(name);
                    let want = self.m.get(&x).map(|e| (e.1, e.2));
                    ensure!(cx, K::Model, got == want, "insert({x}) returned {got:?}, expected {want:?}");
                    drop(old);
                    if free {
                        soft!(cx, K::Cap, o.m.att == 0, "insertion number {} after reserving {} made {} allocation request(s)", self.m.len() + 1, self.room, o.m.att);
                        cx.cnt("capacity checks", 0, 1);
                    }
                    let e = self.m.entry(x).or_insert((kid, y, vid));
                    e.1 = y;
                    e.2 = vid;
                    if !self.removed {
                        let n = self.m.len() as u64;
                        let es = (std::mem::size_of::<(A, V)>() + 1) as u64;
                        soft!(cx, K::Cap, o.m.att <= 1, "one insertion made {} allocation requests", o.m.att);
                        soft!(cx, K::Cap, o.m.biggest <= 4 * (n.max(self.room as u64) + 8) * es + 64 + 2 * std::mem::align_of::<(A, V)>() as u64, "insertion {n} asked for {} bytes (entries of {es})", o.m.biggest);
                        self.fills += o.m.att;
                        let lg = 64 - (n + 1).leading_zeros();
                        soft!(cx, K::Cap, self.fills <= lg + 3, "{} allocation requests while filling to {n} entries", self.fills);
                    }
                    if self.m.len() > self.room {
                        self.room = 0;
                    }
                    if verify {
                        full(cx, &self.t, &self.m, K::Model, name);
                    }
                    rel::<A, V>(cx, if exists { 0 } else { per::<A, V>() }, base, name);
                    cx.top("largest hash map", self.m.len() as u64);
                    return;
                }
                Res::Val(Err(_)) => {
                    ensure!(cx, K::ErrSpur, o.faulted(), "{name} returned Err although nothing failed");
                    full(cx, &self.t, &self.m, K::Atom, name);
                    rel::<A, V>(cx, 0, base, name);
                    let n = self.m.get(&x).map(|e| (e.1, e.2));
                    let g = A::q(x, |_| 0);
                    let _ = (n, g);
                    cx.cnt("unchanged after Err", 0, 1);
                }
                Res::Injected => {
                    self.resync(cx, Some((x, kid, y, vid)), name);
                    return;
                }
                Res::Panic(s) => cx.fail(K::Panic, &format!("{name} panicked: {s}")),
            }
        }
    }
    fn calm<R>(&mut self, cx: &mut Cx, name: &'static str, b: u64, op: impl FnOnce(&mut TryHashMap<A, V>) -> R) -> Option<R> {
        let n = self.m.len() as u64;
        let t = &mut self.t;
        if cx.cbs {
            let plan = cx.sched(false).next();
            let o = cx.run(name, n, b, plan, || op(t));
            return match o.r {
                Res::Val(r) => Some(r),
                Res::Injected => {
                    self.resync(cx, None, name);
                    None
                }
                Res::Panic(s) => cx.fail(K::Panic, &format!("{name} panicked: {s}")),
            };
        }
        Some(cx.free(name, n, b, || op(t)))
    }
    fn get(&mut self, cx: &mut Cx, x: u32) {
        let by_key = cx.rng.chance(1, 2);
        let want = self.m.get(&x).map(|e| (e.1, e.2));
        let name = if by_key { "TryHashMap.get(key)" } else { "TryHashMap.get(borrowed)" };
        let r = if by_key {
            let k = A::mk(x);
            self.calm(cx, name, x as u64, |t| {
                t.get::<A>(&k).map(|v| {
                    v.check();
                    (v.val(), v.uid())
                })
            })
        } else {
            self.calm(cx, name, x as u64, |t| {
                A::q(x, |q| {
                    t.get::<A::Q>(q).map(|v| {
                        v.check();
                        (v.val(), v.uid())
                    })
                })
            })
        };
        if let Some(got) = r {
            ensure!(cx, K::Model, got == want, "{name}({x}) returned {got:?}, expected {want:?}");
        }
    }
    fn remove(&mut self, cx: &mut Cx, x: u32) {
        let by_key = cx.rng.chance(1, 2);
        let name = if by_key { "TryHashMap.remove(key)" } else { "TryHashMap.remove(borrowed)" };
        let want = self.m.get(&x).map(|e| (e.1, e.2));
        let base = alive();
        let r = if by_key {
            let k = A::mk(x);
            self.calm(cx, name, x as u64, |t| t.remove::<A>(&k))
        } else {
            self.calm(cx, name, x as u64, |t| A::q(x, |q| t.remove::<A::Q>(q)))
        };
        if let Some(old) = r {
            let got = old.as_ref().map(|v| {
                v.check();
                (v.val(), v.uid())
            });
            ensure!(cx, K::Model, got == want, "{name}({x}) returned {got:?}, expected {want:?}");
            drop(old);
            if self.m.remove(&x).is_some() {
                self.removed = true;
                rel::<A, V>(cx, -per::<A, V>(), base, name);
            } else {
                rel::<A, V>(cx, 0, base, name);
            }
            full(cx, &self.t, &self.m, K::Model, name);
        } else {
            self.removed = true;
        }
    }
    fn iterate(&mut self, cx: &mut Cx) {
        let n = self.m.len();
        let want = self.m.iter().map(flat).fold(0u64, |a, e| a.wrapping_add(sum(e)));
        let skip = if cx.rng.chance(1, 3) { cx.rng.us(n + 1) } else { 0 };
        let r = self.calm(cx, "TryHashMap.iter", n as u64, |t| {
            let mut it = t.iter();
            let (mut s, mut c, mut ok) = (0u64, 0usize, true);
            let mut cl = None;
            loop {
                let h = it.size_hint();
                ok &= h.0 + c == n && h.1 == Some(h.0) && it.len() + c == n;
                if c == skip {
                    cl = Some(it.clone());
                }
                match it.next() {
                    Some((k, v)) => {
                        s = s.wrapping_add(sum(ent(k, v)));
                        c += 1
                    }
                    None => break,
                }
            }
            ok &= it.next().is_none();
            let k = cl.map_or(n - skip.min(n), |c| c.count());
            (s, c, ok, k)
        });
        if let Some((s, c, ok, k)) = r {
            ensure!(cx, K::Model, c == n, "iter yields {c} of {n} entries");
            ensure!(cx, K::Model, s == want, "iter yields other entries than those inserted");
            ensure!(cx, K::Model, ok, "iter: length hint wrong or not ended");
            if cx.rng.chance(1, 3) {
                let mut it = self.t.iter();
                let at = it.by_ref().take(skip).count();
                let rest: Vec<Ent> = it.clone().map(|(k, v)| ent(k, v)).collect();
                ensure!(cx, K::Model, rest.len() + at == n, "iter yields {at} and then {} of {n} entries", rest.len());
                crate::fin::forward(cx, it, &rest, "TryHashMap.iter", &mut |(k, v): (&A, &V)| ent(k, v), crate::fin::key4);
            }
            ensure!(cx, K::Model, k == n - skip, "a clone of iter after {skip} entries yields {k} of {}", n - skip);
        }
    }
    fn clone_op(&mut self, cx: &mut Cx) {
        let name = "TryHashMap.try_clone";
        let mut sch = cx.sched(true);
        loop {
            let plan = sch.next();
            let base = alive();
            let t = &self.t;
            let o = cx.run(name, self.m.len() as u64, 0, plan, || t.try_clone());
            match o.r {
                Res::Val(Ok(c)) => {
                    full(cx, &self.t, &self.m, K::Clone, "original after try_clone");
                    rel::<A, V>(cx, per::<A, V>() * self.m.len() as i64, base, name);
                    // equal contents, other elements
                    ensure!(cx, K::Clone, c.len() == self.m.len(), "copy has {} of {} entries", c.len(), self.m.len());
                    let mut got = MM::new();
                    for (k, v) in c.iter() {
                        let e = ent(k, v);
                        cx.poll(name);
                        if let Some(w) = self.m.get(&e.0) {
                            ensure!(cx, K::Clone, w.1 == e.2, "copy has value {} for key {}, the original {}", e.2, e.0, w.1);
                            ensure!(cx, K::Clone, (!A::IDS || w.0 != e.1) && (!V::IDS || w.2 != e.3), "the copy holds an element of the original");
                        } else {
                            cx.fail(K::Clone, &format!("copy has key {} that the original lacks", e.0));
                        }
                        got.insert(e.0, (e.1, e.2, e.3));
                    }
                    ensure!(cx, K::Clone, got.len() == self.m.len(), "copy yields {} of {} different keys", got.len(), self.m.len());
                    for x in got.keys() {
                        let g = A::q(*x, |q| c.get::<A::Q>(q).map(|v| v.val()));
                        ensure!(cx, K::Clone, g == got.get(x).map(|e| e.1), "lookup of {x} in the copy gives {g:?}");
                    }
                    cx.cnt("copies compared", 0, 1);
                    // one of the two lives on
                    let mut other = H { t: c, m: got, dom: self.dom, room: 0, removed: true, fills: 0 };
                    if cx.rng.chance(1, 2) {
                        std::mem::swap(self, &mut other);
                    }
                    if cx.rng.chance(1, 2) {
                        let x = other.probe(cx);
                        other.remove(cx, x);
                        let x = other.key(cx);
                        other.insert(cx, x, true);
                        full(cx, &self.t, &self.m, K::Clone, "the other one after changing a copy");
                    }
                    let (t, lost) = (other.t, other.m.len());
                    let b = alive();
                    if cx.cbs {
                        drop(t);
                    } else {
                        cx.free("TryHashMap.drop", lost as u64, 0, || drop(t));
                    }
                    rel::<A, V>(cx, -per::<A, V>() * lost as i64, b, "dropping a copy");
                    full(cx, &self.t, &self.m, K::Clone, "after dropping the other one");
                    return;
                }
                Res::Val(Err(_)) => {
                    ensure!(cx, K::ErrSpur, o.faulted(), "{name} returned Err although nothing failed");
                    full(cx, &self.t, &self.m, K::Atom, "original after failed try_clone");
                    rel::<A, V>(cx, 0, base, "failed try_clone");
                    cx.cnt("unchanged after Err", 0, 1);
                    if crate::cx::clean(&plan) {
                        return;
                    }
                }
                Res::Injected => {
                    self.resync(cx, None, name);
                    return;
                }
                Res::Panic(s) => cx.fail(K::Panic, &format!("{name} panicked: {s}")),
            }
        }
    }
    fn with_capacity(&mut self, cx: &mut Cx) {
        let n = match cx.rng.us(6) {
            0 => 0,
            1 => 1 + cx.rng.us(4),
            2 => *cx.rng.pick(&[3usize, 4, 7, 8, 14, 15, 28, 29, 56, 57, 112, 113, 224, 448]),
            _ => cx.rng.us(if cx.miri { 20 } else { 300 }),
        };
        let name = "TryHashMap.with_capacity";
        let mut sch = cx.sched(false);
        loop {
            let plan = if n == 0 && cx.fz { Plan { fault: Fault::From(0), cb: None } } else { sch.next() };
            let o = cx.run(name, n as u64, 0, plan, || TryHashMap::<A, V>::with_capacity(n));
            match o.r {
                Res::Val(Ok(t)) => {
                    if n == 0 {
                        soft!(cx, K::Zero, o.m.att == 0, "with_capacity(0) allocated");
                    }
                    soft!(cx, K::Cap, o.m.att <= 1, "with_capacity({n}) made {} allocation requests", o.m.att);
                    let es = (std::mem::size_of::<(A, V)>() + 1) as u64;
                    soft!(cx, K::Cap, o.m.biggest <= 4 * (n as u64 + 8) * es + 64 + 2 * std::mem::align_of::<(A, V)>() as u64, "with_capacity({n}) asked for {} bytes (entries of {es})", o.m.biggest);
                    let old = std::mem::replace(self, H { t, m: MM::new(), dom: self.dom, room: n, removed: false, fills: 0 });
                    ensure!(cx, K::Model, self.t.len() == 0, "a new map has length {}", self.t.len());
                    drop(old);
                    break;
                }
                Res::Val(Err(_)) => {
                    ensure!(cx, K::ErrSpur, o.faulted(), "{name}({n}) returned Err although nothing failed");
                    if crate::cx::clean(&plan) {
                        break;
                    }
                }
                Res::Injected => {
                    self.resync(cx, None, name);
                    return;
                }
                Res::Panic(s) => cx.fail(K::Panic, &format!("{name}({n}) panicked: {s}")),
            }
        }
        // fill it
        if self.room > 0 && cx.rng.chance(3, 4) {
            let m = self.room + cx.rng.us(3);
            if A::DOM == u32::MAX {
                for i in 0..m as u32 {
                    let d = self.dom;
                    self.insert(cx, d.wrapping_add(i * 7), i as usize + 1 == m || i % 64 == 0);
                    if self.removed {
                        break;
                    }
                }
            }
        }
    }
    fn unrepresentable(&mut self, cx: &mut Cx) {
        let n = match cx.rng.us(5) {
            0 => usize::MAX,
            1 => usize::MAX / 2 + 1,
            2 => isize::MAX as usize,
            3 => usize::MAX - cx.rng.us(64),
            _ => usize::MAX / std::mem::size_of::<(A, V)>().max(1) - cx.rng.us(8),
        };
        let o = cx.run("TryHashMap.with_capacity(unrepresentable)", n as u64, 0, CLEAN, || TryHashMap::<A, V>::with_capacity(n).map(|t| t.len()));
        match o.r {
            Res::Val(Err(_)) => cx.cnt("unrepresentable refused", 0, 1),
            Res::Val(Ok(_)) => cx.fail(K::Over, &format!("with_capacity({n}) claims success")),
            Res::Injected => cx.fail(K::Panic, "unexpected injected panic"),
            Res::Panic(s) => cx.fail(K::Over, &format!("with_capacity({n}) panicked: {s}")),
        }
    }
    fn consume(&mut self, cx: &mut Cx) {
        let n = self.m.len();
        let t = std::mem::take(&mut self.t);
        let m = std::mem::take(&mut self.m);
        self.room = 0;
        self.removed = false;
        self.fills = 0;
        let stop = match cx.rng.us(3) {
            0 => 0,
            1 => cx.rng.us(n + 1),
            _ => n,
        };
        let want = m.iter().map(flat).fold(0u64, |a, e| a.wrapping_add(sum(e)));
        let base = alive();
        let plan = if cx.cbs {
            cx.sched(false).next()
        } else if cx.fz {
            Plan { fault: Fault::From(0), cb: None }
        } else {
            CLEAN
        };
        let o = cx.run("TryHashMap.into_iter", n as u64, stop as u64, plan, || {
            let mut it = t.into_iter();
            let (mut s, mut c, mut ok) = (0u64, 0usize, true);
            while c < stop {
                ok &= it.size_hint() == (n - c, Some(n - c)) && it.len() == n - c;
                match it.next() {
                    Some((k, v)) => s = s.wrapping_add(sum(ent(&k, &v))),
                    None => break,
                }
                c += 1;
            }
            if stop == n {
                ok &= it.next().is_none();
            }
            (s, c, ok)
        });
        match o.r {
            Res::Val((s, c, ok)) => {
                if cx.fz {
                    soft!(cx, K::Zero, o.m.att == 0, "into_iter allocated");
                }
                ensure!(cx, K::Model, c == stop, "into_iter yields {c} of {stop} entries");
                ensure!(cx, K::Model, ok, "into_iter: wrong length hint or not ended");
                ensure!(cx, K::Model, stop < n || s == want, "into_iter yields other entries than those inserted");
                rel::<A, V>(cx, -per::<A, V>() * n as i64, base, "into_iter");
            }
            Res::Injected => cx.leak_ok = true,
            Res::Panic(s) => cx.fail(K::Panic, &format!("into_iter panicked: {s}")),
        }
    }
    fn debug(&mut self, cx: &mut Cx) {
        if self.m.len() > 60 || cx.cbs {
            return;
        }
        let t = &self.t;
        let alt = cx.rng.chance(1, 4);
        let o = cx.run("TryHashMap.debug", self.m.len() as u64, alt as u64, CLEAN, || {
            let mut f = Fixed::new();
            let _ = if alt { write!(f, "{:#?}", t) } else { write!(f, "{:?}", t) };
            f
        });
        let f = match o.r {
            Res::Val(f) => f,
            _ => cx.fail(K::Panic, "Debug panicked"),
        };
        if cx.fz && !f.over {
            soft!(cx, K::Zero, o.m.att == 0, "Debug of a TryHashMap made {} allocation request(s)", o.m.att);
        }
        // in the order the map iterates
        let mut g = Fixed::new();
        struct D<'a, A, V>(&'a TryHashMap<A, V>);
        impl<'a, A: KeyE, V: Elem> std::fmt::Debug for D<'a, A, V> {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                f.debug_map().entries(self.0.iter()).finish()
            }
        }
        let _ = if alt { write!(g, "{:#?}", D(t)) } else { write!(g, "{:?}", D(t)) };
        if !f.over && !g.over {
            ensure!(cx, K::Model, f.b[..f.n] == g.b[..g.n], "Debug prints {:?} instead of {:?}", String::from_utf8_lossy(&f.b[..f.n]), String::from_utf8_lossy(&g.b[..g.n]));
        }
    }
    fn grow(&mut self, cx: &mut Cx) {
        if A::DOM != u32::MAX || cx.cbs {
            return;
        }
        let n = if cx.miri { 12 } else { *cx.rng.pick(&[40usize, 200, 200, 1000, 3000]) };
        let n = if cx.faults > 20 || cx.zero { n.min(60) } else { n };
        let base = cx.rng.u32() % 1_000_000;
        for i in 0..n as u32 {
            self.insert(cx, base.wrapping_add(i.wrapping_mul(if n % 3 == 0 { 1 } else { 4096 })), false);
        }
        full(cx, &self.t, &self.m, K::Model, "after growing");
        if cx.rng.chance(1, 2) {
            let ks: Vec<u32> = self.m.keys().copied().filter(|x| x % 5 != 0).collect();
            for x in ks {
                let t = &mut self.t;
                let o = cx.free("TryHashMap.remove(shrink)", self.m.len() as u64, x as u64, || A::q(x, |q| t.remove::<A::Q>(q)));
                let w = self.m.remove(&x).unwrap();
                ensure!(cx, K::Model, o.as_ref().map(|v| (v.val(), v.uid())) == Some((w.1, w.2)), "remove({x}) returned the wrong value");
            }
            self.removed = true;
            full(cx, &self.t, &self.m, K::Model, "after shrinking");
        }
    }
}

pub fn history<A: KeyE, V: Elem>(cx: &mut Cx) {
    warm();
    let dom = *cx.rng.pick(&[5u32, 20, 60, 300, 100_000]);
    let t = cx.free("TryHashMap.default", 0, 0, || TryHashMap::<A, V>::default());
    let mut h = H { t, m: MM::new(), dom, room: 0, removed: false, fills: 0 };
    let steps = if cx.miri { 14 } else { 20 + cx.rng.us(60) };
    let capw = if cx.is(6) { 10 } else { 2 };
    for _ in 0..steps {
        match cx.rng.weighted(&[26, 14, 14, 5, 4, capw, 1, 2, 2, 1]) {
            0 => {
                let x = h.probe(cx);
                let x = if cx.rng.chance(1, 3) { x } else { h.key(cx) };
                h.insert(cx, x, true)
            }
            1 => {
                let x = h.probe(cx);
                h.get(cx, x)
            }
            2 => {
                let x = h.probe(cx);
                h.remove(cx, x)
            }
            3 => h.iterate(cx),
            4 => h.clone_op(cx),
            5 => h.with_capacity(cx),
            6 => h.unrepresentable(cx),
            7 => h.consume(cx),
            8 => h.debug(cx),
            _ => {
                if cx.rng.chance(1, 4) {
                    h.grow(cx)
                }
            }
        }
    }
    if cx.cbs {
        let plan = cx.sched(false).next();
        let t = h.t;
        let o = cx.run("TryHashMap.drop", h.m.len() as u64, 0, plan, || drop(t));
        if let Res::Injected = o.r {
            cx.leak_ok = true
        }
    } else {
        let t = h.t;
        cx.free("TryHashMap.drop", h.m.len() as u64, 0, || drop(t));
    }
}
fn flat2(e: &(u32, u32, u32)) -> (u32, u32, u32) {
    *e
}
