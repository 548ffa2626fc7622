//! Histories over BTreeMap against std's BTreeMap as model.
use crate::cx::*;
use crate::mon::{Fault, Meas};
use crate::rng::Rng;
use crate::tok::*;
use crate::vecw::{norm, Fixed};
use fallible_collections::btree::map::Entry;
use fallible_collections::btree::BTreeMap as B;
use fallible_collections::{TryClone, TryReserveError};
use std::fmt::Write;
use std::ops::Bound::{self, *};

type E = TryReserveError;
/// key -> (key number, value, value number)
pub type MM = std::collections::BTreeMap<u32, (u32, u32, u32)>;
pub type Ent = (u32, u32, u32, u32);

pub fn ent<A: Elem, V: Elem>(k: &A, v: &V) -> Ent {
    k.check();
    v.check();
    (k.val(), k.uid(), v.val(), v.uid())
}
fn flat(e: (&u32, &(u32, u32, u32))) -> Ent {
    (*e.0, (e.1).0, (e.1).1, (e.1).2)
}

fn idx<'a, A: Ord + std::borrow::Borrow<Q>, V, Q: Ord + ?Sized>(t: &'a B<A, V>, q: &Q) -> &'a V {
    &t[q]
}
pub fn full<A: KeyE, V: Elem>(cx: &mut Cx, t: &B<A, V>, m: &MM, k: K, what: &str) {
    if t.len() != m.len() {
        for (a, b) in t.iter().take(1 << 14) {
            ent(a, b);
            cx.poll(what);
            ensure!(cx, K::Mem, !a.raw() && !b.raw(), "{what}: an entry was never written");
        }
    }
    ensure!(cx, k, t.len() == m.len(), "{what}: len() is {} expected {}", t.len(), m.len());
    ensure!(cx, k, t.is_empty() == m.is_empty(), "{what}: is_empty() wrong");
    let mut want = m.iter();
    let mut n = 0;
    for (a, b) in t.iter() {
        let g = ent(a, b);
        cx.poll(what);
        n += 1;
        match want.next() {
            Some(w) => {
                let w = flat(w);
                ensure!(cx, K::Mem, g == w || !(a.raw() || b.raw()), "{what}: entry {n} was never written");
                ensure!(cx, k, g == w, "{what}: entry {n} is {g:?} (key, its number, value, its number), expected {w:?}")
            }
            None => cx.fail(k, &format!("{what}: iteration yields more than {} entries", m.len())),
        }
    }
    ensure!(cx, k, n == m.len(), "{what}: iteration yields {n} of {} entries", m.len());
    if cx.rng.chance(1, 3) {
        let mut want = m.iter().rev();
        let mut n = 0;
        for (a, b) in t.iter().rev() {
            let g = ent(a, b);
            n += 1;
            match want.next() {
                Some(w) => ensure!(cx, k, g == flat(w), "{what}: entry {n} from the back is {g:?}, expected {:?}", flat(w)),
                None => cx.fail(k, &format!("{what}: backward iteration yields more than {} entries", m.len())),
            }
        }
        ensure!(cx, k, n == m.len(), "{what}: backward iteration yields {n} of {} entries", m.len());
    }
    cx.poll(what);
}

/// What must hold after user code panicked.
#[derive(Clone, Copy, PartialEq)]
pub enum After {
    Exact,
    /// every entry is there as before, except that of this key: its part may have been done or not
    But(u32),
    /// the same if comparing panicked, else as `Any`
    Gone(u32),
    /// internally consistent only
    Any,
}

pub struct H<A: KeyE, V: Elem> {
    pub t: B<A, V>,
    pub m: MM,
    pub t2: B<A, V>,
    pub m2: MM,
    pub dom: u32,
    pub mode: usize,
    pub cur: u32,
}

pub fn rel(cx: &mut Cx, d: i64, base: i64, tracked: bool, what: &str) {
    if tracked && !cx.leak_ok {
        let a = alive();
        ensure!(cx, K::Leak, a == base + d, "{what}: {a} live elements, expected {}", base + d);
    }
}

impl<A: KeyE, V: Elem> H<A, V> {
    pub fn new(cx: &mut Cx) -> Self {
        let dom = if A::DOM != u32::MAX {
            A::DOM
        } else {
            match cx.rng.us(6) {
                0 => 12,
                1 => 40,
                2 => 300,
                3 => 3000,
                _ => 60_000,
            }
        };
        let mode = cx.rng.us(5);
        let cur = if mode == 2 { dom } else { 0 };
        H { t: B::new(), m: MM::new(), t2: B::new(), m2: MM::new(), dom, mode, cur }
    }
    fn tracked() -> bool {
        (A::IDS || A::NAME == "zst") || (V::IDS || V::NAME == "zst")
    }
    fn per() -> i64 {
        (A::IDS || A::NAME == "zst") as i64 + (V::IDS || V::NAME == "zst") as i64
    }
    pub fn key(&mut self, cx: &mut Cx) -> u32 {
        let r = &mut cx.rng;
        let x = match if r.chance(1, 5) { 0 } else { self.mode } {
            0 => r.us(self.dom as usize) as u32,
            1 => {
                self.cur = (self.cur + 1 + r.us(2) as u32) % self.dom.max(1);
                self.cur
            }
            2 => {
                self.cur = if self.cur < 3 { self.dom.saturating_sub(1) } else { self.cur - 1 - r.us(2) as u32 };
                self.cur
            }
            3 => {
                if r.chance(1, 30) {
                    self.cur = r.us(self.dom as usize) as u32
                }
                (self.cur + r.us(30) as u32) % self.dom.max(1)
            }
            _ => (r.us(self.dom as usize).min(r.us(self.dom as usize))) as u32,
        };
        norm::<A>(x)
    }
    pub fn existing(&mut self, cx: &mut Cx) -> Option<u32> {
        if self.m.is_empty() {
            return None;
        }
        let x = match cx.rng.us(8) {
            0 => *self.m.keys().next().unwrap(),
            1 => *self.m.keys().next_back().unwrap(),
            _ => {
                let r = self.key(cx);
                match self.m.range(r..).next() {
                    Some(e) => *e.0,
                    None => *self.m.keys().next().unwrap(),
                }
            }
        };
        Some(x)
    }
    pub fn probe(&mut self, cx: &mut Cx, pct: u64) -> u32 {
        if cx.rng.chance(pct, 100) {
            if let Some(x) = self.existing(cx) {
                return x;
            }
        }
        self.key(cx)
    }
    fn v(cx: &mut Cx) -> u32 {
        norm::<V>(cx.rng.u32() % 100_000)
    }
    pub fn check(&mut self, cx: &mut Cx, x: u32, k: K, what: &str) {
        let n = self.m.len();
        ensure!(cx, k, self.t.len() == n, "{what}: len() is {} expected {n}", self.t.len());
        if n <= 40 || cx.rng.chance(40, n as u64) {
            full(cx, &self.t, &self.m, k, what);
        } else {
            self.local(cx, x, k, what)
        }
    }
    fn local(&mut self, cx: &mut Cx, x: u32, k: K, what: &str) {
        let t = &self.t;
        let mut got: [Ent; 8] = [(0, 0, 0, 0); 8];
        let mut n = 0;
        A::q(x, |q| {
            for (a, b) in t.range::<A::Q, _>((Included(q), Unbounded)).take(4) {
                got[n] = ent(a, b);
                n += 1;
            }
        });
        let f = n;
        A::q(x, |q| {
            for (a, b) in t.range::<A::Q, _>((Unbounded, Excluded(q))).rev().take(4) {
                got[n] = ent(a, b);
                n += 1;
            }
        });
        cx.poll(what);
        let w: Vec<Ent> = self.m.range(x..).take(4).map(flat).chain(self.m.range(..x).rev().take(4).map(flat)).collect();
        ensure!(cx, k, f == self.m.range(x..).take(4).count() && got[..n] == w[..], "{what}: entries around key {x} are {:?}, expected {w:?}", &got[..n]);
    }
    /// After an injected panic.
    pub fn resync(&mut self, cx: &mut Cx, how: After, what: &'static str) {
        cx.leak_ok = true;
        let (mut m, mut m2) = (std::mem::take(&mut self.m), std::mem::take(&mut self.m2));
        consistent(cx, &self.t, &mut m, &mut m2, how, what);
        if how == After::Any {
            // entries may have moved between the two
            let mut m3 = m2.clone();
            let mut none = m.clone();
            consistent(cx, &self.t2, &mut m3, &mut none, how, what);
            m2 = m3;
        } else {
            consistent(cx, &self.t2, &mut m2, &mut MM::new(), how, what);
        }
        self.m = m;
        self.m2 = m2;
        cx.cnt("consistent after injected panic", 0, 1);
    }
    /// A fallible operation under every planned failure, then cleanly.
    pub fn fall<X, R>(&mut self, cx: &mut Cx, name: &'static str, b: u64, free: bool, mut mk: impl FnMut() -> X, mut op: impl FnMut(&mut B<A, V>, X) -> Result<R, E>) -> Option<(R, Meas)> {
        let mut sch = cx.sched(true);
        loop {
            let mut plan = sch.next();
            if cx.zero && free {
                plan = Plan { fault: Fault::From(0), cb: None };
            }
            let base = alive();
            let x = mk();
            let t = &mut self.t;
            let o = cx.run(name, self.m.len() as u64, b, plan, || op(t, x));
            match o.r {
                Res::Val(Ok(r)) => return Some((r, o.m)),
                Res::Val(Err(_)) => {
                    if cx.zero && free {
                        soft!(cx, K::Zero, false, "{name} needs no memory here but failed under exhaustion");
                        return None;
                    }
                    ensure!(cx, K::ErrSpur, o.faulted(), "{name} returned Err although nothing failed");
                    let n = self.m.len();
                    ensure!(cx, K::Atom, self.t.len() == n, "{name}: after Err len() is {} instead of {n}", self.t.len());
                    if n < 3000 || cx.rng.chance(1, 3) {
                        full(cx, &self.t, &self.m, K::Atom, name);
                    }
                    rel(cx, 0, base, Self::tracked(), name);
                    cx.cnt("unchanged after Err", 0, 1);
                }
                Res::Injected => {
                    // a panic while dropping may come after the operation did its part, or while it removes
                    let drops = plan.cb.map_or(true, |c| c.0 == Cb::Drop);
                    let how = if name.starts_with("entry.remove") && drops { After::Any } else { After::But(b as u32) };
                    self.resync(cx, how, name);
                    return None;
                }
                Res::Panic(s) => cx.fail(K::Panic, &format!("{name} panicked: {s}")),
            }
        }
    }
    /// An operation that allocates nothing and cannot fail by itself.
    pub fn calm<R>(&mut self, cx: &mut Cx, name: &'static str, b: u64, after: After, op: impl FnOnce(&mut B<A, V>) -> R) -> Option<R> {
        let n = self.m.len() as u64;
        if cx.cbs {
            let plan = cx.sched(false).next();
            let t = &mut self.t;
            let o = cx.run(name, n, b, plan, || op(t));
            return match o.r {
                Res::Val(r) => Some(r),
                Res::Injected => {
                    let after = match (after, plan.cb) {
                        (After::Gone(x), Some(c)) if c.0 == Cb::Cmp => After::But(x),
                        (After::Gone(_), _) => After::Any,
                        (a, _) => a,
                    };
                    self.resync(cx, after, name);
                    None
                }
                Res::Panic(s) => cx.fail(K::Panic, &format!("{name} panicked: {s}")),
            };
        }
        let t = &mut self.t;
        Some(cx.free(name, n, b, || op(t)))
    }
    /// An infallible operation that allocates; memory failures make it panic.
    fn infallible<R>(&mut self, cx: &mut Cx, name: &'static str, b: u64, op: impl FnOnce(&mut B<A, V>, &mut B<A, V>) -> R) -> Option<R> {
        let mut plan = if cx.cbs { cx.sched(false).next() } else { CLEAN };
        if (cx.is(3) || cx.is(15)) && clean(&plan) && cx.rng.chance(1, 4) {
            plan.fault = if cx.rng.chance(1, 2) { Fault::Nth(cx.rng.us(8) as u32) } else { Fault::Nth(cx.rng.us(80) as u32) };
        }
        let n = self.m.len() as u64;
        let (t, t2) = (&mut self.t, &mut self.t2);
        let o = cx.run(name, n, b, plan, || op(t, t2));
        match o.r {
            Res::Val(r) => Some(r),
            Res::Injected => {
                self.resync(cx, After::Any, name);
                None
            }
            Res::Panic(_) if o.m.inj > 0 => {
                self.resync(cx, After::Any, name);
                None
            }
            Res::Panic(s) => cx.fail(K::Panic, &format!("{name} panicked: {s}")),
        }
    }

    pub fn insert(&mut self, cx: &mut Cx, x: u32) {
        let y = Self::v(cx);
        let exists = self.m.contains_key(&x);
        let (mut kid, mut vid) = (0, 0);
        let base = alive();
        let name = "BTreeMap.try_insert";
        let r = self.fall(
            cx,
            name,
            x as u64,
            exists,
            || {
                let (k, v) = (A::mk(x), V::mk(y));
                kid = k.uid();
                vid = v.uid();
                (k, v)
            },
            |t, (k, v)| t.try_insert(k, v),
        );
        if let Some((old, meas)) = r {
            let want = self.m.get(&x).map(|e| (e.1, e.2));
            let got = old.as_ref().map(|v| {
                v.check();
                (v.val(), v.uid())
            });
            ensure!(cx, K::Model, got == want, "try_insert({x}) returned {got:?}, expected {want:?}");
            drop(old);
            let n = self.m.len();
            let e = self.m.entry(x).or_insert((kid, y, vid));
            e.1 = y;
            e.2 = vid;
            soft!(cx, K::Bal, meas.att <= 24, "one insertion into {n} entries made {} allocations", meas.att);
            self.check(cx, x, K::Model, name);
            rel(cx, if exists { 0 } else { Self::per() }, base, Self::tracked(), name);
        }
    }
    fn entry(&mut self, cx: &mut Cx, x: u32) {
        let var = cx.rng.us(10);
        let y = Self::v(cx);
        let z = Self::v(cx);
        let have = self.m.get(&x).copied();
        let (mut kid, mut vid) = (0, 0);
        let base = alive();
        let name = ["entry.or_try_insert", "entry.or_try_insert_with", "entry.or_default", "entry.and_modify.or_try_insert", "entry.get_mut/into_mut|into_key", "entry.insert|try_insert", "entry.remove", "entry.remove_entry", "entry.key+debug", "entry dropped"][var];
        struct Got<K, V> {
            hit: bool,
            key: (u32, u32),
            seen: Option<(u32, u32)>,
            k: Option<K>,
            v: Option<V>,
            ok: bool,
            calls: u32,
        }
        let kv = |v: &V| {
            v.check();
            (v.val(), v.uid())
        };
        let kk = |k: &A| {
            k.check();
            (k.val(), k.uid())
        };
        let r = self.fall(
            cx,
            name,
            x as u64,
            have.is_some(),
            || {
                let (k, v) = (A::mk(x), V::mk(y));
                kid = k.uid();
                vid = v.uid();
                (k, v)
            },
            |t, (k, v)| {
                let mut g = Got { hit: false, key: (0, 0), seen: None, k: None, v: None, ok: true, calls: 0 };
                let e = t.try_entry(k)?;
                g.hit = matches!(e, Entry::Occupied(_));
                g.key = kk(e.key());
                match var {
                    0 => {
                        let r = e.or_try_insert(v)?;
                        g.seen = Some(kv(r));
                        r.set(z);
                    }
                    1 => {
                        let mut calls = 0;
                        let r = e.or_try_insert_with(|| {
                            cb(Cb::Closure);
                            calls += 1;
                            v
                        })?;
                        g.seen = Some(kv(r));
                        r.set(z);
                        g.calls = calls;
                    }
                    2 => {
                        let r = e.or_default()?;
                        g.seen = Some(kv(r));
                        r.set(z);
                    }
                    3 => {
                        let mut calls = 0;
                        let r = e
                            .and_modify(|v| {
                                cb(Cb::Closure);
                                calls += 1;
                                v.set(z)
                            })
                            .or_try_insert(v)?;
                        g.seen = Some(kv(r));
                        g.calls = calls;
                    }
                    4 => match e {
                        Entry::Occupied(mut o) => {
                            g.ok &= kk(o.key()) == g.key;
                            g.seen = Some(kv(o.get()));
                            o.get_mut().set(y);
                            g.ok &= o.get().val() == y;
                            let r = o.into_mut();
                            g.ok &= r.val() == y;
                            r.set(z);
                        }
                        Entry::Vacant(o) => {
                            g.ok &= kk(o.key()) == g.key;
                            g.k = Some(o.into_key());
                        }
                    },
                    5 => match e {
                        Entry::Occupied(mut o) => {
                            g.v = Some(o.insert(v));
                            g.seen = Some(kv(o.get()));
                            o.get_mut().set(z);
                        }
                        Entry::Vacant(o) => {
                            let r = o.try_insert(v)?;
                            g.seen = Some(kv(r));
                            r.set(z);
                        }
                    },
                    6 => {
                        if let Entry::Occupied(o) = e {
                            g.v = Some(o.remove())
                        }
                    }
                    7 => {
                        if let Entry::Occupied(o) = e {
                            let (k, v) = o.remove_entry();
                            g.k = Some(k);
                            g.v = Some(v);
                        }
                    }
                    8 => {
                        let mut w = Fixed::new();
                        g.ok &= write!(w, "{:?}", e).is_ok();
                        let s = &w.b[..w.n];
                        let want = if g.hit { &b"Entry(Occupied"[..] } else { &b"Entry(Vacant"[..] };
                        g.ok &= s.starts_with(want);
                    }
                    _ => {}
                }
                Ok(g)
            },
        );
        let (g, _) = match r {
            None => return,
            Some(x) => x,
        };
        let n = self.m.len();
        ensure!(cx, K::Model, g.hit == have.is_some(), "{name}: entry({x}) is {} but the key is {}", if g.hit { "occupied" } else { "vacant" }, if have.is_some() { "present" } else { "absent" });
        ensure!(cx, K::Model, g.ok, "{name}: inconsistent entry for key {x}");
        // Occupied::key is the key stored in the map; Vacant::key the one passed in.
        let wantkey = match have {
            Some(h) => (x, h.0),
            None => (x, kid),
        };
        ensure!(cx, K::Model, g.key == wantkey, "{name}: key() is {:?}, expected {wantkey:?}", g.key);
        let per = Self::per();
        let (vt, kt) = ((V::IDS || V::NAME == "zst") as i64, (A::IDS || A::NAME == "zst") as i64);
        let mut d = 0;
        match (var, have) {
            (0..=3, Some(h)) => {
                let e = self.m.get_mut(&x).unwrap();
                e.1 = z;
                let want = if var == 3 { (z, h.2) } else { (h.1, h.2) };
                ensure!(cx, K::Model, g.seen == Some(want), "{name}: value is {:?}, expected {want:?}", g.seen);
                ensure!(cx, K::Model, g.calls == (var == 3) as u32, "{name}: closure called {} times", g.calls);
            }
            (2, None) => {
                let id = g.seen.unwrap().1;
                self.m.insert(x, (kid, z, id));
                let want = V::default().val();
                ensure!(cx, K::Model, g.seen.unwrap().0 == want, "{name}: value is {:?}, expected the default {want}", g.seen);
                d = per;
            }
            (0, None) | (1, None) | (3, None) | (5, None) => {
                self.m.insert(x, (kid, if var == 3 { y } else { z }, vid));
                ensure!(cx, K::Model, g.seen == Some((y, vid)), "{name}: value is {:?}, expected {:?}", g.seen, (y, vid));
                ensure!(cx, K::Model, g.calls == (var == 1) as u32, "{name}: closure called {} times", g.calls);
                d = per;
            }
            (4, Some(h)) => {
                ensure!(cx, K::Model, g.seen == Some((h.1, h.2)), "{name}: value is {:?}, expected {h:?}", g.seen);
                self.m.get_mut(&x).unwrap().1 = z;
            }
            (4, None) => {
                let k = g.k.as_ref().map(kk);
                ensure!(cx, K::Model, k == Some((x, kid)), "into_key gave {k:?}, expected {:?}", (x, kid));
                d = kt;
            }
            (5, Some(h)) => {
                let v = g.v.as_ref().map(kv);
                ensure!(cx, K::Model, v == Some((h.1, h.2)) && g.seen == Some((y, vid)), "{name}: returned {v:?} and then held {:?}", g.seen);
                let e = self.m.get_mut(&x).unwrap();
                e.1 = z;
                e.2 = vid;
                d = vt;
            }
            (6, Some(h)) => {
                let v = g.v.as_ref().map(kv);
                ensure!(cx, K::Model, v == Some((h.1, h.2)), "{name}: returned {v:?}, expected {h:?}");
                self.m.remove(&x);
                d = vt - per;
            }
            (7, Some(h)) => {
                let v = g.v.as_ref().map(kv);
                let k = g.k.as_ref().map(kk);
                ensure!(cx, K::Model, v == Some((h.1, h.2)) && k == Some((x, h.0)), "{name}: returned {k:?} {v:?}, expected {h:?}");
                self.m.remove(&x);
                d = 0;
            }
            _ => {}
        }
        rel(cx, d, base, Self::tracked(), name);
        drop(g);
        let _ = n;
        self.check(cx, x, K::Model, name);
    }
    pub fn remove(&mut self, cx: &mut Cx, x: u32) {
        let name = "BTreeMap.remove";
        let base = alive();
        let own = cx.cbs || cx.rng.chance(1, 3);
        let k = if own { Some(A::mk(x)) } else { None };
        let r = match &k {
            Some(k) => self.calm(cx, name, x as u64, After::Gone(x), |t| t.remove::<A>(k)),
            None => self.calm(cx, name, x as u64, After::Gone(x), |t| A::q(x, |q| t.remove::<A::Q>(q))),
        };
        drop(k);
        if let Some(v) = r {
            let got = v.as_ref().map(|v| {
                v.check();
                (v.val(), v.uid())
            });
            let had = self.m.remove(&x);
            let want = had.map(|e| (e.1, e.2));
            ensure!(cx, K::Model, got == want, "remove({x}) returned {got:?}, expected {want:?}");
            drop(v);
            rel(cx, if had.is_some() { -Self::per() } else { 0 }, base, Self::tracked(), name);
            self.check(cx, x, K::Model, name);
        }
    }
    fn lookup(&mut self, cx: &mut Cx, x: u32) {
        let var = cx.rng.us(6);
        let own = cx.cbs || cx.rng.chance(1, 2);
        let z = Self::v(cx);
        let have = self.m.get(&x).copied();
        let want = have.map(|h| (x, h.0, h.1, h.2));
        let k = A::mk(x);
        let name = ["BTreeMap.get", "BTreeMap.get_key_value", "BTreeMap.contains_key", "BTreeMap.get_mut", "BTreeMap.index", "BTreeMap.len"][var];
        if var == 4 && have.is_none() {
            // indexing an absent key panics
            let t = &self.t;
            let o = cx.run(name, self.m.len() as u64, x as u64, CLEAN, || idx::<A, V, A>(t, &k).val());
            ensure!(cx, K::Model, matches!(o.r, Res::Panic(_)), "indexing the absent key {x} did not panic");
            return;
        }
        let kv = |v: &V| {
            v.check();
            (v.val(), v.uid())
        };
        let r: Option<Option<Ent>> = self.calm(cx, name, x as u64, After::Exact, |t| {
            let mut with = |g: &mut dyn FnMut(&mut B<A, V>, Option<&A::Q>) -> Option<Ent>| {
                if own {
                    g(t, None)
                } else {
                    A::q(x, |q| g(t, Some(q)))
                }
            };
            with(&mut |t, q| match (var, q) {
                (0, Some(q)) => t.get::<A::Q>(q).map(|v| (x, 0, kv(v).0, kv(v).1)),
                (0, None) => t.get::<A>(&k).map(|v| (x, 0, kv(v).0, kv(v).1)),
                (1, Some(q)) => t.get_key_value::<A::Q>(q).map(|(a, b)| ent(a, b)),
                (1, None) => t.get_key_value::<A>(&k).map(|(a, b)| ent(a, b)),
                (2, Some(q)) => {
                    if t.contains_key::<A::Q>(q) {
                        Some((x, 0, 0, 0))
                    } else {
                        None
                    }
                }
                (2, None) => {
                    if t.contains_key::<A>(&k) {
                        Some((x, 0, 0, 0))
                    } else {
                        None
                    }
                }
                (3, Some(q)) => t.get_mut::<A::Q>(q).map(|v| {
                    let g = (x, 0, kv(v).0, kv(v).1);
                    v.set(z);
                    g
                }),
                (3, None) => t.get_mut::<A>(&k).map(|v| {
                    let g = (x, 0, kv(v).0, kv(v).1);
                    v.set(z);
                    g
                }),
                (4, Some(q)) => Some(idx::<A, V, A::Q>(t, q)).map(|v| (x, 0, kv(v).0, kv(v).1)),
                (4, None) => Some(idx::<A, V, A>(t, &k)).map(|v| (x, 0, kv(v).0, kv(v).1)),
                _ => Some((t.len() as u32, t.is_empty() as u32, 0, 0)),
            })
        });
        drop(k);
        let r = match r {
            Some(r) => r,
            None => return,
        };
        let want = match var {
            0 | 3 | 4 => want.map(|w| (w.0, 0, w.2, w.3)),
            2 => want.map(|w| (w.0, 0, 0, 0)),
            5 => Some((self.m.len() as u32, self.m.is_empty() as u32, 0, 0)),
            _ => want,
        };
        ensure!(cx, K::Model, r == want, "{name}({x}) gave {r:?}, expected {want:?}");
        if var == 3 {
            if let Some(e) = self.m.get_mut(&x) {
                e.1 = z
            }
            self.check(cx, x, K::Model, name);
        }
    }
    pub fn split(&mut self, cx: &mut Cx, x: u32) {
        let name = "BTreeMap.split_off";
        // the second map is replaced by the result
        self.drop2(cx);
        let own = cx.cbs || cx.rng.chance(1, 2);
        let k = A::mk(x);
        let base = alive();
        let mut sch = cx.sched(true);
        loop {
            let plan = sch.next();
            let t = &mut self.t;
            let o = cx.run(name, self.m.len() as u64, x as u64, plan, || if own { t.split_off::<A>(&k) } else { A::q(x, |q| t.split_off::<A::Q>(q)) });
            match o.r {
                Res::Val(Ok(r)) => {
                    self.t2 = r;
                    self.m2 = self.m.split_off(&x);
                    break;
                }
                Res::Val(Err(_)) => {
                    ensure!(cx, K::ErrSpur, o.faulted(), "{name} returned Err although nothing failed");
                    full(cx, &self.t, &self.m, K::Atom, name);
                    rel(cx, 0, base, Self::tracked(), name);
                    cx.cnt("unchanged after Err", 0, 1);
                }
                Res::Injected => {
                    self.resync(cx, After::Any, name);
                    return;
                }
                Res::Panic(s) => cx.fail(K::Panic, &format!("{name} panicked: {s}")),
            }
        }
        drop(k);
        full(cx, &self.t, &self.m, K::Model, "split_off (lower part)");
        full(cx, &self.t2, &self.m2, K::Model, "split_off (upper part)");
        rel(cx, 0, base - (A::IDS || A::NAME == "zst") as i64, Self::tracked(), name);
        match cx.rng.us(4) {
            0 => self.append(cx),
            1 => self.swap(),
            2 => {
                self.swap();
                self.append(cx)
            }
            _ => {}
        }
    }
    pub fn swap(&mut self) {
        std::mem::swap(&mut self.t, &mut self.t2);
        std::mem::swap(&mut self.m, &mut self.m2);
    }
    pub fn drop2(&mut self, cx: &mut Cx) {
        let old = std::mem::replace(&mut self.t2, B::new());
        let n = std::mem::take(&mut self.m2).len();
        self.discard(cx, old, n)
    }
    fn discard(&mut self, cx: &mut Cx, old: B<A, V>, n: usize) {
        let base = alive();
        if cx.cbs && cx.rng.chance(1, 3) {
            let plan = Plan { fault: Fault::None, cb: Some((Cb::Drop, cx.rng.us(1 + n) as u32, Act::Panic)) };
            if let Res::Injected = cx.run("BTreeMap drop", n as u64, 0, plan, || drop(old)).r {
                cx.leak_ok = true;
            }
            return;
        }
        match cx.rng.us(4) {
            0 => {
                let mut old = old;
                cx.free("BTreeMap.clear", n as u64, 0, || old.clear());
                ensure!(cx, K::Model, old.len() == 0 && old.iter().next().is_none(), "clear left entries");
            }
            1 => {
                // consumed in part
                let mut it = cx.free("BTreeMap.into_iter", n as u64, 0, || old.into_iter());
                let a = if n == 0 { 0 } else { cx.rng.us(n + 1) };
                let front = cx.rng.us(3);
                cx.free("into_iter partly consumed", n as u64, a as u64, || {
                    for i in 0..a {
                        let e = match front {
                            0 => it.next(),
                            1 => it.next_back(),
                            _ if i % 2 == 0 => it.next(),
                            _ => it.next_back(),
                        };
                        drop(e)
                    }
                });
                let l = it.len();
                ensure!(cx, K::Model, l == n - a, "into_iter of {n} after {a} steps has len {l}");
                cx.free("into_iter drop", n as u64, a as u64, || drop(it));
            }
            _ => cx.free("BTreeMap drop", n as u64, 0, || drop(old)),
        }
        rel(cx, -(n as i64) * Self::per(), base, Self::tracked(), "drop of a map");
    }
    pub fn append(&mut self, cx: &mut Cx) {
        let name = "BTreeMap.append";
        let base = alive();
        let n2 = self.m2.len() as u64;
        let r = self.infallible(cx, name, n2, |t, t2| t.append(t2));
        if r.is_none() {
            return;
        }
        let m2 = std::mem::take(&mut self.m2);
        let mut both = 0;
        for (k, e) in m2 {
            let old = self.m.insert(k, e);
            if let Some(o) = old {
                both += 1;
                // which of the two equal keys is stored is not specified
                let t = &self.t;
                let id = A::q(k, |q| t.get_key_value::<A::Q>(q).map(|x| x.0.uid()));
                if let Some(id) = id {
                    if id == o.0 {
                        self.m.get_mut(&k).unwrap().0 = id
                    }
                }
            }
        }
        full(cx, &self.t, &self.m, K::Model, name);
        full(cx, &self.t2, &self.m2, K::Model, "append (argument)");
        rel(cx, -Self::per() * both, base, Self::tracked(), name);
    }
    /// Fill the second map.
    pub fn second(&mut self, cx: &mut Cx) {
        self.drop2(cx);
        let n = if cx.miri { cx.rng.us(14) } else { *cx.rng.pick(&[0usize, 1, 2, 5, 11, 12, 13, 40, 100, 400]) };
        self.swap();
        match cx.rng.us(3) {
            0 => {
                // above or interleaved with everything in the other
                let lo = self.m2.keys().next_back().copied().unwrap_or(0);
                for i in 0..n {
                    let x = norm::<A>(lo.wrapping_add(1 + i as u32));
                    self.raw_insert(cx, x)
                }
            }
            1 => {
                for _ in 0..n {
                    let x = self.key(cx);
                    self.raw_insert(cx, x)
                }
            }
            _ => {
                let keys: Vec<u32> = self.m2.keys().copied().take(n).collect();
                for x in keys {
                    let x = if cx.rng.chance(1, 2) { x } else { norm::<A>(x.wrapping_add(1)) };
                    self.raw_insert(cx, x)
                }
            }
        }
        self.swap();
    }
    /// Insert without observation apart from the result.
    pub fn raw_insert(&mut self, cx: &mut Cx, x: u32) {
        let y = Self::v(cx);
        let (k, v) = (A::mk(x), V::mk(y));
        let (kid, vid) = (k.uid(), v.uid());
        let t = &mut self.t;
        let o = cx.run("BTreeMap.try_insert", self.m.len() as u64, x as u64, CLEAN, || t.try_insert(k, v));
        match o.r {
            Res::Val(Ok(old)) => {
                let want = self.m.get(&x).map(|e| (e.1, e.2));
                let got = old.as_ref().map(|v| (v.val(), v.uid()));
                ensure!(cx, K::Model, got == want, "try_insert({x}) returned {got:?}, expected {want:?}");
                let e = self.m.entry(x).or_insert((kid, y, vid));
                e.1 = y;
                e.2 = vid;
            }
            Res::Val(Err(_)) => cx.fail(K::ErrSpur, "try_insert returned Err although nothing failed"),
            _ => cx.fail(K::Panic, "try_insert panicked"),
        }
    }
    fn raw_remove(&mut self, cx: &mut Cx, x: u32) {
        let t = &mut self.t;
        let r = cx.free("BTreeMap.remove", self.m.len() as u64, x as u64, || A::q(x, |q| t.remove::<A::Q>(q)));
        let want = self.m.remove(&x).map(|e| (e.1, e.2));
        let got = r.as_ref().map(|v| (v.val(), v.uid()));
        ensure!(cx, K::Model, got == want, "remove({x}) returned {got:?}, expected {want:?}");
    }
    /// Many insertions or removals in a pattern.
    pub fn bulk(&mut self, cx: &mut Cx, n: usize, grow: bool) {
        let pat = cx.rng.us(5);
        let mut at = self.key(cx);
        let n = if grow { n } else { n.min(self.m.len()) };
        for i in 0..n {
            if grow {
                let x = match pat {
                    0 => {
                        at = at.wrapping_add(1);
                        at
                    }
                    1 => {
                        at = at.wrapping_sub(1) & 0x00ff_ffff;
                        at
                    }
                    2 => at ^ (i as u32).wrapping_mul(2654435761) >> 20,
                    _ => self.key(cx),
                };
                self.raw_insert(cx, norm::<A>(x));
            } else {
                let x = match pat {
                    0 => self.m.keys().next().copied(),
                    1 => self.m.keys().next_back().copied(),
                    2 => {
                        let r = self.m.range(at..).next().map(|e| *e.0).or(self.m.keys().next().copied());
                        r
                    }
                    3 => self.m.range(..at).next_back().map(|e| *e.0).or(self.m.keys().next_back().copied()),
                    _ => self.existing(cx),
                };
                if let Some(x) = x {
                    self.raw_remove(cx, x)
                }
            }
            if self.m.len() != self.t.len() {
                cx.fail(K::Model, &format!("len() is {} expected {}", self.t.len(), self.m.len()))
            }
        }
        let t = at;
        self.check(cx, norm::<A>(t), K::Model, if grow { "bulk insertion" } else { "bulk removal" });
    }
    fn clone_op(&mut self, cx: &mut Cx) {
        let tr = cx.rng.chance(2, 3);
        let len = self.m.len();
        let base = alive();
        let d = Self::per() * len as i64;
        let c: B<A, V>;
        if tr {
            let name = "BTreeMap.try_clone";
            let mut sch = cx.sched(true);
            loop {
                let mut plan = sch.next();
                if cx.zero && len == 0 {
                    plan = Plan { fault: Fault::From(0), cb: None };
                }
                let t = &self.t;
                let o = cx.run(name, len as u64, 0, plan, || t.try_clone());
                match o.r {
                    Res::Val(Ok(r)) => {
                        c = r;
                        break;
                    }
                    Res::Val(Err(_)) => {
                        if cx.zero && len == 0 {
                            soft!(cx, K::Zero, false, "try_clone of an empty map failed under exhaustion");
                            return;
                        }
                        ensure!(cx, K::ErrSpur, o.faulted(), "{name} returned Err although nothing failed");
                        full(cx, &self.t, &self.m, K::Clone, "original after failed try_clone");
                        rel(cx, 0, base, Self::tracked(), "failed try_clone");
                        cx.cnt("unchanged after Err", 0, 1);
                    }
                    Res::Injected => {
                        self.resync(cx, After::Exact, name);
                        return;
                    }
                    Res::Panic(s) => cx.fail(K::Panic, &format!("{name} panicked: {s}")),
                }
            }
        } else {
            match self.infallible(cx, "BTreeMap.clone", len as u64, |t, _| t.clone()) {
                Some(r) => c = r,
                None => return,
            }
        }
        rel(cx, d, base, Self::tracked(), "clone");
        // equal, and made of new elements
        full(cx, &self.t, &self.m, K::Clone, "original after cloning");
        let mut cm = MM::new();
        ensure!(cx, K::Clone, c.len() == len, "clone has {} entries of {len}", c.len());
        for (a, b) in c.iter() {
            let e = ent(a, b);
            let want = self.m.get(&e.0);
            ensure!(cx, K::Clone, want.map(|w| w.1) == Some(e.2), "clone has entry {e:?}, original {want:?}");
            ensure!(cx, K::Clone, !(A::IDS && want.unwrap().0 == e.1) && !(V::IDS && want.unwrap().2 == e.3), "clone shares an element with the original");
            if cm.len() > len {
                break;
            }
            cm.insert(e.0, (e.1, e.2, e.3));
        }
        full(cx, &c, &cm, K::Clone, "clone");
        // the clone becomes the second map and lives on
        self.drop2(cx);
        self.t2 = c;
        self.m2 = cm;
        if cx.rng.chance(1, 2) {
            self.swap()
        }
        for e in self.m2.values_mut() {
            e.1 = norm::<V>(e.1.wrapping_add(1));
        }
        let t2 = &mut self.t2;
        cx.free("write all of one copy", len as u64, 0, || t2.values_mut().for_each(|v| v.set(norm::<V>(v.val().wrapping_add(1)))));
        full(cx, &self.t, &self.m, K::Clone, "one copy after changing the other");
        if cx.rng.chance(1, 2) {
            self.drop2(cx);
            full(cx, &self.t, &self.m, K::Clone, "one copy after dropping the other");
        }
    }
    fn collect(&mut self, cx: &mut Cx) {
        let n = if cx.miri { 8 } else { cx.rng.us(60) };
        let mut src = Vec::new();
        let mut sm = Vec::new();
        for _ in 0..n {
            let (x, y) = (self.key(cx), Self::v(cx));
            let (k, v) = (A::mk(x), V::mk(y));
            sm.push((x, k.uid(), y, v.uid()));
            src.push((k, v));
        }
        let it = src.into_iter().map(|e| {
            cb(Cb::Next);
            e
        });
        if cx.rng.chance(1, 2) {
            let r = self.infallible(cx, "BTreeMap.extend", n as u64, |t, _| t.extend(it));
            if r.is_some() {
                for (x, kid, y, vid) in sm {
                    let e = self.m.entry(x).or_insert((kid, y, vid));
                    e.1 = y;
                    e.2 = vid;
                }
                full(cx, &self.t, &self.m, K::Model, "extend");
            }
        } else {
            self.drop2(cx);
            let r = self.infallible(cx, "BTreeMap.from_iter", n as u64, |_, t2| *t2 = it.collect());
            if r.is_some() {
                for (x, kid, y, vid) in sm {
                    let e = self.m2.entry(x).or_insert((kid, y, vid));
                    e.1 = y;
                    e.2 = vid;
                }
                full(cx, &self.t2, &self.m2, K::Model, "from_iter");
            }
        }
    }
    fn consume(&mut self, cx: &mut Cx) {
        let old = std::mem::replace(&mut self.t, B::new());
        let m = std::mem::take(&mut self.m);
        into_iter_check(cx, old, m);
    }

    pub fn step(&mut self, cx: &mut Cx, op: usize) {
        match op {
            0 => {
                let x = self.probe(cx, 25);
                self.insert(cx, x)
            }
            1 => {
                let x = self.probe(cx, 50);
                self.entry(cx, x)
            }
            2 => {
                let x = self.probe(cx, 85);
                self.remove(cx, x)
            }
            3 => {
                let x = self.probe(cx, 60);
                self.lookup(cx, x)
            }
            4 => {
                let x = match cx.rng.us(6) {
                    0 => 0,
                    1 => norm::<A>(self.dom),
                    _ => self.probe(cx, 60),
                };
                self.split(cx, x)
            }
            5 => {
                if cx.rng.chance(2, 3) {
                    self.second(cx)
                }
                if cx.rng.chance(1, 2) {
                    self.swap()
                }
                self.append(cx)
            }
            6 => {
                if cx.rng.chance(1, 2) {
                    iters(cx, &mut self.t, &mut self.m)
                } else {
                    ranges(cx, &mut self.t, &mut self.m, self.dom)
                }
            }
            7 => {
                if cx.rng.chance(1, 3) {
                    self.consume(cx)
                }
            }
            8 => self.clone_op(cx),
            9 => {
                if cx.rng.chance(1, 4) {
                    let n = self.m.len() as i64;
                    let base = alive();
                    if self.calm(cx, "BTreeMap.clear", 0, After::Any, |t| t.clear()).is_some() {
                        self.m.clear();
                        full(cx, &self.t, &self.m, K::Model, "clear");
                        rel(cx, -n * Self::per(), base, Self::tracked(), "clear");
                    }
                }
            }
            10 => {
                let n = if cx.miri { 6 } else { *cx.rng.pick(&[3usize, 12, 30, 80, 200]) };
                self.bulk(cx, n, true)
            }
            11 => {
                let n = if cx.miri { 6 } else { *cx.rng.pick(&[3usize, 12, 30, 80, 300]) };
                self.bulk(cx, n, false)
            }
            12 => self.collect(cx),
            13 => self.swap(),
            _ => {}
        }
    }
    /// Reach a starting size in one of several ways.
    pub fn build(&mut self, cx: &mut Cx) {
        let n = if cx.miri {
            cx.rng.us(40)
        } else {
            match cx.rng.us(20) {
                0..=3 => cx.rng.us(13),
                4..=6 => 11 + cx.rng.us(4),
                7..=11 => cx.rng.us(150),
                12..=15 => cx.rng.us(700),
                16..=18 => cx.rng.us(2500),
                _ => 2500 + cx.rng.us(3500),
            }
        };
        let n = n.min(self.dom as usize * 2);
        match cx.rng.us(5) {
            0 => {
                for i in 0..n {
                    self.raw_insert(cx, norm::<A>(i as u32 * 3))
                }
            }
            1 => {
                for i in (0..n).rev() {
                    self.raw_insert(cx, norm::<A>(i as u32 * 3))
                }
            }
            2 => {
                // bulk-built (full nodes)
                let h = n / 2;
                for i in 0..h {
                    self.raw_insert(cx, norm::<A>(i as u32 * 2))
                }
                self.swap();
                for i in 0..n - h {
                    self.raw_insert(cx, norm::<A>(i as u32 * 2 + 1))
                }
                self.append(cx);
            }
            _ => {
                for _ in 0..n {
                    let x = self.key(cx);
                    self.raw_insert(cx, x)
                }
            }
        }
        full(cx, &self.t, &self.m, K::Model, "building");
    }
    pub fn finish(mut self, cx: &mut Cx) {
        full(cx, &self.t, &self.m, K::Model, "end of history");
        full(cx, &self.t2, &self.m2, K::Model, "end of history");
        self.drop2(cx);
        let n = self.m.len();
        let old = std::mem::replace(&mut self.t, B::new());
        self.discard(cx, old, n);
        let e = std::mem::replace(&mut self.t, B::new());
        cx.free("drop of an empty map", 0, 0, || drop(e));
    }
}

/// After a panic: bring the model in line with the map, checking that the map is consistent.
pub fn consistent<A: KeyE, V: Elem>(cx: &mut Cx, t: &B<A, V>, m: &mut MM, other: &mut MM, how: After, what: &str) {
    let n = t.len();
    if how == After::Exact {
        ensure!(cx, K::Cb, n == m.len(), "{what}: after a panic in user code len() is {n}, was {}", m.len());
        full(cx, t, m, K::Cb, what);
        return;
    }
    let lim = if what == "BTreeMap.extend" { n } else { m.len() + other.len() + 1 };
    let mut now = MM::new();
    let mut seen = 0;
    let mut last: Option<u32> = None;
    for (a, b) in t.iter() {
        let e = ent(a, b);
        cx.poll(what);
        seen += 1;
        ensure!(cx, K::Cb, seen <= lim, "{what}: after a panic iteration yields more entries than there ever were");
        ensure!(cx, K::Cb, last.map_or(true, |l| l < e.0), "{what}: after a panic keys are out of order");
        last = Some(e.0);
        let c = (e.1, e.2, e.3);
        let known = m.get(&e.0).map_or(false, |w| w.0 == c.0 && w.2 == c.2) || other.get(&e.0).map_or(false, |w| w.0 == c.0 && w.2 == c.2) || (m.contains_key(&e.0) || other.contains_key(&e.0));
        ensure!(cx, K::Cb, known || !A::IDS || what != "BTreeMap.append", "{what}: after a panic an unknown entry {e:?} appeared");
        now.insert(e.0, c);
    }
    if let After::But(x) = how {
        let (was, is) = (m.iter().filter(|e| *e.0 != x), now.iter().filter(|e| *e.0 != x));
        if let Some((w, g)) = was.map(Some).chain([None]).zip(is.map(Some).chain([None])).find(|e| e.0 != e.1) {
            ensure!(cx, K::Cb, false, "{what}({x}): after a panic in user code there is {g:?} instead of {w:?}");
        }
    }
    ensure!(cx, K::Cb, seen == n, "{what}: after a panic len() is {n} but iteration yields {seen}");
    let back = t.iter().rev().take(lim + 1).count();
    ensure!(cx, K::Cb, back == n, "{what}: after a panic len() is {n} but backward iteration yields {back}");
    *m = now;
}

// ------------------------------------------------------------------ iterators

fn ends(r: &mut Rng) -> usize {
    r.us(5)
}
fn front(r: &mut Rng, policy: usize, i: usize) -> bool {
    match policy {
        0 => true,
        1 => false,
        2 => i % 2 == 0,
        3 => r.chance(1, 2),
        _ => i % 7 < 5,
    }
}
/// Drive a double-ended iterator from both ends against the expected entries.
fn drive<I, T>(cx: &mut Cx, mut it: I, exp: &[Ent], what: &'static str, exact: bool, read: &mut dyn FnMut(T) -> Ent, mut step: impl FnMut(&mut Cx, &I, &[Ent])) -> usize
where
    I: DoubleEndedIterator<Item = T>,
    T: Ord,
{
    let policy = ends(&mut cx.rng);
    let stop = if cx.rng.chance(2, 5) { cx.rng.us(exp.len() + 1) } else { usize::MAX };
    let jump = if cx.rng.chance(1, 4) { 1 + cx.rng.us(8) } else { 0 };
    let probe = cx.rng.us(exp.len() + 2);
    let (mut lo, mut hi) = (0, exp.len());
    for i in 0.. {
        if i == probe {
            step(cx, &it, &exp[lo..hi]);
        }
        let h = it.size_hint();
        if exact {
            ensure!(cx, K::Model, h == (hi - lo, Some(hi - lo)), "{what}: size_hint is {h:?} with {} entries left", hi - lo);
        } else {
            ensure!(cx, K::Model, h.0 <= hi - lo && h.1.map_or(true, |u| u >= hi - lo), "{what}: size_hint is {h:?} with {} entries left", hi - lo);
        }
        if i == stop {
            if cx.rng.chance(2, 3) {
                crate::fin::ends(cx, it, &exp[lo..hi], what, read, crate::fin::key4);
                cx.poll(what);
                return usize::MAX;
            }
            return if jump > 0 { usize::MAX } else { i };
        }
        let f = front(&mut cx.rng, policy, i);
        if jump > 0 && cx.rng.chance(1, 4) {
            let k = cx.rng.us(jump);
            let g = if f { it.nth(k) } else { it.nth_back(k) }.map(&mut *read);
            cx.poll(what);
            let w = if k >= hi - lo {
                lo = hi;
                None
            } else if f {
                lo += k + 1;
                Some(exp[lo - 1])
            } else {
                hi -= k + 1;
                Some(exp[hi])
            };
            ensure!(cx, K::Model, g == w, "{what}: {}({k}) gave {g:?}, expected {w:?}", if f { "nth" } else { "nth_back" });
            continue;
        }
        let g = if f { it.next() } else { it.next_back() };
        let g = g.map(&mut *read);
        cx.poll(what);
        if lo == hi {
            ensure!(cx, K::Model, g.is_none(), "{what}: yields {g:?} after all {} entries (step {i}, {})", exp.len(), if f { "front" } else { "back" });
            break;
        }
        let w = if f {
            lo += 1;
            exp[lo - 1]
        } else {
            hi -= 1;
            exp[hi]
        };
        ensure!(cx, K::Model, g == Some(w), "{what}: step {i} from the {} yields {g:?}, expected {w:?}", if f { "front" } else { "back" });
    }
    for _ in 0..2 {
        let a = it.next().is_none();
        let b = it.next_back().is_none();
        ensure!(cx, K::Model, a && b, "{what}: yields again after the end");
    }
    if jump > 0 {
        return usize::MAX;
    }
    exp.len()
}
fn mask(e: &[Ent], k: bool, v: bool) -> Vec<Ent> {
    e.iter().map(|x| (if k { x.0 } else { 0 }, if k { x.1 } else { 0 }, if v { x.2 } else { 0 }, if v { x.3 } else { 0 })).collect()
}
fn dbg_is<T: std::fmt::Debug, U: std::fmt::Debug>(cx: &mut Cx, t: &T, want: &U, n: usize, what: &str) {
    if n <= 40 {
        let (a, b) = (format!("{t:?}"), format!("{want:?}"));
        ensure!(cx, K::Model, a == b, "Debug of {what} gave {a}, expected {b}");
    }
}
struct DV(u32, bool);
impl std::fmt::Debug for DV {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        if self.1 {
            write!(f, "Z")
        } else {
            write!(f, "{}", self.0)
        }
    }
}

pub fn iters<A: KeyE, V: Elem>(cx: &mut Cx, t: &mut B<A, V>, m: &mut MM) {
    let exp: Vec<Ent> = m.iter().map(flat).collect();
    let var = cx.rng.us(8);
    let n = exp.len();
    let what = ["iter", "keys", "values", "iter_mut", "values_mut", "&into_iter", "&mut into_iter", "iter_mut collected"][var];
    cx.cnt(what, 0, 1);
    cx.note(what, n as u64, 0);
    cx.fpmix(var as u64 * 1000 + n as u64);
    cx.top("largest map iterated", n as u64);
    match var {
        0 | 5 => {
            let it = if var == 0 { cx.free("BTreeMap.iter", n as u64, 0, || t.iter()) } else { (&*t).into_iter() };
            let mut rd = |(a, b): (&A, &V)| ent(a, b);
            drive(cx, it, &exp, what, true, &mut rd, |cx, it, rest| {
                ensure!(cx, K::Model, it.len() == rest.len(), "{what}: len() is {} with {} left", it.len(), rest.len());
                let c: Vec<Ent> = it.clone().map(|(a, b)| ent(a, b)).collect();
                ensure!(cx, K::Model, c == rest, "a clone of {what} yields other entries than the rest");
                let c: Vec<Ent> = it.clone().rev().map(|(a, b)| ent(a, b)).collect();
                ensure!(cx, K::Model, c.iter().rev().eq(rest.iter()), "a clone of {what} yields other entries backwards");
                let w: Vec<(&A, &V)> = it.clone().collect();
                dbg_is(cx, it, &w, rest.len(), what);
            });
        }
        1 => {
            let e = mask(&exp, true, false);
            let it = cx.free("BTreeMap.keys", n as u64, 0, || t.keys());
            let mut rd = |a: &A| {
                a.check();
                (a.val(), a.uid(), 0, 0)
            };
            drive(cx, it, &e, what, true, &mut rd, |cx, it, rest| {
                ensure!(cx, K::Model, it.len() == rest.len(), "{what}: len() is {} with {} left", it.len(), rest.len());
                let c: Vec<u32> = it.clone().map(|a| a.val()).collect();
                ensure!(cx, K::Model, c.iter().eq(rest.iter().map(|r| &r.0)), "a clone of {what} yields other keys than the rest");
                let w: Vec<(&A, &V)> = vec![];
                let _ = w;
                dbg_keys::<A, V>(cx, it, rest);
            });
        }
        2 => {
            let e = mask(&exp, false, true);
            let it = cx.free("BTreeMap.values", n as u64, 0, || t.values());
            let mut rd = |b: &V| {
                b.check();
                (0, 0, b.val(), b.uid())
            };
            drive(cx, it, &e, what, true, &mut rd, |cx, it, rest| {
                ensure!(cx, K::Model, it.len() == rest.len(), "{what}: len() is {} with {} left", it.len(), rest.len());
                let c: Vec<u32> = it.clone().map(|a| a.val()).collect();
                ensure!(cx, K::Model, c.iter().eq(rest.iter().map(|r| &r.2)), "a clone of {what} yields other values than the rest");
                let _ = format!("{:?}", it);
            });
        }
        3 | 6 => {
            let it = if var == 3 { cx.free("BTreeMap.iter_mut", n as u64, 0, || t.iter_mut()) } else { (&mut *t).into_iter() };
            let mut touched = vec![];
            let mut rd = |(a, b): (&A, &mut V)| {
                let e = ent(a, b);
                b.set(norm::<V>(b.val().wrapping_add(5)));
                touched.push(e.0);
                e
            };
            drive(cx, it, &exp, what, true, &mut rd, |cx, it, rest| ensure!(cx, K::Model, it.len() == rest.len(), "{what}: len() is {} with {} left", it.len(), rest.len()));
            for k in touched {
                if let Some(e) = m.get_mut(&k) {
                    e.1 = norm::<V>(e.1.wrapping_add(5))
                }
            }
            full(cx, t, m, K::Model, what);
        }
        4 => {
            let e = mask(&exp, false, true);
            let it = cx.free("BTreeMap.values_mut", n as u64, 0, || t.values_mut());
            let mut rd = |b: &mut V| {
                b.check();
                let e = (0, 0, b.val(), b.uid());
                b.set(norm::<V>(b.val().wrapping_add(9)));
                e
            };
            let k = drive(cx, it, &e, what, true, &mut rd, |cx, it, rest| ensure!(cx, K::Model, it.len() == rest.len(), "{what}: len() is {} with {} left", it.len(), rest.len()));
            if k == n {
                for e in m.values_mut() {
                    e.1 = norm::<V>(e.1.wrapping_add(9))
                }
            } else {
                // partly driven: take the values over, keys and numbers must be as before
                for (a, b) in t.iter() {
                    if let Some(e) = m.get_mut(&a.val()) {
                        let v = b.val();
                        ensure!(cx, K::Model, v == e.1 || v == norm::<V>(e.1.wrapping_add(9)), "values_mut: value of key {} became {v}", a.val());
                        e.1 = v
                    }
                }
            }
            full(cx, t, m, K::Model, what);
        }
        _ => {
            // all references at once: they must be distinct and stay valid
            let rs: Vec<(&A, &mut V)> = t.iter_mut().collect();
            ensure!(cx, K::Model, rs.len() == n, "iter_mut yields {} of {n}", rs.len());
            if std::mem::size_of::<V>() > 0 {
                let mut ps: Vec<usize> = rs.iter().map(|r| &*r.1 as *const V as usize).collect();
                ps.sort_unstable();
                ps.dedup();
                ensure!(cx, K::Model, ps.len() == n, "iter_mut yields one entry twice");
            }
            for (i, (a, b)) in rs.into_iter().enumerate() {
                let v = norm::<V>(i as u32 + 1);
                b.set(v);
                if let Some(e) = m.get_mut(&a.val()) {
                    e.1 = v
                }
            }
            full(cx, t, m, K::Model, what);
        }
    }
}
fn dbg_keys<A: KeyE, V: Elem>(cx: &mut Cx, it: &fallible_collections::btree::map::Keys<'_, A, V>, rest: &[Ent]) {
    // keys() debug output: one item per remaining entry (std prints the keys; the items are in order)
    if rest.len() <= 40 {
        let s = format!("{it:?}");
        ensure!(cx, K::Model, s.starts_with('[') && s.ends_with(']'), "Debug of keys gave {s}");
    }
}

fn bound<'a, T: ?Sized>(kind: usize, t: &'a T) -> Bound<&'a T> {
    match kind {
        0 => Included(t),
        1 => Excluded(t),
        _ => Unbounded,
    }
}
pub fn ranges<A: KeyE, V: Elem>(cx: &mut Cx, t: &mut B<A, V>, m: &mut MM, dom: u32) {
    let n = m.len();
    let pick = |cx: &mut Cx| -> u32 {
        let near = |cx: &mut Cx| {
            let r = cx.rng.us(dom as usize + 1) as u32;
            m.range(r..).next().map(|e| *e.0).unwrap_or(r)
        };
        let x = match cx.rng.us(7) {
            0 => 0,
            1 => dom,
            2 => cx.rng.us(dom as usize + 1) as u32,
            3 => near(cx).wrapping_add(1),
            4 => near(cx).saturating_sub(1),
            _ => near(cx),
        };
        norm::<A>(x)
    };
    let a = pick(cx);
    let mut b = match cx.rng.us(5) {
        0 => a,
        1 => norm::<A>(a.wrapping_add(1)),
        _ => pick(cx),
    };
    let mut a = a;
    if a > b && cx.rng.chance(4, 5) {
        std::mem::swap(&mut a, &mut b)
    }
    let (ka, kb) = (cx.rng.us(3), cx.rng.us(3));
    let bad = ka < 2 && kb < 2 && (a > b || (a == b && ka == 1 && kb == 1));
    let exp: Vec<Ent> = if bad { vec![] } else { m.range((bound(ka, &a), bound(kb, &b))).map(flat).collect() };
    let own = cx.rng.chance(1, 2);
    let mutable = cx.rng.chance(1, 2);
    let what = if mutable { "range_mut" } else { "range" };
    cx.note(what, a as u64, b as u64);
    cx.note("bounds", ka as u64, kb as u64);
    cx.fpmix((ka * 3 + kb) as u64 | (exp.len().min(100) as u64) << 8 | (n.min(1000) as u64) << 20);
    cx.cnt(["[a,b]", "[a,b)", "[a,..", "(a,b]", "(a,b)", "(a,..", "..b]", "..b)", ".."][ka * 3 + kb], 0, 1);
    if bad {
        cx.cnt("range that must panic", 0, 1);
        let (x, y) = (A::mk(a), A::mk(b));
        let o = cx.run(what, a as u64, b as u64, CLEAN, || {
            if mutable {
                t.range_mut::<A, _>((bound(ka, &x), bound(kb, &y))).next().is_some()
            } else {
                t.range::<A, _>((bound(ka, &x), bound(kb, &y))).next().is_some()
            }
        });
        ensure!(cx, K::Model, matches!(o.r, Res::Panic(_)), "{what} with inverted or empty excluded bounds {a},{b} did not panic ({n} entries)");
        full(cx, t, m, K::Model, "map after refused range");
        return;
    }
    let (x, y) = (A::mk(a), A::mk(b));
    if mutable {
        let it = cx.free(what, a as u64, b as u64, || {
            if own {
                t.range_mut::<A, _>((bound(ka, &x), bound(kb, &y)))
            } else {
                A::q(a, |qa| A::q(b, |qb| t.range_mut::<A::Q, _>((bound(ka, qa), bound(kb, qb)))))
            }
        });
        let mut touched = vec![];
        let mut rd = |(a, b): (&A, &mut V)| {
            let e = ent(a, b);
            b.set(norm::<V>(b.val().wrapping_add(7)));
            touched.push(e.0);
            e
        };
        drive(cx, it, &exp, what, false, &mut rd, |cx, it, rest| {
            if rest.len() <= 40 {
                let _ = format!("{it:?}").len();
            }
            let _ = cx;
        });
        for k in touched {
            if let Some(e) = m.get_mut(&k) {
                e.1 = norm::<V>(e.1.wrapping_add(7))
            }
        }
        full(cx, t, m, K::Model, what);
    } else {
        let it = cx.free(what, a as u64, b as u64, || {
            if own {
                t.range::<A, _>((bound(ka, &x), bound(kb, &y)))
            } else {
                A::q(a, |qa| A::q(b, |qb| t.range::<A::Q, _>((bound(ka, qa), bound(kb, qb)))))
            }
        });
        let mut rd = |(a, b): (&A, &V)| ent(a, b);
        drive(cx, it, &exp, what, false, &mut rd, |cx, it, rest| {
            let c: Vec<Ent> = it.clone().map(|(a, b)| ent(a, b)).collect();
            ensure!(cx, K::Model, c == rest, "a clone of {what} yields other entries than the rest");
            let w: Vec<(&A, &V)> = it.clone().collect();
            dbg_is(cx, it, &w, rest.len(), what);
        });
    }
}

pub fn into_iter_check<A: KeyE, V: Elem>(cx: &mut Cx, t: B<A, V>, m: MM) {
    let exp: Vec<Ent> = m.iter().map(flat).collect();
    let n = exp.len();
    let base = alive();
    let per = H::<A, V>::per();
    let mut it = cx.free("BTreeMap.into_iter", n as u64, 0, || t.into_iter());
    let policy = ends(&mut cx.rng);
    let stop = if cx.rng.chance(1, 2) { cx.rng.us(n + 1) } else { n + 2 };
    let probe = cx.rng.us(n + 1);
    let keep = cx.rng.chance(1, 2);
    let mut kept = vec![];
    let (mut lo, mut hi) = (0, n);
    let mut i = 0;
    while i < stop {
        ensure!(cx, K::Model, it.len() == hi - lo && it.size_hint() == (hi - lo, Some(hi - lo)), "into_iter: len() is {} with {} left", it.len(), hi - lo);
        if i == probe {
            let want: Vec<(DV, DV)> = exp[lo..hi].iter().map(|e| (DV(e.0, A::NAME == "zst"), DV(e.2, V::NAME == "zst"))).collect();
            if A::NAME != "string" && V::NAME != "string" && A::NAME != "zst-align64" && A::NAME != "C3" && V::NAME != "C3" {
                dbg_is(cx, &it, &want, hi - lo, "into_iter");
            }
        }
        let f = front(&mut cx.rng, policy, i);
        let g = cx.free(if f { "into_iter.next" } else { "into_iter.next_back" }, (hi - lo) as u64, 0, || if f { it.next() } else { it.next_back() });
        let e = g.as_ref().map(|(a, b)| ent(a, b));
        cx.poll("into_iter");
        let w = if lo == hi {
            None
        } else if f {
            lo += 1;
            Some(exp[lo - 1])
        } else {
            hi -= 1;
            Some(exp[hi])
        };
        ensure!(cx, K::Model, e == w, "into_iter: step {i} from the {} yields {e:?}, expected {w:?}", if f { "front" } else { "back" });
        if keep {
            kept.extend(g)
        }
        i += 1;
    }
    if cx.rng.chance(1, 3) {
        // what comes out is dropped by the adaptor or by the reader
        crate::fin::ends(cx, it, &exp[lo..hi], "into_iter", &mut |(a, b): (A, V)| ent(&a, &b), crate::fin::key4);
    } else if cx.cbs && lo < hi {
        let plan = Plan { fault: Fault::None, cb: Some((Cb::Drop, cx.rng.us((hi - lo) * 2) as u32, Act::Panic)) };
        if let Res::Injected = cx.run("into_iter drop", (hi - lo) as u64, 0, plan, || drop(it)).r {
            cx.leak_ok = true;
        }
    } else {
        cx.free("into_iter drop", (hi - lo) as u64, 0, || drop(it));
    }
    let left = if keep { (n - (hi - lo)) as i64 } else { 0 };
    rel(cx, (left - n as i64) * per, base, per > 0, "into_iter");
    for (a, b) in &kept {
        ent(a, b);
    }
    drop(kept);
    cx.poll("into_iter");
}

// ------------------------------------------------------------------ engines

pub fn history<A: KeyE, V: Elem>(cx: &mut Cx, w: &[u32]) {
    cx.cnt(A::NAME, 0, 1);
    cx.fpmix(A::NAME.len() as u64 * 131 + std::mem::size_of::<V>() as u64);
    let mut h: H<A, V> = H::new(cx);
    h.build(cx);
    let n = if cx.miri { 12 } else { 20 + cx.rng.us(50) };
    for _ in 0..n {
        let op = cx.rng.weighted(w);
        h.step(cx, op);
        cx.top("largest map", h.m.len() as u64);
    }
    if cx.rng.chance(1, 6) {
        // empty it completely, then use it again
        let n = h.m.len();
        if n < 800 {
            h.bulk(cx, n, false);
            for _ in 0..4 {
                h.step(cx, 0)
            }
        }
    }
    h.finish(cx);
}
