//! Histories over pairs of BTreeSets against std sets as model.
use crate::cx::*;
use crate::mon::Fault;
use crate::rng::Rng;
use crate::tok::*;
use crate::vecw::norm;
use fallible_collections::btree::BTreeSet as S;
use fallible_collections::TryReserveError;
use std::collections::BTreeMap;
use std::ops::Bound::{self, *};

type E = TryReserveError;
/// value -> element number
type M = BTreeMap<u32, u32>;

fn one<A: Elem>(a: &A) -> (u32, u32) {
    a.check();
    (a.val(), a.uid())
}
fn full<A: KeyE>(cx: &Cx, t: &S<A>, m: &M, k: K, what: &str) {
    ensure!(cx, k, t.len() == m.len() && t.is_empty() == m.is_empty(), "{what}: len() is {} expected {}", t.len(), m.len());
    let mut w = m.iter();
    let mut n = 0;
    for a in t.iter() {
        let g = one(a);
        cx.poll(what);
        n += 1;
        match w.next() {
            Some(x) => ensure!(cx, k, g == (*x.0, *x.1), "{what}: element {n} is {g:?} (value, number), expected {x:?}"),
            None => cx.fail(k, &format!("{what}: iteration yields more than {} elements", m.len())),
        }
    }
    ensure!(cx, k, n == m.len(), "{what}: iteration yields {n} of {} elements", m.len());
}
fn consistent<A: KeyE>(cx: &mut Cx, t: &S<A>, lim: usize, what: &str) -> M {
    let mut m = M::new();
    let mut last = None;
    let mut n = 0;
    for a in t.iter() {
        let e = one(a);
        cx.poll(what);
        n += 1;
        ensure!(cx, K::Cb, n <= lim, "{what}: after a panic iteration yields more elements than there ever were");
        ensure!(cx, K::Cb, last.map_or(true, |l| l < e.0), "{what}: after a panic elements are out of order");
        last = Some(e.0);
        m.insert(e.0, e.1);
    }
    ensure!(cx, K::Cb, n == t.len(), "{what}: after a panic len() is {} but iteration yields {n}", t.len());
    let b = t.iter().rev().take(lim + 1).count();
    ensure!(cx, K::Cb, b == n, "{what}: after a panic backward iteration yields {b} of {n}");
    m
}
struct P<A: KeyE> {
    t: [S<A>; 2],
    m: [M; 2],
    dom: u32,
    cur: u32,
}
fn counted<A: Elem>() -> bool {
    A::IDS || A::NAME == "zst"
}
fn rel<A: Elem>(cx: &Cx, d: i64, base: i64, what: &str) {
    if counted::<A>() && !cx.leak_ok {
        let a = alive();
        ensure!(cx, K::Leak, a == base + d, "{what}: {a} live elements, expected {}", base + d);
    }
}
impl<A: KeyE> P<A> {
    fn key(&mut self, r: &mut Rng) -> u32 {
        let x = if r.chance(1, 3) {
            self.cur = (self.cur + 1) % self.dom;
            self.cur
        } else {
            r.us(self.dom as usize) as u32
        };
        norm::<A>(x)
    }
    fn probe(&mut self, cx: &mut Cx) -> u32 {
        let x = self.key(&mut cx.rng);
        if cx.rng.chance(1, 2) {
            let s = cx.rng.us(2);
            if let Some(e) = self.m[s].range(x..).next() {
                return *e.0;
            }
        }
        x
    }
    fn resync(&mut self, cx: &mut Cx, exact: bool, what: &str) {
        cx.leak_ok = true;
        let lim = self.m[0].len() + self.m[1].len() + 1;
        for i in 0..2 {
            if exact {
                full(cx, &self.t[i], &self.m[i], K::Cb, what);
            } else {
                let m = consistent(cx, &self.t[i], lim, what);
                self.m[i] = m;
            }
        }
        cx.cnt("consistent after injected panic", 0, 1);
    }
    fn calm<R>(&mut self, cx: &mut Cx, name: &'static str, b: u64, exact: bool, op: impl FnOnce(&mut [S<A>; 2]) -> R) -> Option<R> {
        let n = self.m[0].len() as u64;
        let t = &mut self.t;
        if cx.cbs {
            let plan = cx.sched(false).next();
            let o = cx.run(name, n, b, plan, || op(t));
            return match o.r {
                Res::Val(r) => Some(r),
                Res::Injected => {
                    self.resync(cx, exact, name);
                    None
                }
                Res::Panic(s) => cx.fail(K::Panic, &format!("{name} panicked: {s}")),
            };
        }
        Some(cx.free(name, n, b, || op(t)))
    }
    /// insert (var 0) or replace (var 1) in set i
    fn add(&mut self, cx: &mut Cx, i: usize, x: u32, var: usize) {
        let name = ["BTreeSet.try_insert", "BTreeSet.replace"][var];
        let exists = self.m[i].contains_key(&x);
        let mut sch = cx.sched(false);
        loop {
            let mut plan = sch.next();
            if cx.zero && exists {
                plan = Plan { fault: Fault::From(0), cb: None };
            }
            let base = alive();
            let k = A::mk(x);
            let id = k.uid();
            let t = &mut self.t[i];
            enum G<A> {
                B(bool),
                O(Option<A>),
            }
            let o = cx.run(name, self.m[i].len() as u64, x as u64, plan, || -> Result<G<A>, E> {
                if var == 0 {
                    t.try_insert(k).map(G::B)
                } else {
                    t.replace(k).map(G::O)
                }
            });
            match o.r {
                Res::Val(Ok(g)) => {
                    if cx.zero && exists {
                        soft!(cx, K::Zero, o.m.att == 0, "{name} of an existing element allocated");
                    }
                    match g {
                        G::B(b) => ensure!(cx, K::Model, b == !exists, "try_insert({x}) returned {b}"),
                        G::O(old) => {
                            let g = old.as_ref().map(one);
                            cx.poll(name);
                            let w = self.m[i].get(&x).map(|n| (x, *n));
                            ensure!(cx, K::Model, g == w, "replace({x}) returned {g:?}, expected {w:?}");
                        }
                    }
                    if !exists || var == 1 {
                        self.m[i].insert(x, id);
                    }
                    self.check(cx, i, x, name);
                    rel::<A>(cx, !exists as i64, base, name);
                    return;
                }
                Res::Val(Err(_)) => {
                    if cx.zero && exists {
                        soft!(cx, K::Zero, false, "{name} of an existing element failed under exhaustion");
                        return;
                    }
                    ensure!(cx, K::ErrSpur, o.faulted(), "{name} returned Err although nothing failed");
                    full(cx, &self.t[i], &self.m[i], K::Atom, name);
                    rel::<A>(cx, 0, base, name);
                    cx.cnt("unchanged after Err", 0, 1);
                }
                Res::Injected => {
                    // a panic while dropping may come after the element went in
                    let was = self.m[i].clone();
                    self.resync(cx, false, name);
                    let now = &self.m[i];
                    let same = was.iter().filter(|e| *e.0 != x).eq(now.iter().filter(|e| *e.0 != x));
                    ensure!(cx, K::Cb, same, "{name}({x}): after a panic in user code other elements are there than before");
                    return;
                }
                Res::Panic(s) => cx.fail(K::Panic, &format!("{name} panicked: {s}")),
            }
        }
    }
    fn check(&mut self, cx: &mut Cx, i: usize, x: u32, what: &str) {
        let (t, m) = (&self.t[i], &self.m[i]);
        let n = m.len();
        ensure!(cx, K::Model, t.len() == n, "{what}: len() is {} expected {n}", t.len());
        if n <= 40 || cx.rng.chance(40, n as u64) {
            full(cx, t, m, K::Model, what)
        } else {
            let g = A::q(x, |q| t.get::<A::Q>(q).map(one));
            let w = m.get(&x).map(|n| (x, *n));
            ensure!(cx, K::Model, g == w, "{what}: get({x}) gives {g:?}, expected {w:?}");
        }
    }
    fn take(&mut self, cx: &mut Cx, i: usize, x: u32) {
        let own = cx.rng.chance(1, 2);
        let base = alive();
        let w = self.m[i].get(&x).map(|n| (x, *n));
        let rem = cx.rng.chance(1, 2);
        if rem {
            let k = if own { Some(A::mk(x)) } else { None };
            let r = self.calm(cx, "BTreeSet.remove", x as u64, false, |t| match &k {
                Some(k) => t[i].remove::<A>(k),
                None => A::q(x, |q| t[i].remove::<A::Q>(q)),
            });
            drop(k);
            match r {
                Some(r) => ensure!(cx, K::Model, r == w.is_some(), "remove({x}) returned {r}"),
                None => return,
            }
        } else {
            let k = if own { Some(A::mk(x)) } else { None };
            let r = self.calm(cx, "BTreeSet.take", x as u64, false, |t| match &k {
                Some(k) => t[i].take::<A>(k),
                None => A::q(x, |q| t[i].take::<A::Q>(q)),
            });
            drop(k);
            match r {
                Some(r) => {
                    let g = r.as_ref().map(one);
                    cx.poll("take");
                    ensure!(cx, K::Model, g == w, "take({x}) returned {g:?}, expected {w:?}")
                }
                None => return,
            }
        }
        self.m[i].remove(&x);
        self.check(cx, i, x, "BTreeSet.remove/take");
        rel::<A>(cx, -(w.is_some() as i64), base, "BTreeSet.remove/take");
    }
    fn lookup(&mut self, cx: &mut Cx, i: usize, x: u32) {
        let own = cx.rng.chance(1, 2);
        let w = self.m[i].get(&x).map(|n| (x, *n));
        let k = A::mk(x);
        let r = self.calm(cx, "BTreeSet.get/contains", x as u64, true, |t| {
            if own {
                (t[i].get::<A>(&k).map(one), t[i].contains::<A>(&k))
            } else {
                A::q(x, |q| (t[i].get::<A::Q>(q).map(one), t[i].contains::<A::Q>(q)))
            }
        });
        if let Some((g, c)) = r {
            ensure!(cx, K::Model, g == w && c == w.is_some(), "get({x}) gives {g:?} and contains gives {c}, expected {w:?}");
        }
    }
    fn iterate(&mut self, cx: &mut Cx, i: usize) {
        let exp: Vec<(u32, u32)> = self.m[i].iter().map(|e| (*e.0, *e.1)).collect();
        let t = &self.t[i];
        cx.note("BTreeSet.iter", exp.len() as u64, 0);
        let it = if cx.rng.chance(1, 2) { t.iter() } else { t.into_iter() };
        both_ends(cx, it, &exp, true, "BTreeSet.iter", |a| one(a));
    }
    fn range(&mut self, cx: &mut Cx, i: usize) {
        let (mut a, mut b) = (self.probe(cx), self.probe(cx));
        if cx.rng.chance(1, 6) {
            b = a
        }
        if a > b && cx.rng.chance(4, 5) {
            std::mem::swap(&mut a, &mut b)
        }
        let (ka, kb) = (cx.rng.us(3), cx.rng.us(3));
        fn bound<'a, T: ?Sized>(kind: usize, t: &'a T) -> Bound<&'a T> {
            match kind {
                0 => Included(t),
                1 => Excluded(t),
                _ => Unbounded,
            }
        }
        let bad = ka < 2 && kb < 2 && (a > b || (a == b && ka == 1 && kb == 1));
        let (x, y) = (A::mk(a), A::mk(b));
        cx.note("BTreeSet.range", a as u64, b as u64);
        cx.note("bounds", ka as u64, kb as u64);
        let t = &self.t[i];
        if bad {
            let o = cx.run("BTreeSet.range", a as u64, b as u64, CLEAN, || t.range::<A, _>((bound(ka, &x), bound(kb, &y))).next().is_some());
            ensure!(cx, K::Model, matches!(o.r, Res::Panic(_)), "range with inverted or empty excluded bounds did not panic");
            return;
        }
        let exp: Vec<(u32, u32)> = self.m[i].range((bound(ka, &a), bound(kb, &b))).map(|e| (*e.0, *e.1)).collect();
        let it = cx.free("BTreeSet.range", a as u64, b as u64, || A::q(a, |p| A::q(b, |q| t.range::<A::Q, _>((bound(ka, p), bound(kb, q))))));
        both_ends(cx, it, &exp, false, "BTreeSet.range", |a| one(a));
    }
    fn consume(&mut self, cx: &mut Cx, i: usize) {
        let t = std::mem::take(&mut self.t[i]);
        let m = std::mem::take(&mut self.m[i]);
        let exp: Vec<(u32, u32)> = m.iter().map(|e| (*e.0, *e.1)).collect();
        let n = exp.len();
        let base = alive();
        let stop = if cx.rng.chance(1, 2) { n } else { cx.rng.us(n + 1) };
        let policy = cx.rng.us(3);
        let mut it = cx.free("BTreeSet.into_iter", n as u64, stop as u64, || t.into_iter());
        let (mut lo, mut hi) = (0, n);
        for j in 0..stop {
            ensure!(cx, K::Model, it.len() == hi - lo && it.size_hint() == (hi - lo, Some(hi - lo)), "into_iter len wrong");
            let f = policy == 0 || (policy == 2 && j % 2 == 0);
            let g = cx.free("BTreeSet.into_iter.next", 0, 0, || if f { it.next() } else { it.next_back() });
            let w = if f {
                lo += 1;
                exp[lo - 1]
            } else {
                hi -= 1;
                exp[hi]
            };
            let g = g.as_ref().map(one);
            cx.poll("BTreeSet.into_iter");
            ensure!(cx, K::Model, g == Some(w), "BTreeSet.into_iter yields {g:?}, expected {w:?}");
        }
        if stop == n {
            ensure!(cx, K::Model, it.next().is_none() && it.next_back().is_none(), "BTreeSet.into_iter yields after the end");
        }
        if cx.cbs {
            let plan = cx.sched(false).next();
            if let Res::Injected = cx.run("BTreeSet.into_iter drop", (hi - lo) as u64, 0, plan, || drop(it)).r {
                cx.leak_ok = true
            }
        } else {
            cx.free("BTreeSet.into_iter drop", (hi - lo) as u64, 0, || drop(it));
        }
        rel::<A>(cx, -(n as i64), base, "BTreeSet.into_iter");
    }
    fn split(&mut self, cx: &mut Cx, x: u32) {
        self.drop2(cx);
        let name = "BTreeSet.try_split_off";
        let own = cx.cbs || cx.rng.chance(1, 2);
        let k = A::mk(x);
        let base = alive();
        let mut sch = cx.sched(false);
        loop {
            let plan = sch.next();
            let t = &mut self.t[0];
            let o = cx.run(name, self.m[0].len() as u64, x as u64, plan, || if own { t.try_split_off::<A>(&k) } else { A::q(x, |q| t.try_split_off::<A::Q>(q)) });
            match o.r {
                Res::Val(Ok(r)) => {
                    self.t[1] = r;
                    self.m[1] = self.m[0].split_off(&x);
                    break;
                }
                Res::Val(Err(_)) => {
                    ensure!(cx, K::ErrSpur, o.faulted(), "{name} returned Err although nothing failed");
                    full(cx, &self.t[0], &self.m[0], K::Atom, name);
                    rel::<A>(cx, 0, base, name);
                    cx.cnt("unchanged after Err", 0, 1);
                }
                Res::Injected => return self.resync(cx, false, name),
                Res::Panic(s) => cx.fail(K::Panic, &format!("{name} panicked: {s}")),
            }
        }
        for i in 0..2 {
            full(cx, &self.t[i], &self.m[i], K::Model, name);
        }
    }
    fn drop2(&mut self, cx: &mut Cx) {
        let n = std::mem::take(&mut self.m[1]).len();
        let base = alive();
        let old = std::mem::take(&mut self.t[1]);
        if cx.cbs {
            drop(old)
        } else if cx.rng.chance(1, 2) {
            let mut old = old;
            cx.free("BTreeSet.clear", n as u64, 0, || old.clear());
            ensure!(cx, K::Model, old.len() == 0 && old.iter().next().is_none(), "clear left elements");
        } else {
            cx.free("BTreeSet drop", n as u64, 0, || drop(old));
        }
        rel::<A>(cx, -(n as i64), base, "BTreeSet drop");
    }
    fn append(&mut self, cx: &mut Cx) {
        let name = "BTreeSet.append";
        let base = alive();
        let plan = if cx.cbs { cx.sched(false).next() } else { CLEAN };
        let n = (self.m[0].len() as u64, self.m[1].len() as u64);
        let [a, b] = &mut self.t;
        let o = cx.run(name, n.0, n.1, plan, || a.append(b));
        match o.r {
            Res::Val(()) => {
                let mut both = 0;
                let m2 = std::mem::take(&mut self.m[1]);
                for (k, id) in m2 {
                    if let Some(o) = self.m[0].insert(k, id) {
                        both += 1;
                        // which of two equal elements stays is not specified
                        let t = &self.t[0];
                        if A::q(k, |q| t.get::<A::Q>(q).map(|x| x.uid())) == Some(o) {
                            self.m[0].insert(k, o);
                        }
                    }
                }
                for i in 0..2 {
                    full(cx, &self.t[i], &self.m[i], K::Model, name);
                }
                rel::<A>(cx, -both, base, name);
            }
            Res::Injected => self.resync(cx, false, name),
            Res::Panic(s) => cx.fail(K::Panic, &format!("{name} panicked: {s}")),
        }
    }
    /// infallible whole-set operations: operators, clone, extend, collect
    fn make(&mut self, cx: &mut Cx) {
        let var = cx.rng.us(7);
        let name = ["BTreeSet |", "BTreeSet &", "BTreeSet -", "BTreeSet ^", "BTreeSet.clone", "BTreeSet.collect", "BTreeSet.extend"][var];
        let plan = if cx.cbs { cx.sched(false).next() } else { CLEAN };
        let base = alive();
        let n = (self.m[0].len() as u64, self.m[1].len() as u64);
        let add: Vec<u32> = if var >= 5 {
            let n = if cx.miri { 8 } else { cx.rng.us(60) };
            (0..n).map(|_| self.key(&mut cx.rng)).collect()
        } else {
            vec![]
        };
        if var == 6 {
            let mut src: Vec<A> = add.iter().map(|x| A::mk(*x)).collect();
            let ids: Vec<(u32, u32)> = src.iter().map(one).collect();
            let t = &mut self.t[0];
            let o = cx.run(name, n.0, add.len() as u64, plan, || t.extend(src.drain(..)));
            drop(src);
            match o.r {
                Res::Val(()) => {
                    for (x, id) in ids {
                        self.m[0].entry(x).or_insert(id);
                    }
                    full(cx, &self.t[0], &self.m[0], K::Model, name);
                }
                Res::Injected => {
                    cx.leak_ok = true;
                    let m = consistent(cx, &self.t[0], self.m[0].len() + ids.len(), name);
                    self.m[0] = m;
                }
                Res::Panic(s) => cx.fail(K::Panic, &format!("{name} panicked: {s}")),
            }
            return;
        }
        let want: Vec<u32> = match var {
            5 => {
                let mut v = add.clone();
                v.sort_unstable();
                v.dedup();
                v
            }
            4 => self.m[0].keys().copied().collect(),
            _ => algebra(&self.m[0], &self.m[1], var),
        };
        let src: Vec<A> = if var == 5 { add.iter().map(|x| A::mk(*x)).collect() } else { vec![] };
        let [a, b] = &self.t;
        let o = cx.run(name, n.0, n.1, plan, || match var {
            0 => a | b,
            1 => a & b,
            2 => a - b,
            3 => a ^ b,
            4 => a.clone(),
            _ => src.into_iter().collect(),
        });
        for i in 0..2 {
            full(cx, &self.t[i], &self.m[i], if var == 4 { K::Clone } else { K::Model }, name);
        }
        match o.r {
            Res::Val(s) => {
                let got: Vec<u32> = s.iter().map(|a| one(a).0).collect();
                cx.poll(name);
                ensure!(cx, K::Model, got == want && s.len() == want.len(), "{name} gives {got:?} (len {}), expected {want:?}", s.len());
                let m: M = s.iter().map(one).collect();
                rel::<A>(cx, want.len() as i64, base, name);
                if A::IDS && var < 5 {
                    ensure!(cx, K::Clone, m.values().all(|id| !self.m[0].values().any(|x| x == id) || m.len() > 64), "{name} shares an element with its operand");
                }
                let i = cx.rng.us(2);
                if cx.rng.chance(1, 2) {
                    self.t[i] = s;
                    self.m[i] = m;
                }
            }
            Res::Injected => self.resync(cx, true, name),
            Res::Panic(s) => cx.fail(K::Panic, &format!("{name} panicked: {s}")),
        }
    }
    fn algebra(&mut self, cx: &mut Cx) {
        let (i, j) = if cx.rng.chance(1, 2) { (0, 1) } else { (1, 0) };
        let (i, j) = if cx.rng.chance(1, 12) { (i, i) } else { (i, j) };
        let (la, lb) = (self.m[i].len(), self.m[j].len());
        let ratio = if la == 0 || lb == 0 {
            "an empty operand"
        } else if la > lb / 16 && lb > la / 16 {
            "comparable sizes"
        } else if la < lb {
            "left much smaller"
        } else {
            "left much larger"
        };
        cx.cnt(ratio, 0, 1);
        let var = cx.rng.us(4);
        let name = ["union", "intersection", "difference", "symmetric_difference"][var];
        let want = algebra(&self.m[i], &self.m[j], var);
        cx.fpmix((la.min(500) as u64) << 20 | (lb.min(500) as u64) << 4 | var as u64);
        let (a, b) = (&self.t[i], &self.t[j]);
        if cx.cbs {
            // a comparison panics in the middle; nothing may change
            let plan = cx.sched(false).next();
            let o = cx.run(name, la as u64, lb as u64, plan, || match var {
                0 => a.union(b).count(),
                1 => a.intersection(b).count(),
                2 => a.difference(b).count(),
                _ => a.symmetric_difference(b).count(),
            });
            match o.r {
                Res::Val(n) => ensure!(cx, K::Model, n == want.len(), "{name} yields {n} elements, expected {}", want.len()),
                Res::Injected => self.resync(cx, true, name),
                Res::Panic(s) => cx.fail(K::Panic, &format!("{name} panicked: {s}")),
            }
            return;
        }
        match var {
            0 => go(cx, name, || a.union(b), &want),
            1 => go(cx, name, || a.intersection(b), &want),
            2 => go(cx, name, || a.difference(b), &want),
            _ => go(cx, name, || a.symmetric_difference(b), &want),
        }
    }
    fn predicates(&mut self, cx: &mut Cx) {
        let (i, j) = if cx.rng.chance(1, 2) { (0, 1) } else { (1, 0) };
        let (i, j) = if cx.rng.chance(1, 12) { (i, i) } else { (i, j) };
        let sub = self.m[i].keys().all(|k| self.m[j].contains_key(k));
        let sup = self.m[j].keys().all(|k| self.m[i].contains_key(k));
        let dis = !self.m[i].keys().any(|k| self.m[j].contains_key(k));
        cx.cnt("subset true", 0, sub as u64);
        cx.cnt("superset true", 0, sup as u64);
        cx.cnt("disjoint true", 0, dis as u64);
        let n = self.m[j].len() as u64;
        let r = self.calm(cx, "is_subset/is_superset/is_disjoint", n, true, |t| (t[i].is_subset(&t[j]), t[i].is_superset(&t[j]), t[i].is_disjoint(&t[j])));
        if let Some(g) = r {
            ensure!(cx, K::Model, g == (sub, sup, dis), "(is_subset, is_superset, is_disjoint) of sets with {} and {n} elements is {g:?}, expected {:?}", self.m[i].len(), (sub, sup, dis));
        }
    }
    /// Set both sets to a chosen relation of contents and sizes.
    fn arrange(&mut self, cx: &mut Cx) {
        if cx.cbs && cx.rng.chance(1, 2) {
            return;
        }
        let big = if cx.miri {
            20
        } else {
            *cx.rng.pick(&[0usize, 1, 2, 11, 12, 15, 16, 17, 31, 32, 33, 48, 100, 160, 320, 600])
        };
        let small = match cx.rng.us(6) {
            0 => big,
            1 => big / 16,
            2 => (big / 16).saturating_sub(1),
            3 => big / 16 + 1,
            4 => cx.rng.us(big + 1),
            _ => cx.rng.us(4),
        };
        let dom = (big as u32 + 1) * if cx.rng.chance(1, 2) { 1 } else { 2 };
        let rel = cx.rng.us(6);
        let mut a: Vec<u32> = (0..dom.max(1)).collect();
        for i in (1..a.len()).rev() {
            let j = cx.rng.us(i + 1);
            a.swap(i, j)
        }
        let a: Vec<u32> = a.into_iter().take(big).collect();
        let b: Vec<u32> = match rel {
            // subset of a
            0 | 1 => a.iter().copied().take(small).collect(),
            // subset plus one stranger
            2 => a.iter().copied().take(small.saturating_sub(1)).chain([dom + cx.rng.u32() % 3]).collect(),
            // disjoint: above, below is impossible, interleaved by parity
            3 => (0..small as u32).map(|x| dom + x).collect(),
            4 => a.iter().copied().take(small).map(|x| x.wrapping_mul(2) + 1).collect(),
            _ => (0..small).map(|_| cx.rng.u32() % (dom + 3)).collect(),
        };
        let a: Vec<u32> = if rel == 4 { a.iter().map(|x| x * 2).collect() } else { a };
        let off = if cx.rng.chance(1, 3) { dom } else { 0 };
        self.drop2(cx);
        for (i, v) in [(0usize, &a), (1, &b)] {
            let mut s: S<A> = S::new();
            let mut m = M::new();
            for x in v {
                let x = norm::<A>(*x + if i == 0 { off * (rel == 3) as u32 * 2 } else { 0 });
                let k = A::mk(x);
                let id = k.uid();
                let r = cx.plainly("BTreeSet.try_insert(arrange)", m.len() as u64, x as u64, || s.try_insert(k));
                ensure!(cx, K::ErrSpur, r.is_ok(), "try_insert failed although nothing failed");
                if r == Ok(true) {
                    m.insert(x, id);
                }
            }
            ensure!(cx, K::Model, s.len() == m.len(), "after insertions len() is {} expected {}", s.len(), m.len());
            self.t[i] = s;
            self.m[i] = m;
        }
        if cx.rng.chance(1, 2) {
            self.t.swap(0, 1);
            self.m.swap(0, 1);
        }
        cx.top("largest set", big as u64);
    }
}
fn algebra(a: &M, b: &M, var: usize) -> Vec<u32> {
    let mut v: Vec<u32> = match var {
        0 => a.keys().chain(b.keys().filter(|k| !a.contains_key(k))).copied().collect(),
        1 => a.keys().filter(|k| b.contains_key(k)).copied().collect(),
        2 => a.keys().filter(|k| !b.contains_key(k)).copied().collect(),
        _ => a.keys().filter(|k| !b.contains_key(k)).chain(b.keys().filter(|k| !a.contains_key(k))).copied().collect(),
    };
    v.sort_unstable();
    v
}
/// Drive a set-algebra iterator (every step in a no-allocation scope when asked for).
fn go<'a, A: KeyE, I: Iterator<Item = &'a A> + Clone + std::fmt::Debug>(cx: &mut Cx, name: &'static str, mk: impl FnOnce() -> I, want: &[u32]) {
    let n = want.len();
    let mut it = cx.free(name, n as u64, 0, mk);
    let at = cx.rng.us(n + 2);
    let mut done = 0;
    loop {
        let left = n - done;
        let h = it.size_hint();
        ensure!(cx, K::Model, h.0 <= left && h.1.map_or(true, |u| u >= left), "{name}: size_hint is {h:?} with {left} elements to come");
        if done == at {
            if n <= 40 {
                // no format is promised, but looking must not disturb anything
                let _ = format!("{it:?}").len();
            }
            let mut c = it.clone();
            let (mut d, mut bad) = (done, None);
            cx.free("clone of a set iterator", left as u64, 0, || {
                while let Some(a) = c.next() {
                    let v = one(a).0;
                    if d >= n || v != want[d] {
                        bad = Some((d, v));
                        break;
                    }
                    d += 1;
                }
            });
            if cx.rng.chance(1, 2) {
                let rest: Vec<(u32, u32)> = want[done..].iter().map(|&k| (k, 0)).collect();
                crate::fin::forward(cx, it.clone(), &rest, name, &mut |a| (one(a).0, 0), crate::fin::key2);
            }
            ensure!(cx, K::Model, bad.is_none() && d == n, "a clone of {name} taken after {done} elements goes wrong at {d} ({bad:?}), expected {want:?}");
        }
        let g = cx.free(name, left as u64, 1, || it.next()).map(|a| one(a).0);
        cx.poll(name);
        if done == n {
            ensure!(cx, K::Model, g.is_none(), "{name}: yields {g:?} after all {n} elements");
            let again = cx.free(name, 0, 2, || it.next().is_none());
            ensure!(cx, K::Model, again, "{name}: yields again after the end");
            return;
        }
        ensure!(cx, K::Model, g == Some(want[done]), "{name}: element {done} is {g:?}, expected {}", want[done]);
        done += 1;
    }
}
fn both_ends<I: DoubleEndedIterator + Clone + std::fmt::Debug>(cx: &mut Cx, mut it: I, exp: &[(u32, u32)], exact: bool, what: &'static str, read: impl Fn(I::Item) -> (u32, u32))
where
    I::Item: Ord,
{
    let fin = if cx.rng.chance(1, 2) { cx.rng.us(exp.len() + 1) } else { usize::MAX };
    let policy = cx.rng.us(4);
    let at = cx.rng.us(exp.len() + 1);
    let (mut lo, mut hi) = (0, exp.len());
    for i in 0.. {
        let h = it.size_hint();
        let left = hi - lo;
        ensure!(cx, K::Model, if exact { h == (left, Some(left)) } else { h.0 <= left && h.1.map_or(true, |u| u >= left) }, "{what}: size_hint is {h:?} with {left} left");
        if i == at {
            if left <= 40 {
                let _ = format!("{it:?}").len();
            }
            let c: Vec<(u32, u32)> = it.clone().map(&read).collect();
            ensure!(cx, K::Model, c == exp[lo..hi], "a clone of {what} yields other elements than the rest");
        }
        if i == fin {
            crate::fin::ends(cx, it, &exp[lo..hi], what, &mut |x| read(x), crate::fin::key2);
            cx.poll(what);
            return;
        }
        let f = match policy {
            0 => true,
            1 => false,
            2 => i % 2 == 0,
            _ => cx.rng.chance(1, 2),
        };
        let g = if f { it.next() } else { it.next_back() }.map(&read);
        cx.poll(what);
        if lo == hi {
            ensure!(cx, K::Model, g.is_none(), "{what}: yields {g:?} after the end");
            break;
        }
        let w = if f {
            lo += 1;
            exp[lo - 1]
        } else {
            hi -= 1;
            exp[hi]
        };
        ensure!(cx, K::Model, g == Some(w), "{what}: step {i} from the {} yields {g:?}, expected {w:?}", if f { "front" } else { "back" });
    }
    ensure!(cx, K::Model, it.next().is_none() && it.next_back().is_none(), "{what}: yields again after the end");
}

pub fn history<A: KeyE>(cx: &mut Cx, w: &[u32; 11]) {
    cx.cnt(A::NAME, 0, 1);
    let dom = *cx.rng.pick(&[6u32, 20, 60, 200, 2000]);
    let mk = |cx: &mut Cx| cx.free("BTreeSet.new", 0, 0, || S::<A>::new());
    let t = [mk(cx), mk(cx)];
    let mut p = P { t, m: [M::new(), M::new()], dom, cur: 0 };
    p.arrange(cx);
    let n = if cx.miri { 10 } else { 16 + cx.rng.us(40) };
    for _ in 0..n {
        let i = cx.rng.us(2);
        match cx.rng.weighted(w) {
            0 => {
                let x = p.probe(cx);
                let v = cx.rng.us(2);
                p.add(cx, i, x, v)
            }
            1 => {
                let x = p.probe(cx);
                p.take(cx, i, x)
            }
            2 => {
                let x = p.probe(cx);
                p.lookup(cx, i, x)
            }
            3 => p.iterate(cx, i),
            4 => p.range(cx, i),
            5 => {
                let x = p.probe(cx);
                p.split(cx, x);
                if cx.rng.chance(1, 2) {
                    p.append(cx)
                }
            }
            6 => p.append(cx),
            7 => p.make(cx),
            8 => p.algebra(cx),
            9 => p.predicates(cx),
            _ => match cx.rng.us(3) {
                0 => p.consume(cx, i),
                _ => p.arrange(cx),
            },
        }
    }
    p.drop2(cx);
    p.t.swap(0, 1);
    p.m.swap(0, 1);
    p.drop2(cx);
}
