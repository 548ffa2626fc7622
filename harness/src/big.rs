//! Large collections of plain values, compared with the std types: sizes around and above 2^16.
use crate::cx::*;
use crate::mon::Fault;
use fallible_collections::vec::FallibleVec;
use fallible_collections::{TryClone, TryCollect, TryReserveError, TryVec};
use std::convert::TryFrom;
use std::fmt::Debug;

type E = TryReserveError;
trait P: Copy + PartialEq + Debug + TryClone + 'static {
    fn mk(i: u64) -> Self;
}
macro_rules! p { ($($t:ty),*) => { $(impl P for $t { fn mk(i: u64) -> $t { (i ^ (i >> 9) ^ (i >> 17)) as $t } })* } }
p!(u8, u16, u32, u64);
#[derive(Clone, Copy, PartialEq, Debug)]
struct W4([u64; 4]);
impl TryClone for W4 {
    fn try_clone(&self) -> Result<W4, E> {
        Ok(*self)
    }
}
impl P for W4 {
    fn mk(i: u64) -> W4 {
        W4([i, !i, i << 7, i.wrapping_mul(3)])
    }
}
fn size(cx: &mut Cx) -> usize {
    if cx.miri {
        return cx.rng.us(12);
    }
    match cx.rng.us(6) {
        0 => 65_530 + cx.rng.us(12),
        1 => 4_090 + cx.rng.us(12),
        2 => 32_760 + cx.rng.us(12),
        3 => 255 + cx.rng.us(4),
        4 => 66_000 + cx.rng.us(100_000),
        _ => 1 + cx.rng.us(20_000),
    }
}
/// The first position at which two slices differ, with both values.
fn diff<T: P>(a: &[T], b: &[T]) -> String {
    match a.iter().zip(b).position(|(x, y)| x != y) {
        Some(i) => format!("position {i} holds {:?}, expected {:?}", a[i], b[i]),
        None => format!("{} elements, expected {}", a.len(), b.len()),
    }
}
/// One operation, first with a refused allocation when asked to.
fn op<T: P>(cx: &mut Cx, name: &'static str, n: u64, v: &mut Vec<T>, m: &[T], f: &mut dyn FnMut(&mut Vec<T>) -> Result<(), E>) {
    if cx.faults > 0 && cx.rng.chance(cx.faults as u64 / 2, 100) {
        let fault = if cx.rng.chance(1, 2) { Fault::From(0) } else { Fault::Nth(0) };
        let o = cx.run(name, n, v.len() as u64, Plan { fault, cb: None }, || f(v));
        match o.r {
            Res::Val(Ok(())) => {
                soft!(cx, K::Model, o.m.inj == 0, "{name} returned Ok although its only allocation was refused");
                return;
            }
            Res::Val(Err(_)) => {
                ensure!(cx, K::ErrSpur, o.faulted(), "{name} returned Err although nothing failed");
                ensure!(cx, K::Atom, v[..] == m[..], "after a failed {name}: {}", diff(v, m));
            }
            Res::Panic(s) => cx.fail(K::Panic, &format!("{name} panicked when memory ran out: {s}")),
            Res::Injected => {}
        }
    }
    let o = cx.run(name, n, v.len() as u64, CLEAN, || f(v));
    match o.r {
        Res::Val(Ok(())) => {}
        Res::Val(Err(_)) => cx.fail(K::ErrSpur, &format!("{name} of {n} elements returned Err although nothing failed")),
        Res::Panic(s) => cx.fail(K::Panic, &format!("{name} panicked: {s}")),
        Res::Injected => {}
    }
}
fn get<T>(cx: &Cx, name: &str, r: Res<Result<T, E>>) -> T {
    match r {
        Res::Val(Ok(v)) => v,
        Res::Val(Err(_)) => cx.fail(K::ErrSpur, &format!("{name} returned Err although nothing failed")),
        Res::Panic(s) => cx.fail(K::Panic, &format!("{name} panicked: {s}")),
        Res::Injected => cx.fail(K::Panic, "?"),
    }
}
/// Which request to refuse next, if any.
fn refuse(cx: &mut Cx, far: usize) -> Plan {
    if cx.faults == 0 || !cx.rng.chance(cx.faults as u64 / 2, 100) {
        return CLEAN;
    }
    let fault = match cx.rng.us(4) {
        0 => Fault::From(0),
        1 => Fault::Nth(0),
        2 => Fault::From(cx.rng.us(far) as u32),
        _ => Fault::Nth(cx.rng.us(far) as u32),
    };
    Plan { fault, cb: None }
}
/// One operation giving a result, first with a refused allocation when asked to.
fn fresh<R>(cx: &mut Cx, name: &'static str, a: u64, b: u64, far: usize, mut f: impl FnMut() -> Result<R, E>) -> R {
    let plan = refuse(cx, far);
    if plan.fault != Fault::None {
        let o = cx.run(name, a, b, plan, || f());
        match o.r {
            Res::Val(Ok(r)) => return r,
            Res::Val(Err(_)) => ensure!(cx, K::ErrSpur, o.faulted(), "{name} returned Err although nothing failed"),
            Res::Panic(s) => cx.fail(K::Panic, &format!("{name} panicked when memory ran out: {s}")),
            Res::Injected => {}
        }
        cx.cnt("large operation refused memory", 0, 1);
    }
    let o = cx.run(name, a, b, CLEAN, || f());
    get(cx, name, o.r)
}
/// Many operations in a row, going on where memory ran out. `f(i)` tells whether the i-th gave the wrong result.
fn row(cx: &mut Cx, name: &'static str, n: usize, mut f: impl FnMut(usize) -> Result<bool, E>) -> Option<usize> {
    let mut i = 0;
    let mut tries = 0;
    while i < n {
        let plan = if tries < 4 { refuse(cx, 1 + n / 8) } else { CLEAN };
        tries += 1;
        let o = cx.run(name, n as u64, i as u64, plan, || -> Result<bool, E> {
            while i < n {
                if f(i)? {
                    return Ok(true);
                }
                i += 1;
            }
            Ok(false)
        });
        match o.r {
            Res::Val(Ok(true)) => return Some(i),
            Res::Val(Ok(false)) => {}
            Res::Val(Err(_)) => {
                ensure!(cx, K::ErrSpur, o.faulted(), "{name} returned Err although nothing failed");
                cx.cnt("large operation refused memory", 0, 1);
            }
            Res::Panic(s) => cx.fail(K::Panic, &format!("{name} panicked: {s}")),
            Res::Injected => {}
        }
    }
    None
}
fn vecs<T: P>(cx: &mut Cx) {
    let mut m: Vec<T> = vec![];
    let mut v: Vec<T> = vec![];
    let steps = 3 + cx.rng.us(5);
    let mut salt = 0u64;
    for _ in 0..steps {
        salt += 1_000_003;
        let n = size(cx);
        if m.len() > 600_000 {
            m.truncate(n);
            cx.free("truncate", n as u64, 0, || v.truncate(n));
        }
        let src: Vec<T> = (0..n as u64).map(|i| T::mk(i + salt)).collect();
        let src = if cx.rng.chance(1, 6) { vec![T::mk(0); n] } else { src };
        let x = match cx.rng.us(4) {
            0 => T::mk(0),
            1 => T::mk(u64::MAX),
            _ => T::mk(salt),
        };
        let s = &src[..];
        let before = m.clone();
        let what = cx.rng.us(12);
        match what {
            0 => {
                m.extend_from_slice(s);
                op(cx, "Vec.try_extend_from_slice", n as u64, &mut v, &before, &mut |v| v.try_extend_from_slice(s));
            }
            1 => {
                m.extend_from_slice(s);
                op(cx, "Vec.try_extend_from_slice_no_copy", n as u64, &mut v, &before, &mut |v| v.try_extend_from_slice_no_copy(s));
            }
            2 => {
                m.resize(n, x);
                op(cx, "Vec.try_resize", n as u64, &mut v, &before, &mut |v| v.try_resize(n, x));
            }
            3 => {
                m.resize(n, x);
                op(cx, "Vec.try_resize_no_copy", n as u64, &mut v, &before, &mut |v| v.try_resize_no_copy(n, x));
            }
            4 => {
                let mut i = salt;
                m.resize_with(n, || {
                    i += 1;
                    T::mk(i)
                });
                op(cx, "Vec.try_resize_with", n as u64, &mut v, &before, &mut |v| {
                    let mut i = salt;
                    v.try_resize_with(n, || {
                        i += 1;
                        T::mk(i)
                    })
                });
            }
            5 => {
                m.extend_from_slice(s);
                let mut o: Vec<T> = cx.plainly("source", n as u64, 0, || s.to_vec());
                op(cx, "Vec.try_append", n as u64, &mut v, &before, &mut |v| v.try_append(&mut o));
                ensure!(cx, K::Model, o.is_empty(), "append left {} elements behind", o.len());
                cx.free("drop", 0, 0, move || drop(o));
            }
            6 => {
                let k = cx.rng.us(40);
                let at: Vec<usize> = (0..k).map(|_| cx.rng.us(m.len() + 1)).collect();
                for (j, &i) in at.iter().enumerate() {
                    m.insert(i, T::mk(salt + j as u64));
                    let b = if j == 0 { before.clone() } else { vec![] };
                    let mut f = |v: &mut Vec<T>| FallibleVec::try_insert(v, i, T::mk(salt + j as u64)).map_err(|e| e.1);
                    if j == 0 {
                        op(cx, "Vec.try_insert", i as u64, &mut v, &b, &mut f);
                    } else {
                        let o = cx.run("Vec.try_insert", i as u64, 0, CLEAN, || f(&mut v));
                        get(cx, "Vec.try_insert", o.r);
                    }
                }
            }
            7 => {
                for i in 0..n as u64 {
                    m.push(T::mk(i + salt));
                }
                let v2 = &mut v;
                let o = cx.run("Vec.try_push", n as u64, 0, CLEAN, || -> Result<(), E> {
                    for i in 0..n as u64 {
                        if i % 2 == 0 {
                            v2.try_push(T::mk(i + salt))?
                        } else {
                            v2.try_push_give_back(T::mk(i + salt)).map_err(|e| e.1)?
                        }
                    }
                    Ok(())
                });
                get(cx, "Vec.try_push", o.r);
            }
            8 => {
                // through TryVec and back
                let o = cx.run("TryVec::try_from", n as u64, 0, CLEAN, || -> Result<(Vec<T>, TryVec<T>), E> {
                    let mut t: TryVec<T> = TryVec::from(std::mem::take(&mut v));
                    t.extend_from_slice(s)?;
                    let mut u: TryVec<T> = TryVec::try_from(s)?;
                    let c = t.try_clone()?;
                    t.append(&mut u)?;
                    u.append(&mut t)?;
                    let mut w: Vec<T> = Vec::try_with_capacity(u.len())?;
                    let mut it = u.iter();
                    while let Some(x) = it.next() {
                        w.try_push(*x)?
                    }
                    drop(u);
                    Ok((w, c))
                });
                let (w, c) = get(cx, "TryVec::try_from", o.r);
                m.extend_from_slice(s);
                ensure!(cx, K::Clone, c[..] == m[..], "TryVec.try_clone: {}", diff(&c, &m));
                ensure!(cx, K::Model, c == m && c == &m[..], "a TryVec does not equal a Vec of the same {} elements", m.len());
                m.extend_from_slice(s);
                v = w;
                cx.free("drop", 0, 0, move || drop(c));
            }
            9 => {
                let k = 1 + cx.rng.us(5);
                let c = fresh(cx, "TryVec.concat", n as u64, k as u64, 8, || -> Result<TryVec<T>, E> {
                    let mut t: TryVec<TryVec<T>> = TryVec::new();
                    for j in 0..k {
                        t.push(TryVec::try_from(&s[..n / (j + 1)])?)?;
                    }
                    t.concat()
                });
                let w: Vec<T> = (0..k).flat_map(|j| s[..n / (j + 1)].iter().copied()).collect();
                ensure!(cx, K::Model, c[..] == w[..], "concat: {}", diff(&c, &w));
                cx.free("drop", 0, 0, move || drop(c));
            }
            10 => {
                let c = fresh(cx, "try_collect", n as u64, 0, 8, || -> Result<Vec<T>, E> { s.iter().copied().filter(|x| *x != T::mk(7)).try_collect() });
                let w: Vec<T> = s.iter().copied().filter(|x| *x != T::mk(7)).collect();
                ensure!(cx, K::Model, c == w, "try_collect: {}", diff(&c, &w));
                cx.free("drop", 0, 0, move || drop(c));
                #[cfg(feature = "unstable")]
                {
                    let mac = cx.rng.chance(1, 2);
                    let c = fresh(cx, "try_from_elem/try_vec!", n as u64, 0, 2, || if mac { fallible_collections::try_vec![x; n] } else { fallible_collections::vec::try_from_elem(x, n) });
                    ensure!(cx, K::Model, c == vec![x; n], "try_from_elem: {}", diff(&c, &vec![x; n]));
                    cx.free("drop", 0, 0, move || drop(c));
                }
            }
            _ => {
                let mut c = fresh(cx, "Vec.try_clone", v.len() as u64, 0, 2, || TryClone::try_clone(&v));
                ensure!(cx, K::Clone, c == m, "Vec.try_clone: {}", diff(&c, &m));
                if let Some(l) = c.last_mut() {
                    *l = T::mk(99);
                    let f = c.len() / 2;
                    c[f] = T::mk(98);
                }
                ensure!(cx, K::Clone, v == m, "changing a copy changed the original: {}", diff(&v, &m));
                cx.free("drop", 0, 0, move || drop(c));
            }
        }
        ensure!(cx, K::Model, v == m, "operation {what} with {n} elements: {}", diff(&v, &m));
        cx.top("largest vector of plain values", m.len() as u64);
    }
    cx.free("drop", 0, 0, move || drop(v));
}

/// Room that was promised: no request and no move while it is filled.
fn room<T: P>(cx: &mut Cx) {
    let (k, n) = (size(cx), size(cx));
    let k = if cx.rng.chance(1, 2) { 0 } else { k };
    let src: Vec<T> = (0..n as u64).map(T::mk).collect();
    let fresh = k == 0 && cx.rng.chance(1, 2);
    let o = cx.run("room for many", k as u64, n as u64, CLEAN, || -> Result<(TryVec<T>, Vec<T>, Vec<T>), E> {
        if fresh {
            return Ok((TryVec::with_capacity(n)?, FallibleVec::try_with_capacity(n)?, Vec::new()));
        }
        let mut t: TryVec<T> = TryVec::new();
        let mut v: Vec<T> = Vec::new();
        for i in 0..k as u64 {
            t.push(T::mk(i))?;
            v.try_push(T::mk(i))?;
        }
        t.reserve(n)?;
        FallibleVec::try_reserve(&mut v, n)?;
        Ok((t, v, Vec::new()))
    });
    let (mut t, mut v, mut other) = get(cx, "reserve", o.r);
    ensure!(cx, K::Model, t.len() == k && v.len() == k, "reserving changed the length");
    soft!(cx, K::Cap, v.capacity() - k >= n, "try_reserve({n}) at length {k} gave a capacity of {}", v.capacity());
    let (pt, pv) = (t.as_ptr(), v.as_ptr());
    other.extend_from_slice(&src[..n.min(100)]);
    let parts = 1 + cx.rng.us(6);
    let mut done = 0;
    for j in 0..parts {
        let c = if j + 1 == parts { n - done } else { cx.rng.us(n - done + 1) };
        let s = &src[done..done + c];
        let how = cx.rng.us(6);
        let x = T::mk(j as u64);
        let l = v.len();
        let o = cx.run("filling the room", c as u64, how as u64, CLEAN, || -> Result<(), E> {
            match how {
                0 => {
                    t.extend_from_slice(s)?;
                    v.try_extend_from_slice(s)
                }
                1 => {
                    for e in s {
                        t.push(*e)?;
                        v.try_push(*e)?;
                    }
                    Ok(())
                }
                2 => {
                    t.reserve(c)?;
                    v.try_reserve(c).map_err(E::from)?;
                    t.resize_with(l + c, || x)?;
                    v.try_resize_with(l + c, || x)
                }
                3 => {
                    t.extend_from_slice(s)?;
                    v.try_resize_no_copy(l + c, x)
                }
                4 => {
                    t.extend_from_slice(s)?;
                    v.try_resize(l + c, x)
                }
                _ => {
                    t.extend_from_slice(s)?;
                    v.try_extend_from_slice_no_copy(s)
                }
            }
        });
        soft!(cx, K::Cap, o.m.att == 0, "adding {c} elements (way {how}) to room for {} made {} allocation requests", n - done, o.m.att);
        get(cx, "filling the room", o.r);
        done += c;
        ensure!(cx, K::Model, t.len() == k + done && v.len() == k + done, "wrong length after filling");
        soft!(cx, K::Cap, t.as_ptr() == pt && v.as_ptr() == pv, "the buffer moved while {c} elements were added (way {how}) to room for {n}");
    }
    cx.cnt("large rooms filled", 0, 1);
    drop(other);
    cx.free("drop", 0, 0, move || drop((t, v)));
}
#[cfg(feature = "hashmap")]
fn hashroom(cx: &mut Cx) {
    use fallible_collections::TryHashMap;
    let n = size(cx);
    let o = cx.run("TryHashMap::with_capacity", n as u64, 0, CLEAN, || TryHashMap::<u32, u32>::with_capacity(n));
    let mut t = get(cx, "TryHashMap::with_capacity", o.r);
    let mul = *cx.rng.pick(&[1u32, 64, 0x9E3779B1]);
    let o = cx.run("filling the room", n as u64, 9, CLEAN, || -> Result<(), E> {
        for i in 0..n as u32 {
            t.insert(i.wrapping_mul(mul), i)?;
        }
        Ok(())
    });
    soft!(cx, K::Cap, o.m.att == 0, "{n} insertions into with_capacity({n}) made {} allocation requests", o.m.att);
    get(cx, "filling the room", o.r);
    cx.cnt("large rooms filled", 0, 1);
    cx.free("drop", 0, 0, move || drop(t));
}
#[cfg(feature = "hashmap")]
fn hash(cx: &mut Cx) {
    use fallible_collections::TryHashMap;
    use std::collections::HashMap;
    let mut m: HashMap<u32, u64> = HashMap::new();
    let c0 = if cx.rng.chance(1, 2) { size(cx) } else { 0 };
    let mut t: TryHashMap<u32, u64> = fresh(cx, "TryHashMap::with_capacity", c0 as u64, 0, 2, || if c0 == 0 { Ok(TryHashMap::default()) } else { TryHashMap::with_capacity(c0) });
    for r in 0..2 + cx.rng.us(3) {
        let n = size(cx) as u32;
        let mul = *cx.rng.pick(&[1u32, 1 << 10, 0x9E3779B1, 3]);
        let salt = cx.rng.u32() % 1000;
        let mode = cx.rng.us(3);
        let key = |i: u32| i.wrapping_mul(mul).wrapping_add(salt);
        let want: Vec<Option<u64>> = (0..n).map(|i| if mode == 0 || i % 3 != 0 { m.insert(key(i), i as u64) } else { m.remove(&key(i)) }).collect();
        let bad = row(cx, "TryHashMap insertions", n as usize, |i| {
            let x = key(i as u32);
            let g = if mode == 0 || i % 3 != 0 { t.insert(x, i as u64)? } else { t.remove(&x) };
            Ok(g != want[i])
        });
        ensure!(cx, K::Model, bad.is_none(), "operation {bad:?} of {n} returned a wrong previous value");
        ensure!(cx, K::Model, t.len() == m.len(), "len() is {}, expected {}", t.len(), m.len());
        check(cx, &t, &m, "after insertions");
        if r == 1 || cx.rng.chance(1, 3) {
            let mut c = fresh(cx, "TryHashMap.try_clone", m.len() as u64, 0, 2, || t.try_clone());
            check(cx, &c, &m, "try_clone");
            let k = *m.keys().next().unwrap_or(&1);
            cx.free("TryHashMap.remove", 0, 0, || c.remove(&k));
            ensure!(cx, K::Clone, t.get(&k) == m.get(&k), "removal from a copy changed the original");
            cx.free("drop", 0, 0, move || drop(c));
        }
        cx.top("largest hash map of plain values", m.len() as u64);
    }
    let n = m.len();
    let mut seen = 0;
    let mut ok = true;
    cx.free("TryHashMap.into_iter", n as u64, 0, || {
        for (k, v) in t {
            seen += 1;
            ok &= m.get(&k) == Some(&v);
        }
    });
    ensure!(cx, K::Model, ok && seen == n, "into_iter gave {seen} entries of {n}");
}
#[cfg(feature = "hashmap")]
fn check(cx: &Cx, t: &fallible_collections::TryHashMap<u32, u64>, m: &std::collections::HashMap<u32, u64>, what: &str) {
    let mut n = 0;
    for (k, v) in t.iter() {
        n += 1;
        ensure!(cx, K::Model, m.get(k) == Some(v), "{what}: iter yields {k} -> {v}, expected {:?}", m.get(k));
    }
    ensure!(cx, K::Model, n == m.len(), "{what}: iter yields {n} entries of {}", m.len());
    for (k, v) in m {
        ensure!(cx, K::Model, t.get(k) == Some(v), "{what}: get({k}) is {:?}, expected {v}", t.get(k));
    }
}

#[cfg(feature = "std_io")]
fn io(cx: &mut Cx) {
    use fallible_collections::vec::std_io::TryRead;
    use fallible_collections::try_read_up_to;
    use std::io::{self, Read};
    /// chunks of changing size, now and then an interruption
    struct R<'a> {
        d: &'a [u8],
        at: usize,
        step: usize,
        calls: usize,
        intr: usize,
    }
    impl Read for R<'_> {
        fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
            self.calls += 1;
            if self.intr > 0 && self.calls % self.intr == 0 {
                return Err(io::ErrorKind::Interrupted.into());
            }
            let k = b.len().min(self.d.len() - self.at).min(self.step);
            b[..k].copy_from_slice(&self.d[self.at..self.at + k]);
            self.at += k;
            Ok(k)
        }
    }
    let n = size(cx);
    let data: Vec<u8> = (0..n as u64).map(u8::mk).collect();
    let limit = match cx.rng.us(4) {
        0 => n,
        1 => n + cx.rng.us(70_000),
        _ => cx.rng.us(n + 1),
    };
    let pre = *cx.rng.pick(&[0usize, 0, 1, 31, 5000]);
    let step = *cx.rng.pick(&[usize::MAX, 8192, 4096, 65_536, 1, 1000]);
    let step = if step == 1 && n > 9000 { 17 } else { step };
    let mut r = R { d: &data, at: 0, step, calls: 0, intr: *cx.rng.pick(&[0usize, 2, 3, 7]) };
    let how = cx.rng.us(3);
    let pre = if how == 2 { 0 } else { pre };
    let name = ["try_read_up_to", "try_read_to_end", "read_into_try_vec"][how];
    let mut once = |cx: &mut Cx, plan: Plan| cx.run(name, limit as u64, n as u64, plan, || -> io::Result<(TryVec<u8>, usize)> {
        let mut b: TryVec<u8> = TryVec::new();
        b.extend_from_slice(&[0xEE; 5000][..pre]).map_err(|_| io::Error::from(io::ErrorKind::OutOfMemory))?;
        let k = match how {
            0 => try_read_up_to(&mut r, limit as u64, &mut b)?,
            1 => (&mut r).take(limit as u64).try_read_to_end(&mut b)?,
            _ => {
                b = (&mut r).take(limit as u64).read_into_try_vec()?;
                b.len()
            }
        };
        Ok((b, k))
    });
    let plan = refuse(cx, 2);
    let mut o = once(cx, plan);
    let refused = match &o.r {
        Res::Val(Err(e)) => o.faulted() && e.kind() == io::ErrorKind::OutOfMemory,
        _ => false,
    };
    if refused {
        cx.cnt("large operation refused memory", 0, 1);
        o = once(cx, CLEAN);
    }
    drop(once);
    let w = n.min(limit);
    match o.r {
        Res::Val(Ok((b, k))) => {
            ensure!(cx, K::Model, k == w && r.at == w, "reading {limit} of {n} bytes in steps of {step} returned {k} and consumed {}", r.at);
            ensure!(cx, K::Model, b.len() == pre + w && b[..pre].iter().all(|x| *x == 0xEE) && b[pre..] == data[..w], "reading {limit} of {n} bytes: {}", diff(&b[pre.min(b.len())..], &data[..w]));
            soft!(cx, K::Zero, o.m.att <= 1 + (pre > 0) as u32, "reading {limit} of {n} bytes made {} allocation requests", o.m.att);
            cx.top("largest read", w as u64);
            cx.free("drop", 0, 0, move || drop(b));
        }
        Res::Val(Err(e)) => cx.fail(K::ErrSpur, &format!("reading {limit} of {n} bytes failed: {e}")),
        Res::Panic(s) => cx.fail(K::Panic, &format!("reading panicked: {s}")),
        Res::Injected => {}
    }
}

#[cfg(feature = "unstable")]
mod tree {
    use super::*;
    use fallible_collections::btree::{BTreeMap, BTreeSet};
    use std::collections::{BTreeMap as SM, BTreeSet as SS};
    use std::ops::Bound::*;

    fn keys(cx: &mut Cx) -> Vec<u32> {
        let n = size(cx) as u32;
        let lo = cx.rng.u32() % 300_000;
        let st = *cx.rng.pick(&[1u32, 2, 3, 7]);
        match cx.rng.us(4) {
            0 => (0..n).map(|i| lo + i * st).collect(),
            1 => (0..n).rev().map(|i| lo + i * st).collect(),
            2 => (0..n).map(|i| lo + (i % 64) * 5000 + i / 64).collect(),
            _ => (0..n).map(|_| cx.rng.u32() % 900_000).collect(),
        }
    }
    fn same(cx: &Cx, t: &BTreeMap<u32, u32>, m: &SM<u32, u32>, what: &str) {
        ensure!(cx, K::Model, t.len() == m.len(), "{what}: len() is {}, expected {}", t.len(), m.len());
        let d = t.iter().zip(m.iter()).find(|(a, b)| a != b);
        ensure!(cx, K::Model, d.is_none(), "{what}: differs at {d:?}");
        ensure!(cx, K::Model, t.iter().count() == m.len(), "{what}: iter yields {} entries of {}", t.iter().count(), m.len());
        ensure!(cx, K::Model, t.iter().rev().eq(m.iter().rev()), "{what}: entries differ backwards");
    }
    pub fn maps(cx: &mut Cx) {
        let mut t = [BTreeMap::new(), BTreeMap::new()];
        let mut m = [SM::new(), SM::new()];
        for _ in 0..4 + cx.rng.us(8) {
            let i = cx.rng.us(2);
            let what: &'static str;
            let w = if m[i].len() < 100 || cx.prop == 10 && cx.rng.chance(1, 2) { [10, 4, 0, 0, 0, 0, 0] } else { [3, 4, 6, 5, 3, 4, 2] };
            let w = if m[i].len() > 300_000 { [0, 6, 6, 0, 0, 1, 0] } else { w };
            match cx.rng.weighted(&w) {
                0 => {
                    what = "after insertions";
                    let ks = keys(cx);
                    let salt = cx.rng.u32();
                    let want: Vec<Option<u32>> = ks.iter().map(|k| m[i].insert(*k, k ^ salt)).collect();
                    let t = &mut t[i];
                    let ent = cx.rng.chance(1, 3);
                    let bad = row(cx, "BTreeMap insertions", ks.len(), |j| {
                        let k = ks[j];
                        let old = match ent {
                            false => t.try_insert(k, k ^ salt)?,
                            true => {
                                let mut old = None;
                                *t.try_entry(k)?.and_modify(|v| old = Some(*v)).or_try_insert(0)? = k ^ salt;
                                old
                            }
                        };
                        Ok(old != want[j])
                    });
                    ensure!(cx, K::Model, bad.is_none(), "insertion number {bad:?} returned a wrong previous value");
                }
                1 => {
                    what = "after removals";
                    let ks = if cx.rng.chance(1, 2) {
                        keys(cx)
                    } else {
                        let (s, o) = (1 + cx.rng.us(5), cx.rng.us(5));
                        let c = if cx.rng.chance(1, 2) { m[i].len() } else { cx.rng.us(m[i].len() + 1) };
                        m[i].keys().skip(o).take(c).step_by(s).copied().collect()
                    };
                    let want: Vec<Option<u32>> = ks.iter().map(|k| m[i].remove(k)).collect();
                    let t = &mut t[i];
                    let bad = cx.free("BTreeMap removals", ks.len() as u64, 0, || {
                        for (k, w) in ks.iter().zip(&want) {
                            if t.remove(k) != *w {
                                return Some(*k);
                            }
                        }
                        None
                    });
                    ensure!(cx, K::Model, bad.is_none(), "removal of {bad:?} returned a wrong value");
                }
                2 => {
                    what = "after split_off";
                    let at = *m[i].keys().nth(cx.rng.us(m[i].len())).unwrap() + cx.rng.u32() % 2;
                    let (a, n) = (&mut t[i], m[i].len() as u64);
                    let r = fresh(cx, "BTreeMap.split_off", n, at as u64, 8, || a.split_off(&at));
                    let mr = m[i].split_off(&at);
                    same(cx, &r, &mr, "the right part of split_off");
                    let old = std::mem::replace(&mut t[1 - i], r);
                    cx.free("drop", 0, 0, move || drop(old));
                    m[1 - i] = mr;
                }
                3 => {
                    what = "after append";
                    let (x, y) = t.split_at_mut(1);
                    let (a, b) = if i == 0 { (&mut x[0], &mut y[0]) } else { (&mut y[0], &mut x[0]) };
                    let n = (a.len() + b.len()) as u64;
                    cx.plainly("BTreeMap.append", n, 0, || a.append(b));
                    let mut o = std::mem::take(&mut m[1 - i]);
                    m[i].append(&mut o);
                    ensure!(cx, K::Model, b.is_empty() && b.iter().next().is_none(), "append left entries in its argument");
                }
                4 => {
                    what = "try_clone";
                    let a = &t[i];
                    let c = fresh(cx, "BTreeMap.try_clone", a.len() as u64, 0, 1 + a.len() / 8, || a.try_clone());
                    same(cx, &c, &m[i], what);
                    ensure!(cx, K::Model, c == t[i], "a copy of {} entries does not equal its original", c.len());
                    let old = std::mem::replace(&mut t[1 - i], c);
                    cx.free("drop", 0, 0, move || drop(old));
                    m[1 - i] = m[i].clone();
                }
                5 => {
                    what = "after range_mut";
                    for _ in 0..20 {
                        let mut a = cx.rng.u32() % 1_000_000;
                        let mut b = cx.rng.u32() % 1_000_000;
                        if a > b {
                            std::mem::swap(&mut a, &mut b)
                        }
                        let f = |x: u32, r: &mut crate::rng::Rng| if r.chance(1, 2) { Included(x) } else { Excluded(x) };
                        let (lo, hi) = (f(a, &mut cx.rng), f(b + 1, &mut cx.rng));
                        ensure!(cx, K::Model, t[i].range((lo, hi)).eq(m[i].range((lo, hi))), "range {lo:?}..{hi:?} differs");
                        ensure!(cx, K::Model, t[i].range((lo, hi)).rev().eq(m[i].range((lo, hi)).rev()), "range {lo:?}..{hi:?} differs backwards");
                    }
                    let a = cx.rng.u32() % 1_000_000;
                    for (_, v) in t[i].range_mut(a..) {
                        *v = v.wrapping_add(3)
                    }
                    for (_, v) in m[i].range_mut(a..) {
                        *v = v.wrapping_add(3)
                    }
                }
                _ => {
                    what = "after into_iter and collect";
                    let a = std::mem::replace(&mut t[i], BTreeMap::new());
                    let (f, n) = (cx.rng.us(m[i].len() + 1), a.len() as u64);
                    let mut ok = true;
                    let mut it = m[i].iter();
                    let r = cx.plainly("BTreeMap.into_iter", n, f as u64, || {
                        let mut b = a.into_iter();
                        let mut keep = vec![];
                        for j in 0..f {
                            let (g, w) = if j % 3 == 0 { (b.next_back(), it.next_back()) } else { (b.next(), it.next()) };
                            ok &= g == w.map(|(k, v)| (*k, *v));
                            keep.extend(g);
                        }
                        ok &= b.len() == n as usize - f;
                        keep.extend(b);
                        keep.into_iter().collect::<BTreeMap<u32, u32>>()
                    });
                    ensure!(cx, K::Model, ok, "into_iter: wrong entries or length");
                    t[i] = r;
                }
            }
            same(cx, &t[i], &m[i], what);
            for j in 0..40 {
                let x = if j < 20 { cx.rng.u32() % 1_000_000 } else { m[i].keys().nth(cx.rng.us(m[i].len().min(50_000) + 1)).copied().unwrap_or(0) };
                ensure!(cx, K::Model, t[i].get(&x) == m[i].get(&x), "{what}: get({x}) is {:?}, expected {:?}", t[i].get(&x), m[i].get(&x));
            }
            cx.top("largest map of plain values", m[i].len() as u64);
        }
        cx.free("drop", 0, 0, move || drop(t));
    }
    pub fn sets(cx: &mut Cx) {
        let mut t: Vec<BTreeSet<u32>> = vec![];
        let mut m: Vec<SS<u32>> = vec![];
        for j in 0..2 {
            let mut ks = keys(cx);
            if j == 1 && cx.rng.chance(1, 2) {
                // a size just around a sixteenth of the other, or tiny
                let n = m[0].len();
                let c = *cx.rng.pick(&[n / 16, n / 16 + 1, n / 15, n / 17, 3, 0, n]);
                let o = cx.rng.us(n + 1);
                ks = m[0].iter().skip(o).chain(m[0].iter()).take(c.min(n)).map(|k| if cx.rng.chance(1, 4) { k + 1 } else { *k }).collect();
            }
            m.push(ks.iter().copied().collect());
            let mut s = BTreeSet::new();
            row(cx, "BTreeSet insertions", ks.len(), |j| s.try_insert(ks[j]).map(|_| false));
            t.push(s);
        }
        let sw = cx.rng.us(2);
        let (a, b, x, y) = (&t[sw], &t[1 - sw], &m[sw], &m[1 - sw]);
        ensure!(cx, K::Model, a.iter().eq(x.iter()) && a.len() == x.len(), "a set of {} differs from its model", x.len());
        ensure!(cx, K::Model, a.intersection(b).eq(x.intersection(y)), "intersection of {} and {} differs", x.len(), y.len());
        ensure!(cx, K::Model, a.union(b).eq(x.union(y)), "union of {} and {} differs", x.len(), y.len());
        ensure!(cx, K::Model, a.difference(b).eq(x.difference(y)), "difference of {} and {} differs", x.len(), y.len());
        ensure!(cx, K::Model, a.symmetric_difference(b).eq(x.symmetric_difference(y)), "symmetric difference of {} and {} differs", x.len(), y.len());
        ensure!(cx, K::Model, a.is_subset(b) == x.is_subset(y) && a.is_superset(b) == x.is_superset(y) && a.is_disjoint(b) == x.is_disjoint(y), "subset, superset or disjoint of {} and {} wrong", x.len(), y.len());
        for h in [a.intersection(b).size_hint(), a.difference(b).size_hint(), a.union(b).size_hint(), a.symmetric_difference(b).size_hint()] {
            ensure!(cx, K::Model, h.0 <= x.len() + y.len(), "size_hint {h:?} for sets of {} and {}", x.len(), y.len());
        }
        let r = cx.plainly("& | - ^", x.len() as u64, y.len() as u64, || [a & b, a | b, a - b, a ^ b]);
        let w = [x & y, x | y, x - y, x ^ y];
        for j in 0..4 {
            ensure!(cx, K::Model, r[j].iter().eq(w[j].iter()) && r[j].len() == w[j].len(), "operator {j} of {} and {} differs", x.len(), y.len());
        }
        cx.free("drop", 0, 0, move || drop((t, r)));
    }
}

pub fn run(cx: &mut Cx) {
    let mut ways: Vec<u8> = vec![];
    let p = cx.prop;
    let vec = [1, 2, 3, 4, 5, 7].contains(&p);
    if vec {
        ways.extend([0, 0]);
    }
    if [1, 2, 3, 4, 7, 8].contains(&p) && cfg!(feature = "hashmap") {
        ways.push(1);
    }
    if [1, 2, 9].contains(&p) && cfg!(feature = "std_io") {
        ways.push(2);
    }
    if [1, 2, 3, 4, 7, 10, 11, 12].contains(&p) && cfg!(feature = "unstable") {
        ways.push(3);
    }
    if [3, 13].contains(&p) && cfg!(feature = "unstable") {
        ways.push(4);
    }
    if p == 6 {
        ways.extend([5, 5]);
        if cfg!(feature = "hashmap") {
            ways.push(6);
        }
    }
    if ways.is_empty() {
        return;
    }
    match *cx.rng.pick(&ways) {
        0 => match cx.rng.us(5) {
            0 => vecs::<u8>(cx),
            1 => vecs::<u16>(cx),
            2 => vecs::<u32>(cx),
            3 => vecs::<u64>(cx),
            _ => vecs::<W4>(cx),
        },
        5 => match cx.rng.us(4) {
            0 => room::<u8>(cx),
            1 => room::<u32>(cx),
            2 => room::<u64>(cx),
            _ => room::<W4>(cx),
        },
        #[cfg(feature = "hashmap")]
        6 => hashroom(cx),
        #[cfg(feature = "hashmap")]
        1 => hash(cx),
        #[cfg(feature = "std_io")]
        2 => io(cx),
        #[cfg(feature = "unstable")]
        3 => tree::maps(cx),
        #[cfg(feature = "unstable")]
        4 => tree::sets(cx),
        _ => {}
    }
}
