//! Comparison and hashing that follow no order at all (and sometimes panic): whatever such user code does, the
//! collections must keep every element exactly once, agree with their own length, and stay usable.
use crate::cx::*;
use crate::mon::{self, Fault};
use crate::tok::*;
use fallible_collections::btree::map::Entry;
use fallible_collections::btree::{BTreeMap as B, BTreeSet as S};
use fallible_collections::TryClone;
use std::ops::Bound::*;

type M = B<Tok, Tok>;

fn bend(cx: &mut Cx) {
    let m = [1, 1, 2, 2, 3, 4, 5, 6, 6, 7, 0][cx.rng.us(11)];
    set_ord(m, cx.rng.u64());
}
fn plan(cx: &mut Cx, alloc: bool) -> Plan {
    let mut p = if cx.rng.chance(1, 5) {
        let k = [Cb::Cmp, Cb::Cmp, Cb::Drop, Cb::TryClone, Cb::Closure][cx.rng.us(5)];
        Plan { fault: Fault::None, cb: Some((k, cx.rng.us(20) as u32, Act::Panic)) }
    } else {
        CLEAN
    };
    if alloc && cx.rng.chance(1, 6) {
        p.fault = Fault::Nth(cx.rng.us(5) as u32);
    }
    p
}
/// Run it; None when it panicked, which inconsistent user code may cause.
fn go<R>(cx: &mut Cx, name: &'static str, n: usize, alloc: bool, f: impl FnOnce() -> R) -> Option<R> {
    let p = plan(cx, alloc);
    let o = cx.run(name, n as u64, 0, p, f);
    match o.r {
        Res::Val(v) => Some(v),
        _ => {
            cx.leak_ok = true;
            cx.cnt("panicked", 0, 1);
            None
        }
    }
}
/// The collection agrees with itself; returns how many elements it holds.
fn agree(cx: &mut Cx, t: &M, lim: usize, seen: &mut Vec<u32>, what: &str) -> usize {
    let n = t.len();
    ensure!(cx, K::Cb, n <= lim, "{what}: len() is {n} although only {lim} entries can exist");
    let at = seen.len();
    let mut i = 0;
    for (k, v) in t.iter().take(n + 1) {
        k.check();
        v.check();
        seen.push(k.uid());
        seen.push(v.uid());
        i += 1;
    }
    cx.poll(what);
    ensure!(cx, K::Cb, i == n, "{what}: len() is {n} but iteration yields {}{i}", if i > n { "at least " } else { "" });
    let mut j = seen.len();
    i = 0;
    for (k, v) in t.iter().rev().take(n + 1) {
        i += 1;
        ensure!(cx, K::Cb, i <= n && seen[j - 2] == k.uid() && seen[j - 1] == v.uid(), "{what}: backward iteration differs from forward iteration");
        j -= 2;
    }
    ensure!(cx, K::Cb, i == n && j == at, "{what}: len() is {n} but backward iteration yields {i}");
    n
}
fn both(cx: &mut Cx, t: &M, t2: &M, lim: usize, what: &str) {
    let mut seen = Vec::new();
    let a = agree(cx, t, lim, &mut seen, what);
    let b = agree(cx, t2, lim, &mut seen, what);
    let n = seen.len();
    seen.sort_unstable();
    seen.dedup();
    ensure!(cx, K::Cb, seen.len() == n, "{what}: an element is in the collections twice");
    if !cx.leak_ok {
        let l = alive();
        ensure!(cx, K::Cb, l == 2 * (a + b) as i64, "{what}: {l} elements alive but {} in the collections", 2 * (a + b));
    }
    cx.cnt("agrees with itself", 0, 1);
}

pub fn maps(cx: &mut Cx) {
    let (mut t, mut t2): (M, M) = (B::new(), B::new());
    let dom = [10, 60, 400, 5000][cx.rng.us(4)] as usize;
    let n = [30, 120, 400][cx.rng.us(3)] / if cx.miri { 4 } else { 1 };
    let mut lim = 0usize;
    // a sound tree to begin with
    if cx.rng.chance(2, 3) {
        for _ in 0..cx.rng.us(if cx.miri { 60 } else { 700 }) {
            let (a, b) = (cx.rng.us(dom) as u32, cx.rng.us(2));
            let r = if b == 0 { &mut t2 } else { &mut t };
            let o = cx.run("sound try_insert", a as u64, 0, CLEAN, || r.try_insert(Tok::mk(a), Tok::mk(a)).is_ok());
            ensure!(cx, K::Panic, matches!(o.r, Res::Val(true)), "a plain insertion failed");
            lim += 1;
        }
    }
    both(cx, &t, &t2, lim, "sound insertions");
    for _ in 0..n {
        bend(cx);
        let x = cx.rng.us(dom) as u32;
        let y = cx.rng.us(dom) as u32;
        let l = t.len();
        let (q, q2) = (Tok::mk(x.min(y)), Tok::mk(x.max(y)));
        let name;
        match cx.rng.us(24) {
            0..=5 => {
                name = "try_insert";
                lim += 1;
                let (k, v) = (Tok::mk(x), Tok::mk(y));
                go(cx, name, l, true, || t.try_insert(k, v).map(|o| o.map(|v| v.check())).ok());
            }
            6..=8 => {
                name = "remove";
                go(cx, name, l, false, || t.remove(&q).map(|v| v.check()));
            }
            9 => {
                name = "get|get_mut|contains_key|get_key_value";
                go(cx, name, l, false, || {
                    t.get(&q).map(|v| v.check());
                    t.get_mut(&q).map(|v| v.set(3));
                    t.get_key_value(&q).map(|v| v.0.check());
                    t.contains_key(&q)
                });
            }
            10..=12 => {
                name = "entry";
                lim += 1;
                let (k, v) = (Tok::mk(x), Tok::mk(y));
                let w = cx.rng.us(6);
                go(cx, name, l, true, || -> Result<(), fallible_collections::TryReserveError> {
                    let e = t.try_entry(k)?;
                    match w {
                        0 => {
                            e.or_try_insert(v)?.check();
                        }
                        1 => {
                            e.and_modify(|v| {
                                cb(Cb::Closure);
                                v.set(9)
                            })
                            .or_try_insert_with(|| {
                                cb(Cb::Closure);
                                v
                            })?
                            .check();
                        }
                        2 => {
                            if let Entry::Occupied(o) = e {
                                let (k, v) = o.remove_entry();
                                k.check();
                                v.check();
                            }
                        }
                        3 => match e {
                            Entry::Occupied(mut o) => {
                                o.insert(v).check();
                                o.get().check();
                            }
                            Entry::Vacant(o) => {
                                o.into_key().check();
                            }
                        },
                        4 => match e {
                            Entry::Occupied(o) => o.remove().check(),
                            Entry::Vacant(o) => o.try_insert(v)?.check(),
                        },
                        _ => {
                            e.key().check();
                        }
                    }
                    Ok(())
                });
            }
            13 | 14 => {
                name = "split_off";
                let r = go(cx, name, l, true, || t.split_off(&q).ok());
                if let Some(Some(r)) = r {
                    let mut s = Vec::new();
                    agree(cx, &r, lim, &mut s, "result of split_off");
                    let old = std::mem::replace(&mut t2, r);
                    match cx.rng.us(3) {
                        0 => {
                            t2 = old;
                            // the part that was split off becomes the map
                        }
                        1 => {
                            let mut old = old;
                            go(cx, "append", l, false, || t2.append(&mut old));
                            let mut s = Vec::new();
                            agree(cx, &old, lim, &mut s, "argument of append");
                            go(cx, "drop", l, false, move || drop(old));
                        }
                        _ => {
                            go(cx, "drop", l, false, move || drop(old));
                        }
                    }
                }
            }
            15 | 16 => {
                name = "append";
                go(cx, name, l, false, || t.append(&mut t2));
            }
            17 | 18 => {
                name = "range|range_mut";
                let w = cx.rng.us(5);
                let k = cx.rng.us(8);
                let m = l + 1;
                let n = go(cx, name, l, false, || {
                    let mut i = 0;
                    let (a, b) = match w {
                        0 => (Included(&q), Excluded(&q2)),
                        1 => (Excluded(&q), Included(&q2)),
                        2 => (Unbounded, Included(&q2)),
                        3 => (Excluded(&q), Unbounded),
                        _ => (Included(&q), Included(&q2)),
                    };
                    if k % 2 == 0 {
                        let mut r = t.range::<Tok, _>((a, b));
                        while let Some((k, v)) = if i % 3 == k % 3 { r.next_back() } else { r.next() } {
                            k.check();
                            v.check();
                            i += 1;
                            if i > m {
                                break;
                            }
                        }
                    } else {
                        let mut r = t.range_mut::<Tok, _>((a, b));
                        while let Some((k, v)) = if i % 3 == k % 3 { r.next_back() } else { r.next() } {
                            k.check();
                            v.check();
                            v.set(5);
                            i += 1;
                            if i > m {
                                break;
                            }
                        }
                    }
                    i
                });
                if let Some(n) = n {
                    ensure!(cx, K::Cb, n <= l, "a range over {l} entries yields {n}");
                }
            }
            19 => {
                name = "try_clone";
                if l < 200 {
                    let r = go(cx, name, l, true, || t.try_clone().ok());
                    if let Some(Some(c)) = r {
                        ensure!(cx, K::Cb, c.len() == l, "copy of {l} entries has {}", c.len());
                        lim += l;
                        let old = std::mem::replace(&mut t2, c);
                        go(cx, "drop", l, false, move || drop(old));
                    }
                }
            }
            20 => {
                name = "into_iter";
                let old = std::mem::replace(&mut t2, B::new());
                let k = cx.rng.us(old.len() + 2);
                let o = old.len();
                let n = go(cx, name, o, false, || {
                    let mut it = old.into_iter();
                    let mut n = 0;
                    for i in 0..k {
                        match if i % 2 == 0 { it.next() } else { it.next_back() } {
                            Some((k, v)) => {
                                k.check();
                                v.check();
                                n += 1;
                            }
                            None => break,
                        }
                    }
                    n
                });
                if let Some(n) = n {
                    ensure!(cx, K::Cb, n == k.min(o), "into_iter over {o} entries yields {n}, {k} asked for");
                }
            }
            21 => {
                name = "eq|cmp";
                go(cx, name, l, false, || (t == t2, t.cmp(&t2)));
            }
            22 => {
                name = "extend";
                let k = cx.rng.us(20);
                lim += k;
                let v: Vec<(Tok, Tok)> = (0..k).map(|i| (Tok::mk(i as u32 * 7 % dom as u32), Tok::mk(1))).collect();
                go(cx, name, l, false, || t.extend(v));
            }
            _ => {
                name = "swap";
                std::mem::swap(&mut t, &mut t2);
            }
        }
        drop((q, q2));
        both(cx, &t, &t2, lim, name);
    }
    // now with a proper order: still usable
    set_ord(0, 0);
    for _ in 0..20 {
        let x = cx.rng.us(dom) as u32;
        let o = cx.run("afterwards: try_insert, remove", x as u64, 0, CLEAN, || {
            let a = t.try_insert(Tok::mk(x), Tok::mk(x)).is_ok();
            let b = t2.remove(&x).map(|v| v.check());
            (a, b.is_some())
        });
        ensure!(cx, K::Cb, matches!(o.r, Res::Val((true, _))), "after inconsistent comparisons a plain insertion failed");
        lim += 1;
        both(cx, &t, &t2, lim, "afterwards");
    }
    let o = cx.run("drop", t.len() as u64, t2.len() as u64, CLEAN, move || {
        drop(t);
        drop(t2.into_iter());
    });
    ensure!(cx, K::Cb, matches!(o.r, Res::Val(())), "dropping panicked");
}

pub fn sets(cx: &mut Cx) {
    let (mut t, mut t2): (S<Tok>, S<Tok>) = (S::new(), S::new());
    let dom = [10, 60, 400][cx.rng.us(3)] as usize;
    let n = [30, 120][cx.rng.us(2)] / if cx.miri { 3 } else { 1 };
    if cx.rng.chance(2, 3) {
        for _ in 0..cx.rng.us(if cx.miri { 40 } else { 500 }) {
            let (a, b) = (cx.rng.us(dom) as u32, cx.rng.us(5));
            let r = if b == 0 { &mut t2 } else { &mut t };
            cx.run("sound try_insert", a as u64, 0, CLEAN, || r.try_insert(Tok::mk(a)).is_ok());
        }
    }
    let check = |cx: &mut Cx, t: &S<Tok>, t2: &S<Tok>, what: &str| {
        let mut seen = Vec::new();
        for t in [t, t2] {
            let n = t.len();
            let mut i = 0;
            for k in t.iter().take(n + 1) {
                k.check();
                seen.push(k.uid());
                i += 1;
            }
            cx.poll(what);
            ensure!(cx, K::Cb, i == n, "{what}: len() is {n} but iteration yields {i}");
            let b = t.iter().rev().take(n + 1).count();
            ensure!(cx, K::Cb, b == n, "{what}: len() is {n} but backward iteration yields {b}");
        }
        let n = seen.len();
        seen.sort_unstable();
        seen.dedup();
        ensure!(cx, K::Cb, seen.len() == n, "{what}: an element is in the sets twice");
        if !cx.leak_ok {
            let l = alive();
            ensure!(cx, K::Cb, l == n as i64, "{what}: {l} elements alive but {n} in the sets");
        }
        cx.cnt("agrees with itself", 0, 1);
    };
    for _ in 0..n {
        bend(cx);
        let x = cx.rng.us(dom) as u32;
        let (l, l2) = (t.len(), t2.len());
        let (q, q2) = (Tok::mk(x), Tok::mk(x + cx.rng.us(dom) as u32));
        let name;
        match cx.rng.us(14) {
            0 | 1 => {
                name = "try_insert";
                let k = Tok::mk(x);
                go(cx, name, l, true, || t.try_insert(k).ok());
            }
            2 | 3 => {
                name = "replace";
                let k = Tok::mk(x);
                go(cx, name, l, true, || t.replace(k).map(|o| o.map(|o| o.check())).ok());
            }
            4 => {
                name = "take|remove";
                go(cx, name, l, false, || {
                    t.take(&q).map(|v| v.check());
                    t.remove(&q2)
                });
            }
            5 => {
                name = "split_off";
                if let Some(Some(r)) = go(cx, name, l, true, || t.try_split_off(&q).ok()) {
                    let old = std::mem::replace(&mut t2, r);
                    go(cx, "drop", l, false, move || drop(old));
                }
            }
            6 => {
                name = "append";
                go(cx, name, l, false, || t.append(&mut t2));
            }
            7..=9 => {
                name = "union|intersection|difference|symmetric_difference";
                let w = cx.rng.us(4);
                let most = l + l2;
                let r = go(cx, name, l, false, || {
                    let mut n = 0;
                    let mut each = |k: &Tok| {
                        k.check();
                        n += 1;
                    };
                    match w {
                        0 => t.union(&t2).take(most + 1).for_each(&mut each),
                        1 => t.intersection(&t2).take(most + 1).for_each(&mut each),
                        2 => t.difference(&t2).take(most + 1).for_each(&mut each),
                        _ => t.symmetric_difference(&t2).take(most + 1).for_each(&mut each),
                    }
                    n
                });
                if let Some(r) = r {
                    ensure!(cx, K::Cb, r <= most, "{name} of {l} and {l2} elements yields {r}");
                }
            }
            10 => {
                name = "is_subset|is_disjoint|eq|cmp";
                go(cx, name, l, false, || (t.is_subset(&t2), t2.is_superset(&t), t.is_disjoint(&t2), t == t2, t.cmp(&t2)));
            }
            11 => {
                name = "collected | & - ^";
                let w = cx.rng.us(4);
                let r = go(cx, name, l, false, || match w {
                    0 => &t | &t2,
                    1 => &t & &t2,
                    2 => &t - &t2,
                    _ => &t ^ &t2,
                });
                if let Some(r) = r {
                    ensure!(cx, K::Cb, r.len() == r.iter().take(l + l2 + 1).count(), "{name}: len() differs from what is yielded");
                    go(cx, "drop", l, false, move || drop(r));
                }
            }
            12 => {
                name = "range";
                let r = go(cx, name, l, false, || t.range::<Tok, _>(&q..=&q2).take(l + 1).map(|k| k.check()).count());
                if let Some(r) = r {
                    ensure!(cx, K::Cb, r <= l, "a range over {l} elements yields {r}");
                }
            }
            _ => {
                name = "swap";
                std::mem::swap(&mut t, &mut t2);
            }
        }
        drop((q, q2));
        check(cx, &t, &t2, name);
    }
    set_ord(0, 0);
    let o = cx.run("drop", t.len() as u64, t2.len() as u64, CLEAN, move || {
        drop(t);
        drop(t2);
    });
    ensure!(cx, K::Cb, matches!(o.r, Res::Val(())), "dropping panicked");
}

pub fn run(cx: &mut Cx) {
    let _ = mon::PLAIN;
    if cx.rng.chance(3, 4) {
        maps(cx)
    } else {
        sets(cx)
    }
}
