//! Shape of the trees, seen from outside: comparisons per lookup and live nodes.
use crate::cx::*;
use crate::mon::{self, Fault};
use crate::tok::*;
use fallible_collections::btree::{BTreeMap, BTreeSet};
use fallible_collections::TryClone;
use std::collections::BTreeMap as Std;
use std::ops::Bound;
use std::sync::atomic::Ordering::Relaxed;

struct W {
    t: BTreeMap<CK, u32>,
    m: Std<u32, u32>,
    /// holds a node
    touched: bool,
}
impl W {
    fn new() -> W {
        W { t: BTreeMap::new(), m: Std::new(), touched: false }
    }
}
fn height(n: usize) -> u32 {
    // the largest h with 2 * 5^h - 1 <= n
    let mut h = 0;
    let mut p = 2u64 * 5;
    while p - 1 <= n as u64 {
        h += 1;
        p *= 5;
    }
    h
}
fn blocks() -> i64 {
    mon::LIVE_BLOCKS.load(Relaxed)
}
fn shape(cx: &mut Cx, ws: &[W], base: i64, probes: usize, what: &'static str) {
    if !mon::PLAIN {
        let max: usize = ws.iter().map(|w| w.m.len() / 4 + w.touched as usize).sum();
        let b = blocks() - base;
        let n: usize = ws.iter().map(|w| w.m.len()).sum();
        ensure!(cx, K::Bal, b <= max as i64, "{what}: {b} live nodes for {n} entries in {} maps, at most {max} expected", ws.len());
        let need: usize = ws.iter().map(|w| (w.m.len() + 10) / 11).sum();
        ensure!(cx, K::Model, b >= need as i64, "{what}: {b} live nodes cannot hold {n} entries");
        cx.top("nodes per 1000 entries", if n > 200 { b as u64 * 1000 / n as u64 } else { 0 });
        cx.cnt("node counts compared", 0, 1);
    }
    for w in ws {
        let n = w.m.len();
        ensure!(cx, K::Model, w.t.len() == n, "{what}: len() is {}, expected {n}", w.t.len());
        let lim = 11 * (height(n) as u64 + 1);
        for i in 0..probes {
            if n == 0 && i > 0 {
                break;
            }
            let mut x = match i {
                0 => 0,
                1 => u32::MAX,
                2 => *w.m.keys().next().unwrap(),
                3 => *w.m.keys().next_back().unwrap(),
                _ => cx.rng.u32() % (w.m.keys().next_back().unwrap() + 2),
            };
            if i > 4 && i % 2 == 0 {
                x = *w.m.range(x..).next().or(w.m.iter().next()).unwrap().0;
            }
            let key = CK(x);
            CMPS.with(|c| c.set(0));
            let g = match i % 3 {
                0 => w.t.get(&key).copied(),
                1 => w.t.contains_key(&key).then(|| w.m.get(&x).copied().unwrap_or(0)),
                _ => w.t.get_key_value(&key).map(|e| *e.1),
            };
            let c = CMPS.with(|c| c.get());
            ensure!(cx, K::Model, g == w.m.get(&x).copied(), "{what}: lookup of {x} gives {g:?}");
            ensure!(cx, K::Bal, c <= lim, "{what}: lookup of {x} among {n} entries took {c} comparisons, at most {lim} expected");
            cx.top("comparisons in one lookup", c);
            cx.top("height allowed", height(n) as u64);
            cx.cnt("lookups measured", 0, 1);
        }
    }
}
fn order(cx: &mut Cx, n: usize, lo: u32, dom: u32) -> Vec<u32> {
    let step = (dom / n.max(1) as u32).max(1);
    match cx.rng.us(6) {
        0 => (0..n as u32).map(|i| lo + i * step).collect(),
        1 => (0..n as u32).rev().map(|i| lo + i * step).collect(),
        2 => (0..n as u32).map(|i| lo + if i % 2 == 0 { i } else { 2 * n as u32 - i } * (step / 2).max(1)).collect(),
        3 => {
            // many ascending runs
            let r = 1 + cx.rng.us(9) as u32;
            (0..n as u32).map(|i| lo + (i % r) * (dom / r) + i / r).collect()
        }
        _ => (0..n).map(|_| lo + cx.rng.u32() % dom).collect(),
    }
}
fn same(cx: &Cx, w: &W, what: &str) {
    ensure!(cx, K::Model, w.t.iter().map(|(k, v)| (k.0, *v)).eq(w.m.iter().map(|(k, v)| (*k, *v))), "{what}: contents differ from the model");
}
pub fn run(cx: &mut Cx) {
    let big = if cx.miri {
        60
    } else if cx.rng.chance(1, 12) {
        20_000
    } else if cx.rng.chance(1, 3) {
        1500
    } else {
        250
    };
    let base = blocks();
    let mut ws = vec![W::new(), W::new()];
    let rounds = if cx.miri { 8 } else { 12 + cx.rng.us(25) };
    cx.fpmix(big as u64);
    shape(cx, &ws, base, 1, "new maps");
    for _ in 0..rounds {
        let i = cx.rng.us(ws.len());
        let what: &'static str;
        let full = ws[i].m.len() > 3 * big;
        match cx.rng.weighted(&[if full { 0 } else { 10 }, if full { 20 } else { 9 }, 5, 5, 2, 1, 1, 2, 2]) {
            0 => {
                what = "after insertions";
                let n = 1 + cx.rng.us(big);
                let (dom, lo) = (*cx.rng.pick(&[50u32, 500, 30_000, 1 << 20]), 1 + cx.rng.u32() % 1000);
                let keys = order(cx, n, lo, dom.max(n as u32 * 2));
                let mode = cx.rng.us(3);
                let fault = if cx.rng.chance(1, 4) { Fault::Mask(cx.rng.u64() & cx.rng.u64()) } else { Fault::None };
                let w = &mut ws[i];
                w.touched = true;
                let (t, ks) = (&mut w.t, &keys);
                let mut res: Vec<bool> = Vec::with_capacity(n);
                let o = cx.run("BTreeMap insertions", n as u64, mode as u64, Plan { fault, cb: None }, || match mode {
                    0 => {
                        for k in ks {
                            res.push(t.try_insert(CK(*k), *k ^ 5).is_ok())
                        }
                    }
                    1 => {
                        for k in ks {
                            use fallible_collections::btree::map::Entry::*;
                            res.push(match t.try_entry(CK(*k)) {
                                Ok(Occupied(mut e)) => {
                                    e.insert(*k ^ 5);
                                    true
                                }
                                Ok(Vacant(e)) => e.try_insert(*k ^ 5).is_ok(),
                                Err(_) => false,
                            })
                        }
                    }
                    _ => {
                        for k in ks {
                            res.push(match t.try_entry(CK(*k)) {
                                Ok(e) => match e.or_try_insert(0) {
                                    Ok(v) => {
                                        *v = *k ^ 5;
                                        true
                                    }
                                    Err(_) => false,
                                },
                                Err(_) => false,
                            })
                        }
                    }
                });
                ensure!(cx, K::Panic, matches!(o.r, Res::Val(())), "insertions panicked");
                let failed = res.iter().filter(|x| !**x).count();
                ensure!(cx, K::ErrSpur, failed <= o.m.inj as usize, "{failed} insertions failed, {} allocations did", o.m.inj);
                for (k, ok) in keys.iter().zip(&res) {
                    if *ok {
                        w.m.insert(*k, *k ^ 5);
                    }
                }
            }
            1 => {
                what = "after removals";
                let w = &mut ws[i];
                let n = w.m.len();
                if n == 0 {
                    continue;
                }
                let all: Vec<u32> = w.m.keys().copied().collect();
                let mut pick: Vec<u32> = match cx.rng.us(7) {
                    0 => all.clone(),
                    1 => all.iter().rev().copied().collect(),
                    2 => all.iter().step_by(2).copied().collect(),
                    3 => {
                        let k = cx.rng.us(n);
                        all[k..(k + 1 + cx.rng.us(n)).min(n)].to_vec()
                    }
                    4 => {
                        let keep = 2 + cx.rng.us(40);
                        all.iter().enumerate().filter(|x| x.0 % keep != 0).map(|x| *x.1).collect()
                    }
                    _ => {
                        let c = 1 + cx.rng.below(10);
                        let mut r = cx.rng.clone();
                        all.iter().filter(|_| r.chance(c, 10)).copied().collect()
                    }
                };
                if cx.rng.chance(1, 2) {
                    for j in (1..pick.len()).rev() {
                        let k = cx.rng.us(j + 1);
                        pick.swap(j, k)
                    }
                }
                let (t, p) = (&mut w.t, &pick);
                let entry = cx.rng.chance(1, 3);
                let good = cx.free("BTreeMap removals", pick.len() as u64, n as u64, || {
                    p.iter().all(|k| {
                        if entry {
                            use fallible_collections::btree::map::Entry::*;
                            match t.try_entry(CK(*k)) {
                                Ok(Occupied(e)) => e.remove_entry() == (CK(*k), *k ^ 5),
                                _ => false,
                            }
                        } else {
                            t.remove(&CK(*k)) == Some(*k ^ 5)
                        }
                    })
                });
                ensure!(cx, K::Model, good, "a removal of a key that is there gave something else");
                for k in &pick {
                    w.m.remove(k);
                }
                if w.m.is_empty() && !mon::PLAIN {
                    cx.cnt("maps emptied by removal", 0, 1);
                }
            }
            2 => {
                what = "after split_off";
                let w = &mut ws[i];
                let top = w.m.keys().next_back().copied().unwrap_or(10) + 3;
                let mut x = cx.rng.u32() % top;
                if cx.rng.chance(1, 6) {
                    x = *cx.rng.pick(&[0, 1, top, top - 3]);
                }
                let t = &mut w.t;
                let o = cx.run("BTreeMap.split_off", x as u64, w.m.len() as u64, CLEAN, || t.split_off(&CK(x)));
                match o.r {
                    Res::Val(Ok(t)) => {
                        let m = w.m.split_off(&x);
                        let r = W { t, m, touched: true };
                        same(cx, &w, "split_off: lower part");
                        same(cx, &r, "split_off: upper part");
                        ws.push(r);
                    }
                    Res::Val(Err(_)) => cx.fail(K::ErrSpur, "split_off failed although nothing did"),
                    _ => cx.fail(K::Panic, "split_off panicked"),
                }
            }
            3 => {
                what = "after append";
                if ws.len() < 2 {
                    continue;
                }
                let mut o = ws.swap_remove(i);
                let j = cx.rng.us(ws.len());
                let w = &mut ws[j];
                let (a, b) = (&mut w.t, &mut o.t);
                cx.plainly("BTreeMap.append", w.m.len() as u64, o.m.len() as u64, || a.append(b));
                w.m.append(&mut o.m);
                w.touched |= o.touched;
                same(cx, &w, "append");
                ensure!(cx, K::Model, o.t.is_empty(), "append leaves {} entries behind", o.t.len());
                if cx.rng.chance(1, 2) {
                    ws.push(o);
                } else {
                    cx.free("BTreeMap drop", 0, 0, || drop(o));
                }
            }
            4 => {
                what = "after try_clone";
                let w = &ws[i];
                let t = &w.t;
                let before = blocks();
                let plan = Plan { fault: if cx.rng.chance(1, 3) { Fault::Nth(cx.rng.us(1 + w.m.len() / 8) as u32) } else { Fault::None }, cb: None };
                let o = cx.run("BTreeMap.try_clone", w.m.len() as u64, 0, plan, || t.try_clone());
                let faulted = o.faulted();
                match o.r {
                    Res::Val(Ok(t)) => {
                        let c = W { t, m: w.m.clone(), touched: true };
                        same(cx, &c, "try_clone");
                        let made = blocks() - before;
                        ensure!(cx, K::Bal, made <= c.m.len() as i64 / 4 + 1, "try_clone of {} entries made {made} nodes", c.m.len());
                        ws.push(c);
                    }
                    Res::Val(Err(_)) => {
                        ensure!(cx, K::ErrSpur, faulted, "try_clone failed although nothing did");
                        ensure!(cx, K::Leak, blocks() == before, "a failed try_clone leaves {} nodes", blocks() - before);
                    }
                    _ => cx.fail(K::Panic, "try_clone panicked"),
                }
            }
            5 => {
                what = "after clear";
                let w = &mut ws[i];
                let t = &mut w.t;
                let before = blocks();
                cx.free("BTreeMap.clear", w.m.len() as u64, 0, || t.clear());
                let gone = before - blocks();
                ensure!(cx, K::Bal, mon::PLAIN || gone as usize >= (w.m.len() + 10) / 11, "clear freed {gone} nodes of {} entries", w.m.len());
                w.m.clear();
                w.touched = false;
            }
            6 => {
                what = "after iterating away";
                let w = std::mem::replace(&mut ws[i], W::new());
                let part = cx.rng.us(w.m.len() + 1);
                let t = w.t;
                let n = cx.free("BTreeMap.into_iter", w.m.len() as u64, part as u64, || t.into_iter().take(part).count());
                ensure!(cx, K::Model, n == part, "into_iter yields {n} of {part}");
            }
            7 => {
                what = "after building from an iterator";
                let n = cx.rng.us(big);
                let keys = order(cx, n, 0, 1 << 20);
                let m: Std<u32, u32> = keys.iter().map(|k| (*k, *k ^ 5)).collect();
                let t: BTreeMap<CK, u32> = cx.plainly("BTreeMap.from_iter", n as u64, 0, || keys.iter().map(|k| (CK(*k), *k ^ 5)).collect());
                let w = W { t, m, touched: true };
                same(cx, &w, "from_iter");
                ws.push(w);
            }
            _ => {
                what = "sets built by algebra";
                // operators build their result in bulk
                let (na, nb) = (cx.rng.us(big), cx.rng.us(big));
                let (ka, kb) = (order(cx, na, 0, 1 << 12), order(cx, nb, 0, 1 << 12));
                let before = blocks();
                let op = cx.rng.us(4);
                let c = cx.plainly("BTreeSet operators", na as u64, nb as u64, || {
                    let a: BTreeSet<CK> = ka.iter().map(|k| CK(*k)).collect();
                    let b: BTreeSet<CK> = kb.iter().map(|k| CK(*k)).collect();
                    match op {
                        0 => &a | &b,
                        1 => &a & &b,
                        2 => &a ^ &b,
                        _ => &a - &b,
                    }
                });
                let (n, lim) = (c.len(), 11 * (height(c.len()) as u64 + 1));
                ensure!(cx, K::Bal, blocks() - before <= n as i64 / 4 + 1, "a set of {n} elements made by an operator holds {} nodes", blocks() - before);
                for k in ka.iter().chain(&kb).take(20) {
                    CMPS.with(|c| c.set(0));
                    let has = c.contains(&CK(*k));
                    let cm = CMPS.with(|c| c.get());
                    ensure!(cx, K::Bal, cm <= lim, "membership of {k} in a set of {n} took {cm} comparisons, at most {lim} expected");
                    std::hint::black_box(has);
                }
                let r = c.range((Bound::Excluded(CK(5)), Bound::Unbounded)).count();
                ensure!(cx, K::Model, r <= n, "range of {r} in a set of {n}");
                cx.free("BTreeSet drop", n as u64, 0, || drop(c));
                ensure!(cx, K::Leak, blocks() == before, "{} nodes left of dropped sets", blocks() - before);
            }
        }
        if ws.is_empty() {
            ws.push(W::new());
        }
        while ws.len() > 4 {
            let k = cx.rng.us(ws.len());
            let w = ws.swap_remove(k);
            let before = blocks();
            cx.free("BTreeMap drop", w.m.len() as u64, 0, || drop(w.t));
            ensure!(cx, K::Leak, mon::PLAIN || (before - blocks()) as usize >= (w.m.len() + 10) / 11, "drop of {} entries freed {} nodes", w.m.len(), before - blocks());
        }
        shape(cx, &ws, base, if cx.miri { 6 } else { 24 }, what);
        if cx.rng.chance(1, 4) {
            for w in &ws {
                same(cx, w, what)
            }
        }
    }
    for w in ws {
        cx.free("BTreeMap drop", w.m.len() as u64, 0, || drop(w.t));
    }
}
