//! TryHashMap with keys whose equality and hash follow no rule (and sometimes panic).
use crate::cx::*;
use crate::mon::Fault;
use crate::tok::*;
use fallible_collections::{TryClone, TryHashMap};

type M = TryHashMap<Tok, Tok>;

fn plan(cx: &mut Cx, alloc: bool) -> Plan {
    let mut p = CLEAN;
    if cx.rng.chance(1, 5) {
        let k = [Cb::Cmp, Cb::Hash, Cb::Drop, Cb::TryClone][cx.rng.us(4)];
        p.cb = Some((k, cx.rng.us(20) as u32, Act::Panic));
    }
    if alloc && cx.rng.chance(1, 6) {
        p.fault = Fault::Nth(cx.rng.us(3) as u32);
    }
    p
}
fn go<R>(cx: &mut Cx, name: &'static str, n: usize, alloc: bool, f: impl FnOnce() -> R) -> Option<R> {
    let p = plan(cx, alloc);
    match cx.run(name, n as u64, 0, p, f).r {
        Res::Val(v) => Some(v),
        _ => {
            cx.leak_ok = true;
            cx.cnt("panicked", 0, 1);
            None
        }
    }
}
fn agree(cx: &mut Cx, ts: [&M; 2], what: &str) {
    let mut seen = Vec::new();
    let mut all = 0;
    for t in ts {
        let n = t.len();
        let mut i = 0;
        for (k, v) in t.iter().take(n + 1) {
            k.check();
            v.check();
            seen.push(k.uid());
            seen.push(v.uid());
            i += 1;
        }
        cx.poll(what);
        ensure!(cx, K::Cb, i == n, "{what}: len() is {n} but iteration yields {}{i}", if i > n { "at least " } else { "" });
        all += n;
    }
    seen.sort_unstable();
    seen.dedup();
    ensure!(cx, K::Cb, seen.len() == 2 * all, "{what}: an element is in the maps twice");
    if !cx.leak_ok {
        let l = alive();
        ensure!(cx, K::Cb, l == 2 * all as i64, "{what}: {l} elements alive but {} in the maps", 2 * all);
    }
    cx.cnt("agrees with itself", 0, 1);
}
pub fn run(cx: &mut Cx) {
    crate::hashw::warm();
    let (mut t, mut t2): (M, M) = (M::default(), M::default());
    let dom = *cx.rng.pick(&[4u32, 30, 300, 3000]);
    let n = [30, 120, 400][cx.rng.us(3)] / if cx.miri { 4 } else { 1 };
    for _ in 0..n {
        let m = [1, 1, 2, 2, 3, 4, 5, 6, 6, 7, 0][cx.rng.us(11)];
        set_ord(m, cx.rng.u64());
        let (x, y) = (cx.rng.u32() % dom, cx.rng.u32() % dom);
        let l = t.len();
        let q = Tok::mk(x);
        let name;
        match cx.rng.us(20) {
            0..=9 => {
                name = "insert";
                let (k, v) = (Tok::mk(x), Tok::mk(y));
                go(cx, name, l, true, || t.insert(k, v).map(|o| o.map(|v| v.check())).ok());
            }
            10..=13 => {
                name = "remove";
                go(cx, name, l, false, || t.remove(&q).map(|v| v.check()));
            }
            14 | 15 => {
                name = "get";
                go(cx, name, l, false, || t.get(&q).map(|v| v.check()));
            }
            16 => {
                name = "try_clone";
                if let Some(Ok(c)) = go(cx, name, l, true, || t.try_clone()) {
                    let o = cx.run("drop", 0, 0, CLEAN, || drop(std::mem::replace(&mut t2, c)));
                    ensure!(cx, K::Cb, matches!(o.r, Res::Val(())), "dropping panicked");
                }
            }
            17 => {
                name = "into_iter";
                let c = std::mem::take(&mut t2);
                let k = cx.rng.us(c.len() + 2);
                go(cx, name, l, false, move || {
                    for (k, v) in c.into_iter().take(k) {
                        k.check();
                        v.check();
                    }
                });
            }
            18 => {
                name = "with_capacity";
                if l > 2000 {
                    let o = cx.run("drop", 0, 0, CLEAN, || drop(std::mem::take(&mut t)));
                    ensure!(cx, K::Cb, matches!(o.r, Res::Val(())), "dropping panicked");
                }
                if let Some(Ok(c)) = go(cx, name, l, true, || M::with_capacity(x as usize)) {
                    if t2.len() == 0 {
                        t2 = c;
                    }
                }
            }
            _ => {
                name = "swap";
                std::mem::swap(&mut t, &mut t2);
            }
        }
        drop(q);
        agree(cx, [&t, &t2], name);
    }
    set_ord(0, 0);
    let o = cx.run("drop", t.len() as u64, t2.len() as u64, CLEAN, move || {
        drop(t);
        drop(t2);
    });
    ensure!(cx, K::Cb, matches!(o.r, Res::Val(())), "dropping panicked");
}
