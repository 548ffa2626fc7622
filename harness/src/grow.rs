//! Long fills: the number and size of allocation requests over tens of thousands of small additions.
use crate::cx::*;
use crate::tok::*;
use fallible_collections::vec::{FallibleVec, TryCollect};
use fallible_collections::{TryReserveError, TryVec};
use std::io::Write;

type E = TryReserveError;

fn judge(cx: &mut Cx, name: &str, n: usize, sz: u64, m: &crate::mon::Meas) {
    let lg = usize::BITS - n.leading_zeros();
    soft!(cx, K::Cap, m.att <= 2 * lg + 4, "{name}: {n} additions made {} allocation requests", m.att);
    soft!(cx, K::Cap, m.biggest <= 4 * sz * (n as u64 + 4) + 64, "{name}: {n} additions requested {} bytes at once", m.biggest);
    soft!(cx, K::Cap, m.bytes <= 8 * sz * (n as u64 + 8) + 256, "{name}: {n} additions requested {} bytes in total", m.bytes);
    cx.cnt("amortisation judged", 0, 1);
    cx.top("longest fill", n as u64);
}
fn vecs<T: Elem + Copy>(cx: &mut Cx, mut n: usize) {
    let sz = std::mem::size_of::<T>() as u64;
    let how = cx.rng.us(16);
    let name = ["TryVec.push", "Vec.try_push", "TryVec.extend_from_slice", "Vec.try_extend_from_slice", "TryVec.append", "Vec.try_resize", "TryVec.resize_with", "Vec.try_append", "Vec.try_extend_from_slice_no_copy", "Vec.try_insert", "Vec.try_insert", "Vec.try_push_give_back", "Vec.try_resize_no_copy", "Vec.try_resize_with", "TryVec.reserve", "try_collect"][how];
    // starting capacity: none, exact, or something odd
    let c0 = [0usize, 1, 7, 1000][cx.rng.us(4)];
    let step = if cx.rng.chance(1, 3) { 1 + cx.rng.us(3) } else { 1 };
    if how == 6 || how == 13 {
        n = n.min(20_000);
    }
    if how == 10 {
        // insertion at the front moves everything
        n = n.min(3_000);
    }
    let mut c0 = c0;
    if how == 15 {
        c0 = 0;
    }
    let o = cx.run(name, n as u64, c0 as u64, CLEAN, || -> Result<(TryVec<T>, Vec<T>), E> {
        let mut t: TryVec<T> = TryVec::with_capacity(c0)?;
        let mut v: Vec<T> = FallibleVec::try_with_capacity(c0)?;
        let s: [T; 3] = [T::mk(1), T::mk(2), T::mk(3)];
        let mut other: TryVec<T> = TryVec::with_capacity(4)?;
        let mut vother: Vec<T> = FallibleVec::try_with_capacity(4)?;
        for i in 0..n {
            let x = T::mk(i as u32);
            match how {
                0 => t.push(x)?,
                1 => v.try_push(x)?,
                2 => t.extend_from_slice(&s[..step])?,
                3 => v.try_extend_from_slice(&s[..step])?,
                4 => {
                    other.push(x)?;
                    t.append(&mut other)?
                }
                5 => {
                    let l = v.len();
                    v.try_resize(l + step, x)?
                }
                6 => {
                    let l = t.len();
                    t.resize_with(l + 1, || x)?
                }
                7 => {
                    vother.try_push(x)?;
                    v.try_append(&mut vother)?
                }
                8 => v.try_extend_from_slice_no_copy(&s[..step])?,
                9 => {
                    let l = v.len();
                    FallibleVec::try_insert(&mut v, l, x).map_err(|e| e.1)?
                }
                10 => FallibleVec::try_insert(&mut v, i / 2, x).map_err(|e| e.1)?,
                11 => v.try_push_give_back(x).map_err(|e| e.1)?,
                12 => {
                    let l = v.len();
                    v.try_resize_no_copy(l + step, x)?
                }
                13 => {
                    let l = v.len();
                    v.try_resize_with(l + 1, || x)?
                }
                14 => {
                    t.reserve(1)?;
                    t.push(x)?
                }
                _ => {
                    // the size hint says nothing: growth is the collection's own business
                    let mut i = 0u32;
                    v = std::iter::from_fn(|| {
                        i += 1;
                        (i as usize <= n).then(|| T::mk(i))
                    })
                    .try_collect()?;
                    break;
                }
            }
        }
        Ok((t, v))
    });
    let (t, v) = match o.r {
        Res::Val(Ok(r)) => r,
        Res::Val(Err(_)) => cx.fail(K::ErrSpur, &format!("{name}: a long fill failed")),
        Res::Panic(s) => cx.fail(K::Panic, &format!("{name} panicked: {s}")),
        Res::Injected => return,
    };
    let total = n * if matches!(how, 2 | 3 | 5 | 8 | 12) { step } else { 1 };
    ensure!(cx, K::Model, t.len() + v.len() == total, "{name}: {} elements after {total} additions", t.len() + v.len());
    let mut m = o.m;
    m.bytes = m.bytes.saturating_sub((2 * c0 as u64 + 8) * sz);
    m.att = m.att.saturating_sub(4);
    judge(cx, name, total.max(c0), sz, &m);
    cx.free("drop", total as u64, 0, move || drop((t, v)));
}
fn writes(cx: &mut Cx, n: usize) {
    let _ = (n, &cx);
    #[cfg(feature = "std_io")]
    {
        let k = 1 + cx.rng.us(5);
        let o = cx.run("TryVec.write", n as u64, k as u64, CLEAN, || {
            let mut t: TryVec<u8> = TryVec::new();
            for _ in 0..n {
                if t.write(&[7, 7, 7, 7, 7][..k]).ok() != Some(k) {
                    return None;
                }
            }
            Some(t)
        });
        match o.r {
            Res::Val(Some(t)) => {
                ensure!(cx, K::Model, t.len() == n * k, "{n} writes of {k} bytes left {}", t.len());
                judge(cx, "TryVec.write", n * k, 1, &o.m);
                drop(t);
            }
            _ => cx.fail(K::ErrSpur, "a long sequence of writes failed"),
        }
    }
    let _ = Write::flush(&mut std::io::sink());
}
/// A buffer filled by many small reads.
#[cfg(feature = "std_io")]
fn reads(cx: &mut Cx, n: usize) {
    use fallible_collections::{try_read_up_to, TryRead};
    use std::io::Read;
    let k = 1 + cx.rng.us(9);
    let take = cx.rng.chance(1, 2);
    let name = if take { "Take.try_read_to_end" } else { "try_read_up_to" };
    let src = vec![7u8; n * k];
    let mut at = &src[..];
    let o = cx.run(name, n as u64, k as u64, CLEAN, || {
        let mut t: TryVec<u8> = TryVec::new();
        for _ in 0..n {
            let r = if take { at.by_ref().take(k as u64).try_read_to_end(&mut t) } else { try_read_up_to(&mut at, k as u64, &mut t) };
            if r.ok() != Some(k) {
                return None;
            }
        }
        Some(t)
    });
    match o.r {
        Res::Val(Some(t)) => {
            ensure!(cx, K::Model, t[..] == src[..] && at.is_empty(), "{n} reads of {k} bytes left {}", t.len());
            judge(cx, name, n * k, 1, &o.m);
            drop(t);
        }
        _ => cx.fail(K::ErrSpur, "a long sequence of reads failed"),
    }
}
#[cfg(not(feature = "std_io"))]
fn reads(_: &mut Cx, _: usize) {}
#[cfg(feature = "hashmap")]
fn hash(cx: &mut Cx, n: usize) {
    use fallible_collections::TryHashMap;
    let c0 = [0usize, 0, 3, 100][cx.rng.us(4)];
    let mode = cx.rng.us(3);
    let o = cx.run("TryHashMap.insert", n as u64, c0 as u64, CLEAN, || -> Result<TryHashMap<u32, u64>, E> {
        let mut m = if c0 == 0 { TryHashMap::default() } else { TryHashMap::with_capacity(c0)? };
        for i in 0..n as u32 {
            m.insert(i, i as u64)?;
            // churn: removals leave marks behind that must not make the table grow for ever
            if mode == 1 && i % 2 == 1 {
                m.remove(&(i / 2));
            }
            if mode == 2 && i >= 50 {
                m.remove(&(i - 50));
            }
        }
        Ok(m)
    });
    match o.r {
        Res::Val(Ok(m)) => {
            let want = match mode {
                0 => n,
                1 => n - n / 2,
                _ => n.min(50),
            };
            ensure!(cx, K::Model, m.len() == want, "{} entries, expected {want}", m.len());
            // at most one allocation per doubling; churn may rehash in place but stay small
            let lg = usize::BITS - n.leading_zeros();
            if mode == 0 {
                soft!(cx, K::Cap, o.m.att <= 2 * lg + 4, "{n} insertions made {} allocation requests", o.m.att);
                soft!(cx, K::Cap, o.m.biggest <= 17 * 5 * (n as u64 + c0 as u64 + 8), "{n} insertions requested {} bytes at once", o.m.biggest);
            } else if mode == 2 {
                soft!(cx, K::Cap, o.m.biggest <= 17 * 1024, "{n} insertions with never more than 51 entries requested {} bytes at once", o.m.biggest);
            }
            cx.cnt("amortisation judged", 0, 1);
            cx.free("drop", n as u64, 0, move || drop(m));
        }
        Res::Val(Err(_)) => cx.fail(K::ErrSpur, "a long sequence of insertions failed"),
        Res::Panic(s) => cx.fail(K::Panic, &format!("insert panicked: {s}")),
        Res::Injected => {}
    }
}
pub fn run(cx: &mut Cx) {
    let n = if cx.miri { 40 } else { *cx.rng.pick(&[300usize, 2_000, 9_000, 17_000, 40_000, 70_000, 140_000]) };
    match cx.rng.us(9) {
        8 => reads(cx, n),
        0 | 1 => vecs::<u8c>(cx, n),
        2 | 3 => vecs::<u64c>(cx, n),
        4 => vecs::<C3>(cx, n),
        5 => writes(cx, n),
        #[cfg(feature = "hashmap")]
        6 | 7 => hash(cx, n / 2),
        _ => vecs::<CA128>(cx, n.min(9000)),
    }
}
#[allow(non_camel_case_types)]
type u8c = u8;
#[allow(non_camel_case_types)]
type u64c = u64;
