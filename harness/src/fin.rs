//! Ends an iteration through one of the consuming or skipping adaptors.
use crate::cx::*;
use std::fmt::Debug;

pub fn key4(e: &(u32, u32, u32, u32)) -> (u32, u32) {
    (e.0, e.2)
}
pub fn key2(e: &(u32, u32)) -> (u32, u32) {
    (e.0, 0)
}
/// `rest` is what the iterator still has to give.
pub fn forward<I, T, E>(cx: &mut Cx, mut it: I, rest: &[E], what: &str, read: &mut dyn FnMut(T) -> E, key: fn(&E) -> (u32, u32))
where
    I: Iterator<Item = T>,
    T: Ord,
    E: Copy + PartialEq + Debug,
{
    let n = rest.len();
    let k = if cx.rng.chance(1, 6) { n + cx.rng.us(2) } else { cx.rng.us(n + 1) };
    let op = cx.rng.us(11);
    cx.cnt("iterations ended by an adaptor", 0, 1);
    let eq = |a: Option<E>, b: Option<&E>| a == b.copied();
    match op {
        0 => {
            let g = it.last().map(&mut *read);
            ensure!(cx, K::Model, eq(g, rest.last()), "{what}: last() is {g:?}, expected {:?}", rest.last());
        }
        1 => {
            let g = it.count();
            ensure!(cx, K::Model, g == n, "{what}: count() is {g} with {n} left");
        }
        2 => {
            let g: Vec<E> = it.fold(vec![], |mut v, x| {
                v.push(read(x));
                v
            });
            ensure!(cx, K::Model, g == rest, "{what}: fold sees {g:?}, expected {rest:?}");
        }
        3 => {
            let g = it.min().map(&mut *read);
            ensure!(cx, K::Model, eq(g, rest.iter().min_by_key(|e| key(e))), "{what}: min() is {g:?} among {rest:?}");
        }
        4 => {
            let g = it.max().map(&mut *read);
            ensure!(cx, K::Model, eq(g, rest.iter().max_by_key(|e| key(e))), "{what}: max() is {g:?} among {rest:?}");
        }
        5 => {
            let mut i = 0;
            let g = it
                .find(|_| {
                    i += 1;
                    i > k
                })
                .map(&mut *read);
            ensure!(cx, K::Model, eq(g, rest.get(k)) && i == (k + 1).min(n), "{what}: find gave {g:?} as entry {k} of {rest:?}");
            let g = it.next().map(&mut *read);
            ensure!(cx, K::Model, eq(g, rest.get(k + 1)), "{what}: after find {g:?} as entry {} of {rest:?}", k + 1);
        }
        6 => {
            let s = 1 + cx.rng.us(4);
            let g: Vec<E> = it.skip(k).step_by(s).map(&mut *read).collect();
            let w: Vec<E> = rest.iter().skip(k).step_by(s).copied().collect();
            ensure!(cx, K::Model, g == w, "{what}: skip({k}).step_by({s}) gave {g:?} of {rest:?}");
        }
        7 => {
            let mut i = 0;
            let g = it.position(|x| {
                read(x);
                i += 1;
                i > k
            });
            ensure!(cx, K::Model, g == if k < n { Some(k) } else { None }, "{what}: position gave {g:?}, expected {k} of {n}");
            let h = it.size_hint();
            let left = n.saturating_sub(k + 1);
            ensure!(cx, K::Model, h.0 <= left && h.1.map_or(true, |u| u >= left), "{what}: after position size_hint is {h:?} with {left} left");
        }
        8 => {
            let g = it.nth(k).map(&mut *read);
            ensure!(cx, K::Model, eq(g, rest.get(k)), "{what}: nth({k}) is {g:?} of {rest:?}");
            let g: Vec<E> = if cx.rng.chance(1, 2) {
                it.map(&mut *read).collect()
            } else {
                std::iter::from_fn(|| it.next()).map(&mut *read).collect()
            };
            ensure!(cx, K::Model, g == rest[(k + 1).min(n)..], "{what}: after nth({k}) came {g:?} of {rest:?}");
        }
        9 => {
            let mut g: Vec<E> = it.by_ref().take(k).map(&mut *read).collect();
            ensure!(cx, K::Model, g == rest[..k.min(n)], "{what}: take({k}) gave {g:?} of {rest:?}");
            it.for_each(|x| g.push(read(x)));
            ensure!(cx, K::Model, g == rest, "{what}: take({k}) and for_each gave {g:?} of {rest:?}");
        }
        _ => {
            let mut i = 0;
            let b = it.any(|x| {
                read(x);
                i += 1;
                i > k
            });
            ensure!(cx, K::Model, b == (k < n) && i == (k + 1).min(n), "{what}: any looked at {i} of {n} entries, asked to stop after {}", k + 1);
            let g = it.next().map(&mut *read);
            ensure!(cx, K::Model, eq(g, rest.get(k + 1)), "{what}: after any came {g:?}");
        }
    }
}
pub fn ends<I, T, E>(cx: &mut Cx, mut it: I, rest: &[E], what: &str, read: &mut dyn FnMut(T) -> E, key: fn(&E) -> (u32, u32))
where
    I: DoubleEndedIterator<Item = T>,
    T: Ord,
    E: Copy + PartialEq + Debug,
{
    let n = rest.len();
    let k = if cx.rng.chance(1, 6) { n + cx.rng.us(2) } else { cx.rng.us(n + 1) };
    let eq = |a: Option<E>, b: Option<&E>| a == b.copied();
    match cx.rng.us(8) {
        0 => {
            let mut g: Vec<E> = it.rfold(vec![], |mut v, x| {
                v.push(read(x));
                v
            });
            g.reverse();
            ensure!(cx, K::Model, g == rest, "{what}: rfold sees {g:?} backwards, expected {rest:?}");
        }
        1 => {
            let mut i = 0;
            let g = it
                .rfind(|_| {
                    i += 1;
                    i > k
                })
                .map(&mut *read);
            ensure!(cx, K::Model, eq(g, rest.iter().rev().nth(k)), "{what}: rfind gave {g:?} as entry {k} from the back of {rest:?}");
            let g = it.next_back().map(&mut *read);
            ensure!(cx, K::Model, eq(g, rest.iter().rev().nth(k + 1)), "{what}: after rfind came {g:?}");
        }
        2 => {
            let g = it.nth_back(k).map(&mut *read);
            ensure!(cx, K::Model, eq(g, rest.iter().rev().nth(k)), "{what}: nth_back({k}) is {g:?} of {rest:?}");
            let g: Vec<E> = it.map(&mut *read).collect();
            ensure!(cx, K::Model, g == rest[..n.saturating_sub(k + 1)], "{what}: after nth_back({k}) came {g:?} of {rest:?}");
        }
        3 => {
            let g: Vec<E> = it.rev().skip(k).map(&mut *read).collect();
            let w: Vec<E> = rest.iter().rev().skip(k).copied().collect();
            ensure!(cx, K::Model, g == w, "{what}: rev().skip({k}) gave {g:?} of {rest:?}");
        }
        _ => forward(cx, it, rest, what, read, key),
    }
}
