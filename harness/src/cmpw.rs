//! Comparison, hashing, printing and the building traits, against std for the same contents.
use crate::cx::*;
use crate::rng::Rng;
use crate::tok::*;
use fallible_collections::TryVec;
use std::cmp::Ordering;
use std::fmt::Debug;
use std::hash::{Hash, Hasher};

/// Records everything it is fed.
#[derive(Default)]
pub struct Rec(Vec<u8>);
impl Hasher for Rec {
    fn write(&mut self, b: &[u8]) {
        self.0.extend_from_slice(b);
        self.0.push(0xEE);
    }
    fn finish(&self) -> u64 {
        self.0.iter().fold(0u64, |a, b| a.wrapping_mul(31).wrapping_add(*b as u64))
    }
}
fn stream<T: Hash>(t: &T) -> Vec<u8> {
    let mut r = Rec::default();
    t.hash(&mut r);
    r.0
}
fn f64s(r: &mut Rng) -> f64 {
    match r.us(9) {
        0 => f64::NAN,
        1 => 0.0,
        2 => -0.0,
        3 => f64::INFINITY,
        4 => f64::NEG_INFINITY,
        5 => f64::from_bits(r.u64()),
        _ => r.us(3) as f64,
    }
}
fn ordn(o: Option<Ordering>) -> i32 {
    o.map_or(9, |x| x as i32)
}

fn tryvecs<T: PartialEq + Debug + Clone>(cx: &mut Cx, name: &'static str, mut mk: impl FnMut(&mut Rng) -> T) {
    let n = if cx.rng.chance(1, 5) { 0 } else { cx.rng.us(20) };
    let a: Vec<T> = (0..n).map(|_| mk(&mut cx.rng)).collect();
    let mut b = a.clone();
    match cx.rng.us(6) {
        0 => b.push(mk(&mut cx.rng)),
        1 => {
            b.pop();
        }
        2 if n > 0 => {
            let i = cx.rng.us(n);
            b[i] = mk(&mut cx.rng)
        }
        3 if n > 1 => {
            let i = cx.rng.us(n - 1);
            b.swap(i, i + 1)
        }
        _ => {}
    }
    let mut big = Vec::with_capacity(b.len() + cx.rng.us(50));
    big.extend_from_slice(&b);
    let want = a == b;
    let (ta, tb) = (TryVec::from(a.clone()), TryVec::from(big));
    let g = cx.plainly(name, a.len() as u64, b.len() as u64, || [ta == tb, !(ta != tb), tb == ta, ta == b, ta == &b[..], !(ta != b), !(ta != &b[..])]);
    ensure!(cx, K::Model, g == [want; 7], "{name}: comparison of {a:?} with {b:?} (TryVec, negated, swapped, Vec, slice, negated Vec, slice) gives {g:?}, expected {want}");
    let (x, y, p, q) = cx.plainly("TryVec Debug", a.len() as u64, 0, || (format!("{ta:?}"), format!("{ta:#?}"), format!("{:?}", ta.iter().collect::<Vec<_>>()), format!("{:5?}", ta)));
    ensure!(cx, K::Model, x == format!("{a:?}") && y == format!("{a:#?}") && p == x && q == format!("{a:5?}"), "Debug of TryVec prints {x} / {y} / {q} for {a:?}");
    cx.cnt("comparisons against std", 0, 7);
}

/// A `TryVec<u8>` against texts, most of them nearly the same.
fn texts(cx: &mut Cx) {
    const CS: [char; 14] = ['a', 'B', 'z', 'Z', '0', ' ', '\0', '\n', '\t', '\u{e9}', '\u{df}', '\u{20ac}', '\u{10348}', '\u{feff}'];
    let n = match cx.rng.us(6) {
        0 => 0,
        1 => 20 + cx.rng.us(if cx.miri { 20 } else { 300 }),
        _ => 1 + cx.rng.us(12),
    };
    let c: Vec<char> = (0..n).map(|_| *cx.rng.pick(&CS)).collect();
    let mut d = c.clone();
    let at = if n == 0 { 0 } else { *cx.rng.pick(&[0, n / 2, n - 1]) };
    match cx.rng.us(9) {
        0 => d.push(*cx.rng.pick(&[' ', '\0', '\n', 'a'])),
        1 => {
            d.pop();
        }
        2 => d.insert(at, *cx.rng.pick(&[' ', '\0', '\u{feff}'])),
        3 if n > 0 => {
            d.remove(at);
        }
        4 if n > 0 => d[at] = if d[at].is_lowercase() { d[at].to_ascii_uppercase() } else { d[at].to_ascii_lowercase() },
        5 if n > 0 => d[at] = char::from_u32(d[at] as u32 ^ 1 << cx.rng.us(8)).unwrap_or('x'),
        6 if n > 1 => d.swap(at.min(n - 2), at.min(n - 2) + 1),
        7 => d = d.into_iter().map(|x| x.to_ascii_uppercase()).collect(),
        _ => {}
    }
    let mut raw: Vec<u8> = c.iter().collect::<String>().into_bytes();
    let mut t: String = d.iter().collect();
    if !raw.is_empty() && cx.rng.chance(1, 4) {
        // bytes that are no text
        let i = cx.rng.us(raw.len());
        raw[i] = *cx.rng.pick(&[0xff, 0x80, 0xc3, 0xed]);
        if cx.rng.chance(1, 2) {
            t = String::from_utf8_lossy(&raw).into_owned();
        }
    }
    let want = raw == t.as_bytes();
    let v = TryVec::from(raw.clone());
    let tb = t.as_bytes().to_vec();
    let tv = TryVec::from(tb.clone());
    let g = cx.plainly("TryVec<u8> and a text", raw.len() as u64, t.len() as u64, || [v == &t[..], !(v != &t[..]), v == tb, v == &tb[..], v == tv, tv == v]);
    ensure!(cx, K::Model, g == [want; 6], "comparison of {raw:?} with {t:?} (str, negated str, Vec, slice, TryVec, swapped) gives {g:?}, expected {want}");
    cx.cnt("comparisons against std", 0, 6);
}

#[cfg(feature = "hashmap")]
fn hashdebug(cx: &mut Cx) {
    use fallible_collections::TryHashMap;
    let n = cx.rng.us(12);
    let mut t: TryHashMap<u32, SKey> = TryHashMap::default();
    for _ in 0..n {
        let k = cx.rng.us(40) as u32;
        let _ = t.insert(k, SKey::mk(cx.rng.us(50) as u32));
        if cx.rng.chance(1, 4) {
            t.remove(&(cx.rng.us(40) as u32));
        }
    }
    struct M<'a>(&'a TryHashMap<u32, SKey>);
    impl<'a> Debug for M<'a> {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.debug_map().entries(self.0.iter()).finish()
        }
    }
    let (a, b) = cx.plainly("TryHashMap Debug", t.len() as u64, 0, || (format!("{t:?} {t:06.2?}"), format!("{t:#?} {t:#x?}")));
    ensure!(cx, K::Model, a == format!("{:?} {:06.2?}", M(&t), M(&t)) && b == format!("{:#?} {:#x?}", M(&t), M(&t)), "Debug of TryHashMap prints {a}");
    cx.cnt("comparisons against std", 0, 2);
    cx.plainly("TryHashMap drop", 0, 0, || drop(t));
}

#[cfg(feature = "unstable")]
mod tree {
    use super::*;
    use fallible_collections::btree::{BTreeMap, BTreeSet};
    use fallible_collections::TryClone;
    use std::collections::{BTreeMap as SMap, BTreeSet as SSet};

    /// Build a map with these contents by some history.
    fn grow<A: Ord + Clone, V: Clone>(r: &mut Rng, m: &SMap<A, V>, extra: &[(A, V)]) -> BTreeMap<A, V> {
        let mut l: Vec<(A, V)> = m.iter().map(|(a, b)| (a.clone(), b.clone())).collect();
        match r.us(4) {
            0 => {}
            1 => l.reverse(),
            _ => {
                for j in (1..l.len()).rev() {
                    let k = r.us(j + 1);
                    l.swap(j, k)
                }
            }
        }
        let noise: Vec<(A, V)> = extra.iter().filter(|e| !m.contains_key(&e.0)).cloned().collect();
        let mut t = match r.us(5) {
            0 => l.iter().cloned().collect(),
            1 => {
                let mut t: BTreeMap<A, V> = BTreeMap::default();
                // later duplicates win
                t.extend(extra.iter().filter(|e| m.contains_key(&e.0)).cloned());
                t.extend(l.iter().cloned());
                t
            }
            2 => {
                let mut t = BTreeMap::new();
                for (i, e) in l.iter().enumerate() {
                    if !noise.is_empty() {
                        let x = &noise[i % noise.len()];
                        t.try_insert(x.0.clone(), x.1.clone()).unwrap();
                    }
                    t.try_insert(e.0.clone(), e.1.clone()).unwrap();
                }
                for x in &noise {
                    t.remove(&x.0);
                }
                t
            }
            3 => {
                let mut t = BTreeMap::new();
                let mut u = BTreeMap::new();
                for (i, e) in l.iter().enumerate() {
                    if i % 3 == 1 {
                        u.try_insert(e.0.clone(), e.1.clone()).unwrap();
                    } else {
                        t.try_insert(e.0.clone(), e.1.clone()).unwrap();
                    }
                }
                t.append(&mut u);
                t
            }
            _ => {
                let mut t: BTreeMap<A, V> = l.iter().cloned().chain(noise.iter().cloned()).collect();
                for x in &noise {
                    t.remove(&x.0);
                }
                if let Some(p) = l.first() {
                    let mut hi = t.split_off(&p.0).unwrap();
                    hi.append(&mut t);
                    t = hi;
                }
                t
            }
        };
        if r.chance(1, 4) {
            t = t.clone();
        }
        t
    }
    fn alter<A: Ord + Clone, V: Clone>(r: &mut Rng, m: &SMap<A, V>, k: A, v: V) -> SMap<A, V> {
        let mut o = m.clone();
        let some = |r: &mut Rng, o: &SMap<A, V>| o.keys().nth(r.us(o.len())).cloned();
        match r.us(7) {
            0 | 1 => {}
            2 => {
                o.insert(k, v);
            }
            3 if !o.is_empty() => {
                let x = some(r, &o).unwrap();
                o.insert(x, v);
            }
            4 if !o.is_empty() => {
                let x = some(r, &o).unwrap();
                o.remove(&x);
            }
            5 if !o.is_empty() => {
                // another key with the same value
                let x = some(r, &o).unwrap();
                let old = o.remove(&x).unwrap();
                o.entry(k).or_insert(old);
            }
            6 if !o.is_empty() => {
                let x = some(r, &o).unwrap();
                o.split_off(&x);
            }
            _ => {}
        }
        o
    }
    pub fn maps<A: Ord + Clone + Hash + Debug, V: PartialOrd + Clone + Debug>(
        cx: &mut Cx,
        mut mk: impl FnMut(&mut Rng) -> A,
        mut mv: impl FnMut(&mut Rng) -> V,
        total: Option<&dyn Fn(&BTreeMap<A, V>, &BTreeMap<A, V>, &SMap<A, V>, &SMap<A, V>) -> (Ordering, Ordering, Vec<u8>, Vec<u8>, bool)>,
    ) {
        let n = match cx.rng.us(6) {
            0 => 0,
            1 => 1,
            2 | 3 => cx.rng.us(12),
            4 => cx.rng.us(40),
            _ => {
                if cx.miri {
                    30
                } else {
                    cx.rng.us(300)
                }
            }
        };
        let r = &mut cx.rng;
        let m: SMap<A, V> = (0..n).map(|_| (mk(r), mv(r))).collect();
        // one difference, or several that pull the order different ways
        let mut o = m.clone();
        for _ in 0..*r.pick(&[1, 1, 2, 3, 5]) {
            let (k, v) = (mk(r), mv(r));
            o = alter(r, &o, k, v);
        }
        let extra: Vec<(A, V)> = (0..r.us(30)).map(|_| (mk(r), mv(r))).collect();
        let mut r1 = r.clone();
        let mut r2 = Rng(r.u64());
        let t = cx.plainly("build map", m.len() as u64, 0, || grow(&mut r1, &m, &extra));
        let u = cx.plainly("build map", o.len() as u64, 0, || grow(&mut r2, &o, &extra));
        let bits = |a: &SMap<A, V>, b: &BTreeMap<A, V>| a.len() == b.len() && format!("{:?}", a.iter().collect::<Vec<_>>()) == format!("{:?}", b.iter().collect::<Vec<_>>());
        ensure!(cx, K::Model, bits(&m, &t), "a map built from {m:?} holds {:?}", t.iter().collect::<Vec<_>>());
        ensure!(cx, K::Model, bits(&o, &u), "a map built from {o:?} holds {:?}", u.iter().collect::<Vec<_>>());
        let g = cx.plainly("BTreeMap comparisons", m.len() as u64, o.len() as u64, || {
            ([t == u, u == t, t == t, !(t != u)], [ordn(t.partial_cmp(&u)), ordn(u.partial_cmp(&t)), ordn(t.partial_cmp(&t))], [t < u, t <= u, t > u, t >= u])
        });
        let w = ([m == o, o == m, m == m, !(m != o)], [ordn(m.partial_cmp(&o)), ordn(o.partial_cmp(&m)), ordn(m.partial_cmp(&m))], [m < o, m <= o, m > o, m >= o]);
        ensure!(cx, K::Model, g == w, "comparing {m:?} with {o:?}: (==, swapped, self, !=), partial_cmp, (<, <=, >, >=) give {g:?}, std gives {w:?}");
        cx.cnt("comparisons against std", 0, 11);
        let (a, b, c) = cx.plainly("BTreeMap Debug", m.len() as u64, 0, || (format!("{t:?}"), format!("{t:#?}"), format!("{t:08.3?} {t:x?}")));
        ensure!(cx, K::Model, a == format!("{m:?}") && b == format!("{m:#?}") && c == format!("{m:08.3?} {m:x?}"), "Debug prints {a} for {m:?}");
        if let Some(f) = total {
            let (x, y, h1, h2, same) = cx.plainly("BTreeMap cmp and hash", m.len() as u64, o.len() as u64, || f(&t, &u, &m, &o));
            ensure!(cx, K::Model, x == y, "cmp of {m:?} and {o:?} gives {x:?}, std gives {y:?}");
            ensure!(cx, K::Model, (h1 == h2) == same, "{m:?} and {o:?} are {} but feed a hasher {}", if same { "equal" } else { "different" }, if h1 == h2 { "the same" } else { "differently" });
            cx.cnt(if same { "equal hashes seen" } else { "different hashes seen" }, 0, 1);
        }
        // clones
        let c = cx.plainly("BTreeMap.clone", m.len() as u64, 0, || t.clone());
        ensure!(cx, K::Model, bits(&m, &c), "the clone of {m:?} holds {:?}", c.iter().collect::<Vec<_>>());
        // sets of the keys
        let (sm, so): (SSet<A>, SSet<A>) = (m.keys().cloned().collect(), o.keys().cloned().collect());
        let mut r3 = Rng(cx.rng.u64());
        let (s, p) = cx.plainly("build sets", sm.len() as u64, so.len() as u64, || {
            let mut l: Vec<A> = sm.iter().cloned().collect();
            if r3.chance(1, 2) {
                l.reverse()
            }
            let mut s: BTreeSet<A> = BTreeSet::default();
            for e in extra.iter() {
                s.try_insert(e.0.clone()).unwrap();
            }
            s.extend(l);
            for e in extra.iter() {
                if !sm.contains(&e.0) {
                    s.remove(&e.0);
                }
            }
            let p: BTreeSet<A> = so.iter().cloned().collect();
            (if r3.chance(1, 3) { s.clone() } else { s }, p)
        });
        let gs = cx.plainly("BTreeSet comparisons", sm.len() as u64, so.len() as u64, || (s == p, !(s != p), s.partial_cmp(&p), s.cmp(&p), p.cmp(&s), s < p, s >= p, stream(&s) == stream(&p)));
        let ws = (sm == so, !(sm != so), sm.partial_cmp(&so), sm.cmp(&so), so.cmp(&sm), sm < so, sm >= so, sm == so);
        ensure!(cx, K::Model, gs == ws, "comparing the sets {sm:?} and {so:?}: (==, !=, partial_cmp, cmp, swapped, <, >=, same hash) give {gs:?}, std gives {ws:?}");
        let (a, b) = cx.plainly("BTreeSet Debug", sm.len() as u64, 0, || (format!("{s:?} {s:06.2?}"), format!("{s:#?} {s:#x?}")));
        ensure!(cx, K::Model, a == format!("{sm:?} {sm:06.2?}") && b == format!("{sm:#?} {sm:#x?}"), "Debug prints {a} for {sm:?}");
        cx.cnt("comparisons against std", 0, 12);
        cx.plainly("drop", 0, 0, || drop((t, u, c, s, p)));
    }
    /// Extend by references, nested maps as keys and values.
    pub fn others(cx: &mut Cx) {
        let r = &mut cx.rng;
        let l: Vec<(u8, i16)> = (0..r.us(40)).map(|_| (r.us(30) as u8, r.us(3) as i16 - 1)).collect();
        let (cut, e) = (r.us(l.len() + 1), r.u64());
        let m: SMap<u8, i16> = l.iter().copied().collect();
        let s: SSet<u8> = l.iter().map(|x| x.0).collect();
        let (t, u, d) = cx.plainly("extend by reference", l.len() as u64, cut as u64, || {
            let mut t: BTreeMap<u8, i16> = l[..cut].iter().copied().collect();
            t.extend(l[cut..].iter().map(|(a, b)| (a, b)));
            let mut u: BTreeSet<u8> = l[..cut].iter().map(|x| x.0).collect();
            let k: Vec<u8> = l[cut..].iter().map(|x| x.0).collect();
            u.extend(&k);
            let d: (BTreeMap<u8, i16>, BTreeSet<u8>) = Default::default();
            (t, u, d.0.is_empty() && d.1.is_empty() && d.0.len() == 0 && d == (BTreeMap::new(), BTreeSet::new()))
        });
        ensure!(cx, K::Model, d, "default() is not an empty collection");
        ensure!(cx, K::Model, t.iter().eq(m.iter()) && u.iter().eq(s.iter()), "extending by {l:?} gives {t:?} and {u:?}");
        // maps inside maps compare and hash by contents
        let a: SMap<SSet<u8>, SMap<u8, i16>> = [(s.clone(), m.clone()), (SSet::new(), SMap::new())].into();
        let b = cx.plainly("nested maps", 2, 0, || -> BTreeMap<BTreeSet<u8>, BTreeMap<u8, i16>> { [(u.clone(), t.clone()), (BTreeSet::new(), BTreeMap::new())].into_iter().collect() });
        ensure!(cx, K::Model, b.len() == a.len() && format!("{b:?}") == format!("{a:?}"), "nested maps print {b:?} instead of {a:?}");
        let c = cx.plainly("nested maps", 2, 0, || b.clone());
        ensure!(cx, K::Model, b == c && stream(&b) == stream(&c) && b.get(&u).is_some() && b.cmp(&c) == Ordering::Equal, "a clone of {b:?} differs");
        let z = cx.plainly("nested maps", 2, 0, || t.try_clone());
        ensure!(cx, K::Model, matches!(&z, Ok(z) if *z == t), "try_clone of {t:?} gives {z:?}");
        std::hint::black_box(e);
        cx.plainly("drop", 0, 0, || drop((t, u, b, c, z)));
    }
    pub fn full(cx: &mut Cx) {
        let f = |t: &BTreeMap<u32, u64>, u: &BTreeMap<u32, u64>, m: &SMap<u32, u64>, o: &SMap<u32, u64>| (t.cmp(u), m.cmp(o), stream(t), stream(u), m == o);
        let g = |t: &BTreeMap<SKey, Option<i8>>, u: &BTreeMap<SKey, Option<i8>>, m: &SMap<SKey, Option<i8>>, o: &SMap<SKey, Option<i8>>| (t.cmp(u), m.cmp(o), stream(t), stream(u), m == o);
        match cx.rng.us(5) {
            0 => maps::<u32, u64>(cx, |r| r.us(400) as u32, |r| r.us(3) as u64, Some(&f)),
            1 => maps::<SKey, Option<i8>>(cx, |r| SKey::mk(r.us(60) as u32), |r| if r.chance(1, 4) { None } else { Some(r.us(3) as i8) }, Some(&g)),
            2 => maps::<u8, f64>(cx, |r| r.us(256) as u8, f64s, None),
            3 => maps::<(u8, bool), Vec<f64>>(cx, |r| (r.us(20) as u8, r.chance(1, 2)), |r| (0..r.us(3)).map(|_| f64s(r)).collect(), None),
            _ => others(cx),
        }
    }
}

pub fn run(cx: &mut Cx) {
    for _ in 0..if cx.miri { 3 } else { 8 } {
        let k = cx.rng.us(if cfg!(feature = "unstable") { 12 } else { 6 });
        match k {
            0 if cx.rng.chance(1, 2) => texts(cx),
            0 => tryvecs(cx, "TryVec<u8>", |r| if r.chance(1, 2) { r.us(4) as u8 } else { r.us(256) as u8 }),
            1 => tryvecs(cx, "TryVec<f64>", f64s),
            2 => tryvecs(cx, "TryVec<String>", |r| "ab\"\u{e9}".repeat(r.us(3))),
            3 => tryvecs(cx, "TryVec<()>", |_| ()),
            4 => tryvecs(cx, "TryVec<Option<Vec>>", |r| if r.chance(1, 3) { None } else { Some(vec![r.us(3)]) }),
            #[cfg(feature = "hashmap")]
            5 => hashdebug(cx),
            #[cfg(feature = "unstable")]
            6..=20 => tree::full(cx),
            _ => tryvecs(cx, "TryVec<u64>", |r| r.us(3) as u64),
        }
    }
}
