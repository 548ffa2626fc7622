"""Lifetime probes: small safe programs that try to keep a borrow alive for longer than the collection allows.

Each comes as an attack and a control that differs only in the one thing that makes the attack wrong. The control must
compile; the attack is expected to be refused by the borrow checker. If the library's signatures ever let an attack
through, it is run on an allocator that overwrites freed memory, and it reports what it then sees through the borrow:
exit status 42, or a crash, is undefined behaviour reached from safe code."""
import glob, os, re, subprocess, threading

HEAD = '''#![allow(warnings)]
use std::alloc::{GlobalAlloc, Layout, System};
use std::collections::HashMap;
use std::ops::Bound::*;
struct Poison;
unsafe impl GlobalAlloc for Poison {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { System.alloc(l) }
    // freed memory is overwritten and never used again
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { std::ptr::write_bytes(p, 0xDD, l.size()) }
}
#[global_allocator]
static G: Poison = Poison;
fn check(ok: bool) { if !ok { println!("a borrow outlived what it borrows from"); std::process::exit(42) } }
/// looks at what it borrows when dropped
struct Last<'a>(&'a u64);
impl Drop for Last<'_> { fn drop(&mut self) { check(*self.0 == 7) } }
/// owns memory, looks at it when dropped, and cannot be cloned
struct Own(Box<u64>);
impl Drop for Own { fn drop(&mut self) { check(*self.0 == 7) } }
impl PartialEq for Own { fn eq(&self, o: &Self) -> bool { true } }
impl Eq for Own {}
impl PartialOrd for Own { fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> { Some(self.cmp(o)) } }
impl Ord for Own { fn cmp(&self, o: &Self) -> std::cmp::Ordering { std::cmp::Ordering::Equal } }
impl std::hash::Hash for Own { fn hash<H: std::hash::Hasher>(&self, h: &mut H) {} }
impl PartialEq for Last<'_> { fn eq(&self, o: &Self) -> bool { true } }
impl Eq for Last<'_> {}
impl PartialOrd for Last<'_> { fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> { Some(self.cmp(o)) } }
impl Ord for Last<'_> { fn cmp(&self, o: &Self) -> std::cmp::Ordering { std::cmp::Ordering::Equal } }
impl std::hash::Hash for Last<'_> { fn hash<H: std::hash::Hasher>(&self, h: &mut H) {} }
'''
TREE = '''use fallible_collections::btree::{map, set, BTreeMap, BTreeSet};
fn mk() -> BTreeMap<u64, u64> { let mut m = BTreeMap::new(); for i in 0..100 { m.try_insert(i, i * 10).unwrap(); } m }
fn ms(n: u64) -> BTreeSet<u64> { let mut m = BTreeSet::new(); for i in 0..n { m.try_insert(i * 2).unwrap(); } m }
fn occ(m: &mut BTreeMap<u64, u64>) -> map::OccupiedEntry<'_, u64, u64> { match m.try_entry(5).unwrap() { map::Entry::Occupied(e) => e, _ => panic!() } }
fn vac(m: &mut BTreeMap<u64, u64>) -> map::VacantEntry<'_, u64, u64> { match m.try_entry(500).unwrap() { map::Entry::Vacant(e) => e, _ => panic!() } }
fn st() -> BTreeMap<&'static str, &'static str> { let mut m = BTreeMap::new(); for k in ["a", "b", "c"] { m.try_insert(k, "static").unwrap(); } m }
'''
VECT = '''use fallible_collections::*;
fn mv() -> TryVec<u64> { let mut v = TryVec::new(); for i in 0..8 { v.push(i * 10).unwrap(); } v }
'''
HASH = '''fn mh() -> TryHashMap<u64, u64> { let mut m = TryHashMap::default(); for i in 0..20u64 { m.insert(i, i * 10).unwrap(); } m }
'''


def probes(cfg):
    """(name, attack source, control source)"""
    out = []
    pre = ""

    def escape(name, mk, expr, obs):
        a = "fn main() { let mut r; { let mut m = %s; r = %s; } check(%s); }" % (mk, expr, obs)
        c = "fn main() { let mut m = %s; let mut r; { r = %s; } check(%s); }" % (mk, expr, obs)
        out.append(("escape " + name, pre + a, pre + c))

    def during(name, mk, expr, mut, obs, cobs=None):
        a = "fn main() { let mut m = %s; let mut r = %s; %s; check(%s); }" % (mk, expr, mut, obs)
        c = "fn main() { let mut m = %s; let mut r = %s; check(%s); }" % (mk, expr, cobs or obs)
        out.append(("change during " + name, pre + a, pre + c))

    def dropck(name, mk, fill):
        a = "fn main() { let mut m; let b = Box::new(7u64); m = %s; %s; }" % (mk, fill)
        c = "fn main() { let b = Box::new(7u64); let mut m; m = %s; %s; }" % (mk, fill)
        out.append(("drop after referent " + name, pre + a, pre + c))

    def variance(name, ty, body, mk, arg, obs):
        """a place for 'static data is filled with shorter-lived data through a `ty`"""
        long = re.sub(r"'s\b", "'static", ty)
        f = "fn put<'a, 's: 'a>(it: %s, v: &'s str) { let mut it: %s = it; %s }\n" % (long, ty, body)
        a = f + "fn main() { let mut m = %s; let s = String::from(\"short\"); put(%s, &s); drop(s); check(%s); }" % (mk, arg, obs)
        g = "fn put<'a>(it: %s, v: &'static str) { let mut it: %s = it; %s }\n" % (long, long, body)
        c = g + "fn main() { let mut m = %s; put(%s, \"short\"); check(%s); }" % (mk, arg, obs)
        out.append(("shorten " + name, pre + a, pre + c))

    def copy(name, mk, expr, one, ok="{ let y = r; true }"):
        """two owners of what has one: `expr` is cloned, and both are asked for the same place"""
        a = "fn main() { let mut m = %s; let mut r = %s; let mut q = Clone::clone(&r); let x = { let r = &mut r; %s }; let y = { let r = &mut q; %s }; check(x as *mut u64 != y as *mut u64); }" % (mk, expr, one, one)
        c = "fn main() { let mut m = %s; let mut r = %s; let x = { let r = &mut r; %s }; check(unsafe { *x == *x }); }" % (mk, expr, one)
        out.append(("copy " + name, pre + a, pre + c))

    def own(name, expr):
        a = "fn main() { let mut r = %s; let q = Clone::clone(&r); drop(r); drop(q); }" % expr
        c = "fn main() { let mut r = %s; let q = r; drop(q); }" % expr
        out.append(("copy " + name, pre + a, pre + c))

    if cfg == "u":
        pre = HEAD + TREE
        tot = "== 49500"
        items = [("get", "m.get(&5).unwrap()", "*r == 50"), ("get_key_value", "m.get_key_value(&5).unwrap().0", "*r == 5"), ("get_mut", "m.get_mut(&5).unwrap()", "*r == 50"),
                 ("index", "&m[&5]", "*r == 50"),
                 ("iter item", "m.iter().next().unwrap().0", "*r == 0"), ("iter back item", "m.iter().next_back().unwrap().1", "*r == 990"),
                 ("iter_mut item", "m.iter_mut().next().unwrap().1", "*r == 0"), ("iter_mut back item", "m.iter_mut().next_back().unwrap().1", "*r == 990"),
                 ("keys item", "m.keys().next().unwrap()", "*r == 0"), ("values item", "m.values().next().unwrap()", "*r == 0"), ("values_mut item", "m.values_mut().next().unwrap()", "*r == 0"),
                 ("range item", "m.range(5..).next().unwrap().0", "*r == 5"), ("range_mut item", "m.range_mut(5..).next().unwrap().1", "*r == 50"),
                 ("for item", "(&m).into_iter().next().unwrap().1", "*r == 0"), ("for mut item", "(&mut m).into_iter().next().unwrap().1", "*r == 0"),
                 ("or_try_insert", "m.try_entry(5).unwrap().or_try_insert(1).unwrap()", "*r == 50"), ("or_try_insert_with", "m.try_entry(500).unwrap().or_try_insert_with(|| 1).unwrap()", "*r == 1"),
                 ("or_default", "m.try_entry(500).unwrap().or_default().unwrap()", "*r == 0"), ("into_mut", "occ(&mut m).into_mut()", "*r == 50"), ("vacant insert", "vac(&mut m).try_insert(3).unwrap()", "*r == 3")]
        iters = [("iter", "m.iter()", "r.map(|x| *x.1).sum::<u64>() " + tot), ("iter_mut", "m.iter_mut()", "r.map(|x| *x.1).sum::<u64>() " + tot), ("keys", "m.keys()", "r.sum::<u64>() == 4950"),
                 ("values", "m.values()", "r.sum::<u64>() " + tot), ("values_mut", "m.values_mut()", "r.map(|x| *x).sum::<u64>() " + tot), ("range", "m.range(..)", "r.map(|x| *x.1).sum::<u64>() " + tot),
                 ("range_mut", "m.range_mut(..)", "r.map(|x| *x.1).sum::<u64>() " + tot), ("entry key", "m.try_entry(5).unwrap()", "*r.key() == 5"), ("occupied", "occ(&mut m)", "*r.get() == 50"),
                 ("iter clone", "m.iter().clone()", "r.map(|x| *x.1).sum::<u64>() " + tot), ("range clone", "m.range(..).clone()", "r.map(|x| *x.1).sum::<u64>() " + tot)]
        for n, e, o in items + iters:
            escape("map " + n, "mk()", e, o)
        for n, e, o in items[:1] + items[2:4] + items[6:7] + items[10:11] + items[-5:-4] + iters[:7]:
            during("map " + n, "mk()", e, "m.clear()", o)
        for n, e, o in items[:1] + items[4:5] + items[8:10] + items[11:12]:
            during("map removal " + n, "mk()", e, "for i in 0..50 { m.remove(&i); }", o)
        for n, e in [("get_mut", "m.get_mut(&5).unwrap()"), ("iter_mut", "m.iter_mut().nth(5).unwrap().1"), ("values_mut", "m.values_mut().nth(5).unwrap()"), ("range_mut", "m.range_mut(5..).next().unwrap().1"),
                     ("into_mut", "occ(&mut m).into_mut()"), ("or_try_insert", "m.try_entry(5).unwrap().or_try_insert(1).unwrap()")]:
            during("map two " + n, "mk()", e, "let q = " + e, "{ *r = 1; *q = 2; *r == 1 }", "{ *r = 1; *r == 1 }")
        during("entry get", "mk()", "0; let mut e = occ(&mut m); let r = e.get()", "*e.get_mut() = 1", "*r == 50")
        during("entry get insert", "mk()", "0; let mut e = occ(&mut m); let r = e.get()", "e.insert(1)", "*r == 50")
        during("entry key remove", "mk()", "0; let mut e = occ(&mut m); let r = e.key()", "e.remove()", "*r == 5")
        during("entry two get_mut", "mk()", "0; let mut e = occ(&mut m); let r = e.get_mut()", "let q = e.get_mut()", "{ *r = 1; *q = 2; *r == 1 }", "{ *r = 1; *r == 1 }")
        during("entry get_mut into_mut", "mk()", "0; let mut e = occ(&mut m); let r = e.get_mut()", "let q = e.into_mut()", "{ *r = 1; *q = 2; *r == 1 }", "{ *r = 1; *r == 1 }")
        during("vacant key", "BTreeMap::<String, u64>::new()", "0; let mut e = match m.try_entry(\"k\".to_string()).unwrap() { map::Entry::Vacant(e) => e, _ => panic!() }; let r = &e.key()[..]", "drop(e)", "r == \"k\"")
        for n, e, o in [("iter", "m.iter()", "r.sum::<u64>() == 9900"), ("iter item", "m.iter().next_back().unwrap()", "*r == 198"), ("get", "m.get(&6).unwrap()", "*r == 6"),
                        ("range", "m.range(..)", "r.sum::<u64>() == 9900"), ("range item", "m.range(6..).next().unwrap()", "*r == 6"), ("for item", "(&m).into_iter().next().unwrap()", "*r == 0"),
                        ("iter clone", "m.iter().clone()", "r.sum::<u64>() == 9900")]:
            escape("set " + n, "ms(100)", e, o)
            during("set " + n, "ms(100)", e, "m.clear()", o)
        for op in ("union", "intersection", "difference", "symmetric_difference"):
            for nb in (100, 40, 2000):
                sz = "let mut o = ms(%d);" % nb
                exp = {"union": "r.count() == %d" % max(100, nb), "intersection": "r.count() == %d" % min(100, nb), "difference": "r.count() == %d" % max(100 - nb, 0), "symmetric_difference": "r.count() == %d" % abs(100 - nb)}[op]
                if nb == 100 or op in ("difference", "intersection"):
                    escape("set %s self %d" % (op, nb), "ms(100)", "m.%s(&o)" % op, exp)
                    for i in (1, 2):
                        n, s = [x if i == 1 else x for x in out[-1][i].split("fn main() {", 1)]
                        out[-1] = out[-1][:i] + (n + "fn main() { " + sz + s,) + out[-1][i + 1:]
                    escape("set %s other %d" % (op, nb), "ms(%d)" % nb, "o.%s(&m)" % op, exp)
                    for i in (1, 2):
                        n, s = out[-1][i].split("fn main() {", 1)
                        out[-1] = out[-1][:i] + (n + "fn main() { let mut o = ms(100);" + s,) + out[-1][i + 1:]
        dropck("BTreeMap value", "BTreeMap::new()", "m.try_insert(1, Last(&b)).unwrap()")
        dropck("BTreeMap key", "BTreeMap::new()", "m.try_insert(Last(&b), 1).unwrap()")
        dropck("BTreeSet", "BTreeSet::new()", "m.try_insert(Last(&b)).unwrap()")
        dropck("map::IntoIter", "{ let mut x = BTreeMap::new(); x.try_insert(1, Last(&b)).unwrap(); x.into_iter() }", "")
        dropck("set::IntoIter", "{ let mut x = BTreeSet::new(); x.try_insert(Last(&b)).unwrap(); x.into_iter() }", "")
        p = " as *mut u64"
        for n, e, o in [("iter_mut", "m.iter_mut()", "r.next().unwrap().1" + p), ("iter_mut back", "m.iter_mut()", "r.next_back().unwrap().1" + p), ("values_mut", "m.values_mut()", "r.next().unwrap()" + p),
                        ("range_mut", "m.range_mut(5..)", "r.next().unwrap().1" + p), ("occupied", "occ(&mut m)", "r.get_mut()" + p)]:
            copy(n, "mk()", e, o)
        own("vacant", "{ let mut m: &'static mut BTreeMap<Own, u64> = Box::leak(Box::new(BTreeMap::new())); match m.try_entry(Own(Box::new(7))).unwrap() { map::Entry::Vacant(e) => e, _ => panic!() } }")
        own("entry", "{ let mut m: &'static mut BTreeMap<Own, u64> = Box::leak(Box::new(BTreeMap::new())); m.try_entry(Own(Box::new(7))).unwrap() }")
        for n, k, v, fill in [("key", "Own", "u64", "x.try_insert(Own(Box::new(7)), 1).unwrap();"), ("value", "u64", "Own", "x.try_insert(1, Own(Box::new(7))).unwrap();")]:
            own("BTreeMap " + n, "{ let mut x: BTreeMap<%s, %s> = BTreeMap::new(); %s x }" % (k, v, fill))
            own("map::IntoIter " + n, "{ let mut x: BTreeMap<%s, %s> = BTreeMap::new(); %s x.into_iter() }" % (k, v, fill))
        own("BTreeSet", "{ let mut x: BTreeSet<Own> = BTreeSet::new(); x.try_insert(Own(Box::new(7))).unwrap(); x }")
        own("set::IntoIter", "{ let mut x: BTreeSet<Own> = BTreeSet::new(); x.try_insert(Own(Box::new(7))).unwrap(); x.into_iter() }")
        ob = "m.values().all(|v| *v == \"short\" || *v == \"static\") && m.keys().all(|v| [\"a\", \"b\", \"c\", \"short\"].contains(v))"
        variance("map::IterMut", "map::IterMut<'a, &'static str, &'s str>", "for (_, x) in it { *x = v }", "st()", "m.iter_mut()", ob)
        variance("map::RangeMut", "map::RangeMut<'a, &'static str, &'s str>", "for (_, x) in it { *x = v }", "st()", "m.range_mut(\"a\"..)", ob)
        variance("map::ValuesMut", "map::ValuesMut<'a, &'static str, &'s str>", "for x in it { *x = v }", "st()", "m.values_mut()", ob)
        variance("map::OccupiedEntry", "map::OccupiedEntry<'a, &'static str, &'s str>", "*it.get_mut() = v;", "st()", "match m.try_entry(\"a\").unwrap() { map::Entry::Occupied(e) => e, _ => panic!() }", ob)
        variance("map::VacantEntry value", "map::VacantEntry<'a, &'static str, &'s str>", "it.try_insert(v).unwrap();", "st()", "match m.try_entry(\"short\").unwrap() { map::Entry::Vacant(e) => e, _ => panic!() }", ob)
        variance("map::Entry value", "map::Entry<'a, &'static str, &'s str>", "it.or_try_insert(v).unwrap();", "st()", "m.try_entry(\"short\").unwrap()", ob)
        variance("map::Entry or_default", "map::Entry<'a, &'static str, &'s str>", "*it.or_default().unwrap() = v;", "st()", "m.try_entry(\"a\").unwrap()", ob)
        variance("&mut BTreeMap", "&'a mut BTreeMap<&'static str, &'s str>", "it.try_insert(\"a\", v).unwrap();", "st()", "&mut m", ob)
    else:
        pre = HEAD + VECT
        for n, e, o in [("iter", "m.iter()", "r.sum::<u64>() == 280"), ("iter_mut", "m.iter_mut()", "r.map(|x| *x).sum::<u64>() == 280"), ("iter item", "m.iter().next().unwrap()", "*r == 0"),
                        ("iter_mut item", "m.iter_mut().next().unwrap()", "*r == 0"), ("as_slice", "m.as_slice()", "r[1] == 10"), ("as_mut_slice", "m.as_mut_slice()", "r[1] == 10"),
                        ("deref", "&m[1..]", "r[0] == 10"), ("deref mut", "&mut m[1..]", "r[0] == 10"), ("for", "(&m).into_iter()", "r.sum::<u64>() == 280"), ("first", "m.first().unwrap()", "*r == 0")]:
            escape("TryVec " + n, "mv()", e, o)
            during("TryVec move " + n, "mv()", e, "drop(std::mem::take(&mut m))", o)
            if n in ("iter", "as_slice", "iter item", "for", "deref"):
                during("TryVec push " + n, "mv()", e, "for i in 0..100 { m.push(1).unwrap(); }", o)
        during("TryVec two as_mut_slice", "mv()", "m.as_mut_slice()", "let q = m.as_mut_slice()", "{ r[0] = 1; q[0] = 2; r[0] == 1 }", "{ r[0] = 1; r[0] == 1 }")
        during("TryVec two iter_mut", "mv()", "m.iter_mut().next().unwrap()", "let q = m.iter_mut().next().unwrap()", "{ *r = 1; *q = 2; *r == 1 }", "{ *r = 1; *r == 1 }")
        escape("TryVec as_ref", "TryVec::<u8>::try_from(\"genuine\").unwrap()", "AsRef::<[u8]>::as_ref(&m)", "r[0] == b'g'")
        escape("TryBox deref", "TryBox::try_new(7u64).unwrap()", "&*m", "*r == 7")
        during("TryBox move", "TryBox::try_new(7u64).unwrap()", "&*m", "drop(m)", "*r == 7")
        dropck("TryVec", "TryVec::new()", "m.push(Last(&b)).unwrap()")
        dropck("TryVec::IntoIter", "{ let mut x = TryVec::new(); x.push(Last(&b)).unwrap(); x.into_iter() }", "")
        dropck("TryBox", "TryBox::try_new(Last(&b)).unwrap()", "")
        copy("TryVec iter_mut", "mv()", "m.iter_mut()", "r.next().unwrap() as *mut u64")
        own("TryVec", "{ let mut x = TryVec::new(); x.push(Own(Box::new(7))).unwrap(); x }")
        own("TryVec::IntoIter", "{ let mut x = TryVec::new(); x.push(Own(Box::new(7))).unwrap(); x.into_iter() }")
        own("TryBox", "TryBox::try_new(Own(Box::new(7))).unwrap()")
        variance("TryVec IterMut", "vec::IterMut<'a, &'s str>", "for x in it { *x = v }", "{ let mut v: TryVec<&'static str> = TryVec::new(); v.push(\"static\").unwrap(); v }", "m.iter_mut()", "m[0] == \"short\"")
        variance("&mut TryVec", "&'a mut TryVec<&'s str>", "it.push(v).unwrap();", "TryVec::<&'static str>::new()", "&mut m", "m[0] == \"short\"")
        pre = HEAD + VECT + HASH
        for n, e, o in [("get", "m.get(&5).unwrap()", "*r == 50"), ("iter", "m.iter()", "r.map(|x| *x.1).sum::<u64>() == 1900"), ("iter item", "m.iter().find(|x| *x.0 == 5).unwrap().1", "*r == 50")]:
            escape("TryHashMap " + n, "mh()", e, o)
            during("TryHashMap move " + n, "mh()", e, "drop(std::mem::take(&mut m))", o)
            during("TryHashMap insert " + n, "mh()", e, "for i in 100..2000 { m.insert(i, 1).unwrap(); }", o)
        dropck("TryHashMap value", "TryHashMap::default()", "m.insert(1, Last(&b)).unwrap()")
        dropck("TryHashMap key", "TryHashMap::default()", "m.insert(Last(&b), 1).unwrap()")
        dropck("TryHashMap::IntoIter", "{ let mut x = TryHashMap::default(); x.insert(1, Last(&b)).unwrap(); x.into_iter() }", "")
        own("TryHashMap", "{ let mut x = TryHashMap::default(); x.insert(1, Own(Box::new(7))).unwrap(); x }")
        own("TryHashMap::IntoIter", "{ let mut x = TryHashMap::default(); x.insert(1, Own(Box::new(7))).unwrap(); x.into_iter() }")
        variance("&mut TryHashMap", "&'a mut TryHashMap<&'static str, &'s str>", "it.insert(\"k\", v).unwrap();", "TryHashMap::<&'static str, &'static str>::default()", "&mut m", "*m.get(\"k\").unwrap() == \"short\"")
    return out


BORROW = ("E0373", "E0382", "E0499", "E0502", "E0503", "E0505", "E0506", "E0515", "E0521", "E0597", "E0621", "E0712", "E0713", "E0716", "E0308")


def run(cfg, deps, env, work, only=None, jobs=3):
    """Returns dict(results=[(name, verdict, detail, source)]); verdicts: refused, allowed-unsound, allowed-unseen, control-fails, unclear."""
    libs = sorted(glob.glob(os.path.join(deps, "libfallible_collections-*.rlib")), key=os.path.getmtime)
    todo = [p for p in probes(cfg) if only is None or p[0] == only]
    res, lock = [], threading.Lock()
    os.makedirs(work, exist_ok=True)

    def rustc(src, out, meta):
        c = ["rustc", "--edition", "2021", "--crate-type", "bin", "--extern", "fallible_collections=" + libs[-1], "-L", "dependency=" + deps, "-A", "warnings", "-o", out, src]
        c += ["--emit=metadata"] if meta else ["-C", "opt-level=0"]
        return subprocess.run(c, env=env, capture_output=True, text=True)

    def work1():
        while True:
            with lock:
                if not todo:
                    return
                i, (name, attack, control) = len(todo), todo.pop()
            b = os.path.join(work, "p%d" % i)
            open(b + "a.rs", "w").write(attack)
            r = rustc(b + "a.rs", b + "a.rmeta", True)
            if r.returncode:
                open(b + "c.rs", "w").write(control)
                k = rustc(b + "c.rs", b + "c.rmeta", True)
                codes = set(re.findall(r"error\[(E\d+)\]", r.stderr))
                if k.returncode:
                    v = ("control-fails", k.stderr[-600:])
                elif codes == {"E0277"} and name.startswith("copy "):
                    v = ("refused", "E0277")
                elif (codes and codes <= set(BORROW)) or (not codes and "lifetime may not live long enough" in r.stderr):
                    v = ("refused", " ".join(sorted(codes)) or "lifetime may not live long enough")
                else:
                    v = ("unclear", r.stderr[-600:])
            else:
                k = rustc(b + "a.rs", b + "a", False)
                x = subprocess.run(["timeout", "60", b + "a"], capture_output=True, text=True) if k.returncode == 0 else k
                if k.returncode:
                    v = ("unclear", k.stderr[-600:])
                elif x.returncode:
                    v = ("allowed-unsound", "exit status %d: %s" % (x.returncode, (x.stdout + x.stderr).strip()[-300:]))
                else:
                    v = ("allowed-unseen", "")
            with lock:
                res.append((name,) + v + (attack,))

    if not libs:
        return dict(results=[], error="no library in " + deps)
    ts = [threading.Thread(target=work1) for _ in range(jobs)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    return dict(results=res, error=None)
