//! Which traits the library's types implement, decided by the compiler's own trait resolution.
use crate::cx::*;
use std::cell::Cell;
use std::marker::PhantomData;
use std::rc::Rc;

/// true when the type implements the trait: the inherent constant wins over the trait's.
macro_rules! has {
    ($t:ty : $($b:tt)+) => {{
        trait No { const X: bool = false; }
        impl<T: ?Sized> No for T {}
        #[allow(dead_code)]
        struct Probe<T: ?Sized>(PhantomData<T>);
        #[allow(dead_code)]
        impl<T: ?Sized + $($b)+> Probe<T> { const X: bool = true; }
        <Probe<$t>>::X
    }};
}
struct SyncOnly(*const u8);
unsafe impl Sync for SyncOnly {}
struct SendOnly(*const u8);
unsafe impl Send for SendOnly {}

pub type Row = (&'static str, bool);

/// Traits through which an allocation could happen without a Result.
fn forbidden() -> Vec<Row> {
    use fallible_collections::{TryBox, TryVec};
    use std::collections::*;
    let mut v: Vec<Row> = vec![];
    macro_rules! no { ($t:ty : $($b:tt)+) => { v.push((concat!(stringify!($t), ": ", stringify!($($b)+)), has!($t : $($b)+))); } }
    macro_rules! vecs { ($($e:ty),*) => {$(
        no!(TryVec<$e>: Clone);
        no!(TryVec<$e>: Extend<$e>);
        no!(TryVec<$e>: Extend<&'static $e>);
        no!(TryVec<$e>: FromIterator<$e>);
        no!(TryVec<$e>: FromIterator<&'static $e>);
        no!(TryVec<$e>: From<&'static [$e]>);
        no!(TryVec<$e>: From<&'static mut [$e]>);
        no!(TryVec<$e>: From<[$e; 3]>);
        no!(TryVec<$e>: From<&'static [$e; 3]>);
        no!(TryVec<$e>: From<&'static Vec<$e>>);
        no!(TryVec<$e>: From<&'static TryVec<$e>>);
        no!(TryVec<$e>: From<BinaryHeap<$e>>);
        no!(TryVec<$e>: From<LinkedList<$e>>);
        no!(TryVec<$e>: From<$e>);
        no!(TryVec<$e>: std::borrow::ToOwned);
        no!(Box<[$e]>: From<TryVec<$e>>);
        no!(std::rc::Rc<[$e]>: From<TryVec<$e>>);
        no!(std::sync::Arc<[$e]>: From<TryVec<$e>>);
        no!(Vec<$e>: From<&'static TryVec<$e>>);
        no!(TryVec<$e>: std::ops::Add<&'static [$e]>);
        no!(TryVec<$e>: std::ops::AddAssign<&'static [$e]>);
        // the inner vector, through which anything could grow
        no!(TryVec<$e>: AsMut<Vec<$e>>);
        no!(TryVec<$e>: std::borrow::BorrowMut<Vec<$e>>);
        no!(TryVec<$e>: std::ops::DerefMut<Target = Vec<$e>>);
        no!(&'static mut Vec<$e>: From<&'static mut TryVec<$e>>);
        no!(TryVec<$e>: std::ops::AddAssign<TryVec<$e>>);
        no!(TryVec<$e>: std::ops::Add<TryVec<$e>>);
        no!(TryVec<$e>: From<std::collections::VecDeque<&'static $e>>);
        no!(TryVec<$e>: Extend<Vec<$e>>);
        no!(TryVec<$e>: Extend<&'static [$e]>);
        no!(TryVec<$e>: FromIterator<Vec<$e>>);
        no!(std::collections::LinkedList<$e>: From<TryVec<$e>>);
        no!(TryVec<$e>: From<std::collections::BTreeSet<$e>>);
        no!(TryVec<$e>: From<std::collections::HashSet<$e>>);
    )*} }
    vecs!(u8, u32, String, ());
    no!(TryVec<u8>: From<&'static str>);
    no!(TryVec<u8>: From<&'static String>);
    no!(TryVec<u8>: FromIterator<char>);
    no!(TryVec<u8>: Extend<char>);
    no!(TryVec<u8>: std::fmt::Write);
    no!(TryVec<TryVec<u8>>: Clone);
    macro_rules! boxes { ($($e:ty),*) => {$(
        no!(TryBox<$e>: Clone);
        no!(TryBox<$e>: Default);
        no!(TryBox<$e>: From<$e>);
        no!(TryBox<$e>: From<&'static $e>);
        no!(TryBox<$e>: FromIterator<$e>);
        no!(TryBox<$e>: Extend<$e>);
        no!(TryBox<$e>: std::borrow::ToOwned);
        no!(TryBox<$e>: AsMut<Box<$e>>);
        no!(TryBox<$e>: std::borrow::BorrowMut<Box<$e>>);
        no!(TryBox<$e>: std::ops::Deref<Target = Box<$e>>);
        no!(&'static mut Box<$e>: From<&'static mut TryBox<$e>>);
        no!(std::rc::Rc<$e>: From<TryBox<$e>>);
        no!(std::sync::Arc<$e>: From<TryBox<$e>>);
    )*} }
    boxes!(u8, u64, String, ());
    no!(Option<TryBox<u8>>: Clone);
    #[cfg(feature = "hashmap")]
    {
        use fallible_collections::TryHashMap;
        macro_rules! maps { ($($k:ty, $e:ty);*) => {$(
            no!(TryHashMap<$k, $e>: Clone);
            no!(TryHashMap<$k, $e>: Extend<($k, $e)>);
            no!(TryHashMap<$k, $e>: Extend<(&'static $k, &'static $e)>);
            no!(TryHashMap<$k, $e>: FromIterator<($k, $e)>);
            no!(TryHashMap<$k, $e>: From<[($k, $e); 3]>);
            no!(TryHashMap<$k, $e>: From<Vec<($k, $e)>>);
            no!(TryHashMap<$k, $e>: From<&'static [($k, $e)]>);
            no!(TryHashMap<$k, $e>: From<BTreeMap<$k, $e>>);
            no!(TryHashMap<$k, $e>: std::borrow::ToOwned);
            no!(TryHashMap<$k, $e>: AsMut<HashMap<$k, $e>>);
            no!(TryHashMap<$k, $e>: std::borrow::BorrowMut<HashMap<$k, $e>>);
            no!(TryHashMap<$k, $e>: std::ops::Deref<Target = HashMap<$k, $e>>);
            no!(TryHashMap<$k, $e>: std::ops::DerefMut);
            no!(TryHashMap<$k, $e>: std::ops::Index<&'static mut $k>);
            no!(TryHashMap<$k, $e>: Extend<TryHashMap<$k, $e>>);
            no!(TryHashMap<$k, $e>: FromIterator<(&'static $k, &'static $e)>);
            no!(HashMap<$k, $e>: From<&'static TryHashMap<$k, $e>>);
            no!(Vec<($k, $e)>: From<TryHashMap<$k, $e>>);
        )*} }
        maps!(u8, u8; u32, String; String, u64);
    }
    v
}
/// What the wrapper dereferences to must not offer growing either.
fn targets() -> Vec<(&'static str, bool)> {
    use std::any::TypeId;
    vec![
        ("TryVec<u8> dereferences to something else than [u8]", TypeId::of::<<fallible_collections::TryVec<u8> as std::ops::Deref>::Target>() != TypeId::of::<[u8]>()),
        ("TryVec<String> dereferences to something else than [String]", TypeId::of::<<fallible_collections::TryVec<String> as std::ops::Deref>::Target>() != TypeId::of::<[String]>()),
        ("TryBox<u32> dereferences to something else than u32", TypeId::of::<<fallible_collections::TryBox<u32> as std::ops::Deref>::Target>() != TypeId::of::<u32>()),
    ]
}

/// (ours, Send without std being Send, Sync without std being Sync)
fn markers() -> Vec<(&'static str, [bool; 4])> {
    let mut v = vec![];
    macro_rules! like { ($t:ty, $s:ty) => {
        v.push((stringify!($t), [has!($t: Send), has!($s: Send), has!($t: Sync), has!($s: Sync)]));
    } }
    macro_rules! each { ($m:ident) => {
        $m!(u8); $m!(Rc<u8>); $m!(Cell<u8>); $m!(SyncOnly); $m!(SendOnly); $m!(*mut u8); $m!(Box<dyn Fn() + Send>); $m!(&'static Cell<u8>);
    } }
    macro_rules! lone { ($e:ty) => {
        like!(fallible_collections::TryVec<$e>, Vec<$e>);
        like!(fallible_collections::TryBox<$e>, Box<$e>);
        like!(<fallible_collections::TryVec<$e> as IntoIterator>::IntoIter, std::vec::IntoIter<$e>);
        like!(<&'static fallible_collections::TryVec<$e> as IntoIterator>::IntoIter, std::slice::Iter<'static, $e>);
        like!(fallible_collections::vec::Iter<'static, $e>, std::slice::Iter<'static, $e>);
        like!(fallible_collections::vec::IterMut<'static, $e>, std::slice::IterMut<'static, $e>);
    } }
    each!(lone);
    macro_rules! pairs { ($m:ident) => {
        $m!(u8, u8); $m!(Rc<u8>, u8); $m!(u8, Rc<u8>); $m!(Cell<u8>, u8); $m!(u8, Cell<u8>); $m!(SyncOnly, u8); $m!(u8, SyncOnly);
        $m!(SendOnly, u8); $m!(u8, SendOnly); $m!(SyncOnly, SendOnly); $m!(SendOnly, SyncOnly); $m!(Rc<u8>, Rc<u8>); $m!(*mut u8, Cell<u8>);
    } }
    #[cfg(feature = "hashmap")]
    {
        macro_rules! hash { ($a:ty, $b:ty) => {
            like!(fallible_collections::TryHashMap<$a, $b>, std::collections::HashMap<$a, $b>);
        } }
        pairs!(hash);
    }
    #[cfg(feature = "unstable")]
    {
        use fallible_collections::btree::{map, set, BTreeMap, BTreeSet};
        use std::collections::{btree_map as smap, btree_set as sset};
        macro_rules! tree { ($a:ty, $b:ty) => {
            like!(BTreeMap<$a, $b>, std::collections::BTreeMap<$a, $b>);
            like!(map::Iter<'static, $a, $b>, smap::Iter<'static, $a, $b>);
            like!(map::IterMut<'static, $a, $b>, smap::IterMut<'static, $a, $b>);
            like!(map::IntoIter<$a, $b>, smap::IntoIter<$a, $b>);
            like!(map::Keys<'static, $a, $b>, smap::Keys<'static, $a, $b>);
            like!(map::Values<'static, $a, $b>, smap::Values<'static, $a, $b>);
            like!(map::ValuesMut<'static, $a, $b>, smap::ValuesMut<'static, $a, $b>);
            like!(map::Range<'static, $a, $b>, smap::Range<'static, $a, $b>);
            like!(map::RangeMut<'static, $a, $b>, smap::RangeMut<'static, $a, $b>);
            like!(map::VacantEntry<'static, $a, $b>, smap::VacantEntry<'static, $a, $b>);
            like!(map::OccupiedEntry<'static, $a, $b>, smap::OccupiedEntry<'static, $a, $b>);
            like!(map::Entry<'static, $a, $b>, smap::Entry<'static, $a, $b>);
        } }
        pairs!(tree);
        macro_rules! sets { ($a:ty) => {
            like!(BTreeSet<$a>, std::collections::BTreeSet<$a>);
            like!(set::Iter<'static, $a>, sset::Iter<'static, $a>);
            like!(set::IntoIter<$a>, sset::IntoIter<$a>);
            like!(set::Range<'static, $a>, sset::Range<'static, $a>);
            like!(set::Difference<'static, $a>, sset::Difference<'static, $a>);
            like!(set::SymmetricDifference<'static, $a>, sset::SymmetricDifference<'static, $a>);
            like!(set::Intersection<'static, $a>, sset::Intersection<'static, $a>);
            like!(set::Union<'static, $a>, sset::Union<'static, $a>);
        } }
        each!(sets);
    }
    v
}

pub fn run(cx: &mut Cx) {
    if cx.is(18) || !cx.is(20) {
        let f = cx.plainly("trait probes", 0, 0, || mon_out(|| (forbidden(), targets())));
        for (n, y) in f.0.iter().chain(&f.1) {
            ensure!(cx, K::Trait, !y, "{n} is implemented");
        }
        cx.top("forbidden implementations probed", (f.0.len() + f.1.len()) as u64);
    }
    if cx.is(20) {
        let m = cx.plainly("marker probes", 0, 0, || mon_out(markers));
        let mut neg = 0;
        for (n, [a, b, c, d]) in &m {
            ensure!(cx, K::Trait, !a || *b, "{n} is Send although the std type with these elements is not");
            ensure!(cx, K::Trait, !c || *d, "{n} is Sync although the std type with these elements is not");
            neg += (!b) as u64 + (!d) as u64;
        }
        cx.top("thread markers compared", 2 * m.len() as u64);
        cx.top("thread markers where std says no", neg);
    }
    cx.nops += 3;
}
fn mon_out<R>(f: impl FnOnce() -> R) -> R {
    crate::mon::outside(f)
}
