//! Building strings: try_format and tryformat! against format!.
use crate::cx::*;
use crate::mon::{self, Fault};
use crate::tok::*;
use fallible_collections::format::try_format;
use fallible_collections::{tryformat, TryReserveError};
use std::fmt;
use std::sync::atomic::Ordering::Relaxed;

/// Writes itself in pieces of all kinds.
struct Pieces(u64, usize);
impl fmt::Display for Pieces {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        cb(Cb::Closure);
        let mut s = self.0;
        for _ in 0..self.1 {
            s = crate::rng::mix(s);
            match s % 6 {
                0 => f.write_str("")?,
                1 => f.write_str("ab\u{e9}")?,
                2 => fmt::Write::write_char(f, '\u{1F980}')?,
                3 => write!(f, "{}", s % 1000)?,
                4 => f.pad("pad")?,
                _ => f.write_str("\0\n")?,
            }
        }
        Ok(())
    }
}
thread_local! { static STEP: std::cell::Cell<u32> = const { std::cell::Cell::new(0) }; }
/// Says how often it has been asked.
struct Stateful;
impl fmt::Display for Stateful {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        STEP.with(|s| s.set(s.get() + 1));
        write!(f, "{}", STEP.with(|s| s.get()))
    }
}
/// Reports failure after writing something.
struct Fails;
impl fmt::Display for Fails {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("begun")?;
        Err(fmt::Error)
    }
}
#[derive(Debug, Clone)]
struct Rec {
    name: String,
    list: Vec<Option<i32>>,
    t: (u8, char),
}

fn one(cx: &mut Cx, what: &'static str, want: &str, args: fmt::Arguments<'_>) {
    let n = want.len();
    let cap = match cx.rng.us(if cx.miri { 8 } else { 9 }) {
        8 => n + (1 << cx.rng.us(24)),
        0 | 1 => n,
        2 => n + 1,
        3 => n + cx.rng.us(100),
        4 => n.max(8),
        5 => 4096.max(n),
        6 => n + 100_000,
        _ => cx.rng.us(n + 1),
    };
    let enough = cap >= n;
    let mut plans = vec![CLEAN];
    // capacity too small: growth is not fallible, as documented, so only the first request may fail
    if (cap > 0 || enough) && cx.faults > 0 && cx.rng.chance(cx.faults as u64, 100) {
        plans.insert(0, Plan { fault: Fault::Nth(0), cb: None });
        if enough {
            plans.insert(0, Plan { fault: Fault::From(0), cb: None });
            // anything but the first request fails
            plans.push(Plan { fault: Fault::From(1), cb: None });
            plans.push(Plan { fault: Fault::SizeOver(cap.max(8) as u64), cb: None });
        }
    }
    for plan in plans {
        let blocks = mon::LIVE_BLOCKS.load(Relaxed);
        STEP.with(|s| s.set(0));
        let o = cx.run(what, cap as u64, n as u64, plan, || -> Result<String, TryReserveError> { try_format(cap, args) });
        let faulted = o.faulted();
        match o.r {
            Res::Val(Ok(s)) => {
                ensure!(cx, K::Fmt, s == want, "{what}: wrote {s:?}, expected {want:?}");
                ensure!(cx, K::Fmt, !(cap > 0 && matches!(plan.fault, Fault::Nth(0) | Fault::From(0))), "{what}: Ok although the allocation of {cap} bytes was made to fail");
                if enough {
                    ensure!(cx, K::Fmt, o.m.att == (cap > 0) as u32, "{what}: {} allocation requests for capacity {cap} and {n} bytes of text", o.m.att);
                    ensure!(cx, K::Fmt, o.m.biggest >= cap as u64 && o.m.frees == 0 && o.m.reallocs == 0, "{what}: capacity {cap}, but {} bytes requested, {} freed", o.m.biggest, o.m.frees);
                    ensure!(cx, K::Fmt, s.capacity() >= cap, "{what}: capacity {} where {cap} was asked for", s.capacity());
                    cx.cnt("texts within capacity", 0, 1);
                } else {
                    cx.cnt("texts beyond capacity", 0, 1);
                }
                drop(s);
            }
            Res::Val(Err(_)) => {
                ensure!(cx, K::ErrSpur, faulted, "{what}: Err although nothing failed (capacity {cap})");
                ensure!(cx, K::ErrSpur, !matches!(plan.fault, Fault::From(1)), "{what}: Err although the first allocation succeeded");
                let b = mon::LIVE_BLOCKS.load(Relaxed);
                ensure!(cx, K::Leak, b == blocks, "{what}: {b} blocks alive after Err, {blocks} before");
                cx.cnt("allocation failures reported", 0, 1);
            }
            Res::Injected => cx.fail(K::Panic, "unexpected injected panic"),
            Res::Panic(p) => cx.fail(K::Panic, &format!("{what} panicked: {p}")),
        }
    }
}
fn text(cx: &mut Cx, n: usize) -> String {
    if n > 5000 {
        let s = text(cx, 4999);
        return s.chars().cycle().take(n).collect();
    }
    (0..n).map(|_| *cx.rng.pick(&['a', 'Z', '0', ' ', '{', '}', '"', '\\', '\u{e9}', '\u{20ac}', '\u{1F980}', '\n', '\0', '\u{301}'])).collect()
}
pub fn run(cx: &mut Cx) {
    let rounds = if cx.miri { 4 } else { 10 };
    for _ in 0..rounds {
        let k = cx.rng.us(15);
        let n = match cx.rng.us(5) {
            _ if !cx.miri && cx.rng.chance(1, 150) => 1 << (12 + cx.rng.us(9)),
            0 => 0,
            1 => 1 + cx.rng.us(8),
            2 | 3 => cx.rng.us(60),
            _ => {
                if cx.miri {
                    80
                } else {
                    cx.rng.us(5000)
                }
            }
        };
        let s = text(cx, n);
        let (i, j, f) = (cx.rng.u64() as i64, cx.rng.u64() as u8, f64::from_bits(cx.rng.u64()));
        let (w, p) = (cx.rng.us(40), cx.rng.us(20));
        let c = *cx.rng.pick(&['x', '\u{1F980}', '\0', '\'']);
        cx.fpmix((k as u64) << 40 ^ n as u64 ^ i as u64);
        macro_rules! t {
            ($name:expr, $($a:tt)*) => {{ let want = format!($($a)*); one(cx, $name, &want, format_args!($($a)*)); }};
        }
        match k {
            0 => t!("text", "{s}"),
            1 => t!("text escaped", "{s:?}"),
            2 => t!("literal", "plain {{literal}} \u{20ac}"),
            3 => t!("padded", "[{s:>w$}|{i:^+w$}|{c:*<w$}]"),
            4 => t!("floats", "{f}|{f:e}|{f:.p$}|{f:+w$.p$}|{:?}", f),
            5 => t!("numbers", "{i}{j:#x}{j:08b}{:#o}{i:+}{:X}", i, j),
            6 => {
                let r = Rec { name: s.clone(), list: vec![Some(i as i32), None, Some(j as i32)], t: (j, c) };
                t!("records", "{r:?}");
                t!("records pretty", "{r:#?}");
            }
            7 => {
                let x = Pieces(i as u64, cx.rng.us(40));
                t!("pieces", "<{x}>{x}{}", s);
            }
            8 => t!("nothing", ""),
            14 => {
                STEP.with(|s| s.set(0));
                t!("stateful", "{}{s}{:>5}{}", Stateful, Stateful, Stateful);
            }
            9 => t!("nested arguments", "{}-{}", format_args!("{s}{}", i), format_args!("{c}")),
            10 => {
                let x: Vec<u8> = s.bytes().take(50).collect();
                t!("bytes", "{x:x?} {:?} {:?}", &x[..x.len() / 2], std::str::from_utf8(&x));
            }
            11 => {
                // unrepresentable and unobtainable capacities
                let cap = *cx.rng.pick(&[usize::MAX, usize::MAX - 1, isize::MAX as usize + 1, isize::MAX as usize, 1usize << 62, (1usize << 32) + 5]);
                let o = cx.run("huge capacity", cap as u64, 0, CLEAN, || try_format(cap, format_args!("{s}")));
                match o.r {
                    Res::Val(Err(_)) => {
                        if cap > isize::MAX as usize {
                            ensure!(cx, K::Fmt, o.m.att == 0, "capacity {cap}: {} allocation requests", o.m.att);
                        }
                        cx.cnt("huge capacities refused", 0, 1)
                    }
                    Res::Val(Ok(s)) => cx.fail(K::Over, &format!("capacity {cap:#x} accepted, {} there", s.capacity())),
                    Res::Injected => cx.fail(K::Panic, "unexpected injected panic"),
                    Res::Panic(p) => cx.fail(K::Panic, &format!("capacity {cap:#x}: panicked: {p}")),
                }
            }
            12 => {
                // a formatting implementation that fails, or panics: nothing may be left behind
                let fails = cx.rng.chance(1, 2);
                let at = cx.rng.us(3) as u32;
                let x = Pieces(i as u64, 5);
                let plan = Plan { fault: Fault::None, cb: if fails { None } else { Some((Cb::Closure, at, Act::Panic)) } };
                let cap = 400 + n;
                let blocks = mon::LIVE_BLOCKS.load(Relaxed);
                // what is in flight is thrown away by the panic
                let o = cx.run(if fails { "failing Display" } else { "panicking Display" }, cap as u64, 0, plan, || {
                    let r = if fails { try_format(cap, format_args!("{s}{Fails}")) } else { try_format(cap, format_args!("{x}{x}{s}{x}")) };
                    r.is_ok()
                });
                match o.r {
                    Res::Injected => {}
                    Res::Panic(_) if fails => {}
                    Res::Panic(p) => cx.fail(K::Panic, &format!("panicked: {p}")),
                    Res::Val(ok) => {
                        ensure!(cx, K::Fmt, !fails || !ok, "a failing Display implementation gives Ok");
                        cx.fail(K::Fmt, "a panic of a Display implementation was swallowed")
                    }
                }
                let b = mon::LIVE_BLOCKS.load(Relaxed);
                // the panic payload itself may hold memory until it is dropped: already dropped here
                ensure!(cx, K::Leak, b == blocks, "{b} blocks alive after a panicking Display, {blocks} before");
            }
            _ => {
                // the macro
                let cap = s.len() + 64;
                let want = format!("{}={s}/{name:>5}", 1 + 1, name = j);
                let o = cx.run("tryformat!", cap as u64, want.len() as u64, CLEAN, || {
                    (tryformat!(cap, "{}={s}/{name:>5}", 1 + 1, name = j), tryformat!((s.len() + 64), "{}", s), tryformat!(4, "{j}"))
                });
                match o.r {
                    Res::Val((Ok(a), Ok(b), Ok(c))) => {
                        ensure!(cx, K::Fmt, a == want && b == s && c == format!("{j}"), "tryformat! wrote {a:?} {b:?} {c:?}, expected {want:?} {s:?} {j}");
                        ensure!(cx, K::Fmt, o.m.att == 3, "tryformat!: {} allocation requests for three strings", o.m.att);
                    }
                    Res::Val(_) => cx.fail(K::ErrSpur, "tryformat! returned Err although nothing failed"),
                    Res::Injected => cx.fail(K::Panic, "unexpected injected panic"),
                    Res::Panic(p) => cx.fail(K::Panic, &format!("tryformat! panicked: {p}")),
                }
                // every argument of the macro is evaluated once, in order
                let (mut nth, mut ev) = (0, [0u32; 3]);
                let mut at = |i: usize| {
                    nth += 1;
                    ev[i] += nth;
                    7
                };
                let o = cx.run("tryformat! with side effects", cap as u64, 0, CLEAN, || {
                    tryformat!(
                        {
                            at(0);
                            cap
                        },
                        "{{{1}{0}{1}}}",
                        at(1) + 1,
                        at(2),
                    )
                });
                ensure!(cx, K::Fmt, matches!(&o.r, Res::Val(Ok(t)) if t == "{787}") && ev == [1, 2, 3], "tryformat! evaluated its arguments like {ev:?} and wrote {:?}", if let Res::Val(t) = &o.r { t.as_deref().ok() } else { None });
                drop(o);
                let o = cx.run("tryformat! failing", cap as u64, 0, Plan { fault: Fault::Nth(0), cb: None }, || tryformat!(cap, "{}", s).is_err());
                ensure!(cx, K::Fmt, matches!(o.r, Res::Val(true)), "tryformat! did not report the failed allocation");
            }
        }
    }
}
