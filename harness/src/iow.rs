//! Byte vectors: reading, writing, strings.
use crate::cx::*;
use crate::mon::Fault;
use crate::tok::*;
use fallible_collections::{TryReserveError, TryVec};
use std::convert::TryFrom;
#[cfg(feature = "std_io")]
use fallible_collections::{try_read_up_to, TryRead};
#[cfg(feature = "std_io")]
use std::io::{self, Read, Write};

#[cfg(feature = "std_io")]
struct Src {
    data: Vec<u8>,
    pos: usize,
    /// fail once when this many bytes have been given out
    fail_at: Option<usize>,
    kind: io::ErrorKind,
    interrupts: u64,
    short: usize,
    seed: u64,
    calls: u64,
    /// the reader saw a buffer asking for more than it may
    biggest: usize,
}
#[cfg(feature = "std_io")]
impl Read for Src {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        cb(Cb::Read);
        self.calls += 1;
        self.biggest = self.biggest.max(b.len());
        self.seed = crate::rng::mix(self.seed.wrapping_add(0x1234567));
        if self.interrupts > 0 && self.seed % 3 == 0 {
            self.interrupts -= 1;
            return Err(io::ErrorKind::Interrupted.into());
        }
        let mut n = b.len().min(self.data.len() - self.pos);
        if let Some(f) = self.fail_at {
            if self.pos >= f && !b.is_empty() {
                self.fail_at = None;
                return Err(self.kind.into());
            }
            n = n.min(f - self.pos);
        }
        if self.short > 0 && n > 0 {
            n = n.min(1 + (self.seed >> 8) as usize % self.short);
        }
        b[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

pub struct St {
    b: TryVec<u8>,
    m: Vec<u8>,
    room: usize,
}
fn same(cx: &Cx, b: &TryVec<u8>, m: &[u8], k: K, what: &str) {
    ensure!(cx, k, b.len() == m.len(), "{what}: {} bytes, expected {}", b.len(), m.len());
    if let Some(i) = (0..m.len()).find(|i| b[*i] != m[*i]) {
        cx.fail(k, &format!("{what}: byte {i} is {:#x}, expected {:#x}", b[i], m[i]));
    }
    ensure!(cx, k, &b[..] == m && b.as_slice() == m, "{what}: slices differ");
    cx.poll(what);
}
fn bytes(cx: &mut Cx, n: usize) -> Vec<u8> {
    let s = cx.rng.u32();
    (0..n).map(|i| (crate::rng::mix(s as u64 + i as u64) >> 7) as u8).collect()
}
fn size(cx: &mut Cx) -> usize {
    match cx.rng.us(8) {
        0 => 0,
        1 => 1,
        2 => 2 + cx.rng.us(8),
        3 => *cx.rng.pick(&[31usize, 32, 33, 63, 64, 65, 127, 128]),
        4 | 5 => cx.rng.us(100),
        6 => {
            if cx.miri {
                40
            } else {
                cx.rng.us(1000)
            }
        }
        _ => {
            if cx.miri {
                70
            } else {
                *cx.rng.pick(&[4096usize, 8191, 8192, 8193, 20_000])
            }
        }
    }
}

impl St {
    fn spare(&self) -> usize {
        self.room.max(self.m.len()) - self.m.len()
    }
    #[cfg(feature = "std_io")]
    fn read(&mut self, cx: &mut Cx, var: usize) {
        let name = ["try_read_up_to", "Take.try_read_to_end", "Take.read_into_try_vec"][var];
        let avail = size(cx);
        let huge = cx.rng.chance(1, 25);
        let limit: u64 = if huge {
            match cx.rng.us(4) {
                0 => u64::MAX,
                1 => isize::MAX as u64,
                2 => u64::MAX - cx.rng.below(100),
                _ => isize::MAX as u64 + 1,
            }
        } else {
            match cx.rng.us(7) {
                0 => avail as u64,
                1 => (avail + 1) as u64,
                2 => avail.saturating_sub(1) as u64,
                3 => self.spare() as u64,
                4 => self.spare() as u64 + 1,
                _ => size(cx) as u64,
            }
        };
        let data = bytes(cx, avail);
        let fail_at = if cx.rng.chance(1, 4) { Some(cx.rng.us(avail + 1)) } else { None };
        let kind = *cx.rng.pick(&[io::ErrorKind::Other, io::ErrorKind::UnexpectedEof, io::ErrorKind::WouldBlock, io::ErrorKind::BrokenPipe]);
        let interrupts = if cx.rng.chance(1, 3) { cx.rng.below(6) } else { 0 };
        let short = *cx.rng.pick(&[0usize, 0, 1, 3, 40]);
        let short = if avail > 2000 && short == 1 { 3 } else { short };
        let seed = cx.rng.u64();
        cx.note("source", avail as u64, fail_at.map_or(u64::MAX, |x| x as u64));
        cx.fpmix(avail as u64 ^ (limit << 20) ^ seed << 50 ^ (fail_at.unwrap_or(0) as u64) << 33);
        let mut sch = if huge { Sched::none() } else { cx.sched(false) };
        loop {
            let mut plan = sch.next();
            if cx.cbs && !clean(&plan) {
                plan.cb = Some((Cb::Read, (seed % 5) as u32, Act::Panic));
            }
            let free = var < 2 && limit <= self.spare() as u64;
            if cx.zero && free {
                plan = Plan { fault: Fault::From(0), cb: None };
            }
            let mut src = Src { data: data.clone(), pos: 0, fail_at, kind, interrupts, short, seed, calls: 0, biggest: 0 };
            let b = &mut self.b;
            let mut left = 0u64;
            let mut fresh: Option<TryVec<u8>> = None;
            let o = cx.run(name, limit, avail as u64, plan, || match var {
                0 => try_read_up_to(&mut src, limit, b),
                1 => {
                    let mut t = (&mut src).take(limit);
                    let r = t.try_read_to_end(b);
                    left = t.limit();
                    r
                }
                _ => {
                    let mut t = (&mut src).take(limit);
                    let r = t.read_into_try_vec();
                    left = t.limit();
                    match r {
                        Ok(v) => {
                            let n = v.len();
                            fresh = Some(v);
                            Ok(n)
                        }
                        Err(e) => Err(e),
                    }
                }
            });
            let want = limit.min(avail as u64) as usize;
            // does the reader fail before everything wanted is there?
            let fails = fail_at.map_or(false, |f| f < want || (f == avail && limit > avail as u64));
            let start = self.m.len();
            let faulted = o.faulted();
            match o.r {
                Res::Val(Ok(n)) => {
                    ensure!(cx, K::Model, !huge, "{name} claims success with limit {limit}");
                    ensure!(cx, K::Model, !fails, "{name}: the reader's error was not passed on");
                    ensure!(cx, K::Model, n == want, "{name}(limit {limit}, {avail} available) returned {n}, expected {want}");
                    ensure!(cx, K::Model, src.pos == want, "{name}: {} bytes were consumed from the source, expected {want}", src.pos);
                    if var > 0 {
                        ensure!(cx, K::Model, left == limit - want as u64, "{name}: the limit left is {left}, expected {}", limit - want as u64);
                    }
                    if var == 2 {
                        let v = fresh.unwrap();
                        same(cx, &v, &data[..want], K::Model, name);
                        same(cx, &self.b, &self.m, K::Model, name);
                        self.b = v;
                        self.m.clear();
                        self.room = 0;
                        self.m.extend_from_slice(&data[..want]);
                        self.room = limit as usize;
                    } else {
                        self.m.extend_from_slice(&data[..want]);
                        same(cx, &self.b, &self.m, K::Model, name);
                        self.room = self.room.max(start + limit as usize);
                    }
                    soft!(cx, K::Zero, o.m.att <= 1, "{name}: {} allocation requests, only the reservation of the limit is allowed", o.m.att);
                    if free {
                        soft!(cx, K::Zero, o.m.att == 0, "{name}: allocated although room for {limit} bytes was there");
                        cx.cnt("reads within spare capacity", 0, 1);
                    }
                    soft!(cx, K::Zero, o.m.biggest <= 4 * (start as u64 + limit + 8) + 64, "{name}: asked for {} bytes with limit {limit} and {start} present", o.m.biggest);
                    cx.cnt("bytes read", 0, n as u64);
                    return;
                }
                Res::Val(Err(e)) => {
                    let reserve_failed = o.m.inj > 0 || o.m.refused > 0 || huge;
                    if reserve_failed {
                        soft!(cx, K::Zero, !(cx.zero && free), "{name} within spare capacity failed under exhaustion");
                        ensure!(cx, K::Atom, src.calls == 0, "{name}: the source was read although the reservation failed");
                        same(cx, &self.b, &self.m, K::Atom, name);
                        cx.cnt("unchanged after Err", 0, 1);
                        if var > 0 {
                            ensure!(cx, K::Atom, left == limit, "{name}: limit used up although the reservation failed");
                        }
                        if huge {
                            return;
                        }
                        if clean(&plan) || (cx.zero && free) {
                            return;
                        }
                    } else {
                        ensure!(cx, K::ErrSpur, fails, "{name} returned Err({:?}) although nothing failed", e.kind());
                        ensure!(cx, K::Model, e.kind() == kind, "{name}: the reader's error {kind:?} arrived as {:?}", e.kind());
                        let f = fail_at.unwrap();
                        ensure!(cx, K::Model, src.pos == f, "{name}: {} bytes consumed before the error, expected {f}", src.pos);
                        if var < 2 {
                            self.m.extend_from_slice(&data[..f]);
                            self.room = self.room.max(start + limit as usize);
                        }
                        same(cx, &self.b, &self.m, K::Model, "bytes read before the reader failed");
                        soft!(cx, K::Zero, o.m.att <= 1, "{name}: {} allocation requests, only the reservation of the limit is allowed", o.m.att);
                        cx.cnt("reader errors passed on", 0, 1);
                        return;
                    }
                }
                Res::Injected => {
                    cx.leak_ok = true;
                    let n = self.b.len();
                    if var < 2 {
                        ensure!(cx, K::Cb, n >= start && n - start <= src.pos, "{name}: {n} bytes after a panicking reader gave {} on top of {start}", src.pos);
                        self.m.extend_from_slice(&data[..n - start]);
                    }
                    same(cx, &self.b, &self.m, K::Cb, name);
                    cx.cnt("consistent after injected panic", 0, 1);
                    return;
                }
                Res::Panic(s) => cx.fail(K::Panic, &format!("{name} panicked: {s}")),
            }
        }
    }
    #[cfg(feature = "std_io")]
    fn write(&mut self, cx: &mut Cx) {
        let var = cx.rng.us(5);
        let name = ["TryVec.write", "TryVec.write_all", "TryVec.write_vectored", "TryVec.write_fmt", "TryVec.flush"][var];
        let n = if cx.rng.chance(1, 3) { self.spare().min(5000) } else { size(cx) };
        let data = bytes(cx, n);
        // up to five pieces, some of them empty
        let mut cuts = [0, cx.rng.us(n + 1), cx.rng.us(n + 1), cx.rng.us(n + 1), n, n];
        match cx.rng.us(3) {
            0 => cuts[1] = 0,
            1 => cuts[2] = cuts[1],
            _ => {}
        }
        cuts.sort();
        let num = cx.rng.u32();
        let text: Vec<u8> = format!("{num:>12}-{:?}", "a\u{e9}b").into_bytes();
        let mut sch = cx.sched(false);
        loop {
            let mut plan = sch.next();
            let start = self.m.len();
            let len = match var {
                3 => text.len(),
                4 => 0,
                _ => n,
            };
            let free = len <= self.spare();
            if cx.zero && free {
                plan = Plan { fault: Fault::From(0), cb: None };
            }
            let b = &mut self.b;
            let d = &data;
            let o = cx.run(name, n as u64, start as u64, plan, || match var {
                0 => b.write(d),
                1 => b.write_all(d).map(|_| d.len()),
                2 => b.write_vectored(&[0, 1, 2, 3, 4].map(|i| io::IoSlice::new(&d[cuts[i]..cuts[i + 1]]))),
                3 => write!(b, "{num:>12}-{:?}", "a\u{e9}b").map(|_| 0),
                _ => b.flush().map(|_| 0),
            });
            let faulted = o.faulted();
            match o.r {
                Res::Val(Ok(k)) => {
                    let w: &[u8] = match var {
                        3 => &text,
                        4 => &[],
                        _ => &data[..k.min(n)],
                    };
                    match var {
                        0 | 1 => ensure!(cx, K::Model, k == n, "{name} of {n} bytes returned {k}"),
                        2 => ensure!(cx, K::Model, k <= n && (k > 0 || n == 0), "{name} of {n} bytes returned {k}"),
                        _ => {}
                    }
                    self.m.extend_from_slice(w);
                    same(cx, &self.b, &self.m, K::Model, name);
                    if free {
                        soft!(cx, K::Zero, o.m.att == 0, "{name} allocated although room was there");
                    }
                    return;
                }
                Res::Val(Err(e)) => {
                    soft!(cx, K::Zero, !(cx.zero && free), "{name} within spare capacity failed under exhaustion");
                    if cx.zero && free {
                        return;
                    }
                    ensure!(cx, K::ErrSpur, faulted, "{name} returned Err({:?}) although nothing failed", e.kind());
                    if var == 3 {
                        // text written in pieces: a leading part may be there
                        let k = self.b.len().wrapping_sub(start);
                        ensure!(cx, K::Atom, k <= text.len(), "{name}: failed leaving {} bytes", self.b.len());
                        self.m.extend_from_slice(&text[..k]);
                        same(cx, &self.b, &self.m, K::Atom, name);
                    } else {
                        same(cx, &self.b, &self.m, K::Atom, name);
                        cx.cnt("unchanged after Err", 0, 1);
                    }
                    if clean(&plan) {
                        return;
                    }
                }
                Res::Injected => cx.fail(K::Panic, "unexpected injected panic"),
                Res::Panic(s) => cx.fail(K::Panic, &format!("{name} panicked: {s}")),
            }
        }
    }
    fn strings(&mut self, cx: &mut Cx) {
        let n = size(cx).min(3000);
        let s: String = (0..n).map(|_| *cx.rng.pick(&['a', 'z', 'A', 'Z', '\u{e9}', '\u{1F600}', '\0', ' ', '\u{fffd}', '@', '`'])).collect();
        let name = "TryVec.try_from(str)";
        let mut sch = cx.sched(false);
        loop {
            let plan = sch.next();
            let plan = if cx.zero && s.is_empty() { Plan { fault: Fault::From(0), cb: None } } else { plan };
            let o = cx.run(name, s.len() as u64, 0, plan, || -> Result<TryVec<u8>, TryReserveError> { TryVec::<u8>::try_from(&s[..]) });
            let faulted = o.faulted();
            match o.r {
                Res::Val(Ok(v)) => {
                    soft!(cx, K::Cap, o.m.att <= 1, "{name}: {} allocation requests", o.m.att);
                    same(cx, &v, s.as_bytes(), K::Model, name);
                    self.compare(cx, &v, &s);
                    self.b = v;
                    self.m = s.into_bytes();
                    self.room = self.m.len();
                    return;
                }
                Res::Val(Err(_)) => {
                    soft!(cx, K::Zero, !(cx.zero && s.is_empty()), "{name} of nothing failed under exhaustion");
                    ensure!(cx, K::ErrSpur, faulted, "{name} returned Err although nothing failed");
                    if clean(&plan) {
                        return;
                    }
                }
                Res::Injected => cx.fail(K::Panic, "unexpected injected panic"),
                Res::Panic(s) => cx.fail(K::Panic, &format!("{name} panicked: {s}")),
            }
        }
    }
    fn compare(&mut self, cx: &mut Cx, v: &TryVec<u8>, s: &str) {
        let mut t = String::from(s);
        match cx.rng.us(9) {
            0 => t.push(*cx.rng.pick(&['a', '\0', ' ', '\n'])),
            1 => {
                t.pop();
            }
            2 => {
                if let Some(c) = t.pop() {
                    t.push(if c == 'a' { 'b' } else { 'a' })
                }
            }
            3 | 4 | 5 => {
                // another character anywhere, often one that is nearly the same
                let mut c: Vec<char> = t.chars().collect();
                if !c.is_empty() {
                    let i = cx.rng.us(c.len());
                    c[i] = match cx.rng.us(4) {
                        0 if c[i].is_lowercase() => c[i].to_ascii_uppercase(),
                        0 => c[i].to_ascii_lowercase(),
                        1 => char::from_u32(c[i] as u32 ^ 0x20).unwrap_or('x'),
                        2 => '\u{301}',
                        _ => 'b',
                    };
                    t = c.into_iter().collect();
                }
            }
            6 => {
                let i = (0..=cx.rng.us(t.len() + 1).min(t.len())).rev().find(|i| t.is_char_boundary(*i)).unwrap_or(0);
                t.insert(i, *cx.rng.pick(&['\0', ' ', '\u{feff}']));
            }
            _ => {}
        }
        let want = t == s;
        let tb = t.as_bytes().to_vec();
        let o = TryVec::from(tb.clone());
        let g = cx.free("TryVec eq/as_ref", t.len() as u64, want as u64, || {
            let a: &[u8] = v.as_ref();
            [*v == &t[..], !(*v != &t[..]), *v == tb, *v == &tb[..], *v == o, a == &tb[..]]
        });
        if !s.is_empty() && cx.rng.chance(1, 3) {
            // bytes that are no text at all
            let mut raw = s.as_bytes().to_vec();
            let i = cx.rng.us(raw.len());
            raw[i] = *cx.rng.pick(&[0xff, 0x80, 0xc3, 0xed]);
            let lossy = String::from_utf8_lossy(&raw).into_owned();
            let u = TryVec::from(raw.clone());
            let g = cx.free("TryVec eq of no text", raw.len() as u64, 0, || [u == &lossy[..], u == s, u == "", u == raw]);
            let w = [raw == lossy.as_bytes(), raw == s.as_bytes(), false, true];
            ensure!(cx, K::Model, g == w, "comparison of {raw:?} with (lossy, the text, nothing, itself) gives {g:?}, expected {w:?}");
        }
        ensure!(cx, K::Model, g == [want; 6], "comparison of {} bytes with {} bytes (str, str negated, Vec, slice, TryVec, as_ref) gives {g:?}, expected {want}", v.len(), t.len());
    }
}
pub fn run(cx: &mut Cx) {
    let mut s = St { b: TryVec::new(), m: vec![], room: 0 };
    let n = if cx.miri { 8 } else { 10 + cx.rng.us(25) };
    let heavy = cfg!(feature = "std_io");
    for _ in 0..n {
        if s.m.len() > 60_000 || (cx.miri && s.m.len() > 150) {
            s = St { b: TryVec::new(), m: vec![], room: 0 };
        }
        match cx.rng.weighted(&[if heavy { 12 } else { 0 }, if heavy { 6 } else { 0 }, 4, 3, 2, 2]) {
            #[cfg(feature = "std_io")]
            0 => {
                let v = cx.rng.us(3);
                s.read(cx, v)
            }
            #[cfg(feature = "std_io")]
            1 => s.write(cx),
            2 => s.strings(cx),
            3 => {
                // shrink, keeping the room
                let k = if s.m.len() < 50 { cx.rng.us(s.m.len() + 1) } else { cx.rng.us(50) };
                s.room = s.room.max(s.m.len());
                for _ in 0..k {
                    let b = &mut s.b;
                    let g = cx.free("TryVec.pop", 0, 0, || b.pop());
                    ensure!(cx, K::Model, g == s.m.pop(), "pop returned {g:?}");
                }
            }
            4 => {
                s.room = s.room.max(s.m.len());
                let b = &mut s.b;
                cx.free("TryVec.clear", 0, 0, || b.clear());
                s.m.clear();
            }
            _ => {
                let k = size(cx).min(3000);
                let b = &mut s.b;
                let o = cx.run("TryVec.reserve", k as u64, s.m.len() as u64, CLEAN, || b.reserve(k));
                ensure!(cx, K::ErrSpur, matches!(o.r, Res::Val(Ok(()))), "reserve failed although nothing failed");
                s.room = s.room.max(s.m.len() + k);
            }
        }
        same(cx, &s.b, &s.m, K::Model, "byte vector");
    }
    let b = s.b;
    cx.free("TryVec<u8> drop", s.m.len() as u64, 0, || drop(b));
}
