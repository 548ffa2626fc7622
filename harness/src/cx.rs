//! Running one operation under observation, and reporting.
use crate::mon::{self, Fault, Meas};
use crate::rng::{mix, Rng};
use crate::tok::{self, Act, Cb, Inj};
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::Ordering::Relaxed;
use std::sync::Mutex;

/// Kinds of disagreement an oracle can report.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
#[repr(u32)]
pub enum K {
    /// result or contents differ from the model although nothing failed
    Model = 1,
    /// panic that nothing asked for
    Panic = 2,
    /// Err although no allocation failed
    ErrSpur = 4,
    /// state after Err wrong, element not given back, or the retry wrong
    Atom = 8,
    /// element dropped twice, used after drop, or not an element
    Drop = 16,
    /// elements or blocks left over
    Leak = 32,
    /// allocator ledger: double free, wrong layout, red zone, write after free
    Mem = 64,
    /// copy not equal or not independent
    Clone = 128,
    /// reserved capacity not honoured, growth not amortised
    Cap = 256,
    /// tree too deep, too sparse
    Bal = 512,
    /// allocation where none is needed, or failure of such an operation under exhaustion
    Zero = 1024,
    /// inconsistent after a callback panicked or misbehaved
    Cb = 2048,
    /// trait implementation that must not exist / thread-safety marker
    Trait = 4096,
    /// representable size refused / unrepresentable accepted
    Over = 8192,
    /// string building
    Fmt = 16384,
}

pub enum Res<R> {
    Val(R),
    Injected,
    Panic(String),
}
pub struct Out<R> {
    pub r: Res<R>,
    pub m: Meas,
    /// the planned callback event happened
    pub fired: bool,
}
impl<R> Out<R> {
    pub fn faulted(&self) -> bool {
        self.m.inj > 0 || self.m.refused > 0 || self.fired
    }
}

#[derive(Clone, Copy, Debug)]
pub struct Plan {
    pub fault: Fault,
    pub cb: Option<(Cb, u32, Act)>,
}
pub const CLEAN: Plan = Plan { fault: Fault::None, cb: None };

#[derive(Clone, Copy)]
struct Step {
    what: &'static str,
    a: u64,
    b: u64,
    plan: Plan,
    out: &'static str,
}

pub struct Cx {
    pub prop: u32,
    pub engine: &'static str,
    pub enabled: u32,
    pub rng: Rng,
    pub case: u64,
    pub trace: bool,
    pub fp: u64,
    pub nops: u64,
    pub stats: BTreeMap<&'static str, [u64; 5]>,
    ring: Vec<Step>,
    pub sample: Option<Vec<String>>,
    pub miri: bool,
    /// fault behaviour of this engine run
    pub faults: u32,
    pub zero: bool,
    /// operations run through `free` must not allocate
    pub fz: bool,
    /// an operation of this case was made to fail
    pub hadfault: bool,
    /// only disagreements in cases with a failed operation count
    pub only_after_fault: bool,
    pub cbs: bool,
    /// an injected panic happened in this case: leaks are allowed from here on
    pub leak_ok: bool,
    pub max: BTreeMap<&'static str, u64>,
}

static PANIC_MSG: Mutex<String> = Mutex::new(String::new());

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        mon::disarm();
        mon::outside(|| {
            let p = info.payload();
            if p.is::<Inj>() {
                return;
            }
            let m = if let Some(s) = p.downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = p.downcast_ref::<String>() {
                s.clone()
            } else {
                "?".into()
            };
            let at = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            let text = format!("{m} ({at})");
            if std::env::var_os("FCV_PANICS").is_some() {
                eprintln!("panic: {text}");
            }
            if let Ok(mut g) = PANIC_MSG.lock() {
                *g = text
            }
        })
    }));
}
pub fn panic_msg() -> String {
    PANIC_MSG.lock().map(|g| g.clone()).unwrap_or_default()
}

pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

impl Cx {
    pub fn new(prop: u32, engine: &'static str, enabled: u32) -> Cx {
        Cx {
            prop,
            engine,
            enabled,
            rng: Rng(0),
            case: 0,
            trace: false,
            fp: 0,
            nops: 0,
            stats: BTreeMap::new(),
            ring: Vec::with_capacity(64),
            sample: None,
            miri: cfg!(miri),
            faults: 0,
            zero: false,
            fz: false,
            hadfault: false,
            only_after_fault: false,
            cbs: false,
            leak_ok: false,
            max: BTreeMap::new(),
        }
    }
    pub fn start(&mut self, case: u64, seed: u64, stream: u64) {
        self.case = case;
        self.rng = Rng::new(&[seed, stream, case, self.engine.len() as u64, self.engine.as_bytes()[0] as u64, self.engine.as_bytes()[1] as u64]);
        self.fp = mix(self.engine.as_bytes().iter().fold(0u64, |a, b| a * 31 + *b as u64));
        self.nops = 0;
        self.leak_ok = false;
        self.hadfault = false;
        self.ring.clear();
        tok::set_ord(0, 0);
    }
    pub fn on(&self, k: K) -> bool {
        self.enabled & (k as u32) != 0
    }
    pub fn is(&self, p: u32) -> bool {
        self.prop == p
    }
    pub fn cnt(&mut self, what: &'static str, slot: usize, n: u64) {
        self.stats.entry(what).or_insert([0; 5])[slot] += n;
    }
    pub fn top(&mut self, what: &'static str, n: u64) {
        let e = self.max.entry(what).or_insert(0);
        if n > *e {
            *e = n
        }
    }
    pub fn fpmix(&mut self, x: u64) {
        self.fp = mix(self.fp ^ x.wrapping_mul(0x9E3779B97F4A7C15));
    }
    fn step_text(s: &Step) -> String {
        let mut t = format!("{}({},{})", s.what, s.a, s.b);
        if s.plan.fault != Fault::None {
            t.push_str(&format!(" fault={:?}", s.plan.fault))
        }
        if let Some(c) = s.plan.cb {
            t.push_str(&format!(" callback={:?}", c))
        }
        t.push_str(" -> ");
        t.push_str(s.out);
        t
    }
    /// Add a line to the operation log without running anything.
    pub fn note(&mut self, what: &'static str, a: u64, b: u64) {
        self.push_step(Step { what, a, b, plan: CLEAN, out: "." });
    }
    fn push_step(&mut self, s: Step) {
        if self.trace {
            eprintln!("{}", Self::step_text(&s));
        }
        if let Some(v) = &mut self.sample {
            if v.len() < 24 {
                let t = Self::step_text(&s);
                v.push(t)
            }
        }
        if self.ring.len() == 64 {
            self.ring.remove(0);
        }
        self.ring.push(s);
    }
    #[cold]
    #[inline(never)]
    pub fn fail_args(&self, k: K, a: std::fmt::Arguments<'_>) -> ! {
        mon::disarm();
        mon::end();
        let m = a.to_string();
        self.fail(k, &m)
    }
    /// Report and end the process: exit 10 when this kind counts for the property, 11 otherwise.
    pub fn fail(&self, k: K, msg: &str) -> ! {
        mon::disarm();
        mon::end();
        let counts = self.on(k) && (self.hadfault || !self.only_after_fault || matches!(k, K::Atom));
        let mut t = String::from("[");
        for (i, s) in self.ring.iter().enumerate() {
            if i > 0 {
                t.push(',')
            }
            t.push_str(&jstr(&Self::step_text(s)));
        }
        t.push(']');
        println!(
            "{{\"report\":{{\"counts\":{},\"kind\":\"{:?}\",\"msg\":{},\"engine\":\"{}\",\"case\":{},\"trace\":{}}}}}",
            counts,
            k,
            jstr(msg),
            self.engine,
            self.case,
            t
        );
        crate::finish(if counts { 10 } else { 11 });
    }
    /// Look at what the ledgers recorded.
    pub fn poll(&self, where_: &str) {
        let e = tok::ERR.load(Relaxed);
        if e != 0 {
            let id = tok::ERR_ID.load(Relaxed);
            self.fail(K::Drop, &format!("{} (element {id}) during {where_}", tok::err_text(e)));
        }
        let e = mon::ERR.load(Relaxed);
        if e != 0 {
            let (a, b) = (mon::ERR_A.load(Relaxed), mon::ERR_B.load(Relaxed));
            self.fail(K::Mem, &format!("{} ({a}/{b:#x}) during {where_}", mon::err_text(e)));
        }
    }
    fn before(&mut self, what: &'static str, a: u64, b: u64, plan: Plan) {
        if self.trace {
            eprintln!("... {}", Self::step_text(&Step { what, a, b, plan, out: "?" }));
        }
        tok::cb_begin(plan.cb);
        mon::begin(plan.fault);
    }
    /// Payload: None when the operation returned.
    fn after(&mut self, what: &'static str, a: u64, b: u64, plan: Plan, p: Option<Box<dyn std::any::Any + Send>>) -> (Meas, bool, Option<Res<()>>) {
        let m = mon::end();
        let fired = tok::cb_end();
        self.nops += 1;
        if m.inj > 0 || fired {
            self.hadfault = true;
        }
        let (r, o, slot) = match p {
            None => (None, "done", 0),
            Some(p) => {
                if p.is::<Inj>() {
                    (Some(Res::Injected), "panicked as injected", 1)
                } else {
                    (Some(Res::Panic(panic_msg())), "PANIC", 2)
                }
            }
        };
        let e = self.stats.entry(what).or_insert([0; 5]);
        e[slot] += 1;
        e[3] += m.inj as u64;
        e[4] += fired as u64;
        self.fpmix(what.bytes().fold(7u64, |h, c| h.wrapping_mul(131).wrapping_add(c as u64)) ^ (slot as u64) << 20 ^ (m.inj.min(7) as u64) << 24 ^ (m.att.min(15) as u64) << 28 ^ (a.min(63)) << 32);
        self.push_step(Step { what, a, b, plan, out: o });
        self.poll(what);
        (m, fired, r)
    }
    /// Run `f` under `plan` and look at the ledgers afterwards.
    #[inline]
    pub fn run<R>(&mut self, what: &'static str, a: u64, b: u64, plan: Plan, f: impl FnOnce() -> R) -> Out<R> {
        self.before(what, a, b, plan);
        let (v, p) = match catch_unwind(AssertUnwindSafe(f)) {
            Ok(v) => (Some(v), None),
            Err(p) => (None, Some(p)),
        };
        let (m, fired, r) = self.after(what, a, b, plan, p);
        let r = match (v, r) {
            (Some(v), _) => Res::Val(v),
            (_, Some(Res::Panic(s))) => Res::Panic(s),
            _ => Res::Injected,
        };
        Out { r, m, fired }
    }
    #[cold]
    fn unexpected(&self, what: &str, p: Option<String>) -> ! {
        match p {
            None => self.fail(K::Panic, &format!("{what}: unexpected injected panic")),
            Some(s) => self.fail(K::Panic, &format!("{what} panicked: {s}")),
        }
    }
    fn freely(&mut self, what: &str, m: &Meas) {
        if self.fz {
            self.cnt("zero-allocation checks", 0, 1);
            if m.att > 0 {
                let n = m.att;
                self.fail(K::Zero, &format!("{what} made {n} allocation request(s) although it needs no memory"));
            }
        }
    }
    /// Run an operation that must neither panic nor (when `self.zero`) allocate.
    #[inline]
    pub fn free<R>(&mut self, what: &'static str, a: u64, b: u64, f: impl FnOnce() -> R) -> R {
        let plan = if self.fz { Plan { fault: Fault::From(0), cb: None } } else { CLEAN };
        let o = self.run(what, a, b, plan, f);
        self.freely(what, &o.m);
        match o.r {
            Res::Val(v) => v,
            Res::Injected => self.unexpected(what, None),
            Res::Panic(s) => self.unexpected(what, Some(s)),
        }
    }
    /// Run an infallible operation that may allocate.
    #[inline]
    pub fn plainly<R>(&mut self, what: &'static str, a: u64, b: u64, f: impl FnOnce() -> R) -> R {
        let o = self.run(what, a, b, CLEAN, f);
        match o.r {
            Res::Val(v) => v,
            Res::Injected => self.unexpected(what, None),
            Res::Panic(s) => self.unexpected(what, Some(s)),
        }
    }
    /// The sequence of fault plans under which one fallible operation is tried; the last is clean.
    pub fn sched(&mut self, clone_fails: bool) -> Sched {
        let f = self.faults;
        let r = &mut self.rng;
        if self.cbs && r.chance(60, 100) {
            return Sched { mode: 7, k: 0, arg: r.u64(), cap: 3 };
        }
        let mode = if f == 0 || !r.chance(f as u64, 100) { 0 } else { 1 + r.us(6) as u8 };
        let mode = if mode == 6 && !clone_fails { 1 } else { mode };
        Sched { mode, k: 0, arg: r.u64(), cap: if cfg!(miri) { 6 } else { 24 } }
    }
}

pub struct Sched {
    mode: u8,
    k: u32,
    arg: u64,
    cap: u32,
}
impl Sched {
    pub fn none() -> Sched {
        Sched { mode: 0, k: 0, arg: 0, cap: 0 }
    }
    /// Next plan: Some while failures remain to be tried, CLEAN at the end.
    pub fn next(&mut self) -> Plan {
        let k = self.k;
        self.k += 1;
        let fault = match self.mode {
            0 => return CLEAN,
            // every position in turn
            1 | 2 if k < self.cap => Fault::Nth(k),
            // everything fails from a position on
            3 if k < 6 => Fault::From(k),
            4 if k < 4 => Fault::Mask(self.arg.rotate_left(13 * k) & self.arg.rotate_left(29 * k + 7)),
            5 if k < 1 => Fault::SizeOver(self.arg % 600),
            // a callback panics; small positions first
            7 if k < 3 => {
                let a = self.arg >> (k * 16);
                let kind = [Cb::Cmp, Cb::TryClone, Cb::Drop, Cb::Hash, Cb::Closure, Cb::Next, Cb::Default, Cb::Clone, Cb::Cmp, Cb::Drop][(a % 10) as usize];
                let at = ((a >> 4) % 256) as u32;
                let at = match at % 4 { 0 => 0, 1 => (at >> 2) % 3, 2 => (at >> 2) % 12, _ => at >> 2 };
                return Plan { fault: Fault::None, cb: Some((kind, at, Act::Panic)) };
            }
            6 if k < 12 => {
                return Plan { fault: Fault::None, cb: Some((Cb::TryClone, (k * (1 + (self.arg % 3) as u32)) as u32, Act::Fail)) }
            }
            _ => return CLEAN,
        };
        Plan { fault, cb: None }
    }
}
pub fn clean(p: &Plan) -> bool {
    p.fault == Fault::None && p.cb.is_none()
}
#[macro_export]
macro_rules! ensure {
    ($cx:expr, $k:expr, $c:expr, $($t:tt)+) => { if !$c { $cx.fail_args($k, format_args!($($t)+)) } };
}
/// Soft check: a disagreement of a kind that does not count for this property is passed over.
#[macro_export]
macro_rules! soft {
    ($cx:expr, $k:expr, $c:expr, $($t:tt)+) => { if $cx.on($k) && !$c { $cx.fail_args($k, format_args!($($t)+)) } };
}

impl Cx {
    /// End of a case, everything under test dropped: nothing may be left.
    pub fn closing(&mut self) {
        self.poll("end of case");
        mon::flush();
        self.poll("end of case (freed blocks)");
        let a = tok::alive();
        let b = mon::LIVE_BLOCKS.swap(0, Relaxed);
        let y = mon::LIVE_BYTES.swap(0, Relaxed);
        tok::reset();
        if !self.leak_ok {
            ensure!(self, K::Leak, a == 0, "{a} element(s) were never dropped");
            ensure!(self, K::Leak, b == 0, "{b} block(s), {y} bytes, allocated by the library were never freed");
            self.cnt("end-of-case ledgers empty", 0, 1);
        } else {
            ensure!(self, K::Drop, a >= 0, "more elements dropped than created");
            self.cnt("end-of-case after injected panic", 0, 1);
        }
    }
}
