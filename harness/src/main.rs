//! fcv: workload generator and monitors for fallible_collections.
#![allow(clippy::all, dead_code)]
extern crate alloc;
#[macro_use]
mod cx;
mod big;
mod iow;
mod cmpw;
mod fin;
mod fmtw;
mod grow;
mod mon;
mod plainw;
mod ptrw;
mod rng;
mod thr;
mod traits;
mod tok;
mod types;
mod vecw;
#[path = "vecw.rs"]
mod vecw_b;
#[path = "vecw.rs"]
mod vecw_c;
#[path = "vecw.rs"]
mod vecw_d;
#[cfg(feature = "unstable")]
mod btw;
#[cfg(feature = "unstable")]
#[path = "btw.rs"]
mod btw_b;
#[cfg(feature = "unstable")]
#[path = "btw.rs"]
mod btw_c;
#[cfg(feature = "unstable")]
#[path = "btw.rs"]
mod btw_d;

#[cfg(feature = "unstable")]
mod balw;
#[cfg(feature = "unstable")]
mod chaos;
#[cfg(feature = "hashmap")]
mod hashw;
#[cfg(feature = "hashmap")]
mod hchaos;
#[cfg(feature = "hashmap")]
#[path = "hashw.rs"]
mod hashw_b;

#[cfg(feature = "unstable")]
mod setw;
#[cfg(feature = "unstable")]
#[path = "setw.rs"]
mod setw_b;

use cx::{Cx, K};
use std::io::Write;
use std::sync::atomic::{AtomicPtr, AtomicU64, Ordering::Relaxed};

#[global_allocator]
static GLOBAL: mon::Mon = mon::Mon;

type Engine = (&'static str, u32, fn(&mut Cx));

const BASE: u32 = K::Model as u32 | K::Panic as u32 | K::ErrSpur as u32 | K::Drop as u32 | K::Mem as u32 | K::Clone as u32 | K::Atom as u32;

struct Conf {
    enabled: u32,
    faults: u32,
    zero: bool,
    fz: bool,
    cbs: bool,
    after: bool,
    engines: Vec<Engine>,
}
fn conf(prop: u32) -> Conf {
    let k = |ks: &[K]| ks.iter().fold(0, |a, b| a | *b as u32);
    let mut c = Conf { enabled: BASE, faults: 0, zero: false, fz: false, cbs: false, after: false, engines: vec![] };
    use K::*;
    let mut w: Vec<(&'static str, u32)> = vec![];
    match prop {
        1 => {
            c.enabled = k(&[Panic, ErrSpur, Over]);
            c.faults = 95;
            w = vec![("vec", 320), ("mapfault", 240), ("setmixed", 64), ("hash", 160), ("io", 96), ("ptr", 80), ("nest", 80), ("fmt", 48), ("big", 8)];
        }
        2 => {
            c.enabled = k(&[Atom, Drop, Leak, Mem, Model, Panic, ErrSpur, Clone]);
            c.after = true;
            c.faults = 92;
            w = vec![("vec", 240), ("mapfault", 320), ("setmixed", 80), ("hash", 160), ("io", 96), ("ptr", 80), ("nest", 80), ("big", 8)];
        }
        3 => {
            c.enabled = k(&[Mem, Drop]);
            c.faults = 40;
            w = vec![("vec", 250), ("map", 250), ("setmixed", 100), ("hash", 150), ("io", 60), ("ptr", 80), ("nest", 50), ("chaos", 50), ("hchaos", 20), ("big", 4)];
        }
        4 => {
            c.enabled = k(&[Drop, Leak, Mem]);
            c.faults = 50;
            w = vec![("vec", 250), ("map", 250), ("setmixed", 100), ("hash", 150), ("io", 60), ("ptr", 80), ("nest", 50), ("chaos", 50), ("hchaos", 20), ("big", 4)];
        }
        5 => {
            c.enabled = BASE | k(&[Over]);
            c.faults = 5;
            w = vec![("vec", 32), ("plain", 4), ("io", 4), ("big", 1)];
        }
        6 => {
            c.enabled = k(&[Cap, Over]);
            w = vec![("vec", 400), ("hash", 400), ("grow", 10), ("big", 10)];
        }
        7 => {
            c.enabled = BASE | k(&[Leak]);
            c.faults = 60;
            w = vec![("vec", 120), ("hash", 96), ("mapfault", 80), ("nest", 320), ("plain", 160), ("ptr", 96), ("big", 4)];
        }
        8 => {
            c.faults = 5;
            w = vec![("hash", 20), ("big", 1)];
        }
        9 => {
            c.enabled = BASE | k(&[Zero, Over, Leak]);
            c.faults = 25;
            w = vec![("io", 2), ("big", 1)];
        }
        10 => {
            c.faults = 5;
            w = vec![("mappoint", 30), ("big", 1)];
        }
        11 => {
            c.faults = 5;
            w = vec![("mapstruct", 90), ("setmixed", 15), ("big", 1)];
        }
        12 => {
            w = vec![("mapiter", 75), ("setmixed", 15), ("big", 1)];
        }
        13 => {
            c.faults = 5;
            w = vec![("set", 100), ("big", 1)];
        }
        14 => {
            c.enabled = BASE | k(&[Bal, Leak, Zero]);
            w = vec![("bal", 1)];
        }
        15 => {
            c.enabled = k(&[Cb, Drop, Mem, Panic, Model]);
            c.cbs = true;
            w = vec![("vec", 25), ("map", 40), ("setmixed", 15), ("hash", 15), ("io", 5), ("ptr", 4), ("nest", 6), ("chaos", 20), ("hchaos", 5)];
        }
        16 => {
            c.enabled = BASE | k(&[Zero]);
            c.zero = true;
            c.fz = true;
            w = vec![("vec", 20), ("map", 20), ("setmixed", 12), ("hash", 12), ("io", 12), ("ptr", 10)];
        }
        17 => {
            c.enabled = BASE | k(&[Fmt, Over, Leak]);
            c.faults = 50;
            w = vec![("fmt", 1)];
        }
        18 => {
            c.enabled = k(&[Zero, Trait]);
            c.fz = true;
            w = vec![("vec", 40), ("hash", 30), ("ptr", 20), ("io", 10), ("traits", 2)];
        }
        19 => {
            w = vec![("cmp", 1)];
        }
        20 => {
            c.enabled = BASE | k(&[Trait, Leak]);
            w = vec![("thr", 20), ("traits", 1)];
        }
        21 => {
            c.enabled = BASE | k(&[Leak, Zero, Cap]);
            c.faults = 40;
            w = vec![("ptr", 1)];
        }
        _ => {}
    }
    for (n, wt) in w {
        if let Some(f) = engine(n) {
            c.engines.push((n, wt, f));
        }
    }
    c
}
fn engine(n: &str) -> Option<fn(&mut Cx)> {
    Some(match n {
        "vec" => types::vec,
        "io" => iow::run,
        "ptr" => ptrw::run,
        "nest" => ptrw::nest,
        "plain" => plainw::run,
        "fmt" => fmtw::run,
        "big" => big::run,
        "grow" => grow::run,
        "cmp" => cmpw::run,
        "thr" => thr::run,
        "traits" => traits::run,
        #[cfg(feature = "hashmap")]
        "hash" => types::hash,
        #[cfg(feature = "unstable")]
        "set" => types::set,
        #[cfg(feature = "unstable")]
        "setmixed" => types::setmixed,
        #[cfg(feature = "unstable")]
        "bal" => balw::run,
        #[cfg(feature = "unstable")]
        "chaos" => chaos::run,
        #[cfg(feature = "hashmap")]
        "hchaos" => hchaos::run,
        #[cfg(feature = "unstable")]
        "map" => types::mixed,
        #[cfg(feature = "unstable")]
        "mappoint" => types::point,
        #[cfg(feature = "unstable")]
        "mapstruct" => types::structure,
        #[cfg(feature = "unstable")]
        "mapiter" => types::iterate,
        #[cfg(feature = "unstable")]
        "mapfault" => types::faulty,
        _ => return None,
    })
}

pub struct Opts {
    prop: u32,
    seed: u64,
    stream: u64,
    start: u64,
    cases: u64,
    ms: u64,
    state: Option<String>,
    fp: Option<String>,
    trace: bool,
    only: Option<String>,
}
static CXP: AtomicPtr<Cx> = AtomicPtr::new(std::ptr::null_mut());
static FPS: AtomicPtr<Vec<u64>> = AtomicPtr::new(std::ptr::null_mut());
static SAMPLES: AtomicPtr<Vec<String>> = AtomicPtr::new(std::ptr::null_mut());
static ENGC: AtomicPtr<std::collections::BTreeMap<&'static str, u64>> = AtomicPtr::new(std::ptr::null_mut());
static OPTS: AtomicPtr<Opts> = AtomicPtr::new(std::ptr::null_mut());
pub static CASES: AtomicU64 = AtomicU64::new(0);
pub static CURRENT: AtomicU64 = AtomicU64::new(0);
pub static OPS: AtomicU64 = AtomicU64::new(0);

/// Print what was observed and end the process.
pub fn finish(code: i32) -> ! {
    mon::disarm();
    mon::end();
    unsafe {
        let (cx, fps, o) = (CXP.load(Relaxed), FPS.load(Relaxed), OPTS.load(Relaxed));
        if !cx.is_null() && !fps.is_null() {
            let cx = &*cx;
            let mut s = format!("{{\"done\":{{\"code\":{code},\"cases\":{},\"current\":{},\"ops\":{}", CASES.load(Relaxed), CURRENT.load(Relaxed), OPS.load(Relaxed));
            s.push_str(&format!(
                ",\"allocs\":{},\"frees\":{},\"injected\":{},\"block_checks\":{},\"elements\":{},\"drops\":{}",
                mon::TOTAL_ALLOCS.load(Relaxed),
                mon::TOTAL_FREES.load(Relaxed),
                mon::TOTAL_INJ.load(Relaxed),
                mon::GUARD_CHECKS.load(Relaxed),
                tok::MADE.load(Relaxed),
                tok::DROPS.load(Relaxed)
            ));
            s.push_str(",\"stats\":{");
            for (i, (k, v)) in cx.stats.iter().enumerate() {
                if i > 0 {
                    s.push(',')
                }
                s.push_str(&format!("{}:[{},{},{},{},{}]", cx::jstr(k), v[0], v[1], v[2], v[3], v[4]));
            }
            s.push_str("},\"max\":{");
            for (i, (k, v)) in cx.max.iter().enumerate() {
                if i > 0 {
                    s.push(',')
                }
                s.push_str(&format!("{}:{}", cx::jstr(k), v));
            }
            s.push_str("},\"engines\":{");
            for (i, (k, v)) in (*ENGC.load(Relaxed)).iter().enumerate() {
                if i > 0 {
                    s.push(',')
                }
                s.push_str(&format!("\"{k}\":{v}"));
            }
            s.push_str("},\"samples\":[");
            s.push_str(&(*SAMPLES.load(Relaxed)).join(","));
            s.push_str("]}}");
            println!("{s}");
            if let (false, Some(p)) = (o.is_null(), &(*o).fp) {
                let fps = &mut *fps;
                fps.sort_unstable();
                fps.dedup();
                let b: Vec<u8> = fps.iter().flat_map(|x| x.to_le_bytes()).collect();
                let _ = std::fs::write(p, b);
            }
        }
    }
    let _ = std::io::stdout().flush();
    std::process::exit(code)
}

fn cpu_ticks() -> u64 {
    // utime + stime, in 1/100 s
    let s = std::fs::read_to_string("/proc/self/stat").unwrap_or_default();
    let r = s.rsplit(')').next().unwrap_or("");
    let f: Vec<&str> = r.split_whitespace().collect();
    let g = |i: usize| f.get(i).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
    g(11) + g(12)
}
/// A single small case that burns this much processor time does not terminate.
const STUCK_CPU_S: u64 = 90;
fn watchdog() {
    std::thread::spawn(|| {
        let mut at = (u64::MAX, 0u64);
        loop {
            std::thread::sleep(std::time::Duration::from_secs(2));
            let c = CURRENT.load(Relaxed);
            let t = cpu_ticks();
            if at.0 != c {
                at = (c, t);
            } else if t - at.1 > STUCK_CPU_S * 100 {
                println!("{{\"report\":{{\"counts\":true,\"kind\":\"Hang\",\"msg\":\"an operation used more than {STUCK_CPU_S} s of processor time without returning\",\"engine\":\"?\",\"case\":{c},\"trace\":[]}}}}");
                println!("{{\"done\":{{\"code\":10,\"cases\":{},\"current\":{c},\"ops\":0,\"allocs\":0,\"frees\":0,\"injected\":0,\"block_checks\":0,\"elements\":0,\"drops\":0,\"stats\":{{}},\"max\":{{}},\"engines\":{{}},\"samples\":[]}}}}", CASES.load(Relaxed));
                let _ = std::io::stdout().flush();
                std::process::exit(10);
            }
        }
    });
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let mut o = Opts { prop: 0, seed: 1, stream: 0, start: 0, cases: u64::MAX, ms: u64::MAX, state: None, fp: None, trace: false, only: None };
    let mut i = 1;
    while i < a.len() {
        let v = || a.get(i + 1).cloned().unwrap_or_default();
        let n = || v().parse::<u64>().unwrap_or(0);
        match a[i].as_str() {
            "--prop" => o.prop = n() as u32,
            "--seed" => o.seed = n(),
            "--stream" => o.stream = n(),
            "--start" => o.start = n(),
            "--cases" => o.cases = n(),
            "--ms" => o.ms = n(),
            "--state" => o.state = Some(v()),
            "--fp" => o.fp = Some(v()),
            "--engine" => o.only = Some(v()),
            "--trace" => {
                o.trace = true;
                i += 1;
                continue;
            }
            x => {
                eprintln!("unknown argument {x}");
                std::process::exit(2)
            }
        }
        i += 2;
    }
    run(o)
}
fn run(o: Opts) -> ! {
    cx::install_hook();
    let mut c = conf(o.prop);
    if let Some(e) = &o.only {
        c.engines.retain(|x| x.0 == e);
    }
    if c.engines.is_empty() {
        println!("{{\"done\":{{\"code\":0,\"none\":true}}}}");
        std::process::exit(0);
    }
    let weights: Vec<u32> = c.engines.iter().map(|e| e.1).collect();
    CXP.store(Box::into_raw(Box::new(Cx::new(o.prop, "--", c.enabled))), Relaxed);
    FPS.store(Box::into_raw(Box::new(Vec::new())), Relaxed);
    SAMPLES.store(Box::into_raw(Box::new(Vec::new())), Relaxed);
    ENGC.store(Box::into_raw(Box::new(std::collections::BTreeMap::new())), Relaxed);
    let cx = unsafe { &mut *CXP.load(Relaxed) };
    cx.faults = c.faults;
    cx.zero = c.zero;
    cx.fz = c.fz;
    cx.cbs = c.cbs;
    cx.only_after_fault = c.after;
    cx.trace = o.trace;
    let state = o.state.as_ref().and_then(|p| std::fs::File::create(p).ok());
    if !cfg!(miri) {
        watchdog();
    }
    let t0 = std::time::Instant::now();
    let (seed, stream, start, cases, ms) = (o.seed, o.stream, o.start, o.cases, o.ms);
    OPTS.store(Box::leak(Box::new(o)), Relaxed);
    let mut case = start;
    while case - start < cases && (ms == u64::MAX || (t0.elapsed().as_millis() as u64) < ms) {
        CURRENT.store(case, Relaxed);
        let (cx, fps, samples, engc) = unsafe { (&mut *CXP.load(Relaxed), &mut *FPS.load(Relaxed), &mut *SAMPLES.load(Relaxed), &mut *ENGC.load(Relaxed)) };
        if let Some(f) = &state {
            use std::os::unix::fs::FileExt;
            let _ = f.write_at(&case.to_le_bytes(), 0);
        }
        let e = rng::Rng::new(&[seed, stream, case, 0xE]).weighted(&weights);
        let e = c.engines[e];
        cx.engine = e.0;
        cx.start(case, seed, stream);
        if samples.len() < 3 && case % 3 == 0 {
            cx.sample = Some(vec![]);
        }
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            (e.2)(cx);
            cx.closing();
        }));
        if r.is_err() {
            // a panic in harness code: the library made something impossible happen
            cx.fail(K::Model, &format!("inconsistent behaviour stopped the harness: {}", cx::panic_msg()));
        }
        if cx.nops >= 3 {
            fps.push(cx.fp);
            if fps.len() > 4_000_000 {
                fps.sort_unstable();
                fps.dedup();
            }
        }
        OPS.fetch_add(cx.nops, Relaxed);
        *engc.entry(e.0).or_insert(0) += 1;
        if let Some(v) = cx.sample.take() {
            let l: Vec<String> = v.iter().map(|s| cx::jstr(s)).collect();
            samples.push(format!("{{\"engine\":\"{}\",\"case\":{case},\"steps\":[{}]}}", e.0, l.join(",")));
        }
        CASES.fetch_add(1, Relaxed);
        case += 1;
    }
    finish(0)
}
