//! C13: memory and other resources behind the C interface, under AddressSanitizer.

use std::sync::{Arc, Barrier};
use std::time::{Duration, Instant};

use svm_codec::Codec;
use svm_types::BytesPrimitive;

use crate::core::*;
use crate::engine::*;
use crate::ensure;
use crate::ensure_eq;
use crate::ffi::*;
use crate::p_ffi::{ffi_mix, warm_up};
use crate::p_state::A20;
use crate::script::Knobs;

#[cfg(svm_asan)]
extern "C" {
    fn __sanitizer_get_current_allocated_bytes() -> usize;
}

fn heap() -> usize {
    #[cfg(svm_asan)]
    unsafe {
        return __sanitizer_get_current_allocated_bytes();
    }
    #[cfg(not(svm_asan))]
    0
}

fn entries(dir: &str) -> usize {
    std::fs::read_dir(dir).map(|d| d.count()).unwrap_or(0)
}

/// Threads and open files; the directory being read counts as one.
fn resources() -> (usize, usize) {
    (entries("/proc/self/task"), entries("/proc/self/fd"))
}

/// Waits until there are no more threads and files than `base`.
fn settles(base: (usize, usize)) -> Result<(), (usize, usize)> {
    let t0 = Instant::now();
    loop {
        let r = resources();
        if r.0 <= base.0 && r.1 <= base.1 {
            return Ok(());
        }
        if t0.elapsed() > Duration::from_secs(20) {
            return Err(r);
        }
        std::thread::sleep(Duration::from_millis(2));
    }
}

struct One {
    f: Ffi,
    log: Vec<(Txn, Res)>,
    broken: Option<Fail>,
}

impl Backend for One {
    fn exec(&mut self, t: &Txn) -> Ans {
        let r = match self.f.exec(t) {
            Ok(r) => r,
            Err(e) => {
                self.broken = Some(e);
                return Ans::Refused("broken".into());
            }
        };
        self.log.push((t.clone(), r.clone()));
        match r {
            Res::Ok => Ans::Done,
            Res::Error(e) => Ans::Refused(e),
            Res::Receipt(b) => match guard(|| svm_types::Receipt::decode_bytes(&b)) {
                Ok(Ok(svm_types::Receipt::Deploy(r))) => Ans::Deploy(r),
                Ok(Ok(svm_types::Receipt::Spawn(r))) => Ans::Spawn(r),
                Ok(Ok(svm_types::Receipt::Call(r))) => Ans::Call(r),
                _ => Ans::Refused("undecodable receipt".into()),
            },
        }
    }
    fn account(&mut self, a: &A20) -> Option<(u64, u128, A20)> {
        self.f.account(a).unwrap_or(None)
    }
    fn uncommitted(&mut self) -> bool {
        self.f.uncommitted().unwrap_or(false)
    }
    fn layer(&mut self) -> Option<(u64, Vec<u8>)> {
        self.f.layer().unwrap_or(None)
    }
}

#[derive(Clone)]
struct History {
    ops: Vec<(Txn, Res)>,
    addrs: Vec<A20>,
    end: Vec<String>,
    layers: bool,
}

/// A history, with the answers that a runtime of its own gave.
fn history(ctx: &mut Ctx, lo: usize, hi: usize) -> R<History> {
    let f = Ffi::create(None)?;
    let ptr = f.ptr;
    let r = history_on(ctx, f, lo, hi);
    let d = take(svm_runtime_ffi::svm_runtime_destroy(ptr), false)?;
    let h = r?;
    ensure!(d == Res::Ok, "destroying a runtime: {}", d.brief());
    Ok(h)
}

fn history_on(ctx: &mut Ctx, f: Ffi, lo: usize, hi: usize) -> R<History> {
    let knobs = Knobs { transfer_pct: 20, fail_pct: 6, storage_pct: 35, log_pct: 25, bad_alloc_pct: 5, ..Knobs::default() };
    let mut e = Eng::new(ctx, One { f, log: vec![], broken: None }, &[], knobs, ffi_mix())?;
    let mut todo = warm_up(ctx, &e);
    todo.reverse();
    for _ in 0..todo.len() + ctx.rng.range(lo, hi) {
        let t = match todo.pop() {
            Some(t) => t,
            None => {
                let op = e.random_op(ctx);
                for_ffi(e.txn(ctx, op))
            }
        };
        let r = e.apply(ctx, &t);
        if let Some(f) = e.b.broken.take() {
            return Err(f);
        }
        match r {
            Ok(_) => {}
            // Other properties' business
            Err(Fail::Skip(_)) => break,
            Err(f) => return Err(f),
        }
    }
    let mut addrs = e.addrs.clone();
    addrs.extend(e.contracts.iter().map(|d| b3(&d.addr)));
    let layers = !e.m.layers.is_empty();
    let end = crate::p_ffi::view(&mut e.b.f, &addrs, layers)?;
    Ok(History { ops: e.b.log, addrs, end, layers })
}

/// The same operations on another runtime, answered the same.
fn again(h: &History, f: &mut Ffi, who: &str) -> R {
    for (i, (t, want)) in h.ops.iter().enumerate() {
        let got = f.exec(t)?;
        ensure!(
            same(&got, want),
            "{who}: operation {i}, {}, is answered {}, by a runtime of its own {}",
            short(&t.op),
            got.brief(),
            want.brief()
        );
    }
    let end = crate::p_ffi::view(f, &h.addrs, h.layers)?;
    ensure_eq!(&end, &h.end, "{who}: what is visible at the end");
    Ok(())
}

fn destroy(f: Ffi) -> R {
    let n = svm_runtime_ffi::svm_runtimes_count();
    let ptr = f.ptr;
    let d = f.destroy()?;
    ensure!(d == Res::Ok, "destroying a runtime: {}", d.brief());
    ensure_eq!(svm_runtime_ffi::svm_runtimes_count(), n - 1, "number of runtimes after destroying one of {n}");
    let d = take(svm_runtime_ffi::svm_runtime_destroy(ptr), false)?;
    ensure!(d.is_err(), "a runtime can be destroyed twice");
    Ok(())
}

fn file(ctx: &Ctx, n: usize) -> (String, std::path::PathBuf) {
    let dir = ctx.scratch.join(format!("life{n}"));
    let _ = std::fs::remove_dir_all(&dir);
    let _ = std::fs::create_dir_all(&dir);
    (format!("sqlite://{}/db?mode=rwc", dir.display()), dir)
}

/// Created, used and destroyed over and over, a runtime leaves nothing behind.
fn lifecycle(ctx: &mut Ctx) -> R {
    let h = history(ctx, 5, 20)?;
    let mut base = None;
    let mut sizes = vec![];
    let on_disk = ctx.rng.pct(40);
    let raids = raids(ctx, &h);
    let rounds = 5;
    for round in 0..rounds {
        let before = svm_runtime_ffi::svm_runtimes_count();
        let (uri, dir) = file(ctx, 0);
        let uri = if on_disk { Some(uri.as_str()) } else { None };
        hold();
        let mut f = Ffi::create(uri)?;
        ensure_eq!(svm_runtime_ffi::svm_runtimes_count(), before + 1, "number of runtimes after creating one");
        f.c_free = ctx.rng.bool();
        let r = again(&h, &mut f, "a later runtime");
        // Then what must be refused, as often in every round.
        for (kind, env, msg, c) in &raids {
            if *kind < 3 {
                f.validate(*kind, msg)?;
            }
            f.run(*kind, env, msg, c)?;
        }
        // Results outlive the runtime, are freed in any order and by any thread.
        let mut results = held();
        if ctx.rng.bool() {
            let half = results.len() / 2;
            for x in results.drain(..half) {
                x.free(ctx.rng.bool())?;
            }
        }
        r?;
        let last = f.layer()?;
        destroy(f)?;
        ctx.rng.shuffle(&mut results);
        ctx.events("held_results", results.len() as u64);
        let c_free = ctx.rng.bool();
        if ctx.rng.bool() {
            let t = std::thread::spawn(move || -> R {
                for x in results {
                    x.free(c_free)?;
                }
                Ok(())
            });
            t.join().map_err(|_| Fail::Violation("freeing results in another thread panics".into()))??;
        } else {
            for x in results {
                x.free(c_free)?;
            }
        }
        if let (Some(uri), true) = (uri, last.is_some()) {
            // What was committed is there when it is opened again.
            let mut f = Ffi::create(Some(uri))?;
            ensure_eq!(f.layer()?, last, "the layer after reopening");
            destroy(f)?;
            ctx.event("reopened");
        }
        drop(dir);
        let now = match base {
            None => {
                std::thread::sleep(Duration::from_millis(30));
                resources()
            }
            Some(b) => b,
        };
        base = Some(now);
        if let Err(r) = settles(now) {
            return violation(format!(
                "after round {round} of creating, using and destroying a runtime there are {} threads and {} files, before {} and {}",
                r.0, r.1, now.0, now.1
            ));
        }
        sizes.push(heap());
    }
    ctx.events("rounds", rounds);
    if std::env::var("SVMCHECK_VERBOSE").is_ok() {
        eprintln!("heap {:?} over {} ops", sizes.windows(2).map(|w| w[1] as i64 - w[0] as i64).collect::<Vec<_>>(), h.ops.len());
    }
    let growth: Vec<i64> = sizes.windows(2).map(|w| w[1] as i64 - w[0] as i64).collect();
    ensure!(
        growth[1..].iter().any(|&g| g <= 0),
        "every time a runtime is created, used ({} operations, {} refused ones) and destroyed the heap grows: {growth:?} bytes",
        h.ops.len(),
        raids.len()
    );
    ctx.event("heap_checks");
    let sig = hash_bytes(format!("{:?}", h.ops.iter().map(|o| short(&o.0.op)).collect::<Vec<_>>()).as_bytes());
    ctx.evaluated(Some(sig));
    Ok(())
}

/// Hostile programs and damaged messages, with their envelopes and contexts.
fn raids(ctx: &mut Ctx, h: &History) -> Vec<(usize, Vec<u8>, Vec<u8>, Vec<u8>)> {
    let mut v = vec![];
    for _ in 0..ctx.rng.below(4) {
        if let Some(x) = crate::hostile::random(&mut ctx.rng) {
            ctx.log(|| format!("hostile program: {}", x.what));
            v.push((0, vec![0; 60], x.message(), vec![0; 72]));
            ctx.event("hostile_programs");
            if x.runnable {
                let t = svm_types::TemplateAddr::new(&b3(&x.wasm));
                let n = ctx.rng.below(40);
                let msg = svm_types::SpawnAccount::new(0, &t, "x", "initialize", ctx.rng.bytes(n)).encode_to_vec();
                v.push((1, vec![0; 60], msg, vec![0; 72]));
            }
        }
    }
    let txs: Vec<&Txn> = h.ops.iter().map(|o| &o.0).filter(|t| !t.msg.is_empty()).collect();
    for _ in 0..ctx.rng.below(12) {
        if txs.is_empty() {
            break;
        }
        let t = *ctx.rng.pick(&txs);
        let mut msg = t.msg.clone();
        crate::p_ffi::mutate(&mut ctx.rng, &mut msg);
        let kind = match t.op {
            Op::Deploy { .. } => 0,
            Op::Spawn { .. } => 1,
            Op::Verify { .. } => 3,
            _ => 2,
        };
        let kind = if ctx.rng.pct(85) { kind } else { ctx.rng.below(4) };
        v.push((kind, envelope(&t.env), msg, context(&t.context)));
        ctx.event("damaged_messages");
    }
    v
}

fn unpin() {
    unsafe {
        let mut set: libc::cpu_set_t = std::mem::zeroed();
        for i in 0..libc::sysconf(libc::_SC_NPROCESSORS_CONF).max(1) as usize {
            libc::CPU_SET(i, &mut set);
        }
        libc::sched_setaffinity(0, std::mem::size_of_val(&set), &set);
    }
}

/// Runtimes used by threads of their own don't notice each other.
fn threads(ctx: &mut Ctx) -> R {
    let n = ctx.rng.range(2, 4);
    let mut hs = vec![];
    for _ in 0..n {
        hs.push(history(ctx, 3, 14)?);
    }
    if ctx.rng.pct(30) {
        // Everyone does the same
        for i in 1..n {
            hs[i] = hs[0].clone();
        }
    }
    let barrier = Arc::new(Barrier::new(n));
    let before = svm_runtime_ffi::svm_runtimes_count();
    let mut ts = vec![];
    for (i, h) in hs.into_iter().enumerate() {
        let (uri, dir) = file(ctx, i);
        let barrier = barrier.clone();
        let mut rng = ctx.rng.fork();
        ts.push(std::thread::spawn(move || -> R<(u64, u64)> {
            unpin();
            barrier.wait();
            let mut ops = 0;
            for _ in 0..rng.range(1, 2) {
                let _ = std::fs::remove_dir_all(&dir);
                let _ = std::fs::create_dir_all(&dir);
                let keep = rng.bool();
                if keep {
                    hold();
                }
                let mut f = Ffi::create(Some(&uri))?;
                f.c_free = rng.bool();
                let r = again(&h, &mut f, &format!("thread {i}"));
                ops += h.ops.len() as u64;
                let d = f.destroy()?;
                for x in held() {
                    x.free(rng.bool())?;
                }
                r?;
                ensure!(d == Res::Ok, "destroying a runtime: {}", d.brief());
            }
            Ok((ops, hash_bytes(h.end.join(",").as_bytes())))
        }));
    }
    let mut fail = None;
    let (mut ops, mut sig) = (0, 0u64);
    for t in ts {
        match t.join() {
            Ok(Ok((o, s))) => {
                ops += o;
                sig = mix(sig ^ s);
            }
            Ok(Err(f)) => fail = fail.or(Some(f)),
            Err(_) => fail = fail.or(Some(Fail::Violation("a thread of its own panicked".into()))),
        }
    }
    if let Some(f) = fail {
        return Err(f);
    }
    ensure_eq!(svm_runtime_ffi::svm_runtimes_count(), before, "number of runtimes once all threads are done");
    ctx.events("concurrent_operations", ops);
    ctx.event("concurrent_histories");
    ctx.evaluated(Some(sig));
    Ok(())
}

fn c13(ctx: &mut Ctx) -> R {
    match ctx.rng.below(8) {
        0..=2 => lifecycle(ctx),
        3..=4 => threads(ctx),
        _ => {
            ctx.event("hostile_histories");
            crate::p_ffi::c12(ctx)
        }
    }
}

pub static C13: Spec = Spec {
    id: "C13",
    rule: "under AddressSanitizer, a case is a runtime created, used and destroyed five times over the same history with results held, freed late, both ways and in other threads; or 2-4 runtimes in threads of their own on databases of their own, compared with the same histories run alone; or a history of hostile calls as in C12; threads, open files, heap and the number of runtimes are monitored; distinct by history",
    assumptions: &["one runtime is used by one thread at a time"],
    quick_cases: 3000,
    thorough_cases: 60_000,
    quick_secs: 35,
    required: &["rounds", "held_results", "reopened", "heap_checks", "concurrent_operations", "hostile_histories", "hostile_programs", "damaged_messages"],
    case: c13,
    ..DEFAULT_SPEC
};
