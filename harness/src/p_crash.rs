//! C03: what was committed survives crashes and write errors; what was not leaves no trace.

use std::path::Path;

use svm_state::GlobalState;
use svm_types::{BytesPrimitive, Layer, State};

use crate::core::*;
use crate::iolog::{self, Ev, Files, Loss};
use crate::p_state::*;
use crate::{ensure, ensure_eq};

#[derive(Clone)]
struct Durable {
    layers: Vec<World>,
    fps: Vec<State>,
}

fn durable(s: &Sut) -> Durable {
    Durable { layers: s.m.layers.clone(), fps: s.fps.clone() }
}

fn uri_of(dir: &Path) -> String {
    format!("sqlite://{}/db?mode=rwc", dir.display())
}

fn write_image(dir: &Path, f: &Files) -> R {
    let _ = std::fs::remove_dir_all(dir);
    if std::fs::create_dir_all(dir).is_err() {
        return harness("no scratch directory");
    }
    for (n, b) in f {
        if n.ends_with("-shm") {
            continue;
        }
        if std::fs::write(dir.join(n), b).is_err() {
            return harness("writing an image failed");
        }
    }
    Ok(())
}

/// Everything readable is that of `d`.
fn matches(ctx: &mut Ctx, gs: &mut GlobalState, d: &Durable, s: &Sut, what: &str) -> R {
    let top = guard(|| block_on(gs.current_layer()));
    match (d.layers.last(), top) {
        (None, Ok(Ok((l, _)))) => return violation(format!("{what}: layer {} exists", l.0)),
        (None, _) => {}
        (Some(_), Ok(Ok((l, st)))) => {
            ensure_eq!(l.0, d.layers.len() as u64 - 1, "{what}: current layer");
            if let Some(f) = d.fps.get(d.layers.len() - 1) {
                ensure_eq!(st.as_slice(), f.as_slice(), "{what}: fingerprint");
            }
        }
        (Some(_), r) => return violation(format!("{what}: current layer: {r:?}")),
    }
    observe(ctx, gs, d.layers.last().unwrap_or(&s.m.base), &s.addrs, &s.taddrs, what)?;
    ensure!(!gs.has_uncommitted_changes(), "{what}: there are uncommitted changes");
    for (l, w) in d.layers.iter().enumerate() {
        if l + 3 > d.layers.len() || ctx.rng.pct(15) {
            let mut h = gs.clone();
            *h.layer_query_parameter_mut() = Some(Layer(l as u64));
            observe(ctx, &h, w, &s.addrs, &s.taddrs, &format!("{what}: as of layer {l}"))?;
        }
    }
    Ok(())
}

fn judge_image(ctx: &mut Ctx, files: &Files, cands: &[&Durable], s: &Sut, what: &str) -> R {
    let dir = ctx.scratch.join(format!("img{}", ctx.index));
    write_image(&dir, files)?;
    let r = judge_dir(ctx, &dir, cands, s, what);
    let _ = std::fs::remove_dir_all(&dir);
    r.map(|_| ())
}

/// Opens the database in `dir`; returns which of the candidates it holds.
fn judge_dir(ctx: &mut Ctx, dir: &Path, cands: &[&Durable], s: &Sut, what: &str) -> R<(usize, GlobalState)> {
    let mut gs = match open(Some(&uri_of(dir)), &s.genesis) {
        Ok(gs) => gs,
        Err(p) => return violation(format!("{what}: opening panics at {}: {}", p.location, p.message)),
    };
    let mut errs = vec![];
    for (i, d) in cands.iter().enumerate() {
        match matches(ctx, &mut gs, d, s, what) {
            Ok(()) => {
                follow_up(ctx, &mut gs, d, s, what)?;
                return Ok((i, gs));
            }
            Err(Fail::Violation(m)) => errs.push(m),
            Err(e) => return Err(e),
        }
    }
    violation(format!("neither the state before nor the state after the interrupted operation: {}", errs.join(" / ")))
}

/// The recovered state is usable: one more layer can be committed on it and dropped again.
fn follow_up(ctx: &mut Ctx, gs: &mut GlobalState, d: &Durable, s: &Sut, what: &str) -> R {
    if d.layers.is_empty() || !ctx.rng.pct(25) {
        return Ok(());
    }
    let w = d.layers.last().unwrap();
    let (a, m) = match w.accounts.iter().next() {
        Some(x) => x,
        None => return Ok(()),
    };
    let mut st = match block_on(svm_state::AccountStorage::load(gs.clone(), &crate::engine::addr(a))) {
        Ok(st) => st,
        Err(e) => return violation(format!("{what}: {e}")),
    };
    let v = m.balance ^ 1;
    let r = block_on(async {
        st.set_balance(v).await?;
        gs.checkpoint().await?;
        gs.commit().await
    });
    match r {
        Ok((l, _)) => ensure_eq!(l.0, d.layers.len() as u64, "{what}: the next layer after recovery"),
        Err(e) => return violation(format!("{what}: committing after recovery fails: {e}")),
    }
    let mut next = w.clone();
    next.accounts.get_mut(a).unwrap().balance = v;
    observe(ctx, gs, &next, &s.addrs, &s.taddrs, &format!("{what}: the first layer after recovery"))?;
    if let Err(e) = block_on(gs.rewind(Layer(d.layers.len() as u64 - 1))) {
        return violation(format!("{what}: rewinding after recovery fails: {e}"));
    }
    observe(ctx, gs, w, &s.addrs, &s.taddrs, &format!("{what}: rewound after recovery"))?;
    ctx.event("commits_after_recovery");
    Ok(())
}

fn step(ctx: &mut Ctx, s: &mut Sut) -> R {
    // Few writes, many commits; the refusals are C01's business.
    for _ in 0..ctx.rng.range(0, 6) {
        s.op_write(ctx)?;
        if ctx.rng.pct(20) {
            s.op_write(ctx)?;
        }
    }
    Ok(())
}

fn heavy_step(ctx: &mut Ctx, s: &mut Sut) -> R {
    let t = *ctx.rng.pick(&s.taddrs);
    let mut tm = match s.m.working.templates.get(&t) {
        Some(o) => template_with(&mut ctx.rng, o.first, o.sizes.clone()),
        None => random_template(&mut ctx.rng),
    };
    let n = ctx.rng.range(300_000, 700_000);
    let code = svm_types::CodeSection::new(svm_types::CodeKind::Wasm, ctx.rng.bytes(n), 0, svm_types::GasMode::Fixed, 1);
    tm.core.insert(code.into());
    tm.tag = ctx.rng.u64();
    ctx.log(|| format!("create template {} of {n} bytes", hex::encode(t)));
    let r = block_on(svm_state::TemplateStorage::create(s.gs.clone(), &svm_types::TemplateAddr::new(&t), tm.core.clone(), tm.noncore.clone()));
    if let Err(e) = r {
        return violation(format!("creating a template fails: {e}"));
    }
    s.m.working.templates.insert(t, tm);
    s.m.dirty = true;
    Ok(())
}

fn c03(ctx: &mut Ctx) -> R {
    if ctx.rng.pct(35) {
        return faults(ctx);
    }
    let dir = ctx.scratch.join(format!("c{}", ctx.index));
    let _ = std::fs::remove_dir_all(&dir);
    if std::fs::create_dir_all(&dir).is_err() {
        return harness("no scratch directory");
    }
    iolog::start(&dir);
    let r = crash_case(ctx, &dir);
    iolog::stop();
    let _ = std::fs::remove_dir_all(&dir);
    r
}

fn crash_case(ctx: &mut Ctx, dir: &Path) -> R {
    let mut s = new_sut(ctx, dir)?;
    let mut states = vec![durable(&s)];
    iolog::mark(0);
    // Enough data for the database to move its log into the main file now and then.
    let heavy = ctx.rng.pct(3);
    let ops = if heavy { ctx.rng.range(8, 12) } else { ctx.rng.range(2, 9) };
    for _ in 0..ops {
        if heavy {
            heavy_step(ctx, &mut s)?;
        }
        step(ctx, &mut s)?;
        if ctx.rng.pct(10) {
            s.m.rollback();
            if let Err(e) = block_on(s.gs.rollback()) {
                return violation(format!("rollback fails: {e}"));
            }
        }
        match ctx.rng.below(10) {
            0 | 1 if !s.m.layers.is_empty() => {
                if s.m.dirty {
                    s.m.checkpoint();
                    if let Err(e) = block_on(s.gs.checkpoint()) {
                        return violation(format!("checkpoint fails: {e}"));
                    }
                }
                let l = s.m.layers.len() - 1 - ctx.rng.below(s.m.layers.len().min(3));
                s.rewind(ctx, l)?;
            }
            2 => {
                ctx.log(|| "reopen".into());
                let uri = s.uri.clone().unwrap();
                s.gs = match open(Some(&uri), &s.genesis) {
                    Ok(gs) => gs,
                    Err(p) => return violation(format!("reopening panics at {}: {}", p.location, p.message)),
                };
                s.m.drop_uncommitted();
            }
            _ => {
                if s.m.dirty {
                    if let Err(e) = block_on(s.gs.checkpoint()) {
                        return violation(format!("checkpoint fails: {e}"));
                    }
                    s.m.checkpoint();
                }
                s.commit(ctx)?;
            }
        }
        states.push(durable(&s));
        iolog::mark(states.len() - 1);
    }
    // Things pending at the end must not become durable.
    step(ctx, &mut s)?;
    let events = iolog::stop();
    ctx.events("io_events", events.len() as u64);
    let syncs = events.iter().filter(|e| matches!(e, Ev::Sync(_))).count();
    ctx.events("syncs", syncs as u64);
    ensure!(events.iter().any(|e| matches!(e, Ev::Write(..))), "nothing was ever written to the database's files");

    let n = events.len();
    let budget = if ctx.tier == Tier::Quick { 26 } else { 90 } / if heavy { 2 } else { 1 };
    ctx.events("checkpoints_of_the_log", events.iter().filter(|e| matches!(e, Ev::Sync(f) if f == "db")).count() as u64);
    for i in 0..budget {
        let cut = match i {
            0 => n,
            _ if ctx.rng.pct(30) => {
                // just after an acknowledgement
                let marks: Vec<usize> = (0..n).filter(|&i| matches!(events[i], Ev::Mark(_))).collect();
                *ctx.rng.pick(&marks) + 1
            }
            _ => ctx.rng.below(n + 1),
        };
        let acked = events[..cut].iter().rev().find_map(|e| match e {
            Ev::Mark(k) => Some(*k),
            _ => None,
        });
        let loss = *ctx.rng.pick(&[Loss::Kill, Loss::Kill, Loss::All, Loss::Suffix, Loss::Any]);
        let torn = ctx.rng.pct(30) && !matches!(events.get(cut.wrapping_sub(1)), Some(Ev::Mark(_)));
        let files = iolog::image(&events, cut, loss, torn, &mut ctx.rng);
        let k = acked.unwrap_or(0);
        let mut cands = vec![&states[k]];
        if acked.is_some() && k + 1 < states.len() && !matches!(events.get(cut.wrapping_sub(1)), Some(Ev::Mark(_))) {
            cands.push(&states[k + 1]);
        }
        let what = format!("crash ({loss:?}{}) after {cut} of {n} writes, {} acknowledged", if torn { ", torn" } else { "" }, k);
        let before = ctx.trace.len();
        ctx.trace.push(what.clone());
        judge_image(ctx, &files, &cands, &s, &what)?;
        ctx.trace.truncate(before);
        ctx.event(match loss {
            Loss::Kill => "process_crashes",
            _ => "machine_crashes",
        });
        if torn {
            ctx.event("torn_writes");
        }
        let sig = hash_bytes(format!("{:?}{cut}{loss:?}{torn}", ctx.seed).as_bytes());
        ctx.evaluated(if cut > 0 && cut < n { Some(sig) } else { None });
    }
    let t = ctx.trace.join(" | ");
    ctx.sample(|| t);
    Ok(())
}

fn new_sut(ctx: &mut Ctx, dir: &Path) -> R<Sut> {
    Sut::at(ctx, Some(uri_of(dir)), |_, _, _| {})
}

/// Errors of the file system during single operations.
fn faults(ctx: &mut Ctx) -> R {
    let dir = ctx.scratch.join(format!("f{}", ctx.index));
    let _ = std::fs::remove_dir_all(&dir);
    if std::fs::create_dir_all(&dir).is_err() {
        return harness("no scratch directory");
    }
    iolog::start(&dir);
    let r = fault_case(ctx, &dir);
    iolog::stop();
    let _ = std::fs::remove_dir_all(&dir);
    r
}

fn arm(ctx: &mut Ctx) -> String {
    let n = match ctx.rng.below(3) {
        0 => ctx.rng.below(3),
        1 => ctx.rng.below(10),
        _ => ctx.rng.below(40),
    } as i64;
    let errno = *ctx.rng.pick(&[libc::EIO, libc::ENOSPC, libc::EDQUOT]);
    let sticky = ctx.rng.bool();
    iolog::fault(n, errno, sticky);
    format!("errno {errno} at write {n}{}", if sticky { " and after" } else { "" })
}

fn fault_case(ctx: &mut Ctx, dir: &Path) -> R {
    let mut s = Sut::at(ctx, Some(uri_of(dir)), |ctx, uri, genesis| {
        if ctx.rng.pct(50) {
            // A first opening that may fail half-way.
            let what = arm(ctx);
            let r = open(Some(uri), genesis);
            let hit = iolog::clear_fault();
            ctx.log(|| format!("first opening with {what}: hit {hit}, ok {}", r.is_ok()));
            if hit > 0 {
                ctx.event("faults_while_opening");
            }
        }
    })?;
    let rounds = ctx.rng.range(3, 9);
    let mut hits = 0;
    // What an operation that reported an error may yet turn out to have left on the disk.
    let mut attempted: Option<Durable> = None;
    for _ in 0..rounds {
        step(ctx, &mut s)?;
        if s.m.dirty {
            if let Err(e) = block_on(s.gs.checkpoint()) {
                return violation(format!("checkpoint fails: {e}"));
            }
            s.m.checkpoint();
        }
        let old = durable(&s);
        if ctx.rng.pct(12) {
            let what = arm(ctx);
            let uri = s.uri.clone().unwrap();
            let r = open(Some(&uri), &s.genesis);
            let hit = iolog::clear_fault();
            ctx.log(|| format!("reopen with {what}: hit {hit}, ok {}", r.is_ok()));
            if let Ok(mut gs) = r {
                matches(ctx, &mut gs, &old, &s, "reopened with errors")?;
            }
            s.gs = match open(Some(&uri), &s.genesis) {
                Ok(gs) => gs,
                Err(p) => return violation(format!("reopening after {what} panics at {}: {}", p.location, p.message)),
            };
            s.m.drop_uncommitted();
            let mut gs = s.gs.clone();
            matches(ctx, &mut gs, &old, &s, "reopened after errors")?;
            if hit > 0 {
                ctx.event("faults_while_opening");
            }
            continue;
        }
        let rewinding = !s.m.layers.is_empty() && ctx.rng.pct(25);
        let target = if rewinding { s.m.layers.len() - 1 - ctx.rng.below(s.m.layers.len().min(3)) } else { 0 };
        let what = arm(ctx);
        let res: Result<Option<(Layer, State)>, String> = if rewinding {
            match guard(|| block_on(s.gs.rewind(Layer(target as u64)))) {
                Ok(Ok(())) => Ok(None),
                Ok(Err(e)) => Err(e.to_string()),
                Err(p) => Err(format!("panic: {}", p.message)),
            }
        } else {
            match guard(|| block_on(s.gs.commit())) {
                Ok(Ok(x)) => Ok(Some(x)),
                Ok(Err(e)) => Err(e.to_string()),
                Err(p) => Err(format!("panic: {}", p.message)),
            }
        };
        let hit = iolog::clear_fault();
        ctx.log(|| format!("{} with {what}: hit {hit} -> {res:?}", if rewinding { format!("rewind {target}") } else { "commit".into() }));
        let what = format!("after {} with {what}", if rewinding { "rewinding" } else { "committing" });
        match res {
            Ok(x) => {
                attempted = None;
                if rewinding {
                    s.m.rewind(target);
                    s.fps.truncate(target + 1);
                } else {
                    let (l, f) = x.unwrap();
                    s.m.commit();
                    s.fps.push(f);
                    ensure_eq!(l.0, s.m.layers.len() as u64 - 1, "{what}: committed layer");
                }
                if hit > 0 {
                    ctx.event("faults_survived");
                }
            }
            Err(e) => {
                ensure!(hit > 0, "{what}: fails though no write did: {e}");
                ctx.event("faults_reported");
                hits += 1;
                let mut new = old.clone();
                if rewinding {
                    new.layers.truncate(target + 1);
                    new.fps.truncate(target + 1);
                } else {
                    new.layers.push(s.m.saved.clone());
                }
                attempted = Some(new.clone());
                // Nothing happened, as far as this handle is concerned.
                s.observe_now(ctx, &what)?;
                s.observe_top(&what)?;
                for l in 0..s.m.layers.len() {
                    if ctx.rng.pct(40) {
                        s.observe_layer(ctx, l, &what)?;
                    }
                }
                if ctx.rng.pct(60) {
                    // Try again on the same handle.
                    if rewinding {
                        s.rewind(ctx, target)?;
                    } else {
                        s.commit(ctx)?;
                    }
                    attempted = None;
                    ctx.event("retries");
                } else {
                    // Reopened, it is the state before or the state after.
                    let uri = s.uri.clone().unwrap();
                    s.gs = match open(Some(&uri), &s.genesis) {
                        Ok(gs) => gs,
                        Err(p) => return violation(format!("{what}: reopening panics at {}: {}", p.location, p.message)),
                    };
                    let mut gs = s.gs.clone();
                    let top = guard(|| block_on(gs.current_layer()));
                    let n = match &top {
                        Ok(Ok((l, _))) => l.0 as usize + 1,
                        _ => 0,
                    };
                    let d = if n == old.layers.len() { &old } else { &new };
                    ensure_eq!(n, d.layers.len(), "{what}: layers after reopening");
                    if d.fps.len() < d.layers.len() {
                        if let Ok(Ok((_, f))) = &top {
                            new.fps.push(*f);
                        }
                    }
                    let d = if n == old.layers.len() { &old } else { &new };
                    matches(ctx, &mut gs, d, &s, &format!("{what}: reopened"))?;
                    s.m.layers = d.layers.clone();
                    s.fps = d.fps.clone();
                    s.m.drop_uncommitted();
                    ctx.event("reopened_after_faults");
                }
            }
        }
        s.observe_now(ctx, &what)?;
        s.observe_top(&what)?;
    }
    // What succeeded is there for the next process.
    let events = iolog::stop();
    let files = iolog::image(&events, events.len(), *ctx.rng.pick(&[Loss::Kill, Loss::All]), false, &mut ctx.rng);
    let d = durable(&s);
    let mut cands = vec![&d];
    cands.extend(attempted.as_ref());
    judge_image(ctx, &files, &cands, &s, "a crash after errors")?;
    let sig = hash_bytes(ctx.trace.join("\n").as_bytes());
    ctx.evaluated(if hits > 0 { Some(sig) } else { None });
    Ok(())
}

pub static C03: Spec = Spec {
    id: "C03",
    rule: "an execution is one crash image (or one history with file-system errors): the writes, truncations and syncs that the real database makes are recorded, the files are rebuilt as a process or machine crash at a random point leaves them (unsynced writes lost, torn), and the recovered state is compared with the states before and after the interrupted operation; non-trivial when the crash lies strictly inside the history or an error was reported to the caller",
    assumptions: &["a sync makes everything written to that file before it durable; file creation and removal take effect at once", "-shm files are rebuilt on opening"],
    quick_cases: 40_000,
    quick_secs: 25,
    thorough_cases: 200_000,
    required: &["process_crashes", "machine_crashes", "torn_writes", "faults_reported", "retries", "reopened_after_faults", "faults_while_opening", "commits_after_recovery", "syncs", "checkpoints_of_the_log"],
    case: c03,
    ..DEFAULT_SPEC
};
