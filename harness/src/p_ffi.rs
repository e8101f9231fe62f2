//! C12-C14: the C interface.

use svm_codec::Codec;
use svm_types::BytesPrimitive;

use crate::core::*;
use crate::engine::*;
use crate::ensure;
use crate::ffi::*;
use crate::p_state::A20;
use crate::script::Knobs;

pub fn ffi_mix() -> Mix {
    Mix { create_account: false, deploy: 5, spawn: 8, call: 60, admin: 10, transfer: 8, ..Mix::default() }
}

/// What the C interface lets one see.
pub fn view(f: &mut Ffi, addrs: &[A20], layers: bool) -> R<Vec<String>> {
    let mut v = vec![];
    for a in addrs {
        v.push(format!("{}: {:?}", hex::encode(a), f.account(a)?));
    }
    v.push(format!("uncommitted changes: {}", f.uncommitted()?));
    if layers {
        v.push(format!("layer: {:?}", f.layer()?));
    }
    Ok(v)
}

fn all_addrs<B: Backend>(e: &Eng<B>) -> Vec<A20> {
    let mut v = e.addrs.clone();
    v.extend(e.contracts.iter().map(|d| b3(&d.addr)));
    v
}

fn compare_views<B: Backend>(e: &mut Eng<B>, f: &mut Ffi, what: &str) -> R {
    for a in all_addrs(e) {
        let (want, got) = (e.b.account(&a), f.account(&a)?);
        ensure!(got == want, "{what}: account {} is {got:?} through the C interface, {want:?} in the runtime", hex::encode(a));
    }
    let (want, got) = (e.b.uncommitted(), f.uncommitted()?);
    ensure!(got == want, "{what}: uncommitted changes: {got} through the C interface, {want} in the runtime");
    if !e.m.layers.is_empty() {
        let (want, got) = (e.b.layer(), f.layer()?);
        ensure!(got == want, "{what}: the layer is {got:?} through the C interface, {want:?} in the runtime");
    }
    Ok(())
}

/// Forwards to the Rust interface, remembering the last answer.
struct Recording {
    inner: RustBackend,
    last: Option<Ans>,
}

impl Backend for Recording {
    fn exec(&mut self, t: &Txn) -> Ans {
        let a = self.inner.exec(t);
        self.last = Some(a.clone());
        a
    }
    fn account(&mut self, a: &A20) -> Option<(u64, u128, A20)> {
        self.inner.account(a)
    }
    fn uncommitted(&mut self) -> bool {
        self.inner.uncommitted()
    }
    fn layer(&mut self) -> Option<(u64, Vec<u8>)> {
        self.inner.layer()
    }
}

/// Runs the same operation through both interfaces.
struct Both {
    rust: Recording,
    ffi: Ffi,
    broken: Option<String>,
    done: u64,
}

impl Backend for Both {
    fn exec(&mut self, t: &Txn) -> Ans {
        let a = self.rust.exec(t);
        if self.broken.is_some() {
            return a;
        }
        self.done += 1;
        match self.ffi.exec(t) {
            Ok(got) => {
                let want = encoded(&a);
                if !same(&got, &want) {
                    self.broken =
                        Some(format!("{}: the C interface answers {}, the runtime {} ({})", short(&t.op), got.brief(), want.brief(), brief(&a)));
                }
            }
            Err(Fail::Violation(m)) => self.broken = Some(m),
            Err(e) => self.broken = Some(format!("{e:?}")),
        }
        a
    }
    fn account(&mut self, a: &A20) -> Option<(u64, u128, A20)> {
        self.rust.account(a)
    }
    fn uncommitted(&mut self) -> bool {
        self.rust.uncommitted()
    }
    fn layer(&mut self) -> Option<(u64, Vec<u8>)> {
        self.rust.layer()
    }
}

fn c14(ctx: &mut Ctx) -> R {
    let (rt, gs) = match open_runtime(None) {
        Ok(x) => x,
        Err(p) => return violation(format!("creating a runtime panics at {}: {}", p.location, p.message)),
    };
    let ffi = Ffi::create(None)?;
    let ptr = ffi.ptr;
    let b = Both { rust: Recording { inner: RustBackend { rt, gs }, last: None }, ffi, broken: None, done: 0 };
    let knobs = Knobs { transfer_pct: 25, fail_pct: 6, storage_pct: 35, bad_alloc_pct: 5, ..Knobs::default() };
    let r = c14_history(ctx, b, knobs);
    let d = take(svm_runtime_ffi::svm_runtime_destroy(ptr), false)?;
    r?;
    ensure!(d == Res::Ok, "destroying the runtime: {}", d.brief());
    Ok(())
}

/// Spawns an account of every contract and gives it coins.
pub fn warm_up<B: Backend>(ctx: &mut Ctx, e: &Eng<B>) -> Vec<Txn> {
    let mut v = vec![];
    for d in 0..e.contracts.len() {
        let d = e.contracts[d].clone();
        let at = b3(&d.addr);
        for f in d.c.funcs.iter().filter(|f| f.ctor) {
            let calldata = e.calldata(&mut ctx.rng, &at, &f.acts, &d.c);
            let op = Op::Spawn { template: d.addr, name: ctx.rng.text(9), ctor: f.name.clone(), calldata, gas: None };
            let t = for_ffi(e.txn(ctx, op));
            if matches!(e.predict(&t), Pred::Success { .. }) {
                v.push(t);
                let amount = 1 + ctx.rng.below(1000) as u64;
                let t = e.txn(ctx, Op::Increase { at, amount });
                v.push(t);
                break;
            }
        }
    }
    v
}

fn c14_history(ctx: &mut Ctx, b: Both, knobs: Knobs) -> R {
    let check = |e: &mut Eng<Both>, what: &str| -> R {
        if let Some(m) = e.b.broken.take() {
            return violation(m);
        }
        let mut f = Ffi { ptr: e.b.ffi.ptr, c_free: e.b.ffi.c_free };
        compare_views(e, &mut f, what)
    };
    let mut e = Eng::new(ctx, b, &[], knobs, ffi_mix())?;
    check(&mut e, "after the setup")?;
    for t in warm_up(ctx, &e) {
        let r = e.apply(ctx, &t);
        check(&mut e, &format!("after {}", short(&t.op)))?;
        r?;
    }
    let n = ctx.rng.range(15, 35);
    let (mut ok, mut failed) = (0, 0);
    for _ in 0..n {
        let op = e.random_op(ctx);
        let t = for_ffi(e.txn(ctx, op));
        if !t.msg.is_empty() && ctx.rng.pct(35) {
            let (kind, other) = match t.op {
                Op::Deploy { .. } => (0, ctx.rng.below(3)),
                Op::Spawn { .. } => (1, ctx.rng.below(3)),
                _ => (2, ctx.rng.below(3)),
            };
            let kind = if ctx.rng.pct(80) { kind } else { other };
            let mut m = t.msg.clone();
            if ctx.rng.bool() {
                mutate(&mut ctx.rng, &mut m);
            }
            let rt = &e.b.rust.inner.rt;
            let want = guard(|| match kind {
                0 => rt.validate_deploy(&m).is_ok(),
                1 => rt.validate_spawn(&m).is_ok(),
                _ => rt.validate_call(&m).is_ok(),
            });
            let want = want.unwrap_or(false);
            let got = e.b.ffi.validate(kind, &m)?;
            ensure!(
                matches!((&got, want), (Res::Ok, true) | (Res::Error(_), false)),
                "validating {} as kind {kind}: {} through the C interface, accepted by the runtime: {want}",
                hex::encode(&m),
                got.brief()
            );
            ctx.event(if want { "accepted_validations" } else { "rejected_validations" });
        }
        // A disagreement with the model is other properties' business, as long as both interfaces agree.
        let r = e.apply(ctx, &t);
        check(&mut e, &format!("after {}", short(&t.op)))?;
        match r? {
            true => ok += 1,
            false => failed += 1,
        }
    }
    let n = e.b.done;
    ctx.events("compared_operations", n);
    finish(ctx, &e, ok > 0 && failed > 0);
    Ok(())
}

pub static C14: Spec = Spec {
    id: "C14",
    rule: "a case is 15-35 random operations carried out through the C interface (with hand-encoded envelopes and contexts) and through the Rust interface side by side; results byte by byte, error or not, accounts, layer, fingerprint and uncommitted flag are compared after each; non-trivial when some go through and some fail; distinct by history",
    assumptions: &["a gas limit of 0 can't be expressed in an envelope (it means no limit)"],
    quick_cases: 4000,
    thorough_cases: 150_000,
    quick_secs: 30,
    required: &["ok_calls", "failed_calls", "ok_spawns", "ok_deploys", "ok_verifies", "host_transfers", "rewinds", "commits", "accepted_validations", "rejected_validations"],
    case: c14,
    ..DEFAULT_SPEC
};

/// Damages a message.
pub fn mutate(r: &mut Rng, m: &mut Vec<u8>) {
    for _ in 0..r.range(1, 3) {
        if m.is_empty() {
            let n = r.below(8);
            m.extend(r.bytes(n));
            continue;
        }
        match r.below(9) {
            0 => {
                let i = r.below(m.len());
                m[i] ^= 1 << r.below(8);
            }
            1 => {
                let i = r.below(m.len());
                m[i] = *r.pick(&[0, 1, 2, 0x7f, 0x80, 0xff]);
            }
            2 => {
                let i = r.below(m.len() + 1);
                m.truncate(i);
            }
            3 => {
                let n = r.range(1, 40);
                let b = r.bytes(n);
                m.extend(b);
            }
            4 => {
                let i = r.below(m.len());
                let n = r.range(1, 8).min(m.len() - i);
                m.drain(i..i + n);
            }
            5 => {
                let i = r.below(m.len() + 1);
                let n = r.range(1, 8);
                for b in r.bytes(n) {
                    m.insert(i, b);
                }
            }
            6 => {
                // Lengths and counts sit near the front
                let i = r.below(m.len().min(40));
                m[i] = r.u8();
            }
            7 => {
                let i = r.below(m.len());
                let n = r.range(1, 8).min(m.len() - i);
                for b in &mut m[i..i + n] {
                    *b = 0xff;
                }
            }
            _ => {
                let i = r.below(m.len());
                let n = r.range(1, 30).min(m.len() - i);
                let part = m[i..i + n].to_vec();
                let j = r.below(m.len() + 1);
                for (k, b) in part.into_iter().enumerate() {
                    m.insert((j + k).min(m.len()), b);
                }
            }
        }
    }
}


// ---------------------------------------------------------------------------------------------
// C12

/// Two runtimes that get the same ordinary operations; only the second one also gets hostile calls.
struct Twins {
    calm: Ffi,
    hurt: Ffi,
    broken: Option<String>,
}

impl Twins {
    fn both(&mut self, t: &Txn) -> R<Res> {
        let a = self.calm.exec(t)?;
        let b = self.hurt.exec(t)?;
        if !same(&a, &b) {
            return violation(format!(
                "{}: after hostile calls it answers {}, without them {}",
                short(&t.op),
                b.brief(),
                a.brief()
            ));
        }
        Ok(a)
    }
}

impl Backend for Twins {
    fn exec(&mut self, t: &Txn) -> Ans {
        let r = match self.both(t) {
            Ok(r) => r,
            Err(Fail::Violation(m)) => {
                self.broken = Some(m);
                return Ans::Refused("broken".into());
            }
            Err(e) => {
                self.broken = Some(format!("{e:?}"));
                return Ans::Refused("broken".into());
            }
        };
        match r {
            Res::Ok => Ans::Done,
            Res::Error(e) => Ans::Refused(e),
            Res::Receipt(b) => match guard(|| svm_types::Receipt::decode_bytes(&b)) {
                Ok(Ok(svm_types::Receipt::Deploy(r))) => Ans::Deploy(r),
                Ok(Ok(svm_types::Receipt::Spawn(r))) => Ans::Spawn(r),
                Ok(Ok(svm_types::Receipt::Call(r))) => Ans::Call(r),
                _ => Ans::Refused("undecodable receipt".into()),
            },
        }
    }
    fn account(&mut self, a: &A20) -> Option<(u64, u128, A20)> {
        self.calm.account(a).unwrap_or(None)
    }
    fn uncommitted(&mut self) -> bool {
        self.calm.uncommitted().unwrap_or(false)
    }
    fn layer(&mut self) -> Option<(u64, Vec<u8>)> {
        self.calm.layer().unwrap_or(None)
    }
}

struct Assault {
    kind: usize,
    env: Vec<u8>,
    msg: Vec<u8>,
    ctx: Vec<u8>,
    what: String,
}

/// A message that was good once.
fn damaged(ctx: &mut Ctx, e: &mut Eng<Twins>) -> Option<Assault> {
    let mut t = None;
    for _ in 0..20 {
        let op = e.random_op(ctx);
        if matches!(op, Op::Deploy { .. } | Op::Spawn { .. } | Op::Call { .. } | Op::Verify { .. }) {
            t = Some(e.txn(ctx, op));
            break;
        }
    }
    let t = t?;
    let kind = match t.op {
        Op::Deploy { .. } => 0,
        Op::Spawn { .. } => 1,
        Op::Call { .. } => 2,
        _ => 3,
    };
    let r = &mut ctx.rng;
    let (mut env, mut msg, mut c) = (envelope(&t.env), t.msg.clone(), context(&t.context));
    let mut what = "";
    match r.below(10) {
        0 => {
            let n = r.below(80);
            msg = r.bytes(n);
            what = "random bytes";
        }
        1 => {
            for b in &mut env {
                *b = if r.bool() { r.u8() } else { 0xff };
            }
            for b in &mut c {
                *b = r.u8();
            }
            what = "a random envelope and context";
        }
        2 | 3 if kind == 0 => {
            // Damage to the code, in an otherwise sound template
            if let Op::Deploy { d, .. } = &t.op {
                let d = &e.contracts[*d];
                let mut wasm = d.wasm.clone();
                let at = 8 + r.below(wasm.len() - 8);
                let mut tail = wasm.split_off(at);
                mutate(r, &mut tail);
                wasm.extend(tail);
                let h = crate::hostile::Hostile {
                    what: String::new(),
                    wasm,
                    ctors: d.c.ctors.clone(),
                    sizes: d.c.sizes.clone(),
                    runnable: false,
                };
                msg = h.message();
                what = "damaged code";
            }
        }
        _ => {
            mutate(r, &mut msg);
            what = "a damaged message";
        }
    }
    let kind = if r.pct(10) { r.below(4) } else { kind };
    Some(Assault { kind, env, msg, ctx: c, what: format!("{what} as kind {kind}") })
}

fn assault(ctx: &mut Ctx, e: &mut Eng<Twins>, a: &Assault, addrs: &[A20]) -> R<bool> {
    let layers = !e.m.layers.is_empty();
    let h = &mut e.b.hurt;
    let before = view(h, addrs, layers)?;
    let vkind = a.kind.min(2);
    let v = h.validate(vkind, &a.msg)?;
    ensure!(!matches!(v, Res::Receipt(_)), "validating {}: {}", a.what, v.brief());
    let after = view(h, addrs, layers)?;
    ensure!(before == after, "validating {} changes the state from {before:?} to {after:?}", a.what);
    ctx.event(if v.is_err() { "rejected_messages" } else { "accepted_messages" });
    let r = h.run(a.kind, &a.env, &a.msg, &a.ctx)?;
    if succeeded(&r) {
        ctx.event("harmless_after_all");
        if v.is_err() && a.kind > 0 {
            return violation(format!("{} is executed although it isn't valid: {}", a.what, v.brief()));
        }
        if a.kind == 3 {
            let after = view(h, addrs, layers)?;
            ensure!(before == after, "verifying {} changes the state", a.what);
            return Ok(true);
        }
        let c = e.b.calm.run(a.kind, &a.env, &a.msg, &a.ctx)?;
        ensure!(same(&c, &r), "{}: {} with hostile calls before it, {} without", a.what, r.brief(), c.brief());
        return Ok(false);
    }
    ctx.event(if r.is_err() { "error_results" } else { "failure_receipts" });
    let after = view(h, addrs, layers)?;
    ensure!(before == after, "{} fails ({}) but changes the state from {before:?} to {after:?}", a.what, r.brief());
    Ok(true)
}

/// Calls that name no runtime, layers and accounts that aren't there, paths that can't be opened.
fn nonsense(ctx: &mut Ctx, e: &mut Eng<Twins>, addrs: &[A20], gone: *mut std::ffi::c_void) -> R {
    let layers = !e.m.layers.is_empty();
    let h = &mut e.b.hurt;
    let before = view(h, addrs, layers)?;
    let r = &mut ctx.rng;
    let what;
    let res = match r.below(4) {
        0 => {
            let ptr = match r.below(3) {
                0 => std::ptr::null_mut(),
                1 => gone,
                _ => (h.ptr as usize + 8) as *mut _,
            };
            let mut x = Ffi { ptr, c_free: r.bool() };
            let (env, c) = (vec![0u8; 60], vec![0u8; 72]);
            let k = r.below(16);
            what = format!("call {k} on a pointer that is no runtime");
            match k {
                0..=2 => x.validate(k, &[1, 2, 3])?,
                3..=6 => x.run(k - 3, &env, &[1, 2, 3], &c)?,
                7 => x.genesis(&addrs[0], 1, 1)?,
                8 => x.increase(&addrs[0], 1)?,
                9 => x.transfer(&addrs[0], &addrs[1], 1)?,
                10 => x.commit()?,
                11 => x.rewind(0)?,
                12 => {
                    ensure!(x.account(&addrs[0])?.is_none(), "svm_get_account answers on a pointer that is no runtime");
                    Res::Error(String::new())
                }
                13 => {
                    ensure!(x.uncommitted()?, "svm_uncommitted_changes answers on a pointer that is no runtime");
                    Res::Error(String::new())
                }
                14 => {
                    ensure!(x.layer()?.is_none(), "svm_layer_info answers on a pointer that is no runtime");
                    Res::Error(String::new())
                }
                _ => x.destroy()?,
            }
        }
        1 => {
            let top = h.layer()?.map_or(0, |l| l.0 + 1);
            let l = match r.below(4) {
                0 => top,
                1 => u64::MAX,
                2 => i64::MAX as u64 + r.below(2) as u64,
                _ => top + r.below(1000) as u64,
            };
            what = format!("a rewind to layer {l} of {top}");
            h.rewind(l)?
        }
        2 => {
            let a: A20 = r.bytes(20).try_into().unwrap();
            let k = r.below(4);
            what = format!("administrative call {k} on an account that isn't there");
            match k {
                0 => h.increase(&a, 1)?,
                1 => h.transfer(&a, &addrs[0], 0)?,
                2 => h.transfer(&addrs[0], &a, 0)?,
                _ => {
                    ensure!(h.account(&a)?.is_none(), "an account that was never created is there");
                    Res::Error(String::new())
                }
            }
        }
        _ => {
            let dir = ctx.scratch.join("nowhere");
            let bad = format!("sqlite://{}/x.db?mode=rwc", dir.display());
            let path: Vec<u8> = match r.below(5) {
                0 => vec![],
                1 => vec![0xff, 0xfe],
                2 => bad.into_bytes(),
                3 => b"nonsense://x".to_vec(),
                _ => format!("sqlite://{}", ctx.scratch.display()).into_bytes(),
            };
            what = format!("creating a runtime at {:?}", String::from_utf8_lossy(&path));
            let mut ptr = std::ptr::null_mut();
            let b = exact(&path);
            let res = take(unsafe { svm_runtime_ffi::svm_runtime_create(&mut ptr, b.as_ptr(), b.len() as u32) }, false)?;
            if res == Res::Ok {
                // An empty path is a temporary database.
                ensure!(path.is_empty(), "{what} succeeds");
                let d = Ffi { ptr, c_free: true }.destroy()?;
                ensure!(d == Res::Ok, "destroying it fails");
                Res::Error(String::new())
            } else {
                ensure!(ptr.is_null(), "{what} fails but hands out a runtime");
                res
            }
        }
    };
    ctx.log(|| format!("{what} -> {}", res.brief()));
    ensure!(res.is_err(), "{what} succeeds: {}", res.brief());
    let after = view(h, addrs, layers)?;
    ensure!(before == after, "{what} changes the state from {before:?} to {after:?}");
    ctx.event("nonsense_calls");
    Ok(())
}

pub fn c12(ctx: &mut Ctx) -> R {
    // A runtime that is no more
    let gone = Ffi::create(None)?;
    let gone_ptr = gone.ptr;
    ensure!(gone.destroy()? == Res::Ok, "a runtime can't be destroyed");
    let t = Twins { calm: Ffi::create(None)?, hurt: Ffi::create(None)?, broken: None };
    let (p, q) = (t.calm.ptr, t.hurt.ptr);
    // The address may have been taken again
    let gone_ptr = if gone_ptr == p || gone_ptr == q { std::ptr::null_mut() } else { gone_ptr };
    let r = c12_history(ctx, t, gone_ptr);
    for x in [p, q] {
        let d = take(svm_runtime_ffi::svm_runtime_destroy(x), false)?;
        if r.is_ok() {
            ensure!(d == Res::Ok, "destroying a runtime: {}", d.brief());
        }
    }
    r
}

fn c12_history(ctx: &mut Ctx, t: Twins, gone: *mut std::ffi::c_void) -> R {
    let knobs = Knobs { transfer_pct: 20, fail_pct: 5, storage_pct: 35, bad_alloc_pct: 5, ..Knobs::default() };
    let mut e = Eng::new(ctx, t, &[], knobs, ffi_mix())?;
    let mut modelled = true;
    let addrs = all_addrs(&e);
    let mut todo = warm_up(ctx, &e);
    todo.reverse();
    let n = todo.len() + ctx.rng.range(8, 18);
    let mut refused = 0;
    for i in 0..n {
        // Hostile calls
        for _ in 0..ctx.rng.below(4) {
            match ctx.rng.below(10) {
                0 | 1 => nonsense(ctx, &mut e, &addrs, gone)?,
                2..=3 => {
                    let h = match crate::hostile::random(&mut ctx.rng) {
                        Some(h) => h,
                        None => continue,
                    };
                    ctx.log(|| format!("hostile program: {}", h.what));
                    ctx.event("hostile_programs");
                    let c = Ffi { ptr: e.b.hurt.ptr, c_free: true }.validate(0, &h.message())?;
                    let a = Assault { kind: 0, env: vec![0; 60], msg: h.message(), ctx: vec![0; 72], what: h.what.clone() };
                    modelled &= assault(ctx, &mut e, &a, &addrs)?;
                    if c.is_err() {
                        continue;
                    }
                    // It was let in: spawn from it, with just too little and with enough gas.
                    let tmpl = svm_types::TemplateAddr::new(&b3(&h.wasm));
                    let n = ctx.rng.below(40);
                    let msg = svm_types::SpawnAccount::new(0, &tmpl, "x", "initialize", ctx.rng.bytes(n)).encode_to_vec();
                    let mut limits = vec![1000 * msg.len() as u64 + 1];
                    if h.runnable {
                        limits.push(0);
                    }
                    for l in limits {
                        let mut env = vec![0u8; 60];
                        env[44..52].copy_from_slice(&l.to_be_bytes());
                        let what = format!("spawning from a program with {}, limit {l}", h.what);
                        ctx.log(|| what.clone());
                        let a = Assault { kind: 1, env, msg: msg.clone(), ctx: vec![0; 72], what };
                        modelled &= assault(ctx, &mut e, &a, &addrs)?;
                        ctx.event("hostile_spawns");
                    }
                }
                _ => {
                    if let Some(a) = damaged(ctx, &mut e) {
                        ctx.log(|| format!("{}: {}", a.what, hex::encode(&a.msg[..a.msg.len().min(200)])));
                        modelled &= assault(ctx, &mut e, &a, &addrs)?;
                        ctx.event("damaged_messages");
                    }
                }
            }
            refused += 1;
        }
        // Ordinary ones
        let t = if let (true, Some(t)) = (i > 0 || ctx.rng.bool(), todo.pop()) {
            t
        } else {
            let op = e.random_op(ctx);
            for_ffi(e.txn(ctx, op))
        };
        if matches!(t.op, Op::Rewind(_)) && e.b.calm.uncommitted()? {
            continue;
        }
        if modelled {
            match e.apply(ctx, &t) {
                Ok(_) => {}
                Err(Fail::Skip(_)) => modelled = false,
                Err(x) => return Err(x),
            }
            if let Some(m) = e.b.broken.take() {
                return violation(m);
            }
        } else {
            let r = e.b.both(&t)?;
            ctx.log(|| format!("{} -> {}", short(&t.op), r.brief()));
        }
        ctx.event("ordinary_operations");
        let layers = !e.m.layers.is_empty();
        let (a, b) = (view(&mut e.b.calm, &addrs, layers)?, view(&mut e.b.hurt, &addrs, layers)?);
        ensure!(a == b, "after hostile calls, {} leads to {b:?}; without them, to {a:?}", short(&t.op));
    }
    finish(ctx, &e, refused > 0);
    Ok(())
}

pub static C12: Spec = Spec {
    id: "C12",
    rule: "a case is two runtimes behind the C interface that get the same 8-18 ordinary operations, one of them also up to three hostile calls before each: damaged messages, damaged code, programs with extreme structure, bad envelopes, dead runtime pointers, missing layers, accounts and paths; every call must return, failing ones must leave everything visible unchanged, and the ordinary answers must be byte-identical in both; non-trivial when hostile calls were made; distinct by history",
    assumptions: &["only programs that validation accepted are spawned from", "programs that run for exponentially long are only priced, not run"],
    quick_cases: 6000,
    thorough_cases: 150_000,
    quick_secs: 40,
    required: &["nonsense_calls", "hostile_programs", "hostile_spawns", "damaged_messages", "rejected_messages", "accepted_messages", "error_results", "failure_receipts", "ordinary_operations"],
    case: c12,
    ..DEFAULT_SPEC
};
