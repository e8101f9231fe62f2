//! C10: every node computes the same.

use crate::core::*;
use crate::engine::*;
use crate::ffi::{encoded, same, Res};
use crate::p_state::{observe, A20};
use crate::script::Knobs;
use crate::{ensure, ensure_eq};

/// One node; the first one keeps its state in memory.
struct Node {
    b: Option<RustBackend>,
    uri: Option<String>,
}

impl Node {
    fn open(uri: Option<String>) -> R<Node> {
        match open_runtime(uri.as_deref()) {
            Ok((rt, gs)) => Ok(Node { b: Some(RustBackend { rt, gs }), uri }),
            Err(p) => violation(format!("opening a node's state panics at {}: {}", p.location, p.message)),
        }
    }
    fn b(&mut self) -> &mut RustBackend {
        self.b.as_mut().unwrap()
    }
}

struct Nodes {
    nodes: Vec<Node>,
    broken: Option<String>,
    digest: blake3::Hasher,
    compared: u64,
}

fn bytes_of(r: &Res) -> Vec<u8> {
    match r {
        Res::Ok => vec![0],
        Res::Error(_) => vec![1],
        Res::Receipt(b) => [&[2][..], b].concat(),
    }
}

impl Backend for Nodes {
    fn exec(&mut self, t: &Txn) -> Ans {
        let a = self.nodes[0].b().exec(t);
        let want = encoded(&a);
        let b = bytes_of(&want);
        self.digest.update(&(b.len() as u64).to_be_bytes());
        self.digest.update(&b);
        for i in 1..self.nodes.len() {
            let got = encoded(&self.nodes[i].b().exec(t));
            self.compared += 1;
            if !same(&got, &want) && self.broken.is_none() {
                self.broken = Some(format!("{}: node {i} answers {}, node 0 {}", short(&t.op), got.brief(), want.brief()));
            }
        }
        a
    }
    fn account(&mut self, a: &A20) -> Option<(u64, u128, A20)> {
        self.nodes[0].b().account(a)
    }
    fn uncommitted(&mut self) -> bool {
        self.nodes[0].b().uncommitted()
    }
    fn layer(&mut self) -> Option<(u64, Vec<u8>)> {
        self.nodes[0].b().layer()
    }
}

fn addrs_of(e: &Eng<Nodes>) -> Vec<A20> {
    let mut v = e.addrs.clone();
    v.extend(e.contracts.iter().map(|d| b3(&d.addr)));
    v
}

fn compare(e: &mut Eng<Nodes>, what: &str) -> R {
    if let Some(m) = e.b.broken.take() {
        return violation(m);
    }
    let addrs = addrs_of(e);
    let layers = !e.m.layers.is_empty();
    let mut first = None;
    for i in 0..e.b.nodes.len() {
        let b = e.b.nodes[i].b();
        let accounts: Vec<_> = addrs.iter().map(|a| b.account(a)).collect();
        let v = (accounts, b.uncommitted(), if layers { b.layer() } else { None });
        match &first {
            None => first = Some(v),
            Some(f) => {
                ensure_eq!(&v.0, &f.0, "{what}: accounts of node {i} and node 0");
                ensure_eq!(v.1, f.1, "{what}: uncommitted changes of node {i} and node 0");
                ensure_eq!(&v.2, &f.2, "{what}: layer of node {i} and node 0");
            }
        }
    }
    if let Some((_, _, Some((l, fp)))) = &first {
        e.b.digest.update(&l.to_be_bytes());
        e.b.digest.update(fp);
    }
    Ok(())
}

/// What one node does and the others don't, none of which may matter.
fn detour(ctx: &mut Ctx, e: &mut Eng<Nodes>) -> R {
    let n = e.b.nodes.len();
    let i = 1 + ctx.rng.below(n - 1);
    let clean = !e.m.dirty && !e.m.has_saved;
    match ctx.rng.below(4) {
        0 if clean && e.b.nodes[i].uri.is_some() => {
            ctx.log(|| format!("node {i} restarts"));
            let uri = e.b.nodes[i].uri.clone();
            e.b.nodes[i].b = None;
            e.b.nodes[i] = Node::open(uri)?;
            ctx.event("restarts");
        }
        // Verifications, and transactions that are bound to fail.
        1 if !e.m.dirty => {
            for _ in 0..ctx.rng.range(1, 3) {
                let op = if ctx.rng.pct(70) { e.random_call(ctx, true) } else { e.random_spawn(ctx) };
                let t = e.txn(ctx, op);
                if matches!(t.op, Op::Verify { .. }) || matches!(e.predict(&t), Pred::Fail { .. } | Pred::Refuse { .. }) {
                    ctx.log(|| format!("node {i}: {}", short(&t.op)));
                    e.b.nodes[i].b().exec(&t);
                    ctx.event("fruitless_transactions");
                }
            }
        }
        // A fork that is given up.
        2 if clean && !e.m.layers.is_empty() => {
            ctx.log(|| format!("node {i} follows a fork"));
            for _ in 0..ctx.rng.range(1, 4) {
                let op = e.random_op(ctx);
                if matches!(op, Op::Rewind(_)) {
                    continue;
                }
                let t = e.txn(ctx, op);
                e.b.nodes[i].b().exec(&t);
            }
            let l = e.m.layers.len() as u64 - 1;
            for op in [Op::Commit, Op::Rewind(l)] {
                let t = e.txn(ctx, op);
                let a = e.b.nodes[i].b().exec(&t);
                ensure!(t.op == Op::Commit || a == Ans::Done, "node {i} can't leave a fork: {}", brief(&a));
            }
            ctx.event("forks");
        }
        _ => {
            // Reading and validating.
            let addrs = addrs_of(e);
            for _ in 0..ctx.rng.range(1, 6) {
                let a = *ctx.rng.pick(&addrs);
                e.b.nodes[i].b().account(&a);
                if !e.m.layers.is_empty() {
                    let l = ctx.rng.below(e.m.layers.len());
                    let mut gs = e.b.nodes[i].b().gs.clone();
                    *gs.layer_query_parameter_mut() = Some(svm_types::Layer(l as u64));
                    let _ = guard(|| tokio_rt().block_on(svm_state::AccountStorage::load(gs, &addr(&a))).map(|_| ()));
                }
            }
            let op = e.random_op(ctx);
            let t = e.txn(ctx, op);
            let rt = &e.b.nodes[i].b().rt;
            let _ = guard(|| match t.op {
                Op::Deploy { .. } => rt.validate_deploy(&t.msg).is_ok(),
                Op::Spawn { .. } => rt.validate_spawn(&t.msg).is_ok(),
                _ => rt.validate_call(&t.msg).is_ok(),
            });
            ctx.event("reads_and_validations");
        }
    }
    Ok(())
}

fn c10(ctx: &mut Ctx) -> R {
    let dir = ctx.scratch.join("nodes");
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&dir).map_err(|e| Fail::Harness(e.to_string()))?;
    let file = |n: &str| Some(format!("sqlite://{}/{n}?mode=rwc", dir.display()));
    let elsewhere = ctx.rng.pct(12);
    let seed = ctx.seed;
    let mut nodes = vec![];
    for uri in [None, file("a"), None] {
        nodes.push(Node::open(uri)?);
    }
    let b = Nodes { nodes, broken: None, digest: blake3::Hasher::new(), compared: 0 };
    let knobs = Knobs { transfer_pct: 20, fail_pct: 5, storage_pct: 35, log_pct: 20, ..Knobs::default() };
    let mix = Mix { deploy: 6, call: 55, commit: 7, rewind: 6, ..Mix::default() };
    let mut e = Eng::new(ctx, b, &[], knobs, mix)?;
    compare(&mut e, "after the setup")?;
    let n = ctx.rng.range(12, 30);
    let (mut ok, mut failed) = (0, 0);
    let mut modelled = true;
    for _ in 0..n {
        if modelled && ctx.rng.pct(45) {
            detour(ctx, &mut e)?;
            compare(&mut e, "after what only one node did")?;
        }
        let op = e.random_op(ctx);
        let t = e.txn(ctx, op);
        let r = e.apply(ctx, &t);
        compare(&mut e, &format!("after {}", short(&t.op)))?;
        match r {
            Ok(true) => ok += 1,
            Ok(false) => failed += 1,
            // What is computed is other properties' business, as long as all nodes agree.
            Err(Fail::Skip(_)) => modelled = false,
            Err(f) => return Err(f),
        }
        if !modelled {
            break;
        }
    }
    let digest = hex::encode(e.b.digest.finalize().as_bytes());
    if let Ok(out) = std::env::var("SVMCHECK_DIGEST") {
        return std::fs::write(&out, &digest).map_err(|e| Fail::Harness(e.to_string()));
    }
    if modelled {
        // All variables, in all nodes.
        let addrs = addrs_of(&e);
        let mut first = Ok(());
        for i in 0..e.b.nodes.len() {
            let gs = e.b.nodes[i].b().gs.clone();
            let r = observe(ctx, &gs, &e.m.working, &addrs, &e.taddrs, &format!("node {i} at the end"));
            if i == 0 {
                first = r;
            } else if first.is_ok() {
                r?;
            }
        }
    }
    if elsewhere {
        // The same history in another process.
        let out = ctx.scratch.join("digest");
        let _ = std::fs::remove_file(&out);
        let exe = std::env::current_exe().map_err(|e| Fail::Harness(e.to_string()))?;
        let child = std::process::Command::new(exe)
            .args(["child", ctx.prop, &seed.to_string()])
            .env("SVMCHECK_DIGEST", &out)
            .env("TZ", "Asia/Tokyo")
            .env("LANG", "C")
            .stdin(std::process::Stdio::null())
            .stdout(std::process::Stdio::null())
            .stderr(std::process::Stdio::null())
            .status();
        if let Err(e) = child {
            return harness(format!("another process: {e}"));
        }
        let other = match std::fs::read_to_string(&out) {
            Ok(s) => s,
            Err(_) => return harness("another process gave no answer"),
        };
        ensure_eq!(other, digest, "receipts and fingerprints of the same history in another process");
        ctx.event("other_processes");
    }
    let n = e.b.compared;
    ctx.events("compared_operations", n);
    finish(ctx, &e, ok > 0 && failed > 0);
    Ok(())
}

pub static C10: Spec = Spec {
    id: "C10",
    rule: "a case is a history of 12-30 random operations followed by three nodes (in memory, on disk with restarts, in memory), which besides verify, fail, validate, read or follow and give up forks of their own; answers byte by byte, accounts, layers and fingerprints are compared after each step and all variables at the end, and one history in eight is repeated in another process; non-trivial when some transactions commit and some fail; distinct by history",
    assumptions: &["the wording of refusals without a receipt isn't compared"],
    quick_cases: 4000,
    thorough_cases: 150_000,
    quick_secs: 30,
    required: &["compared_operations", "restarts", "forks", "fruitless_transactions", "reads_and_validations", "other_processes", "ok_calls", "failed_calls", "ok_spawns", "rewinds"],
    case: c10,
    ..DEFAULT_SPEC
};
