//! C05-C09: the runtime against the reference model.

use crate::core::*;
use crate::engine::*;
use crate::script::Knobs;

fn history(ctx: &mut Ctx, own: &'static [&'static str], knobs: Knobs, mix: Mix, lo: usize, hi: usize) -> R {
    let mut e = Eng::new_rust(ctx, own, None, knobs, mix)?;
    let n = ctx.rng.range(lo, hi);
    let (mut ok, mut failed) = (0, 0);
    for _ in 0..n {
        let op = e.random_op(ctx);
        let t = e.txn(ctx, op);
        let layers = e.m.layers.len();
        e.step(ctx, &t)?;
        if matches!(t.op, Op::Call { .. } | Op::Spawn { .. }) {
            if e.m.layers.len() > layers {
                ok += 1;
            } else {
                failed += 1;
            }
        }
    }
    e.observe_all(ctx, &["state", "output", "atomic"], "at the end")?;
    finish(ctx, &e, ok > 0 && failed > 0);
    Ok(())
}

fn c05(ctx: &mut Ctx) -> R {
    let knobs = Knobs { transfer_pct: 45, fail_pct: 4, storage_pct: 20, ..Knobs::default() };
    let mix = Mix { call: 55, transfer: 14, admin: 12, verify: 6, deploy: 1, spawn: 8, ..Mix::default() };
    history(ctx, &["coins"], knobs, mix, 15, 40)
}

pub static C05: Spec = Spec {
    id: "C05",
    rule: "a case is 15-40 random operations (calls of random contracts with transfers at the borders of balances, host transfers, mints, spawns, commits, rewinds) on a fresh runtime; after each one every balance is compared with a reference ledger that only knows mints and legal transfers; non-trivial when some transactions commit and some fail; distinct by history",
    assumptions: &["a template is spawned from at most once at a time (a second spawn resets the account)"],
    quick_cases: 6000,
    thorough_cases: 200_000,
    required: &["coin_transfers", "refused_transfers", "host_transfers", "ok_host_transfers", "failed_calls", "committing_txs", "rewinds"],
    case: c05,
    ..DEFAULT_SPEC
};

fn c06(ctx: &mut Ctx) -> R {
    let knobs = Knobs { transfer_pct: 25, fail_pct: 9, storage_pct: 40, ..Knobs::default() };
    let mix = Mix { call: 50, commit: 7, rewind: 7, ..Mix::default() };
    history(ctx, &["atomic", "state"], knobs, mix, 15, 40)
}

pub static C06: Spec = Spec {
    id: "C06",
    rule: "a case is 15-40 random operations on a fresh runtime, with contracts that trap or are refused by the host half-way through their writes and transfers; after each one all accounts, variables, templates, the layer number, its fingerprint and the uncommitted flag are compared with a reference model; non-trivial when some transactions commit and some fail; distinct by history",
    assumptions: &["a template is spawned from at most once at a time (a second spawn resets the account)"],
    quick_cases: 6000,
    thorough_cases: 200_000,
    required: &["committing_txs", "failed_calls", "failed_spawns", "traps", "refused_vmcalls", "refused_transfers", "ok_verifies", "rewinds", "commits", "variable_reads"],
    case: c06,
    ..DEFAULT_SPEC
};

fn c07(ctx: &mut Ctx) -> R {
    let knobs = Knobs { bad_alloc_pct: 25, verify_access_pct: 50, fail_pct: 2, ..Knobs::default() };
    let mix = Mix { verify: 25, spawn: 25, sane_pct: 50, call: 40, ..Mix::default() };
    history(ctx, &["access"], knobs, mix, 15, 40)
}

pub static C07: Spec = Spec {
    id: "C07",
    rule: "a case is 15-40 random operations on a fresh runtime, half of them naming constructors, non-constructors, missing or ill-typed exports, missing accounts and templates, or running allocators and verifiers that touch storage and coins; who is let through and how the others are refused is compared with a reference model; non-trivial when some transactions commit and some fail; distinct by history",
    assumptions: &[],
    quick_cases: 6000,
    thorough_cases: 200_000,
    required: &["denied", "refused_access", "ok_calls", "ok_spawns", "ok_verifies", "failed_verifies", "failed_spawns"],
    case: c07,
    ..DEFAULT_SPEC
};

fn c08(ctx: &mut Ctx) -> R {
    let knobs = Knobs { fail_pct: 2, ..Knobs::default() };
    let mix = Mix { deploy: 25, spawn: 60, gas_pct: 90, call: 6, verify: 2, admin: 2, transfer: 1, commit: 3, rewind: 15, ..Mix::default() };
    history(ctx, &["gas"], knobs, mix, 15, 40)
}

pub static C08: Spec = Spec {
    id: "C08",
    rule: "a case is 15-40 operations on a fresh runtime, mostly deploys and spawns with gas limits at and around the exact price (payload bytes plus, for spawns, the constructor's dearest path as computed by an independent pricer); who runs out of gas and what a deploy reports as used is compared with the model; non-trivial when some transactions commit and some fail; distinct by history",
    assumptions: &["1000 gas per payload byte and the version-0 price table"],
    quick_cases: 5000,
    thorough_cases: 150_000,
    required: &["out_of_gas", "ok_deploys", "ok_spawns", "failed_deploys", "failed_spawns"],
    case: c08,
    ..DEFAULT_SPEC
};

fn c09(ctx: &mut Ctx) -> R {
    let knobs = Knobs { storage_pct: 55, log_pct: 50, transfer_pct: 10, fail_pct: 4, ..Knobs::default() };
    let mix = Mix { call: 65, verify: 10, ..Mix::default() };
    history(ctx, &["output"], knobs, mix, 15, 40)
}

pub static C09: Spec = Spec {
    id: "C09",
    rule: "a case is 15-40 random operations on a fresh runtime; contracts read and write 1-20 byte variables, allocate memory, branch on storage, log memory, calldata and variables and return data; logs, returndata, touched accounts, errors, new state and all variables are compared with an interpreter of the contract script; non-trivial when some transactions commit and some fail; distinct by history",
    assumptions: &["error messages' wording isn't compared"],
    quick_cases: 6000,
    thorough_cases: 200_000,
    required: &["logs", "returndata", "ok_calls", "ok_spawns", "ok_verifies", "traps", "refused_vmcalls", "variable_reads", "coin_transfers"],
    case: c09,
    ..DEFAULT_SPEC
};
