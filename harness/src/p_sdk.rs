//! C25: templates written with the SDK behave as they're written.

use std::collections::BTreeMap;

use serde_json::{json, Value};

use svm_codec::Codec;
use svm_layout::{FixedLayout, Layout};
use svm_state::{AccountStorage, GlobalState};
use svm_types::{BytesPrimitive, CodeSection, Context, CtorsSection, DataSection, Envelope, SpawnAccount, Template, TemplateAddr, Transaction};

use crate::core::*;
use crate::engine::*;
use crate::p_state::A20;
use crate::sdk_model::*;
use crate::{ensure, ensure_eq};

struct Files {
    wasm: Vec<u8>,
    meta: Value,
}

fn files(name: &str, mod_name: &str) -> R<Files> {
    let d = verif_dir();
    let wasm = std::fs::read(d.join(format!("target/templates/wasm32-unknown-unknown/release/{name}.wasm")));
    let meta = std::fs::read(d.join(format!("templates/{name}/{mod_name}-meta.json")));
    match (wasm, meta) {
        (Ok(wasm), Ok(meta)) => match serde_json::from_slice(&meta) {
            Ok(meta) => Ok(Files { wasm, meta }),
            Err(e) => violation(format!("the meta file of {name} isn't JSON: {e}")),
        },
        (a, b) => harness(format!("the template {name} isn't built: {:?} {:?}", a.err(), b.err())),
    }
}

/// The type of a parameter or result as the meta file has it, with or without the brackets of arrays.
fn ty(v: &Value) -> (String, u64) {
    let t = v["type"].as_str().unwrap_or("?");
    let t = t.trim_start_matches('[').trim_end_matches(']').rsplit(' ').next().unwrap_or("?").to_string();
    (t, v["length"].as_u64().unwrap_or(0))
}

fn expected_api(loops: bool) -> BTreeMap<String, (bool, Vec<(String, String, u64)>, Vec<(String, u64)>)> {
    let mut m = BTreeMap::new();
    let mut put = |n: String, ctor: bool, p: &[(&str, &str, u64)], r: &[(&str, u64)]| {
        m.insert(
            n,
            (
                ctor,
                p.iter().map(|(n, t, l)| (n.to_string(), t.to_string(), *l)).collect(),
                r.iter().map(|(t, l)| (t.to_string(), *l)).collect(),
            ),
        );
    };
    let first = [("a", "bool", 0), ("b", "i8", 0), ("c", "u16", 0), ("d", "u32", 0), ("e", "i64", 0), ("f", "Amount", 0), ("g", "Address", 0), ("h", "u32", 5)];
    put("first".into(), true, &first[..7], &[("u64", 0)]);
    put("nothing".into(), true, &[], &[]);
    for t in 0..11 {
        if t == 0 && !loops {
            continue;
        }
        let (n, l, low) = (T[t], LEN[t] as u64, T[t].to_lowercase());
        put(format!("set_{low}"), false, &[("x", n, 0)], &[]);
        put(format!("get_{low}"), false, &[], &[(n, 0)]);
        put(format!("put_{low}"), false, &[("i", "u32", 0), ("x", n, 0)], &[]);
        put(format!("take_{low}"), false, &[("i", "u32", 0)], &[(n, 0)]);
        put(format!("all_{low}"), false, &[], &[(n, l)]);
        put(format!("echo_{low}"), false, &[("x", n, 0)], &[(n, 0)]);
        put(format!("swap_{low}"), false, &[("i", "u32", 0), ("x", n, 0)], &[(n, 0), (n, 0)]);
        if loops {
            put(format!("echo_r_{low}"), false, &[("x", n, l)], &[(n, l)]);
        }
    }
    put("arith".into(), false, &[("a", "Amount", 0), ("b", "Amount", 0), ("op", "u8", 0)], &[("Amount", 0)]);
    put("plain".into(), false, &[("a", "u8", 0)], &[]);
    put("bump".into(), false, &[], &[("u16", 0)]);
    put("silent".into(), false, &[], &[]);
    if loops {
        put("initialize".into(), true, &first, &[("u64", 0)]);
        let nine = [("a", "Address", 0), ("b", "bool", 0), ("c", "i16", 3), ("d", "u64", 0), ("e", "i8", 0), ("f", "Amount", 0), ("g", "Amount", 2), ("h", "u16", 0), ("i", "bool", 10)];
        put("many".into(), false, &nine, &[("u16", 0), ("Amount", 2), ("Amount", 0), ("i8", 0), ("u64", 0)]);
        put("more".into(), false, &nine, &[("bool", 10), ("Address", 0), ("bool", 0), ("i16", 3)]);
        put("check".into(), false, &[("x", "u32", 0), ("y", "u32", 0)], &[("u32", 0)]);
        let ten: Vec<(String, &str)> = ["u8", "i8", "u16", "i16", "u32", "i32", "u64", "i64", "Amount", "Address"]
            .iter()
            .enumerate()
            .map(|(i, t)| (((b'a' + i as u8) as char).to_string(), *t))
            .collect();
        let ten: Vec<(&str, &str, u64)> = ten.iter().map(|(n, t)| (n.as_str(), *t, 0)).collect();
        put("show".into(), false, &ten, &[]);
    }
    m
}

/// The schema and the API which the SDK writes about the template are those of the template.
fn check_meta(ctx: &mut Ctx, f: &Files, loops: bool) -> R {
    let (mut id, mut offset) = (0u64, 0u64);
    let mut want = vec![];
    for t in 0..11 {
        let (b, l) = (BYTES[t] as u64, LEN[t] as u64);
        want.push((format!("v_{}", T[t].to_lowercase()), T[t].to_string(), 0u64, id, offset, b));
        want.push((format!("r_{}", T[t].to_lowercase()), format!("[{}]", T[t]), l, id + 1, offset + b, b));
        id += 1 + l;
        offset += b * (1 + l);
    }
    want.push(("last".into(), "u16".into(), 0, id, offset, 2));
    let got: Vec<_> = f.meta["schema"]
        .as_array()
        .cloned()
        .unwrap_or_default()
        .iter()
        .map(|v| {
            (
                v["name"].as_str().unwrap_or("?").to_string(),
                v["type"].as_str().unwrap_or("?").to_string(),
                v["length"].as_u64().unwrap_or(0),
                v["id"].as_u64().unwrap_or(u64::MAX),
                v["offset"].as_u64().unwrap_or(u64::MAX),
                v["byte_count"].as_u64().unwrap_or(u64::MAX),
            )
        })
        .collect();
    ensure_eq!(got, want, "the schema which the SDK describes the storage with");
    let mut api = BTreeMap::new();
    for e in f.meta["api"].as_array().cloned().unwrap_or_default() {
        let s = &e["signature"];
        let params = s["params"]
            .as_array()
            .cloned()
            .unwrap_or_default()
            .iter()
            .map(|p| {
                let (t, l) = ty(p);
                (p["name"].as_str().unwrap_or("?").to_string(), t, l)
            })
            .collect();
        let returns: Vec<(String, u64)> = match &s["returns"] {
            Value::Array(v) => v.iter().map(ty).collect(),
            v if v == &json!({}) => vec![],
            v => vec![ty(v)],
        };
        ensure_eq!(e["name"], e["wasm_name"], "the exported name of {}", e["name"]);
        ensure_eq!(e["is_fundable"], json!(false), "{} is fundable", e["name"]);
        let n = e["name"].as_str().unwrap_or("?").to_string();
        ensure!(
            api.insert(n.clone(), (e["is_ctor"].as_bool().unwrap_or(false), params, returns)).is_none(),
            "the API describes {n} twice"
        );
    }
    let want = expected_api(loops);
    for n in want.keys().chain(api.keys()) {
        ensure_eq!(api.get(n), want.get(n), "the description of {n}");
        ctx.event("described_functions");
    }
    Ok(())
}

fn observe(ctx: &mut Ctx, gs: &GlobalState, at: &A20, v: &Vars, what: &str) -> R {
    let rt = tokio_rt();
    let s = match rt.block_on(AccountStorage::load(gs.clone(), &addr(at))) {
        Ok(s) => s,
        Err(e) => return violation(format!("{what}: the account can't be loaded: {e}")),
    };
    for (i, want) in v.by_id().into_iter().enumerate() {
        match rt.block_on(s.get_var_vec(i as u32)) {
            Ok(got) => ensure_eq!(hex::encode(got), hex::encode(&want), "{what}: variable {i}"),
            Err(e) => return violation(format!("{what}: variable {i}: {e}")),
        }
    }
    ctx.events("variable_reads", Vars::sizes().len() as u64);
    Ok(())
}

fn c25(ctx: &mut Ctx) -> R {
    let loops = ctx.rng.pct(60);
    let f = if loops { files("all", "All")? } else { files("fixed", "Fixed")? };
    if ctx.rng.pct(10) {
        check_meta(ctx, &f, loops)?;
    }
    let (mut rt, gs) = match open_runtime(None) {
        Ok(x) => x,
        Err(p) => return harness(format!("no runtime: {p:?}")),
    };
    let ctors = if loops { vec!["initialize", "first", "nothing"] } else { vec!["first", "nothing"] };
    let t = Template::new(
        CodeSection::new_fixed(f.wasm.clone(), 0),
        DataSection::with_layout(Layout::Fixed(FixedLayout::from_byte_sizes(0, &Vars::sizes()))),
        CtorsSection::new(ctors.iter().map(|s| s.to_string()).collect()),
    );
    let msg = svm_codec::template::encode(&t);
    let env = Envelope::default();
    let context = Context::default();
    let valid = match guard(|| rt.validate_deploy(&msg)) {
        Ok(v) => v.is_ok(),
        Err(p) => return violation(format!("validating an SDK template panics: {}", p.message)),
    };
    let d = rt.deploy(&env, &msg, &context);
    ensure!(d.success, "an SDK template isn't deployed: {:?}", d.error);
    let template = TemplateAddr::new(&b3(&f.wasm));
    let mut history: Vec<String> = vec![];
    let (account, mut v);
    if valid && ctx.rng.pct(90) {
        // Constructors that fail first, then one that doesn't.
        loop {
            let c = random_ctor(&mut ctx.rng, loops);
            let m = SpawnAccount::new(0, &template, "name", &c.func, c.calldata()).encode_to_vec();
            let got = guard(|| rt.spawn(&env, &m, &context));
            history.push(format!("spawn {} {:?}", c.func, c.args));
            let got = match got {
                Ok(g) => g,
                Err(p) => return violation(format!("{} panics: {}", history.join("; "), p.message)),
            };
            match &c.result {
                None => {
                    ensure!(!got.success, "{}: succeeds though an argument is missing", history.join("; "));
                    ctx.event("failed_ctors");
                }
                Some((_, vars)) => {
                    ensure!(got.success, "{}: fails: {:?}", history.join("; "), got.error);
                    ensure_eq!(got.returndata.clone().unwrap_or_default(), c.returndata(), "{}: returndata", history.join("; "));
                    let logs: Vec<Vec<u8>> = got.logs.iter().map(|l| l.as_bytes().to_vec()).collect();
                    ensure_eq!(logs, c.logs, "{}: logs", history.join("; "));
                    ctx.event("ok_ctors");
                    account = a20(&got.account_addr.clone().unwrap());
                    v = vars.clone();
                    break;
                }
            }
        }
    } else {
        // Templates with loops have no fixed price and can't be spawned from.
        account = ctx.rng.bytes(20).try_into().unwrap();
        v = Vars::new();
        if let Err(e) = rt.create_account(&addr(&account), template.clone(), "name".into(), 5, 0) {
            return violation(format!("no account of an SDK template: {e:?}"));
        }
        ctx.event("created_accounts");
    }
    observe(ctx, &gs, &account, &v, "after the constructor")?;
    let (mut ok, mut failed) = (0u32, 0u32);
    for _ in 0..ctx.rng.range(6, 14) {
        let c = random_call(&v, &mut ctx.rng, loops, false);
        let m = Transaction { version: 0, target: addr(&account), func_name: c.func.clone(), calldata: c.calldata(), verifydata: vec![] }.encode_to_vec();
        history.push(format!("{} {:?}", c.func, c.args));
        if history.len() > 4 {
            history.remove(0);
        }
        let h = history.join("; ");
        let got = match guard(|| rt.call(&env, &m, &context)) {
            Ok(g) => g,
            // Where there is no calldata at all, the runtime refuses to give its place.
            Err(_) if c.result.is_none() && c.args.is_empty() => {
                ctx.event("refused_calls");
                observe(ctx, &gs, &account, &v, &format!("after {h}"))?;
                continue;
            }
            Err(p) => return violation(format!("{h}: panics: {}", p.message)),
        };
        let logs: Vec<Vec<u8>> = got.logs.iter().map(|l| l.as_bytes().to_vec()).collect();
        ensure_eq!(
            logs.iter().map(|l| String::from_utf8_lossy(l).to_string()).collect::<Vec<_>>(),
            c.logs.iter().map(|l| String::from_utf8_lossy(l).to_string()).collect::<Vec<_>>(),
            "{h}: logs"
        );
        ctx.events("logs", logs.len() as u64);
        match &c.result {
            Some((_, next)) => {
                ensure!(got.success, "{h}: fails: {:?}", got.error);
                ensure_eq!(hex::encode(got.returndata.clone().unwrap_or_default()), hex::encode(c.returndata()), "{h}: returndata");
                v = next.clone();
                ctx.event("ok_calls");
                ok += 1;
            }
            None => {
                ensure!(!got.success, "{h}: succeeds");
                ctx.event("failed_calls");
                failed += 1;
            }
        }
        if ctx.rng.pct(30) || c.result.is_none() {
            observe(ctx, &gs, &account, &v, &format!("after {h}"))?;
        }
        ctx.event(if loops { "calls_of_all" } else { "calls_of_fixed" });
    }
    observe(ctx, &gs, &account, &v, &format!("after {}", history.join("; ")))?;
    let sig = hash_bytes(format!("{history:?}{v:?}").as_bytes());
    ctx.evaluated(if ok > 0 && failed > 0 { Some(sig) } else { None });
    Ok(())
}

pub static C25: Spec = Spec {
    id: "C25",
    rule: "a case deploys one of two templates compiled to WebAssembly by the SDK of the tree (70 storage variables of every type, up to 115 exports), spawns or creates an account and makes 6-14 calls with arguments at the borders of their types, indexes beyond arrays, overflowing amounts, failing checks and calldata that doesn't fit; returndata, logs, outcome and all storage variables are compared with a model of the source, and the schema and API the SDK writes with the source; non-trivial when some calls succeed and some fail; distinct by history",
    assumptions: &["the SDK's host functions that SVM doesn't provide (value, balance, transfer) aren't called"],
    quick_cases: 3000,
    quick_secs: 30,
    thorough_cases: 60_000,
    required: &["ok_calls", "failed_calls", "logs", "calls_of_all", "calls_of_fixed", "variable_reads", "described_functions"],
    case: c25,
    ..DEFAULT_SPEC
};
