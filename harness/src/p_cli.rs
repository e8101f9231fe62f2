//! C26: what the command-line tool writes and says.

use std::path::PathBuf;
use std::process::{Command, Stdio};

use serde_json::{json, Value as J};

use crate::core::*;
use crate::p_codec::{a20, W};
use crate::p_json::{as_text, hex_in, Input};
use crate::{ensure, ensure_eq};

fn bin() -> PathBuf {
    verif_dir().join("target/cli/debug/svm-cli")
}

struct Done {
    ok: bool,
    stdout: String,
    stderr: String,
    written: Option<Vec<u8>>,
}

/// Runs the tool; `-o` names a file that doesn't exist or, if `old` is given, has that content.
fn run(ctx: &mut Ctx, args: &[&str], old: Option<&[u8]>) -> R<Done> {
    let out = ctx.scratch.join("out.bin");
    let _ = std::fs::remove_file(&out);
    if let Some(b) = old {
        if std::fs::write(&out, b).is_err() {
            return harness("can't write into the scratch directory");
        }
    }
    let shown = args.join(" ");
    ctx.log(|| format!("svm-cli {shown}"));
    let o = Command::new(bin()).args(args).current_dir(&ctx.scratch).stdin(Stdio::null()).output();
    let o = match o {
        Ok(o) => o,
        Err(e) => return harness(format!("the tool doesn't start: {e}")),
    };
    ctx.event("runs");
    let d = Done {
        ok: o.status.success(),
        stdout: String::from_utf8_lossy(&o.stdout).into_owned(),
        stderr: String::from_utf8_lossy(&o.stderr).into_owned(),
        written: std::fs::read(&out).ok(),
    };
    ensure!(o.status.code().is_some(), "the tool is killed: {:?} {}", o.status, d.stderr);
    Ok(d)
}

fn put(ctx: &Ctx, name: &str, b: &[u8]) -> R {
    match std::fs::write(ctx.scratch.join(name), b) {
        Ok(()) => Ok(()),
        Err(e) => harness(format!("can't write into the scratch directory: {e}")),
    }
}

fn short(s: &str) -> String {
    s.chars().take(600).collect()
}

// ---------------------------------------------------------------------------------------------

struct Meta {
    doc: J,
    ctors: Vec<String>,
    sizes: Vec<u64>,
}

fn meta(r: &mut Rng) -> Meta {
    let (mut schema, mut sizes) = (vec![], vec![]);
    let n = match r.below(8) {
        0 => 0,
        1 => r.range(50, 400),
        _ => r.range(1, 9),
    };
    let mut offset = 0u64;
    for _ in 0..n {
        let size = *r.pick(&[1u64, 1, 2, 4, 8, 8, 20, 20, 32, 255, 256, 65535]);
        let mut v = json!({"id": sizes.len(), "name": r.ident(12), "type": r.ident(8), "offset": offset, "byte_count": size});
        let m = if r.pct(35) { r.range(1, 10) as u64 } else { 0 };
        if m > 0 {
            v["length"] = json!(m);
        } else if r.bool() {
            v["length"] = J::Null;
        }
        for _ in 0..m.max(1) {
            sizes.push(size);
            offset += size;
        }
        schema.push(v);
    }
    let (mut api, mut ctors) = (vec![], vec![]);
    let n = match r.below(10) {
        0 => 0,
        1 => r.range(200, 300),
        _ => r.range(1, 12),
    };
    let p = r.below(101);
    for _ in 0..n {
        let name = match r.below(6) {
            0 => r.text(255),
            1 => "n".repeat(r.range(250, 255)),
            _ => r.ident(20),
        };
        let ctor = r.pct(p) && ctors.len() < 255;
        if ctor {
            ctors.push(name.clone());
        }
        let params: Vec<J> = (0..r.below(4)).map(|_| json!({"name": r.ident(5), "type": "u32"})).collect();
        let mut e = json!({"name": name, "wasm_name": name, "is_ctor": ctor, "is_fundable": r.bool(), "doc": r.text(40), "signature": {"params": params, "returns": r.pick(&[json!([]), json!(null), json!({"type": "u8"}), json!([{"type": "u8", "length": 3}])]).clone()}});
        if r.pct(20) {
            // What the SDK of another version may add.
            e["fund_hook"] = json!(r.ident(6));
        }
        api.push(e);
    }
    let mut doc = json!({"schema": schema, "api": api});
    if r.bool() {
        doc["name"] = json!(r.ident(6));
    }
    Meta { doc, ctors, sizes }
}

fn template_bytes(code: &[u8], m: &Meta) -> Vec<u8> {
    let mut w = W::default();
    w.be(3, 2);
    let mut section = |kind: u128, body: Vec<u8>| {
        w.be(kind, 2).be(body.len() as u128, 4).raw(&body);
    };
    let mut b = W::default();
    // Kind: wasm; flags: may be executed; gas: fixed; version 0.
    b.be(1, 2).be(1, 8).be(1, 8).be(0, 4).be(code.len() as u128, 4).raw(code);
    section(1, b.0);
    let mut b = W::default();
    b.u8(m.ctors.len() as u8);
    for c in &m.ctors {
        b.str8(c);
    }
    section(3, b.0);
    let mut b = W::default();
    b.be(1, 2).be(1, 2).be(m.sizes.len() as u128, 2);
    if !m.sizes.is_empty() {
        b.be(0, 4);
        for s in &m.sizes {
            b.be(*s as u128, 2);
        }
    }
    section(2, b.0);
    w.0
}

fn deploy(ctx: &mut Ctx) -> R {
    let module = ctx.rng.pct(50);
    let code = if module {
        let text = crate::p_wasm::random_module(&mut ctx.rng, 12, 5, 6).wat();
        crate::p_wasm::compile(ctx, &text)?
    } else {
        let n = *ctx.rng.pick(&[0, 1, 100, 255, 256, 5000, 65535, 65536, 70000]);
        ctx.rng.bytes(n)
    };
    let mut m = meta(&mut ctx.rng);
    let want = template_bytes(&code, &m);
    put(ctx, "code.wasm", &code)?;
    let text = as_text(&mut ctx.rng, &m.doc);
    put(ctx, "meta.json", text.as_bytes())?;
    let old = if ctx.rng.pct(30) { Some(vec![0xaa; want.len() + 1000]) } else { None };
    let args = ["craft-deploy", "--smwasm", "code.wasm", "--meta", "meta.json", "-o", "out.bin"];
    let d = run(ctx, &args, old.as_deref())?;
    ensure!(d.ok, "craft-deploy fails with proper files: {}", short(&d.stderr));
    let got = d.written.unwrap_or_default();
    if got != want {
        let at = got.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
        return violation(format!("craft-deploy writes {} bytes instead of {}; they differ at {at}; meta {}", got.len(), want.len(), short(&m.doc.to_string())));
    }
    ctx.event("deploys_written");
    if module && !m.sizes.is_empty() {
        // The runtime takes what it wrote.
        let (rt, _gs) = match crate::engine::open_runtime(None) {
            Ok(x) => x,
            Err(p) => return harness(format!("no runtime: {}", p.message)),
        };
        match guard(|| rt.validate_deploy(&got).is_ok()) {
            Ok(true) => ctx.event("deploys_accepted_by_the_runtime"),
            Ok(false) => return violation("the runtime refuses the template that craft-deploy made of proper files"),
            Err(p) => return violation(format!("validating the crafted template panics at {}: {}", p.location, p.message)),
        }
    }
    ctx.evaluated(Some(hash_bytes(&want)));

    // Something that no template can have, or no meta file is.
    let r = &mut ctx.rng;
    let why = match r.below(9) {
        0 => {
            let v = *r.pick(&[65536u64, 65537, 65536 + 4, 1 << 20, u32::MAX as u64, (1 << 32) + 4, (1 << 32) + 65536, 1 << 40]);
            let s = m.doc["schema"].as_array_mut().unwrap();
            s.push(json!({"id": 0, "name": "v", "type": "t", "offset": 0, "byte_count": v}));
            format!("a variable of {v} bytes")
        }
        1 => {
            let n = *r.pick(&[65536, 65537, 70000, 131072, 131073]);
            let s = m.doc["schema"].as_array_mut().unwrap();
            s.push(json!({"id": 0, "name": "v", "type": "t", "offset": 0, "byte_count": 1, "length": n}));
            format!("an array of {n}")
        }
        2 => {
            let n = *r.pick(&[256, 257, 300, 512, 513]);
            let a = m.doc["api"].as_array_mut().unwrap();
            for i in 0..n {
                a.push(json!({"name": format!("c{i}"), "wasm_name": "c", "is_ctor": true, "is_fundable": false, "doc": "", "signature": {"params": [], "returns": []}}));
            }
            format!("{n} constructors")
        }
        3 => {
            let n = *r.pick(&[256usize, 257, 300, 512, 513]);
            let a = m.doc["api"].as_array_mut().unwrap();
            a.push(json!({"name": "x".repeat(n), "wasm_name": "c", "is_ctor": true, "is_fundable": false, "doc": "", "signature": {"params": [], "returns": []}}));
            format!("a constructor's name of {n} bytes")
        }
        4 => {
            let k = *r.pick(&["schema", "api"]);
            m.doc.as_object_mut().unwrap().remove(k);
            format!("no {k}")
        }
        5 => {
            let s = m.doc["schema"].as_array_mut().unwrap();
            let v = r.pick(&[json!(-1), json!("4"), json!(1.5), json!(null), json!([4])]).clone();
            s.push(json!({"id": 0, "name": "v", "type": "t", "offset": 0, "byte_count": v}));
            "a variable of no size".to_string()
        }
        6 => {
            let a = m.doc["api"].as_array_mut().unwrap();
            let v = r.pick(&[json!(1), json!("true"), json!(null)]).clone();
            a.push(json!({"name": "x", "wasm_name": "c", "is_ctor": v, "is_fundable": false, "doc": "", "signature": {"params": [], "returns": []}}));
            "is_ctor that is no boolean".to_string()
        }
        7 => {
            let n = r.below(text.trim_end().len());
            let mut n = n;
            while !text.is_char_boundary(n) {
                n -= 1;
            }
            m.doc = J::Null;
            put(ctx, "meta.json", text[..n].as_bytes())?;
            "a part of the meta file".to_string()
        }
        _ => {
            let _ = std::fs::remove_file(ctx.scratch.join("code.wasm"));
            "no code".to_string()
        }
    };
    if m.doc != J::Null {
        let t = as_text(&mut ctx.rng, &m.doc);
        put(ctx, "meta.json", t.as_bytes())?;
    }
    let d = run(ctx, &args, None)?;
    ensure!(!d.ok, "craft-deploy reports success with {why} and writes {:?} bytes", d.written.map(|w| w.len()));
    ctx.event("deploys_refused");
    Ok(())
}

fn tx(ctx: &mut Ctx) -> R {
    let r = &mut ctx.rng;
    let (ver, addr) = (r.u16() >> r.below(16), a20(r));
    let (name, func) = (r.text(255), r.text(255));
    let (v, c) = (Input::make(r, 255), Input::make(r, 255));
    let is_call = r.bool();
    let mut w = W::default();
    w.be(ver as u128, 2).raw(&addr);
    let doc = if is_call {
        w.str8(&func).blob8(&v.bytes).blob8(&c.bytes);
        json!({"version": ver, "target": hex_in(r, &addr), "func_name": func, "verifydata": v.given(r), "calldata": c.given(r)})
    } else {
        w.str8(&name).str8(&func).blob8(&c.bytes);
        json!({"version": ver, "template": hex_in(r, &addr), "name": name, "ctor_name": func, "calldata": c.given(r)})
    };
    let text = as_text(r, &doc);
    put(ctx, "tx.json", text.as_bytes())?;
    let old = if ctx.rng.pct(30) { Some(vec![0xaa; w.0.len() + 1000]) } else { None };
    let args = ["tx", "--tx-type", if is_call { "call" } else { "spawn" }, "-i", "tx.json", "-o", "out.bin"];
    let d = run(ctx, &args, old.as_deref())?;
    ensure!(d.ok, "tx fails with a proper document: {}", short(&d.stderr));
    ensure_eq!(d.written.map(hex::encode), Some(hex::encode(&w.0)), "what tx writes for {}", short(&doc.to_string()));
    ctx.event(if is_call { "calls_written" } else { "spawns_written" });
    ctx.evaluated(Some(hash_bytes(&w.0)));

    // One thing wrong: an error, and the file of before is left as it was.
    let r = &mut ctx.rng;
    let mut bad = doc.clone();
    let keys: Vec<String> = doc.as_object().unwrap().keys().cloned().collect();
    let k = r.pick(&keys).clone();
    let mut why = format!("without {k}");
    if r.pct(30) {
        bad.as_object_mut().unwrap().remove(&k);
    } else {
        bad[&k] = match k.as_str() {
            "version" => r.pick(&[json!(65536), json!(-1), json!("0"), json!(1.5), json!(null), json!(1u64 << 32)]).clone(),
            "target" | "template" => {
                let n = *r.pick(&[0, 1, 19, 21, 40]);
                let b = r.bytes(n);
                let other = hex_in(r, &b);
                r.pick(&[json!(other), json!(null), json!(7), json!("g".repeat(40))]).clone()
            }
            "verifydata" | "calldata" => {
                let ty: Vec<J> = (0..13).map(|_| json!("address")).collect();
                let long: Vec<J> = (0..13).map(|_| json!("ff".repeat(20))).collect();
                match r.below(6) {
                    0 => json!({"abi": ty, "data": long}),
                    1 => json!({"abi": ["u8"], "data": [256]}),
                    2 => json!({"abi": ["i16"], "data": [-32769]}),
                    3 => json!({"abi": ["u8"], "data": []}),
                    4 => json!({"abi": ["u128"], "data": [1]}),
                    _ => r.pick(&[json!(null), json!(1), json!([]), json!({}), json!({"abi": []}), json!({"data": []})]).clone(),
                }
            }
            _ => {
                let n = *r.pick(&[256usize, 257, 300, 512]);
                r.pick(&[json!("x".repeat(n)), json!("é".repeat(n / 2)), json!(null), json!(1), json!([])]).clone()
            }
        };
        why = format!("{k} = {}", bad[&k]);
    }
    let text = as_text(r, &bad);
    put(ctx, "tx.json", text.as_bytes())?;
    let keep = b"the file of before".to_vec();
    let old = if ctx.rng.bool() { Some(keep) } else { None };
    let d = run(ctx, &args, old.as_deref())?;
    ensure!(!d.ok, "tx reports success with {} and writes {:?}", short(&why), d.written.map(hex::encode));
    ensure_eq!(d.written, old, "the output file after tx failed with {}", short(&why));
    ctx.event("transactions_refused");
    Ok(())
}

const VALID: &str = "The given file contains a valid smWasm module.";

fn validate(ctx: &mut Ctx) -> R {
    let m = crate::p_wasm::random_module(&mut ctx.rng, 12, 8, 8);
    let text = m.wat();
    let wasm = crate::p_wasm::compile(ctx, &text)?;
    let prices = match crate::refgas::prices(&wasm) {
        Some(p) => p,
        None => return harness("the reference pricer rejects the module"),
    };
    let name = *ctx.rng.pick(&["m.wasm", "m.wat", "m.wast"]);
    if name == "m.wasm" {
        put(ctx, name, &wasm)?;
    } else {
        put(ctx, name, text.as_bytes())?;
    }
    let d = run(ctx, &["validate", "-i", name], None)?;
    ensure!(d.ok, "validate fails with a proper module: {}", short(&d.stderr));
    ensure!(d.stdout.lines().any(|l| l == VALID), "validate says of a proper module: {}", short(&d.stdout));
    for (i, want) in &prices.by_index {
        let line = format!("Function #{i} price: {want}");
        ensure!(d.stdout.lines().any(|l| l == line), "validate doesn't say {line:?} but {}", short(&d.stdout));
    }
    ctx.event("modules_valid");
    ctx.evaluated(Some(hash_bytes(text.as_bytes())));

    // No smWasm module.
    let r = &mut ctx.rng;
    let (name, bytes, why): (&str, Vec<u8>, String) = match r.below(5) {
        0 => {
            let f = *r.pick(crate::p_wasm::FLOATS);
            let t = text.replacen("(memory ", &format!("(func $float {f})\n(memory "), 1);
            let t = if r.bool() { t } else { text.replacen("(memory ", &format!("(func $float block {f} end)\n(memory "), 1) };
            let b = match wat::parse_str(&t) {
                Ok(b) => b,
                Err(e) => return harness(format!("the module with floats doesn't assemble: {e}")),
            };
            if r.bool() {
                ("m.wasm", b, format!("the instructions {f}"))
            } else {
                ("m.wat", t.into_bytes(), format!("the instructions {f}"))
            }
        }
        1 => {
            let whole = crate::p_wasm::section_ends(&wasm);
            let n = r.below(crate::p_wasm::code_end(&wasm));
            if whole.contains(&n) {
                ("m.wasm", vec![], "no bytes".into())
            } else {
                ("m.wasm", wasm[..n].to_vec(), format!("the first {n} of {} bytes", wasm.len()))
            }
        }
        2 => ("m.wat", vec![0xff; 10], "a text that isn't UTF-8".into()),
        3 => {
            let n = text.trim_end().len() - 1;
            ("m.wat", text.as_bytes()[..n].to_vec(), "a text without its last bracket".into())
        }
        _ => (*r.pick(&["m", "m.bin", "m.wasm.txt"]), wasm.clone(), "a file of another kind".into()),
    };
    put(ctx, name, &bytes)?;
    let d = run(ctx, &["validate", "-i", name], None)?;
    ensure!(!d.stdout.contains(VALID), "validate calls a module with {why} valid");
    ctx.event("modules_invalid");
    Ok(())
}

fn c26(ctx: &mut Ctx) -> R {
    match ctx.rng.below(10) {
        0..=3 => deploy(ctx),
        4..=7 => tx(ctx),
        _ => validate(ctx),
    }
}

pub static C26: Spec = Spec {
    id: "C26",
    rule: "a case runs the real svm-cli program twice, on proper files (template code with a meta file of up to 400 variables and 300 functions, the JSON of a call or spawn, or a WebAssembly module) and on the same with one thing wrong; the file it writes is compared with an independent writer, the prices it prints with an independent pricer; distinct by the bytes written or the module",
    assumptions: &["the meta file states variables in the order of their ids, as the SDK writes it", "a refusal is any exit status but 0; validate refuses by not calling the module valid", "modules with loops or recursion aren't given to validate"],
    quick_cases: 20_000,
    quick_secs: 20,
    thorough_cases: 200_000,
    required: &["deploys_written", "deploys_accepted_by_the_runtime", "deploys_refused", "calls_written", "spawns_written", "transactions_refused", "modules_valid", "modules_invalid"],
    case: c26,
    ..DEFAULT_SPEC
};
