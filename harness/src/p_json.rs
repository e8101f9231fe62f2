//! C23: the JSON and WebAssembly APIs of the codec.

use serde_json::{json, Value as J};
use svm_codec::api::json as api;
use svm_codec::api::json::JsonError;
use svm_codec::api::wasm;
use svm_codec::Codec;
use svm_types::*;

use crate::core::*;
use crate::p_abi::{write, A};
use crate::p_codec::{a20, damage, random_receipt, W};
use crate::{ensure, ensure_eq};

// ---------------------------------------------------------------------------------------------
// JSON texts, written in all the ways JSON can be written.

fn space(r: &mut Rng, o: &mut String) {
    if r.pct(15) {
        o.push_str(*r.pick(&[" ", "\n", "\t", "\r\n", "  "]));
    }
}

fn string(r: &mut Rng, s: &str, o: &mut String) {
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 || r.pct(2) => {
                let mut b = [0; 2];
                for u in c.encode_utf16(&mut b) {
                    o.push_str(&format!("\\u{:04x}", u));
                }
            }
            c => o.push(c),
        }
    }
    o.push('"');
}

fn text(r: &mut Rng, j: &J, o: &mut String) {
    space(r, o);
    match j {
        J::Object(m) => {
            o.push('{');
            let mut keys: Vec<&String> = m.keys().collect();
            r.shuffle(&mut keys);
            for (i, k) in keys.into_iter().enumerate() {
                if i > 0 {
                    o.push(',');
                }
                space(r, o);
                string(r, k, o);
                space(r, o);
                o.push(':');
                text(r, &m[k], o);
            }
            o.push('}');
        }
        J::Array(v) => {
            o.push('[');
            for (i, x) in v.iter().enumerate() {
                if i > 0 {
                    o.push(',');
                }
                text(r, x, o);
            }
            o.push(']');
        }
        J::String(s) => string(r, s, o),
        x => o.push_str(&x.to_string()),
    }
    space(r, o);
}

pub fn as_text(r: &mut Rng, j: &J) -> String {
    let mut o = String::new();
    text(r, j, &mut o);
    o
}

const DIGITS: [&[u8; 16]; 2] = [b"0123456789abcdef", b"0123456789ABCDEF"];

/// Hex digits in any case.
pub fn hex_in(r: &mut Rng, b: &[u8]) -> String {
    let how = r.below(3);
    let mut o = String::new();
    for x in b {
        for d in [x >> 4, x & 15] {
            let case = if how == 2 { r.below(2) } else { how };
            o.push(DIGITS[case][d as usize] as char);
        }
    }
    o
}

/// Hex digits as the API reports them.
fn hex_out(b: &[u8]) -> String {
    let mut o = String::new();
    for x in b {
        for d in [x >> 4, x & 15] {
            o.push(DIGITS[1][d as usize] as char);
        }
    }
    o
}

// ---------------------------------------------------------------------------------------------
// Values

const TYPES: [&str; 11] = ["bool", "i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64", "amount", "address"];

fn number(r: &mut Rng) -> u64 {
    let n = r.big();
    if r.bool() {
        n.wrapping_neg()
    } else {
        n
    }
}

fn of_type(r: &mut Rng, ty: usize) -> A {
    let n = number(r);
    match ty {
        0 => A::Bool(r.bool()),
        1 => A::I8(n as i8),
        2 => A::U8(n as u8),
        3 => A::I16(n as i16),
        4 => A::U16(n as u16),
        5 => A::I32(n as i32),
        6 => A::U32(n as u32),
        7 => A::I64(n as i64),
        8 => A::U64(n),
        9 => A::Amount(n),
        _ => A::Address(a20(r)),
    }
}

/// The value as JSON, for input (hex in any case) or as reported.
fn value_json(r: &mut Rng, a: &A, input: bool) -> J {
    match a {
        A::Bool(b) => json!(b),
        A::I8(x) => json!(x),
        A::U8(x) => json!(x),
        A::I16(x) => json!(x),
        A::U16(x) => json!(x),
        A::I32(x) => json!(x),
        A::U32(x) => json!(x),
        A::I64(x) => json!(x),
        A::U64(x) => json!(x),
        A::Amount(x) => json!(x),
        A::Address(x) => {
            if input {
                json!(hex_in(r, x))
            } else {
                json!(hex_out(x))
            }
        }
        A::Arr(v) => J::Array(v.iter().map(|x| value_json(r, x, input)).collect()),
        A::None | A::Unit => unreachable!(),
    }
}

pub struct Input {
    values: Vec<A>,
    abi: J,
    pub bytes: Vec<u8>,
}

impl Input {
    pub fn make(r: &mut Rng, max_bytes: usize) -> Input {
        loop {
            let (mut values, mut abi) = (vec![], vec![]);
            let n = match r.below(4) {
                0 => 0,
                1 => 1,
                2 => r.range(2, 5),
                _ => r.range(2, 14),
            };
            for _ in 0..n {
                let ty = r.below(11);
                if r.pct(30) {
                    let m = r.below(11);
                    values.push(A::Arr((0..m).map(|_| of_type(r, ty)).collect()));
                    // As reported, empty arrays have no type.
                    abi.push(if m == 0 { json!([]) } else { json!([TYPES[ty]]) });
                } else {
                    values.push(of_type(r, ty));
                    abi.push(json!(TYPES[ty]));
                }
            }
            let mut bytes = vec![];
            for v in &values {
                write(v, &mut bytes);
            }
            if bytes.len() <= max_bytes {
                return Input { values, abi: J::Array(abi), bytes };
            }
        }
    }
    /// As a document, the types of empty arrays stated or not.
    pub fn given(&self, r: &mut Rng) -> J {
        let mut abi = self.abi.clone();
        for t in abi.as_array_mut().unwrap() {
            if *t == json!([]) && r.bool() {
                *t = json!([*r.pick(&TYPES)]);
            }
        }
        json!({ "abi": abi, "data": self.data(r, true) })
    }
    fn data(&self, r: &mut Rng, input: bool) -> Vec<J> {
        self.values.iter().map(|v| value_json(r, v, input)).collect()
    }
    fn reported(&self, r: &mut Rng) -> J {
        json!({ "abi": self.abi, "data": self.data(r, false) })
    }
    /// In a transaction: as hex digits or as a document.
    fn field(&self, r: &mut Rng) -> J {
        if r.bool() {
            json!(hex_in(r, &self.bytes))
        } else {
            self.given(r)
        }
    }
}

// ---------------------------------------------------------------------------------------------
// Calls, through both APIs

#[derive(Clone, Copy, PartialEq, Debug)]
enum F {
    EncodeInput,
    DecodeInput,
    EncodeSpawn,
    DecodeSpawn,
    EncodeCall,
    DecodeCall,
    DecodeReceipt,
}

const ALL: [F; 7] = [F::EncodeInput, F::DecodeInput, F::EncodeSpawn, F::DecodeSpawn, F::EncodeCall, F::DecodeCall, F::DecodeReceipt];

#[derive(Clone, PartialEq, Debug)]
enum Out {
    Json(J),
    Raw(Vec<u8>),
}

fn native(f: F, s: &str) -> Result<Out, JsonError> {
    match f {
        F::EncodeInput => api::encode_inputdata(s).map(Out::Json),
        F::DecodeInput => api::decode_inputdata(s).map(Out::Json),
        F::EncodeSpawn => api::encode_spawn(s).map(Out::Raw),
        F::DecodeSpawn => api::decode_spawn(s).map(Out::Json),
        F::EncodeCall => api::encode_call_raw(s).map(Out::Raw),
        F::DecodeCall => api::decode_call(s).map(Out::Json),
        F::DecodeReceipt => api::decode_receipt(s).map(Out::Json),
    }
}

/// The data of the buffer the WebAssembly API answers with.
fn through_buffers(f: F, s: &[u8]) -> Result<Vec<u8>, String> {
    unsafe {
        let p = wasm::wasm_alloc(s.len() as i32);
        if wasm::wasm_buffer_length(p) as usize != s.len() {
            return Err(format!("a buffer made for {} bytes says it has {}", s.len(), wasm::wasm_buffer_length(p)));
        }
        std::ptr::copy_nonoverlapping(s.as_ptr(), wasm::wasm_buffer_data(p), s.len());
        let q = match f {
            F::EncodeInput => wasm::wasm_encode_inputdata(p),
            F::DecodeInput => wasm::wasm_decode_inputdata(p),
            F::EncodeSpawn => wasm::wasm_encode_spawn(p),
            F::DecodeSpawn => wasm::wasm_decode_spawn(p),
            F::EncodeCall => wasm::wasm_encode_call(p),
            F::DecodeCall => wasm::wasm_decode_call(p),
            F::DecodeReceipt => wasm::wasm_decode_receipt(p),
        };
        if p == q {
            return Err("the answer is in the buffer of the request".into());
        }
        if wasm::wasm_buffer_length(p) as usize != s.len() || std::slice::from_raw_parts(wasm::wasm_buffer_data(p), s.len()) != s {
            return Err("the call changed the buffer it was given".into());
        }
        wasm::wasm_free(p);
        let n = wasm::wasm_buffer_length(q) as usize;
        let v = std::slice::from_raw_parts(wasm::wasm_buffer_data(q), n).to_vec();
        wasm::wasm_free(q);
        Ok(v)
    }
}

/// Runs one function through both APIs and makes sure that they agree.
fn call(ctx: &mut Ctx, f: F, s: &str) -> R<Result<Out, JsonError>> {
    ctx.log(|| format!("{f:?} {}", &s.chars().take(1500).collect::<String>()));
    let res = match guard(|| native(f, s)) {
        Ok(x) => x,
        Err(p) => return violation(format!("{f:?} panics at {}: {}", p.location, p.message)),
    };
    let buf = buffers(ctx, f, s.as_bytes())?;
    match &res {
        Ok(Out::Raw(b)) => ensure!(buf[0] == 1 && buf[1..] == b[..], "{f:?}: through buffers {} instead of 01 and {}", hex::encode(&buf), hex::encode(b)),
        Ok(Out::Json(j)) => {
            ensure!(buf[0] == 1, "{f:?}: marked {} though it succeeded", buf[0]);
            let mut got = match serde_json::from_slice::<J>(&buf[1..]) {
                Ok(x) => x,
                Err(e) => return violation(format!("{f:?}: the buffer doesn't contain JSON: {e}")),
            };
            let mut j = j.clone();
            sorted(&mut got);
            sorted(&mut j);
            ensure!(got == j, "{f:?}: through buffers {got} instead of {j}");
        }
        Err(e) => {
            ensure!(buf[0] == 0, "{f:?}: marked {} though it failed with {e:?}", buf[0]);
            let t = match std::str::from_utf8(&buf[1..]) {
                Ok(x) => x,
                Err(_) => return violation(format!("{f:?}: the error isn't text: {}", hex::encode(&buf[1..]))),
            };
            ensure!(t == e.to_string(), "{f:?}: through buffers the error {t:?} instead of {:?}", e.to_string());
        }
    }
    Ok(res)
}

fn buffers(ctx: &mut Ctx, f: F, s: &[u8]) -> R<Vec<u8>> {
    // The SDK's containers, of which both APIs make use, never release their memory.
    let (_, sdk) = with_live(|| std::str::from_utf8(s).map(|s| drop(guard(|| native(f, s)))).is_ok());
    let mut left = 0;
    let mut data = vec![];
    for _ in 0..2 {
        // Twice at most: the first call may initialise something for good.
        let (res, live) = with_live(|| match guard(|| through_buffers(f, s)) {
            Ok(Ok(v)) => {
                data = v;
                data.shrink_to_fit();
                Ok(data.capacity() as i64)
            }
            Ok(Err(e)) => Err(e),
            Err(p) => Err(format!("{f:?} through buffers panics at {}: {}", p.location, p.message)),
        });
        let own = match res {
            Ok(n) => n,
            Err(e) => return violation(e),
        };
        data = data.clone();
        ensure!(!data.is_empty(), "{f:?}: an empty answer");
        left = live - own - sdk;
        if left <= 0 {
            break;
        }
        data = vec![];
    }
    ensure!(left <= 0, "{f:?}: {left} bytes are still allocated when all buffers have been freed");
    ctx.event("buffer_calls");
    Ok(data)
}

/// Touched accounts are a set: they are compared in a definite order.
fn sorted(j: &mut J) {
    if let Some(v) = j.get_mut("touched_accounts").and_then(|x| x.as_array_mut()) {
        v.sort_by_key(|x| x.to_string());
    }
}

fn want(ctx: &mut Ctx, f: F, doc: &J, expect: Out) -> R {
    let s = as_text(&mut ctx.rng, doc);
    match call(ctx, f, &s)? {
        Ok(mut got) => {
            let mut expect = expect;
            for o in [&mut got, &mut expect] {
                if let Out::Json(j) = o {
                    sorted(j);
                }
            }
            ensure!(got == expect, "{f:?} gives {got:?} instead of {expect:?}");
        }
        Err(e) => return violation(format!("{f:?} refuses a proper document: {e}")),
    }
    ctx.evaluated(Some(hash_bytes(s.as_bytes())));
    Ok(())
}

fn refused(ctx: &mut Ctx, f: F, doc: &J, why: &str) -> R {
    let s = as_text(&mut ctx.rng, doc);
    if let Ok(o) = call(ctx, f, &s)? {
        return violation(format!("{f:?} accepts {why} and gives {o:?}"));
    }
    ctx.event("refused");
    ctx.evaluated(Some(hash_bytes(s.as_bytes())));
    Ok(())
}

fn missing(ctx: &mut Ctx, f: F, doc: &J) -> R {
    let keys: Vec<String> = doc.as_object().unwrap().keys().cloned().collect();
    let k = ctx.rng.pick(&keys).clone();
    let mut d = doc.clone();
    d.as_object_mut().unwrap().remove(&k);
    let s = as_text(&mut ctx.rng, &d);
    match call(ctx, f, &s)? {
        Err(JsonError::MissingField { field_name }) => ensure!(field_name == k, "{f:?}: the missing field {k} is reported as {field_name}"),
        x => return violation(format!("{f:?}: without {k} it gives {x:?}")),
    }
    ctx.event("missing_fields");
    Ok(())
}

fn raw_to_json(b: &[u8]) -> Out {
    Out::Json(json!({ "data": hex_out(b) }))
}

fn data_doc(r: &mut Rng, b: &[u8]) -> J {
    json!({ "data": hex_in(r, b) })
}

fn inputs(ctx: &mut Ctx) -> R {
    let i = Input::make(&mut ctx.rng, 4000);
    let doc = i.given(&mut ctx.rng);
    want(ctx, F::EncodeInput, &doc, raw_to_json(&i.bytes))?;
    let enc = data_doc(&mut ctx.rng, &i.bytes);
    let rep = i.reported(&mut ctx.rng);
    want(ctx, F::DecodeInput, &enc, Out::Json(rep))?;
    if ctx.rng.pct(10) {
        missing(ctx, F::EncodeInput, &doc)?;
        missing(ctx, F::DecodeInput, &enc)?;
    }
    ctx.event("input_data");
    Ok(())
}

/// A JSON value that isn't one of the given type.
fn wrong(r: &mut Rng, ty: usize) -> J {
    let (lo, hi): (i128, i128) = match ty {
        1 => (i8::MIN as i128, i8::MAX as i128),
        2 => (0, u8::MAX as i128),
        3 => (i16::MIN as i128, i16::MAX as i128),
        4 => (0, u16::MAX as i128),
        5 => (i32::MIN as i128, i32::MAX as i128),
        6 => (0, u32::MAX as i128),
        7 => (i64::MIN as i128, i64::MAX as i128),
        _ => (0, u64::MAX as i128),
    };
    if (1..10).contains(&ty) && r.pct(70) {
        let fits = |x: i128| (i64::MIN as i128..=u64::MAX as i128).contains(&x);
        for _ in 0..20 {
            let by = r.big() as i128;
            let x = match r.below(3) {
                0 => hi + 1 + by,
                1 => lo - 1 - by,
                _ => *r.pick(&[hi + 1, lo - 1, hi + 256, 2 * hi + 2, hi + (1 << 32)]),
            };
            if fits(x) && !(lo..=hi).contains(&x) {
                return if x < 0 { json!(x as i64) } else { json!(x as u64) };
            }
        }
    }
    loop {
        let j = match r.below(9) {
            0 => json!(null),
            1 => json!("5"),
            2 => json!(1.5),
            3 => json!({}),
            4 => json!([1]),
            5 => json!(true),
            6 => json!(1),
            7 => {
                let n = *r.pick(&[0, 19, 21, 40]);
                let b = r.bytes(n);
                json!(hex_in(r, &b))
            }
            _ => json!("0x01020304050607080910111213141516171819"),
        };
        let ok = match (ty, &j) {
            (0, J::Bool(_)) => true,
            (1..=9, J::Number(n)) => n.is_i64() || n.is_u64(),
            _ => false,
        };
        if !ok {
            return j;
        }
    }
}

fn bad_inputs(ctx: &mut Ctx) -> R {
    let i = Input::make(&mut ctx.rng, 4000);
    let mut doc = i.given(&mut ctx.rng);
    let r = &mut ctx.rng;
    let n = i.values.len();
    let at = r.below(n + 1);
    let ty = r.below(11);
    let mut insert = |abi: J, data: J| {
        doc["abi"].as_array_mut().unwrap().insert(at, abi);
        doc["data"].as_array_mut().unwrap().insert(at, data);
    };
    let why = match r.below(8) {
        0 | 1 => {
            let w = wrong(r, ty);
            let why = format!("{w} as a value of type {}", TYPES[ty]);
            insert(json!(TYPES[ty]), w);
            why
        }
        2 => {
            let w = wrong(r, ty);
            let why = format!("{w} as an item of type {}", TYPES[ty]);
            let m = r.below(9);
            let k = r.below(m + 1);
            let mut v: Vec<J> = (0..m).map(|_| { let a = of_type(r, ty); value_json(r, &a, true) }).collect();
            v.insert(k, w);
            insert(json!([TYPES[ty]]), J::Array(v));
            why
        }
        3 => {
            let m = *r.pick(&[11usize, 12, 16, 100, 266]);
            let v: Vec<J> = (0..m).map(|_| { let a = of_type(r, ty); value_json(r, &a, true) }).collect();
            insert(json!([TYPES[ty]]), J::Array(v));
            format!("an array of {m}")
        }
        4 => {
            let k = *r.pick(&["abi", "data"]);
            let v = doc[k].as_array_mut().unwrap();
            if v.is_empty() || r.bool() {
                v.push(if k == "abi" { json!("u8") } else { json!(1) });
            } else {
                v.pop();
            }
            "different numbers of types and values".to_string()
        }
        5 => {
            let t = r.pick(&[json!("u128"), json!("U8"), json!(""), json!(1), json!(null), json!(["u8", "u8"]), json!({"u8": 1}), json!(["string"])]).clone();
            let why = format!("the type {t}");
            insert(t, json!([]));
            why
        }
        6 => {
            insert(json!([]), json!([1]));
            "items of no type".to_string()
        }
        _ => {
            let k = *r.pick(&["abi", "data"]);
            doc[k] = r.pick(&[json!(null), json!(1), json!("u8"), json!({})]).clone();
            format!("{k} that is no list")
        }
    };
    refused(ctx, F::EncodeInput, &doc, &why)?;
    if i.bytes.len() < 200 {
        // Nor within a transaction.
        let f = if ctx.rng.bool() { F::EncodeCall } else { F::EncodeSpawn };
        let mut whole = if f == F::EncodeCall {
            json!({"version": 0, "target": "00".repeat(20), "func_name": "f", "verifydata": "", "calldata": ""})
        } else {
            json!({"version": 0, "template": "00".repeat(20), "name": "n", "ctor_name": "f", "calldata": ""})
        };
        let k = if f == F::EncodeCall && ctx.rng.bool() { "verifydata" } else { "calldata" };
        whole[k] = doc;
        refused(ctx, f, &whole, &format!("{why} in {k}"))?;
    }
    Ok(())
}

fn transactions(ctx: &mut Ctx) -> R {
    let r = &mut ctx.rng;
    let (ver, addr) = (r.u16() >> r.below(16), a20(r));
    let (name, func) = (r.text(255), r.text(255));
    let (v, c) = (Input::make(r, 255), Input::make(r, 255));
    let is_call = r.bool();
    let mut w = W::default();
    w.be(ver as u128, 2).raw(&addr);
    let (doc, reported);
    if is_call {
        w.str8(&func).blob8(&v.bytes).blob8(&c.bytes);
        doc = json!({"version": ver, "target": hex_in(r, &addr), "func_name": func, "verifydata": v.field(r), "calldata": c.field(r)});
        reported = json!({"version": ver, "target": hex_out(&addr), "func_name": func, "verifydata": v.reported(r), "calldata": c.reported(r)});
    } else {
        w.str8(&name).str8(&func).blob8(&c.bytes);
        doc = json!({"version": ver, "template": hex_in(r, &addr), "name": name, "ctor_name": func, "calldata": c.field(r)});
        reported = json!({"version": ver, "template": hex_out(&addr), "name": name, "ctor_name": func, "calldata": c.reported(r)});
    }
    let (e, d) = if is_call { (F::EncodeCall, F::DecodeCall) } else { (F::EncodeSpawn, F::DecodeSpawn) };
    want(ctx, e, &doc, Out::Raw(w.0.clone()))?;
    if is_call {
        let s = as_text(&mut ctx.rng, &doc);
        match guard(|| api::encode_call(&s)) {
            Ok(Ok(j)) => ensure!(Out::Json(j.clone()) == raw_to_json(&w.0), "encode_call gives {j} instead of {}", hex_out(&w.0)),
            x => return violation(format!("encode_call of a proper document: {:?}", x.map_err(|p| p.message))),
        }
    }
    let enc = data_doc(&mut ctx.rng, &w.0);
    want(ctx, d, &enc, Out::Json(reported))?;
    ctx.event(if is_call { "calls" } else { "spawns" });
    if ctx.rng.pct(20) {
        missing(ctx, e, &doc)?;
        missing(ctx, d, &enc)?;
    }
    // One thing wrong.
    let r = &mut ctx.rng;
    let mut bad = doc.clone();
    let keys: Vec<String> = doc.as_object().unwrap().keys().cloned().collect();
    let k = r.pick(&keys).clone();
    bad[&k] = match k.as_str() {
        "version" => r.pick(&[json!(65536), json!(-1), json!("0"), json!(1.5), json!(null), json!(u64::MAX), json!(1u64 << 32)]).clone(),
        "target" | "template" => {
            let n = *r.pick(&[0, 1, 19, 21, 40]);
            let b = r.bytes(n);
            let mut odd = hex_in(r, &addr);
            odd.pop();
            let mut digit = hex_in(r, &addr);
            digit.replace_range(7..8, *r.pick(&["g", " ", "-", "/"]));
            let other = hex_in(r, &b);
            r.pick(&[json!(other), json!(odd), json!(digit), json!(null), json!(7), json!([1, 2])]).clone()
        }
        "verifydata" | "calldata" => {
            let n = *r.pick(&[256, 257, 300, 511, 512, 65791]);
            let b = r.bytes(n);
            let long: Vec<J> = (0..13).map(|_| json!("ff".repeat(20))).collect();
            let ty: Vec<J> = (0..13).map(|_| json!("address")).collect();
            match r.below(6) {
                0 | 1 => json!(hex_in(r, &b)),
                2 => json!({"abi": ty, "data": long}),
                3 => json!("abc"),
                4 => json!("zz"),
                _ => r.pick(&[json!(null), json!(1), json!([]), json!({})]).clone(),
            }
        }
        _ => {
            let n = *r.pick(&[256usize, 257, 300, 511, 512, 65791]);
            let mut long = "é".repeat(n / 2);
            while long.len() < n {
                long.push('x');
            }
            r.pick(&[json!(long), json!(long), json!(null), json!(1), json!([]), json!({})]).clone()
        }
    };
    let why = format!("{k} = {}", bad[&k]);
    refused(ctx, e, &bad, &why.chars().take(200).collect::<String>())?;
    // Undecodable data.
    let r = &mut ctx.rng;
    let cut = r.below(w.0.len());
    let bad = json!({ "data": hex_in(r, &w.0[..cut]) });
    refused(ctx, d, &bad, &format!("the first {cut} of {} bytes", w.0.len()))
}

fn receipts(ctx: &mut Ctx) -> R {
    let c = random_receipt(&mut ctx.rng);
    let ty = match c.decoded {
        Receipt::Deploy(_) => "deploy-template",
        Receipt::Spawn(_) => "spawn-account",
        Receipt::Call(_) => "call-account",
    };
    let logs = |l: &[ReceiptLog]| -> J { l.iter().map(|l| json!({ "data": String::from_utf8_lossy(l.as_bytes()) })).collect() };
    let gas = |g: &Gas| if g.is_some() { json!(g.unwrap()) } else { json!(-1) };
    let touched = |t: &std::collections::HashSet<Address>| -> J { t.iter().map(|a| json!(hex_out(a.as_slice()))).collect() };
    let t = |t: &TemplateAddr| json!(hex_out(t.as_slice()));
    let a = |a: &Address| json!(hex_out(a.as_slice()));
    let mut o = json!({ "type": ty });
    match &c.decoded {
        x if !x.success() => {
            ctx.event("failed_receipts");
            o["success"] = json!(false);
            o["logs"] = logs(x.logs());
            let name = match x.error() {
                RuntimeError::OOG => "oog",
                RuntimeError::TemplateNotFound(..) => "template-not-found",
                RuntimeError::AccountNotFound(..) => "account-not-found",
                RuntimeError::CompilationFailed { .. } => "compilation-failed",
                RuntimeError::InstantiationFailed { .. } => "instantiation-failed",
                RuntimeError::FuncNotFound { .. } => "function-not-found",
                RuntimeError::FuncFailed { .. } => "function-failed",
                RuntimeError::FuncNotCtor { .. } => "function-not-ctor",
                RuntimeError::FuncNotAllowed { .. } => "function-not-allowed",
                RuntimeError::FuncInvalidSignature { .. } => "function-invalid-signature",
            };
            o["err_type"] = json!(name);
            match x.error() {
                RuntimeError::OOG => {}
                RuntimeError::TemplateNotFound(x) => o["template_addr"] = t(x),
                RuntimeError::AccountNotFound(x) => o["account_addr"] = a(x),
                RuntimeError::CompilationFailed { target, template, msg } | RuntimeError::InstantiationFailed { target, template, msg } => {
                    o["template_addr"] = t(template);
                    o["account_addr"] = a(target);
                    o["message"] = json!(msg);
                }
                RuntimeError::FuncNotFound { target, template, func } | RuntimeError::FuncInvalidSignature { target, template, func } => {
                    o["template_addr"] = t(template);
                    o["account_addr"] = a(target);
                    o["func"] = json!(func);
                }
                RuntimeError::FuncFailed { target, template, func, msg } | RuntimeError::FuncNotAllowed { target, template, func, msg } => {
                    o["template_addr"] = t(template);
                    o["account_addr"] = a(target);
                    o["func"] = json!(func);
                    o["message"] = json!(msg);
                }
                RuntimeError::FuncNotCtor { template, func } => {
                    o["template_addr"] = t(template);
                    o["func"] = json!(func);
                }
            }
            ctx.event(&format!("error_{name}"));
        }
        Receipt::Deploy(x) => {
            o["success"] = json!(true);
            o["addr"] = t(x.addr.as_ref().unwrap());
            o["gas_used"] = gas(&x.gas_used);
            o["logs"] = logs(&x.logs);
        }
        Receipt::Spawn(x) => {
            o["success"] = json!(true);
            o["account"] = a(x.account_addr.as_ref().unwrap());
            o["state"] = json!(hex_out(x.init_state.as_ref().unwrap().as_slice()));
            o["returndata"] = json!(hex_out(x.returndata.as_ref().unwrap()));
            o["gas_used"] = gas(&x.gas_used);
            o["touched_accounts"] = touched(&x.touched_accounts);
            o["logs"] = logs(&x.logs);
        }
        Receipt::Call(x) => {
            o["success"] = json!(true);
            o["new_state"] = json!(hex_out(x.new_state.as_ref().unwrap().as_slice()));
            o["returndata"] = json!(hex_out(x.returndata.as_ref().unwrap()));
            o["gas_used"] = gas(&x.gas_used);
            o["touched_accounts"] = touched(&x.touched_accounts);
            o["logs"] = logs(&x.logs);
        }
    }
    let doc = data_doc(&mut ctx.rng, &c.wire);
    want(ctx, F::DecodeReceipt, &doc, Out::Json(o))?;
    ctx.event(&format!("receipts_{ty}"));
    let cut = ctx.rng.below(c.wire.len());
    let bad = data_doc(&mut ctx.rng, &c.wire[..cut]);
    refused(ctx, F::DecodeReceipt, &bad, &format!("the first {cut} of {} bytes of a receipt", c.wire.len()))?;
    if ctx.rng.pct(10) {
        missing(ctx, F::DecodeReceipt, &doc)?;
    }
    Ok(())
}

/// Anything at all: an answer or an error; what is accepted is proper.
fn anything(ctx: &mut Ctx) -> R {
    let r = &mut ctx.rng;
    let f = *r.pick(&ALL);
    let i = Input::make(r, 255);
    let addr = a20(r);
    let doc = match f {
        F::EncodeInput => i.given(r),
        F::EncodeSpawn => json!({"version": 1, "template": hex_in(r, &addr), "name": r.text(20), "ctor_name": r.text(20), "calldata": i.field(r)}),
        F::EncodeCall => json!({"version": 1, "target": hex_in(r, &addr), "func_name": r.text(20), "verifydata": i.field(r), "calldata": i.field(r)}),
        _ => {
            let (_, mut b) = match r.below(3) {
                0 => (0, i.bytes.clone()),
                1 => {
                    let n = r.below(60);
                    (0, r.bytes(n))
                }
                _ => crate::p_codec::some_encoding(r),
            };
            if r.bool() {
                damage(r, &mut b);
            }
            data_doc(r, &b)
        }
    };
    let mut s = as_text(r, &doc).into_bytes();
    match r.below(5) {
        0 => {}
        1 => {
            let n = r.below(s.len() + 1);
            s.truncate(n);
        }
        2 => {
            let n = *r.pick(&[10, 100, 127, 128, 129, 1000, 100_000]);
            let (a, b) = *r.pick(&[("[", "]"), ("{\"data\":", "}"), ("{\"abi\":[", "]}"), ("[", "")]);
            s = format!("{}{}{}", a.repeat(n), String::from_utf8_lossy(&s), b.repeat(n)).into_bytes();
        }
        _ => {
            for _ in 0..r.range(1, 6) {
                if s.is_empty() {
                    break;
                }
                let at = r.below(s.len());
                match r.below(4) {
                    0 => s[at] = *r.pick(b"{}[]\",:0123456789-.eEtrufalsn\\ \x00\xff\xc3\x28"),
                    1 => {
                        s.remove(at);
                    }
                    2 => {
                        let n = (at + r.below(20) + 1).min(s.len());
                        let piece = s[at..n].to_vec();
                        let to = r.below(s.len() + 1);
                        s.splice(to..to, piece);
                    }
                    _ => s.insert(at, r.u8()),
                }
            }
        }
    }
    let accepted = match std::str::from_utf8(&s) {
        Ok(t) => match call(ctx, f, t)? {
            Ok(Out::Raw(b)) => {
                let again = match f {
                    F::EncodeSpawn => SpawnAccount::decode_bytes(&b).map(|x| x.encode_to_vec()).ok(),
                    _ => Transaction::decode_bytes(&b).map(|x| x.encode_to_vec()).ok(),
                };
                ensure_eq!(again, Some(b), "{f:?}: what it accepted and made isn't a proper transaction");
                true
            }
            Ok(_) => true,
            Err(_) => false,
        },
        Err(_) => {
            let b = buffers(ctx, f, &s)?;
            ensure!(b[0] == 0, "{f:?}: bytes that are no text are accepted");
            ensure!(std::str::from_utf8(&b[1..]).is_ok(), "{f:?}: the error isn't text");
            ctx.event("not_text");
            false
        }
    };
    ctx.event(if accepted { "odd_but_accepted" } else { "odd_refused" });
    ctx.evaluated(Some(hash_bytes(&s)));
    Ok(())
}

fn c23(ctx: &mut Ctx) -> R {
    match ctx.rng.below(10) {
        0 | 1 => inputs(ctx),
        2 | 3 => bad_inputs(ctx),
        4 | 5 => transactions(ctx),
        6 | 7 => receipts(ctx),
        _ => anything(ctx),
    }
}

pub static C23: Spec = Spec {
    id: "C23",
    rule: "a case is a JSON document (input data, a call or spawn transaction, or a receipt), written with random key order, spacing, escapes and hex case, proper or with one thing wrong, or damaged arbitrarily; it goes through the JSON API and through the buffers of the WebAssembly API, and the results are compared with an independent writer of the binary and JSON forms; distinct by text",
    assumptions: &["the WebAssembly API is run natively: the same functions, called with buffers they allocated", "touched accounts are reported in no particular order", "arrays of at most ten numbers, booleans, amounts or addresses, which is what the JSON form has"],
    quick_cases: 150_000,
    quick_secs: 25,
    thorough_cases: 5_000_000,
    required: &["input_data", "calls", "spawns", "refused", "missing_fields", "receipts_deploy-template", "receipts_spawn-account", "receipts_call-account", "failed_receipts", "odd_refused", "odd_but_accepted", "not_text", "buffer_calls", "error_oog", "error_function-not-allowed"],
    case: c23,
    ..DEFAULT_SPEC
};
