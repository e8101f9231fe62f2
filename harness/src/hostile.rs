//! Programs and messages made to hurt.

use svm_layout::{FixedLayout, Layout};
use svm_types::{CodeSection, CtorsSection, DataSection, Template};

use crate::core::*;

pub struct Hostile {
    pub what: String,
    pub wasm: Vec<u8>,
    pub ctors: Vec<String>,
    pub sizes: Vec<u32>,
    /// May be run (its running time is bounded by its size).
    pub runnable: bool,
}

impl Hostile {
    pub fn message(&self) -> Vec<u8> {
        let t = Template::new(
            CodeSection::new_fixed(self.wasm.clone(), 0),
            DataSection::with_layout(Layout::Fixed(FixedLayout::from_byte_sizes(0, &self.sizes))),
            CtorsSection::new(self.ctors.clone()),
        );
        svm_codec::template::encode(&t)
    }
}

const BASE: &str = r#"(memory (export "memory") 1)
(func (export "svm_alloc") (param i32) (result i32) i32.const 64)
(func (export "svm_verify") (result i32) i32.const 0)"#;

fn leb(mut n: u64) -> Vec<u8> {
    let mut v = vec![];
    loop {
        let b = (n & 0x7f) as u8;
        n >>= 7;
        if n == 0 {
            v.push(b);
            return v;
        }
        v.push(b | 0x80);
    }
}

fn section(id: u8, body: Vec<u8>) -> Vec<u8> {
    let mut v = vec![id];
    v.extend(leb(body.len() as u64));
    v.extend(body);
    v
}

/// A module with the standard exports, `locals` declared as given and a raw body for the constructor.
pub fn raw_module(ctor_locals: &[(u64, u8)], ctor_body: &[u8], extra_funcs: usize, memory_min: u64) -> Vec<u8> {
    let mut m = b"\0asm\x01\0\0\0".to_vec();
    // types: 0 = ()->(), 1 = (i32)->i32, 2 = ()->i32
    m.extend(section(1, vec![3, 0x60, 0, 0, 0x60, 1, 0x7f, 1, 0x7f, 0x60, 0, 1, 0x7f]));
    let n = 3 + extra_funcs;
    let mut f = leb(n as u64);
    f.extend([1, 2, 0]);
    f.extend(std::iter::repeat(0).take(extra_funcs));
    m.extend(section(3, f));
    let mut mem = vec![1, 0];
    mem.extend(leb(memory_min));
    m.extend(section(5, mem));
    let mut e = vec![4];
    let mut ex = |name: &str, kind: u8, i: u8| {
        e.push(name.len() as u8);
        e.extend(name.as_bytes());
        e.extend([kind, i]);
    };
    ex("memory", 2, 0);
    ex("svm_alloc", 0, 0);
    ex("svm_verify", 0, 1);
    ex("initialize", 0, 2);
    m.extend(section(7, e));
    let mut c = leb(n as u64);
    let mut body = |locals: &[(u64, u8)], code: &[u8]| {
        let mut b = leb(locals.len() as u64);
        for (n, t) in locals {
            b.extend(leb(*n));
            b.push(*t);
        }
        b.extend(code);
        b.push(0x0b);
        c.extend(leb(b.len() as u64));
        c.extend(b);
    };
    body(&[], &[0x41, 0xc0, 0]);
    body(&[], &[0x41, 0]);
    body(ctor_locals, ctor_body);
    // A chain: function i calls function i + 1
    for i in 0..extra_funcs {
        let mut code = vec![];
        if i + 1 < extra_funcs {
            code.push(0x10);
            code.extend(leb(3 + i as u64 + 1));
        }
        body(&[], &code);
    }
    m.extend(section(10, c));
    m
}

fn wat(body: &str) -> Option<Vec<u8>> {
    wat::parse_str(&format!("(module {body} {BASE})")).ok()
}

fn of(what: String, wasm: Option<Vec<u8>>) -> Option<Hostile> {
    Some(Hostile { what, wasm: wasm?, ctors: vec!["initialize".into()], sizes: vec![4], runnable: true })
}

pub fn random(r: &mut Rng) -> Option<Hostile> {
    let pick = r.below(24);
    let n = match r.below(4) {
        0 => r.range(1, 40),
        1 => r.range(100, 3000),
        2 => r.range(3000, 20000),
        _ => 20000 + r.below(30000),
    };
    build(pick, n, r)
}

pub fn build(pick: usize, n: usize, r: &mut Rng) -> Option<Hostile> {
    match pick {
        0 => {
            // nested blocks
            let mut b: Vec<u8> = [0x02, 0x40].repeat(n);
            b.extend(std::iter::repeat(0x0b).take(n));
            of(format!("{n} nested blocks"), Some(raw_module(&[], &b, 0, 1)))
        }
        1 => {
            let mut b: Vec<u8> = [0x41, 0, 0x04, 0x40].repeat(n);
            b.extend(std::iter::repeat(0x0b).take(n));
            of(format!("{n} nested ifs"), Some(raw_module(&[], &b, 0, 1)))
        }
        2 => {
            let mut b: Vec<u8> = [0x41, 0, 0x04, 0x40].repeat(n);
            b.extend([0x05, 0x0b].repeat(n));
            of(format!("{n} nested if/elses"), Some(raw_module(&[], &b, 0, 1)))
        }
        3 => {
            let b: Vec<u8> = [0x41, 0, 0x04, 0x40, 0x05, 0x0b].repeat(n);
            of(format!("{n} ifs in a row"), Some(raw_module(&[], &b, 0, 1)))
        }
        4 => {
            let b: Vec<u8> = [0x02, 0x40, 0x0b].repeat(n);
            of(format!("{n} blocks in a row"), Some(raw_module(&[], &b, 0, 1)))
        }
        5 => {
            let n = n.min(60000);
            let mut h = of(format!("a chain of {n} calls"), Some(raw_module(&[], &[0x10, 3], n, 1)))?;
            // Deep native recursion is the engine's business
            h.runnable = n < 200;
            Some(h)
        }
        6 => of(format!("{n} statements"), Some(raw_module(&[(1, 0x7f)], &[0x41, 1, 0x21, 0].repeat(n), 0, 1))),
        7 => {
            let k = *r.pick(&[1u64, 50_000, 50_001, 1 << 20, 0xffff_ffff, 1 << 32]);
            of(format!("{k} locals"), Some(raw_module(&[(k, 0x7f)], &[], 0, 1)))
        }
        8 => {
            let k = *r.pick(&[0u64, 2, 65535, 65536, 65537, 1 << 31]);
            of(format!("{k} memory pages"), Some(raw_module(&[], &[], 0, k)))
        }
        9 => {
            // every level is exited with br n
            let n = n.min(3000);
            let mut b: Vec<u8> = [0x02, 0x40].repeat(n);
            for i in 0..n {
                b.extend([0x41, 0, 0x0d]);
                b.extend(leb((n - 1 - i) as u64));
            }
            b.extend(std::iter::repeat(0x0b).take(n));
            of(format!("{n} nested blocks left by br_if"), Some(raw_module(&[], &b, 0, 1)))
        }
        10 => {
            let n = n.min(20000);
            let mut b: Vec<u8> = vec![0x02, 0x40, 0x41, 0, 0x0e];
            b.extend(leb(n as u64));
            b.extend(std::iter::repeat(0).take(n + 1));
            b.push(0x0b);
            of(format!("br_table with {n} targets"), Some(raw_module(&[], &b, 0, 1)))
        }
        11 => {
            let n = n.min(64);
            let mut s = String::new();
            for i in 0..n {
                s += &format!("(func $d{i} call $d{} call $d{})", i + 1, i + 1);
            }
            s += &format!("(func $d{n} (drop (i32.const 0)))(func (export \"initialize\") call $d0)");
            let mut h = of(format!("2^{n} calls"), wat(&s))?;
            h.runnable = n <= 10;
            Some(h)
        }
        12 => of("recursion".into(), wat("(func $f (export \"initialize\") call $f)")),
        13 => of("mutual recursion".into(), wat("(func $f (export \"initialize\") call $g) (func $g call $f)")),
        14 => of("a loop".into(), wat("(func (export \"initialize\") (loop br 0))")),
        15 => of(
            "an indirect call".into(),
            wat("(type $t (func)) (table funcref (elem $f)) (func $f (export \"initialize\") (call_indirect (type $t) (i32.const 0)))"),
        ),
        16 => {
            let bad = *r.pick(&[
                "(import \"svm\" \"nothing\" (func))",
                "(import \"env\" \"svm_get32\" (func (param i32) (result i32)))",
                "(import \"svm\" \"svm_get32\" (func (param i64)))",
                "(import \"svm\" \"memory\" (memory 1))",
                "(import \"svm\" \"svm_log\" (global i32))",
                "(import \"svm\" \"svm_log\" (table 1 funcref))",
                "(import \"svm\" \"svm_transfer\" (func (param i32 i32 i64) (result i32)))",
            ]);
            of(format!("import {bad}"), wat::parse_str(&format!("(module {bad} {} (func (export \"initialize\")))", if bad.contains("(memory") { BASE.replace("(memory (export \"memory\") 1)", "") } else { BASE.to_string() })).ok())
        }
        17 => {
            let a = *r.pick(&["i32.const -1", "i32.const 65535", "i32.const 65536", "unreachable", "i32.const 2147483647", "i32.const 0"]);
            of(
                format!("svm_alloc returning {a}"),
                wat::parse_str(&format!(
                    "(module (memory (export \"memory\") 1) (func (export \"svm_alloc\") (param i32) (result i32) {a}) (func (export \"svm_verify\") (result i32) i32.const 0) (func (export \"initialize\")))"
                ))
                .ok(),
            )
        }
        18 => {
            // Host functions with pointers and lengths out of range
            let f = *r.pick(&[
                "(call $log (i32.const P) (i32.const N))",
                "(call $ret (i32.const P) (i32.const N))",
                "(call $transfer (i32.const P) (i32.const N) (i64.const 1))",
                "(call $store160 (i32.const P) (i32.const N))",
                "(call $load160 (i32.const N) (i32.const P))",
                "(drop (call $alloc (i32.const N)))",
                "(drop (call $cdo)) (drop (call $cds)) (call $log (i32.const P) (i32.const N))",
                "(drop (call $get32 (i32.const N)))",
                "(call $set32 (i32.const N) (i32.const P))",
                "(drop (call $get64 (i32.const N)))",
                "(call $set64 (i32.const N) (i64.const 1))",
            ]);
            let nums = ["0", "1", "4", "255", "256", "65516", "65535", "65536", "-1", "-2147483648", "2147483647", "1000000"];
            let (p, n) = (*r.pick(&nums), *r.pick(&nums));
            let f = f.replace('P', p).replace('N', n);
            let imports = r#"(import "svm" "svm_log" (func $log (param i32 i32)))
                (import "svm" "svm_set_returndata" (func $ret (param i32 i32)))
                (import "svm" "svm_transfer" (func $transfer (param i32 i32 i64)))
                (import "svm" "svm_store160" (func $store160 (param i32 i32)))
                (import "svm" "svm_load160" (func $load160 (param i32 i32)))
                (import "svm" "svm_static_alloc" (func $alloc (param i32) (result i32)))
                (import "svm" "svm_calldata_offset" (func $cdo (result i32)))
                (import "svm" "svm_calldata_size" (func $cds (result i32)))
                (import "svm" "svm_get32" (func $get32 (param i32) (result i32)))
                (import "svm" "svm_set32" (func $set32 (param i32 i32)))
                (import "svm" "svm_get64" (func $get64 (param i32) (result i64)))
                (import "svm" "svm_set64" (func $set64 (param i32 i64)))"#;
            of(f.clone(), wat(&format!("{imports} (func (export \"initialize\") {f})")))
        }
        19 => {
            let mut h = of("no such constructor".into(), wat("(func (export \"other\"))"))?;
            if r.bool() {
                h.ctors = vec![];
            }
            Some(h)
        }
        20 => of(
            "the constructor is a global / memory".into(),
            wat(*r.pick(&["(global (export \"initialize\") i32 (i32.const 0))", "(table (export \"initialize\") 1 funcref)"])),
        ),
        21 => of(
            "start function".into(),
            wat(*r.pick(&["(func $s unreachable) (start $s) (func (export \"initialize\"))", "(func $s) (start $s) (func (export \"initialize\"))"])),
        ),
        22 => of(
            "data segment".into(),
            wat(*r.pick(&[
                "(data (i32.const 65530) \"0123456789\") (func (export \"initialize\"))",
                "(data (i32.const -1) \"0\") (func (export \"initialize\"))",
                "(data (i32.const 65536) \"\") (func (export \"initialize\"))",
                "(table 1 funcref) (elem (i32.const 5) $f) (func $f (export \"initialize\"))",
            ])),
        ),
        _ => of(
            "memory.grow".into(),
            wat(*r.pick(&[
                "(func (export \"initialize\") (drop (memory.grow (i32.const -1))))",
                "(func (export \"initialize\") (drop (memory.grow (i32.const 1000))))",
                "(func (export \"initialize\") (i32.store (i32.const -4) (i32.const 1)))",
                "(func (export \"initialize\") (drop (i32.div_s (i32.const -2147483648) (i32.const -1))))",
                "(func (export \"initialize\") (drop (i32.rem_u (i32.const 1) (i32.const 0))))",
            ])),
        ),
    }
}
