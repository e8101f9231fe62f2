//! Random contracts: a small script language, its translation to WebAssembly text, and its meaning.

use std::collections::BTreeSet;

use crate::core::*;
use crate::p_state::{World, A20};

pub const D: u32 = 66000; // read-only data: the addresses first, then random bytes
pub const D_LEN: u32 = 600;
pub const S: u32 = 70000; // scratch memory
pub const S_LEN: u32 = 512;
pub const P: u32 = 71000; // pointers of allocations
pub const MEM: u32 = 131072;

#[derive(Clone, Debug)]
pub enum Act {
    Set32(u32, u32),
    Set64(u32, u64),
    Add64(u32, u64),
    Copy64(u32, u32),
    LogVar32(u32, u32),
    LogVar64(u32, u32),
    Store160(u32, u32),
    Load160(u32, u32),
    LogMem(u32, u32),
    Mem(u32, u64),
    LogCalldata,
    Ret(u32, u32),
    RetCalldata,
    Transfer(u32, u32, u64),
    TransferCd,
    If(u32, u64, Vec<Act>, Vec<Act>),
    BlockBr(u32, u64, Vec<Act>, Vec<Act>),
    Switch(u32, Vec<Vec<Act>>),
    CallFn(usize),
    Trap(u8),
    HostFail(u8),
    Return,
    Alloc(u8, u32, u8),
    LogAlloc(u8),
}

#[derive(Clone, Debug)]
pub struct Func {
    pub name: String,
    pub acts: Vec<Act>,
    pub ctor: bool,
}

#[derive(Clone, Debug)]
pub enum AllocKind {
    /// `svm_alloc` hands out what `svm_static_alloc` returns.
    Static,
    /// `svm_alloc` returns a constant.
    Const(u32),
    /// `svm_alloc` runs a script before it does the same as `Static`.
    Script(Vec<Act>),
}

#[derive(Clone, Debug)]
pub struct Contract {
    pub first: u32,
    pub sizes: Vec<u32>,
    pub data: Vec<u8>,
    pub naddrs: usize,
    /// The account (by index) that most transfers are written for.
    pub home: usize,
    pub funcs: Vec<Func>,
    pub helpers: Vec<Vec<Act>>,
    pub alloc: AllocKind,
    pub verify: Vec<Act>,
    pub ctors: Vec<String>,
}

pub struct Knobs {
    pub fail_pct: usize,
    pub transfer_pct: usize,
    pub storage_pct: usize,
    pub log_pct: usize,
    pub bad_alloc_pct: usize,
    pub verify_access_pct: usize,
}

impl Default for Knobs {
    fn default() -> Self {
        Knobs {
            fail_pct: 5,
            transfer_pct: 20,
            storage_pct: 40,
            log_pct: 20,
            bad_alloc_pct: 5,
            verify_access_pct: 25,
        }
    }
}

impl Contract {
    pub fn size(&self, id: u32) -> u32 {
        self.sizes[(id - self.first) as usize]
    }
    pub fn vars_of(&self, sizes: &[u32]) -> Vec<u32> {
        (0..self.sizes.len())
            .filter(|&i| sizes.contains(&self.sizes[i]))
            .map(|i| self.first + i as u32)
            .collect()
    }

    pub fn random(r: &mut Rng, addrs: &[A20], home: usize, k: &Knobs) -> Contract {
        let n = r.range(3, 9);
        let mut sizes: Vec<u32> = vec![8, 4];
        if r.bool() {
            sizes.push(20);
        }
        for _ in 0..n {
            sizes.push(*r.pick(&[1u32, 2, 4, 4, 8, 8, 8, 20, 20, 32, 5]));
        }
        r.shuffle(&mut sizes);
        let first = *r.pick(&[0u32, 0, 0, 1, 9]);
        let mut data: Vec<u8> = addrs.iter().flatten().copied().collect();
        while data.len() < D_LEN as usize {
            data.push(r.u8());
        }
        let mut c = Contract {
            first,
            sizes,
            data,
            naddrs: addrs.len(),
            home,
            funcs: vec![],
            helpers: vec![],
            alloc: AllocKind::Static,
            verify: vec![],
            ctors: vec![],
        };
        // Helpers may call helpers with a higher index only.
        let nh = r.below(3);
        let mut helpers: Vec<Vec<Act>> = vec![vec![]; nh];
        for h in (0..nh).rev() {
            let callable: Vec<usize> = (h + 1..nh).collect();
            let n = r.range(1, 4);
            helpers[h] = c.acts(r, n, &callable, 1, k, false);
        }
        c.helpers = helpers;
        let callable: Vec<usize> = (0..nh).collect();
        let nf = r.range(3, 6);
        for i in 0..nf {
            let n = r.range(1, 7);
            let mut acts = vec![];
            let slots = if r.pct(30) { r.range(1, 3) } else { 0 };
            for s in 0..slots {
                acts.push(Act::Alloc(s as u8, *r.pick(&[1u32, 2, 8, 20, 33, 100, 1000]), r.u8()));
            }
            acts.extend(c.acts(r, n, &callable, 2, k, true));
            for s in 0..slots {
                acts.push(Act::LogAlloc(s as u8));
            }
            if slots > 0 && r.bool() {
                acts.push(Act::LogCalldata);
            }
            if r.pct(50) {
                let (off, len) = c.mem_range(r);
                acts.push(if r.pct(30) { Act::RetCalldata } else { Act::Ret(off, len.max(1)) });
            }
            let ctor = i == 0 || (i > 1 && r.pct(20));
            c.funcs.push(Func { name: format!("f{i}"), acts, ctor });
        }
        // A plain calldata-driven transfer, always there.
        c.funcs.push(Func { name: "send".into(), acts: vec![Act::TransferCd], ctor: false });
        c.ctors = c.funcs.iter().filter(|f| f.ctor).map(|f| f.name.clone()).collect();
        c.alloc = match r.below(100) {
            x if x < k.bad_alloc_pct => {
                let a = c.storage_act(r);
                AllocKind::Script(vec![a])
            }
            x if x < 30 => AllocKind::Const(r.range(10000, 60000) as u32),
            _ => AllocKind::Static,
        };
        // `svm_verify`
        if r.pct(k.verify_access_pct) {
            let a = if r.pct(30) {
                Act::Transfer(r.below(c.naddrs) as u32, r.below(c.naddrs) as u32, r.range(1, 5) as u64)
            } else {
                c.storage_act(r)
            };
            c.verify = vec![a];
        } else {
            for _ in 0..r.below(3) {
                let (off, len) = c.mem_range(r);
                c.verify.push(match r.below(4) {
                    0 => Act::LogMem(off, len),
                    1 => Act::Mem(r.below(60) as u32 * 8, r.u64()),
                    2 => Act::LogCalldata,
                    _ => Act::Trap(r.below(3) as u8),
                });
            }
            if r.pct(40) {
                let (off, len) = c.mem_range(r);
                c.verify.push(Act::Ret(off, len.max(1)));
            }
        }
        c
    }

    fn mem_range(&self, r: &mut Rng) -> (u32, u32) {
        if r.bool() {
            let off = r.below(D_LEN as usize) as u32;
            let len = r.below((D_LEN - off) as usize + 1) as u32;
            (D + off, if r.bool() { len } else { len.min(20) })
        } else {
            let off = r.below(S_LEN as usize - 64) as u32;
            (S + off, r.below(64) as u32)
        }
    }

    fn storage_act(&self, r: &mut Rng) -> Act {
        let v32 = self.vars_of(&[4]);
        let small = self.vars_of(&[1, 2, 4]);
        let v64 = self.vars_of(&[8]);
        let v160 = self.vars_of(&[20]);
        match r.below(10) {
            0 | 1 if !small.is_empty() => {
                let v = *r.pick(&small);
                let mask = match self.size(v) {
                    1 => 0xff,
                    2 => 0xffff,
                    _ => u32::MAX,
                };
                Act::Set32(v, r.u32() & mask)
            }
            2 | 3 if !v64.is_empty() => Act::Set64(*r.pick(&v64), if r.bool() { r.below(4) as u64 } else { r.big() }),
            4 if !v64.is_empty() => Act::Add64(*r.pick(&v64), if r.bool() { 1 } else { r.big() }),
            5 if !v64.is_empty() => Act::Copy64(*r.pick(&v64), *r.pick(&v64)),
            6 if !v160.is_empty() => {
                let m = if r.bool() { D + r.below((D_LEN - 20) as usize) as u32 } else { S + r.below(100) as u32 };
                Act::Store160(m, *r.pick(&v160))
            }
            7 if !v160.is_empty() => Act::Load160(*r.pick(&v160), r.below(S_LEN as usize - 20) as u32),
            8 if !v32.is_empty() => Act::LogVar32(*r.pick(&small), r.below(100) as u32 * 4),
            // A 64-bit read of a shorter variable is fine too.
            _ => {
                let mut all = v64;
                if r.pct(30) {
                    all.extend(small);
                }
                Act::LogVar64(*r.pick(&all), r.below(60) as u32 * 8)
            }
        }
    }

    fn acts(&self, r: &mut Rng, n: usize, callable: &[usize], depth: usize, k: &Knobs, transfers: bool) -> Vec<Act> {
        let mut v = vec![];
        for _ in 0..n {
            let x = r.below(100);
            let a = if r.pct(k.fail_pct) {
                match r.below(4) {
                    0 => Act::Return,
                    1 => Act::Trap(r.below(3) as u8),
                    _ => Act::HostFail(r.below(9) as u8),
                }
            } else if transfers && r.pct(k.transfer_pct) {
                let s = if r.pct(90) { self.home } else { r.below(self.naddrs) } as u32;
                let d = if r.pct(70) { r.below(3) } else { r.below(self.naddrs) } as u32;
                let amount = match r.below(5) {
                    0 => 0,
                    1 if r.pct(30) => r.big(),
                    _ => r.range(1, 12) as u64,
                };
                if r.pct(15) {
                    Act::TransferCd
                } else {
                    Act::Transfer(s, d, amount)
                }
            } else if r.pct(k.storage_pct) {
                self.storage_act(r)
            } else if r.pct(k.log_pct) {
                let (off, len) = self.mem_range(r);
                match r.below(4) {
                    0 => Act::LogCalldata,
                    _ => Act::LogMem(off, len),
                }
            } else if depth > 0 && x < 40 {
                let v64 = self.vars_of(&[8]);
                let var = *r.pick(&v64);
                let key = r.below(3) as u64;
                let (a, b) = (r.below(4), r.below(4));
                let t = self.acts(r, a, callable, depth - 1, k, transfers);
                let e = self.acts(r, b, callable, depth - 1, k, transfers);
                match r.below(3) {
                    0 => Act::BlockBr(var, key, t, e),
                    1 => {
                        let v32 = self.vars_of(&[4]);
                        let arms = (0..r.range(1, 4))
                            .map(|_| {
                                let n = r.below(3);
                                self.acts(r, n, callable, depth - 1, k, transfers)
                            })
                            .collect();
                        Act::Switch(*r.pick(&v32), arms)
                    }
                    _ => Act::If(var, key, t, e),
                }
            } else if !callable.is_empty() && x < 60 {
                Act::CallFn(*r.pick(callable))
            } else {
                Act::Mem(r.below(60) as u32 * 8, r.u64())
            };
            v.push(a);
        }
        v
    }

    // -----------------------------------------------------------------------------------------
    // WebAssembly text

    pub fn wat(&self) -> String {
        let mut o = String::from("(module\n");
        for (name, sig) in [
            ("svm_static_alloc", "(param i32) (result i32)"),
            ("svm_calldata_offset", "(result i32)"),
            ("svm_calldata_len", "(result i32)"),
            ("svm_set_returndata", "(param i32 i32)"),
            ("svm_get32", "(param i32) (result i32)"),
            ("svm_set32", "(param i32 i32)"),
            ("svm_get64", "(param i32) (result i64)"),
            ("svm_set64", "(param i32 i64)"),
            ("svm_load160", "(param i32 i32)"),
            ("svm_store160", "(param i32 i32)"),
            ("svm_log", "(param i32 i32)"),
            ("svm_transfer", "(param i32 i32 i64)"),
        ] {
            o.push_str(&format!("  (import \"svm\" \"{name}\" (func ${name} {sig}))\n"));
        }
        o.push_str("  (memory (export \"memory\") 2)\n");
        o.push_str("  (global (export \"notafunc\") i32 (i32.const 1))\n");
        o.push_str(&format!("  (data (i32.const {D}) \"{}\")\n", escape(&self.data)));
        for (i, h) in self.helpers.iter().enumerate() {
            o.push_str(&format!("  (func $h{i} (local $p0 i32) (local $p1 i32) (local $p2 i32)\n"));
            emit(h, &mut o, 2);
            o.push_str("  )\n");
        }
        match &self.alloc {
            AllocKind::Static => o.push_str(
                "  (func (export \"svm_alloc\") (param i32) (result i32) (call $svm_static_alloc (local.get 0)))\n",
            ),
            AllocKind::Const(k) => o.push_str(&format!(
                "  (func (export \"svm_alloc\") (param i32) (result i32) (i32.const {k}))\n"
            )),
            AllocKind::Script(a) => {
                o.push_str("  (func (export \"svm_alloc\") (param i32) (result i32) (local $p0 i32) (local $p1 i32) (local $p2 i32)\n");
                emit(a, &mut o, 2);
                o.push_str("    (call $svm_static_alloc (local.get 0)))\n");
            }
        }
        o.push_str("  (func (export \"svm_verify\") (result i32) (local $p0 i32) (local $p1 i32) (local $p2 i32)\n");
        emit(&self.verify, &mut o, 2);
        o.push_str("    (i32.const 0))\n");
        for f in &self.funcs {
            o.push_str(&format!(
                "  (func (export \"{}\") (local $p0 i32) (local $p1 i32) (local $p2 i32)\n",
                f.name
            ));
            emit(&f.acts, &mut o, 2);
            o.push_str("  )\n");
        }
        o.push_str("  (func (export \"badsig\") (param i32))\n");
        o.push_str("  (func (export \"badret\") (result i64) (i64.const 3))\n");
        o.push_str(")\n");
        o
    }

    pub fn wasm(&self) -> R<Vec<u8>> {
        wat::parse_str(self.wat()).map_err(|e| Fail::Harness(format!("bad WAT: {e}")))
    }
}

fn escape(b: &[u8]) -> String {
    b.iter().map(|x| format!("\\{x:02x}")).collect()
}

fn emit(acts: &[Act], o: &mut String, ind: usize) {
    let p = "  ".repeat(ind);
    for a in acts {
        match a {
            Act::Set32(v, x) => o.push_str(&format!("{p}(call $svm_set32 (i32.const {v}) (i32.const {}))\n", *x as i32)),
            Act::Set64(v, x) => o.push_str(&format!("{p}(call $svm_set64 (i32.const {v}) (i64.const {}))\n", *x as i64)),
            Act::Add64(v, x) => o.push_str(&format!(
                "{p}(call $svm_set64 (i32.const {v}) (i64.add (call $svm_get64 (i32.const {v})) (i64.const {})))\n",
                *x as i64
            )),
            Act::Copy64(a, b) => o.push_str(&format!(
                "{p}(call $svm_set64 (i32.const {b}) (call $svm_get64 (i32.const {a})))\n"
            )),
            Act::LogVar32(v, s) => o.push_str(&format!(
                "{p}(i32.store (i32.const {0}) (call $svm_get32 (i32.const {v}))) (call $svm_log (i32.const {0}) (i32.const 4))\n",
                S + s
            )),
            Act::LogVar64(v, s) => o.push_str(&format!(
                "{p}(i64.store (i32.const {0}) (call $svm_get64 (i32.const {v}))) (call $svm_log (i32.const {0}) (i32.const 8))\n",
                S + s
            )),
            Act::Store160(m, v) => o.push_str(&format!("{p}(call $svm_store160 (i32.const {m}) (i32.const {v}))\n")),
            Act::Load160(v, s) => o.push_str(&format!("{p}(call $svm_load160 (i32.const {v}) (i32.const {}))\n", S + s)),
            Act::LogMem(off, len) => o.push_str(&format!("{p}(call $svm_log (i32.const {off}) (i32.const {len}))\n")),
            Act::Mem(s, x) => o.push_str(&format!("{p}(i64.store (i32.const {}) (i64.const {}))\n", S + s, *x as i64)),
            Act::LogCalldata => o.push_str(&format!("{p}(call $svm_log (call $svm_calldata_offset) (call $svm_calldata_len))\n")),
            Act::Ret(off, len) => o.push_str(&format!("{p}(call $svm_set_returndata (i32.const {off}) (i32.const {len}))\n")),
            Act::RetCalldata => o.push_str(&format!("{p}(call $svm_set_returndata (call $svm_calldata_offset) (call $svm_calldata_len))\n")),
            Act::Transfer(s, d, x) => o.push_str(&format!(
                "{p}(call $svm_transfer (i32.const {}) (i32.const {}) (i64.const {}))\n",
                D + 20 * s,
                D + 20 * d,
                *x as i64
            )),
            Act::TransferCd => o.push_str(&format!(
                "{p}(call $svm_transfer (call $svm_calldata_offset) (i32.add (call $svm_calldata_offset) (i32.const 20)) (i64.load offset=40 align=1 (call $svm_calldata_offset)))\n"
            )),
            Act::If(v, x, t, e) => {
                o.push_str(&format!("{p}(if (i64.eq (call $svm_get64 (i32.const {v})) (i64.const {x}))\n{p}  (then\n"));
                emit(t, o, ind + 2);
                o.push_str(&format!("{p}  )\n"));
                if !e.is_empty() {
                    o.push_str(&format!("{p}  (else\n"));
                    emit(e, o, ind + 2);
                    o.push_str(&format!("{p}  )\n"));
                }
                o.push_str(&format!("{p})\n"));
            }
            Act::BlockBr(v, x, t, e) => {
                o.push_str(&format!("{p}(block\n"));
                emit(t, o, ind + 1);
                o.push_str(&format!("{p}  (br_if 0 (i64.eq (call $svm_get64 (i32.const {v})) (i64.const {x})))\n"));
                emit(e, o, ind + 1);
                o.push_str(&format!("{p})\n"));
            }
            Act::Switch(v, arms) => {
                // The value selects an arm; anything out of range runs none.
                let n = arms.len();
                o.push_str(&format!("{p}(block $end\n"));
                for _ in 0..n {
                    o.push_str(&format!("{p}(block\n"));
                }
                let labels: String = (0..n).map(|i| format!("{i} ")).collect();
                o.push_str(&format!("{p}(br_table {labels} {n} (call $svm_get32 (i32.const {v})))\n"));
                for arm in arms.iter() {
                    o.push_str(&format!("{p})\n"));
                    emit(arm, o, ind + 1);
                    o.push_str(&format!("{p}(br $end)\n"));
                }
                o.push_str(&format!("{p})\n"));
            }
            Act::CallFn(h) => o.push_str(&format!("{p}(call $h{h})\n")),
            Act::Trap(0) => o.push_str(&format!("{p}(unreachable)\n")),
            Act::Trap(1) => o.push_str(&format!("{p}(drop (i32.div_u (i32.const 7) (i32.const 0)))\n")),
            Act::Trap(_) => o.push_str(&format!("{p}(drop (i32.load (i32.const {})))\n", MEM)),
            Act::HostFail(0) => o.push_str(&format!("{p}(drop (call $svm_get32 (i32.const 99999)))\n")),
            Act::HostFail(1) => o.push_str(&format!("{p}(call $svm_log (i32.const {}) (i32.const 16))\n", MEM - 15)),
            Act::HostFail(2) => o.push_str(&format!("{p}(drop (call $svm_static_alloc (i32.const 0)))\n")),
            Act::HostFail(3) => o.push_str(&format!("{p}(drop (call $svm_static_alloc (i32.const {MEM})))\n")),
            Act::HostFail(4) => o.push_str(&format!("{p}(call $svm_set_returndata (i32.const {S}) (i32.const 0))\n")),
            // No account lives at these (constant, random) bytes.
            Act::HostFail(5) => o.push_str(&format!(
                "{p}(call $svm_transfer (i32.const {D}) (i32.const {}) (i64.const 1))\n",
                D + D_LEN - 20
            )),
            Act::HostFail(6) => o.push_str(&format!("{p}(call $svm_store160 (i32.const {}) (i32.const 0))\n", MEM - 19)),
            Act::HostFail(7) => o.push_str(&format!("{p}(call $svm_set64 (i32.const 99999) (i64.const 1))\n")),
            Act::HostFail(_) => o.push_str(&format!("{p}(call $svm_log (i32.const 0) (i32.const 65536))\n")),
            Act::Return => o.push_str(&format!("{p}(if (i32.const 1) (then (return)))\n")),
            Act::Alloc(slot, size, pat) => o.push_str(&format!(
                "{p}(local.set $p{slot} (call $svm_static_alloc (i32.const {size})))\n{p}(i32.store8 (local.get $p{slot}) (i32.const {pat}))\n{p}(i32.store8 (i32.add (local.get $p{slot}) (i32.const {})) (i32.const {pat}))\n{p}(i32.store (i32.const {P}) (local.get $p{slot})) (call $svm_log (i32.const {P}) (i32.const 4))\n",
                size - 1
            )),
            Act::LogAlloc(slot) => {
                // The size is known statically; see `exec`.
                o.push_str(&format!("{p}(call $svm_log (local.get $p{slot}) (i32.const @SIZE{slot}@))\n"));
            }
        }
    }
    // Sizes of allocations are those of the same function body.
    for a in acts {
        if let Act::Alloc(slot, size, _) = a {
            let tag = format!("@SIZE{slot}@");
            let at = o.rfind(&tag);
            if at.is_some() {
                *o = o.replace(&tag, &size.to_string());
            }
        }
    }
}

// ---------------------------------------------------------------------------------------------
// Meaning

#[derive(Clone, Debug, PartialEq)]
pub enum LogM {
    Bytes(Vec<u8>),
    /// The pointer of an allocation of this many bytes.
    Ptr(u32),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Flow {
    Next,
    Return,
    /// The WebAssembly code traps.
    Trap,
    /// A host function refuses.
    Host,
}

pub struct Exec<'a> {
    pub c: &'a Contract,
    pub world: World,
    pub target: A20,
    pub addrs: &'a [A20],
    pub calldata: Option<Vec<u8>>,
    pub denied: bool,
    pub logs: Vec<LogM>,
    pub ret: Option<Vec<u8>>,
    pub touched: BTreeSet<A20>,
    pub scratch: Vec<u8>,
    pub transfers: u64,
    pub storage_ops: u64,
    /// Which property a refusal belongs to.
    pub why: &'static str,
    pub slots: [Option<(u32, u8)>; 3],
}

impl<'a> Exec<'a> {
    pub fn new(c: &'a Contract, world: World, target: A20, addrs: &'a [A20], calldata: &[u8], denied: bool) -> Self {
        let mut touched = BTreeSet::new();
        touched.insert(target);
        Exec {
            c,
            world,
            target,
            addrs,
            calldata: if calldata.is_empty() { None } else { Some(calldata.to_vec()) },
            denied,
            logs: vec![],
            ret: None,
            touched,
            scratch: vec![0; S_LEN as usize],
            transfers: 0,
            storage_ops: 0,
            why: "output",
            slots: [None; 3],
        }
    }

    fn mem(&self, off: u32, len: u32) -> Vec<u8> {
        let (off, len) = (off as usize, len as usize);
        if off >= S as usize {
            let s = off - S as usize;
            self.scratch[s..s + len].to_vec()
        } else {
            let s = off - D as usize;
            self.c.data[s..s + len].to_vec()
        }
    }

    fn get(&mut self, var: u32, width: usize) -> Option<Vec<u8>> {
        if self.denied {
            self.why = "access";
            return None;
        }
        if var < self.c.first || (var - self.c.first) as usize >= self.c.sizes.len() {
            return None;
        }
        let size = self.c.size(var) as usize;
        if size > width {
            return None;
        }
        self.storage_ops += 1;
        let mut v = self.world.accounts[&self.target]
            .vars
            .get(&var)
            .cloned()
            .unwrap_or_else(|| vec![0; size]);
        v.resize(width, 0);
        Some(v)
    }

    fn set(&mut self, var: u32, bytes: &[u8]) -> bool {
        if self.denied {
            self.why = "access";
            return false;
        }
        if var < self.c.first || (var - self.c.first) as usize >= self.c.sizes.len() {
            return false;
        }
        let size = self.c.size(var) as usize;
        if size > bytes.len() {
            return false;
        }
        self.storage_ops += 1;
        self.world
            .accounts
            .get_mut(&self.target)
            .unwrap()
            .vars
            .insert(var, bytes[..size].to_vec());
        true
    }

    fn transfer(&mut self, src: A20, dst: A20, amount: u64) -> bool {
        if amount == 0 {
            return true;
        }
        self.why = "coins";
        if self.denied || src != self.target {
            if self.denied {
                self.why = "access";
            }
            return false;
        }
        let (s, d) = match (self.world.accounts.get(&src), self.world.accounts.get(&dst)) {
            (Some(s), Some(d)) => (s.balance, d.balance),
            _ => return false,
        };
        if s < amount {
            return false;
        }
        if src != dst {
            let d = match d.checked_add(amount) {
                Some(d) => d,
                None => return false,
            };
            self.world.accounts.get_mut(&src).unwrap().balance = s - amount;
            self.world.accounts.get_mut(&dst).unwrap().balance = d;
        }
        self.why = "output";
        self.transfers += 1;
        self.touched.insert(src);
        self.touched.insert(dst);
        true
    }

    fn get64(&mut self, var: u32) -> Option<u64> {
        self.get(var, 8).map(|v| u64::from_le_bytes(v.try_into().unwrap()))
    }

    pub fn run(&mut self, acts: &[Act]) -> Flow {
        macro_rules! host {
            ($e:expr) => {
                match $e {
                    Some(x) => x,
                    None => return Flow::Host,
                }
            };
        }
        macro_rules! hostb {
            ($e:expr) => {
                if !$e {
                    return Flow::Host;
                }
            };
        }
        for a in acts {
            match a {
                Act::Set32(v, x) => hostb!(self.set(*v, &x.to_le_bytes())),
                Act::Set64(v, x) => hostb!(self.set(*v, &x.to_le_bytes())),
                Act::Add64(v, x) => {
                    let y = host!(self.get64(*v)).wrapping_add(*x);
                    hostb!(self.set(*v, &y.to_le_bytes()));
                }
                Act::Copy64(a, b) => {
                    let y = host!(self.get64(*a));
                    hostb!(self.set(*b, &y.to_le_bytes()));
                }
                Act::LogVar32(v, s) => {
                    let x = host!(self.get(*v, 4));
                    self.scratch[*s as usize..*s as usize + 4].copy_from_slice(&x);
                    self.logs.push(LogM::Bytes(x));
                }
                Act::LogVar64(v, s) => {
                    let x = host!(self.get(*v, 8));
                    self.scratch[*s as usize..*s as usize + 8].copy_from_slice(&x);
                    self.logs.push(LogM::Bytes(x));
                }
                Act::Store160(m, v) => {
                    let b = self.mem(*m, 20);
                    hostb!(self.set(*v, &b));
                }
                Act::Load160(v, s) => {
                    let b = host!(self.get(*v, 20));
                    self.scratch[*s as usize..*s as usize + 20].copy_from_slice(&b);
                }
                Act::LogMem(off, len) => {
                    let b = self.mem(*off, *len);
                    self.logs.push(LogM::Bytes(b));
                }
                Act::Mem(s, x) => {
                    self.scratch[*s as usize..*s as usize + 8].copy_from_slice(&x.to_le_bytes());
                }
                Act::LogCalldata => {
                    let b = host!(self.calldata.clone());
                    self.logs.push(LogM::Bytes(b));
                }
                Act::Ret(off, len) => {
                    // The receipt holds what the memory holds when the function ends; nothing
                    // follows a `Ret` that writes to memory.
                    self.ret = Some(self.mem(*off, *len));
                }
                Act::RetCalldata => self.ret = Some(host!(self.calldata.clone())),
                Act::Transfer(s, d, x) => {
                    let (s, d) = (self.addrs[*s as usize], self.addrs[*d as usize]);
                    hostb!(self.transfer(s, d, *x));
                }
                Act::TransferCd => {
                    let b = host!(self.calldata.clone());
                    if b.len() < 48 {
                        // What follows the calldata in memory is nobody's business; callers avoid it.
                        return Flow::Host;
                    }
                    let s: A20 = b[..20].try_into().unwrap();
                    let d: A20 = b[20..40].try_into().unwrap();
                    let x = u64::from_le_bytes(b[40..48].try_into().unwrap());
                    hostb!(self.transfer(s, d, x));
                }
                Act::If(v, x, t, e) => {
                    let y = host!(self.get64(*v));
                    let f = if y == *x { self.run(t) } else { self.run(e) };
                    if f != Flow::Next {
                        return f;
                    }
                }
                Act::BlockBr(v, x, t, e) => {
                    let f = self.run(t);
                    if f != Flow::Next {
                        return f;
                    }
                    let y = host!(self.get64(*v));
                    if y != *x {
                        let f = self.run(e);
                        if f != Flow::Next {
                            return f;
                        }
                    }
                }
                Act::Switch(v, arms) => {
                    let y = u32::from_le_bytes(host!(self.get(*v, 4)).try_into().unwrap()) as usize;
                    if y < arms.len() {
                        let f = self.run(&arms[y]);
                        if f != Flow::Next {
                            return f;
                        }
                    }
                }
                Act::CallFn(h) => {
                    let body = self.c.helpers[*h].clone();
                    match self.run(&body) {
                        Flow::Next | Flow::Return => {}
                        f => return f,
                    }
                }
                Act::Trap(_) => return Flow::Trap,
                Act::HostFail(5) => {
                    // Fails whatever the executing account is.
                    self.why = "coins";
                    return Flow::Host;
                }
                Act::HostFail(_) => return Flow::Host,
                Act::Return => return Flow::Return,
                Act::Alloc(slot, size, pat) => {
                    self.slots[*slot as usize] = Some((*size, *pat));
                    self.logs.push(LogM::Ptr(*size));
                }
                Act::LogAlloc(slot) => {
                    let (size, pat) = self.slots[*slot as usize].unwrap();
                    let mut b = vec![0; size as usize];
                    b[0] = pat;
                    b[size as usize - 1] = pat;
                    self.logs.push(LogM::Bytes(b));
                }
            }
        }
        Flow::Next
    }
}

/// Does any path of these actions read calldata as a transfer order?
pub fn uses_transfer_cd(c: &Contract, acts: &[Act]) -> bool {
    acts.iter().any(|a| match a {
        Act::TransferCd => true,
        Act::If(_, _, t, e) | Act::BlockBr(_, _, t, e) => uses_transfer_cd(c, t) || uses_transfer_cd(c, e),
        Act::Switch(_, arms) => arms.iter().any(|x| uses_transfer_cd(c, x)),
        Act::CallFn(h) => uses_transfer_cd(c, &c.helpers[*h]),
        _ => false,
    })
}
