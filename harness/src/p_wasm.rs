//! C15, C16, C17: which programs are accepted, and what they cost.

use std::rc::Rc;

use svm_gas::{FixedGasError, GraphCycles, ProgramPricing};
use svm_layout::{FixedLayout, Layout};
use svm_program::{FuncIndex, Program, ProgramError, ProgramVisitor};
use svm_types::{CodeSection, CtorsSection, DataSection, Template};

use crate::core::*;
use crate::engine::open_runtime;
use crate::{ensure, ensure_eq};

// ---------------------------------------------------------------------------------------------
// Random structured functions

#[derive(Clone, Debug)]
pub enum N {
    Nop(usize),
    Call(usize),
    Host(usize),
    Block(Vec<N>),
    /// A block with a result, entered with something on the stack.
    BlockVal(Vec<N>),
    If(usize, Vec<N>, Option<Vec<N>>),
    Br(usize),
    BrIf(usize, usize),
    BrTable(usize, Vec<usize>),
    Return,
    Unreachable,
    Loop(Vec<N>),
    Indirect,
    Float(usize),
}

pub const HOSTS: &[(&str, &str)] = &[
    ("svm", "svm_static_alloc"),
    ("svm", "svm_calldata_offset"),
    ("svm", "svm_calldata_len"),
    ("svm", "svm_set_returndata"),
    ("svm", "svm_get32"),
    ("svm", "svm_set32"),
    ("svm", "svm_get64"),
    ("svm", "svm_set64"),
    ("svm", "svm_load160"),
    ("svm", "svm_store160"),
    ("svm", "svm_log"),
    ("svm", "svm_transfer"),
    ("env", "other"),
    ("svm", "other"),
    ("env", "svm_set32"),
];

/// Instructions on floats, each leaving the stack as it was.
pub const FLOATS: &[&str] = &[
    "f32.const 1 drop",
    "f64.const 1 drop",
    "i32.const 0 f32.load drop",
    "i32.const 0 f64.load drop",
    "unreachable f32.store",
    "unreachable f64.store",
    "unreachable f32.eq drop",
    "unreachable f32.ne drop",
    "unreachable f32.lt drop",
    "unreachable f32.gt drop",
    "unreachable f32.le drop",
    "unreachable f32.ge drop",
    "unreachable f64.eq drop",
    "unreachable f64.ne drop",
    "unreachable f64.lt drop",
    "unreachable f64.gt drop",
    "unreachable f64.le drop",
    "unreachable f64.ge drop",
    "unreachable f32.abs drop",
    "unreachable f32.neg drop",
    "unreachable f32.ceil drop",
    "unreachable f32.floor drop",
    "unreachable f32.trunc drop",
    "unreachable f32.nearest drop",
    "unreachable f32.sqrt drop",
    "unreachable f32.add drop",
    "unreachable f32.sub drop",
    "unreachable f32.mul drop",
    "unreachable f32.div drop",
    "unreachable f32.min drop",
    "unreachable f32.max drop",
    "unreachable f32.copysign drop",
    "unreachable f64.abs drop",
    "unreachable f64.neg drop",
    "unreachable f64.ceil drop",
    "unreachable f64.floor drop",
    "unreachable f64.trunc drop",
    "unreachable f64.nearest drop",
    "unreachable f64.sqrt drop",
    "unreachable f64.add drop",
    "unreachable f64.sub drop",
    "unreachable f64.mul drop",
    "unreachable f64.div drop",
    "unreachable f64.min drop",
    "unreachable f64.max drop",
    "unreachable f64.copysign drop",
    "i32.const 1 f32.convert_i32_s drop",
    "i32.const 1 f32.convert_i32_u drop",
    "i64.const 1 f32.convert_i64_s drop",
    "i64.const 1 f32.convert_i64_u drop",
    "i32.const 1 f64.convert_i32_s drop",
    "i32.const 1 f64.convert_i32_u drop",
    "i64.const 1 f64.convert_i64_s drop",
    "i64.const 1 f64.convert_i64_u drop",
    "unreachable f32.demote_f64 drop",
    "unreachable f64.promote_f32 drop",
    "unreachable i32.trunc_f32_s drop",
    "unreachable i32.trunc_f32_u drop",
    "unreachable i32.trunc_f64_s drop",
    "unreachable i32.trunc_f64_u drop",
    "unreachable i64.trunc_f32_s drop",
    "unreachable i64.trunc_f32_u drop",
    "unreachable i64.trunc_f64_s drop",
    "unreachable i64.trunc_f64_u drop",
    "unreachable i32.reinterpret_f32 drop",
    "unreachable i64.reinterpret_f64 drop",
    "i32.const 1 f32.reinterpret_i32 drop",
    "i64.const 1 f64.reinterpret_i64 drop",
];

/// Instructions that don't branch, with their number; all leave the stack as it was.
const PLAIN: &[(&str, usize)] = &[
    ("nop", 1),
    ("i32.const 5 drop", 2),
    ("i64.const 5 drop", 2),
    ("i32.const 1 i32.const 2 i32.add drop", 4),
    ("i64.const 1 i64.const 2 i64.mul drop", 4),
    ("i32.const 0 i32.load drop", 3),
    ("i32.const 0 i32.const 1 i32.store", 3),
    ("i32.const 8 i64.const 1 i64.store16", 3),
    ("memory.size drop", 2),
    ("i32.const 0 memory.grow drop", 3),
    ("global.get $acc i64.const 1 i64.xor global.set $acc", 4),
    ("i32.const 1 i32.const 2 i32.const 3 select drop", 5),
    ("i64.const 3 i32.wrap_i64 i64.extend_i32_s drop", 4),
    ("i32.const 7 i32.clz i32.eqz drop", 4),
];

#[derive(Clone)]
pub struct Gen {
    /// Number of branching decisions handed out so far.
    pub sites: usize,
    pub max_sites: usize,
    pub hosts: usize,
    /// Functions that may be called.
    pub callees: Vec<usize>,
    pub loops: usize,
    pub indirect: usize,
    pub floats: usize,
}

impl Gen {
    fn site(&mut self) -> Option<usize> {
        if self.sites >= self.max_sites {
            return None;
        }
        self.sites += 1;
        Some(self.sites - 1)
    }

    /// `depth` counts the enclosing labels (the function's own included).
    pub fn body(&mut self, r: &mut Rng, depth: usize, size: usize) -> Vec<N> {
        let mut v = vec![];
        for _ in 0..r.below(size + 1) {
            let inner = size.saturating_sub(1);
            match r.below(26) {
                0..=6 => v.push(N::Nop(r.below(PLAIN.len()))),
                7 | 8 if self.hosts > 0 => v.push(N::Host(r.below(self.hosts))),
                9 | 10 if !self.callees.is_empty() => v.push(N::Call(*r.pick(&self.callees))),
                11 | 12 if depth < 12 => v.push(N::Block(self.body(r, depth + 1, inner))),
                13 if depth < 12 => v.push(N::BlockVal(self.body(r, depth + 1, inner))),
                14 | 15 if depth < 12 => {
                    if let Some(s) = self.site() {
                        let a = self.body(r, depth + 1, inner);
                        let b = if r.bool() { Some(self.body(r, depth + 1, inner)) } else { None };
                        v.push(N::If(s, a, b));
                    }
                }
                16 | 17 => {
                    if let Some(s) = self.site() {
                        v.push(N::BrIf(s, r.below(depth)));
                    }
                }
                18 if self.sites + 2 <= self.max_sites => {
                    let s = self.sites;
                    self.sites += 2;
                    let n = r.range(1, 4);
                    v.push(N::BrTable(s, (0..n).map(|_| r.below(depth)).collect()));
                }
                19 if r.pct(40) => v.push(N::Br(r.below(depth))),
                20 if r.pct(25) => v.push(N::Return),
                21 if r.pct(20) => v.push(N::Unreachable),
                22 if self.loops > 0 && depth < 12 => {
                    self.loops -= 1;
                    v.push(N::Loop(self.body(r, depth + 1, inner)));
                }
                23 if self.indirect > 0 => {
                    self.indirect -= 1;
                    v.push(N::Indirect);
                }
                24 if self.floats > 0 => {
                    self.floats -= 1;
                    v.push(N::Float(r.below(FLOATS.len())));
                }
                _ => {}
            }
        }
        v
    }
}

pub fn any(ns: &[N], f: &dyn Fn(&N) -> bool) -> bool {
    ns.iter().any(|n| {
        f(n) || match n {
            N::Block(b) | N::BlockVal(b) | N::Loop(b) => any(b, f),
            N::If(_, a, b) => any(a, f) || b.as_ref().map_or(false, |b| any(b, f)),
            _ => false,
        }
    })
}

fn calls(ns: &[N], out: &mut Vec<usize>) {
    for n in ns {
        match n {
            N::Call(f) => out.push(*f),
            N::Block(b) | N::BlockVal(b) | N::Loop(b) => calls(b, out),
            N::If(_, a, b) => {
                calls(a, out);
                if let Some(b) = b {
                    calls(b, out)
                }
            }
            _ => {}
        }
    }
}

fn bit(s: usize, mask: usize) -> String {
    format!("global.get $bits i64.const {s} i64.shr_u i32.wrap_i64 i32.const {mask} i32.and ")
}

pub fn emit(ns: &[N], o: &mut String) {
    for n in ns {
        match n {
            N::Nop(i) => o.push_str(PLAIN[*i].0),
            N::Call(f) => o.push_str(&format!("call $f{f}")),
            N::Host(h) => o.push_str(&format!("call $h{h}")),
            N::Block(b) => {
                o.push_str("block ");
                emit(b, o);
                o.push_str(" end");
            }
            N::BlockVal(b) => {
                o.push_str("i32.const 3 block ");
                emit(b, o);
                o.push_str(" end drop");
            }
            N::If(s, a, b) => {
                o.push_str(&bit(*s, 1));
                o.push_str("if ");
                emit(a, o);
                if let Some(b) = b {
                    o.push_str(" else ");
                    emit(b, o);
                }
                o.push_str(" end");
            }
            N::Br(d) => o.push_str(&format!("br {d}")),
            N::BrIf(s, d) => {
                o.push_str(&bit(*s, 1));
                o.push_str(&format!("br_if {d}"));
            }
            N::BrTable(s, ds) => {
                o.push_str(&bit(*s, 3));
                o.push_str("br_table");
                for d in ds {
                    o.push_str(&format!(" {d}"));
                }
            }
            N::Return => o.push_str("return"),
            N::Unreachable => o.push_str("unreachable"),
            N::Loop(b) => {
                o.push_str("loop ");
                emit(b, o);
                o.push_str(" end");
            }
            N::Indirect => o.push_str("i32.const 0 call_indirect (type $v)"),
            N::Float(i) => o.push_str(FLOATS[*i]),
        }
        o.push(' ');
    }
}

pub struct Module {
    pub funcs: Vec<Vec<N>>,
    pub hosts: usize,
    /// Bitmask of decisions.
    pub sites: usize,
    /// Other things the module has.
    pub shift: usize,
}

impl Module {
    pub fn wat(&self) -> String {
        let mut o = String::from("(module (type $v (func))\n");
        // Imports of other kinds don't count as functions.
        if self.shift & 1 != 0 {
            o.push_str("(import \"env\" \"g\" (global $ig i32))\n");
        }
        for (i, (m, n)) in HOSTS[..self.hosts].iter().enumerate() {
            o.push_str(&format!("(import \"{m}\" \"{n}\" (func $h{i}))\n"));
            if self.shift & 2 != 0 && i == 0 {
                o.push_str("(import \"env\" \"g2\" (global $ig2 i64))\n");
            }
        }
        if self.shift & 4 != 0 {
            o.push_str("(import \"env\" \"t\" (table $t 4 funcref))\n");
        } else {
            o.push_str("(table $t 4 funcref)\n");
        }
        o.push_str("(memory (export \"memory\") 1)\n(global $bits (export \"bits\") (mut i64) (i64.const 0))\n(global $acc (mut i64) (i64.const 0))\n");
        let alloc = "(func (export \"svm_alloc\") (param i32) (result i32) i32.const 64)\n(func (export \"svm_verify\") (result i32) i32.const 0)\n";
        if self.shift & 8 != 0 {
            o.push_str(alloc);
        }
        for (i, f) in self.funcs.iter().enumerate() {
            o.push_str(&format!("(func $f{i} (export \"f{i}\") "));
            emit(f, &mut o);
            o.push_str(")\n");
        }
        if self.shift & 8 == 0 {
            o.push_str(alloc);
        }
        o.push(')');
        o
    }
    /// The index of the i-th random function.
    pub fn index(&self, i: usize) -> u32 {
        (self.hosts + i + if self.shift & 8 != 0 { 2 } else { 0 }) as u32
    }
    /// Whether some function can come to call itself.
    pub fn recursive(&self) -> bool {
        let n = self.funcs.len();
        let adj: Vec<Vec<usize>> = self
            .funcs
            .iter()
            .map(|f| {
                let mut v = vec![];
                calls(f, &mut v);
                v
            })
            .collect();
        (0..n).any(|s| {
            let mut seen = vec![false; n];
            let mut todo: Vec<usize> = adj[s].clone();
            while let Some(x) = todo.pop() {
                if x == s {
                    return true;
                }
                if !seen[x] {
                    seen[x] = true;
                    todo.extend(&adj[x]);
                }
            }
            false
        })
    }
}

pub fn message(wasm: &[u8]) -> Vec<u8> {
    let t = Template::new(
        CodeSection::new_fixed(wasm.to_vec(), 0),
        DataSection::with_layout(Layout::Fixed(FixedLayout::from_byte_sizes(0, &[4]))),
        CtorsSection::new(vec!["f0".into()]),
    );
    svm_codec::template::encode(&t)
}

/// What the runtime's own validation says.
fn accepted_by_runtime(wasm: &[u8]) -> R<bool> {
    let (rt, _gs) = match open_runtime(None) {
        Ok(x) => x,
        Err(p) => return harness(format!("no runtime: {}", p.message)),
    };
    let m = message(wasm);
    match guard(|| rt.validate_deploy(&m).is_ok()) {
        Ok(b) => Ok(b),
        Err(p) => violation(format!("validating panics at {}: {}", p.location, p.message)),
    }
}

pub fn compile(ctx: &mut Ctx, text: &str) -> R<Vec<u8>> {
    let t = text.to_string();
    ctx.log(move || t);
    match wat::parse_str(text) {
        Ok(w) => Ok(w),
        Err(e) => harness(format!("the generated module doesn't assemble: {e}")),
    }
}

// ---------------------------------------------------------------------------------------------
// C17

pub fn random_module(r: &mut Rng, max_sites: usize, max_funcs: usize, size: usize) -> Module {
    let n = r.range(1, max_funcs);
    let hosts = if r.pct(70) { r.range(1, HOSTS.len()) } else { 0 };
    let mut g = Gen { sites: 0, max_sites: 0, hosts, callees: vec![], loops: 0, indirect: 0, floats: 0 };
    // A random order of who may call whom.
    let mut order: Vec<usize> = (0..n).collect();
    r.shuffle(&mut order);
    let mut funcs = vec![vec![]; n];
    let mut done = vec![];
    for (k, &f) in order.iter().enumerate() {
        g.callees = done.clone();
        g.max_sites = max_sites * (k + 1) / n;
        let depth = 1;
        let s = r.range(1, size);
        funcs[f] = g.body(r, depth, s);
        done.push(f);
    }
    Module { funcs, hosts, sites: g.sites, shift: r.below(16) }
}

/// The same program, counting the cost of what it executes in the global `cost`.
fn metered(wasm: &[u8]) -> Option<Vec<u8>> {
    use parity_wasm::elements::*;
    let mut m: parity_wasm::elements::Module = parity_wasm::deserialize_buffer(wasm).ok()?;
    let mut prices = vec![];
    let mut globals = 0;
    if let Some(s) = m.import_section() {
        for e in s.entries() {
            match e.external() {
                External::Function(_) => prices.push(crate::refgas::import_price(e.module(), e.field())),
                External::Global(_) => globals += 1,
                _ => {}
            }
        }
    }
    let gs = m.global_section_mut()?;
    let cost = globals + gs.entries().len() as u32;
    gs.entries_mut().push(GlobalEntry::new(
        GlobalType::new(ValueType::I64, true),
        InitExpr::new(vec![Instruction::I64Const(0), Instruction::End]),
    ));
    m.export_section_mut()?.entries_mut().push(ExportEntry::new("cost".into(), Internal::Global(cost)));
    for b in m.code_section_mut()?.bodies_mut() {
        let mut out = vec![];
        for i in b.code().elements() {
            use Instruction as I;
            let price = match i {
                I::If(_) | I::Else | I::End | I::Br(_) | I::BrIf(_) | I::BrTable(_) | I::Return | I::Unreachable => 0,
                I::Call(f) => prices.get(*f as usize).copied().unwrap_or(0),
                _ => 1,
            };
            if price > 0 {
                out.extend([I::GetGlobal(cost), I::I64Const(price as i64), I::I64Add, I::SetGlobal(cost)]);
            }
            out.push(i.clone());
        }
        *b.code_mut().elements_mut() = out;
    }
    parity_wasm::serialize(m).ok()
}

fn instantiate(wasm: &[u8]) -> Result<wasmer::Instance, String> {
    use wasmer::*;
    let store = Store::default();
    let module = wasmer::Module::new(&store, wasm).map_err(|e| e.to_string())?;
    let mut imports = ImportObject::new();
    let mut spaces: std::collections::HashMap<String, Exports> = Default::default();
    for i in module.imports() {
        let e: Extern = match i.ty() {
            ExternType::Function(t) => Function::new(&store, t, |_| Ok(vec![])).into(),
            ExternType::Global(t) => Global::new(&store, if t.ty == Type::I32 { Value::I32(0) } else { Value::I64(0) }).into(),
            ExternType::Table(t) => match Table::new(&store, t.clone(), Value::FuncRef(None)) {
                Ok(t) => t.into(),
                Err(e) => return Err(e.to_string()),
            },
            ExternType::Memory(t) => match Memory::new(&store, t.clone()) {
                Ok(m) => m.into(),
                Err(e) => return Err(e.to_string()),
            },
        };
        spaces.entry(i.module().to_string()).or_default().insert(i.name().to_string(), e);
    }
    for (n, e) in spaces {
        imports.register(n, e);
    }
    Instance::new(&module, &imports).map_err(|e| e.to_string())
}

fn run_metered(inst: &wasmer::Instance, f: &str, bits: u64) -> Option<u64> {
    let cost = inst.exports.get_global("cost").ok()?;
    let b = inst.exports.get_global("bits").ok()?;
    cost.set(wasmer::Value::I64(0)).ok()?;
    b.set(wasmer::Value::I64(bits as i64)).ok()?;
    let _ = inst.exports.get_function(f).ok()?.call(&[]);
    Some(cost.get().i64()? as u64)
}

fn priced(program: &Program) -> Result<Result<svm_gas::FuncPrice, ProgramError>, Panicked> {
    guard(|| ProgramPricing::new(Rc::new(svm_gas::resolvers::V0PriceResolver::default())).visit(program))
}

fn c17(ctx: &mut Ctx) -> R {
    if ctx.rng.pct(4) {
        return c17_saturating(ctx);
    }
    let small = ctx.rng.pct(60);
    let m = if small {
        random_module(&mut ctx.rng, 9, 4, 7)
    } else {
        random_module(&mut ctx.rng, 60, 14, 12)
    };
    let text = m.wat();
    let wasm = compile(ctx, &text)?;
    let program = match Program::new(&wasm, true) {
        Ok(p) => p,
        Err(e) => return violation(format!("a program without floats, loops or recursion is rejected: {e}")),
    };
    let prices = match priced(&program) {
        Ok(Ok(p)) => p,
        Ok(Err(e)) => return violation(format!("pricing fails: {e}")),
        Err(p) => return violation(format!("pricing panics at {}: {}", p.location, p.message)),
    };
    let reference = match crate::refgas::prices(&wasm) {
        Some(p) => p,
        None => return harness("the reference pricer rejects the module"),
    };
    for (i, want) in &reference.by_index {
        let got = match guard(|| prices.get(FuncIndex(*i))) {
            Ok(p) => p as u64,
            Err(p) => return violation(format!("function {i} has no price: {}", p.message)),
        };
        ensure_eq!(got, *want, "the price of function {i}");
        ctx.event("functions_priced");
    }
    // What executions really cost.
    let counting = match metered(&wasm) {
        Some(w) => w,
        None => return harness("metering fails"),
    };
    let inst = match instantiate(&counting) {
        Ok(i) => i,
        Err(e) => return harness(format!("the metered module doesn't run: {e}")),
    };
    let all = m.sites <= 9;
    for i in 0..m.funcs.len() {
        let price = prices.get(FuncIndex(m.index(i))) as u64;
        let runs: Vec<u64> = if all {
            (0..1u64 << m.sites).collect()
        } else {
            (0..24).map(|k| if k == 0 { 0 } else if k == 1 { u64::MAX } else { ctx.rng.u64() }).collect()
        };
        let mut dearest = 0;
        for bits in &runs {
            let cost = match run_metered(&inst, &format!("f{i}"), *bits) {
                Some(c) => c,
                None => return harness("no cost"),
            };
            ensure!(cost <= price, "an execution of f{i} with decisions {bits:#b} costs {cost}, more than its price {price}");
            dearest = dearest.max(cost);
            ctx.event("executions");
        }
        // The price of a function that never returns is still charged for what follows its calls.
        if all && !m.funcs.iter().any(|f| any(f, &|n| matches!(n, N::Unreachable))) {
            ensure_eq!(price, dearest, "the price of f{i} against the dearest of all its {} executions", runs.len());
            ctx.event("functions_run_on_all_paths");
        }
    }
    if m.sites > 0 && reference.by_index.values().any(|p| *p > 5) {
        ctx.evaluated(Some(hash_bytes(text.as_bytes())));
    } else {
        ctx.evaluated(None);
    }
    ctx.sample(|| text);
    Ok(())
}

/// Doubling chains whose price exceeds every number.
fn c17_saturating(ctx: &mut Ctx) -> R {
    let n = ctx.rng.range(55, 80);
    let k = ctx.rng.range(2, 4);
    let base = ctx.rng.below(HOSTS.len());
    let mut funcs = vec![vec![N::Host(base)]];
    for i in 1..n {
        let mut b = vec![];
        for _ in 0..k {
            b.push(N::Call(i - 1));
        }
        if ctx.rng.pct(20) {
            b.push(N::Block(vec![N::Nop(0)]));
        }
        funcs.push(b);
    }
    let m = Module { funcs, hosts: HOSTS.len(), sites: 0, shift: ctx.rng.below(16) };
    let text = m.wat();
    let wasm = compile(ctx, &text)?;
    let program = match Program::new(&wasm, true) {
        Ok(p) => p,
        Err(e) => return violation(format!("rejected: {e}")),
    };
    let prices = match priced(&program) {
        Ok(Ok(p)) => p,
        Ok(Err(e)) => return violation(format!("pricing fails: {e}")),
        Err(p) => return violation(format!("pricing panics at {}: {}", p.location, p.message)),
    };
    let reference = match crate::refgas::prices(&wasm) {
        Some(p) => p,
        None => return harness("the reference pricer rejects the module"),
    };
    for (i, want) in &reference.by_index {
        ensure_eq!(prices.get(FuncIndex(*i)) as u64, *want, "the price of function {i}");
    }
    ctx.event("saturating_programs");
    ctx.evaluated(Some(hash_bytes(text.as_bytes())));
    Ok(())
}

pub static C17: Spec = Spec {
    id: "C17",
    rule: "a case is a random module of up to 14 functions with blocks, ifs, branches out of any depth, branch tables, dead code and calls of each other and of host functions; every function's price is compared with an independent pricer, and the real module is run with a counter inserted before each instruction, on all combinations of its branching decisions when there are at most 9, otherwise on 24 random ones; non-trivial when it branches and costs more than 5",
    assumptions: &["branching instructions themselves are free, as the existing tests of the pricing fix", "a function without parameters decides by bits of a global"],
    quick_cases: 200_000,
    quick_secs: 20,
    thorough_cases: 2_000_000,
    required: &["functions_priced", "executions", "functions_run_on_all_paths", "saturating_programs"],
    case: c17,
    ..DEFAULT_SPEC
};

// ---------------------------------------------------------------------------------------------
// C16

fn c16(ctx: &mut Ctx) -> R {
    let r = &mut ctx.rng;
    let n = match r.below(10) {
        0 => r.range(30, 200),
        1..=3 => r.range(8, 30),
        _ => r.range(1, 8),
    };
    let hosts = if r.bool() { r.range(1, HOSTS.len()) } else { 0 };
    let kind = r.below(6);
    let mut g = Gen {
        sites: 0,
        max_sites: 60,
        hosts,
        callees: vec![],
        loops: if kind == 0 { 1 } else { 0 },
        indirect: if kind == 1 { 1 } else { 0 },
        floats: 0,
    };
    let mut order: Vec<usize> = (0..n).collect();
    r.shuffle(&mut order);
    let mut funcs = vec![vec![]; n];
    let mut done: Vec<usize> = vec![];
    for &f in &order {
        g.callees = done.iter().rev().take(if r.bool() { 2 } else { 50 }).copied().collect();
        let size = if n > 30 { 3 } else { r.range(1, 6) };
        funcs[f] = g.body(r, 1, size);
        done.push(f);
    }
    match kind {
        2 => {
            // One call back, from anywhere to anywhere.
            let f = r.below(n);
            let t = r.below(n);
            let at = r.below(funcs[f].len() + 1);
            funcs[f].insert(at, N::Block(vec![N::Nop(0), N::Call(t)]));
        }
        3 => {
            // A long cycle, possibly in dead code.
            let k = r.range(1, n.min(60));
            let dead = r.bool();
            for i in 0..k {
                let c = N::Call(order[(i + 1) % k]);
                if dead {
                    funcs[order[i]].push(N::Return);
                }
                funcs[order[i]].push(c);
            }
        }
        4 => {
            // A call-free loop, deep inside.
            let mut b = vec![N::Loop(vec![])];
            for _ in 0..r.below(9) {
                b = match r.below(3) {
                    0 => vec![N::Block(b)],
                    1 => vec![N::If(0, vec![], Some(b))],
                    _ => vec![N::If(1, b, None)],
                };
            }
            if r.pct(30) {
                b.insert(0, N::Unreachable);
            }
            let f = r.below(n);
            funcs[f].extend(b);
        }
        _ => {}
    }
    let m = Module { funcs, hosts, sites: g.sites, shift: r.below(16) };
    let has_loop = m.funcs.iter().any(|f| any(f, &|n| matches!(n, N::Loop(_))));
    let has_indirect = m.funcs.iter().any(|f| any(f, &|n| matches!(n, N::Indirect)));
    let recursive = m.recursive();
    let ok = !has_loop && !has_indirect && !recursive;
    let text = m.wat();
    let wasm = compile(ctx, &text)?;
    let program = match Program::new(&wasm, true) {
        Ok(p) => p,
        Err(e) => return violation(format!("a program without floats is rejected: {e}")),
    };
    let what = format!("a program with loop={has_loop} indirect={has_indirect} recursion={recursive}");
    for with_example in [false, true] {
        // Looking for an example is for debugging only and takes exponential time.
        if with_example && n > 8 {
            continue;
        }
        let v = match guard(|| svm_gas::validate_wasm(&program, with_example)) {
            Ok(v) => v,
            Err(p) => return violation(format!("{what}: validation panics at {}: {}", p.location, p.message)),
        };
        match &v {
            Ok(()) => ensure!(ok, "{what} is accepted"),
            Err(e) => {
                ensure!(!ok, "{what} is rejected: {e}");
                let right = match e {
                    FixedGasError::LoopNotAllowed => has_loop,
                    FixedGasError::CallIndirectNotAllowed => has_indirect,
                    FixedGasError::RecursiveCall { func, .. } => {
                        let i = m.funcs.iter().position(|_| true).map(|_| func.0 as i64 - m.index(0) as i64).unwrap_or(-1);
                        recursive && i >= 0 && (i as usize) < m.funcs.len() && {
                            let mut c = vec![];
                            calls(&m.funcs[i as usize], &mut c);
                            c.contains(&(i as usize))
                        }
                    }
                    FixedGasError::CallCycle(GraphCycles::HasCycles(_)) => recursive,
                    FixedGasError::CallCycle(GraphCycles::NoCycles) => false,
                };
                ensure!(right, "{what} is rejected for another reason: {e}");
            }
        }
        ctx.event(if ok { "accepted" } else { "rejected" });
    }
    if has_loop {
        ctx.event("with_a_loop");
    }
    if has_indirect {
        ctx.event("with_an_indirect_call");
    }
    if recursive {
        ctx.event("with_recursion");
    }
    if ctx.rng.pct(10) {
        ensure_eq!(accepted_by_runtime(&wasm)?, ok, "{what}: accepted for deployment");
        ctx.event("checked_through_the_runtime");
    }
    // What is accepted ends, and what it costs is known.
    if ok && ctx.rng.pct(50) {
        if let Err(p) = priced(&program) {
            return violation(format!("pricing an accepted program panics at {}: {}", p.location, p.message));
        }
        ctx.event("accepted_and_priced");
    }
    ctx.evaluated(if m.funcs.iter().any(|f| !f.is_empty()) { Some(hash_bytes(text.as_bytes())) } else { None });
    ctx.sample(|| text);
    Ok(())
}

pub static C16: Spec = Spec {
    id: "C16",
    rule: "a case is a random module in which a loop, an indirect call, a call of the function itself or a call cycle of any length may be hidden at any depth, in dead code or in functions nobody exports; acceptance (and the stated reason) by the real validation is compared with the module's construction; distinct by text",
    assumptions: &["the example cycle that validation can be asked for is only requested for small programs"],
    quick_cases: 200_000,
    quick_secs: 20,
    thorough_cases: 2_000_000,
    required: &["accepted", "rejected", "with_a_loop", "with_an_indirect_call", "with_recursion", "checked_through_the_runtime", "accepted_and_priced"],
    case: c16,
    ..DEFAULT_SPEC
};

// ---------------------------------------------------------------------------------------------
// C15

#[derive(Clone, Copy, Debug, PartialEq)]
enum Ex {
    Good,
    Missing,
    WrongType(usize),
    Imported,
    Global,
    Memory,
    Similar,
}

const SIGS: &[&str] = &[
    "",
    "(param i32)",
    "(param i32) (result i32)",
    "(result i32)",
    "(param i64) (result i32)",
    "(param i32) (result i64)",
    "(param i32 i32) (result i32)",
    "(result i64)",
    "(param i32 i64) (result i32)",
    "(param i64)",
];

/// Where sections end.
pub fn section_ends(wasm: &[u8]) -> Vec<usize> {
    let mut v = vec![8];
    let mut at = 8;
    while at < wasm.len() {
        let (mut len, mut shift, mut i) = (0usize, 0, at + 1);
        loop {
            len |= ((wasm[i] & 0x7f) as usize) << shift;
            shift += 7;
            i += 1;
            if wasm[i - 1] & 0x80 == 0 {
                break;
            }
        }
        at = i + len;
        v.push(at);
    }
    v
}

/// Where the code section ends; only custom sections (names) follow in what we generate.
pub fn code_end(wasm: &[u8]) -> usize {
    let mut at = 8;
    while at < wasm.len() {
        let id = wasm[at];
        let (mut len, mut shift, mut i) = (0usize, 0, at + 1);
        loop {
            len |= ((wasm[i] & 0x7f) as usize) << shift;
            shift += 7;
            i += 1;
            if wasm[i - 1] & 0x80 == 0 {
                break;
            }
        }
        at = i + len;
        if id == 10 {
            return at;
        }
    }
    wasm.len()
}

fn c15(ctx: &mut Ctx) -> R {
    let r = &mut ctx.rng;
    let pick = |r: &mut Rng, good: usize| -> Ex {
        match r.below(20) {
            0..=11 => Ex::Good,
            12 => Ex::Missing,
            13..=15 => loop {
                let s = r.below(SIGS.len());
                if s != good {
                    break Ex::WrongType(s);
                }
            },
            16 => Ex::Imported,
            17 => Ex::Global,
            18 => Ex::Memory,
            _ => Ex::Similar,
        }
    };
    let mut alloc = pick(r, 2);
    let mut verify = pick(r, 3);
    if r.pct(40) {
        alloc = Ex::Good;
        verify = Ex::Good;
    }
    let floats = r.pct(25);
    let big = r.pct(1);
    let n = r.range(0, 6);
    let hosts = if r.bool() { r.range(1, 6) } else { 0 };
    let mut g = Gen { sites: 0, max_sites: 30, hosts, callees: vec![], loops: 2, indirect: 1, floats: 0 };
    let mut funcs: Vec<Vec<N>> = vec![];
    for i in 0..n {
        g.callees = (0..n).filter(|j| *j != i || r.bool()).collect();
        let s = r.range(1, 5);
        funcs.push(g.body(r, 1, s));
    }
    let mut float_at = String::new();
    let mut alloc_body = String::from("i32.const 64");
    let alloc_sig = |e: Ex, good: &'static str| -> &'static str {
        match e {
            Ex::WrongType(s) => SIGS[s],
            _ => good,
        }
    };
    if floats {
        let k = r.below(FLOATS.len());
        let place = r.below(4);
        let mut f = vec![N::Float(k)];
        if place == 1 || n == 0 {
            // in a function that must be there
            alloc_body = format!("{} {}", FLOATS[k], alloc_body);
            if !matches!(alloc, Ex::Good | Ex::Similar | Ex::WrongType(_)) {
                alloc = Ex::Good;
            }
        } else {
            for _ in 0..r.below(5) {
                f = match r.below(4) {
                    0 => vec![N::Block(f)],
                    1 => vec![N::If(0, f, None)],
                    2 => vec![N::If(0, vec![], Some(f))],
                    _ => vec![N::Return, N::Block(f)],
                };
            }
            let i = r.below(n);
            let at = r.below(funcs[i].len() + 1);
            funcs[i].splice(at..at, f);
        }
        float_at = FLOATS[k].to_string();
    }
    // The number of functions, imported or not.
    let mut total = hosts + n;
    let mut o = String::from("(module (type $v (func))\n");
    let mut import_globals = vec![];
    for (i, (m, nm)) in HOSTS[..hosts].iter().enumerate() {
        if r.pct(20) {
            import_globals.push(i);
            o.push_str(&format!("(import \"env\" \"g{i}\" (global i32))\n"));
        }
        o.push_str(&format!("(import \"{m}\" \"{nm}\" (func $h{i}))\n"));
    }
    let mut exports = String::new();
    let mut locals = String::new();
    let mut memory_exported = false;
    for (name, e, good, body) in [("svm_alloc", alloc, SIGS[2], alloc_body.as_str()), ("svm_verify", verify, SIGS[3], "i32.const 0")] {
        match e {
            Ex::Missing => {}
            Ex::Good => {
                total += 1;
                locals.push_str(&format!("(func (export \"{name}\") {good} {body})\n"));
            }
            Ex::WrongType(_) => {
                let sig = alloc_sig(e, good);
                total += 1;
                let ret = if sig.contains("result i32") {
                    body.to_string()
                } else if sig.contains("result i64") {
                    body.replace("i32.const 64", "i64.const 64").replace("i32.const 0", "i64.const 0")
                } else {
                    format!("{body} drop")
                };
                locals.push_str(&format!("(func (export \"{name}\") {sig} {ret})\n"));
            }
            Ex::Imported => {
                total += 1;
                o.push_str(&format!("(import \"env\" \"{name}\" (func $i_{name} {good}))\n"));
                exports.push_str(&format!("(export \"{name}\" (func $i_{name}))\n"));
            }
            Ex::Global => exports.push_str(&format!("(global (export \"{name}\") i32 (i32.const 1))\n")),
            Ex::Memory => {
                memory_exported = true;
                exports.push_str(&format!("(export \"{name}\" (memory $m))\n"));
            }
            Ex::Similar => {
                total += 1;
                let other = *r.pick(&["svm_allo", "svm_alloc_", "SVM_ALLOC", "svm_verifyy", "svm_verif", " svm_alloc", "svm_verify\\00"]);
                let other = format!("{other}{}", if name == "svm_alloc" { "" } else { "2" });
                locals.push_str(&format!("(func (export \"{other}\") {good} {body})\n"));
            }
        }
    }
    let _ = memory_exported;
    // Filling up to the borders of what a program may have.
    let mut filler_imports = String::new();
    let mut fillers = String::new();
    if big {
        let target = *r.pick(&[65534usize, 65535, 65536, 65537, 66000]);
        let extra = target - total;
        let imports = match r.below(3) {
            0 => 0,
            1 => r.below(extra),
            _ => extra,
        };
        for _ in 0..imports {
            filler_imports.push_str("(import \"e\" \"f\" (func))");
        }
        for _ in imports..extra {
            fillers.push_str("(func)");
        }
        total = target;
    }
    o.push_str(&filler_imports);
    o.push_str("(table $t 4 funcref)\n(memory $m (export \"memory\") 1)\n(global $bits (export \"bits\") (mut i64) (i64.const 0))\n(global $acc (mut i64) (i64.const 0))\n");
    let first = r.bool();
    if first {
        o.push_str(&locals);
    }
    let mut defined = 0;
    for (i, f) in funcs.iter().enumerate() {
        defined += 1;
        let ex = if r.bool() { format!("(export \"f{i}\")") } else { String::new() };
        o.push_str(&format!("(func $f{i} {ex} "));
        emit(f, &mut o);
        o.push_str(")\n");
    }
    if !first {
        o.push_str(&locals);
    }
    o.push_str(&fillers);
    o.push_str(&exports);
    o.push(')');
    let has_code = defined > 0 || !locals.is_empty() || !fillers.is_empty();
    let what = format!("a program with alloc={alloc:?} verify={verify:?} float={float_at:?} functions={total} code={has_code}");
    ctx.log(|| what.clone());
    let wasm = if big {
        match wat::parse_str(&o) {
            Ok(w) => w,
            Err(e) => return harness(format!("the generated module doesn't assemble: {e}")),
        }
    } else {
        compile(ctx, &o)?
    };
    let base_ok = !floats && total <= 65535 && has_code;
    let exports_ok = alloc == Ex::Good && verify == Ex::Good;
    for strict in [true, false] {
        let got = match guard(|| Program::new(&wasm, strict).map(|_| ())) {
            Ok(x) => x,
            Err(p) => return violation(format!("{what}: reading it panics at {}: {}", p.location, p.message)),
        };
        let want = base_ok && (exports_ok || !strict);
        ensure_eq!(got.is_ok(), want, "{what}: accepted (exports checked: {strict}), result {got:?}");
        ctx.event(if want { "accepted" } else { "rejected" });
        // A single defect is the one that is reported.
        if let Err(e) = &got {
            let single = [floats, total > 65535, !has_code, strict && !exports_ok].iter().filter(|b| **b).count() == 1;
            if single {
                let right = match e {
                    ProgramError::FloatsNotAllowed => floats,
                    ProgramError::FunctionIndexTooLarge | ProgramError::TooManyFunctionImports => total > 65535,
                    ProgramError::MissingCodeSection => !has_code,
                    ProgramError::FunctionNotFound(n) => {
                        let e = if n == "svm_alloc" { alloc } else { verify };
                        matches!(e, Ex::Missing | Ex::Similar)
                    }
                    ProgramError::InvalidExportFunctionSignature(n) => {
                        let e = if n == "svm_alloc" { alloc } else { verify };
                        matches!(e, Ex::WrongType(_))
                    }
                    ProgramError::InvalidExportKind => [alloc, verify].iter().any(|e| matches!(e, Ex::Imported | Ex::Global | Ex::Memory)),
                    ProgramError::InvalidWasm => false,
                };
                ensure!(right, "{what} is rejected for another reason: {e:?}");
                ctx.event("reasons_checked");
            }
        }
    }
    if floats {
        ctx.event(&format!("float {}", float_at.replace("unreachable ", "")));
        ctx.event("with_floats");
    }
    if big {
        ctx.event("at_the_function_limit");
    }
    if !big {
        // Cut or damaged files are not programs.
        let cut = ctx.rng.below(code_end(&wasm));
        let r = guard(|| Program::new(&wasm[..cut], true).is_ok());
        ensure!(!matches!(r, Ok(true)) , "{what}: its first {cut} of {} bytes are accepted", wasm.len());
        ensure!(r.is_ok(), "{what}: reading its first {cut} bytes panics: {:?}", r);
        let mut bad = wasm.clone();
        let i = ctx.rng.below(8);
        bad[i] ^= 1 << ctx.rng.below(8);
        let r = guard(|| Program::new(&bad, false).is_ok());
        ensure!(matches!(r, Ok(false)), "{what}: with byte {i} of its preamble damaged: {r:?}");
        ctx.event("damaged_files");
    }
    if !big && ctx.rng.pct(8) {
        let strict = Program::new(&wasm, true);
        let fixed = strict.as_ref().map(|p| svm_gas::validate_wasm(p, false).is_ok()).unwrap_or(false);
        ensure_eq!(accepted_by_runtime(&wasm)?, fixed, "{what}: accepted for deployment");
        ctx.event("checked_through_the_runtime");
    }
    ctx.evaluated(Some(hash_bytes(&wasm)));
    ctx.sample(|| if big { what } else { o });
    Ok(())
}

pub static C15: Spec = Spec {
    id: "C15",
    rule: "a case is a module built with or without each defect (each of 68 float instructions at any depth or in dead code; required exports missing, mistyped, imported, of another kind or similarly named; function counts around 65535, imported and defined; no code; cut or damaged files); acceptance and the stated reason by the real reader are compared with the construction",
    assumptions: &["only instructions count as floating-point operations, not declared types of parameters, locals or globals"],
    quick_cases: 200_000,
    quick_secs: 20,
    thorough_cases: 2_000_000,
    required: &["accepted", "rejected", "reasons_checked", "with_floats", "at_the_function_limit", "damaged_files", "checked_through_the_runtime"],
    case: c15,
    ..DEFAULT_SPEC
};
