//! An independent price model: the dearest path through a structured WebAssembly function.

use std::collections::{BTreeMap, HashMap};

use wasmparser::{ExternalKind, ImportSectionEntryType, Operator, Parser, Payload};

pub fn import_price(module: &str, name: &str) -> u64 {
    if module != "svm" {
        return 1000;
    }
    match name {
        "svm_static_alloc" => 100,
        "svm_calldata_offset" | "svm_calldata_len" => 10,
        "svm_set_returndata" => 20,
        "svm_get32" => 100,
        "svm_set32" => 1_000_000,
        "svm_get64" => 200,
        "svm_set64" => 2_000_000,
        "svm_load160" => 500,
        "svm_store160" => 5_000_000,
        "svm_log" => 3_000,
        _ => 1000,
    }
}

pub struct Prices {
    pub imports: usize,
    pub by_index: BTreeMap<u32, u64>,
    pub exports: HashMap<String, u32>,
}

impl Prices {
    pub fn of(&self, export: &str) -> Option<u64> {
        self.by_index.get(self.exports.get(export)?).copied()
    }
}

/// `None` when the module has a loop, an indirect call or (mutual) recursion, or doesn't parse.
pub fn prices(wasm: &[u8]) -> Option<Prices> {
    let mut imports = vec![];
    let mut bodies: Vec<Vec<Operator>> = vec![];
    let mut exports = HashMap::new();
    for p in Parser::new(0).parse_all(wasm) {
        match p.ok()? {
            Payload::ImportSection(mut s) => {
                for _ in 0..s.get_count() {
                    let i = s.read().ok()?;
                    if let ImportSectionEntryType::Function(_) = i.ty {
                        imports.push(import_price(i.module, i.field.unwrap_or("")));
                    }
                }
            }
            Payload::ExportSection(mut s) => {
                for _ in 0..s.get_count() {
                    let e = s.read().ok()?;
                    if let ExternalKind::Function = e.kind {
                        exports.insert(e.field.to_string(), e.index);
                    }
                }
            }
            Payload::CodeSectionEntry(b) => {
                let ops: Result<Vec<_>, _> = b.get_operators_reader().ok()?.into_iter().collect();
                bodies.push(ops.ok()?);
            }
            _ => {}
        }
    }
    let mut memo: Vec<Option<u64>> = vec![None; bodies.len()];
    let mut active = vec![false; bodies.len()];
    for i in 0..bodies.len() {
        price(i, &imports, &bodies, &mut memo, &mut active)?;
    }
    Some(Prices {
        imports: imports.len(),
        by_index: memo
            .iter()
            .enumerate()
            .map(|(i, p)| ((i + imports.len()) as u32, p.unwrap()))
            .collect(),
        exports,
    })
}

struct Label {
    /// The dearest way to arrive at the end of the construct by branching.
    best: Option<u64>,
    /// For an `if`: the price at its start, to begin the `else` with.
    start: Option<u64>,
    is_if: bool,
}

fn max(a: Option<u64>, b: Option<u64>) -> Option<u64> {
    match (a, b) {
        (Some(x), Some(y)) => Some(x.max(y)),
        (x, None) => x,
        (None, y) => y,
    }
}

fn price(i: usize, imports: &[u64], bodies: &[Vec<Operator>], memo: &mut Vec<Option<u64>>, active: &mut Vec<bool>) -> Option<u64> {
    if let Some(p) = memo[i] {
        return Some(p);
    }
    if active[i] {
        return None;
    }
    active[i] = true;
    // `None` stands for code that can't be reached.
    let mut cur: Option<u64> = Some(0);
    let mut exit: Option<u64> = None;
    let mut labels = vec![Label { best: None, start: None, is_if: false }];
    for op in &bodies[i] {
        match op {
            Operator::Loop { .. } | Operator::CallIndirect { .. } => return None,
            Operator::Block { .. } => {
                cur = cur.map(|c: u64| c.saturating_add(1));
                labels.push(Label { best: None, start: None, is_if: false });
            }
            Operator::If { .. } => labels.push(Label { best: None, start: cur, is_if: true }),
            Operator::Else => {
                let l = labels.last_mut()?;
                l.best = max(l.best, cur);
                l.is_if = false;
                cur = l.start;
            }
            Operator::End => {
                let l = labels.pop()?;
                cur = max(cur, l.best);
                if l.is_if {
                    cur = max(cur, l.start);
                }
            }
            Operator::Br { relative_depth } => {
                let n = labels.len();
                let l = labels.get_mut(n - 1 - *relative_depth as usize)?;
                l.best = max(l.best, cur);
                cur = None;
            }
            Operator::BrIf { relative_depth } => {
                let n = labels.len();
                let l = labels.get_mut(n - 1 - *relative_depth as usize)?;
                l.best = max(l.best, cur);
            }
            Operator::BrTable { table } => {
                let n = labels.len();
                for t in table.targets() {
                    let (d, _) = t.ok()?;
                    let l = labels.get_mut(n - 1 - d as usize)?;
                    l.best = max(l.best, cur);
                }
                cur = None;
            }
            Operator::Return | Operator::Unreachable => {
                exit = max(exit, cur);
                cur = None;
            }
            Operator::Call { function_index } => {
                let f = *function_index as usize;
                let p = if f < imports.len() {
                    imports[f]
                } else {
                    price(f - imports.len(), imports, bodies, memo, active)?
                };
                cur = cur.map(|c: u64| c.saturating_add(p));
            }
            _ => cur = cur.map(|c: u64| c.saturating_add(1)),
        }
    }
    active[i] = false;
    let p = max(cur, exit).unwrap_or(0);
    memo[i] = Some(p);
    Some(p)
}
