//! What the template of tools/gen_template.py does, written down independently of the SDK.

use crate::abi::*;
use crate::core::*;

pub const T: [&str; 11] = ["bool", "i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64", "Amount", "Address"];
pub const LEN: [usize; 11] = [3, 10, 7, 1, 9, 8, 5, 2, 4, 6, 3];
pub const BYTES: [usize; 11] = [1, 1, 1, 2, 2, 4, 4, 8, 8, 8, 20];

pub fn value(t: usize, r: &mut Rng) -> A {
    let n = number(r);
    match t {
        0 => A::Bool(r.bool()),
        1 => A::I8(n as i8),
        2 => A::U8(n as u8),
        3 => A::I16(n as i16),
        4 => A::U16(n as u16),
        5 => A::I32(n as i32),
        6 => A::U32(n as u32),
        7 => A::I64(n as i64),
        8 => A::U64(n),
        9 => A::Amount(n),
        _ => A::Address(r.bytes(20).try_into().unwrap()),
    }
}

pub fn zero(t: usize) -> A {
    match t {
        0 => A::Bool(false),
        1 => A::I8(0),
        2 => A::U8(0),
        3 => A::I16(0),
        4 => A::U16(0),
        5 => A::I32(0),
        6 => A::U32(0),
        7 => A::I64(0),
        8 => A::U64(0),
        9 => A::Amount(0),
        _ => A::Address([0; 20]),
    }
}

/// The bytes of a storage variable.
pub fn raw(a: &A) -> Vec<u8> {
    match a {
        A::Bool(b) => vec![*b as u8],
        A::I8(v) => v.to_le_bytes().to_vec(),
        A::U8(v) => v.to_le_bytes().to_vec(),
        A::I16(v) => v.to_le_bytes().to_vec(),
        A::U16(v) => v.to_le_bytes().to_vec(),
        A::I32(v) => v.to_le_bytes().to_vec(),
        A::U32(v) => v.to_le_bytes().to_vec(),
        A::I64(v) => v.to_le_bytes().to_vec(),
        A::U64(v) | A::Amount(v) => v.to_le_bytes().to_vec(),
        A::Address(x) => x.to_vec(),
        _ => unreachable!(),
    }
}

/// What a value's `to_string` is documented to be.
pub fn text(a: &A) -> Vec<u8> {
    match a {
        A::I8(v) => v.to_string(),
        A::U8(v) => v.to_string(),
        A::I16(v) => v.to_string(),
        A::U16(v) => v.to_string(),
        A::I32(v) => v.to_string(),
        A::U32(v) => v.to_string(),
        A::I64(v) => v.to_string(),
        A::U64(v) => v.to_string(),
        A::Amount(v) => format!("{v} coins"),
        A::Address(x) => format!("0x{}", hex::encode_upper(x)),
        _ => unreachable!(),
    }
    .into_bytes()
}

/// The variables of an account of the template.
#[derive(Clone, Debug, PartialEq)]
pub struct Vars {
    pub scalar: Vec<A>,
    pub array: Vec<Vec<A>>,
    pub last: u16,
}

impl Vars {
    pub fn new() -> Self {
        Vars {
            scalar: (0..11).map(zero).collect(),
            array: (0..11).map(|t| vec![zero(t); LEN[t]]).collect(),
            last: 0,
        }
    }
    pub fn sizes() -> Vec<u32> {
        let mut v = vec![];
        for t in 0..11 {
            v.extend(vec![BYTES[t] as u32; 1 + LEN[t]]);
        }
        v.push(2);
        v
    }
    /// The variables by their ids.
    pub fn by_id(&self) -> Vec<Vec<u8>> {
        let mut v = vec![];
        for t in 0..11 {
            v.push(raw(&self.scalar[t]));
            v.extend(self.array[t].iter().map(raw));
        }
        v.push(self.last.to_le_bytes().to_vec());
        v
    }
}

#[derive(Clone, Debug)]
pub struct Call {
    pub func: String,
    pub args: Vec<A>,
    /// `None` where the call has to fail.
    pub result: Option<(Vec<A>, Vars)>,
    pub logs: Vec<Vec<u8>>,
}

impl Call {
    pub fn calldata(&self) -> Vec<u8> {
        let mut o = vec![];
        for a in &self.args {
            write(a, &mut o);
        }
        o
    }
    pub fn returndata(&self) -> Vec<u8> {
        let mut o = vec![];
        for a in self.result.iter().flat_map(|r| r.0.iter()) {
            write(a, &mut o);
        }
        o
    }
}

fn arr(t: usize, n: usize, r: &mut Rng) -> A {
    A::Arr((0..n).map(|_| value(t, r)).collect())
}

/// A random call and what it has to do. `loops` for what only the larger template has.
pub fn random_call(v: &Vars, r: &mut Rng, loops: bool, native: bool) -> Call {
    let mut next = v.clone();
    let (mut args, mut ret, mut logs, mut fails): (Vec<A>, Vec<A>, Vec<Vec<u8>>, bool) = (vec![], vec![], vec![], false);
    let func: String;
    if r.pct(78) {
        let t = if loops { r.below(11) } else { r.range(1, 10) };
        let low = T[t].to_lowercase();
        let n = LEN[t];
        // Now and then beyond the array, far beyond, or where a sum with the id would wrap.
        let i = match r.below(12) {
            0 => n,
            1 => *r.pick(&[n + 1, 2 * n, u32::MAX as usize, 1 << 31, 256, 65536]),
            _ => r.below(n),
        };
        let x = value(t, r);
        match r.below(8) {
            0 => {
                func = format!("set_{low}");
                args.push(x.clone());
                next.scalar[t] = x;
            }
            1 => {
                func = format!("get_{low}");
                ret.push(v.scalar[t].clone());
            }
            2 => {
                func = format!("put_{low}");
                args = vec![A::U32(i as u32), x.clone()];
                if i < n {
                    next.array[t][i] = x;
                } else {
                    fails = true;
                }
            }
            3 => {
                func = format!("take_{low}");
                args.push(A::U32(i as u32));
                if i < n {
                    ret.push(v.array[t][i].clone());
                } else {
                    fails = true;
                }
            }
            4 => {
                func = format!("all_{low}");
                ret.push(A::Arr(v.array[t].clone()));
            }
            5 => {
                func = format!("echo_{low}");
                args.push(x.clone());
                ret.push(x);
            }
            6 if loops => {
                func = format!("echo_r_{low}");
                let x = arr(t, n, r);
                args.push(x.clone());
                ret.push(x);
            }
            _ => {
                func = format!("swap_{low}");
                args = vec![A::U32(i as u32), x.clone()];
                if i < n {
                    ret = vec![v.scalar[t].clone(), v.array[t][i].clone()];
                    next.array[t][i] = x;
                } else {
                    fails = true;
                }
            }
        }
    } else {
        let k = if loops { r.below(if native { 11 } else { 8 }) } else { *r.pick(&[1, 5, 6, 7]) };
        match k {
            0 => {
                let (a, b, c) = (value(10, r), value(0, r), arr(3, 3, r));
                let (d, e, f) = (value(8, r), value(1, r), value(9, r));
                let (g, h, i) = (arr(9, 2, r), value(4, r), arr(0, 10, r));
                if r.bool() {
                    func = "many".into();
                    ret = vec![h.clone(), g.clone(), f.clone(), e.clone(), d.clone()];
                } else {
                    func = "more".into();
                    ret = vec![i.clone(), a.clone(), b.clone(), c.clone()];
                }
                args = vec![a, b, c, d, e, f, g, h, i];
            }
            1 | 2 => {
                func = "arith".into();
                let (a, b) = if r.bool() { (number(r), number(r)) } else { (r.below(1 << 20) as u64, r.below(1 << 20) as u64) };
                let b = if r.pct(20) { r.below(4) as u64 } else if r.pct(20) { u64::MAX - a } else { b };
                let op = r.below(10) as u8;
                args = vec![A::Amount(a), A::Amount(b), A::U8(op)];
                let c = match op {
                    0 | 3 | 6 => a.checked_add(b),
                    1 | 4 | 7 => a.checked_sub(b),
                    2 | 5 | 8 => a.checked_mul(b),
                    _ => Some(a),
                };
                match c {
                    Some(c) => ret.push(A::Amount(c)),
                    None => fails = true,
                }
            }
            3 => {
                func = "check".into();
                let x = number(r) as u32;
                let y = if r.bool() { x.wrapping_add(r.below(3) as u32).wrapping_sub(1) } else { number(r) as u32 };
                args = vec![A::U32(x), A::U32(y)];
                if x < y {
                    next.scalar[6] = A::U32(x);
                    ret.push(A::U32(y - x));
                } else {
                    logs.push(b"too big".to_vec());
                    fails = true;
                }
            }
            4 => {
                func = "show".into();
                args = [2, 1, 4, 3, 6, 5, 8, 7, 9, 10].iter().map(|t| value(*t, r)).collect();
                logs = args.iter().map(text).collect();
                if let A::U64(g) = args[6] {
                    logs.push(format!("[Layer {g}]").into_bytes());
                }
            }
            5 => {
                func = "plain".into();
                let a = r.u8();
                args.push(A::U8(a));
                logs.push(b"a plain message".to_vec());
                next.last = a as u16 + 1;
            }
            6 => {
                func = "bump".into();
                next.last = v.last.wrapping_add(1);
                ret.push(A::U16(next.last));
            }
            7 => func = "silent".into(),
            _ => {
                // The value is decided by the caller of `random_call`.
                func = (*r.pick(&["fund_usual", "fund_special", "fund_none"])).into();
                let x = value(4, r);
                if let A::U16(x) = x {
                    next.last = x;
                }
                args.push(x.clone());
                ret = vec![x, v.scalar[9].clone()];
            }
        }
    }
    // Calldata that doesn't fit the signature.
    if !native && !args.is_empty() && r.pct(6) {
        let i = r.below(args.len());
        match r.below(4) {
            0 => args.truncate(i),
            1 => {
                let wrong = if matches!(args[i], A::Address(_)) { A::Bool(true) } else { A::Address([7; 20]) };
                args[i] = wrong;
            }
            2 => {
                args[i] = match &args[i] {
                    A::Arr(v) => A::Arr(v[1..].to_vec()),
                    x => A::Arr(vec![x.clone()]),
                }
            }
            _ => {
                args[i] = match args[i].clone() {
                    A::Arr(mut v) if v.len() < 10 => {
                        v.push(v[0].clone());
                        A::Arr(v)
                    }
                    _ => A::None,
                }
            }
        }
        logs.clear();
        fails = true;
    }
    Call { func, args, result: if fails { None } else { Some((ret, next)) }, logs }
}

/// A call of a constructor.
pub fn random_ctor(r: &mut Rng, loops: bool) -> Call {
    let mut next = Vars::new();
    if r.pct(25) {
        return Call { func: "nothing".into(), args: vec![], result: Some((vec![], next)), logs: vec![] };
    }
    let ts = [0, 1, 4, 6, 7, 9, 10];
    let mut args: Vec<A> = ts.iter().map(|t| value(*t, r)).collect();
    for (t, a) in ts.iter().zip(&args) {
        next.scalar[*t] = a.clone();
    }
    let f = match args[5] {
        A::Amount(f) => f,
        _ => unreachable!(),
    };
    let func = if loops {
        let h = arr(6, 5, r);
        if let A::Arr(h) = &h {
            next.array[6] = h.clone();
        }
        args.push(h);
        next.last = 77;
        "initialize"
    } else {
        next.last = 78;
        "first"
    };
    if r.pct(8) {
        args.pop();
        return Call { func: func.into(), args, result: None, logs: vec![] };
    }
    Call { func: func.into(), args, result: Some((vec![A::U64(f)], next)), logs: vec![] }
}
