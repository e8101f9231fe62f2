//! The ABI of inputs and outputs, written down independently of the code under test.

use crate::core::*;

/// A value of the ABI, as the documentation has it.
#[derive(Clone, Debug, PartialEq)]
pub enum A {
    None,
    Unit,
    Bool(bool),
    Address([u8; 20]),
    Amount(u64),
    I8(i8),
    U8(u8),
    I16(i16),
    U16(u16),
    I32(i32),
    U32(u32),
    I64(i64),
    U64(u64),
    Arr(Vec<A>),
}

fn nbytes(v: u64) -> usize {
    let mut n = 1;
    while n < 8 && v >> (8 * n) != 0 {
        n += 1;
    }
    n
}

fn tail(o: &mut Vec<u8>, v: u64, n: usize) {
    for i in (0..n).rev() {
        o.push((v >> (8 * i)) as u8);
    }
}

/// The documented encoding, written down once more and independently: low nibble the family,
/// bits 4-6 the member of the family.
pub fn write(a: &A, o: &mut Vec<u8>) {
    let num = |o: &mut Vec<u8>, family: u8, first: u8, v: u64| {
        let n = nbytes(v);
        o.push(family | (first + n as u8 - 1) << 4);
        tail(o, v, n);
    };
    match a {
        A::Bool(b) => o.push((*b as u8) << 4),
        A::None => o.push(2 << 4),
        A::Unit => o.push(3 << 4),
        A::Address(x) => {
            o.push(4 << 4);
            o.extend_from_slice(x);
        }
        A::Amount(v) => num(o, 1, 0, *v),
        A::I8(v) => {
            o.push(2);
            o.push(*v as u8);
        }
        A::U8(v) => {
            o.push(2 | 1 << 4);
            o.push(*v);
        }
        A::I16(v) => num(o, 2, 2, *v as u16 as u64),
        A::U16(v) => num(o, 2, 4, *v as u64),
        A::I32(v) => num(o, 3, 0, *v as u32 as u64),
        A::U32(v) => num(o, 3, 4, *v as u64),
        A::I64(v) => num(o, 4, 0, *v as u64),
        A::U64(v) => num(o, 5, 0, *v),
        A::Arr(v) => {
            let n = v.len() as u8;
            o.push(if n < 8 { 6 | n << 4 } else { 7 | (n - 8) << 4 });
            for x in v {
                write(x, o);
            }
        }
    }
}

/// Reads one value; `None` where the bytes aren't one.
pub fn read(b: &[u8], at: &mut usize, nested: bool) -> Option<A> {
    let m = *b.get(*at)?;
    *at += 1;
    if m & 0x80 != 0 {
        return None;
    }
    let (family, member) = (m & 15, (m >> 4) as usize);
    let mut num = |n: usize| -> Option<u64> {
        let s = b.get(*at..*at + n)?;
        *at += n;
        Some(s.iter().fold(0u64, |v, x| v << 8 | *x as u64))
    };
    Some(match (family, member) {
        (0, 0) => A::Bool(false),
        (0, 1) => A::Bool(true),
        (0, 2) => A::None,
        (0, 3) => A::Unit,
        (0, 4) => {
            let s = b.get(*at..*at + 20)?;
            *at += 20;
            let mut a = [0; 20];
            a.copy_from_slice(s);
            A::Address(a)
        }
        (1, n) => A::Amount(num(n + 1)?),
        (2, 0) => A::I8(num(1)? as i8),
        (2, 1) => A::U8(num(1)? as u8),
        (2, n @ 2..=3) => A::I16(num(n - 1)? as i16),
        (2, n @ 4..=5) => A::U16(num(n - 3)? as u16),
        (3, n @ 0..=3) => A::I32(num(n + 1)? as i32),
        (3, n) => A::U32(num(n - 3)? as u32),
        (4, n) => A::I64(num(n + 1)? as i64),
        (5, n) => A::U64(num(n + 1)?),
        (6, n) | (7, n) => {
            if nested || (family == 7 && n > 2) {
                return None;
            }
            let n = if family == 7 { n + 8 } else { n };
            let mut v = vec![];
            for _ in 0..n {
                v.push(read(b, at, true)?);
            }
            A::Arr(v)
        }
        _ => return None,
    })
}

/// A number at or near a border of its encoding.
pub fn number(r: &mut Rng) -> u64 {
    match r.below(4) {
        0 => {
            let k = r.below(9) as u32;
            let b = if k == 8 { 0 } else { 1u64 << (8 * k) };
            b.wrapping_add(r.below(5) as u64).wrapping_sub(2)
        }
        1 => {
            let k = r.below(64) as u32;
            (1u64 << k).wrapping_add(r.below(3) as u64).wrapping_sub(1)
        }
        2 => r.u64() >> r.below(64),
        _ => (r.u64() >> r.below(64)).wrapping_neg(),
    }
}

pub fn primitive(r: &mut Rng) -> A {
    let n = number(r);
    match r.below(13) {
        0 => A::None,
        1 => A::Unit,
        2 => A::Bool(r.bool()),
        3 => A::Address(r.bytes(20).try_into().unwrap()),
        4 => A::Amount(n),
        5 => A::I8(n as i8),
        6 => A::U8(n as u8),
        7 => A::I16(n as i16),
        8 => A::U16(n as u16),
        9 => A::I32(n as i32),
        10 => A::U32(n as u32),
        11 => A::I64(n as i64),
        _ => A::U64(n),
    }
}

pub fn random(r: &mut Rng) -> A {
    if r.pct(25) {
        A::Arr((0..r.below(11)).map(|_| primitive(r)).collect())
    } else {
        primitive(r)
    }
}
