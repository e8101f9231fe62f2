//! C24: the SDK and its mocks, natively.

use std::collections::HashMap;

use svm_sdk_mock::host::MockHost;
use svm_sdk_mock::storage::MockStorage;
use svm_sdk_std::{Option as SOption, Result as SResult, String as SString, StringBuilder, ToString as SToString, Vec as SVec};
use svm_sdk_storage as st;
use svm_sdk_types::{Address, Amount, LayerId};

use crate::abi::*;
use crate::core::*;
use crate::sdk_model as model;
use crate::sdk_model::{random_call, random_ctor, text, Vars};
use crate::{ensure, ensure_eq};

/// The template of tools/gen_template.py over the mocks.
fn template(ctx: &mut Ctx) -> R {
    MockStorage::clear();
    MockHost::reset();
    let mut rng = ctx.rng.fork();
    let r = &mut rng;
    let mut v = Vars::new();
    let n = r.range(10, 60);
    let mut history = vec![];
    for i in 0..n {
        let mut c = if i == 0 && r.bool() { random_ctor(r, r.clone().bool()) } else { random_call(&v, r, true, true) };
        // A panic can't leave `extern "C"` functions.
        if c.result.is_none() {
            continue;
        }
        let value = if r.bool() { 0 } else { r.below(1 << 30) as u64 };
        if let (Some((ret, next)), true) = (&mut c.result, c.func.starts_with("fund_")) {
            let by = match c.func.as_str() {
                "fund_usual" => value,
                "fund_special" => value * 1000,
                _ => 0,
            };
            let now = match next.scalar[9] {
                A::Amount(a) => a,
                _ => unreachable!(),
            };
            match now.checked_add(by) {
                Some(sum) => {
                    next.scalar[9] = A::Amount(sum);
                    ret[1] = A::Amount(sum);
                }
                None => continue,
            }
        }
        MockHost::reset();
        MockHost::set_value(Amount(value));
        MockHost::set_raw_calldata(&c.calldata());
        if !crate::native_template::call(&c.func) {
            return harness(format!("no endpoint {}", c.func));
        }
        history.push(format!("{} {:?}", c.func, c.args));
        if history.len() > 4 {
            history.remove(0);
        }
        let (_, next) = c.result.clone().unwrap();
        let want = c.returndata();
        let want = if want.is_empty() { None } else { Some(hex::encode(want)) };
        ensure_eq!(MockHost::returndata().map(hex::encode), want, "{} (value {value}): returndata", history.join("; "));
        if c.func == "plain" {
            if let A::U8(a) = c.args[0] {
                ensure_eq!(MockHost::logs(), vec![("a plain message".to_string(), a)], "{}: logs", history.join("; "));
            }
        }
        v = next;
        ctx.event("template_calls");
    }
    // Every variable once more.
    for t in 0..11 {
        let low = model::T[t].to_lowercase();
        for (f, want) in [(format!("get_{low}"), v.scalar[t].clone()), (format!("all_{low}"), A::Arr(v.array[t].clone()))] {
            MockHost::reset();
            crate::native_template::call(&f);
            let mut b = vec![];
            write(&want, &mut b);
            ensure_eq!(MockHost::returndata(), Some(b), "after {}: {f}", history.join("; "));
        }
    }
    Ok(())
}

/// The fixed-size vector against `std`'s.
fn vec_ops<T: 'static + Clone + PartialEq + std::fmt::Debug>(ctx: &mut Ctx, mut item: impl FnMut(&mut Rng) -> T) -> R {
    let cap = match ctx.rng.below(5) {
        0 => 0,
        1 => 1,
        2 => ctx.rng.range(2, 9),
        _ => ctx.rng.range(2, 300),
    };
    let mut v: SVec<T> = SVec::with_capacity(cap);
    let mut m: Vec<T> = vec![];
    for _ in 0..ctx.rng.range(1, 2 * cap + 12) {
        match ctx.rng.below(20) {
            0..=11 => {
                let x = item(&mut ctx.rng);
                let y = x.clone();
                let r = guard(|| v.push(y));
                ensure_eq!(r.is_ok(), m.len() < cap, "pushing onto {} of {cap}", m.len());
                if r.is_ok() {
                    m.push(x);
                } else {
                    ctx.event("refused_pushes");
                }
            }
            12..=14 => match (guard(|| v.pop()), m.pop()) {
                (Ok(a), Some(b)) => ensure_eq!(a, b, "popped from {} of {cap}", m.len() + 1),
                (Err(_), None) => ctx.event("refused_pops"),
                (a, b) => return violation(format!("popped {a:?} where {b:?} is the last of {cap}")),
            },
            15 => {
                if !m.is_empty() {
                    let i = ctx.rng.below(m.len());
                    let x = item(&mut ctx.rng);
                    v[i] = x.clone();
                    m[i] = x;
                }
            }
            16 => {
                let it: Vec<T> = v.iter().cloned().collect();
                ensure_eq!(it, m, "iterated");
            }
            17 if ctx.rng.pct(10) => {
                v.clear();
                m.clear();
            }
            _ => {
                ensure_eq!(v.len(), m.len(), "the length");
                ensure_eq!(v.is_empty(), m.is_empty(), "emptiness");
            }
        }
        ensure_eq!(v.as_slice(), &m[..], "the items");
        ensure_eq!(v.capacity(), cap, "the capacity");
    }
    ctx.event("vectors");
    if ctx.rng.bool() {
        let l = v.leak();
        ensure_eq!(l, &m[..], "leaked");
    } else {
        let it: Vec<T> = v.into_iter().collect();
        ensure_eq!(it, m, "consumed");
    }
    Ok(())
}

fn bytes_of(s: &SString) -> Vec<u8> {
    s.as_bytes().to_vec()
}

fn strings(ctx: &mut Ctx) -> R {
    let r = &mut ctx.rng;
    for _ in 0..20 {
        let x = model::value(r.range(1, 10), r);
        let got = match &x {
            A::I8(v) => SToString::to_string(v),
            A::U8(v) => SToString::to_string(v),
            A::I16(v) => SToString::to_string(v),
            A::U16(v) => SToString::to_string(v),
            A::I32(v) => SToString::to_string(v),
            A::U32(v) => SToString::to_string(v),
            A::I64(v) => SToString::to_string(v),
            A::U64(v) => SToString::to_string(v),
            A::Amount(v) => SToString::to_string(&Amount(*v)),
            A::Address(a) => SToString::to_string(&Address::from(*a)),
            _ => unreachable!(),
        };
        ensure_eq!(bytes_of(&got), text(&x), "the string of {x:?}");
        let n = number(r);
        ensure_eq!(bytes_of(&SToString::to_string(&LayerId(n))), format!("[Layer {n}]").into_bytes(), "the string of layer {n}");
    }
    ctx.events("strings", 40);
    // Short strings.
    let r = &mut ctx.rng;
    let n = r.below(12);
    let ascii = r.pct(70);
    let data: Vec<u8> = (0..n).map(|_| if ascii { r.u8() & 0x7f } else { r.u8() }).collect();
    let ok = n <= 8 && data.iter().all(|b| *b < 128);
    match guard(|| SString::new_short(&data)) {
        Ok(s) => {
            ensure!(ok, "a short string of {}", hex::encode(&data));
            ensure_eq!(bytes_of(&s), data, "a short string");
        }
        Err(_) => ensure!(!ok, "no short string of {}", hex::encode(&data)),
    }
    // Built strings.
    let cap = *r.pick(&[0, 1, 7, 8, 9, 16, 40, 255, 256, 300]);
    let mut sb = StringBuilder::with_capacity(cap);
    let mut m: Vec<u8> = vec![];
    let mut broken = false;
    for _ in 0..r.range(1, 60) {
        let part: Vec<u8> = (0..r.below(9)).map(|_| r.u8() & 0x7f).collect();
        let res = guard(|| sb.push_str(&SString::new_short(&part)));
        if m.len() + part.len() <= cap {
            ensure!(res.is_ok(), "no room for {} in {} of {cap}", part.len(), m.len());
            m.extend(part);
        } else {
            ensure!(res.is_err(), "{} bytes are pushed onto {} of {cap}", part.len(), m.len());
            broken = true;
            break;
        }
    }
    if !broken {
        let s = sb.build();
        ensure_eq!(bytes_of(&s), m, "a built string");
        // Onto another one: parts of up to 255 bytes.
        if m.len() < 256 {
            let mut sb = StringBuilder::with_capacity(m.len() + 2);
            sb.push_str(&SString::from_byte(b'<'));
            let r = guard(|| sb.push_str(&s));
            ensure!(r.is_ok(), "a part of {} bytes is refused", m.len());
            sb.push_str(&SString::from_byte(b'>'));
            let want: Vec<u8> = [&b"<"[..], &m, b">"].concat();
            ensure_eq!(bytes_of(&sb.build()), want, "a string of strings");
        }
        ctx.event("built_strings");
    }
    Ok(())
}

fn amounts(ctx: &mut Ctx) -> R {
    for _ in 0..30 {
        let r = &mut ctx.rng;
        let a = number(r);
        let b = match r.below(4) {
            0 => u64::MAX - a,
            1 => (u64::MAX - a).wrapping_add(1),
            2 => a.wrapping_add(r.below(3) as u64).wrapping_sub(1),
            _ => number(r),
        };
        let assign = |f: &dyn Fn(&mut Amount)| {
            let mut x = Amount(a);
            f(&mut x);
            x.0
        };
        let op = r.below(3);
        let want = match op {
            0 => a.checked_add(b),
            1 => a.checked_sub(b),
            _ => a.checked_mul(b),
        };
        let all: Vec<Result<u64, Panicked>> = match op {
            0 => vec![
                guard(|| (Amount(a) + Amount(b)).0),
                guard(|| (Amount(a) + b).0),
                guard(|| assign(&|x| *x += Amount(b))),
                guard(|| assign(&|x| *x += b)),
            ],
            1 => vec![
                guard(|| (Amount(a) - Amount(b)).0),
                guard(|| (Amount(a) - b).0),
                guard(|| assign(&|x| *x -= Amount(b))),
                guard(|| assign(&|x| *x -= b)),
            ],
            _ => vec![
                guard(|| (Amount(a) * Amount(b)).0),
                guard(|| (Amount(a) * b).0),
                guard(|| assign(&|x| *x *= Amount(b))),
                guard(|| assign(&|x| *x *= b)),
            ],
        };
        for (i, g) in all.into_iter().enumerate() {
            ensure_eq!(g.ok(), want, "operation {op} (form {i}) of {a} and {b}");
        }
        ensure_eq!(Amount(a).partial_cmp(&Amount(b)), Some(a.cmp(&b)), "the order of {a} and {b}");
        ensure_eq!(Amount(a) == Amount(b), a == b, "the equality of {a} and {b}");
        ctx.event(if want.is_some() { "amounts" } else { "overflows" });
    }
    Ok(())
}

fn addresses(ctx: &mut Ctx) -> R {
    let r = &mut ctx.rng;
    let mut map: HashMap<Address, usize> = HashMap::new();
    let mut known: Vec<[u8; 20]> = vec![];
    for i in 0..20 {
        let x: [u8; 20] = if r.bool() && !known.is_empty() {
            let mut x = *r.pick(&known);
            if r.bool() {
                x[r.below(20)] ^= 1 << r.below(8);
            }
            x
        } else {
            r.bytes(20).try_into().unwrap()
        };
        let a: Address = match r.below(3) {
            0 => x.into(),
            1 => {
                let s: &'static [u8] = Box::leak(Box::new(x));
                s.into()
            }
            _ => {
                let mut v = SVec::with_capacity(20);
                x.iter().for_each(|b| v.push(*b));
                v.into()
            }
        };
        ensure_eq!(a.as_slice(), &x[..], "the bytes of an address");
        for y in &known {
            ensure_eq!(a == Address::from(*y), x == *y, "the equality of {} and {}", hex::encode(x), hex::encode(y));
        }
        ensure_eq!(map.contains_key(&a), known.contains(&x), "an address as a key");
        map.insert(a, i);
        known.push(x);
    }
    let n = *r.pick(&[0usize, 1, 19, 21, 40]);
    let s: &'static [u8] = Box::leak(vec![3u8; n].into_boxed_slice());
    ensure!(guard(|| Address::from(s)).is_err(), "an address of {n} bytes");
    let b = r.u8();
    ensure_eq!(Address::repeat(b).as_slice().to_vec(), vec![b; 20], "a repeated byte");
    ctx.events("addresses", 20);
    Ok(())
}

/// The mocked host's coins against a ledger.
fn coins(ctx: &mut Ctx) -> R {
    MockHost::reset();
    let mut rng = ctx.rng.fork();
    let r = &mut rng;
    let addrs: Vec<[u8; 20]> = (0..5).map(|_| r.bytes(20).try_into().unwrap()).collect();
    let mut m: HashMap<[u8; 20], u64> = HashMap::new();
    let mut moved = 0;
    for _ in 0..60 {
        let a = *r.pick(&addrs);
        let t = *r.pick(&addrs);
        match r.below(4) {
            0 => {
                let n = number(r);
                MockHost::set_balance(&a.into(), Amount(n));
                m.insert(a, n);
            }
            _ => {
                MockHost::set_target(t.into());
                let have = *m.get(&t).unwrap_or(&0);
                let n = match r.below(4) {
                    0 => have,
                    1 => have.wrapping_add(1),
                    2 => r.below(1000) as u64,
                    _ => number(r),
                };
                let to = *m.get(&a).unwrap_or(&0);
                let ok = n <= have && (a == t || to.checked_add(n).is_some());
                let got = guard(|| MockHost::transfer(&a.into(), Amount(n)));
                ensure_eq!(got.is_ok(), ok, "a transfer of {n} by an account with {have} to one with {to} (itself: {})", a == t);
                if ok && a != t {
                    m.insert(t, have - n);
                    m.insert(a, to + n);
                }
                moved += ok as u64;
                ctx.event("transfers");
                ensure_eq!(MockHost::balance().0, *m.get(&t).unwrap_or(&0), "the balance of the target");
            }
        }
        for x in &addrs {
            ensure_eq!(MockHost::balance_of(&(*x).into()).0, *m.get(x).unwrap_or(&0), "a balance");
        }
    }
    let _ = moved;
    Ok(())
}

/// The storage functions over the mocked storage.
fn storage(ctx: &mut Ctx) -> R {
    MockStorage::clear();
    type M = MockStorage;
    let r = &mut ctx.rng;
    // One range of ids per width: the mock doesn't mix them.
    let mut m32: HashMap<u32, u32> = HashMap::new();
    let mut m64: HashMap<u32, u64> = HashMap::new();
    let mut m20: HashMap<u32, [u8; 20]> = HashMap::new();
    let mut mb: HashMap<u32, bool> = HashMap::new();
    for _ in 0..80 {
        let len = r.range(1, 8) as u32;
        let i = r.below(10);
        let base = r.below(30) as u32;
        let fits = (i as u32) < len;
        let id = base + i as u32;
        macro_rules! cell {
            ($get:expr, $set:expr, $map:expr, $off:expr, $new:expr, $zero:expr, $what:expr) => {{
                let off: u32 = $off;
                if r.bool() {
                    let x = $new;
                    let g = guard(|| $set(base + off, i, len, x));
                    ensure_eq!(g.is_ok(), fits, "{}: item {i} of {len} is set", $what);
                    if fits {
                        $map.insert(id + off, x);
                    }
                } else {
                    let g = guard(|| $get(base + off, i, len));
                    let want = if fits { Some($map.get(&(id + off)).copied().unwrap_or($zero)) } else { None };
                    ensure_eq!(g.ok(), want, "{}: item {i} of {len} is read", $what);
                }
            }};
        }
        match r.below(5) {
            0 => cell!(st::array_get32::<M>, st::array_set32::<M>, m32, 0, number(r) as u32, 0, "32"),
            1 => cell!(st::array_get64::<M>, st::array_set64::<M>, m64, 1000, number(r), 0, "64"),
            2 => cell!(
                |v, i, l| st::array_get_amount::<M>(v, i, l).0,
                |v, i, l, x| st::array_set_amount::<M>(v, i, l, Amount(x)),
                m64, 1000, number(r), 0, "amount"
            ),
            3 => cell!(st::array_get_bool::<M>, st::array_set_bool::<M>, mb, 2000, r.bool(), false, "bool"),
            _ => cell!(
                |v, i, l| -> [u8; 20] { st::array_get_addr::<M>(v, i, l).as_slice().try_into().unwrap() },
                |v, i, l, x: [u8; 20]| st::array_set_addr::<M>(v, i, l, &x.into()),
                m20, 3000, r.bytes(20).try_into().unwrap(), [0; 20], "address"
            ),
        }
        // Single variables share the ids.
        let id = r.below(40) as u32;
        match r.below(5) {
            0 => ensure_eq!(st::get32::<M>(id), *m32.get(&id).unwrap_or(&0), "get32"),
            1 => ensure_eq!(st::get64::<M>(id + 1000), *m64.get(&(id + 1000)).unwrap_or(&0), "get64"),
            2 => ensure_eq!(st::get_amount::<M>(id + 1000).0, *m64.get(&(id + 1000)).unwrap_or(&0), "get_amount"),
            3 => ensure_eq!(st::get_bool::<M>(id + 2000), *mb.get(&(id + 2000)).unwrap_or(&false), "get_bool"),
            _ => ensure_eq!(st::get_addr::<M>(id + 3000).as_slice().to_vec(), m20.get(&(id + 3000)).copied().unwrap_or([0; 20]).to_vec(), "get_addr"),
        }
    }
    ctx.events("storage_ops", 80);
    Ok(())
}

fn options(ctx: &mut Ctx) -> R {
    let r = &mut ctx.rng;
    let x = if r.bool() { Some(r.u64()) } else { None };
    let y = if r.bool() { x } else { Some(r.u64()) };
    let s = |x: Option<u64>| -> SOption<u64> { x.into() };
    ensure_eq!(Option::<u64>::from(s(x)), x, "an option and back");
    ensure_eq!(s(x) == s(y), x == y, "options compared");
    ensure_eq!(guard(|| s(x).unwrap()).ok(), x, "unwrapped");
    let e: SResult<u64, u8> = s(x).ok_or(7);
    ensure_eq!(e.is_ok(), x.is_some(), "ok_or");
    ensure_eq!(e.is_err(), x.is_none(), "ok_or");
    ensure_eq!(guard(|| s(x).ok_or(7u8).unwrap()).ok(), x, "a result unwrapped");
    ensure_eq!(guard(|| s(x).ok_or(7u8).unwrap_err()).ok(), if x.is_none() { Some(7) } else { None }, "an error unwrapped");
    Ok(())
}

fn c24(ctx: &mut Ctx) -> R {
    let sig = ctx.rng.clone().u64();
    template(ctx)?;
    vec_ops(ctx, |r| r.u8())?;
    vec_ops(ctx, |r| r.u64())?;
    vec_ops(ctx, |r| r.text(20))?;
    strings(ctx)?;
    amounts(ctx)?;
    addresses(ctx)?;
    coins(ctx)?;
    storage(ctx)?;
    options(ctx)?;
    ctx.evaluated(Some(sig));
    Ok(())
}

pub static C24: Spec = Spec {
    id: "C24",
    rule: "a case is 10-60 calls of a template of 120 endpoints over the SDK's mocked host and storage, three histories of vectors, strings of random values and parts, amounts at the borders of overflow, addresses as keys, transfers of the mocked host and array storage with indexes in and beyond, each compared with a model using std; run under AddressSanitizer; distinct by seed",
    assumptions: &["memory that the SDK never frees by design isn't a leak"],
    quick_cases: 20_000,
    quick_secs: 15,
    thorough_cases: 400_000,
    required: &["template_calls", "vectors", "refused_pushes", "refused_pops", "strings", "built_strings", "amounts", "overflows", "addresses", "transfers", "storage_ops"],
    case: c24,
    ..DEFAULT_SPEC
};
