//! C22: the ABI of inputs and outputs of contracts.

use svm_abi_decoder::{CallData, Cursor, Decoder, ReturnData};
use svm_abi_encoder::{ByteSize, Encoder};
use svm_sdk_std::{Option as SOption, Result as SResult, Vec as SVec};
use svm_sdk_types::value::{Composite, Primitive, Value};
use svm_sdk_types::{Address, Amount};

pub use crate::abi::*;
use crate::core::*;
use crate::{ensure, ensure_eq};

pub fn to_value(a: &A) -> Value {
    match a {
        A::None => Value::none(),
        A::Unit => Value::unit(),
        A::Bool(b) => (*b).into(),
        A::Address(x) => Address::from(*x).into(),
        A::Amount(v) => Amount(*v).into(),
        A::I8(v) => (*v).into(),
        A::U8(v) => (*v).into(),
        A::I16(v) => (*v).into(),
        A::U16(v) => (*v).into(),
        A::I32(v) => (*v).into(),
        A::U32(v) => (*v).into(),
        A::I64(v) => (*v).into(),
        A::U64(v) => (*v).into(),
        A::Arr(v) => {
            let mut s = SVec::with_capacity(v.len());
            for x in v {
                s.push(to_value(x));
            }
            s.into()
        }
    }
}

pub fn of_value(v: &Value) -> A {
    match v {
        Value::Primitive(p) => match p {
            Primitive::None => A::None,
            Primitive::Unit => A::Unit,
            Primitive::Bool(b) => A::Bool(*b),
            Primitive::Address(a) => {
                let mut x = [0; 20];
                x.copy_from_slice(a.as_slice());
                A::Address(x)
            }
            Primitive::Amount(a) => A::Amount(a.0),
            Primitive::I8(v) => A::I8(*v),
            Primitive::U8(v) => A::U8(*v),
            Primitive::I16(v) => A::I16(*v),
            Primitive::U16(v) => A::U16(*v),
            Primitive::I32(v) => A::I32(*v),
            Primitive::U32(v) => A::U32(*v),
            Primitive::I64(v) => A::I64(*v),
            Primitive::U64(v) => A::U64(*v),
        },
        Value::Composite(Composite::Vec(v)) => A::Arr(v.as_slice().iter().map(of_value).collect()),
    }
}

fn encode_value(v: &Value, capacity: usize) -> Vec<u8> {
    let mut out = SVec::with_capacity(capacity);
    v.encode(&mut out);
    out.as_slice().to_vec()
}

fn show(b: &[u8]) -> String {
    hex::encode(b)
}

/// What the real decoder makes of the first value.
fn decode_real(b: &[u8]) -> Result<Option<A>, Panicked> {
    guard(|| {
        let mut c = Cursor::new(b);
        match Decoder::new().decode_value(&mut c) {
            SResult::Ok(v) => Some(of_value(&v)),
            SResult::Err(_) => None,
        }
    })
}

fn decode_all(b: &[u8]) -> Result<Vec<A>, Panicked> {
    guard(|| {
        let mut d = CallData::new(b);
        let mut v = vec![];
        loop {
            match d.next() {
                SOption::Some(x) => v.push(of_value(&x)),
                SOption::None => return v,
            }
        }
    })
}

fn well_formed(ctx: &mut Ctx) -> R {
    let n = ctx.rng.range(1, 8);
    let values: Vec<A> = (0..n).map(|_| random(&mut ctx.rng)).collect();
    let l = values.clone();
    ctx.log(move || format!("{l:?}"));
    let mut all = vec![];
    for a in &values {
        let mut want = vec![];
        write(a, &mut want);
        let v = to_value(a);
        let got = match guard(|| encode_value(&v, want.len())) {
            Ok(g) => g,
            Err(p) => return violation(format!("encoding {a:?} in its {} bytes panics at {}: {}", want.len(), p.location, p.message)),
        };
        ensure_eq!(show(&got), show(&want), "the encoding of {a:?}");
        ensure_eq!(of_value(&v), *a, "the value made from {a:?}");
        match decode_real(&want) {
            Ok(Some(x)) => ensure_eq!(x, *a, "{} decoded", show(&want)),
            Ok(None) => return violation(format!("{} is rejected, which encodes {a:?}", show(&want))),
            Err(p) => return violation(format!("decoding {} panics at {}: {}", show(&want), p.location, p.message)),
        }
        for cut in 0..want.len() {
            match decode_real(&want[..cut]) {
                Ok(None) => ctx.event("prefixes_rejected"),
                Ok(Some(x)) => return violation(format!("the first {cut} bytes of {} decode to {x:?}", show(&want))),
                Err(p) => return violation(format!("decoding the first {cut} bytes of {} panics at {}: {}", show(&want), p.location, p.message)),
            }
        }
        if let A::Arr(v) = a {
            ctx.event(&format!("arrays_of_{}", v.len()));
        }
        ctx.event("values");
        all.extend(want);
    }
    match decode_all(&all) {
        Ok(v) => ensure_eq!(v, values, "the values decoded from {}", show(&all)),
        Err(p) => return violation(format!("decoding the values {} panics at {}: {}", show(&all), p.location, p.message)),
    }
    ctx.event("sequences");
    ctx.evaluated(Some(hash_bytes(&all)));
    ctx.sample(|| format!("{values:?} = {}", show(&all)));
    Ok(())
}

fn malformed(ctx: &mut Ctx) -> R {
    let r = &mut ctx.rng;
    let mut b = vec![];
    match r.below(3) {
        0 => {
            let n = r.range(1, 40);
            b = r.bytes(n);
            b[0] &= 0x7f;
        }
        1 => {
            // valid values, one byte changed
            for _ in 0..r.range(1, 3) {
                let a = random(r);
                write(&a, &mut b);
            }
            let i = r.below(b.len());
            b[i] ^= 1 << r.below(8);
        }
        _ => {
            // a marker with arbitrary contents, wider than needed included
            b.push(if r.pct(90) { r.u8() & 0x7f } else { r.u8() });
            let n = r.below(30);
            let mut t = if r.bool() { vec![0; n] } else { r.bytes(n) };
            if r.pct(20) && n > 0 {
                let k = r.below(n);
                t[k] = r.u8();
            }
            b.extend(t);
        }
    }
    ctx.log(|| show(&b));
    let mut at = 0;
    let want = read(&b, &mut at, false);
    match decode_real(&b) {
        Ok(got) => ensure_eq!(got, want, "{} decoded", show(&b)),
        Err(p) => return violation(format!("decoding {} panics at {}: {}", show(&b), p.location, p.message)),
    }
    if let Some(a) = &want {
        ctx.event("damaged_but_valid");
        let v = to_value(a);
        match guard(|| encode_value(&v, 512)) {
            Ok(e) => {
                let mut w = vec![];
                write(a, &mut w);
                ensure_eq!(show(&e), show(&w), "{a:?} encoded again");
                ensure!(e.len() <= at, "{a:?} takes {} bytes encoded again, {at} before", e.len());
            }
            Err(p) => return violation(format!("encoding {a:?} panics at {}: {}", p.location, p.message)),
        }
    } else {
        ctx.event("malformed_rejected");
    }
    // The rest is what follows the first value.
    if want.is_some() && at < b.len() {
        let mut rest = at;
        let mut more = vec![want.clone().unwrap()];
        let mut ok = true;
        while rest < b.len() {
            match read(&b, &mut rest, false) {
                Some(a) => more.push(a),
                None => {
                    ok = false;
                    break;
                }
            }
        }
        match decode_all(&b) {
            Ok(v) => {
                ensure!(ok, "{} is accepted as {v:?}", show(&b));
                ensure_eq!(v, more, "the values decoded from {}", show(&b));
            }
            Err(p) => ensure!(!ok, "decoding the values {} panics at {}: {}", show(&b), p.location, p.message),
        }
    }
    ctx.evaluated(Some(hash_bytes(&b)));
    Ok(())
}

/// A Rust type that contracts can take and return.
trait Typed: Encoder + ByteSize + From<Value> + Into<Value> + Clone {
    const NAME: &'static str;
    fn make(r: &mut Rng) -> Self;
    fn abi(&self) -> A;
}

macro_rules! int {
    ($t:ident, $v:ident) => {
        impl Typed for $t {
            const NAME: &'static str = stringify!($t);
            fn make(r: &mut Rng) -> Self {
                number(r) as $t
            }
            fn abi(&self) -> A {
                A::$v(*self)
            }
        }
    };
}
int!(i8, I8);
int!(u8, U8);
int!(i16, I16);
int!(u16, U16);
int!(i32, I32);
int!(u32, U32);
int!(i64, I64);
int!(u64, U64);
impl Typed for bool {
    const NAME: &'static str = "bool";
    fn make(r: &mut Rng) -> Self {
        r.bool()
    }
    fn abi(&self) -> A {
        A::Bool(*self)
    }
}
impl Typed for Amount {
    const NAME: &'static str = "Amount";
    fn make(r: &mut Rng) -> Self {
        Amount(number(r))
    }
    fn abi(&self) -> A {
        A::Amount(self.0)
    }
}
impl Typed for Address {
    const NAME: &'static str = "Address";
    fn make(r: &mut Rng) -> Self {
        crate::p_codec::a20(r).into()
    }
    fn abi(&self) -> A {
        let mut x = [0; 20];
        x.copy_from_slice(self.as_slice());
        A::Address(x)
    }
}

fn sizes<T: Encoder + ByteSize>(ctx: &mut Ctx, name: &str, x: &T, want: &[u8]) -> R {
    let size = match guard(|| x.byte_size()) {
        Ok(s) => s,
        Err(p) => return violation(format!("the size of a {name} panics: {}", p.message)),
    };
    ensure_eq!(size, want.len(), "the stated size of the {name} that encodes to {}", show(want));
    ensure!(T::max_byte_size() >= size, "a {name} takes {size} bytes, more than the stated maximum of {}", T::max_byte_size());
    let got = guard(|| {
        let mut out = SVec::with_capacity(T::max_byte_size());
        x.encode(&mut out);
        out.as_slice().to_vec()
    });
    match got {
        Ok(g) => ensure_eq!(show(&g), show(want), "the encoding of a {name}"),
        Err(p) => return violation(format!("encoding a {name} panics at {}: {}", p.location, p.message)),
    }
    ctx.event("typed_values");
    Ok(())
}

fn typed<T: Typed>(ctx: &mut Ctx) -> R<T> {
    let x = T::make(&mut ctx.rng);
    let a = x.abi();
    ctx.log(|| format!("{a:?}"));
    let mut want = vec![];
    write(&a, &mut want);
    sizes(ctx, T::NAME, &x, &want)?;
    match guard(|| ReturnData::new(&want).next_1::<T>().abi()) {
        Ok(y) => ensure_eq!(y, a, "{} read as {}", show(&want), T::NAME),
        Err(p) => return violation(format!("{} can't be read as {}: {}", show(&want), T::NAME, p.message)),
    }
    // Of another type, it is refused rather than misread.
    let other = random(&mut ctx.rng);
    let same = std::mem::discriminant(&other) == std::mem::discriminant(&a);
    let mut b = vec![];
    write(&other, &mut b);
    match guard(|| CallData::new(&b).next_1::<T>().abi()) {
        Ok(y) => ensure!(same && y == other, "{other:?} is read as {}: {y:?}", T::NAME),
        Err(p) => ensure!(!same, "{other:?} can't be read as {}: {}", T::NAME, p.message),
    }
    ctx.event(if same { "same_type" } else { "other_types_refused" });
    Ok(x)
}

fn optional<T: Typed>(ctx: &mut Ctx) -> R
where
    SOption<T>: From<Value>,
{
    let x: SOption<T> = if ctx.rng.pct(30) { SOption::None } else { SOption::Some(T::make(&mut ctx.rng)) };
    let a = match &x {
        SOption::None => A::None,
        SOption::Some(v) => v.abi(),
    };
    let mut want = vec![];
    write(&a, &mut want);
    sizes(ctx, &format!("optional {}", T::NAME), &x, &want)?;
    let v: Value = x.clone().into();
    ensure_eq!(of_value(&v), a, "the value made of an optional {}", T::NAME);
    let back = guard(|| match CallData::new(&want).next_1::<SOption<T>>() {
        SOption::None => A::None,
        SOption::Some(v) => v.abi(),
    });
    match back {
        Ok(y) => ensure_eq!(y, a, "{} read as optional {}", show(&want), T::NAME),
        Err(p) => return violation(format!("{} can't be read as optional {}: {}", show(&want), T::NAME, p.message)),
    }
    ctx.event("optional_values");
    Ok(())
}

fn array<T: Typed, const N: usize>(ctx: &mut Ctx) -> R
where
    [T; N]: From<Value>,
{
    let v: Vec<T> = (0..N).map(|_| T::make(&mut ctx.rng)).collect();
    let a = A::Arr(v.iter().map(|x| x.abi()).collect());
    ctx.log(|| format!("{a:?}"));
    let mut want = vec![];
    write(&a, &mut want);
    let x: [T; N] = match v.try_into() {
        Ok(x) => x,
        Err(_) => return harness("array"),
    };
    sizes(ctx, &format!("[{}; {N}]", T::NAME), &x, &want)?;
    let back = guard(|| {
        let y: [T; N] = CallData::new(&want).next_1();
        A::Arr(y.iter().map(|x| x.abi()).collect())
    });
    match back {
        Ok(y) => ensure_eq!(y, a, "{} read as [{}; {N}]", show(&want), T::NAME),
        Err(p) => return violation(format!("{} can't be read as [{}; {N}]: {}", show(&want), T::NAME, p.message)),
    }
    // Arrays of another length are refused.
    let m = ctx.rng.below(11);
    if m != N {
        let b = A::Arr((0..m).map(|_| T::make(&mut ctx.rng).abi()).collect());
        let mut w = vec![];
        write(&b, &mut w);
        let r = guard(|| {
            let _: [T; N] = CallData::new(&w).next_1();
        });
        ensure!(r.is_err(), "an array of {m} is read as [{}; {N}]", T::NAME);
        ctx.event("other_lengths_refused");
    }
    ctx.event("typed_arrays");
    Ok(())
}

macro_rules! any_type {
    ($ctx:expr, $n:expr, $f:ident) => {
        match $n {
            0 => $f::<i8>($ctx).map(drop),
            1 => $f::<u8>($ctx).map(drop),
            2 => $f::<i16>($ctx).map(drop),
            3 => $f::<u16>($ctx).map(drop),
            4 => $f::<i32>($ctx).map(drop),
            5 => $f::<u32>($ctx).map(drop),
            6 => $f::<i64>($ctx).map(drop),
            7 => $f::<u64>($ctx).map(drop),
            8 => $f::<bool>($ctx).map(drop),
            9 => $f::<Amount>($ctx).map(drop),
            _ => $f::<Address>($ctx).map(drop),
        }
    };
}

macro_rules! any_array {
    ($ctx:expr, $t:ty) => {
        match $ctx.rng.range(1, 10) {
            1 => array::<$t, 1>($ctx),
            2 => array::<$t, 2>($ctx),
            3 => array::<$t, 3>($ctx),
            4 => array::<$t, 4>($ctx),
            5 => array::<$t, 5>($ctx),
            6 => array::<$t, 6>($ctx),
            7 => array::<$t, 7>($ctx),
            8 => array::<$t, 8>($ctx),
            9 => array::<$t, 9>($ctx),
            _ => array::<$t, 10>($ctx),
        }
    };
}

fn tuples(ctx: &mut Ctx) -> R {
    let r = &mut ctx.rng;
    let (a, b, c, d, e, f) = (Amount::make(r), i16::make(r), Address::make(r), bool::make(r), i64::make(r), [u8::make(r), u8::make(r), u8::make(r)]);
    let arr = A::Arr(f.iter().map(|x| x.abi()).collect());
    let parts = [a.abi(), b.abi(), c.abi(), d.abi(), e.abi(), arr];
    let mut enc = vec![vec![]];
    for p in &parts {
        let mut last = enc.last().unwrap().clone();
        write(p, &mut last);
        enc.push(last);
    }
    sizes(ctx, "1-tuple", &(a,), &enc[1])?;
    sizes(ctx, "2-tuple", &(a, b), &enc[2])?;
    sizes(ctx, "3-tuple", &(a, b, c), &enc[3])?;
    sizes(ctx, "4-tuple", &(a, b, c, d), &enc[4])?;
    sizes(ctx, "5-tuple", &(a, b, c, d, e), &enc[5])?;
    sizes(ctx, "6-tuple", &(a, b, c, d, e, f), &enc[6])?;
    let all = &enc[6];
    let got = guard(|| {
        let one: Amount = CallData::new(all).next_1();
        let two: (Amount, i16) = CallData::new(all).next_2();
        let three: (Amount, i16, Address) = CallData::new(all).next_3();
        let four: (Amount, i16, Address, bool) = CallData::new(all).next_4();
        let five: (Amount, i16, Address, bool, i64) = CallData::new(all).next_5();
        let six: (Amount, i16, Address, bool, i64, [u8; 3]) = CallData::new(all).next_6();
        let mut split = CallData::new(all);
        let (s1, s2): (Amount, i16) = split.next_2();
        let (s3, s4, s5): (Address, bool, i64) = split.next_3();
        let s6: [u8; 3] = split.next_1();
        let end = matches!(split.next(), SOption::None);
        one == a && two == (a, b) && three == (a, b, c) && four == (a, b, c, d) && five == (a, b, c, d, e) && six == (a, b, c, d, e, f) && (s1, s2, s3, s4, s5, s6) == (a, b, c, d, e, f) && end
    });
    match got {
        Ok(ok) => ensure!(ok, "the values read from {} differ from {parts:?}", show(all)),
        Err(p) => return violation(format!("reading {} panics at {}: {}", show(all), p.location, p.message)),
    }
    let unit: () = ();
    sizes(ctx, "unit", &unit, &[0x30])?;
    ctx.event("tuples");
    Ok(())
}

fn c22(ctx: &mut Ctx) -> R {
    let k = ctx.rng.below(11);
    match ctx.rng.below(10) {
        0..=2 => well_formed(ctx),
        3..=5 => malformed(ctx),
        x => {
            let before = ctx.rng.u64();
            match x {
                6 => any_type!(ctx, k, typed)?,
                7 => any_type!(ctx, k, optional)?,
                8 => match k {
                    0 => any_array!(ctx, i8),
                    1 => any_array!(ctx, u8),
                    2 => any_array!(ctx, i16),
                    3 => any_array!(ctx, u16),
                    4 => any_array!(ctx, i32),
                    5 => any_array!(ctx, u32),
                    6 => any_array!(ctx, i64),
                    7 => any_array!(ctx, u64),
                    8 => any_array!(ctx, bool),
                    9 => any_array!(ctx, Amount),
                    _ => any_array!(ctx, Address),
                }?,
                _ => tuples(ctx)?,
            }
            ctx.evaluated(Some(before));
            Ok(())
        }
    }
}

pub static C22: Spec = Spec {
    id: "C22",
    rule: "a case is a sequence of up to 8 random values (numbers at borders of their widths, arrays of 0 to 10), or a typed value, option, array or tuple, or malformed bytes; real encodings are compared with an independent writer of the documented format, real decodings with an independent reader, sizes with the bytes written; distinct by bytes",
    assumptions: &[],
    quick_cases: 500_000,
    quick_secs: 20,
    thorough_cases: 1_000_000,
    required: &["values", "sequences", "prefixes_rejected", "malformed_rejected", "damaged_but_valid", "typed_values", "optional_values", "typed_arrays", "tuples", "other_types_refused", "other_lengths_refused", "arrays_of_0", "arrays_of_8", "arrays_of_10"],
    case: c22,
    ..DEFAULT_SPEC
};
