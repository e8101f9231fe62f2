//! The C interface, as a host would use it.

use std::ffi::c_void;

use svm_codec::Codec;
use svm_runtime_ffi as api;
use svm_types::{BytesPrimitive, Context, Envelope, Receipt};

use crate::core::*;
use crate::engine::*;
use crate::p_state::A20;

/// The C view of `svm_result_t`.
#[repr(C)]
#[derive(Clone, Copy)]
struct Raw {
    receipt: *mut u8,
    error: *mut u8,
    size: u32,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Res {
    Ok,
    Receipt(Vec<u8>),
    Error(String),
}

impl Res {
    pub fn is_err(&self) -> bool {
        matches!(self, Res::Error(_))
    }
    pub fn brief(&self) -> String {
        match self {
            Res::Ok => "ok".into(),
            Res::Receipt(b) => format!("receipt of {} bytes {}", b.len(), hex::encode(&b[..b.len().min(80)])),
            Res::Error(e) => {
                let e = e.split_whitespace().collect::<Vec<_>>().join(" ");
                format!("error {}", e.chars().take(200).collect::<String>())
            }
        }
    }
}

/// Reads a result and frees it, one of the two documented ways.
pub fn take(r: api::svm_result_t, c_free: bool) -> R<Res> {
    let raw: Raw = unsafe { std::mem::transmute_copy(&r) };
    if !raw.receipt.is_null() && !raw.error.is_null() {
        std::mem::forget(r);
        return violation("a result holds both a receipt and an error");
    }
    let copy = |p: *mut u8| unsafe { std::slice::from_raw_parts(p, raw.size as usize) }.to_vec();
    let res = if !raw.error.is_null() {
        Res::Error(String::from_utf8_lossy(&copy(raw.error)).to_string())
    } else if !raw.receipt.is_null() {
        Res::Receipt(copy(raw.receipt))
    } else {
        Res::Ok
    };
    let held = HELD.with(|h| match h.borrow_mut().as_mut() {
        Some(v) if res != Res::Ok => {
            v.push(Held { raw, res: res.clone() });
            true
        }
        _ => false,
    });
    if held {
        std::mem::forget(r);
    } else if c_free {
        std::mem::forget(r);
        unsafe {
            libc::free(raw.receipt.cast());
            libc::free(raw.error.cast());
        }
    } else {
        unsafe { api::svm_free_result(r) };
    }
    Ok(res)
}

/// A result that is kept for a while before it is freed.
pub struct Held {
    raw: Raw,
    res: Res,
}

unsafe impl Send for Held {}

thread_local! {
    static HELD: std::cell::RefCell<Option<Vec<Held>>> = const { std::cell::RefCell::new(None) };
}

/// From now on, results of this thread are kept.
pub fn hold() {
    HELD.with(|h| *h.borrow_mut() = Some(vec![]));
}

/// The results kept since `hold`.
pub fn held() -> Vec<Held> {
    HELD.with(|h| h.borrow_mut().take()).unwrap_or_default()
}

impl Held {
    /// Checks that it still says what it said, and frees it.
    pub fn free(self, c_free: bool) -> R {
        let r: api::svm_result_t = unsafe { std::mem::transmute(self.raw) };
        let again = take(r, c_free)?;
        if again != self.res {
            return violation(format!("a result was {} and later became {}", self.res.brief(), again.brief()));
        }
        Ok(())
    }
}

/// The wire format of an envelope, as documented.
pub fn envelope(e: &Envelope) -> Vec<u8> {
    let mut v = e.principal().as_slice().to_vec();
    v.extend(e.amount().to_be_bytes());
    v.extend(e.nonce().to_be_bytes());
    v.extend(if e.gas_limit().is_some() { e.gas_limit().unwrap() } else { 0 }.to_be_bytes());
    v.extend(e.gas_fee().to_be_bytes());
    v
}

pub fn context(c: &Context) -> Vec<u8> {
    let mut v = c.tx_id().as_slice().to_vec();
    v.extend(c.layer().0.to_be_bytes());
    v.extend(c.state().as_slice());
    v
}

/// A buffer of exactly the given bytes, so that a sanitizer sees reads past its end.
pub fn exact(b: &[u8]) -> Box<[u8]> {
    b.to_vec().into_boxed_slice()
}

pub struct Ffi {
    pub ptr: *mut c_void,
    pub c_free: bool,
}

unsafe impl Send for Ffi {}

impl Ffi {
    pub fn create(uri: Option<&str>) -> R<Ffi> {
        match Self::try_create(uri)? {
            Ok(f) => Ok(f),
            Err(e) => violation(format!("a runtime can't be created: {}", e.brief())),
        }
    }

    pub fn try_create(uri: Option<&str>) -> R<Result<Ffi, Res>> {
        let mut ptr = std::ptr::null_mut();
        take(api::svm_init(), false)?;
        let r = unsafe {
            match uri {
                None => api::svm_runtime_create(&mut ptr, std::ptr::null(), 0),
                Some(u) => {
                    let b = exact(u.as_bytes());
                    api::svm_runtime_create(&mut ptr, b.as_ptr(), b.len() as u32)
                }
            }
        };
        match take(r, false)? {
            Res::Ok if !ptr.is_null() => Ok(Ok(Ffi { ptr, c_free: false })),
            Res::Ok => violation("svm_runtime_create succeeds without a runtime"),
            e => {
                if !ptr.is_null() {
                    return violation(format!("svm_runtime_create fails with {} but writes a runtime", e.brief()));
                }
                Ok(Err(e))
            }
        }
    }

    pub fn destroy(self) -> R<Res> {
        let f = self.c_free;
        take(api::svm_runtime_destroy(self.ptr), f)
    }

    pub fn validate(&mut self, kind: usize, msg: &[u8]) -> R<Res> {
        let m = exact(msg);
        let r = unsafe {
            match kind {
                0 => api::svm_validate_deploy(self.ptr, m.as_ptr(), m.len() as u32),
                1 => api::svm_validate_spawn(self.ptr, m.as_ptr(), m.len() as u32),
                _ => api::svm_validate_call(self.ptr, m.as_ptr(), m.len() as u32),
            }
        };
        take(r, self.c_free)
    }

    /// 0 deploy, 1 spawn, 2 call, 3 verify.
    pub fn run(&mut self, kind: usize, env: &[u8], msg: &[u8], ctx: &[u8]) -> R<Res> {
        let (e, m, c) = (exact(env), exact(msg), exact(ctx));
        let f = match kind {
            0 => api::svm_deploy,
            1 => api::svm_spawn,
            2 => api::svm_call,
            _ => api::svm_verify,
        };
        let r = unsafe { f(self.ptr, e.as_ptr(), m.as_ptr(), m.len() as u32, c.as_ptr()) };
        self.c_free = !self.c_free;
        take(r, self.c_free)
    }

    pub fn genesis(&mut self, at: &A20, balance: u64, counter: u128) -> R<Res> {
        let a = exact(at);
        let r = unsafe {
            api::svm_create_genesis_account(self.ptr, a.as_ptr(), balance, (counter >> 64) as u64, counter as u64)
        };
        take(r, self.c_free)
    }

    pub fn increase(&mut self, at: &A20, amount: u64) -> R<Res> {
        let a = exact(at);
        take(unsafe { api::svm_increase_balance(self.ptr, a.as_ptr(), amount) }, self.c_free)
    }

    pub fn transfer(&mut self, src: &A20, dst: &A20, amount: u64) -> R<Res> {
        let (s, d) = (exact(src), exact(dst));
        take(unsafe { api::svm_transfer(self.ptr, s.as_ptr(), d.as_ptr(), amount) }, self.c_free)
    }

    pub fn commit(&mut self) -> R<Res> {
        take(unsafe { api::svm_commit(self.ptr) }, self.c_free)
    }

    pub fn rewind(&mut self, l: u64) -> R<Res> {
        take(unsafe { api::svm_rewind(self.ptr, l) }, self.c_free)
    }

    pub fn account(&mut self, at: &A20) -> R<Option<(u64, u128, A20)>> {
        let a = exact(at);
        let mut out = api::svm_account::default();
        match take(unsafe { api::svm_get_account(self.ptr, a.as_ptr(), &mut out) }, self.c_free)? {
            Res::Ok => {
                if out.address != *at {
                    return violation(format!("svm_get_account({}) fills in address {}", hex::encode(at), hex::encode(out.address)));
                }
                let counter = ((out.counter_upper_bits as u128) << 64) | out.counter_lower_bits as u128;
                Ok(Some((out.balance, counter, out.template_addr)))
            }
            _ => Ok(None),
        }
    }

    pub fn uncommitted(&mut self) -> R<bool> {
        Ok(take(unsafe { api::svm_uncommitted_changes(self.ptr) }, self.c_free)?.is_err())
    }

    pub fn layer(&mut self) -> R<Option<(u64, Vec<u8>)>> {
        let mut hash = exact(&[0u8; 32]);
        let mut layer = 0u64;
        match take(unsafe { api::svm_layer_info(self.ptr, hash.as_mut_ptr(), &mut layer) }, self.c_free)? {
            Res::Ok => Ok(Some((layer, hash.to_vec()))),
            _ => Ok(None),
        }
    }

    pub fn exec(&mut self, t: &Txn) -> R<Res> {
        let (e, c) = (envelope(&t.env), context(&t.context));
        match &t.op {
            Op::Deploy { .. } => self.run(0, &e, &t.msg, &c),
            Op::Spawn { .. } => self.run(1, &e, &t.msg, &c),
            Op::Call { .. } => self.run(2, &e, &t.msg, &c),
            Op::Verify { .. } => self.run(3, &e, &t.msg, &c),
            Op::CreateAccount { .. } => harness("no such operation in the C interface"),
            Op::Genesis { at, balance, counter, .. } => self.genesis(at, *balance, *counter),
            Op::Increase { at, amount } => self.increase(at, *amount),
            Op::Transfer { src, dst, amount } => self.transfer(src, dst, *amount),
            Op::Commit => self.commit(),
            Op::Rewind(l) => self.rewind(*l),
        }
    }
}

/// The bytes that the Rust interface's answer is encoded as.
pub fn encoded(a: &Ans) -> Res {
    match a {
        Ans::Deploy(r) => Res::Receipt(r.encode_to_vec()),
        Ans::Spawn(r) => Res::Receipt(r.encode_to_vec()),
        Ans::Call(r) => Res::Receipt(r.encode_to_vec()),
        Ans::Done => Res::Ok,
        Ans::Refused(m) => Res::Error(m.clone()),
    }
}

/// Errors' wording isn't compared.
pub fn same(a: &Res, b: &Res) -> bool {
    match (a, b) {
        (Res::Error(_), Res::Error(_)) => true,
        _ => a == b,
    }
}

pub fn succeeded(r: &Res) -> bool {
    match r {
        Res::Ok => true,
        Res::Error(_) => false,
        Res::Receipt(b) => match guard(|| Receipt::decode_bytes(b)) {
            Ok(Ok(r)) => r.success(),
            _ => false,
        },
    }
}

/// Makes a plan usable through the C interface: a limit of 0 can't be told from no limit there.
pub fn for_ffi(mut t: Txn) -> Txn {
    if t.env.gas_limit().is_some() && t.env.gas_limit().unwrap() == 0 {
        let g = svm_types::Gas::with(1);
        match &mut t.op {
            Op::Deploy { gas, .. } | Op::Spawn { gas, .. } => *gas = Some(1),
            _ => {}
        }
        t.env = Envelope::new(*t.env.principal(), t.env.amount(), t.env.nonce(), g, t.env.gas_fee());
    }
    t
}
