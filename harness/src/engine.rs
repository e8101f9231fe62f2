//! The runtime, driven by random transactions over random contracts, against a reference model.

use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

use svm_codec::Codec;
use svm_layout::{FixedLayout, Layout};
use svm_runtime::{PriceResolverRegistry, Runtime, TemplatePriceCache};
use svm_state::GlobalState;
use svm_types::{
    Address, BytesPrimitive, CallReceipt, CodeSection, Context, CtorsSection, DataSection, DeployReceipt, Envelope,
    Gas, HeaderSection, Layer, ReceiptLog, RuntimeError, SpawnAccount, SpawnReceipt, State, Template, TemplateAddr,
    Transaction, TransactionId,
};

use crate::core::*;
use crate::ensure;
use crate::p_state::{observe, sorted, AcctM, Model, TemplM, World, A20};
use crate::refgas;
use crate::script::*;

thread_local! {
    static TOKIO: RefCell<Option<Arc<tokio::runtime::Runtime>>> = const { RefCell::new(None) };
}

/// The tokio runtime of the current case.
pub fn tokio_rt() -> Arc<tokio::runtime::Runtime> {
    TOKIO.with(|t| {
        t.borrow_mut()
            .get_or_insert_with(|| {
                Arc::new(tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap())
            })
            .clone()
    })
}

/// Ends the tasks (and with them the database threads) of the last case.
pub fn reset_tokio() {
    TOKIO.with(|t| *t.borrow_mut() = None);
}

pub fn open_runtime(uri: Option<&str>) -> Result<(Runtime, GlobalState), Panicked> {
    let rt = tokio_rt();
    guard(|| {
        let genesis = svm_genesis_config::GenesisConfig::mainnet();
        let gs = match uri {
            None => rt.block_on(GlobalState::in_memory(genesis)),
            Some(u) => rt.block_on(GlobalState::new(u, genesis)),
        };
        let price = TemplatePriceCache::new(PriceResolverRegistry::default());
        (Runtime::new(rt.clone(), gs.clone(), price), gs)
    })
}

pub fn b3(b: &[u8]) -> A20 {
    blake3::hash(b).as_bytes()[..20].try_into().unwrap()
}

pub fn addr(a: &A20) -> Address {
    Address::new(a)
}

pub fn a20(a: &Address) -> A20 {
    a.as_slice().try_into().unwrap()
}

#[derive(Clone)]
pub struct Deployed {
    pub c: Contract,
    pub wasm: Vec<u8>,
    pub msg: Vec<u8>,
    pub addr: A20,
    pub tm: TemplM,
    pub ctor_prices: BTreeMap<String, u64>,
}

/// Builds the deploy message of a contract.
pub fn package(r: &mut Rng, c: Contract) -> R<Deployed> {
    let wasm = c.wasm()?;
    let prices = match refgas::prices(&wasm) {
        Some(p) => p,
        None => return harness("a random contract can't be priced"),
    };
    let mut t = Template::new(
        CodeSection::new_fixed(wasm.clone(), 0),
        DataSection::with_layout(Layout::Fixed(FixedLayout::from_byte_sizes(c.first, &c.sizes))),
        CtorsSection::new(c.ctors.clone()),
    );
    if r.bool() {
        t = t.with_header(Some(HeaderSection::new(r.u32(), r.text(30), r.text(30))));
    }
    let msg = svm_codec::template::encode(&t);
    let sections = t.sections().clone();
    let addr = b3(&wasm);
    let mut tm = TemplM {
        core: sections.clone(),
        noncore: sections,
        first: c.first,
        sizes: c.sizes.clone(),
        tag: 0,
    };
    tm.tag = hash_bytes(format!("{:?}", sorted(&tm.core)).as_bytes());
    let ctor_prices = c.ctors.iter().map(|n| (n.clone(), prices.of(n).unwrap_or(0))).collect();
    Ok(Deployed { c, wasm, msg, addr, tm, ctor_prices })
}

#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    Deploy { d: usize, gas: Option<u64> },
    Spawn { template: A20, name: String, ctor: String, calldata: Vec<u8>, gas: Option<u64> },
    Call { target: A20, func: String, calldata: Vec<u8>, verifydata: Vec<u8> },
    Verify { target: A20, func: String, calldata: Vec<u8>, verifydata: Vec<u8> },
    CreateAccount { at: A20, template: A20, name: String, balance: u64, counter: u128 },
    Genesis { at: A20, name: String, balance: u64, counter: u128 },
    Increase { at: A20, amount: u64 },
    Transfer { src: A20, dst: A20, amount: u64 },
    Commit,
    Rewind(u64),
}

#[derive(Clone, Debug)]
pub struct Txn {
    pub op: Op,
    pub env: Envelope,
    pub context: Context,
    pub msg: Vec<u8>,
}

/// What a system answered.
#[derive(Clone, Debug, PartialEq)]
pub enum Ans {
    Deploy(DeployReceipt),
    Spawn(SpawnReceipt),
    Call(CallReceipt),
    /// An administrative operation went through.
    Done,
    /// It was refused without a receipt.
    Refused(String),
}

pub trait Backend {
    fn exec(&mut self, t: &Txn) -> Ans;
    fn account(&mut self, a: &A20) -> Option<(u64, u128, A20)>;
    fn uncommitted(&mut self) -> bool;
    /// Only asked when there is a layer.
    fn layer(&mut self) -> Option<(u64, Vec<u8>)>;
}

pub struct RustBackend {
    pub rt: Runtime,
    pub gs: GlobalState,
}

impl Backend for RustBackend {
    fn exec(&mut self, t: &Txn) -> Ans {
        let rt = &mut self.rt;
        let r = guard(|| -> Result<Ans, String> {
            let done = |r: Result<(), svm_types::RuntimeFailure>| match r {
                Ok(()) => Ok(Ans::Done),
                Err(e) => Err(format!("{e:?}")),
            };
            match &t.op {
                Op::Deploy { .. } => Ok(Ans::Deploy(rt.deploy(&t.env, &t.msg, &t.context))),
                Op::Spawn { .. } => Ok(Ans::Spawn(rt.spawn(&t.env, &t.msg, &t.context))),
                Op::Call { .. } => Ok(Ans::Call(rt.call(&t.env, &t.msg, &t.context))),
                Op::Verify { .. } => Ok(Ans::Call(rt.verify(&t.env, &t.msg, &t.context))),
                Op::CreateAccount { at, template, name, balance, counter } => done(rt.create_account(
                    &addr(at),
                    TemplateAddr::new(template),
                    name.clone(),
                    *balance,
                    *counter,
                )),
                Op::Genesis { at, name, balance, counter } => {
                    done(rt.create_genesis_account(&addr(at), name, *balance, *counter))
                }
                Op::Increase { at, amount } => done(rt.increase_balance(&addr(at), *amount)),
                Op::Transfer { src, dst, amount } => {
                    rt.transfer(&addr(src), &addr(dst), *amount);
                    Ok(Ans::Done)
                }
                Op::Commit => done(rt.commit()),
                Op::Rewind(l) => done(rt.rewind(Layer(*l))),
            }
        });
        match r {
            Ok(Ok(a)) => a,
            Ok(Err(e)) => Ans::Refused(e),
            Err(p) => Ans::Refused(format!("panic at {}: {}", p.location, p.message)),
        }
    }
    fn account(&mut self, a: &A20) -> Option<(u64, u128, A20)> {
        self.rt
            .get_account(&addr(a))
            .map(|(b, c, t)| (b, c, t.as_slice().try_into().unwrap()))
    }
    fn uncommitted(&mut self) -> bool {
        self.rt.has_uncommitted_changes().unwrap()
    }
    fn layer(&mut self) -> Option<(u64, Vec<u8>)> {
        let rt = &mut self.rt;
        guard(|| rt.current_layer()).ok().map(|(l, s)| (l.0, s.as_slice().to_vec()))
    }
}

/// What the model expects.
#[derive(Debug)]
pub enum Pred {
    Deployed { addr: A20, gas: u64 },
    /// A transaction that goes through.
    Success { world: World, logs: Vec<LogM>, ret: Vec<u8>, touched: BTreeSet<A20>, commits: bool, spawned: Option<A20>, transfers: u64 },
    Fail { err: RuntimeError, logs: Vec<LogM>, tag: &'static str },
    Done(World),
    /// Refused by a host function or by an administrative operation.
    Refuse { tag: &'static str },
}

pub struct Eng<B> {
    pub b: B,
    pub m: Model,
    pub fps: Vec<Vec<u8>>,
    pub addrs: Vec<A20>,
    pub contracts: Vec<Deployed>,
    pub taddrs: Vec<A20>,
    /// Templates that accounts were spawned from, with the account's address.
    pub own: &'static [&'static str],
    pub knobs: Knobs,
    pub mix: Mix,
    pub txs: u64,
}

/// How often each operation is drawn.
#[derive(Clone)]
pub struct Mix {
    pub deploy: usize,
    pub spawn: usize,
    pub call: usize,
    pub verify: usize,
    pub admin: usize,
    pub transfer: usize,
    pub commit: usize,
    pub rewind: usize,
    /// Percentage of calls that name something callable on an existing account.
    pub sane_pct: usize,
    /// Deploys and spawns with a limit, in percent.
    pub gas_pct: usize,
    pub create_account: bool,
}

impl Default for Mix {
    fn default() -> Self {
        Mix {
            deploy: 4,
            spawn: 12,
            call: 48,
            verify: 8,
            admin: 12,
            transfer: 6,
            commit: 5,
            rewind: 5,
            sane_pct: 85,
            gas_pct: 30,
            create_account: true,
        }
    }
}

pub fn sct_model() -> (A20, TemplM) {
    let (a, t) = svm_genesis_config::sct();
    let a: A20 = a.as_slice().try_into().unwrap();
    let s = t.sections().clone();
    (
        a,
        TemplM { core: s.clone(), noncore: s, first: 0, sizes: vec![], tag: 0 },
    )
}

/// Compares errors, except for their free-text messages.
pub fn same_error(a: &RuntimeError, b: &RuntimeError) -> bool {
    let strip = |e: &RuntimeError| -> RuntimeError {
        let mut e = e.clone();
        match &mut e {
            RuntimeError::CompilationFailed { msg, .. }
            | RuntimeError::InstantiationFailed { msg, .. }
            | RuntimeError::FuncFailed { msg, .. }
            | RuntimeError::FuncNotAllowed { msg, .. } => msg.clear(),
            _ => {}
        }
        e
    };
    strip(a) == strip(b)
}

impl Eng<RustBackend> {
    pub fn new_rust(ctx: &mut Ctx, own: &'static [&'static str], uri: Option<&str>, knobs: Knobs, mix: Mix) -> R<Self> {
        let (rt, gs) = match open_runtime(uri) {
            Ok(x) => x,
            Err(p) => return violation(format!("creating a runtime panics at {}: {}", p.location, p.message)),
        };
        Eng::new(ctx, RustBackend { rt, gs }, own, knobs, mix)
    }

    /// Everything readable, through the global state itself.
    pub fn observe_all(&self, ctx: &mut Ctx, tags: &[&'static str], what: &str) -> R {
        let mut addrs = self.addrs.clone();
        addrs.extend(self.contracts.iter().map(|d| b3(&d.addr)));
        match observe(ctx, &self.b.gs, &self.m.working, &addrs, &self.taddrs, what) {
            Err(Fail::Violation(m)) => self.tag(tags, m),
            x => x,
        }
    }

    pub fn observe_layer(&self, ctx: &mut Ctx, l: usize, tags: &[&'static str], what: &str) -> R {
        let mut gs = self.b.gs.clone();
        *gs.layer_query_parameter_mut() = Some(Layer(l as u64));
        let mut addrs = self.addrs.clone();
        addrs.extend(self.contracts.iter().map(|d| b3(&d.addr)));
        match observe(ctx, &gs, &self.m.layers[l], &addrs, &self.taddrs, what) {
            Err(Fail::Violation(m)) => self.tag(tags, m),
            x => x,
        }
    }

    /// One operation with all comparisons.
    pub fn step(&mut self, ctx: &mut Ctx, t: &Txn) -> R {
        let layers = self.m.layers.len();
        let ok = self.apply(ctx, t)?;
        let tags: &[&'static str] = match (&t.op, ok) {
            (_, true) => &["output", "state"],
            (Op::Deploy { .. } | Op::Spawn { .. }, false) => &["atomic", "state", "gas"],
            _ => &["atomic", "state"],
        };
        let what = format!("after {}", short(&t.op));
        if ctx.rng.pct(if ok { 30 } else { 60 }) {
            self.observe_all(ctx, tags, &what)?;
        }
        if self.m.layers.len() > layers && ctx.rng.pct(25) {
            let l = self.m.layers.len() - 1;
            self.observe_layer(ctx, l, &["atomic"], &format!("{what}: in the new layer"))?;
        }
        Ok(())
    }
}

pub fn short(op: &Op) -> String {
    let mut s = format!("{op:?}");
    if s.len() > 300 {
        s.truncate((0..=300).rev().find(|&i| s.is_char_boundary(i)).unwrap());
        s.push_str("..");
    }
    s
}

impl<B: Backend> Eng<B> {
    pub fn new(ctx: &mut Ctx, b: B, own: &'static [&'static str], knobs: Knobs, mix: Mix) -> R<Self> {
        let r = &mut ctx.rng;
        let mut addrs: Vec<A20> = vec![];
        let n = r.range(4, 7);
        let base: A20 = r.bytes(20).try_into().unwrap();
        while addrs.len() < n {
            let mut a = base;
            if r.pct(40) {
                a = r.bytes(20).try_into().unwrap();
            } else {
                let i = r.below(20);
                a[i] ^= 1 << r.below(8);
            }
            if !addrs.contains(&a) {
                addrs.push(a);
            }
        }
        let mut contracts = vec![];
        for i in 0..r.range(2, 3) {
            let c = Contract::random(r, &addrs, i + 1, &knobs);
            contracts.push(package(r, c)?);
        }
        let (sct, tm) = sct_model();
        let mut base = World::default();
        base.templates.insert(sct, tm);
        let mut taddrs: Vec<A20> = contracts.iter().map(|d| d.addr).collect();
        taddrs.push(sct);
        let mut e = Eng {
            b,
            m: Model::new(base),
            fps: vec![],
            addrs,
            contracts,
            taddrs,
            own,
            knobs,
            mix,
            txs: 0,
        };
        // Something to work with.
        for d in 0..e.contracts.len() {
            let t = e.txn(ctx, Op::Deploy { d, gas: None });
            e.apply(ctx, &t)?;
        }
        for i in 0..e.addrs.len() {
            let at = e.addrs[i];
            let (mut name, balance, counter) = (ctx.rng.text(20), e.balance(ctx), ctx.rng.big128());
            if !e.mix.create_account {
                // As in the C interface
                name.clear();
            }
            let op = if i == 0 || !e.mix.create_account && i < 4 || (i > 3 && ctx.rng.pct(20)) {
                Op::Genesis { at, name, balance, counter }
            } else if i <= e.contracts.len() || ctx.rng.pct(60) {
                if !e.mix.create_account {
                    continue;
                }
                let template = if i <= e.contracts.len() { e.contracts[i - 1].addr } else { ctx.rng.pick(&e.contracts).addr };
                Op::CreateAccount { at, template, name, balance, counter }
            } else {
                continue;
            };
            let t = e.txn(ctx, op);
            e.apply(ctx, &t)?;
        }
        if ctx.rng.bool() {
            let t = e.txn(ctx, Op::Commit);
            e.apply(ctx, &t)?;
        }
        Ok(e)
    }

    fn balance(&self, ctx: &mut Ctx) -> u64 {
        match ctx.rng.below(4) {
            0 => ctx.rng.big(),
            1 if ctx.rng.bool() => ctx.rng.below(3) as u64,
            _ => ctx.rng.below(500) as u64,
        }
    }

    pub fn tag<T>(&self, tags: &[&'static str], msg: String) -> R<T> {
        if tags.iter().any(|t| self.own.contains(t)) {
            violation(format!("[{}] {msg}", tags.join(",")))
        } else {
            Err(Fail::Skip(msg))
        }
    }

    pub fn contract_of(&self, template: &A20) -> Option<&Deployed> {
        self.contracts.iter().find(|d| d.addr == *template)
    }

    pub fn txn(&self, ctx: &mut Ctx, op: Op) -> Txn {
        let r = &mut ctx.rng;
        let gas = match &op {
            Op::Deploy { gas, .. } | Op::Spawn { gas, .. } => *gas,
            _ => match r.below(3) {
                0 => Some(r.big()),
                _ => None,
            },
        };
        let principal: A20 = if r.bool() { *r.pick(&self.addrs) } else { r.bytes(20).try_into().unwrap() };
        let env = Envelope::new(
            addr(&principal),
            r.big(),
            r.big128(),
            gas.map(Gas::with).unwrap_or_else(Gas::new),
            r.big(),
        );
        let context = Context::new(
            TransactionId::new(&r.bytes(32)),
            Layer(r.big()),
            State::new(&r.bytes(32)),
        );
        let msg = self.message(&op);
        Txn { op, env, context, msg }
    }

    pub fn message(&self, op: &Op) -> Vec<u8> {
        match op {
            Op::Deploy { d, .. } => self.contracts[*d].msg.clone(),
            Op::Spawn { template, name, ctor, calldata, .. } => {
                SpawnAccount::new(0, &TemplateAddr::new(template), name, ctor, calldata.clone()).encode_to_vec()
            }
            Op::Call { target, func, calldata, verifydata } | Op::Verify { target, func, calldata, verifydata } => {
                Transaction {
                    version: 0,
                    target: addr(target),
                    func_name: func.clone(),
                    calldata: calldata.clone(),
                    verifydata: verifydata.clone(),
                }
                .encode_to_vec()
            }
            _ => vec![],
        }
    }

    pub fn accounts(&self) -> Vec<A20> {
        self.m.working.accounts.keys().copied().collect()
    }

    pub fn any_addr(&self, r: &mut Rng) -> A20 {
        let acc = self.accounts();
        if !acc.is_empty() && r.pct(75) {
            *r.pick(&acc)
        } else {
            *r.pick(&self.addrs)
        }
    }

    pub fn amount(&self, r: &mut Rng, src: &A20, dst: &A20) -> u64 {
        let sb = self.m.working.accounts.get(src).map(|m| m.balance).unwrap_or(0);
        let db = self.m.working.accounts.get(dst).map(|m| m.balance).unwrap_or(0);
        match r.below(9) {
            0 => 0,
            1 => sb,
            2 => sb.wrapping_add(1),
            3 => u64::MAX - db,
            4 => (u64::MAX - db).wrapping_add(1),
            5 => r.big(),
            6 => sb / 2,
            _ => r.below(20) as u64 + 1,
        }
    }

    /// Calldata that a function can work with.
    pub fn calldata(&self, r: &mut Rng, target: &A20, acts: &[Act], c: &Contract) -> Vec<u8> {
        if uses_transfer_cd(c, acts) || r.pct(10) {
            let src = if r.pct(80) { *target } else { self.any_addr(r) };
            let dst = self.any_addr(r);
            let mut v = src.to_vec();
            v.extend(dst);
            v.extend(self.amount(r, &src, &dst).to_le_bytes());
            let n = if r.pct(70) { 0 } else { r.below(200) };
            v.extend(r.bytes(n));
            v
        } else {
            let n = match r.below(4) {
                0 => 0,
                1 => 255,
                _ => r.range(1, 60),
            };
            r.bytes(n)
        }
    }

    pub fn random_op(&mut self, ctx: &mut Ctx) -> Op {
        let r = &mut ctx.rng;
        let mix = self.mix.clone();
        let total = mix.deploy + mix.spawn + mix.call + mix.verify + mix.admin + mix.transfer + mix.commit + mix.rewind;
        let mut x = r.below(total);
        let mut hit = |w: usize| {
            if x < w {
                x = usize::MAX;
                true
            } else {
                if x != usize::MAX {
                    x -= w;
                }
                false
            }
        };
        if hit(mix.deploy) {
            let d = r.below(self.contracts.len());
            let price = 1000 * self.contracts[d].msg.len() as u64;
            let gas = if r.pct(mix.gas_pct) { Some(around(r, price)) } else { None };
            return Op::Deploy { d, gas };
        }
        if hit(mix.spawn) {
            return self.random_spawn(ctx);
        }
        if hit(mix.call) || hit(mix.verify) {
            let verify = ctx.rng.below(mix.call + mix.verify) < mix.verify;
            return self.random_call(ctx, verify);
        }
        let r = &mut ctx.rng;
        if hit(mix.admin) {
            let missing: Vec<A20> =
                self.addrs.iter().filter(|a| !self.m.working.accounts.contains_key(*a)).copied().collect();
            if !missing.is_empty() && r.pct(30) {
                let at = *r.pick(&missing);
                let (mut name, counter) = (r.text(20), r.big128());
                if !mix.create_account {
                    name.clear();
                }
                let balance = self.balance(ctx);
                let r = &mut ctx.rng;
                if r.bool() && mix.create_account {
                    let known: Vec<A20> =
                        self.taddrs.iter().filter(|t| self.m.working.templates.contains_key(*t)).copied().collect();
                    return Op::CreateAccount { at, template: *r.pick(&known), name, balance, counter };
                }
                return Op::Genesis { at, name, balance, counter };
            }
            let at = self.any_addr(r);
            let amount = match r.below(4) {
                0 => r.big(),
                1 => u64::MAX - self.m.working.accounts.get(&at).map(|m| m.balance).unwrap_or(0),
                _ => r.below(1000) as u64,
            };
            return Op::Increase { at, amount };
        }
        if hit(mix.transfer) {
            let (src, dst) = (self.any_addr(r), self.any_addr(r));
            let amount = self.amount(r, &src, &dst);
            return Op::Transfer { src, dst, amount };
        }
        if hit(mix.commit) {
            return Op::Commit;
        }
        if !self.m.layers.is_empty() && !self.m.dirty && !self.m.has_saved {
            let n = self.m.layers.len();
            let l = if r.pct(80) { n - 1 - r.below(n.min(3)) } else { r.below(n) };
            return Op::Rewind(l as u64);
        }
        Op::Commit
    }

    pub fn random_spawn(&mut self, ctx: &mut Ctx) -> Op {
        let r = &mut ctx.rng;
        // A template that was already spawned from isn't spawned from again.
        let fresh: Vec<usize> = (0..self.contracts.len())
            .filter(|&i| !self.m.working.accounts.contains_key(&b3(&self.contracts[i].addr)))
            .collect();
        let name = r.text(40);
        if fresh.is_empty() || !r.pct(self.mix.sane_pct) {
            match r.below(3) {
                0 => {
                    let template = r.bytes(20).try_into().unwrap();
                    let ctor = r.ident(8);
                    return Op::Spawn { template, name, ctor, calldata: vec![1], gas: None };
                }
                1 => {
                    // A function that isn't a constructor
                    let d = r.pick(&self.contracts).clone();
                    let ctor = match r.below(4) {
                        0 => "svm_alloc".to_string(),
                        1 => "svm_verify".to_string(),
                        2 => "nothing".to_string(),
                        _ => d.c.funcs.iter().find(|f| !f.ctor).map(|f| f.name.clone()).unwrap(),
                    };
                    let gas = if r.bool() { Some(r.big()) } else { None };
                    return Op::Spawn { template: d.addr, name, ctor, calldata: r.bytes(3), gas };
                }
                _ if fresh.is_empty() => return Op::Commit,
                _ => {}
            }
        }
        let r = &mut ctx.rng;
        let d = self.contracts[*r.pick(&fresh)].clone();
        let f = {
            let cs: Vec<&Func> = d.c.funcs.iter().filter(|f| f.ctor).collect();
            (*r.pick(&cs)).clone()
        };
        let calldata = self.calldata(r, &b3(&d.addr), &f.acts, &d.c);
        let mut op = Op::Spawn { template: d.addr, name, ctor: f.name.clone(), calldata, gas: None };
        if r.pct(self.mix.gas_pct) {
            let price = 1000 * self.message(&op).len() as u64 + d.ctor_prices[&f.name];
            if let Op::Spawn { gas, .. } = &mut op {
                *gas = Some(around(r, price));
            }
        }
        op
    }

    pub fn random_call(&mut self, ctx: &mut Ctx, verify: bool) -> Op {
        let r = &mut ctx.rng;
        let callable: Vec<A20> = self
            .m
            .working
            .accounts
            .iter()
            .filter(|(_, m)| self.contract_of(&m.template).is_some())
            .map(|(a, _)| *a)
            .collect();
        if callable.is_empty() || !r.pct(self.mix.sane_pct) {
            let target = if r.pct(50) && !callable.is_empty() { *r.pick(&callable) } else { self.any_addr(r) };
            let names = ["f0", "f1", "svm_alloc", "svm_verify", "memory", "notafunc", "nothing", "badsig", "badret", "", "send"];
            let func = r.pick(&names).to_string();
            // Verifying an account of the genesis template is left out: its code isn't modelled.
            let sct = self.m.working.accounts.get(&target).map(|m| self.contract_of(&m.template).is_none());
            let calldata = match self.m.working.accounts.get(&target).and_then(|m| self.contract_of(&m.template)) {
                Some(d) => {
                    let acts: Vec<Act> = d.c.funcs.iter().find(|f| f.name == func).map(|f| f.acts.clone()).unwrap_or_default();
                    let d = d.c.clone();
                    self.calldata(r, &target, &acts, &d)
                }
                None => r.bytes(5),
            };
            let verifydata = if r.bool() { vec![] } else { r.bytes(9) };
            return if verify && sct != Some(true) {
                Op::Verify { target, func, calldata, verifydata }
            } else {
                Op::Call { target, func, calldata, verifydata }
            };
        }
        let target = *r.pick(&callable);
        let d = self.contract_of(&self.m.working.accounts[&target].template).unwrap().clone();
        let fs: Vec<&Func> = d.c.funcs.iter().filter(|f| !f.ctor).collect();
        let f = *r.pick(&fs);
        let calldata = self.calldata(r, &target, &f.acts, &d.c);
        let verifydata = match r.below(3) {
            0 => vec![],
            1 => r.bytes(255),
            _ => {
                let n = r.range(1, 40);
                r.bytes(n)
            }
        };
        if verify {
            Op::Verify { target, func: f.name.clone(), calldata, verifydata }
        } else {
            Op::Call { target, func: f.name.clone(), calldata, verifydata }
        }
    }

    // -----------------------------------------------------------------------------------------

    pub fn predict(&self, t: &Txn) -> Pred {
        let w = &self.m.working;
        match &t.op {
            Op::Deploy { d, gas } => {
                let price = 1000 * t.msg.len() as u64;
                if gas.map_or(false, |g| g < price) {
                    return Pred::Fail { err: RuntimeError::OOG, logs: vec![], tag: "gas" };
                }
                Pred::Deployed { addr: self.contracts[*d].addr, gas: price }
            }
            Op::Spawn { template, name, ctor, calldata, gas } => {
                if !w.templates.contains_key(template) {
                    let err = RuntimeError::TemplateNotFound(TemplateAddr::new(template));
                    return Pred::Fail { err, logs: vec![], tag: "access" };
                }
                let not_ctor = Pred::Fail {
                    err: RuntimeError::FuncNotCtor { template: TemplateAddr::new(template), func: ctor.clone() },
                    logs: vec![],
                    tag: "access",
                };
                let d = match self.contract_of(template) {
                    Some(d) => d,
                    None => return not_ctor,
                };
                if !d.c.ctors.contains(ctor) {
                    return not_ctor;
                }
                let price = (1000 * t.msg.len() as u64).saturating_add(d.ctor_prices[ctor]);
                if gas.map_or(false, |g| g <= price) {
                    return Pred::Fail { err: RuntimeError::OOG, logs: vec![], tag: "gas" };
                }
                let at = b3(template);
                let mut world = w.clone();
                let vars = w.accounts.get(&at).map(|m| m.vars.clone()).unwrap_or_default();
                world.accounts.insert(
                    at,
                    AcctM { name: name.clone(), template: *template, balance: 0, counter: 0, vars },
                );
                let acts = d.c.funcs.iter().find(|f| f.name == *ctor).map(|f| f.acts.clone()).unwrap_or_default();
                let mut p = self.run_model(d, world, at, ctor, &acts, calldata, false);
                if let Pred::Success { touched, spawned, .. } = &mut p {
                    touched.insert(at);
                    touched.insert(a20(t.env.principal()));
                    *spawned = Some(at);
                }
                p
            }
            Op::Call { target, func, calldata, .. } => self.predict_call(target, func, calldata, false),
            Op::Verify { target, verifydata, .. } => self.predict_call(target, "svm_verify", verifydata, true),
            Op::CreateAccount { at, template, name, balance, counter } => {
                let mut w = w.clone();
                w.accounts.insert(
                    *at,
                    AcctM { name: name.clone(), template: *template, balance: *balance, counter: *counter, vars: BTreeMap::new() },
                );
                Pred::Done(w)
            }
            Op::Genesis { at, name, balance, counter } => {
                let mut w = w.clone();
                w.accounts.insert(
                    *at,
                    AcctM {
                        name: name.clone(),
                        template: *self.taddrs.last().unwrap(),
                        balance: *balance,
                        counter: *counter,
                        vars: BTreeMap::new(),
                    },
                );
                Pred::Done(w)
            }
            Op::Increase { at, amount } => match w.accounts.get(at).and_then(|m| m.balance.checked_add(*amount)) {
                Some(b) => {
                    let mut w = w.clone();
                    w.accounts.get_mut(at).unwrap().balance = b;
                    Pred::Done(w)
                }
                None => Pred::Refuse { tag: "coins" },
            },
            Op::Transfer { src, dst, amount } => {
                let refuse = Pred::Refuse { tag: "coins" };
                let (s, d) = match (w.accounts.get(src), w.accounts.get(dst)) {
                    (Some(s), Some(d)) => (s.balance, d.balance),
                    _ => return refuse,
                };
                if s < *amount {
                    return refuse;
                }
                let mut w = w.clone();
                if src != dst {
                    match d.checked_add(*amount) {
                        Some(d) => {
                            w.accounts.get_mut(src).unwrap().balance = s - amount;
                            w.accounts.get_mut(dst).unwrap().balance = d;
                        }
                        None => return refuse,
                    }
                }
                Pred::Done(w)
            }
            Op::Commit => Pred::Done(w.clone()),
            Op::Rewind(l) => {
                if (*l as usize) < self.m.layers.len() {
                    Pred::Done(self.m.layers[*l as usize].clone())
                } else {
                    Pred::Refuse { tag: "atomic" }
                }
            }
        }
    }

    fn predict_call(&self, target: &A20, func: &str, data: &[u8], verify: bool) -> Pred {
        let w = &self.m.working;
        let m = match w.accounts.get(target) {
            Some(m) => m,
            None => {
                return Pred::Fail { err: RuntimeError::AccountNotFound(addr(target)), logs: vec![], tag: "access" }
            }
        };
        let (ta, fa) = (TemplateAddr::new(&m.template), addr(target));
        let fail = |err: RuntimeError| Pred::Fail { err, logs: vec![], tag: "access" };
        let not_found = || RuntimeError::FuncNotFound { target: fa, template: ta.clone(), func: func.to_string() };
        let bad_sig = || RuntimeError::FuncInvalidSignature { target: fa, template: ta.clone(), func: func.to_string() };
        let d = match self.contract_of(&m.template) {
            Some(d) => d,
            None => {
                // The genesis template: it exports no functions of its own.
                return fail(if func == "svm_alloc" || func == "svm_verify" { bad_sig() } else { not_found() });
            }
        };
        if !verify && d.c.ctors.iter().any(|c| c == func) {
            return fail(RuntimeError::FuncNotAllowed {
                target: fa,
                template: ta.clone(),
                func: func.to_string(),
                msg: String::new(),
            });
        }
        let acts = if verify {
            d.c.verify.clone()
        } else {
            match d.c.funcs.iter().find(|f| f.name == func) {
                Some(f) => f.acts.clone(),
                None => {
                    return fail(match func {
                        "svm_alloc" | "svm_verify" | "badsig" | "badret" => bad_sig(),
                        _ => not_found(),
                    })
                }
            }
        };
        self.run_model(d, w.clone(), *target, func, &acts, data, verify)
    }

    fn run_model(&self, d: &Deployed, world: World, target: A20, func: &str, acts: &[Act], data: &[u8], denied: bool) -> Pred {
        if !data.is_empty() {
            if let AllocKind::Script(_) = d.c.alloc {
                return Pred::Refuse { tag: "access" };
            }
        }
        let mut e = Exec::new(&d.c, world, target, &self.addrs, data, denied);
        match e.run(acts) {
            Flow::Next | Flow::Return => Pred::Success {
                world: e.world,
                logs: e.logs,
                ret: e.ret.unwrap_or_default(),
                touched: e.touched,
                commits: !denied,
                spawned: None,
                transfers: e.transfers,
            },
            Flow::Trap => Pred::Fail {
                err: RuntimeError::FuncFailed {
                    target: addr(&target),
                    template: TemplateAddr::new(&d.addr),
                    func: func.to_string(),
                    msg: String::new(),
                },
                logs: e.logs,
                tag: "output",
            },
            Flow::Host => Pred::Refuse { tag: e.why },
        }
    }

    /// Runs one operation and compares the answer, the balances and the layers; `true` if it went through.
    pub fn apply(&mut self, ctx: &mut Ctx, t: &Txn) -> R<bool> {
        let pred = self.predict(t);
        let ans = self.b.exec(t);
        self.txs += 1;
        ctx.log(|| format!("{} -> {}", short(&t.op), brief(&ans)));
        let is_tx = matches!(t.op, Op::Spawn { .. } | Op::Call { .. } | Op::Verify { .. });
        // Transactions that get as far as execution save what was there before.
        let executes = match (&pred, &t.op) {
            (Pred::Success { .. }, _) => true,
            (Pred::Refuse { .. }, _) => is_tx,
            (Pred::Fail { err, .. }, Op::Spawn { .. }) => matches!(err, RuntimeError::FuncFailed { .. }),
            (Pred::Fail { err, .. }, Op::Call { .. } | Op::Verify { .. }) => !matches!(err, RuntimeError::AccountNotFound(_)),
            _ => false,
        };
        let kind = match &t.op {
            Op::Deploy { .. } => "deploys",
            Op::Spawn { .. } => "spawns",
            Op::Call { .. } => "calls",
            Op::Verify { .. } => "verifies",
            Op::Commit => "commits",
            Op::Rewind(_) => "rewinds",
            Op::Transfer { .. } => "host_transfers",
            _ => "admin_ops",
        };
        let layers_before = self.m.layers.len();
        let old_fp = self.fps.last().cloned();
        let ok = match pred {
            Pred::Deployed { addr, gas } => {
                let r = match &ans {
                    Ans::Deploy(r) => r,
                    x => return self.tag(&["gas", "output"], format!("deploy: {x:?}")),
                };
                if !r.success {
                    let tags: &[&'static str] = if r.error == Some(RuntimeError::OOG) { &["gas"] } else { &["output", "gas"] };
                    return self.tag(tags, format!("deploy with limit {:?}, price {gas}: fails with {:?}", t.env.gas_limit(), r.error));
                }
                if r.gas_used != Gas::with(gas) {
                    return self.tag(&["gas"], format!("deploy uses {:?}, expected {gas}", r.gas_used));
                }
                if r.addr.as_ref().map(|a| a.as_slice() == addr) != Some(true) {
                    return self.tag(&["output"], format!("template address {:?}, expected {}", r.addr, hex::encode(addr)));
                }
                if !r.logs.is_empty() || r.error.is_some() || r.version != 0 {
                    return self.tag(&["output"], format!("deploy receipt {r:?}"));
                }
                let tm = self.contract_of(&addr).unwrap().tm.clone();
                self.m.working.templates.insert(addr, tm);
                self.m.dirty = true;
                true
            }
            Pred::Success { world, logs, ret, touched, commits, spawned, transfers } => {
                self.check_success(ctx, t, &ans, &logs, &ret, &touched, commits, spawned, transfers)?;
                ctx.events("coin_transfers", transfers);
                if executes {
                    self.m.checkpoint();
                }
                if commits {
                    let st = match &ans {
                        Ans::Call(r) => r.new_state.as_ref().unwrap().as_slice().to_vec(),
                        Ans::Spawn(r) => r.init_state.as_ref().unwrap().as_slice().to_vec(),
                        _ => unreachable!(),
                    };
                    self.m.working = world;
                    self.m.saved = self.m.working.clone();
                    self.m.dirty = false;
                    self.m.commit();
                    self.fps.push(st);
                    ctx.event("committing_txs");
                }
                true
            }
            Pred::Fail { err, logs, tag } => {
                let (success, got, glogs, extra) = match &ans {
                    Ans::Deploy(r) => (r.success, r.error.clone(), r.logs.clone(), r.addr.is_some() || r.gas_used != Gas::new()),
                    Ans::Spawn(r) => (
                        r.success,
                        r.error.clone(),
                        r.logs.clone(),
                        r.account_addr.is_some()
                            || r.init_state.is_some()
                            || r.returndata.is_some()
                            || !r.touched_accounts.is_empty()
                            || r.gas_used != Gas::new(),
                    ),
                    Ans::Call(r) => (
                        r.success,
                        r.error.clone(),
                        r.logs.clone(),
                        r.new_state.is_some()
                            || r.returndata.is_some()
                            || !r.touched_accounts.is_empty()
                            || r.gas_used != Gas::new(),
                    ),
                    x => return self.tag(&[tag, "output"], format!("{}: expected to fail with {err:?}, got {x:?}", short(&t.op))),
                };
                if success {
                    return self.tag(&[tag], format!("{} succeeds, expected to fail with {err:?}", short(&t.op)));
                }
                match &got {
                    Some(g) if same_error(g, &err) => {}
                    _ => {
                        let mut tags = vec![tag, "output"];
                        if got == Some(RuntimeError::OOG) || err == RuntimeError::OOG {
                            tags.push("gas");
                        }
                        return self.tag(&tags, format!("{} fails with {got:?}, expected {err:?}", short(&t.op)));
                    }
                }
                if extra {
                    return self.tag(&["output"], format!("receipt of a failed transaction: {}", brief(&ans)));
                }
                self.check_logs(&glogs, &logs)?;
                if executes {
                    self.m.checkpoint();
                }
                ctx.event(&format!("failed_{kind}"));
                ctx.event(match tag {
                    "gas" => "out_of_gas",
                    "access" => "denied",
                    _ => "traps",
                });
                false
            }
            Pred::Done(w) => {
                if ans != Ans::Done {
                    let tag = match t.op {
                        Op::Commit | Op::Rewind(_) => "atomic",
                        _ => "coins",
                    };
                    return self.tag(&[tag], format!("{} is refused: {}", short(&t.op), brief(&ans)));
                }
                match &t.op {
                    Op::Commit => {
                        self.m.checkpoint();
                        self.m.commit();
                        self.fps.push(vec![]);
                    }
                    Op::Rewind(l) => {
                        self.m.rewind(*l as usize);
                        self.fps.truncate(*l as usize + 1);
                    }
                    Op::Transfer { src, dst, .. } if src == dst => {}
                    _ => {
                        self.m.working = w;
                        self.m.dirty = true;
                    }
                }
                true
            }
            Pred::Refuse { tag } => {
                let refused = match &ans {
                    Ans::Refused(_) => true,
                    Ans::Call(r) => !r.success,
                    Ans::Spawn(r) => !r.success,
                    _ => false,
                };
                if !refused {
                    return self.tag(&[tag], format!("{} goes through: {}", short(&t.op), brief(&ans)));
                }
                if executes {
                    self.m.checkpoint();
                }
                ctx.event(match tag {
                    "coins" => "refused_transfers",
                    "access" => "refused_access",
                    _ => "refused_vmcalls",
                });
                ctx.event(&format!("failed_{kind}"));
                false
            }
        };
        ctx.event(kind);
        if ok {
            ctx.event(&format!("ok_{kind}"));
        }
        self.compare_balances(ok, t)?;
        self.compare_layers(layers_before, old_fp, t)?;
        Ok(ok)
    }

    pub fn compare_balances(&mut self, ok: bool, t: &Txn) -> R {
        let mut all: BTreeSet<A20> = self.addrs.iter().copied().collect();
        all.extend(self.contracts.iter().map(|d| b3(&d.addr)));
        for a in all {
            let got = self.b.account(&a);
            let want = self.m.working.accounts.get(&a).map(|m| (m.balance, m.counter, m.template));
            if got != want {
                let mut tags = vec![if ok { "state" } else { "atomic" }];
                if got.map(|g| g.0) != want.map(|g| g.0) {
                    tags.push("coins");
                } else {
                    tags.push("output");
                }
                return self.tag(&tags, format!("after {}: account {} is {got:?}, expected {want:?}", short(&t.op), hex::encode(a)));
            }
        }
        Ok(())
    }

    fn compare_layers(&mut self, before: usize, old_fp: Option<Vec<u8>>, t: &Txn) -> R {
        let want = self.m.dirty || self.m.has_saved;
        let got = self.b.uncommitted();
        if got != want {
            return self.tag(&["atomic"], format!("after {}: uncommitted changes: {got}, expected {want}", short(&t.op)));
        }
        if self.m.layers.is_empty() {
            return Ok(());
        }
        let (l, fp) = match self.b.layer() {
            Some(x) => x,
            None => return self.tag(&["atomic"], format!("after {}: the current layer can't be read", short(&t.op))),
        };
        let n = self.m.layers.len() as u64 - 1;
        if l != n {
            return self.tag(&["atomic"], format!("after {}: the current layer is {l}, expected {n} (was {})", short(&t.op), before as i64 - 1));
        }
        let top = self.fps.last_mut().unwrap();
        if top.is_empty() {
            *top = fp;
        } else if *top != fp {
            let msg = format!(
                "after {}: the layer's fingerprint is {}, expected {} (was {:?})",
                short(&t.op),
                hex::encode(&fp),
                hex::encode(&*top),
                old_fp.map(hex::encode)
            );
            return self.tag(&["atomic", "output"], msg);
        }
        Ok(())
    }

    fn check_logs(&self, got: &[ReceiptLog], want: &[LogM]) -> R {
        let g: Vec<&[u8]> = got.iter().map(|l| l.as_bytes()).collect();
        if g.len() != want.len() {
            return self.tag(&["output"], format!("{} logs {g:?}, expected {want:?}", g.len()));
        }
        let mut regions: Vec<(u32, u32)> = vec![];
        for (g, w) in g.iter().zip(want) {
            match w {
                LogM::Bytes(b) => {
                    if g != b {
                        return self.tag(&["output"], format!("log {g:?}, expected {b:?}"));
                    }
                }
                LogM::Ptr(size) => {
                    let p = match <[u8; 4]>::try_from(*g) {
                        Ok(b) => u32::from_le_bytes(b),
                        Err(_) => return self.tag(&["output"], format!("log {g:?}, expected a pointer")),
                    };
                    let end = p as u64 + *size as u64;
                    if p == 0 || end > MEM as u64 {
                        return self.tag(&["output"], format!("{size} bytes allocated at {p}"));
                    }
                    for (q, n) in &regions {
                        if p < q + n && *q < p + size {
                            return self.tag(&["output"], format!("allocations {q}+{n} and {p}+{size} overlap"));
                        }
                    }
                    regions.push((p, *size));
                }
            }
        }
        Ok(())
    }

    #[allow(clippy::too_many_arguments)]
    fn check_success(
        &self,
        ctx: &mut Ctx,
        t: &Txn,
        ans: &Ans,
        logs: &[LogM],
        ret: &[u8],
        touched: &BTreeSet<A20>,
        commits: bool,
        spawned: Option<A20>,
        transfers: u64,
    ) -> R {
        let op = short(&t.op);
        let unexpected = |err: Option<&RuntimeError>, how: String| -> R {
            let mut tags: Vec<&'static str> = match err {
                Some(RuntimeError::OOG) => vec!["gas"],
                Some(RuntimeError::FuncFailed { .. }) | None => vec!["output"],
                Some(_) => vec!["access", "output"],
            };
            if transfers > 0 && !tags.contains(&"gas") {
                tags.push("coins");
            }
            if !commits {
                tags.push("access");
            }
            self.tag(&tags, format!("{op} fails: {how}"))
        };
        let (state, r, st, tch, gas, glogs, ver) = match ans {
            Ans::Call(r) if r.success && spawned.is_none() => {
                (r.error.is_none(), &r.returndata, &r.new_state, &r.touched_accounts, r.gas_used, &r.logs, r.version)
            }
            Ans::Spawn(r) if r.success && spawned.is_some() => {
                if r.account_addr.as_ref().map(a20) != spawned {
                    return self.tag(&["output"], format!("{op}: account address {:?}", r.account_addr));
                }
                (r.error.is_none(), &r.returndata, &r.init_state, &r.touched_accounts, r.gas_used, &r.logs, r.version)
            }
            Ans::Call(r) if !r.success => return unexpected(r.error.as_ref(), format!("{:?}", r.error)),
            Ans::Spawn(r) if !r.success => return unexpected(r.error.as_ref(), format!("{:?}", r.error)),
            x => return unexpected(None, brief(x)),
        };
        if !state || gas != Gas::new() || ver != 0 {
            return self.tag(&["output"], format!("{op}: receipt {}", brief(ans)));
        }
        if r.as_deref() != Some(ret) {
            return self.tag(&["output"], format!("{op}: returndata {r:?}, expected {ret:?}"));
        }
        let got: BTreeSet<A20> = tch.iter().map(a20).collect();
        if got != *touched {
            let show = |s: &BTreeSet<A20>| s.iter().map(hex::encode).collect::<Vec<_>>();
            return self.tag(&["output"], format!("{op}: touched {:?}, expected {:?}", show(&got), show(touched)));
        }
        match st {
            None => return self.tag(&["output", "atomic"], format!("{op}: no new state")),
            Some(s) if !commits && s.as_slice() != t.context.state().as_slice() => {
                return self.tag(&["output"], format!("{op}: a verification's state is {s:?}"))
            }
            _ => {}
        }
        self.check_logs(glogs, logs)?;
        ctx.events("logs", logs.len() as u64);
        if !ret.is_empty() {
            ctx.event("returndata");
        }
        Ok(())
    }
}

pub fn brief(a: &Ans) -> String {
    let mut s = format!("{a:?}");
    if s.len() > 600 {
        s.truncate((0..=600).rev().find(|&i| s.is_char_boundary(i)).unwrap());
        s.push_str("..");
    }
    s
}

/// A limit around a price.
pub fn around(r: &mut Rng, price: u64) -> u64 {
    match r.below(9) {
        0 => price,
        1 => price + 1,
        2 => price.saturating_sub(1),
        3 => price + r.below(1000) as u64,
        4 => price.saturating_sub(r.below(1000) as u64),
        5 => r.below(3) as u64,
        6 => u64::MAX,
        7 => price + 2,
        _ => r.big(),
    }
}

pub fn finish<B: Backend>(ctx: &mut Ctx, e: &Eng<B>, nontrivial: bool) {
    let sig = hash_bytes(ctx.trace.join("\n").as_bytes());
    ctx.evaluated(if nontrivial { Some(sig) } else { None });
    let t = format!("{} operations; {}", e.txs, ctx.trace.join(" | "));
    ctx.sample(|| t);
}

#[allow(dead_code)]
fn _unused() -> R {
    ensure!(true, "");
    Ok(())
}
