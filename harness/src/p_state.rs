//! C01, C02, C04: the global state against a reference model.

use std::collections::{BTreeMap, HashMap};

use svm_genesis_config::GenesisConfig;
use svm_layout::{FixedLayout, Layout};
use svm_state::{AccountStorage, GlobalState, TemplateStorage};
use svm_types::{
    Address, BytesPrimitive, CodeKind, CodeSection, CtorsSection, DataSection, DeploySection, GasMode,
    HeaderSection, Layer, Section, Sections, State, Template, TemplateAddr, TransactionId,
};

use crate::core::*;
use crate::{ensure, ensure_eq};

pub type A20 = [u8; 20];

pub fn block_on<F: std::future::Future>(f: F) -> F::Output {
    crate::engine::tokio_rt().block_on(f)
}

#[derive(Clone, Debug, PartialEq)]
pub struct TemplM {
    pub core: Sections,
    pub noncore: Sections,
    pub first: u32,
    pub sizes: Vec<u32>,
    /// Identifies the sections' contents.
    pub tag: u64,
}

#[derive(Clone, Debug, PartialEq)]
pub struct AcctM {
    pub name: String,
    pub template: A20,
    pub balance: u64,
    pub counter: u128,
    /// Variables that were ever written.
    pub vars: BTreeMap<u32, Vec<u8>>,
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct World {
    pub templates: BTreeMap<A20, TemplM>,
    pub accounts: BTreeMap<A20, AcctM>,
}

impl World {
    /// What was written, e.g. zeros written to a variable count.
    pub fn written(&self) -> Vec<u8> {
        let mut s = String::new();
        for (a, t) in &self.templates {
            s.push_str(&format!("t{a:?}={};", t.tag));
        }
        for (a, m) in &self.accounts {
            s.push_str(&format!("a{a:?}={:?};", m));
        }
        s.into_bytes()
    }
    /// What can be read back.
    pub fn readable(&self) -> Vec<u8> {
        let mut w = self.clone();
        for m in w.accounts.values_mut() {
            m.vars.retain(|_, v| v.iter().any(|b| *b != 0));
        }
        w.written()
    }
}

pub struct Model {
    pub layers: Vec<World>,
    pub base: World,
    pub saved: World,
    pub working: World,
    pub dirty: bool,
    pub has_saved: bool,
}

impl Model {
    pub fn new(base: World) -> Self {
        Model {
            layers: vec![],
            saved: base.clone(),
            working: base.clone(),
            base,
            dirty: false,
            has_saved: false,
        }
    }
    pub fn last(&self) -> World {
        self.layers.last().unwrap_or(&self.base).clone()
    }
    pub fn checkpoint(&mut self) {
        self.saved = self.working.clone();
        self.has_saved |= self.dirty;
        self.dirty = false;
    }
    pub fn rollback(&mut self) {
        self.working = self.saved.clone();
        self.dirty = false;
    }
    pub fn commit(&mut self) {
        assert!(!self.dirty);
        self.layers.push(self.saved.clone());
        self.has_saved = false;
    }
    pub fn rewind(&mut self, l: usize) {
        self.layers.truncate(l + 1);
        self.drop_uncommitted();
    }
    pub fn drop_uncommitted(&mut self) {
        self.saved = self.last();
        self.working = self.last();
        self.dirty = false;
        self.has_saved = false;
    }
}

pub fn random_sizes(r: &mut Rng) -> Vec<u32> {
    let n = match r.below(10) {
        0 => 1,
        1 => r.range(20, 60),
        _ => r.range(2, 9),
    };
    (0..n)
        .map(|_| match r.below(8) {
            0 => 1,
            1 => 31,
            2 => 32,
            3 => 33,
            4 if r.pct(6) => r.range(500, 4000) as u32,
            4 => r.range(60, 140) as u32,
            5 => 8,
            6 => 4,
            _ => r.range(1, 40) as u32,
        })
        .collect()
}

pub fn random_template(r: &mut Rng) -> TemplM {
    let first = *r.pick(&[0u32, 0, 0, 1, 7, 1000]);
    let sizes = random_sizes(r);
    template_with(r, first, sizes)
}

pub fn template_with(r: &mut Rng, first: u32, sizes: Vec<u32>) -> TemplM {
    let layout = FixedLayout::from_byte_sizes(first, &sizes);
    let n = match r.below(8) {
        0 => r.range(1000, 9000),
        1 => r.range(100, 1500),
        _ => r.below(60),
    };
    let code = CodeSection::new(
        CodeKind::Wasm,
        r.bytes(n),
        r.u64(),
        GasMode::Fixed,
        r.u32(),
    );
    let ctors = (0..r.below(4)).map(|_| r.ident(12)).collect();
    let core = Template::new(
        code,
        DataSection::with_layout(Layout::Fixed(layout)),
        CtorsSection::new(ctors),
    )
    .sections()
    .clone();
    let noncore = random_noncore(r);
    let mut t = TemplM {
        core,
        noncore,
        first,
        sizes,
        tag: 0,
    };
    t.tag = hash_bytes(format!("{:?}{:?}", sorted(&t.core), sorted(&t.noncore)).as_bytes());
    t
}

/// Makes one small difference to a template.
fn differ(r: &mut Rng, t: &mut TemplM) -> bool {
    let code = match t.core.try_get(svm_types::SectionKind::Code) {
        Some(c) => c.as_code().clone(),
        None => return false,
    };
    match r.below(4) {
        0 => {
            let ctors: Vec<String> = match t.core.try_get(svm_types::SectionKind::Ctors) {
                Some(c) => c.as_ctors().ctors().iter().cloned().chain(Some("more".to_string())).collect(),
                None => return false,
            };
            t.core.insert(CtorsSection::new(ctors).into());
        }
        1 => {
            t.core.insert(CodeSection::new(CodeKind::Wasm, code.code().to_vec(), code.flags() ^ 1, GasMode::Fixed, code.svm_version()).into());
        }
        _ => {
            let mut bytes = code.code().to_vec();
            if bytes.is_empty() {
                return false;
            }
            let i = if r.bool() { bytes.len() - 1 } else { r.below(bytes.len()) };
            bytes[i] ^= 1 << r.below(8);
            t.core.insert(CodeSection::new(CodeKind::Wasm, bytes, code.flags(), GasMode::Fixed, code.svm_version()).into());
        }
    }
    t.tag = hash_bytes(format!("{:?}{:?}", sorted(&t.core), sorted(&t.noncore)).as_bytes());
    true
}

pub fn random_noncore(r: &mut Rng) -> Sections {
    let mut s = Sections::with_capacity(2);
    if r.bool() {
        s.insert(Section::Header(HeaderSection::new(r.u32(), r.text(60), r.text(60))));
    }
    if r.bool() {
        s.insert(Section::Deploy(DeploySection::new(
            TransactionId::new(&r.bytes(32)),
            Layer(r.u64()),
            Address::new(&r.bytes(20)),
            TemplateAddr::new(&r.bytes(20)),
        )));
    }
    s
}

pub fn sorted(s: &Sections) -> Vec<String> {
    let mut v: Vec<String> = s.iter().map(|x| format!("{x:?}")).collect();
    v.sort();
    v
}

pub fn merged(t: &TemplM) -> Sections {
    let mut s = t.core.clone();
    for x in t.noncore.iter().cloned() {
        s.insert(x);
    }
    s
}

/// Reads everything that can be read through `gs` and compares it with `w`.
pub fn observe(
    ctx: &mut Ctx,
    gs: &GlobalState,
    w: &World,
    addrs: &[A20],
    taddrs: &[A20],
    what: &str,
) -> R {
    for t in taddrs {
        let ts = match TemplateStorage::load(gs.clone(), &TemplateAddr::new(t)) {
            Ok(ts) => ts,
            Err(e) => return violation(format!("{what}: template handle: {e}")),
        };
        let got = block_on(ts.sections());
        match (w.templates.get(t), got) {
            (None, Err(_)) => {}
            (None, Ok(_)) => return violation(format!("{what}: template {} exists", hex::encode(t))),
            (Some(_), Err(e)) => {
                return violation(format!("{what}: template {} can't be read: {e}", hex::encode(t)))
            }
            (Some(m), Ok(s)) => {
                ensure_eq!(sorted(&s), sorted(&merged(m)), "{what}: sections of template {}", hex::encode(t));
                ctx.event("template_reads");
            }
        }
    }
    for a in addrs {
        let got = block_on(AccountStorage::load(gs.clone(), &Address::new(a)));
        let m = match (w.accounts.get(a), got) {
            (None, Err(_)) => continue,
            (None, Ok(_)) => return violation(format!("{what}: account {} exists", hex::encode(a))),
            (Some(_), Err(e)) => {
                return violation(format!("{what}: account {} can't be loaded: {e}", hex::encode(a)))
            }
            (Some(m), Ok(s)) => (m, s),
        };
        observe_account(ctx, m.0, &m.1, w, what)?;
    }
    Ok(())
}

pub fn observe_account(ctx: &mut Ctx, m: &AcctM, s: &AccountStorage, w: &World, what: &str) -> R {
    let a = hex::encode(s.address.as_slice());
    match block_on(s.name()) {
        Ok(n) => ensure_eq!(n, m.name, "{what}: name of {a}"),
        Err(e) => return violation(format!("{what}: name of {a}: {e}")),
    }
    match block_on(s.template_addr()) {
        Ok(n) => ensure_eq!(n.as_slice(), &m.template[..], "{what}: template of {a}"),
        Err(e) => return violation(format!("{what}: template of {a}: {e}")),
    }
    match block_on(s.balance()) {
        Ok(n) => ensure_eq!(n, m.balance, "{what}: balance of {a}"),
        Err(e) => return violation(format!("{what}: balance of {a}: {e}")),
    }
    match block_on(s.counter()) {
        Ok(n) => ensure_eq!(n, m.counter, "{what}: counter of {a}"),
        Err(e) => return violation(format!("{what}: counter of {a}: {e}")),
    }
    let t = &w.templates[&m.template];
    for (i, size) in t.sizes.iter().enumerate() {
        let id = t.first + i as u32;
        let want = m.vars.get(&id).cloned().unwrap_or_else(|| vec![0; *size as usize]);
        match block_on(s.get_var_vec(id)) {
            Ok(v) => ensure_eq!(v, want, "{what}: variable {id} of {a}"),
            Err(e) => return violation(format!("{what}: variable {id} of {a}: {e}")),
        }
        ctx.event("variable_reads");
    }
    ctx.event("account_reads");
    Ok(())
}

pub struct Sut {
    pub gs: GlobalState,
    pub m: Model,
    pub addrs: Vec<A20>,
    pub taddrs: Vec<A20>,
    pub uri: Option<String>,
    pub fps: Vec<State>,
    pub genesis: Vec<(A20, TemplM)>,
}

pub fn genesis_config(g: &[(A20, TemplM)]) -> GenesisConfig {
    let mut templates = HashMap::new();
    for (a, t) in g {
        templates.insert(TemplateAddr::new(a), Template::from_sections(merged(t)));
    }
    GenesisConfig { templates }
}

pub fn open(uri: Option<&str>, g: &[(A20, TemplM)]) -> Result<GlobalState, Panicked> {
    guard(|| {
        block_on(async {
            match uri {
                None => GlobalState::in_memory(genesis_config(g)).await,
                Some(u) => GlobalState::new(u, genesis_config(g)).await,
            }
        })
    })
}

/// Addresses that are close to each other, so that mixed-up keys collide.
fn universe(r: &mut Rng, n: usize) -> Vec<A20> {
    let mut base: A20 = r.bytes(20).try_into().unwrap();
    let mut v = vec![];
    while v.len() < n {
        let mut a = base;
        match r.below(4) {
            0 => a[19] = a[19].wrapping_add(r.u8()),
            1 => a[0] = a[0].wrapping_add(r.u8()),
            2 => {
                let i = r.below(20);
                a[i] ^= 1 << r.below(8)
            }
            _ => {
                a = r.bytes(20).try_into().unwrap();
                base = a;
            }
        }
        if !v.contains(&a) {
            v.push(a);
        }
    }
    v
}

impl Sut {
    pub fn new(ctx: &mut Ctx, on_disk: bool) -> R<Sut> {
        let uri = if on_disk {
            let p = ctx.scratch.join(format!("db{}", ctx.index));
            let _ = std::fs::remove_file(&p);
            Some(format!("sqlite://{}?mode=rwc", p.display()))
        } else {
            None
        };
        Sut::at(ctx, uri, |_, _, _| {})
    }

    pub fn at(ctx: &mut Ctx, uri: Option<String>, first: impl FnOnce(&mut Ctx, &str, &[(A20, TemplM)])) -> R<Sut> {
        let r = &mut ctx.rng;
        let n = r.range(2, 4);
        let addrs = universe(r, n);
        let n = r.range(2, 3);
        let mut taddrs = universe(r, n);
        // A template may live at the address of an account.
        if r.pct(30) {
            taddrs[0] = addrs[0];
        }
        let genesis: Vec<(A20, TemplM)> = if r.bool() {
            vec![(taddrs[0], random_template(r))]
        } else {
            vec![]
        };
        let mut base = World::default();
        for (a, t) in &genesis {
            base.templates.insert(*a, t.clone());
        }
        if let Some(u) = &uri {
            first(ctx, u, &genesis);
        }
        let gs = match open(uri.as_deref(), &genesis) {
            Ok(gs) => gs,
            Err(p) => return violation(format!("creating a database panics at {}: {}", p.location, p.message)),
        };
        Ok(Sut {
            gs,
            m: Model::new(base),
            addrs,
            taddrs,
            uri,
            fps: vec![],
            genesis,
        })
    }

    pub fn observe_now(&self, ctx: &mut Ctx, what: &str) -> R {
        observe(ctx, &self.gs, &self.m.working, &self.addrs, &self.taddrs, what)?;
        ensure_eq!(
            self.gs.has_uncommitted_changes(),
            self.m.dirty || self.m.has_saved,
            "{what}: uncommitted changes"
        );
        Ok(())
    }

    pub fn observe_layer(&self, ctx: &mut Ctx, l: usize, what: &str) -> R {
        let mut gs = self.gs.clone();
        *gs.layer_query_parameter_mut() = Some(Layer(l as u64));
        observe(
            ctx,
            &gs,
            &self.m.layers[l],
            &self.addrs,
            &self.taddrs,
            &format!("{what}: as of layer {l}"),
        )?;
        ctx.event("historical_reads");
        Ok(())
    }

    /// The last layer is the model's, by id and by fingerprint.
    pub fn observe_top(&mut self, what: &str) -> R {
        if self.m.layers.is_empty() {
            return Ok(());
        }
        match block_on(self.gs.current_layer()) {
            Ok((l, s)) => {
                ensure_eq!(l.0, self.m.layers.len() as u64 - 1, "{what}: current layer");
                ensure_eq!(
                    s.as_slice(),
                    self.fps.last().unwrap().as_slice(),
                    "{what}: fingerprint of the current layer"
                );
                Ok(())
            }
            Err(e) => violation(format!("{what}: current layer: {e}")),
        }
    }

    pub fn op_write(&mut self, ctx: &mut Ctx) -> R {
        let a = *ctx.rng.pick(&self.addrs);
        let exists = self.m.working.accounts.contains_key(&a);
        let known: Vec<A20> = self.m.working.templates.keys().copied().collect();
        let k = ctx.rng.below(100);
        if known.is_empty() || k < 6 {
            // (Re)create a template, unless accounts rely on its layout.
            let t = *ctx.rng.pick(&self.taddrs);
            let old = self.m.working.templates.get(&t).cloned();
            let tm = match &old {
                Some(o) => template_with(&mut ctx.rng, o.first, o.sizes.clone()),
                None => random_template(&mut ctx.rng),
            };
            ctx.log(|| format!("create template {} first={} sizes={:?}", hex::encode(t), tm.first, tm.sizes));
            let r = block_on(TemplateStorage::create(
                self.gs.clone(),
                &TemplateAddr::new(&t),
                tm.core.clone(),
                tm.noncore.clone(),
            ));
            if let Err(e) = r {
                return violation(format!("creating a template fails: {e}"));
            }
            self.m.working.templates.insert(t, tm);
            self.m.dirty = true;
        } else if k < 10 {
            let t = *ctx.rng.pick(&known);
            let mut ts = match TemplateStorage::load(self.gs.clone(), &TemplateAddr::new(&t)) {
                Ok(ts) => ts,
                Err(e) => return violation(format!("template handle: {e}")),
            };
            let old = self.m.working.templates[&t].clone();
            let mut new = template_with(&mut ctx.rng, old.first, old.sizes.clone());
            let core = ctx.rng.bool();
            ctx.log(|| format!("set_{} {}", if core { "core" } else { "noncore" }, hex::encode(t)));
            let r = if core {
                new.noncore = old.noncore;
                block_on(ts.set_core(&new.core))
            } else {
                new.core = old.core;
                block_on(ts.set_noncore(&new.noncore))
            };
            new.tag = hash_bytes(format!("{:?}{:?}", sorted(&new.core), sorted(&new.noncore)).as_bytes());
            if let Err(e) = r {
                return violation(format!("replacing template sections fails: {e}"));
            }
            self.m.working.templates.insert(t, new);
            self.m.dirty = true;
        } else if !exists || k < 14 {
            let t = match self.m.working.accounts.get(&a) {
                Some(m) => m.template,
                None => *ctx.rng.pick(&known),
            };
            let name = ctx.rng.text(255);
            let (balance, counter) = (ctx.rng.big(), ctx.rng.big128());
            ctx.log(|| format!("create account {} template={} balance={balance} counter={counter}", hex::encode(a), hex::encode(t)));
            let r = block_on(AccountStorage::create(
                self.gs.clone(),
                &Address::new(&a),
                name.clone(),
                TemplateAddr::new(&t),
                balance,
                counter,
            ));
            if let Err(e) = r {
                return violation(format!("creating an account fails: {e}"));
            }
            let vars = self
                .m
                .working
                .accounts
                .get(&a)
                .map(|m| m.vars.clone())
                .unwrap_or_default();
            self.m.working.accounts.insert(
                a,
                AcctM {
                    name,
                    template: t,
                    balance,
                    counter,
                    vars,
                },
            );
            self.m.dirty = true;
        } else {
            let mut s = match block_on(AccountStorage::load(self.gs.clone(), &Address::new(&a))) {
                Ok(s) => s,
                Err(e) => return violation(format!("account {} can't be loaded: {e}", hex::encode(a))),
            };
            let m = self.m.working.accounts.get_mut(&a).unwrap();
            if k < 24 {
                let v = ctx.rng.big();
                ctx.log(|| format!("set_balance {} {v}", hex::encode(a)));
                if let Err(e) = block_on(s.set_balance(v)) {
                    return violation(format!("set_balance fails: {e}"));
                }
                m.balance = v;
            } else if k < 32 {
                let v = ctx.rng.big128();
                ctx.log(|| format!("set_counter {} {v}", hex::encode(a)));
                if let Err(e) = block_on(s.set_counter(v)) {
                    return violation(format!("set_counter fails: {e}"));
                }
                m.counter = v;
            } else {
                let t = &self.m.working.templates[&m.template];
                let i = ctx.rng.below(t.sizes.len());
                let (id, size) = (t.first + i as u32, t.sizes[i] as usize);
                if !write_var(ctx, &mut s, m, id, size)? {
                    return Ok(());
                }
            }
            self.m.dirty = true;
        }
        ctx.event("writes");
        Ok(())
    }

    /// Checkpoint, rollback, commit, rewind, reopen, all with their refusals.
    pub fn op_version(&mut self, ctx: &mut Ctx) -> R {
        match ctx.rng.below(100) {
            0..=34 => {
                ctx.log(|| "checkpoint".into());
                if let Err(e) = block_on(self.gs.checkpoint()) {
                    return violation(format!("checkpoint fails: {e}"));
                }
                self.m.checkpoint();
                ctx.event("checkpoints");
            }
            35..=44 => {
                ctx.log(|| "rollback".into());
                if let Err(e) = block_on(self.gs.rollback()) {
                    return violation(format!("rollback fails: {e}"));
                }
                self.m.rollback();
                ctx.event("rollbacks");
            }
            45..=79 => self.commit(ctx)?,
            80..=91 => {
                if self.m.layers.is_empty() {
                    return Ok(());
                }
                // Mostly recent layers, else histories stay short.
                let n = self.m.layers.len();
                let l = if ctx.rng.pct(70) { n - 1 - ctx.rng.below(n.min(3)) } else { ctx.rng.below(n) };
                self.rewind(ctx, l)?;
            }
            92..=94 => {
                // A layer that doesn't exist (yet).
                let n = self.m.layers.len() as u64;
                let l = *ctx.rng.pick(&[n, n + 1, n + 7, u64::MAX, 1 << 63, i64::MAX as u64]);
                ctx.log(|| format!("rewind to the invalid layer {l}"));
                let r = guard(|| block_on(self.gs.rewind(Layer(l))));
                ensure!(!matches!(r, Ok(Ok(()))), "rewinding to layer {l} of {n} layers succeeds");
                ctx.event("refused_rewinds");
            }
            _ => self.reopen(ctx)?,
        }
        Ok(())
    }

    pub fn commit(&mut self, ctx: &mut Ctx) -> R {
        if self.m.dirty && ctx.rng.pct(70) {
            ctx.log(|| "checkpoint".into());
            if let Err(e) = block_on(self.gs.checkpoint()) {
                return violation(format!("checkpoint fails: {e}"));
            }
            self.m.checkpoint();
        }
        let r = block_on(self.gs.commit());
        ctx.log(|| format!("commit (dirty={}) -> {:?}", self.m.dirty, r));
        match r {
            Ok((l, s)) => {
                ensure!(!self.m.dirty, "commit succeeds with changes that were not saved");
                self.m.commit();
                self.fps.push(s);
                ensure_eq!(l.0, self.m.layers.len() as u64 - 1, "committed layer");
                ctx.event("commits");
            }
            Err(e) => {
                ensure!(self.m.dirty, "commit fails: {e}");
                ctx.event("refused_commits");
            }
        }
        Ok(())
    }

    pub fn rewind(&mut self, ctx: &mut Ctx, l: usize) -> R {
        let r = guard(|| block_on(self.gs.rewind(Layer(l as u64))));
        ctx.log(|| format!("rewind {l} (dirty={}) -> {:?}", self.m.dirty, r.as_ref().map(|r| r.is_ok())));
        match r {
            Err(p) => return violation(format!("rewinding to layer {l} of {} panics at {}", self.m.layers.len(), p.location)),
            Ok(Ok(())) => {
                ensure!(!self.m.dirty, "rewinding succeeds with changes that were not saved");
                self.m.rewind(l);
                self.fps.truncate(l + 1);
                ctx.event("rewinds");
            }
            Ok(Err(e)) => {
                ensure!(self.m.dirty, "rewinding to layer {l} fails: {e}");
                ctx.event("refused_rewinds");
            }
        }
        Ok(())
    }

    pub fn reopen(&mut self, ctx: &mut Ctx) -> R {
        if let Some(uri) = self.uri.clone() {
            ctx.log(|| "reopen".into());
            // The same genesis, or an attempt to smuggle in another one.
            let mut g = self.genesis.clone();
            if ctx.rng.pct(20) {
                g = vec![(*ctx.rng.pick(&self.taddrs), random_template(&mut ctx.rng))];
            }
            self.gs = match open(Some(&uri), &g) {
                Ok(gs) => gs,
                Err(p) => {
                    return violation(format!("reopening the database panics at {}: {}", p.location, p.message))
                }
            };
            self.m.drop_uncommitted();
            ctx.event("reopens");
        }
        Ok(())
    }
}

/// Returns whether anything was written.
pub fn write_var(ctx: &mut Ctx, s: &mut AccountStorage, m: &mut AcctM, id: u32, size: usize) -> R<bool> {
    let what = ctx.rng.below(10);
    if size == 4 && what < 5 {
        let v = ctx.rng.u32() as i32;
        ctx.log(|| format!("set_var_i32 {} {id} {v}", hex::encode(s.address.as_slice())));
        if let Err(e) = block_on(s.set_var_i32(id, v)) {
            return violation(format!("set_var_i32 fails: {e}"));
        }
        m.vars.insert(id, v.to_le_bytes().to_vec());
        match block_on(s.get_var_i32(id)) {
            Ok(g) => ensure_eq!(g, v, "i32 variable {id}"),
            Err(e) => return violation(format!("get_var_i32 fails: {e}")),
        }
        ctx.event("i32_writes");
    } else if size == 8 && what < 5 {
        let v = ctx.rng.u64() as i64;
        ctx.log(|| format!("set_var_i64 {} {id} {v}", hex::encode(s.address.as_slice())));
        if let Err(e) = block_on(s.set_var_i64(id, v)) {
            return violation(format!("set_var_i64 fails: {e}"));
        }
        m.vars.insert(id, v.to_le_bytes().to_vec());
        match block_on(s.get_var_i64(id)) {
            Ok(g) => ensure_eq!(g, v, "i64 variable {id}"),
            Err(e) => return violation(format!("get_var_i64 fails: {e}")),
        }
        ctx.event("i64_writes");
    } else if what == 9 && size > 1 {
        // Too short a buffer is refused and changes nothing.
        let n = ctx.rng.below(size);
        let v = ctx.rng.bytes(n);
        ctx.log(|| format!("set_var_bytes {} {id} too short", hex::encode(s.address.as_slice())));
        let r = guard(|| block_on(s.set_var_bytes(id, &v)));
        ensure!(!matches!(r, Ok(Ok(()))), "a buffer of {n} bytes is written to a variable of {size} bytes");
        ctx.event("refused_writes");
        return Ok(false);
    } else {
        let extra = if what == 8 { ctx.rng.range(1, 40) } else { 0 };
        let v = match ctx.rng.below(4) {
            0 => vec![0; size + extra],
            1 => vec![0xff; size + extra],
            _ => ctx.rng.bytes(size + extra),
        };
        ctx.log(|| format!("set_var_bytes {} {id} {}", hex::encode(s.address.as_slice()), hex::encode(&v)));
        if let Err(e) = block_on(s.set_var_bytes(id, &v)) {
            return violation(format!("set_var_bytes fails: {e}"));
        }
        m.vars.insert(id, v[..size].to_vec());
        ctx.event("byte_writes");
        // Reading into a larger buffer touches the leading bytes only.
        let mut buf = vec![0xa5u8; size + 3];
        if let Err(e) = block_on(s.get_var(id, &mut buf)) {
            return violation(format!("get_var fails: {e}"));
        }
        ensure_eq!(&buf[..size], &v[..size], "variable {id} read right after its write");
        ensure_eq!(&buf[size..], &[0xa5u8; 3][..], "bytes past variable {id} in the reader's buffer");
    }
    Ok(true)
}

// ---------------------------------------------------------------------------------------------

fn c01(ctx: &mut Ctx) -> R {
    let on_disk = ctx.rng.pct(35);
    let mut s = Sut::new(ctx, on_disk)?;
    let steps = if ctx.tier == Tier::Quick { ctx.rng.range(20, 90) } else { ctx.rng.range(20, 220) };
    let mut handles: Vec<GlobalState> = vec![];
    for step in 0..steps {
        if ctx.rng.pct(55) {
            s.op_write(ctx)?;
        } else {
            s.op_version(ctx)?;
        }
        // Every handle on the state sees the same.
        if ctx.rng.pct(10) && s.uri.is_none() {
            handles.push(s.gs.clone());
        }
        if ctx.rng.pct(20) {
            s.observe_now(ctx, &format!("after step {step}"))?;
        }
        if !handles.is_empty() && ctx.rng.pct(5) {
            let gs = handles[ctx.rng.below(handles.len())].clone();
            observe(ctx, &gs, &s.m.working, &s.addrs, &s.taddrs, &format!("another handle, after step {step}"))?;
        }
        if !s.m.layers.is_empty() && ctx.rng.pct(20) {
            let l = ctx.rng.below(s.m.layers.len());
            s.observe_layer(ctx, l, &format!("after step {step}"))?;
        }
        if ctx.rng.pct(30) {
            s.observe_top(&format!("after step {step}"))?;
        }
        if ctx.rng.pct(3) {
            // Layers that don't exist can't be queried.
            let mut gs = s.gs.clone();
            let l = s.m.layers.len() as u64 + ctx.rng.below(3) as u64;
            *gs.layer_query_parameter_mut() = Some(Layer(l));
            let a = Address::new(ctx.rng.pick(&s.addrs));
            let r = guard(|| block_on(AccountStorage::load(gs, &a)).is_ok());
            ensure!(!matches!(r, Ok(true)), "an account is read as of layer {l}, which doesn't exist");
            ctx.event("refused_historical_reads");
        }
    }
    s.observe_now(ctx, "at the end")?;
    s.observe_top("at the end")?;
    for l in 0..s.m.layers.len() {
        if s.m.layers.len() < 12 || ctx.rng.pct(40) {
            s.observe_layer(ctx, l, "at the end")?;
        }
    }
    if on_disk {
        s.reopen(ctx)?;
        s.observe_now(ctx, "after the last reopening")?;
        s.observe_top("after the last reopening")?;
        for l in 0..s.m.layers.len() {
            if ctx.rng.pct(40) {
                s.observe_layer(ctx, l, "after the last reopening")?;
            }
        }
    }
    let sig = hash_bytes(ctx.trace.join("\n").as_bytes());
    ctx.evaluated(if s.m.layers.len() >= 2 { Some(sig) } else { None });
    let t = ctx.trace.join(" | ");
    ctx.sample(|| t);
    cleanup(&s);
    Ok(())
}

pub fn cleanup(s: &Sut) {
    if let Some(u) = &s.uri {
        let p = u.trim_start_matches("sqlite://").split('?').next().unwrap().to_string();
        for ext in ["", "-wal", "-shm", "-journal"] {
            let _ = std::fs::remove_file(format!("{p}{ext}"));
        }
    }
}

pub static C01: Spec = Spec {
    id: "C01",
    rule: "a case is a random history of account/template writes, checkpoints, rollbacks, commits, rewinds, reopenings and refused operations on a real SQLite-backed state, mirrored by a map-based model; it counts as non-trivial when at least two layers remain at its end; distinct by its operation sequence",
    assumptions: &["the model keeps full snapshots per layer; accounts keep their template's layout when a template is replaced"],
    quick_cases: 8000,
    quick_secs: 30,
    thorough_cases: 40_000,
    required: &["commits", "rewinds", "rollbacks", "checkpoints", "historical_reads", "reopens", "refused_commits", "refused_rewinds", "refused_historical_reads", "variable_reads"],
    case: c01,
    ..DEFAULT_SPEC
};

// ---------------------------------------------------------------------------------------------

/// The fingerprint as a function of the contents, over several databases and routes.
fn c02(ctx: &mut Ctx) -> R {
    // contents as written -> fingerprint; contents as readable -> fingerprints
    let mut by_written: HashMap<Vec<u8>, State> = HashMap::new();
    let mut by_fp: HashMap<Vec<u8>, Vec<u8>> = HashMap::new();
    let mut note = |ctx: &mut Ctx, w: &World, fp: &State, what: &str| -> R {
        let k = w.written();
        if let Some(old) = by_written.get(&k) {
            ensure_eq!(fp.as_slice(), old.as_slice(), "{what}: fingerprint of contents that were fingerprinted before");
            ctx.event("same_contents_compared");
        } else {
            by_written.insert(k, fp.clone());
        }
        let r = w.readable();
        if let Some(other) = by_fp.get(fp.as_slice()) {
            ensure!(other == &r, "{what}: two layers with different contents have the fingerprint {}", hex::encode(fp.as_slice()));
        } else {
            by_fp.insert(fp.as_slice().to_vec(), r);
        }
        ctx.event("fingerprints");
        Ok(())
    };

    // 1. A random history; every layer's fingerprint is noted.
    let on_disk = ctx.rng.pct(30);
    let mut s = Sut::new(ctx, on_disk)?;
    // The sections of genesis templates, written once more: the order in which genesis itself
    // keeps them is its own business.
    for (a, t) in s.genesis.clone() {
        if let Err(e) = block_on(TemplateStorage::create(s.gs.clone(), &TemplateAddr::new(&a), t.core, t.noncore)) {
            return violation(format!("creating a template fails: {e}"));
        }
        if let Err(e) = block_on(s.gs.checkpoint()) {
            return violation(format!("checkpoint fails: {e}"));
        }
        s.m.has_saved = true;
        s.commit(ctx)?;
        let w = s.m.last();
        note(ctx, &w, &s.fps.last().unwrap().clone(), "genesis templates")?;
    }
    let steps = ctx.rng.range(15, 60);
    for step in 0..steps {
        let n = s.m.layers.len();
        if ctx.rng.pct(60) {
            s.op_write(ctx)?;
        } else {
            s.op_version(ctx)?;
        }
        if s.m.layers.len() > n {
            let w = s.m.last();
            note(ctx, &w, &s.fps.last().unwrap().clone(), &format!("step {step}"))?;
        }
        s.observe_top(&format!("step {step}"))?;
    }
    if s.m.dirty || s.m.layers.is_empty() {
        if let Err(e) = block_on(s.gs.checkpoint()) {
            return violation(format!("checkpoint fails: {e}"));
        }
        s.m.checkpoint();
        s.commit(ctx)?;
        let w = s.m.last();
        note(ctx, &w, &s.fps.last().unwrap().clone(), "last commit")?;
    }

    // 2. Rewinding and replaying changes nothing; an empty layer has its parent's fingerprint.
    if s.m.layers.len() > 1 {
        let before = s.m.layers.len();
        s.commit(ctx)?;
        if s.m.layers.len() > before {
            let w = s.m.last();
            note(ctx, &w, &s.fps.last().unwrap().clone(), "empty layer")?;
        }
        let l = ctx.rng.below(s.m.layers.len());
        s.rewind(ctx, l)?;
        s.observe_top("after rewinding")?;
    }

    // 3. The same final contents, reached by other routes in fresh databases.
    let target = s.m.last();
    let target_fp = s.fps.last().unwrap().clone();
    let routes = 2 + ctx.rng.below(2);
    for route in 0..routes {
        let fp = rebuild(ctx, &s, &target, route)?;
        ensure_eq!(
            fp.as_slice(),
            target_fp.as_slice(),
            "route {route} to the same contents leads to another fingerprint"
        );
        ctx.event("routes");
        note(ctx, &target, &fp, &format!("route {route}"))?;
    }

    // 4. One small difference in the contents is a difference in the fingerprint.
    for _ in 0..3 {
        let mut other = target.clone();
        let addrs: Vec<A20> = other.accounts.keys().copied().collect();
        if addrs.is_empty() {
            break;
        }
        let a = *ctx.rng.pick(&addrs);
        let m = other.accounts.get_mut(&a).unwrap();
        match ctx.rng.below(5) {
            0 => m.balance = m.balance.wrapping_add(1 + ctx.rng.below(3) as u64),
            1 => m.counter ^= 1 << ctx.rng.below(128),
            2 => {
                // one character of the name
                let mut cs: Vec<char> = m.name.chars().collect();
                match cs.iter().rposition(|c| c.is_ascii()) {
                    Some(last) => {
                        let i = if ctx.rng.bool() { last } else { ctx.rng.below(last + 1) };
                        if cs[i].is_ascii() {
                            cs[i] = if cs[i] == 'q' { 'p' } else { 'q' };
                        } else {
                            cs[last] = if cs[last] == 'q' { 'p' } else { 'q' };
                        }
                    }
                    None => cs = vec!['x'],
                }
                m.name = cs.into_iter().collect();
            }
            _ => {
                let ids: Vec<u32> = m.vars.keys().copied().collect();
                if ids.is_empty() {
                    continue;
                }
                let id = *ctx.rng.pick(&ids);
                let v = m.vars.get_mut(&id).unwrap();
                let i = ctx.rng.below(v.len());
                v[i] ^= 1 << ctx.rng.below(8);
            }
        }
        if other.readable() == target.readable() {
            continue;
        }
        let fp = rebuild(ctx, &s, &other, 1)?;
        note(ctx, &other, &fp, "mutated contents")?;
        ctx.event("single_differences");
    }

    for _ in 0..2 {
        let mut other = target.clone();
        let ts: Vec<A20> = other.templates.keys().copied().filter(|t| !s.genesis.iter().any(|(g, _)| g == t)).collect();
        if ts.is_empty() {
            break;
        }
        let t = *ctx.rng.pick(&ts);
        let m = other.templates.get_mut(&t).unwrap();
        if !differ(&mut ctx.rng, m) || other.readable() == target.readable() {
            continue;
        }
        let fp = rebuild(ctx, &s, &other, 1)?;
        note(ctx, &other, &fp, "mutated template")?;
        ctx.event("single_template_differences");
    }

    // 5. Contents swapped between accounts, or between variables, are other contents.
    let addrs: Vec<A20> = target.accounts.keys().copied().collect();
    if addrs.len() >= 2 {
        let mut other = target.clone();
        let (x, y) = (other.accounts[&addrs[0]].clone(), other.accounts[&addrs[1]].clone());
        other.accounts.get_mut(&addrs[0]).unwrap().balance = y.balance;
        other.accounts.get_mut(&addrs[1]).unwrap().balance = x.balance;
        other.accounts.get_mut(&addrs[0]).unwrap().counter = y.counter;
        other.accounts.get_mut(&addrs[1]).unwrap().counter = x.counter;
        if other.readable() != target.readable() {
            let fp = rebuild(ctx, &s, &other, 2)?;
            note(ctx, &other, &fp, "swapped balances")?;
            ctx.event("swaps");
        }
    }
    for a in &addrs {
        let m = &target.accounts[a];
        let t = &target.templates[&m.template];
        let ids: Vec<u32> = m.vars.keys().copied().collect();
        for i in 0..ids.len() {
            for j in i + 1..ids.len() {
                let size = |id: u32| t.sizes[(id - t.first) as usize];
                if size(ids[i]) == size(ids[j]) && m.vars[&ids[i]] != m.vars[&ids[j]] && ctx.rng.pct(30) {
                    let mut other = target.clone();
                    let o = other.accounts.get_mut(a).unwrap();
                    let (x, y) = (o.vars[&ids[i]].clone(), o.vars[&ids[j]].clone());
                    o.vars.insert(ids[i], y);
                    o.vars.insert(ids[j], x);
                    let fp = rebuild(ctx, &s, &other, 1)?;
                    note(ctx, &other, &fp, "swapped variables")?;
                    ctx.event("swaps");
                }
            }
        }
    }

    let sig = hash_bytes(ctx.trace.join("\n").as_bytes());
    ctx.evaluated(if by_written.len() >= 3 { Some(sig) } else { None });
    let t = format!("{} distinct contents; {}", by_written.len(), ctx.trace.join(" | "));
    ctx.sample(|| t);
    cleanup(&s);
    Ok(())
}

/// Writes `w` into a fresh database by a route of its own, and returns the fingerprint.
fn rebuild(ctx: &mut Ctx, s: &Sut, w: &World, route: usize) -> R<State> {
    let genesis = s.genesis.clone();
    let mut gs = match open(None, &genesis) {
        Ok(gs) => gs,
        Err(p) => return violation(format!("creating a database panics at {}: {}", p.location, p.message)),
    };
    macro_rules! ok {
        ($e:expr) => {
            match block_on($e) {
                Ok(x) => x,
                Err(e) => return violation(format!("{}: {e}", stringify!($e))),
            }
        };
    }
    // Writes, in a random order that respects what loading an account needs.
    #[derive(Clone)]
    enum W {
        T(A20),
        A(A20),
        V(A20, u32, Vec<u8>),
    }
    let mut templates: Vec<W> = w.templates.keys().map(|a| W::T(*a)).collect();
    ctx.rng.shuffle(&mut templates);
    let mut rest: Vec<W> = vec![];
    let mut accounts: Vec<W> = w.accounts.keys().map(|a| W::A(*a)).collect();
    ctx.rng.shuffle(&mut accounts);
    for (a, m) in &w.accounts {
        for (id, v) in &m.vars {
            rest.push(W::V(*a, *id, v.clone()));
        }
    }
    ctx.rng.shuffle(&mut rest);
    let all: Vec<W> = templates.into_iter().chain(accounts).chain(rest).collect();
    for x in &all {
        // Detours: values that are overwritten, rolled back or rewound later.
        let detour = route > 0 && ctx.rng.pct(25);
        match x {
            W::T(a) => {
                let t = &w.templates[a];
                ok!(TemplateStorage::create(gs.clone(), &TemplateAddr::new(a), t.core.clone(), t.noncore.clone()));
            }
            W::A(a) => {
                let m = &w.accounts[a];
                let (b, c) = if detour { (ctx.rng.u64(), ctx.rng.u128()) } else { (m.balance, m.counter) };
                let mut st = ok!(AccountStorage::create(
                    gs.clone(),
                    &Address::new(a),
                    m.name.clone(),
                    TemplateAddr::new(&m.template),
                    b,
                    c,
                ));
                if detour {
                    if ctx.rng.bool() {
                        ok!(gs.checkpoint());
                        if ctx.rng.bool() {
                            ok!(gs.commit());
                        }
                    }
                    ok!(st.set_balance(m.balance));
                    ok!(st.set_counter(m.counter));
                }
            }
            W::V(a, id, v) => {
                let mut st = ok!(AccountStorage::load(gs.clone(), &Address::new(a)));
                if detour {
                    let junk = ctx.rng.bytes(v.len());
                    match ctx.rng.below(3) {
                        0 => {
                            ok!(st.set_var_bytes(*id, &junk));
                            ok!(gs.checkpoint());
                        }
                        1 => {
                            ok!(gs.checkpoint());
                            ok!(st.set_var_bytes(*id, &junk));
                            ok!(gs.rollback());
                        }
                        _ => {
                            ok!(gs.checkpoint());
                            let (l, _) = ok!(gs.commit());
                            ok!(st.set_var_bytes(*id, &junk));
                            ok!(gs.checkpoint());
                            if ctx.rng.bool() {
                                ok!(gs.commit());
                            }
                            ok!(gs.rewind(l));
                        }
                    }
                }
                ok!(st.set_var_bytes(*id, v));
            }
        }
        if route > 0 && ctx.rng.pct(15) {
            ok!(gs.checkpoint());
            if ctx.rng.pct(60) {
                ok!(gs.commit());
            }
        }
    }
    ok!(gs.checkpoint());
    let (_, fp) = ok!(gs.commit());
    let (_, fp2) = ok!(gs.current_layer());
    ensure_eq!(fp2.as_slice(), fp.as_slice(), "fingerprint of the current layer");
    Ok(fp)
}

pub static C02: Spec = Spec {
    id: "C02",
    rule: "a case is a random history on a state database, then the same final contents rebuilt in fresh databases by routes with other orders, layer borders, overwritten values, rollbacks and rewinds, then contents that differ in one place; fingerprints must be equal exactly for equal contents; non-trivial when at least three distinct contents were fingerprinted; distinct by operation sequence",
    assumptions: &["blake3 collisions don't occur", "no claim is made for contents that read the same but differ in whether zeros were ever written"],
    quick_cases: 8000,
    quick_secs: 25,
    thorough_cases: 25_000,
    required: &["fingerprints", "routes", "single_differences", "same_contents_compared", "swaps", "rewinds", "single_template_differences"],
    case: c02,
    ..DEFAULT_SPEC
};

// ---------------------------------------------------------------------------------------------

/// Variables: every write is followed by a look at everything else.
/// Layouts up to the largest the format can express; only the variables touched are read back.
fn c04_wide(ctx: &mut Ctx) -> R {
    let r = &mut ctx.rng;
    let mut sizes: Vec<u32> = vec![];
    let (big, n) = *r.pick(&[(65535u32, 1usize), (65535, 2), (65535, 33), (65535, 40), (65535, 1000), (65535, 65000), (32, 300), (32, 3000), (33, 8000), (32, 65000), (1, 20000)]);
    for _ in 0..r.range(1, 8) {
        sizes.push(r.range(1, 70) as u32);
    }
    for _ in 0..n {
        if sizes.len() > 65_500 {
            break;
        }
        sizes.push(big);
        if r.pct(if n > 2000 { 1 } else { 10 }) {
            sizes.push(r.range(1, 70) as u32);
        }
    }
    for _ in 0..r.range(1, 8) {
        sizes.push(r.range(1, 70) as u32);
    }
    let tm = template_with(r, 0, sizes.clone());
    let gs = match open(None, &[]) {
        Ok(gs) => gs,
        Err(p) => return violation(format!("opening fails: {}", p.message)),
    };
    let (t, a, b) = (TemplateAddr::new(&[3u8; 20]), Address::new(&[5u8; 20]), Address::new(&[6u8; 20]));
    if let Err(e) = block_on(TemplateStorage::create(gs.clone(), &t, tm.core.clone(), tm.noncore.clone())) {
        return violation(format!("creating a template of {} variables fails: {e}", sizes.len()));
    }
    let mut accounts = vec![];
    for x in [a, b] {
        match block_on(AccountStorage::create(gs.clone(), &x, "w".into(), t.clone(), 5, 6)) {
            Ok(s) => accounts.push((s, BTreeMap::<u32, Vec<u8>>::new())),
            Err(e) => return violation(format!("creating an account fails: {e}")),
        }
    }
    let mut sig = vec![];
    for step in 0..ctx.rng.range(20, 60) {
        let who = ctx.rng.below(2);
        let small: Vec<usize> = (0..sizes.len()).filter(|&i| sizes[i] < 100).collect();
        let mut id = match ctx.rng.below(4) {
            0 => sizes.len() - 1 - ctx.rng.below(sizes.len().min(4)),
            1 => ctx.rng.below(sizes.len().min(8)),
            _ => *ctx.rng.pick(&small),
        };
        // neighbours 2^k cells or bytes away
        if ctx.rng.pct(40) {
            if let Some(&(last, size)) = sig.last() {
                let last: u32 = last;
                let size: usize = size;
                let off: u64 = sizes[..last as usize].iter().map(|s| *s as u64).sum();
                let d = 32u64 << *ctx.rng.pick(&[8usize, 16, 15, 7, 24, 0, 1]);
                let to = if ctx.rng.bool() { off + d } else { off.saturating_sub(d) } + size as u64 / 2;
                let mut sum = 0u64;
                for (i, s) in sizes.iter().enumerate() {
                    sum += *s as u64;
                    if sum > to {
                        id = i;
                        break;
                    }
                }
            }
        }
        let size = sizes[id] as usize;
        let id = id as u32;
        let v = ctx.rng.bytes(size);
        sig.push((id, size));
        {
            let (st, m) = &mut accounts[who];
            if let Err(e) = block_on(st.set_var_bytes(id, &v)) {
                return violation(format!("writing variable {id} fails: {e}"));
            }
            m.insert(id, v);
        }
        for (st, m) in &accounts {
            let mut ids: Vec<u32> = m.keys().copied().filter(|i| sizes[*i as usize] < 100 || *i == id || ctx.rng.pct(10)).collect();
            ids.extend([id.saturating_sub(1), (id + 1).min(sizes.len() as u32 - 1), 0, sizes.len() as u32 - 1]);
            for i in ids {
                let want = m.get(&i).cloned().unwrap_or_else(|| vec![0; sizes[i as usize] as usize]);
                match block_on(st.get_var_vec(i)) {
                    Ok(got) => ensure!(got == want, "step {step}: after writing variable {id} ({size} bytes), variable {i} ({} bytes) differs from what was written to it", sizes[i as usize]),
                    Err(e) => return violation(format!("reading variable {i} fails: {e}")),
                }
                ctx.event("variable_reads");
            }
            let bal = block_on(st.balance());
            ensure!(matches!(bal, Ok(5)), "balance after writing variable {id}: {bal:?}");
        }
    }
    ctx.event("wide_layouts");
    ctx.evaluated(Some(hash_bytes(format!("{sig:?}").as_bytes())));
    Ok(())
}

fn c04(ctx: &mut Ctx) -> R {
    if ctx.index % 8 == 3 {
        return c04_wide(ctx);
    }
    let mut s = Sut::new(ctx, false)?;
    let r = &mut ctx.rng;
    let n = r.range(1, 3);
    s.taddrs.truncate(n.min(s.taddrs.len()));
    // Templates and accounts first.
    for t in s.taddrs.clone() {
        if s.m.working.templates.contains_key(&t) {
            continue;
        }
        let tm = random_template(&mut ctx.rng);
        if let Err(e) = block_on(TemplateStorage::create(s.gs.clone(), &TemplateAddr::new(&t), tm.core.clone(), tm.noncore.clone())) {
            return violation(format!("creating a template fails: {e}"));
        }
        s.m.working.templates.insert(t, tm);
    }
    for a in s.addrs.clone() {
        let t = *ctx.rng.pick(&s.taddrs);
        let m = AcctM { name: ctx.rng.text(20), template: t, balance: ctx.rng.big(), counter: ctx.rng.big128(), vars: BTreeMap::new() };
        if let Err(e) = block_on(AccountStorage::create(s.gs.clone(), &Address::new(&a), m.name.clone(), TemplateAddr::new(&t), m.balance, m.counter)) {
            return violation(format!("creating an account fails: {e}"));
        }
        s.m.working.accounts.insert(a, m);
        s.m.dirty = true;
    }
    // Nothing was written yet: everything reads as zeros.
    s.observe_now(ctx, "before any write")?;
    let mut sig = vec![];
    let writes = ctx.rng.range(10, 40);
    let mut stores: BTreeMap<A20, AccountStorage> = BTreeMap::new();
    for i in 0..writes {
        let a = *ctx.rng.pick(&s.addrs);
        if !stores.contains_key(&a) || ctx.rng.pct(10) {
            match block_on(AccountStorage::load(s.gs.clone(), &Address::new(&a))) {
                Ok(st) => stores.insert(a, st),
                Err(e) => return violation(format!("account {} can't be loaded: {e}", hex::encode(a))),
            };
        }
        let st = stores.get_mut(&a).unwrap();
        let w = s.m.working.clone();
        let m = s.m.working.accounts.get_mut(&a).unwrap();
        let t = &w.templates[&m.template];
        let k = ctx.rng.below(t.sizes.len());
        let (id, size) = (t.first + k as u32, t.sizes[k] as usize);
        let off: u32 = t.sizes[..k].iter().sum();
        if ctx.rng.pct(4) {
            // An id outside of the layout.
            let bad = match ctx.rng.below(3) {
                0 => t.first + t.sizes.len() as u32,
                1 => u32::MAX,
                _ => t.first.wrapping_sub(1),
            };
            let buf = ctx.rng.bytes(200);
            let r = guard(|| block_on(st.set_var_bytes(bad, &buf)));
            ensure!(!matches!(r, Ok(Ok(()))), "variable {bad} of a layout {}..{} is written", t.first, t.first as usize + t.sizes.len());
            let r = guard(|| block_on(st.get_var_vec(bad)));
            ensure!(!matches!(r, Ok(Ok(_))), "variable {bad} of a layout {}..{} is read", t.first, t.first as usize + t.sizes.len());
            ctx.event("refused_ids");
        } else if ctx.rng.pct(6) {
            let v = ctx.rng.big();
            if let Err(e) = block_on(st.set_balance(v)) {
                return violation(format!("set_balance fails: {e}"));
            }
            m.balance = v;
            s.m.dirty = true;
        } else {
            if write_var(ctx, st, m, id, size)? {
                s.m.dirty = true;
            }
            sig.push((off % 32, size));
            if (off % 32) as usize + size > 32 {
                ctx.event("writes_across_a_32_byte_border");
            }
        }
        s.observe_now(ctx, &format!("after write {i} (variable {id}, offset {off}, {size} bytes)"))?;
        // Long-lived handles agree with fresh ones.
        for (a, st) in &stores {
            observe_account(ctx, &s.m.working.accounts[a], st, &s.m.working, "long-lived handle")?;
        }
        match ctx.rng.below(20) {
            0 | 1 => {
                if let Err(e) = block_on(s.gs.checkpoint()) {
                    return violation(format!("checkpoint fails: {e}"));
                }
                s.m.checkpoint();
            }
            2 | 3 => {
                if let Err(e) = block_on(s.gs.checkpoint()) {
                    return violation(format!("checkpoint fails: {e}"));
                }
                s.m.checkpoint();
                s.commit(ctx)?;
            }
            4 if s.m.has_saved || !s.m.layers.is_empty() => {
                if let Err(e) = block_on(s.gs.rollback()) {
                    return violation(format!("rollback fails: {e}"));
                }
                s.m.rollback();
                s.observe_now(ctx, "after a rollback")?;
            }
            _ => {}
        }
    }
    let h = hash_bytes(format!("{sig:?}{:?}", s.m.working.templates.values().map(|t| t.sizes.clone()).collect::<Vec<_>>()).as_bytes());
    ctx.evaluated(Some(h));
    let t = ctx.trace.join(" | ");
    ctx.sample(|| t);
    Ok(())
}

pub static C04: Spec = Spec {
    id: "C04",
    rule: "a case is a set of accounts over random storage layouts (variables of 1 to 4000 bytes at arbitrary offsets, one case in eight with layouts of up to 65000 variables and 4 GiB) and 10-60 writes; after every single write all variables, balances, counters and names of all accounts are read back, through fresh and long-lived handles; distinct by (offset, size) sequence and layouts",
    assumptions: &["layouts have no zero-sized variables"],
    quick_cases: 8000,
    quick_secs: 25,
    thorough_cases: 1_000_000,
    required: &["writes_across_a_32_byte_border", "i32_writes", "i64_writes", "byte_writes", "refused_writes", "refused_ids", "wide_layouts"],
    case: c04,
    ..DEFAULT_SPEC
};
