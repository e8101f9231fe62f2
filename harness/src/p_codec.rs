//! C18-C21: the binary codecs.

use std::collections::{HashMap, HashSet};
use std::io::Cursor;

use svm_codec::{template, Codec, ParseError, SectionPreview, SectionsDecoder};
use svm_layout::{FixedLayout, Layout};
use svm_types::*;

use crate::core::*;
use crate::{ensure, ensure_eq};

// ---------------------------------------------------------------------------------------------
// The documented wire format, written down once more and independently.

#[derive(Default)]
pub struct W(pub Vec<u8>);

impl W {
    pub fn u8(&mut self, x: u8) -> &mut Self {
        self.0.push(x);
        self
    }
    pub fn be(&mut self, x: u128, bytes: usize) -> &mut Self {
        for i in (0..bytes).rev() {
            self.0.push((x >> (8 * i)) as u8);
        }
        self
    }
    pub fn raw(&mut self, b: &[u8]) -> &mut Self {
        self.0.extend_from_slice(b);
        self
    }
    pub fn str8(&mut self, s: &str) -> &mut Self {
        self.u8(s.len() as u8).raw(s.as_bytes())
    }
    pub fn blob8(&mut self, b: &[u8]) -> &mut Self {
        self.u8(b.len() as u8).raw(b)
    }
    pub fn gas(&mut self, g: Option<u64>) -> &mut Self {
        self.be(g.unwrap_or(0) as u128, 8)
    }
    pub fn logs(&mut self, logs: &[Vec<u8>]) -> &mut Self {
        self.u8(logs.len() as u8);
        for l in logs {
            self.be(l.len() as u128, 2).raw(l);
        }
        self
    }
}

pub fn a20(r: &mut Rng) -> [u8; 20] {
    match r.below(8) {
        0 => [0; 20],
        1 => [0xff; 20],
        _ => r.bytes(20).try_into().unwrap(),
    }
}

pub fn a32(r: &mut Rng) -> [u8; 32] {
    match r.below(8) {
        0 => [0; 32],
        1 => [0xff; 32],
        _ => r.bytes(32).try_into().unwrap(),
    }
}

fn gas(r: &mut Rng) -> Option<u64> {
    match r.big() {
        0 => None,
        x => Some(x),
    }
}

fn to_gas(g: Option<u64>) -> Gas {
    g.map(Gas::with).unwrap_or_else(Gas::new)
}

fn blob(r: &mut Rng, max: usize) -> Vec<u8> {
    let n = match r.below(6) {
        0 => 0,
        1 => max,
        2 => max.saturating_sub(1),
        3 => r.below(max + 1),
        _ => r.below(max.min(50) + 1),
    };
    r.bytes(n)
}

/// Runs encode and decode and compares both with what they must be.
fn round<T>(ctx: &mut Ctx, what: &str, value: &T, wire: &[u8]) -> R
where
    T: Codec<Error = ParseError> + PartialEq + std::fmt::Debug,
{
    let got = value.encode_to_vec();
    if got != wire {
        let at = got.iter().zip(wire).position(|(a, b)| a != b).unwrap_or(got.len().min(wire.len()));
        return violation(format!(
            "{what}: the encoding differs from the wire format at byte {at} (of {} and {}): {} vs {}; value {:?}",
            got.len(), wire.len(), hex::encode(&got[at..got.len().min(at + 24)]), hex::encode(&wire[at..wire.len().min(at + 24)]), trim(value)
        ));
    }
    match T::decode_bytes(wire) {
        Ok(v) => ensure!(v == *value, "{what}: decoded {} from the encoding of {}", trim(&v), trim(value)),
        Err(e) => return violation(format!("{what}: the encoding of {} is rejected: {e:?}", trim(value))),
    }
    // A reader is left right behind the value.
    let mut more = wire.to_vec();
    more.extend_from_slice(b"\x5atail");
    let mut c = Cursor::new(&more[..]);
    match T::decode(&mut c) {
        Ok(v) => {
            ensure!(v == *value, "{what}: what follows in the stream changed the decoded value");
            ensure_eq!(c.position() as usize, wire.len(), "{what}: bytes consumed of a stream");
        }
        Err(e) => return violation(format!("{what}: rejected when followed by other data: {e:?}")),
    }
    if let Some(n) = T::fixed_size() {
        ensure_eq!(n, wire.len(), "{what}: fixed size");
    }
    ctx.event(&format!("round_trips_{what}"));
    Ok(())
}

fn trim(v: &impl std::fmt::Debug) -> String {
    let s = format!("{v:?}");
    s.chars().take(400).collect()
}

/// No proper prefix of an encoding is an encoding, and none panics.
fn prefixes<T>(ctx: &mut Ctx, what: &str, wire: &[u8], decode: impl Fn(&[u8]) -> Result<T, ParseError>) -> R {
    let all = wire.len() <= 400;
    let n = if all { wire.len() } else { 120 };
    for i in 0..n {
        let cut = if all { i } else { ctx.rng.below(wire.len()) };
        match guard(|| decode(&wire[..cut]).is_ok()) {
            Ok(false) => {}
            Ok(true) => return violation(format!("{what}: the first {cut} of {} bytes are accepted as a whole one", wire.len())),
            Err(p) => return violation(format!("{what}: decoding the first {cut} of {} bytes panics at {}: {}", wire.len(), p.location, p.message)),
        }
    }
    ctx.events("rejected_prefixes", n as u64);
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// C18: messages

fn c18(ctx: &mut Ctx) -> R {
    let mut sig = vec![];
    for _ in 0..20 {
        let r = &mut ctx.rng;
        match r.below(5) {
            0 => {
                let (p, amount, nonce, limit, fee) = (a20(r), r.big(), r.big128(), gas(r), r.big());
                let v = Envelope::new(p.into(), amount, nonce, to_gas(limit), fee);
                let mut w = W::default();
                w.raw(&p).be(amount as u128, 8).be(nonce, 16).gas(limit).be(fee as u128, 8);
                round(ctx, "envelope", &v, &w.0)?;
                prefixes(ctx, "envelope", &w.0, |b| Envelope::decode_bytes(b))?;
                let d = Envelope::decode_bytes(&w.0).unwrap();
                ensure_eq!(d.principal(), &Address::from(p), "envelope: principal");
                ensure_eq!((d.amount(), d.nonce(), d.gas_limit(), d.gas_fee()), (amount, nonce, to_gas(limit), fee), "envelope: fields");
                sig.push(hash_bytes(&w.0));
            }
            1 => {
                let (id, layer, state) = (a32(r), r.big(), a32(r));
                let v = Context::new(TransactionId::from(id), Layer(layer), State::from(state));
                let mut w = W::default();
                w.raw(&id).be(layer as u128, 8).raw(&state);
                round(ctx, "context", &v, &w.0)?;
                prefixes(ctx, "context", &w.0, |b| Context::decode_bytes(b))?;
                let d = Context::decode_bytes(&w.0).unwrap();
                ensure!(d.tx_id() == &TransactionId::from(id) && d.layer() == Layer(layer) && d.state() == &State::from(state), "context: fields");
                sig.push(hash_bytes(&w.0));
            }
            2 | 3 => {
                let (ver, target) = (r.u16() >> r.below(16), a20(r));
                let func = r.text(255);
                let (vd, cd) = (blob(r, 255), blob(r, 255));
                let v = Transaction {
                    version: ver,
                    target: target.into(),
                    func_name: func.clone(),
                    verifydata: vd.clone(),
                    calldata: cd.clone(),
                };
                let mut w = W::default();
                w.be(ver as u128, 2).raw(&target).str8(&func).blob8(&vd).blob8(&cd);
                round(ctx, "transaction", &v, &w.0)?;
                prefixes(ctx, "transaction", &w.0, |b| Transaction::decode_bytes(b))?;
                let d = Transaction::decode_bytes(&w.0).unwrap();
                ensure!(d.target() == &Address::from(target) && d.func_name() == func && d.calldata() == &cd[..] && d.verifydata() == &vd[..], "transaction: accessors of {}", trim(&d));
                sig.push(hash_bytes(&w.0));
            }
            _ => {
                let (ver, tmpl) = (r.u16() >> r.below(16), a20(r));
                let (name, ctor) = (r.text(255), r.text(255));
                let cd = blob(r, 255);
                let v = SpawnAccount {
                    version: ver,
                    account: Account { name: name.clone(), template_addr: tmpl.into() },
                    ctor_name: ctor.clone(),
                    calldata: cd.clone(),
                };
                let mut w = W::default();
                w.be(ver as u128, 2).raw(&tmpl).str8(&name).str8(&ctor).blob8(&cd);
                round(ctx, "spawn", &v, &w.0)?;
                prefixes(ctx, "spawn", &w.0, |b| SpawnAccount::decode_bytes(b))?;
                let d = SpawnAccount::decode_bytes(&w.0).unwrap();
                ensure!(d.template_addr() == &TemplateAddr::from(tmpl) && d.account_name() == name && d.ctor_name() == ctor && d.calldata == cd, "spawn: accessors of {}", trim(&d));
                ensure_eq!(SpawnAccount::new(ver, &TemplateAddr::from(tmpl), &name, &ctor, cd.clone()).encode_to_vec(), w.0, "spawn: built with new()");
                sig.push(hash_bytes(&w.0));
            }
        }
    }
    ctx.sample(|| format!("20 messages, signatures {sig:x?}"));
    for s in sig {
        ctx.evaluated(Some(s));
    }
    Ok(())
}

pub static C18: Spec = Spec {
    id: "C18",
    rule: "a case is 20 random envelopes, contexts, call and spawn transactions with border-heavy fields; each is encoded and decoded by the real codec and compared with an independent writer of the wire format; every prefix must be rejected; distinct by encoding",
    assumptions: &["a gas limit of zero and no gas limit share one encoding", "names and data of at most 255 bytes, the most the format can carry"],
    quick_cases: 40_000,
    thorough_cases: 3_000_000,
    quick_secs: 15,
    thorough_secs: 300,
    required: &["round_trips_envelope", "round_trips_context", "round_trips_transaction", "round_trips_spawn", "rejected_prefixes"],
    case: c18,
    ..DEFAULT_SPEC
};

// ---------------------------------------------------------------------------------------------
// C19: templates

#[derive(Clone)]
struct Parts {
    /// (kind, body) in order
    sections: Vec<(SectionKind, Section, Vec<u8>)>,
}

fn kind_no(k: SectionKind) -> u128 {
    match k {
        SectionKind::Code => 1,
        SectionKind::Data => 2,
        SectionKind::Ctors => 3,
        SectionKind::Schema => 4,
        SectionKind::Api => 5,
        SectionKind::Header => 6,
        SectionKind::Deploy => 7,
    }
}

fn data_section(r: &mut Rng) -> (DataSection, Vec<u8>, Vec<(u32, Vec<u32>)>) {
    let layouts = match r.below(8) {
        0 => 0,
        1 => r.range(2, 5),
        _ => 1,
    };
    let mut s = DataSection::with_capacity(layouts);
    let mut w = W::default();
    w.be(layouts as u128, 2);
    let mut all = vec![];
    for _ in 0..layouts {
        let n = match r.below(8) {
            0 => 0,
            1 => r.range(1, 2000),
            _ => r.range(1, 20),
        };
        let first = match r.below(6) {
            0 => u32::MAX - n.saturating_sub(1) as u32,
            1 | 2 => r.u32() >> r.range(1, 31),
            _ => 0,
        };
        let sizes: Vec<u32> = (0..n).map(|_| match r.below(4) { 0 => r.u16() as u32, 1 => *r.pick(&[0, 1, 32, 33, 65535]), _ => r.range(1, 40) as u32 }).collect();
        let first = if n == 0 { 0 } else { first };
        s.add_layout(Layout::Fixed(FixedLayout::from_byte_sizes(first, &sizes)));
        w.be(1, 2).be(n as u128, 2);
        if n > 0 {
            w.be(first as u128, 4);
            for &z in &sizes {
                w.be(z as u128, 2);
            }
        }
        all.push((first, sizes));
    }
    (s, w.0, all)
}

fn c19(ctx: &mut Ctx) -> R {
    let r = &mut ctx.rng;
    let mut parts = Parts { sections: vec![] };
    // Code
    let most = if r.pct(5) { 70_000 } else { 600 };
    let code = blob(r, most);
    let (flags, ver) = (r.big(), r.u32() >> r.below(32));
    let cs = CodeSection::new(CodeKind::Wasm, code.clone(), flags, GasMode::Fixed, ver);
    let mut w = W::default();
    w.be(1, 2).be(flags as u128, 8).be(1, 8).be(ver as u128, 4).be(code.len() as u128, 4).raw(&code);
    parts.sections.push((SectionKind::Code, cs.clone().into(), w.0));
    // Data
    let (ds, wire, layouts) = data_section(r);
    parts.sections.push((SectionKind::Data, ds.clone().into(), wire));
    // Ctors
    let n = match r.below(8) {
        0 => 0,
        1 => 255,
        _ => r.range(1, 6),
    };
    let ctors: Vec<String> = (0..n).map(|_| if n > 10 { r.ident(8) } else { r.text(255) }).collect();
    let mut w = W::default();
    w.u8(n as u8);
    for c in &ctors {
        w.str8(c);
    }
    let cts = CtorsSection::new(ctors.clone());
    parts.sections.push((SectionKind::Ctors, cts.clone().into(), w.0));
    let (mut header, mut deploy) = (None, None);
    if r.bool() {
        let (v, name, desc) = (r.u32() >> r.below(32), r.text(255), r.text(255));
        let mut w = W::default();
        w.be(v as u128, 4).str8(&name).str8(&desc);
        let h = HeaderSection::new(v, name, desc);
        header = Some(h.clone());
        parts.sections.push((SectionKind::Header, h.into(), w.0));
    }
    if r.bool() {
        let (id, layer, dep, t) = (a32(r), r.big(), a20(r), a20(r));
        let mut w = W::default();
        w.raw(&id).be(layer as u128, 8).raw(&dep).raw(&t);
        let d = DeploySection::new(TransactionId::from(id), Layer(layer), Address::from(dep), TemplateAddr::from(t));
        deploy = Some(d.clone());
        parts.sections.push((SectionKind::Deploy, d.into(), w.0));
    }

    // Each section by itself.
    for (k, s, wire) in parts.sections.clone() {
        match k {
            SectionKind::Code => round(ctx, "code_section", s.as_code(), &wire)?,
            SectionKind::Data => round(ctx, "data_section", s.as_data(), &wire)?,
            SectionKind::Ctors => round(ctx, "ctors_section", s.as_ctors(), &wire)?,
            SectionKind::Header => round(ctx, "header_section", s.as_header(), &wire)?,
            SectionKind::Deploy => round(ctx, "deploy_section", s.as_deploy(), &wire)?,
            _ => {}
        }
        let p = SectionPreview::new(k, wire.len() as u32);
        let mut w = W::default();
        w.be(kind_no(k), 2).be(wire.len() as u128, 4);
        round(ctx, "preview", &p, &w.0)?;
    }

    // The order that the builders produce, and any other one.
    let built = Template::new(cs.clone(), ds.clone(), cts.clone()).with_header(header.clone()).with_deploy(deploy.clone());
    let bytes = template::encode(&built);
    let expected_len = 2 + parts.sections.iter().map(|s| 6 + s.2.len()).sum::<usize>();
    ensure_eq!(bytes.len(), expected_len, "length of an encoded template");
    let d = decode_template(&bytes, None)?;
    ensure!(same_sections(&d, &parts, None), "decoding an encoded template gave other sections: {}", trim(&d));
    ensure!(d.contains(SectionKind::Header) == header.is_some() && d.contains(SectionKind::Deploy) == deploy.is_some(), "optional sections");
    ensure_eq!(template::encode(&d), bytes, "encoding a decoded template again");
    ctx.event("round_trips_template");

    ctx.rng.shuffle(&mut parts.sections);
    let mut w = W::default();
    w.be(parts.sections.len() as u128, 2);
    for (k, _, b) in &parts.sections {
        w.be(kind_no(*k), 2).be(b.len() as u128, 4).raw(b);
    }
    let wire = w.0;
    let d = decode_template(&wire, None)?;
    ensure!(same_sections(&d, &parts, None), "sections in another order are decoded as {}", trim(&d));
    let mut ss = Sections::with_capacity(parts.sections.len());
    for (_, s, _) in &parts.sections {
        ss.insert(s.clone());
    }
    ensure_eq!(hex::encode(blake(&ss.encode_to_vec())), hex::encode(blake(&wire)), "encoding of sections in a given order");
    let d2 = Sections::decode_bytes(&wire);
    ensure!(matches!(&d2, Ok(x) if *x == ss), "sections in a given order are decoded as {}", trim(&d2));

    // What the rest of the system reads off a template.
    ensure_eq!(d.code(), &code[..], "code of the decoded template");
    ensure_eq!(d.ctors(), &ctors[..], "constructors of the decoded template");
    for c in ctors.iter().take(5) {
        ensure!(d.is_ctor(c), "{c:?} isn't a constructor after decoding");
    }
    let other = ctx.rng.text(30);
    ensure_eq!(d.is_ctor(&other), ctors.contains(&other), "is_ctor({other:?})");
    for (l, (first, sizes)) in d.data_section().layouts().iter().zip(&layouts) {
        let l = l.as_fixed();
        ensure_eq!(l.len(), sizes.len(), "number of variables");
        let mut off = 0u32;
        for (i, z) in sizes.iter().enumerate() {
            let v = l.get(first + i as u32);
            ensure_eq!((v.id, v.offset, v.byte_size), (first + i as u32, off, *z), "variable {i}");
            off += z;
        }
    }

    // Only the sections of interest.
    let optional: Vec<SectionKind> = [SectionKind::Header, SectionKind::Deploy, SectionKind::Schema, SectionKind::Api]
        .into_iter()
        .filter(|_| ctx.rng.bool())
        .collect();
    let mut interests: HashSet<SectionKind> = optional.into_iter().collect();
    interests.extend([SectionKind::Code, SectionKind::Data, SectionKind::Ctors]);
    let d = decode_template(&wire, Some(interests.clone()))?;
    ensure!(same_sections(&d, &parts, Some(&interests)), "decoding only {interests:?} gave {:?}", d.sections().kinds().collect::<Vec<_>>());
    ctx.event("partial_decodes");
    let missing = *ctx.rng.pick(&[SectionKind::Code, SectionKind::Data, SectionKind::Ctors]);
    interests.remove(&missing);
    ensure!(template::decode(&mut Cursor::new(&wire[..]), Some(interests.clone())).is_err(), "a template without its {missing:?} section is accepted");

    // Skipping and decoding through the streaming decoder.
    {
        let mut c = Cursor::new(&wire[..]);
        let mut dec = match SectionsDecoder::new(&mut c) {
            Ok(d) => d,
            Err(e) => return violation(format!("SectionsDecoder: {e:?}")),
        };
        ensure_eq!(dec.section_count(), parts.sections.len(), "section count");
        for (k, s, b) in &parts.sections {
            ensure!(!dec.is_eof(), "end before the last section");
            let p = dec.next_preview();
            ensure!(matches!(&p, Ok(p) if p.kind() == *k && p.byte_size() as usize == b.len()), "preview of {k:?}: {p:?}");
            if ctx.rng.bool() {
                ensure!(dec.skip_section().is_ok(), "skipping {k:?}");
            } else {
                let x = dec.decode_section();
                ensure!(matches!(&x, Ok(x) if x == s), "streaming decode of {k:?}");
            }
        }
        ensure!(dec.is_eof(), "no end after the last section");
        ensure!(dec.next_preview().is_err(), "a preview after the last section");
    }
    prefixes(ctx, "template", &wire, |b| template::decode(&mut Cursor::new(b), None))?;
    prefixes(ctx, "sections", &wire, |b| Sections::decode_bytes(b))?;

    // Broken in ways that must be noticed.
    let i = ctx.rng.below(parts.sections.len());
    let what = ctx.rng.below(6);
    let mut w = W::default();
    let mut n = parts.sections.len();
    if what == 0 {
        n += 1;
    }
    w.be(n as u128, 2);
    for (j, (k, _, b)) in parts.sections.iter().enumerate() {
        let mut size = b.len() as u128;
        let mut kind = kind_no(*k);
        let mut body = b.clone();
        if i == j {
            match what {
                1 => size = (size + ctx.rng.range(1, 9) as u128).min(u32::MAX as u128),
                2 => size = size.saturating_sub(ctx.rng.range(1, 9) as u128),
                3 => kind = *ctx.rng.pick(&[0u128, 8, 9, 255, 256, 257, 65535]),
                4 => {
                    body.extend(vec![0; ctx.rng.range(1, 9)]);
                    size = body.len() as u128;
                }
                5 => {
                    kind = kind_no(parts.sections[(i + 1) % parts.sections.len()].0);
                    body = parts.sections[(i + 1) % parts.sections.len()].2.clone();
                    size = body.len() as u128;
                }
                _ => {}
            }
        }
        w.be(kind, 2).be(size, 4).raw(&body);
    }
    let bad = w.0;
    match guard(|| template::decode(&mut Cursor::new(&bad[..]), None).is_ok()) {
        Ok(false) => {}
        Ok(true) => return violation(format!("a template that is broken (kind {what}, section {:?}) is accepted", parts.sections[i].0)),
        Err(p) => return violation(format!("a template that is broken (kind {what}) panics at {}: {}", p.location, p.message)),
    }
    ctx.event(["rejected_missing_section", "rejected_size_too_big", "rejected_size_too_small", "rejected_unknown_kind", "rejected_padded_section", "rejected_duplicate"][what]);
    ctx.sample(|| format!("template of {} bytes, sections {:?}, {} ctors, layouts {:?}", wire.len(), parts.sections.iter().map(|s| s.0).collect::<Vec<_>>(), ctors.len(), layouts.iter().map(|l| (l.0, l.1.len())).collect::<Vec<_>>()));
    ctx.evaluated(Some(hash_bytes(&wire)));
    Ok(())
}

fn blake(b: &[u8]) -> [u8; 32] {
    *blake3::hash(b).as_bytes()
}

fn decode_template(b: &[u8], interests: Option<HashSet<SectionKind>>) -> R<Template> {
    match guard(|| template::decode(&mut Cursor::new(b), interests)) {
        Ok(Ok(t)) => Ok(t),
        Ok(Err(e)) => violation(format!("an encoded template is rejected: {e:?}")),
        Err(p) => violation(format!("decoding an encoded template panics at {}: {}", p.location, p.message)),
    }
}

fn same_sections(t: &Template, parts: &Parts, interests: Option<&HashSet<SectionKind>>) -> bool {
    let expected: HashMap<SectionKind, &Section> = parts
        .sections
        .iter()
        .filter(|(k, _, _)| interests.map_or(true, |i| i.contains(k)))
        .map(|(k, s, _)| (*k, s))
        .collect();
    t.sections().len() == expected.len() && expected.iter().all(|(k, s)| t.try_get(*k) == Some(*s))
}

pub static C19: Spec = Spec {
    id: "C19",
    rule: "a case is one random template (any sections in any order, border-heavy layouts, constructors, header and deploy data); sections and template are encoded and decoded by the real codec, whole, by section, by interest and streamed, and compared with an independent writer of the wire format; prefixes and six kinds of damage must be rejected; distinct by encoding",
    assumptions: &["schema and API sections have no encoding yet"],
    quick_cases: 100_000,
    thorough_cases: 5_000_000,
    quick_secs: 20,
    thorough_secs: 300,
    required: &["round_trips_template", "round_trips_code_section", "round_trips_data_section", "round_trips_ctors_section", "round_trips_header_section", "round_trips_deploy_section", "round_trips_preview", "partial_decodes", "rejected_prefixes", "rejected_missing_section", "rejected_size_too_big", "rejected_size_too_small", "rejected_unknown_kind", "rejected_padded_section", "rejected_duplicate"],
    case: c19,
    ..DEFAULT_SPEC
};

// ---------------------------------------------------------------------------------------------
// C20: receipts

fn logs(r: &mut Rng) -> Vec<Vec<u8>> {
    let n = match r.below(8) {
        0 => 255,
        1 => 1,
        2 | 3 => r.range(2, 6),
        4 => 254,
        _ => 0,
    };
    let big = r.pct(3);
    (0..n).map(|i| if big && i == 0 { r.bytes(65535) } else { let m = if n > 10 { 4 } else { 400 }; blob(r, m) }).collect()
}

fn err_string(r: &mut Rng) -> (String, String) {
    // (as given, as carried): messages are cut to fit 255 bytes, at a character's border.
    let s = match r.below(6) {
        0 => {
            let n = r.range(200, 400);
            let mut s = String::new();
            while s.len() < n {
                s.push(*r.pick(&['a', 'é', '語', '🦀']));
            }
            s
        }
        1 => "x".repeat(*r.pick(&[254, 255, 256, 257, 1000])),
        _ => r.text(255),
    };
    let mut cut = String::new();
    for c in s.chars() {
        if cut.len() + c.len_utf8() > 255 {
            break;
        }
        cut.push(c);
    }
    (s, cut)
}

/// The error, the error it is decoded as, its code and its blob.
fn error(r: &mut Rng) -> (RuntimeError, RuntimeError, u8, Vec<u8>) {
    let (t, a) = (a20(r), a20(r));
    let (template, target) = (TemplateAddr::from(t), Address::from(a));
    let func = r.text(255);
    let (msg, cut) = err_string(r);
    let code = r.below(10) as u8;
    let mk = |msg: String| match code {
        0 => RuntimeError::OOG,
        1 => RuntimeError::TemplateNotFound(template.clone()),
        2 => RuntimeError::AccountNotFound(target.clone()),
        3 => RuntimeError::CompilationFailed { target: target.clone(), template: template.clone(), msg },
        4 => RuntimeError::InstantiationFailed { target: target.clone(), template: template.clone(), msg },
        5 => RuntimeError::FuncNotFound { target: target.clone(), template: template.clone(), func: func.clone() },
        6 => RuntimeError::FuncFailed { target: target.clone(), template: template.clone(), func: func.clone(), msg },
        7 => RuntimeError::FuncNotCtor { template: template.clone(), func: func.clone() },
        8 => RuntimeError::FuncNotAllowed { target: target.clone(), template: template.clone(), func: func.clone(), msg },
        _ => RuntimeError::FuncInvalidSignature { target: target.clone(), template: template.clone(), func: func.clone() },
    };
    let mut w = W::default();
    match code {
        0 => {}
        1 => {
            w.raw(&t);
        }
        2 => {
            w.raw(&a);
        }
        3 | 4 => {
            w.raw(&t).raw(&a).str8(&cut);
        }
        5 | 9 => {
            w.raw(&t).raw(&a).str8(&func);
        }
        6 | 8 => {
            w.raw(&t).raw(&a).str8(&func).str8(&cut);
        }
        _ => {
            w.raw(&t).str8(&func);
        }
    }
    (mk(msg), mk(cut), code, w.0)
}

pub struct ReceiptCase {
    pub wire: Vec<u8>,
    pub given: Receipt,
    pub decoded: Receipt,
}

pub fn random_receipt(r: &mut Rng) -> ReceiptCase {
    let kind = r.below(3) as u8;
    let logs = logs(r);
    let rl = || logs.iter().map(|l| ReceiptLog::new(l.clone())).collect::<Vec<_>>();
    let mut w = W::default();
    w.u8(kind).be(0, 2);
    if r.pct(35) {
        let (err, cut, code, blob) = error(r);
        w.u8(0).u8(code).logs(&logs).raw(&blob);
        let mk = |e: RuntimeError| match kind {
            0 => Receipt::Deploy(DeployReceipt::from_err(e, rl())),
            1 => Receipt::Spawn(SpawnReceipt::from_err(e, rl())),
            _ => Receipt::Call(CallReceipt::from_err(e, rl())),
        };
        return ReceiptCase { wire: w.0, given: mk(err), decoded: mk(cut) };
    }
    w.u8(1);
    let (addr, state, g) = (a20(r), a32(r), gas(r));
    let rd = if r.pct(4) { r.bytes(65535) } else { blob(r, 700) };
    let n = match r.below(6) {
        0 => 0,
        1 => r.range(100, 400),
        _ => r.range(1, 8),
    };
    let mut touched: Vec<[u8; 20]> = (0..n).map(|_| {
        let mut a = a20(r);
        if r.pct(30) {
            a = [7; 20];
            a[r.below(20)] = r.u8();
        }
        a
    }).collect();
    touched.sort();
    touched.dedup();
    let set: HashSet<Address> = touched.iter().map(|a| Address::from(*a)).collect();
    let mk = || match kind {
        0 => Receipt::Deploy(DeployReceipt { version: 0, success: true, error: None, addr: Some(TemplateAddr::from(addr)), gas_used: to_gas(g), logs: rl() }),
        1 => Receipt::Spawn(SpawnReceipt {
            version: 0,
            success: true,
            error: None,
            account_addr: Some(Address::from(addr)),
            init_state: Some(State::from(state)),
            returndata: Some(rd.clone()),
            gas_used: to_gas(g),
            touched_accounts: set.clone(),
            logs: rl(),
        }),
        _ => Receipt::Call(CallReceipt {
            version: 0,
            success: true,
            error: None,
            new_state: Some(State::from(state)),
            returndata: Some(rd.clone()),
            gas_used: to_gas(g),
            touched_accounts: set.clone(),
            logs: rl(),
        }),
    };
    match kind {
        0 => {
            w.raw(&addr).gas(g).logs(&logs);
        }
        1 | _ => {
            if kind == 1 {
                w.raw(&addr);
            }
            w.raw(&state).be(rd.len() as u128, 2).raw(&rd).gas(g).be(touched.len() as u128, 2);
            for t in &touched {
                w.raw(t);
            }
            w.logs(&logs);
        }
    }
    ReceiptCase { wire: w.0, given: mk(), decoded: mk() }
}

fn c20(ctx: &mut Ctx) -> R {
    for _ in 0..6 {
        let c = random_receipt(&mut ctx.rng);
        let got = c.given.encode_to_vec();
        if got != c.wire {
            let at = got.iter().zip(&c.wire).position(|(a, b)| a != b).unwrap_or(got.len().min(c.wire.len()));
            return violation(format!("a receipt's encoding differs from the wire format at byte {at} (of {} and {}): {}", got.len(), c.wire.len(), trim(&c.given)));
        }
        // The same set of touched accounts always gives the same bytes.
        let again = match Receipt::decode_bytes(&c.wire) {
            Ok(d) => {
                ensure!(d == c.decoded, "decoded {} from the encoding of {}", trim(&d), trim(&c.given));
                d.encode_to_vec()
            }
            Err(e) => return violation(format!("the encoding of {} is rejected: {e:?}", trim(&c.given))),
        };
        ensure!(again == c.wire, "encoding a decoded receipt gives other bytes: {}", trim(&c.given));
        match &c.decoded {
            Receipt::Deploy(x) => {
                ctx.event(if x.success { "deploy_receipts" } else { "failed_deploy_receipts" });
                round(ctx, "deploy_receipt", x, &c.wire)?;
                ensure!(SpawnReceipt::decode_bytes(&c.wire).is_err() && CallReceipt::decode_bytes(&c.wire).is_err(), "a deploy receipt passes for another kind");
            }
            Receipt::Spawn(x) => {
                ctx.event(if x.success { "spawn_receipts" } else { "failed_spawn_receipts" });
                round(ctx, "spawn_receipt", x, &c.wire)?;
                ensure!(DeployReceipt::decode_bytes(&c.wire).is_err() && CallReceipt::decode_bytes(&c.wire).is_err(), "a spawn receipt passes for another kind");
            }
            Receipt::Call(x) => {
                ctx.event(if x.success { "call_receipts" } else { "failed_call_receipts" });
                round(ctx, "call_receipt", x, &c.wire)?;
                ensure!(DeployReceipt::decode_bytes(&c.wire).is_err() && SpawnReceipt::decode_bytes(&c.wire).is_err(), "a call receipt passes for another kind");
            }
        }
        prefixes(ctx, "receipt", &c.wire, |b| Receipt::decode_bytes(b))?;
        // Unknown kinds, versions, flags and error codes.
        for (at, bad) in [(0usize, 3u8), (0, 0x80), (2, 1), (1, 1), (3, 2), (3, 0xff)] {
            let mut b = c.wire.clone();
            b[at] = bad;
            ensure!(matches!(guard(|| Receipt::decode_bytes(&b).is_err()), Ok(true)), "a receipt with byte {at} = {bad} is accepted or panics");
        }
        if c.wire[3] == 0 {
            let mut b = c.wire.clone();
            b[4] = ctx.rng.range(10, 255) as u8;
            ensure!(matches!(guard(|| Receipt::decode_bytes(&b).is_err()), Ok(true)), "a receipt with error code {} is accepted or panics", b[4]);
        }
        ctx.sample(|| trim(&c.given));
        ctx.evaluated(Some(hash_bytes(&c.wire)));
    }
    Ok(())
}

pub static C20: Spec = Spec {
    id: "C20",
    rule: "a case is six random receipts of all kinds, successes and all ten errors, with up to 255 logs, 64 KiB of returned data, 400 touched accounts and over-long messages; encoded and decoded by the real codec and compared with an independent writer of the wire format; prefixes, unknown kinds, versions and codes must be rejected; distinct by encoding",
    assumptions: &["zero gas used and no gas used share one encoding", "error messages are cut to 255 bytes"],
    quick_cases: 40_000,
    thorough_cases: 3_000_000,
    quick_secs: 20,
    thorough_secs: 300,
    required: &["deploy_receipts", "failed_deploy_receipts", "spawn_receipts", "failed_spawn_receipts", "call_receipts", "failed_call_receipts", "rejected_prefixes"],
    case: c20,
    ..DEFAULT_SPEC
};

// ---------------------------------------------------------------------------------------------
// C21: decoders are total

/// One decoder: `Ok(bytes)` is the encoding of what it decoded.
type Dec = fn(&[u8]) -> Result<Vec<u8>, ()>;

fn via<T: Codec<Error = ParseError>>(b: &[u8]) -> Result<Vec<u8>, ()> {
    T::decode_bytes(b).map(|v| v.encode_to_vec()).map_err(|_| ())
}

pub const DECODERS: &[(&str, Dec)] = &[
    ("envelope", via::<Envelope>),
    ("context", via::<Context>),
    ("transaction", via::<Transaction>),
    ("spawn", via::<SpawnAccount>),
    ("receipt", via::<Receipt>),
    ("deploy_receipt", via::<DeployReceipt>),
    ("spawn_receipt", via::<SpawnReceipt>),
    ("call_receipt", via::<CallReceipt>),
    ("sections", via::<Sections>),
    ("code_section", via::<CodeSection>),
    ("data_section", via::<DataSection>),
    ("ctors_section", via::<CtorsSection>),
    ("header_section", via::<HeaderSection>),
    ("deploy_section", via::<DeploySection>),
    ("preview", via::<SectionPreview>),
    ("template", |b| template::decode(&mut Cursor::new(b), None).map(|t| template::encode(&t)).map_err(|_| ())),
    ("string", via::<String>),
    ("gas", via::<Gas>),
];

/// A valid encoding of some kind, to be damaged.
pub fn some_encoding(r: &mut Rng) -> (usize, Vec<u8>) {
    let mut w = W::default();
    match r.below(6) {
        0 => {
            w.raw(&r.bytes(60));
            (0, w.0)
        }
        1 => {
            let (f, v, c) = (r.text(255), blob(r, 255), blob(r, 255));
            w.be(0, 2).raw(&r.bytes(20)).str8(&f).blob8(&v).blob8(&c);
            (2, w.0)
        }
        2 => {
            let (n, f, c) = (r.text(255), r.text(255), blob(r, 255));
            w.be(0, 2).raw(&r.bytes(20)).str8(&n).str8(&f).blob8(&c);
            (3, w.0)
        }
        3 | 4 => (4, random_receipt(r).wire),
        _ => {
            let code = blob(r, 300);
            let (_, data, _) = data_section(r);
            let mut c = W::default();
            c.be(1, 2).be(r.big() as u128, 8).be(1, 8).be(0, 4).be(code.len() as u128, 4).raw(&code);
            let mut t = W::default();
            let ctor = r.text(60);
            t.u8(1).str8(&ctor);
            let mut h = W::default();
            let (name, desc) = (r.text(60), r.text(60));
            h.be(1, 4).str8(&name).str8(&desc);
            let mut s = vec![(1, c.0), (2, data), (3, t.0)];
            if r.bool() {
                s.push((6, h.0));
            }
            r.shuffle(&mut s);
            w.be(s.len() as u128, 2);
            for (k, b) in s {
                w.be(k, 2).be(b.len() as u128, 4).raw(&b);
            }
            (15, w.0)
        }
    }
}

pub fn damage(r: &mut Rng, b: &mut Vec<u8>) {
    for _ in 0..r.range(1, 4) {
        if b.is_empty() {
            b.push(r.u8());
        }
        let i = if r.bool() { r.below(b.len()) } else { r.below(b.len().min(40)) };
        match r.below(9) {
            0 => b[i] ^= 1 << r.below(8),
            1 => b[i] = r.u8(),
            2 => b[i] = *r.pick(&[0, 1, 2, 0x7f, 0x80, 0xff]),
            3 => b.truncate(i),
            4 => {
                let n = r.range(1, 8);
                let x = r.bytes(n);
                b.splice(i..i, x);
            }
            5 => {
                let n = r.range(1, 8).min(b.len() - i);
                b.drain(i..i + n);
            }
            6 => {
                // a huge length or count
                let n = *r.pick(&[1usize, 2, 4]);
                for j in i..(i + n).min(b.len()) {
                    b[j] = 0xff;
                }
            }
            7 => {
                let n = r.below(b.len() - i) + 1;
                let x: Vec<u8> = b[i..i + n].to_vec();
                let at = r.below(b.len());
                b.splice(at..at, x);
                b.truncate(200_000);
            }
            _ => {
                let n = r.below(300);
                let x = r.bytes(n);
                b.extend(x);
            }
        }
    }
}

fn c21(ctx: &mut Ctx) -> R {
    for round in 0..20 {
        let r = &mut ctx.rng;
        let (kind, mut b) = some_encoding(r);
        if round == 0 {
            let n = r.below(600);
            b = r.bytes(n);
        } else {
            damage(r, &mut b);
        }
        let mut todo: Vec<usize> = vec![kind, r.below(DECODERS.len()), r.below(DECODERS.len())];
        if ctx.index % 10 == 0 {
            todo = (0..DECODERS.len()).collect();
        }
        for d in todo {
            let (name, dec) = DECODERS[d];
            let (out, max) = with_max_alloc(|| guard(|| dec(&b)));
            let out = match out {
                Ok(o) => o,
                Err(p) => return violation(format!("decoding {} bytes as {name} panics at {}: {}; bytes {}", b.len(), p.location, p.message, hex::encode(&b[..b.len().min(300)]))),
            };
            ensure!(max <= (16 << 20) + 64 * b.len(), "decoding {} bytes as {name} requests {max} bytes of memory at once; bytes {}", b.len(), hex::encode(&b[..b.len().min(300)]));
            match out {
                Err(()) => ctx.event("rejected"),
                Ok(e) => {
                    ctx.event("accepted");
                    // What was accepted is a value like any other: it survives its own encoding.
                    match guard(|| dec(&e)) {
                        Ok(Ok(e2)) => ensure!(e2 == e, "a {name} decoded from {} re-encodes differently each time", hex::encode(&b[..b.len().min(300)])),
                        Ok(Err(())) => return violation(format!("a {name} decoded from {} is rejected when encoded again", hex::encode(&b[..b.len().min(300)]))),
                        Err(p) => return violation(format!("decoding a re-encoded {name} panics at {}: {}", p.location, p.message)),
                    }
                }
            }
            ctx.event(&format!("decodes_{name}"));
            ctx.evaluated(Some(hash_bytes(&b) ^ d as u64));
        }
        ctx.sample(|| format!("{} bytes: {}", b.len(), hex::encode(&b[..b.len().min(200)])));
    }
    Ok(())
}

pub static C21: Spec = Spec {
    id: "C21",
    rule: "a case is 20 byte strings (random, or valid messages, receipts and templates damaged in 1-4 places) given to the decoders; monitors watch for panics, for memory requested out of proportion to the input and for accepted values that don't survive their own encoding; distinct by bytes and decoder",
    assumptions: &[],
    quick_cases: 100_000,
    thorough_cases: 10_000_000,
    quick_secs: 25,
    thorough_secs: 600,
    required: &["accepted", "rejected", "decodes_template", "decodes_receipt", "decodes_transaction", "decodes_spawn", "decodes_envelope", "decodes_context"],
    case: c21,
    ..DEFAULT_SPEC
};
