RT = "crates/host/runtime/src/"
ST = "crates/host/state/src/"
CO = "crates/host/codec/src/"

bug("c01_stale_read", "C01", [(ST+"storage.rs",
"""        } else if let Some(value) = self.dirty_changes.get(hash) {
            Ok(Some(value.clone()))
        } else if let Some(value) = self.next_layer.changes.get(hash) {
            Ok(Some(value.clone()))
""",
"""        } else if let Some(value) = self.next_layer.changes.get(hash) {
            Ok(Some(value.clone()))
        } else if let Some(value) = self.dirty_changes.get(hash) {
            Ok(Some(value.clone()))
""")], "crates/host/state", r'''
use svm_genesis_config::GenesisConfig;
use svm_state::{AccountStorage, GlobalState};
use svm_types::{Address, BytesPrimitive};

#[tokio::test]
async fn a_read_returns_the_last_write() {
    let mut gs = GlobalState::in_memory(GenesisConfig::mainnet()).await;
    let addr = Address::repeat(7);
    let mut acc = AccountStorage::create_stub(gs.clone(), &addr, "a".into(), 10, 0).await.unwrap();
    gs.checkpoint().await.unwrap();
    acc.set_balance(20).await.unwrap();
    assert_eq!(acc.balance().await.unwrap(), 20);
}
''', "a key written again between a checkpoint and the next one", "a read returns the checkpointed value instead of the newer one")

bug("c02_long_values", "C02", [(ST+"storage.rs",
"    hasher.update(value);\n    State(hasher.finalize())",
"    hasher.update(&value[..value.len().min(1024)]);\n    State(hasher.finalize())")], "crates/host/state", r'''
use svm_genesis_config::GenesisConfig;
use svm_layout::{FixedLayout, Layout};
use svm_state::{GlobalState, TemplateStorage};
use svm_types::*;

async fn fingerprint(last: u8) -> State {
    let mut gs = GlobalState::in_memory(GenesisConfig::mainnet()).await;
    let mut code = vec![0; 5000];
    *code.last_mut().unwrap() = last;
    let t = Template::new(
        CodeSection::new_fixed(code, 0),
        DataSection::with_layout(Layout::Fixed(FixedLayout::from_byte_sizes(0, &[4]))),
        CtorsSection::new(vec![]),
    );
    let none = Sections::with_capacity(0);
    TemplateStorage::create(gs.clone(), &TemplateAddr::repeat(1), t.sections().clone(), none).await.unwrap();
    gs.checkpoint().await.unwrap();
    gs.commit().await.unwrap().1
}

#[tokio::test]
async fn different_templates_have_different_fingerprints() {
    assert_eq!(fingerprint(1).await, fingerprint(1).await);
    assert_ne!(fingerprint(1).await, fingerprint(2).await);
}
''', "two states that only differ beyond the first KiB of a stored value, i.e. of a template", "different states have the same fingerprint")

bug("c04_far_variables", "C04", [(ST+"account_storage.rs",
"""        "accounts:{}:var_segments:{}",
        account_addr.to_string(),
        segment
""",
"""        "accounts:{}:var_segments:{}",
        account_addr.to_string(),
        segment as u8
""")], "crates/host/state", r'''
use svm_genesis_config::GenesisConfig;
use svm_layout::{FixedLayout, Layout};
use svm_state::{AccountStorage, GlobalState, TemplateStorage};
use svm_types::*;

#[tokio::test]
async fn variables_far_apart_do_not_interfere() {
    let gs = GlobalState::in_memory(GenesisConfig::mainnet()).await;
    let layout = FixedLayout::from_byte_sizes(0, &[32; 300]);
    let t = Template::new(
        CodeSection::new_fixed(vec![], 0),
        DataSection::with_layout(Layout::Fixed(layout)),
        CtorsSection::new(vec![]),
    );
    let tmpl = TemplateAddr::repeat(1);
    let none = Sections::with_capacity(0);
    TemplateStorage::create(gs.clone(), &tmpl, t.sections().clone(), none).await.unwrap();
    let mut a = AccountStorage::create(gs, &Address::repeat(2), "a".into(), tmpl, 0, 0).await.unwrap();
    for i in 0..300u32 {
        a.set_var_bytes(i, &[i as u8 ^ (i >> 8) as u8; 32]).await.unwrap();
    }
    for i in 0..300u32 {
        assert_eq!(a.get_var_vec(i).await.unwrap(), vec![i as u8 ^ (i >> 8) as u8; 32], "variable {}", i);
    }
}
''', "an account with more than 8 KiB of storage", "variables 8 KiB apart share their storage")

RUNTIME_DEMO = r'''
#![allow(unused)]
use svm_codec::Codec;
use svm_layout::{FixedLayout, Layout};
use svm_runtime::Runtime;
use svm_runtime_testing as testing;
use svm_types::*;

fn template(wat: &str, sizes: Vec<u32>, ctors: &[&str]) -> Vec<u8> {
    let wasm = wat::parse_str(wat).unwrap();
    let t = Template::new(
        CodeSection::new_fixed(wasm, 0),
        DataSection::with_layout(Layout::Fixed(FixedLayout::from_byte_sizes(0, &sizes))),
        CtorsSection::new(ctors.iter().map(|c| c.to_string()).collect()),
    );
    svm_codec::template::encode(&t)
}

fn deploy(rt: &mut Runtime, msg: &[u8]) -> TemplateAddr {
    rt.validate_deploy(msg).unwrap();
    let r = rt.deploy(&Envelope::default(), msg, &Context::default());
    assert!(r.success, "{:?}", r);
    r.template_addr().clone()
}

fn spawn(rt: &mut Runtime, t: &TemplateAddr, ctor: &str) -> SpawnReceipt {
    let msg = testing::build_spawn(t, "acc", ctor, &[]);
    rt.spawn(&Envelope::default(), &msg, &Context::default())
}

fn tx(target: &Address, func: &str, verifydata: &[u8], calldata: &[u8]) -> Vec<u8> {
    Transaction {
        version: 0,
        target: target.clone(),
        func_name: func.to_string(),
        verifydata: verifydata.to_vec(),
        calldata: calldata.to_vec(),
    }
    .encode_to_vec()
}
'''

bug("c07_access_after_alloc", "C07", [(RT+"runtime/runtime.rs",
"        env.set_access_mode(origin_mode);",
"        env.set_access_mode(match origin_mode {\n            AccessMode::AccessDenied => AccessMode::FullAccess,\n            mode => mode,\n        });")],
"crates/host/runtime", RUNTIME_DEMO + r'''
const WAT: &str = r#"(module
  (import "svm" "svm_set32" (func $set32 (param i32 i32)))
  (memory (export "memory") 1)
  (func (export "svm_alloc") (param i32) (result i32) (i32.const 64))
  (func (export "svm_verify") (result i32) (call $set32 (i32.const 0) (i32.const 77)) (i32.const 0))
  (func (export "init"))
)"#;

#[test]
fn verification_code_cannot_write_storage() {
    let rt = &mut testing::create_memory_runtime();
    let t = deploy(rt, &template(WAT, vec![4], &["init"]));
    let s = spawn(rt, &t, "init");
    assert!(s.success, "{:?}", s);
    let target = s.account_addr().clone();
    for verifydata in [&[][..], &[1, 2, 3][..]] {
        let msg = tx(&target, "f", verifydata, &[]);
        let ok = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            rt.verify(&Envelope::default(), &msg, &Context::default()).success
        }));
        assert!(!matches!(ok, Ok(true)), "svm_verify wrote storage");
    }
}
''', "verification of a transaction that has verify data, by code that accesses storage", "verification code gets full access to storage and coins")

bug("c08_exact_limit", "C08", [(RT+"runtime/gas_tank.rs",
"                if left > gas {", "                if left >= gas {")],
"crates/host/runtime", RUNTIME_DEMO + r'''
const WAT: &str = r#"(module
  (memory (export "memory") 1)
  (func (export "svm_alloc") (param i32) (result i32) (i32.const 64))
  (func (export "svm_verify") (result i32) (i32.const 0))
  (func (export "init") (drop (i32.const 1)) (drop (i32.const 2)))
)"#;

#[test]
fn a_spawn_needs_more_than_its_price() {
    let rt = &mut testing::create_memory_runtime();
    let t = deploy(rt, &template(WAT, vec![4], &["init"]));
    let msg = testing::build_spawn(&t, "acc", "init", &[]);
    // The constructor's price is found by raising the limit one by one.
    let base = 1000 * msg.len() as u64;
    let mut ok = vec![];
    for extra in 0..20 {
        let e = Envelope::with_gas_limit(Gas::with(base + extra));
        let r = rt.spawn(&e, &msg, &Context::default());
        ok.push(r.success);
    }
    let first = ok.iter().position(|x| *x).unwrap();
    let program = svm_program::Program::new(&wat::parse_str(WAT).unwrap(), true).unwrap();
    use svm_program::ProgramVisitor;
    let registry = svm_runtime::PriceResolverRegistry::default();
    let pricing = svm_gas::ProgramPricing::new(registry.get(0).unwrap());
    let price = pricing.visit(&program).unwrap().get(program.exports().get("init").unwrap());
    assert_eq!(first as u64, price as u64 + 1);
}
''', "a gas limit that is exactly the price of the spawn", "a spawn runs on a limit that doesn't exceed its price")

bug("c20_many_logs", "C20", [(CO+"receipt/logs.rs",
"        let nlogs = cursor.read_byte()?;\n", "        let nlogs = cursor.read_byte()? as i8;\n")],
"crates/host/codec", r'''
use svm_codec::Codec;
use svm_types::{DeployReceipt, Gas, ReceiptLog, TemplateAddr, BytesPrimitive};

#[test]
fn receipts_with_many_logs_round_trip() {
    for n in [0usize, 1, 100, 127, 128, 200, 255] {
        let r = DeployReceipt {
            version: 0,
            success: true,
            error: None,
            addr: Some(TemplateAddr::repeat(3)),
            gas_used: Gas::with(1),
            logs: (0..n).map(|i| ReceiptLog::new(vec![i as u8])).collect(),
        };
        let bytes = r.encode_to_vec();
        let d = std::panic::catch_unwind(|| DeployReceipt::decode_bytes(&bytes));
        assert_eq!(d.unwrap().unwrap(), r, "{} logs", n);
    }
}
''', "a receipt with more than 127 logs", "the logs are lost (or the decoder fails) when the receipt is decoded")
