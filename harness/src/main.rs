mod abi;
mod core;
mod engine;
mod ffi;
mod hostile;
mod iolog;
mod p_abi;
mod p_cli;
mod p_codec;
mod p_crash;
mod p_ffi;
mod p_json;
mod p_life;
mod p_nodes;
mod p_runtime;
mod p_sdk;
mod p_state;
mod p_wasm;
mod refgas;
mod script;
mod sdk_model;

use crate::core::*;

#[global_allocator]
static ALLOC: Watching = Watching;

fn specs() -> Vec<&'static Spec> {
    let v: Vec<&'static Spec> = vec![&p_state::C01, &p_state::C02, &p_crash::C03, &p_state::C04, &p_runtime::C05, &p_runtime::C06, &p_runtime::C07, &p_runtime::C08, &p_runtime::C09, &p_nodes::C10, &p_ffi::C12, &p_life::C13, &p_ffi::C14, &p_wasm::C15, &p_wasm::C16, &p_wasm::C17, &p_codec::C18, &p_codec::C19, &p_codec::C20, &p_codec::C21, &p_abi::C22, &p_json::C23, &p_sdk::C25, &p_cli::C26];
    v
}

pub fn reset_case() {
    engine::reset_tokio();
}

fn main() {
    std::process::exit(main_of(&specs()));
}
