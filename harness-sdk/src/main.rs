//! The checks of the SDK that run natively, without the rest of SVM.
#[path = "../../harness/src/abi.rs"]
mod abi;
#[path = "../../harness/src/core.rs"]
mod core;
mod native_template;
mod p_native;
#[path = "../../harness/src/sdk_model.rs"]
mod sdk_model;

use crate::core::*;

#[global_allocator]
static ALLOC: Watching = Watching;

pub fn reset_case() {}

fn main() {
    std::process::exit(main_of(&[&p_native::C24]));
}
