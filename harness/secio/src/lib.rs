#![cfg_attr(kani, feature(core_io, core_io_internals, allocator_api))]
#[cfg(kani)]
extern crate alloc;

#[path = "../../common/proof.rs"]
#[macro_use]
pub mod proof_common;
#[path = "../../common/sym.rs"]
pub mod sym;
#[path = "../../common/wake.rs"]
pub mod wake;
#[cfg(kani)]
pub mod stubs;
mod wire;

pub mod channel;
pub mod choose;
pub mod cipher;
pub mod peer;

#[cfg(not(kani))]
pub fn run(name: &str) -> bool {
    channel::run(name) || choose::run(name) || cipher::run(name) || peer::run(name)
}
