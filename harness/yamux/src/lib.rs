#![cfg_attr(kani, feature(core_io, core_io_internals))]
#[cfg(kani)]
extern crate alloc;

#[path = "../../common/proof.rs"]
#[macro_use]
pub mod proof_common;
#[path = "../../common/sym.rs"]
pub mod sym;
#[path = "../../common/wake.rs"]
pub mod wake;
mod wire;

pub mod codec;
pub mod session;
pub mod stream;

#[cfg(not(kani))]
pub fn run(name: &str) -> bool {
    wire::in_runtime(|| codec::run(name) || session::run(name) || stream::run(name))
}
