#![cfg_attr(kani, feature(core_io, core_io_internals))]
#[cfg(kani)]
extern crate alloc;

#[path = "../../common/proof.rs"]
#[macro_use]
pub mod proof_common;
#[path = "../../common/wake.rs"]
pub mod wake;
#[path = "../../common/sym.rs"]
pub mod sym;
#[cfg(kani)]
pub mod stubs;
pub mod binary;
pub mod text;
#[cfg(not(kani))]
pub fn run(name: &str) -> bool {
    binary::run(name) || text::run(name)
}
