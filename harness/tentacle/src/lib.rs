#![cfg_attr(kani, feature(core_io, core_io_internals, allocator_api))]
#[cfg(kani)]
extern crate alloc;

#[path = "../../common/proof.rs"]
#[macro_use]
pub mod proof_common;
#[path = "../../common/sym.rs"]
pub mod sym;
#[path = "../../common/wake.rs"]
pub mod wake;
#[cfg(kani)]
pub mod stubs;

pub mod addr;
pub mod handler;
pub mod own;
pub mod protocol;
pub mod queue;
pub mod version;

#[cfg(not(kani))]
pub fn run(name: &str) -> bool {
    addr::run(name) || handler::run(name) || own::run(name) || protocol::run(name) || queue::run(name) || version::run(name)
}
