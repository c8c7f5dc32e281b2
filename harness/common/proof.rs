//! Stubs shared by every proof harness and the macro that declares one.
//!
//! `fmt`: `format!` yields an empty string (no property looks at message texts).
//! `io_*`: a custom `io::Error` keeps its kind and loses its payload; dropping one is then
//! trivial; error numbers of the operating system do not occur.  Without this every error path drags `dyn Error` drop glue into the query.
//! `wake*`: a waker is a number whose wake-ups are counted, without the function table.
#[cfg(kani)]
pub mod stubs {
    use std::io;

    pub fn fmt(_: std::fmt::Arguments) -> String {
        String::new()
    }
    pub fn io_owner(kind: io::ErrorKind, e: Box<dyn std::error::Error + Send + Sync>) -> core::io::CustomOwner {
        std::mem::forget(e);
        unsafe { std::mem::transmute((kind as usize + 1) * 16) }
    }
    pub unsafe fn io_error(c: core::io::CustomOwner) -> io::Error {
        let k: usize = std::mem::transmute(c);
        let kind: io::ErrorKind = std::mem::transmute((k / 16 - 1) as u8);
        kind.into()
    }
    pub fn io_kind(k: u32) -> Option<io::ErrorKind> {
        if k <= io::ErrorKind::Other as u32 {
            Some(unsafe { std::mem::transmute(k as u8) })
        } else {
            None
        }
    }
    pub fn io_errno(_: i32) -> io::ErrorKind {
        io::ErrorKind::Other
    }
    pub fn wake(w: std::task::Waker) {
        crate::wake::count(&w);
        std::mem::forget(w);
    }
    pub fn wake_by_ref(w: &std::task::Waker) {
        crate::wake::count(w);
    }
    pub fn wake_clone(w: &std::task::Waker) -> std::task::Waker {
        unsafe { std::task::Waker::new(w.data(), w.vtable()) }
    }
    pub fn wake_drop(_: &mut std::task::Waker) {}
    /// The panic of a failed `unwrap`, without the text of the error.
    pub fn unwrap_failed(_: &str, _: &dyn std::fmt::Debug) -> ! {
        panic!("unwrap of an error")
    }
    pub fn io_drop(_: &mut core::io::CustomOwner) {
        panic!("VERIF-MODEL-BOUND custom io error dropped")
    }
}


/// Declares harnesses: each becomes a Kani proof and an entry of the native `run` table.
#[macro_export]
macro_rules! proofs {
    ($($(#[stub($($stub:tt)*)])* $unwind:literal $name:ident $body:block)*) => {
        $(pub fn $name() $body)*

        #[cfg(kani)]
        mod proof {
            $(
                #[kani::proof]
                #[kani::unwind($unwind)]
                #[kani::stub(alloc::fmt::format, crate::proof_common::stubs::fmt)]
                #[kani::stub(alloc::io::error::custom_owner_from_box, crate::proof_common::stubs::io_owner)]
                #[kani::stub(std::io::Error::from_custom_owner, crate::proof_common::stubs::io_error)]
                #[kani::stub(<core::io::CustomOwner as core::ops::Drop>::drop, crate::proof_common::stubs::io_drop)]
                #[kani::stub(std::io::ErrorKind::from_prim, crate::proof_common::stubs::io_kind)]
                #[kani::stub(std::task::Waker::wake, crate::proof_common::stubs::wake)]
                #[kani::stub(std::task::Waker::wake_by_ref, crate::proof_common::stubs::wake_by_ref)]
                #[kani::stub(<std::task::Waker as std::clone::Clone>::clone, crate::proof_common::stubs::wake_clone)]
                #[kani::stub(<std::task::Waker as std::ops::Drop>::drop, crate::proof_common::stubs::wake_drop)]
                #[kani::stub(core::result::unwrap_failed, crate::proof_common::stubs::unwrap_failed)]
                $(#[kani::stub($($stub)*)])*
                fn $name() {
                    super::$name();
                    crate::sym::end();
                }
            )*
        }

        #[cfg(not(kani))]
        pub fn run(name: &str) -> bool {
            match name {
                $(stringify!($name) => {
                    $name();
                    crate::sym::end();
                    true
                })*
                _ => false,
            }
        }
    };
}

/// Runs the body once for each value of a symbolic choice: the control flow of a case is concrete,
/// its data symbolic.  (The case is an input like any other and part of a counterexample.)
#[macro_export]
macro_rules! cases {
    ($t:ty, $($n:literal)*, $f:expr) => {{
        let case = $crate::sym::u8();
        match case {
            $($n => $f($n as $t),)*
            _ => $crate::sym::assume(false),
        }
    }};
}
