//! `log` with empty bodies: arguments are type-checked and never evaluated.
#![allow(warnings)]
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Level {
    Error = 1,
    Warn,
    Info,
    Debug,
    Trace,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum LevelFilter {
    Off,
    Error,
    Warn,
    Info,
    Debug,
    Trace,
}
pub fn max_level() -> LevelFilter {
    LevelFilter::Off
}
#[macro_export]
macro_rules! log {
    (target: $t:expr, $l:expr, $($arg:tt)+) => ({ if false { let _ = ($t, $l); let _ = ::core::format_args!($($arg)+); } });
    ($l:expr, $($arg:tt)+) => ({ if false { let _ = $l; let _ = ::core::format_args!($($arg)+); } });
}
#[macro_export]
macro_rules! __verif_nolog {
    (target: $t:expr, $($arg:tt)+) => ({ if false { let _ = $t; let _ = ::core::format_args!($($arg)+); } });
    ($($arg:tt)+) => ({ if false { let _ = ::core::format_args!($($arg)+); } });
}
#[macro_export]
macro_rules! error { ($($arg:tt)+) => ($crate::__verif_nolog!($($arg)+)) }
#[macro_export]
macro_rules! warn { ($($arg:tt)+) => ($crate::__verif_nolog!($($arg)+)) }
#[macro_export]
macro_rules! info { ($($arg:tt)+) => ($crate::__verif_nolog!($($arg)+)) }
#[macro_export]
macro_rules! debug { ($($arg:tt)+) => ($crate::__verif_nolog!($($arg)+)) }
#[macro_export]
macro_rules! trace { ($($arg:tt)+) => ($crate::__verif_nolog!($($arg)+)) }
#[macro_export]
macro_rules! log_enabled { ($($arg:tt)+) => (false) }
