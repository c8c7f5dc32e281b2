//! Verification model of `tokio-util` 0.3 `codec`.
//!
//! `Decoder`, `Encoder` and `LengthDelimitedCodec` are the original sources.  `Framed` and its two
//! halves work at the level of whole items: instead of moving bytes through the codec they move
//! items through a `Link` the harness owns.  What the codec does to bytes is the subject of
//! separate harnesses; counterexamples are replayed against the real crate over bytes.
#![allow(warnings)]
pub mod codec;
