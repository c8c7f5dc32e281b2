mod decoder;
pub use self::decoder::Decoder;
mod encoder;
pub use self::encoder::Encoder;
mod framed;
pub use self::framed::{bind, Framed, FramedParts, FramedRead, FramedWrite, In, Out, LINK_CAP};
pub mod length_delimited;
pub use self::length_delimited::{LengthDelimitedCodec, LengthDelimitedCodecError};
