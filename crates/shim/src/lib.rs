//! The parts of Substrate's FRAME that the repository's pallets and runtime modules are written
//! against, small enough for symbolic execution. Thin crates named `frame-support`, `sp-runtime`
//! and so on re-export the modules of this one.
#![feature(specialization)]
#![allow(incomplete_features, static_mut_refs, unused_macros)]

pub mod collections;
pub mod frame_support;
pub mod frame_system;
pub mod sp_core;
pub mod sp_io;
pub mod sp_runtime;
pub mod sp_std;
pub mod storage;
pub mod tokens;

pub use parity_scale_codec as codec;
pub use scale_info;
pub use shim_macro;
pub use vk;

/// Something the models cannot represent: no verdict either way.
pub fn out_of_bounds(what: &str) -> ! {
    vk::limit(what)
}

pub fn opaque_type(name: &'static str) -> scale_info::Type {
    scale_info::Type::builder()
        .path(scale_info::Path::new(name, "shim"))
        .composite(scale_info::build::Fields::unit())
}

/// Codec and metadata for types that are never encoded by the code under check.
#[macro_export]
macro_rules! dummy_codec {
    ($t:ty) => {
        impl $crate::codec::Encode for $t {
            fn encode_to<O: $crate::codec::Output + ?Sized>(&self, _: &mut O) {
                $crate::out_of_bounds("encoding of an opaque type")
            }
        }
        impl $crate::codec::EncodeLike for $t {}
        impl $crate::codec::Decode for $t {
            fn decode<I: $crate::codec::Input>(_: &mut I) -> Result<Self, $crate::codec::Error> {
                $crate::out_of_bounds("decoding of an opaque type")
            }
        }
        impl $crate::codec::MaxEncodedLen for $t {
            fn max_encoded_len() -> usize {
                0
            }
        }
        impl $crate::scale_info::TypeInfo for $t {
            type Identity = Self;
            fn type_info() -> $crate::scale_info::Type {
                $crate::opaque_type(stringify!($t))
            }
        }
    };
}

pub mod memberships;
pub mod nfts;
pub mod referenda;
pub mod tracks;
pub mod xcm;

/// Equality of 32 bytes, two words at a time.
pub fn same32(a: &[u8; 32], b: &[u8; 32]) -> bool {
    let word = |x: &[u8; 32], i: usize| {
        u128::from_le_bytes([
            x[i], x[i + 1], x[i + 2], x[i + 3], x[i + 4], x[i + 5], x[i + 6], x[i + 7], x[i + 8], x[i + 9], x[i + 10],
            x[i + 11], x[i + 12], x[i + 13], x[i + 14], x[i + 15],
        ])
    };
    word(a, 0) == word(b, 0) && word(a, 16) == word(b, 16)
}
