//! `bs58` for the code under check: the real crate natively, the relational model symbolically.
#[allow(dead_code)]
mod model;
#[cfg(any(kani, feature = "model"))]
pub use model::*;
#[cfg(not(any(kani, feature = "model")))]
pub use bs58_real::*;

pub mod both {
    pub use bs58_real as real;
}

/// See `model::Hint`; without effect natively.
pub fn hint(_zeros: usize, _len: usize, _digits: [u8; 11], _value: u128) {
    #[cfg(any(kani, feature = "model"))]
    unsafe {
        model::HINT = Some(model::Hint { zeros: _zeros, len: _len, digits: _digits, value: _value })
    }
}

/// The digit a character stands for in the default alphabet, 255 for none.
pub fn digit_of(c: u8) -> u8 {
    model::digit_of(c)
}
/// The character of a digit.
pub fn char_of(d: u8) -> u8 {
    model::char_of(d)
}

/// From here on a valid text decodes to arbitrary bytes, as many as a text of its length can
/// denote, and the same for the same text. What it really decodes to is among them. Without effect
/// natively.
pub fn any_number() {
    #[cfg(any(kani, feature = "model"))]
    unsafe {
        model::ANY_NUMBER = true
    }
}
