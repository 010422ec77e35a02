// Stand-in for the `bs58` crate during symbolic execution.
//
// Base58 division loops do not bit-blast. This model has the same results, stated relationally:
// `encode` picks digits and assumes that they denote the input number; `decode` evaluates the
// digits by Horner's rule. Inputs up to 15 bytes / 21 characters; anything longer is cut by an
// assertion, never silently. `tests/agree.rs` compares the model with the real crate natively.




#[path = "alphabet.rs"]
mod alphabet;
pub use alphabet::Alphabet;

pub mod encode {
    pub use super::EncodeBuilder;
    pub type Result<T> = core::result::Result<T, Error>;
    #[derive(Copy, Clone, Debug, Eq, PartialEq)]
    #[non_exhaustive]
    pub enum Error {
        BufferTooSmall,
    }
    impl core::fmt::Display for Error {
        fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
            f.write_str("buffer provided to encode base58 string into was too small")
        }
    }
    pub use super::EncodeTarget;
}
pub mod decode {
    pub use super::DecodeBuilder;
    pub type Result<T> = core::result::Result<T, Error>;
    #[derive(Copy, Clone, Debug, Eq, PartialEq)]
    #[non_exhaustive]
    pub enum Error {
        BufferTooSmall,
        InvalidCharacter { character: char, index: usize },
        NonAsciiCharacter { index: usize },
    }
    impl core::fmt::Display for Error {
        fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
            f.write_str("base58 decode error")
        }
    }
    pub use super::DecodeTarget;
}

pub struct EncodeBuilder<'a, I: AsRef<[u8]>> {
    input: I,
    alpha: &'a Alphabet,
}
pub struct DecodeBuilder<'a, I: AsRef<[u8]>> {
    input: I,
    alpha: &'a Alphabet,
}

pub fn encode<I: AsRef<[u8]>>(input: I) -> EncodeBuilder<'static, I> {
    EncodeBuilder { input, alpha: Alphabet::DEFAULT }
}
pub fn decode<I: AsRef<[u8]>>(input: I) -> DecodeBuilder<'static, I> {
    DecodeBuilder { input, alpha: Alphabet::DEFAULT }
}

pub trait EncodeTarget {
    fn encode_with(&mut self, max: usize, f: impl for<'a> FnOnce(&'a mut [u8]) -> encode::Result<usize>) -> encode::Result<usize>;
}
pub trait DecodeTarget {
    fn decode_with(&mut self, max: usize, f: impl for<'a> FnOnce(&'a mut [u8]) -> decode::Result<usize>) -> decode::Result<usize>;
}
impl<T: EncodeTarget + ?Sized> EncodeTarget for &mut T {
    fn encode_with(&mut self, max: usize, f: impl for<'a> FnOnce(&'a mut [u8]) -> encode::Result<usize>) -> encode::Result<usize> {
        T::encode_with(*self, max, f)
    }
}
impl<T: DecodeTarget + ?Sized> DecodeTarget for &mut T {
    fn decode_with(&mut self, max: usize, f: impl for<'a> FnOnce(&'a mut [u8]) -> decode::Result<usize>) -> decode::Result<usize> {
        T::decode_with(*self, max, f)
    }
}
impl EncodeTarget for [u8] {
    fn encode_with(&mut self, _max: usize, f: impl for<'a> FnOnce(&'a mut [u8]) -> encode::Result<usize>) -> encode::Result<usize> {
        f(&mut *self)
    }
}
impl DecodeTarget for [u8] {
    fn decode_with(&mut self, _max: usize, f: impl for<'a> FnOnce(&'a mut [u8]) -> decode::Result<usize>) -> decode::Result<usize> {
        f(&mut *self)
    }
}
impl<const N: usize> EncodeTarget for [u8; N] {
    fn encode_with(&mut self, _max: usize, f: impl for<'a> FnOnce(&'a mut [u8]) -> encode::Result<usize>) -> encode::Result<usize> {
        f(&mut *self)
    }
}
impl<const N: usize> DecodeTarget for [u8; N] {
    fn decode_with(&mut self, _max: usize, f: impl for<'a> FnOnce(&'a mut [u8]) -> decode::Result<usize>) -> decode::Result<usize> {
        f(&mut *self)
    }
}
impl EncodeTarget for Vec<u8> {
    fn encode_with(&mut self, max: usize, f: impl for<'a> FnOnce(&'a mut [u8]) -> encode::Result<usize>) -> encode::Result<usize> {
        let original = self.len();
        self.resize(original + max, 0);
        let len = f(&mut self[original..])?;
        self.truncate(original + len);
        Ok(len)
    }
}
impl DecodeTarget for Vec<u8> {
    fn decode_with(&mut self, max: usize, f: impl for<'a> FnOnce(&'a mut [u8]) -> decode::Result<usize>) -> decode::Result<usize> {
        let original = self.len();
        self.resize(original + max, 0);
        let len = f(&mut self[original..])?;
        self.truncate(original + len);
        Ok(len)
    }
}
impl EncodeTarget for String {
    fn encode_with(&mut self, max: usize, f: impl for<'a> FnOnce(&'a mut [u8]) -> encode::Result<usize>) -> encode::Result<usize> {
        let mut v = core::mem::take(self).into_bytes();
        let r = v.encode_with(max, f);
        *self = unsafe { String::from_utf8_unchecked(v) };
        r
    }
}

impl<'a, I: AsRef<[u8]>> EncodeBuilder<'a, I> {
    pub fn new(input: I, alpha: &'a Alphabet) -> Self {
        Self { input, alpha }
    }
    pub fn with_alphabet(self, alpha: &'a Alphabet) -> Self {
        Self { input: self.input, alpha }
    }
    pub fn onto(self, mut output: impl EncodeTarget) -> encode::Result<usize> {
        let input = self.input.as_ref();
        let max = (input.len() / 5 + 1) * 8;
        let alpha = self.alpha;
        output.encode_with(max, |out| encode_into(input, out, alpha))
    }
    pub fn into_vec(self) -> Vec<u8> {
        let mut v = Vec::new();
        let _ = self.onto(&mut v);
        v
    }
    pub fn into_string(self) -> String {
        let v = self.into_vec();
        unsafe { String::from_utf8_unchecked(v) }
    }
}
impl<'a, I: AsRef<[u8]>> DecodeBuilder<'a, I> {
    pub fn new(input: I, alpha: &'a Alphabet) -> Self {
        Self { input, alpha }
    }
    pub fn with_alphabet(self, alpha: &'a Alphabet) -> Self {
        Self { input: self.input, alpha }
    }
    pub fn onto(self, mut output: impl DecodeTarget) -> decode::Result<usize> {
        let input = self.input.as_ref();
        let max = input.len();
        let alpha = self.alpha;
        output.decode_with(max, |out| decode_into(input, out, alpha))
    }
    pub fn into_vec(self) -> decode::Result<Vec<u8>> {
        let mut v = Vec::new();
        self.onto(&mut v)?;
        Ok(v)
    }
}

/// Digits (least significant first) and how many of them are significant.
#[cfg(kani)]
fn digits(value: u128, max: usize) -> ([u8; 21], usize) {
    let mut d = [0u8; 21];
    let mut i = 0;
    while i < max {
        d[i] = vk::any_u8();
        vk::assume(d[i] < 58);
        i += 1;
    }
    let mut acc: u128 = 0;
    let mut n = 0;
    let mut i = max;
    while i > 0 {
        i -= 1;
        acc = acc.wrapping_mul(58).wrapping_add(d[i] as u128);
        if n == 0 && d[i] != 0 {
            n = i + 1;
        }
    }
    vk::assume(acc == value);
    (d, n)
}
#[cfg(not(kani))]
fn digits(mut value: u128, _max: usize) -> ([u8; 21], usize) {
    let mut d = [0u8; 21];
    let mut n = 0;
    while value > 0 {
        d[n] = (value % 58) as u8;
        value /= 58;
        n += 1;
    }
    (d, n)
}

/// Case split and memo. A harness that builds its 8-byte value from base58 digits (most
/// significant first) announces them together with the number of leading zero bytes and the value
/// it computed from them by Horner's rule. An encoding of exactly that value, or a decoding of
/// exactly that text, takes the announced result, which keeps lengths concrete and spares the
/// solver a second copy of the sum; anything else is computed as always.
#[derive(Clone, Copy)]
pub struct Hint {
    pub zeros: usize,
    pub len: usize,
    pub digits: [u8; 11],
    pub value: u128,
}
pub static mut HINT: Option<Hint> = None;

fn hinted_encode(value: u128, zeros: usize) -> Option<Hint> {
    let hint = unsafe { HINT }?;
    if hint.value == value && zeros == hint.zeros {
        Some(hint)
    } else {
        None
    }
}

/// Whether `input` is exactly the announced text.
fn is_hinted_text(hint: &Hint, input: &[u8], alpha: &Alphabet) -> bool {
    if input.len() != hint.zeros + hint.len {
        return false;
    }
    let mut same = true;
    let mut i = 0;
    while i < hint.zeros {
        same &= input[i] == alpha.encode[0];
        i += 1;
    }
    let mut i = 0;
    while i < hint.len {
        same &= input[hint.zeros + i] == alpha.encode[hint.digits[i] as usize];
        i += 1;
    }
    same
}

fn write_digits(zeros: usize, n: usize, digit: impl Fn(usize) -> u8, max: usize, output: &mut [u8], alpha: &Alphabet) -> encode::Result<usize> {
    if n + zeros > output.len() {
        return Err(encode::Error::BufferTooSmall);
    }
    let mut i = 0;
    while i < zeros {
        output[i] = alpha.encode[0];
        i += 1;
    }
    let mut i = 0;
    while i < max {
        if i < n {
            output[zeros + i] = alpha.encode[digit(i) as usize];
        }
        i += 1;
    }
    Ok(zeros + n)
}

fn encode_into(input: &[u8], output: &mut [u8], alpha: &Alphabet) -> encode::Result<usize> {
    vk::check!(input.len() <= 15, "bs58 model: encode input longer than 15 bytes");
    let mut value: u128 = 0;
    let mut zeros = 0;
    let mut leading = true;
    for &b in input {
        value = (value << 8) | b as u128;
        if leading && b == 0 {
            zeros += 1;
        } else {
            leading = false;
        }
    }
    // ceil(len * 8 / log2(58)), never below the exact number
    let max = (input.len() * 138 + 99) / 100;
    if input.len() == 8 {
        if let Some(hint) = hinted_encode(value, zeros) {
            return write_digits(hint.zeros, hint.len, |i| hint.digits[i], hint.len, output, alpha);
        }
    }
    let (d, n) = digits(value, max);
    write_digits(zeros, n, |i| d[n - 1 - i], max, output, alpha)
}

/// Leave open which number a text denotes, see `any_number`.
pub static mut ANY_NUMBER: bool = false;

struct Arbitrary {
    len: usize,
    text: [u8; 24],
    n: usize,
    bytes: [u8; 8],
}
static mut ARBITRARY: Option<Arbitrary> = None;

fn decode_arbitrary(input: &[u8], output: &mut [u8], alpha: &Alphabet) -> decode::Result<usize> {
    for (index, &c) in input.iter().enumerate() {
        if c > 127 {
            return Err(decode::Error::NonAsciiCharacter { index });
        }
        if alpha.decode[c as usize] == 0xFF {
            return Err(decode::Error::InvalidCharacter { character: c as char, index });
        }
    }
    vk::check!(input.len() <= 24 && output.len() <= 8, "bs58 model: text or target too long");
    #[allow(static_mut_refs)]
    let mut found = match unsafe { ARBITRARY.as_ref() } {
        Some(last) if last.len == input.len() => {
            let mut same = true;
            let mut i = 0;
            while i < input.len() {
                same &= input[i] == last.text[i];
                i += 1;
            }
            same.then(|| (last.n, last.bytes))
        }
        _ => None,
    };
    if found.is_none() {
        let n = vk::any_u8() as usize;
        let bytes = vk::any_bytes::<8>();
        let least = if input.is_empty() { 0 } else { (input.len() - 1) * 7322 / 10000 + 1 };
        vk::assume(least <= n && n <= input.len());
        let mut text = [0u8; 24];
        let mut i = 0;
        while i < input.len() {
            text[i] = input[i];
            i += 1;
        }
        unsafe { ARBITRARY = Some(Arbitrary { len: input.len(), text, n, bytes }) }
        found = Some((n, bytes));
    }
    let Some((n, bytes)) = found else { unreachable!() };
    if n > output.len() {
        return Err(decode::Error::BufferTooSmall);
    }
    let mut i = 0;
    while i < output.len() {
        if i < n {
            output[i] = bytes[i];
        }
        i += 1;
    }
    Ok(n)
}

/// What a text denotes: (number, leading zero digits, number too big for the model).
type Value = decode::Result<(u128, usize, bool)>;

/// The previous decoding, so that decoding the same text again shares one sum.
struct Last {
    len: usize,
    text: [u8; 24],
    value: Value,
}
static mut LAST: Option<Last> = None;

fn evaluate(input: &[u8], alpha: &Alphabet) -> Value {
    let mut value: u128 = 0;
    let mut zeros = 0;
    let mut leading = true;
    let mut overflow = false;
    for (index, &c) in input.iter().enumerate() {
        if c > 127 {
            return Err(decode::Error::NonAsciiCharacter { index });
        }
        let v = alpha.decode[c as usize];
        if v == 0xFF {
            return Err(decode::Error::InvalidCharacter { character: c as char, index });
        }
        if index >= 20 && value >> 120 != 0 {
            overflow = true;
        } else {
            value = value.wrapping_mul(58).wrapping_add(v as u128);
        }
        if leading && v == 0 {
            zeros += 1;
        } else {
            leading = false;
        }
    }
    Ok((value, zeros, overflow))
}

fn finish(value: u128, zeros: usize, overflow: bool, output: &mut [u8]) -> decode::Result<usize> {
    vk::check!(!overflow || output.len() <= 15, "bs58 model: decode target longer than 15 bytes");
    let mut n = 0;
    let mut i = 0;
    while i < 16 {
        if value >> (8 * i) != 0 {
            n = i + 1;
        }
        i += 1;
    }
    if overflow || n + zeros > output.len() {
        return Err(decode::Error::BufferTooSmall);
    }
    let mut k = 0;
    while k <= 16 && k <= output.len() {
        if n == k {
            let mut i = 0;
            while i < k {
                output[zeros + i] = (value >> (8 * (k - 1 - i))) as u8;
                i += 1;
            }
        }
        k += 1;
    }
    let mut i = 0;
    while i < zeros {
        output[i] = 0;
        i += 1;
    }
    Ok(zeros + n)
}

fn decode_into(input: &[u8], output: &mut [u8], alpha: &Alphabet) -> decode::Result<usize> {
    if unsafe { ANY_NUMBER } {
        return decode_arbitrary(input, output, alpha);
    }
    if let Some(hint) = unsafe { HINT } {
        if is_hinted_text(&hint, input, alpha) {
            return finish(hint.value, hint.zeros, false, output);
        }
    }
    if input.len() > 24 {
        let (value, zeros, overflow) = evaluate(input, alpha)?;
        return finish(value, zeros, overflow, output);
    }
    #[allow(static_mut_refs)]
    if let Some(last) = unsafe { LAST.as_ref() } {
        if last.len == input.len() {
            let mut same = true;
            let mut i = 0;
            while i < input.len() {
                same &= input[i] == last.text[i];
                i += 1;
            }
            if same {
                let (value, zeros, overflow) = last.value?;
                return finish(value, zeros, overflow, output);
            }
        }
    }
    let value = evaluate(input, alpha);
    let mut text = [0u8; 24];
    let mut i = 0;
    while i < input.len() {
        text[i] = input[i];
        i += 1;
    }
    unsafe { LAST = Some(Last { len: input.len(), text, value }) }
    let (value, zeros, overflow) = value?;
    finish(value, zeros, overflow, output)
}

pub fn digit_of(c: u8) -> u8 {
    if c > 127 {
        255
    } else {
        Alphabet::DEFAULT.decode[c as usize]
    }
}
pub fn char_of(d: u8) -> u8 {
    Alphabet::DEFAULT.encode[d as usize]
}
