use core::fmt::Write;

pub const ALPHABET: &[u8; 58] = b"123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz";

/// A short text buffer; writing more than 24 bytes to it is an error.
#[derive(Clone, Copy)]
pub struct Text {
    pub b: [u8; 24],
    pub n: usize,
}
impl Text {
    pub fn new() -> Self {
        Text { b: [0; 24], n: 0 }
    }
    pub fn push(&mut self, c: u8) {
        self.b[self.n] = c;
        self.n += 1;
    }
    pub fn as_str(&self) -> &str {
        // callers only push valid UTF-8
        unsafe { core::str::from_utf8_unchecked(&self.b[..self.n]) }
    }
}
impl Write for Text {
    fn write_str(&mut self, s: &str) -> core::fmt::Result {
        let s = s.as_bytes();
        if self.n + s.len() > 24 {
            return Err(core::fmt::Error);
        }
        self.b[self.n..self.n + s.len()].copy_from_slice(s);
        self.n += s.len();
        Ok(())
    }
}

/// Case split on where the first dash is: the next search for a byte returns this position, under
/// the assumption that it is the right one. Harnesses go through all positions.
static mut FIRST_DASH: Option<Option<usize>> = None;

pub fn first_dash(at: Option<usize>) {
    unsafe { FIRST_DASH = Some(at) }
}

/// Replaces `core::slice::memchr::memchr`, whose word-at-a-time loop only costs time here.
pub fn memchr(x: u8, text: &[u8]) -> Option<usize> {
    if let Some(at) = unsafe { FIRST_DASH.take() } {
        if x == b'-' && at.map_or(true, |at| at < text.len()) {
            let mut i = 0;
            while i < text.len() && Some(i) != at {
                vk::assume(text[i] != x);
                i += 1;
            }
            if i < text.len() {
                vk::assume(text[i] == x);
            }
            return at;
        }
    }
    let mut i = 0;
    while i < text.len() {
        if text[i] == x {
            return Some(i);
        }
        i += 1;
    }
    None
}

/// Case split on whether the text is all ASCII, checked where it is used.
static mut ASCII: Option<bool> = None;

pub fn ascii_text(yes: bool) {
    unsafe { ASCII = Some(yes) }
}

/// Replaces `core::slice::ascii::is_ascii`, for the same reason.
pub fn is_ascii(text: &[u8]) -> bool {
    let mut all = true;
    let mut i = 0;
    while i < text.len() {
        all &= text[i] < 128;
        i += 1;
    }
    match unsafe { ASCII } {
        Some(true) => {
            vk::check!(all, "harness: the text is ASCII");
            true
        }
        _ => all,
    }
}

/// An arbitrary number whose base58 text has `zeros` ones in front and `len` digits after them:
/// (number, digits). The bs58 model is told about it.
pub fn any_value(zeros: usize, len: usize) -> (u128, [u8; 11]) {
    let mut d = [0u8; 11];
    let mut acc: u128 = 0;
    let mut i = 0;
    while i < len {
        d[i] = vk::any_below(58);
        acc = acc.wrapping_mul(58).wrapping_add(d[i] as u128);
        i += 1;
    }
    vk::assume(len == 0 || d[0] != 0);
    bs58_switch::hint(zeros, len, d, acc);
    (acc, d)
}

/// An arbitrary id number with `zeros` leading zero bytes and `len` digits: (number, digits).
pub fn any_id(zeros: usize, len: usize) -> (u64, [u8; 11]) {
    let (acc, d) = any_value(zeros, len);
    let hi = 8 * (8 - zeros);
    vk::assume(acc >> hi == 0);
    vk::assume(hi == 0 || acc >> (hi - 8) != 0);
    ((acc as u64).swap_bytes(), d)
}

/// The text of those digits, with a dash before position `dash`.
pub fn text_of(zeros: usize, len: usize, d: &[u8; 11], dash: Option<usize>) -> Text {
    let mut t = Text::new();
    let mut i = 0;
    while i <= zeros + len {
        if dash == Some(i) {
            t.push(b'-');
        }
        if i < zeros {
            t.push(b'1');
        } else if i < zeros + len {
            t.push(ALPHABET[d[i - zeros] as usize]);
        }
        i += 1;
    }
    t
}

/// Every (leading zero bytes, digits after them) an 8-byte value can have in base58.
#[macro_export]
macro_rules! id_shapes {
    ($mac:ident) => {
        $mac! {
            s0_10(0, 10) s0_11(0, 11) s1_9(1, 9) s1_10(1, 10) s2_7(2, 7) s2_8(2, 8) s2_9(2, 9) s3_6(3, 6)
            s3_7(3, 7) s4_5(4, 5) s4_6(4, 6) s5_3(5, 3) s5_4(5, 4) s5_5(5, 5) s6_2(6, 2) s6_3(6, 3)
            s7_1(7, 1) s7_2(7, 2) s8_0(8, 0)
        }
    };
}
