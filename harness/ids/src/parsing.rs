use crate::text::{ascii_text, any_value, first_dash, is_ascii, memchr, text_of, Text};
use virto_common::PaymentId;
use vk::{check, cover, harnesses};

fn in_alphabet(c: u8) -> bool {
    bs58_switch::digit_of(c) != 255
}

/// Arbitrary ASCII text of `len` bytes, its first dash at `dash` if anywhere.
fn ascii(len: usize, dash: Option<usize>) -> Text {
    let mut t = Text::new();
    while t.n < len {
        if dash == Some(t.n) {
            t.push(b'-');
        } else {
            let c = vk::any_u8();
            vk::assume(c < 128);
            t.push(c);
        }
    }
    t
}

/// Parses, looking for panics; only text over the alphabet, one dash aside, may be accepted.
fn parse_checked(t: &Text, dash: Option<usize>) -> bool {
    first_dash(dash);
    let r = t.as_str().parse::<PaymentId>();
    let mut clean = true;
    let mut i = 0;
    while i < t.n {
        clean &= Some(i) == dash || in_alphabet(t.b[i]);
        i += 1;
    }
    check!(r.is_err() || clean, "only base58 characters, and at most one dash, are accepted");
    check!(r.is_err() || t.n - dash.is_some() as usize <= 11, "no text longer than any id is accepted");
    r.is_ok()
}

/// Every ASCII text of `len` bytes, first dash at `dash`.
fn ascii_total(len: usize, dash: Option<usize>) {
    bs58_switch::any_number();
    ascii_text(true);
    let t = ascii(len, dash);
    let ok = parse_checked(&t, dash);
    let rest = len - dash.is_some() as usize;
    cover!(ok || rest < 8 || rest > 11, "accepted");
    cover!(!ok, "rejected");
}

/// Every text of `len` bytes with one character of `width` bytes at `at`, first dash at `dash`.
fn wide(len: usize, at: usize, width: usize, dash: Option<usize>) {
    bs58_switch::any_number();
    let mut t = Text::new();
    while t.n < len {
        if t.n == at {
            let (lead, c1) = (vk::any_u8(), vk::any_u8());
            match width {
                2 => vk::assume((0xC2..=0xDF).contains(&lead)),
                3 => {
                    vk::assume((0xE1..=0xEC).contains(&lead));
                }
                _ => vk::assume((0xF1..=0xF3).contains(&lead)),
            }
            vk::assume((0x80..=0xBF).contains(&c1));
            t.push(lead);
            t.push(c1);
            let mut i = 2;
            while i < width {
                let c = vk::any_u8();
                vk::assume((0x80..=0xBF).contains(&c));
                t.push(c);
                i += 1;
            }
        } else if dash == Some(t.n) {
            t.push(b'-');
        } else {
            let c = vk::any_u8();
            vk::assume(c < 128);
            t.push(c);
        }
    }
    let ok = parse_checked(&t, dash);
    check!(!ok, "text with a non-ASCII character is rejected");
    cover!(true, "end");
}

/// Text of `zeros` ones and `len` further digits: accepted exactly if it denotes eight bytes, and
/// then as the id of those bytes. No two texts can therefore denote one id.
fn exact(zeros: usize, len: usize) {
    let (value, d) = any_value(zeros, len);
    let t = text_of(zeros, len, &d, None);
    first_dash(None);
    let r = t.as_str().parse::<PaymentId>();
    let hi = 8usize.saturating_sub(zeros) * 8;
    let eight = zeros <= 8 && value >> hi == 0 && (hi == 0 || value >> (hi - 8) != 0);
    let expected = if eight { Ok(PaymentId::from_number((value as u64).swap_bytes())) } else { Err(()) };
    check!(r == expected, "accepted exactly when the text encodes eight bytes, as those bytes");
    cover!(true, "end");
}

fn exact_all(total: usize) {
    let z = vk::any_below(total as u8 + 1) as usize;
    let mut zeros = 0;
    while zeros <= total {
        if z == zeros && total - zeros <= 11 {
            exact(zeros, total - zeros);
        }
        zeros += 1;
    }
}

/// A dash at `at` makes no difference to what a text denotes.
fn dash_ignored(len: usize, at: usize) {
    bs58_switch::any_number();
    ascii_text(true);
    let plain = ascii(len, None);
    first_dash(None);
    let r = plain.as_str().parse::<PaymentId>();
    let mut t = Text::new();
    let mut i = 0;
    while i <= len {
        if i == at {
            t.push(b'-');
        }
        if i < len {
            t.push(plain.b[i]);
        }
        i += 1;
    }
    first_dash(Some(at));
    check!(t.as_str().parse::<PaymentId>() == r, "the dash does not change the id");
    cover!(r.is_ok() || len < 8 || len > 11, "accepted");
    cover!(r.is_err(), "rejected");
}

/// The infallible constructor parses, and gives the zero id for text that does not.
fn constructor(len: usize) {
    bs58_switch::any_number();
    ascii_text(true);
    let plain = ascii(len, None);
    first_dash(None);
    let r = plain.as_str().parse::<PaymentId>();
    first_dash(None);
    check!(PaymentId::new(plain.as_str()) == r.unwrap_or_default(), "the constructor falls back to the zero id");
    check!(PaymentId::default().to_number() == 0, "the default id is zero");
    cover!(r.is_err(), "rejected");
}

macro_rules! cases {
    ($f:ident: $($name:ident($($l:expr),*))*) => {
        pub mod $f { use super::*; harnesses! { $(
            #[kani::unwind(26)]
            #[kani::stub(core::slice::memchr::memchr, memchr)]
            #[kani::stub(core::slice::ascii::is_ascii, is_ascii)]
            fn $name() { super::$f($($l),*) } )* } }
    };
}
cases!(ascii_total:
    l0_n(0, None) l1_n(1, None) l1_0(1, Some(0)) l2_n(2, None) l2_0(2, Some(0)) l2_1(2, Some(1)) l3_n(3, None)
    l3_0(3, Some(0)) l3_1(3, Some(1)) l3_2(3, Some(2)) l4_n(4, None) l4_0(4, Some(0)) l4_1(4, Some(1))
    l4_2(4, Some(2)) l4_3(4, Some(3)) l5_n(5, None) l5_0(5, Some(0)) l5_1(5, Some(1)) l5_2(5, Some(2))
    l5_3(5, Some(3)) l5_4(5, Some(4)) l6_n(6, None) l6_0(6, Some(0)) l6_1(6, Some(1)) l6_2(6, Some(2))
    l6_3(6, Some(3)) l6_4(6, Some(4)) l6_5(6, Some(5)) l7_n(7, None) l7_0(7, Some(0)) l7_1(7, Some(1))
    l7_2(7, Some(2)) l7_3(7, Some(3)) l7_4(7, Some(4)) l7_5(7, Some(5)) l7_6(7, Some(6)) l8_n(8, None)
    l8_0(8, Some(0)) l8_1(8, Some(1)) l8_2(8, Some(2)) l8_3(8, Some(3)) l8_4(8, Some(4)) l8_5(8, Some(5))
    l8_6(8, Some(6)) l8_7(8, Some(7)) l9_n(9, None) l9_0(9, Some(0)) l9_1(9, Some(1)) l9_2(9, Some(2))
    l9_3(9, Some(3)) l9_4(9, Some(4)) l9_5(9, Some(5)) l9_6(9, Some(6)) l9_7(9, Some(7)) l9_8(9, Some(8))
    l10_n(10, None) l10_0(10, Some(0)) l10_1(10, Some(1)) l10_2(10, Some(2)) l10_3(10, Some(3)) l10_4(10, Some(4))
    l10_5(10, Some(5)) l10_6(10, Some(6)) l10_7(10, Some(7)) l10_8(10, Some(8)) l10_9(10, Some(9)) l11_n(11, None)
    l11_0(11, Some(0)) l11_1(11, Some(1)) l11_2(11, Some(2)) l11_3(11, Some(3)) l11_4(11, Some(4))
    l11_5(11, Some(5)) l11_6(11, Some(6)) l11_7(11, Some(7)) l11_8(11, Some(8)) l11_9(11, Some(9))
    l11_10(11, Some(10)) l12_n(12, None) l12_0(12, Some(0)) l12_1(12, Some(1)) l12_2(12, Some(2))
    l12_3(12, Some(3)) l12_4(12, Some(4)) l12_5(12, Some(5)) l12_6(12, Some(6)) l12_7(12, Some(7))
    l12_8(12, Some(8)) l12_9(12, Some(9)) l12_10(12, Some(10)) l12_11(12, Some(11)) l13_n(13, None)
    l13_0(13, Some(0)) l13_1(13, Some(1)) l13_2(13, Some(2)) l13_3(13, Some(3)) l13_4(13, Some(4))
    l13_5(13, Some(5)) l13_6(13, Some(6)) l13_7(13, Some(7)) l13_8(13, Some(8)) l13_9(13, Some(9))
    l13_10(13, Some(10)) l13_11(13, Some(11)) l13_12(13, Some(12)) l14_n(14, None) l14_0(14, Some(0))
    l14_1(14, Some(1)) l14_2(14, Some(2)) l14_3(14, Some(3)) l14_4(14, Some(4)) l14_5(14, Some(5))
    l14_6(14, Some(6)) l14_7(14, Some(7)) l14_8(14, Some(8)) l14_9(14, Some(9)) l14_10(14, Some(10))
    l14_11(14, Some(11)) l14_12(14, Some(12)) l14_13(14, Some(13)) l15_n(15, None) l15_0(15, Some(0))
    l15_1(15, Some(1)) l15_2(15, Some(2)) l15_3(15, Some(3)) l15_4(15, Some(4)) l15_5(15, Some(5))
    l15_6(15, Some(6)) l15_7(15, Some(7)) l15_8(15, Some(8)) l15_9(15, Some(9)) l15_10(15, Some(10))
    l15_11(15, Some(11)) l15_12(15, Some(12)) l15_13(15, Some(13)) l15_14(15, Some(14)) l16_n(16, None)
    l16_0(16, Some(0)) l16_1(16, Some(1)) l16_2(16, Some(2)) l16_3(16, Some(3)) l16_4(16, Some(4))
    l16_5(16, Some(5)) l16_6(16, Some(6)) l16_7(16, Some(7)) l16_8(16, Some(8)) l16_9(16, Some(9))
    l16_10(16, Some(10)) l16_11(16, Some(11)) l16_12(16, Some(12)) l16_13(16, Some(13)) l16_14(16, Some(14))
    l16_15(16, Some(15)) l20_n(20, None) l20_0(20, Some(0)) l20_1(20, Some(1)) l20_2(20, Some(2))
    l20_3(20, Some(3)) l20_4(20, Some(4)) l20_5(20, Some(5)) l20_6(20, Some(6)) l20_7(20, Some(7))
    l20_8(20, Some(8)) l20_9(20, Some(9)) l20_10(20, Some(10)) l20_11(20, Some(11)) l20_12(20, Some(12))
    l20_13(20, Some(13)) l20_14(20, Some(14)) l20_15(20, Some(15)) l20_16(20, Some(16)) l20_17(20, Some(17))
    l20_18(20, Some(18)) l20_19(20, Some(19)) l24_n(24, None) l24_0(24, Some(0)) l24_1(24, Some(1))
    l24_2(24, Some(2)) l24_3(24, Some(3)) l24_4(24, Some(4)) l24_5(24, Some(5)) l24_6(24, Some(6))
    l24_7(24, Some(7)) l24_8(24, Some(8)) l24_9(24, Some(9)) l24_10(24, Some(10)) l24_11(24, Some(11))
    l24_12(24, Some(12)) l24_13(24, Some(13)) l24_14(24, Some(14)) l24_15(24, Some(15)) l24_16(24, Some(16))
    l24_17(24, Some(17)) l24_18(24, Some(18)) l24_19(24, Some(19)) l24_20(24, Some(20)) l24_21(24, Some(21))
    l24_22(24, Some(22)) l24_23(24, Some(23))
);
cases!(exact_all: l0(0) l1(1) l2(2) l3(3) l4(4) l5(5) l6(6) l7(7) l8(8) l9(9) l10(10) l11(11));
cases!(dash_ignored:
    l0_0(0, 0) l1_0(1, 0) l1_1(1, 1) l4_0(4, 0) l4_1(4, 1) l4_2(4, 2) l4_3(4, 3) l4_4(4, 4) l7_0(7, 0) l7_1(7, 1)
    l7_2(7, 2) l7_3(7, 3) l7_4(7, 4) l7_5(7, 5) l7_6(7, 6) l7_7(7, 7) l8_0(8, 0) l8_1(8, 1) l8_2(8, 2) l8_3(8, 3)
    l8_4(8, 4) l8_5(8, 5) l8_6(8, 6) l8_7(8, 7) l8_8(8, 8) l9_0(9, 0) l9_1(9, 1) l9_2(9, 2) l9_3(9, 3) l9_4(9, 4)
    l9_5(9, 5) l9_6(9, 6) l9_7(9, 7) l9_8(9, 8) l9_9(9, 9) l10_0(10, 0) l10_1(10, 1) l10_2(10, 2) l10_3(10, 3)
    l10_4(10, 4) l10_5(10, 5) l10_6(10, 6) l10_7(10, 7) l10_8(10, 8) l10_9(10, 9) l10_10(10, 10) l11_0(11, 0)
    l11_1(11, 1) l11_2(11, 2) l11_3(11, 3) l11_4(11, 4) l11_5(11, 5) l11_6(11, 6) l11_7(11, 7) l11_8(11, 8)
    l11_9(11, 9) l11_10(11, 10) l11_11(11, 11) l12_0(12, 0) l12_1(12, 1) l12_2(12, 2) l12_3(12, 3) l12_4(12, 4)
    l12_5(12, 5) l12_6(12, 6) l12_7(12, 7) l12_8(12, 8) l12_9(12, 9) l12_10(12, 10) l12_11(12, 11) l12_12(12, 12)
    l13_0(13, 0) l13_1(13, 1) l13_2(13, 2) l13_3(13, 3) l13_4(13, 4) l13_5(13, 5) l13_6(13, 6) l13_7(13, 7)
    l13_8(13, 8) l13_9(13, 9) l13_10(13, 10) l13_11(13, 11) l13_12(13, 12) l13_13(13, 13)
);
cases!(constructor: l0(0) l7(7) l11(11) l12(12));

pub mod wide_chars {
    use super::*;
    harnesses! {
        #[kani::unwind(26)] #[kani::stub(core::slice::memchr::memchr, memchr)] #[kani::stub(core::slice::ascii::is_ascii, is_ascii)]
        fn two_first() { wide(11, 0, 2, None) }
        #[kani::unwind(26)] #[kani::stub(core::slice::memchr::memchr, memchr)] #[kani::stub(core::slice::ascii::is_ascii, is_ascii)]
        fn two_across_dash() { wide(12, 4, 2, Some(6)) }
        #[kani::unwind(26)] #[kani::stub(core::slice::memchr::memchr, memchr)] #[kani::stub(core::slice::ascii::is_ascii, is_ascii)]
        fn two_before_five() { wide(12, 4, 2, None) }
        #[kani::unwind(26)] #[kani::stub(core::slice::memchr::memchr, memchr)] #[kani::stub(core::slice::ascii::is_ascii, is_ascii)]
        fn three_last() { wide(11, 8, 3, Some(5)) }
        #[kani::unwind(26)] #[kani::stub(core::slice::memchr::memchr, memchr)] #[kani::stub(core::slice::ascii::is_ascii, is_ascii)]
        fn three_over_end() { wide(14, 11, 3, Some(2)) }
        #[kani::unwind(26)] #[kani::stub(core::slice::memchr::memchr, memchr)] #[kani::stub(core::slice::ascii::is_ascii, is_ascii)]
        fn four_middle() { wide(16, 6, 4, Some(3)) }
        #[kani::unwind(26)] #[kani::stub(core::slice::memchr::memchr, memchr)] #[kani::stub(core::slice::ascii::is_ascii, is_ascii)]
        fn four_alone() { wide(4, 0, 4, None) }
    }
}

#[cfg(not(kani))]
pub fn replay(name: &str) -> bool {
    let (module, name) = name.split_once("::").unwrap_or(("", name));
    match module {
        "ascii_total" => ascii_total::replay(name),
        "exact_all" => exact_all::replay(name),
        "constructor" => constructor::replay(name),
        "dash_ignored" => dash_ignored::replay(name),
        "wide_chars" => wide_chars::replay(name),
        _ => false,
    }
}
