use crate::text::{any_id, memchr, text_of, Text};
use core::fmt::Write;
use virto_common::PaymentId;
use vk::{check, cover, harnesses};

fn same(a: &Text, b: &Text) -> bool {
    let mut ok = a.n == b.n;
    let mut i = 0;
    while i < 16 {
        ok &= i >= b.n || a.b[i] == b.b[i];
        i += 1;
    }
    ok
}

/// The id's text is the base58 text of its bytes; the pretty form has a dash after five characters.
fn render(zeros: usize, len: usize, pretty: bool) {
    let (n, d) = any_id(zeros, len);
    let id = PaymentId::from_number(n);
    let mut t = Text::new();
    let done = if pretty { write!(t, "{id:#}") } else { write!(t, "{id}") };
    check!(done.is_ok(), "rendering succeeds");
    let expected = text_of(zeros, len, &d, if pretty { Some(5) } else { None });
    check!(same(&t, &expected), "rendering is the base58 text of the id");
    cover!(true, "end");
}

/// That text parses back to the id.
fn parse_back(zeros: usize, len: usize, pretty: bool) {
    let (n, d) = any_id(zeros, len);
    let dash = if pretty { Some(5) } else { None };
    let t = text_of(zeros, len, &d, dash);
    crate::text::first_dash(dash);
    check!(t.as_str().parse::<PaymentId>() == Ok(PaymentId::from_number(n)), "the text parses back to the id");
    cover!(true, "end");
}

fn encode(zeros: usize, len: usize, pretty: bool) {
    let (n, d) = any_id(zeros, len);
    let s = PaymentId::from_number(n).encode(pretty);
    let expected = text_of(zeros, len, &d, if pretty { Some(5) } else { None });
    let mut t = Text::new();
    check!(t.write_str(&s).is_ok() && same(&t, &expected), "encode gives the same text");
    cover!(true, "end");
}

macro_rules! shapes {
    ($($name:ident($z:literal, $l:literal))*) => {
        pub mod render_compact { use super::*; harnesses! { $( #[kani::unwind(20)] fn $name() { render($z, $l, false) } )* } }
        pub mod render_pretty { use super::*; harnesses! { $( #[kani::unwind(20)] fn $name() { render($z, $l, true) } )* } }
        pub mod parse_compact { use super::*; harnesses! { $(
            #[kani::unwind(20)] #[kani::stub(core::slice::memchr::memchr, memchr)] fn $name() { parse_back($z, $l, false) } )* } }
        pub mod parse_pretty { use super::*; harnesses! { $(
            #[kani::unwind(20)] #[kani::stub(core::slice::memchr::memchr, memchr)] fn $name() { parse_back($z, $l, true) } )* } }
    };
}
id_shapes!(shapes);

pub mod string {
    use super::*;
    harnesses! {
        #[kani::unwind(20)]
        fn compact() { encode(0, 11, false) }
        #[kani::unwind(20)]
        fn pretty() { encode(0, 11, true) }
    }
}

#[cfg(not(kani))]
pub fn replay(name: &str) -> bool {
    let (module, name) = name.split_once("::").unwrap_or(("", name));
    match module {
        "render_compact" => render_compact::replay(name),
        "render_pretty" => render_pretty::replay(name),
        "parse_compact" => parse_compact::replay(name),
        "parse_pretty" => parse_pretty::replay(name),
        "string" => string::replay(name),
        _ => false,
    }
}
