//! Verification kit: the only way harnesses obtain symbolic inputs, assume, assert and cover.
//!
//! Under the model checker every `any_*` is an unconstrained symbolic value. In a native build the
//! same harness body is re-executed with the concrete values the solver returned, read in order
//! from the file named by `VK_REPLAY` (one line per value: space separated little-endian bytes).
//!
//! Native exit codes: 0 harness finished, 42 a `check` failed, 101 panic in the code under check,
//! 77 an assumption did not hold (the counterexample does not replay), 78 values missing, 79 a
//! bound of the models was reached.

#[cfg(kani)]
mod imp {
    #[inline(always)]
    pub fn assume(c: bool) {
        kani::assume(c)
    }
    pub fn any_u8() -> u8 {
        kani::any()
    }
    pub fn any_u16() -> u16 {
        kani::any()
    }
    pub fn any_u32() -> u32 {
        kani::any()
    }
    pub fn any_u64() -> u64 {
        kani::any()
    }
    pub fn any_u128() -> u128 {
        kani::any()
    }
    pub fn any_bool() -> bool {
        kani::any()
    }
}

#[cfg(not(kani))]
mod imp {
    use std::sync::Mutex;
    static VALUES: Mutex<Option<Vec<Vec<u8>>>> = Mutex::new(None);

    fn next(n: usize) -> [u8; 16] {
        let mut guard = VALUES.lock().unwrap_or_else(|e| e.into_inner());
        let queue = guard.get_or_insert_with(|| {
            let path = std::env::var("VK_REPLAY").expect("VK_REPLAY not set");
            let text = std::fs::read_to_string(path).expect("cannot read VK_REPLAY");
            let mut v: Vec<Vec<u8>> = text
                .lines()
                .map(|l| l.split_whitespace().map(|b| b.parse().expect("byte")).collect())
                .collect();
            v.reverse();
            v
        });
        let Some(bytes) = queue.pop() else {
            eprintln!("VK: replay values exhausted");
            std::process::exit(78)
        };
        if bytes.len() != n {
            eprintln!("VK: replay value has {} bytes, {} wanted", bytes.len(), n);
            std::process::exit(78)
        }
        let mut out = [0u8; 16];
        out[..n].copy_from_slice(&bytes);
        out
    }
    fn show<T: core::fmt::Debug>(kind: &str, v: T) -> T {
        eprintln!("VK: input {kind} = {v:?}");
        v
    }
    pub fn assume(c: bool) {
        if !c {
            eprintln!("VK: assumption does not hold");
            std::process::exit(77)
        }
    }
    pub fn any_u8() -> u8 {
        show("u8", next(1)[0])
    }
    pub fn any_u16() -> u16 {
        show("u16", u128::from_le_bytes(next(2)) as u16)
    }
    pub fn any_u32() -> u32 {
        show("u32", u128::from_le_bytes(next(4)) as u32)
    }
    pub fn any_u64() -> u64 {
        show("u64", u128::from_le_bytes(next(8)) as u64)
    }
    pub fn any_u128() -> u128 {
        show("u128", u128::from_le_bytes(next(16)))
    }
    pub fn any_bool() -> bool {
        show("bool", next(1)[0] & 1 == 1)
    }
}

pub use imp::*;

/// A bound of the models was reached: no verdict.
#[cfg(kani)]
pub fn limit(_what: &str) -> ! {
    kani::assert(false, "LIMIT: a bound of the models was reached");
    kani::assume(false);
    unreachable!()
}
#[cfg(not(kani))]
pub fn limit(what: &str) -> ! {
    eprintln!("VK: limit: {what}");
    std::process::exit(79)
}

/// A symbolic value below `n`.
pub fn any_below(n: u8) -> u8 {
    let v = any_u8();
    assume(v < n);
    v
}

/// A symbolic u64 of at most `max`.
pub fn any_u64_upto(max: u64) -> u64 {
    let v = any_u64();
    assume(v <= max);
    v
}

pub fn any_bytes<const N: usize>() -> [u8; N] {
    let mut b = [0u8; N];
    let mut i = 0;
    while i < N {
        b[i] = any_u8();
        i += 1;
    }
    b
}

/// The property assertion. Its message starts with "VK:" so that the driver can tell it from
/// checks the tool generates for the code itself.
#[macro_export]
macro_rules! check {
    ($cond:expr, $msg:literal) => {{
        #[cfg(kani)]
        kani::assert($cond, concat!("VK: ", $msg));
        #[cfg(not(kani))]
        if !$cond {
            eprintln!("VK: violated: {}", $msg);
            std::process::exit(42)
        }
    }};
}

/// Reachability witness: the driver fails the harness unless the solver shows it satisfiable.
#[macro_export]
macro_rules! cover {
    ($cond:expr, $msg:literal) => {{
        #[cfg(kani)]
        kani::cover!($cond, $msg);
        #[cfg(not(kani))]
        let _ = $cond;
    }};
}

/// Declares harnesses and, natively, a `replay(name)` entry point that runs one of them.
#[macro_export]
macro_rules! harnesses {
    ($( $(#[$attr:meta])* fn $name:ident() $body:block )*) => {
        $(
            #[cfg_attr(kani, kani::proof)]
            $(#[cfg_attr(kani, $attr)])*
            pub fn $name() $body
        )*
        #[cfg(not(kani))]
        pub fn replay(name: &str) -> bool {
            $( if name == stringify!($name) { $name(); return true; } )*
            false
        }
    };
}
