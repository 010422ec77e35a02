#![allow(static_mut_refs)]
pub mod runtime;
pub mod world;
pub mod founding;
pub mod members;
pub mod tallies;
pub mod registry;
pub mod voices;
pub mod voting;

#[cfg(not(kani))]
pub fn replay(name: &str) -> bool {
    match name.split_once("::") {
        Some(("founding", n)) => founding::replay(n),
        Some(("members", n)) => members::replay(n),
        Some(("registry", n)) => registry::replay(n),
        Some(("tallies", n)) => tallies::replay(n),
        Some(("voices", n)) => voices::replay(n),
        Some(("voting", n)) => voting::replay(n),
        _ => false,
    }
}
