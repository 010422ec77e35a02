#![allow(static_mut_refs)]
pub mod ledger;
pub mod runtime;
pub mod deal;
pub mod events;
pub mod means;
pub mod money;
pub mod rules;

#[cfg(not(kani))]
pub fn replay(name: &str) -> bool {
    match name.split_once("::") {
        Some(("events", n)) => events::replay(n),
        Some(("means", n)) => means::replay(n),
        Some(("money", n)) => money::replay(n),
        Some(("rules", n)) => match n.split_once("::") {
            Some(("authority", n)) => rules::authority::replay(n),
            Some(("lifecycle", n)) => rules::lifecycle::replay(n),
            Some(("timeline", n)) => rules::timeline::replay(n),
            Some(("refusal", n)) => rules::refusal::replay(n),
            Some(("neighbours", n)) => rules::neighbours::replay(n),
            _ => false,
        },
        _ => false,
    }
}
