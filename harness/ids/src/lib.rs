//! Payment identifiers (/repo/common/src/payment_id.rs).
#[macro_use]
mod text;
mod numbers;
mod parsing;
mod rendering;

#[cfg(not(kani))]
pub fn replay(name: &str) -> bool {
    let (module, name) = name.split_once("::").unwrap_or(("", name));
    match module {
        "numbers" => numbers::replay(name),
        "rendering" => rendering::replay(name),
        "parsing" => parsing::replay(name),
        _ => false,
    }
}
