fn main() {
    let name = std::env::args().nth(1).expect("harness name");
    assert!(pay::replay(&name), "unknown harness {name}");
}
