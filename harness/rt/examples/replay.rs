fn main() {
    let name = std::env::args().nth(1).expect("harness name");
    assert!(rt::replay(&name), "unknown harness {name}");
}
