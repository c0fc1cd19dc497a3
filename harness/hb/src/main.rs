fn main() {
    match std::env::args().nth(1).as_deref() {
        Some("deep") => hb::bencode_props::deep_child(),
        Some("seed") => hb::common_props::seed_child(),
        _ => engine::main(hb::PROPS),
    }
}
