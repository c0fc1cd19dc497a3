fn main() {
    engine::main(ht::PROPS);
}
