fn main() {
    engine::main(hd::PROPS);
}
