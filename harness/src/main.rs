fn main() {
    symrt::main(&vharness::all());
}
