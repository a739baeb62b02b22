fn main() {
    sup::native::main(&gc::table())
}
