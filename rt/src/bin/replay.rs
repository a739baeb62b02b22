fn main() {
    sup::native::main(&rt::table())
}
