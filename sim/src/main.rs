fn main() {
    varasim::main()
}
