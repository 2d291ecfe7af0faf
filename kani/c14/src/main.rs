fn main() { c14::run() }
