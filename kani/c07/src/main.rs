fn main() { c07::run() }
