fn main() { c05g::run() }
