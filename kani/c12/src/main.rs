fn main() { c12::run() }
