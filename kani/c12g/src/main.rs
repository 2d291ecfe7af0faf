fn main() { c12g::run() }
