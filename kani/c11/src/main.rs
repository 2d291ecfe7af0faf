fn main() { c11::run() }
