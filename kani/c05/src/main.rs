fn main() { c05::run() }
