fn main() { c07g::run() }
