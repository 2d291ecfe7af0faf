fn main() { c10g::run() }
