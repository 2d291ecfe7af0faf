fn main() { c13g::run() }
