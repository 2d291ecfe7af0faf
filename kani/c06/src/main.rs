fn main() { c06::run() }
