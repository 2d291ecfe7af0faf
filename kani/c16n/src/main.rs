fn main() { c16n::run() }
