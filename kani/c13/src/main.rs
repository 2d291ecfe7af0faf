fn main() { c13::run() }
