fn main() { c08g::run() }
