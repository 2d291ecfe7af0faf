fn main() { c04g::run() }
