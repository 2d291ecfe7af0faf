fn main() { c04::run() }
