fn main() { c03::run() }
