fn main() { c01::run() }
