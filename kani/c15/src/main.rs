fn main() { c15::run() }
