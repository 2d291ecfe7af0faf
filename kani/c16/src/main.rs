fn main() { c16::run() }
