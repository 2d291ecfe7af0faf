fn main() { c09g::run() }
