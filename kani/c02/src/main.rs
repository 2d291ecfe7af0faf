fn main() { c02::run() }
