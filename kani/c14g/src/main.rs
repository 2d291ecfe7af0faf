fn main() { c14g::run() }
