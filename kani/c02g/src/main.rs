fn main() { c02g::run() }
