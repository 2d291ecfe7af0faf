fn main() { c08::run() }
