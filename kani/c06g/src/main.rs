fn main() { c06g::run() }
