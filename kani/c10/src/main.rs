fn main() { c10::run() }
