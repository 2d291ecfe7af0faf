fn main() { c09::run() }
