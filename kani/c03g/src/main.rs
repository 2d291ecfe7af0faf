fn main() { c03g::run() }
