fn main() { println!("cargo:rustc-cfg=test"); }
