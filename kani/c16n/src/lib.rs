//! C16, not compiled for tests: every doubled name is the original.
#![allow(unused, non_camel_case_types, non_snake_case)]
#[path = "../../common/vh.rs"]
#[macro_use]
mod vh;
use vh::*;
#[path = "../../common/double_decl.rs"]
#[macro_use]
mod decl;

harnesses! {
    ok_plain_names (2) {
        let x: u32 = kani::any();
        double_obligations!(false, x);
    }
    ok_plain_automock (2) {
        let (x, k): (u32, u32) = (kani::any(), kani::any());
        obl!(decl::auto::Auto::make(k).get(x) == decl::want(false, k, x), "the doubled type is the original outside tests");
        obl!(decl::auto::funcs::calc(x) == decl::want(false, 31, x), "the doubled module is the original outside tests");
    }
}
#[cfg(not(kani))]
pub fn run() { vh::kani::main(registry()) }
