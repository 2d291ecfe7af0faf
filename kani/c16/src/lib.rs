//! C16, compiled for tests (`cfg(test)` set by build.rs for this crate only): every doubled
//! name is the mock.
#![allow(unused, non_camel_case_types, non_snake_case)]
#[path = "../../common/vh.rs"]
#[macro_use]
mod vh;
use vh::*;
#[path = "../../common/double_decl.rs"]
#[macro_use]
mod decl;

harnesses! {
    ok_test_names (2) {
        let x: u32 = kani::any();
        double_obligations!(true, x);
    }
    // the doubled name is a real mockall mock: enforced and configurable
    ok_test_automock (3) {
        let (x, y): (u32, u32) = (kani::any(), kani::any());
        let mut m = decl::auto::Auto::default();
        m.expect_get().times(1).returning(move |a| a ^ y);
        obl!(m.get(x) == x ^ y, "the doubled type is the automocked one in tests");
    }
    pan_test_automock (3) {
        let x: u32 = kani::any();
        let m = decl::auto::Auto::default();
        must_panic!("the doubled type has no behaviour of its own in tests", m.get(x));
    }
    ok_test_module (3) {
        let (x, y): (u32, u32) = (kani::any(), kani::any());
        let c = decl::auto::funcs::calc_context();
        c.expect().times(1).returning(move |a| a ^ y);
        obl!(decl::auto::funcs::calc(x) == x ^ y, "the doubled module is the automocked one in tests");
    }
    pan_test_module (3) {
        let x: u32 = kani::any();
        must_panic!("the doubled module's functions have no behaviour of their own in tests", decl::auto::funcs::calc(x));
    }
}
#[cfg(not(kani))]
pub fn run() { vh::kani::main(registry()) }
