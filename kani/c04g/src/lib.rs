//! C04, generic methods.
#![allow(unused)]
#[path = "../../common/vh.rs"]
#[macro_use]
mod vh;
use mockall::*;
use mockall::predicate::*;
use vh::*;

mock! { pub Gen { fn foo<T: 'static, U: 'static>(&self, x: T, y: U) -> u32; } }
mock! { pub StatGen { fn foo<T: 'static>(x: T, y: T) -> u32; } }

harnesses! {
    ok_gen_with (5) {
        let a: [u8; 2] = kani::any();
        let v: [u8; 2] = kani::any();
        let mut m = MockGen::new();
        m.expect_foo::<u8, u8>().with(eq(a[0]), eq(a[1])).return_const(1u32);
        m.expect_foo::<u8, u8>().return_const(0u32);
        obl!((m.foo(v[0], v[1]) == 1) == (v == a), "with on a generic method");
        done(m);
    }
    ok_gen_withf (4) {
        let a: [u8; 2] = kani::any();
        let v: [u8; 2] = kani::any();
        let mut m = MockGen::new();
        m.expect_foo::<u8, u8>().withf(move |p, q| *p == a[0] && *q == a[1]).return_const(1u32);
        m.expect_foo::<u8, u8>().return_const(0u32);
        obl!((m.foo(v[0], v[1]) == 1) == (v == a), "withf on a generic method");
        done(m);
    }
    ok_gen_withf_st (4) {
        let a: [u8; 2] = kani::any();
        let v: [u8; 2] = kani::any();
        let mut m = MockGen::new();
        m.expect_foo::<u8, u8>().withf_st(move |p, q| *p == a[0] && *q == a[1]).return_const(1u32);
        m.expect_foo::<u8, u8>().return_const(0u32);
        obl!((m.foo(v[0], v[1]) == 1) == (v == a), "withf_st on a generic method");
        done(m);
    }
    ok_static_gen_with (5) {
        let a: [u8; 2] = kani::any();
        let v: [u8; 2] = kani::any();
        let ctx = MockStatGen::foo_context();
        ctx.expect::<u8>().with(eq(a[0]), eq(a[1])).return_const(1u32);
        ctx.expect::<u8>().return_const(0u32);
        obl!((MockStatGen::foo(v[0], v[1]) == 1) == (v == a), "with on a generic static method");
        done(ctx);
    }
    ok_static_gen_withf (4) {
        let a: [u8; 2] = kani::any();
        let v: [u8; 2] = kani::any();
        let ctx = MockStatGen::foo_context();
        ctx.expect::<u8>().withf(move |p, q| *p == a[0] && *q == a[1]).return_const(1u32);
        ctx.expect::<u8>().return_const(0u32);
        obl!((MockStatGen::foo(v[0], v[1]) == 1) == (v == a), "withf on a generic static method");
        done(ctx);
    }
    ok_static_gen_withf_st (4) {
        let a: [u8; 2] = kani::any();
        let v: [u8; 2] = kani::any();
        let ctx = MockStatGen::foo_context();
        ctx.expect::<u8>().withf_st(move |p, q| *p == a[0] && *q == a[1]).return_const(1u32);
        ctx.expect::<u8>().return_const(0u32);
        obl!((MockStatGen::foo(v[0], v[1]) == 1) == (v == a), "withf_st on a generic static method");
        done(ctx);
    }
}
#[cfg(not(kani))]
pub fn run() { vh::kani::main(registry()) }
