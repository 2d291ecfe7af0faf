//! C02: call counts are enforced by every kind of mock, at the call and at destruction.
//! Contracts of the generated `Common::{call, times, never, drop}`,
//! `Expectation::{times, once, never, call, call_mut}`, `Expectations::{call, call_mut, drop}`,
//! `ExpectationGuard::{times, once, never}`, `Context::drop` and the mock methods.
#![allow(unused)]
#[path = "../../common/vh.rs"]
#[macro_use]
mod vh;
use mockall::*;
use vh::*;

const TOP: usize = usize::MAX - 2;

mock! { pub Gen { fn foo<T: 'static>(&self, x: T) -> u32; } }
mock! { pub StatGen { fn foo<T: 'static>(x: T) -> u32; } }
mock! { pub GenRef { fn foo<T: 'static>(&self, x: T) -> &u32; } }

/// An arbitrary satisfiable configuration and an arbitrary reachable history length.
fn config() -> (usize, usize, usize) {
    let (lo, hi, c): (usize, usize, usize) = kani::any();
    kani::assume(lo <= hi && hi < TOP && c <= hi);
    (lo, hi, c)
}

harnesses! {
    // ---- generic methods --------------------------------------------------------------
    pan_gen_over (3) {
        let (lo, hi, c) = config();
        kani::assume(c == hi);
        preset_calls(c);
        let mut m = MockGen::new();
        m.expect_foo::<u16>().times(lo..=hi).return_const(7u32);
        history!(c, m.foo(0u16));
        must_panic!("a call beyond the permitted maximum panics (generic method)", m.foo::<u16>(kani::any()));
    }
    pan_gen_under (3) {
        let (lo, hi, c) = config();
        kani::assume(c < lo);
        preset_calls(c);
        let mut m = MockGen::new();
        m.expect_foo::<u16>().times(lo..=hi).return_const(7u32);
        history!(c, m.foo(0u16));
        must_panic!("dropping a mock with an under-called expectation panics (generic method)", drop(m));
    }
    t_pan_gen_second_type_under (4) {
        let mut m = MockGen::new();
        m.expect_foo::<u16>().times(1).return_const(7u32);
        m.expect_foo::<u32>().times(1).return_const(8u32);
        m.foo(0u16);
        must_panic!("an under-called instantiation is reported even if another one is satisfied", drop(m));
    }
    pan_genref_over (3) {
        let (lo, hi, c) = config();
        kani::assume(c == hi);
        preset_calls(c);
        let mut m = MockGenRef::new();
        m.expect_foo::<u16>().times(lo..=hi).return_const(7u32);
        history!(c, m.foo(0u16));
        must_panic!("a call beyond the permitted maximum panics (generic method returning &T)", *m.foo::<u16>(kani::any()));
    }
    pan_static_gen_over (3) {
        let (lo, hi, c) = config();
        kani::assume(c == hi);
        preset_calls(c);
        let ctx = MockStatGen::foo_context();
        ctx.expect::<u16>().times(lo..=hi).return_const(7u32);
        history!(c, MockStatGen::foo(0u16));
        must_panic!("a call beyond the permitted maximum panics (generic static method)", MockStatGen::foo::<u16>(kani::any()));
    }
    t_pan_static_gen_under (3) {
        let (lo, hi, c) = config();
        kani::assume(c < lo);
        preset_calls(c);
        let ctx = MockStatGen::foo_context();
        ctx.expect::<u16>().times(lo..=hi).return_const(7u32);
        history!(c, MockStatGen::foo(0u16));
        must_panic!("dropping the context of an under-called generic static expectation panics", drop(ctx));
    }
}
#[cfg(not(kani))]
pub fn run() { vh::kani::main(registry()) }
