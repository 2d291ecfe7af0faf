//! C03, generic methods: the selection rule within one instantiation.
#![allow(unused)]
#[path = "../../common/vh.rs"]
#[macro_use]
mod vh;
use mockall::*;
use vh::*;

mock! { pub Gen { fn foo<T: 'static>(&self, x: T) -> u32; } }
mock! { pub StatGen { fn foo<T: 'static>(x: T) -> u32; } }
mock! { pub GenMut { fn foo<T: 'static>(&mut self, x: T) -> &mut u32; } }
fn cond(i: usize, b: bool) -> impl Fn(&u16) -> bool + Send + 'static { move |_| gate(i, b) }

harnesses! {
    ok_gen_select (4) {
        let (a, b, n): (bool, bool, usize) = kani::any();
        kani::assume(n > 0 && n < 5);
        let mut m = MockGen::new();
        preset_calls(n - 1);
        m.expect_foo::<u16>().times(..=n).withf(cond(0, a)).return_const(0u32);
        preset_calls(0);
        m.expect_foo::<u16>().withf(cond(1, b)).return_const(1u32);
        history_of!(0, n - 1, m.foo(0u16));
        if a {
            obl!(m.foo(kani::any::<u16>()) == 0, "the first matching expectation answers (generic)");
            if b { obl!(m.foo(kani::any::<u16>()) == 1, "a used-up expectation is skipped (generic)"); }
        } else if b {
            obl!(m.foo(kani::any::<u16>()) == 1, "an expectation that does not match is skipped (generic)");
        }
        done(m);
    }
    pan_gen_none (4) {
        let mut m = MockGen::new();
        m.expect_foo::<u16>().withf(cond(0, false)).return_const(0u32);
        m.expect_foo::<u16>().times(1).return_const(1u32);
        m.foo(1u16);
        must_panic!("a call that no usable expectation matches panics (generic)", m.foo(kani::any::<u16>()));
    }
    pan_gen_empty (3) {
        let m = MockGen::new();
        must_panic!("no expectation at all: the call panics (generic)", m.foo(kani::any::<u16>()));
    }
    ok_genmut_select (4) {
        let (a, b): (bool, bool) = kani::any();
        kani::assume(a || b);
        let mut m = MockGenMut::new();
        m.expect_foo::<u16>().withf(cond(0, a)).return_var(0u32);
        m.expect_foo::<u16>().withf(cond(1, b)).return_var(1u32);
        obl!(*m.foo(kani::any::<u16>()) == if a { 0 } else { 1 }, "the first matching expectation answers (generic, &mut T)");
        done(m);
    }
    ok_static_gen_select (4) {
        let (a, b): (bool, bool) = kani::any();
        kani::assume(a || b);
        let ctx = MockStatGen::foo_context();
        ctx.expect::<u16>().withf(cond(0, a)).return_const(0u32);
        ctx.expect::<u16>().withf(cond(1, b)).return_const(1u32);
        obl!(MockStatGen::foo(kani::any::<u16>()) == if a { 0 } else { 1 }, "the first matching expectation answers (generic static)");
        done(ctx);
    }
    pan_static_gen_none (3) {
        let ctx = MockStatGen::foo_context();
        ctx.expect::<u16>().withf(cond(0, false)).return_const(0u32);
        must_panic!("a call that no usable expectation matches panics (generic static)", MockStatGen::foo(kani::any::<u16>()));
    }
}
#[cfg(not(kani))]
pub fn run() { vh::kani::main(registry()) }
