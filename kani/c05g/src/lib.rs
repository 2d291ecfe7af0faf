//! C05, generic methods.
#![allow(unused)]
#[path = "../../common/vh.rs"]
#[macro_use]
mod vh;
use mockall::*;
use vh::*;

mock! { pub Gen { fn foo<T: 'static>(&self, x: T) -> T; } }
mock! { pub GenOut { fn foo<T: 'static>(&self) -> T; } }
mock! { pub StatGen { fn foo<T: 'static>(x: T) -> u32; } }

harnesses! {
    ok_gen_returning (4) {
        let (x, y, k): (u32, u32, u32) = kani::any();
        let mut m = MockGen::new();
        m.expect_foo::<u32>().returning(move |x| x.wrapping_mul(3) ^ k);
        obl!(m.foo(x) == x.wrapping_mul(3) ^ k, "returning on a generic method");
        obl!(m.foo(y) == y.wrapping_mul(3) ^ k, "returning on a generic method, again");
        done(m);
    }
    ok_gen_return_once (4) {
        let (x, k): (u32, u32) = kani::any();
        let mut m = MockGen::new();
        m.expect_foo::<u32>().return_once(move |x| x ^ k);
        obl!(m.foo(x) == x ^ k, "return_once on a generic method");
        done(m);
    }
    pan_gen_return_once_again (4) {
        let k: u32 = kani::any();
        let mut m = MockGen::new();
        m.expect_foo::<u32>().return_once(move |x| x ^ k);
        m.foo(0u32);
        must_panic!("return_once on a generic method: a second call panics", m.foo(kani::any::<u32>()));
    }
    ok_genout_const (4) {
        let k: u32 = kani::any();
        let mut m = MockGenOut::new();
        m.expect_foo::<u32>().return_const(k);
        obl!(m.foo::<u32>() == k, "return_const on a method generic in its result");
        obl!(m.foo::<u32>() == k, "return_const on a method generic in its result, again");
        done(m);
    }
    pan_gen_none (4) {
        let mut m = MockGen::new();
        let _ = m.expect_foo::<u32>();
        must_panic!("no action: the generic call panics", m.foo(kani::any::<u32>()));
    }
    ok_stat_gen_returning (4) {
        let (x, y, k): (u32, u32, u32) = kani::any();
        let ctx = MockStatGen::foo_context();
        ctx.expect::<u32>().returning(move |x| x ^ k);
        obl!(MockStatGen::foo(x) == x ^ k, "returning on a generic static method");
        obl!(MockStatGen::foo(y) == y ^ k, "returning on a generic static method, again");
        done(ctx);
    }
    ok_stat_gen_returning_st (4) {
        let (x, y, k): (u32, u32, u32) = kani::any();
        let ctx = MockStatGen::foo_context();
        ctx.expect::<u32>().returning_st(move |x| x ^ k);
        obl!(MockStatGen::foo(x) == x ^ k, "returning_st on a generic static method");
        obl!(MockStatGen::foo(y) == y ^ k, "returning_st on a generic static method, again");
        done(ctx);
    }
    ok_stat_gen_return_once (4) {
        let (x, k): (u32, u32) = kani::any();
        let ctx = MockStatGen::foo_context();
        ctx.expect::<u32>().return_once(move |x| x ^ k);
        obl!(MockStatGen::foo(x) == x ^ k, "return_once on a generic static method");
        done(ctx);
    }
    ok_stat_gen_return_once_st (4) {
        let (x, k): (u32, u32) = kani::any();
        let ctx = MockStatGen::foo_context();
        ctx.expect::<u32>().return_once_st(move |x| x ^ k);
        obl!(MockStatGen::foo(x) == x ^ k, "return_once_st on a generic static method");
        done(ctx);
    }
    ok_stat_gen_const (4) {
        let k: u32 = kani::any();
        let ctx = MockStatGen::foo_context();
        ctx.expect::<u32>().return_const(k);
        obl!(MockStatGen::foo(kani::any::<u32>()) == k, "return_const on a generic static method");
        obl!(MockStatGen::foo(kani::any::<u32>()) == k, "return_const on a generic static method, again");
        done(ctx);
    }
    ok_stat_gen_const_st (4) {
        let k: u32 = kani::any();
        let ctx = MockStatGen::foo_context();
        ctx.expect::<u32>().return_const_st(k);
        obl!(MockStatGen::foo(kani::any::<u32>()) == k, "return_const_st on a generic static method");
        done(ctx);
    }
}
#[cfg(not(kani))]
pub fn run() { vh::kani::main(registry()) }
