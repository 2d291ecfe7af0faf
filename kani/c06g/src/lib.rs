//! C06, generic methods.
#![allow(unused)]
#[path = "../../common/vh.rs"]
#[macro_use]
mod vh;
use mockall::*;
use vh::*;

mock! { pub G { fn foo<T: 'static>(&self, x: T) -> &u64; fn bar<T: 'static>(&mut self, x: T) -> &mut u64; } }
mock! { pub GO { fn foo<T: 'static + Send + Sync>(&self) -> &T; } }

harnesses! {
    ok_gen_const (4) {
        let (k, l): (u64, u64) = kani::any();
        let mut m = MockG::new();
        m.expect_foo::<u8>().return_const(k);
        m.expect_foo::<u16>().return_const(l);
        obl!(*m.foo(kani::any::<u8>()) == k, "generic &self: the value configured for this type");
        obl!(*m.foo(kani::any::<u16>()) == l, "generic &self: the value configured for the other type");
        obl!(*m.foo(kani::any::<u8>()) == k, "generic &self: again");
        done(m);
    }
    ok_gen_var (4) {
        let (k, l, w): (u64, u64, u64) = kani::any();
        let mut m = MockG::new();
        m.expect_bar::<u8>().return_var(k);
        m.expect_bar::<u16>().return_var(l);
        { let r = m.bar(kani::any::<u8>()); obl!(*r == k, "generic &mut self: the configured value"); *r = w; }
        obl!(*m.bar(kani::any::<u16>()) == l, "generic &mut self: the other type's variable is not touched");
        obl!(*m.bar(kani::any::<u8>()) == w, "generic &mut self: a write is seen by the next call of the same type");
        done(m);
    }
    ok_gen_mut_returning (4) {
        let (k, w): (u64, u64) = kani::any();
        let (x, y): (u32, u32) = kani::any();
        let mut m = MockG::new();
        m.expect_bar::<u32>().returning(move |x| k ^ x as u64);
        *m.bar(x) = w;
        obl!(*m.bar(y) == k ^ y as u64, "generic &mut self: returning gives the latest result");
        done(m);
    }
    pan_gen_none (4) {
        let mut m = MockG::new();
        let _ = m.expect_foo::<u8>();
        must_panic!("generic &self: no value configured", { let _ = m.foo(kani::any::<u8>()); });
    }
    pan_gen_mut_none (4) {
        let mut m = MockG::new();
        let _ = m.expect_bar::<u8>();
        must_panic!("generic &mut self: no action configured", { let _ = m.bar(kani::any::<u8>()); });
    }
    ok_gen_out (4) {
        let (k, l): (u64, u8) = kani::any();
        let mut m = MockGO::new();
        m.expect_foo::<u64>().return_const(k);
        m.expect_foo::<u8>().return_const(l);
        obl!(*m.foo::<u64>() == k, "generic in the result: the value of this type");
        obl!(*m.foo::<u8>() == l, "generic in the result: the value of the other type");
        done(m);
    }
}
#[cfg(not(kani))]
pub fn run() { vh::kani::main(registry()) }
