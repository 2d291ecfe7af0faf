//! C12, generic methods: arguments reach conditions and actions unmodified and in order.
#![allow(unused)]
#[path = "../../common/vh.rs"]
#[macro_use]
mod vh;
use mockall::*;
use mockall::predicate::*;
use vh::*;

mock! { pub G {
    fn two<T: 'static>(&self, a: T, b: T) -> (T, T);
    fn mix<T: 'static, U: 'static>(&self, a: T, b: U, c: T) -> (T, U, T);
    fn rf<T: 'static>(&self, a: &T, b: &T) -> (usize, usize);
    fn mu<T: 'static>(&self, a: &mut T, b: T) -> u8;
    fn sl<T: 'static>(&self, a: &[T], b: usize) -> (usize, usize, usize);
    fn rr<T: 'static>(&self, a: T, b: T) -> &u32;
    fn cl<F: Fn(u8) -> u8 + 'static, T: 'static>(&self, f: F, x: T, y: u8) -> (u8, T);
} }
mock! { pub S { fn st<T: 'static>(a: T, b: T) -> (T, T); } }
mock! { pub GS<T: 'static> { fn s(a: T, b: u8, c: T) -> (T, u8, T); fn m(&self, a: T, b: u8, c: T) -> (T, u8, T); } }

fn adr<T: ?Sized>(x: &T) -> usize { x as *const T as *const u8 as usize }

harnesses! {
    ok_two (3) {
        let (x, y): (u8, u8) = kani::any();
        let mut m = MockG::new();
        m.expect_two::<u8>().withf(move |a, b| *a == x && *b == y).returning(|a, b| (a, b));
        obl!(m.two(x, y) == (x, y), "generic arguments arrive in declaration order");
        done(m);
    }
    ok_two_with (3) {
        let (x, y): (u8, u8) = kani::any();
        let mut m = MockG::new();
        m.expect_two::<u8>().with(eq(x), eq(y)).return_once(|a, b| (a, b));
        obl!(m.two(x, y) == (x, y), "generic arguments: each predicate receives its own, the action receives them in order");
        done(m);
    }
    ok_mix (3) {
        let (x, z): (u8, u8) = kani::any();
        let y: u16 = kani::any();
        let mut m = MockG::new();
        m.expect_mix::<u8, u16>().withf(move |a, b, c| *a == x && *b == y && *c == z).returning(|a, b, c| (a, b, c));
        obl!(m.mix(x, y, z) == (x, y, z), "arguments of two generic types arrive in declaration order");
        done(m);
    }
    ok_rf (3) {
        let (x, y): (u8, u8) = kani::any();
        let (px, py) = (adr(&x), adr(&y));
        let mut m = MockG::new();
        m.expect_rf::<u8>().withf(move |a, b| adr(a) == px && adr(b) == py).returning(|a, b| (adr(a), adr(b)));
        obl!(m.rf(&x, &y) == (px, py), "generic reference arguments are the caller's own references");
        done(m);
    }
    ok_mu (3) {
        let (x0, y): (u8, u8) = kani::any();
        let mut x = x0;
        let mut m = MockG::new();
        m.expect_mu::<u8>().withf(move |a, b| *a == x0 && *b == y).returning(|a, b| { let o = *a; *a = b; o });
        obl!(m.mu(&mut x, y) == x0, "a generic mutable reference can be read by the action");
        obl!(x == y, "a write through a generic mutable reference reaches the caller");
        done(m);
    }
    ok_sl (3) {
        let b: [u8; 4] = kani::any();
        let (i, n): (usize, usize) = kani::any();
        kani::assume(i <= 4);
        let s = &b[..i];
        let p = adr(s);
        let mut m = MockG::new();
        m.expect_sl::<u8>().withf(move |a, k| adr(a) == p && a.len() == i && *k == n).returning(|a, k| (adr(a), a.len(), k));
        obl!(m.sl(s, n) == (p, i, n), "a generic slice argument is the caller's own slice");
        done(m);
    }
    ok_rr (3) {
        let (x, y): (u8, u8) = kani::any();
        let mut m = MockG::new();
        m.expect_rr::<u8>().withf(move |a, b| *a == x && *b == y).return_const(1u32);
        m.expect_rr::<u8>().return_const(0u32);
        obl!(*m.rr(x, y) == 1, "generic method returning a reference: the condition receives the arguments in order");
        done(m);
    }
    ok_cl (3) {
        let (k, x, y): (u8, u8, u8) = kani::any();
        let mut m = MockG::new();
        m.expect_cl::<u8>().withf(move |f, a, b| f(1) == 1 ^ k && *a == x && *b == y).returning(|f, a, b| (f(b), a));
        obl!(m.cl(move |z| z ^ k, x, y) == (y ^ k, x), "closure and generic arguments arrive in order");
        done(m);
    }
    ok_gstatic (3) {
        let (x, y): (u8, u8) = kani::any();
        let ctx = MockS::st_context();
        ctx.expect::<u8>().withf(move |a, b| *a == x && *b == y).returning(|a, b| (a, b));
        obl!(MockS::st(x, y) == (x, y), "generic static method: arguments arrive in declaration order");
        done(ctx);
    }
    ok_gs_static (3) {
        let (x, y, z): (u8, u8, u8) = kani::any();
        let ctx = MockGS::<u8>::s_context();
        ctx.expect().withf(move |a, b, c| *a == x && *b == y && *c == z).returning(|a, b, c| (a, b, c));
        obl!(MockGS::<u8>::s(x, y, z) == (x, y, z), "static method of a generic struct: arguments arrive in declaration order");
        done(ctx);
    }
    ok_gs_method (3) {
        let (x, y, z): (u8, u8, u8) = kani::any();
        let mut m = MockGS::<u8>::new();
        m.expect_m().withf(move |a, b, c| *a == x && *b == y && *c == z).returning(|a, b, c| (a, b, c));
        obl!(m.m(x, y, z) == (x, y, z), "method of a generic struct: arguments arrive in declaration order");
        done(m);
    }
}
#[cfg(not(kani))]
pub fn run() { vh::kani::main(registry()) }
