//! C12: arguments reach conditions and actions unmodified and in order.
//! Contracts of the generated mock method, `Expectations::call`, `Expectation::call`,
//! `Common::matches`, `Rfunc::call` per kind of argument.
#![allow(unused)]
#[path = "../../common/vh.rs"]
#[macro_use]
mod vh;
#[path = "../../common/shapes.rs"]
#[macro_use]
mod sh;
use mockall::*;
use mockall::predicate::*;
use vh::*;

pub trait Obj { fn val(&self) -> u8; }
pub struct O1(pub u8);
impl Obj for O1 { fn val(&self) -> u8 { self.0 } }
pub struct O2(pub u8);
impl Obj for O2 { fn val(&self) -> u8 { self.0 ^ 0x55 } }
/// Neither Copy nor Clone.
pub struct Own(Box<u8>);

mock! { pub V5 { fn foo(&self, a: u8, b: u8, c: u8, d: u8, e: u8) -> [u8; 5]; } }
mock! { pub V16 { fn foo(&self, a0: u8, a1: u8, a2: u8, a3: u8, a4: u8, a5: u8, a6: u8, a7: u8,
                         a8: u8, a9: u8, a10: u8, a11: u8, a12: u8, a13: u8, a14: u8, a15: u8) -> [u8; 16]; } }
mock! { pub V3 { fn foo(&self, a: u8, b: u8, c: u8) -> [u8; 3]; fn st(a: u8, b: u8, c: u8) -> [u8; 3]; fn mu(&mut self, a: u8, b: u8, c: u8) -> [u8; 3]; fn by(self, a: u8, b: u8, c: u8) -> [u8; 3]; fn bx(self: Box<Self>, a: u8, b: u8, c: u8) -> [u8; 3]; } }
pub trait T3 { fn foo(&self, a: u8, b: u8, c: u8) -> [u8; 3]; fn st(a: u8, b: u8, c: u8) -> [u8; 3]; fn def(&self, a: u8, b: u8) -> u8; }
mock! { pub T3 {} impl T3 for T3 { fn foo(&self, a: u8, b: u8, c: u8) -> [u8; 3]; fn st(a: u8, b: u8, c: u8) -> [u8; 3]; fn def(&self, a: u8, b: u8) -> u8; } }
#[automock] mod fun { pub fn free(a: u8, b: u8, c: u8) -> [u8; 3] { [a, b, c] } }
#[automock] mod ffi { extern "C" { pub fn ext(a: u8, b: u8, c: u8) -> u32; } }
mock! { pub Rr { fn r(&self, a: u8, b: u8) -> &u32; fn q(&mut self, a: u8, b: u8) -> &mut u32; fn s(&self, a: u8, b: u8) -> &'static u32; } }
mock! { pub Refs { fn foo(&self, a: &u8, b: &u8) -> (usize, usize); fn lt<'a>(&self, a: &'a u8, b: &'a u8) -> (usize, usize); fn opt<'a>(&self, a: Option<&'a u8>, b: Option<&'a u8>) -> u8; } }
mock! { pub Muts { fn foo(&self, a: &mut u8, b: &mut u8) -> u8; fn st(a: &mut u8, b: &mut u8) -> u8; fn mixed(&self, a: &u8, b: &mut u8, c: u8) -> u8; } }
mock! { pub Sl { fn foo(&self, a: &[u8], b: &[u8]) -> (usize, usize, usize, usize); fn mu(&self, a: &mut [u8], b: &[u8]) -> usize; fn st(&self, a: &str, b: &str) -> (usize, usize, usize, usize); } }
mock! { pub Dy { fn foo(&self, a: &dyn Obj, b: &dyn Obj) -> (u8, u8); fn bx(&self, a: Box<dyn Obj>, b: Box<dyn Obj>) -> (u8, u8); } }
mock! { pub Ow { fn foo(&self, a: Own, b: Own) -> (Own, Own); } }
mock! { pub Sf { fn cmp(&self, a: &Self, b: &MockSf) -> (usize, usize); fn take(&self, a: Self) -> usize; } }
mock! { pub Cc { #[mockall::concretize] fn foo<P: Obj, Q: Obj>(&self, a: P, b: Q) -> (u8, u8);
                 #[mockall::concretize] fn rf<P: Obj>(&self, a: &P, b: u8) -> (u8, u8); } }
mock! { pub Cl { fn foo<F: Fn(u8) -> u8 + 'static>(&self, f: F, x: u8) -> u8; fn fp(&self, f: fn(u8) -> u8, x: u8) -> u8; } }
pub struct Pm;
#[automock] impl Pm { pub fn foo(&self, mut a: u8, b: u8, mut c: u8) -> [u8; 3] { a += 1; c += 1; [a, b, c] } }
mock! { pub Tu { fn foo(&self, p: (u8, u8), a: [u8; 2], o: Option<u8>) -> (u8, u8, u8, u8, Option<u8>); } }

fn inc(x: u8) -> u8 { x.wrapping_add(1) }
fn adr<T: ?Sized>(x: &T) -> usize { x as *const T as *const u8 as usize }

harnesses! {
    // ---- by value, order --------------------------------------------------------------------
    ok_val_returning (7) {
        let v: [u8; 5] = kani::any();
        let mut m = MockV5::new();
        m.expect_foo().returning(|a, b, c, d, e| [a, b, c, d, e]);
        let r = m.foo(v[0], v[1], v[2], v[3], v[4]);
        obl!(r[0] == v[0] && r[1] == v[1] && r[2] == v[2] && r[3] == v[3] && r[4] == v[4], "returning receives the arguments in declaration order");
        done(m);
    }
    ok_val_returning_st (7) {
        let v: [u8; 5] = kani::any();
        let mut m = MockV5::new();
        m.expect_foo().returning_st(|a, b, c, d, e| [a, b, c, d, e]);
        let r = m.foo(v[0], v[1], v[2], v[3], v[4]);
        obl!(r[0] == v[0] && r[1] == v[1] && r[2] == v[2] && r[3] == v[3] && r[4] == v[4], "returning_st receives the arguments in declaration order");
        done(m);
    }
    ok_val_once (7) {
        let v: [u8; 5] = kani::any();
        let mut m = MockV5::new();
        m.expect_foo().return_once(|a, b, c, d, e| [a, b, c, d, e]);
        let r = m.foo(v[0], v[1], v[2], v[3], v[4]);
        obl!(r[0] == v[0] && r[1] == v[1] && r[2] == v[2] && r[3] == v[3] && r[4] == v[4], "return_once receives the arguments in declaration order");
        done(m);
    }
    ok_val_once_st (7) {
        let v: [u8; 5] = kani::any();
        let mut m = MockV5::new();
        m.expect_foo().return_once_st(|a, b, c, d, e| [a, b, c, d, e]);
        let r = m.foo(v[0], v[1], v[2], v[3], v[4]);
        obl!(r[0] == v[0] && r[1] == v[1] && r[2] == v[2] && r[3] == v[3] && r[4] == v[4], "return_once_st receives the arguments in declaration order");
        done(m);
    }
    ok_val_withf (7) {
        let v: [u8; 5] = kani::any();
        let mut m = MockV5::new();
        m.expect_foo().withf(move |a, b, c, d, e| *a == v[0] && *b == v[1] && *c == v[2] && *d == v[3] && *e == v[4]).return_const([1u8; 5]);
        m.expect_foo().return_const([0u8; 5]);
        obl!(m.foo(v[0], v[1], v[2], v[3], v[4])[0] == 1, "withf receives the arguments in declaration order");
        done(m);
    }
    ok_val_withf_st (7) {
        let v: [u8; 5] = kani::any();
        let mut m = MockV5::new();
        m.expect_foo().withf_st(move |a, b, c, d, e| *a == v[0] && *b == v[1] && *c == v[2] && *d == v[3] && *e == v[4]).return_const([1u8; 5]);
        m.expect_foo().return_const([0u8; 5]);
        obl!(m.foo(v[0], v[1], v[2], v[3], v[4])[0] == 1, "withf_st receives the arguments in declaration order");
        done(m);
    }
    ok_val_with (7) {
        let v: [u8; 5] = kani::any();
        let mut m = MockV5::new();
        m.expect_foo().with(eq(v[0]), eq(v[1]), eq(v[2]), eq(v[3]), eq(v[4])).return_const([1u8; 5]);
        m.expect_foo().return_const([0u8; 5]);
        obl!(m.foo(v[0], v[1], v[2], v[3], v[4])[0] == 1, "with: each predicate receives its own argument");
        done(m);
    }
    ok_val_16 (18) {
        let v: [u8; 16] = kani::any();
        let mut m = MockV16::new();
        m.expect_foo().returning(|a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15|
            [a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15]);
        let r = m.foo(v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11], v[12], v[13], v[14], v[15]);
        let i: usize = kani::any();
        kani::assume(i < 16);
        obl!(r[i] == v[i], "sixteen arguments arrive in declaration order");
        done(m);
    }
    ok_cond_then_action (5) {
        let v: [u8; 3] = kani::any();
        let mut m = MockV3::new();
        m.expect_foo().withf(|a, b, c| false).return_const([0u8; 3]);
        m.expect_foo().withf(move |a, b, c| [*a, *b, *c] == v).returning(|a, b, c| [a, b, c]);
        let r = m.foo(v[0], v[1], v[2]);
        obl!(r[0] == v[0] && r[1] == v[1] && r[2] == v[2], "an earlier condition leaves the arguments unmodified");
        done(m);
    }
    // ---- receivers, statics, functions ----------------------------------------------------------
    ok_static (5) {
        let v: [u8; 3] = kani::any();
        let ctx = MockV3::st_context();
        ctx.expect().withf(move |a, b, c| *a == v[0] && *b == v[1] && *c == v[2]).returning(|a, b, c| [a, b, c]);
        let r = MockV3::st(v[0], v[1], v[2]);
        obl!(r[0] == v[0] && r[1] == v[1] && r[2] == v[2], "static method: arguments in declaration order");
        done(ctx);
    }
    ok_mut_self (5) {
        let v: [u8; 3] = kani::any();
        let mut m = MockV3::new();
        m.expect_mu().withf(move |a, b, c| *a == v[0] && *b == v[1] && *c == v[2]).returning(|a, b, c| [a, b, c]);
        let r = m.mu(v[0], v[1], v[2]);
        obl!(r[0] == v[0] && r[1] == v[1] && r[2] == v[2], "&mut self method: arguments in declaration order");
        done(m);
    }
    ok_by_self (5) {
        let v: [u8; 3] = kani::any();
        let mut m = MockV3::new();
        m.expect_by().withf(move |a, b, c| *a == v[0] && *b == v[1] && *c == v[2]).returning(|a, b, c| [a, b, c]);
        let r = m.by(v[0], v[1], v[2]);
        obl!(r[0] == v[0] && r[1] == v[1] && r[2] == v[2], "self method: arguments in declaration order");
    }
    ok_box_self (5) {
        let v: [u8; 3] = kani::any();
        let mut m = MockV3::new();
        m.expect_bx().withf(move |a, b, c| *a == v[0] && *b == v[1] && *c == v[2]).returning(|a, b, c| [a, b, c]);
        let r = Box::new(m).bx(v[0], v[1], v[2]);
        obl!(r[0] == v[0] && r[1] == v[1] && r[2] == v[2], "boxed self method: arguments in declaration order");
    }
    ok_trait (5) {
        let v: [u8; 3] = kani::any();
        let mut m = MockT3::new();
        m.expect_foo().withf(move |a, b, c| *a == v[0] && *b == v[1] && *c == v[2]).returning(|a, b, c| [a, b, c]);
        let r = m.foo(v[0], v[1], v[2]);
        obl!(r[0] == v[0] && r[1] == v[1] && r[2] == v[2], "trait method: arguments in declaration order");
        done(m);
    }
    ok_trait_static (5) {
        let v: [u8; 3] = kani::any();
        let ctx = MockT3::st_context();
        ctx.expect().withf(move |a, b, c| *a == v[0] && *b == v[1] && *c == v[2]).returning(|a, b, c| [a, b, c]);
        let r = <MockT3 as T3>::st(v[0], v[1], v[2]);
        obl!(r[0] == v[0] && r[1] == v[1] && r[2] == v[2], "static trait method: arguments in declaration order");
        done(ctx);
    }
    ok_function (5) {
        let v: [u8; 3] = kani::any();
        let ctx = mock_fun::free_context();
        ctx.expect().withf(move |a, b, c| *a == v[0] && *b == v[1] && *c == v[2]).returning(|a, b, c| [a, b, c]);
        let r = mock_fun::free(v[0], v[1], v[2]);
        obl!(r[0] == v[0] && r[1] == v[1] && r[2] == v[2], "module function: arguments in declaration order");
        done(ctx);
    }
    ok_foreign (5) {
        let v: [u8; 3] = kani::any();
        let ctx = mock_ffi::ext_context();
        ctx.expect().withf(move |a, b, c| *a == v[0] && *b == v[1] && *c == v[2]).returning(|a, b, c| a as u32 | (b as u32) << 8 | (c as u32) << 16);
        let r = unsafe { mock_ffi::ext(v[0], v[1], v[2]) };
        obl!(r == v[0] as u32 | (v[1] as u32) << 8 | (v[2] as u32) << 16, "foreign function: arguments in declaration order");
        done(ctx);
    }
    ok_ret_ref (4) {
        let v: [u8; 2] = kani::any();
        let mut m = MockRr::new();
        m.expect_r().withf(move |a, b| *a == v[0] && *b == v[1]).return_const(1u32);
        m.expect_r().return_const(0u32);
        obl!(*m.r(v[0], v[1]) == 1, "method returning a reference: the condition receives the arguments in order");
        done(m);
    }
    ok_ret_refmut (4) {
        let v: [u8; 2] = kani::any();
        let mut m = MockRr::new();
        m.expect_q().withf(move |a, b| *a == v[0] && *b == v[1]).returning(|a, b| a as u32 | (b as u32) << 8);
        obl!(*m.q(v[0], v[1]) == v[0] as u32 | (v[1] as u32) << 8, "method returning a mutable reference: condition and action receive the arguments in order");
        done(m);
    }
    ok_ret_static (4) {
        let v: [u8; 2] = kani::any();
        static T: [u32; 2] = [7, 8];
        let mut m = MockRr::new();
        m.expect_s().withf(move |a, b| *a == v[0] && *b == v[1]).returning(|a, b| if a <= b { &T[0] } else { &T[1] });
        obl!(*m.s(v[0], v[1]) == if v[0] <= v[1] { 7 } else { 8 }, "method returning a static reference: condition and action receive the arguments in order");
        done(m);
    }
    // ---- references ------------------------------------------------------------------------------------
    ok_refs (4) {
        let (x, y): (u8, u8) = kani::any();
        let (px, py) = (adr(&x), adr(&y));
        let mut m = MockRefs::new();
        m.expect_foo().withf(move |a, b| adr(a) == px && adr(b) == py).returning(|a, b| (adr(a), adr(b)));
        let r = m.foo(&x, &y);
        obl!(r.0 == px && r.1 == py, "reference arguments are the caller's own references");
        done(m);
    }
    ok_refs_lifetime (4) {
        let (x, y): (u8, u8) = kani::any();
        let (px, py) = (adr(&x), adr(&y));
        let mut m = MockRefs::new();
        m.expect_lt().withf(move |a, b| adr(a) == px && adr(b) == py).returning(|a, b| (adr(a), adr(b)));
        let r = m.lt(&x, &y);
        obl!(r.0 == px && r.1 == py, "references with a named lifetime are the caller's own references");
        done(m);
    }
    ok_refs_option (4) {
        let (x, y): (u8, u8) = kani::any();
        let (o, p) = (if kani::any() { Some(&x) } else { None }, if kani::any() { Some(&y) } else { None });
        let want = o.map_or(0, |x| *x / 2) ^ p.map_or(128, |y| *y);
        let mut m = MockRefs::new();
        m.expect_opt().returning(|a, b| a.map_or(0, |x| *x / 2) ^ b.map_or(128, |y| *y));
        obl!(m.opt(o, p) == want, "optional references arrive unmodified");
        done(m);
    }
    ok_muts (4) {
        let (x0, y0, k): (u8, u8, u8) = kani::any();
        let (mut x, mut y) = (x0, y0);
        let mut m = MockMuts::new();
        m.expect_foo().returning(move |a, b| { *a = k; *b });
        let r = m.foo(&mut x, &mut y);
        obl!(r == y0, "a mutable reference argument can be read by the action");
        obl!(x == k && y == y0, "a write through a mutable reference changes the caller's variable and nothing else");
        done(m);
    }
    ok_muts_second (4) {
        let (x0, y0, k): (u8, u8, u8) = kani::any();
        let (mut x, mut y) = (x0, y0);
        let mut m = MockMuts::new();
        m.expect_foo().withf(move |a, b| *a == x0 && *b == y0).returning(move |a, b| { *b ^= k; *a });
        let r = m.foo(&mut x, &mut y);
        obl!(r == x0, "a mutable reference argument can be read by the action (first)");
        obl!(x == x0 && y == y0 ^ k, "a write through the second mutable reference changes the caller's second variable only");
        done(m);
    }
    ok_muts_static (4) {
        let (x0, y0, k): (u8, u8, u8) = kani::any();
        let (mut x, mut y) = (x0, y0);
        let ctx = MockMuts::st_context();
        ctx.expect().withf(move |a, b| *a == x0 && *b == y0).returning(move |a, b| { *b ^= k; *a });
        let r = MockMuts::st(&mut x, &mut y);
        obl!(r == x0 && x == x0 && y == y0 ^ k, "static method: a write through a mutable reference changes that variable only");
        done(ctx);
    }
    ok_mixed (4) {
        let (x, y0, z): (u8, u8, u8) = kani::any();
        let mut y = y0;
        let mut m = MockMuts::new();
        m.expect_mixed().withf(move |a, b, c| *a == x && *b == y0 && *c == z).returning(|a, b, c| { *b = *a ^ c; c });
        obl!(m.mixed(&x, &mut y, z) == z, "arguments of mixed kinds arrive in order");
        obl!(y == x ^ z, "a write through a mutable reference among other arguments reaches the caller");
        done(m);
    }
    // ---- slices, strings, trait objects --------------------------------------------------------------------
    ok_slices (4) {
        let b: [u8; 4] = kani::any();
        let (i, j): (usize, usize) = kani::any();
        kani::assume(i <= 4 && j <= 4);
        let (s, t) = (&b[..i], &b[j..]);
        let want = (adr(s), i, adr(t), 4 - j);
        let mut m = MockSl::new();
        m.expect_foo().withf(move |a, b| (adr(a), a.len(), adr(b), b.len()) == want).returning(|a, b| (adr(a), a.len(), adr(b), b.len()));
        obl!(m.foo(s, t) == want, "slice arguments are the caller's own slices");
        done(m);
    }
    ok_slices_mut (6) {
        let b0: [u8; 3] = kani::any();
        let mut b = b0;
        let k: u8 = kani::any();
        let i: usize = kani::any();
        kani::assume(i < 3);
        let mut m = MockSl::new();
        m.expect_mu().withf(|a, b| a.len() == 3 && b.len() == 1).returning(move |a, b| { a[i] = k; b.len() });
        obl!(m.mu(&mut b[..], &b0[1..2]) == 1, "a mutable slice and a slice arrive in order");
        let j: usize = kani::any();
        kani::assume(j < 3);
        obl!(b[j] == if j == i { k } else { b0[j] }, "a write through a mutable slice changes that element of the caller's array only");
        done(m);
    }
    ok_str (4) {
        let (i, j): (usize, usize) = kani::any();
        let base = "abcd";
        kani::assume(i <= 4 && j <= 4);
        let (s, t) = unsafe { (core::str::from_utf8_unchecked(&base.as_bytes()[..i]), core::str::from_utf8_unchecked(&base.as_bytes()[j..])) };
        let want = (adr(s), i, adr(t), 4 - j);
        let mut m = MockSl::new();
        m.expect_st().withf(move |a, b| (adr(a), a.len(), adr(b), b.len()) == want).returning(|a, b| (adr(a), a.len(), adr(b), b.len()));
        obl!(m.st(s, t) == want, "string arguments are the caller's own strings");
        done(m);
    }
    ok_dyn (4) {
        let (x, y): (u8, u8) = kani::any();
        let mut m = MockDy::new();
        m.expect_foo().withf(move |a, b| a.val() == x && b.val() == y ^ 0x55).returning(|a, b| (a.val(), b.val()));
        obl!(m.foo(&O1(x), &O2(y)) == (x, y ^ 0x55), "trait object arguments arrive unmodified and in order");
        done(m);
    }
    ok_dyn_box (4) {
        let (x, y): (u8, u8) = kani::any();
        let mut m = MockDy::new();
        m.expect_bx().withf(move |a, b| a.val() == x && b.val() == y ^ 0x55).returning(|a, b| (a.val(), b.val()));
        obl!(m.bx(Box::new(O1(x)), Box::new(O2(y))) == (x, y ^ 0x55), "boxed trait objects arrive unmodified and in order");
        done(m);
    }
    // ---- ownership -----------------------------------------------------------------------------------------
    ok_owned (4) {
        let (x, y): (u8, u8) = kani::any();
        let (a, b) = (Own(Box::new(x)), Own(Box::new(y)));
        let (pa, pb) = (adr(&*a.0), adr(&*b.0));
        let mut m = MockOw::new();
        m.expect_foo().withf(move |a, b| adr(&*a.0) == pa && adr(&*b.0) == pb).returning(|a, b| (a, b));
        let r = m.foo(a, b);
        obl!(adr(&*r.0.0) == pa && adr(&*r.1.0) == pb, "owned arguments are moved into the action");
        obl!(*r.0.0 == x && *r.1.0 == y, "owned arguments are moved unmodified");
        done(m);
    }
    ok_owned_once (4) {
        let (x, y): (u8, u8) = kani::any();
        let (a, b) = (Own(Box::new(x)), Own(Box::new(y)));
        let (pa, pb) = (adr(&*a.0), adr(&*b.0));
        let mut m = MockOw::new();
        m.expect_foo().return_once(|a, b| (b, a));
        let r = m.foo(a, b);
        obl!(adr(&*r.1.0) == pa && adr(&*r.0.0) == pb, "owned arguments are moved into a one-time action");
        done(m);
    }
    ok_compound (6) {
        let (p, a): ((u8, u8), [u8; 2]) = (kani::any(), kani::any());
        let o: Option<u8> = if kani::any() { Some(kani::any()) } else { None };
        let mut m = MockTu::new();
        m.expect_foo().withf(move |q, b, r| *q == p && b[0] == a[0] && b[1] == a[1] && *r == o).returning(|p, a, o| (p.0, p.1, a[0], a[1], o));
        obl!(m.foo(p, a, o) == (p.0, p.1, a[0], a[1], o), "tuples, arrays and options arrive unmodified");
        done(m);
    }
    ok_mut_pattern (5) {
        let v: [u8; 3] = kani::any();
        let mut m = MockPm::new();
        m.expect_foo().withf(move |a, b, c| *a == v[0] && *b == v[1] && *c == v[2]).returning(|a, b, c| [a, b, c]);
        let r = m.foo(v[0], v[1], v[2]);
        obl!(r[0] == v[0] && r[1] == v[1] && r[2] == v[2], "arguments declared with `mut` arrive unmodified and in order");
        done(m);
    }
    ok_self_typed (4) {
        let (m2, m3) = (MockSf::new(), MockSf::new());
        let (p2, p3) = (adr(&m2), adr(&m3));
        let mut m = MockSf::new();
        m.expect_cmp().withf(move |a, b| adr(a) == p2 && adr(b) == p3).returning(|a, b| (adr(a), adr(b)));
        let r = m.cmp(&m2, &m3);
        obl!(r.0 == p2 && r.1 == p3, "self-typed arguments are the caller's, the receiver is not among them");
        done(m);
        done(m2);
        done(m3);
    }
    // ---- concretized generics, closures ---------------------------------------------------------------------
    ok_concretize (4) {
        let (x, y): (u8, u8) = kani::any();
        let mut m = MockCc::new();
        m.expect_foo().withf(move |a, b| a.val() == x && b.val() == y ^ 0x55).returning(|a, b| (a.val(), b.val()));
        obl!(m.foo(O1(x), O2(y)) == (x, y ^ 0x55), "concretized arguments arrive in order");
        done(m);
    }
    ok_concretize_ref (4) {
        let (x, y): (u8, u8) = kani::any();
        let mut m = MockCc::new();
        m.expect_rf().withf(move |a, b| a.val() == x && *b == y).returning(|a, b| (a.val(), b));
        obl!(m.rf(&O1(x), y) == (x, y), "a concretized reference argument arrives unmodified");
        done(m);
    }
    ok_closure (4) {
        let (k, x): (u8, u8) = kani::any();
        let mut m = MockCl::new();
        m.expect_foo().withf(move |f, y| f(1) == 1 ^ k && *y == x).returning(|f, x| f(x));
        obl!(m.foo(move |z| z ^ k, x) == x ^ k, "a closure argument arrives boxed and behaves as given");
        done(m);
    }
    ok_fn_pointer (4) {
        let x: u8 = kani::any();
        let mut m = MockCl::new();
        m.expect_fp().returning(|f, x| f(x));
        obl!(m.fp(inc, x) == x.wrapping_add(1), "a function pointer argument arrives as given");
        done(m);
    }
    // ---- the answer of an accepted call, per declaration shape (common/shapes.rs) ----
    t_ok_sh_rb (3) {
        use crate::sh::*;
        sh_ok!({ Box::new(MockRx::new()) }, expect_rb, |a, b, k| sp(a, b, k), |m, x, y| m.rb(x, y));
    }
    t_ok_sh_bx (3) {
        use crate::sh::*;
        sh_ok!(MockRx::new(), expect_bx, |a, b, k| sp(a, b, k), |m, x, y| Box::new(m).bx(x, y));
    }
    t_ok_sh_rc (3) {
        use crate::sh::*;
        sh_ok!(MockRx::new(), expect_rc, |a, b, k| sp(a, b, k), |m, x, y| Rc::new(m).rc(x, y));
    }
    t_ok_sh_arc (3) {
        use crate::sh::*;
        sh_ok!(MockRx::new(), expect_arc, |a, b, k| sp(a, b, k), |m, x, y| Arc::new(m).arc(x, y));
    }
    t_ok_sh_pb (3) {
        use crate::sh::*;
        sh_ok!(MockRx::new(), expect_pb, |a, b, k| sp(a, b, k), |m, x, y| Box::pin(m).pb(x, y));
    }
    t_ok_sh_pm (3) {
        use crate::sh::*;
        sh_ok!(MockRx::new(), expect_pm, |a, b, k| sp(a, b, k), |m, x, y| Pin::new(&mut m).pm(x, y));
    }
    t_ok_sh_pr (3) {
        use crate::sh::*;
        sh_ok!(MockRx::new(), expect_pr, |a, b, k| sp(a, b, k), |m, x, y| Pin::new(&m).pr(x, y));
    }
    t_ok_sh_asy (3) {
        use crate::sh::*;
        sh_ok!(MockAx::new(), expect_asy, |a, b, k| sp(a, b, k), |m, x, y| poll_once(m.asy(x, y)));
    }
    t_ok_sh_asm (3) {
        use crate::sh::*;
        sh_ok!(MockAx::new(), expect_asm, |a, b, k| sp(a, b, k), |m, x, y| poll_once(m.asm(x, y)));
    }
    t_ok_sh_ass (3) {
        use crate::sh::*;
        sh_ok!(MockAx::ass_context(), expect, |a, b, k| sp(a, b, k), |m, x, y| poll_once(MockAx::ass(x, y)));
    }
    t_ok_sh_fut (3) {
        use crate::sh::*;
        sh_ok!(MockAx::new(), expect_fut, |a, b, k| Box::pin(std::future::ready(sp(a, b, k))), |m, x, y| poll_once(m.fut(x, y)));
    }
    t_ok_sh_bf (3) {
        use crate::sh::*;
        sh_ok!(MockAx::new(), expect_bf, |a, b, k| Box::pin(std::future::ready(sp(a, b, k))), |m, x, y| poll_once(m.bf(x, y)));
    }
    t_ok_sh_imp (3) {
        use crate::sh::*;
        sh_ok!(MockIx::new(), expect_imp, |a, b, k| Box::new(sp(a, b, k)), |m, x, y| m.imp(x, y).v());
    }
    t_ok_sh_it (3) {
        use crate::sh::*;
        sh_ok!(MockIx::new(), expect_it, |a, b, k| Box::new(Some(sp(a, b, k)).into_iter()), |m, x, y| m.it(x, y).next().unwrap_or(0));
    }
    t_ok_sh_bxd (3) {
        use crate::sh::*;
        sh_ok!(MockIx::new(), expect_bxd, |a, b, k| Box::new(sp(a, b, k)), |m, x, y| m.bxd(x, y).v());
    }
    t_ok_sh_rp (3) {
        use crate::sh::*;
        sh_ok!(MockRp::new(), expect_rp, |a, b, k| Box::new(sp(a, b, k)), |m, x, y| m.rp(x, y).v());
    }
    t_ok_sh_anon (3) {
        use crate::sh::*;
        sh_ok!(MockLx::new(), expect_anon, |a, b, k| br(sp(a, b, k)), |m, x, y| m.anon(x, y).0);
    }
    t_ok_sh_named (3) {
        use crate::sh::*;
        sh_ok!(MockLx::new(), expect_named, |a, b, k| br(sp(a, b, k)), |m, x, y| m.named(x, y).0);
    }
    t_ok_sh_free (3) {
        use crate::sh::*;
        sh_ok!(MockLx::new(), expect_free, |a, b, k| br(sp(a, b, k)), |m, x, y| m.free(x, y).0);
    }
    t_ok_sh_own (3) {
        use crate::sh::*;
        sh_ok!(MockLx::new(), expect_own, |a, b, k| sp(a.0, b, k), |m, x, y| m.own(br(x), y));
    }
    t_ok_sh_stl (3) {
        use crate::sh::*;
        sh_ok!(MockLx::stl_context(), expect, |a, b, k| sp(*a, b, k), |m, x, y| MockLx::stl(&x, y));
    }
    t_ok_sh_tanon (3) {
        use crate::sh::*;
        sh_ok!(MockLt::new(), expect_tanon, |a, b, k| br(sp(a, b, k)), |m, x, y| m.tanon(x, y).0);
    }
    t_ok_sh_tfree (3) {
        use crate::sh::*;
        sh_ok!(MockLt::new(), expect_tfree, |a, b, k| br(sp(a, b, k)), |m, x, y| m.tfree(x, y).0);
    }
    t_ok_sh_uns (3) {
        use crate::sh::*;
        sh_ok!(MockUx::new(), expect_uns, |a, b, k| sp(a, b, k), |m, x, y| unsafe { m.uns(x, y) });
    }
    t_ok_sh_extc (3) {
        use crate::sh::*;
        sh_ok!(MockUx::new(), expect_extc, |a, b, k| sp(a, b, k), |m, x, y| m.extc(x, y));
    }
    t_ok_sh_unst (3) {
        use crate::sh::*;
        sh_ok!(MockUx::unst_context(), expect, |a, b, k| sp(a, b, k), |m, x, y| unsafe { MockUx::unst(x, y) });
    }
    t_ok_sh_ut (3) {
        use crate::sh::*;
        sh_ok!(MockUt::new(), expect_ut, |a, b, k| sp(a, b, k), |m, x, y| m.ut(x, y));
    }
    t_ok_sh_num (3) {
        use crate::sh::*;
        sh_ok!(MockSp::<u32>::new(), expect_num, |a, b, k| sp(a, b, k), |m, x, y| m.num(x, y));
    }
    t_ok_sh_sup (3) {
        use crate::sh::*;
        sh_ok!(MockSu::new(), expect_sup, |a, b, k| sp(a, b, k), |m, x, y| m.sup(x, y));
    }
    t_ok_sh_wh (3) {
        use crate::sh::*;
        sh_ok!(MockWh::<u32>::default(), expect_wh, |a, b, k| sp(a, b, k), |m, x, y| m.wh(x, y));
    }
    t_ok_sh_res (3) {
        use crate::sh::*;
        sh_ok!(MockMk::new(), expect_res, |a, b, k| Ok(sp(a, b, k)), |m, x, y| m.res(x, y).unwrap_or(0));
    }
    t_ok_sh_drf (3) {
        use crate::sh::*;
        sh_ok!(MockDr::new(), expect_drf, |a, b, k| sp(a, b, k), |m, x, y| m.drf(x, y));
    }
    t_ok_sh_raw (3) {
        use crate::sh::*;
        sh_ok!(MockRaw::new(), expect_match, |a, b, k| sp(a, b, k), |m, x, y| m.r#match(x, y));
    }
    t_ok_sh_nondebug (3) {
        use crate::sh::*;
        sh_ok!(MockRaw::new(), expect_nondebug, |a, b, k| sp(a.0, b, k), |m, x, y| m.nondebug(br(x), y));
    }
}
#[cfg(not(kani))]
pub fn run() { vh::kani::main(registry()) }
