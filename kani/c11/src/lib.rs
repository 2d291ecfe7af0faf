//! C11: methods, objects and traits never share expectations.
//! Contracts of the generated mock structs (one expectation list per method and object), of
//! their trait blocks, of the static lists, and of new / drop / checkpoint over them.
#![allow(unused)]
#[path = "../../common/vh.rs"]
#[macro_use]
mod vh;
use mockall::*;
use mockall::predicate::*;
use vh::*;

mock! { pub Two { fn foo(&self, x: u8) -> u32; fn bar(&self, x: u8) -> u32; fn baz(&mut self, x: u8) -> u32; } }
mock! { pub Ref { fn r(&self, x: u8) -> &u32; fn s(&self, x: u8) -> &u32; fn q(&mut self, x: u8) -> &mut u32; fn p(&mut self, x: u8) -> &mut u32; } }
pub trait TA { fn ta(&self, x: u8) -> u32; fn sta(x: u8) -> u32; }
pub trait TB { fn tb(&self, x: u8) -> u32; fn stb(x: u8) -> u32; }
mock! { pub Tr { fn foo(&self, x: u8) -> u32; fn sfoo(x: u8) -> u32; }
    impl TA for Tr { fn ta(&self, x: u8) -> u32; fn sta(x: u8) -> u32; }
    impl TB for Tr { fn tb(&self, x: u8) -> u32; fn stb(x: u8) -> u32; } }
mock! { pub Tr2 {} impl TA for Tr2 { fn ta(&self, x: u8) -> u32; fn sta(x: u8) -> u32; } }
mock! { pub S1 { fn foo(x: u8) -> u32; fn bar(x: u8) -> u32; } }
mock! { pub S2 { fn foo(x: u8) -> u32; } }
mod na { pub trait Same { fn na(&self, x: u8) -> u32; } }
mod nb { pub trait Same { fn nb(&self, x: u8) -> u32; } }
mock! { pub Nm {} impl na::Same for Nm { fn na(&self, x: u8) -> u32; } impl nb::Same for Nm { fn nb(&self, x: u8) -> u32; } }
mock! { pub Cl { fn foo(&self, x: u8) -> u32; } impl Clone for Cl { fn clone(&self) -> Self; } }
mock! { pub Gx<T: 'static> {} impl TC for Gx<u32> { fn tc(&self, x: u8) -> u32; } impl TC for Gx<i32> { fn tc(&self, x: u8) -> u32; } }
pub trait TC { fn tc(&self, x: u8) -> u32; }
#[automock] mod m1 { pub fn free(x: u8) -> u32 { x.into() } pub fn other(x: u8) -> u32 { x.into() } }
#[automock] mod m2 { pub fn free(x: u8) -> u32 { x.into() } }
// names that differ by a prefix, a suffix or an underscore
mock! { pub Nam { fn a(&self) -> u32; fn a_(&self) -> u32; fn _a(&self) -> u32; fn a_a(&self) -> u32; fn r#type(&self) -> u32; fn ty(&self) -> u32; } }
// one self by value, one by Box, one static, one with a lifetime
mock! { pub Rcv { fn foo(&self) -> u32; fn val(self) -> u32; fn bx(self: Box<Self>) -> u32; } }

const TOP: usize = usize::MAX - 2;
fn under() -> (usize, usize, usize) {
    let (lo, hi, c): (usize, usize, usize) = kani::any();
    kani::assume(lo <= hi && hi < TOP && c < lo);
    (lo, hi, c)
}
fn satisfied() -> (usize, usize, usize) {
    let (lo, hi, c): (usize, usize, usize) = kani::any();
    kani::assume(lo <= hi && hi < TOP && c >= lo && c <= hi);
    (lo, hi, c)
}

harnesses! {
    // ---- methods of one object ----------------------------------------------------------------
    ok_methods (3) {
        let (a, b, d): (u32, u32, u32) = kani::any();
        let x: u8 = kani::any();
        let mut m = MockTwo::new();
        m.expect_foo().return_const(a);
        m.expect_bar().return_const(b);
        m.expect_baz().return_const(d);
        obl!(m.baz(x) == d, "each method is answered by its own expectations (third)");
        obl!(m.foo(x) == a, "each method is answered by its own expectations (first)");
        obl!(m.bar(x) == b, "each method is answered by its own expectations (second)");
        done(m);
    }
    pan_method_other (3) {
        let mut m = MockTwo::new();
        m.expect_foo().return_const(1u32);
        m.expect_baz().return_const(1u32);
        must_panic!("an unconfigured method panics although its neighbours are configured", m.bar(kani::any()));
    }
    pan_method_first (3) {
        let mut m = MockTwo::new();
        m.expect_bar().return_const(1u32);
        must_panic!("an unconfigured first method panics although the second is configured", m.foo(kani::any()));
    }
    ok_method_conditions (3) {
        let (a, b, x): (u8, u8, u8) = kani::any();
        let mut m = MockTwo::new();
        m.expect_foo().withf(move |p| *p == a).return_const(1u32);
        m.expect_bar().withf(move |p| *p == b).return_const(2u32);
        if x == a { obl!(m.foo(x) == 1, "a condition belongs to its own method"); }
        if x == b { obl!(m.bar(x) == 2, "a condition belongs to its own method (other)"); }
        done(m);
    }
    ok_method_counts (3) {
        let (lo, hi, c) = satisfied();
        let mut m = MockTwo::new();
        preset_calls(0);
        m.expect_bar().times(1).return_const(2u32);
        preset_calls(c);
        m.expect_foo().times(lo..=hi).return_const(1u32);
        history!(c, m.foo(0));
        obl!(m.bar(kani::any()) == 2, "calls of one method use up nothing of another");
        drop(m);
    }
    pan_method_full (3) {
        let c: usize = kani::any();
        kani::assume(c < TOP && c >= 1);
        let mut m = MockTwo::new();
        preset_calls(0);
        m.expect_bar().times(0..).return_const(2u32);
        preset_calls(c);
        m.expect_foo().times(1..=c).return_const(1u32);
        history!(c, m.foo(0));
        must_panic!("a used-up method is not helped out by another", m.foo(kani::any()));
    }
    pan_method_drop (3) {
        let (lo, hi, c) = under();
        let mut m = MockTwo::new();
        preset_calls(0);
        m.expect_bar().times(0..).return_const(2u32);
        preset_calls(c);
        m.expect_foo().times(lo..=hi).return_const(1u32);
        history!(c, m.foo(0));
        m.bar(kani::any());
        must_panic!("calls of one method do not satisfy another", drop(m));
    }
    ok_ref_methods (3) {
        let (a, b): (u32, u32) = kani::any();
        let x: u8 = kani::any();
        let mut m = MockRef::new();
        m.expect_r().return_const(a);
        m.expect_s().return_const(b);
        obl!(*m.r(x) == a, "methods returning references: own expectations");
        obl!(*m.s(x) == b, "methods returning references: own expectations (other)");
        done(m);
    }
    ok_refmut_methods (3) {
        let (a, b): (u32, u32) = kani::any();
        let x: u8 = kani::any();
        let mut m = MockRef::new();
        m.expect_q().return_var(a);
        m.expect_p().return_var(b);
        *m.q(x) = b ^ 1;
        obl!(*m.p(x) == b, "methods returning mutable references: own variable");
        obl!(*m.q(x) == b ^ 1, "methods returning mutable references: own variable (other)");
        done(m);
    }
    ok_names (3) {
        let v: [u32; 6] = kani::any();
        let mut m = MockNam::new();
        m.expect_a().return_const(v[0]);
        m.expect_a_().return_const(v[1]);
        m.expect__a().return_const(v[2]);
        m.expect_a_a().return_const(v[3]);
        m.expect_type().return_const(v[4]);
        m.expect_ty().return_const(v[5]);
        obl!(m.a() == v[0], "similar names: a");
        obl!(m.a_() == v[1], "similar names: a_");
        obl!(m._a() == v[2], "similar names: _a");
        obl!(m.a_a() == v[3], "similar names: a_a");
        obl!(m.r#type() == v[4], "similar names: type");
        obl!(m.ty() == v[5], "similar names: ty");
        done(m);
    }
    ok_receivers (3) {
        let (a, b, d): (u32, u32, u32) = kani::any();
        let mut m = MockRcv::new();
        m.expect_foo().return_const(a);
        m.expect_val().return_const(b);
        m.expect_bx().return_const(d);
        obl!(m.foo() == a, "receivers: by reference");
        if kani::any() { obl!(m.val() == b, "receivers: by value"); }
        else { obl!(Box::new(m).bx() == d, "receivers: boxed"); }
    }
    // ---- objects ----------------------------------------------------------------------------------
    ok_objects (3) {
        let (a, b): (u32, u32) = kani::any();
        let mut m = MockTwo::new();
        let mut n = MockTwo::new();
        m.expect_foo().return_const(a);
        n.expect_foo().return_const(b);
        obl!(n.foo(kani::any()) == b, "each object is answered by its own expectations");
        obl!(m.foo(kani::any()) == a, "each object is answered by its own expectations (other)");
        done(m);
        done(n);
    }
    pan_objects (3) {
        let mut m = MockTwo::new();
        let n = MockTwo::new();
        m.expect_foo().return_const(1u32);
        must_panic!("an unconfigured object panics although another is configured", n.foo(kani::any()));
    }
    pan_default_fresh (3) {
        let mut m = MockTwo::default();
        m.expect_foo().return_const(1u32);
        let n = MockTwo::default();
        must_panic!("a new object has no expectations", n.foo(kani::any()));
    }
    ok_object_counts (3) {
        let (lo, hi, c) = satisfied();
        let mut m = MockTwo::new();
        let mut n = MockTwo::new();
        preset_calls(0);
        n.expect_foo().times(1).return_const(2u32);
        preset_calls(c);
        m.expect_foo().times(lo..=hi).return_const(1u32);
        history!(c, m.foo(0));
        obl!(n.foo(kani::any()) == 2, "calls of one object use up nothing of another");
        drop(m);
        drop(n);
    }
    ok_object_drop (3) {
        let b: u32 = kani::any();
        let (m, mut n) = (MockTwo::new(), MockTwo::new());
        n.expect_foo().return_const(b);
        drop(m);
        obl!(n.foo(kani::any()) == b, "dropping an object leaves another alone");
        done(n);
    }
    ok_object_checkpoint (3) {
        let b: u32 = kani::any();
        let (mut m, mut n) = (MockTwo::new(), MockTwo::new());
        preset_calls(0);
        n.expect_foo().times(1).return_const(b);
        m.checkpoint();
        obl!(n.foo(kani::any()) == b, "a checkpoint of one object leaves another alone");
        drop(m);
        drop(n);
    }
    pan_object_under (3) {
        let (lo, hi, c) = under();
        let (mut m, mut n) = (MockTwo::new(), MockTwo::new());
        preset_calls(c);
        n.expect_foo().times(lo..=hi).return_const(1u32);
        history!(c, n.foo(0));
        preset_calls(0);
        m.expect_foo().times(0..).return_const(2u32);
        m.foo(kani::any());
        drop(m);
        must_panic!("calls of one object do not satisfy another", drop(n));
    }
    ok_clone (3) {
        let (a, b): (u32, u32) = kani::any();
        let mut m = MockCl::new();
        m.expect_foo().return_const(a);
        m.expect_clone().return_once(move || {
            let mut n = MockCl::new();
            n.expect_foo().return_const(b);
            n
        });
        let n = m.clone();
        obl!(m.foo(kani::any()) == a, "the cloned object keeps its expectations");
        obl!(n.foo(kani::any()) == b, "the clone has exactly the expectations it was configured with");
        done(m);
        done(n);
    }
    pan_clone_fresh (3) {
        let mut m = MockCl::new();
        m.expect_foo().return_const(1u32);
        m.expect_clone().return_once(|| MockCl::new());
        let n = m.clone();
        must_panic!("a clone does not inherit expectations", n.foo(kani::any()));
    }
    // ---- traits ---------------------------------------------------------------------------------------
    ok_traits (3) {
        let (a, b, d): (u32, u32, u32) = kani::any();
        let x: u8 = kani::any();
        let mut m = MockTr::new();
        m.expect_foo().return_const(a);
        m.expect_ta().return_const(b);
        m.expect_tb().return_const(d);
        obl!(m.tb(x) == d, "methods of different traits: own expectations (second trait)");
        obl!(m.ta(x) == b, "methods of different traits: own expectations (first trait)");
        obl!(m.foo(x) == a, "methods of different traits: own expectations (inherent)");
        done(m);
    }
    pan_traits (3) {
        let mut m = MockTr::new();
        m.expect_foo().return_const(1u32);
        m.expect_ta().return_const(2u32);
        must_panic!("an unconfigured trait method panics although others are configured", m.tb(kani::any()));
    }
    pan_trait_drop_second (3) {
        let (lo, hi, c) = under();
        let mut m = MockTr::new();
        preset_calls(0);
        m.expect_ta().times(0..).return_const(2u32);
        preset_calls(c);
        m.expect_tb().times(lo..=hi).return_const(1u32);
        history!(c, m.tb(0));
        m.ta(kani::any());
        must_panic!("calls of one trait's method do not satisfy another's", drop(m));
    }
    ok_same_trait_name (3) {
        let (a, b): (u32, u32) = kani::any();
        let mut m = MockNm::new();
        m.expect_na().return_const(a);
        m.expect_nb().return_const(b);
        obl!(na::Same::na(&m, kani::any()) == a, "traits of the same name from two modules: own expectations");
        obl!(nb::Same::nb(&m, kani::any()) == b, "traits of the same name from two modules: own expectations (other)");
        done(m);
    }
    ok_specific_impls (3) {
        let (a, b): (u32, u32) = kani::any();
        let mut m = MockGx::<u32>::new();
        let mut n = MockGx::<i32>::new();
        m.expect_tc().return_const(a);
        n.expect_tc().return_const(b);
        obl!(m.tc(kani::any()) == a, "implementations of one trait for two concrete types: own expectations");
        obl!(n.tc(kani::any()) == b, "implementations of one trait for two concrete types: own expectations (other)");
        done(m);
        done(n);
    }
    // ---- static methods and functions -----------------------------------------------------------------------
    ok_statics (3) {
        let (a, b, d): (u32, u32, u32) = kani::any();
        let x: u8 = kani::any();
        let (c1, c2, c3) = (MockS1::foo_context(), MockS1::bar_context(), MockS2::foo_context());
        c1.expect().return_const(a);
        c2.expect().return_const(b);
        c3.expect().return_const(d);
        obl!(MockS2::foo(x) == d, "static methods of the same name: own expectations");
        obl!(MockS1::foo(x) == a, "static methods of the same name: own expectations (other)");
        obl!(MockS1::bar(x) == b, "static methods of one type: own expectations");
        done((c1, c2, c3));
    }
    pan_static_same_name (3) {
        let c1 = MockS1::foo_context();
        c1.expect().return_const(1u32);
        must_panic!("an unconfigured static method panics although its namesake is configured", MockS2::foo(kani::any()));
    }
    ok_static_ctx_drop (3) {
        let a: u32 = kani::any();
        let (c1, c3) = (MockS1::foo_context(), MockS2::foo_context());
        preset_calls(0);
        c1.expect().times(1).return_const(a);
        drop(c3);
        obl!(MockS1::foo(kani::any()) == a, "the end of one context leaves another method's expectations alone");
        drop(c1);
    }
    ok_static_ctx_checkpoint (3) {
        let a: u32 = kani::any();
        let (c1, c2) = (MockS1::foo_context(), MockS1::bar_context());
        preset_calls(0);
        c1.expect().times(1).return_const(a);
        c2.checkpoint();
        obl!(MockS1::foo(kani::any()) == a, "a checkpoint of one context leaves another method's expectations alone");
        drop(c1);
        done(c2);
    }
    ok_static_object (3) {
        let (a, b): (u32, u32) = kani::any();
        let mut m = MockTr::new();
        let ctx = MockTr::sfoo_context();
        preset_calls(0);
        m.expect_foo().times(1).return_const(a);
        ctx.expect().times(1).return_const(b);
        m.foo(kani::any());
        m.checkpoint();
        obl!(MockTr::sfoo(kani::any()) == b, "a checkpoint of an object leaves static expectations alone");
        drop(ctx);
        drop(m);
    }
    ok_trait_statics (3) {
        let (a, b, d): (u32, u32, u32) = kani::any();
        let x: u8 = kani::any();
        let (c1, c2, c3) = (MockTr::sta_context(), MockTr::stb_context(), MockTr2::sta_context());
        c1.expect().return_const(a);
        c2.expect().return_const(b);
        c3.expect().return_const(d);
        obl!(<MockTr2 as TA>::sta(x) == d, "static trait methods of two mocks: own expectations");
        obl!(<MockTr as TB>::stb(x) == b, "static methods of two traits: own expectations");
        obl!(<MockTr as TA>::sta(x) == a, "static trait methods of two mocks: own expectations (other)");
        done((c1, c2, c3));
    }
    pan_trait_static_other (3) {
        let c1 = MockTr::sta_context();
        c1.expect().return_const(1u32);
        must_panic!("an unconfigured static trait method panics although another mock's is configured", <MockTr2 as TA>::sta(kani::any()));
    }
    ok_modules (3) {
        let (a, b, d): (u32, u32, u32) = kani::any();
        let x: u8 = kani::any();
        let (c1, c2, c3) = (mock_m1::free_context(), mock_m2::free_context(), mock_m1::other_context());
        c1.expect().return_const(a);
        c2.expect().return_const(b);
        c3.expect().return_const(d);
        obl!(mock_m2::free(x) == b, "functions of the same name in two modules: own expectations");
        obl!(mock_m1::free(x) == a, "functions of the same name in two modules: own expectations (other)");
        obl!(mock_m1::other(x) == d, "functions of one module: own expectations");
        done((c1, c2, c3));
    }
    ok_module_checkpoint (3) {
        let a: u32 = kani::any();
        let c1 = mock_m1::free_context();
        preset_calls(0);
        c1.expect().times(1).return_const(a);
        mock_m2::checkpoint();
        obl!(mock_m1::free(kani::any()) == a, "a checkpoint of one module leaves another alone");
        drop(c1);
    }
    pan_module_checkpoint_all (3) {
        let (lo, hi, c) = under();
        let (c1, c3) = (mock_m1::free_context(), mock_m1::other_context());
        preset_calls(0);
        c1.expect().times(0..).return_const(1u32);
        preset_calls(c);
        c3.expect().times(lo..=hi).return_const(1u32);
        history!(c, mock_m1::other(0));
        mock_m1::free(kani::any());
        must_panic!("calls of one function do not satisfy another of its module", mock_m1::checkpoint());
    }
}
#[cfg(not(kani))]
pub fn run() { vh::kani::main(registry()) }
