//! C10: generic methods keep separate expectations per concrete type.
//! Contracts of the generated `GenericExpectations` (keyed store), of `expect_m::<T>`,
//! `m::<T>`, and of drop / checkpoint over several instantiations.
#![allow(unused)]
#[path = "../../common/vh.rs"]
#[macro_use]
mod vh;
use mockall::*;
use mockall::predicate::*;
use vh::*;

pub trait Tr { fn tg<T: 'static>(&self, x: T) -> u32; }
mock! { pub G { fn g<T: 'static>(&self, x: T) -> u32; fn h<T: 'static>(&self, x: T) -> u32; } }
mock! { pub P { fn p<T: 'static, U: 'static>(&self, x: T, y: U) -> u32; } }
mock! { pub M3 { fn q<A: 'static, B: 'static, C: 'static>(&self, a: A, b: B, c: C) -> u32; } }
mock! { pub M4 { fn q<A: 'static, B: 'static, C: 'static, D: 'static>(&self, a: A, b: B, c: C, d: D) -> u32; } }
mock! { pub M5 { fn q<A: 'static, B: 'static, C: 'static, D: 'static, E: 'static>(&self, a: A, b: B, c: C, d: D, e: E) -> u32; } }
mock! { pub S4 { fn q<A: 'static, B: 'static, C: 'static, D: 'static>(a: A, b: B, c: C, d: D) -> u32; } }
mock! { pub O { fn get<T: 'static>(&self) -> T; fn conv<T: 'static, U: 'static>(&self, x: T) -> U; } }
mock! { pub R { fn r<T: 'static>(&self, x: T) -> &u32; fn rm<T: 'static>(&mut self, x: T) -> &mut u32; } }
mock! { pub GT {} impl Tr for GT { fn tg<T: 'static>(&self, x: T) -> u32; } }
mock! { pub S { fn s<T: 'static>(x: T) -> u32; fn s2<T: 'static, U: 'static>(x: T, y: U) -> u32; } }
mock! { pub SR { fn sr<T: 'static>(x: T) -> &'static u32; } }
mock! { pub GS<X: 'static> { fn gs(x: X) -> u32; fn m(&self, x: X) -> u32; } }
mock! { pub W { fn w<T>(&self, x: T) -> u32 where T: Clone + 'static; } }

#[derive(Clone, Copy, PartialEq)] pub struct A(pub u8);
#[derive(Clone, Copy, PartialEq)] pub struct B(pub u8);
const TOP: usize = usize::MAX - 2;
fn under() -> (usize, usize, usize) {
    let (lo, hi, c): (usize, usize, usize) = kani::any();
    kani::assume(lo <= hi && hi < TOP && c < lo);
    (lo, hi, c)
}
fn satisfied() -> (usize, usize, usize) {
    let (lo, hi, c): (usize, usize, usize) = kani::any();
    kani::assume(lo <= hi && hi < TOP && c >= lo && c <= hi);
    (lo, hi, c)
}

harnesses! {
    // ---- who answers ---------------------------------------------------------------------
    ok_answers (3) {
        let (a, b): (u32, u32) = kani::any();
        let mut m = MockG::new();
        m.expect_g::<u8>().return_const(a);
        m.expect_g::<i8>().return_const(b);
        obl!(m.g(kani::any::<u8>()) == a, "each instantiation is answered by its own expectations");
        obl!(m.g(kani::any::<i8>()) == b, "each instantiation is answered by its own expectations (other type)");
        obl!(m.g(kani::any::<u8>()) == a, "each instantiation is answered by its own expectations (again)");
        done(m);
    }
    ok_answers_newtype (3) {
        let (a, b): (u32, u32) = kani::any();
        let x: u8 = kani::any();
        let mut m = MockG::new();
        m.expect_g::<A>().return_const(a);
        m.expect_g::<B>().return_const(b);
        obl!(m.g(B(x)) == b, "types of equal layout are distinct instantiations");
        obl!(m.g(A(x)) == a, "types of equal layout are distinct instantiations (other type)");
        done(m);
    }
    pan_none (3) {
        let mut m = MockG::new();
        m.expect_g::<u8>().return_const(1u32);
        must_panic!("a call panics if its instantiation has no expectations", m.g(kani::any::<i8>()));
    }
    pan_none_layout (3) {
        let mut m = MockG::new();
        m.expect_g::<A>().return_const(1u32);
        must_panic!("a call panics if only a type of equal layout has expectations", m.g(B(kani::any())));
    }
    pan_empty (3) {
        let m = MockG::new();
        must_panic!("a generic call without any expectation panics", m.g(kani::any::<u8>()));
    }
    ok_pair (3) {
        let (a, b): (u32, u32) = kani::any();
        let mut m = MockP::new();
        m.expect_p::<u8, i8>().return_const(a);
        m.expect_p::<i8, u8>().return_const(b);
        obl!(m.p(kani::any::<i8>(), kani::any::<u8>()) == b, "the order of the type parameters matters");
        obl!(m.p(kani::any::<u8>(), kani::any::<i8>()) == a, "the order of the type parameters matters (other order)");
        done(m);
    }
    pan_pair_first (3) {
        let mut m = MockP::new();
        m.expect_p::<u8, u8>().return_const(1u32);
        must_panic!("the first type parameter is part of the instantiation", m.p(kani::any::<i8>(), kani::any::<u8>()));
    }
    pan_pair_second (3) {
        let mut m = MockP::new();
        m.expect_p::<u8, u8>().return_const(1u32);
        must_panic!("the second type parameter is part of the instantiation", m.p(kani::any::<u8>(), kani::any::<i8>()));
    }
    ok_out (3) {
        let (a, b): (u32, i32) = kani::any();
        let mut m = MockO::new();
        m.expect_get::<u32>().return_const(a);
        m.expect_get::<i32>().return_const(b);
        obl!(m.get::<u32>() == a, "a type that appears only in the result selects the expectations");
        obl!(m.get::<i32>() == b, "a type that appears only in the result selects the expectations (other type)");
        done(m);
    }
    pan_out (3) {
        let mut m = MockO::new();
        m.expect_conv::<u8, u32>().return_const(1u32);
        must_panic!("a type that appears only in the result is part of the instantiation", m.conv::<u8, i32>(kani::any()));
    }
    ok_m3_0 (4) {
        let (a, b): (u32, u32) = kani::any();
        let mut m = MockM3::new();
        m.expect_q::<u8, u8, u8>().return_const(a);
        m.expect_q::<i8, u8, u8>().return_const(b);
        obl!(m.q(0u8, 0u8, 0u8) == a, "type parameter 1 of 3: each instantiation is answered by its own expectations");
        obl!(m.q(0i8, 0u8, 0u8) == b, "type parameter 1 of 3: each instantiation is answered by its own expectations (other type)");
        done(m);
    }
    t_ok_m3_1 (4) {
        let (a, b): (u32, u32) = kani::any();
        let mut m = MockM3::new();
        m.expect_q::<u8, u8, u8>().return_const(a);
        m.expect_q::<u8, i8, u8>().return_const(b);
        obl!(m.q(0u8, 0u8, 0u8) == a, "type parameter 2 of 3: each instantiation is answered by its own expectations");
        obl!(m.q(0u8, 0i8, 0u8) == b, "type parameter 2 of 3: each instantiation is answered by its own expectations (other type)");
        done(m);
    }
    ok_m3_2 (4) {
        let (a, b): (u32, u32) = kani::any();
        let mut m = MockM3::new();
        m.expect_q::<u8, u8, u8>().return_const(a);
        m.expect_q::<u8, u8, i8>().return_const(b);
        obl!(m.q(0u8, 0u8, 0u8) == a, "type parameter 3 of 3: each instantiation is answered by its own expectations");
        obl!(m.q(0u8, 0u8, 0i8) == b, "type parameter 3 of 3: each instantiation is answered by its own expectations (other type)");
        done(m);
    }
    ok_m4_0 (4) {
        let (a, b): (u32, u32) = kani::any();
        let mut m = MockM4::new();
        m.expect_q::<u8, u8, u8, u8>().return_const(a);
        m.expect_q::<i8, u8, u8, u8>().return_const(b);
        obl!(m.q(0u8, 0u8, 0u8, 0u8) == a, "type parameter 1 of 4: each instantiation is answered by its own expectations");
        obl!(m.q(0i8, 0u8, 0u8, 0u8) == b, "type parameter 1 of 4: each instantiation is answered by its own expectations (other type)");
        done(m);
    }
    t_ok_m4_1 (4) {
        let (a, b): (u32, u32) = kani::any();
        let mut m = MockM4::new();
        m.expect_q::<u8, u8, u8, u8>().return_const(a);
        m.expect_q::<u8, i8, u8, u8>().return_const(b);
        obl!(m.q(0u8, 0u8, 0u8, 0u8) == a, "type parameter 2 of 4: each instantiation is answered by its own expectations");
        obl!(m.q(0u8, 0i8, 0u8, 0u8) == b, "type parameter 2 of 4: each instantiation is answered by its own expectations (other type)");
        done(m);
    }
    t_ok_m4_2 (4) {
        let (a, b): (u32, u32) = kani::any();
        let mut m = MockM4::new();
        m.expect_q::<u8, u8, u8, u8>().return_const(a);
        m.expect_q::<u8, u8, i8, u8>().return_const(b);
        obl!(m.q(0u8, 0u8, 0u8, 0u8) == a, "type parameter 3 of 4: each instantiation is answered by its own expectations");
        obl!(m.q(0u8, 0u8, 0i8, 0u8) == b, "type parameter 3 of 4: each instantiation is answered by its own expectations (other type)");
        done(m);
    }
    ok_m4_3 (4) {
        let (a, b): (u32, u32) = kani::any();
        let mut m = MockM4::new();
        m.expect_q::<u8, u8, u8, u8>().return_const(a);
        m.expect_q::<u8, u8, u8, i8>().return_const(b);
        obl!(m.q(0u8, 0u8, 0u8, 0u8) == a, "type parameter 4 of 4: each instantiation is answered by its own expectations");
        obl!(m.q(0u8, 0u8, 0u8, 0i8) == b, "type parameter 4 of 4: each instantiation is answered by its own expectations (other type)");
        done(m);
    }
    t_ok_m5_0 (4) {
        let (a, b): (u32, u32) = kani::any();
        let mut m = MockM5::new();
        m.expect_q::<u8, u8, u8, u8, u8>().return_const(a);
        m.expect_q::<i8, u8, u8, u8, u8>().return_const(b);
        obl!(m.q(0u8, 0u8, 0u8, 0u8, 0u8) == a, "type parameter 1 of 5: each instantiation is answered by its own expectations");
        obl!(m.q(0i8, 0u8, 0u8, 0u8, 0u8) == b, "type parameter 1 of 5: each instantiation is answered by its own expectations (other type)");
        done(m);
    }
    t_ok_m5_1 (4) {
        let (a, b): (u32, u32) = kani::any();
        let mut m = MockM5::new();
        m.expect_q::<u8, u8, u8, u8, u8>().return_const(a);
        m.expect_q::<u8, i8, u8, u8, u8>().return_const(b);
        obl!(m.q(0u8, 0u8, 0u8, 0u8, 0u8) == a, "type parameter 2 of 5: each instantiation is answered by its own expectations");
        obl!(m.q(0u8, 0i8, 0u8, 0u8, 0u8) == b, "type parameter 2 of 5: each instantiation is answered by its own expectations (other type)");
        done(m);
    }
    t_ok_m5_2 (4) {
        let (a, b): (u32, u32) = kani::any();
        let mut m = MockM5::new();
        m.expect_q::<u8, u8, u8, u8, u8>().return_const(a);
        m.expect_q::<u8, u8, i8, u8, u8>().return_const(b);
        obl!(m.q(0u8, 0u8, 0u8, 0u8, 0u8) == a, "type parameter 3 of 5: each instantiation is answered by its own expectations");
        obl!(m.q(0u8, 0u8, 0i8, 0u8, 0u8) == b, "type parameter 3 of 5: each instantiation is answered by its own expectations (other type)");
        done(m);
    }
    t_ok_m5_3 (4) {
        let (a, b): (u32, u32) = kani::any();
        let mut m = MockM5::new();
        m.expect_q::<u8, u8, u8, u8, u8>().return_const(a);
        m.expect_q::<u8, u8, u8, i8, u8>().return_const(b);
        obl!(m.q(0u8, 0u8, 0u8, 0u8, 0u8) == a, "type parameter 4 of 5: each instantiation is answered by its own expectations");
        obl!(m.q(0u8, 0u8, 0u8, 0i8, 0u8) == b, "type parameter 4 of 5: each instantiation is answered by its own expectations (other type)");
        done(m);
    }
    t_ok_m5_4 (4) {
        let (a, b): (u32, u32) = kani::any();
        let mut m = MockM5::new();
        m.expect_q::<u8, u8, u8, u8, u8>().return_const(a);
        m.expect_q::<u8, u8, u8, u8, i8>().return_const(b);
        obl!(m.q(0u8, 0u8, 0u8, 0u8, 0u8) == a, "type parameter 5 of 5: each instantiation is answered by its own expectations");
        obl!(m.q(0u8, 0u8, 0u8, 0u8, 0i8) == b, "type parameter 5 of 5: each instantiation is answered by its own expectations (other type)");
        done(m);
    }
    t_ok_s4_0 (4) {
        let (a, b): (u32, u32) = kani::any();
        let ctx = MockS4::q_context();
        ctx.expect::<u8, u8, u8, u8>().return_const(a);
        ctx.expect::<i8, u8, u8, u8>().return_const(b);
        obl!(MockS4::q(0u8, 0u8, 0u8, 0u8) == a, "type parameter 1 of 4: each instantiation is answered by its own expectations");
        obl!(MockS4::q(0i8, 0u8, 0u8, 0u8) == b, "type parameter 1 of 4: each instantiation is answered by its own expectations (other type)");
        done(ctx);
    }
    t_ok_s4_1 (4) {
        let (a, b): (u32, u32) = kani::any();
        let ctx = MockS4::q_context();
        ctx.expect::<u8, u8, u8, u8>().return_const(a);
        ctx.expect::<u8, i8, u8, u8>().return_const(b);
        obl!(MockS4::q(0u8, 0u8, 0u8, 0u8) == a, "type parameter 2 of 4: each instantiation is answered by its own expectations");
        obl!(MockS4::q(0u8, 0i8, 0u8, 0u8) == b, "type parameter 2 of 4: each instantiation is answered by its own expectations (other type)");
        done(ctx);
    }
    t_ok_s4_2 (4) {
        let (a, b): (u32, u32) = kani::any();
        let ctx = MockS4::q_context();
        ctx.expect::<u8, u8, u8, u8>().return_const(a);
        ctx.expect::<u8, u8, i8, u8>().return_const(b);
        obl!(MockS4::q(0u8, 0u8, 0u8, 0u8) == a, "type parameter 3 of 4: each instantiation is answered by its own expectations");
        obl!(MockS4::q(0u8, 0u8, 0i8, 0u8) == b, "type parameter 3 of 4: each instantiation is answered by its own expectations (other type)");
        done(ctx);
    }
    t_ok_s4_3 (4) {
        let (a, b): (u32, u32) = kani::any();
        let ctx = MockS4::q_context();
        ctx.expect::<u8, u8, u8, u8>().return_const(a);
        ctx.expect::<u8, u8, u8, i8>().return_const(b);
        obl!(MockS4::q(0u8, 0u8, 0u8, 0u8) == a, "type parameter 4 of 4: each instantiation is answered by its own expectations");
        obl!(MockS4::q(0u8, 0u8, 0u8, 0i8) == b, "type parameter 4 of 4: each instantiation is answered by its own expectations (other type)");
        done(ctx);
    }
    ok_trait (3) {
        let (a, b): (u32, u32) = kani::any();
        let mut m = MockGT::new();
        m.expect_tg::<u8>().return_const(a);
        m.expect_tg::<i8>().return_const(b);
        obl!(m.tg(kani::any::<u8>()) == a, "generic trait method: each instantiation is answered by its own expectations");
        obl!(m.tg(kani::any::<i8>()) == b, "generic trait method: each instantiation is answered by its own expectations (other type)");
        done(m);
    }
    ok_where (3) {
        let (a, b): (u32, u32) = kani::any();
        let mut m = MockW::new();
        m.expect_w::<u8>().return_const(a);
        m.expect_w::<i8>().return_const(b);
        obl!(m.w(kani::any::<u8>()) == a, "bounds in a where clause: each instantiation is answered by its own expectations");
        obl!(m.w(kani::any::<i8>()) == b, "bounds in a where clause: each instantiation is answered by its own expectations (other type)");
        done(m);
    }
    ok_ref (3) {
        let (a, b): (u32, u32) = kani::any();
        let mut m = MockR::new();
        m.expect_r::<u8>().return_const(a);
        m.expect_r::<i8>().return_const(b);
        obl!(*m.r(kani::any::<u8>()) == a, "generic method returning a reference: own expectations");
        obl!(*m.r(kani::any::<i8>()) == b, "generic method returning a reference: own expectations (other type)");
        done(m);
    }
    pan_ref (3) {
        let mut m = MockR::new();
        m.expect_r::<u8>().return_const(1u32);
        must_panic!("generic method returning a reference: no expectations for this type", m.r(kani::any::<i8>()));
    }
    ok_refmut (3) {
        let (a, b): (u32, u32) = kani::any();
        let mut m = MockR::new();
        m.expect_rm::<u8>().return_var(a);
        m.expect_rm::<i8>().return_var(b);
        *m.rm(kani::any::<u8>()) = a ^ 1;
        obl!(*m.rm(kani::any::<i8>()) == b, "generic method returning a mutable reference: own expectations, own variable");
        obl!(*m.rm(kani::any::<u8>()) == a ^ 1, "generic method returning a mutable reference: own expectations, own variable (other type)");
        done(m);
    }
    pan_refmut (3) {
        let mut m = MockR::new();
        m.expect_rm::<u8>().return_var(1u32);
        must_panic!("generic method returning a mutable reference: no expectations for this type", { m.rm(kani::any::<i8>()); });
    }
    ok_two_methods (3) {
        let (a, b): (u32, u32) = kani::any();
        let mut m = MockG::new();
        m.expect_g::<u8>().return_const(a);
        m.expect_h::<u8>().return_const(b);
        obl!(m.h(kani::any::<u8>()) == b, "two generic methods with the same type argument do not share expectations");
        obl!(m.g(kani::any::<u8>()) == a, "two generic methods with the same type argument do not share expectations (other method)");
        done(m);
    }
    // ---- no consumption across instantiations ---------------------------------------------
    ok_count (3) {
        let (lo, hi, c) = satisfied();
        let (a, b): (u32, u32) = kani::any();
        let mut m = MockG::new();
        preset_calls(0);
        m.expect_g::<i8>().times(1).return_const(b);
        preset_calls(c);
        m.expect_g::<u8>().times(lo..=hi).return_const(a);
        history!(c, m.g(0u8));
        obl!(m.g(kani::any::<i8>()) == b, "calls of one instantiation use up nothing of another");
        drop(m);
    }
    pan_count_full (3) {
        let (hi, c): (usize, usize) = kani::any();
        kani::assume(hi < TOP && hi >= 1 && c == hi);
        let mut m = MockG::new();
        preset_calls(0);
        m.expect_g::<i8>().times(0..).return_const(1u32);
        preset_calls(c);
        m.expect_g::<u8>().times(1..=hi).return_const(1u32);
        history!(c, m.g(0u8));
        must_panic!("a used-up instantiation is not helped out by another", m.g(kani::any::<u8>()));
    }
    ok_condition (3) {
        let (a, x): (u8, u8) = kani::any();
        let mut m = MockG::new();
        m.expect_g::<u8>().with(eq(a)).return_const(1u32);
        m.expect_g::<A>().withf(move |p| p.0 != a).return_const(2u32);
        if x == a { obl!(m.g(x) == 1, "a condition holds for its own instantiation only"); }
        else { obl!(m.g(A(x)) == 2, "a condition holds for its own instantiation only (other type)"); }
        done(m);
    }
    // ---- verification of all instantiations ----------------------------------------------------
    pan_drop_first (3) {
        let (lo, hi, c) = under();
        let mut m = MockG::new();
        preset_calls(c);
        m.expect_g::<u8>().times(lo..=hi).return_const(1u32);
        history!(c, m.g(0u8));
        preset_calls(0);
        m.expect_g::<i8>().times(0..).return_const(1u32);
        must_panic!("drop verifies the first instantiation", drop(m));
    }
    pan_drop_second (3) {
        let (lo, hi, c) = under();
        let mut m = MockG::new();
        preset_calls(0);
        m.expect_g::<i8>().times(0..).return_const(1u32);
        preset_calls(c);
        m.expect_g::<u8>().times(lo..=hi).return_const(1u32);
        history!(c, m.g(0u8));
        must_panic!("drop verifies the second instantiation", drop(m));
    }
    ok_drop_both (3) {
        let (lo, hi, c) = satisfied();
        let mut m = MockG::new();
        preset_calls(0);
        m.expect_g::<i8>().times(0..2).return_const(1u32);
        preset_calls(c);
        m.expect_g::<u8>().times(lo..=hi).return_const(1u32);
        history!(c, m.g(0u8));
        drop(m);
    }
    pan_ckpt_first (3) {
        let (lo, hi, c) = under();
        let mut m = MockG::new();
        preset_calls(c);
        m.expect_g::<u8>().times(lo..=hi).return_const(1u32);
        history!(c, m.g(0u8));
        preset_calls(0);
        m.expect_g::<i8>().times(0..).return_const(1u32);
        must_panic!("checkpoint verifies the first instantiation", m.checkpoint());
    }
    pan_ckpt_second (3) {
        let (lo, hi, c) = under();
        let mut m = MockG::new();
        preset_calls(0);
        m.expect_g::<i8>().times(0..).return_const(1u32);
        preset_calls(c);
        m.expect_g::<u8>().times(lo..=hi).return_const(1u32);
        history!(c, m.g(0u8));
        must_panic!("checkpoint verifies the second instantiation", m.checkpoint());
    }
    pan_ckpt_cleared_first (3) {
        let mut m = MockG::new();
        preset_calls(0);
        m.expect_g::<u8>().times(0..).return_const(1u32);
        m.expect_g::<i8>().times(0..).return_const(1u32);
        m.checkpoint();
        must_panic!("checkpoint clears the first instantiation", m.g(kani::any::<u8>()));
    }
    pan_ckpt_cleared_second (3) {
        let mut m = MockG::new();
        preset_calls(0);
        m.expect_g::<i8>().times(0..).return_const(1u32);
        m.expect_g::<u8>().times(0..).return_const(1u32);
        m.checkpoint();
        must_panic!("checkpoint clears the second instantiation", m.g(kani::any::<u8>()));
    }
    // ---- static methods ---------------------------------------------------------------------------
    ok_static_answers (3) {
        let (a, b): (u32, u32) = kani::any();
        let ctx = MockS::s_context();
        ctx.expect::<u8>().return_const(a);
        ctx.expect::<i8>().return_const(b);
        obl!(MockS::s(kani::any::<u8>()) == a, "static: each instantiation is answered by its own expectations");
        obl!(MockS::s(kani::any::<i8>()) == b, "static: each instantiation is answered by its own expectations (other type)");
        done(ctx);
    }
    pan_static_none (3) {
        let ctx = MockS::s_context();
        ctx.expect::<u8>().return_const(1u32);
        must_panic!("static: a call panics if its instantiation has no expectations", MockS::s(kani::any::<i8>()));
    }
    pan_static_pair (3) {
        let ctx = MockS::s2_context();
        ctx.expect::<u8, i8>().return_const(1u32);
        must_panic!("static: both type parameters are part of the instantiation", MockS::s2(kani::any::<u8>(), kani::any::<u8>()));
    }
    t_pan_static_drop_first (3) {
        let (lo, hi, c) = under();
        let ctx = MockS::s_context();
        preset_calls(c);
        ctx.expect::<u8>().times(lo..=hi).return_const(1u32);
        history!(c, MockS::s(0u8));
        preset_calls(0);
        ctx.expect::<i8>().times(0..).return_const(1u32);
        must_panic!("the end of the context verifies the first instantiation", drop(ctx));
    }
    t_pan_static_drop_second (3) {
        let (lo, hi, c) = under();
        let ctx = MockS::s_context();
        preset_calls(0);
        ctx.expect::<i8>().times(0..).return_const(1u32);
        preset_calls(c);
        ctx.expect::<u8>().times(lo..=hi).return_const(1u32);
        history!(c, MockS::s(0u8));
        must_panic!("the end of the context verifies the second instantiation", drop(ctx));
    }
    t_pan_static_ckpt_second (3) {
        let (lo, hi, c) = under();
        let ctx = MockS::s_context();
        preset_calls(0);
        ctx.expect::<i8>().times(0..).return_const(1u32);
        preset_calls(c);
        ctx.expect::<u8>().times(lo..=hi).return_const(1u32);
        history!(c, MockS::s(0u8));
        must_panic!("checkpoint of the context verifies the second instantiation", ctx.checkpoint());
    }
    t_ok_static_count (3) {
        let (lo, hi, c) = satisfied();
        let ctx = MockS::s_context();
        preset_calls(0);
        ctx.expect::<i8>().times(1).return_const(2u32);
        preset_calls(c);
        ctx.expect::<u8>().times(lo..=hi).return_const(1u32);
        history!(c, MockS::s(0u8));
        obl!(MockS::s(kani::any::<i8>()) == 2, "static: calls of one instantiation use up nothing of another");
        drop(ctx);
    }
    // ---- generic structs -----------------------------------------------------------------------------
    ok_gs (3) {
        let (a, b): (u32, u32) = kani::any();
        let c8 = MockGS::<u8>::gs_context();
        let c16 = MockGS::<i8>::gs_context();
        c8.expect().return_const(a);
        c16.expect().return_const(b);
        obl!(MockGS::<u8>::gs(kani::any()) == a, "static method of a generic struct: own expectations per type");
        obl!(MockGS::<i8>::gs(kani::any()) == b, "static method of a generic struct: own expectations per type (other type)");
        done(c8);
        done(c16);
    }
    pan_gs_none (3) {
        let c8 = MockGS::<u8>::gs_context();
        c8.expect().return_const(1u32);
        must_panic!("static method of a generic struct: no expectations for this type", MockGS::<i8>::gs(kani::any()));
    }
    ok_gs_method (3) {
        let (a, b): (u32, u32) = kani::any();
        let mut m = MockGS::<u8>::new();
        let mut n = MockGS::<i8>::new();
        m.expect_m().return_const(a);
        n.expect_m().return_const(b);
        obl!(m.m(kani::any()) == a, "method of a generic struct: own expectations");
        obl!(n.m(kani::any()) == b, "method of a generic struct: own expectations (other type)");
        done(m);
        done(n);
    }
}
#[cfg(not(kani))]
pub fn run() { vh::kani::main(registry()) }
