//! C08: a checkpoint verifies and clears all of an object's own expectations.
//! Contracts of the generated `Mock*::checkpoint`, the traits' `checkpoint`,
//! `Expectations::checkpoint` and (through them) `Common::drop`.
#![allow(unused)]
#[path = "../../common/vh.rs"]
#[macro_use]
mod vh;
use mockall::*;
use vh::*;
use xa::Same as _;
use xb::Same as _;
use xb::in_::Same as _;

pub trait T1 { fn t1(&self) -> u32; fn t1b(&self) -> u32; }
pub trait T2 { fn t2(&self) -> u32; fn t2s() -> u32; }
mock! {
    pub B {
        fn a(&self) -> u32;
        fn mt(&mut self) -> u32;
        fn r(&self) -> &u32;
        fn rm(&mut self) -> &mut u32;
        fn s() -> u32;
        fn o(self) -> u32;
        fn last(&self) -> u32;
    }
    impl T1 for B { fn t1(&self) -> u32; fn t1b(&self) -> u32; }
    impl T2 for B { fn t2(&self) -> u32; fn t2s() -> u32; }
}
mock! { pub GS<T: Clone + 'static> { fn a(&self, x: T) -> u32; fn r(&self) -> &u32; } }
pub mod xa { pub trait Same { fn xa(&self) -> u32; } }
pub mod xb { pub trait Same { fn xb(&self) -> u32; } pub mod in_ { pub trait Same { fn xc(&self) -> u32; } } }
mock! { pub Nm {} impl xa::Same for Nm { fn xa(&self) -> u32; } impl xb::Same for Nm { fn xb(&self) -> u32; } impl xb::in_::Same for Nm { fn xc(&self) -> u32; } }
mock! { pub TO { } impl T1 for TO { fn t1(&self) -> u32; fn t1b(&self) -> u32; } }

const TOP: usize = usize::MAX - 2;
fn under() -> (usize, usize, usize) {
    let (lo, hi, c): (usize, usize, usize) = kani::any();
    kani::assume(lo <= hi && hi < TOP && c < lo);
    (lo, hi, c)
}
fn satisfied() -> (usize, usize, usize) {
    let (lo, hi, c): (usize, usize, usize) = kani::any();
    kani::assume(lo <= hi && hi < TOP && c >= lo && c <= hi);
    (lo, hi, c)
}

harnesses! {
    // ---- &self ----
    pan_under_a (3) {
        let (lo, hi, c) = under();
        let mut m = MockB::new();
        preset_calls(c);
        m.expect_a().times(lo..=hi).return_const(1u32);
        history!(c, m.a());
        must_panic!("checkpoint panics if an expectation was called too few times (&self)", m.checkpoint());
    }
    ok_satisfied_a (3) {
        let (lo, hi, c) = satisfied();
        let mut m = MockB::new();
        preset_calls(c);
        m.expect_a().times(lo..=hi).return_const(1u32);
        history!(c, m.a());
        m.checkpoint();    // no panic: every expectation is satisfied
        drop(m);           // and nothing is left to verify
    }
    pan_after_a (3) {
        let (lo, hi, c) = satisfied();
        let mut m = MockB::new();
        preset_calls(c);
        m.expect_a().times(lo..=hi).return_const(1u32);
        history!(c, m.a());
        m.checkpoint();
        must_panic!("after a checkpoint no earlier expectation answers (&self)", { let _ = m.a(); });
    }
    ok_again_a (3) {
        let (lo, hi, c) = satisfied();
        let (lo2, hi2, c2) = satisfied();
        kani::assume(c2 > 0 && c2 - 1 < TOP);
        let mut m = MockB::new();
        preset_calls(c);
        m.expect_a().times(lo..=hi).return_const(1u32);
        history!(c, m.a());
        m.checkpoint();
        preset_calls(c2 - 1);
        m.expect_a().times(lo2..=hi2).return_const(2u32);
        history!(c2 - 1, m.a());
        obl!(m.a() == 2, "after a checkpoint the method can be configured again (&self)");
        drop(m);
    }
    pan_again_a (3) {
        let (lo, hi, c) = satisfied();
        let (lo2, hi2, c2) = under();
        let mut m = MockB::new();
        preset_calls(c);
        m.expect_a().times(lo..=hi).return_const(1u32);
        history!(c, m.a());
        m.checkpoint();
        preset_calls(c2);
        m.expect_a().times(lo2..=hi2).return_const(1u32);
        history!(c2, m.a());
        must_panic!("what is configured after a checkpoint is enforced by the next one (&self)", m.checkpoint());
    }
    // ---- &mut self ----
    pan_under_mt (3) {
        let (lo, hi, c) = under();
        let mut m = MockB::new();
        preset_calls(c);
        m.expect_mt().times(lo..=hi).return_const(1u32);
        history!(c, m.mt());
        must_panic!("checkpoint panics if an expectation was called too few times (&mut self)", m.checkpoint());
    }
    ok_satisfied_mt (3) {
        let (lo, hi, c) = satisfied();
        let mut m = MockB::new();
        preset_calls(c);
        m.expect_mt().times(lo..=hi).return_const(1u32);
        history!(c, m.mt());
        m.checkpoint();    // no panic: every expectation is satisfied
        drop(m);           // and nothing is left to verify
    }
    // ---- reference result ----
    pan_under_r (3) {
        let (lo, hi, c) = under();
        let mut m = MockB::new();
        preset_calls(c);
        m.expect_r().times(lo..=hi).return_const(1u32);
        history!(c, m.r());
        must_panic!("checkpoint panics if an expectation was called too few times (reference result)", m.checkpoint());
    }
    ok_satisfied_r (3) {
        let (lo, hi, c) = satisfied();
        let mut m = MockB::new();
        preset_calls(c);
        m.expect_r().times(lo..=hi).return_const(1u32);
        history!(c, m.r());
        m.checkpoint();    // no panic: every expectation is satisfied
        drop(m);           // and nothing is left to verify
    }
    pan_after_r (3) {
        let (lo, hi, c) = satisfied();
        let mut m = MockB::new();
        preset_calls(c);
        m.expect_r().times(lo..=hi).return_const(1u32);
        history!(c, m.r());
        m.checkpoint();
        must_panic!("after a checkpoint no earlier expectation answers (reference result)", { let _ = *m.r(); });
    }
    ok_again_r (3) {
        let (lo, hi, c) = satisfied();
        let (lo2, hi2, c2) = satisfied();
        kani::assume(c2 > 0 && c2 - 1 < TOP);
        let mut m = MockB::new();
        preset_calls(c);
        m.expect_r().times(lo..=hi).return_const(1u32);
        history!(c, m.r());
        m.checkpoint();
        preset_calls(c2 - 1);
        m.expect_r().times(lo2..=hi2).return_const(2u32);
        history!(c2 - 1, m.r());
        obl!(*m.r() == 2, "after a checkpoint the method can be configured again (reference result)");
        drop(m);
    }
    pan_again_r (3) {
        let (lo, hi, c) = satisfied();
        let (lo2, hi2, c2) = under();
        let mut m = MockB::new();
        preset_calls(c);
        m.expect_r().times(lo..=hi).return_const(1u32);
        history!(c, m.r());
        m.checkpoint();
        preset_calls(c2);
        m.expect_r().times(lo2..=hi2).return_const(1u32);
        history!(c2, m.r());
        must_panic!("what is configured after a checkpoint is enforced by the next one (reference result)", m.checkpoint());
    }
    // ---- mutable reference result ----
    pan_under_rm (3) {
        let (lo, hi, c) = under();
        let mut m = MockB::new();
        preset_calls(c);
        m.expect_rm().times(lo..=hi).return_var(1u32);
        history!(c, m.rm());
        must_panic!("checkpoint panics if an expectation was called too few times (mutable reference result)", m.checkpoint());
    }
    ok_satisfied_rm (3) {
        let (lo, hi, c) = satisfied();
        let mut m = MockB::new();
        preset_calls(c);
        m.expect_rm().times(lo..=hi).return_var(1u32);
        history!(c, m.rm());
        m.checkpoint();    // no panic: every expectation is satisfied
        drop(m);           // and nothing is left to verify
    }
    pan_after_rm (3) {
        let (lo, hi, c) = satisfied();
        let mut m = MockB::new();
        preset_calls(c);
        m.expect_rm().times(lo..=hi).return_var(1u32);
        history!(c, m.rm());
        m.checkpoint();
        must_panic!("after a checkpoint no earlier expectation answers (mutable reference result)", { let _ = *m.rm(); });
    }
    ok_again_rm (3) {
        let (lo, hi, c) = satisfied();
        let (lo2, hi2, c2) = satisfied();
        kani::assume(c2 > 0 && c2 - 1 < TOP);
        let mut m = MockB::new();
        preset_calls(c);
        m.expect_rm().times(lo..=hi).return_var(1u32);
        history!(c, m.rm());
        m.checkpoint();
        preset_calls(c2 - 1);
        m.expect_rm().times(lo2..=hi2).return_var(2u32);
        history!(c2 - 1, m.rm());
        obl!(*m.rm() == 2, "after a checkpoint the method can be configured again (mutable reference result)");
        drop(m);
    }
    pan_again_rm (3) {
        let (lo, hi, c) = satisfied();
        let (lo2, hi2, c2) = under();
        let mut m = MockB::new();
        preset_calls(c);
        m.expect_rm().times(lo..=hi).return_var(1u32);
        history!(c, m.rm());
        m.checkpoint();
        preset_calls(c2);
        m.expect_rm().times(lo2..=hi2).return_var(1u32);
        history!(c2, m.rm());
        must_panic!("what is configured after a checkpoint is enforced by the next one (mutable reference result)", m.checkpoint());
    }
    // ---- by value ----
    pan_under_o (3) {
        let (lo, hi, c) = under();
        kani::assume(c == 0);
        let mut m = MockB::new();
        preset_calls(c);
        m.expect_o().times(lo..=hi).return_const(1u32);
        
        must_panic!("checkpoint panics if an expectation was called too few times (by value)", m.checkpoint());
    }
    ok_satisfied_o (3) {
        let (lo, hi, c) = satisfied();
        kani::assume(c == 0);
        let mut m = MockB::new();
        preset_calls(c);
        m.expect_o().times(lo..=hi).return_const(1u32);
        
        m.checkpoint();    // no panic: every expectation is satisfied
        drop(m);           // and nothing is left to verify
    }
    // ---- first trait ----
    pan_under_t1 (3) {
        let (lo, hi, c) = under();
        let mut m = MockB::new();
        preset_calls(c);
        m.expect_t1().times(lo..=hi).return_const(1u32);
        history!(c, m.t1());
        must_panic!("checkpoint panics if an expectation was called too few times (first trait)", m.checkpoint());
    }
    ok_satisfied_t1 (3) {
        let (lo, hi, c) = satisfied();
        let mut m = MockB::new();
        preset_calls(c);
        m.expect_t1().times(lo..=hi).return_const(1u32);
        history!(c, m.t1());
        m.checkpoint();    // no panic: every expectation is satisfied
        drop(m);           // and nothing is left to verify
    }
    // ---- second method of the first trait ----
    pan_under_t1b (3) {
        let (lo, hi, c) = under();
        let mut m = MockB::new();
        preset_calls(c);
        m.expect_t1b().times(lo..=hi).return_const(1u32);
        history!(c, m.t1b());
        must_panic!("checkpoint panics if an expectation was called too few times (second method of the first trait)", m.checkpoint());
    }
    ok_satisfied_t1b (3) {
        let (lo, hi, c) = satisfied();
        let mut m = MockB::new();
        preset_calls(c);
        m.expect_t1b().times(lo..=hi).return_const(1u32);
        history!(c, m.t1b());
        m.checkpoint();    // no panic: every expectation is satisfied
        drop(m);           // and nothing is left to verify
    }
    pan_after_t1b (3) {
        let (lo, hi, c) = satisfied();
        let mut m = MockB::new();
        preset_calls(c);
        m.expect_t1b().times(lo..=hi).return_const(1u32);
        history!(c, m.t1b());
        m.checkpoint();
        must_panic!("after a checkpoint no earlier expectation answers (second method of the first trait)", { let _ = m.t1b(); });
    }
    ok_again_t1b (3) {
        let (lo, hi, c) = satisfied();
        let (lo2, hi2, c2) = satisfied();
        kani::assume(c2 > 0 && c2 - 1 < TOP);
        let mut m = MockB::new();
        preset_calls(c);
        m.expect_t1b().times(lo..=hi).return_const(1u32);
        history!(c, m.t1b());
        m.checkpoint();
        preset_calls(c2 - 1);
        m.expect_t1b().times(lo2..=hi2).return_const(2u32);
        history!(c2 - 1, m.t1b());
        obl!(m.t1b() == 2, "after a checkpoint the method can be configured again (second method of the first trait)");
        drop(m);
    }
    pan_again_t1b (3) {
        let (lo, hi, c) = satisfied();
        let (lo2, hi2, c2) = under();
        let mut m = MockB::new();
        preset_calls(c);
        m.expect_t1b().times(lo..=hi).return_const(1u32);
        history!(c, m.t1b());
        m.checkpoint();
        preset_calls(c2);
        m.expect_t1b().times(lo2..=hi2).return_const(1u32);
        history!(c2, m.t1b());
        must_panic!("what is configured after a checkpoint is enforced by the next one (second method of the first trait)", m.checkpoint());
    }
    // ---- second trait ----
    pan_under_t2 (3) {
        let (lo, hi, c) = under();
        let mut m = MockB::new();
        preset_calls(c);
        m.expect_t2().times(lo..=hi).return_const(1u32);
        history!(c, m.t2());
        must_panic!("checkpoint panics if an expectation was called too few times (second trait)", m.checkpoint());
    }
    ok_satisfied_t2 (3) {
        let (lo, hi, c) = satisfied();
        let mut m = MockB::new();
        preset_calls(c);
        m.expect_t2().times(lo..=hi).return_const(1u32);
        history!(c, m.t2());
        m.checkpoint();    // no panic: every expectation is satisfied
        drop(m);           // and nothing is left to verify
    }
    pan_after_t2 (3) {
        let (lo, hi, c) = satisfied();
        let mut m = MockB::new();
        preset_calls(c);
        m.expect_t2().times(lo..=hi).return_const(1u32);
        history!(c, m.t2());
        m.checkpoint();
        must_panic!("after a checkpoint no earlier expectation answers (second trait)", { let _ = m.t2(); });
    }
    ok_again_t2 (3) {
        let (lo, hi, c) = satisfied();
        let (lo2, hi2, c2) = satisfied();
        kani::assume(c2 > 0 && c2 - 1 < TOP);
        let mut m = MockB::new();
        preset_calls(c);
        m.expect_t2().times(lo..=hi).return_const(1u32);
        history!(c, m.t2());
        m.checkpoint();
        preset_calls(c2 - 1);
        m.expect_t2().times(lo2..=hi2).return_const(2u32);
        history!(c2 - 1, m.t2());
        obl!(m.t2() == 2, "after a checkpoint the method can be configured again (second trait)");
        drop(m);
    }
    pan_again_t2 (3) {
        let (lo, hi, c) = satisfied();
        let (lo2, hi2, c2) = under();
        let mut m = MockB::new();
        preset_calls(c);
        m.expect_t2().times(lo..=hi).return_const(1u32);
        history!(c, m.t2());
        m.checkpoint();
        preset_calls(c2);
        m.expect_t2().times(lo2..=hi2).return_const(1u32);
        history!(c2, m.t2());
        must_panic!("what is configured after a checkpoint is enforced by the next one (second trait)", m.checkpoint());
    }
    // ---- last method ----
    pan_under_last (3) {
        let (lo, hi, c) = under();
        let mut m = MockB::new();
        preset_calls(c);
        m.expect_last().times(lo..=hi).return_const(1u32);
        history!(c, m.last());
        must_panic!("checkpoint panics if an expectation was called too few times (last method)", m.checkpoint());
    }
    ok_satisfied_last (3) {
        let (lo, hi, c) = satisfied();
        let mut m = MockB::new();
        preset_calls(c);
        m.expect_last().times(lo..=hi).return_const(1u32);
        history!(c, m.last());
        m.checkpoint();    // no panic: every expectation is satisfied
        drop(m);           // and nothing is left to verify
    }
    // ---- several expectations, positions, methods at once ----
    pan_second_of_two (4) {
        let (lo, hi, c) = satisfied();
        let (lo2, hi2, c2) = under();
        kani::assume(c < 3 && c2 < 3);
        let mut m = MockB::new();
        preset_calls(c);
        m.expect_a().times(lo..=hi).withf(|| gate(0, true)).return_const(1u32);
        preset_calls(c2);
        m.expect_a().times(lo2..=hi2).withf(|| gate(1, true)).return_const(1u32);
        history_of!(0, c, m.a());
        history_of!(1, c2, m.a());
        must_panic!("checkpoint verifies every expectation of a method (second of two)", m.checkpoint());
    }
    pan_first_of_two (4) {
        let (lo, hi, c) = under();
        let (lo2, hi2, c2) = satisfied();
        kani::assume(c < 3 && c2 < 3);
        let mut m = MockB::new();
        preset_calls(c);
        m.expect_a().times(lo..=hi).withf(|| gate(0, true)).return_const(1u32);
        preset_calls(c2);
        m.expect_a().times(lo2..=hi2).withf(|| gate(1, true)).return_const(1u32);
        history_of!(0, c, m.a());
        history_of!(1, c2, m.a());
        must_panic!("checkpoint verifies every expectation of a method (first of two)", m.checkpoint());
    }
    ok_all_methods (3) {
        let mut m = MockB::new();
        preset_calls(0);
        m.expect_a().times(1).return_const(1u32);
        m.expect_r().times(0..).return_const(1u32);
        m.expect_t1().times(1).return_const(1u32);
        m.expect_t2().never();
        m.a();
        m.t1();
        m.checkpoint();
        m.expect_a().return_const(5u32);
        m.expect_t2().return_const(6u32);
        obl!(m.a() == 5 && m.t2() == 6, "after a checkpoint the object is like a new one");
        drop(m);
    }
    ok_empty (3) {
        let mut m = MockB::new();
        m.checkpoint();
        m.checkpoint();
        m.expect_mt().times(1).return_const(5u32);
        obl!(m.mt() == 5, "a checkpoint of an object without expectations changes nothing");
        m.checkpoint();
        drop(m);
    }
    // ---- static methods are left alone ----
    ok_static_kept (3) {
        let (lo, hi, c) = under();
        let k: u32 = kani::any();
        let ctx = MockB::s_context();
        preset_calls(c);
        ctx.expect().times(lo..=hi).return_const(k);
        history!(c, MockB::s());
        let mut m = MockB::new();
        m.checkpoint();      // does not verify the static expectation
        obl!(MockB::s() == k, "checkpoint does not remove a static method's expectations");
        // still counted and enforced by its own context
        leak(m);
        quiet_drop(ctx);
    }
    ok_static_trait_kept (3) {
        let (lo, hi, c) = under();
        let k: u32 = kani::any();
        let ctx = MockB::t2s_context();
        preset_calls(c);
        ctx.expect().times(lo..=hi).return_const(k);
        history!(c, <MockB as T2>::t2s());
        let mut m = MockB::new();
        m.checkpoint();
        obl!(<MockB as T2>::t2s() == k, "checkpoint does not remove a trait's static method's expectations");
        leak(m);
        quiet_drop(ctx);
    }
    // ---- other objects are left alone; generic structs; trait-only mocks ----
    ok_other_object (3) {
        let (lo, hi, c) = under();
        let k: u32 = kani::any();
        let mut m = MockB::new();
        let mut o = MockB::new();
        preset_calls(c);
        o.expect_a().times(lo..=hi).return_const(k);
        history!(c, o.a());
        m.checkpoint();
        obl!(o.a() == k, "checkpoint of one object leaves another's expectations alone");
        leak(o); leak(m);
    }
    pan_generic_struct (3) {
        let (lo, hi, c) = under();
        let mut m = MockGS::<u8>::new();
        preset_calls(c);
        m.expect_a().times(lo..=hi).return_const(1u32);
        history!(c, m.a(0));
        must_panic!("checkpoint panics if an expectation was called too few times (generic struct)", m.checkpoint());
    }
    ok_generic_struct (3) {
        let (lo, hi, c) = satisfied();
        let mut m = MockGS::<u8>::new();
        preset_calls(c);
        m.expect_a().times(lo..=hi).return_const(1u32);
        history!(c, m.a(0));
        m.checkpoint();
        preset_calls(0);
        m.expect_a().times(1).return_const(2u32);
        obl!(m.a(0) == 2, "a generic struct can be configured again after a checkpoint");
        drop(m);
    }
    pan_trait_only (3) {
        let (lo, hi, c) = under();
        let mut m = MockTO::new();
        preset_calls(c);
        m.expect_t1b().times(lo..=hi).return_const(1u32);
        history!(c, m.t1b());
        must_panic!("checkpoint panics if an expectation was called too few times (mock of a trait only)", m.checkpoint());
    }
    pan_same_xa (3) {
        let (lo, hi, c) = under();
        let mut m = MockNm::new();
        preset_calls(c);
        m.expect_xa().times(lo..=hi).return_const(1u32);
        history!(c, m.xa());
        must_panic!("checkpoint panics if an expectation was called too few times (traits of the same name, xa)", m.checkpoint());
    }
    t_pan_same_xa_cleared (3) {
        let mut m = MockNm::new();
        preset_calls(0);
        m.expect_xa().return_const(1u32);
        m.checkpoint();
        must_panic!("checkpoint removes the expectations (traits of the same name, xa)", m.xa());
    }
    pan_same_xb (3) {
        let (lo, hi, c) = under();
        let mut m = MockNm::new();
        preset_calls(c);
        m.expect_xb().times(lo..=hi).return_const(1u32);
        history!(c, m.xb());
        must_panic!("checkpoint panics if an expectation was called too few times (traits of the same name, xb)", m.checkpoint());
    }
    t_pan_same_xb_cleared (3) {
        let mut m = MockNm::new();
        preset_calls(0);
        m.expect_xb().return_const(1u32);
        m.checkpoint();
        must_panic!("checkpoint removes the expectations (traits of the same name, xb)", m.xb());
    }
    t_pan_same_xc (3) {
        let (lo, hi, c) = under();
        let mut m = MockNm::new();
        preset_calls(c);
        m.expect_xc().times(lo..=hi).return_const(1u32);
        history!(c, m.xc());
        must_panic!("checkpoint panics if an expectation was called too few times (traits of the same name, xc)", m.checkpoint());
    }
    t_pan_same_xc_cleared (3) {
        let mut m = MockNm::new();
        preset_calls(0);
        m.expect_xc().return_const(1u32);
        m.checkpoint();
        must_panic!("checkpoint removes the expectations (traits of the same name, xc)", m.xc());
    }
    ok_sequence_after (3) {
        let mut s = Sequence::new();
        let mut m = MockB::new();
        preset_calls(0);
        m.expect_a().times(1).return_const(1u32).in_sequence(&mut s);
        m.a();
        m.checkpoint();
        m.expect_a().times(1).return_const(2u32).in_sequence(&mut s);
        obl!(m.a() == 2, "a sequence goes on after a checkpoint");
        drop(m);
    }
    #[cfg(not(kani))]
    nat_after_failed_checkpoint (3) {
        // the failed checkpoint panics; the object is then droppable without a second panic
        let which: u8 = kani::any();
        let mut m = MockB::new();
        match which % 4 {
            0 => { m.expect_a().times(2).return_const(1u32); }
            1 => { m.expect_r().times(2).return_const(1u32); }
            2 => { m.expect_t1b().times(2).return_const(1u32); }
            _ => { m.expect_t2().times(2).return_const(1u32); }
        }
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| m.checkpoint()));
        obl!(r.is_err(), "an under-called expectation fails the checkpoint");
        drop(m);    // already removed: no panic
    }
}
/// End a static method's context without verifying it.
#[cfg(kani)]
fn quiet_drop<T>(t: T) { core::mem::forget(t) }
#[cfg(not(kani))]
fn quiet_drop<T>(t: T) { ghost::while_panicking(move || drop(t)) }
#[cfg(not(kani))]
pub fn run() { vh::kani::main(registry()) }
