//! C07: a sequence admits its expectations only in the order they joined it.
//! Contracts of `SeqInner::{satisfy, verify}`, `SeqHandle`, `Sequence::{new, next_handle}`,
//! `Times::is_exact` and the generated `Common::{call, in_sequence, verify_sequence,
//! satisfy_sequence}`, `Expectation::in_sequence`, `ExpectationGuard::in_sequence`.
//!
//! Invariant of a sequence at level L (the number of satisfied members): members that joined
//! before the L-th have all their calls, member L has some but not all, later ones have none.
//! Each harness starts in an arbitrary state satisfying it (any number of earlier members,
//! any exact counts, any partial progress), makes one or two calls and observes the result.
#![allow(unused)]
#[path = "../../common/vh.rs"]
#[macro_use]
mod vh;
use mockall::*;
use vh::*;

mock! { pub S { fn a(&self, x: u32) -> u32; fn b(&self) -> u32; fn c(&self) -> u32; } }
mock! { pub Mut { fn a(&mut self) -> u32; fn b(&mut self) -> u32; } }
mock! { pub Ref { fn a(&self) -> &u32; fn b(&self) -> &u32; } }
mock! { pub RefMut { fn a(&mut self) -> &mut u32; fn b(&mut self) -> &mut u32; } }
mock! { pub Stat { fn a() -> u32; fn b() -> u32; } }
mock! { pub Own { fn a(self) -> u32; } }
pub trait Tr { fn a(&self) -> u32; fn b(&self) -> u32; }
mock! { pub T { } impl Tr for T { fn a(&self) -> u32; fn b(&self) -> u32; } }

include!("seq.rs");

const BIG: usize = usize::MAX - 8;

harnesses! {
    // ---- the current member: calls are accepted, completing it lets the next one in -----------
    ok_current (4) {
        // any number of earlier, completed members
        let base: usize = kani::any();
        let (n, k): (usize, usize) = kani::any();
        kani::assume(base < BIG && n < BIG && k < n);
        let (mut s, _h) = seq_at(base, base);
        let mut m = MockS::new();
        preset_calls(k);
        m.expect_b().times(n).return_const(1u32).in_sequence(&mut s);
        history!(k, m.b());
        obl!(m.b() == 1, "a call to the current member is accepted, whatever its count and progress");
        leak(m);
    }
    ok_next (4) {
        let base: usize = kani::any();
        let (n, n2): (usize, usize) = kani::any();
        kani::assume(base < BIG && n < BIG && n > 0 && n2 > 0 && n2 < BIG);
        let (mut s, _h) = seq_at(base, base);
        let mut m = MockS::new();
        preset_calls(n - 1);
        m.expect_b().times(n).return_const(1u32).in_sequence(&mut s);
        preset_calls(0);
        m.expect_c().times(n2).return_const(2u32).in_sequence(&mut s);
        history!(n - 1, m.b());
        obl!(m.b() == 1, "the completing call is accepted");
        obl!(m.c() == 2, "completing a member lets the next one in");
        leak(m);
    }
    pan_next_early (4) {
        // b is the current member and still misses at least one call after k calls
        let base: usize = kani::any();
        let (n, k, n2): (usize, usize, usize) = kani::any();
        kani::assume(base < BIG && n < BIG && k < n && n2 > 0 && n2 < BIG);
        let (mut s, _h) = seq_at(base, base);
        let mut m = MockS::new();
        preset_calls(k);
        m.expect_b().times(n).return_const(1u32).in_sequence(&mut s);
        preset_calls(0);
        m.expect_c().times(n2).return_const(2u32).in_sequence(&mut s);
        history!(k, m.b());
        must_panic!("a member is refused while an earlier one misses calls", m.c());
    }
    pan_next_early_after_call (4) {
        let base: usize = kani::any();
        let (n, k, n2): (usize, usize, usize) = kani::any();
        kani::assume(base < BIG && n < BIG && k < n && n - k >= 2 && n2 > 0 && n2 < BIG);
        let (mut s, _h) = seq_at(base, base);
        let mut m = MockS::new();
        preset_calls(k);
        m.expect_b().times(n).return_const(1u32).in_sequence(&mut s);
        preset_calls(0);
        m.expect_c().times(n2).return_const(2u32).in_sequence(&mut s);
        history!(k, m.b());
        m.b();
        must_panic!("a call that does not complete a member does not let the next one in", m.c());
    }
    pan_dropped_unmet (4) {
        // an earlier member goes away (its thread unwinds) without its calls
        let base: usize = kani::any();
        let (n, k): (usize, usize) = kani::any();
        kani::assume(base < BIG && n < BIG && k < n);
        let (mut s, _h) = seq_at(base, base);
        let mut m = MockS::new();
        let mut m2 = MockS::new();
        preset_calls(k);
        m.expect_b().times(n).return_const(1u32).in_sequence(&mut s);
        preset_calls(0);
        m2.expect_c().times(1).return_const(2u32).in_sequence(&mut s);
        history!(k, m.b());
        ghost::while_panicking(move || drop(m));
        must_panic!("only completing a member lets the next one in, its destruction does not", m2.c());
    }
    pan_moved_away (4) {
        let base: usize = kani::any();
        let n: usize = kani::any();
        kani::assume(base < BIG && n < BIG && n > 0);
        let (mut s, _h) = seq_at(base, base);
        let (mut s2, _h2) = seq_at(0, 0);
        let mut m = MockS::new();
        m.expect_b().times(n).return_const(1u32).in_sequence(&mut s).in_sequence(&mut s2);
        m.expect_c().times(1).return_const(2u32).in_sequence(&mut s);
        must_panic!("only completing a member lets the next one in, moving it to another sequence does not", m.c());
    }
    ok_dropped_complete (4) {
        let base: usize = kani::any();
        let n: usize = kani::any();
        kani::assume(base < BIG && n < BIG && n > 0);
        let (mut s, _h) = seq_at(base, base);
        let mut m = MockS::new();
        let mut m2 = MockS::new();
        preset_calls(n - 1);
        m.expect_b().times(n).return_const(1u32).in_sequence(&mut s);
        preset_calls(0);
        m2.expect_c().times(1).return_const(2u32).in_sequence(&mut s);
        m2.expect_a().times(1).return_const(3u32).in_sequence(&mut s);
        history!(n - 1, m.b());
        m.b();
        drop(m);
        obl!(m2.c() == 2, "a completed member that is destroyed still counts as completed");
        obl!(m2.a(0) == 3, "and only once");
        leak(m2);
    }
    pan_skip (4) {
        // gap earlier members are not complete
        let (base, gap): (usize, usize) = kani::any();
        let n: usize = kani::any();
        kani::assume(base < BIG && gap > 0 && gap <= base && n > 0 && n < BIG);
        let (mut s, _h) = seq_at(base, base - gap);
        let mut m = MockS::new();
        m.expect_b().times(n).return_const(1u32).in_sequence(&mut s);
        must_panic!("a member is refused while any number of earlier ones miss calls", m.b());
    }
    pan_third_early (4) {
        let (base, n): (usize, usize) = kani::any();
        kani::assume(base < BIG && n > 0 && n < BIG);
        let (mut s, _h) = seq_at(base, base);
        let mut m = MockS::new();
        preset_calls(n - 1);
        m.expect_a().times(n).return_const(1u32).in_sequence(&mut s);
        preset_calls(0);
        m.expect_b().times(1).return_const(1u32).in_sequence(&mut s);
        m.expect_c().times(1).return_const(1u32).in_sequence(&mut s);
        history!(n - 1, m.a(0));
        m.a(0);
        must_panic!("completing a member lets only the next one in, not the one after", m.c());
    }
    t_ok_three (4) {
        let (base, n): (usize, usize) = kani::any();
        kani::assume(base < BIG && n > 0 && n < BIG);
        let (mut s, _h) = seq_at(base, base);
        let mut m = MockS::new();
        m.expect_c().times(1).return_const(1u32).in_sequence(&mut s);
        m.expect_a().times(1).return_const(2u32).in_sequence(&mut s);
        m.expect_b().times(2).return_const(3u32).in_sequence(&mut s);
        obl!(m.c() == 1, "three members: first");
        obl!(m.a(0) == 2, "three members: second");
        obl!(m.b() == 3, "three members: third, first call");
        obl!(m.b() == 3, "three members: third, second call");
        // all complete: dropping is silent
        drop(m);
    }
    pan_complete_again (4) {
        let (base, n): (usize, usize) = kani::any();
        kani::assume(base < BIG && n > 0 && n < BIG);
        let (mut s, _h) = seq_at(base, base);
        let mut m = MockS::new();
        preset_calls(n - 1);
        m.expect_b().times(n).return_const(1u32).in_sequence(&mut s);
        preset_calls(0);
        m.expect_c().times(1).return_const(2u32).in_sequence(&mut s);
        history!(n - 1, m.b());
        m.b();
        must_panic!("a completed member is refused", m.b());
    }
    pan_reverse (4) {
        let n: usize = kani::any();
        kani::assume(n > 0 && n < BIG);
        let mut s = Sequence::new();
        let mut m = MockS::new();
        preset_calls(0);
        m.expect_c().times(n).return_const(2u32).in_sequence(&mut s);
        m.expect_b().times(1).return_const(1u32).in_sequence(&mut s);
        must_panic!("the order is that of joining, not of declaration", m.b());
    }
    // ---- the same method several times ---------------------------------------------------------
    ok_same_method (4) {
        let mut s = Sequence::new();
        let mut m = MockS::new();
        m.expect_b().times(1).return_const(1u32).in_sequence(&mut s);
        m.expect_c().times(1).return_const(2u32).in_sequence(&mut s);
        m.expect_b().times(1).return_const(3u32).in_sequence(&mut s);
        obl!(m.b() == 1, "b c b: first");
        obl!(m.c() == 2, "b c b: second");
        obl!(m.b() == 3, "b c b: third");
        drop(m);
    }
    pan_same_method (4) {
        let mut s = Sequence::new();
        let mut m = MockS::new();
        m.expect_b().times(1).return_const(1u32).in_sequence(&mut s);
        m.expect_c().times(1).return_const(2u32).in_sequence(&mut s);
        m.expect_b().times(1).return_const(3u32).in_sequence(&mut s);
        m.b();
        must_panic!("b c b: the second b before c is refused", m.b());
    }
    t_ok_predicates (4) {
        let (p, q): (u32, u32) = kani::any();
        kani::assume(p != q);
        let mut s = Sequence::new();
        let mut m = MockS::new();
        m.expect_a().with(predicate::eq(p)).times(1).return_const(1u32).in_sequence(&mut s);
        m.expect_a().with(predicate::eq(q)).times(1).return_const(2u32).in_sequence(&mut s);
        obl!(m.a(p) == 1, "told apart by argument: the first is accepted first");
        obl!(m.a(q) == 2, "told apart by argument: the second is accepted second");
        drop(m);
    }
    pan_predicates (4) {
        let (p, q): (u32, u32) = kani::any();
        kani::assume(p != q);
        let mut s = Sequence::new();
        let mut m = MockS::new();
        m.expect_a().with(predicate::eq(p)).times(1).return_const(1u32).in_sequence(&mut s);
        m.expect_a().with(predicate::eq(q)).times(1).return_const(2u32).in_sequence(&mut s);
        must_panic!("told apart by argument: the second is refused first", m.a(q));
    }
    // ---- several objects, several sequences, outsiders ------------------------------------------
    ok_two_objects (4) {
        let (n, n2): (usize, usize) = kani::any();
        kani::assume(n < BIG && n > 0 && n2 > 0 && n2 < BIG);
        let mut s = Sequence::new();
        let mut m = MockS::new();
        let mut o = MockS::new();
        preset_calls(n - 1);
        m.expect_b().times(n).return_const(1u32).in_sequence(&mut s);
        preset_calls(0);
        o.expect_b().times(n2).return_const(2u32).in_sequence(&mut s);
        history!(n - 1, m.b());
        obl!(m.b() == 1, "two objects: the first object's member completes");
        obl!(o.b() == 2, "two objects: the other object's member is let in");
        leak(m); leak(o);
    }
    pan_two_objects (4) {
        let (n, k): (usize, usize) = kani::any();
        kani::assume(n < BIG && k < n);
        let mut s = Sequence::new();
        let mut m = MockS::new();
        let mut o = MockMut::new();
        preset_calls(k);
        m.expect_b().times(n).return_const(1u32).in_sequence(&mut s);
        preset_calls(0);
        o.expect_b().times(1).return_const(2u32).in_sequence(&mut s);
        history!(k, m.b());
        must_panic!("two objects: the second object's member is refused until the first's completes", o.b());
    }
    ok_independent (4) {
        let (n, k): (usize, usize) = kani::any();
        kani::assume(n < BIG && k < n);
        let mut s = Sequence::new();
        let mut t = Sequence::new();
        let mut m = MockS::new();
        preset_calls(k);
        m.expect_b().times(n).return_const(1u32).in_sequence(&mut s);
        preset_calls(0);
        m.expect_c().times(1).return_const(2u32).in_sequence(&mut t);
        history!(k, m.b());
        obl!(m.c() == 2, "an incomplete member of one sequence does not block another sequence");
        obl!(m.b() == 1, "and progress in one sequence is not progress in another");
        leak(m);
    }
    pan_independent (4) {
        let mut s = Sequence::new();
        let mut t = Sequence::new();
        let mut m = MockS::new();
        preset_calls(0);
        m.expect_a().times(1).return_const(1u32).in_sequence(&mut s);
        m.expect_c().times(1).return_const(2u32).in_sequence(&mut t);
        m.expect_b().times(1).return_const(3u32).in_sequence(&mut s);
        m.c();
        must_panic!("completing a member of one sequence does not let a member of another one in", m.b());
    }
    t_ok_outsider (4) {
        let (n, j): (usize, usize) = kani::any();
        kani::assume(n < BIG && n > 0 && j < BIG);
        let mut s = Sequence::new();
        let mut m = MockS::new();
        preset_calls(j);
        m.expect_a().times(0..).return_const(9u32);
        preset_calls(n - 1);
        m.expect_b().times(n).return_const(1u32).in_sequence(&mut s);
        preset_calls(0);
        m.expect_c().times(1).return_const(2u32).in_sequence(&mut s);
        history!(j, m.a(0));
        history!(n - 1, m.b());
        obl!(m.a(0) == 9, "an expectation outside the sequence is accepted at any time");
        obl!(m.b() == 1, "and does not disturb it");
        obl!(m.a(0) == 9, "an expectation outside the sequence is accepted at any time (between)");
        obl!(m.c() == 2, "and does not disturb it (next)");
        done(m);
    }
    pan_outsider (4) {
        let j: usize = kani::any();
        kani::assume(j > 0 && j < BIG);
        let mut s = Sequence::new();
        let mut m = MockS::new();
        preset_calls(j - 1);
        m.expect_a().times(j).return_const(9u32);
        preset_calls(0);
        m.expect_b().times(1).return_const(1u32).in_sequence(&mut s);
        m.expect_c().times(1).return_const(2u32).in_sequence(&mut s);
        history!(j - 1, m.a(0));
        m.a(0);
        must_panic!("completing an expectation outside the sequence lets nothing in", m.c());
    }
    pan_handle_dropped (4) {
        let mut m = MockS::new();
        preset_calls(0);
        {
            let mut s = Sequence::new();
            m.expect_b().times(1).return_const(1u32).in_sequence(&mut s);
            m.expect_c().times(1).return_const(2u32).in_sequence(&mut s);
        }
        must_panic!("the order is enforced after the Sequence handle is gone", m.c());
    }
    ok_handle_dropped (4) {
        let mut m = MockS::new();
        preset_calls(0);
        {
            let mut s = Sequence::new();
            m.expect_b().times(1).return_const(1u32).in_sequence(&mut s);
            m.expect_c().times(1).return_const(2u32).in_sequence(&mut s);
        }
        obl!(m.b() == 1, "the right order is accepted after the Sequence handle is gone (first)");
        obl!(m.c() == 2, "the right order is accepted after the Sequence handle is gone (second)");
        drop(m);
    }
    ok_default (4) {
        let mut m = MockS::new();
        let mut s = Sequence::default();
        preset_calls(0);
        m.expect_b().times(1).return_const(1u32).in_sequence(&mut s);
        m.expect_c().times(1).return_const(2u32).in_sequence(&mut s);
        obl!(m.b() == 1, "Sequence::default is an empty sequence (first)");
        obl!(m.c() == 2, "Sequence::default is an empty sequence (second)");
        drop(m);
    }
    ok_not_matching (4) {
        // a member whose condition rejects the arguments neither answers nor blocks others
        let (p, x): (u32, u32) = kani::any();
        kani::assume(x != p);
        let mut s = Sequence::new();
        let mut m = MockS::new();
        preset_calls(0);
        m.expect_a().with(predicate::eq(p)).times(1).return_const(1u32).in_sequence(&mut s);
        m.expect_a().return_const(2u32);
        obl!(m.a(x) == 2, "a call another expectation answers is no progress of the sequence");
        obl!(m.a(p) == 1, "and the member is still current");
        done(m);
    }
    // ---- joining needs an exact count -------------------------------------------------------------
    pan_join_range (4) {
        let (lo, hi): (usize, usize) = kani::any();
        kani::assume(hi < usize::MAX && lo < hi);
        let mut s = Sequence::new();
        let mut m = MockS::new();
        must_panic!("joining with a range of counts is refused", { m.expect_b().times(lo..=hi).in_sequence(&mut s); });
    }
    pan_join_from (4) {
        let lo: usize = kani::any();
        kani::assume(lo < BIG);
        let mut s = Sequence::new();
        let mut m = MockS::new();
        must_panic!("joining with an open-ended count is refused", { m.expect_b().times(lo..).in_sequence(&mut s); });
    }
    pan_join_default (4) {
        let mut s = Sequence::new();
        let mut m = MockS::new();
        must_panic!("joining without a count is refused", { m.expect_b().in_sequence(&mut s); });
    }
    ok_join_forms (4) {
        let n: usize = kani::any();
        let f: u8 = kani::any();
        kani::assume(n > 0 && n < BIG && f < 3);
        let mut s = Sequence::new();
        let mut m = MockS::new();
        preset_calls(n - 1);
        {
            let e = m.expect_b();
            match f { 0 => e.times(n), 1 => e.times(n..=n), _ => e.times(n..n + 1) };
            e.return_const(1u32).in_sequence(&mut s);
        }
        preset_calls(0);
        m.expect_c().times(1).return_const(2u32).in_sequence(&mut s);
        history!(n - 1, m.b());
        obl!(m.b() == 1, "every argument form that denotes one count may join");
        obl!(m.c() == 2, "and completes at that count");
        done(m);
    }
    // ---- every kind of method --------------------------------------------------------------------
    ok_mutself (4) {
        let (n, base): (usize, usize) = kani::any();
        kani::assume(n < BIG && n > 0 && base < BIG);
        let (mut s, _h) = seq_at(base, base);
        let mut m = MockMut::new();
        preset_calls(n - 1);
        m.expect_a().times(n).return_const(1u32).in_sequence(&mut s);
        preset_calls(0);
        m.expect_b().times(1).return_const(2u32).in_sequence(&mut s);
        history!(n - 1, m.a());
        obl!(m.a() == 1, "&mut self: completing");
        obl!(m.b() == 2, "&mut self: the next one");
        done(m);
    }
    pan_mutself (4) {
        let (n, k): (usize, usize) = kani::any();
        kani::assume(n < BIG && k < n);
        let mut s = Sequence::new();
        let mut m = MockMut::new();
        preset_calls(k);
        m.expect_a().times(n).return_const(1u32).in_sequence(&mut s);
        preset_calls(0);
        m.expect_b().times(1).return_const(2u32).in_sequence(&mut s);
        history!(k, m.a());
        must_panic!("&mut self: refused early", m.b());
    }
    ok_ref (4) {
        let (n, base): (usize, usize) = kani::any();
        kani::assume(n < BIG && n > 0 && base < BIG);
        let (mut s, _h) = seq_at(base, base);
        let mut m = MockRef::new();
        preset_calls(n - 1);
        m.expect_a().times(n).return_const(1u32).in_sequence(&mut s);
        preset_calls(0);
        m.expect_b().times(1).return_const(2u32).in_sequence(&mut s);
        history!(n - 1, m.a());
        obl!(*m.a() == 1, "reference result: completing");
        obl!(*m.b() == 2, "reference result: the next one");
        done(m);
    }
    pan_ref (4) {
        let (n, k): (usize, usize) = kani::any();
        kani::assume(n < BIG && k < n);
        let mut s = Sequence::new();
        let mut m = MockRef::new();
        preset_calls(k);
        m.expect_a().times(n).return_const(1u32).in_sequence(&mut s);
        preset_calls(0);
        m.expect_b().times(1).return_const(2u32).in_sequence(&mut s);
        history!(k, m.a());
        must_panic!("reference result: refused early", { let _ = m.b(); });
    }
    ok_refmut (4) {
        let (n, base): (usize, usize) = kani::any();
        kani::assume(n < BIG && n > 0 && base < BIG);
        let (mut s, _h) = seq_at(base, base);
        let mut m = MockRefMut::new();
        preset_calls(n - 1);
        m.expect_a().times(n).return_var(1u32).in_sequence(&mut s);
        preset_calls(0);
        m.expect_b().times(1).return_var(2u32).in_sequence(&mut s);
        history!(n - 1, m.a());
        obl!(*m.a() == 1, "mutable reference result: completing");
        obl!(*m.b() == 2, "mutable reference result: the next one");
        done(m);
    }
    pan_refmut (4) {
        let (n, k): (usize, usize) = kani::any();
        kani::assume(n < BIG && k < n);
        let mut s = Sequence::new();
        let mut m = MockRefMut::new();
        preset_calls(k);
        m.expect_a().times(n).return_var(1u32).in_sequence(&mut s);
        preset_calls(0);
        m.expect_b().times(1).return_var(2u32).in_sequence(&mut s);
        history!(k, m.a());
        must_panic!("mutable reference result: refused early", { let _ = m.b(); });
    }
    ok_static (4) {
        let (n, base): (usize, usize) = kani::any();
        kani::assume(n < BIG && n > 0 && base < BIG);
        let (mut s, _h) = seq_at(base, base);
        let ca = MockStat::a_context();
        let cb = MockStat::b_context();
        preset_calls(n - 1);
        ca.expect().times(n).return_const(1u32).in_sequence(&mut s);
        preset_calls(0);
        cb.expect().times(1).return_const(2u32).in_sequence(&mut s);
        history!(n - 1, MockStat::a());
        obl!(MockStat::a() == 1, "static: completing");
        obl!(MockStat::b() == 2, "static: the next one");
        done(ca); done(cb);
    }
    pan_static (4) {
        let (n, k): (usize, usize) = kani::any();
        kani::assume(n < BIG && k < n);
        let mut s = Sequence::new();
        let ca = MockStat::a_context();
        let cb = MockStat::b_context();
        preset_calls(k);
        ca.expect().times(n).return_const(1u32).in_sequence(&mut s);
        preset_calls(0);
        cb.expect().times(1).return_const(2u32).in_sequence(&mut s);
        history!(k, MockStat::a());
        must_panic!("static: refused early", MockStat::b());
    }
    ok_static_guard (4) {
        // the guard's own in_sequence
        let mut s = Sequence::new();
        let ca = MockStat::a_context();
        preset_calls(0);
        { let mut g = ca.expect(); g.times(1); g.return_const(1u32); g.in_sequence(&mut s); }
        { let mut g = ca.expect(); g.times(1); g.return_const(2u32); g.in_sequence(&mut s); }
        obl!(MockStat::a() == 1, "static, through the guard: first");
        obl!(MockStat::a() == 2, "static, through the guard: second");
        done(ca);
    }
    pan_static_guard_default (4) {
        let mut s = Sequence::new();
        let ca = MockStat::a_context();
        preset_calls(0);
        let mut g = ca.expect();
        must_panic!("static, through the guard: joining without a count is refused", { g.in_sequence(&mut s); });
    }
    pan_static_guard (4) {
        let mut s = Sequence::new();
        let ca = MockStat::a_context();
        let cb = MockStat::b_context();
        preset_calls(0);
        { let mut g = ca.expect(); g.times(1); g.in_sequence(&mut s); }
        { let mut g = cb.expect(); g.times(1); g.return_const(2u32); g.in_sequence(&mut s); }
        must_panic!("static, through the guard: refused early", MockStat::b());
    }
    ok_own (4) {
        let mut s = Sequence::new();
        let mut m = MockOwn::new();
        let mut o = MockS::new();
        preset_calls(0);
        m.expect_a().times(1).return_const(1u32).in_sequence(&mut s);
        o.expect_b().times(1).return_const(2u32).in_sequence(&mut s);
        obl!(m.a() == 1, "by value: completing");
        obl!(o.b() == 2, "by value: the next one");
        done(o);
    }
    pan_own (4) {
        let mut s = Sequence::new();
        let mut m = MockOwn::new();
        let mut o = MockS::new();
        preset_calls(0);
        o.expect_b().times(1).return_const(2u32).in_sequence(&mut s);
        m.expect_a().times(1).return_const(1u32).in_sequence(&mut s);
        must_panic!("by value: refused early", m.a());
    }
    ok_trait (4) {
        let (n, base): (usize, usize) = kani::any();
        kani::assume(n < BIG && n > 0 && base < BIG);
        let (mut s, _h) = seq_at(base, base);
        let mut m = MockT::new();
        preset_calls(n - 1);
        m.expect_b().times(n).return_const(1u32).in_sequence(&mut s);
        preset_calls(0);
        m.expect_a().times(1).return_const(2u32).in_sequence(&mut s);
        history!(n - 1, m.b());
        obl!(m.b() == 1, "trait: completing");
        obl!(m.a() == 2, "trait: the next one");
        done(m);
    }
    pan_trait (4) {
        let (n, k): (usize, usize) = kani::any();
        kani::assume(n < BIG && k < n);
        let mut s = Sequence::new();
        let mut m = MockT::new();
        preset_calls(k);
        m.expect_b().times(n).return_const(1u32).in_sequence(&mut s);
        preset_calls(0);
        m.expect_a().times(1).return_const(2u32).in_sequence(&mut s);
        history!(k, m.b());
        must_panic!("trait: refused early", m.a());
    }
    // ---- members that require no calls --------------------------------------------------------
    ok_zero_member (4) {
        let base: usize = kani::any();
        let never: bool = kani::any();
        kani::assume(base < BIG);
        let (mut s, _h) = seq_at(base, base);
        let mut m = MockS::new();
        preset_calls(0);
        if never { m.expect_b().never().in_sequence(&mut s); } else { m.expect_b().times(0).in_sequence(&mut s); }
        m.expect_c().times(1).return_const(2u32).in_sequence(&mut s);
        obl!(m.c() == 2, "a member with no required calls does not block the later ones");
        drop(m);
    }
    pan_zero_member (4) {
        let mut s = Sequence::new();
        let mut m = MockS::new();
        preset_calls(0);
        m.expect_b().never().return_const(1u32).in_sequence(&mut s);
        m.expect_c().times(1).return_const(2u32).in_sequence(&mut s);
        must_panic!("a member with no permitted calls is still refused", m.b());
    }
}
#[cfg(not(kani))]
pub fn run() { vh::kani::main(registry()) }
