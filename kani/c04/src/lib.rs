//! C04: an expectation answers a call only if its configured condition accepts it.
//! Contracts of the generated `Matcher::{default, matches}`, `Common::{with, withf, withf_st,
//! matches}`, `Expectation::{with, withf, withf_st}`, `ExpectationGuard::{with, withf, withf_st}`.
//!
//! Shape of the obligations: the expectation under contract returns 1, a later one that
//! accepts everything returns 0; so the result tells exactly whether the condition held.
#![allow(unused)]
#[path = "../../common/vh.rs"]
#[macro_use]
mod vh;
#[path = "../../common/shapes.rs"]
#[macro_use]
mod sh;
use mockall::*;
use mockall::predicate::*;
use vh::*;

mock! { pub A0 { fn foo(&self) -> u32; } }
mock! { pub A1 { fn foo(&self, x: u32) -> u32; } }
mock! { pub A2 { fn foo(&self, x: u8, y: u32) -> u32; } }
mock! { pub A3 { fn foo(&self, x: u8, y: u8, z: u8) -> u32; } }
mock! { pub A4 { fn foo(&self, x: u8, y: u8, z: u8, w: u8) -> u32; } }
mock! { pub A6 { fn foo(&self, a: u8, b: u8, c: u8, d: u8, e: u8, f: u8) -> u32; } }
mock! { pub ByRef { fn foo(&self, x: &u8, y: &u8) -> u32; } }
mock! { pub ByMut { fn foo(&self, x: &mut u8, y: u8) -> u32; } }
mock! { pub RefM { fn foo(&self, x: u8, y: u8) -> &u32; } }
mock! { pub RefMutM { fn foo(&mut self, x: u8, y: u8) -> &mut u32; } }
mock! { pub Stat { fn foo(x: u8, y: u8) -> u32; } }
mock! { pub MutSelf { fn foo(&mut self, x: u8, y: u8) -> u32; } }

macro_rules! truth {
    ($m:expr, $exp:expr, $cfg:expr, $call:expr, $want:expr, $msg:literal) => {{
        { let e = $exp; let f = $cfg; f(e); }
        $exp.return_const(0u32);
        obl!(($call == 1) == $want, $msg);
    }};
}
fn le(a: u8, b: u8, c: u8) -> bool { a <= b && b <= c }

harnesses! {
    // ---- with --------------------------------------------------------------------------
    ok_with1 (4) {
        let (a, x): (u32, u32) = kani::any();
        let mut m = MockA1::new();
        m.expect_foo().with(eq(a)).return_const(1u32);
        m.expect_foo().return_const(0u32);
        obl!((m.foo(x) == 1) == (x == a), "with: accepts exactly if the predicate accepts");
        done(m);
    }
    ok_with2 (5) {
        let (a, x): (u8, u8) = kani::any();
        let (b, y): (u32, u32) = kani::any();
        let mut m = MockA2::new();
        m.expect_foo().with(eq(a), ge(b)).return_const(1u32);
        m.expect_foo().return_const(0u32);
        obl!((m.foo(x, y) == 1) == (x == a && y >= b), "with: accepts exactly if both predicates accept their own argument");
        done(m);
    }
    ok_with3 (6) {
        let v: [u8; 3] = kani::any();
        let a: [u8; 3] = kani::any();
        let mut m = MockA3::new();
        m.expect_foo().with(eq(a[0]), eq(a[1]), eq(a[2])).return_const(1u32);
        m.expect_foo().return_const(0u32);
        obl!((m.foo(v[0], v[1], v[2]) == 1) == (v == a), "with: accepts exactly if all three predicates accept their own argument");
        done(m);
    }
    ok_with4 (7) {
        let v: [u8; 4] = kani::any();
        let a: [u8; 4] = kani::any();
        let mut m = MockA4::new();
        m.expect_foo().with(eq(a[0]), ne(a[1]), lt(a[2]), eq(a[3])).return_const(1u32);
        m.expect_foo().return_const(0u32);
        obl!((m.foo(v[0], v[1], v[2], v[3]) == 1) == (v[0] == a[0] && v[1] != a[1] && v[2] < a[2] && v[3] == a[3]),
             "with: accepts exactly if all four predicates accept their own argument");
        done(m);
    }
    ok_with6 (9) {
        let v: [u8; 6] = kani::any();
        let a: [u8; 6] = kani::any();
        let mut m = MockA6::new();
        m.expect_foo().with(eq(a[0]), eq(a[1]), eq(a[2]), eq(a[3]), eq(a[4]), eq(a[5])).return_const(1u32);
        m.expect_foo().return_const(0u32);
        obl!((m.foo(v[0], v[1], v[2], v[3], v[4], v[5]) == 1) == (v == a), "with: accepts exactly if all six predicates accept their own argument");
        done(m);
    }
    ok_withf6 (4) {
        let v: [u8; 6] = kani::any();
        let mut m = MockA6::new();
        m.expect_foo().withf(|a, b, c, d, e, f| le(*a, *b, *c) && le(*c, *d, *e) && *e <= *f).return_const(1u32);
        m.expect_foo().return_const(0u32);
        obl!((m.foo(v[0], v[1], v[2], v[3], v[4], v[5]) == 1) == (le(v[0], v[1], v[2]) && le(v[2], v[3], v[4]) && v[4] <= v[5]),
             "withf: the closure decides, on six arguments in declaration order");
        done(m);
    }
    ok_with_truth_table (6) {
        let t: [bool; 3] = kani::any();
        let v: [u8; 3] = kani::any();
        let mut m = MockA3::new();
        m.expect_foo().with(function(move |_: &u8| t[0]), function(move |_: &u8| t[1]), function(move |_: &u8| t[2])).return_const(1u32);
        m.expect_foo().return_const(0u32);
        obl!((m.foo(v[0], v[1], v[2]) == 1) == (t[0] && t[1] && t[2]), "with: the conjunction of the predicates, for every outcome of each");
        done(m);
    }
    ok_with_always_never (5) {
        let (x, y): (u8, u32) = kani::any();
        let mut m = MockA2::new();
        m.expect_foo().with(always(), never()).return_const(2u32);
        m.expect_foo().with(never(), always()).return_const(3u32);
        m.expect_foo().with(always(), always()).return_const(1u32);
        obl!(m.foo(x, y) == 1, "with: always()/never() accept everything/nothing");
        done(m);
    }
    ok_with_refs (5) {
        let a: [u8; 2] = kani::any();
        let v: [u8; 2] = kani::any();
        let mut m = MockByRef::new();
        m.expect_foo().with(eq(a[0]), eq(a[1])).return_const(1u32);
        m.expect_foo().return_const(0u32);
        obl!((m.foo(&v[0], &v[1]) == 1) == (v == a), "with: reference arguments are compared by their values, each with its own predicate");
        done(m);
    }
    ok_withf_mut (5) {
        let (a, mut x): (u8, u8) = kani::any();
        let y: u8 = kani::any();
        let x0 = x;
        let mut m = MockByMut::new();
        m.expect_foo().withf(move |p, q| *p == a && *q == a).return_const(1u32);
        m.expect_foo().return_const(0u32);
        let r = m.foo(&mut x, y);
        obl!((r == 1) == (x0 == a && y == a), "withf: a mutable-reference argument is inspected through the reference");
        obl!(x == x0, "deciding a condition changes no argument");
        done(m);
    }
    // ---- withf, withf_st, none ------------------------------------------------------------
    ok_withf3 (4) {
        let v: [u8; 3] = kani::any();
        let mut m = MockA3::new();
        m.expect_foo().withf(|a, b, c| le(*a, *b, *c)).return_const(1u32);
        m.expect_foo().return_const(0u32);
        obl!((m.foo(v[0], v[1], v[2]) == 1) == le(v[0], v[1], v[2]), "withf: the closure decides, on the arguments in declaration order");
        done(m);
    }
    ok_withf4 (4) {
        let v: [u8; 4] = kani::any();
        let mut m = MockA4::new();
        m.expect_foo().withf(|a, b, c, d| le(*a, *b, *c) && *c <= *d).return_const(1u32);
        m.expect_foo().return_const(0u32);
        obl!((m.foo(v[0], v[1], v[2], v[3]) == 1) == (le(v[0], v[1], v[2]) && v[2] <= v[3]), "withf: the closure decides, on four arguments in declaration order");
        done(m);
    }
    ok_withf_st3 (4) {
        let v: [u8; 3] = kani::any();
        let mut m = MockA3::new();
        m.expect_foo().withf_st(|a, b, c| le(*a, *b, *c)).return_const(1u32);
        m.expect_foo().return_const(0u32);
        obl!((m.foo(v[0], v[1], v[2]) == 1) == le(v[0], v[1], v[2]), "withf_st: the closure decides, on the arguments in declaration order");
        done(m);
    }
    ok_none (4) {
        let v: [u8; 3] = kani::any();
        let mut m = MockA3::new();
        m.expect_foo().return_const(1u32);
        m.expect_foo().return_const(0u32);
        obl!(m.foo(v[0], v[1], v[2]) == 1, "no condition: every call is accepted");
        done(m);
    }
    ok_noargs (4) {
        let b: bool = kani::any();
        let mut m = MockA0::new();
        m.expect_foo().withf(move || b).return_const(1u32);
        m.expect_foo().with().return_const(0u32);
        obl!((m.foo() == 1) == b, "a method without arguments: the closure decides; with() accepts");
        done(m);
    }
    pan_with_single (4) {
        let (a, x): (u32, u32) = kani::any();
        kani::assume(a != x);
        let mut m = MockA1::new();
        m.expect_foo().with(eq(a)).return_const(1u32);
        must_panic!("a call that the only condition rejects panics", m.foo(x));
    }
    // ---- the last condition replaces the earlier one, whatever the kinds --------------------
    ok_replace (5) {
        let (k1, k2): (u8, u8) = kani::any();
        kani::assume(k1 < 4 && k2 < 3);
        let (a, b, x): (u8, u8, u8) = kani::any();
        let mut m = MockA2::new();
        {
            let e = m.expect_foo();
            match k1 {
                0 => { e.with(eq(a), always()); }
                1 => { e.withf(move |p, _| *p == a); }
                2 => { e.withf_st(move |p, _| *p == a); }
                _ => (),
            }
            match k2 {
                0 => { e.with(eq(b), always()); }
                1 => { e.withf(move |p, _| *p == b); }
                _ => { e.withf_st(move |p, _| *p == b); }
            }
            e.return_const(1u32);
        }
        m.expect_foo().return_const(0u32);
        obl!((m.foo(x, kani::any()) == 1) == (x == b), "the last condition set decides alone, whichever kinds the two are");
        done(m);
    }
    ok_order_of_config (4) {
        // A condition survives whatever else is configured after it.
        let (a, x): (u32, u32) = kani::any();
        let mut m = MockA1::new();
        m.expect_foo().withf(move |p| *p == a).return_const(5u32).times(0..9).returning(|_| 1);
        m.expect_foo().return_const(0u32).withf(|_| true);
        obl!((m.foo(x) == 1) == (x == a), "setting counts and actions does not touch the condition");
        obl!((m.foo(x) == 1) == (x == a), "a condition gives the same answer each time");
        done(m);
    }
    // ---- other kinds of methods -----------------------------------------------------------------
    ok_ref (5) {
        let a: [u8; 2] = kani::any();
        let v: [u8; 2] = kani::any();
        let mut m = MockRefM::new();
        m.expect_foo().with(eq(a[0]), eq(a[1])).return_const(1u32);
        m.expect_foo().return_const(0u32);
        obl!((*m.foo(v[0], v[1]) == 1) == (v == a), "predicates on a method returning &T");
        done(m);
    }
    ok_ref_withf_st (4) {
        let a: [u8; 2] = kani::any();
        let v: [u8; 2] = kani::any();
        let mut m = MockRefM::new();
        m.expect_foo().withf_st(move |p, q| *p == a[0] && *q == a[1]).return_const(1u32);
        m.expect_foo().return_const(0u32);
        obl!((*m.foo(v[0], v[1]) == 1) == (v == a), "closure condition on a method returning &T");
        done(m);
    }
    ok_refmut (5) {
        let a: [u8; 2] = kani::any();
        let v: [u8; 2] = kani::any();
        let mut m = MockRefMutM::new();
        m.expect_foo().with(eq(a[0]), eq(a[1])).return_var(1u32);
        m.expect_foo().return_var(0u32);
        obl!((*m.foo(v[0], v[1]) == 1) == (v == a), "predicates on a method returning &mut T");
        done(m);
    }
    ok_refmut_withf (4) {
        let a: [u8; 2] = kani::any();
        let v: [u8; 2] = kani::any();
        let mut m = MockRefMutM::new();
        m.expect_foo().withf(move |p, q| *p == a[0] && *q == a[1]).return_var(1u32);
        m.expect_foo().return_var(0u32);
        obl!((*m.foo(v[0], v[1]) == 1) == (v == a), "closure condition on a method returning &mut T");
        done(m);
    }
    ok_mutself (5) {
        let a: [u8; 2] = kani::any();
        let v: [u8; 2] = kani::any();
        let mut m = MockMutSelf::new();
        m.expect_foo().with(eq(a[0]), eq(a[1])).return_const(1u32);
        m.expect_foo().withf(move |p, q| *p != a[0] || *q != a[1]).return_const(0u32);
        obl!((m.foo(v[0], v[1]) == 1) == (v == a), "conditions on a &mut self method");
        done(m);
    }
    ok_static_with (5) {
        let a: [u8; 2] = kani::any();
        let v: [u8; 2] = kani::any();
        let ctx = MockStat::foo_context();
        ctx.expect().with(eq(a[0]), eq(a[1])).return_const(1u32);
        ctx.expect().return_const(0u32);
        obl!((MockStat::foo(v[0], v[1]) == 1) == (v == a), "with on a static method");
        done(ctx);
    }
    ok_static_withf (4) {
        // set through the second guard: it must act on the second expectation
        let a: [u8; 2] = kani::any();
        let v: [u8; 2] = kani::any();
        let ctx = MockStat::foo_context();
        ctx.expect().withf(move |p, _| *p == a[0]).return_const(1u32);
        ctx.expect().withf(move |_, q| *q == a[1]).return_const(2u32);
        ctx.expect().return_const(0u32);
        let want = if v[0] == a[0] { 1 } else if v[1] == a[1] { 2 } else { 0 };
        obl!(MockStat::foo(v[0], v[1]) == want, "withf on a static method, each expectation its own condition");
        done(ctx);
    }
    ok_static_withf_st (4) {
        let a: [u8; 2] = kani::any();
        let v: [u8; 2] = kani::any();
        let ctx = MockStat::foo_context();
        ctx.expect().withf_st(move |p, q| *p == a[0] && *q == a[1]).return_const(1u32);
        ctx.expect().return_const(0u32);
        obl!((MockStat::foo(v[0], v[1]) == 1) == (v == a), "withf_st on a static method");
        done(ctx);
    }
    // ---- a call that no condition accepts, per declaration shape (common/shapes.rs) ----
    t_pan_sh_rb_none (3) {
        use crate::sh::*;
        sh_none!({ Box::new(MockRx::new()) }, expect_rb, |a, b, k| sp(a, b, k), |m, x, y| m.rb(x, y));
    }
    t_pan_sh_bx_none (3) {
        use crate::sh::*;
        sh_none!(MockRx::new(), expect_bx, |a, b, k| sp(a, b, k), |m, x, y| Box::new(m).bx(x, y));
    }
    t_pan_sh_rc_none (3) {
        use crate::sh::*;
        sh_none!(MockRx::new(), expect_rc, |a, b, k| sp(a, b, k), |m, x, y| Rc::new(m).rc(x, y));
    }
    t_pan_sh_arc_none (3) {
        use crate::sh::*;
        sh_none!(MockRx::new(), expect_arc, |a, b, k| sp(a, b, k), |m, x, y| Arc::new(m).arc(x, y));
    }
    t_pan_sh_pb_none (3) {
        use crate::sh::*;
        sh_none!(MockRx::new(), expect_pb, |a, b, k| sp(a, b, k), |m, x, y| Box::pin(m).pb(x, y));
    }
    t_pan_sh_pm_none (3) {
        use crate::sh::*;
        sh_none!(MockRx::new(), expect_pm, |a, b, k| sp(a, b, k), |m, x, y| Pin::new(&mut m).pm(x, y));
    }
    t_pan_sh_pr_none (3) {
        use crate::sh::*;
        sh_none!(MockRx::new(), expect_pr, |a, b, k| sp(a, b, k), |m, x, y| Pin::new(&m).pr(x, y));
    }
    t_pan_sh_asy_none (3) {
        use crate::sh::*;
        sh_none!(MockAx::new(), expect_asy, |a, b, k| sp(a, b, k), |m, x, y| poll_once(m.asy(x, y)));
    }
    t_pan_sh_asm_none (3) {
        use crate::sh::*;
        sh_none!(MockAx::new(), expect_asm, |a, b, k| sp(a, b, k), |m, x, y| poll_once(m.asm(x, y)));
    }
    t_pan_sh_ass_none (3) {
        use crate::sh::*;
        sh_none!(MockAx::ass_context(), expect, |a, b, k| sp(a, b, k), |m, x, y| poll_once(MockAx::ass(x, y)));
    }
    t_pan_sh_fut_none (3) {
        use crate::sh::*;
        sh_none!(MockAx::new(), expect_fut, |a, b, k| Box::pin(std::future::ready(sp(a, b, k))), |m, x, y| poll_once(m.fut(x, y)));
    }
    t_pan_sh_bf_none (3) {
        use crate::sh::*;
        sh_none!(MockAx::new(), expect_bf, |a, b, k| Box::pin(std::future::ready(sp(a, b, k))), |m, x, y| poll_once(m.bf(x, y)));
    }
    t_pan_sh_imp_none (3) {
        use crate::sh::*;
        sh_none!(MockIx::new(), expect_imp, |a, b, k| Box::new(sp(a, b, k)), |m, x, y| m.imp(x, y).v());
    }
    t_pan_sh_it_none (3) {
        use crate::sh::*;
        sh_none!(MockIx::new(), expect_it, |a, b, k| Box::new(Some(sp(a, b, k)).into_iter()), |m, x, y| m.it(x, y).next().unwrap_or(0));
    }
    t_pan_sh_bxd_none (3) {
        use crate::sh::*;
        sh_none!(MockIx::new(), expect_bxd, |a, b, k| Box::new(sp(a, b, k)), |m, x, y| m.bxd(x, y).v());
    }
    t_pan_sh_rp_none (3) {
        use crate::sh::*;
        sh_none!(MockRp::new(), expect_rp, |a, b, k| Box::new(sp(a, b, k)), |m, x, y| m.rp(x, y).v());
    }
    t_pan_sh_anon_none (3) {
        use crate::sh::*;
        sh_none!(MockLx::new(), expect_anon, |a, b, k| br(sp(a, b, k)), |m, x, y| m.anon(x, y).0);
    }
    t_pan_sh_named_none (3) {
        use crate::sh::*;
        sh_none!(MockLx::new(), expect_named, |a, b, k| br(sp(a, b, k)), |m, x, y| m.named(x, y).0);
    }
    t_pan_sh_free_none (3) {
        use crate::sh::*;
        sh_none!(MockLx::new(), expect_free, |a, b, k| br(sp(a, b, k)), |m, x, y| m.free(x, y).0);
    }
    t_pan_sh_own_none (3) {
        use crate::sh::*;
        sh_none!(MockLx::new(), expect_own, |a, b, k| sp(a.0, b, k), |m, x, y| m.own(br(x), y));
    }
    t_pan_sh_stl_none (3) {
        use crate::sh::*;
        sh_none!(MockLx::stl_context(), expect, |a, b, k| sp(*a, b, k), |m, x, y| MockLx::stl(&x, y));
    }
    t_pan_sh_tanon_none (3) {
        use crate::sh::*;
        sh_none!(MockLt::new(), expect_tanon, |a, b, k| br(sp(a, b, k)), |m, x, y| m.tanon(x, y).0);
    }
    t_pan_sh_tfree_none (3) {
        use crate::sh::*;
        sh_none!(MockLt::new(), expect_tfree, |a, b, k| br(sp(a, b, k)), |m, x, y| m.tfree(x, y).0);
    }
    t_pan_sh_uns_none (3) {
        use crate::sh::*;
        sh_none!(MockUx::new(), expect_uns, |a, b, k| sp(a, b, k), |m, x, y| unsafe { m.uns(x, y) });
    }
    t_pan_sh_unst_none (3) {
        use crate::sh::*;
        sh_none!(MockUx::unst_context(), expect, |a, b, k| sp(a, b, k), |m, x, y| unsafe { MockUx::unst(x, y) });
    }
    t_pan_sh_ut_none (3) {
        use crate::sh::*;
        sh_none!(MockUt::new(), expect_ut, |a, b, k| sp(a, b, k), |m, x, y| m.ut(x, y));
    }
    t_pan_sh_num_none (3) {
        use crate::sh::*;
        sh_none!(MockSp::<u32>::new(), expect_num, |a, b, k| sp(a, b, k), |m, x, y| m.num(x, y));
    }
    t_pan_sh_sup_none (3) {
        use crate::sh::*;
        sh_none!(MockSu::new(), expect_sup, |a, b, k| sp(a, b, k), |m, x, y| m.sup(x, y));
    }
    t_pan_sh_wh_none (3) {
        use crate::sh::*;
        sh_none!(MockWh::<u32>::default(), expect_wh, |a, b, k| sp(a, b, k), |m, x, y| m.wh(x, y));
    }
    t_pan_sh_res_none (3) {
        use crate::sh::*;
        sh_none!(MockMk::new(), expect_res, |a, b, k| Ok(sp(a, b, k)), |m, x, y| m.res(x, y).unwrap_or(0));
    }
    t_pan_sh_drf_none (3) {
        use crate::sh::*;
        sh_none!(MockDr::new(), expect_drf, |a, b, k| sp(a, b, k), |m, x, y| m.drf(x, y));
    }
    t_pan_sh_raw_none (3) {
        use crate::sh::*;
        sh_none!(MockRaw::new(), expect_match, |a, b, k| sp(a, b, k), |m, x, y| m.r#match(x, y));
    }
    t_pan_sh_nondebug_none (3) {
        use crate::sh::*;
        sh_none!(MockRaw::new(), expect_nondebug, |a, b, k| sp(a.0, b, k), |m, x, y| m.nondebug(br(x), y));
    }
}
#[cfg(not(kani))]
pub fn run() { vh::kani::main(registry()) }
