//! C02: call counts are enforced by every kind of mock, at the call and at destruction.
//! Contracts of the generated `Common::{call, times, never, drop}`,
//! `Expectation::{times, once, never, call, call_mut}`, `Expectations::{call, call_mut, drop}`,
//! `ExpectationGuard::{times, once, never}`, `Context::drop` and the mock methods.
#![allow(unused)]
#[path = "../../common/vh.rs"]
#[macro_use]
mod vh;
#[path = "../../common/shapes.rs"]
#[macro_use]
mod sh;
use mockall::*;
use vh::*;

const TOP: usize = usize::MAX - 2;

mock! { pub One { fn foo(&self, x: u32) -> u32; } }
mock! { pub MutM { fn foo(&mut self, x: u32) -> u32; } }
mock! { pub Own { fn foo(self, x: u32) -> u32; } }
mock! { pub RefM { fn foo(&self, x: u32) -> &u32; } }
mock! { pub RefMutM { fn foo(&mut self, x: u32) -> &mut u32; } }
mock! { pub Stat { fn foo(x: u32) -> u32; } }
pub trait Tr { fn tfoo(&self) -> u32; }
mock! { pub Two { fn foo(&self); } impl Tr for Two { fn tfoo(&self) -> u32; } }

/// An arbitrary satisfiable configuration and an arbitrary reachable history length.
fn config() -> (usize, usize, usize) {
    let (lo, hi, c): (usize, usize, usize) = kani::any();
    kani::assume(lo <= hi && hi < TOP && c <= hi);
    (lo, hi, c)
}

harnesses! {
    // ---- &self methods ------------------------------------------------------------
    ok_self_permitted (4) {
        let (lo, hi, c) = config();
        kani::assume(c < hi && c + 1 >= lo);
        preset_calls(c);
        let mut m = MockOne::new();
        m.expect_foo().times(lo..=hi).return_const(7u32);
        history!(c, m.foo(0));
        let x: u32 = kani::any();
        obl!(m.foo(x) == 7, "a call within the permitted count is answered");
        drop(m);    // must not panic: the count is permitted
    }
    pan_self_over (4) {
        let (lo, hi, c) = config();
        kani::assume(c == hi);
        preset_calls(c);
        let mut m = MockOne::new();
        m.expect_foo().times(lo..=hi).return_const(7u32);
        history!(c, m.foo(0));
        must_panic!("a call beyond the permitted maximum panics (&self)", m.foo(kani::any()));
    }
    pan_self_under (4) {
        let (lo, hi, c) = config();
        kani::assume(c < lo);
        preset_calls(c);
        let mut m = MockOne::new();
        m.expect_foo().times(lo..=hi).return_const(7u32);
        history!(c, m.foo(0));
        must_panic!("dropping a mock with an under-called expectation panics (&self)", drop(m));
    }
    pan_self_under_after_call (4) {
        let (lo, hi, c) = config();
        kani::assume(c + 1 < lo);
        preset_calls(c);
        let mut m = MockOne::new();
        m.expect_foo().times(lo..=hi).return_const(7u32);
        history!(c, m.foo(0));
        m.foo(1);
        must_panic!("one call counts once: still under-called, so dropping panics", drop(m));
    }
    ok_self_drop_permitted (4) {
        let (lo, hi, c) = config();
        kani::assume(c >= lo);
        preset_calls(c);
        let mut m = MockOne::new();
        m.expect_foo().times(lo..=hi).return_const(7u32);
        history!(c, m.foo(0));
        drop(m);
    }
    ok_drop_while_panicking (4) {
        let (lo, hi, c) = config();
        preset_calls(c);
        let mut m = MockOne::new();
        m.expect_foo().times(lo..=hi).return_const(7u32);
        history!(c, m.foo(0));
        ghost::while_panicking(move || drop(m));   // must not panic again
    }
    pan_never (4) {
        let mut m = MockOne::new();
        m.expect_foo().never();
        must_panic!("never(): any call panics", m.foo(kani::any()));
    }
    ok_never_once_drop (4) {
        let mut m = MockOne::new();
        m.expect_foo().never();
        m.expect_foo().once().return_const(1u32);
        obl!(m.foo(3) == 1, "once(): the first call is answered");
    }
    pan_once_under (4) {
        let mut m = MockOne::new();
        m.expect_foo().once().return_const(1u32);
        must_panic!("once(): dropping an uncalled mock panics", drop(m));
    }
    pan_once_over (4) {
        let mut m = MockOne::new();
        m.expect_foo().once().return_const(1u32);
        m.foo(0);
        must_panic!("once(): the second call panics", m.foo(kani::any()));
    }
    // ---- other receivers and return kinds -------------------------------------------
    pan_mutself_over (4) {
        let (lo, hi, c) = config();
        kani::assume(c == hi);
        preset_calls(c);
        let mut m = MockMutM::new();
        m.expect_foo().times(lo..=hi).return_const(7u32);
        history!(c, m.foo(0));
        must_panic!("a call beyond the permitted maximum panics (&mut self)", m.foo(kani::any()));
    }
    t_pan_mutself_under (4) {
        let (lo, hi, c) = config();
        kani::assume(c < lo);
        preset_calls(c);
        let mut m = MockMutM::new();
        m.expect_foo().times(lo..=hi).return_const(7u32);
        history!(c, m.foo(0));
        must_panic!("dropping a mock with an under-called expectation panics (&mut self)", drop(m));
    }
    ok_own (4) {
        let mut m = MockOwn::new();
        m.expect_foo().times(1).return_const(7u32);
        obl!(m.foo(kani::any()) == 7, "self by value: a permitted call is answered, and consuming the mock is silent");
    }
    pan_own_under (4) {
        let mut m = MockOwn::new();
        m.expect_foo().times(2).return_const(7u32);
        must_panic!("self by value: the consumed mock is verified", m.foo(kani::any()));
    }
    pan_ref_over (4) {
        let (lo, hi, c) = config();
        kani::assume(c == hi);
        preset_calls(c);
        let mut m = MockRefM::new();
        m.expect_foo().times(lo..=hi).return_const(7u32);
        history!(c, m.foo(0));
        must_panic!("a call beyond the permitted maximum panics (returning &T)", *m.foo(kani::any()));
    }
    pan_ref_under (4) {
        let (lo, hi, c) = config();
        kani::assume(c + 1 < lo);
        preset_calls(c);
        let mut m = MockRefM::new();
        m.expect_foo().times(lo..=hi).return_const(7u32);
        history!(c, m.foo(0));
        m.foo(0);
        must_panic!("dropping a mock with an under-called expectation panics (returning &T)", drop(m));
    }
    pan_refmut_over (4) {
        let (lo, hi, c) = config();
        kani::assume(c == hi);
        preset_calls(c);
        let mut m = MockRefMutM::new();
        m.expect_foo().times(lo..=hi).return_var(7u32);
        history!(c, m.foo(0));
        must_panic!("a call beyond the permitted maximum panics (returning &mut T)", *m.foo(kani::any()));
    }
    pan_refmut_under (4) {
        let (lo, hi, c) = config();
        kani::assume(c + 1 < lo);
        preset_calls(c);
        let mut m = MockRefMutM::new();
        m.expect_foo().times(lo..=hi).return_var(7u32);
        history!(c, m.foo(0));
        m.foo(0);
        must_panic!("dropping a mock with an under-called expectation panics (returning &mut T)", drop(m));
    }
    // ---- static methods ------------------------------------------------------------------
    ok_static_permitted (4) {
        let (lo, hi, c) = config();
        kani::assume(c < hi && c + 1 >= lo);
        preset_calls(c);
        let ctx = MockStat::foo_context();
        ctx.expect().times(lo..=hi).return_const(7u32);
        history!(c, MockStat::foo(0));
        obl!(MockStat::foo(kani::any()) == 7, "a permitted static call is answered");
        drop(ctx);
    }
    pan_static_over (4) {
        let (lo, hi, c) = config();
        kani::assume(c == hi);
        preset_calls(c);
        let ctx = MockStat::foo_context();
        ctx.expect().times(lo..=hi).return_const(7u32);
        history!(c, MockStat::foo(0));
        must_panic!("a call beyond the permitted maximum panics (static method)", MockStat::foo(kani::any()));
    }
    pan_static_under (4) {
        let (lo, hi, c) = config();
        kani::assume(c < lo);
        preset_calls(c);
        let ctx = MockStat::foo_context();
        ctx.expect().times(lo..=hi).return_const(7u32);
        history!(c, MockStat::foo(0));
        must_panic!("dropping the context of an under-called static expectation panics", drop(ctx));
    }
    pan_static_never (4) {
        let ctx = MockStat::foo_context();
        ctx.expect().never();
        must_panic!("never() on a static method: any call panics", MockStat::foo(kani::any()));
    }
    pan_static_once_under (4) {
        let ctx = MockStat::foo_context();
        ctx.expect().once().return_const(1u32);
        must_panic!("once() on a static method: dropping the context uncalled panics", drop(ctx));
    }
    t_pan_static_once_over (4) {
        let ctx = MockStat::foo_context();
        ctx.expect().once().return_const(1u32);
        MockStat::foo(0);
        must_panic!("once() on a static method: the second call panics", MockStat::foo(kani::any()));
    }
    // ---- several methods --------------------------------------------------------------------
    pan_two_first (4) {
        let mut m = MockTwo::new();
        m.expect_foo().times(1).return_const(());
        m.expect_tfoo().times(1).return_const(1u32);
        m.tfoo();
        must_panic!("an under-called inherent method is reported even if a trait method is satisfied", drop(m));
    }
    pan_two_second (4) {
        let mut m = MockTwo::new();
        m.expect_foo().times(1).return_const(());
        m.expect_tfoo().times(1).return_const(1u32);
        m.foo();
        must_panic!("an under-called trait method is reported even if the inherent method is satisfied", drop(m));
    }
    ok_two (4) {
        let mut m = MockTwo::new();
        m.expect_foo().times(1).return_const(());
        m.expect_tfoo().times(1).return_const(1u32);
        m.foo();
        m.tfoo();
    }
    // every expectation of a method is verified, whatever its position
    pan_list_second_under (4) {
        let mut m = MockOne::new();
        m.expect_foo().times(1).return_const(1u32);
        m.expect_foo().times(1).return_const(2u32);
        m.foo(0);
        must_panic!("an under-called expectation behind a satisfied one is reported", drop(m));
    }
    pan_list_first_under (4) {
        let mut m = MockOne::new();
        m.expect_foo().times(2).return_const(1u32);
        m.expect_foo().times(0..).return_const(2u32);
        m.foo(0);
        must_panic!("an under-called expectation in front of a satisfied one is reported", drop(m));
    }
    // ---- a call beyond the maximum, per declaration shape (common/shapes.rs) ----
    t_pan_sh_rb_over (3) {
        use crate::sh::*;
        sh_over!({ Box::new(MockRx::new()) }, expect_rb, |a, b, k| sp(a, b, k), |m, x, y| m.rb(x, y));
    }
    t_pan_sh_bx_over (3) {
        use crate::sh::*;
        sh_over!(MockRx::new(), expect_bx, |a, b, k| sp(a, b, k), |m, x, y| Box::new(m).bx(x, y));
    }
    t_pan_sh_rc_over (3) {
        use crate::sh::*;
        sh_over!(MockRx::new(), expect_rc, |a, b, k| sp(a, b, k), |m, x, y| Rc::new(m).rc(x, y));
    }
    t_pan_sh_arc_over (3) {
        use crate::sh::*;
        sh_over!(MockRx::new(), expect_arc, |a, b, k| sp(a, b, k), |m, x, y| Arc::new(m).arc(x, y));
    }
    t_pan_sh_pb_over (3) {
        use crate::sh::*;
        sh_over!(MockRx::new(), expect_pb, |a, b, k| sp(a, b, k), |m, x, y| Box::pin(m).pb(x, y));
    }
    t_pan_sh_pm_over (3) {
        use crate::sh::*;
        sh_over!(MockRx::new(), expect_pm, |a, b, k| sp(a, b, k), |m, x, y| Pin::new(&mut m).pm(x, y));
    }
    t_pan_sh_pr_over (3) {
        use crate::sh::*;
        sh_over!(MockRx::new(), expect_pr, |a, b, k| sp(a, b, k), |m, x, y| Pin::new(&m).pr(x, y));
    }
    t_pan_sh_asy_over (3) {
        use crate::sh::*;
        sh_over!(MockAx::new(), expect_asy, |a, b, k| sp(a, b, k), |m, x, y| poll_once(m.asy(x, y)));
    }
    t_pan_sh_asm_over (3) {
        use crate::sh::*;
        sh_over!(MockAx::new(), expect_asm, |a, b, k| sp(a, b, k), |m, x, y| poll_once(m.asm(x, y)));
    }
    t_pan_sh_ass_over (3) {
        use crate::sh::*;
        sh_over!(MockAx::ass_context(), expect, |a, b, k| sp(a, b, k), |m, x, y| poll_once(MockAx::ass(x, y)));
    }
    t_pan_sh_fut_over (3) {
        use crate::sh::*;
        sh_over!(MockAx::new(), expect_fut, |a, b, k| Box::pin(std::future::ready(sp(a, b, k))), |m, x, y| poll_once(m.fut(x, y)));
    }
    t_pan_sh_bf_over (3) {
        use crate::sh::*;
        sh_over!(MockAx::new(), expect_bf, |a, b, k| Box::pin(std::future::ready(sp(a, b, k))), |m, x, y| poll_once(m.bf(x, y)));
    }
    t_pan_sh_imp_over (3) {
        use crate::sh::*;
        sh_over!(MockIx::new(), expect_imp, |a, b, k| Box::new(sp(a, b, k)), |m, x, y| m.imp(x, y).v());
    }
    t_pan_sh_it_over (3) {
        use crate::sh::*;
        sh_over!(MockIx::new(), expect_it, |a, b, k| Box::new(Some(sp(a, b, k)).into_iter()), |m, x, y| m.it(x, y).next().unwrap_or(0));
    }
    t_pan_sh_bxd_over (3) {
        use crate::sh::*;
        sh_over!(MockIx::new(), expect_bxd, |a, b, k| Box::new(sp(a, b, k)), |m, x, y| m.bxd(x, y).v());
    }
    t_pan_sh_rp_over (3) {
        use crate::sh::*;
        sh_over!(MockRp::new(), expect_rp, |a, b, k| Box::new(sp(a, b, k)), |m, x, y| m.rp(x, y).v());
    }
    t_pan_sh_anon_over (3) {
        use crate::sh::*;
        sh_over!(MockLx::new(), expect_anon, |a, b, k| br(sp(a, b, k)), |m, x, y| m.anon(x, y).0);
    }
    t_pan_sh_named_over (3) {
        use crate::sh::*;
        sh_over!(MockLx::new(), expect_named, |a, b, k| br(sp(a, b, k)), |m, x, y| m.named(x, y).0);
    }
    t_pan_sh_free_over (3) {
        use crate::sh::*;
        sh_over!(MockLx::new(), expect_free, |a, b, k| br(sp(a, b, k)), |m, x, y| m.free(x, y).0);
    }
    t_pan_sh_own_over (3) {
        use crate::sh::*;
        sh_over!(MockLx::new(), expect_own, |a, b, k| sp(a.0, b, k), |m, x, y| m.own(br(x), y));
    }
    t_pan_sh_stl_over (3) {
        use crate::sh::*;
        sh_over!(MockLx::stl_context(), expect, |a, b, k| sp(*a, b, k), |m, x, y| MockLx::stl(&x, y));
    }
    t_pan_sh_tanon_over (3) {
        use crate::sh::*;
        sh_over!(MockLt::new(), expect_tanon, |a, b, k| br(sp(a, b, k)), |m, x, y| m.tanon(x, y).0);
    }
    t_pan_sh_tfree_over (3) {
        use crate::sh::*;
        sh_over!(MockLt::new(), expect_tfree, |a, b, k| br(sp(a, b, k)), |m, x, y| m.tfree(x, y).0);
    }
    t_pan_sh_uns_over (3) {
        use crate::sh::*;
        sh_over!(MockUx::new(), expect_uns, |a, b, k| sp(a, b, k), |m, x, y| unsafe { m.uns(x, y) });
    }
    t_pan_sh_unst_over (3) {
        use crate::sh::*;
        sh_over!(MockUx::unst_context(), expect, |a, b, k| sp(a, b, k), |m, x, y| unsafe { MockUx::unst(x, y) });
    }
    t_pan_sh_ut_over (3) {
        use crate::sh::*;
        sh_over!(MockUt::new(), expect_ut, |a, b, k| sp(a, b, k), |m, x, y| m.ut(x, y));
    }
    t_pan_sh_num_over (3) {
        use crate::sh::*;
        sh_over!(MockSp::<u32>::new(), expect_num, |a, b, k| sp(a, b, k), |m, x, y| m.num(x, y));
    }
    t_pan_sh_sup_over (3) {
        use crate::sh::*;
        sh_over!(MockSu::new(), expect_sup, |a, b, k| sp(a, b, k), |m, x, y| m.sup(x, y));
    }
    t_pan_sh_wh_over (3) {
        use crate::sh::*;
        sh_over!(MockWh::<u32>::default(), expect_wh, |a, b, k| sp(a, b, k), |m, x, y| m.wh(x, y));
    }
    t_pan_sh_res_over (3) {
        use crate::sh::*;
        sh_over!(MockMk::new(), expect_res, |a, b, k| Ok(sp(a, b, k)), |m, x, y| m.res(x, y).unwrap_or(0));
    }
    t_pan_sh_drf_over (3) {
        use crate::sh::*;
        sh_over!(MockDr::new(), expect_drf, |a, b, k| sp(a, b, k), |m, x, y| m.drf(x, y));
    }
    t_pan_sh_raw_over (3) {
        use crate::sh::*;
        sh_over!(MockRaw::new(), expect_match, |a, b, k| sp(a, b, k), |m, x, y| m.r#match(x, y));
    }
    t_pan_sh_nondebug_over (3) {
        use crate::sh::*;
        sh_over!(MockRaw::new(), expect_nondebug, |a, b, k| sp(a.0, b, k), |m, x, y| m.nondebug(br(x), y));
    }
    // ---- the end of the mock with calls missing, per declaration shape (common/shapes.rs) ----
    t_pan_sh_rb_under (3) {
        use crate::sh::*;
        sh_under!({ Box::new(MockRx::new()) }, expect_rb, |a, b, k| sp(a, b, k), |m, x, y| { let r = m.rb(x, y); drop(m); r });
    }
    t_pan_sh_bx_under (3) {
        use crate::sh::*;
        sh_under!(MockRx::new(), expect_bx, |a, b, k| sp(a, b, k), |m, x, y| { let r = Box::new(m).bx(x, y);  r });
    }
    t_pan_sh_rc_under (3) {
        use crate::sh::*;
        sh_under!(MockRx::new(), expect_rc, |a, b, k| sp(a, b, k), |m, x, y| { let r = Rc::new(m).rc(x, y);  r });
    }
    t_pan_sh_arc_under (3) {
        use crate::sh::*;
        sh_under!(MockRx::new(), expect_arc, |a, b, k| sp(a, b, k), |m, x, y| { let r = Arc::new(m).arc(x, y);  r });
    }
    t_pan_sh_pb_under (3) {
        use crate::sh::*;
        sh_under!(MockRx::new(), expect_pb, |a, b, k| sp(a, b, k), |m, x, y| { let r = Box::pin(m).pb(x, y);  r });
    }
    t_pan_sh_pm_under (3) {
        use crate::sh::*;
        sh_under!(MockRx::new(), expect_pm, |a, b, k| sp(a, b, k), |m, x, y| { let r = Pin::new(&mut m).pm(x, y); drop(m); r });
    }
    t_pan_sh_pr_under (3) {
        use crate::sh::*;
        sh_under!(MockRx::new(), expect_pr, |a, b, k| sp(a, b, k), |m, x, y| { let r = Pin::new(&m).pr(x, y); drop(m); r });
    }
    t_pan_sh_asy_under (3) {
        use crate::sh::*;
        sh_under!(MockAx::new(), expect_asy, |a, b, k| sp(a, b, k), |m, x, y| { let r = poll_once(m.asy(x, y)); drop(m); r });
    }
    t_pan_sh_asm_under (3) {
        use crate::sh::*;
        sh_under!(MockAx::new(), expect_asm, |a, b, k| sp(a, b, k), |m, x, y| { let r = poll_once(m.asm(x, y)); drop(m); r });
    }
    t_pan_sh_ass_under (3) {
        use crate::sh::*;
        sh_under!(MockAx::ass_context(), expect, |a, b, k| sp(a, b, k), |m, x, y| { let r = poll_once(MockAx::ass(x, y)); drop(m); r });
    }
    t_pan_sh_fut_under (3) {
        use crate::sh::*;
        sh_under!(MockAx::new(), expect_fut, |a, b, k| Box::pin(std::future::ready(sp(a, b, k))), |m, x, y| { let r = poll_once(m.fut(x, y)); drop(m); r });
    }
    t_pan_sh_bf_under (3) {
        use crate::sh::*;
        sh_under!(MockAx::new(), expect_bf, |a, b, k| Box::pin(std::future::ready(sp(a, b, k))), |m, x, y| { let r = poll_once(m.bf(x, y)); drop(m); r });
    }
    t_pan_sh_imp_under (3) {
        use crate::sh::*;
        sh_under!(MockIx::new(), expect_imp, |a, b, k| Box::new(sp(a, b, k)), |m, x, y| { let r = m.imp(x, y).v(); drop(m); r });
    }
    t_pan_sh_it_under (3) {
        use crate::sh::*;
        sh_under!(MockIx::new(), expect_it, |a, b, k| Box::new(Some(sp(a, b, k)).into_iter()), |m, x, y| { let r = m.it(x, y).next().unwrap_or(0); drop(m); r });
    }
    t_pan_sh_bxd_under (3) {
        use crate::sh::*;
        sh_under!(MockIx::new(), expect_bxd, |a, b, k| Box::new(sp(a, b, k)), |m, x, y| { let r = m.bxd(x, y).v(); drop(m); r });
    }
    t_pan_sh_rp_under (3) {
        use crate::sh::*;
        sh_under!(MockRp::new(), expect_rp, |a, b, k| Box::new(sp(a, b, k)), |m, x, y| { let r = m.rp(x, y).v(); drop(m); r });
    }
    t_pan_sh_anon_under (3) {
        use crate::sh::*;
        sh_under!(MockLx::new(), expect_anon, |a, b, k| br(sp(a, b, k)), |m, x, y| { let r = m.anon(x, y).0; drop(m); r });
    }
    t_pan_sh_named_under (3) {
        use crate::sh::*;
        sh_under!(MockLx::new(), expect_named, |a, b, k| br(sp(a, b, k)), |m, x, y| { let r = m.named(x, y).0; drop(m); r });
    }
    t_pan_sh_free_under (3) {
        use crate::sh::*;
        sh_under!(MockLx::new(), expect_free, |a, b, k| br(sp(a, b, k)), |m, x, y| { let r = m.free(x, y).0; drop(m); r });
    }
    t_pan_sh_own_under (3) {
        use crate::sh::*;
        sh_under!(MockLx::new(), expect_own, |a, b, k| sp(a.0, b, k), |m, x, y| { let r = m.own(br(x), y); drop(m); r });
    }
    t_pan_sh_stl_under (3) {
        use crate::sh::*;
        sh_under!(MockLx::stl_context(), expect, |a, b, k| sp(*a, b, k), |m, x, y| { let r = MockLx::stl(&x, y); drop(m); r });
    }
    t_pan_sh_tanon_under (3) {
        use crate::sh::*;
        sh_under!(MockLt::new(), expect_tanon, |a, b, k| br(sp(a, b, k)), |m, x, y| { let r = m.tanon(x, y).0; drop(m); r });
    }
    t_pan_sh_tfree_under (3) {
        use crate::sh::*;
        sh_under!(MockLt::new(), expect_tfree, |a, b, k| br(sp(a, b, k)), |m, x, y| { let r = m.tfree(x, y).0; drop(m); r });
    }
    t_pan_sh_uns_under (3) {
        use crate::sh::*;
        sh_under!(MockUx::new(), expect_uns, |a, b, k| sp(a, b, k), |m, x, y| { let r = unsafe { m.uns(x, y) }; drop(m); r });
    }
    t_pan_sh_unst_under (3) {
        use crate::sh::*;
        sh_under!(MockUx::unst_context(), expect, |a, b, k| sp(a, b, k), |m, x, y| { let r = unsafe { MockUx::unst(x, y) }; drop(m); r });
    }
    t_pan_sh_ut_under (3) {
        use crate::sh::*;
        sh_under!(MockUt::new(), expect_ut, |a, b, k| sp(a, b, k), |m, x, y| { let r = m.ut(x, y); drop(m); r });
    }
    t_pan_sh_num_under (3) {
        use crate::sh::*;
        sh_under!(MockSp::<u32>::new(), expect_num, |a, b, k| sp(a, b, k), |m, x, y| { let r = m.num(x, y); drop(m); r });
    }
    t_pan_sh_sup_under (3) {
        use crate::sh::*;
        sh_under!(MockSu::new(), expect_sup, |a, b, k| sp(a, b, k), |m, x, y| { let r = m.sup(x, y); drop(m); r });
    }
    t_pan_sh_wh_under (3) {
        use crate::sh::*;
        sh_under!(MockWh::<u32>::default(), expect_wh, |a, b, k| sp(a, b, k), |m, x, y| { let r = m.wh(x, y); drop(m); r });
    }
    t_pan_sh_res_under (3) {
        use crate::sh::*;
        sh_under!(MockMk::new(), expect_res, |a, b, k| Ok(sp(a, b, k)), |m, x, y| { let r = m.res(x, y).unwrap_or(0); drop(m); r });
    }
    t_pan_sh_drf_under (3) {
        use crate::sh::*;
        sh_under!(MockDr::new(), expect_drf, |a, b, k| sp(a, b, k), |m, x, y| { let r = m.drf(x, y); drop(m); r });
    }
    t_pan_sh_raw_under (3) {
        use crate::sh::*;
        sh_under!(MockRaw::new(), expect_match, |a, b, k| sp(a, b, k), |m, x, y| { let r = m.r#match(x, y); drop(m); r });
    }
    t_pan_sh_nondebug_under (3) {
        use crate::sh::*;
        sh_under!(MockRaw::new(), expect_nondebug, |a, b, k| sp(a.0, b, k), |m, x, y| { let r = m.nondebug(br(x), y); drop(m); r });
    }
}
#[cfg(not(kani))]
pub fn run() { vh::kani::main(registry()) }
