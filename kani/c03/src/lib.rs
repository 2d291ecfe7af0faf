//! C03: a call is answered by the oldest matching expectation that is not used up.
//! Contracts of the generated `Expectations::{expect, call, call_mut}`,
//! `Expectation::{matches, is_done, call, call_mut}`, `Common::{matches, is_done, call}`,
//! `ExpectationGuard::new` and the mock methods.
#![allow(unused)]
#[path = "../../common/vh.rs"]
#[macro_use]
mod vh;
#[path = "../../common/shapes.rs"]
#[macro_use]
mod sh;
use mockall::*;
use vh::*;

const TOP: usize = usize::MAX - 2;

mock! { pub One { fn foo(&self, x: u32) -> u32; } }
mock! { pub MutM { fn foo(&mut self, x: u32) -> u32; } }
mock! { pub RefM { fn foo(&self, x: u32) -> &u32; } }
mock! { pub RefMutM { fn foo(&mut self, x: u32) -> &mut u32; } }
mock! { pub Stat { fn foo(x: u32) -> u32; } }
mock! { pub Own { fn foo(self, x: u32) -> u32; } }

/// State of one expectation: does it match, its permitted maximum, calls so far.
#[derive(Clone, Copy)]
pub struct E { m: bool, lo: usize, hi: usize, c: usize }
pub fn any_e() -> E {
    let (m, (hi, c)): (bool, (usize, usize)) = kani::any();
    kani::assume(hi < TOP && c <= hi);
    E { m, lo: 0, hi, c }
}
/// The specification: the first expectation that matches and is not used up.
pub fn pick(es: &[E]) -> Option<usize> {
    let mut i = 0;
    while i < es.len() {
        if es[i].m && es[i].c < es[i].hi { return Some(i) }
        i += 1;
    }
    None
}
pub fn cond(i: usize, b: bool) -> impl Fn(&u32) -> bool + Send + 'static { move |_| gate(i, b) }

macro_rules! setup {
    ($m:expr, $es:expr, $ret:ident, $call:expr) => {
        let mut i = 0;
        while i < $es.len() {
            preset_calls($es[i].c);
            $m.times($es[i].lo..=$es[i].hi).withf(cond(i, $es[i].m)).$ret(i as u32);
            i += 1;
        }
        preset_calls(0);
        let mut i = 0;
        while i < $es.len() { history_of!(i, $es[i].c, $call); i += 1; }
    };
}
macro_rules! selects {
    ($m:ident, $es:ident, $exp:expr, $ret:ident, $call:expr, $get:expr) => {
        setup!($exp, $es, $ret, $call);
        if let Some(i) = pick(&$es) {
            obl!($get == i as u32, "the first matching expectation that is not used up answers");
            $es[i].c += 1;
            if let Some(i) = pick(&$es) {
                obl!($get == i as u32, "the next call is answered by the first one that is then not used up");
            }
        }
    };
}

harnesses! {
    // ---- the whole selection rule, three expectations ----------------------------------
    ok_self_select3 (5) {
        let mut es = [any_e(), any_e(), any_e()];
        let mut m = MockOne::new();
        selects!(m, es, m.expect_foo(), return_const, m.foo(0), m.foo(kani::any()));
        done(m);
    }
    pan_self_none3 (5) {
        let es = [any_e(), any_e(), any_e()];
        kani::assume(pick(&es).is_none());
        let mut m = MockOne::new();
        setup!(m.expect_foo(), es, return_const, m.foo(0));
        must_panic!("a call that no usable expectation matches panics", m.foo(kani::any()));
    }
    // ---- only the selected one's count changes ---------------------------------------------
    ok_self_frame (5) {
        let mut es = [any_e(), any_e()];
        es[0].lo = kani::any();
        es[1].lo = kani::any();
        let p = pick(&es);
        kani::assume(p.is_some());
        let p = p.unwrap();
        // satisfied exactly if the selected one, and it alone, counts the call
        kani::assume(es[0].lo <= es[0].hi && es[0].c + (p == 0) as usize >= es[0].lo);
        kani::assume(es[1].lo <= es[1].hi && es[1].c + (p == 1) as usize >= es[1].lo);
        let mut m = MockOne::new();
        setup!(m.expect_foo(), es, return_const, m.foo(0));
        m.foo(kani::any());
        drop(m);
    }
    pan_self_frame (5) {
        let mut es = [any_e(), any_e()];
        es[0].lo = kani::any();
        es[1].lo = kani::any();
        kani::assume(es[0].lo <= es[0].hi && es[1].lo <= es[1].hi);
        let p = pick(&es);
        kani::assume(p.is_some());
        let p = p.unwrap();
        kani::assume(es[0].c + ((p == 0) as usize) < es[0].lo || es[1].c + ((p == 1) as usize) < es[1].lo);
        let mut m = MockOne::new();
        setup!(m.expect_foo(), es, return_const, m.foo(0));
        m.foo(kani::any());
        must_panic!("a call counts for no expectation but the selected one", drop(m));
    }
    // ---- an expectation that has refused calls stays used up --------------------------------------
    ok_self_refused (5) {
        let (hi, k): (usize, usize) = kani::any();
        kani::assume(hi < TOP / 2 && k < TOP / 2);
        let mut m = MockOne::new();
        preset_refused(hi, k);
        m.expect_foo().times(..=hi).return_const(0u32);
        history!(hi, m.foo(0));
        refused!(k, m.foo(0));
        preset_calls(0);
        m.expect_foo().times(1).return_const(1u32);
        obl!(m.foo(kani::any()) == 1, "however many calls a used-up expectation has refused, the next one answers");
        leak(m);
    }

    ok_refm_refused (5) {
        let (hi, k): (usize, usize) = kani::any();
        kani::assume(hi < TOP / 2 && k < TOP / 2);
        let mut m = MockRefM::new();
        preset_refused(hi, k);
        m.expect_foo().times(..=hi).return_const(0u32);
        history!(hi, m.foo(0));
        refused!(k, m.foo(0));
        preset_calls(0);
        m.expect_foo().times(1).return_const(1u32);
        obl!(*m.foo(kani::any()) == 1, "however many calls a used-up expectation has refused, the next one answers");
        leak(m);
    }

    ok_refmut_refused (5) {
        let (hi, k): (usize, usize) = kani::any();
        kani::assume(hi < TOP / 2 && k < TOP / 2);
        let mut m = MockRefMutM::new();
        preset_refused(hi, k);
        m.expect_foo().times(..=hi).return_var(0u32);
        history!(hi, m.foo(0));
        refused!(k, m.foo(0));
        preset_calls(0);
        m.expect_foo().times(1).return_var(1u32);
        obl!(*m.foo(kani::any()) == 1, "however many calls a used-up expectation has refused, the next one answers");
        leak(m);
    }
    // ---- one expectation ------------------------------------------------------------------
    pan_self_single_nomatch (4) {
        let mut es = [any_e()];
        es[0].m = false;
        let mut m = MockOne::new();
        setup!(m.expect_foo(), es, return_const, m.foo(0));
        must_panic!("a single expectation that does not match: the call panics", m.foo(kani::any()));
    }
    pan_self_single_done (4) {
        let mut es = [any_e()];
        kani::assume(es[0].c == es[0].hi);
        let mut m = MockOne::new();
        setup!(m.expect_foo(), es, return_const, m.foo(0));
        must_panic!("a single used-up expectation: the call panics", m.foo(kani::any()));
    }
    pan_self_empty (4) {
        let m = MockOne::new();
        must_panic!("no expectation at all: the call panics", m.foo(kani::any()));
    }
    pan_static_empty (4) {
        must_panic!("no expectation at all: the static call panics", MockStat::foo(kani::any()));
    }
    pan_ref_empty (4) {
        let m = MockRefM::new();
        must_panic!("no expectation at all: the call panics (returning &T)", *m.foo(kani::any()));
    }
    pan_refmut_empty (4) {
        let mut m = MockRefMutM::new();
        must_panic!("no expectation at all: the call panics (returning &mut T)", *m.foo(kani::any()));
    }
    // ---- the other kinds of method, two expectations -----------------------------------------
    ok_mutself_select (4) {
        let mut es = [any_e(), any_e()];
        let mut m = MockMutM::new();
        selects!(m, es, m.expect_foo(), return_const, m.foo(0), m.foo(kani::any()));
        done(m);
    }
    pan_mutself_none (4) {
        let es = [any_e(), any_e()];
        kani::assume(pick(&es).is_none());
        let mut m = MockMutM::new();
        setup!(m.expect_foo(), es, return_const, m.foo(0));
        must_panic!("a call that no usable expectation matches panics (&mut self)", m.foo(kani::any()));
    }
    ok_own_select (4) {
        let (a, b): (bool, bool) = kani::any();
        kani::assume(a || b);
        let mut m = MockOwn::new();
        m.expect_foo().withf(cond(0, a)).return_const(0u32);
        m.expect_foo().withf(cond(1, b)).return_const(1u32);
        obl!(m.foo(kani::any()) == if a { 0 } else { 1 }, "the first matching expectation answers (self by value)");
    }
    ok_ref_select (4) {
        let mut es = [any_e(), any_e()];
        let mut m = MockRefM::new();
        selects!(m, es, m.expect_foo(), return_const, m.foo(0), *m.foo(kani::any()));
        done(m);
    }
    pan_ref_none (4) {
        let es = [any_e(), any_e()];
        kani::assume(pick(&es).is_none());
        let mut m = MockRefM::new();
        setup!(m.expect_foo(), es, return_const, m.foo(0));
        must_panic!("a call that no usable expectation matches panics (returning &T)", *m.foo(kani::any()));
    }
    ok_refmut_select (4) {
        let mut es = [any_e(), any_e()];
        let mut m = MockRefMutM::new();
        selects!(m, es, m.expect_foo(), return_var, m.foo(0), *m.foo(kani::any()));
        done(m);
    }
    pan_refmut_none (4) {
        let es = [any_e(), any_e()];
        kani::assume(pick(&es).is_none());
        let mut m = MockRefMutM::new();
        setup!(m.expect_foo(), es, return_var, m.foo(0));
        must_panic!("a call that no usable expectation matches panics (returning &mut T)", *m.foo(kani::any()));
    }
    ok_static_select (4) {
        let mut es = [any_e(), any_e()];
        let ctx = MockStat::foo_context();
        selects!(ctx, es, ctx.expect(), return_const, MockStat::foo(0), MockStat::foo(kani::any()));
        drop(ctx);
    }
    pan_static_none (4) {
        let es = [any_e(), any_e()];
        kani::assume(pick(&es).is_none());
        let ctx = MockStat::foo_context();
        setup!(ctx.expect(), es, return_const, MockStat::foo(0));
        must_panic!("a call that no usable expectation matches panics (static)", MockStat::foo(kani::any()));
    }
    // ---- a call that no condition accepts, per declaration shape (common/shapes.rs) ----
    t_pan_sh_rb_none (3) {
        use crate::sh::*;
        sh_none!({ Box::new(MockRx::new()) }, expect_rb, |a, b, k| sp(a, b, k), |m, x, y| m.rb(x, y));
    }
    t_pan_sh_bx_none (3) {
        use crate::sh::*;
        sh_none!(MockRx::new(), expect_bx, |a, b, k| sp(a, b, k), |m, x, y| Box::new(m).bx(x, y));
    }
    t_pan_sh_rc_none (3) {
        use crate::sh::*;
        sh_none!(MockRx::new(), expect_rc, |a, b, k| sp(a, b, k), |m, x, y| Rc::new(m).rc(x, y));
    }
    t_pan_sh_arc_none (3) {
        use crate::sh::*;
        sh_none!(MockRx::new(), expect_arc, |a, b, k| sp(a, b, k), |m, x, y| Arc::new(m).arc(x, y));
    }
    t_pan_sh_pb_none (3) {
        use crate::sh::*;
        sh_none!(MockRx::new(), expect_pb, |a, b, k| sp(a, b, k), |m, x, y| Box::pin(m).pb(x, y));
    }
    t_pan_sh_pm_none (3) {
        use crate::sh::*;
        sh_none!(MockRx::new(), expect_pm, |a, b, k| sp(a, b, k), |m, x, y| Pin::new(&mut m).pm(x, y));
    }
    t_pan_sh_pr_none (3) {
        use crate::sh::*;
        sh_none!(MockRx::new(), expect_pr, |a, b, k| sp(a, b, k), |m, x, y| Pin::new(&m).pr(x, y));
    }
    t_pan_sh_asy_none (3) {
        use crate::sh::*;
        sh_none!(MockAx::new(), expect_asy, |a, b, k| sp(a, b, k), |m, x, y| poll_once(m.asy(x, y)));
    }
    t_pan_sh_asm_none (3) {
        use crate::sh::*;
        sh_none!(MockAx::new(), expect_asm, |a, b, k| sp(a, b, k), |m, x, y| poll_once(m.asm(x, y)));
    }
    t_pan_sh_ass_none (3) {
        use crate::sh::*;
        sh_none!(MockAx::ass_context(), expect, |a, b, k| sp(a, b, k), |m, x, y| poll_once(MockAx::ass(x, y)));
    }
    t_pan_sh_fut_none (3) {
        use crate::sh::*;
        sh_none!(MockAx::new(), expect_fut, |a, b, k| Box::pin(std::future::ready(sp(a, b, k))), |m, x, y| poll_once(m.fut(x, y)));
    }
    t_pan_sh_bf_none (3) {
        use crate::sh::*;
        sh_none!(MockAx::new(), expect_bf, |a, b, k| Box::pin(std::future::ready(sp(a, b, k))), |m, x, y| poll_once(m.bf(x, y)));
    }
    t_pan_sh_imp_none (3) {
        use crate::sh::*;
        sh_none!(MockIx::new(), expect_imp, |a, b, k| Box::new(sp(a, b, k)), |m, x, y| m.imp(x, y).v());
    }
    t_pan_sh_it_none (3) {
        use crate::sh::*;
        sh_none!(MockIx::new(), expect_it, |a, b, k| Box::new(Some(sp(a, b, k)).into_iter()), |m, x, y| m.it(x, y).next().unwrap_or(0));
    }
    t_pan_sh_bxd_none (3) {
        use crate::sh::*;
        sh_none!(MockIx::new(), expect_bxd, |a, b, k| Box::new(sp(a, b, k)), |m, x, y| m.bxd(x, y).v());
    }
    t_pan_sh_rp_none (3) {
        use crate::sh::*;
        sh_none!(MockRp::new(), expect_rp, |a, b, k| Box::new(sp(a, b, k)), |m, x, y| m.rp(x, y).v());
    }
    t_pan_sh_anon_none (3) {
        use crate::sh::*;
        sh_none!(MockLx::new(), expect_anon, |a, b, k| br(sp(a, b, k)), |m, x, y| m.anon(x, y).0);
    }
    t_pan_sh_named_none (3) {
        use crate::sh::*;
        sh_none!(MockLx::new(), expect_named, |a, b, k| br(sp(a, b, k)), |m, x, y| m.named(x, y).0);
    }
    t_pan_sh_free_none (3) {
        use crate::sh::*;
        sh_none!(MockLx::new(), expect_free, |a, b, k| br(sp(a, b, k)), |m, x, y| m.free(x, y).0);
    }
    t_pan_sh_own_none (3) {
        use crate::sh::*;
        sh_none!(MockLx::new(), expect_own, |a, b, k| sp(a.0, b, k), |m, x, y| m.own(br(x), y));
    }
    t_pan_sh_stl_none (3) {
        use crate::sh::*;
        sh_none!(MockLx::stl_context(), expect, |a, b, k| sp(*a, b, k), |m, x, y| MockLx::stl(&x, y));
    }
    t_pan_sh_tanon_none (3) {
        use crate::sh::*;
        sh_none!(MockLt::new(), expect_tanon, |a, b, k| br(sp(a, b, k)), |m, x, y| m.tanon(x, y).0);
    }
    t_pan_sh_tfree_none (3) {
        use crate::sh::*;
        sh_none!(MockLt::new(), expect_tfree, |a, b, k| br(sp(a, b, k)), |m, x, y| m.tfree(x, y).0);
    }
    t_pan_sh_uns_none (3) {
        use crate::sh::*;
        sh_none!(MockUx::new(), expect_uns, |a, b, k| sp(a, b, k), |m, x, y| unsafe { m.uns(x, y) });
    }
    t_pan_sh_unst_none (3) {
        use crate::sh::*;
        sh_none!(MockUx::unst_context(), expect, |a, b, k| sp(a, b, k), |m, x, y| unsafe { MockUx::unst(x, y) });
    }
    t_pan_sh_ut_none (3) {
        use crate::sh::*;
        sh_none!(MockUt::new(), expect_ut, |a, b, k| sp(a, b, k), |m, x, y| m.ut(x, y));
    }
    t_pan_sh_num_none (3) {
        use crate::sh::*;
        sh_none!(MockSp::<u32>::new(), expect_num, |a, b, k| sp(a, b, k), |m, x, y| m.num(x, y));
    }
    t_pan_sh_sup_none (3) {
        use crate::sh::*;
        sh_none!(MockSu::new(), expect_sup, |a, b, k| sp(a, b, k), |m, x, y| m.sup(x, y));
    }
    t_pan_sh_wh_none (3) {
        use crate::sh::*;
        sh_none!(MockWh::<u32>::default(), expect_wh, |a, b, k| sp(a, b, k), |m, x, y| m.wh(x, y));
    }
    t_pan_sh_res_none (3) {
        use crate::sh::*;
        sh_none!(MockMk::new(), expect_res, |a, b, k| Ok(sp(a, b, k)), |m, x, y| m.res(x, y).unwrap_or(0));
    }
    t_pan_sh_drf_none (3) {
        use crate::sh::*;
        sh_none!(MockDr::new(), expect_drf, |a, b, k| sp(a, b, k), |m, x, y| m.drf(x, y));
    }
    t_pan_sh_raw_none (3) {
        use crate::sh::*;
        sh_none!(MockRaw::new(), expect_match, |a, b, k| sp(a, b, k), |m, x, y| m.r#match(x, y));
    }
    t_pan_sh_nondebug_none (3) {
        use crate::sh::*;
        sh_none!(MockRaw::new(), expect_nondebug, |a, b, k| sp(a.0, b, k), |m, x, y| m.nondebug(br(x), y));
    }
}
#[cfg(not(kani))]
pub fn run() { vh::kani::main(registry()) }
