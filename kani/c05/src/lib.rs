//! C05: the configured return action produces the return value, as often as configured.
//! Contracts of the generated `Rfunc::{default, call_mut}`, `Expectation::{call, returning,
//! returning_st, return_once, return_once_st, return_const, return_const_st}`,
//! `ExpectationGuard::{the same}`, `DefaultReturner::return_default`.
#![allow(unused)]
#[path = "../../common/vh.rs"]
#[macro_use]
mod vh;
#[path = "../../common/shapes.rs"]
#[macro_use]
mod sh;
use mockall::*;
use vh::*;

mock! { pub M { fn foo(&self, x: u32, y: u32) -> u32; } }
mock! { pub MutM { fn foo(&mut self, x: u32, y: u32) -> u32; } }
mock! { pub Own { fn foo(self, x: u32, y: u32) -> u32; } }
mock! { pub Stat { fn foo(x: u32, y: u32) -> u32; } }
mock! { pub Unit { fn foo(&self); } }
mock! { pub NC { fn foo(&self, x: u32) -> NonClone; } }
mock! { pub Rf { fn foo(&self) -> &u32; fn bar(&mut self, x: u32) -> &mut u32; } }
mock! { pub Res { fn foo(&self, x: u32) -> Result<u32, u8>; } }
mock! { pub St { fn foo(&self) -> &'static u32; } }
mock! { pub Bx { fn foo(&self, x: u32) -> Box<dyn Fn(u32) -> u32>; } }
mock! { pub A0 { fn foo(&self) -> u64; } }

#[derive(Debug, PartialEq)]
pub struct NonClone(u32);

fn spec(x: u32, y: u32, k: u32) -> u32 { x.wrapping_mul(3) ^ y.wrapping_add(k) }

harnesses! {
    // ---- closures --------------------------------------------------------------------
    ok_returning (4) {
        let v: [u32; 5] = kani::any();
        let k = v[4];
        let mut m = MockM::new();
        m.expect_foo().returning(move |x, y| spec(x, y, k));
        obl!(m.foo(v[0], v[1]) == spec(v[0], v[1], k), "returning: the closure's result on the call's arguments");
        obl!(m.foo(v[2], v[3]) == spec(v[2], v[3], k), "returning: the closure's result on the next call's arguments");
        done(m);
    }
    ok_returning_state (4) {
        let k: u32 = kani::any();
        let mut n = k;
        let mut m = MockM::new();
        m.expect_foo().returning(move |_, _| { n = n.wrapping_add(1); n });
        obl!(m.foo(0, 0) == k.wrapping_add(1), "returning: the closure runs exactly once per call (first)");
        obl!(m.foo(0, 0) == k.wrapping_add(2), "returning: the closure runs exactly once per call and keeps its state (second)");
        done(m);
    }
    ok_returning_st (4) {
        let v: [u32; 2] = kani::any();
        let k: u32 = kani::any();
        let mut n = k;
        let mut m = MockM::new();
        m.expect_foo().returning_st(move |x, y| { n = n.wrapping_add(1); spec(x, y, n) });
        obl!(m.foo(v[0], v[1]) == spec(v[0], v[1], k.wrapping_add(1)), "returning_st: the closure's result on the call's arguments");
        obl!(m.foo(v[1], v[0]) == spec(v[1], v[0], k.wrapping_add(2)), "returning_st: the closure keeps its state");
        done(m);
    }
    ok_return_const (4) {
        let (k, x): (u32, u32) = kani::any();
        let mut m = MockM::new();
        m.expect_foo().return_const(k);
        obl!(m.foo(x, kani::any()) == k, "return_const: the constant");
        obl!(m.foo(x, kani::any()) == k, "return_const: the constant again");
        done(m);
    }
    ok_return_const_into (4) {
        let k: u32 = kani::any();
        let mut m = MockA0::new();
        m.expect_foo().return_const(k);
        obl!(m.foo() == k as u64, "return_const: the constant, converted to the return type");
        done(m);
    }
    ok_return_const_st (4) {
        let (k, x): (u32, u32) = kani::any();
        let mut m = MockM::new();
        m.expect_foo().return_const_st(k);
        obl!(m.foo(x, kani::any()) == k, "return_const_st: the constant");
        obl!(m.foo(x, kani::any()) == k, "return_const_st: the constant again");
        done(m);
    }
    // ---- single use --------------------------------------------------------------------------
    ok_return_once (4) {
        let v: [u32; 3] = kani::any();
        let k = v[2];
        let mut m = MockM::new();
        m.expect_foo().return_once(move |x, y| spec(x, y, k));
        obl!(m.foo(v[0], v[1]) == spec(v[0], v[1], k), "return_once: the closure's result on the call's arguments");
        done(m);
    }
    pan_return_once_again (4) {
        let k: u32 = kani::any();
        let mut m = MockM::new();
        m.expect_foo().return_once(move |_, _| k);
        m.foo(0, 0);
        must_panic!("return_once: a second call panics", m.foo(kani::any(), kani::any()));
    }
    ok_return_once_st (4) {
        let v: [u32; 3] = kani::any();
        let k = v[2];
        let mut m = MockM::new();
        m.expect_foo().return_once_st(move |x, y| spec(x, y, k));
        obl!(m.foo(v[0], v[1]) == spec(v[0], v[1], k), "return_once_st: the closure's result on the call's arguments");
        done(m);
    }
    pan_return_once_st_again (4) {
        let k: u32 = kani::any();
        let mut m = MockM::new();
        m.expect_foo().return_once_st(move |_, _| k);
        m.foo(0, 0);
        must_panic!("return_once_st: a second call panics", m.foo(kani::any(), kani::any()));
    }
    ok_return_once_rearmed (4) {
        let (k, l): (u32, u32) = kani::any();
        let mut m = MockM::new();
        m.expect_foo().times(1).return_once(move |_, _| k);
        m.expect_foo().return_once(move |_, _| l);
        obl!(m.foo(0, 0) == k, "two single-use actions: the first call gets the first");
        obl!(m.foo(0, 0) == l, "two single-use actions: the second call gets the second");
        done(m);
    }
    ok_move_only (4) {
        let (k, x): (u32, u32) = kani::any();
        let nc = NonClone(k);
        let mut m = MockNC::new();
        m.expect_foo().return_once(move |_| nc);
        obl!(m.foo(x) == NonClone(k), "a move-only value is handed out");
        done(m);
    }
    // ---- none ----------------------------------------------------------------------------
    pan_none (4) {
        let mut m = MockM::new();
        let _ = m.expect_foo();
        must_panic!("no action: the call panics rather than invent a value", m.foo(kani::any(), kani::any()));
    }
    pan_none_unit (4) {
        let mut m = MockUnit::new();
        let _ = m.expect_foo();
        must_panic!("no action: the call panics (unit)", m.foo());
    }
    pan_none_static (4) {
        let ctx = MockStat::foo_context();
        let _ = ctx.expect();
        must_panic!("no action: the static call panics", MockStat::foo(kani::any(), kani::any()));
    }
    // ---- the last action replaces the earlier one, whatever the kinds ---------------------------
    ok_replace_mut (4) {
        let (a, b): (u32, u32) = kani::any();
        let k1: u8 = kani::any();
        kani::assume(k1 < 5);
        let mut m = MockM::new();
        let e = m.expect_foo();
        match k1 {
            0 => { e.returning(move |_, _| a); }
            1 => { e.returning_st(move |_, _| a); }
            2 => { e.return_once(move |_, _| a); }
            3 => { e.return_once_st(move |_, _| a); }
            _ => { e.return_const(a); }
        }
        e.returning(move |_, _| b);
        obl!(m.foo(0, 0) == b, "returning replaces any earlier action");
        done(m);
    }
    t_ok_replace_matrix (4) {
        // every earlier kind of action, used or not, and every later one
        let (a, b): (u32, u32) = kani::any();
        let (k1, k2): (u8, u8) = kani::any();
        let used: bool = kani::any();
        let mut m = MockM::new();
        macro_rules! act { ($e:expr, $k:expr, $v:expr) => { match $k % 6 {
            0 => { $e.returning(move |_, _| $v); }
            1 => { $e.returning_st(move |_, _| $v); }
            2 => { $e.return_once(move |_, _| $v); }
            3 => { $e.return_once_st(move |_, _| $v); }
            4 => { $e.return_const($v); }
            _ => { $e.return_const_st($v); }
        } } }
        let e = m.expect_foo();
        act!(e, k1, a);
        if used { obl!(e.call(0, 0) == a, "the action configured so far"); }
        act!(e, k2, b);
        obl!(e.call(0, 0) == b, "the last configured action counts, whatever the kinds");
        done(m);
    }
    ok_replace_ref (4) {
        let (a, b): (u32, u32) = kani::any();
        let mut m = MockRf::new();
        m.expect_foo().return_const(a).return_const(b);
        obl!(*m.foo() == b, "return_const replaces return_const (shared reference)");
        done(m);
    }
    ok_replace_refmut (4) {
        let (a, b): (u32, u32) = kani::any();
        let (k1, k2): (u8, u8) = kani::any();
        kani::assume(k1 < 3 && k2 < 3);
        let mut m = MockRf::new();
        macro_rules! act { ($e:expr, $k:expr, $v:expr) => { match $k {
            0 => { $e.returning(move |_| $v); }
            1 => { $e.returning_st(move |_| $v); }
            _ => { $e.return_var($v); }
        } } }
        let e = m.expect_bar();
        act!(e, k1, a);
        act!(e, k2, b);
        obl!(*m.bar(0) == b, "the last configured action counts, whatever the kinds (mutable reference)");
        done(m);
    }
    ok_replace_st (4) {
        let (a, b): (u32, u32) = kani::any();
        let mut m = MockM::new();
        m.expect_foo().returning(move |_, _| a).returning_st(move |_, _| b);
        obl!(m.foo(0, 0) == b, "returning_st replaces returning");
        done(m);
    }
    ok_replace_once (4) {
        let (a, b): (u32, u32) = kani::any();
        let mut m = MockM::new();
        m.expect_foo().returning(move |_, _| a).return_once(move |_, _| b);
        obl!(m.foo(0, 0) == b, "return_once replaces returning");
        done(m);
    }
    ok_replace_once_st (4) {
        let (a, b): (u32, u32) = kani::any();
        let mut m = MockM::new();
        m.expect_foo().return_once(move |_, _| a).return_once_st(move |_, _| b);
        obl!(m.foo(0, 0) == b, "return_once_st replaces return_once");
        done(m);
    }
    ok_replace_const (4) {
        let (a, b): (u32, u32) = kani::any();
        let mut m = MockM::new();
        m.expect_foo().return_once(move |_, _| a).return_const(b);
        obl!(m.foo(0, 0) == b, "return_const replaces return_once");
        obl!(m.foo(0, 0) == b, "and is not single-use");
        done(m);
    }
    ok_replace_const_st (4) {
        let (a, b): (u32, u32) = kani::any();
        let mut m = MockM::new();
        m.expect_foo().returning(move |_, _| a).return_const_st(b);
        obl!(m.foo(0, 0) == b, "return_const_st replaces returning");
        done(m);
    }
    ok_order_of_config (4) {
        let b: u32 = kani::any();
        let mut m = MockM::new();
        m.expect_foo().returning(move |_, _| b).times(1..3).withf(|_, _| true);
        obl!(m.foo(0, 0) == b, "an action survives what is configured after it");
    }
    // ---- other kinds of method ----------------------------------------------------------------
    ok_mutself (4) {
        let v: [u32; 3] = kani::any();
        let k = v[2];
        let mut m = MockMutM::new();
        m.expect_foo().returning(move |x, y| spec(x, y, k));
        obl!(m.foo(v[0], v[1]) == spec(v[0], v[1], k), "returning on a &mut self method");
        done(m);
    }
    ok_own (4) {
        let v: [u32; 3] = kani::any();
        let k = v[2];
        let mut m = MockOwn::new();
        m.expect_foo().return_once(move |x, y| spec(x, y, k));
        obl!(m.foo(v[0], v[1]) == spec(v[0], v[1], k), "return_once on a by-value method");
    }
    ok_result (4) {
        let r: (bool, u32) = kani::any();
        let e: u8 = kani::any();
        let want = if r.0 { Ok(r.1) } else { Err(e) };
        let mut m = MockRes::new();
        m.expect_foo().return_const(want);
        obl!(m.foo(kani::any()) == want, "a Result is handed out as configured, errors included");
        done(m);
    }
    ok_unit (4) {
        let mut m = MockUnit::new();
        m.expect_foo().times(2).return_const(());
        m.foo();
        m.foo();
    }
    ok_static_ref (4) {
        static K: u32 = 71;
        let mut m = MockSt::new();
        m.expect_foo().return_const(&K);
        obl!(core::ptr::eq(m.foo(), &K), "a 'static reference is handed out as configured");
        done(m);
    }
    // ---- static methods: every action through the guard ------------------------------------------
    ok_stat_returning (4) {
        let v: [u32; 3] = kani::any();
        let k = v[2];
        let ctx = MockStat::foo_context();
        ctx.expect().returning(move |x, y| spec(x, y, k));
        obl!(MockStat::foo(v[0], v[1]) == spec(v[0], v[1], k), "returning on a static method");
        obl!(MockStat::foo(v[1], v[0]) == spec(v[1], v[0], k), "returning on a static method, again");
        done(ctx);
    }
    ok_stat_returning_st (4) {
        let v: [u32; 3] = kani::any();
        let k = v[2];
        let ctx = MockStat::foo_context();
        ctx.expect().returning_st(move |x, y| spec(x, y, k));
        obl!(MockStat::foo(v[0], v[1]) == spec(v[0], v[1], k), "returning_st on a static method");
        obl!(MockStat::foo(v[1], v[0]) == spec(v[1], v[0], k), "returning_st on a static method, again");
        done(ctx);
    }
    ok_stat_return_once (4) {
        let v: [u32; 3] = kani::any();
        let k = v[2];
        let ctx = MockStat::foo_context();
        ctx.expect().return_once(move |x, y| spec(x, y, k));
        obl!(MockStat::foo(v[0], v[1]) == spec(v[0], v[1], k), "return_once on a static method");
        done(ctx);
    }
    ok_stat_return_once_st (4) {
        let v: [u32; 3] = kani::any();
        let k = v[2];
        let ctx = MockStat::foo_context();
        ctx.expect().return_once_st(move |x, y| spec(x, y, k));
        obl!(MockStat::foo(v[0], v[1]) == spec(v[0], v[1], k), "return_once_st on a static method");
        done(ctx);
    }
    pan_stat_return_once_again (4) {
        let st: u32 = kani::any();
        let ctx = MockStat::foo_context();
        ctx.expect().return_once(move |_, _| st);
        MockStat::foo(0, 0);
        must_panic!("return_once on a static method: a second call panics", MockStat::foo(kani::any(), kani::any()));
    }
    pan_stat_return_once_st_again (4) {
        let st: u32 = kani::any();
        let ctx = MockStat::foo_context();
        ctx.expect().return_once_st(move |_, _| st);
        MockStat::foo(0, 0);
        must_panic!("return_once_st on a static method: a second call panics", MockStat::foo(kani::any(), kani::any()));
    }
    ok_stat_return_const (4) {
        let k: u32 = kani::any();
        let ctx = MockStat::foo_context();
        ctx.expect().return_const(k);
        obl!(MockStat::foo(kani::any(), kani::any()) == k, "return_const on a static method");
        obl!(MockStat::foo(kani::any(), kani::any()) == k, "return_const on a static method, again");
        done(ctx);
    }
    ok_stat_return_const_st (4) {
        let k: u32 = kani::any();
        let ctx = MockStat::foo_context();
        ctx.expect().return_const_st(k);
        obl!(MockStat::foo(kani::any(), kani::any()) == k, "return_const_st on a static method");
        obl!(MockStat::foo(kani::any(), kani::any()) == k, "return_const_st on a static method, again");
        done(ctx);
    }
    ok_stat_second_guard (4) {
        let (a, b): (u32, u32) = kani::any();
        let ctx = MockStat::foo_context();
        ctx.expect().times(1).return_const(a);
        ctx.expect().return_const(b);
        obl!(MockStat::foo(0, 0) == a, "each guard configures its own expectation (first)");
        obl!(MockStat::foo(0, 0) == b, "each guard configures its own expectation (second)");
        done(ctx);
    }
    // ---- the answer of an accepted call, per declaration shape (common/shapes.rs) ----
    t_ok_sh_rb (3) {
        use crate::sh::*;
        sh_ok!({ Box::new(MockRx::new()) }, expect_rb, |a, b, k| sp(a, b, k), |m, x, y| m.rb(x, y));
    }
    ok_sh_bx (3) {
        use crate::sh::*;
        sh_ok!(MockRx::new(), expect_bx, |a, b, k| sp(a, b, k), |m, x, y| Box::new(m).bx(x, y));
    }
    t_ok_sh_rc (3) {
        use crate::sh::*;
        sh_ok!(MockRx::new(), expect_rc, |a, b, k| sp(a, b, k), |m, x, y| Rc::new(m).rc(x, y));
    }
    t_ok_sh_arc (3) {
        use crate::sh::*;
        sh_ok!(MockRx::new(), expect_arc, |a, b, k| sp(a, b, k), |m, x, y| Arc::new(m).arc(x, y));
    }
    t_ok_sh_pb (3) {
        use crate::sh::*;
        sh_ok!(MockRx::new(), expect_pb, |a, b, k| sp(a, b, k), |m, x, y| Box::pin(m).pb(x, y));
    }
    ok_sh_pm (3) {
        use crate::sh::*;
        sh_ok!(MockRx::new(), expect_pm, |a, b, k| sp(a, b, k), |m, x, y| Pin::new(&mut m).pm(x, y));
    }
    t_ok_sh_pr (3) {
        use crate::sh::*;
        sh_ok!(MockRx::new(), expect_pr, |a, b, k| sp(a, b, k), |m, x, y| Pin::new(&m).pr(x, y));
    }
    ok_sh_asy (3) {
        use crate::sh::*;
        sh_ok!(MockAx::new(), expect_asy, |a, b, k| sp(a, b, k), |m, x, y| poll_once(m.asy(x, y)));
    }
    t_ok_sh_asm (3) {
        use crate::sh::*;
        sh_ok!(MockAx::new(), expect_asm, |a, b, k| sp(a, b, k), |m, x, y| poll_once(m.asm(x, y)));
    }
    ok_sh_ass (3) {
        use crate::sh::*;
        sh_ok!(MockAx::ass_context(), expect, |a, b, k| sp(a, b, k), |m, x, y| poll_once(MockAx::ass(x, y)));
    }
    t_ok_sh_fut (3) {
        use crate::sh::*;
        sh_ok!(MockAx::new(), expect_fut, |a, b, k| Box::pin(std::future::ready(sp(a, b, k))), |m, x, y| poll_once(m.fut(x, y)));
    }
    t_ok_sh_bf (3) {
        use crate::sh::*;
        sh_ok!(MockAx::new(), expect_bf, |a, b, k| Box::pin(std::future::ready(sp(a, b, k))), |m, x, y| poll_once(m.bf(x, y)));
    }
    ok_sh_imp (3) {
        use crate::sh::*;
        sh_ok!(MockIx::new(), expect_imp, |a, b, k| Box::new(sp(a, b, k)), |m, x, y| m.imp(x, y).v());
    }
    t_ok_sh_it (3) {
        use crate::sh::*;
        sh_ok!(MockIx::new(), expect_it, |a, b, k| Box::new(Some(sp(a, b, k)).into_iter()), |m, x, y| m.it(x, y).next().unwrap_or(0));
    }
    t_ok_sh_bxd (3) {
        use crate::sh::*;
        sh_ok!(MockIx::new(), expect_bxd, |a, b, k| Box::new(sp(a, b, k)), |m, x, y| m.bxd(x, y).v());
    }
    t_ok_sh_rp (3) {
        use crate::sh::*;
        sh_ok!(MockRp::new(), expect_rp, |a, b, k| Box::new(sp(a, b, k)), |m, x, y| m.rp(x, y).v());
    }
    t_ok_sh_anon (3) {
        use crate::sh::*;
        sh_ok!(MockLx::new(), expect_anon, |a, b, k| br(sp(a, b, k)), |m, x, y| m.anon(x, y).0);
    }
    ok_sh_named (3) {
        use crate::sh::*;
        sh_ok!(MockLx::new(), expect_named, |a, b, k| br(sp(a, b, k)), |m, x, y| m.named(x, y).0);
    }
    t_ok_sh_free (3) {
        use crate::sh::*;
        sh_ok!(MockLx::new(), expect_free, |a, b, k| br(sp(a, b, k)), |m, x, y| m.free(x, y).0);
    }
    t_ok_sh_own (3) {
        use crate::sh::*;
        sh_ok!(MockLx::new(), expect_own, |a, b, k| sp(a.0, b, k), |m, x, y| m.own(br(x), y));
    }
    ok_sh_stl (3) {
        use crate::sh::*;
        sh_ok!(MockLx::stl_context(), expect, |a, b, k| sp(*a, b, k), |m, x, y| MockLx::stl(&x, y));
    }
    t_ok_sh_tanon (3) {
        use crate::sh::*;
        sh_ok!(MockLt::new(), expect_tanon, |a, b, k| br(sp(a, b, k)), |m, x, y| m.tanon(x, y).0);
    }
    t_ok_sh_tfree (3) {
        use crate::sh::*;
        sh_ok!(MockLt::new(), expect_tfree, |a, b, k| br(sp(a, b, k)), |m, x, y| m.tfree(x, y).0);
    }
    ok_sh_uns (3) {
        use crate::sh::*;
        sh_ok!(MockUx::new(), expect_uns, |a, b, k| sp(a, b, k), |m, x, y| unsafe { m.uns(x, y) });
    }
    t_ok_sh_extc (3) {
        use crate::sh::*;
        sh_ok!(MockUx::new(), expect_extc, |a, b, k| sp(a, b, k), |m, x, y| m.extc(x, y));
    }
    t_ok_sh_unst (3) {
        use crate::sh::*;
        sh_ok!(MockUx::unst_context(), expect, |a, b, k| sp(a, b, k), |m, x, y| unsafe { MockUx::unst(x, y) });
    }
    t_ok_sh_ut (3) {
        use crate::sh::*;
        sh_ok!(MockUt::new(), expect_ut, |a, b, k| sp(a, b, k), |m, x, y| m.ut(x, y));
    }
    ok_sh_num (3) {
        use crate::sh::*;
        sh_ok!(MockSp::<u32>::new(), expect_num, |a, b, k| sp(a, b, k), |m, x, y| m.num(x, y));
    }
    t_ok_sh_sup (3) {
        use crate::sh::*;
        sh_ok!(MockSu::new(), expect_sup, |a, b, k| sp(a, b, k), |m, x, y| m.sup(x, y));
    }
    ok_sh_wh (3) {
        use crate::sh::*;
        sh_ok!(MockWh::<u32>::default(), expect_wh, |a, b, k| sp(a, b, k), |m, x, y| m.wh(x, y));
    }
    t_ok_sh_res (3) {
        use crate::sh::*;
        sh_ok!(MockMk::new(), expect_res, |a, b, k| Ok(sp(a, b, k)), |m, x, y| m.res(x, y).unwrap_or(0));
    }
    t_ok_sh_drf (3) {
        use crate::sh::*;
        sh_ok!(MockDr::new(), expect_drf, |a, b, k| sp(a, b, k), |m, x, y| m.drf(x, y));
    }
    t_ok_sh_raw (3) {
        use crate::sh::*;
        sh_ok!(MockRaw::new(), expect_match, |a, b, k| sp(a, b, k), |m, x, y| m.r#match(x, y));
    }
    t_ok_sh_nondebug (3) {
        use crate::sh::*;
        sh_ok!(MockRaw::new(), expect_nondebug, |a, b, k| sp(a.0, b, k), |m, x, y| m.nondebug(br(x), y));
    }
}
#[cfg(not(kani))]
pub fn run() { vh::kani::main(registry()) }
