//! C14: concurrent calls are all counted.
//! Contracts, under interference, of `Times::{call, count, is_done, is_satisfied}`,
//! of the generated `Common::call`, `Expectation::call`, `Expectations::call` and the mock
//! methods.  See conc.rs for the rely and the guarantee.
#![allow(unused)]
#![recursion_limit = "1024"]
#[path = "../../common/vh.rs"]
#[macro_use]
mod vh;
#[path = "../../common/conc.rs"]
#[macro_use]
mod conc;
use mockall::*;
use vh::*;

const TOP: usize = usize::MAX - 2;

/// Override of the harness macro: the operations of AtomicUsize are stubbed too.
#[cfg(kani)]
macro_rules! one {
    ($name:ident $u:literal $body:block) => {
        #[kani::proof]
        #[kani::stub(alloc::fmt::format, crate::vh::fmt_stub)]
        #[kani::stub(std::sync::Mutex::lock, crate::vh::lock_stub)]
        #[kani::stub(std::thread::panicking, crate::vh::panicking_stub)]
        #[kani::stub(std::hash::RandomState::new, crate::vh::rs_stub)]
        #[kani::stub(<std::hash::DefaultHasher as std::hash::Hasher>::write, crate::vh::hw_stub)]
        #[kani::stub(<std::hash::DefaultHasher as std::hash::Hasher>::finish, crate::vh::hf_stub)]
        #[kani::stub(core::sync::atomic::Atomic::<usize>::load, crate::conc::g::load)]
        #[kani::stub(core::sync::atomic::Atomic::<usize>::store, crate::conc::g::store)]
        #[kani::stub(core::sync::atomic::Atomic::<usize>::swap, crate::conc::g::swap)]
        #[kani::stub(core::sync::atomic::Atomic::<usize>::fetch_add, crate::conc::g::fetch_add)]
        #[kani::stub(core::sync::atomic::Atomic::<usize>::fetch_sub, crate::conc::g::fetch_sub)]
        #[kani::stub(core::sync::atomic::Atomic::<usize>::fetch_max, crate::conc::g::fetch_max)]
        #[kani::stub(core::sync::atomic::Atomic::<usize>::fetch_min, crate::conc::g::fetch_min)]
        #[kani::stub(core::sync::atomic::Atomic::<usize>::compare_exchange, crate::conc::g::cas)]
        #[kani::stub(core::sync::atomic::Atomic::<usize>::compare_exchange_weak, crate::conc::g::cas_weak)]
        #[kani::unwind($u)]
        pub fn $name() {
            let _: () = $body;
            kani::cover!(true, "END");
        }
    };
}

pub trait Tr { fn tm(&self, x: u32) -> u32; }
mock! { pub A { fn s(&self, x: u32) -> u32; fn rr(&self, x: u32) -> &u32; fn sr(&self, x: u32) -> &'static u32;
                #[mockall::concretize] fn cc<P: AsRef<[u8]>>(&self, x: P) -> u32; } }
mock! { pub St { fn foo(x: u32) -> u32; } }
mock! { pub T { } impl Tr for T { fn tm(&self, x: u32) -> u32; } }
#[automock] pub mod mo { pub fn f(x: u32) -> u32 { x } }
pub struct Im;
#[automock] impl Im { pub fn foo(&self, x: u32) -> u32 { x } }
static K: u32 = 7;

harnesses! {
    // ---- Times itself ------------------------------------------------------------------
    ok_times_call (8) {
        let (lo, hi, c): (usize, usize, usize) = kani::any();
        kani::assume(lo <= hi && hi < TOP && c < TOP);
        preset_calls(c);
        let mut t = Times::default();
        #[cfg(kani)]
        {
            conc::learn(|| t.times(lo..=hi));
            conc::start(hi, TOP - 1, 0);
            let r = t.call();
            let ok = r.is_ok();
            core::mem::forget(r);
            let s = conc::g::s();
            obl!(!s.odd && s.own == 1, "a call moves the counter by exactly one, in one atomic step");
            obl!(ok == (s.pos <= hi), "a call is accepted iff the number it claims does not exceed the maximum");
            conc::stop();
            let n = c + s.env + 1;
            obl!(t.count() == n, "no call of any thread is lost");
            let before = if c < hi { c } else { hi };
            obl!(before + s.acc + ok as usize == if n < hi { n } else { hi }, "as many calls are accepted as the maximum permits, no more, whatever the interleaving");
            obl!((t.is_satisfied() == ExpectedCalls::TooFew) == (n < lo), "what is verified is the true number of calls");
            obl!(t.is_done() == (n >= hi), "is_done reflects the true number of calls");
        }
        #[cfg(not(kani))]
        {
            kani::assume(c == 0 && hi < 3000);
            t.times(lo..=hi);
            let (n, ok) = conc::stress(&|| t.call().is_ok());
            obl!(t.count() == n, "no call of any thread is lost");
            obl!(ok == n.min(hi), "as many calls are accepted as the maximum permits, no more, whatever the interleaving");
            obl!((t.is_satisfied() == ExpectedCalls::TooFew) == (n < lo), "what is verified is the true number of calls");
        }
    }
    // The observers do not move the counter, and what they say was or is true.
    ok_times_observe (8) {
        let (lo, hi, c): (usize, usize, usize) = kani::any();
        kani::assume(lo <= hi && hi < TOP && c < TOP);
        preset_calls(c);
        let mut t = Times::default();
        #[cfg(kani)]
        {
            conc::learn(|| t.times(lo..=hi));
            conc::start(hi, TOP - 1, 0);
            let s = conc::g::s();
            let n = t.count();
            obl!(n >= c && n <= conc::now(), "count is a number of calls reached meanwhile");
            let c1 = conc::now();
            let d = t.is_done();
            if d { obl!(conc::now() >= hi, "is_done: the maximum has been reached, and stays reached") }
            else { obl!(c1 < hi, "not is_done: the maximum was not reached at the beginning") }
            let c2 = conc::now();
            let x = t.is_satisfied();
            if x == ExpectedCalls::TooFew { obl!(c2 < lo, "TooFew: the minimum was not reached at the beginning") }
            else { obl!(conc::now() >= lo, "not TooFew: the minimum has been reached, and stays reached") }
            obl!(s.own == 0, "observing does not count");
            let n = conc::stop();
            obl!(t.count() == n, "observing loses no call");
        }
    }
    // ---- &self ----
    ok_self_room (4) {
        let (lo, hi, c): (usize, usize, usize) = kani::any();
        let x: u32 = kani::any();
        kani::assume(lo <= hi && hi < TOP && c < hi);
        #[cfg(kani)]
        {
            preset_calls(c);
            let mut m = MockA::new();
            conc::learn(|| { m.expect_s().times(lo..=hi).return_const(7u32); });
            conc::start(hi, hi - 1, 0);
            let r = m.s(x);
            let s = conc::g::s();
            obl!(r == 7, "a call is answered as long as other threads leave it room (&self)");
            obl!(!s.odd && s.own == 1, "a call counts exactly once, whatever other threads do (&self)");
            let n = conc::stop();
            kani::assume(n >= lo);
            drop(m);    // the true number of calls is verified
        }
        #[cfg(not(kani))]
        {
            kani::assume(c == 0 && hi < 3000);
            let mut m = MockA::new();
            m.expect_s().times(lo..=hi).return_const(7u32);
            let (n, ok) = conc::stress(&|| m.s(x) == 7);
            obl!(ok == n.min(hi), "as many calls are accepted as the maximum permits, whatever the interleaving (&self)");
            if n < lo || n > hi { must_panic!("the destruction verifies the true number of calls of all threads (&self)", drop(m)); }
            else { drop(m); }
        }
    }
    pan_self_overtaken (4) {
        let (lo, hi, c): (usize, usize, usize) = kani::any();
        let x: u32 = kani::any();
        kani::assume(lo <= hi && hi < TOP - 8 && c <= hi);
        #[cfg(kani)]
        {
            preset_calls(c);
            let mut m = MockA::new();
            conc::learn(|| { m.expect_s().times(lo..=hi).return_const(7u32); });
            conc::start(hi, TOP - 1, hi - c);
            must_panic!("a call overtaken by other threads' calls up to the maximum panics (&self)", m.s(x));
        }
        #[cfg(not(kani))]
        {
            kani::assume(c == 0 && hi < 50);
            let mut m = MockA::new();
            m.expect_s().times(lo..=hi).return_const(7u32);
            let (n, ok) = conc::stress(&|| m.s(x) == 7);
            obl!(ok <= hi, "no more calls are accepted than the maximum, whatever the interleaving (&self)");
            if n < lo || n > hi { must_panic!("the destruction verifies the true number of calls of all threads (&self)", drop(m)); }
            else { drop(m); }
        }
    }
    pan_self_verified (4) {
        let (lo, hi, c): (usize, usize, usize) = kani::any();
        let x: u32 = kani::any();
        kani::assume(lo <= hi && hi < TOP && c < hi);
        #[cfg(kani)]
        {
            preset_calls(c);
            let mut m = MockA::new();
            conc::learn(|| { m.expect_s().times(lo..=hi).return_const(7u32); });
            conc::start(hi, hi - 1, 0);
            let r = m.s(x);
            let s = conc::g::s();
            let n = conc::stop();
            kani::assume(n < lo);
            must_panic!("the destruction verifies the true number of calls of all threads (&self)", drop(m));
        }
        #[cfg(not(kani))]
        {
            kani::assume(c == 0 && lo > 0 && hi < 3000);
            let mut m = MockA::new();
            m.expect_s().times(lo..=hi).return_const(7u32);
            let (n, ok) = conc::stress(&|| m.s(x) == 7);
            obl!(ok == n.min(hi), "as many calls are accepted as the maximum permits, whatever the interleaving (&self)");
            if n < lo || n > hi { must_panic!("the destruction verifies the true number of calls of all threads (&self)", drop(m)); }
            else { drop(m); }
        }
    }
    // ---- &self, closure ----
    t_ok_selfret_room (4) {
        let (lo, hi, c): (usize, usize, usize) = kani::any();
        let x: u32 = kani::any();
        kani::assume(lo <= hi && hi < TOP && c < hi);
        #[cfg(kani)]
        {
            preset_calls(c);
            let mut m = MockA::new();
            conc::learn(|| { m.expect_s().times(lo..=hi).returning(|_| 7u32); });
            conc::start(hi, hi - 1, 0);
            let r = m.s(x);
            let s = conc::g::s();
            obl!(r == 7, "a call is answered as long as other threads leave it room (&self, closure)");
            obl!(!s.odd && s.own == 1, "a call counts exactly once, whatever other threads do (&self, closure)");
            let n = conc::stop();
            kani::assume(n >= lo);
            drop(m);    // the true number of calls is verified
        }
        #[cfg(not(kani))]
        {
            kani::assume(c == 0 && hi < 3000);
            let mut m = MockA::new();
            m.expect_s().times(lo..=hi).returning(|_| 7u32);
            let (n, ok) = conc::stress(&|| m.s(x) == 7);
            obl!(ok == n.min(hi), "as many calls are accepted as the maximum permits, whatever the interleaving (&self, closure)");
            if n < lo || n > hi { must_panic!("the destruction verifies the true number of calls of all threads (&self, closure)", drop(m)); }
            else { drop(m); }
        }
    }
    pan_selfret_overtaken (4) {
        let (lo, hi, c): (usize, usize, usize) = kani::any();
        let x: u32 = kani::any();
        kani::assume(lo <= hi && hi < TOP - 8 && c <= hi);
        #[cfg(kani)]
        {
            preset_calls(c);
            let mut m = MockA::new();
            conc::learn(|| { m.expect_s().times(lo..=hi).returning(|_| 7u32); });
            conc::start(hi, TOP - 1, hi - c);
            must_panic!("a call overtaken by other threads' calls up to the maximum panics (&self, closure)", m.s(x));
        }
        #[cfg(not(kani))]
        {
            kani::assume(c == 0 && hi < 50);
            let mut m = MockA::new();
            m.expect_s().times(lo..=hi).returning(|_| 7u32);
            let (n, ok) = conc::stress(&|| m.s(x) == 7);
            obl!(ok <= hi, "no more calls are accepted than the maximum, whatever the interleaving (&self, closure)");
            if n < lo || n > hi { must_panic!("the destruction verifies the true number of calls of all threads (&self, closure)", drop(m)); }
            else { drop(m); }
        }
    }
    // ---- &self, returning a reference ----
    ok_ref_room (4) {
        let (lo, hi, c): (usize, usize, usize) = kani::any();
        let x: u32 = kani::any();
        kani::assume(lo <= hi && hi < TOP && c < hi);
        #[cfg(kani)]
        {
            preset_calls(c);
            let mut m = MockA::new();
            conc::learn(|| { m.expect_rr().times(lo..=hi).return_const(7u32); });
            conc::start(hi, hi - 1, 0);
            let r = *m.rr(x);
            let s = conc::g::s();
            obl!(r == 7, "a call is answered as long as other threads leave it room (&self, returning a reference)");
            obl!(!s.odd && s.own == 1, "a call counts exactly once, whatever other threads do (&self, returning a reference)");
            let n = conc::stop();
            kani::assume(n >= lo);
            drop(m);    // the true number of calls is verified
        }
        #[cfg(not(kani))]
        {
            kani::assume(c == 0 && hi < 3000);
            let mut m = MockA::new();
            m.expect_rr().times(lo..=hi).return_const(7u32);
            let (n, ok) = conc::stress(&|| *m.rr(x) == 7);
            obl!(ok == n.min(hi), "as many calls are accepted as the maximum permits, whatever the interleaving (&self, returning a reference)");
            if n < lo || n > hi { must_panic!("the destruction verifies the true number of calls of all threads (&self, returning a reference)", drop(m)); }
            else { drop(m); }
        }
    }
    pan_ref_overtaken (4) {
        let (lo, hi, c): (usize, usize, usize) = kani::any();
        let x: u32 = kani::any();
        kani::assume(lo <= hi && hi < TOP - 8 && c <= hi);
        #[cfg(kani)]
        {
            preset_calls(c);
            let mut m = MockA::new();
            conc::learn(|| { m.expect_rr().times(lo..=hi).return_const(7u32); });
            conc::start(hi, TOP - 1, hi - c);
            must_panic!("a call overtaken by other threads' calls up to the maximum panics (&self, returning a reference)", *m.rr(x));
        }
        #[cfg(not(kani))]
        {
            kani::assume(c == 0 && hi < 50);
            let mut m = MockA::new();
            m.expect_rr().times(lo..=hi).return_const(7u32);
            let (n, ok) = conc::stress(&|| *m.rr(x) == 7);
            obl!(ok <= hi, "no more calls are accepted than the maximum, whatever the interleaving (&self, returning a reference)");
            if n < lo || n > hi { must_panic!("the destruction verifies the true number of calls of all threads (&self, returning a reference)", drop(m)); }
            else { drop(m); }
        }
    }
    t_pan_ref_verified (4) {
        let (lo, hi, c): (usize, usize, usize) = kani::any();
        let x: u32 = kani::any();
        kani::assume(lo <= hi && hi < TOP && c < hi);
        #[cfg(kani)]
        {
            preset_calls(c);
            let mut m = MockA::new();
            conc::learn(|| { m.expect_rr().times(lo..=hi).return_const(7u32); });
            conc::start(hi, hi - 1, 0);
            let r = *m.rr(x);
            let s = conc::g::s();
            let n = conc::stop();
            kani::assume(n < lo);
            must_panic!("the destruction verifies the true number of calls of all threads (&self, returning a reference)", drop(m));
        }
        #[cfg(not(kani))]
        {
            kani::assume(c == 0 && lo > 0 && hi < 3000);
            let mut m = MockA::new();
            m.expect_rr().times(lo..=hi).return_const(7u32);
            let (n, ok) = conc::stress(&|| *m.rr(x) == 7);
            obl!(ok == n.min(hi), "as many calls are accepted as the maximum permits, whatever the interleaving (&self, returning a reference)");
            if n < lo || n > hi { must_panic!("the destruction verifies the true number of calls of all threads (&self, returning a reference)", drop(m)); }
            else { drop(m); }
        }
    }
    // ---- &self, returning a 'static reference ----
    t_ok_sref_room (4) {
        let (lo, hi, c): (usize, usize, usize) = kani::any();
        let x: u32 = kani::any();
        kani::assume(lo <= hi && hi < TOP && c < hi);
        #[cfg(kani)]
        {
            preset_calls(c);
            let mut m = MockA::new();
            conc::learn(|| { m.expect_sr().times(lo..=hi).return_const(&K); });
            conc::start(hi, hi - 1, 0);
            let r = *m.sr(x);
            let s = conc::g::s();
            obl!(r == 7, "a call is answered as long as other threads leave it room (&self, returning a 'static reference)");
            obl!(!s.odd && s.own == 1, "a call counts exactly once, whatever other threads do (&self, returning a 'static reference)");
            let n = conc::stop();
            kani::assume(n >= lo);
            drop(m);    // the true number of calls is verified
        }
        #[cfg(not(kani))]
        {
            kani::assume(c == 0 && hi < 3000);
            let mut m = MockA::new();
            m.expect_sr().times(lo..=hi).return_const(&K);
            let (n, ok) = conc::stress(&|| *m.sr(x) == 7);
            obl!(ok == n.min(hi), "as many calls are accepted as the maximum permits, whatever the interleaving (&self, returning a 'static reference)");
            if n < lo || n > hi { must_panic!("the destruction verifies the true number of calls of all threads (&self, returning a 'static reference)", drop(m)); }
            else { drop(m); }
        }
    }
    pan_sref_overtaken (4) {
        let (lo, hi, c): (usize, usize, usize) = kani::any();
        let x: u32 = kani::any();
        kani::assume(lo <= hi && hi < TOP - 8 && c <= hi);
        #[cfg(kani)]
        {
            preset_calls(c);
            let mut m = MockA::new();
            conc::learn(|| { m.expect_sr().times(lo..=hi).return_const(&K); });
            conc::start(hi, TOP - 1, hi - c);
            must_panic!("a call overtaken by other threads' calls up to the maximum panics (&self, returning a 'static reference)", *m.sr(x));
        }
        #[cfg(not(kani))]
        {
            kani::assume(c == 0 && hi < 50);
            let mut m = MockA::new();
            m.expect_sr().times(lo..=hi).return_const(&K);
            let (n, ok) = conc::stress(&|| *m.sr(x) == 7);
            obl!(ok <= hi, "no more calls are accepted than the maximum, whatever the interleaving (&self, returning a 'static reference)");
            if n < lo || n > hi { must_panic!("the destruction verifies the true number of calls of all threads (&self, returning a 'static reference)", drop(m)); }
            else { drop(m); }
        }
    }
    t_pan_sref_verified (4) {
        let (lo, hi, c): (usize, usize, usize) = kani::any();
        let x: u32 = kani::any();
        kani::assume(lo <= hi && hi < TOP && c < hi);
        #[cfg(kani)]
        {
            preset_calls(c);
            let mut m = MockA::new();
            conc::learn(|| { m.expect_sr().times(lo..=hi).return_const(&K); });
            conc::start(hi, hi - 1, 0);
            let r = *m.sr(x);
            let s = conc::g::s();
            let n = conc::stop();
            kani::assume(n < lo);
            must_panic!("the destruction verifies the true number of calls of all threads (&self, returning a 'static reference)", drop(m));
        }
        #[cfg(not(kani))]
        {
            kani::assume(c == 0 && lo > 0 && hi < 3000);
            let mut m = MockA::new();
            m.expect_sr().times(lo..=hi).return_const(&K);
            let (n, ok) = conc::stress(&|| *m.sr(x) == 7);
            obl!(ok == n.min(hi), "as many calls are accepted as the maximum permits, whatever the interleaving (&self, returning a 'static reference)");
            if n < lo || n > hi { must_panic!("the destruction verifies the true number of calls of all threads (&self, returning a 'static reference)", drop(m)); }
            else { drop(m); }
        }
    }
    // ---- concretized generic method ----
    t_ok_conc_room (4) {
        let (lo, hi, c): (usize, usize, usize) = kani::any();
        let x: u32 = kani::any();
        kani::assume(lo <= hi && hi < TOP && c < hi);
        #[cfg(kani)]
        {
            preset_calls(c);
            let mut m = MockA::new();
            conc::learn(|| { m.expect_cc().times(lo..=hi).return_const(7u32); });
            conc::start(hi, hi - 1, 0);
            let r = m.cc([x as u8]);
            let s = conc::g::s();
            obl!(r == 7, "a call is answered as long as other threads leave it room (concretized generic method)");
            obl!(!s.odd && s.own == 1, "a call counts exactly once, whatever other threads do (concretized generic method)");
            let n = conc::stop();
            kani::assume(n >= lo);
            drop(m);    // the true number of calls is verified
        }
        #[cfg(not(kani))]
        {
            kani::assume(c == 0 && hi < 3000);
            let mut m = MockA::new();
            m.expect_cc().times(lo..=hi).return_const(7u32);
            let (n, ok) = conc::stress(&|| m.cc([x as u8]) == 7);
            obl!(ok == n.min(hi), "as many calls are accepted as the maximum permits, whatever the interleaving (concretized generic method)");
            if n < lo || n > hi { must_panic!("the destruction verifies the true number of calls of all threads (concretized generic method)", drop(m)); }
            else { drop(m); }
        }
    }
    pan_conc_overtaken (4) {
        let (lo, hi, c): (usize, usize, usize) = kani::any();
        let x: u32 = kani::any();
        kani::assume(lo <= hi && hi < TOP - 8 && c <= hi);
        #[cfg(kani)]
        {
            preset_calls(c);
            let mut m = MockA::new();
            conc::learn(|| { m.expect_cc().times(lo..=hi).return_const(7u32); });
            conc::start(hi, TOP - 1, hi - c);
            must_panic!("a call overtaken by other threads' calls up to the maximum panics (concretized generic method)", m.cc([x as u8]));
        }
        #[cfg(not(kani))]
        {
            kani::assume(c == 0 && hi < 50);
            let mut m = MockA::new();
            m.expect_cc().times(lo..=hi).return_const(7u32);
            let (n, ok) = conc::stress(&|| m.cc([x as u8]) == 7);
            obl!(ok <= hi, "no more calls are accepted than the maximum, whatever the interleaving (concretized generic method)");
            if n < lo || n > hi { must_panic!("the destruction verifies the true number of calls of all threads (concretized generic method)", drop(m)); }
            else { drop(m); }
        }
    }
    t_pan_conc_verified (4) {
        let (lo, hi, c): (usize, usize, usize) = kani::any();
        let x: u32 = kani::any();
        kani::assume(lo <= hi && hi < TOP && c < hi);
        #[cfg(kani)]
        {
            preset_calls(c);
            let mut m = MockA::new();
            conc::learn(|| { m.expect_cc().times(lo..=hi).return_const(7u32); });
            conc::start(hi, hi - 1, 0);
            let r = m.cc([x as u8]);
            let s = conc::g::s();
            let n = conc::stop();
            kani::assume(n < lo);
            must_panic!("the destruction verifies the true number of calls of all threads (concretized generic method)", drop(m));
        }
        #[cfg(not(kani))]
        {
            kani::assume(c == 0 && lo > 0 && hi < 3000);
            let mut m = MockA::new();
            m.expect_cc().times(lo..=hi).return_const(7u32);
            let (n, ok) = conc::stress(&|| m.cc([x as u8]) == 7);
            obl!(ok == n.min(hi), "as many calls are accepted as the maximum permits, whatever the interleaving (concretized generic method)");
            if n < lo || n > hi { must_panic!("the destruction verifies the true number of calls of all threads (concretized generic method)", drop(m)); }
            else { drop(m); }
        }
    }
    // ---- trait method ----
    ok_trait_room (4) {
        let (lo, hi, c): (usize, usize, usize) = kani::any();
        let x: u32 = kani::any();
        kani::assume(lo <= hi && hi < TOP && c < hi);
        #[cfg(kani)]
        {
            preset_calls(c);
            let mut m = MockT::new();
            conc::learn(|| { m.expect_tm().times(lo..=hi).return_const(7u32); });
            conc::start(hi, hi - 1, 0);
            let r = Tr::tm(&m, x);
            let s = conc::g::s();
            obl!(r == 7, "a call is answered as long as other threads leave it room (trait method)");
            obl!(!s.odd && s.own == 1, "a call counts exactly once, whatever other threads do (trait method)");
            let n = conc::stop();
            kani::assume(n >= lo);
            drop(m);    // the true number of calls is verified
        }
        #[cfg(not(kani))]
        {
            kani::assume(c == 0 && hi < 3000);
            let mut m = MockT::new();
            m.expect_tm().times(lo..=hi).return_const(7u32);
            let (n, ok) = conc::stress(&|| Tr::tm(&m, x) == 7);
            obl!(ok == n.min(hi), "as many calls are accepted as the maximum permits, whatever the interleaving (trait method)");
            if n < lo || n > hi { must_panic!("the destruction verifies the true number of calls of all threads (trait method)", drop(m)); }
            else { drop(m); }
        }
    }
    pan_trait_overtaken (4) {
        let (lo, hi, c): (usize, usize, usize) = kani::any();
        let x: u32 = kani::any();
        kani::assume(lo <= hi && hi < TOP - 8 && c <= hi);
        #[cfg(kani)]
        {
            preset_calls(c);
            let mut m = MockT::new();
            conc::learn(|| { m.expect_tm().times(lo..=hi).return_const(7u32); });
            conc::start(hi, TOP - 1, hi - c);
            must_panic!("a call overtaken by other threads' calls up to the maximum panics (trait method)", Tr::tm(&m, x));
        }
        #[cfg(not(kani))]
        {
            kani::assume(c == 0 && hi < 50);
            let mut m = MockT::new();
            m.expect_tm().times(lo..=hi).return_const(7u32);
            let (n, ok) = conc::stress(&|| Tr::tm(&m, x) == 7);
            obl!(ok <= hi, "no more calls are accepted than the maximum, whatever the interleaving (trait method)");
            if n < lo || n > hi { must_panic!("the destruction verifies the true number of calls of all threads (trait method)", drop(m)); }
            else { drop(m); }
        }
    }
    t_pan_trait_verified (4) {
        let (lo, hi, c): (usize, usize, usize) = kani::any();
        let x: u32 = kani::any();
        kani::assume(lo <= hi && hi < TOP && c < hi);
        #[cfg(kani)]
        {
            preset_calls(c);
            let mut m = MockT::new();
            conc::learn(|| { m.expect_tm().times(lo..=hi).return_const(7u32); });
            conc::start(hi, hi - 1, 0);
            let r = Tr::tm(&m, x);
            let s = conc::g::s();
            let n = conc::stop();
            kani::assume(n < lo);
            must_panic!("the destruction verifies the true number of calls of all threads (trait method)", drop(m));
        }
        #[cfg(not(kani))]
        {
            kani::assume(c == 0 && lo > 0 && hi < 3000);
            let mut m = MockT::new();
            m.expect_tm().times(lo..=hi).return_const(7u32);
            let (n, ok) = conc::stress(&|| Tr::tm(&m, x) == 7);
            obl!(ok == n.min(hi), "as many calls are accepted as the maximum permits, whatever the interleaving (trait method)");
            if n < lo || n > hi { must_panic!("the destruction verifies the true number of calls of all threads (trait method)", drop(m)); }
            else { drop(m); }
        }
    }
    // ---- automocked struct ----
    t_ok_im_room (4) {
        let (lo, hi, c): (usize, usize, usize) = kani::any();
        let x: u32 = kani::any();
        kani::assume(lo <= hi && hi < TOP && c < hi);
        #[cfg(kani)]
        {
            preset_calls(c);
            let mut m = MockIm::new();
            conc::learn(|| { m.expect_foo().times(lo..=hi).return_const(7u32); });
            conc::start(hi, hi - 1, 0);
            let r = m.foo(x);
            let s = conc::g::s();
            obl!(r == 7, "a call is answered as long as other threads leave it room (automocked struct)");
            obl!(!s.odd && s.own == 1, "a call counts exactly once, whatever other threads do (automocked struct)");
            let n = conc::stop();
            kani::assume(n >= lo);
            drop(m);    // the true number of calls is verified
        }
        #[cfg(not(kani))]
        {
            kani::assume(c == 0 && hi < 3000);
            let mut m = MockIm::new();
            m.expect_foo().times(lo..=hi).return_const(7u32);
            let (n, ok) = conc::stress(&|| m.foo(x) == 7);
            obl!(ok == n.min(hi), "as many calls are accepted as the maximum permits, whatever the interleaving (automocked struct)");
            if n < lo || n > hi { must_panic!("the destruction verifies the true number of calls of all threads (automocked struct)", drop(m)); }
            else { drop(m); }
        }
    }
    pan_im_overtaken (4) {
        let (lo, hi, c): (usize, usize, usize) = kani::any();
        let x: u32 = kani::any();
        kani::assume(lo <= hi && hi < TOP - 8 && c <= hi);
        #[cfg(kani)]
        {
            preset_calls(c);
            let mut m = MockIm::new();
            conc::learn(|| { m.expect_foo().times(lo..=hi).return_const(7u32); });
            conc::start(hi, TOP - 1, hi - c);
            must_panic!("a call overtaken by other threads' calls up to the maximum panics (automocked struct)", m.foo(x));
        }
        #[cfg(not(kani))]
        {
            kani::assume(c == 0 && hi < 50);
            let mut m = MockIm::new();
            m.expect_foo().times(lo..=hi).return_const(7u32);
            let (n, ok) = conc::stress(&|| m.foo(x) == 7);
            obl!(ok <= hi, "no more calls are accepted than the maximum, whatever the interleaving (automocked struct)");
            if n < lo || n > hi { must_panic!("the destruction verifies the true number of calls of all threads (automocked struct)", drop(m)); }
            else { drop(m); }
        }
    }
    t_pan_im_verified (4) {
        let (lo, hi, c): (usize, usize, usize) = kani::any();
        let x: u32 = kani::any();
        kani::assume(lo <= hi && hi < TOP && c < hi);
        #[cfg(kani)]
        {
            preset_calls(c);
            let mut m = MockIm::new();
            conc::learn(|| { m.expect_foo().times(lo..=hi).return_const(7u32); });
            conc::start(hi, hi - 1, 0);
            let r = m.foo(x);
            let s = conc::g::s();
            let n = conc::stop();
            kani::assume(n < lo);
            must_panic!("the destruction verifies the true number of calls of all threads (automocked struct)", drop(m));
        }
        #[cfg(not(kani))]
        {
            kani::assume(c == 0 && lo > 0 && hi < 3000);
            let mut m = MockIm::new();
            m.expect_foo().times(lo..=hi).return_const(7u32);
            let (n, ok) = conc::stress(&|| m.foo(x) == 7);
            obl!(ok == n.min(hi), "as many calls are accepted as the maximum permits, whatever the interleaving (automocked struct)");
            if n < lo || n > hi { must_panic!("the destruction verifies the true number of calls of all threads (automocked struct)", drop(m)); }
            else { drop(m); }
        }
    }
    // ---- static method ----
    ok_stat_room (4) {
        let (lo, hi, c): (usize, usize, usize) = kani::any();
        let x: u32 = kani::any();
        kani::assume(lo <= hi && hi < TOP && c < hi);
        #[cfg(kani)]
        {
            preset_calls(c);
            let m = MockSt::foo_context();
            conc::learn(|| { m.expect().times(lo..=hi).return_const(7u32); });
            conc::start(hi, hi - 1, 0);
            let r = MockSt::foo(x);
            let s = conc::g::s();
            obl!(r == 7, "a call is answered as long as other threads leave it room (static method)");
            obl!(!s.odd && s.own == 1, "a call counts exactly once, whatever other threads do (static method)");
            let n = conc::stop();
            kani::assume(n >= lo);
            drop(m);    // the true number of calls is verified
        }
        #[cfg(not(kani))]
        {
            kani::assume(c == 0 && hi < 3000);
            let hi = hi + 2400;
            let m = MockSt::foo_context();
            m.expect().times(lo..=hi).return_const(7u32);
            let (n, ok) = conc::stress(&|| MockSt::foo(x) == 7);
            obl!(ok == n.min(hi), "as many calls are accepted as the maximum permits, whatever the interleaving (static method)");
            if n < lo || n > hi { must_panic!("the destruction verifies the true number of calls of all threads (static method)", drop(m)); }
            else { drop(m); }
        }
    }
    pan_stat_overtaken (4) {
        let (lo, hi, c): (usize, usize, usize) = kani::any();
        let x: u32 = kani::any();
        kani::assume(lo <= hi && hi < TOP - 8 && c <= hi);
        #[cfg(kani)]
        {
            preset_calls(c);
            let m = MockSt::foo_context();
            conc::learn(|| { m.expect().times(lo..=hi).return_const(7u32); });
            conc::start(hi, TOP - 1, hi - c);
            must_panic!("a call overtaken by other threads' calls up to the maximum panics (static method)", MockSt::foo(x));
        }
        #[cfg(not(kani))]
        {
            kani::assume(c == 0 && hi < 50 && false);
            let m = MockSt::foo_context();
            m.expect().times(lo..=hi).return_const(7u32);
            let (n, ok) = conc::stress(&|| MockSt::foo(x) == 7);
            obl!(ok <= hi, "no more calls are accepted than the maximum, whatever the interleaving (static method)");
            if n < lo || n > hi { must_panic!("the destruction verifies the true number of calls of all threads (static method)", drop(m)); }
            else { drop(m); }
        }
    }
    t_pan_stat_verified (4) {
        let (lo, hi, c): (usize, usize, usize) = kani::any();
        let x: u32 = kani::any();
        kani::assume(lo <= hi && hi < TOP && c < hi);
        #[cfg(kani)]
        {
            preset_calls(c);
            let m = MockSt::foo_context();
            conc::learn(|| { m.expect().times(lo..=hi).return_const(7u32); });
            conc::start(hi, hi - 1, 0);
            let r = MockSt::foo(x);
            let s = conc::g::s();
            let n = conc::stop();
            kani::assume(n < lo);
            must_panic!("the destruction verifies the true number of calls of all threads (static method)", drop(m));
        }
        #[cfg(not(kani))]
        {
            kani::assume(c == 0 && lo > 0 && hi < 3000);
            let hi = hi + 2400;
            let m = MockSt::foo_context();
            m.expect().times(lo..=hi).return_const(7u32);
            let (n, ok) = conc::stress(&|| MockSt::foo(x) == 7);
            obl!(ok == n.min(hi), "as many calls are accepted as the maximum permits, whatever the interleaving (static method)");
            if n < lo || n > hi { must_panic!("the destruction verifies the true number of calls of all threads (static method)", drop(m)); }
            else { drop(m); }
        }
    }
    // ---- function of a module ----
    t_ok_modf_room (4) {
        let (lo, hi, c): (usize, usize, usize) = kani::any();
        let x: u32 = kani::any();
        kani::assume(lo <= hi && hi < TOP && c < hi);
        #[cfg(kani)]
        {
            preset_calls(c);
            let m = mock_mo::f_context();
            conc::learn(|| { m.expect().times(lo..=hi).return_const(7u32); });
            conc::start(hi, hi - 1, 0);
            let r = mock_mo::f(x);
            let s = conc::g::s();
            obl!(r == 7, "a call is answered as long as other threads leave it room (function of a module)");
            obl!(!s.odd && s.own == 1, "a call counts exactly once, whatever other threads do (function of a module)");
            let n = conc::stop();
            kani::assume(n >= lo);
            drop(m);    // the true number of calls is verified
        }
        #[cfg(not(kani))]
        {
            kani::assume(c == 0 && hi < 3000);
            let hi = hi + 2400;
            let m = mock_mo::f_context();
            m.expect().times(lo..=hi).return_const(7u32);
            let (n, ok) = conc::stress(&|| mock_mo::f(x) == 7);
            obl!(ok == n.min(hi), "as many calls are accepted as the maximum permits, whatever the interleaving (function of a module)");
            if n < lo || n > hi { must_panic!("the destruction verifies the true number of calls of all threads (function of a module)", drop(m)); }
            else { drop(m); }
        }
    }
    pan_modf_overtaken (4) {
        let (lo, hi, c): (usize, usize, usize) = kani::any();
        let x: u32 = kani::any();
        kani::assume(lo <= hi && hi < TOP - 8 && c <= hi);
        #[cfg(kani)]
        {
            preset_calls(c);
            let m = mock_mo::f_context();
            conc::learn(|| { m.expect().times(lo..=hi).return_const(7u32); });
            conc::start(hi, TOP - 1, hi - c);
            must_panic!("a call overtaken by other threads' calls up to the maximum panics (function of a module)", mock_mo::f(x));
        }
        #[cfg(not(kani))]
        {
            kani::assume(c == 0 && hi < 50 && false);
            let m = mock_mo::f_context();
            m.expect().times(lo..=hi).return_const(7u32);
            let (n, ok) = conc::stress(&|| mock_mo::f(x) == 7);
            obl!(ok <= hi, "no more calls are accepted than the maximum, whatever the interleaving (function of a module)");
            if n < lo || n > hi { must_panic!("the destruction verifies the true number of calls of all threads (function of a module)", drop(m)); }
            else { drop(m); }
        }
    }
    t_pan_modf_verified (4) {
        let (lo, hi, c): (usize, usize, usize) = kani::any();
        let x: u32 = kani::any();
        kani::assume(lo <= hi && hi < TOP && c < hi);
        #[cfg(kani)]
        {
            preset_calls(c);
            let m = mock_mo::f_context();
            conc::learn(|| { m.expect().times(lo..=hi).return_const(7u32); });
            conc::start(hi, hi - 1, 0);
            let r = mock_mo::f(x);
            let s = conc::g::s();
            let n = conc::stop();
            kani::assume(n < lo);
            must_panic!("the destruction verifies the true number of calls of all threads (function of a module)", drop(m));
        }
        #[cfg(not(kani))]
        {
            kani::assume(c == 0 && lo > 0 && hi < 3000);
            let hi = hi + 2400;
            let m = mock_mo::f_context();
            m.expect().times(lo..=hi).return_const(7u32);
            let (n, ok) = conc::stress(&|| mock_mo::f(x) == 7);
            obl!(ok == n.min(hi), "as many calls are accepted as the maximum permits, whatever the interleaving (function of a module)");
            if n < lo || n > hi { must_panic!("the destruction verifies the true number of calls of all threads (function of a module)", drop(m)); }
            else { drop(m); }
        }
    }
}
#[cfg(not(kani))]
pub fn run() { vh::kani::main(registry()) }
