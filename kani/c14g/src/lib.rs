//! C14, generic methods: concurrent calls are all counted.  See c14/src/lib.rs, common/conc.rs.
#![allow(unused)]
#![recursion_limit = "1024"]
#[path = "../../common/vh.rs"]
#[macro_use]
mod vh;
#[path = "../../common/conc.rs"]
#[macro_use]
mod conc;
use mockall::*;
use vh::*;

const TOP: usize = usize::MAX - 2;

/// Override of the harness macro: the operations of AtomicUsize are stubbed too.
#[cfg(kani)]
macro_rules! one {
    ($name:ident $u:literal $body:block) => {
        #[kani::proof]
        #[kani::stub(alloc::fmt::format, crate::vh::fmt_stub)]
        #[kani::stub(std::sync::Mutex::lock, crate::vh::lock_stub)]
        #[kani::stub(std::thread::panicking, crate::vh::panicking_stub)]
        #[kani::stub(std::hash::RandomState::new, crate::vh::rs_stub)]
        #[kani::stub(<std::hash::DefaultHasher as std::hash::Hasher>::write, crate::vh::hw_stub)]
        #[kani::stub(<std::hash::DefaultHasher as std::hash::Hasher>::finish, crate::vh::hf_stub)]
        #[kani::stub(core::sync::atomic::Atomic::<usize>::load, crate::conc::g::load)]
        #[kani::stub(core::sync::atomic::Atomic::<usize>::store, crate::conc::g::store)]
        #[kani::stub(core::sync::atomic::Atomic::<usize>::swap, crate::conc::g::swap)]
        #[kani::stub(core::sync::atomic::Atomic::<usize>::fetch_add, crate::conc::g::fetch_add)]
        #[kani::stub(core::sync::atomic::Atomic::<usize>::fetch_sub, crate::conc::g::fetch_sub)]
        #[kani::stub(core::sync::atomic::Atomic::<usize>::fetch_max, crate::conc::g::fetch_max)]
        #[kani::stub(core::sync::atomic::Atomic::<usize>::fetch_min, crate::conc::g::fetch_min)]
        #[kani::stub(core::sync::atomic::Atomic::<usize>::compare_exchange, crate::conc::g::cas)]
        #[kani::stub(core::sync::atomic::Atomic::<usize>::compare_exchange_weak, crate::conc::g::cas_weak)]
        #[kani::unwind($u)]
        pub fn $name() {
            let _: () = $body;
            kani::cover!(true, "END");
        }
    };
}

mock! { pub G { fn g<T: 'static>(&self, x: T) -> u32; fn rr<T: 'static>(&self, x: T) -> &u32; } }
mock! { pub S { fn st<T: 'static>(a: T) -> u32; } }
mock! { pub GS<T: 'static> { fn m(&self, a: T) -> u32; } }

harnesses! {
    // ---- generic method ----
    ok_g_room (4) {
        let (lo, hi, c): (usize, usize, usize) = kani::any();
        let x: u32 = kani::any();
        kani::assume(lo <= hi && hi < TOP && c < hi);
        #[cfg(kani)]
        {
            preset_calls(c);
            let mut m = MockG::new();
            conc::learn(|| { m.expect_g::<u32>().times(lo..=hi).return_const(7u32); });
            conc::start(hi, hi - 1, 0);
            let r = m.g(x);
            let s = conc::g::s();
            obl!(r == 7, "a call is answered as long as other threads leave it room (generic method)");
            obl!(!s.odd && s.own == 1, "a call counts exactly once, whatever other threads do (generic method)");
            let n = conc::stop();
            kani::assume(n >= lo);
            drop(m);    // the true number of calls is verified
        }
        #[cfg(not(kani))]
        {
            kani::assume(c == 0 && hi < 3000);
            let mut m = MockG::new();
            m.expect_g::<u32>().times(lo..=hi).return_const(7u32);
            let (n, ok) = conc::stress(&|| m.g(x) == 7);
            obl!(ok == n.min(hi), "as many calls are accepted as the maximum permits, whatever the interleaving (generic method)");
            if n < lo || n > hi { must_panic!("the destruction verifies the true number of calls of all threads (generic method)", drop(m)); }
            else { drop(m); }
        }
    }
    pan_g_overtaken (4) {
        let (lo, hi, c): (usize, usize, usize) = kani::any();
        let x: u32 = kani::any();
        kani::assume(lo <= hi && hi < TOP - 8 && c <= hi);
        #[cfg(kani)]
        {
            preset_calls(c);
            let mut m = MockG::new();
            conc::learn(|| { m.expect_g::<u32>().times(lo..=hi).return_const(7u32); });
            conc::start(hi, TOP - 1, hi - c);
            must_panic!("a call overtaken by other threads' calls up to the maximum panics (generic method)", m.g(x));
        }
        #[cfg(not(kani))]
        {
            kani::assume(c == 0 && hi < 50);
            let mut m = MockG::new();
            m.expect_g::<u32>().times(lo..=hi).return_const(7u32);
            let (n, ok) = conc::stress(&|| m.g(x) == 7);
            obl!(ok <= hi, "no more calls are accepted than the maximum, whatever the interleaving (generic method)");
            if n < lo || n > hi { must_panic!("the destruction verifies the true number of calls of all threads (generic method)", drop(m)); }
            else { drop(m); }
        }
    }
    t_pan_g_verified (4) {
        let (lo, hi, c): (usize, usize, usize) = kani::any();
        let x: u32 = kani::any();
        kani::assume(lo <= hi && hi < TOP && c < hi);
        #[cfg(kani)]
        {
            preset_calls(c);
            let mut m = MockG::new();
            conc::learn(|| { m.expect_g::<u32>().times(lo..=hi).return_const(7u32); });
            conc::start(hi, hi - 1, 0);
            let r = m.g(x);
            let s = conc::g::s();
            let n = conc::stop();
            kani::assume(n < lo);
            must_panic!("the destruction verifies the true number of calls of all threads (generic method)", drop(m));
        }
        #[cfg(not(kani))]
        {
            kani::assume(c == 0 && lo > 0 && hi < 3000);
            let mut m = MockG::new();
            m.expect_g::<u32>().times(lo..=hi).return_const(7u32);
            let (n, ok) = conc::stress(&|| m.g(x) == 7);
            obl!(ok == n.min(hi), "as many calls are accepted as the maximum permits, whatever the interleaving (generic method)");
            if n < lo || n > hi { must_panic!("the destruction verifies the true number of calls of all threads (generic method)", drop(m)); }
            else { drop(m); }
        }
    }
    // ---- generic method returning a reference ----
    t_ok_gr_room (4) {
        let (lo, hi, c): (usize, usize, usize) = kani::any();
        let x: u32 = kani::any();
        kani::assume(lo <= hi && hi < TOP && c < hi);
        #[cfg(kani)]
        {
            preset_calls(c);
            let mut m = MockG::new();
            conc::learn(|| { m.expect_rr::<u32>().times(lo..=hi).return_const(7u32); });
            conc::start(hi, hi - 1, 0);
            let r = *m.rr(x);
            let s = conc::g::s();
            obl!(r == 7, "a call is answered as long as other threads leave it room (generic method returning a reference)");
            obl!(!s.odd && s.own == 1, "a call counts exactly once, whatever other threads do (generic method returning a reference)");
            let n = conc::stop();
            kani::assume(n >= lo);
            drop(m);    // the true number of calls is verified
        }
        #[cfg(not(kani))]
        {
            kani::assume(c == 0 && hi < 3000);
            let mut m = MockG::new();
            m.expect_rr::<u32>().times(lo..=hi).return_const(7u32);
            let (n, ok) = conc::stress(&|| *m.rr(x) == 7);
            obl!(ok == n.min(hi), "as many calls are accepted as the maximum permits, whatever the interleaving (generic method returning a reference)");
            if n < lo || n > hi { must_panic!("the destruction verifies the true number of calls of all threads (generic method returning a reference)", drop(m)); }
            else { drop(m); }
        }
    }
    t_pan_gr_overtaken (4) {
        let (lo, hi, c): (usize, usize, usize) = kani::any();
        let x: u32 = kani::any();
        kani::assume(lo <= hi && hi < TOP - 8 && c <= hi);
        #[cfg(kani)]
        {
            preset_calls(c);
            let mut m = MockG::new();
            conc::learn(|| { m.expect_rr::<u32>().times(lo..=hi).return_const(7u32); });
            conc::start(hi, TOP - 1, hi - c);
            must_panic!("a call overtaken by other threads' calls up to the maximum panics (generic method returning a reference)", *m.rr(x));
        }
        #[cfg(not(kani))]
        {
            kani::assume(c == 0 && hi < 50);
            let mut m = MockG::new();
            m.expect_rr::<u32>().times(lo..=hi).return_const(7u32);
            let (n, ok) = conc::stress(&|| *m.rr(x) == 7);
            obl!(ok <= hi, "no more calls are accepted than the maximum, whatever the interleaving (generic method returning a reference)");
            if n < lo || n > hi { must_panic!("the destruction verifies the true number of calls of all threads (generic method returning a reference)", drop(m)); }
            else { drop(m); }
        }
    }
    t_pan_gr_verified (4) {
        let (lo, hi, c): (usize, usize, usize) = kani::any();
        let x: u32 = kani::any();
        kani::assume(lo <= hi && hi < TOP && c < hi);
        #[cfg(kani)]
        {
            preset_calls(c);
            let mut m = MockG::new();
            conc::learn(|| { m.expect_rr::<u32>().times(lo..=hi).return_const(7u32); });
            conc::start(hi, hi - 1, 0);
            let r = *m.rr(x);
            let s = conc::g::s();
            let n = conc::stop();
            kani::assume(n < lo);
            must_panic!("the destruction verifies the true number of calls of all threads (generic method returning a reference)", drop(m));
        }
        #[cfg(not(kani))]
        {
            kani::assume(c == 0 && lo > 0 && hi < 3000);
            let mut m = MockG::new();
            m.expect_rr::<u32>().times(lo..=hi).return_const(7u32);
            let (n, ok) = conc::stress(&|| *m.rr(x) == 7);
            obl!(ok == n.min(hi), "as many calls are accepted as the maximum permits, whatever the interleaving (generic method returning a reference)");
            if n < lo || n > hi { must_panic!("the destruction verifies the true number of calls of all threads (generic method returning a reference)", drop(m)); }
            else { drop(m); }
        }
    }
    // ---- generic static method ----
    t_ok_st_room (4) {
        let (lo, hi, c): (usize, usize, usize) = kani::any();
        let x: u32 = kani::any();
        kani::assume(lo <= hi && hi < TOP && c < hi);
        #[cfg(kani)]
        {
            preset_calls(c);
            let m = MockS::st_context();
            conc::learn(|| { m.expect::<u32>().times(lo..=hi).return_const(7u32); });
            conc::start(hi, hi - 1, 0);
            let r = MockS::st(x);
            let s = conc::g::s();
            obl!(r == 7, "a call is answered as long as other threads leave it room (generic static method)");
            obl!(!s.odd && s.own == 1, "a call counts exactly once, whatever other threads do (generic static method)");
            let n = conc::stop();
            kani::assume(n >= lo);
            drop(m);    // the true number of calls is verified
        }
        #[cfg(not(kani))]
        {
            kani::assume(c == 0 && hi < 3000);
            let hi = hi + 2400;
            let m = MockS::st_context();
            m.expect::<u32>().times(lo..=hi).return_const(7u32);
            let (n, ok) = conc::stress(&|| MockS::st(x) == 7);
            obl!(ok == n.min(hi), "as many calls are accepted as the maximum permits, whatever the interleaving (generic static method)");
            if n < lo || n > hi { must_panic!("the destruction verifies the true number of calls of all threads (generic static method)", drop(m)); }
            else { drop(m); }
        }
    }
    pan_st_overtaken (4) {
        let (lo, hi, c): (usize, usize, usize) = kani::any();
        let x: u32 = kani::any();
        kani::assume(lo <= hi && hi < TOP - 8 && c <= hi);
        #[cfg(kani)]
        {
            preset_calls(c);
            let m = MockS::st_context();
            conc::learn(|| { m.expect::<u32>().times(lo..=hi).return_const(7u32); });
            conc::start(hi, TOP - 1, hi - c);
            must_panic!("a call overtaken by other threads' calls up to the maximum panics (generic static method)", MockS::st(x));
        }
        #[cfg(not(kani))]
        {
            kani::assume(c == 0 && hi < 50 && false);
            let m = MockS::st_context();
            m.expect::<u32>().times(lo..=hi).return_const(7u32);
            let (n, ok) = conc::stress(&|| MockS::st(x) == 7);
            obl!(ok <= hi, "no more calls are accepted than the maximum, whatever the interleaving (generic static method)");
            if n < lo || n > hi { must_panic!("the destruction verifies the true number of calls of all threads (generic static method)", drop(m)); }
            else { drop(m); }
        }
    }
    t_pan_st_verified (4) {
        let (lo, hi, c): (usize, usize, usize) = kani::any();
        let x: u32 = kani::any();
        kani::assume(lo <= hi && hi < TOP && c < hi);
        #[cfg(kani)]
        {
            preset_calls(c);
            let m = MockS::st_context();
            conc::learn(|| { m.expect::<u32>().times(lo..=hi).return_const(7u32); });
            conc::start(hi, hi - 1, 0);
            let r = MockS::st(x);
            let s = conc::g::s();
            let n = conc::stop();
            kani::assume(n < lo);
            must_panic!("the destruction verifies the true number of calls of all threads (generic static method)", drop(m));
        }
        #[cfg(not(kani))]
        {
            kani::assume(c == 0 && lo > 0 && hi < 3000);
            let hi = hi + 2400;
            let m = MockS::st_context();
            m.expect::<u32>().times(lo..=hi).return_const(7u32);
            let (n, ok) = conc::stress(&|| MockS::st(x) == 7);
            obl!(ok == n.min(hi), "as many calls are accepted as the maximum permits, whatever the interleaving (generic static method)");
            if n < lo || n > hi { must_panic!("the destruction verifies the true number of calls of all threads (generic static method)", drop(m)); }
            else { drop(m); }
        }
    }
    // ---- method of a generic struct ----
    t_ok_gsm_room (4) {
        let (lo, hi, c): (usize, usize, usize) = kani::any();
        let x: u32 = kani::any();
        kani::assume(lo <= hi && hi < TOP && c < hi);
        #[cfg(kani)]
        {
            preset_calls(c);
            let mut m = MockGS::<u32>::new();
            conc::learn(|| { m.expect_m().times(lo..=hi).return_const(7u32); });
            conc::start(hi, hi - 1, 0);
            let r = m.m(x);
            let s = conc::g::s();
            obl!(r == 7, "a call is answered as long as other threads leave it room (method of a generic struct)");
            obl!(!s.odd && s.own == 1, "a call counts exactly once, whatever other threads do (method of a generic struct)");
            let n = conc::stop();
            kani::assume(n >= lo);
            drop(m);    // the true number of calls is verified
        }
        #[cfg(not(kani))]
        {
            kani::assume(c == 0 && hi < 3000);
            let mut m = MockGS::<u32>::new();
            m.expect_m().times(lo..=hi).return_const(7u32);
            let (n, ok) = conc::stress(&|| m.m(x) == 7);
            obl!(ok == n.min(hi), "as many calls are accepted as the maximum permits, whatever the interleaving (method of a generic struct)");
            if n < lo || n > hi { must_panic!("the destruction verifies the true number of calls of all threads (method of a generic struct)", drop(m)); }
            else { drop(m); }
        }
    }
    pan_gsm_overtaken (4) {
        let (lo, hi, c): (usize, usize, usize) = kani::any();
        let x: u32 = kani::any();
        kani::assume(lo <= hi && hi < TOP - 8 && c <= hi);
        #[cfg(kani)]
        {
            preset_calls(c);
            let mut m = MockGS::<u32>::new();
            conc::learn(|| { m.expect_m().times(lo..=hi).return_const(7u32); });
            conc::start(hi, TOP - 1, hi - c);
            must_panic!("a call overtaken by other threads' calls up to the maximum panics (method of a generic struct)", m.m(x));
        }
        #[cfg(not(kani))]
        {
            kani::assume(c == 0 && hi < 50);
            let mut m = MockGS::<u32>::new();
            m.expect_m().times(lo..=hi).return_const(7u32);
            let (n, ok) = conc::stress(&|| m.m(x) == 7);
            obl!(ok <= hi, "no more calls are accepted than the maximum, whatever the interleaving (method of a generic struct)");
            if n < lo || n > hi { must_panic!("the destruction verifies the true number of calls of all threads (method of a generic struct)", drop(m)); }
            else { drop(m); }
        }
    }
    t_pan_gsm_verified (4) {
        let (lo, hi, c): (usize, usize, usize) = kani::any();
        let x: u32 = kani::any();
        kani::assume(lo <= hi && hi < TOP && c < hi);
        #[cfg(kani)]
        {
            preset_calls(c);
            let mut m = MockGS::<u32>::new();
            conc::learn(|| { m.expect_m().times(lo..=hi).return_const(7u32); });
            conc::start(hi, hi - 1, 0);
            let r = m.m(x);
            let s = conc::g::s();
            let n = conc::stop();
            kani::assume(n < lo);
            must_panic!("the destruction verifies the true number of calls of all threads (method of a generic struct)", drop(m));
        }
        #[cfg(not(kani))]
        {
            kani::assume(c == 0 && lo > 0 && hi < 3000);
            let mut m = MockGS::<u32>::new();
            m.expect_m().times(lo..=hi).return_const(7u32);
            let (n, ok) = conc::stress(&|| m.m(x) == 7);
            obl!(ok == n.min(hi), "as many calls are accepted as the maximum permits, whatever the interleaving (method of a generic struct)");
            if n < lo || n > hi { must_panic!("the destruction verifies the true number of calls of all threads (method of a generic struct)", drop(m)); }
            else { drop(m); }
        }
    }
}
#[cfg(not(kani))]
pub fn run() { vh::kani::main(registry()) }
