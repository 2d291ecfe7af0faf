//! C13, generic methods: single-threaded conditions and actions never run on another thread.
#![allow(unused)]
#[path = "../../common/vh.rs"]
#[macro_use]
mod vh;
use mockall::*;
use vh::*;

mock! { pub G { fn g<T: 'static>(&self, x: T) -> u32; fn gm<T: 'static>(&mut self, x: T) -> T; fn rr<T: 'static>(&self, x: T) -> &u32; fn rm<T: 'static>(&mut self, x: T) -> &mut u32; } }
mock! { pub S { fn st<T: 'static>(a: T) -> T; } }
mock! { pub GS<T: 'static> { fn s(a: T) -> T; fn m(&self, a: T) -> T; } }

/// A value that must stay on the thread that made it.
pub struct Pin(u32, ghost::Here);
impl Pin {
    fn new(v: u32) -> Pin { Pin(v, ghost::here()) }
    fn get(&self) -> u32 { obl!(ghost::is_here(self.1), "a single-threaded value is not read on another thread"); self.0 }
}
impl Clone for Pin { fn clone(&self) -> Pin { obl!(ghost::is_here(self.1), "a single-threaded constant is not cloned on another thread"); Pin(self.0, self.1) } }
impl Drop for Pin { fn drop(&mut self) { obl!(ghost::is_here(self.1), "a single-threaded value is not dropped on another thread"); } }
impl From<Pin> for u32 { fn from(p: Pin) -> u32 { p.get() } }

harnesses! {
    ok_g_returning_here (3) {
        let (x, v): (u32, u32) = kani::any();
        let mut m = MockG::new();
        let p = Pin::new(v);
        m.expect_g::<u32>().returning_st(move |a| p.get());
        obl!(m.g(x) == v, "returning_st answers on the configuring thread (generic method)");
        done(m);
    }
    pan_g_returning_other (3) {
        let (x, v): (u32, u32) = kani::any();
        let mut m = MockG::new();
        let p = Pin::new(v);
        m.expect_g::<u32>().returning_st(move |a| p.get());
        must_panic!("returning_st: a call from another thread panics (generic method)", ghost::on_other_thread(|| m.g(x)));
    }
    ok_g_once_here (3) {
        let (x, v): (u32, u32) = kani::any();
        let mut m = MockG::new();
        let p = Pin::new(v);
        m.expect_g::<u32>().return_once_st(move |a| p.get());
        obl!(m.g(x) == v, "return_once_st answers on the configuring thread (generic method)");
        done(m);
    }
    pan_g_once_other (3) {
        let (x, v): (u32, u32) = kani::any();
        let mut m = MockG::new();
        let p = Pin::new(v);
        m.expect_g::<u32>().return_once_st(move |a| p.get());
        must_panic!("return_once_st: a call from another thread panics (generic method)", ghost::on_other_thread(|| m.g(x)));
    }
    ok_g_const_here (3) {
        let (x, v): (u32, u32) = kani::any();
        let mut m = MockG::new();
        m.expect_g::<u32>().return_const_st(Pin::new(v));
        obl!(m.g(x) == v, "return_const_st answers on the configuring thread (generic method)");
        done(m);
    }
    pan_g_const_other (3) {
        let (x, v): (u32, u32) = kani::any();
        let mut m = MockG::new();
        m.expect_g::<u32>().return_const_st(Pin::new(v));
        must_panic!("return_const_st: a call from another thread panics (generic method)", ghost::on_other_thread(|| m.g(x)));
    }
    ok_g_withf_here (3) {
        let (x, v): (u32, u32) = kani::any();
        let mut m = MockG::new();
        let p = Pin::new(x);
        m.expect_g::<u32>().withf_st(move |a| *a == p.get()).return_const(2u32);
        obl!(m.g(x) == 2, "withf_st selects on the configuring thread (generic method)");
        done(m);
    }
    pan_g_withf_other (3) {
        let (x, v): (u32, u32) = kani::any();
        let mut m = MockG::new();
        let p = Pin::new(x);
        m.expect_g::<u32>().withf_st(move |a| *a == p.get()).return_const(2u32);
        m.expect_g::<u32>().return_const(2u32);
        must_panic!("withf_st: a call from another thread panics, although a later expectation could answer it (generic method)", ghost::on_other_thread(|| m.g(x)));
    }
    ok_g_safe_anywhere (3) {
        let (x, v): (u32, u32) = kani::any();
        let mut m = MockG::new();
        m.expect_g::<u32>().withf(|a| true).returning(move |a| v);
        let r = ghost::on_other_thread(|| m.g(x));
        obl!(r == v, "withf and returning run on any thread (generic method)");
        done(m);
    }
    t_ok_gm_returning_here (3) {
        let (x, v): (u32, u32) = kani::any();
        let mut m = MockG::new();
        let p = Pin::new(v);
        m.expect_gm::<u32>().returning_st(move |a| p.get());
        obl!(m.gm(x) == v, "returning_st answers on the configuring thread (generic &mut method)");
        done(m);
    }
    pan_gm_returning_other (3) {
        let (x, v): (u32, u32) = kani::any();
        let mut m = MockG::new();
        let p = Pin::new(v);
        m.expect_gm::<u32>().returning_st(move |a| p.get());
        must_panic!("returning_st: a call from another thread panics (generic &mut method)", ghost::on_other_thread(|| m.gm(x)));
    }
    t_ok_gm_once_here (3) {
        let (x, v): (u32, u32) = kani::any();
        let mut m = MockG::new();
        let p = Pin::new(v);
        m.expect_gm::<u32>().return_once_st(move |a| p.get());
        obl!(m.gm(x) == v, "return_once_st answers on the configuring thread (generic &mut method)");
        done(m);
    }
    pan_gm_once_other (3) {
        let (x, v): (u32, u32) = kani::any();
        let mut m = MockG::new();
        let p = Pin::new(v);
        m.expect_gm::<u32>().return_once_st(move |a| p.get());
        must_panic!("return_once_st: a call from another thread panics (generic &mut method)", ghost::on_other_thread(|| m.gm(x)));
    }
    t_ok_gm_const_here (3) {
        let (x, v): (u32, u32) = kani::any();
        let mut m = MockG::new();
        m.expect_gm::<u32>().return_const_st(Pin::new(v));
        obl!(m.gm(x) == v, "return_const_st answers on the configuring thread (generic &mut method)");
        done(m);
    }
    t_pan_gm_const_other (3) {
        let (x, v): (u32, u32) = kani::any();
        let mut m = MockG::new();
        m.expect_gm::<u32>().return_const_st(Pin::new(v));
        must_panic!("return_const_st: a call from another thread panics (generic &mut method)", ghost::on_other_thread(|| m.gm(x)));
    }
    t_ok_gm_withf_here (3) {
        let (x, v): (u32, u32) = kani::any();
        let mut m = MockG::new();
        let p = Pin::new(x);
        m.expect_gm::<u32>().withf_st(move |a| *a == p.get()).return_const(2u32);
        obl!(m.gm(x) == 2, "withf_st selects on the configuring thread (generic &mut method)");
        done(m);
    }
    pan_gm_withf_other (3) {
        let (x, v): (u32, u32) = kani::any();
        let mut m = MockG::new();
        let p = Pin::new(x);
        m.expect_gm::<u32>().withf_st(move |a| *a == p.get()).return_const(2u32);
        m.expect_gm::<u32>().return_const(2u32);
        must_panic!("withf_st: a call from another thread panics, although a later expectation could answer it (generic &mut method)", ghost::on_other_thread(|| m.gm(x)));
    }
    t_ok_gm_safe_anywhere (3) {
        let (x, v): (u32, u32) = kani::any();
        let mut m = MockG::new();
        m.expect_gm::<u32>().withf(|a| true).returning(move |a| v);
        let r = ghost::on_other_thread(|| m.gm(x));
        obl!(r == v, "withf and returning run on any thread (generic &mut method)");
        done(m);
    }
    t_ok_rm_returning_here (3) {
        let (x, v): (u32, u32) = kani::any();
        let mut m = MockG::new();
        let p = Pin::new(v);
        m.expect_rm::<u32>().returning_st(move |a| p.get());
        obl!(*m.rm(x) == v, "returning_st answers on the configuring thread (generic method returning a mutable reference)");
        done(m);
    }
    pan_rm_returning_other (3) {
        let (x, v): (u32, u32) = kani::any();
        let mut m = MockG::new();
        let p = Pin::new(v);
        m.expect_rm::<u32>().returning_st(move |a| p.get());
        must_panic!("returning_st: a call from another thread panics (generic method returning a mutable reference)", ghost::on_other_thread(|| *m.rm(x)));
    }
    t_ok_rm_withf_here (3) {
        let (x, v): (u32, u32) = kani::any();
        let mut m = MockG::new();
        let p = Pin::new(x);
        m.expect_rm::<u32>().withf_st(move |a| *a == p.get()).returning(|_| 2u32);
        obl!(*m.rm(x) == 2, "withf_st selects on the configuring thread (generic method returning a mutable reference)");
        done(m);
    }
    pan_rm_withf_other (3) {
        let (x, v): (u32, u32) = kani::any();
        let mut m = MockG::new();
        let p = Pin::new(x);
        m.expect_rm::<u32>().withf_st(move |a| *a == p.get()).returning(|_| 2u32);
        m.expect_rm::<u32>().returning(|_| 2u32);
        must_panic!("withf_st: a call from another thread panics, although a later expectation could answer it (generic method returning a mutable reference)", ghost::on_other_thread(|| *m.rm(x)));
    }
    t_ok_rm_safe_anywhere (3) {
        let (x, v): (u32, u32) = kani::any();
        let mut m = MockG::new();
        m.expect_rm::<u32>().withf(|a| true).returning(move |a| v);
        let r = ghost::on_other_thread(|| *m.rm(x));
        obl!(r == v, "withf and returning run on any thread (generic method returning a mutable reference)");
        done(m);
    }
    t_ok_st_returning_here (3) {
        let (x, v): (u32, u32) = kani::any();
        let m = MockS::st_context();
        let p = Pin::new(v);
        m.expect::<u32>().returning_st(move |a| p.get());
        obl!(MockS::st(x) == v, "returning_st answers on the configuring thread (generic static method)");
        done(m);
    }
    pan_st_returning_other (3) {
        let (x, v): (u32, u32) = kani::any();
        let m = MockS::st_context();
        let p = Pin::new(v);
        m.expect::<u32>().returning_st(move |a| p.get());
        must_panic!("returning_st: a call from another thread panics (generic static method)", ghost::on_other_thread(|| MockS::st(x)));
    }
    t_ok_st_once_here (3) {
        let (x, v): (u32, u32) = kani::any();
        let m = MockS::st_context();
        let p = Pin::new(v);
        m.expect::<u32>().return_once_st(move |a| p.get());
        obl!(MockS::st(x) == v, "return_once_st answers on the configuring thread (generic static method)");
        done(m);
    }
    pan_st_once_other (3) {
        let (x, v): (u32, u32) = kani::any();
        let m = MockS::st_context();
        let p = Pin::new(v);
        m.expect::<u32>().return_once_st(move |a| p.get());
        must_panic!("return_once_st: a call from another thread panics (generic static method)", ghost::on_other_thread(|| MockS::st(x)));
    }
    t_ok_st_const_here (3) {
        let (x, v): (u32, u32) = kani::any();
        let m = MockS::st_context();
        m.expect::<u32>().return_const_st(Pin::new(v));
        obl!(MockS::st(x) == v, "return_const_st answers on the configuring thread (generic static method)");
        done(m);
    }
    t_pan_st_const_other (3) {
        let (x, v): (u32, u32) = kani::any();
        let m = MockS::st_context();
        m.expect::<u32>().return_const_st(Pin::new(v));
        must_panic!("return_const_st: a call from another thread panics (generic static method)", ghost::on_other_thread(|| MockS::st(x)));
    }
    t_ok_st_withf_here (3) {
        let (x, v): (u32, u32) = kani::any();
        let m = MockS::st_context();
        let p = Pin::new(x);
        m.expect::<u32>().withf_st(move |a| *a == p.get()).return_const(2u32);
        obl!(MockS::st(x) == 2, "withf_st selects on the configuring thread (generic static method)");
        done(m);
    }
    pan_st_withf_other (3) {
        let (x, v): (u32, u32) = kani::any();
        let m = MockS::st_context();
        let p = Pin::new(x);
        m.expect::<u32>().withf_st(move |a| *a == p.get()).return_const(2u32);
        m.expect::<u32>().return_const(2u32);
        must_panic!("withf_st: a call from another thread panics, although a later expectation could answer it (generic static method)", ghost::on_other_thread(|| MockS::st(x)));
    }
    t_ok_st_safe_anywhere (3) {
        let (x, v): (u32, u32) = kani::any();
        let m = MockS::st_context();
        m.expect::<u32>().withf(|a| true).returning(move |a| v);
        let r = ghost::on_other_thread(|| MockS::st(x));
        obl!(r == v, "withf and returning run on any thread (generic static method)");
        done(m);
    }
    t_ok_gss_returning_here (3) {
        let (x, v): (u32, u32) = kani::any();
        let m = MockGS::<u32>::s_context();
        let p = Pin::new(v);
        m.expect().returning_st(move |a| p.get());
        obl!(MockGS::<u32>::s(x) == v, "returning_st answers on the configuring thread (static method of a generic struct)");
        done(m);
    }
    pan_gss_returning_other (3) {
        let (x, v): (u32, u32) = kani::any();
        let m = MockGS::<u32>::s_context();
        let p = Pin::new(v);
        m.expect().returning_st(move |a| p.get());
        must_panic!("returning_st: a call from another thread panics (static method of a generic struct)", ghost::on_other_thread(|| MockGS::<u32>::s(x)));
    }
    t_ok_gss_once_here (3) {
        let (x, v): (u32, u32) = kani::any();
        let m = MockGS::<u32>::s_context();
        let p = Pin::new(v);
        m.expect().return_once_st(move |a| p.get());
        obl!(MockGS::<u32>::s(x) == v, "return_once_st answers on the configuring thread (static method of a generic struct)");
        done(m);
    }
    pan_gss_once_other (3) {
        let (x, v): (u32, u32) = kani::any();
        let m = MockGS::<u32>::s_context();
        let p = Pin::new(v);
        m.expect().return_once_st(move |a| p.get());
        must_panic!("return_once_st: a call from another thread panics (static method of a generic struct)", ghost::on_other_thread(|| MockGS::<u32>::s(x)));
    }
    t_ok_gss_const_here (3) {
        let (x, v): (u32, u32) = kani::any();
        let m = MockGS::<u32>::s_context();
        m.expect().return_const_st(Pin::new(v));
        obl!(MockGS::<u32>::s(x) == v, "return_const_st answers on the configuring thread (static method of a generic struct)");
        done(m);
    }
    t_pan_gss_const_other (3) {
        let (x, v): (u32, u32) = kani::any();
        let m = MockGS::<u32>::s_context();
        m.expect().return_const_st(Pin::new(v));
        must_panic!("return_const_st: a call from another thread panics (static method of a generic struct)", ghost::on_other_thread(|| MockGS::<u32>::s(x)));
    }
    t_ok_gss_withf_here (3) {
        let (x, v): (u32, u32) = kani::any();
        let m = MockGS::<u32>::s_context();
        let p = Pin::new(x);
        m.expect().withf_st(move |a| *a == p.get()).return_const(2u32);
        obl!(MockGS::<u32>::s(x) == 2, "withf_st selects on the configuring thread (static method of a generic struct)");
        done(m);
    }
    pan_gss_withf_other (3) {
        let (x, v): (u32, u32) = kani::any();
        let m = MockGS::<u32>::s_context();
        let p = Pin::new(x);
        m.expect().withf_st(move |a| *a == p.get()).return_const(2u32);
        m.expect().return_const(2u32);
        must_panic!("withf_st: a call from another thread panics, although a later expectation could answer it (static method of a generic struct)", ghost::on_other_thread(|| MockGS::<u32>::s(x)));
    }
    t_ok_gss_safe_anywhere (3) {
        let (x, v): (u32, u32) = kani::any();
        let m = MockGS::<u32>::s_context();
        m.expect().withf(|a| true).returning(move |a| v);
        let r = ghost::on_other_thread(|| MockGS::<u32>::s(x));
        obl!(r == v, "withf and returning run on any thread (static method of a generic struct)");
        done(m);
    }
    t_ok_gsm_returning_here (3) {
        let (x, v): (u32, u32) = kani::any();
        let mut m = MockGS::<u32>::new();
        let p = Pin::new(v);
        m.expect_m().returning_st(move |a| p.get());
        obl!(m.m(x) == v, "returning_st answers on the configuring thread (method of a generic struct)");
        done(m);
    }
    pan_gsm_returning_other (3) {
        let (x, v): (u32, u32) = kani::any();
        let mut m = MockGS::<u32>::new();
        let p = Pin::new(v);
        m.expect_m().returning_st(move |a| p.get());
        must_panic!("returning_st: a call from another thread panics (method of a generic struct)", ghost::on_other_thread(|| m.m(x)));
    }
    t_ok_gsm_once_here (3) {
        let (x, v): (u32, u32) = kani::any();
        let mut m = MockGS::<u32>::new();
        let p = Pin::new(v);
        m.expect_m().return_once_st(move |a| p.get());
        obl!(m.m(x) == v, "return_once_st answers on the configuring thread (method of a generic struct)");
        done(m);
    }
    pan_gsm_once_other (3) {
        let (x, v): (u32, u32) = kani::any();
        let mut m = MockGS::<u32>::new();
        let p = Pin::new(v);
        m.expect_m().return_once_st(move |a| p.get());
        must_panic!("return_once_st: a call from another thread panics (method of a generic struct)", ghost::on_other_thread(|| m.m(x)));
    }
    t_ok_gsm_const_here (3) {
        let (x, v): (u32, u32) = kani::any();
        let mut m = MockGS::<u32>::new();
        m.expect_m().return_const_st(Pin::new(v));
        obl!(m.m(x) == v, "return_const_st answers on the configuring thread (method of a generic struct)");
        done(m);
    }
    t_pan_gsm_const_other (3) {
        let (x, v): (u32, u32) = kani::any();
        let mut m = MockGS::<u32>::new();
        m.expect_m().return_const_st(Pin::new(v));
        must_panic!("return_const_st: a call from another thread panics (method of a generic struct)", ghost::on_other_thread(|| m.m(x)));
    }
    t_ok_gsm_withf_here (3) {
        let (x, v): (u32, u32) = kani::any();
        let mut m = MockGS::<u32>::new();
        let p = Pin::new(x);
        m.expect_m().withf_st(move |a| *a == p.get()).return_const(2u32);
        obl!(m.m(x) == 2, "withf_st selects on the configuring thread (method of a generic struct)");
        done(m);
    }
    pan_gsm_withf_other (3) {
        let (x, v): (u32, u32) = kani::any();
        let mut m = MockGS::<u32>::new();
        let p = Pin::new(x);
        m.expect_m().withf_st(move |a| *a == p.get()).return_const(2u32);
        m.expect_m().return_const(2u32);
        must_panic!("withf_st: a call from another thread panics, although a later expectation could answer it (method of a generic struct)", ghost::on_other_thread(|| m.m(x)));
    }
    t_ok_gsm_safe_anywhere (3) {
        let (x, v): (u32, u32) = kani::any();
        let mut m = MockGS::<u32>::new();
        m.expect_m().withf(|a| true).returning(move |a| v);
        let r = ghost::on_other_thread(|| m.m(x));
        obl!(r == v, "withf and returning run on any thread (method of a generic struct)");
        done(m);
    }
    pan_grr_withf_other (3) {
        let (x, v): (u32, u32) = kani::any();
        let mut m = MockG::new();
        let p = Pin::new(x);
        m.expect_rr::<u32>().withf_st(move |a| *a == p.get()).return_const(v);
        m.expect_rr::<u32>().return_const(v);
        must_panic!("withf_st: a call from another thread panics, although a later expectation could answer it (generic &self, returning a reference)", ghost::on_other_thread(|| *m.rr(x)));
    }
}
#[cfg(not(kani))]
pub fn run() { vh::kani::main(registry()) }
