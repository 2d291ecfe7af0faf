//! C13: single-threaded conditions and actions never run on another thread.
//! Contracts of `returning_st`, `return_once_st`, `return_const_st`, `withf_st` of the
//! generated expectations and guards, and of `Rfunc::call`, `Matcher::matches`, per kind of
//! method; and of their thread-safe counterparts, which do run anywhere.
#![allow(unused)]
#[path = "../../common/vh.rs"]
#[macro_use]
mod vh;
use mockall::*;
use vh::*;

pub trait Tr { fn tm(&self, x: u32) -> u32; fn ts(x: u32) -> u32; }
mock! { pub A { fn s(&self, x: u32) -> u32; fn mu(&mut self, x: u32) -> u32; fn by(self, x: u32) -> u32;
                fn sr(&self, x: u32) -> &'static u32; fn rr(&self, x: u32) -> &u32; fn rm(&mut self, x: u32) -> &mut u32;
                fn rf(&self, x: &u32) -> u32;
                #[mockall::concretize] fn cc<P: AsRef<[u8]>>(&self, x: P) -> u32; } }
mock! { pub St { fn foo(x: u32) -> u32; } }
mock! { pub T { } impl Tr for T { fn tm(&self, x: u32) -> u32; fn ts(x: u32) -> u32; } }
#[automock] pub mod mo { pub fn f(x: u32) -> u32 { x } }
#[automock] pub mod ffi { extern "C" { pub fn ext(x: u32) -> u32; } }
pub struct Im;
#[automock] impl Im { pub fn foo(&self, x: u32) -> u32 { x } }
static K: [u32; 3] = [1, 2, 3];

/// A value that must stay on the thread that made it.
pub struct Pin(u32, ghost::Here);
impl Pin {
    fn new(v: u32) -> Pin { Pin(v, ghost::here()) }
    fn get(&self) -> u32 { obl!(ghost::is_here(self.1), "a single-threaded value is not read on another thread"); self.0 }
}
impl Clone for Pin { fn clone(&self) -> Pin { obl!(ghost::is_here(self.1), "a single-threaded constant is not cloned on another thread"); Pin(self.0, self.1) } }
impl Drop for Pin { fn drop(&mut self) { obl!(ghost::is_here(self.1), "a single-threaded value is not dropped on another thread"); } }
impl From<Pin> for u32 { fn from(p: Pin) -> u32 { p.get() } }

harnesses! {
    // ---- &self: returning_st
    ok_self_returning_here (4) {
        let (x, v): (u32, u32) = kani::any();
        let mut m = MockA::new();
        let p = Pin::new(v);
        m.expect_s().returning_st(move |a| p.get());
        obl!(m.s(x) == v, "returning_st answers on the configuring thread (&self)");
        done(m);
    }
    pan_self_returning_other (4) {
        let (x, v): (u32, u32) = kani::any();
        let mut m = MockA::new();
        let p = Pin::new(v);
        m.expect_s().returning_st(move |a| p.get());
        must_panic!("returning_st: a call from another thread panics (&self)", ghost::on_other_thread(|| m.s(x)));
    }
    // ---- &self: return_once_st
    ok_self_once_here (4) {
        let (x, v): (u32, u32) = kani::any();
        let mut m = MockA::new();
        let p = Pin::new(v);
        m.expect_s().return_once_st(move |a| p.get());
        obl!(m.s(x) == v, "return_once_st answers on the configuring thread (&self)");
        done(m);
    }
    pan_self_once_other (4) {
        let (x, v): (u32, u32) = kani::any();
        let mut m = MockA::new();
        let p = Pin::new(v);
        m.expect_s().return_once_st(move |a| p.get());
        must_panic!("return_once_st: a call from another thread panics (&self)", ghost::on_other_thread(|| m.s(x)));
    }
    pan_self_returning_back (4) {
        let (x, v): (u32, u32) = kani::any();
        let mut m = core::mem::ManuallyDrop::new(MockA::new());
        ghost::on_other_thread(|| {
            let p = ghost::here();
            m.expect_s().returning_st(move |a| { obl!(ghost::is_here(p), "a single-threaded action does not run on another thread"); v });
        });
        must_panic!("returning_st: what another thread configured does not run on this one (&self)", m.s(x));
    }
    ok_self_const_here (4) {
        let (x, v): (u32, u32) = kani::any();
        let mut m = MockA::new();
        m.expect_s().return_const_st(Pin::new(v));
        obl!(m.s(x) == v, "return_const_st answers on the configuring thread (&self)");
        done(m);
    }
    pan_self_const_other (4) {
        let (x, v): (u32, u32) = kani::any();
        let mut m = MockA::new();
        m.expect_s().return_const_st(Pin::new(v));
        must_panic!("return_const_st: a call from another thread panics (&self)", ghost::on_other_thread(|| m.s(x)));
    }
    ok_self_withf_here (4) {
        let (x, y): (u32, u32) = kani::any();
        let mut m = MockA::new();
        let p = Pin::new(y);
        kani::assume(x == y);
        m.expect_s().withf_st(move |a| *a == p.get()).return_const(2u32);
        obl!(m.s(x) == 2, "withf_st selects on the configuring thread (&self)");
        done(m);
    }
    pan_self_withf_other (4) {
        let (x, y): (u32, u32) = kani::any();
        let mut m = MockA::new();
        let p = Pin::new(y);
        m.expect_s().withf_st(move |a| *a == p.get()).return_const(2u32);
        m.expect_s().return_const(2u32);
        must_panic!("withf_st: a call from another thread panics, although a later expectation could answer it (&self)", ghost::on_other_thread(|| m.s(x)));
    }
    // thread-safe counterparts run anywhere
    ok_self_safe_anywhere (4) {
        let (x, v): (u32, u32) = kani::any();
        let mut m = MockA::new();
        m.expect_s().withf(|a| true).returning(move |a| v);
        let r = ghost::on_other_thread(|| m.s(x));
        obl!(r == v, "withf and returning run on any thread (&self)");
        done(m);
    }
    ok_self_once_anywhere (4) {
        let (x, v): (u32, u32) = kani::any();
        let mut m = MockA::new();
        m.expect_s().return_once(move |a| v);
        let r = ghost::on_other_thread(|| m.s(x));
        obl!(r == v, "return_once runs on any thread (&self)");
        done(m);
    }
    ok_self_const_anywhere (4) {
        let (x, v): (u32, u32) = kani::any();
        let mut m = MockA::new();
        m.expect_s().return_const(v);
        let r = ghost::on_other_thread(|| m.s(x));
        obl!(r == v, "return_const answers on any thread (&self)");
        done(m);
    }
    // ---- &mut self: returning_st
    ok_mut_returning_here (4) {
        let (x, v): (u32, u32) = kani::any();
        let mut m = MockA::new();
        let p = Pin::new(v);
        m.expect_mu().returning_st(move |a| p.get());
        obl!(m.mu(x) == v, "returning_st answers on the configuring thread (&mut self)");
        done(m);
    }
    pan_mut_returning_other (4) {
        let (x, v): (u32, u32) = kani::any();
        let mut m = MockA::new();
        let p = Pin::new(v);
        m.expect_mu().returning_st(move |a| p.get());
        must_panic!("returning_st: a call from another thread panics (&mut self)", ghost::on_other_thread(|| m.mu(x)));
    }
    // ---- &mut self: return_once_st
    t_ok_mut_once_here (4) {
        let (x, v): (u32, u32) = kani::any();
        let mut m = MockA::new();
        let p = Pin::new(v);
        m.expect_mu().return_once_st(move |a| p.get());
        obl!(m.mu(x) == v, "return_once_st answers on the configuring thread (&mut self)");
        done(m);
    }
    pan_mut_once_other (4) {
        let (x, v): (u32, u32) = kani::any();
        let mut m = MockA::new();
        let p = Pin::new(v);
        m.expect_mu().return_once_st(move |a| p.get());
        must_panic!("return_once_st: a call from another thread panics (&mut self)", ghost::on_other_thread(|| m.mu(x)));
    }
    t_ok_mut_const_here (4) {
        let (x, v): (u32, u32) = kani::any();
        let mut m = MockA::new();
        m.expect_mu().return_const_st(Pin::new(v));
        obl!(m.mu(x) == v, "return_const_st answers on the configuring thread (&mut self)");
        done(m);
    }
    t_pan_mut_const_other (4) {
        let (x, v): (u32, u32) = kani::any();
        let mut m = MockA::new();
        m.expect_mu().return_const_st(Pin::new(v));
        must_panic!("return_const_st: a call from another thread panics (&mut self)", ghost::on_other_thread(|| m.mu(x)));
    }
    t_ok_mut_withf_here (4) {
        let (x, y): (u32, u32) = kani::any();
        let mut m = MockA::new();
        let p = Pin::new(y);
        kani::assume(x == y);
        m.expect_mu().withf_st(move |a| *a == p.get()).return_const(2u32);
        obl!(m.mu(x) == 2, "withf_st selects on the configuring thread (&mut self)");
        done(m);
    }
    pan_mut_withf_other (4) {
        let (x, y): (u32, u32) = kani::any();
        let mut m = MockA::new();
        let p = Pin::new(y);
        m.expect_mu().withf_st(move |a| *a == p.get()).return_const(2u32);
        m.expect_mu().return_const(2u32);
        must_panic!("withf_st: a call from another thread panics, although a later expectation could answer it (&mut self)", ghost::on_other_thread(|| m.mu(x)));
    }
    // thread-safe counterparts run anywhere
    t_ok_mut_safe_anywhere (4) {
        let (x, v): (u32, u32) = kani::any();
        let mut m = MockA::new();
        m.expect_mu().withf(|a| true).returning(move |a| v);
        let r = ghost::on_other_thread(|| m.mu(x));
        obl!(r == v, "withf and returning run on any thread (&mut self)");
        done(m);
    }
    t_ok_mut_once_anywhere (4) {
        let (x, v): (u32, u32) = kani::any();
        let mut m = MockA::new();
        m.expect_mu().return_once(move |a| v);
        let r = ghost::on_other_thread(|| m.mu(x));
        obl!(r == v, "return_once runs on any thread (&mut self)");
        done(m);
    }
    t_ok_mut_const_anywhere (4) {
        let (x, v): (u32, u32) = kani::any();
        let mut m = MockA::new();
        m.expect_mu().return_const(v);
        let r = ghost::on_other_thread(|| m.mu(x));
        obl!(r == v, "return_const answers on any thread (&mut self)");
        done(m);
    }
    // ---- self: returning_st
    t_ok_by_returning_here (4) {
        let (x, v): (u32, u32) = kani::any();
        let mut m = MockA::new();
        let p = Pin::new(v);
        m.expect_by().returning_st(move |a| p.get());
        obl!(m.by(x) == v, "returning_st answers on the configuring thread (self)");
    }
    pan_by_returning_other (4) {
        let (x, v): (u32, u32) = kani::any();
        let mut m = MockA::new();
        let p = Pin::new(v);
        m.expect_by().returning_st(move |a| p.get());
        #[cfg(not(kani))] kani::assume(false); // the consumed mock is destroyed on that thread: a second panic, an abort
        must_panic!("returning_st: a call from another thread panics (self)", ghost::on_other_thread(|| m.by(x)));
    }
    // ---- self: return_once_st
    t_ok_by_once_here (4) {
        let (x, v): (u32, u32) = kani::any();
        let mut m = MockA::new();
        let p = Pin::new(v);
        m.expect_by().return_once_st(move |a| p.get());
        obl!(m.by(x) == v, "return_once_st answers on the configuring thread (self)");
    }
    t_pan_by_once_other (4) {
        let (x, v): (u32, u32) = kani::any();
        let mut m = MockA::new();
        let p = Pin::new(v);
        m.expect_by().return_once_st(move |a| p.get());
        #[cfg(not(kani))] kani::assume(false); // the consumed mock is destroyed on that thread: a second panic, an abort
        must_panic!("return_once_st: a call from another thread panics (self)", ghost::on_other_thread(|| m.by(x)));
    }
    t_ok_by_const_here (4) {
        let (x, v): (u32, u32) = kani::any();
        let mut m = MockA::new();
        m.expect_by().return_const_st(Pin::new(v));
        obl!(m.by(x) == v, "return_const_st answers on the configuring thread (self)");
    }
    t_pan_by_const_other (4) {
        let (x, v): (u32, u32) = kani::any();
        let mut m = MockA::new();
        m.expect_by().return_const_st(Pin::new(v));
        #[cfg(not(kani))] kani::assume(false); // the consumed mock is destroyed on that thread: a second panic, an abort
        must_panic!("return_const_st: a call from another thread panics (self)", ghost::on_other_thread(|| m.by(x)));
    }
    t_ok_by_withf_here (4) {
        let (x, y): (u32, u32) = kani::any();
        let mut m = MockA::new();
        let p = Pin::new(y);
        kani::assume(x == y);
        m.expect_by().withf_st(move |a| *a == p.get()).return_const(2u32);
        obl!(m.by(x) == 2, "withf_st selects on the configuring thread (self)");
    }
    t_pan_by_withf_other (4) {
        let (x, y): (u32, u32) = kani::any();
        let mut m = MockA::new();
        let p = Pin::new(y);
        m.expect_by().withf_st(move |a| *a == p.get()).return_const(2u32);
        m.expect_by().return_const(2u32);
        #[cfg(not(kani))] kani::assume(false); // the consumed mock is destroyed on that thread: a second panic, an abort
        must_panic!("withf_st: a call from another thread panics, although a later expectation could answer it (self)", ghost::on_other_thread(|| m.by(x)));
    }
    // thread-safe counterparts run anywhere
    t_ok_by_safe_anywhere (4) {
        let (x, v): (u32, u32) = kani::any();
        let mut m = MockA::new();
        m.expect_by().withf(|a| true).returning(move |a| v);
        let r = ghost::on_other_thread(|| m.by(x));
        obl!(r == v, "withf and returning run on any thread (self)");
    }
    t_ok_by_once_anywhere (4) {
        let (x, v): (u32, u32) = kani::any();
        let mut m = MockA::new();
        m.expect_by().return_once(move |a| v);
        let r = ghost::on_other_thread(|| m.by(x));
        obl!(r == v, "return_once runs on any thread (self)");
    }
    t_ok_by_const_anywhere (4) {
        let (x, v): (u32, u32) = kani::any();
        let mut m = MockA::new();
        m.expect_by().return_const(v);
        let r = ghost::on_other_thread(|| m.by(x));
        obl!(r == v, "return_const answers on any thread (self)");
    }
    // ---- &self, returning a 'static reference: returning_st
    ok_sref_returning_here (4) {
        let (x, v): (u32, u32) = kani::any();
        let mut m = MockA::new();
        let p = Pin::new(v);
        m.expect_sr().returning_st(move |a| &K[(p.get() % 3) as usize]);
        obl!(*m.sr(x) == K[(v % 3) as usize], "returning_st answers on the configuring thread (&self, returning a 'static reference)");
        done(m);
    }
    pan_sref_returning_other (4) {
        let (x, v): (u32, u32) = kani::any();
        let mut m = MockA::new();
        let p = Pin::new(v);
        m.expect_sr().returning_st(move |a| &K[(p.get() % 3) as usize]);
        must_panic!("returning_st: a call from another thread panics (&self, returning a 'static reference)", ghost::on_other_thread(|| *m.sr(x)));
    }
    // ---- &self, returning a 'static reference: return_once_st
    t_ok_sref_once_here (4) {
        let (x, v): (u32, u32) = kani::any();
        let mut m = MockA::new();
        let p = Pin::new(v);
        m.expect_sr().return_once_st(move |a| &K[(p.get() % 3) as usize]);
        obl!(*m.sr(x) == K[(v % 3) as usize], "return_once_st answers on the configuring thread (&self, returning a 'static reference)");
        done(m);
    }
    pan_sref_once_other (4) {
        let (x, v): (u32, u32) = kani::any();
        let mut m = MockA::new();
        let p = Pin::new(v);
        m.expect_sr().return_once_st(move |a| &K[(p.get() % 3) as usize]);
        must_panic!("return_once_st: a call from another thread panics (&self, returning a 'static reference)", ghost::on_other_thread(|| *m.sr(x)));
    }
    t_pan_sref_returning_back (4) {
        let (x, v): (u32, u32) = kani::any();
        let mut m = core::mem::ManuallyDrop::new(MockA::new());
        ghost::on_other_thread(|| {
            let p = ghost::here();
            m.expect_sr().returning_st(move |a| { obl!(ghost::is_here(p), "a single-threaded action does not run on another thread"); &K[(v % 3) as usize] });
        });
        must_panic!("returning_st: what another thread configured does not run on this one (&self, returning a 'static reference)", *m.sr(x));
    }
    t_ok_sref_withf_here (4) {
        let (x, y): (u32, u32) = kani::any();
        let mut m = MockA::new();
        let p = Pin::new(y);
        kani::assume(x == y);
        m.expect_sr().withf_st(move |a| *a == p.get()).return_const(&K[1]);
        obl!(*m.sr(x) == 2, "withf_st selects on the configuring thread (&self, returning a 'static reference)");
        done(m);
    }
    pan_sref_withf_other (4) {
        let (x, y): (u32, u32) = kani::any();
        let mut m = MockA::new();
        let p = Pin::new(y);
        m.expect_sr().withf_st(move |a| *a == p.get()).return_const(&K[1]);
        m.expect_sr().return_const(&K[1]);
        must_panic!("withf_st: a call from another thread panics, although a later expectation could answer it (&self, returning a 'static reference)", ghost::on_other_thread(|| *m.sr(x)));
    }
    // thread-safe counterparts run anywhere
    t_ok_sref_safe_anywhere (4) {
        let (x, v): (u32, u32) = kani::any();
        let mut m = MockA::new();
        m.expect_sr().withf(|a| true).returning(move |a| &K[(v % 3) as usize]);
        let r = ghost::on_other_thread(|| *m.sr(x));
        obl!(r == K[(v % 3) as usize], "withf and returning run on any thread (&self, returning a 'static reference)");
        done(m);
    }
    t_ok_sref_once_anywhere (4) {
        let (x, v): (u32, u32) = kani::any();
        let mut m = MockA::new();
        m.expect_sr().return_once(move |a| &K[(v % 3) as usize]);
        let r = ghost::on_other_thread(|| *m.sr(x));
        obl!(r == K[(v % 3) as usize], "return_once runs on any thread (&self, returning a 'static reference)");
        done(m);
    }
    // ---- &mut self, returning a mutable reference: returning_st
    ok_rmut_returning_here (4) {
        let (x, v): (u32, u32) = kani::any();
        let mut m = MockA::new();
        let p = Pin::new(v);
        m.expect_rm().returning_st(move |a| p.get());
        obl!(*m.rm(x) == v, "returning_st answers on the configuring thread (&mut self, returning a mutable reference)");
        done(m);
    }
    pan_rmut_returning_other (4) {
        let (x, v): (u32, u32) = kani::any();
        let mut m = MockA::new();
        let p = Pin::new(v);
        m.expect_rm().returning_st(move |a| p.get());
        must_panic!("returning_st: a call from another thread panics (&mut self, returning a mutable reference)", ghost::on_other_thread(|| *m.rm(x)));
    }
    t_pan_rmut_returning_back (4) {
        let (x, v): (u32, u32) = kani::any();
        let mut m = core::mem::ManuallyDrop::new(MockA::new());
        ghost::on_other_thread(|| {
            let p = ghost::here();
            m.expect_rm().returning_st(move |a| { obl!(ghost::is_here(p), "a single-threaded action does not run on another thread"); v });
        });
        must_panic!("returning_st: what another thread configured does not run on this one (&mut self, returning a mutable reference)", *m.rm(x));
    }
    t_ok_rmut_withf_here (4) {
        let (x, y): (u32, u32) = kani::any();
        let mut m = MockA::new();
        let p = Pin::new(y);
        kani::assume(x == y);
        m.expect_rm().withf_st(move |a| *a == p.get()).returning(|_| 2u32);
        obl!(*m.rm(x) == 2, "withf_st selects on the configuring thread (&mut self, returning a mutable reference)");
        done(m);
    }
    pan_rmut_withf_other (4) {
        let (x, y): (u32, u32) = kani::any();
        let mut m = MockA::new();
        let p = Pin::new(y);
        m.expect_rm().withf_st(move |a| *a == p.get()).returning(|_| 2u32);
        m.expect_rm().returning(|_| 2u32);
        must_panic!("withf_st: a call from another thread panics, although a later expectation could answer it (&mut self, returning a mutable reference)", ghost::on_other_thread(|| *m.rm(x)));
    }
    // thread-safe counterparts run anywhere
    t_ok_rmut_safe_anywhere (4) {
        let (x, v): (u32, u32) = kani::any();
        let mut m = MockA::new();
        m.expect_rm().withf(|a| true).returning(move |a| v);
        let r = ghost::on_other_thread(|| *m.rm(x));
        obl!(r == v, "withf and returning run on any thread (&mut self, returning a mutable reference)");
        done(m);
    }
    // ---- reference argument: returning_st
    t_ok_refarg_returning_here (4) {
        let (x, v): (u32, u32) = kani::any();
        let mut m = MockA::new();
        let p = Pin::new(v);
        m.expect_rf().returning_st(move |a| p.get());
        obl!(m.rf(&x) == v, "returning_st answers on the configuring thread (reference argument)");
        done(m);
    }
    t_pan_refarg_returning_other (4) {
        let (x, v): (u32, u32) = kani::any();
        let mut m = MockA::new();
        let p = Pin::new(v);
        m.expect_rf().returning_st(move |a| p.get());
        must_panic!("returning_st: a call from another thread panics (reference argument)", ghost::on_other_thread(|| m.rf(&x)));
    }
    // ---- reference argument: return_once_st
    t_ok_refarg_once_here (4) {
        let (x, v): (u32, u32) = kani::any();
        let mut m = MockA::new();
        let p = Pin::new(v);
        m.expect_rf().return_once_st(move |a| p.get());
        obl!(m.rf(&x) == v, "return_once_st answers on the configuring thread (reference argument)");
        done(m);
    }
    t_pan_refarg_once_other (4) {
        let (x, v): (u32, u32) = kani::any();
        let mut m = MockA::new();
        let p = Pin::new(v);
        m.expect_rf().return_once_st(move |a| p.get());
        must_panic!("return_once_st: a call from another thread panics (reference argument)", ghost::on_other_thread(|| m.rf(&x)));
    }
    t_ok_refarg_const_here (4) {
        let (x, v): (u32, u32) = kani::any();
        let mut m = MockA::new();
        m.expect_rf().return_const_st(Pin::new(v));
        obl!(m.rf(&x) == v, "return_const_st answers on the configuring thread (reference argument)");
        done(m);
    }
    t_pan_refarg_const_other (4) {
        let (x, v): (u32, u32) = kani::any();
        let mut m = MockA::new();
        m.expect_rf().return_const_st(Pin::new(v));
        must_panic!("return_const_st: a call from another thread panics (reference argument)", ghost::on_other_thread(|| m.rf(&x)));
    }
    t_ok_refarg_withf_here (4) {
        let (x, y): (u32, u32) = kani::any();
        let mut m = MockA::new();
        let p = Pin::new(y);
        kani::assume(x == y);
        m.expect_rf().withf_st(move |a| *a == p.get()).return_const(2u32);
        obl!(m.rf(&x) == 2, "withf_st selects on the configuring thread (reference argument)");
        done(m);
    }
    t_pan_refarg_withf_other (4) {
        let (x, y): (u32, u32) = kani::any();
        let mut m = MockA::new();
        let p = Pin::new(y);
        m.expect_rf().withf_st(move |a| *a == p.get()).return_const(2u32);
        m.expect_rf().return_const(2u32);
        must_panic!("withf_st: a call from another thread panics, although a later expectation could answer it (reference argument)", ghost::on_other_thread(|| m.rf(&x)));
    }
    // ---- trait method: returning_st
    t_ok_trait_returning_here (4) {
        let (x, v): (u32, u32) = kani::any();
        let mut m = MockT::new();
        let p = Pin::new(v);
        m.expect_tm().returning_st(move |a| p.get());
        obl!(Tr::tm(&m, x) == v, "returning_st answers on the configuring thread (trait method)");
        done(m);
    }
    t_pan_trait_returning_other (4) {
        let (x, v): (u32, u32) = kani::any();
        let mut m = MockT::new();
        let p = Pin::new(v);
        m.expect_tm().returning_st(move |a| p.get());
        must_panic!("returning_st: a call from another thread panics (trait method)", ghost::on_other_thread(|| Tr::tm(&m, x)));
    }
    // ---- trait method: return_once_st
    t_ok_trait_once_here (4) {
        let (x, v): (u32, u32) = kani::any();
        let mut m = MockT::new();
        let p = Pin::new(v);
        m.expect_tm().return_once_st(move |a| p.get());
        obl!(Tr::tm(&m, x) == v, "return_once_st answers on the configuring thread (trait method)");
        done(m);
    }
    t_pan_trait_once_other (4) {
        let (x, v): (u32, u32) = kani::any();
        let mut m = MockT::new();
        let p = Pin::new(v);
        m.expect_tm().return_once_st(move |a| p.get());
        must_panic!("return_once_st: a call from another thread panics (trait method)", ghost::on_other_thread(|| Tr::tm(&m, x)));
    }
    t_ok_trait_const_here (4) {
        let (x, v): (u32, u32) = kani::any();
        let mut m = MockT::new();
        m.expect_tm().return_const_st(Pin::new(v));
        obl!(Tr::tm(&m, x) == v, "return_const_st answers on the configuring thread (trait method)");
        done(m);
    }
    t_pan_trait_const_other (4) {
        let (x, v): (u32, u32) = kani::any();
        let mut m = MockT::new();
        m.expect_tm().return_const_st(Pin::new(v));
        must_panic!("return_const_st: a call from another thread panics (trait method)", ghost::on_other_thread(|| Tr::tm(&m, x)));
    }
    t_ok_trait_withf_here (4) {
        let (x, y): (u32, u32) = kani::any();
        let mut m = MockT::new();
        let p = Pin::new(y);
        kani::assume(x == y);
        m.expect_tm().withf_st(move |a| *a == p.get()).return_const(2u32);
        obl!(Tr::tm(&m, x) == 2, "withf_st selects on the configuring thread (trait method)");
        done(m);
    }
    t_pan_trait_withf_other (4) {
        let (x, y): (u32, u32) = kani::any();
        let mut m = MockT::new();
        let p = Pin::new(y);
        m.expect_tm().withf_st(move |a| *a == p.get()).return_const(2u32);
        m.expect_tm().return_const(2u32);
        must_panic!("withf_st: a call from another thread panics, although a later expectation could answer it (trait method)", ghost::on_other_thread(|| Tr::tm(&m, x)));
    }
    // ---- automocked struct: returning_st
    t_ok_im_returning_here (4) {
        let (x, v): (u32, u32) = kani::any();
        let mut m = MockIm::new();
        let p = Pin::new(v);
        m.expect_foo().returning_st(move |a| p.get());
        obl!(m.foo(x) == v, "returning_st answers on the configuring thread (automocked struct)");
        done(m);
    }
    t_pan_im_returning_other (4) {
        let (x, v): (u32, u32) = kani::any();
        let mut m = MockIm::new();
        let p = Pin::new(v);
        m.expect_foo().returning_st(move |a| p.get());
        must_panic!("returning_st: a call from another thread panics (automocked struct)", ghost::on_other_thread(|| m.foo(x)));
    }
    // ---- automocked struct: return_once_st
    t_ok_im_once_here (4) {
        let (x, v): (u32, u32) = kani::any();
        let mut m = MockIm::new();
        let p = Pin::new(v);
        m.expect_foo().return_once_st(move |a| p.get());
        obl!(m.foo(x) == v, "return_once_st answers on the configuring thread (automocked struct)");
        done(m);
    }
    t_pan_im_once_other (4) {
        let (x, v): (u32, u32) = kani::any();
        let mut m = MockIm::new();
        let p = Pin::new(v);
        m.expect_foo().return_once_st(move |a| p.get());
        must_panic!("return_once_st: a call from another thread panics (automocked struct)", ghost::on_other_thread(|| m.foo(x)));
    }
    t_ok_im_const_here (4) {
        let (x, v): (u32, u32) = kani::any();
        let mut m = MockIm::new();
        m.expect_foo().return_const_st(Pin::new(v));
        obl!(m.foo(x) == v, "return_const_st answers on the configuring thread (automocked struct)");
        done(m);
    }
    t_pan_im_const_other (4) {
        let (x, v): (u32, u32) = kani::any();
        let mut m = MockIm::new();
        m.expect_foo().return_const_st(Pin::new(v));
        must_panic!("return_const_st: a call from another thread panics (automocked struct)", ghost::on_other_thread(|| m.foo(x)));
    }
    t_ok_im_withf_here (4) {
        let (x, y): (u32, u32) = kani::any();
        let mut m = MockIm::new();
        let p = Pin::new(y);
        kani::assume(x == y);
        m.expect_foo().withf_st(move |a| *a == p.get()).return_const(2u32);
        obl!(m.foo(x) == 2, "withf_st selects on the configuring thread (automocked struct)");
        done(m);
    }
    t_pan_im_withf_other (4) {
        let (x, y): (u32, u32) = kani::any();
        let mut m = MockIm::new();
        let p = Pin::new(y);
        m.expect_foo().withf_st(move |a| *a == p.get()).return_const(2u32);
        m.expect_foo().return_const(2u32);
        must_panic!("withf_st: a call from another thread panics, although a later expectation could answer it (automocked struct)", ghost::on_other_thread(|| m.foo(x)));
    }
    // ---- concretized generic method: returning_st
    ok_conc_returning_here (4) {
        let (x, v): (u32, u32) = kani::any();
        let mut m = MockA::new();
        let p = Pin::new(v);
        m.expect_cc().returning_st(move |a| p.get());
        obl!(m.cc([x as u8]) == v, "returning_st answers on the configuring thread (concretized generic method)");
        done(m);
    }
    pan_conc_returning_other (4) {
        let (x, v): (u32, u32) = kani::any();
        let mut m = MockA::new();
        let p = Pin::new(v);
        m.expect_cc().returning_st(move |a| p.get());
        must_panic!("returning_st: a call from another thread panics (concretized generic method)", ghost::on_other_thread(|| m.cc([x as u8])));
    }
    // ---- concretized generic method: return_once_st
    t_ok_conc_once_here (4) {
        let (x, v): (u32, u32) = kani::any();
        let mut m = MockA::new();
        let p = Pin::new(v);
        m.expect_cc().return_once_st(move |a| p.get());
        obl!(m.cc([x as u8]) == v, "return_once_st answers on the configuring thread (concretized generic method)");
        done(m);
    }
    pan_conc_once_other (4) {
        let (x, v): (u32, u32) = kani::any();
        let mut m = MockA::new();
        let p = Pin::new(v);
        m.expect_cc().return_once_st(move |a| p.get());
        must_panic!("return_once_st: a call from another thread panics (concretized generic method)", ghost::on_other_thread(|| m.cc([x as u8])));
    }
    t_ok_conc_const_here (4) {
        let (x, v): (u32, u32) = kani::any();
        let mut m = MockA::new();
        m.expect_cc().return_const_st(Pin::new(v));
        obl!(m.cc([x as u8]) == v, "return_const_st answers on the configuring thread (concretized generic method)");
        done(m);
    }
    t_pan_conc_const_other (4) {
        let (x, v): (u32, u32) = kani::any();
        let mut m = MockA::new();
        m.expect_cc().return_const_st(Pin::new(v));
        must_panic!("return_const_st: a call from another thread panics (concretized generic method)", ghost::on_other_thread(|| m.cc([x as u8])));
    }
    t_ok_conc_withf_here (4) {
        let (x, y): (u32, u32) = kani::any();
        let mut m = MockA::new();
        let p = Pin::new(y);
        kani::assume(x == y);
        m.expect_cc().withf_st(move |a| a.as_ref()[0] == p.get() as u8).return_const(2u32);
        obl!(m.cc([x as u8]) == 2, "withf_st selects on the configuring thread (concretized generic method)");
        done(m);
    }
    pan_conc_withf_other (4) {
        let (x, y): (u32, u32) = kani::any();
        let mut m = MockA::new();
        let p = Pin::new(y);
        m.expect_cc().withf_st(move |a| a.as_ref()[0] == p.get() as u8).return_const(2u32);
        m.expect_cc().return_const(2u32);
        must_panic!("withf_st: a call from another thread panics, although a later expectation could answer it (concretized generic method)", ghost::on_other_thread(|| m.cc([x as u8])));
    }
    // thread-safe counterparts run anywhere
    t_ok_conc_safe_anywhere (4) {
        let (x, v): (u32, u32) = kani::any();
        let mut m = MockA::new();
        m.expect_cc().withf(|a| true).returning(move |a| v);
        let r = ghost::on_other_thread(|| m.cc([x as u8]));
        obl!(r == v, "withf and returning run on any thread (concretized generic method)");
        done(m);
    }
    t_ok_conc_once_anywhere (4) {
        let (x, v): (u32, u32) = kani::any();
        let mut m = MockA::new();
        m.expect_cc().return_once(move |a| v);
        let r = ghost::on_other_thread(|| m.cc([x as u8]));
        obl!(r == v, "return_once runs on any thread (concretized generic method)");
        done(m);
    }
    t_ok_conc_const_anywhere (4) {
        let (x, v): (u32, u32) = kani::any();
        let mut m = MockA::new();
        m.expect_cc().return_const(v);
        let r = ghost::on_other_thread(|| m.cc([x as u8]));
        obl!(r == v, "return_const answers on any thread (concretized generic method)");
        done(m);
    }
    // ---- static method: returning_st
    ok_stat_returning_here (4) {
        let (x, v): (u32, u32) = kani::any();
        let m = MockSt::foo_context();
        let p = Pin::new(v);
        m.expect().returning_st(move |a| p.get());
        obl!(MockSt::foo(x) == v, "returning_st answers on the configuring thread (static method)");
        done(m);
    }
    pan_stat_returning_other (4) {
        let (x, v): (u32, u32) = kani::any();
        let m = MockSt::foo_context();
        let p = Pin::new(v);
        m.expect().returning_st(move |a| p.get());
        must_panic!("returning_st: a call from another thread panics (static method)", ghost::on_other_thread(|| MockSt::foo(x)));
    }
    // ---- static method: return_once_st
    ok_stat_once_here (4) {
        let (x, v): (u32, u32) = kani::any();
        let m = MockSt::foo_context();
        let p = Pin::new(v);
        m.expect().return_once_st(move |a| p.get());
        obl!(MockSt::foo(x) == v, "return_once_st answers on the configuring thread (static method)");
        done(m);
    }
    pan_stat_once_other (4) {
        let (x, v): (u32, u32) = kani::any();
        let m = MockSt::foo_context();
        let p = Pin::new(v);
        m.expect().return_once_st(move |a| p.get());
        must_panic!("return_once_st: a call from another thread panics (static method)", ghost::on_other_thread(|| MockSt::foo(x)));
    }
    ok_stat_const_here (4) {
        let (x, v): (u32, u32) = kani::any();
        let m = MockSt::foo_context();
        m.expect().return_const_st(Pin::new(v));
        obl!(MockSt::foo(x) == v, "return_const_st answers on the configuring thread (static method)");
        done(m);
    }
    pan_stat_const_other (4) {
        let (x, v): (u32, u32) = kani::any();
        let m = MockSt::foo_context();
        m.expect().return_const_st(Pin::new(v));
        must_panic!("return_const_st: a call from another thread panics (static method)", ghost::on_other_thread(|| MockSt::foo(x)));
    }
    ok_stat_withf_here (4) {
        let (x, y): (u32, u32) = kani::any();
        let m = MockSt::foo_context();
        let p = Pin::new(y);
        kani::assume(x == y);
        m.expect().withf_st(move |a| *a == p.get()).return_const(2u32);
        obl!(MockSt::foo(x) == 2, "withf_st selects on the configuring thread (static method)");
        done(m);
    }
    pan_stat_withf_other (4) {
        let (x, y): (u32, u32) = kani::any();
        let m = MockSt::foo_context();
        let p = Pin::new(y);
        m.expect().withf_st(move |a| *a == p.get()).return_const(2u32);
        m.expect().return_const(2u32);
        must_panic!("withf_st: a call from another thread panics, although a later expectation could answer it (static method)", ghost::on_other_thread(|| MockSt::foo(x)));
    }
    // thread-safe counterparts run anywhere
    ok_stat_safe_anywhere (4) {
        let (x, v): (u32, u32) = kani::any();
        let m = MockSt::foo_context();
        m.expect().withf(|a| true).returning(move |a| v);
        let r = ghost::on_other_thread(|| MockSt::foo(x));
        obl!(r == v, "withf and returning run on any thread (static method)");
        done(m);
    }
    ok_stat_once_anywhere (4) {
        let (x, v): (u32, u32) = kani::any();
        let m = MockSt::foo_context();
        m.expect().return_once(move |a| v);
        let r = ghost::on_other_thread(|| MockSt::foo(x));
        obl!(r == v, "return_once runs on any thread (static method)");
        done(m);
    }
    ok_stat_const_anywhere (4) {
        let (x, v): (u32, u32) = kani::any();
        let m = MockSt::foo_context();
        m.expect().return_const(v);
        let r = ghost::on_other_thread(|| MockSt::foo(x));
        obl!(r == v, "return_const answers on any thread (static method)");
        done(m);
    }
    // ---- static trait method: returning_st
    t_ok_tstat_returning_here (4) {
        let (x, v): (u32, u32) = kani::any();
        let m = MockT::ts_context();
        let p = Pin::new(v);
        m.expect().returning_st(move |a| p.get());
        obl!(<MockT as Tr>::ts(x) == v, "returning_st answers on the configuring thread (static trait method)");
        done(m);
    }
    pan_tstat_returning_other (4) {
        let (x, v): (u32, u32) = kani::any();
        let m = MockT::ts_context();
        let p = Pin::new(v);
        m.expect().returning_st(move |a| p.get());
        must_panic!("returning_st: a call from another thread panics (static trait method)", ghost::on_other_thread(|| <MockT as Tr>::ts(x)));
    }
    // ---- static trait method: return_once_st
    t_ok_tstat_once_here (4) {
        let (x, v): (u32, u32) = kani::any();
        let m = MockT::ts_context();
        let p = Pin::new(v);
        m.expect().return_once_st(move |a| p.get());
        obl!(<MockT as Tr>::ts(x) == v, "return_once_st answers on the configuring thread (static trait method)");
        done(m);
    }
    t_pan_tstat_once_other (4) {
        let (x, v): (u32, u32) = kani::any();
        let m = MockT::ts_context();
        let p = Pin::new(v);
        m.expect().return_once_st(move |a| p.get());
        must_panic!("return_once_st: a call from another thread panics (static trait method)", ghost::on_other_thread(|| <MockT as Tr>::ts(x)));
    }
    t_ok_tstat_const_here (4) {
        let (x, v): (u32, u32) = kani::any();
        let m = MockT::ts_context();
        m.expect().return_const_st(Pin::new(v));
        obl!(<MockT as Tr>::ts(x) == v, "return_const_st answers on the configuring thread (static trait method)");
        done(m);
    }
    t_pan_tstat_const_other (4) {
        let (x, v): (u32, u32) = kani::any();
        let m = MockT::ts_context();
        m.expect().return_const_st(Pin::new(v));
        must_panic!("return_const_st: a call from another thread panics (static trait method)", ghost::on_other_thread(|| <MockT as Tr>::ts(x)));
    }
    t_ok_tstat_withf_here (4) {
        let (x, y): (u32, u32) = kani::any();
        let m = MockT::ts_context();
        let p = Pin::new(y);
        kani::assume(x == y);
        m.expect().withf_st(move |a| *a == p.get()).return_const(2u32);
        obl!(<MockT as Tr>::ts(x) == 2, "withf_st selects on the configuring thread (static trait method)");
        done(m);
    }
    t_pan_tstat_withf_other (4) {
        let (x, y): (u32, u32) = kani::any();
        let m = MockT::ts_context();
        let p = Pin::new(y);
        m.expect().withf_st(move |a| *a == p.get()).return_const(2u32);
        m.expect().return_const(2u32);
        must_panic!("withf_st: a call from another thread panics, although a later expectation could answer it (static trait method)", ghost::on_other_thread(|| <MockT as Tr>::ts(x)));
    }
    // ---- function of a module: returning_st
    ok_modf_returning_here (4) {
        let (x, v): (u32, u32) = kani::any();
        let m = mock_mo::f_context();
        let p = Pin::new(v);
        m.expect().returning_st(move |a| p.get());
        obl!(mock_mo::f(x) == v, "returning_st answers on the configuring thread (function of a module)");
        done(m);
    }
    pan_modf_returning_other (4) {
        let (x, v): (u32, u32) = kani::any();
        let m = mock_mo::f_context();
        let p = Pin::new(v);
        m.expect().returning_st(move |a| p.get());
        must_panic!("returning_st: a call from another thread panics (function of a module)", ghost::on_other_thread(|| mock_mo::f(x)));
    }
    // ---- function of a module: return_once_st
    t_ok_modf_once_here (4) {
        let (x, v): (u32, u32) = kani::any();
        let m = mock_mo::f_context();
        let p = Pin::new(v);
        m.expect().return_once_st(move |a| p.get());
        obl!(mock_mo::f(x) == v, "return_once_st answers on the configuring thread (function of a module)");
        done(m);
    }
    pan_modf_once_other (4) {
        let (x, v): (u32, u32) = kani::any();
        let m = mock_mo::f_context();
        let p = Pin::new(v);
        m.expect().return_once_st(move |a| p.get());
        must_panic!("return_once_st: a call from another thread panics (function of a module)", ghost::on_other_thread(|| mock_mo::f(x)));
    }
    t_ok_modf_const_here (4) {
        let (x, v): (u32, u32) = kani::any();
        let m = mock_mo::f_context();
        m.expect().return_const_st(Pin::new(v));
        obl!(mock_mo::f(x) == v, "return_const_st answers on the configuring thread (function of a module)");
        done(m);
    }
    t_pan_modf_const_other (4) {
        let (x, v): (u32, u32) = kani::any();
        let m = mock_mo::f_context();
        m.expect().return_const_st(Pin::new(v));
        must_panic!("return_const_st: a call from another thread panics (function of a module)", ghost::on_other_thread(|| mock_mo::f(x)));
    }
    t_ok_modf_withf_here (4) {
        let (x, y): (u32, u32) = kani::any();
        let m = mock_mo::f_context();
        let p = Pin::new(y);
        kani::assume(x == y);
        m.expect().withf_st(move |a| *a == p.get()).return_const(2u32);
        obl!(mock_mo::f(x) == 2, "withf_st selects on the configuring thread (function of a module)");
        done(m);
    }
    pan_modf_withf_other (4) {
        let (x, y): (u32, u32) = kani::any();
        let m = mock_mo::f_context();
        let p = Pin::new(y);
        m.expect().withf_st(move |a| *a == p.get()).return_const(2u32);
        m.expect().return_const(2u32);
        must_panic!("withf_st: a call from another thread panics, although a later expectation could answer it (function of a module)", ghost::on_other_thread(|| mock_mo::f(x)));
    }
    // thread-safe counterparts run anywhere
    t_ok_modf_safe_anywhere (4) {
        let (x, v): (u32, u32) = kani::any();
        let m = mock_mo::f_context();
        m.expect().withf(|a| true).returning(move |a| v);
        let r = ghost::on_other_thread(|| mock_mo::f(x));
        obl!(r == v, "withf and returning run on any thread (function of a module)");
        done(m);
    }
    t_ok_modf_once_anywhere (4) {
        let (x, v): (u32, u32) = kani::any();
        let m = mock_mo::f_context();
        m.expect().return_once(move |a| v);
        let r = ghost::on_other_thread(|| mock_mo::f(x));
        obl!(r == v, "return_once runs on any thread (function of a module)");
        done(m);
    }
    t_ok_modf_const_anywhere (4) {
        let (x, v): (u32, u32) = kani::any();
        let m = mock_mo::f_context();
        m.expect().return_const(v);
        let r = ghost::on_other_thread(|| mock_mo::f(x));
        obl!(r == v, "return_const answers on any thread (function of a module)");
        done(m);
    }
    // ---- foreign function: returning_st
    t_ok_ext_returning_here (4) {
        let (x, v): (u32, u32) = kani::any();
        let m = mock_ffi::ext_context();
        let p = Pin::new(v);
        m.expect().returning_st(move |a| p.get());
        obl!(unsafe { mock_ffi::ext(x) } == v, "returning_st answers on the configuring thread (foreign function)");
        done(m);
    }
    t_pan_ext_returning_other (4) {
        let (x, v): (u32, u32) = kani::any();
        let m = mock_ffi::ext_context();
        let p = Pin::new(v);
        m.expect().returning_st(move |a| p.get());
        must_panic!("returning_st: a call from another thread panics (foreign function)", ghost::on_other_thread(|| unsafe { mock_ffi::ext(x) }));
    }
    // ---- foreign function: return_once_st
    t_ok_ext_once_here (4) {
        let (x, v): (u32, u32) = kani::any();
        let m = mock_ffi::ext_context();
        let p = Pin::new(v);
        m.expect().return_once_st(move |a| p.get());
        obl!(unsafe { mock_ffi::ext(x) } == v, "return_once_st answers on the configuring thread (foreign function)");
        done(m);
    }
    t_pan_ext_once_other (4) {
        let (x, v): (u32, u32) = kani::any();
        let m = mock_ffi::ext_context();
        let p = Pin::new(v);
        m.expect().return_once_st(move |a| p.get());
        must_panic!("return_once_st: a call from another thread panics (foreign function)", ghost::on_other_thread(|| unsafe { mock_ffi::ext(x) }));
    }
    t_ok_ext_const_here (4) {
        let (x, v): (u32, u32) = kani::any();
        let m = mock_ffi::ext_context();
        m.expect().return_const_st(Pin::new(v));
        obl!(unsafe { mock_ffi::ext(x) } == v, "return_const_st answers on the configuring thread (foreign function)");
        done(m);
    }
    t_pan_ext_const_other (4) {
        let (x, v): (u32, u32) = kani::any();
        let m = mock_ffi::ext_context();
        m.expect().return_const_st(Pin::new(v));
        must_panic!("return_const_st: a call from another thread panics (foreign function)", ghost::on_other_thread(|| unsafe { mock_ffi::ext(x) }));
    }
    t_ok_ext_withf_here (4) {
        let (x, y): (u32, u32) = kani::any();
        let m = mock_ffi::ext_context();
        let p = Pin::new(y);
        kani::assume(x == y);
        m.expect().withf_st(move |a| *a == p.get()).return_const(2u32);
        obl!(unsafe { mock_ffi::ext(x) } == 2, "withf_st selects on the configuring thread (foreign function)");
        done(m);
    }
    t_pan_ext_withf_other (4) {
        let (x, y): (u32, u32) = kani::any();
        let m = mock_ffi::ext_context();
        let p = Pin::new(y);
        m.expect().withf_st(move |a| *a == p.get()).return_const(2u32);
        m.expect().return_const(2u32);
        must_panic!("withf_st: a call from another thread panics, although a later expectation could answer it (foreign function)", ghost::on_other_thread(|| unsafe { mock_ffi::ext(x) }));
    }
    // ---- &self, returning a reference: only conditions can be single-threaded
    ok_rr_withf_here (4) {
        let (x, v): (u32, u32) = kani::any();
        let mut m = MockA::new();
        let p = Pin::new(x);
        m.expect_rr().withf_st(move |a| *a == p.get()).return_const(v);
        obl!(*m.rr(x) == v, "withf_st selects on the configuring thread (&self, returning a reference)");
        done(m);
    }
    pan_rr_withf_other (4) {
        let (x, v): (u32, u32) = kani::any();
        let mut m = MockA::new();
        let p = Pin::new(x);
        m.expect_rr().withf_st(move |a| *a == p.get()).return_const(v);
        m.expect_rr().return_const(v);
        must_panic!("withf_st: a call from another thread panics, although a later expectation could answer it (&self, returning a reference)", ghost::on_other_thread(|| *m.rr(x)));
    }
    ok_rr_anywhere (4) {
        let (x, v): (u32, u32) = kani::any();
        let mut m = MockA::new();
        m.expect_rr().return_const(v);
        let r = ghost::on_other_thread(|| *m.rr(x));
        obl!(r == v, "a constant reference answers on any thread");
        done(m);
    }
    // ---- combinations
    ok_mixed_unselected (4) {
        // a single-threaded action that is not selected does not hinder another thread
        let (x, v): (u32, u32) = kani::any();
        let mut m = MockA::new();
        let p = Pin::new(v);
        m.expect_s().withf(|a| false).returning_st(move |a| p.get());
        m.expect_s().return_const(v);
        let r = ghost::on_other_thread(|| m.s(x));
        obl!(r == v, "an expectation that is not selected does not matter on another thread");
        done(m);
    }
    pan_mixed_once_then (4) {
        let (x, v): (u32, u32) = kani::any();
        let mut m = MockA::new();
        let p = Pin::new(v);
        m.expect_s().withf(|a| true).returning_st(move |a| p.get());
        m.expect_s().return_const(v);
        must_panic!("the selected single-threaded action panics even if a later expectation could answer", ghost::on_other_thread(|| m.s(x)));
    }
    ok_seen_here_first (4) {
        // repeated use on the configuring thread
        let (x, v): (u32, u32) = kani::any();
        let mut m = MockA::new();
        let p = Pin::new(v);
        m.expect_s().returning_st(move |a| p.get());
        obl!(m.s(x) == v && m.s(x) == v, "returning_st answers repeatedly on the configuring thread");
        done(m);
    }
    pan_after_here (4) {
        let (x, v): (u32, u32) = kani::any();
        let mut m = MockA::new();
        let p = Pin::new(v);
        m.expect_s().returning_st(move |a| p.get());
        obl!(m.s(x) == v, "returning_st answers on the configuring thread");
        must_panic!("returning_st: a call from another thread panics after earlier good calls", ghost::on_other_thread(|| m.s(x)));
    }
    ok_drop_here (4) {
        let v: u32 = kani::any();
        let mut m = MockA::new();
        let (p, q, r, c) = (Pin::new(v), Pin::new(v), Pin::new(v), Pin::new(v));
        m.expect_s().times(0..).withf_st(move |a| *a == p.get()).returning_st(move |a| q.get());
        m.expect_mu().times(0..).return_once_st(move |a| r.get());
        m.expect_by().times(0..).return_const_st(c);
        drop(m);
    }
    #[cfg(not(kani))]
    nat_drop_other (4) {
        // a mock dropped on another thread does not drop single-threaded values there
        let v: u32 = kani::any();
        let k: u8 = kani::any();
        let mut m = MockA::new();
        let p = Pin::new(v);
        match k % 4 {
            0 => { m.expect_s().times(0..).returning_st(move |a| p.get()); }
            1 => { m.expect_s().times(0..).return_once_st(move |a| p.get()); }
            2 => { m.expect_s().times(0..).return_const_st(p); }
            _ => { m.expect_s().times(0..).withf_st(move |a| *a == p.get()).return_const(1u32); }
        }
        must_panic!("a mock with single-threaded values is not dropped on another thread", ghost::on_other_thread(|| drop(m)));
    }
}
#[cfg(not(kani))]
pub fn run() { vh::kani::main(registry()) }
