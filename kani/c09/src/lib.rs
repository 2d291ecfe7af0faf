//! C09: a static method's expectations live exactly as long as their context.
//! Contracts of the generated `Context::{expect, checkpoint, do_checkpoint, drop}`,
//! `ExpectationGuard::new` and the global expectation store, incl. its lock's poisoning.
#![allow(unused)]
#[path = "../../common/vh.rs"]
#[macro_use]
mod vh;
use mockall::*;
use vh::*;

pub trait Tr { fn ts(x: u32) -> u32; }
mock! { pub S { fn foo(x: u32) -> u32; fn bar() -> u32; fn sref(x: u32) -> &'static u32; } }
mock! { pub T { } impl Tr for T { fn ts(x: u32) -> u32; } }
#[automock]
pub mod ffi { pub fn f(x: u32) -> u32 { x } pub fn g() -> u32 { 1 } }
static K: [u32; 3] = [0, 1, 2];

const TOP: usize = usize::MAX - 2;
fn under() -> (usize, usize, usize) {
    let (lo, hi, c): (usize, usize, usize) = kani::any();
    kani::assume(lo <= hi && hi < TOP && c < lo);
    (lo, hi, c)
}
fn satisfied() -> (usize, usize, usize) {
    let (lo, hi, c): (usize, usize, usize) = kani::any();
    kani::assume(lo <= hi && hi < TOP && c >= lo && c <= hi);
    (lo, hi, c)
}

/// Something an action owns that uses the mocked method when it is destroyed.
struct Probe(fn());
impl Drop for Probe { fn drop(&mut self) { (self.0)() } }

harnesses! {
    // ---- static method ----
    pan_stat_after_drop (3) {
        let (lo, hi, c) = satisfied();
        let ctx = MockS::foo_context();
        preset_calls(c);
        ctx.expect().times(lo..=hi).return_const(1u32);
        history!(c, MockS::foo(0));
        drop(ctx);
        must_panic!("after the context's end no expectation answers (static method)", { let _ = MockS::foo(kani::any()); });
    }
    pan_stat_drop_under (3) {
        let (lo, hi, c) = under();
        let ctx = MockS::foo_context();
        preset_calls(c);
        ctx.expect().times(lo..=hi).return_const(1u32);
        history!(c, MockS::foo(0));
        must_panic!("the end of the context verifies (static method)", drop(ctx));
    }
    pan_stat_ckpt_under (3) {
        let (lo, hi, c) = under();
        let ctx = MockS::foo_context();
        preset_calls(c);
        ctx.expect().times(lo..=hi).return_const(1u32);
        history!(c, MockS::foo(0));
        must_panic!("checkpoint of the context verifies (static method)", ctx.checkpoint());
    }
    ok_stat_drop_again (3) {
        let (lo, hi, c) = satisfied();
        let ctx = MockS::foo_context();
        preset_calls(c);
        ctx.expect().times(lo..=hi).return_const(1u32);
        history!(c, MockS::foo(0));
        drop(ctx);
        let ctx = MockS::foo_context();
        preset_calls(0);
        ctx.expect().times(1).return_const(2u32);
        obl!(MockS::foo(kani::any()) == 2, "a later context starts from a blank slate (static method)");
        drop(ctx);
    }
    ok_stat_ckpt_again (3) {
        let (lo, hi, c) = satisfied();
        let ctx = MockS::foo_context();
        preset_calls(c);
        ctx.expect().times(lo..=hi).return_const(1u32);
        history!(c, MockS::foo(0));
        ctx.checkpoint();
        preset_calls(0);
        ctx.expect().times(1).return_const(2u32);
        obl!(MockS::foo(kani::any()) == 2, "after a checkpoint the same context can be configured again (static method)");
        drop(ctx);
    }
    pan_stat_after_ckpt (3) {
        let (lo, hi, c) = satisfied();
        let ctx = MockS::foo_context();
        preset_calls(c);
        ctx.expect().times(lo..=hi).return_const(1u32);
        history!(c, MockS::foo(0));
        ctx.checkpoint();
        must_panic!("after a checkpoint no earlier expectation answers (static method)", { let _ = MockS::foo(kani::any()); });
    }
    ok_stat_panicking_drop (3) {
        let (lo, hi, c) = under();
        let ctx = MockS::foo_context();
        preset_calls(c);
        ctx.expect().times(lo..=hi).return_const(1u32);
        history!(c, MockS::foo(0));
        ghost::while_panicking(move || drop(ctx));      // under-called, but quiet
        let ctx = MockS::foo_context();
        preset_calls(0);
        ctx.expect().times(1).return_const(2u32);
        obl!(MockS::foo(kani::any()) == 2, "a context dropped by a panicking thread leaves nothing behind (static method)");
        drop(ctx);
    }
    pan_stat_panicking_drop (3) {
        let (lo, hi, c) = under();
        let ctx = MockS::foo_context();
        preset_calls(c);
        ctx.expect().times(lo..=hi).return_const(1u32);
        history!(c, MockS::foo(0));
        ghost::while_panicking(move || drop(ctx));
        must_panic!("a context dropped by a panicking thread removes its expectations (static method)", { let _ = MockS::foo(kani::any()); });
    }
    ok_stat_poison (3) {
        // a call panics while the expectations' lock is held; the context goes away unwinding
        ghost::catch(|| {
            let ctx = MockS::foo_context();
            preset_calls(0);
            ctx.expect().returning(|_| { ghost::panic_here(); 1u32 });
            let _ = MockS::foo(0);
            drop(ctx);
        });
        let ctx = MockS::foo_context();
        preset_calls(0);
        ctx.expect().times(1).return_const(2u32);
        obl!(MockS::foo(kani::any()) == 2, "after a call that panicked the method is usable by the next test (static method)");
        drop(ctx);
    }
    #[cfg(not(kani))]
    nat_stat_after_failed_drop (3) {
        let n: u8 = kani::any();
        let n = (n % 4) as usize;
        let r = std::panic::catch_unwind(|| {
            let ctx = MockS::foo_context();
            ctx.expect().times(n + 1).return_const(1u32);
            for _ in 0..n { let _ = MockS::foo(0); }
        });
        obl!(r.is_err(), "the end of the context verifies");
        let r = std::panic::catch_unwind(|| { let _ = MockS::foo(0); });
        obl!(r.is_err(), "a failed verification still removes the expectations");
        let ctx = MockS::foo_context();
        // the unanswered call above may have poisoned the store: only a new test matters
        ghost::while_panicking(move || drop(ctx));
        let ctx = MockS::foo_context();
        ctx.expect().times(1).return_const(2u32);
        let r = MockS::foo(0);
        drop(ctx);
    }
    #[cfg(not(kani))]
    nat_stat_after_failed_drop2 (3) {
        let r = std::panic::catch_unwind(|| {
            let ctx = MockS::foo_context();
            ctx.expect().times(3..).return_const(1u32);
        });
        obl!(r.is_err(), "the end of the context verifies");
        let ctx = MockS::foo_context();
        ctx.expect().times(1).return_const(2u32);
        let _ = MockS::foo(0);
        drop(ctx);
    }
    #[cfg(not(kani))]
    nat_stat_after_failed_ckpt (3) {
        let ctx = MockS::foo_context();
        ctx.expect().times(2).return_const(1u32);
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| ctx.checkpoint()));
        obl!(r.is_err(), "checkpoint of the context verifies");
        ctx.expect().times(1).return_const(2u32);
        let _ = MockS::foo(0);
        drop(ctx);
    }
    #[cfg(not(kani))]
    nat_stat_after_over (3) {
        let r = std::panic::catch_unwind(|| {
            let ctx = MockS::foo_context();
            ctx.expect().times(1).return_const(1u32);
            let _ = MockS::foo(0);
            let _ = MockS::foo(0);
        });
        obl!(r.is_err(), "a call too many panics");
        let ctx = MockS::foo_context();
        ctx.expect().times(1).return_const(2u32);
        let _ = MockS::foo(0);
        drop(ctx);
    }
    #[cfg(not(kani))]
    nat_stat_after_nomatch (3) {
        let r = std::panic::catch_unwind(|| {
            let ctx = MockS::foo_context();
            ctx.expect().withf(|_| false).return_const(1u32);
            let _ = MockS::foo(0);
        });
        obl!(r.is_err(), "an unmatched call panics");
        let ctx = MockS::foo_context();
        ctx.expect().times(1).return_const(2u32);
        let _ = MockS::foo(0);
        drop(ctx);
    }
    #[cfg(not(kani))]
    nat_stat_other_thread (3) {
        // a panicking worker thread that owns the context
        let _ = std::thread::spawn(|| {
            let ctx = MockS::foo_context();
            ctx.expect().times(2).return_const(1u32);
            let _ = MockS::foo(0);
            ghost::panic_here();
        }).join();
        let ctx = MockS::foo_context();
        ctx.expect().times(1).return_const(2u32);
        let _ = MockS::foo(0);
        drop(ctx);
    }
    // ---- static trait method ----
    pan_trait_after_drop (3) {
        let (lo, hi, c) = satisfied();
        let ctx = MockT::ts_context();
        preset_calls(c);
        ctx.expect().times(lo..=hi).return_const(1u32);
        history!(c, <MockT as Tr>::ts(0));
        drop(ctx);
        must_panic!("after the context's end no expectation answers (static trait method)", { let _ = <MockT as Tr>::ts(kani::any()); });
    }
    pan_trait_drop_under (3) {
        let (lo, hi, c) = under();
        let ctx = MockT::ts_context();
        preset_calls(c);
        ctx.expect().times(lo..=hi).return_const(1u32);
        history!(c, <MockT as Tr>::ts(0));
        must_panic!("the end of the context verifies (static trait method)", drop(ctx));
    }
    pan_trait_ckpt_under (3) {
        let (lo, hi, c) = under();
        let ctx = MockT::ts_context();
        preset_calls(c);
        ctx.expect().times(lo..=hi).return_const(1u32);
        history!(c, <MockT as Tr>::ts(0));
        must_panic!("checkpoint of the context verifies (static trait method)", ctx.checkpoint());
    }
    ok_trait_drop_again (3) {
        let (lo, hi, c) = satisfied();
        let ctx = MockT::ts_context();
        preset_calls(c);
        ctx.expect().times(lo..=hi).return_const(1u32);
        history!(c, <MockT as Tr>::ts(0));
        drop(ctx);
        let ctx = MockT::ts_context();
        preset_calls(0);
        ctx.expect().times(1).return_const(2u32);
        obl!(<MockT as Tr>::ts(kani::any()) == 2, "a later context starts from a blank slate (static trait method)");
        drop(ctx);
    }
    t_ok_trait_ckpt_again (3) {
        let (lo, hi, c) = satisfied();
        let ctx = MockT::ts_context();
        preset_calls(c);
        ctx.expect().times(lo..=hi).return_const(1u32);
        history!(c, <MockT as Tr>::ts(0));
        ctx.checkpoint();
        preset_calls(0);
        ctx.expect().times(1).return_const(2u32);
        obl!(<MockT as Tr>::ts(kani::any()) == 2, "after a checkpoint the same context can be configured again (static trait method)");
        drop(ctx);
    }
    t_pan_trait_after_ckpt (3) {
        let (lo, hi, c) = satisfied();
        let ctx = MockT::ts_context();
        preset_calls(c);
        ctx.expect().times(lo..=hi).return_const(1u32);
        history!(c, <MockT as Tr>::ts(0));
        ctx.checkpoint();
        must_panic!("after a checkpoint no earlier expectation answers (static trait method)", { let _ = <MockT as Tr>::ts(kani::any()); });
    }
    t_ok_trait_panicking_drop (3) {
        let (lo, hi, c) = under();
        let ctx = MockT::ts_context();
        preset_calls(c);
        ctx.expect().times(lo..=hi).return_const(1u32);
        history!(c, <MockT as Tr>::ts(0));
        ghost::while_panicking(move || drop(ctx));      // under-called, but quiet
        let ctx = MockT::ts_context();
        preset_calls(0);
        ctx.expect().times(1).return_const(2u32);
        obl!(<MockT as Tr>::ts(kani::any()) == 2, "a context dropped by a panicking thread leaves nothing behind (static trait method)");
        drop(ctx);
    }
    t_pan_trait_panicking_drop (3) {
        let (lo, hi, c) = under();
        let ctx = MockT::ts_context();
        preset_calls(c);
        ctx.expect().times(lo..=hi).return_const(1u32);
        history!(c, <MockT as Tr>::ts(0));
        ghost::while_panicking(move || drop(ctx));
        must_panic!("a context dropped by a panicking thread removes its expectations (static trait method)", { let _ = <MockT as Tr>::ts(kani::any()); });
    }
    ok_trait_poison (3) {
        // a call panics while the expectations' lock is held; the context goes away unwinding
        ghost::catch(|| {
            let ctx = MockT::ts_context();
            preset_calls(0);
            ctx.expect().returning(|_| { ghost::panic_here(); 1u32 });
            let _ = <MockT as Tr>::ts(0);
            drop(ctx);
        });
        let ctx = MockT::ts_context();
        preset_calls(0);
        ctx.expect().times(1).return_const(2u32);
        obl!(<MockT as Tr>::ts(kani::any()) == 2, "after a call that panicked the method is usable by the next test (static trait method)");
        drop(ctx);
    }
    #[cfg(not(kani))]
    nat_trait_after_failed_drop (3) {
        let n: u8 = kani::any();
        let n = (n % 4) as usize;
        let r = std::panic::catch_unwind(|| {
            let ctx = MockT::ts_context();
            ctx.expect().times(n + 1).return_const(1u32);
            for _ in 0..n { let _ = <MockT as Tr>::ts(0); }
        });
        obl!(r.is_err(), "the end of the context verifies");
        let r = std::panic::catch_unwind(|| { let _ = <MockT as Tr>::ts(0); });
        obl!(r.is_err(), "a failed verification still removes the expectations");
        let ctx = MockT::ts_context();
        // the unanswered call above may have poisoned the store: only a new test matters
        ghost::while_panicking(move || drop(ctx));
        let ctx = MockT::ts_context();
        ctx.expect().times(1).return_const(2u32);
        let r = <MockT as Tr>::ts(0);
        drop(ctx);
    }
    #[cfg(not(kani))]
    nat_trait_after_failed_drop2 (3) {
        let r = std::panic::catch_unwind(|| {
            let ctx = MockT::ts_context();
            ctx.expect().times(3..).return_const(1u32);
        });
        obl!(r.is_err(), "the end of the context verifies");
        let ctx = MockT::ts_context();
        ctx.expect().times(1).return_const(2u32);
        let _ = <MockT as Tr>::ts(0);
        drop(ctx);
    }
    #[cfg(not(kani))]
    nat_trait_after_failed_ckpt (3) {
        let ctx = MockT::ts_context();
        ctx.expect().times(2).return_const(1u32);
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| ctx.checkpoint()));
        obl!(r.is_err(), "checkpoint of the context verifies");
        ctx.expect().times(1).return_const(2u32);
        let _ = <MockT as Tr>::ts(0);
        drop(ctx);
    }
    #[cfg(not(kani))]
    nat_trait_after_over (3) {
        let r = std::panic::catch_unwind(|| {
            let ctx = MockT::ts_context();
            ctx.expect().times(1).return_const(1u32);
            let _ = <MockT as Tr>::ts(0);
            let _ = <MockT as Tr>::ts(0);
        });
        obl!(r.is_err(), "a call too many panics");
        let ctx = MockT::ts_context();
        ctx.expect().times(1).return_const(2u32);
        let _ = <MockT as Tr>::ts(0);
        drop(ctx);
    }
    #[cfg(not(kani))]
    nat_trait_after_nomatch (3) {
        let r = std::panic::catch_unwind(|| {
            let ctx = MockT::ts_context();
            ctx.expect().withf(|_| false).return_const(1u32);
            let _ = <MockT as Tr>::ts(0);
        });
        obl!(r.is_err(), "an unmatched call panics");
        let ctx = MockT::ts_context();
        ctx.expect().times(1).return_const(2u32);
        let _ = <MockT as Tr>::ts(0);
        drop(ctx);
    }
    #[cfg(not(kani))]
    nat_trait_other_thread (3) {
        // a panicking worker thread that owns the context
        let _ = std::thread::spawn(|| {
            let ctx = MockT::ts_context();
            ctx.expect().times(2).return_const(1u32);
            let _ = <MockT as Tr>::ts(0);
            ghost::panic_here();
        }).join();
        let ctx = MockT::ts_context();
        ctx.expect().times(1).return_const(2u32);
        let _ = <MockT as Tr>::ts(0);
        drop(ctx);
    }
    // ---- function of a module ----
    pan_modf_after_drop (3) {
        let (lo, hi, c) = satisfied();
        let ctx = mock_ffi::f_context();
        preset_calls(c);
        ctx.expect().times(lo..=hi).return_const(1u32);
        history!(c, mock_ffi::f(0));
        drop(ctx);
        must_panic!("after the context's end no expectation answers (function of a module)", { let _ = mock_ffi::f(kani::any()); });
    }
    pan_modf_drop_under (3) {
        let (lo, hi, c) = under();
        let ctx = mock_ffi::f_context();
        preset_calls(c);
        ctx.expect().times(lo..=hi).return_const(1u32);
        history!(c, mock_ffi::f(0));
        must_panic!("the end of the context verifies (function of a module)", drop(ctx));
    }
    t_pan_modf_ckpt_under (3) {
        let (lo, hi, c) = under();
        let ctx = mock_ffi::f_context();
        preset_calls(c);
        ctx.expect().times(lo..=hi).return_const(1u32);
        history!(c, mock_ffi::f(0));
        must_panic!("checkpoint of the context verifies (function of a module)", ctx.checkpoint());
    }
    ok_modf_drop_again (3) {
        let (lo, hi, c) = satisfied();
        let ctx = mock_ffi::f_context();
        preset_calls(c);
        ctx.expect().times(lo..=hi).return_const(1u32);
        history!(c, mock_ffi::f(0));
        drop(ctx);
        let ctx = mock_ffi::f_context();
        preset_calls(0);
        ctx.expect().times(1).return_const(2u32);
        obl!(mock_ffi::f(kani::any()) == 2, "a later context starts from a blank slate (function of a module)");
        drop(ctx);
    }
    t_ok_modf_ckpt_again (3) {
        let (lo, hi, c) = satisfied();
        let ctx = mock_ffi::f_context();
        preset_calls(c);
        ctx.expect().times(lo..=hi).return_const(1u32);
        history!(c, mock_ffi::f(0));
        ctx.checkpoint();
        preset_calls(0);
        ctx.expect().times(1).return_const(2u32);
        obl!(mock_ffi::f(kani::any()) == 2, "after a checkpoint the same context can be configured again (function of a module)");
        drop(ctx);
    }
    t_pan_modf_after_ckpt (3) {
        let (lo, hi, c) = satisfied();
        let ctx = mock_ffi::f_context();
        preset_calls(c);
        ctx.expect().times(lo..=hi).return_const(1u32);
        history!(c, mock_ffi::f(0));
        ctx.checkpoint();
        must_panic!("after a checkpoint no earlier expectation answers (function of a module)", { let _ = mock_ffi::f(kani::any()); });
    }
    ok_modf_panicking_drop (3) {
        let (lo, hi, c) = under();
        let ctx = mock_ffi::f_context();
        preset_calls(c);
        ctx.expect().times(lo..=hi).return_const(1u32);
        history!(c, mock_ffi::f(0));
        ghost::while_panicking(move || drop(ctx));      // under-called, but quiet
        let ctx = mock_ffi::f_context();
        preset_calls(0);
        ctx.expect().times(1).return_const(2u32);
        obl!(mock_ffi::f(kani::any()) == 2, "a context dropped by a panicking thread leaves nothing behind (function of a module)");
        drop(ctx);
    }
    t_pan_modf_panicking_drop (3) {
        let (lo, hi, c) = under();
        let ctx = mock_ffi::f_context();
        preset_calls(c);
        ctx.expect().times(lo..=hi).return_const(1u32);
        history!(c, mock_ffi::f(0));
        ghost::while_panicking(move || drop(ctx));
        must_panic!("a context dropped by a panicking thread removes its expectations (function of a module)", { let _ = mock_ffi::f(kani::any()); });
    }
    ok_modf_poison (3) {
        // a call panics while the expectations' lock is held; the context goes away unwinding
        ghost::catch(|| {
            let ctx = mock_ffi::f_context();
            preset_calls(0);
            ctx.expect().returning(|_| { ghost::panic_here(); 1u32 });
            let _ = mock_ffi::f(0);
            drop(ctx);
        });
        let ctx = mock_ffi::f_context();
        preset_calls(0);
        ctx.expect().times(1).return_const(2u32);
        obl!(mock_ffi::f(kani::any()) == 2, "after a call that panicked the method is usable by the next test (function of a module)");
        drop(ctx);
    }
    #[cfg(not(kani))]
    nat_modf_after_failed_drop (3) {
        let n: u8 = kani::any();
        let n = (n % 4) as usize;
        let r = std::panic::catch_unwind(|| {
            let ctx = mock_ffi::f_context();
            ctx.expect().times(n + 1).return_const(1u32);
            for _ in 0..n { let _ = mock_ffi::f(0); }
        });
        obl!(r.is_err(), "the end of the context verifies");
        let r = std::panic::catch_unwind(|| { let _ = mock_ffi::f(0); });
        obl!(r.is_err(), "a failed verification still removes the expectations");
        let ctx = mock_ffi::f_context();
        // the unanswered call above may have poisoned the store: only a new test matters
        ghost::while_panicking(move || drop(ctx));
        let ctx = mock_ffi::f_context();
        ctx.expect().times(1).return_const(2u32);
        let r = mock_ffi::f(0);
        drop(ctx);
    }
    #[cfg(not(kani))]
    nat_modf_after_failed_drop2 (3) {
        let r = std::panic::catch_unwind(|| {
            let ctx = mock_ffi::f_context();
            ctx.expect().times(3..).return_const(1u32);
        });
        obl!(r.is_err(), "the end of the context verifies");
        let ctx = mock_ffi::f_context();
        ctx.expect().times(1).return_const(2u32);
        let _ = mock_ffi::f(0);
        drop(ctx);
    }
    #[cfg(not(kani))]
    nat_modf_after_failed_ckpt (3) {
        let ctx = mock_ffi::f_context();
        ctx.expect().times(2).return_const(1u32);
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| ctx.checkpoint()));
        obl!(r.is_err(), "checkpoint of the context verifies");
        ctx.expect().times(1).return_const(2u32);
        let _ = mock_ffi::f(0);
        drop(ctx);
    }
    #[cfg(not(kani))]
    nat_modf_after_over (3) {
        let r = std::panic::catch_unwind(|| {
            let ctx = mock_ffi::f_context();
            ctx.expect().times(1).return_const(1u32);
            let _ = mock_ffi::f(0);
            let _ = mock_ffi::f(0);
        });
        obl!(r.is_err(), "a call too many panics");
        let ctx = mock_ffi::f_context();
        ctx.expect().times(1).return_const(2u32);
        let _ = mock_ffi::f(0);
        drop(ctx);
    }
    #[cfg(not(kani))]
    nat_modf_after_nomatch (3) {
        let r = std::panic::catch_unwind(|| {
            let ctx = mock_ffi::f_context();
            ctx.expect().withf(|_| false).return_const(1u32);
            let _ = mock_ffi::f(0);
        });
        obl!(r.is_err(), "an unmatched call panics");
        let ctx = mock_ffi::f_context();
        ctx.expect().times(1).return_const(2u32);
        let _ = mock_ffi::f(0);
        drop(ctx);
    }
    #[cfg(not(kani))]
    nat_modf_other_thread (3) {
        // a panicking worker thread that owns the context
        let _ = std::thread::spawn(|| {
            let ctx = mock_ffi::f_context();
            ctx.expect().times(2).return_const(1u32);
            let _ = mock_ffi::f(0);
            ghost::panic_here();
        }).join();
        let ctx = mock_ffi::f_context();
        ctx.expect().times(1).return_const(2u32);
        let _ = mock_ffi::f(0);
        drop(ctx);
    }
    // ---- static method returning a 'static reference ----
    pan_sref_after_drop (3) {
        let (lo, hi, c) = satisfied();
        let ctx = MockS::sref_context();
        preset_calls(c);
        ctx.expect().times(lo..=hi).return_const(&K[1]);
        history!(c, MockS::sref(0));
        drop(ctx);
        must_panic!("after the context's end no expectation answers (static method returning a 'static reference)", { let _ = *MockS::sref(kani::any()); });
    }
    pan_sref_drop_under (3) {
        let (lo, hi, c) = under();
        let ctx = MockS::sref_context();
        preset_calls(c);
        ctx.expect().times(lo..=hi).return_const(&K[1]);
        history!(c, MockS::sref(0));
        must_panic!("the end of the context verifies (static method returning a 'static reference)", drop(ctx));
    }
    t_pan_sref_ckpt_under (3) {
        let (lo, hi, c) = under();
        let ctx = MockS::sref_context();
        preset_calls(c);
        ctx.expect().times(lo..=hi).return_const(&K[1]);
        history!(c, MockS::sref(0));
        must_panic!("checkpoint of the context verifies (static method returning a 'static reference)", ctx.checkpoint());
    }
    ok_sref_drop_again (3) {
        let (lo, hi, c) = satisfied();
        let ctx = MockS::sref_context();
        preset_calls(c);
        ctx.expect().times(lo..=hi).return_const(&K[1]);
        history!(c, MockS::sref(0));
        drop(ctx);
        let ctx = MockS::sref_context();
        preset_calls(0);
        ctx.expect().times(1).return_const(&K[2]);
        obl!(*MockS::sref(kani::any()) == 2, "a later context starts from a blank slate (static method returning a 'static reference)");
        drop(ctx);
    }
    t_ok_sref_ckpt_again (3) {
        let (lo, hi, c) = satisfied();
        let ctx = MockS::sref_context();
        preset_calls(c);
        ctx.expect().times(lo..=hi).return_const(&K[1]);
        history!(c, MockS::sref(0));
        ctx.checkpoint();
        preset_calls(0);
        ctx.expect().times(1).return_const(&K[2]);
        obl!(*MockS::sref(kani::any()) == 2, "after a checkpoint the same context can be configured again (static method returning a 'static reference)");
        drop(ctx);
    }
    t_pan_sref_after_ckpt (3) {
        let (lo, hi, c) = satisfied();
        let ctx = MockS::sref_context();
        preset_calls(c);
        ctx.expect().times(lo..=hi).return_const(&K[1]);
        history!(c, MockS::sref(0));
        ctx.checkpoint();
        must_panic!("after a checkpoint no earlier expectation answers (static method returning a 'static reference)", { let _ = *MockS::sref(kani::any()); });
    }
    t_ok_sref_panicking_drop (3) {
        let (lo, hi, c) = under();
        let ctx = MockS::sref_context();
        preset_calls(c);
        ctx.expect().times(lo..=hi).return_const(&K[1]);
        history!(c, MockS::sref(0));
        ghost::while_panicking(move || drop(ctx));      // under-called, but quiet
        let ctx = MockS::sref_context();
        preset_calls(0);
        ctx.expect().times(1).return_const(&K[2]);
        obl!(*MockS::sref(kani::any()) == 2, "a context dropped by a panicking thread leaves nothing behind (static method returning a 'static reference)");
        drop(ctx);
    }
    t_pan_sref_panicking_drop (3) {
        let (lo, hi, c) = under();
        let ctx = MockS::sref_context();
        preset_calls(c);
        ctx.expect().times(lo..=hi).return_const(&K[1]);
        history!(c, MockS::sref(0));
        ghost::while_panicking(move || drop(ctx));
        must_panic!("a context dropped by a panicking thread removes its expectations (static method returning a 'static reference)", { let _ = *MockS::sref(kani::any()); });
    }
    t_ok_sref_poison (3) {
        // a call panics while the expectations' lock is held; the context goes away unwinding
        ghost::catch(|| {
            let ctx = MockS::sref_context();
            preset_calls(0);
            ctx.expect().returning(|_| { ghost::panic_here(); &K[1] });
            let _ = MockS::sref(0);
            drop(ctx);
        });
        let ctx = MockS::sref_context();
        preset_calls(0);
        ctx.expect().times(1).return_const(&K[2]);
        obl!(*MockS::sref(kani::any()) == 2, "after a call that panicked the method is usable by the next test (static method returning a 'static reference)");
        drop(ctx);
    }
    #[cfg(not(kani))]
    nat_sref_after_failed_drop (3) {
        let n: u8 = kani::any();
        let n = (n % 4) as usize;
        let r = std::panic::catch_unwind(|| {
            let ctx = MockS::sref_context();
            ctx.expect().times(n + 1).return_const(&K[1]);
            for _ in 0..n { let _ = MockS::sref(0); }
        });
        obl!(r.is_err(), "the end of the context verifies");
        let r = std::panic::catch_unwind(|| { let _ = MockS::sref(0); });
        obl!(r.is_err(), "a failed verification still removes the expectations");
        let ctx = MockS::sref_context();
        // the unanswered call above may have poisoned the store: only a new test matters
        ghost::while_panicking(move || drop(ctx));
        let ctx = MockS::sref_context();
        ctx.expect().times(1).return_const(&K[2]);
        let r = MockS::sref(0);
        drop(ctx);
    }
    #[cfg(not(kani))]
    nat_sref_after_failed_drop2 (3) {
        let r = std::panic::catch_unwind(|| {
            let ctx = MockS::sref_context();
            ctx.expect().times(3..).return_const(&K[1]);
        });
        obl!(r.is_err(), "the end of the context verifies");
        let ctx = MockS::sref_context();
        ctx.expect().times(1).return_const(&K[2]);
        let _ = MockS::sref(0);
        drop(ctx);
    }
    #[cfg(not(kani))]
    nat_sref_after_failed_ckpt (3) {
        let ctx = MockS::sref_context();
        ctx.expect().times(2).return_const(&K[1]);
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| ctx.checkpoint()));
        obl!(r.is_err(), "checkpoint of the context verifies");
        ctx.expect().times(1).return_const(&K[2]);
        let _ = MockS::sref(0);
        drop(ctx);
    }
    #[cfg(not(kani))]
    nat_sref_after_over (3) {
        let r = std::panic::catch_unwind(|| {
            let ctx = MockS::sref_context();
            ctx.expect().times(1).return_const(&K[1]);
            let _ = MockS::sref(0);
            let _ = MockS::sref(0);
        });
        obl!(r.is_err(), "a call too many panics");
        let ctx = MockS::sref_context();
        ctx.expect().times(1).return_const(&K[2]);
        let _ = MockS::sref(0);
        drop(ctx);
    }
    #[cfg(not(kani))]
    nat_sref_after_nomatch (3) {
        let r = std::panic::catch_unwind(|| {
            let ctx = MockS::sref_context();
            ctx.expect().withf(|_| false).return_const(&K[1]);
            let _ = MockS::sref(0);
        });
        obl!(r.is_err(), "an unmatched call panics");
        let ctx = MockS::sref_context();
        ctx.expect().times(1).return_const(&K[2]);
        let _ = MockS::sref(0);
        drop(ctx);
    }
    #[cfg(not(kani))]
    nat_sref_other_thread (3) {
        // a panicking worker thread that owns the context
        let _ = std::thread::spawn(|| {
            let ctx = MockS::sref_context();
            ctx.expect().times(2).return_const(&K[1]);
            let _ = MockS::sref(0);
            ghost::panic_here();
        }).join();
        let ctx = MockS::sref_context();
        ctx.expect().times(1).return_const(&K[2]);
        let _ = MockS::sref(0);
        drop(ctx);
    }
    // ---- no action configured, unanswered and refused calls ----
    ok_two_methods (3) {
        // one method's context ends; another's expectations stay
        let (lo, hi, c) = satisfied();
        let k: u32 = kani::any();
        let ctx = MockS::foo_context();
        let other = MockS::bar_context();
        preset_calls(c);
        ctx.expect().times(lo..=hi).return_const(1u32);
        preset_calls(0);
        other.expect().times(1).return_const(k);
        history!(c, MockS::foo(0));
        drop(ctx);
        obl!(MockS::bar() == k, "the end of one method's context leaves another method's expectations alone");
        drop(other);
    }
    ok_second_expectation (4) {
        // all expectations of the context are removed
        let ctx = MockS::foo_context();
        preset_calls(0);
        ctx.expect().times(0..).return_const(1u32);
        ctx.expect().times(0..).return_const(2u32);
        drop(ctx);
        let ctx = MockS::foo_context();
        ctx.expect().times(1).return_const(3u32);
        obl!(MockS::foo(kani::any()) == 3, "all expectations of the context are removed");
        drop(ctx);
    }
    pan_second_under (4) {
        let (lo, hi, c) = under();
        let ctx = MockS::foo_context();
        preset_calls(0);
        ctx.expect().times(0..).withf(|_| gate(0, true)).return_const(1u32);
        preset_calls(c);
        ctx.expect().times(lo..=hi).withf(|_| gate(1, true)).return_const(2u32);
        history_of!(1, c, MockS::foo(0));
        must_panic!("every expectation of the context is verified", drop(ctx));
    }
    ok_unused_context (3) {
        let ctx = MockS::foo_context();
        ctx.checkpoint();
        drop(ctx);
        ghost::while_panicking(|| drop(MockS::foo_context()));
        let ctx = MockS::foo_context();
        preset_calls(0);
        ctx.expect().times(1).return_const(3u32);
        obl!(MockS::foo(kani::any()) == 3, "an unused context changes nothing");
        drop(ctx);
    }
    ok_answers_until_drop (3) {
        // expectations answer calls as long as the context lives, whoever calls
        let (x, y): (u32, u32) = kani::any();
        let ctx = MockS::foo_context();
        preset_calls(0);
        ctx.expect().times(2).returning(|x| x ^ 5);
        obl!(MockS::foo(x) == x ^ 5, "an expectation answers while its context lives");
        obl!(MockS::foo(y) == y ^ 5, "an expectation answers while its context lives (again)");
        drop(ctx);
    }
    // ---- the whole module's checkpoint ----
    pan_module_ckpt_f (3) {
        let (lo, hi, c) = under();
        let f = mock_ffi::f_context();
        preset_calls(c);
        f.expect().times(lo..=hi).return_const(1u32);
        history!(c, mock_ffi::f(0));
        must_panic!("a module's checkpoint verifies every function (first)", mock_ffi::checkpoint());
    }
    pan_module_ckpt_g (3) {
        let (lo, hi, c) = under();
        let g = mock_ffi::g_context();
        preset_calls(c);
        g.expect().times(lo..=hi).return_const(1u32);
        history!(c, mock_ffi::g());
        must_panic!("a module's checkpoint verifies every function (last)", mock_ffi::checkpoint());
    }
    // Verification happens outside the lock: whatever the expectations do when they are
    // destroyed (panic, or as here use the same method), the method stays usable.
    ok_unlocked_drop (3) {
        let ctx = MockS::foo_context();
        let p = Probe(|| MockS::foo_context().checkpoint());
        ctx.expect().times(1).returning(move |x| { let _p = &p; x });
        obl!(MockS::foo(3) == 3, "an expectation answers while its context lives");
        drop(ctx);
    }
    ok_unlocked_ckpt (3) {
        let ctx = MockS::foo_context();
        let p = Probe(|| MockS::foo_context().checkpoint());
        ctx.expect().times(0..).returning(move |x| { let _p = &p; x });
        ctx.checkpoint();
        leak(ctx);
    }
    ok_unlocked_module_ckpt (3) {
        let ctx = mock_ffi::f_context();
        let p = Probe(|| mock_ffi::f_context().checkpoint());
        ctx.expect().times(0..).returning(move |x| { let _p = &p; x });
        mock_ffi::checkpoint();
        leak(ctx);
    }
    #[cfg(not(kani))]
    nat_module_after_failed_ckpt (3) {
        let n: u8 = kani::any();
        let n = (n % 4) as usize;
        let ctx = mock_ffi::f_context();
        ctx.expect().times(n + 1).return_const(1u32);
        for _ in 0..n { let _ = mock_ffi::f(0); }
        let r = std::panic::catch_unwind(|| mock_ffi::checkpoint());
        obl!(r.is_err(), "a module's checkpoint verifies");
        ctx.expect().times(1).return_const(2u32);
        obl!(mock_ffi::f(0) == 2, "a module's failed checkpoint leaves its functions usable");
        drop(ctx);
        let ctx = mock_ffi::g_context();
        ctx.expect().times(n + 1).return_const(1u32);
        for _ in 0..n { let _ = mock_ffi::g(); }
        let r = std::panic::catch_unwind(|| mock_ffi::checkpoint());
        obl!(r.is_err(), "a module's checkpoint verifies");
        let ctx = mock_ffi::g_context();
        ctx.expect().times(1).return_const(2u32);
        obl!(mock_ffi::g() == 2, "a module's failed checkpoint leaves its functions usable");
        drop(ctx);
    }
    ok_module_ckpt (3) {
        let (lo, hi, c) = satisfied();
        let f = mock_ffi::f_context();
        let g = mock_ffi::g_context();
        preset_calls(c);
        f.expect().times(lo..=hi).return_const(1u32);
        preset_calls(0);
        g.expect().times(0..).return_const(1u32);
        history!(c, mock_ffi::f(0));
        mock_ffi::checkpoint();
        f.expect().times(1).return_const(2u32);
        g.expect().times(1).return_const(3u32);
        obl!(mock_ffi::f(kani::any()) == 2 && mock_ffi::g() == 3, "after a module's checkpoint every function can be configured again");
        drop(f); drop(g);
    }
}
#[cfg(not(kani))]
pub fn run() { vh::kani::main(registry()) }
