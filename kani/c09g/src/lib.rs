//! C09, generic static methods.
#![allow(unused)]
#[path = "../../common/vh.rs"]
#[macro_use]
mod vh;
use mockall::*;
use vh::*;

mock! { pub S { fn foo<T: 'static>(x: T) -> u32; } }
mock! { pub GS<X: 'static> { fn gs(x: X) -> u32; } }

const TOP: usize = usize::MAX - 2;
fn under() -> (usize, usize, usize) {
    let (lo, hi, c): (usize, usize, usize) = kani::any();
    kani::assume(lo <= hi && hi < TOP && c < lo);
    (lo, hi, c)
}
fn satisfied() -> (usize, usize, usize) {
    let (lo, hi, c): (usize, usize, usize) = kani::any();
    kani::assume(lo <= hi && hi < TOP && c >= lo && c <= hi);
    (lo, hi, c)
}

harnesses! {
    pan_gen_after_drop (3) {
        let (lo, hi, c) = satisfied();
        let ctx = MockS::foo_context();
        preset_calls(c);
        ctx.expect::<u8>().times(lo..=hi).return_const(1u32);
        history!(c, MockS::foo(0u8));
        drop(ctx);
        must_panic!("after the context's end no expectation answers (generic static)", MockS::foo(0u8));
    }
    pan_gen_drop_under (3) {
        let (lo, hi, c) = under();
        let ctx = MockS::foo_context();
        preset_calls(c);
        ctx.expect::<u8>().times(lo..=hi).return_const(1u32);
        history!(c, MockS::foo(0u8));
        must_panic!("the end of the context verifies (generic static)", drop(ctx));
    }
    pan_gs_drop_under (3) {
        let (lo, hi, c) = under();
        let ctx = MockGS::<u8>::gs_context();
        preset_calls(c);
        ctx.expect().times(lo..=hi).return_const(1u32);
        history!(c, MockGS::<u8>::gs(0));
        must_panic!("the end of the context verifies (static method of a generic struct)", drop(ctx));
    }
    t_ok_gs_drop_again (3) {
        let (lo, hi, c) = satisfied();
        let ctx = MockGS::<u8>::gs_context();
        preset_calls(c);
        ctx.expect().times(lo..=hi).return_const(1u32);
        history!(c, MockGS::<u8>::gs(0));
        drop(ctx);
        let ctx = MockGS::<u8>::gs_context();
        preset_calls(0);
        ctx.expect().times(1).return_const(2u32);
        obl!(MockGS::<u8>::gs(0) == 2, "a later context starts from a blank slate (static method of a generic struct)");
        drop(ctx);
    }
    pan_gen_ckpt_under (3) {
        let (lo, hi, c) = under();
        let ctx = MockS::foo_context();
        preset_calls(c);
        ctx.expect::<u8>().times(lo..=hi).return_const(1u32);
        history!(c, MockS::foo(0u8));
        must_panic!("checkpoint of the context verifies (generic static)", ctx.checkpoint());
    }
    ok_gen_drop_again (3) {
        let (lo, hi, c) = satisfied();
        let ctx = MockS::foo_context();
        preset_calls(c);
        ctx.expect::<u8>().times(lo..=hi).return_const(1u32);
        history!(c, MockS::foo(0u8));
        drop(ctx);
        let ctx = MockS::foo_context();
        preset_calls(0);
        ctx.expect::<u8>().times(1).return_const(2u32);
        obl!(MockS::foo(0u8) == 2, "a later context starts from a blank slate (generic static)");
        drop(ctx);
    }
    t_ok_gen_ckpt_again (3) {
        let (lo, hi, c) = satisfied();
        let ctx = MockS::foo_context();
        preset_calls(c);
        ctx.expect::<u8>().times(lo..=hi).return_const(1u32);
        history!(c, MockS::foo(0u8));
        ctx.checkpoint();
        preset_calls(0);
        ctx.expect::<u8>().times(1).return_const(2u32);
        obl!(MockS::foo(0u8) == 2, "after a checkpoint the same context can be configured again (generic static)");
        drop(ctx);
    }
    ok_gen_panicking_drop (3) {
        let (lo, hi, c) = under();
        let ctx = MockS::foo_context();
        preset_calls(c);
        ctx.expect::<u8>().times(lo..=hi).return_const(1u32);
        history!(c, MockS::foo(0u8));
        ghost::while_panicking(move || drop(ctx));
        let ctx = MockS::foo_context();
        preset_calls(0);
        ctx.expect::<u8>().times(1).return_const(2u32);
        obl!(MockS::foo(0u8) == 2, "a context dropped by a panicking thread leaves nothing behind (generic static)");
        drop(ctx);
    }
    t_ok_gen_poison (3) {
        ghost::catch(|| {
            let ctx = MockS::foo_context();
            preset_calls(0);
            ctx.expect::<u8>().returning(|_| { ghost::panic_here(); 1u32 });
            let _ = MockS::foo(0u8);
            drop(ctx);
        });
        let ctx = MockS::foo_context();
        preset_calls(0);
        ctx.expect::<u8>().times(1).return_const(2u32);
        obl!(MockS::foo(0u8) == 2, "after a call that panicked the method is usable by the next test (generic static)");
        drop(ctx);
    }
    #[cfg(not(kani))]
    nat_gen_after_failed_drop (3) {
        let r = std::panic::catch_unwind(|| {
            let ctx = MockS::foo_context();
            ctx.expect::<u8>().times(2).return_const(1u32);
            ctx.expect::<u16>().times(2).return_const(1u32);
        });
        obl!(r.is_err(), "the end of the context verifies");
        let ctx = MockS::foo_context();
        ctx.expect::<u8>().times(1).return_const(2u32);
        obl!(MockS::foo(0u8) == 2, "a failed verification still removes the expectations");
        drop(ctx);
    }
}
#[cfg(not(kani))]
pub fn run() { vh::kani::main(registry()) }
