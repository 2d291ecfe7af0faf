//! C08, generic methods.
#![allow(unused)]
#[path = "../../common/vh.rs"]
#[macro_use]
mod vh;
use mockall::*;
use vh::*;

pub trait Tr { fn tg<T: 'static>(&self, x: T) -> u32; }
mock! { pub G { fn g<T: 'static>(&self, x: T) -> u32; fn r<T: 'static>(&self, x: T) -> &u32; } impl Tr for G { fn tg<T: 'static>(&self, x: T) -> u32; } }

const TOP: usize = usize::MAX - 2;
fn under() -> (usize, usize, usize) {
    let (lo, hi, c): (usize, usize, usize) = kani::any();
    kani::assume(lo <= hi && hi < TOP && c < lo);
    (lo, hi, c)
}
fn satisfied() -> (usize, usize, usize) {
    let (lo, hi, c): (usize, usize, usize) = kani::any();
    kani::assume(lo <= hi && hi < TOP && c >= lo && c <= hi);
    (lo, hi, c)
}

harnesses! {
    pan_gen_under (4) {
        let (lo, hi, c) = under();
        let mut m = MockG::new();
        preset_calls(c);
        m.expect_g::<u8>().times(lo..=hi).return_const(1u32);
        history!(c, m.g(0u8));
        must_panic!("checkpoint panics if an expectation was called too few times (generic method)", m.checkpoint());
    }
    pan_gen_under_second (4) {
        let (lo, hi, c) = under();
        let mut m = MockG::new();
        preset_calls(0);
        m.expect_g::<u8>().times(0..).return_const(1u32);
        preset_calls(c);
        m.expect_g::<u16>().times(lo..=hi).return_const(1u32);
        history!(c, m.g(0u16));
        must_panic!("checkpoint verifies every instantiation of a generic method", m.checkpoint());
    }
    pan_gen_ref_under (4) {
        let (lo, hi, c) = under();
        let mut m = MockG::new();
        preset_calls(c);
        m.expect_r::<u8>().times(lo..=hi).return_const(1u32);
        history!(c, m.r(0u8));
        must_panic!("checkpoint panics if an expectation was called too few times (generic method returning a reference)", m.checkpoint());
    }
    pan_gen_trait_under (4) {
        let (lo, hi, c) = under();
        let mut m = MockG::new();
        preset_calls(c);
        m.expect_tg::<u8>().times(lo..=hi).return_const(1u32);
        history!(c, m.tg(0u8));
        must_panic!("checkpoint panics if an expectation was called too few times (generic trait method)", m.checkpoint());
    }
    ok_gen_again (4) {
        let (lo, hi, c) = satisfied();
        let mut m = MockG::new();
        preset_calls(c);
        m.expect_g::<u8>().times(lo..=hi).return_const(1u32);
        history!(c, m.g(0u8));
        m.checkpoint();
        preset_calls(0);
        m.expect_g::<u8>().times(1).return_const(2u32);
        obl!(m.g(0u8) == 2, "after a checkpoint a generic method can be configured again");
        drop(m);
    }
    pan_gen_after (4) {
        let (lo, hi, c) = satisfied();
        let mut m = MockG::new();
        preset_calls(c);
        m.expect_g::<u8>().times(lo..=hi).return_const(1u32);
        history!(c, m.g(0u8));
        m.checkpoint();
        must_panic!("after a checkpoint no earlier expectation answers (generic method)", m.g(0u8));
    }
}
#[cfg(not(kani))]
pub fn run() { vh::kani::main(registry()) }
