//! C07, generic methods.
#![allow(unused)]
#[path = "../../common/vh.rs"]
#[macro_use]
mod vh;
use mockall::*;
use vh::*;

mock! { pub G { fn a<T: 'static>(&self, x: T) -> u32; } }
mock! { pub SG { fn a<T: 'static>(x: T) -> u32; } }
const BIG: usize = usize::MAX - 8;

harnesses! {
    ok_gen (4) {
        let n: usize = kani::any();
        kani::assume(n < BIG && n > 0);
        let mut s = Sequence::new();
        let mut m = MockG::new();
        preset_calls(n - 1);
        m.expect_a::<u8>().times(n).return_const(1u32).in_sequence(&mut s);
        preset_calls(0);
        m.expect_a::<u16>().times(1).return_const(2u32).in_sequence(&mut s);
        history!(n - 1, m.a(0u8));
        obl!(m.a(0u8) == 1, "generic: completing");
        obl!(m.a(0u16) == 2, "generic: the next one, of another type");
        done(m);
    }
    pan_gen (4) {
        let (n, k): (usize, usize) = kani::any();
        kani::assume(n < BIG && k < n);
        let mut s = Sequence::new();
        let mut m = MockG::new();
        preset_calls(k);
        m.expect_a::<u8>().times(n).return_const(1u32).in_sequence(&mut s);
        preset_calls(0);
        m.expect_a::<u16>().times(1).return_const(2u32).in_sequence(&mut s);
        history!(k, m.a(0u8));
        must_panic!("generic: refused early", m.a(0u16));
    }
    ok_stat_gen (4) {
        let mut s = Sequence::new();
        let c = MockSG::a_context();
        preset_calls(0);
        { let mut g = c.expect::<u8>(); g.times(1); g.return_const(1u32); g.in_sequence(&mut s); }
        c.expect::<u16>().times(1).return_const(2u32).in_sequence(&mut s);
        obl!(MockSG::a(0u8) == 1, "generic static: completing");
        obl!(MockSG::a(0u16) == 2, "generic static: the next one");
        done(c);
    }
    pan_stat_gen (4) {
        let mut s = Sequence::new();
        let c = MockSG::a_context();
        preset_calls(0);
        { let mut g = c.expect::<u8>(); g.times(1); g.return_const(1u32); g.in_sequence(&mut s); }
        c.expect::<u16>().times(1).return_const(2u32).in_sequence(&mut s);
        must_panic!("generic static: refused early", MockSG::a(0u16));
    }
}
#[cfg(not(kani))]
pub fn run() { vh::kani::main(registry()) }
