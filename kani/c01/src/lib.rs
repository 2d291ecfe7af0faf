//! C01: every call-count argument denotes exactly the documented set of call counts.
//! Functions under contract: `From<{usize, Range, RangeFrom, RangeFull, RangeInclusive,
//! RangeTo, RangeToInclusive}> for TimesRange`, `TimesRange::default`, and
//! `Times::{call, count, any, is_done, is_exact, is_satisfied, maximum, minimum, n, never,
//! range, times}`.  Loop-free over full-domain inputs: complete proofs.
#![allow(unused)]
#[path = "../../common/vh.rs"]
#[macro_use]
mod vh;
use mockall::{ExpectedCalls, Times, TimesRange};
use vh::*;

/// Counts and bounds up to here are exact; `usize::MAX` itself is "approximately
/// infinity" in the documentation and is not claimed.
const TOP: usize = usize::MAX - 2;

/// The specification: the permitted counts are lo..=hi, `None` meaning unbounded.
/// `c` is the number of calls received so far.
fn contract(t: &Times, lo: usize, hi: Option<usize>, c: usize) {
    let below = |n: usize| hi.map_or(true, |h| n <= h);
    obl!(t.count() == c, "Times::count is the number of calls received");
    obl!(t.minimum() == lo, "Times::minimum is the least permitted count");
    if let Some(h) = hi { obl!(t.maximum() == h, "Times::maximum is the greatest permitted count"); }
    obl!(t.is_exact() == (hi == Some(lo)), "Times::is_exact iff exactly one count is permitted");
    obl!(t.is_done() == (hi.map_or(false, |h| c >= h)), "Times::is_done iff no further call is permitted");
    let s = t.is_satisfied();
    obl!((s == ExpectedCalls::TooFew) == (c < lo), "Times::is_satisfied: TooFew iff below the minimum");
    obl!((s == ExpectedCalls::TooMany) == (c >= lo && !below(c)), "Times::is_satisfied: TooMany iff above the maximum");
    obl!((s == ExpectedCalls::Satisfied) == (c >= lo && below(c)), "Times::is_satisfied: Satisfied iff the count is permitted");
    let r = t.call();
    obl!(r.is_ok() == below(c + 1), "Times::call accepts the call iff the new count does not exceed the maximum");
    core::mem::forget(r);
    obl!(t.count() == c + 1, "Times::call counts exactly one call");
    obl!(t.minimum() == lo, "Times::call leaves the minimum alone");
    obl!(t.is_done() == (hi.map_or(false, |h| c + 1 >= h)), "Times::is_done after the call");
    let s = t.is_satisfied();
    obl!((s == ExpectedCalls::TooFew) == (c + 1 < lo), "Times::is_satisfied after the call: TooFew");
    obl!((s == ExpectedCalls::Satisfied) == (c + 1 >= lo && below(c + 1)), "Times::is_satisfied after the call: Satisfied");
}

/// Reach an arbitrary history length `c`.
fn fresh(c: usize) -> Times { preset_calls(c); Times::default() }
fn calls(t: &Times, c: usize) { history!(c, t.call()); }

fn with<T: Into<TimesRange>>(arg: T, lo: usize, hi: Option<usize>) {
    let c: usize = kani::any();
    kani::assume(c < TOP);
    let mut t = fresh(c);
    t.times(arg);
    calls(&t, c);
    contract(&t, lo, hi, c);
}

harnesses! {
    ok_exact (4) { let n: usize = kani::any(); kani::assume(n < TOP); with(n, n, Some(n)); }
    ok_range (4) { let (a, b): (usize, usize) = kani::any(); kani::assume(a < b && b <= TOP); with(a..b, a, Some(b - 1)); }
    ok_range_inclusive (4) { let (a, b): (usize, usize) = kani::any(); kani::assume(a <= b && b < TOP); with(a..=b, a, Some(b)); }
    ok_range_from (4) { let a: usize = kani::any(); kani::assume(a < TOP); with(a.., a, None); }
    ok_range_full (4) { with(.., 0, None); }
    ok_range_to (4) { let b: usize = kani::any(); kani::assume(0 < b && b <= TOP); with(..b, 0, Some(b - 1)); }
    ok_range_to_inclusive (4) { let b: usize = kani::any(); kani::assume(b < TOP); with(..=b, 0, Some(b)); }
    ok_default_any (4) { let t = Times::default(); contract(&t, 0, None, 0); }
    ok_default_range (4) { with(TimesRange::default(), 0, None); }
    ok_never (4) {
        let (a, b): (usize, usize) = kani::any(); kani::assume(a < b && b <= TOP);
        preset_calls(0);
        let mut t = Times::default(); t.times(a..b); t.never(); contract(&t, 0, Some(0), 0);
    }
    ok_any (4) {
        let c: usize = kani::any(); kani::assume(c < TOP);
        let mut t = fresh(c); t.times(3); t.any(); calls(&t, c); contract(&t, 0, None, c);
    }
    ok_n (4) {
        let (n, c): (usize, usize) = kani::any(); kani::assume(n < TOP && c < TOP);
        let mut t = fresh(c); t.times(..); t.n(n); calls(&t, c); contract(&t, n, Some(n), c);
    }
    ok_range_fn (4) {
        let (a, b, c): (usize, usize, usize) = kani::any(); kani::assume(a < b && b <= TOP && c < TOP);
        let mut t = fresh(c); t.times(..); t.range(a..b); calls(&t, c); contract(&t, a, Some(b - 1), c);
    }
    ok_last_setting_wins (4) {
        let (a, b, n): (usize, usize, usize) = kani::any(); kani::assume(a < b && b <= TOP && n < TOP);
        let c: usize = kani::any(); kani::assume(c < TOP);
        let mut t = fresh(c); t.times(a..b); t.times(n); calls(&t, c); contract(&t, n, Some(n), c);
    }
    pan_range (4) { let (a, b): (usize, usize) = kani::any(); kani::assume(a >= b); must_panic!("an empty range a..b (a >= b) is rejected", TimesRange::from(a..b)); }
    pan_range_inclusive (4) { let (a, b): (usize, usize) = kani::any(); kani::assume(a > b && b < TOP); must_panic!("an empty range a..=b (a > b) is rejected", TimesRange::from(a..=b)); }
    pan_range_to (4) { let b: usize = 0; must_panic!("the empty range ..0 is rejected", TimesRange::from(..b)); }
    pan_range_fn (4) { let (a, b): (usize, usize) = kani::any(); kani::assume(a >= b); let mut t = Times::default(); must_panic!("Times::range rejects an empty range", t.range(a..b)); }
    pan_times_range (4) { let (a, b): (usize, usize) = kani::any(); kani::assume(a >= b); let mut t = Times::default(); must_panic!("Times::times rejects an empty range", t.times(a..b)); }
}
#[cfg(not(kani))]
pub fn run() { vh::kani::main(registry()) }
