/// A sequence that `joined` expectations have joined, the first `satisfied` of which have
/// received all their calls.  With the /repo hook both numbers are unbounded; natively the
/// expectations are really made (and called).
#[cfg(mockall_verif)]
fn seq_at(joined: usize, satisfied: usize) -> (Sequence, ()) {
    mockall::verif::set_sequence(joined, satisfied);
    (Sequence::new(), ())
}
#[cfg(all(kani, not(mockall_verif)))]
fn seq_at(joined: usize, satisfied: usize) -> (Sequence, ()) {
    kani::assume(joined == 0);
    (Sequence::new(), ())
}
#[cfg(all(not(kani), not(mockall_verif)))]
fn seq_at(joined: usize, satisfied: usize) -> (Sequence, core::mem::ManuallyDrop<MockH>) {
    kani::assume(joined < 6);
    let mut s = Sequence::new();
    let mut h = MockH::new();
    for i in 0..joined {
        h.expect_h().times(1 + i % 3).return_const(()).in_sequence(&mut s);
    }
    for i in 0..satisfied { for _ in 0..1 + i % 3 { h.h(); } }
    (s, core::mem::ManuallyDrop::new(h))
}
mock! { pub H { fn h(&self); } }
