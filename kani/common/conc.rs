// Interference: under the verifier every operation on an AtomicUsize is replaced by its
// sequential meaning, preceded -- when the cell is the call counter under scrutiny -- by a
// step of the environment: an arbitrary number of complete calls made by other threads.
// What other threads may do (the rely) is what the proof shows of this thread's call (the
// guarantee): one call moves the counter by exactly one, and is accepted iff the number it
// thereby claims does not exceed the maximum.
#![allow(dead_code)]
#[cfg(kani)]
pub mod g {
    use std::sync::atomic::{AtomicUsize, Ordering};
    pub struct S {
        tag: u64,
        /// The counter; null: none.
        pub target: *const usize,
        pub learn: bool,
        /// Environment steps still allowed (retry loops must come to an end).
        pub steps: usize,
        pub limit: usize,
        pub hi: usize,
        /// Calls of other threads so far, and how many of them were accepted.
        pub env: usize,
        pub acc: usize,
        /// Changes of the counter made by this thread; the number claimed by the last one.
        pub own: usize,
        pub pos: usize,
        pub odd: bool,
        /// The first environment step makes at least this many calls.
        pub force: usize,
    }
    pub static mut S_: S = S { tag: 0x51ed_270b_2f4d_9c13, target: std::ptr::null(), learn: false, steps: 0, limit: 0, hi: 0, env: 0, acc: 0, own: 0, pos: 0, odd: false, force: 0 };
    #[allow(static_mut_refs)]
    pub fn s() -> &'static mut S { unsafe { &mut S_ } }

    fn min(a: usize, b: usize) -> usize { if a < b { a } else { b } }
    pub fn tick(c: *mut usize) -> bool {
        let s = s();
        if s.target.is_null() || s.target != c as *const usize { return false }
        if s.steps > 0 {
            s.steps -= 1;
            let old = unsafe { *c };
            let room = if old < s.limit { s.limit - old } else { 0 };
            let new: usize = kani::any();
            kani::assume(new >= old && new - old >= s.force && new - old <= room);
            s.force = 0;
            unsafe { *c = new };
            s.env = s.env.wrapping_add(new - old);
            s.acc = s.acc.wrapping_add(min(new, s.hi) - min(old, s.hi));
        }
        true
    }
    fn set(c: *mut usize, new: usize) {
        let t = tick(c);
        put(c, new, t)
    }
    fn put(c: *mut usize, new: usize, t: bool) {
        let old = unsafe { *c };
        unsafe { *c = new };
        if t && new != old {
            let s = s();
            s.own += 1;
            s.pos = new;
            if new != old.wrapping_add(1) { s.odd = true }
        }
    }
    pub fn load(a: &AtomicUsize, _o: Ordering) -> usize { let c = a.as_ptr(); tick(c); unsafe { *c } }
    pub fn store(a: &AtomicUsize, v: usize, _o: Ordering) {
        let c = a.as_ptr();
        if s().learn { s().target = c as *const usize; unsafe { *c = v }; return }
        set(c, v)
    }
    fn rmw(a: &AtomicUsize, f: impl FnOnce(usize) -> usize) -> usize {
        let c = a.as_ptr();
        let t = tick(c);
        let old = unsafe { *c };
        put(c, f(old), t);
        old
    }
    pub fn swap(a: &AtomicUsize, v: usize, _o: Ordering) -> usize { rmw(a, |_| v) }
    pub fn fetch_add(a: &AtomicUsize, v: usize, _o: Ordering) -> usize { rmw(a, |x| x.wrapping_add(v)) }
    pub fn fetch_sub(a: &AtomicUsize, v: usize, _o: Ordering) -> usize { rmw(a, |x| x.wrapping_sub(v)) }
    pub fn fetch_max(a: &AtomicUsize, v: usize, _o: Ordering) -> usize { rmw(a, |x| if v > x { v } else { x }) }
    pub fn fetch_min(a: &AtomicUsize, v: usize, _o: Ordering) -> usize { rmw(a, |x| if v < x { v } else { x }) }
    pub fn cas(a: &AtomicUsize, cur: usize, new: usize, _o: Ordering, _p: Ordering) -> Result<usize, usize> {
        let c = a.as_ptr();
        let t = tick(c);
        let old = unsafe { *c };
        if old == cur { put(c, new, t); Ok(old) } else { Err(old) }
    }
    pub fn cas_weak(a: &AtomicUsize, cur: usize, new: usize, o: Ordering, p: Ordering) -> Result<usize, usize> {
        // may fail for no reason, as long as the environment is still active
        if s().steps > 0 && kani::any() { let c = a.as_ptr(); tick(c); return Err(unsafe { *c }) }
        cas(a, cur, new, o, p)
    }
}

/// From here on the counter set up by `times` is the one under scrutiny.
#[cfg(kani)]
pub fn learn<T>(f: impl FnOnce() -> T) -> T { g::s().learn = true; let r = f(); g::s().learn = false; r }
/// `hi`: the maximum.  Other threads' calls do not move the counter beyond `limit`; the first
/// interference is at least `force` calls.
#[cfg(kani)]
pub fn start(hi: usize, limit: usize, force: usize) {
    let s = g::s();
    kani::assume(!s.target.is_null());
    s.hi = hi; s.limit = limit; s.steps = 4; s.force = force;
    s.env = 0; s.acc = 0; s.own = 0; s.pos = 0; s.odd = false;
}
/// The number of calls made so far by all threads (as long as this thread's own change was
/// not `odd`).
#[cfg(kani)]
pub fn now() -> usize { unsafe { *g::s().target } }
/// No more interference.  Complete for code that performs at most 4 atomic operations on the
/// counter meanwhile.
#[cfg(kani)]
pub fn stop() -> usize { let n = now(); g::s().target = std::ptr::null(); n }

// ---------------------------------------------------------------------------------
// Native: real threads.
// ---------------------------------------------------------------------------------
/// Call `f` from several threads at once.  -> (calls made, calls accepted)
#[cfg(not(kani))]
pub fn stress<F: Fn() -> bool>(f: &F) -> (usize, usize) {
    use std::sync::atomic::{AtomicUsize, Ordering};
    struct P<T>(T);
    unsafe impl<T> Send for P<T> {}
    impl<T: Copy> P<T> { fn get(&self) -> T { self.0 } }
    let threads = 2 + (crate::vh::kani::any::<u8>() % 3) as usize;
    let calls = 1 + (crate::vh::kani::any::<u16>() % 600) as usize;
    let (ready, ok) = (AtomicUsize::new(0), AtomicUsize::new(0));
    std::thread::scope(|s| {
        for _ in 0..threads {
            let (p, ready, ok) = (P(f as *const F), &ready, &ok);
            s.spawn(move || {
                let f = unsafe { &*p.get() };
                ready.fetch_add(1, Ordering::SeqCst);
                while ready.load(Ordering::SeqCst) < threads { std::hint::spin_loop() }
                let mut n = 0;
                for _ in 0..calls {
                    if std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f())).unwrap_or(false) { n += 1 }
                }
                ok.fetch_add(n, Ordering::SeqCst);
            });
        }
    });
    (threads * calls, ok.into_inner())
}
