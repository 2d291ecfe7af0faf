// Shared contract-harness support.
//
// The same harness text is used twice:
//  * under `cfg(kani)` every harness is a bundle of deductive obligations: its inputs
//    are unconstrained symbolic values, `assume` is the precondition, `obl!` a
//    postcondition, `must_panic!` an exceptional postcondition;
//  * natively (no cfg) the very same harness runs on concrete values, with the real
//    std::sync::Mutex, real panics, real unwinding and real threads: that is how a
//    violation is replayed against the real code.
#![allow(unused)]

use std::sync::{LockResult, Mutex, MutexGuard, TryLockError};

// ---------------------------------------------------------------------------------
// Kani side
// ---------------------------------------------------------------------------------
#[cfg(kani)]
pub mod ghost {
    use std::sync::atomic::{AtomicBool, Ordering};
    // The tag keeps the initial bytes different from those of any constant: Kani gives a
    // constant the storage of a static with equal initial bytes, even a mutable one.
    struct Tagged(u64, AtomicBool);
    static PANICKING: Tagged = Tagged(0xa076_1d64_78bd_642f, AtomicBool::new(false));
    pub fn panicking() -> bool { PANICKING.1.load(Ordering::Relaxed) }
    /// Run `f` as if the current thread were unwinding from a panic.
    pub fn while_panicking(f: impl FnOnce()) {
        PANICKING.1.store(true, Ordering::Relaxed);
        f();
        PANICKING.1.store(false, Ordering::Relaxed);
    }
    /// The thread starts to unwind here (in a call that holds the expectations' lock) ...
    pub fn panic_here() { PANICKING.1.store(true, Ordering::Relaxed) }
    /// ... and stops unwinding here.
    pub fn catch(f: impl FnOnce()) { f(); PANICKING.1.store(false, Ordering::Relaxed) }
    /// Run `f` as if on a different thread.
    pub fn on_other_thread<R>(f: impl FnOnce() -> R) -> R {
        let g = &fragile::ghost_thread::GHOST.1;
        let old = g.load(Ordering::Relaxed);
        g.store(old + 1, Ordering::Relaxed);
        let r = f();
        g.store(old, Ordering::Relaxed);
        r
    }
    /// The identity of the current thread.
    #[derive(Clone, Copy, PartialEq)]
    pub struct Here(usize);
    pub fn here() -> Here { Here(fragile::ghost_thread::GHOST.1.load(Ordering::Relaxed)) }
    pub fn is_here(h: Here) -> bool { here() == h }
}

// Stubs (trusted base under Kani).
// Formatting of panic messages is dropped; it returns a String and has no other effect.
#[cfg(kani)]
pub fn fmt_stub(_a: std::fmt::Arguments<'_>) -> String { String::new() }
// Mutex::lock == try_lock in a sequential proof; blocking would be a self-deadlock.
#[cfg(kani)]
pub fn lock_stub<T: ?Sized>(m: &Mutex<T>) -> LockResult<MutexGuard<'_, T>> {
    match m.try_lock() {
        Ok(g) => Ok(g),
        Err(TryLockError::Poisoned(p)) => Err(p),
        Err(TryLockError::WouldBlock) => {
            assert!(false, "OBL:deadlock: a thread locks a mutex it already holds");
            loop {}
        }
    }
}
#[cfg(kani)]
pub fn panicking_stub() -> bool { ghost::panicking() }
// Hash collisions everywhere: HashMap look-up is decided by key equality alone.
#[cfg(kani)]
pub fn rs_stub() -> std::collections::hash_map::RandomState {
    unsafe { std::mem::transmute([0u64; 2]) }
}
#[cfg(kani)]
pub fn hw_stub(_h: &mut std::collections::hash_map::DefaultHasher, _b: &[u8]) {}
#[cfg(kani)]
pub fn hf_stub(_h: &std::collections::hash_map::DefaultHasher) -> u64 { 0 }

#[cfg(kani)]
macro_rules! obl { ($c:expr, $m:literal) => { kani::assert($c, concat!("OBL:", $m)) } }
#[cfg(kani)]
macro_rules! must_panic { ($m:literal, $e:expr) => {{
    kani::cover!(true, $m);
    let __r = $e;
    core::mem::forget(__r);
    kani::assert(false, concat!("OBL:", $m));
    kani::assume(false);
}} }
#[cfg(kani)]
macro_rules! one {
    ($name:ident $u:literal $body:block) => {
        #[kani::proof]
        #[kani::stub(alloc::fmt::format, crate::vh::fmt_stub)]
        #[kani::stub(std::sync::Mutex::lock, crate::vh::lock_stub)]
        #[kani::stub(std::thread::panicking, crate::vh::panicking_stub)]
        #[kani::stub(std::hash::RandomState::new, crate::vh::rs_stub)]
        #[kani::stub(<std::hash::DefaultHasher as std::hash::Hasher>::write, crate::vh::hw_stub)]
        #[kani::stub(<std::hash::DefaultHasher as std::hash::Hasher>::finish, crate::vh::hf_stub)]
        #[kani::unwind($u)]
        pub fn $name() {
            let _: () = $body;
            kani::cover!(true, "END");
        }
    };
}

// ---------------------------------------------------------------------------------
// Native side
// ---------------------------------------------------------------------------------
#[cfg(not(kani))]
macro_rules! obl { ($c:expr, $m:literal) => { if !$c { crate::vh::kani::violation(concat!("OBL:", $m)) } } }
#[cfg(not(kani))]
macro_rules! must_panic { ($m:literal, $e:expr) => {{
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| $e)) {
        Ok(__r) => { core::mem::forget(__r); crate::vh::kani::violation(concat!("OBL:", $m)) }
        Err(p) => crate::vh::kani::done(p),
    }
}} }
#[cfg(not(kani))]
macro_rules! one {
    ($name:ident $u:literal $body:block) => { pub fn $name() { $body } };
}

macro_rules! harnesses {
    ($( $(#[$m:meta])* $name:ident ($u:literal) $body:block )*) => {
        $( $(#[$m])* one!{$name $u $body} )*
        #[cfg(not(kani))]
        pub fn registry() -> Vec<(&'static str, fn())> {
            vec![$((stringify!($name), $name as fn())),*]
        }
    };
}

#[cfg(not(kani))]
pub mod ghost {
    pub fn panicking() -> bool { std::thread::panicking() }
    struct D<F: FnOnce()>(Option<F>);
    impl<F: FnOnce()> Drop for D<F> { fn drop(&mut self) { (self.0.take().unwrap())() } }
    /// Really unwind, and run `f` from a destructor.  (A panic inside `f` aborts.)
    pub fn while_panicking(f: impl FnOnce()) {
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            let _d = D(Some(f));
            std::panic::resume_unwind(Box::new(super::kani::Special::Unwind));
        }));
        drop(r);
    }
    pub fn panic_here() { std::panic::resume_unwind(Box::new(super::kani::Special::Unwind)) }
    pub fn catch(f: impl FnOnce()) {
        if let Err(p) = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
            match p.downcast::<super::kani::Special>() {
                Ok(s) => if !matches!(*s, super::kani::Special::Unwind) { std::panic::resume_unwind(s) },
                Err(_) => {}
            }
        }
    }
    struct Snd<T>(T);
    unsafe impl<T> Send for Snd<T> {}
    impl<T> Snd<T> { fn get(self) -> T { self.0 } }
    pub fn on_other_thread<R>(f: impl FnOnce() -> R) -> R {
        let f = Snd(f);
        let r = std::thread::scope(|s| {
            s.spawn(move || { super::kani::quiet(); Snd((f.get())()) }).join()
        });
        match r { Ok(r) => r.get(), Err(p) => std::panic::resume_unwind(p) }
    }
    #[derive(Clone, Copy, PartialEq)]
    pub struct Here(std::thread::ThreadId);
    pub fn here() -> Here { Here(std::thread::current().id()) }
    pub fn is_here(h: Here) -> bool { here() == h }
}

#[cfg(not(kani))]
pub mod kani {
    use std::cell::{Cell, RefCell};
    pub enum Special { Discard, Done, Unwind, Violation(String) }
    thread_local! {
        static RNG: Cell<u64> = Cell::new(1);
        static LOG: RefCell<Vec<String>> = RefCell::new(vec![]);
        static PREV: RefCell<Vec<u128>> = RefCell::new(vec![]);
        static QUEUE: RefCell<std::collections::VecDeque<u128>> = RefCell::new(Default::default());
    }
    pub fn seed(s: u64) {
        RNG.with(|r| r.set(s.wrapping_mul(0x9E3779B97F4A7C15) | 1));
        LOG.with(|l| l.borrow_mut().clear());
        PREV.with(|l| l.borrow_mut().clear());
    }
    pub fn quiet() {}
    pub fn log() -> Vec<String> { LOG.with(|l| l.borrow().clone()) }
    /// VH_VALUES: primitive inputs of a verifier counterexample, little-endian hex, in order.
    fn load_values() {
        if let Ok(v) = std::env::var("VH_VALUES") {
            QUEUE.with(|q| *q.borrow_mut() = v.split(',').map(|h| {
                let mut x = 0u128;
                for i in (0..h.len() / 2).rev() { x = (x << 8) | u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap_or(0) as u128; }
                x }).collect());
        }
    }
    fn next() -> u64 {
        RNG.with(|r| {
            let mut x = r.get();
            x ^= x << 13; x ^= x >> 7; x ^= x << 17;
            r.set(x);
            x.wrapping_mul(0x2545F4914F6CDD1D)
        })
    }
    pub fn violation(m: &str) { std::panic::resume_unwind(Box::new(Special::Violation(m.to_string()))) }
    pub fn done(p: Box<dyn std::any::Any + Send>) {
        match p.downcast::<Special>() {
            Ok(s) => std::panic::resume_unwind(s),
            Err(_) => std::panic::resume_unwind(Box::new(Special::Done)),
        }
    }
    pub fn assume(c: bool) { if !c { std::panic::resume_unwind(Box::new(Special::Discard)) } }
    pub trait Arbitrary: Sized { fn arb() -> Self; fn show(&self) -> String; }
    macro_rules! ints { ($($t:ty),*) => { $(impl Arbitrary for $t {
        fn arb() -> Self {
            if let Some(v) = QUEUE.with(|q| q.borrow_mut().pop_front()) { return v as $t }
            let r = next();
            let v: u128 = match r % 16 {
                0..=6 => ((r >> 8) % 4) as u128,
                7..=9 => ((r >> 8) % 12) as u128,
                10 => <$t>::MAX as u128 - ((r >> 8) % 3) as u128,
                11..=13 => PREV.with(|p| { let p = p.borrow(); if p.is_empty() { 0 } else {
                    let v = p[(r >> 8) as usize % p.len()];
                    match (r >> 40) % 4 { 0 => v.wrapping_add(1), 1 => v.wrapping_sub(1), _ => v } } }),
                _ => ((next() as u128) << 64) | next() as u128,
            };
            PREV.with(|p| p.borrow_mut().push(v));
            v as $t
        }
        fn show(&self) -> String { format!("{}{}", self, stringify!($t)) }
    })* } }
    ints!(u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize);
    impl Arbitrary for bool { fn arb() -> bool { if let Some(v) = QUEUE.with(|q| q.borrow_mut().pop_front()) { return v != 0 } next() >> 63 == 1 } fn show(&self) -> String { self.to_string() } }
    impl Arbitrary for char { fn arb() -> char { char::from_u32((next() % 0xd800) as u32).unwrap() } fn show(&self) -> String { format!("{self:?}") } }
    impl<A: Arbitrary, B: Arbitrary> Arbitrary for (A, B) {
        fn arb() -> Self { (A::arb(), B::arb()) } fn show(&self) -> String { format!("({}, {})", self.0.show(), self.1.show()) } }
    impl<A: Arbitrary, B: Arbitrary, C: Arbitrary> Arbitrary for (A, B, C) {
        fn arb() -> Self { (A::arb(), B::arb(), C::arb()) } fn show(&self) -> String { format!("({}, {}, {})", self.0.show(), self.1.show(), self.2.show()) } }
    impl<A: Arbitrary, const N: usize> Arbitrary for [A; N] {
        fn arb() -> Self { std::array::from_fn(|_| A::arb()) }
        fn show(&self) -> String { format!("[{}]", self.iter().map(|a| a.show()).collect::<Vec<_>>().join(", ")) } }
    pub fn any<T: Arbitrary>() -> T {
        let v = T::arb();
        LOG.with(|l| l.borrow_mut().push(v.show()));
        v
    }

    /// Run every harness named on the command line (all if none) on concrete values.
    /// argv: ITERATIONS SEED SECONDS [NAME...]
    pub fn main(reg: Vec<(&'static str, fn())>) {
        std::panic::set_hook(Box::new(|i| {
            LAST.with(|l| *l.borrow_mut() = format!("{}", i).replace('\n', " "));
        }));
        let a: Vec<String> = std::env::args().collect();
        let (n, s0): (u64, u64) = (a[1].parse().unwrap(), a[2].parse().unwrap());
        let secs: f64 = a[3].parse().unwrap();
        let mut bad = false;
        for (name, f) in reg {
            if a.len() > 4 && !a[4..].iter().any(|x| x == name) { continue }
            let t0 = std::time::Instant::now();
            let (mut ok, mut disc, mut viol) = (0u64, 0u64, None);
            println!("START {name}");
            for i in 0..n {
                if t0.elapsed().as_secs_f64() > secs { break }
                seed(s0.wrapping_mul(1_000_003).wrapping_add(i + 1));
                load_values();
                super::reset();
                let r = std::panic::catch_unwind(f);
                match r {
                    Ok(()) => ok += 1,
                    Err(p) => match p.downcast::<Special>() {
                        Ok(s) => match *s {
                            Special::Discard => disc += 1,
                            Special::Done => ok += 1,
                            Special::Unwind => ok += 1,
                            Special::Violation(m) => { viol = Some((m, i)); }
                        },
                        Err(_) => { viol = Some((format!("unexpected panic: {}", LAST.with(|l| l.borrow().clone())), i)); }
                    }
                }
                if viol.is_some() { break }
            }
            match viol {
                Some((m, i)) => { bad = true; println!("VIOL {name} iter={i} inputs=[{}] :: {m}", log().join(", ")) }
                None => println!("DONE {name} ok={ok} discarded={disc}"),
            }
        }
        std::process::exit(if bad { 1 } else { 0 })
    }
    thread_local! { static LAST: RefCell<String> = RefCell::new(String::new()); }
    macro_rules! cover_ { ($($t:tt)*) => {} }
    pub(crate) use cover_ as cover;
}

// An arbitrary history of `n` accepted calls of the next configured expectation.
//  * proof with the /repo hook (cfg mockall_verif): the history is summarised by its
//    length, which is the only thing an expectation remembers; n is unbounded;
//  * proof without the hook: the calls are made, n <= 2 (bounded);
//  * native: the calls are really made, n <= 3000.
#[cfg(mockall_verif)]
pub fn preset_calls(n: usize) { mockall::verif::set_call_count(n) }
#[cfg(all(kani, not(mockall_verif)))]
pub fn preset_calls(n: usize) { kani::assume(n <= 2) }
#[cfg(all(not(kani), not(mockall_verif)))]
pub fn preset_calls(n: usize) { kani::assume(n <= 3000) }

#[cfg(mockall_verif)]
macro_rules! history { ($n:expr, $call:expr) => { crate::vh::preset_calls(0) } }
#[cfg(not(mockall_verif))]
macro_rules! history { ($n:expr, $call:expr) => { { let mut __i: usize = 0; while __i < $n { let _ = $call; __i += 1; } } } }

// Several expectations of one method: to make history calls that hit expectation `i` only,
// every condition goes through `gate(i, _)`.
pub static SEL: (std::sync::atomic::AtomicUsize, u64) = (std::sync::atomic::AtomicUsize::new(0), 0xe703_7ed1_a0b4_28db);
#[cfg(mockall_verif)]
pub fn gate(_i: usize, b: bool) -> bool { b }
#[cfg(not(mockall_verif))]
pub fn gate(i: usize, b: bool) -> bool {
    match SEL.0.load(std::sync::atomic::Ordering::Relaxed) { 0 => b, k => k == i + 1 }
}
#[cfg(mockall_verif)]
macro_rules! history_of { ($i:expr, $n:expr, $call:expr) => { crate::vh::preset_calls(0) } }
#[cfg(not(mockall_verif))]
macro_rules! history_of { ($i:expr, $n:expr, $call:expr) => { {
    crate::vh::SEL.0.store($i + 1, std::sync::atomic::Ordering::Relaxed);
    let mut __i: usize = 0; while __i < $n { let _ = $call; __i += 1; }
    crate::vh::SEL.0.store(0, std::sync::atomic::Ordering::Relaxed);
} } }
// `k` calls of an expectation that has already reached its maximum: each is refused (it
// panics, and the panic is caught).  With the hook they are summarised in the preset count.
#[cfg(mockall_verif)]
macro_rules! refused { ($k:expr, $call:expr) => { } }
#[cfg(all(kani, not(mockall_verif)))]
macro_rules! refused { ($k:expr, $call:expr) => { kani::assume($k == 0) } }
#[cfg(all(not(kani), not(mockall_verif)))]
macro_rules! refused { ($k:expr, $call:expr) => { {
    kani::assume($k <= 20);
    let mut __i: usize = 0; while __i < $k {
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| { let _ = $call; }));
        obl!(r.is_err(), "a call beyond the maximum is refused");
        __i += 1;
    }
} } }
/// Calls accepted and refused that together set the preset count of `refused!`.
#[cfg(mockall_verif)]
pub fn preset_refused(hi: usize, k: usize) { mockall::verif::set_call_count(hi + k) }
#[cfg(not(mockall_verif))]
pub fn preset_refused(hi: usize, _k: usize) { preset_calls(hi) }
/// A discarded native run must not leave a selector behind.
#[cfg(not(kani))]
pub fn reset() { SEL.0.store(0, std::sync::atomic::Ordering::Relaxed); preset_reset() }
#[cfg(all(not(kani), mockall_verif))]
fn preset_reset() { mockall::verif::set_call_count(0) }
#[cfg(all(not(kani), not(mockall_verif)))]
fn preset_reset() {}
/// End of interest in an object: the proof stops looking at it, a native run drops it.
#[cfg(kani)]
pub fn done<T>(t: T) { core::mem::forget(t) }
#[cfg(not(kani))]
pub fn done<T>(t: T) { drop(t) }
/// The same for objects with calls outstanding: never dropped.
pub fn leak<T>(t: T) { core::mem::forget(t) }
