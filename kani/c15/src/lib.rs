//! C15: automock gives the same behaviour as a hand-written mock declaration.
//! The same contracts are put on the generated code of `#[automock]` (traits, traits with
//! associated types and constants, generic traits, trait impls, inherent impls, modules,
//! foreign blocks) and on that of the equivalent `mock!` declaration; the original items
//! keep their own contracts.
#![allow(unused)]
#[path = "../../common/vh.rs"]
#[macro_use]
mod vh;
use mockall::*;
use mockall::predicate::*;
use vh::*;

// ---- traits ------------------------------------------------------------------------------------
pub trait Abstract {
    fn foo(&self, x: u32) -> u32;
    fn bar(&mut self, x: u32, y: u32) -> u32;
    fn dflt(&self, x: u32) -> u32 { x.wrapping_mul(7) }
    fn val(self, x: u32) -> u32;
    fn refr(&self) -> &u32;
    fn refm(&mut self) -> &mut u32;
    fn stat(x: u32) -> u32;
    fn mk(x: u32) -> Self where Self: Sized;
    fn sl(&self, x: &[u32], s: &str) -> usize;
}
pub mod auto {
    #[mockall::automock]
    pub trait Tr {
        fn foo(&self, x: u32) -> u32;
        fn bar(&mut self, x: u32, y: u32) -> u32;
        fn dflt(&self, x: u32) -> u32 { x.wrapping_mul(7) }
        fn val(self, x: u32) -> u32;
        fn refr(&self) -> &u32;
        fn refm(&mut self) -> &mut u32;
        fn stat(x: u32) -> u32;
        fn mk(x: u32) -> Self where Self: Sized;
        fn sl(&self, x: &[u32], s: &str) -> usize;
    }
}
pub mod hand {
    pub use super::Abstract as Tr;
    mockall::mock! {
        #[derive(Debug)]
        pub Tr {}
        impl Tr for Tr {
            fn foo(&self, x: u32) -> u32;
            fn bar(&mut self, x: u32, y: u32) -> u32;
            fn dflt(&self, x: u32) -> u32;
            fn val(self, x: u32) -> u32;
            fn refr(&self) -> &u32;
            fn refm(&mut self) -> &mut u32;
            fn stat(x: u32) -> u32;
            fn mk(x: u32) -> Self where Self: Sized;
            fn sl(&self, x: &[u32], s: &str) -> usize;
        }
    }
}
// An ordinary implementor of the automocked trait: the trait itself is unchanged.
pub struct Plain(u32);
impl auto::Tr for Plain {
    fn foo(&self, x: u32) -> u32 { self.0 ^ x }
    fn bar(&mut self, x: u32, y: u32) -> u32 { self.0 = x; y }
    fn val(self, x: u32) -> u32 { self.0 ^ x }
    fn refr(&self) -> &u32 { &self.0 }
    fn refm(&mut self) -> &mut u32 { &mut self.0 }
    fn stat(x: u32) -> u32 { !x }
    fn mk(x: u32) -> Self { Plain(x) }
    fn sl(&self, x: &[u32], s: &str) -> usize { x.len() + s.len() }
}

// ---- associated types and constants ---------------------------------------------------------------
#[automock(type Key=u16; type Value=i64;)]
pub trait Assoc {
    type Key: Clone + 'static;
    type Value: Clone + 'static;
    const NUM: u32 = 77;
    fn get(&self, k: Self::Key) -> Self::Value;
    fn key(&self, v: <Self as Assoc>::Value) -> <Self as Assoc>::Key;
    fn opt(&self, k: Option<Self::Key>) -> Result<Self::Value, Self::Key>;
    fn sl(&self, k: &[Self::Key]) -> Self::Value;
    fn arr(&self, k: [Self::Key; 2]) -> (Self::Value, Self::Key);
    fn cb(&self, f: fn(Self::Key) -> Self::Value, k: Self::Key) -> Self::Value;
    fn rf(&self, k: &Self::Key) -> &Self::Value;
    fn vx(&self, k: Box<Self::Key>) -> Box<Self::Value>;
    fn st(k: Self::Key) -> Self::Value;
}
#[automock(type Item=u8;)]
pub trait It { type Item; fn next(&mut self) -> Option<Self::Item>; fn put(&mut self, t: (Self::Item, Option<Self::Item>, *const Self::Item)) -> bool; }

// types of the same name from elsewhere are not the associated one
pub mod other { #[derive(Clone, Copy, PartialEq)] pub struct Key(pub u32); pub trait Hold { type Key; fn k(&self) -> Self::Key; } impl Hold for u32 { type Key = u8; fn k(&self) -> u8 { *self as u8 } } }
#[automock(type Key=u64; type V=i8;)]
pub trait Look {
    type Key: Clone + 'static;
    type V: Clone + 'static;
    fn same(&self, a: Self::Key, b: other::Key) -> other::Key;
    fn swap(&self, a: (Self::V, Self::Key, Option<Vec<Self::Key>>)) -> (Self::Key, Self::V);
    fn itr(&self, i: &dyn Iterator<Item = Self::Key>, h: Box<dyn other::Hold<Key = Self::V>>) -> Box<dyn Iterator<Item = Self::V>>;
    fn imp(&self, k: Self::Key) -> impl Iterator<Item = Self::Key>;
    fn ptr(&self, p: *const Self::V, f: fn((Self::Key, Self::V)) -> Option<Self::Key>) -> [[Self::Key; 2]; 1];
    fn mt(&mut self, k: &mut Self::Key) -> &mut Option<Self::V>;
    fn gen<T: 'static>(&self, t: T, k: Self::Key) -> Result<T, Self::V>;
}

// ---- generic traits, bounds, supertraits' where clauses ----------------------------------------------
#[automock]
pub trait GenTr<T: Clone + 'static> { fn foo(&self, t: T) -> T; fn bar(&mut self, t: T) -> u32; }
pub trait HandGen<T: Clone + 'static> { fn foo(&self, t: T) -> T; fn bar(&mut self, t: T) -> u32; }
mock! { pub HandG<T: Clone + 'static> {} impl<T: Clone + 'static> HandGen<T> for HandG<T> { fn foo(&self, t: T) -> T; fn bar(&mut self, t: T) -> u32; } }

// ---- struct impls --------------------------------------------------------------------------------------
pub mod st {
    pub struct Thing { pub v: u32 }
    #[mockall::automock]
    impl Thing {
        pub const C: u32 = 5;
        pub fn new(v: u32) -> Self { Thing { v } }
        pub fn get(&self, x: u32) -> u32 { self.v ^ x }
        pub fn set(&mut self, x: u32, y: u32) -> u32 { self.v = x; y }
        pub fn priv_(&self) -> u32 { self.hidden() }
        fn hidden(&self) -> u32 { self.v.wrapping_add(1) }
        pub fn stat(x: u32) -> u32 { !x }
        pub fn arg(&self, mut x: u32) -> u32 { x = x.wrapping_add(1); x }
    }
    pub fn hidden(m: &mut MockThing, v: u32) -> u32 { m.expect_hidden().return_const(v); m.hidden() }
}
pub mod hst {
    mockall::mock! { pub Thing {
        pub const C: u32 = 5;
        pub fn new(v: u32) -> Self;
        pub fn get(&self, x: u32) -> u32;
        pub fn set(&mut self, x: u32, y: u32) -> u32;
        pub fn stat(x: u32) -> u32;
    } }
}
// a struct without a constructor of its own
pub trait Num { fn n(&self) -> u32; }
impl Num for u32 { fn n(&self) -> u32 { *self } }
pub mod nonew {
    use super::Num;
    pub struct Nn;
    #[mockall::automock]
    impl Nn {
        /// A method with a documentation comment.
        pub fn get(&self, x: u32) -> u32 { x }
        #[must_use]
        #[inline]
        pub fn imp(&self, x: u32) -> impl Num { x }
        #[cfg(not(all()))]
        pub fn never(&self) -> NoSuchType { }
        #[cfg(all())]
        pub fn always(&self) -> u32 { 2 }
    }
}
// a generic struct
pub mod gst {
    pub struct Gs<T>(pub T);
    #[mockall::automock]
    impl<T: Clone + 'static> Gs<T> { pub fn get(&self, x: T) -> T { self.0.clone() } pub fn put(&mut self, x: T) -> u32 { self.0 = x; 3 } }
}

// ---- trait impls -----------------------------------------------------------------------------------------
pub trait Want { type A; const K: u32; fn get(&self, a: Self::A) -> Self::A; fn prov(&self) -> u32 { 11 } fn st(x: u32) -> u32; }
pub struct Real(pub u32);
#[automock]
impl Want for Real {
    type A = u64;
    const K: u32 = 9;
    fn get(&self, a: Self::A) -> Self::A { a ^ self.0 as u64 }
    fn st(x: u32) -> u32 { !x }
}

// ---- modules ----------------------------------------------------------------------------------------------
#[automock]
pub mod fm {
    pub type Num = u32;
    pub const SEVEN: u32 = 7;
    pub static NINE: u32 = 9;
    use std::cmp::Ordering;
    pub fn one(x: u32) -> u32 { x.wrapping_add(1) }
    pub fn two(x: u32, y: Num) -> Num { x ^ y ^ SEVEN ^ NINE }
    pub fn ord(x: u32) -> Ordering { x.cmp(&3) }
    pub(crate) fn refs(x: &u32) -> u32 { *x }
    extern "C" { pub fn c15_ext(x: u32) -> u32; }
}

const TOP: usize = usize::MAX - 2;
fn under() -> (usize, usize, usize) {
    let (lo, hi, c): (usize, usize, usize) = kani::any();
    kani::assume(lo <= hi && hi < TOP && c < lo);
    (lo, hi, c)
}
fn satisfied() -> (usize, usize, usize) {
    let (lo, hi, c): (usize, usize, usize) = kani::any();
    kani::assume(lo <= hi && hi < TOP && c >= lo && c <= hi);
    (lo, hi, c)
}

// The contracts, stated once and put on both declarations.
macro_rules! c_answers { ($m:ident) => {{
    use $m::*;
    let [a, b, d, x, y]: [u32; 5] = kani::any();
    let mut m = MockTr::new();
    m.expect_foo().withf(move |p| *p == x).returning(move |p| a ^ p);
    m.expect_bar().with(eq(x), eq(y)).returning(move |p, q| b ^ p.wrapping_sub(q));
    m.expect_dflt().return_const(d);
    obl!(m.foo(x) == a ^ x, "trait: by reference");
    obl!(m.bar(x, y) == b ^ x.wrapping_sub(y), "trait: by mutable reference, arguments in order");
    obl!(m.dflt(y) == d, "trait: a provided method is mocked like any other");
    done(m);
}} }
macro_rules! c_val { ($m:ident) => {{
    use $m::*;
    let (d, x): (u32, u32) = kani::any();
    let mut m = MockTr::new();
    m.expect_val().returning(move |p| d ^ p);
    obl!(m.val(x) == d ^ x, "trait: by value");
}} }
macro_rules! c_refs { ($m:ident) => {{
    use $m::*;
    let (a, b, w): (u32, u32, u32) = kani::any();
    let mut m = MockTr::new();
    m.expect_refr().return_const(a);
    m.expect_refm().return_var(b);
    obl!(*m.refr() == a, "trait: reference");
    obl!(*m.refm() == b, "trait: mutable reference");
    *m.refm() = w;
    obl!(*m.refm() == w, "trait: mutable reference persists");
    let k: usize = kani::any();
    m.expect_sl().withf(|x, s| x.len() == 2 && s.len() == 1).return_const(k);
    obl!(m.sl(&[1, 2], "z") == k, "trait: slices");
    done(m);
}} }
macro_rules! c_static { ($m:ident) => {{
    use $m::*;
    let (a, x): (u32, u32) = kani::any();
    let ctx = MockTr::stat_context();
    ctx.expect().returning(move |p| a ^ p);
    obl!(MockTr::stat(x) == a ^ x, "trait: static method");
    ctx.checkpoint();
    ctx.expect().return_const(x);
    obl!(MockTr::stat(a) == x, "trait: static method again");
    drop(ctx);
}} }
macro_rules! c_ctor { ($m:ident) => {{
    use $m::*;
    let (a, x, z): (u32, u32, u32) = kani::any();
    let ctx = MockTr::mk_context();
    ctx.expect().returning(move |p| { let mut m = MockTr::default(); m.expect_foo().returning(move |q| a ^ p ^ q); m });
    let m = <MockTr as Tr>::mk(x);
    obl!(m.foo(z) == a ^ x ^ z, "trait: constructor");
    done(m);
    drop(ctx);
}} }
macro_rules! c_ckpt { ($m:ident) => {{
    use $m::*;
    let (lo, hi, c) = satisfied();
    let b: u32 = kani::any();
    let mut m = MockTr::new();
    preset_calls(c);
    m.expect_dflt().times(lo..=hi).return_const(1u32);
    history!(c, m.dflt(0));
    m.checkpoint();
    preset_calls(0);
    m.expect_dflt().times(1).return_const(b);
    obl!(m.dflt(kani::any()) == b, "trait: checkpoint verifies and clears");
    drop(m);
}} }
macro_rules! c_pan_full { ($m:ident, $t:literal) => {{
    use $m::*;
    let c: usize = kani::any();
    kani::assume(c < TOP && c >= 1);
    let mut m = MockTr::new();
    preset_calls(c);
    m.expect_bar().times(1..=c).return_const(1u32);
    history!(c, m.bar(0, 0));
    must_panic!($t, { m.bar(kani::any(), kani::any()); });
}} }
macro_rules! c_pan_drop { ($m:ident, $t:literal) => {{
    use $m::*;
    let (lo, hi, c) = under();
    let mut m = MockTr::new();
    preset_calls(c);
    m.expect_dflt().times(lo..=hi).return_const(1u32);
    history!(c, m.dflt(0));
    must_panic!($t, drop(m));
}} }
macro_rules! c_pan_ckpt { ($m:ident, $t:literal) => {{
    use $m::*;
    let (lo, hi, c) = under();
    let mut m = MockTr::new();
    preset_calls(c);
    m.expect_refr().times(lo..=hi).return_const(1u32);
    history!(c, { m.refr(); });
    must_panic!($t, m.checkpoint());
}} }
macro_rules! c_pan_none { ($m:ident, $t:literal) => {{
    use $m::*;
    let m = MockTr::new();
    must_panic!($t, { m.dflt(kani::any()); });
}} }
macro_rules! c_pan_stat { ($m:ident, $t:literal) => {{
    use $m::*;
    let (lo, hi, c) = under();
    let ctx = MockTr::stat_context();
    preset_calls(c);
    ctx.expect().times(lo..=hi).return_const(1u32);
    history!(c, { MockTr::stat(0); });
    must_panic!($t, drop(ctx));
}} }

harnesses! {
    ok_look (4) {
        let (a, b): (u64, u32) = kani::any();
        let v: i8 = kani::any();
        let mut m = MockLook::new();
        m.expect_same().returning(|a, b| other::Key(b.0 ^ a as u32));
        m.expect_swap().returning(|a: (i8, u64, Option<Vec<u64>>)| (a.1, a.0));
        m.expect_ptr().returning(move |_, f| [[f((a, v)).unwrap_or(0), a]]);
        obl!(m.same(a, other::Key(b)) == other::Key(b ^ a as u32), "a type of the same name from another module stays itself");
        obl!(m.swap((v, a, None)) == (a, v), "associated types in a tuple argument and result");
        let r: [[u64; 2]; 1] = m.ptr(&v, |t: (u64, i8)| Some(t.0 ^ 1));
        obl!(r[0][0] == a ^ 1 && r[0][1] == a, "associated types in function pointers and arrays of arrays");
        done(m);
    }
    nat_look_dyn (4) {
        let (a, b): (u64, u32) = kani::any();
        let v: i8 = kani::any();
        let mut m = MockLook::new();
        m.expect_imp().returning(|k| Box::new(std::iter::once(k)));
        m.expect_mt().withf(move |k| *k == a).return_var(Some(v));
        m.expect_gen::<u16>().returning(|t, k| if k == 0 { Err(1i8) } else { Ok(t) });
        let i: u64 = m.imp(a).next().unwrap();
        obl!(i == a, "associated types in an opaque result");
        let mut k: u64 = a;
        { let r: &mut Option<i8> = m.mt(&mut k); obl!(*r == Some(v), "associated types behind mutable references"); }
        let r: Result<u16, i8> = m.gen(7u16, a);
        obl!(r == (if a == 0 { Err(1) } else { Ok(7) }), "associated types in a generic method");
        done(m);
    }
    // ---- automocked trait -------------------------------------------------------------------------
    ok_auto_answers (4) { c_answers!(auto) }
    ok_auto_val (4) { c_val!(auto) }
    ok_auto_refs (4) { c_refs!(auto) }
    ok_auto_static (4) { c_static!(auto) }
    ok_auto_ctor (4) { c_ctor!(auto) }
    ok_auto_ckpt (3) { c_ckpt!(auto) }
    pan_auto_full (3) { c_pan_full!(auto, "automock: the maximum is enforced") }
    pan_auto_drop (3) { c_pan_drop!(auto, "automock: drop verifies, also a provided method") }
    t_pan_auto_ckpt (3) { c_pan_ckpt!(auto, "automock: checkpoint verifies") }
    pan_auto_none (3) { c_pan_none!(auto, "automock: an unconfigured provided method panics, its body is not run") }
    t_pan_auto_stat (3) { c_pan_stat!(auto, "automock: the context verifies") }
    // ---- the equivalent hand-written declaration ------------------------------------------------------
    t_ok_hand_answers (4) { c_answers!(hand) }
    t_ok_hand_val (4) { c_val!(hand) }
    t_ok_hand_refs (4) { c_refs!(hand) }
    t_ok_hand_static (4) { c_static!(hand) }
    t_ok_hand_ctor (4) { c_ctor!(hand) }
    t_ok_hand_ckpt (3) { c_ckpt!(hand) }
    t_pan_hand_full (3) { c_pan_full!(hand, "mock!: the maximum is enforced") }
    t_pan_hand_drop (3) { c_pan_drop!(hand, "mock!: drop verifies") }
    t_pan_hand_ckpt (3) { c_pan_ckpt!(hand, "mock!: checkpoint verifies") }
    t_pan_hand_none (3) { c_pan_none!(hand, "mock!: an unconfigured method panics") }
    t_pan_hand_stat (3) { c_pan_stat!(hand, "mock!: the context verifies") }
    // ---- the original trait --------------------------------------------------------------------------
    ok_trait_unchanged (3) {
        use auto::Tr;
        let (v, x, y): (u32, u32, u32) = kani::any();
        let mut p = Plain::mk(v);
        obl!(p.foo(x) == v ^ x && p.dflt(x) == x.wrapping_mul(7), "an ordinary implementor keeps its methods and the provided ones");
        obl!(p.bar(x, y) == y && *p.refr() == x, "an ordinary implementor keeps its state");
        *p.refm() = y;
        obl!(p.val(x) == y ^ x && Plain::stat(x) == !x, "an ordinary implementor keeps its static methods");
    }
    // ---- associated types and constants ------------------------------------------------------------
    ok_assoc_types (4) {
        let (k, v): (u16, i64) = kani::any();
        let mut m = MockAssoc::new();
        m.expect_get().withf(move |p: &u16| *p == k).return_const(v);
        m.expect_key().withf(move |p: &i64| *p == v).return_const(k);
        let a: <MockAssoc as Assoc>::Value = m.get(k);
        let b: <MockAssoc as Assoc>::Key = m.key(v);
        let (c, d): (i64, u16) = (a, b);
        obl!(c == v && d == k, "the associated types are those of the attribute");
        obl!(<MockAssoc as Assoc>::NUM == 77 && MockAssoc::NUM == 77, "an associated constant keeps its value");
        done(m);
    }
    ok_assoc_nested (4) {
        let (k, v): (u16, i64) = kani::any();
        let mut m = MockAssoc::new();
        m.expect_opt().withf(move |p: &Option<u16>| *p == Some(k)).returning(move |p: Option<u16>| if v > 0 { Ok(v) } else { Err(p.unwrap()) });
        m.expect_arr().withf(move |p: &[u16; 2]| p[0] == k && p[1] != k).returning(move |p: [u16; 2]| (v, p[1]));
        obl!(m.opt(Some(k)) == if v > 0 { Ok(v) } else { Err(k) }, "associated types as generic arguments");
        obl!(m.arr([k, !k]) == (v, !k), "associated types in arrays and tuples");
        done(m);
    }
    ok_assoc_places (4) {
        let (k, v): (u16, i64) = kani::any();
        let mut m = MockAssoc::new();
        m.expect_sl().withf(move |p: &[u16]| p.len() == 1 && p[0] == k).return_const(v);
        m.expect_rf().withf(move |p: &u16| *p == k).return_const(v);
        obl!(m.sl(&[k]) == v, "associated types in slices");
        obl!(*m.rf(&k) == v, "associated types behind references");
        m.expect_cb().returning(|f: fn(u16) -> i64, k: u16| f(k));
        fn tw(k: u16) -> i64 { k as i64 * 2 }
        obl!(m.cb(tw, k) == k as i64 * 2, "associated types in function pointers");
        m.expect_vx().returning(move |b: Box<u16>| Box::new(v ^ *b as i64));
        obl!(*m.vx(Box::new(k)) == v ^ k as i64, "associated types in boxes");
        done(m);
    }
    ok_assoc_static (4) {
        let (k, v): (u16, i64) = kani::any();
        let ctx = MockAssoc::st_context();
        ctx.expect().returning(move |p: u16| v ^ p as i64);
        obl!(MockAssoc::st(k) == v ^ k as i64, "associated types of static methods");
        drop(ctx);
    }
    ok_assoc_iter (4) {
        let (a, b): (u8, u8) = kani::any();
        let mut m = MockIt::new();
        m.expect_next().returning(move || Some(a));
        m.expect_put().returning(move |t: (u8, Option<u8>, *const u8)| t.0 == a && t.1 == Some(b));
        obl!(m.next() == Some(a), "an iterator-like trait");
        obl!(m.put((a, Some(b), core::ptr::null())), "associated types in tuples and pointers");
        done(m);
    }
    // ---- generic traits ----------------------------------------------------------------------------------
    ok_generic_trait (4) {
        let (a, x, k): (u16, u16, u32) = kani::any();
        let mut m = MockGenTr::<u16>::new();
        m.expect_foo().withf(move |p| *p == x).returning(move |p| a ^ p);
        m.expect_bar().return_const(k);
        obl!(GenTr::foo(&m, x) == a ^ x && GenTr::bar(&mut m, x) == k, "generic trait: automock");
        done(m);
    }
    t_ok_hand_generic_trait (4) {
        let (a, x, k): (u16, u16, u32) = kani::any();
        let mut h = MockHandG::<u16>::new();
        h.expect_foo().withf(move |p| *p == x).returning(move |p| a ^ p);
        h.expect_bar().return_const(k);
        obl!(HandGen::foo(&h, x) == a ^ x && HandGen::bar(&mut h, x) == k, "generic trait: hand-written");
        done(h);
    }
    t_pan_generic_trait (3) {
        let (lo, hi, c) = under();
        let mut m = MockGenTr::<u8>::new();
        preset_calls(c);
        m.expect_bar().times(lo..=hi).return_const(1u32);
        history!(c, { m.bar(0); });
        must_panic!("generic trait: drop verifies", drop(m));
    }
    // ---- struct impls ---------------------------------------------------------------------------------------
    ok_struct (4) {
        let (v, x, y): (u32, u32, u32) = kani::any();
        let mut m = st::MockThing::default();
        m.expect_get().returning(move |p| v.wrapping_add(p));
        m.expect_set().with(eq(x), eq(y)).return_const(v);
        obl!(m.get(x) == v.wrapping_add(x), "struct: by reference");
        obl!(m.set(x, y) == v, "struct: by mutable reference");
        obl!(st::hidden(&mut m, v) == v, "struct: private methods are mocked");
        obl!(st::MockThing::C == 5 && hst::MockThing::C == 5, "struct: constants keep their value");
        m.checkpoint();
        m.expect_arg().returning(|x| x);
        obl!(m.arg(y) == y, "struct: a mutable argument is the caller's value");
        done(m);
    }
    ok_struct_ctor (4) {
        let (a, v, x): (u32, u32, u32) = kani::any();
        let ctx = st::MockThing::new_context();
        ctx.expect().returning(move |p| { let mut m = st::MockThing::default(); m.expect_get().returning(move |q| a ^ p ^ q); m });
        let m = st::MockThing::new(v);
        obl!(m.get(x) == a ^ v ^ x, "struct: a constructor called new is mocked");
        done(m);
        drop(ctx);
        let ctx = st::MockThing::stat_context();
        ctx.expect().returning(move |p| a ^ p);
        obl!(st::MockThing::stat(x) == a ^ x, "struct: static method");
        drop(ctx);
    }
    pan_struct_none (3) {
        let mut m = st::MockThing::default();
        m.expect_get().return_const(1u32);
        must_panic!("struct: the original body is not run", { m.priv_(); });
    }
    pan_struct_new_none (3) {
        must_panic!("struct: the original constructor is not run", { let m = st::MockThing::new(kani::any()); leak(m); });
    }
    pan_struct_drop (3) {
        let (lo, hi, c) = under();
        let mut m = nonew::MockNn::new();
        preset_calls(c);
        m.expect_get().times(lo..=hi).return_const(1u32);
        history!(c, m.get(0));
        must_panic!("struct: drop verifies", drop(m));
    }
    ok_struct_attrs (4) {
        let (a, x): (u32, u32) = kani::any();
        let mut m = nonew::MockNn::new();
        m.expect_always().return_const(a);
        m.expect_imp().returning(move |p| Box::new(p ^ a));
        obl!(m.always() == a, "struct: a method under a condition that holds");
        obl!(m.imp(x).n() == x ^ a, "struct: impl Trait in return position");
        obl!(nonew::Nn.imp(x).n() == x && nonew::Nn.always() == 2, "the original keeps impl Trait");
        done(m);
    }
    ok_struct_unchanged (3) {
        let (v, x, y): (u32, u32, u32) = kani::any();
        let mut t = st::Thing::new(v);
        obl!(t.get(x) == v ^ x, "the original struct keeps its methods");
        obl!(t.priv_() == v.wrapping_add(1) && st::Thing::stat(x) == !x && st::Thing::C == 5, "the original struct keeps its other items");
        obl!(t.set(x, y) == y && t.v == x && t.arg(y) == y.wrapping_add(1), "the original struct keeps its state");
        obl!(nonew::Nn.get(x) == x, "the original struct keeps its methods (no constructor)");
    }
    ok_generic_struct (4) {
        let (a, x, k): (u16, u16, u32) = kani::any();
        let mut m = gst::MockGs::<u16>::new();
        m.expect_get().withf(move |p| *p == x).returning(move |p| a ^ p);
        m.expect_put().return_const(k);
        obl!(m.get(x) == a ^ x && m.put(x) == k, "generic struct");
        let mut g = gst::Gs(a);
        obl!(g.get(x) == a && g.put(x) == 3 && g.0 == x, "the original generic struct");
        done(m);
    }
    // ---- trait impls --------------------------------------------------------------------------------------------
    ok_trait_impl (4) {
        let (v, a): (u64, u64) = kani::any();
        let x: u32 = kani::any();
        let mut m = MockReal::new();
        m.expect_get().returning(move |p: u64| v ^ p);
        let r: <MockReal as Want>::A = m.get(a);
        let r: u64 = r;
        obl!(r == v ^ a, "trait impl: methods and associated types");
        obl!(<MockReal as Want>::K == 9, "trait impl: constants");
        obl!(m.prov() == 11, "trait impl: a method that is not mocked keeps its behaviour");
        let ctx = MockReal::st_context();
        ctx.expect().returning(|p| p ^ 3);
        obl!(MockReal::st(x) == x ^ 3, "trait impl: static method");
        drop(ctx);
        done(m);
    }
    ok_trait_impl_unchanged (3) {
        let (x, v): (u32, u32) = kani::any();
        let a: u64 = kani::any();
        let r = Real(v);
        obl!(r.get(a) == a ^ v as u64 && r.prov() == 11 && Real::st(x) == !x && <Real as Want>::K == 9, "the original impl is unchanged");
    }
    // ---- modules ---------------------------------------------------------------------------------------------------
    ok_module (4) {
        let (a, x, y): (u32, u32, u32) = kani::any();
        let ctx = mock_fm::one_context();
        ctx.expect().with(eq(x)).returning(move |p| a ^ p);
        let ct2 = mock_fm::two_context();
        ct2.expect().returning(move |p, q| p.wrapping_sub(q) ^ a);
        obl!(mock_fm::one(x) == a ^ x, "module: function");
        obl!(mock_fm::two(x, y) == x.wrapping_sub(y) ^ a, "module: function of two arguments");
        mock_fm::checkpoint();
        ctx.expect().return_const(y);
        obl!(mock_fm::one(a) == y, "module: checkpoint clears");
        drop(ctx);
        drop(ct2);
    }
    ok_module_rest (4) {
        let (a, x): (u32, u32) = kani::any();
        let n: mock_fm::Num = x;
        obl!(mock_fm::SEVEN == 7 && mock_fm::NINE == 9 && n == x, "module: constants, statics and types are kept");
        let ctx = mock_fm::ord_context();
        ctx.expect().returning(move |p| p.cmp(&a));
        obl!(mock_fm::ord(x) == x.cmp(&a), "module: imported types");
        drop(ctx);
        let ctx = mock_fm::refs_context();
        ctx.expect().returning(move |p| *p ^ a);
        obl!(mock_fm::refs(&x) == x ^ a, "module: references");
        drop(ctx);
    }
    ok_module_unchanged (3) {
        let (x, y): (u32, u32) = kani::any();
        obl!(fm::one(x) == x.wrapping_add(1) && fm::two(x, y) == x ^ y ^ 7 ^ 9 && fm::refs(&x) == x && fm::ord(x) == x.cmp(&3), "the original module is unchanged");
    }
    pan_module_under (3) {
        let (lo, hi, c) = under();
        let ctx = mock_fm::one_context();
        preset_calls(c);
        ctx.expect().times(lo..=hi).return_const(1u32);
        history!(c, { mock_fm::one(0); });
        must_panic!("module: checkpoint verifies", mock_fm::checkpoint());
    }
    pan_module_none (3) {
        must_panic!("module: an unconfigured function panics, its body is not run", { mock_fm::two(kani::any(), kani::any()); });
    }
    ok_foreign (4) {
        let (a, x): (u32, u32) = kani::any();
        let ctx = mock_fm::c15_ext_context();
        ctx.expect().with(eq(x)).returning(move |p| a ^ p);
        obl!(unsafe { mock_fm::c15_ext(x) } == a ^ x, "foreign function");
        drop(ctx);
    }
    t_pan_foreign_under (3) {
        let (lo, hi, c) = under();
        let ctx = mock_fm::c15_ext_context();
        preset_calls(c);
        ctx.expect().times(lo..=hi).return_const(1u32);
        history!(c, { unsafe { mock_fm::c15_ext(0) }; });
        must_panic!("foreign function: the context verifies", drop(ctx));
    }
    pan_foreign_module_ckpt (3) {
        let (lo, hi, c) = under();
        let ctx = mock_fm::c15_ext_context();
        preset_calls(c);
        ctx.expect().times(lo..=hi).return_const(1u32);
        history!(c, { unsafe { mock_fm::c15_ext(0) }; });
        must_panic!("module: checkpoint verifies foreign functions as well", mock_fm::checkpoint());
    }
    ok_foreign_module_ckpt (3) {
        let (a, x): (u32, u32) = kani::any();
        let ctx = mock_fm::c15_ext_context();
        ctx.expect().returning(move |p| a ^ p ^ 1);
        mock_fm::checkpoint();
        ctx.expect().times(1).returning(move |p| a ^ p);
        obl!(unsafe { mock_fm::c15_ext(x) } == a ^ x, "module: checkpoint clears foreign functions as well");
        drop(ctx);
    }
    nat_debug (3) {
        #[cfg(not(kani))] {
        obl!(format!("{:?}", auto::MockTr::new()) == "MockTr", "an automocked trait's mock is Debug");
        obl!(format!("{:?}", st::MockThing::default()) == "MockThing", "an automocked struct's mock is Debug");
        }
    }
}
#[cfg(not(kani))]
pub fn run() { vh::kani::main(registry()) }
