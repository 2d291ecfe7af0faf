//! C10: the key of a generic instantiation, with std's own TypeId.
//! Contract of `mockall::Key::new` (and its derived equality): equal exactly for equal types.
#![allow(unused)]
#[path = "../../common/vh.rs"]
#[macro_use]
mod vh;
use mockall::*;
use vh::*;

mod a { pub struct X(pub u8); }
mod b { pub struct X(pub u8); }
pub struct W<T>(T);
pub trait Tr {}

macro_rules! same { ($t:ty) => { obl!(Key::new::<$t>() == Key::new::<$t>(), "equal types have equal keys") } }
macro_rules! differ { ($t:ty, $u:ty) => {
    obl!(Key::new::<$t>() != Key::new::<$u>(), "different types have different keys")
} }

fn key<T: 'static>(_: &T) -> Key { Key::new::<T>() }

harnesses! {
    ok_same (2) {
        same!(u8); same!(String); same!((u8, u16)); same!(W<u8>); same!(a::X); same!(str); same!([u8]); same!(dyn Tr);
        same!(fn(u8) -> u8); same!([u8; 3]); same!(&'static u8); same!(());
    }
    ok_differ_scalar (2) {
        differ!(u8, i8); differ!(u8, u16); differ!(u32, i32); differ!(u32, f32); differ!(u32, char); differ!(u64, usize); differ!(bool, u8); differ!((), u8);
    }
    ok_differ_pair (2) {
        differ!((u8, u16), (u16, u8)); differ!((u8, u8), (u8,)); differ!((u8,), u8); differ!((u8, u16), (u8, u8)); differ!((u8, u8, u16), (u8, u16, u8));
    }
    ok_differ_name (2) {
        differ!(a::X, b::X); differ!(W<u8>, W<u16>); differ!(W<a::X>, W<b::X>); differ!(Option<u8>, W<u8>); differ!(Vec<u8>, Vec<u16>);
    }
    ok_differ_shape (2) {
        differ!(&'static u8, u8); differ!(&'static u8, &'static mut u8); differ!(*const u8, *mut u8); differ!([u8; 2], [u8; 3]); differ!([u8], [u8; 1]);
        differ!(str, String); differ!(str, [u8]); differ!(Box<u8>, u8); differ!(dyn Tr, Box<dyn Tr>); differ!(fn(u8), fn(u16));
    }
    ok_differ_anonymous (2) {
        // types that have no name of their own, or the same one
        let (v, w): (u8, u8) = kani::any();
        let (f, g) = (move |x: u8| x ^ v, move |x: u8| x ^ w);
        obl!(key(&f) == key(&f), "a closure's type is equal to itself");
        obl!(key(&f) != key(&g), "two closures have different keys");
        let k = { struct L(u8); key(&L(v)) };
        let l = { struct L(u8); key(&L(w)) };
        obl!(k != l, "local types of one name have different keys");
        fn p(x: u8) -> u8 { x } fn q(x: u8) -> u8 { x }
        obl!(key(&p) != key(&q) && key(&(p as fn(u8) -> u8)) == key(&(q as fn(u8) -> u8)), "function items have their own keys");
        let (i, j) = (Box::new(v) as Box<dyn std::any::Any>, Box::new(w) as Box<dyn std::any::Any>);
        obl!(key(&i) == key(&j), "boxed trait objects are one type");
    }
    ok_key_copy (2) {
        let k = Key::new::<u8>();
        let l = k;
        obl!(l == k && k.clone() == l && l != Key::new::<i8>(), "a copied key is the same key");
    }
}
#[cfg(not(kani))]
pub fn run() { vh::kani::main(registry()) }
