//! C06: methods returning references hand out the configured, persistent object.
//! Contracts of the generated `Rfunc::{call, call_mut}` and `Expectation::{call, call_mut,
//! return_const, return_var, returning, returning_st}` of methods returning references, and of
//! `ownify / destrify / dedynify` as seen through them.
#![allow(unused)]
#[path = "../../common/vh.rs"]
#[macro_use]
mod vh;
use mockall::*;
use vh::*;
use std::ffi::{CStr, CString, OsStr, OsString};
use std::path::{Path, PathBuf};

pub trait Val: Send + Sync { fn get(&self) -> u32; fn set(&mut self, v: u32); }
pub struct V(u32);
impl Val for V { fn get(&self) -> u32 { self.0 } fn set(&mut self, v: u32) { self.0 = v } }
pub struct W(u32);
impl Val for W { fn get(&self) -> u32 { !self.0 } fn set(&mut self, v: u32) { self.0 = v } }

mock! { pub R { fn foo(&self, x: u32) -> &u64; fn bar(&self) -> &u64; } }
mock! { pub RM { fn foo(&mut self, x: u32) -> &mut u64; fn bar(&mut self) -> &mut u64; } }
mock! { pub Str { fn foo(&self) -> &str; } }
mock! { pub Slice { fn foo(&self) -> &[u8]; } }
mock! { pub Pth { fn foo(&self) -> &Path; } }
mock! { pub Cs { fn foo(&self) -> &CStr; } }
mock! { pub Os { fn foo(&self) -> &OsStr; } }
mock! { pub Dyn { fn foo(&self) -> &dyn Val; } }
mock! { pub DynMut { fn foo(&mut self) -> &mut dyn Val; } }
mock! { pub SliceMut { fn foo(&mut self) -> &mut [u8]; } }
mock! { pub StrMut { fn foo(&mut self) -> &mut str; } }
mock! { pub Stc { fn foo(&self) -> &'static u64; fn st(&self) -> &'static str; fn dy(&self) -> &'static dyn Val; fn free() -> &'static u64; } }
mock! { pub Tup { fn foo(&self) -> &(u32, u64); } }
mock! { pub Opt { fn foo(&self) -> &Option<u64>; } }
mock! { pub Tr { } impl Src for Tr { fn src(&self) -> &u64; fn dst(&mut self) -> &mut u64; } }
pub trait Src { fn src(&self) -> &u64; fn dst(&mut self) -> &mut u64; }
mock! { pub Gs<T: Send + Sync + 'static> { fn foo(&self) -> &T; fn bar(&mut self) -> &mut T; } }
mock! { pub Rng { fn foo(&mut self, x: u32, y: u32) -> &mut u64; } }

static S64: [u64; 2] = [11, 12];
static V1: V = V(21);

harnesses! {
    // ---- shared references ----------------------------------------------------------------
    ok_const (4) {
        let k: u64 = kani::any();
        let mut m = MockR::new();
        m.expect_foo().return_const(k);
        let a: *const u64;
        { let r = m.foo(kani::any()); a = r; obl!(*r == k, "return_const: the configured value"); }
        { let r = m.foo(kani::any()); obl!(*r == k, "return_const: the configured value on a later call"); obl!(core::ptr::eq(r, a), "the same object on every call"); }
        done(m);
    }
    ok_const_two_live (4) {
        let (k, l): (u64, u64) = kani::any();
        let mut m = MockR::new();
        m.expect_foo().return_const(k);
        m.expect_bar().return_const(l);
        { let (r, s, t) = (m.foo(0), m.bar(), m.foo(1));
          obl!(*r == k && *s == l && *t == k, "references live at the same time each see their own value"); }
        done(m);
    }
    ok_const_last (4) {
        let (k, l): (u64, u64) = kani::any();
        let mut m = MockR::new();
        m.expect_foo().return_const(k).times(1..).return_const(l);
        obl!(*m.foo(0) == l, "the last configured constant is handed out");
        done(m);
    }
    ok_const_list (4) {
        let (k, l): (u64, u64) = kani::any();
        let (p, x): (u32, u32) = kani::any();
        let mut m = MockR::new();
        m.expect_foo().with(predicate::eq(p)).return_const(k);
        m.expect_foo().return_const(l);
        obl!(*m.foo(x) == (if x == p { k } else { l }), "each expectation hands out its own value");
        done(m);
    }
    pan_const_none (4) {
        let mut m = MockR::new();
        let _ = m.expect_foo();
        must_panic!("no value configured: the call panics", { let _ = m.foo(kani::any()); });
    }
    ok_const_two_objects (4) {
        let (k, l): (u64, u64) = kani::any();
        let mut m = MockR::new();
        let mut n = MockR::new();
        m.expect_foo().return_const(k);
        n.expect_foo().return_const(l);
        obl!(*m.foo(0) == k && *n.foo(0) == l, "each object hands out its own value");
        done(m); done(n);
    }
    // ---- unsized and string-like ------------------------------------------------------------
    ok_str (6) {
        let b: [u8; 2] = kani::any();
        kani::assume(b[0] < 128 && b[1] < 128);
        let s = String::from_utf8(vec![b[0], b[1]]).unwrap();
        let mut m = MockStr::new();
        m.expect_foo().return_const(s);
        { let r = m.foo(); obl!(r.len() == 2 && r.as_bytes()[0] == b[0] && r.as_bytes()[1] == b[1], "&str: the configured string"); }
        obl!(m.foo().as_bytes()[1] == b[1], "&str: again");
        done(m);
    }
    ok_slice (6) {
        let b: [u8; 3] = kani::any();
        let mut m = MockSlice::new();
        m.expect_foo().return_const(vec![b[0], b[1], b[2]]);
        { let r = m.foo(); obl!(r.len() == 3 && r[0] == b[0] && r[1] == b[1] && r[2] == b[2], "&[T]: the configured elements"); }
        done(m);
    }
    ok_path (6) {
        let mut m = MockPth::new();
        m.expect_foo().return_const(PathBuf::from("/q"));
        { let r = m.foo().as_os_str().as_encoded_bytes(); obl!(r.len() == 2 && r[0] == b'/' && r[1] == b'q', "&Path: the configured path"); }
        done(m);
    }
    ok_osstr (6) {
        let mut m = MockOs::new();
        m.expect_foo().return_const(OsString::from("xy"));
        { let r = m.foo().as_encoded_bytes(); obl!(r.len() == 2 && r[0] == b'x' && r[1] == b'y', "&OsStr: the configured string"); }
        done(m);
    }
    ok_dyn (4) {
        let k: u32 = kani::any();
        let w: bool = kani::any();
        let mut m = MockDyn::new();
        let b: Box<dyn Val> = if w { Box::new(W(k)) } else { Box::new(V(k)) };
        m.expect_foo().return_const(b);
        obl!(m.foo().get() == (if w { !k } else { k }), "&dyn Trait: the configured object, whatever its type");
        obl!(m.foo().get() == (if w { !k } else { k }), "&dyn Trait: again");
        done(m);
    }
    ok_tuple (4) {
        let k: (u32, u64) = kani::any();
        let mut m = MockTup::new();
        m.expect_foo().return_const(k);
        obl!(*m.foo() == k, "&(A, B): the configured tuple");
        done(m);
    }
    ok_option (4) {
        let k: (bool, u64) = kani::any();
        let o = if k.0 { Some(k.1) } else { None };
        let mut m = MockOpt::new();
        m.expect_foo().return_const(o);
        obl!(*m.foo() == o, "&Option<T>: the configured value");
        done(m);
    }
    // ---- 'static references ---------------------------------------------------------------------
    ok_static (4) {
        let i: bool = kani::any();
        let k: &'static u64 = if i { &S64[1] } else { &S64[0] };
        let mut m = MockStc::new();
        m.expect_foo().return_const(k);
        obl!(core::ptr::eq(m.foo(), k), "&'static T: the very object configured");
        obl!(core::ptr::eq(m.foo(), k), "&'static T: again");
        done(m);
    }
    ok_static_returning (4) {
        let i: bool = kani::any();
        let mut m = MockStc::new();
        m.expect_foo().returning(move || if i { &S64[1] } else { &S64[0] });
        obl!(core::ptr::eq(m.foo(), if i { &S64[1] } else { &S64[0] }), "&'static T from a closure");
        done(m);
    }
    ok_static_str_dyn (4) {
        static K: &str = "abc";
        let mut m = MockStc::new();
        m.expect_st().return_const(K);
        m.expect_dy().returning(|| &V1);
        { let r = m.st(); obl!(r.len() == 3 && core::ptr::eq(r.as_ptr(), K.as_ptr()), "&'static str: the very string configured"); }
        obl!(m.dy().get() == 21, "&'static dyn Trait: the object configured");
        done(m);
    }
    ok_static_fn (4) {
        let ctx = MockStc::free_context();
        ctx.expect().return_const(&S64[1]);
        obl!(core::ptr::eq(MockStc::free(), &S64[1]), "a static method's &'static T");
        done(ctx);
    }
    // ---- mutable references --------------------------------------------------------------------
    ok_var (4) {
        let (k, w, w2): (u64, u64, u64) = kani::any();
        let mut m = MockRM::new();
        m.expect_foo().return_var(k);
        let a: *const u64;
        { let r = m.foo(kani::any()); a = r; obl!(*r == k, "return_var: the configured value first"); *r = w; }
        { let r = m.foo(kani::any()); obl!(*r == w, "return_var: a write is seen by the next call"); obl!(core::ptr::eq(r, a), "return_var: one persistent variable"); *r = w2; }
        obl!(*m.foo(kani::any()) == w2, "return_var: the second write is seen by the third call");
        done(m);
    }
    ok_var_unwritten (4) {
        let k: u64 = kani::any();
        let mut m = MockRM::new();
        m.expect_foo().return_var(k);
        obl!(*m.foo(0) == k, "return_var: value on the first call");
        obl!(*m.foo(0) == k, "return_var: unchanged if not written");
        done(m);
    }
    ok_var_history (4) {
        let (k, w): (u64, u64) = kani::any();
        let n: usize = kani::any();
        kani::assume(n < usize::MAX - 3);
        let mut m = MockRM::new();
        preset_calls(n);
        m.expect_foo().times(n + 2).return_var(k);
        history!(n, m.foo(0));
        *m.foo(0) = w;
        obl!(*m.foo(0) == w, "return_var: after any number of calls a write is seen by the next one");
        done(m);
    }
    ok_var_separate (4) {
        let (k, l, w): (u64, u64, u64) = kani::any();
        let mut m = MockRM::new();
        m.expect_foo().with(predicate::eq(1)).return_var(k);
        m.expect_foo().with(predicate::eq(2)).return_var(l);
        *m.foo(1) = w;
        obl!(*m.foo(2) == l, "two expectations have two variables");
        obl!(*m.foo(1) == w, "and a write goes to the one that answered");
        done(m);
    }
    ok_var_methods (4) {
        let (k, l, w): (u64, u64, u64) = kani::any();
        let mut m = MockRM::new();
        m.expect_foo().return_var(k);
        m.expect_bar().return_var(l);
        *m.bar() = w;
        obl!(*m.foo(2) == k, "two methods have two variables");
        obl!(*m.bar() == w, "and a write goes to the method called");
        done(m);
    }
    ok_var_objects (4) {
        let (k, l, w): (u64, u64, u64) = kani::any();
        let mut m = MockRM::new();
        let mut n = MockRM::new();
        m.expect_foo().return_var(k);
        n.expect_foo().return_var(l);
        *m.foo(1) = w;
        obl!(*n.foo(1) == l, "two objects have two variables");
        obl!(*m.foo(1) == w, "and a write goes to the object called");
        done(m); done(n);
    }
    ok_var_last (4) {
        let (k, l): (u64, u64) = kani::any();
        let mut m = MockRM::new();
        m.expect_foo().returning(move |_| k).return_var(l);
        obl!(*m.foo(0) == l, "return_var replaces returning");
        done(m);
    }
    ok_mut_returning (4) {
        let (k, w): (u64, u64) = kani::any();
        let v: [u32; 4] = kani::any();
        let mut m = MockRng::new();
        m.expect_foo().returning(move |x, y| k ^ ((x as u64) << 32 | y as u64));
        { let r = m.foo(v[0], v[1]); obl!(*r == k ^ ((v[0] as u64) << 32 | v[1] as u64), "returning: the closure's result on the arguments"); *r = w; }
        obl!(*m.foo(v[2], v[3]) == k ^ ((v[2] as u64) << 32 | v[3] as u64), "returning: the latest result, not what was written to an earlier one");
        done(m);
    }
    ok_mut_returning_state (4) {
        let k: u64 = kani::any();
        let mut n = k;
        let mut m = MockRM::new();
        m.expect_foo().returning(move |_| { n = n.wrapping_add(1); n });
        obl!(*m.foo(0) == k.wrapping_add(1), "returning: runs once per call (first)");
        obl!(*m.foo(0) == k.wrapping_add(2), "returning: runs once per call (second)");
        obl!(*m.foo(0) == k.wrapping_add(3), "returning: runs once per call (third)");
        done(m);
    }
    ok_mut_returning_st (4) {
        let (k, w): (u64, u64) = kani::any();
        let mut n = k;
        let mut m = MockRM::new();
        m.expect_foo().returning_st(move |x| { n = n.wrapping_add(1); n ^ x as u64 });
        { let r = m.foo(0); obl!(*r == k.wrapping_add(1), "returning_st: the closure's result"); *r = w; }
        obl!(*m.foo(3) == k.wrapping_add(2) ^ 3, "returning_st: the latest result");
        done(m);
    }
    ok_mut_returning_last (4) {
        let (k, l): (u64, u64) = kani::any();
        let mut m = MockRM::new();
        m.expect_foo().return_var(k).returning(move |_| l);
        obl!(*m.foo(0) == l, "returning replaces return_var");
        done(m);
    }
    ok_mut_returning_st_last (4) {
        let (k, l): (u64, u64) = kani::any();
        let mut m = MockRM::new();
        m.expect_foo().returning(move |_| k).returning_st(move |_| l);
        obl!(*m.foo(0) == l, "returning_st replaces returning");
        done(m);
    }
    ok_var_reconfigured_fresh (4) {
        let (k, l, w): (u64, u64, u64) = kani::any();
        let mut m = MockRM::new();
        m.expect_foo().times(1).return_var(k);
        m.expect_foo().return_var(l);
        *m.foo(0) = w;
        obl!(*m.foo(0) == l, "the next expectation starts with its own value");
        done(m);
    }
    pan_mut_none (4) {
        let mut m = MockRM::new();
        let _ = m.expect_foo();
        must_panic!("no action: the &mut call panics", { let _ = m.foo(kani::any()); });
    }
    ok_dyn_mut (4) {
        let (k, w): (u32, u32) = kani::any();
        let mut m = MockDynMut::new();
        m.expect_foo().return_var(Box::new(V(k)));
        obl!(m.foo().get() == k, "&mut dyn Trait: the configured object");
        m.foo().set(w);
        obl!(m.foo().get() == w, "&mut dyn Trait: a change through it is seen by the next call");
        done(m);
    }
    ok_slice_mut (6) {
        let b: [u8; 2] = kani::any();
        let w: u8 = kani::any();
        let mut m = MockSliceMut::new();
        m.expect_foo().return_var(vec![b[0], b[1]]);
        { let r = m.foo(); obl!(r.len() == 2 && r[0] == b[0] && r[1] == b[1], "&mut [T]: the configured elements"); r[1] = w; }
        { let r = m.foo(); obl!(r.len() == 2 && r[0] == b[0] && r[1] == w, "&mut [T]: a write is seen by the next call"); }
        done(m);
    }
    ok_str_mut (8) {
        let b: u8 = kani::any();
        kani::assume(b >= b'a' && b <= b'z');
        let mut m = MockStrMut::new();
        m.expect_foo().return_var(String::from_utf8(vec![b]).unwrap());
        { let r = m.foo(); obl!(r.len() == 1 && r.as_bytes()[0] == b, "&mut str: the configured string"); r.make_ascii_uppercase(); }
        obl!(m.foo().as_bytes()[0] == b - 32, "&mut str: a write is seen by the next call");
        done(m);
    }
    // ---- trait methods, generic structs, lifetimes -----------------------------------------------
    ok_trait (4) {
        let (k, l, w): (u64, u64, u64) = kani::any();
        let mut m = MockTr::new();
        m.expect_src().return_const(k);
        m.expect_dst().return_var(l);
        *m.dst() = w;
        obl!(*m.src() == k, "trait method: the shared reference keeps its value");
        obl!(*m.dst() == w, "trait method: the variable persists");
        done(m);
    }
    ok_generic_struct (4) {
        let (k, l, w): (u64, u64, u64) = kani::any();
        let mut m = MockGs::<u64>::new();
        m.expect_foo().return_const(k);
        m.expect_bar().return_var(l);
        *m.bar() = w;
        obl!(*m.foo() == k, "generic struct: the shared reference keeps its value");
        obl!(*m.bar() == w, "generic struct: the variable persists");
        done(m);
    }
}
#[cfg(not(kani))]
pub fn run() { vh::kani::main(registry()) }
