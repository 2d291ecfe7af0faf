// One mock declaration per remaining documented shape (receivers, async, impl Trait, lifetimes,
// const generics, associated types, specific impls, ...).  Per shape the same four contracts:
//   sh_ok!    a matching call within the maximum is answered with the action's result on the
//             caller's arguments, in order; consuming or dropping the mock afterwards is silent
//   sh_none!  a call the condition rejects panics
//   sh_over!  a call beyond the maximum panics
//   sh_under! the end of the mock with too few calls panics
use mockall::*;
pub use std::future::Future;
pub use std::pin::Pin;
pub use std::rc::Rc;
pub use std::sync::Arc;
pub use std::task::{Context as Cx, Poll, RawWaker, RawWakerVTable, Waker};

pub fn sp(x: u32, y: u32, k: u32) -> u32 { x.wrapping_mul(3) ^ y.wrapping_add(k) }
fn nop_clone(_p: *const ()) -> RawWaker { RawWaker::new(std::ptr::null(), &VT) }
fn nop(_p: *const ()) {}
static VT: RawWakerVTable = RawWakerVTable::new(nop_clone, nop, nop, nop);
/// One poll: a mocked asynchronous call is ready at once.
pub fn poll_once<F: Future>(f: F) -> F::Output {
    let mut f = std::mem::ManuallyDrop::new(f);
    let f = unsafe { Pin::new_unchecked(&mut *f) };
    let w = unsafe { Waker::from_raw(nop_clone(std::ptr::null())) };
    match f.poll(&mut Cx::from_waker(&w)) { Poll::Ready(r) => r, Poll::Pending => panic!("pending") }
}

#[derive(Clone)]
pub struct Br<'a>(pub u32, pub std::marker::PhantomData<&'a u32>);
impl PartialEq<u32> for Br<'_> { fn eq(&self, o: &u32) -> bool { self.0 == *o } }
pub fn br(v: u32) -> Br<'static> { Br(v, std::marker::PhantomData) }
pub trait Get { fn v(&self) -> u32; }
impl Get for u32 { fn v(&self) -> u32 { *self } }
impl Get for Box<dyn Get> { fn v(&self) -> u32 { (**self).v() } }

mockall::mock! { pub Rx {
    pub fn rb(self: &Box<Self>, x: u32, y: u32) -> u32;
    pub fn bx(self: Box<Self>, x: u32, y: u32) -> u32;
    pub fn rc(self: Rc<Self>, x: u32, y: u32) -> u32;
    pub fn arc(self: Arc<Self>, x: u32, y: u32) -> u32;
    pub fn pb(self: Pin<Box<Self>>, x: u32, y: u32) -> u32;
    pub fn pm(self: Pin<&mut Self>, x: u32, y: u32) -> u32;
    pub fn pr(self: Pin<&Self>, x: u32, y: u32) -> u32;
} }
mockall::mock! { pub Ax {
    pub async fn asy(&self, x: u32, y: u32) -> u32;
    pub async fn asm(&mut self, x: u32, y: u32) -> u32;
    pub async fn ass(x: u32, y: u32) -> u32;
    pub fn fut(&self, x: u32, y: u32) -> impl Future<Output = u32>;
    pub fn bf(&self, x: u32, y: u32) -> Pin<Box<dyn Future<Output = u32>>>;
} }
mockall::mock! { pub Ix {
    pub fn imp(&self, x: u32, y: u32) -> impl Get;
    pub fn it(&self, x: u32, y: u32) -> impl Iterator<Item = u32> + Send;
    pub fn bxd(&self, x: u32, y: u32) -> Box<dyn Get>;
} }
#[mockall::automock]
pub trait Rp { fn rp(&self, x: u32, y: u32) -> impl Get; }
mockall::mock! { pub Lx<'a> {
    pub fn anon(&self, x: u32, y: u32) -> Br<'_>;
    pub fn named<'b>(&'b self, x: u32, y: u32) -> Br<'b>;
    pub fn free<'c>(&self, x: u32, y: u32) -> Br<'c>;
    pub fn rf<'c>(&self, x: u32, y: u32) -> &Br<'c>;
    pub fn own(&self, x: Br<'a>, y: u32) -> u32;
    pub fn stl<'c>(x: &'c u32, y: u32) -> u32;
} }
pub trait Anon { fn tanon(&self, x: u32, y: u32) -> Br<'_>; fn tfree<'c>(&self, x: u32, y: u32) -> Br<'c>; }
mockall::mock! { pub Lt {} impl Anon for Lt { fn tanon(&self, x: u32, y: u32) -> Br<'_>; fn tfree<'c>(&self, x: u32, y: u32) -> Br<'c>; } }
mockall::mock! { pub Ux {
    pub unsafe fn uns(&self, x: u32, y: u32) -> u32;
    pub extern "C" fn extc(&self, x: u32, y: u32) -> u32;
    pub unsafe fn unst(x: u32, y: u32) -> u32;
} }
pub unsafe trait Uns { fn ut(&self, x: u32, y: u32) -> u32; }
mockall::mock! { pub Ut {} unsafe impl Uns for Ut { fn ut(&self, x: u32, y: u32) -> u32; } }
pub trait Num2<T> { fn num(&self, x: T, y: u32) -> T; }
mockall::mock! { pub Sp<T: 'static> {} 
    impl Num2<u32> for Sp<u32> { fn num(&self, x: u32, y: u32) -> u32; }
    impl Num2<u16> for Sp<u16> { fn num(&self, x: u16, y: u32) -> u16; }
}
#[mockall::automock(type Item = &'a u32;)]
pub trait Gat { type Item<'a> where Self: 'a; fn gat<'a>(&'a mut self, x: u32, y: u32) -> Option<Self::Item<'a>>; }
pub trait Sup: Get { fn sup(&self, x: u32, y: u32) -> u32; }
mockall::mock! { pub Su {} impl Get for Su { fn v(&self) -> u32; } impl Sup for Su { fn sup(&self, x: u32, y: u32) -> u32; } }
pub trait Dst<T> { fn make(x: T, y: u32) -> Self where Self: Sized; fn dg(&self) -> u32; fn boxed(x: T, y: u32) -> Box<dyn Dst<T>> where Self: Sized; }
mockall::mock! { pub Mk { pub fn mk(x: u32, y: u32) -> Self; pub fn bmk(x: u32, y: u32) -> Box<Self>; pub fn res(&self, x: u32, y: u32) -> Result<u32, u8>; pub fn mine(&self) -> u32; } }
pub struct Wh<T>(pub T);
#[mockall::automock]
impl<T> Wh<T> where T: Clone + 'static {
    pub fn wh(&self, x: T, y: u32) -> u32 { 0 }
    pub fn whs(x: T, y: u32) -> u32 { 0 }
}
mockall::mock! { pub Dr { pub fn drf(&self, x: u32, y: u32) -> u32; } impl Clone for Dr { fn clone(&self) -> Self; } impl Get for Dr { fn v(&self) -> u32; } impl std::ops::Deref for Dr { type Target = u32; fn deref(&self) -> &u32; } impl Iterator for Dr { type Item = u32; fn next(&mut self) -> Option<u32>; } impl PartialEq for Dr { fn eq(&self, o: &Self) -> bool; } impl PartialOrd for Dr { fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering>; } impl std::ops::Add<u32> for Dr { type Output = u32; fn add(self, o: u32) -> u32; } impl std::ops::Index<u32> for Dr { type Output = u32; fn index(&self, i: u32) -> &u32; } impl std::ops::IndexMut<u32> for Dr { fn index_mut(&mut self, i: u32) -> &mut u32; } impl std::ops::AddAssign<u32> for Dr { fn add_assign(&mut self, o: u32); } }
mockall::mock! { pub Raw { pub fn r#match(&self, x: u32, r#type: u32) -> u32; pub fn nondebug(&self, x: Br<'static>, y: u32) -> u32; pub fn rres(&self, x: u32, y: u32) -> Result<&'static u32, u32>; pub fn tup(&self, x: (u32, u32)) -> (u32, u32); pub fn arr(&self, x: [u32; 2]) -> [u32; 2]; } }

macro_rules! sh_ok { ($mk:expr, $ex:ident, |$a:ident, $b:ident, $k:ident| $ret:expr, |$m:ident, $x:ident, $y:ident| $call:expr) => {{
    let ($x, $y, $k): (u32, u32, u32) = kani::any();
    let mut $m = $mk;
    $m.$ex().times(1).withf(move |p, q| *p == $x && *q == $y).returning(move |$a, $b| $ret);
    obl!($call == sp($x, $y, $k), "a permitted, accepted call is answered with the action's result on the caller's arguments");
}} }
macro_rules! sh_none { ($mk:expr, $ex:ident, |$a:ident, $b:ident, $k:ident| $ret:expr, |$m:ident, $x:ident, $y:ident| $call:expr) => {{
    let ($x, $y, $k): (u32, u32, u32) = kani::any();
    let mut $m = $mk;
    $m.$ex().times(..).withf(move |p, q| *p != $x || *q != $y).returning(move |$a, $b| $ret);
    must_panic!("a call that the condition rejects panics", $call);
}} }
macro_rules! sh_over { ($mk:expr, $ex:ident, |$a:ident, $b:ident, $k:ident| $ret:expr, |$m:ident, $x:ident, $y:ident| $call:expr) => {{
    let ($x, $y, $k): (u32, u32, u32) = kani::any();
    let (lo, hi): (usize, usize) = kani::any();
    kani::assume(lo <= hi && hi < usize::MAX - 2 && (hi == 0 || cfg!(mockall_verif)));
    preset_calls(hi);
    let mut $m = $mk;
    $m.$ex().times(lo..=hi).returning(move |$a, $b| $ret);
    history!(0, ());
    must_panic!("a call beyond the permitted maximum panics", $call);
}} }
macro_rules! sh_under { ($mk:expr, $ex:ident, |$a:ident, $b:ident, $k:ident| $ret:expr, |$m:ident, $x:ident, $y:ident| $call:expr) => {{
    let ($x, $y, $k): (u32, u32, u32) = kani::any();
    let (lo, hi, c): (usize, usize, usize) = kani::any();
    kani::assume(lo <= hi && hi < usize::MAX - 2 && c < lo && lo - c > 1 && (c == 0 || cfg!(mockall_verif)));
    preset_calls(c);
    let mut $m = $mk;
    $m.$ex().times(lo..=hi).returning(move |$a, $b| $ret);
    history!(0, ());
    must_panic!("one call counts once: the end of the mock reports the missing calls", $call);
}} }
