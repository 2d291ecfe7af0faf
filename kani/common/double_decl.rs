// C16: the imports under contract, compiled for tests (crate c16) and not for tests (c16n).
// `orig!(k)`: what the item with key k is in the original, `mck!(k)` in the mock; both differ
// for every key, and are functions of a symbolic argument.
macro_rules! pair {
    ($($o:ident $m:ident $k:literal),*) => { $(
        #[derive(Default)] pub struct $o;
        impl $o {
            pub const MOCK: bool = false;
            pub fn f(x: u32) -> u32 { x.wrapping_mul(2).wrapping_add($k) }
            pub fn get(&self, x: u32) -> u32 { Self::f(x) }
        }
        #[derive(Default)] pub struct $m;
        impl $m {
            pub const MOCK: bool = true;
            pub fn f(x: u32) -> u32 { x.wrapping_mul(2).wrapping_add($k).wrapping_add(0x8000_0001) }
            pub fn get(&self, x: u32) -> u32 { Self::f(x) }
        }
    )* };
}
macro_rules! pairmod {
    ($($o:ident $m:ident $k:literal),*) => { $(
        pub mod $o { pub fn f(x: u32) -> u32 { x.wrapping_mul(2).wrapping_add($k) } pair! {Inside MockInside 77} }
        pub mod $m { pub fn f(x: u32) -> u32 { x.wrapping_mul(2).wrapping_add($k).wrapping_add(0x8000_0001) } pair! {Inside MockInside 78} }
    )* };
}
pub fn want(mock: bool, k: u32, x: u32) -> u32 {
    x.wrapping_mul(2).wrapping_add(k).wrapping_add(if mock { 0x8000_0001 } else { 0 })
}

pub mod m {
    pair! {Foo MockFoo 1, A MockA 2, B MockB 3, X MockX 4, Éa MockÉa 5, Long2Name MockLong2Name 6, Mock MockMock 7, MOCKY MockMOCKY 8}
    pairmod! {inner mock_inner 10, outer_two mock_outer_two 11, z mock_z 12, mock mock_mock 13}
    pub mod deep {
        pair! {Baz MockBaz 20, Bean MockBean 21, C MockC 22}
        pairmod! {deeper mock_deeper 23}
        pub mod er { pair! {D MockD 24, E MockE 25} pairmod! {low mock_low 26} }
    }
    #[derive(Default)] pub struct Gen<T>(pub T);
    #[derive(Default)] pub struct MockGen<T>(pub T);
    impl<T> Gen<T> { pub fn f(x: u32) -> u32 { super::want(false, 30, x) } }
    impl<T> MockGen<T> { pub fn f(x: u32) -> u32 { super::want(true, 30, x) } }
    // the documented pair: an original and what #[automock] makes of it
    pub struct Auto { k: u32 }
    #[cfg_attr(all(), mockall::automock)]
    impl Auto {
        pub fn make(k: u32) -> Self { Auto { k } }
        pub fn get(&self, x: u32) -> u32 { super::want(false, self.k, x) }
    }
    #[mockall::automock]
    pub mod funcs {
        pub fn calc(x: u32) -> u32 { super::super::want(false, 31, x) }
    }
}
pair! {Here MockHere 40, There MockThere 41}

pub mod single {
    use mockall_double::double;
    #[double] pub use super::m::Foo;
    #[double] pub use crate::decl::m::deep::Baz;
    #[double] pub use super::m::X;
    #[double] pub use super::m::Éa;
    #[double] pub use super::m::Long2Name;
    #[double] pub use super::m::Mock;
    #[double] pub use super::m::MOCKY;
    // not doubled
    pub use super::m::A;
}
pub mod group {
    use mockall_double::double;
    #[double] pub use super::m::{Foo, A, B};
}
pub mod nested {
    use mockall_double::double;
    #[double] pub(crate) use super::m::{Foo, inner, deep::{Baz, er::{D, E, low}, Bean}, B as RenamedB, outer_two as renamed_outer};
    pub use super::m::deep::C;
}
pub mod modules {
    use mockall_double::double;
    #[double] pub use super::m::inner;
    #[double] pub use super::m::outer_two;
    #[double] pub use super::m::deep::er::low;
    #[double] pub use super::m::{z, mock};
    pub use super::m::deep::deeper;
}
pub mod renamed {
    use mockall_double::double;
    #[double] pub use super::m::Foo as Bar;
    #[double] pub use super::m::A as lower;
    #[double] pub use super::m::inner as Upper;
    #[double] pub use super::m::{deep::Baz as Foo, B};
    #[double] #[allow(unused_imports)] pub(in crate::decl) use super::m::X as Y;
    pub fn y(x: u32) -> u32 { Y::f(x) }
}
#[mockall_double::double] pub use Here as Doubled;
#[mockall_double::double] pub type Alias = m::Foo;
#[mockall_double::double] pub(crate) type AliasDeep = self::m::deep::Bean;
#[mockall_double::double] pub type AliasGen = m::Gen<u64>;
#[mockall_double::double] pub type AliasGenP<T> = m::Gen<T>;
#[mockall_double::double] type AliasHere = There;
pub fn alias_here(x: u32) -> u32 { AliasHere::f(x) }

pub mod auto {
    use mockall_double::double;
    #[double] pub use super::m::Auto;
    #[double] pub use super::m::funcs;
}
pub fn in_function(x: u32) -> (u32, u32) {
    #[mockall_double::double] use self::m::Foo;
    #[mockall_double::double] use self::m::inner::Inside as Local;
    (Foo::f(x), Local::f(x))
}

/// One obligation per imported name.  `t`: compiled for tests.
macro_rules! double_obligations { ($t:expr, $x:expr) => {{
    let (t, x) = ($t, $x);
    use crate::decl::*;
    obl!(single::Foo::f(x) == want(t, 1, x), "a doubled single import names the mock in tests and the original otherwise");
    obl!(single::Foo::default().get(x) == want(t, 1, x), "a doubled single import names the mock in tests and the original otherwise, methods included");
    obl!(single::Baz::f(x) == want(t, 20, x), "a doubled deep import names the mock in tests and the original otherwise");
    obl!(single::X::f(x) == want(t, 4, x), "a doubled import of a one-letter type names the mock in tests and the original otherwise");
    obl!(single::Éa::f(x) == want(t, 5, x), "a doubled import of a non-ASCII type names the mock in tests and the original otherwise");
    obl!(single::Long2Name::f(x) == want(t, 6, x), "a doubled single import names the mock in tests and the original otherwise, long names");
    obl!(single::Mock::f(x) == want(t, 7, x), "a doubled import of a type called Mock names MockMock in tests and the original otherwise");
    obl!(single::MOCKY::f(x) == want(t, 8, x), "a doubled import of an upper-case type names the mock in tests and the original otherwise");
    obl!(single::A::f(x) == want(false, 2, x), "an import that is not doubled names the original");
    obl!(group::Foo::f(x) == want(t, 1, x) && group::A::f(x) == want(t, 2, x) && group::B::f(x) == want(t, 3, x), "every name of a grouped doubled import names the mock in tests and the original otherwise");
    obl!(nested::Foo::f(x) == want(t, 1, x), "first name of a nested group");
    obl!(nested::inner::f(x) == want(t, 10, x), "module of a nested group");
    obl!(nested::Baz::f(x) == want(t, 20, x) && nested::Bean::f(x) == want(t, 21, x), "names of an inner group");
    obl!(nested::D::f(x) == want(t, 24, x) && nested::E::f(x) == want(t, 25, x) && nested::low::f(x) == want(t, 26, x), "names of an innermost group");
    obl!(nested::RenamedB::f(x) == want(t, 3, x), "renamed name of a nested group");
    obl!(nested::renamed_outer::f(x) == want(t, 11, x), "renamed module of a nested group");
    obl!(nested::C::f(x) == want(false, 22, x), "an import next to a doubled one is not affected");
    obl!(modules::inner::f(x) == want(t, 10, x) && modules::outer_two::f(x) == want(t, 11, x) && modules::low::f(x) == want(t, 26, x), "a doubled module import names the mock module in tests and the original otherwise");
    obl!(modules::z::f(x) == want(t, 12, x) && modules::mock::f(x) == want(t, 13, x), "grouped doubled module imports");
    obl!(modules::deeper::f(x) == want(false, 23, x), "a module import that is not doubled names the original");
    obl!(renamed::Bar::f(x) == want(t, 1, x), "a renamed doubled import names the mock in tests and the original otherwise");
    obl!(renamed::lower::f(x) == want(t, 2, x) && renamed::Upper::f(x) == want(t, 10, x), "the kind of name is that of the imported item, not of the new name");
    obl!(renamed::Foo::f(x) == want(t, 20, x) && renamed::B::f(x) == want(t, 3, x), "renamed and plain names in one group");
    obl!(renamed::y(x) == want(t, 4, x), "a doubled import with further attributes and restricted visibility");
    obl!(Doubled::f(x) == want(t, 40, x), "a renamed doubled import from the current module");
    obl!(Here::f(x) == want(false, 40, x) && MockHere::f(x) == want(true, 40, x), "the items themselves keep their names");
    obl!(Alias::f(x) == want(t, 1, x) && AliasDeep::f(x) == want(t, 21, x) && alias_here(x) == want(t, 41, x), "a doubled type alias names the mock in tests and the original otherwise");
    obl!(AliasGen::f(x) == want(t, 30, x) && <AliasGenP<u8>>::f(x) == want(t, 30, x), "a doubled alias of a generic type");
    obl!(in_function(x) == (want(t, 1, x), if t { want(true, 77, x) } else { want(false, 77, x) }), "doubled imports inside a function");
}} }
