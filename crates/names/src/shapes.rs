//! Types of all the shapes the derive accepts.
use super::*;
fn blow() {
    DROPS.fetch_add(1, SeqCst);
}
macro_rules! counted {
    ($($t:ty),*) => { $( impl Drop for $t { fn drop(&mut self) { blow() } } )* };
}
#[derive(Component)]
pub struct Unit;
#[derive(Component)]
pub struct Tuple(pub u8, pub u32);
#[derive(Component)]
pub struct Named {
    pub a: u64,
    pub b: Vec<u8>,
}
#[derive(Component)]
pub struct Empty {}
#[derive(Component)]
#[allow(dead_code)]
pub enum Choice {
    One,
    Two(u32),
    Three { x: String },
}
#[derive(Component)]
pub union Either {
    pub a: u32,
    pub b: [u8; 6],
}
#[derive(Component)]
pub struct X;
#[derive(Component)]
#[allow(non_camel_case_types)]
pub struct lower_case_name(pub u16);
#[derive(Component)]
pub struct ATypeWithARatherLongNameThatGoesOnForMoreThanSixtyFourCharactersInAllAndThenSome(pub u32);
#[derive(Component)]
pub struct Größe(pub f32);
#[derive(Component)]
pub struct _Under_9(pub [u16; 7]);
#[derive(Component)]
#[repr(align(64))]
pub struct Aligned(pub u8);
#[derive(Component)]
#[repr(C, packed)]
pub struct Packed(pub u8, pub u32);
#[derive(Clone, Copy, Debug, PartialEq, Component, Default)]
pub struct WithOthers(pub u32);
#[derive(Component)]
pub struct Generic<T: Send + Sync + 'static>(pub T);
#[derive(Component)]
pub struct Whered<T>(pub T)
where
    T: Send + Sync + 'static;
#[derive(Component)]
pub struct Sized_<const N: usize>(pub [u8; N]);
#[derive(Component)]
pub struct Both<T, const N: usize>(pub [T; N])
where
    T: Copy + Send + Sync + 'static;
#[derive(Component)]
pub struct Defaulted<T: Send + Sync + 'static = u32>(pub T);
pub mod inner {
    use super::*;
    #[derive(Component)]
    pub struct Nested(pub u32);
    #[derive(Component)]
    pub(crate) struct Unit(pub u8);
}
macro_rules! made {
    ($n:ident) => {
        #[derive(Component)]
        pub struct $n(pub u32);
    };
}
made!(MadeByMacro);
counted!(Unit, Tuple, Named, Empty, Choice, X, Größe, Aligned, MadeByMacro);
impl<T: Send + Sync + 'static> Drop for Generic<T> {
    fn drop(&mut self) {
        blow()
    }
}
macro_rules! mk {
    ($($t:ty = $e:expr;)*) => { $( impl Mk for $t { fn mk() -> Self { $e } } )* };
}
mk! {
    Unit = Unit; Tuple = Tuple(1, 2); Named = Named { a: 1, b: vec![1, 2] }; Empty = Empty {}; Choice = Choice::Three { x: "x".into() };
    Either = Either { a: 1 }; X = X; lower_case_name = lower_case_name(1);
    ATypeWithARatherLongNameThatGoesOnForMoreThanSixtyFourCharactersInAllAndThenSome = ATypeWithARatherLongNameThatGoesOnForMoreThanSixtyFourCharactersInAllAndThenSome(1);
    Größe = Größe(1.0); _Under_9 = _Under_9([1; 7]); Aligned = Aligned(1); Packed = Packed(1, 2); WithOthers = WithOthers(1);
    Generic<u32> = Generic(1); Generic<String> = Generic("y".into()); Whered<u8> = Whered(1); Sized_<3> = Sized_([1; 3]); Both<u16, 5> = Both([1; 5]);
    Defaulted = Defaulted(1); inner::Nested = inner::Nested(1); inner::Unit = inner::Unit(1); MadeByMacro = MadeByMacro(1);
}
