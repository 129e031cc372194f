//! Conversion of generated types to canonical values.
use doodle::prelude::*;
use sem::CV;
pub trait ToCv {
    fn to_cv(&self) -> CV;
}
macro_rules! num { ($($t:ty = $w:expr),*) => { $(impl ToCv for $t { fn to_cv(&self) -> CV { CV::Num($w, *self as u64) } })* } }
num!(u8 = 8, u16 = 16, u32 = 32, u64 = 64, usize = 0);
impl ToCv for bool {
    fn to_cv(&self) -> CV { CV::Bool(*self) }
}
impl ToCv for char {
    fn to_cv(&self) -> CV { CV::Char(*self as u32) }
}
impl ToCv for () {
    fn to_cv(&self) -> CV { CV::Tup(vec![]) }
}
impl<T> ToCv for std::marker::PhantomData<T> {
    fn to_cv(&self) -> CV { CV::Phantom }
}
impl<T: ToCv> ToCv for Option<T> {
    fn to_cv(&self) -> CV { CV::Opt(self.as_ref().map(|x| Box::new(x.to_cv()))) }
}
impl<T: ToCv> ToCv for Vec<T> {
    fn to_cv(&self) -> CV { CV::Seq(self.iter().map(|x| x.to_cv()).collect()) }
}
impl<T: ToCv> ToCv for [T] {
    fn to_cv(&self) -> CV { CV::Seq(self.iter().map(|x| x.to_cv()).collect()) }
}
impl<T: ToCv + ?Sized> ToCv for &T {
    fn to_cv(&self) -> CV { (**self).to_cv() }
}
impl<T: ToCv + ?Sized> ToCv for Box<T> {
    fn to_cv(&self) -> CV { (**self).to_cv() }
}
impl<'a> ToCv for View<'a> {
    fn to_cv(&self) -> CV { CV::Other }
}
macro_rules! arr { ($($t:ty),*) => { $(impl<'a> ToCv for ReadArray<'a, $t> { fn to_cv(&self) -> CV { CV::Seq(self.iter().map(|x| x.to_cv()).collect()) } })* } }
arr!(U8, U16Be, U32Be, U64Be);
macro_rules! tup { ($($n:ident),*) => { impl<$($n: ToCv),*> ToCv for ($($n,)*) {
    #[allow(non_snake_case)]
    fn to_cv(&self) -> CV { let ($($n,)*) = self; CV::Tup(vec![$($n.to_cv()),*]) }
} } }
tup!(A);
tup!(A, B);
tup!(A, B, C);
tup!(A, B, C, D);
tup!(A, B, C, D, E);
tup!(A, B, C, D, E, F);
tup!(A, B, C, D, E, F, G);
tup!(A, B, C, D, E, F, G, H);
tup!(A, B, C, D, E, F, G, H, I);
