use image::{ImageBuffer, Luma, Primitive};
use ndarray::{Array2, ArrayView2, ArrayViewMut2};
use std::ops::{Deref, DerefMut};
pub trait RefNdarray2 {
    type Out;
    fn ref_ndarray2(self) -> Self::Out;
}
pub trait MutNdarray2 {
    type Out;
    fn mut_ndarray2(self) -> Self::Out;
}
pub trait ToNdarray2 {
    type Out;
    fn to_ndarray2(self) -> Self::Out;
    fn into_ndarray2(self) -> Self::Out
    where
        Self: Sized,
    {
        self.to_ndarray2()
    }
}
impl<'a, A: Primitive, C: Deref<Target = [A]>> RefNdarray2 for &'a ImageBuffer<Luma<A>, C> {
    type Out = ArrayView2<'a, A>;
    fn ref_ndarray2(self) -> ArrayView2<'a, A> {
        let (w, h) = self.dimensions();
        ArrayView2::from_shape((h as usize, w as usize), self.deref()).unwrap()
    }
}
impl<'a, A: Primitive, C: Deref<Target = [A]> + DerefMut> MutNdarray2 for &'a mut ImageBuffer<Luma<A>, C> {
    type Out = ArrayViewMut2<'a, A>;
    fn mut_ndarray2(self) -> ArrayViewMut2<'a, A> {
        let (w, h) = self.dimensions();
        ArrayViewMut2::from_shape((h as usize, w as usize), self.deref_mut()).unwrap()
    }
}
impl<A: Primitive> ToNdarray2 for ImageBuffer<Luma<A>, Vec<A>> {
    type Out = Array2<A>;
    fn to_ndarray2(self) -> Array2<A> {
        let (w, h) = self.dimensions();
        Array2::from_shape_vec((h as usize, w as usize), self.into_raw()).unwrap()
    }
}
