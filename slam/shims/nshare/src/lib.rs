//! Stand-in for `nshare`: image buffers as two-dimensional arrays and back.
use image_shim::{ImageBuffer, Luma, Primitive};
use ndarray_shim::{Array2, ArrayView2, ArrayViewMut2};

pub trait RefNdarray2 {
    type Out;
    fn ref_ndarray2(self) -> Self::Out;
}
pub trait MutNdarray2 {
    type Out;
    fn mut_ndarray2(self) -> Self::Out;
}
pub trait IntoNdarray2 {
    type Out;
    fn into_ndarray2(self) -> Self::Out;
}
impl<'a, T: Primitive> RefNdarray2 for &'a ImageBuffer<Luma<T>, Vec<T>> {
    type Out = ArrayView2<'a, T>;
    fn ref_ndarray2(self) -> Self::Out {
        let (w, h) = self.dimensions();
        ArrayView2::from_shape((h as usize, w as usize), self).expect("shape")
    }
}
impl<'a, T: Primitive> MutNdarray2 for &'a mut ImageBuffer<Luma<T>, Vec<T>> {
    type Out = ArrayViewMut2<'a, T>;
    fn mut_ndarray2(self) -> Self::Out {
        let (w, h) = self.dimensions();
        ArrayViewMut2::from_shape((h as usize, w as usize), self).expect("shape")
    }
}
impl<T: Primitive> IntoNdarray2 for ImageBuffer<Luma<T>, Vec<T>> {
    type Out = Array2<T>;
    fn into_ndarray2(self) -> Self::Out {
        let (w, h) = self.dimensions();
        Array2::from_shape_vec((h as usize, w as usize), self.into_raw()).expect("shape")
    }
}
