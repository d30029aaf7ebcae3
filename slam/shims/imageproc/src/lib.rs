//! Stand-in for `imageproc`: the few definitions the bicubic interpolation needs.
pub mod definitions {
    use image::{ImageBuffer, Pixel};
    pub type Image<P> = ImageBuffer<P, Vec<<P as Pixel>::Subpixel>>;
    pub trait Clamp<T> {
        fn clamp(x: T) -> Self;
    }
    impl Clamp<f32> for u8 {
        fn clamp(x: f32) -> u8 {
            x.clamp(0.0, 255.0) as u8
        }
    }
    impl Clamp<f32> for u16 {
        fn clamp(x: f32) -> u16 {
            x.clamp(0.0, 65535.0) as u16
        }
    }
    impl Clamp<f32> for f32 {
        fn clamp(x: f32) -> f32 {
            x
        }
    }
}
pub mod math {
    use conv::ValueInto;
    pub fn cast<T: ValueInto<U>, U>(x: T) -> U {
        x.value_into().ok().expect("failed to convert")
    }
}
