//! Stand-in for `image` 0.24: the buffer, pixel and dynamic image types, with the same grey
//! conversion weights, and reading of binary PNM files.  A `DynamicImage` can carry a payload
//! (`Scene`), which only the simulated camera and the simulated feature extractor know about.
use std::any::Any;
use std::ops::{Deref, DerefMut, Index, IndexMut};
use std::path::Path;
use std::sync::Arc;

pub trait Primitive: Copy + Default + PartialOrd + std::fmt::Debug + Send + Sync + 'static {
    fn to_f32(self) -> f32;
    const MAX: f32;
    /// Luminance from red, green and blue.
    fn luma(r: Self, g: Self, b: Self) -> Self;
}
macro_rules! int_primitive {
    ($t:ty) => {
        impl Primitive for $t {
            fn to_f32(self) -> f32 {
                self as f32
            }
            const MAX: f32 = <$t>::MAX as f32;
            fn luma(r: Self, g: Self, b: Self) -> Self {
                ((2126 * r as u32 as u64 + 7152 * g as u32 as u64 + 722 * b as u32 as u64) / 10000)
                    as $t
            }
        }
    };
}
int_primitive!(u8);
int_primitive!(u16);
impl Primitive for f32 {
    fn to_f32(self) -> f32 {
        self
    }
    const MAX: f32 = 1.0;
    fn luma(r: f32, g: f32, b: f32) -> f32 {
        (2126.0 * r + 7152.0 * g + 722.0 * b) / 10000.0
    }
}

pub trait Pixel: Copy + Clone {
    type Subpixel: Primitive;
    const CHANNEL_COUNT: u8;
    fn channels(&self) -> &[Self::Subpixel];
    fn channels_mut(&mut self) -> &mut [Self::Subpixel];
    fn from_slice(s: &[Self::Subpixel]) -> Self;
    fn to_luma(&self) -> Luma<Self::Subpixel>;
}

macro_rules! pixel {
    ($name:ident, $n:expr, $luma:expr) => {
        #[derive(Copy, Clone, Debug, PartialEq, Eq, Hash)]
        #[repr(transparent)]
        pub struct $name<T>(pub [T; $n]);
        impl<T: Primitive> Pixel for $name<T> {
            type Subpixel = T;
            const CHANNEL_COUNT: u8 = $n;
            fn channels(&self) -> &[T] {
                &self.0
            }
            fn channels_mut(&mut self) -> &mut [T] {
                &mut self.0
            }
            fn from_slice(s: &[T]) -> Self {
                let mut p = [T::default(); $n];
                p.copy_from_slice(s);
                $name(p)
            }
            fn to_luma(&self) -> Luma<T> {
                let f: fn(&[T; $n]) -> T = $luma;
                Luma([f(&self.0)])
            }
        }
        impl<T> Index<usize> for $name<T> {
            type Output = T;
            fn index(&self, i: usize) -> &T {
                &self.0[i]
            }
        }
        impl<T> IndexMut<usize> for $name<T> {
            fn index_mut(&mut self, i: usize) -> &mut T {
                &mut self.0[i]
            }
        }
    };
}
pixel!(Luma, 1, |p| p[0]);
pixel!(LumaA, 2, |p| p[0]);
pixel!(Rgb, 3, |p| T::luma(p[0], p[1], p[2]));
pixel!(Rgba, 4, |p| T::luma(p[0], p[1], p[2]));

#[derive(Clone, Debug, PartialEq, Default)]
pub struct ImageBuffer<P: Pixel, C> {
    width: u32,
    height: u32,
    data: C,
    _p: std::marker::PhantomData<P>,
}

impl<P: Pixel> ImageBuffer<P, Vec<P::Subpixel>> {
    pub fn new(width: u32, height: u32) -> Self {
        let n = width as usize * height as usize * P::CHANNEL_COUNT as usize;
        Self::from_raw(width, height, vec![P::Subpixel::default(); n]).unwrap()
    }
    pub fn from_raw(width: u32, height: u32, data: Vec<P::Subpixel>) -> Option<Self> {
        let n = width as usize * height as usize * P::CHANNEL_COUNT as usize;
        (data.len() >= n).then(|| Self { width, height, data, _p: Default::default() })
    }
    pub fn from_vec(width: u32, height: u32, data: Vec<P::Subpixel>) -> Option<Self> {
        Self::from_raw(width, height, data)
    }
    pub fn from_fn(width: u32, height: u32, mut f: impl FnMut(u32, u32) -> P) -> Self {
        let n = width as usize * height as usize * P::CHANNEL_COUNT as usize;
        let mut data = Vec::with_capacity(n);
        for y in 0..height {
            for x in 0..width {
                data.extend_from_slice(f(x, y).channels());
            }
        }
        Self::from_raw(width, height, data).unwrap()
    }
    pub fn from_pixel(width: u32, height: u32, p: P) -> Self {
        Self::from_fn(width, height, |_, _| p)
    }
    pub fn into_raw(self) -> Vec<P::Subpixel> {
        self.data
    }
    pub fn into_vec(self) -> Vec<P::Subpixel> {
        self.data
    }
    fn at(&self, x: u32, y: u32) -> std::ops::Range<usize> {
        assert!(
            x < self.width && y < self.height,
            "Image index {:?} out of bounds {:?}",
            (x, y),
            (self.width, self.height)
        );
        let n = P::CHANNEL_COUNT as usize;
        let i = (y as usize * self.width as usize + x as usize) * n;
        i..i + n
    }
    pub fn get_pixel(&self, x: u32, y: u32) -> &P {
        let r = self.at(x, y);
        // Every pixel type is a transparent-sized array of its channels.
        unsafe { &*(self.data[r].as_ptr() as *const P) }
    }
    pub fn get_pixel_mut(&mut self, x: u32, y: u32) -> &mut P {
        let r = self.at(x, y);
        unsafe { &mut *(self.data[r].as_mut_ptr() as *mut P) }
    }
    pub fn get_pixel_checked(&self, x: u32, y: u32) -> Option<&P> {
        (x < self.width && y < self.height).then(|| self.get_pixel(x, y))
    }
    pub fn put_pixel(&mut self, x: u32, y: u32, p: P) {
        *self.get_pixel_mut(x, y) = p;
    }
    pub fn pixels(&self) -> impl DoubleEndedIterator<Item = &P> + ExactSizeIterator {
        self.data
            .chunks_exact(P::CHANNEL_COUNT as usize)
            .map(|c| unsafe { &*(c.as_ptr() as *const P) })
    }
    pub fn pixels_mut(&mut self) -> impl DoubleEndedIterator<Item = &mut P> + ExactSizeIterator {
        self.data
            .chunks_exact_mut(P::CHANNEL_COUNT as usize)
            .map(|c| unsafe { &mut *(c.as_mut_ptr() as *mut P) })
    }
    pub fn enumerate_pixels(&self) -> impl Iterator<Item = (u32, u32, &P)> {
        let w = self.width.max(1);
        self.pixels().enumerate().map(move |(i, p)| (i as u32 % w, i as u32 / w, p))
    }
    pub fn rows(&self) -> impl Iterator<Item = impl Iterator<Item = &P>> {
        self.data.chunks_exact(P::CHANNEL_COUNT as usize * self.width as usize).map(|row| {
            row.chunks_exact(P::CHANNEL_COUNT as usize)
                .map(|c| unsafe { &*(c.as_ptr() as *const P) })
        })
    }
}
impl<P: Pixel, C> ImageBuffer<P, C> {
    pub fn width(&self) -> u32 {
        self.width
    }
    pub fn height(&self) -> u32 {
        self.height
    }
    pub fn dimensions(&self) -> (u32, u32) {
        (self.width, self.height)
    }
    pub fn as_raw(&self) -> &C {
        &self.data
    }
}
impl<P: Pixel> Deref for ImageBuffer<P, Vec<P::Subpixel>> {
    type Target = [P::Subpixel];
    fn deref(&self) -> &Self::Target {
        &self.data
    }
}
impl<P: Pixel> DerefMut for ImageBuffer<P, Vec<P::Subpixel>> {
    fn deref_mut(&mut self) -> &mut Self::Target {
        &mut self.data
    }
}
impl<P: Pixel> Index<(u32, u32)> for ImageBuffer<P, Vec<P::Subpixel>> {
    type Output = P;
    fn index(&self, (x, y): (u32, u32)) -> &P {
        self.get_pixel(x, y)
    }
}
impl<P: Pixel> IndexMut<(u32, u32)> for ImageBuffer<P, Vec<P::Subpixel>> {
    fn index_mut(&mut self, (x, y): (u32, u32)) -> &mut P {
        self.get_pixel_mut(x, y)
    }
}

pub trait GenericImageView {
    type Pixel: Pixel;
    fn dimensions(&self) -> (u32, u32);
    fn width(&self) -> u32 {
        self.dimensions().0
    }
    fn height(&self) -> u32 {
        self.dimensions().1
    }
    fn get_pixel(&self, x: u32, y: u32) -> Self::Pixel;
    fn in_bounds(&self, x: u32, y: u32) -> bool {
        x < self.width() && y < self.height()
    }
    /// # Safety
    /// The coordinates must be in bounds.  This stand-in checks them all the same.
    unsafe fn unsafe_get_pixel(&self, x: u32, y: u32) -> Self::Pixel {
        self.get_pixel(x, y)
    }
}
impl<P: Pixel> GenericImageView for ImageBuffer<P, Vec<P::Subpixel>> {
    type Pixel = P;
    fn dimensions(&self) -> (u32, u32) {
        (self.width, self.height)
    }
    fn get_pixel(&self, x: u32, y: u32) -> P {
        *ImageBuffer::get_pixel(self, x, y)
    }
}

pub type GrayImage = ImageBuffer<Luma<u8>, Vec<u8>>;
pub type GrayAlphaImage = ImageBuffer<LumaA<u8>, Vec<u8>>;
pub type RgbImage = ImageBuffer<Rgb<u8>, Vec<u8>>;
pub type RgbaImage = ImageBuffer<Rgba<u8>, Vec<u8>>;
pub type Gray16Image = ImageBuffer<Luma<u16>, Vec<u16>>;
pub type GrayAlpha16Image = ImageBuffer<LumaA<u16>, Vec<u16>>;
pub type Rgb16Image = ImageBuffer<Rgb<u16>, Vec<u16>>;
pub type Rgba16Image = ImageBuffer<Rgba<u16>, Vec<u16>>;
pub type Rgb32FImage = ImageBuffer<Rgb<f32>, Vec<f32>>;
pub type Rgba32FImage = ImageBuffer<Rgba<f32>, Vec<f32>>;

/// What the simulated camera puts beside the pixels.
#[derive(Clone)]
pub struct Scene(pub Arc<dyn Any + Send + Sync>);
impl std::fmt::Debug for Scene {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("Scene")
    }
}

#[derive(Clone, Debug)]
#[non_exhaustive]
pub enum DynamicImage {
    ImageLuma8(GrayImage),
    ImageLumaA8(GrayAlphaImage),
    ImageRgb8(RgbImage),
    ImageRgba8(RgbaImage),
    ImageLuma16(Gray16Image),
    ImageLumaA16(GrayAlpha16Image),
    ImageRgb16(Rgb16Image),
    ImageRgba16(Rgba16Image),
    ImageRgb32F(Rgb32FImage),
    ImageRgba32F(Rgba32FImage),
    /// Only in this stand-in: an RGB image with what the simulated camera saw.
    Simulated(RgbImage, Scene),
}

fn to_gray<P: Pixel>(
    im: &ImageBuffer<P, Vec<P::Subpixel>>,
) -> ImageBuffer<Luma<P::Subpixel>, Vec<P::Subpixel>> {
    ImageBuffer::from_fn(im.width(), im.height(), |x, y| im.get_pixel(x, y).to_luma())
}

impl DynamicImage {
    pub fn dimensions(&self) -> (u32, u32) {
        use DynamicImage::*;
        match self {
            ImageLuma8(i) => i.dimensions(),
            ImageLumaA8(i) => i.dimensions(),
            ImageRgb8(i) | Simulated(i, _) => i.dimensions(),
            ImageRgba8(i) => i.dimensions(),
            ImageLuma16(i) => i.dimensions(),
            ImageLumaA16(i) => i.dimensions(),
            ImageRgb16(i) => i.dimensions(),
            ImageRgba16(i) => i.dimensions(),
            ImageRgb32F(i) => i.dimensions(),
            ImageRgba32F(i) => i.dimensions(),
        }
    }
    pub fn width(&self) -> u32 {
        self.dimensions().0
    }
    pub fn height(&self) -> u32 {
        self.dimensions().1
    }
    pub fn grayscale(&self) -> DynamicImage {
        use DynamicImage::*;
        match self {
            ImageLuma8(i) => ImageLuma8(i.clone()),
            ImageLumaA8(i) => ImageLumaA8(i.clone()),
            ImageRgb8(i) | Simulated(i, _) => ImageLuma8(to_gray(i)),
            ImageRgba8(i) => ImageLumaA8(ImageBuffer::from_fn(i.width(), i.height(), |x, y| {
                LumaA([i[(x, y)].to_luma()[0], i[(x, y)][3]])
            })),
            ImageLuma16(i) => ImageLuma16(i.clone()),
            ImageLumaA16(i) => ImageLumaA16(i.clone()),
            ImageRgb16(i) => ImageLuma16(to_gray(i)),
            ImageRgba16(i) => ImageLumaA16(ImageBuffer::from_fn(i.width(), i.height(), |x, y| {
                LumaA([i[(x, y)].to_luma()[0], i[(x, y)][3]])
            })),
            ImageRgb32F(i) => ImageRgb32F(ImageBuffer::from_fn(i.width(), i.height(), |x, y| {
                Rgb([i[(x, y)].to_luma()[0]; 3])
            })),
            ImageRgba32F(i) => {
                ImageRgba32F(ImageBuffer::from_fn(i.width(), i.height(), |x, y| {
                    let l = i[(x, y)].to_luma()[0];
                    Rgba([l, l, l, i[(x, y)][3]])
                }))
            }
        }
    }
    fn rgb_at(&self, x: u32, y: u32) -> [f32; 3] {
        fn f<P: Pixel>(i: &ImageBuffer<P, Vec<P::Subpixel>>, x: u32, y: u32) -> [f32; 3] {
            let c = i.get_pixel(x, y);
            let c = c.channels();
            let m = <P::Subpixel as Primitive>::MAX;
            if c.len() < 3 {
                [c[0].to_f32() / m; 3]
            } else {
                [c[0].to_f32() / m, c[1].to_f32() / m, c[2].to_f32() / m]
            }
        }
        use DynamicImage::*;
        match self {
            ImageLuma8(i) => f(i, x, y),
            ImageLumaA8(i) => f(i, x, y),
            ImageRgb8(i) | Simulated(i, _) => f(i, x, y),
            ImageRgba8(i) => f(i, x, y),
            ImageLuma16(i) => f(i, x, y),
            ImageLumaA16(i) => f(i, x, y),
            ImageRgb16(i) => f(i, x, y),
            ImageRgba16(i) => f(i, x, y),
            ImageRgb32F(i) => f(i, x, y),
            ImageRgba32F(i) => f(i, x, y),
        }
    }
    pub fn to_rgb8(&self) -> RgbImage {
        use DynamicImage::*;
        match self {
            ImageRgb8(i) | Simulated(i, _) => i.clone(),
            _ => ImageBuffer::from_fn(self.width(), self.height(), |x, y| {
                Rgb(self.rgb_at(x, y).map(|v| (v.clamp(0.0, 1.0) * 255.0).round() as u8))
            }),
        }
    }
    pub fn into_rgb8(self) -> RgbImage {
        self.to_rgb8()
    }
    pub fn to_luma8(&self) -> GrayImage {
        to_gray(&self.to_rgb8())
    }
}
impl From<GrayImage> for DynamicImage {
    fn from(i: GrayImage) -> Self {
        DynamicImage::ImageLuma8(i)
    }
}
impl From<RgbImage> for DynamicImage {
    fn from(i: RgbImage) -> Self {
        DynamicImage::ImageRgb8(i)
    }
}

#[derive(Debug)]
pub enum ImageError {
    Decoding(String),
    IoError(std::io::Error),
}
impl std::fmt::Display for ImageError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            ImageError::Decoding(s) => write!(f, "decoding: {s}"),
            ImageError::IoError(e) => e.fmt(f),
        }
    }
}
impl std::error::Error for ImageError {}
impl From<std::io::Error> for ImageError {
    fn from(e: std::io::Error) -> Self {
        ImageError::IoError(e)
    }
}
pub type ImageResult<T> = Result<T, ImageError>;

/// Read a binary PGM (P5) or PPM (P6) file.
pub fn open<P: AsRef<Path>>(path: P) -> ImageResult<DynamicImage> {
    let bytes = std::fs::read(path)?;
    load_from_memory(&bytes)
}
pub fn load_from_memory(bytes: &[u8]) -> ImageResult<DynamicImage> {
    let bad = |s: &str| ImageError::Decoding(s.to_string());
    let mut pos = 0;
    let mut word = || -> Option<String> {
        while pos < bytes.len() && bytes[pos].is_ascii_whitespace() {
            pos += 1;
        }
        let start = pos;
        while pos < bytes.len() && !bytes[pos].is_ascii_whitespace() {
            pos += 1;
        }
        (start < pos).then(|| String::from_utf8_lossy(&bytes[start..pos]).into_owned())
    };
    let magic = word().ok_or_else(|| bad("empty file"))?;
    let mut num = || word().and_then(|w| w.parse::<u32>().ok()).ok_or_else(|| bad("header"));
    let (w, h, max) = (num()?, num()?, num()?);
    if max != 255 || w.checked_mul(h).map_or(true, |n| n > 1 << 26) {
        return Err(bad("unsupported header"));
    }
    let body = bytes.get(pos + 1..).unwrap_or(&[]);
    match magic.as_str() {
        "P5" => {
            let n = (w * h) as usize;
            if body.len() < n {
                return Err(bad("truncated"));
            }
            Ok(DynamicImage::ImageLuma8(ImageBuffer::from_raw(w, h, body[..n].to_vec()).unwrap()))
        }
        "P6" => {
            let n = (w * h) as usize * 3;
            if body.len() < n {
                return Err(bad("truncated"));
            }
            Ok(DynamicImage::ImageRgb8(ImageBuffer::from_raw(w, h, body[..n].to_vec()).unwrap()))
        }
        _ => Err(bad("unknown format")),
    }
}
