//! The part of the image crate (0.24) that feature extraction uses. `open` reads binary PGM/PPM files only.
use std::fmt::Debug;
use std::ops::{Deref, DerefMut, Index, IndexMut};

pub trait Primitive: Copy + Debug + PartialOrd + Default + Send + Sync + 'static {
    const DEFAULT_MIN_VALUE: Self;
    const DEFAULT_MAX_VALUE: Self;
    /// the luma of three channels, as the image crate computes it
    fn luma(c: [Self; 3]) -> Self;
}
impl Primitive for u8 {
    const DEFAULT_MIN_VALUE: u8 = 0;
    const DEFAULT_MAX_VALUE: u8 = u8::MAX;
    fn luma(c: [u8; 3]) -> u8 {
        ((2126 * c[0] as u32 + 7152 * c[1] as u32 + 722 * c[2] as u32) / 10000) as u8
    }
}
impl Primitive for u16 {
    const DEFAULT_MIN_VALUE: u16 = 0;
    const DEFAULT_MAX_VALUE: u16 = u16::MAX;
    fn luma(c: [u16; 3]) -> u16 {
        ((2126 * c[0] as u32 + 7152 * c[1] as u32 + 722 * c[2] as u32) / 10000) as u16
    }
}
impl Primitive for f32 {
    const DEFAULT_MIN_VALUE: f32 = 0.0;
    const DEFAULT_MAX_VALUE: f32 = 1.0;
    fn luma(c: [f32; 3]) -> f32 {
        ((2126. * c[0] as f64 + 7152. * c[1] as f64 + 722. * c[2] as f64) / 10000.) as f32
    }
}
impl Primitive for f64 {
    const DEFAULT_MIN_VALUE: f64 = 0.0;
    const DEFAULT_MAX_VALUE: f64 = 1.0;
    fn luma(c: [f64; 3]) -> f64 {
        (2126. * c[0] + 7152. * c[1] + 722. * c[2]) / 10000.
    }
}

pub trait Pixel: Copy + Clone + Debug {
    type Subpixel: Primitive;
    const CHANNEL_COUNT: u8;
    fn channels(&self) -> &[Self::Subpixel];
    fn channels_mut(&mut self) -> &mut [Self::Subpixel];
    fn from_slice_copy(s: &[Self::Subpixel]) -> Self;
    fn from_slice(s: &[Self::Subpixel]) -> &Self;
    fn from_slice_mut(s: &mut [Self::Subpixel]) -> &mut Self;
    fn to_luma(&self) -> Luma<Self::Subpixel>;
    fn to_rgb(&self) -> Rgb<Self::Subpixel>;
}
macro_rules! pixel {
    ($name:ident, $n:literal, |$c:ident| $luma:expr, |$d:ident| $rgb:expr) => {
        #[derive(Copy, Clone, Debug, PartialEq, Eq, Hash)]
        #[repr(transparent)]
        pub struct $name<T>(pub [T; $n]);
        impl<T: Primitive> Pixel for $name<T> {
            type Subpixel = T;
            const CHANNEL_COUNT: u8 = $n;
            fn channels(&self) -> &[T] {
                &self.0
            }
            fn channels_mut(&mut self) -> &mut [T] {
                &mut self.0
            }
            fn from_slice_copy(s: &[T]) -> Self {
                $name(s[..$n].try_into().unwrap())
            }
            fn from_slice(s: &[T]) -> &Self {
                assert_eq!(s.len(), $n);
                // SAFETY: repr(transparent) over an array of that many elements
                unsafe { &*(s.as_ptr() as *const Self) }
            }
            fn from_slice_mut(s: &mut [T]) -> &mut Self {
                assert_eq!(s.len(), $n);
                // SAFETY: as above
                unsafe { &mut *(s.as_mut_ptr() as *mut Self) }
            }
            fn to_luma(&self) -> Luma<T> {
                let $c = self.0;
                Luma([$luma])
            }
            fn to_rgb(&self) -> Rgb<T> {
                let $d = self.0;
                Rgb($rgb)
            }
        }
        impl<T> Index<usize> for $name<T> {
            type Output = T;
            fn index(&self, i: usize) -> &T {
                &self.0[i]
            }
        }
        impl<T> IndexMut<usize> for $name<T> {
            fn index_mut(&mut self, i: usize) -> &mut T {
                &mut self.0[i]
            }
        }
        impl<T> From<[T; $n]> for $name<T> {
            fn from(a: [T; $n]) -> Self {
                $name(a)
            }
        }
    };
}
pixel!(Luma, 1, |c| c[0], |c| [c[0]; 3]);
pixel!(LumaA, 2, |c| c[0], |c| [c[0]; 3]);
pixel!(Rgb, 3, |c| T::luma(c), |c| c);
pixel!(Rgba, 4, |c| T::luma([c[0], c[1], c[2]]), |c| [c[0], c[1], c[2]]);

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct ImageBuffer<P: Pixel, C> {
    width: u32,
    height: u32,
    data: C,
    _p: std::marker::PhantomData<P>,
}
pub type GrayImage = ImageBuffer<Luma<u8>, Vec<u8>>;
pub type RgbImage = ImageBuffer<Rgb<u8>, Vec<u8>>;

impl<P: Pixel, C: Deref<Target = [P::Subpixel]>> ImageBuffer<P, C> {
    pub fn from_raw(width: u32, height: u32, data: C) -> Option<Self> {
        let need = (width as usize).checked_mul(height as usize)?.checked_mul(P::CHANNEL_COUNT as usize)?;
        (need <= data.len()).then_some(ImageBuffer { width, height, data, _p: Default::default() })
    }
    pub fn into_raw(self) -> C {
        self.data
    }
    pub fn as_raw(&self) -> &C {
        &self.data
    }
    pub fn dimensions(&self) -> (u32, u32) {
        (self.width, self.height)
    }
    pub fn width(&self) -> u32 {
        self.width
    }
    pub fn height(&self) -> u32 {
        self.height
    }
    fn idx(&self, x: u32, y: u32) -> Option<usize> {
        (x < self.width && y < self.height)
            .then(|| (y as usize * self.width as usize + x as usize) * P::CHANNEL_COUNT as usize)
    }
    pub fn get_pixel(&self, x: u32, y: u32) -> &P {
        match self.idx(x, y) {
            None => panic!("Image index {:?} out of bounds {:?}", (x, y), (self.width, self.height)),
            Some(i) => P::from_slice(&self.data[i..i + P::CHANNEL_COUNT as usize]),
        }
    }
    pub fn get_pixel_checked(&self, x: u32, y: u32) -> Option<&P> {
        self.idx(x, y).map(|i| P::from_slice(&self.data[i..i + P::CHANNEL_COUNT as usize]))
    }
    fn used(&self) -> usize {
        self.width as usize * self.height as usize * P::CHANNEL_COUNT as usize
    }
    pub fn pixels(&self) -> impl DoubleEndedIterator<Item = &P> + ExactSizeIterator + '_ {
        self.data[..self.used()].chunks_exact(P::CHANNEL_COUNT as usize).map(P::from_slice)
    }
    pub fn rows(&self) -> impl Iterator<Item = std::vec::IntoIter<&P>> + '_ {
        let w = (self.width as usize * P::CHANNEL_COUNT as usize).max(1);
        let n = P::CHANNEL_COUNT as usize;
        self.data[..self.used()]
            .chunks_exact(w)
            .map(move |r| r.chunks_exact(n).map(P::from_slice).collect::<Vec<_>>().into_iter())
    }
    pub fn enumerate_pixels(&self) -> impl Iterator<Item = (u32, u32, &P)> + '_ {
        let w = self.width.max(1);
        self.pixels().enumerate().map(move |(i, p)| ((i as u32) % w, (i as u32) / w, p))
    }
}
impl<P: Pixel, C: Deref<Target = [P::Subpixel]> + DerefMut> ImageBuffer<P, C> {
    pub fn get_pixel_mut(&mut self, x: u32, y: u32) -> &mut P {
        match self.idx(x, y) {
            None => panic!("Image index {:?} out of bounds {:?}", (x, y), (self.width, self.height)),
            Some(i) => P::from_slice_mut(&mut self.data[i..i + P::CHANNEL_COUNT as usize]),
        }
    }
    pub fn put_pixel(&mut self, x: u32, y: u32, p: P) {
        *self.get_pixel_mut(x, y) = p
    }
    pub fn pixels_mut(&mut self) -> impl DoubleEndedIterator<Item = &mut P> + ExactSizeIterator + '_ {
        let n = self.used();
        self.data[..n].chunks_exact_mut(P::CHANNEL_COUNT as usize).map(P::from_slice_mut)
    }
    pub fn enumerate_pixels_mut(&mut self) -> impl Iterator<Item = (u32, u32, &mut P)> + '_ {
        let w = self.width.max(1);
        self.pixels_mut().enumerate().map(move |(i, p)| ((i as u32) % w, (i as u32) / w, p))
    }
}
impl<P: Pixel> ImageBuffer<P, Vec<P::Subpixel>> {
    pub fn new(width: u32, height: u32) -> Self {
        let n = width as usize * height as usize * P::CHANNEL_COUNT as usize;
        ImageBuffer { width, height, data: vec![Default::default(); n], _p: Default::default() }
    }
    pub fn from_pixel(width: u32, height: u32, p: P) -> Self {
        Self::from_fn(width, height, |_, _| p)
    }
    pub fn from_fn(width: u32, height: u32, mut f: impl FnMut(u32, u32) -> P) -> Self {
        let mut b = Self::new(width, height);
        for y in 0..height {
            for x in 0..width {
                b.put_pixel(x, y, f(x, y));
            }
        }
        b
    }
    pub fn from_vec(width: u32, height: u32, v: Vec<P::Subpixel>) -> Option<Self> {
        Self::from_raw(width, height, v)
    }
    pub fn into_vec(self) -> Vec<P::Subpixel> {
        self.data
    }
}
impl<P: Pixel, C: Deref<Target = [P::Subpixel]>> Deref for ImageBuffer<P, C> {
    type Target = [P::Subpixel];
    fn deref(&self) -> &[P::Subpixel] {
        &self.data
    }
}
impl<P: Pixel, C: Deref<Target = [P::Subpixel]> + DerefMut> DerefMut for ImageBuffer<P, C> {
    fn deref_mut(&mut self) -> &mut [P::Subpixel] {
        &mut self.data
    }
}
impl<P: Pixel, C: Deref<Target = [P::Subpixel]>> Index<(u32, u32)> for ImageBuffer<P, C> {
    type Output = P;
    fn index(&self, (x, y): (u32, u32)) -> &P {
        self.get_pixel(x, y)
    }
}
impl<P: Pixel, C: Deref<Target = [P::Subpixel]> + DerefMut> IndexMut<(u32, u32)> for ImageBuffer<P, C> {
    fn index_mut(&mut self, (x, y): (u32, u32)) -> &mut P {
        self.get_pixel_mut(x, y)
    }
}
pub trait GenericImageView {
    type Pixel: Pixel;
    fn dimensions(&self) -> (u32, u32);
    fn get_pixel(&self, x: u32, y: u32) -> Self::Pixel;
    /// # Safety
    /// The coordinates must lie in the image (here checked all the same: a monitor's view of it).
    unsafe fn unsafe_get_pixel(&self, x: u32, y: u32) -> Self::Pixel {
        self.get_pixel(x, y)
    }
}
impl<P: Pixel, C: Deref<Target = [P::Subpixel]>> GenericImageView for ImageBuffer<P, C> {
    type Pixel = P;
    fn dimensions(&self) -> (u32, u32) {
        (self.width, self.height)
    }
    fn get_pixel(&self, x: u32, y: u32) -> P {
        *ImageBuffer::get_pixel(self, x, y)
    }
}

type Buf<P> = ImageBuffer<P, Vec<<P as Pixel>::Subpixel>>;
#[derive(Clone, Debug, PartialEq)]
#[non_exhaustive]
pub enum DynamicImage {
    ImageLuma8(Buf<Luma<u8>>),
    ImageLumaA8(Buf<LumaA<u8>>),
    ImageRgb8(Buf<Rgb<u8>>),
    ImageRgba8(Buf<Rgba<u8>>),
    ImageLuma16(Buf<Luma<u16>>),
    ImageLumaA16(Buf<LumaA<u16>>),
    ImageRgb16(Buf<Rgb<u16>>),
    ImageRgba16(Buf<Rgba<u16>>),
    ImageRgb32F(Buf<Rgb<f32>>),
    ImageRgba32F(Buf<Rgba<f32>>),
}
fn conv<P: Pixel, Q: Pixel>(b: &Buf<P>, f: impl Fn(&P) -> Q) -> Buf<Q> {
    ImageBuffer::from_fn(b.width, b.height, |x, y| f(b.get_pixel(x, y)))
}
macro_rules! each {
    ($s:expr, $b:ident => $e:expr) => {
        match $s {
            DynamicImage::ImageLuma8($b) => $e,
            DynamicImage::ImageLumaA8($b) => $e,
            DynamicImage::ImageRgb8($b) => $e,
            DynamicImage::ImageRgba8($b) => $e,
            DynamicImage::ImageLuma16($b) => $e,
            DynamicImage::ImageLumaA16($b) => $e,
            DynamicImage::ImageRgb16($b) => $e,
            DynamicImage::ImageRgba16($b) => $e,
            DynamicImage::ImageRgb32F($b) => $e,
            DynamicImage::ImageRgba32F($b) => $e,
        }
    };
}
impl DynamicImage {
    pub fn width(&self) -> u32 {
        each!(self, b => b.width)
    }
    pub fn height(&self) -> u32 {
        each!(self, b => b.height)
    }
    pub fn to_rgb8(&self) -> RgbImage {
        fn to8(x: f64, max: f64) -> u8 {
            (x.clamp(0.0, max) / max * 255.0).round() as u8
        }
        use DynamicImage::*;
        match self {
            ImageRgb8(b) => b.clone(),
            ImageLuma8(b) => conv(b, |p| p.to_rgb()),
            ImageLumaA8(b) => conv(b, |p| p.to_rgb()),
            ImageRgba8(b) => conv(b, |p| p.to_rgb()),
            ImageLuma16(b) => conv(b, |p| Rgb(p.to_rgb().0.map(|x| to8(x as f64, 65535.0)))),
            ImageLumaA16(b) => conv(b, |p| Rgb(p.to_rgb().0.map(|x| to8(x as f64, 65535.0)))),
            ImageRgb16(b) => conv(b, |p| Rgb(p.0.map(|x| to8(x as f64, 65535.0)))),
            ImageRgba16(b) => conv(b, |p| Rgb(p.to_rgb().0.map(|x| to8(x as f64, 65535.0)))),
            ImageRgb32F(b) => conv(b, |p| Rgb(p.0.map(|x| to8(x as f64, 1.0)))),
            ImageRgba32F(b) => conv(b, |p| Rgb(p.to_rgb().0.map(|x| to8(x as f64, 1.0)))),
        }
    }
    pub fn grayscale(&self) -> DynamicImage {
        use DynamicImage::*;
        match self {
            ImageLuma8(b) => ImageLuma8(b.clone()),
            ImageLumaA8(b) => ImageLumaA8(b.clone()),
            ImageLuma16(b) => ImageLuma16(b.clone()),
            ImageLumaA16(b) => ImageLumaA16(b.clone()),
            ImageRgb8(b) => ImageLuma8(conv(b, |p| p.to_luma())),
            ImageRgba8(b) => ImageLumaA8(conv(b, |p| LumaA([p.to_luma()[0], p[3]]))),
            ImageRgb16(b) => ImageLuma16(conv(b, |p| p.to_luma())),
            ImageRgba16(b) => ImageLumaA16(conv(b, |p| LumaA([p.to_luma()[0], p[3]]))),
            ImageRgb32F(b) => ImageRgb32F(conv(b, |p| Rgb([p.to_luma()[0]; 3]))),
            ImageRgba32F(b) => ImageRgba32F(conv(b, |p| {
                let l = p.to_luma()[0];
                Rgba([l, l, l, p[3]])
            })),
        }
    }
}
#[derive(Debug)]
pub enum ImageError {
    IoError(std::io::Error),
    Unsupported(String),
}
impl std::fmt::Display for ImageError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{self:?}")
    }
}
impl std::error::Error for ImageError {}
pub type ImageResult<T> = Result<T, ImageError>;

pub fn open(path: impl AsRef<std::path::Path>) -> ImageResult<DynamicImage> {
    let d = std::fs::read(path).map_err(ImageError::IoError)?;
    pnm(&d).ok_or_else(|| ImageError::Unsupported("only binary PGM/PPM".into()))
}
fn pnm(d: &[u8]) -> Option<DynamicImage> {
    let mut pos = 0;
    let mut tok = || -> Option<String> {
        while d.get(pos)?.is_ascii_whitespace() {
            pos += 1;
        }
        let s = pos;
        while !d.get(pos)?.is_ascii_whitespace() {
            pos += 1;
        }
        Some(String::from_utf8_lossy(&d[s..pos]).into_owned())
    };
    let magic = tok()?;
    let (w, h, _max): (u32, u32, u32) = (tok()?.parse().ok()?, tok()?.parse().ok()?, tok()?.parse().ok()?);
    let rest = d[pos + 1..].to_vec();
    match magic.as_str() {
        "P5" => ImageBuffer::from_raw(w, h, rest).map(DynamicImage::ImageLuma8),
        "P6" => ImageBuffer::from_raw(w, h, rest).map(DynamicImage::ImageRgb8),
        _ => None,
    }
}
