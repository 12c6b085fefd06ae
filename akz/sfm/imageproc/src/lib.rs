//! The part of imageproc (0.23) that cv-sfm uses.
pub mod definitions {
    pub type Image<P> = image::ImageBuffer<P, Vec<<P as image::Pixel>::Subpixel>>;
    pub trait Clamp<T> {
        fn clamp(x: T) -> Self;
    }
    macro_rules! clamp {
        ($($t:ty),*) => {$(
            impl Clamp<f32> for $t {
                fn clamp(x: f32) -> $t {
                    if x < <$t>::MAX as f32 {
                        if x > <$t>::MIN as f32 {
                            x as $t
                        } else {
                            <$t>::MIN
                        }
                    } else {
                        <$t>::MAX
                    }
                }
            }
        )*};
    }
    clamp!(u8, u16);
    impl Clamp<f32> for f32 {
        fn clamp(x: f32) -> f32 {
            x
        }
    }
}
pub mod math {
    pub fn cast<T: conv::ValueInto<U>, U>(x: T) -> U {
        x.value_into_exact()
    }
}
