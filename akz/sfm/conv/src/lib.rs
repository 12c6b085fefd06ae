//! The part of conv (0.3) that cv-sfm uses.
pub trait ValueInto<T> {
    fn value_into_exact(self) -> T;
}
macro_rules! into {
    ($($a:ty => $b:ty),*) => {$(
        impl ValueInto<$b> for $a {
            fn value_into_exact(self) -> $b {
                self as $b
            }
        }
    )*};
}
into!(u8 => f32, u16 => f32, f32 => f32, u8 => f64, u16 => f64, f32 => f64, f64 => f64);
