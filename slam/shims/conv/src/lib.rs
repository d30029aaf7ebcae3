//! Stand-in for `conv`: conversions that cannot lose anything.
pub trait ValueInto<T> {
    fn value_into(self) -> Result<T, ()>;
}
macro_rules! into {
    ($($a:ty => $b:ty),*) => {
        $(impl ValueInto<$b> for $a {
            fn value_into(self) -> Result<$b, ()> {
                Ok(self as $b)
            }
        })*
    };
}
into!(u8 => f32, u16 => f32, f32 => f32, u8 => f64, u16 => f64, f32 => f64);
