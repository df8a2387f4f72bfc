macro_rules! reason_code {
    ($(#[$m:meta])* $name:ident, $err:expr, { $($var:ident = $val:expr),+ $(,)? }) => {
        $(#[$m])*
        #[repr(u8)]
        #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
        pub enum $name { $($var = $val),+ }
        impl $name {
            pub fn from_u8(value: u8) -> Option<Self> {
                match value { $($val => Some($name::$var),)+ _ => None }
            }
        }
        impl From<$name> for u8 { fn from(v: $name) -> u8 { v as u8 } }
        impl TryFrom<u8> for $name {
            type Error = crate::v5::ErrorV5;
            fn try_from(value: u8) -> Result<Self, Self::Error> {
                Self::from_u8(value).ok_or_else(|| ($err)(value))
            }
        }
    };
}
