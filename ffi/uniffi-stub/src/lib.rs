//! What the wrapper's source needs of `uniffi` to compile as ordinary Rust: the conversion trait its
//! scaffolding would declare. The generated foreign-language glue itself is not part of it.
pub type Error = Box<dyn std::error::Error + Send + Sync>;
pub type Result<T> = std::result::Result<T, Error>;

#[macro_export]
macro_rules! include_scaffolding {
    ($name:literal) => {
        pub trait UniffiCustomTypeConverter {
            type Builtin;
            fn into_custom(val: Self::Builtin) -> uniffi::Result<Self>
            where
                Self: Sized;
            fn from_custom(obj: Self) -> Self::Builtin;
        }
    };
}
