//! Names that only look like the types with a meaning for StructMeta.
//! Every one of them is the plain type it is given.
pub trait Same {
    type Me;
}
impl<T> Same for T {
    type Me = T;
}
pub type Option<T> = <T as Same>::Me;
pub type Vec<T> = <T as Same>::Me;
pub type NameValue<T> = <T as Same>::Me;
pub type NameArgs<T> = <T as Same>::Me;
pub type HashMap<K, T> = <(T, K) as Second>::Me;
#[allow(non_camel_case_types)]
pub type bool = crate::probe::PInt;
pub type Flag = crate::probe::PInt;
/// the plain type with lifetimes that only count for the compiler
pub type Tied<'a, 'b, T> = <(T, (&'a (), &'b ())) as Second>::Me;
pub trait Second {
    type Me;
}
impl<T, K> Second for (T, K) {
    type Me = T;
}
pub mod option {
    pub type Option<T, K> = <(T, K) as super::Second>::Me;
}
/// paths that only end like the real ones
pub mod std {
    pub mod option {
        pub type Option<T> = crate::look::Option<T>;
    }
    pub mod vec {
        pub type Vec<T> = crate::look::Option<T>;
    }
    pub mod collections {
        pub type HashMap<K, T> = crate::look::HashMap<K, T>;
    }
}
pub mod core {
    pub mod option {
        pub type Option<T> = crate::look::Option<T>;
    }
    pub mod primitive {
        #[allow(non_camel_case_types)]
        pub type bool = crate::probe::PInt;
    }
}
pub mod structmeta {
    pub type NameValue<T> = crate::look::Option<T>;
    pub type NameArgs<T> = crate::look::Option<T>;
    pub type Flag = crate::probe::PInt;
}
