//! Newtypes whose numeric traits come from the crate's macros. The macros' expansion in this crate is what the unit
//! newtypes.rs verifies; there the field type F is an arbitrary type, so what is proved holds for every field type.
pub mod checked {
    pub type F = i128;
    pub struct W { pub v: F }
    impl From<F> for W { fn from(v: F) -> W { W { v } } }
    prexel::impl_checked_num_traits_with_field_and_from_str!(W => v, F);
}
pub mod unchecked {
    pub type F = i128;
    pub struct W { pub v: F }
    impl From<F> for W { fn from(v: F) -> W { W { v } } }
    prexel::impl_unchecked_num_traits_with_field_and_from_str!(W => v, F);
}
pub mod plain {
    pub type F = i128;
    pub struct W { pub v: F }
    impl From<F> for W { fn from(v: F) -> W { W { v } } }
    prexel::impl_checked_num_traits_with_field!(W => v, F);
}
pub mod bare {
    pub type F = i128;
    pub struct W { pub v: F }
    impl From<F> for W { fn from(v: F) -> W { W { v } } }
    prexel::impl_unchecked_num_traits_with_field!(W => v, F);
}
