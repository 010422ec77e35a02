pub use core::{any, cell, clone, cmp, convert, default, fmt, hash, iter, marker, mem, num, ops, ptr, result, slice, str};
pub use std::{borrow, boxed, rc, string, sync};

pub mod vec {
    pub use crate::collections::{IntoIter, Vec};
}
pub mod collections {
    pub mod btree_map {
        pub use crate::collections::{BTreeMap, Entry};
    }
    pub use crate::collections::BTreeMap;
}
pub mod prelude {
    pub use crate::collections::Vec;
    pub use core::clone::Clone;
    pub use core::cmp::{Eq, PartialEq, Reverse};
    pub use std::borrow::ToOwned;
    pub use std::boxed::Box;
}
/// `vec!` for the fixed-capacity vector.
#[macro_export]
macro_rules! sp_vec {
    () => { $crate::collections::Vec::new() };
    ($($x:expr),+ $(,)?) => {{ let mut v = $crate::collections::Vec::new(); $(v.push($x);)+ v }};
}
pub use crate::sp_vec as vec;
