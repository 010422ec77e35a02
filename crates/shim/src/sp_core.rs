pub use crate::sp_io::hashing;
pub use crate::sp_runtime::traits::{
    ConstBool, ConstU128, ConstU16, ConstU32, ConstU64, ConstU8, Get, TypedGet,
};
pub use crate::sp_runtime::{BoundedVec, H256};
