//! Referendum tracks, as in pallet-referenda.
use crate::codec::{Decode, Encode};
use crate::scale_info::TypeInfo;
use crate::sp_runtime::{FixedI64, Perbill};

#[derive(Clone, Debug, PartialEq, Eq, Encode, Decode, TypeInfo)]
pub enum Curve {
    LinearDecreasing { length: Perbill, floor: Perbill, ceil: Perbill },
    SteppedDecreasing { begin: Perbill, end: Perbill, step: Perbill, period: Perbill },
    Reciprocal { factor: i64, x_offset: i64, y_offset: i64 },
}
impl Curve {
    pub const fn make_linear(length: u128, period: u128, floor: FixedI64, ceil: FixedI64) -> Curve {
        let length = FixedI64::from_rational(length, period).into_perbill();
        Curve::LinearDecreasing { length, floor: floor.into_perbill(), ceil: ceil.into_perbill() }
    }
}
#[derive(Clone, Debug, PartialEq, Eq, Encode, Decode, TypeInfo)]
pub struct TrackInfo<Balance, Moment> {
    pub name: [u8; 25],
    pub max_deciding: u32,
    pub decision_deposit: Balance,
    pub prepare_period: Moment,
    pub decision_period: Moment,
    pub confirm_period: Moment,
    pub min_enactment_period: Moment,
    pub min_approval: Curve,
    pub min_support: Curve,
}
pub trait TracksInfo<Balance, Moment> {
    type Id;
    type RuntimeOrigin;
    fn track_for(origin: &Self::RuntimeOrigin) -> Result<Self::Id, ()>;
    fn info(id: Self::Id) -> Option<TrackInfo<Balance, Moment>>;
}
