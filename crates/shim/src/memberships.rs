//! Group memberships, as in fc-traits-memberships.
use crate::codec::{Decode, Encode, MaxEncodedLen};
use crate::scale_info::TypeInfo;
use crate::sp_runtime::DispatchError;
use core::num::NonZeroU8;
use std::boxed::Box;

#[derive(Copy, Clone, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Encode, Decode, MaxEncodedLen, TypeInfo)]
pub struct GenericRank(pub u8);
impl GenericRank {
    pub const MIN: GenericRank = GenericRank(0);
    pub const MAX: GenericRank = GenericRank(u8::MAX);
    pub const ADMIN: GenericRank = GenericRank(u8::MAX);
    pub fn promote_by(self, n: NonZeroU8) -> Self {
        GenericRank(self.0.saturating_add(n.get()))
    }
    pub fn demote_by(self, n: NonZeroU8) -> Self {
        GenericRank(self.0.saturating_sub(n.get()))
    }
}
impl From<u8> for GenericRank {
    fn from(r: u8) -> Self {
        GenericRank(r)
    }
}
impl From<GenericRank> for u8 {
    fn from(r: GenericRank) -> u8 {
        r.0
    }
}
impl From<GenericRank> for u32 {
    fn from(r: GenericRank) -> u32 {
        r.0 as u32
    }
}

pub trait Inspect<AccountId> {
    type Group;
    type Membership;
    fn user_memberships(
        who: &AccountId,
        maybe_group: Option<Self::Group>,
    ) -> Box<dyn Iterator<Item = (Self::Group, Self::Membership)>>;
    fn is_member_of(group: &Self::Group, who: &AccountId) -> bool;
    fn check_membership(who: &AccountId, m: &Self::Membership) -> Option<Self::Group>;
    fn members_total(group: &Self::Group) -> u32;
}
pub trait Manager<AccountId, ImplConfig>: Inspect<AccountId> {
    fn assign(group: &Self::Group, m: &Self::Membership, who: &AccountId) -> Result<(), DispatchError>;
    fn release(group: &Self::Group, m: &Self::Membership) -> Result<(), DispatchError>;
}
pub trait Rank<AccountId, ImplConfig>: Inspect<AccountId> {
    fn rank_of(group: &Self::Group, m: &Self::Membership) -> Option<GenericRank>;
    fn set_rank(group: &Self::Group, m: &Self::Membership, rank: impl Into<GenericRank>) -> Result<(), DispatchError>;
    fn ranks_total(group: &Self::Group) -> u32;
}
