//! What a tally says about a poll.
use crate::runtime::*;
use crate::world::*;
use shim::frame_support::traits::VoteTally;
use shim::sp_runtime::{Perbill, ABSTRACT_FRACTIONS};

fn any_count() -> Count {
    Count { ayes: vk::any_u32(), nays: vk::any_u32(), bare: vk::any_u32() }
}

vk::harnesses! {
    #[kani::unwind(6)]
    fn fresh() {
        let t = <pallet_communities::Tally<Test> as VoteTally<u32, Cid>>::new(vk::any_u16());
        vk::check!(count(&t) == (Count { ayes: 0, nays: 0, bare: 0 }), "a new tally has no votes");
        vk::check!(t.approval(vk::any_u16()) == Perbill::from_parts(0), "without votes nobody approves");
        vk::cover!(true, "reached");
    }
    #[kani::unwind(6)]
    fn approval() {
        unsafe { ABSTRACT_FRACTIONS = true }
        let c = any_count();
        let t = tally(c);
        vk::check!(t.ayes(vk::any_u16()) == c.ayes, "ayes are those counted");
        let all = c.ayes as u64 + c.nays as u64;
        let expect = if all == 0 { Perbill::zero() } else { Perbill::from_rational(c.ayes as u64, all) };
        vk::check!(t.approval(vk::any_u16()) == expect, "approval is the part of ayes in all votes");
        vk::cover!(c.ayes > 1 << 31 && c.nays > 1 << 31, "many votes");
        vk::cover!(all == 0, "no votes");
    }
    /// Support is relative to everyone who could support, by the decision method.
    #[kani::unwind(6)]
    fn support() { with_storage(|| {
        unsafe { ABSTRACT_FRACTIONS = true }
        let (id, other) = (vk::any_u16(), vk::any_u16());
        vk::assume(id != other);
        let m = any_method();
        CommunityDecisionMethod::<Test>::insert(id, m.clone());
        CommunityDecisionMethod::<Test>::insert(other, any_method());
        let c = any_count();
        unsafe {
            MEMBERS_TOTAL = vk::any_u32();
            RANKS_TOTAL = vk::any_u32();
            ISSUANCE = vk::any_u64();
            ASSET_ISSUANCE = [vk::any_u64(), vk::any_u64()];
        }
        let whole = unsafe {
            match m {
                Method::Membership => MEMBERS_TOTAL as u64,
                Method::Rank => RANKS_TOTAL as u64,
                Method::NativeToken => ISSUANCE,
                Method::CommunityAsset(a, _) => ASSET_ISSUANCE[a as usize],
            }
        };
        let whole = if whole > u32::MAX as u64 { u32::MAX } else { whole as u32 };
        vk::assume(whole > 0);
        let p = tally(c).support(id);
        vk::check!(p == Perbill::from_rational(c.bare, whole), "support is the part of bare ayes in all there could be");
        vk::cover!(m == Method::Rank, "ranks");
        vk::cover!(m == Method::NativeToken, "token");
    }) }
}
