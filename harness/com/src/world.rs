//! Two communities, their origins and members, as arbitrary as the harnesses need them.
use crate::runtime::*;
use pallet_communities::origin::Subset;
use pallet_communities::{CommunityInfo, CommunityState, Vote};
use shim::frame_system::RawOrigin;

pub use pallet_communities::pallet::{CommunityDecisionMethod, CommunityIdFor, CommunityVoteLocks, CommunityVotes, Info};

pub fn any_person() -> Acc {
    Acc(vk::any_below(PEOPLE as u8) as u32)
}
pub fn any_voice(id: Cid) -> Caller {
    let mut v = Voice::new(id);
    match vk::any_below(4) {
        0 => (),
        1 => v.with_subset(Subset::Member(vk::any_u8())),
        2 => v.with_subset(Subset::Members { count: vk::any_u32() }),
        _ => v.with_subset(Subset::AtLeastRank(shim::memberships::GenericRank(vk::any_u8()))),
    }
    Caller::Community(v)
}
/// Any origin there is.
pub fn any_caller() -> Caller {
    match vk::any_below(5) {
        0 => Caller::System(RawOrigin::Root),
        1 => Caller::System(RawOrigin::None),
        2 => Caller::System(RawOrigin::Signed(Acc(vk::any_u32()))),
        3 => any_voice(vk::any_u16()),
        _ => Caller::Other(vk::any_u8()),
    }
}
pub fn speaks(c: &Caller) -> Option<Cid> {
    match c {
        Caller::Community(v) => Some(v.id()),
        _ => None,
    }
}
pub fn nobody(c: &Caller) -> bool {
    matches!(c, Caller::System(RawOrigin::Root) | Caller::System(RawOrigin::None))
}

#[derive(Clone)]
pub struct Community {
    pub id: Cid,
    pub active: bool,
    pub admin: Caller,
}
pub fn info(active: bool) -> CommunityInfo {
    let mut i = CommunityInfo::default();
    if !active {
        i.state = CommunityState::Blocked;
    }
    i
}
pub fn place(c: &Community) {
    Info::<Test>::insert(c.id, info(c.active));
    CommunityIdFor::<Test>::insert(c.admin.clone(), c.id);
}
/// Two communities in any state with any admins.
pub fn two() -> (Community, Community) {
    let a = Community { id: vk::any_u16(), active: vk::any_bool(), admin: any_caller() };
    let b = Community { id: vk::any_u16(), active: vk::any_bool(), admin: any_caller() };
    vk::assume(a.id != b.id && a.admin != b.admin && a.id != POOL && b.id != POOL);
    place(&a);
    place(&b);
    (a, b)
}
/// A community that runs and answers to its own voice.
pub fn running() -> Cid {
    let id = vk::any_u16();
    vk::assume(id != POOL);
    Info::<Test>::insert(id, info(true));
    id
}
/// What the origin may act for: its own community, or the one it administers, if that is active.
pub fn stands_for(o: &Caller, a: &Community, b: &Community) -> Option<Cid> {
    if nobody(o) {
        return None;
    }
    let id = match speaks(o) {
        Some(id) => id,
        None if *o == a.admin => a.id,
        None if *o == b.admin => b.id,
        None => return None,
    };
    if (id == a.id && a.active) || (id == b.id && b.active) {
        Some(id)
    } else {
        None
    }
}
/// The community is on record as it was.
pub fn untouched(c: &Community) -> bool {
    let same = match Info::<Test>::get(c.id) {
        Some(i) => (i.state == CommunityState::Active) == c.active,
        None => false,
    };
    same && CommunityIdFor::<Test>::get(c.admin.clone()) == Some(c.id)
}
pub fn any_members(a: Cid, b: Cid) {
    let mut i = 0;
    while i < MEMBERS {
        let m = Member {
            owner: any_person(),
            group: if vk::any_bool() { a } else { b },
            rank: vk::any_u8(),
        };
        unsafe { MEMBER[i] = m };
        i += 1;
    }
}
/// A membership as it was.
pub fn kept(i: usize, before: &[Member; MEMBERS]) -> bool {
    unsafe { MEMBER[i] == before[i] }
}
pub fn any_method() -> Method {
    match vk::any_below(4) {
        0 => Method::Membership,
        1 => Method::NativeToken,
        2 => Method::CommunityAsset(vk::any_below(ASSETS as u8), vk::any_u64()),
        _ => Method::Rank,
    }
}
pub fn any_vote() -> AVote {
    let say = vk::any_bool();
    match vk::any_below(3) {
        0 => Vote::AssetBalance(say, vk::any_below(ASSETS as u8), vk::any_u64()),
        1 => Vote::NativeBalance(say, vk::any_u64()),
        _ => Vote::Standard(say),
    }
}
/// One event was reported, and it was this one.
pub fn reported(e: pallet_communities::Event<Test>) -> bool {
    unsafe { EVENTS == 1 && LAST_EVENT == Some(Event::Communities(e)) }
}
pub fn silent() -> bool {
    unsafe { EVENTS == 0 }
}
