//! Members and their ranks.
use crate::runtime::*;
use crate::world::*;
use pallet_communities::Event as Ev;
use shim::memberships::GenericRank;

/// Memberships of people, or waiting in the pools of the two communities.
fn any_pool(a: Cid, b: Cid) {
    any_members(a, b);
    let mut i = 0;
    while i < MEMBERS {
        if vk::any_bool() {
            let g = unsafe { MEMBER[i].group };
            unsafe { MEMBER[i] = Member { owner: account_of(g), group: POOL, rank: 0 } };
        }
        i += 1;
    }
}
fn in_pool(m: &Member, c: Cid) -> bool {
    m.owner == account_of(c) && m.group == POOL
}

vk::harnesses! {
    #[kani::unwind(6)]
    fn add() { with_storage(|| {
        let (a, b) = two();
        any_pool(a.id, b.id);
        unsafe { MEMBERS_REFUSE = vk::any_bool() };
        let before = unsafe { MEMBER };
        let (o, who) = (any_caller(), any_person());
        let to = stands_for(&o, &a, &b);
        let mut available = false;
        let mut i = 0;
        while i < MEMBERS {
            available |= matches!(to, Some(c) if in_pool(&before[i], c));
            i += 1;
        }
        let r = Communities::add_member(Origin(o), who);
        vk::check!(r.is_ok() == (available && !unsafe { MEMBERS_REFUSE }), "a community enrols members as long as it has memberships");
        let mut changed = 0;
        let mut i = 0;
        while i < MEMBERS {
            if !kept(i, &before) {
                changed += 1;
                let m = unsafe { MEMBER[i] };
                vk::check!(matches!(to, Some(c) if in_pool(&before[i], c) && m.group == c) && m.owner == who && m.rank == 0,
                    "the new member gets a membership of the community's pool");
                vk::check!(reported(Ev::MemberAdded { who, membership_id: i as u8 }), "one event tells about the member");
            }
            i += 1;
        }
        vk::check!(changed == if r.is_ok() { 1 } else { 0 }, "exactly one membership is given");
        vk::check!(r.is_ok() || silent(), "no event on failure");
        vk::cover!(r.is_ok(), "added");
        vk::cover!(to.is_some() && !available, "at capacity");
    }) }
    #[kani::unwind(6)]
    fn remove() { with_storage(|| {
        let (a, b) = two();
        any_pool(a.id, b.id);
        unsafe { MEMBERS_REFUSE = vk::any_bool() };
        let before = unsafe { MEMBER };
        let (o, who, m) = (any_caller(), any_person(), vk::any_below(MEMBERS as u8 + 1));
        let to = stands_for(&o, &a, &b);
        let theirs = (m as usize) < MEMBERS && before[m as usize].owner == who && Some(before[m as usize].group) == to;
        let r = Communities::remove_member(Origin(o), who, m);
        vk::check!(r.is_ok() == (theirs && !unsafe { MEMBERS_REFUSE }), "a community removes its own members by their membership");
        let mut i = 0;
        while i < MEMBERS {
            if r.is_ok() && i == m as usize {
                vk::check!(matches!(to, Some(c) if in_pool(unsafe { &MEMBER[i] }, c)), "the membership is available again");
            } else {
                vk::check!(kept(i, &before), "no other membership changes");
            }
            i += 1;
        }
        if r.is_ok() {
            vk::check!(reported(Ev::MemberRemoved { who, membership_id: m }), "one event tells about it");
        } else {
            vk::check!(silent(), "no event on failure");
        }
        vk::cover!(r.is_ok(), "removed");
        vk::cover!(to.is_some() && !theirs, "not theirs");
    }) }
    #[kani::unwind(6)]
    fn promote() { with_storage(|| rank(true)) }
    #[kani::unwind(6)]
    fn demote() { with_storage(|| rank(false)) }
}
fn rank(up: bool) {
    let (a, b) = two();
    any_pool(a.id, b.id);
    unsafe { MEMBERS_REFUSE = vk::any_bool() };
    let before = unsafe { MEMBER };
    let (o, m) = (any_caller(), vk::any_below(MEMBERS as u8 + 1));
    let to = stands_for(&o, &a, &b);
    let own = (m as usize) < MEMBERS && Some(before[m as usize].group) == to;
    let r = if up { Communities::promote(Origin(o), m) } else { Communities::demote(Origin(o), m) };
    vk::check!(r.is_ok() == (own && !unsafe { MEMBERS_REFUSE }), "a community ranks its own members only");
    let mut i = 0;
    while i < MEMBERS {
        let mut expect = before[i];
        if r.is_ok() && i == m as usize {
            if up && expect.rank < 255 {
                expect.rank += 1;
            }
            if !up && expect.rank > 0 {
                expect.rank -= 1;
            }
            vk::check!(
                reported(Ev::MembershipRankUpdated { membership_id: m, rank: GenericRank(expect.rank) }),
                "one event tells the new rank"
            );
        }
        vk::check!(unsafe { MEMBER[i] } == expect, "the rank changes by one step, nothing else changes");
        i += 1;
    }
    vk::check!(r.is_ok() || silent(), "no event on failure");
    vk::cover!(r.is_ok(), "ranked");
    vk::cover!(to.is_some() && !own, "of another community");
}
