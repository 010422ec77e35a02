//! Creating communities and handing them over.
use crate::runtime::*;
use crate::world::*;
use pallet_communities::{CommunityState, Event as Ev};
use shim::frame_system::RawOrigin;

fn any_funds() -> [Coin; ACCOUNTS] {
    let mut i = 0;
    while i < ACCOUNTS {
        unsafe { NATIVE[i] = Coin { balance: vk::any_u64(), frozen: 0 } };
        vk::assume(unsafe { NATIVE[i].balance } < 1 << 60);
        i += 1;
    }
    unsafe { NATIVE }
}
fn founded(id: Cid, admin: &Caller) {
    vk::check!(
        matches!(Info::<Test>::get(id), Some(i) if i.state == CommunityState::Active),
        "a new community is active"
    );
    vk::check!(CommunityIdFor::<Test>::get(admin.clone()) == Some(id), "the given origin administers it");
    vk::check!(
        unsafe { PROVIDED[0] == Some(account_of(id)) && PROVIDED[1].is_none() },
        "the account of the community stays alive"
    );
    vk::check!(CommunityDecisionMethod::<Test>::get(id) == Method::Membership, "it decides by membership at first");
    vk::check!(
        reported(Ev::CommunityCreated { id, origin: admin.clone() }),
        "one event tells about the community"
    );
}

vk::harnesses! {
    #[kani::unwind(6)]
    fn paid() { with_storage(|| {
        let (a, b) = two();
        let before = any_funds();
        let who = any_person();
        let (admin, id) = (any_caller(), vk::any_u16());
        let free = id != a.id && id != b.id && admin != a.admin && admin != b.admin;
        let covered = before[who.0 as usize].balance > DEPOSIT;
        let r = Communities::create(signed(who), admin.clone(), id);
        vk::check!(r.is_ok() == (free && covered), "creation needs a free id, a free admin and the deposit");
        vk::check!(untouched(&a) && untouched(&b), "other communities stay as they were");
        let now = unsafe { NATIVE };
        let paid = if r.is_ok() { DEPOSIT } else { 0 };
        let mut i = 0;
        while i < ACCOUNTS {
            let mut expect = before[i].balance;
            if i == who.0 as usize { expect -= paid }
            if i == TREASURY.0 as usize { expect += paid }
            vk::check!(now[i].balance == expect, "exactly the deposit moves");
            i += 1;
        }
        if r.is_ok() {
            founded(id, &admin);
            vk::cover!(true, "created");
        } else {
            vk::check!(silent(), "no event without a community");
            vk::cover!(free, "too poor");
            vk::cover!(covered, "not free");
        }
    }) }
    #[kani::unwind(6)]
    fn by_root() { with_storage(|| {
        let (a, b) = two();
        let before = any_funds();
        let (admin, id) = (any_caller(), vk::any_u16());
        let free = id != a.id && id != b.id && admin != a.admin && admin != b.admin;
        let r = Communities::create(root(), admin.clone(), id);
        vk::check!(r.is_ok() == free, "creation needs a free id and a free admin");
        vk::check!(untouched(&a) && untouched(&b), "other communities stay as they were");
        vk::check!(unsafe { NATIVE == before }, "nobody pays for it");
        if r.is_ok() {
            founded(id, &admin);
            vk::cover!(true, "created");
        } else {
            vk::check!(silent(), "no event without a community");
            vk::cover!(id != a.id && id != b.id, "admin taken");
        }
    }) }
    #[kani::unwind(6)]
    fn by_others() { with_storage(|| {
        let o = any_caller();
        vk::assume(!matches!(o, Caller::System(RawOrigin::Root) | Caller::System(RawOrigin::Signed(_))));
        vk::check!(Communities::create(Origin(o), any_caller(), vk::any_u16()).is_err(), "only accounts and root create communities");
        vk::cover!(true, "reached");
    }) }

    #[kani::unwind(6)]
    fn handover() { with_storage(|| {
        let (a, b) = two();
        let (o, new) = (any_caller(), any_caller());
        let to = stands_for(&o, &a, &b);
        let allowed = (o == a.admin && to == Some(a.id)) || (o == b.admin && to == Some(b.id));
        let taken = (new == a.admin || new == b.admin) && new != o;
        let r = Communities::set_admin_origin(Origin(o.clone()), new.clone());
        vk::check!(r.is_ok() == (allowed && !taken), "the admin hands over to an origin that has no community");
        if r.is_ok() {
            let (mine, other) = if o == a.admin { (&a, &b) } else { (&b, &a) };
            vk::check!(CommunityIdFor::<Test>::get(new.clone()) == Some(mine.id), "the new admin administers the community");
            vk::check!(new == o || CommunityIdFor::<Test>::get(o.clone()).is_none(), "the old admin does not any more");
            vk::check!(untouched(other), "the other community stays as it was");
            vk::check!(matches!(Info::<Test>::get(mine.id), Some(i) if i.state == CommunityState::Active), "the community goes on");
            vk::check!(reported(Ev::AdminOriginSet { id: mine.id, origin: new.clone() }), "one event tells about it");
            vk::cover!(new != o, "handed over");
            vk::cover!(new == o, "kept");
        } else {
            vk::check!(silent(), "no event on failure");
            vk::cover!(allowed, "taken");
        }
    }) }
    #[kani::unwind(6)]
    fn method() { with_storage(|| {
        let (a, b) = two();
        let (before_a, before_b) = (any_method(), any_method());
        CommunityDecisionMethod::<Test>::insert(a.id, before_a.clone());
        CommunityDecisionMethod::<Test>::insert(b.id, before_b.clone());
        unsafe { CREATE_FAILS = vk::any_bool() };
        let o = any_caller();
        let id = if vk::any_bool() { a.id } else { b.id };
        let to = stands_for(&o, &a, &b);
        let m = any_method();
        let r = Communities::set_decision_method(Origin(o), id, m.clone());
        vk::check!(r.is_ok() == (to == Some(id)), "a community chooses its own decision method only");
        let now = if r.is_ok() { Some(id) } else { None };
        let expect_a = if now == Some(a.id) { m.clone() } else { before_a };
        let expect_b = if now == Some(b.id) { m.clone() } else { before_b };
        vk::check!(
            CommunityDecisionMethod::<Test>::get(a.id) == expect_a && CommunityDecisionMethod::<Test>::get(b.id) == expect_b,
            "exactly the method of that community changes"
        );
        let asset = match &m {
            Method::CommunityAsset(id, min) if r.is_ok() => Some((*id, PALLET_ACCOUNT, false, *min)),
            _ => None,
        };
        vk::check!(unsafe { CREATED == asset }, "an asset to vote with is created for the pallet");
        if r.is_ok() {
            vk::check!(reported(Ev::DecisionMethodSet { id }), "one event tells about it");
            vk::cover!(asset.is_some(), "asset");
        } else {
            vk::check!(silent(), "no event on failure");
            vk::cover!(to.is_some(), "another community");
        }
    }) }
    /// Changing a method of a community that does not exist.
    #[kani::unwind(6)]
    fn unknown_method() { with_storage(|| {
        let (a, b) = two();
        let id = vk::any_u16();
        vk::assume(id != a.id && id != b.id);
        vk::check!(Communities::set_decision_method(Origin(any_caller()), id, any_method()).is_err(), "unknown communities have no method");
        vk::cover!(true, "reached");
    }) }
}
