//! Registering communities with all that belongs to them, and minting memberships.
use crate::runtime::*;
use crate::world::*;
use pallet_communities::CommunityState;
use pallet_communities_manager::Event as Ev;
use shim::collections::{BoundedVec, Vec};
use shim::frame_support::traits::ConstU32;
use shim::frame_system::RawOrigin;
use shim::nfts::{CollectionConfig, CollectionSettings, MintSettings};
use shim::referenda::{Curve, TrackInfo};
use shim::sp_runtime::Perbill;

type Name = BoundedVec<u8, ConstU32<25>>;
fn any_ascii<const N: usize>() -> (Name, [u8; 25]) {
    let (mut v, mut padded) = (Vec::new(), [0u8; 25]);
    let mut i = 0;
    while i < N {
        let c = vk::any_below(128);
        v.push(c);
        padded[i] = c;
        i += 1;
    }
    match Name::try_from(v) {
        Ok(n) => (n, padded),
        Err(_) => shim::out_of_bounds("name"),
    }
}
fn usual_track(name: [u8; 25]) -> Track {
    TrackInfo {
        name,
        max_deciding: 1,
        decision_deposit: 0,
        prepare_period: 1,
        decision_period: 255,
        confirm_period: 1,
        min_enactment_period: 1,
        min_approval: Curve::LinearDecreasing {
            length: Perbill::from_percent(100),
            floor: Perbill::from_percent(50),
            ceil: Perbill::from_percent(100),
        },
        min_support: Curve::LinearDecreasing {
            length: Perbill::from_percent(100),
            floor: Perbill::from_percent(0),
            ceil: Perbill::from_percent(50),
        },
    }
}
fn any_track() -> Track {
    let mut t = usual_track([0; 25]);
    t.name[0] = vk::any_u8();
    t.max_deciding = vk::any_u32();
    t.decision_deposit = vk::any_u64();
    t.decision_period = vk::any_u32();
    t.confirm_period = vk::any_u32();
    t.min_approval = Curve::LinearDecreasing {
        length: Perbill::from_parts(vk::any_u32()),
        floor: Perbill::from_parts(vk::any_u32()),
        ceil: Perbill::from_parts(vk::any_u32()),
    };
    t
}
fn same(a: &Track, b: &Track) -> bool {
    let mut ok = true;
    let mut i = 0;
    while i < 25 {
        ok &= a.name[i] == b.name[i];
        i += 1;
    }
    ok && a.max_deciding == b.max_deciding
        && a.decision_deposit == b.decision_deposit
        && a.prepare_period == b.prepare_period
        && a.decision_period == b.decision_period
        && a.confirm_period == b.confirm_period
        && a.min_enactment_period == b.min_enactment_period
        && a.min_approval == b.min_approval
        && a.min_support == b.min_support
}
/// Any other community and any money.
fn neighbour() -> Community {
    let c = Community { id: vk::any_u16(), active: vk::any_bool(), admin: any_caller() };
    place(&c);
    let mut i = 0;
    while i < ACCOUNTS {
        unsafe { NATIVE[i].balance = vk::any_u64() };
        vk::assume(unsafe { NATIVE[i].balance } < 1 << 60);
        i += 1;
    }
    c
}

vk::harnesses! {
    #[kani::unwind(27)]
    fn register() { with_storage(|| {
        let n = neighbour();
        let before = unsafe { NATIVE };
        unsafe {
            COLLECTION_FAILS = vk::any_bool();
            TRACK_FAILS = vk::any_bool();
            INDUCT_FAILS = vk::any_bool();
        }
        let (id, admin) = (vk::any_u16(), any_person());
        let free = id != n.id && n.admin != Caller::System(RawOrigin::Signed(admin));
        let payer = if vk::any_bool() { Some(any_person()) } else { None };
        let covered = match payer { Some(p) => before[p.0 as usize].balance > DEPOSIT, None => true };
        let method = if vk::any_bool() { Some(any_method()) } else { None };
        let track = if vk::any_bool() { Some(any_track()) } else { None };
        let (name, padded) = any_ascii::<2>();
        let o = match payer { Some(p) => signed(p), None => root() };
        let r = Manager::register(o, id, name, admin, method.clone(), track.clone());
        let works = unsafe { !COLLECTION_FAILS && !TRACK_FAILS && !INDUCT_FAILS };
        vk::check!(r.is_ok() == (free && covered && works), "registration needs a free id and admin, the deposit, and every part of it to succeed");
        vk::check!(untouched(&n), "other communities stay as they were");
        if r.is_ok() {
            let account = account_of(id);
            vk::check!(matches!(Info::<Test>::get(id), Some(i) if i.state == CommunityState::Active), "the community is active");
            vk::check!(CommunityIdFor::<Test>::get(Caller::System(RawOrigin::Signed(admin))) == Some(id), "the first admin administers it");
            vk::check!(CommunityDecisionMethod::<Test>::get(id) == method.clone().unwrap_or(Method::Membership), "it decides as asked for, else by membership");
            let now = unsafe { NATIVE };
            let mut i = 0;
            while i < ACCOUNTS {
                let mut expect = before[i].balance;
                if payer == Some(Acc(i as u32)) { expect -= DEPOSIT }
                if payer.is_some() && i == TREASURY.0 as usize { expect += DEPOSIT }
                vk::check!(now[i].balance == expect, "exactly the deposit moves, and only if an account registers");
                i += 1;
            }
            let plain = CollectionConfig { settings: CollectionSettings(0), max_supply: None, mint_settings: MintSettings::default() };
            vk::check!(unsafe { COLLECTIONS == [Some((id, account, account, plain)), None] }, "the community owns a collection for its memberships");
            match unsafe { &TRACKS } {
                [Some((i, t, o)), None] => {
                    vk::check!(*i == id && *o == Caller::Community(Voice::new(id)), "the track belongs to the voice of the community");
                    vk::check!(same(t, &track.clone().unwrap_or(usual_track(padded))), "the track is the one asked for, else the usual one");
                }
                _ => vk::check!(false, "the community has one track"),
            }
            vk::check!(unsafe { INDUCTED == [Some(account), None] }, "the community is inducted into the collective");
            vk::check!(unsafe { LAST_EVENT == Some(Event::Manager(Ev::CommunityRegistered { id })) }, "an event tells about it");
            vk::cover!(payer.is_some(), "paid");
            vk::cover!(method.is_some() && track.is_none(), "method");
        } else {
            vk::check!(!matches!(unsafe { &LAST_EVENT }, Some(Event::Manager(_))), "no event without a community");
            vk::cover!(!free, "taken");
            vk::cover!(free && covered, "a part failed");
        }
    }) }
    #[kani::unwind(27)]
    fn by_others() { with_storage(|| {
        let o = any_caller();
        vk::assume(!matches!(o, Caller::System(RawOrigin::Root) | Caller::System(RawOrigin::Signed(_))));
        let r = Manager::register(Origin(o), vk::any_u16(), any_ascii::<1>().0, any_person(), None, None);
        vk::check!(r.is_err(), "only accounts and root register communities");
        vk::cover!(true, "reached");
    }) }
    /// Text of two bytes that is not UTF-8 is no name.
    #[kani::unwind(27)]
    fn names() { with_storage(|| {
        let (a, b) = (vk::any_u8(), vk::any_u8());
        let valid = (a < 128 && b < 128) || (a >= 0xc2 && a <= 0xdf && b >= 0x80 && b <= 0xbf);
        let mut v = Vec::new();
        v.push(a);
        v.push(b);
        let Ok(name) = Name::try_from(v) else { return };
        let r = Manager::register(root(), vk::any_u16(), name, any_person(), None, None);
        vk::check!(r.is_ok() == valid, "names are text");
        vk::cover!(r.is_ok() && a > 127, "two byte character");
        vk::cover!(r.is_err(), "refused");
    }) }
    /// Minting up to three memberships.
    #[kani::unwind(6)]
    fn mint() { with_storage(|| {
        let (amount, start, price) = (vk::any_below(4) as u16, vk::any_u32(), vk::any_u64());
        unsafe {
            MINT_LIMIT = vk::any_u32();
            PRICE_LIMIT = vk::any_u32();
        }
        let room = (u32::MAX - start) as u64 + 1;
        let n = if room < amount as u64 { room as usize } else { amount as usize };
        let works = unsafe { n as u64 <= MINT_LIMIT as u64 && n as u64 <= PRICE_LIMIT as u64 };
        let r = Manager::create_memberships(root(), amount, start, price);
        vk::check!(r.is_ok() == works, "all are minted and priced, or the call fails");
        if r.is_ok() {
            let mut i = 0;
            while i < ITEMS {
                let expect = if i < n {
                    Some(Item { collection: MANAGER_COLLECTION, id: start + i as u32, owner: TREASURY, price: Some(price), priced: 1, for_one: false })
                } else {
                    None
                };
                vk::check!(unsafe { ITEM[i] } == expect, "as many memberships as asked for are offered by the manager, in order, at the price");
                i += 1;
            }
            vk::check!(unsafe { EVENTS == 1 && LAST_EVENT == Some(Event::Manager(Ev::MembershipsCreated { starting_at: start, amount: n as u32 })) },
                "one event tells how many there are");
            vk::cover!(n == 3, "three");
            vk::cover!(n < amount as usize, "ran out of ids");
        } else {
            vk::check!(silent(), "no event on failure");
            vk::cover!(true, "failed");
        }
    }) }
    #[kani::unwind(6)]
    fn mint_refused() { with_storage(|| {
        let o = any_caller();
        let amount = vk::any_u16();
        vk::assume(amount > 1024 || o != Caller::System(RawOrigin::Root));
        let r = Manager::create_memberships(Origin(o), amount, vk::any_u32(), vk::any_u64());
        vk::check!(r.is_err() && unsafe { MINTED == 0 } && silent(), "only the manager mints, and at most 1024 at once");
        vk::cover!(amount == 1025, "too many");
        vk::cover!(amount < 1024, "not the manager");
    }) }
    /// The most that can be minted at once is not refused for its number.
    #[kani::unwind(6)]
    fn mint_most() { with_storage(|| {
        unsafe { MINT_LIMIT = 1 };
        let amount = vk::any_u16();
        vk::assume(amount > 1 && amount <= 1024);
        let r = Manager::create_memberships(root(), amount, 0, 1);
        vk::check!(r.is_err() && unsafe { MINTED == 1 }, "up to 1024 are minted at once");
        vk::cover!(amount == 1024, "most");
    }) }
}
