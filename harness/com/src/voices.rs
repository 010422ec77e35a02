//! Which origin acts for which community, and the community as an account.
use crate::runtime::*;
use crate::world::*;
use pallet_communities::origin::{AsSignedByCommunity, AsSignedByStaticCommunity, EnsureCommunity, EnsureMember};
use shim::frame_support::traits::{EnsureOrigin, EnsureOriginWithArg, Get};
use shim::frame_system::RawOrigin;

static mut STATIC: Cid = 0;
struct Static;
impl Get<Cid> for Static {
    fn get() -> Cid {
        unsafe { STATIC }
    }
}

vk::harnesses! {
    #[kani::unwind(6)]
    fn community() { with_storage(|| {
        let (a, b) = two();
        let o = any_caller();
        let r = <EnsureCommunity<Test> as EnsureOrigin<Origin>>::try_origin(Origin(o.clone()));
        match (r, stands_for(&o, &a, &b)) {
            (Ok(id), Some(x)) => {
                vk::check!(id == x, "an origin acts for its own community");
                vk::cover!(speaks(&o).is_some(), "voice");
                vk::cover!(speaks(&o).is_none(), "admin");
            }
            (Err(back), None) => {
                vk::check!(back == Origin(o), "a refused origin is handed back");
                vk::cover!(!a.active, "blocked");
            }
            _ => vk::check!(false, "exactly the voice and the admin of an active community are accepted"),
        }
    }) }
    #[kani::unwind(6)]
    fn blocked() { with_storage(|| {
        let (a, b) = two();
        let active = vk::any_bool();
        Communities::force_state(&a.id, if active { pallet_communities::CommunityState::Active } else { pallet_communities::CommunityState::Blocked });
        let r = <EnsureCommunity<Test> as EnsureOrigin<Origin>>::ensure_origin(voice(a.id));
        vk::check!(r.is_ok() == active, "a blocked community has no voice, an active one does");
        vk::check!(untouched(&b), "the other community stays as it was");
        let c = vk::any_u16();
        vk::assume(c != a.id && c != b.id);
        Communities::force_state(&c, pallet_communities::CommunityState::Active);
        vk::check!(!Communities::community_exists(&c), "no community comes into being");
        vk::cover!(active && !a.active, "unblocked");
        vk::cover!(!active && a.active, "blocked");
    }) }
    #[kani::unwind(6)]
    fn as_account() { with_storage(|| {
        let o = any_caller();
        let r = <AsSignedByCommunity<Test> as EnsureOrigin<Origin>>::try_origin(Origin(o.clone()));
        unsafe { STATIC = vk::any_u16() };
        let s = <AsSignedByStaticCommunity<Test, Static> as EnsureOrigin<Origin>>::try_origin(Origin(o.clone()));
        match speaks(&o) {
            Some(id) => {
                vk::check!(r == Ok(account_of(id)), "a community signs with its own account");
                if id == unsafe { STATIC } {
                    vk::check!(s == Ok(account_of(id)), "the chosen community signs with its own account");
                    vk::cover!(true, "chosen");
                } else {
                    vk::check!(s == Err(Origin(o)), "no other community is accepted");
                    vk::cover!(true, "other");
                }
            }
            None => {
                vk::check!(r == Err(Origin(o.clone())) && s == Err(Origin(o)), "only communities sign for communities");
                vk::cover!(true, "none");
            }
        }
    }) }
    #[kani::unwind(6)]
    fn member() { with_storage(|| {
        let (a, b) = (vk::any_u16(), vk::any_u16());
        any_members(a, b);
        let o = any_caller();
        let mut belongs = false;
        if let Caller::System(RawOrigin::Signed(who)) = &o {
            let mut i = 0;
            while i < MEMBERS {
                let m = unsafe { MEMBER[i] };
                belongs |= m.owner == *who && m.group == a;
                i += 1;
            }
        }
        let r = <EnsureMember<Test> as EnsureOriginWithArg<Origin, Cid>>::try_origin(Origin(o.clone()), &a);
        match r {
            Ok(()) => { vk::check!(belongs, "only members of the community pass"); vk::cover!(true, "member"); }
            Err(back) => { vk::check!(!belongs && back == Origin(o), "members pass"); vk::cover!(true, "stranger"); }
        }
    }) }
    /// Acting as the account of the community.
    #[kani::unwind(6)]
    fn dispatch() { with_storage(|| {
        let (a, b) = two();
        let o = any_caller();
        let to = stands_for(&o, &a, &b);
        unsafe { PROBE_FAILS = vk::any_bool() };
        let n = vk::any_u8();
        let r = Communities::dispatch_as_account(Origin(o), Box::new(Call::Probe(n)));
        match to {
            Some(id) => {
                vk::check!(unsafe { PROBES == 1 && PROBED == Some((n, Caller::System(RawOrigin::Signed(account_of(id))))) },
                    "the call is made once, signed by the account of the community");
                vk::check!(r.is_ok() == !unsafe { PROBE_FAILS }, "its outcome is that of the call");
                vk::cover!(r.is_ok(), "done");
                vk::cover!(r.is_err(), "failed");
            }
            None => {
                vk::check!(unsafe { PROBES == 0 } && r.is_err(), "nobody else acts for the community");
                vk::cover!(true, "refused");
            }
        }
    }) }
}
