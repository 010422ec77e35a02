//! Communities and accounts as seen from other chains.
use crate::world::*;
use crate::xcm_config::*;
use crate::xcm_executor::traits::{ConvertLocation, ConvertOrigin};
use crate::*;
use frame_support::traits::EnsureOrigin;
use frame_system::RawOrigin;
use pallet_communities::origin::Subset;
use sp_runtime::traits::TryConvert;
use xcm::latest::prelude::*;

/// A prefix and an asset of `n` junctions from anywhere.
fn reserves(n: u8) {
    let l = any_path(n);
    let a = asset(l);
    let from = any_location(2);
    let hub = from == Location::new(1, [Parachain(1000)]);
    let native = l == from;
    let of_hub = l.parents == 1 && l.interior.at(0) == Some(&Parachain(1000));
    let of_polkadot = l.parents == 2 && l.interior.at(0) == Some(&GlobalConsensus(NetworkId::Polkadot));
    let r = <xcm_executor_config::IsReserve as ContainsPair<Asset, Location>>::contains(&a, &from);
    vk::check!(r == (native || (hub && (of_hub || of_polkadot))), "assets are credited to their own chain, or to the hub that keeps them");
    vk::cover!(r && (hub || n == 0), "credited");
    vk::cover!(!r && (of_hub || n == 0), "elsewhere");
}
fn accounts(n: u8) {
    let l = any_path(n);
    let r = LocationToAccountId::convert_location(&l);
    let pad = |start: [u8; 8]| {
        let mut a = [0u8; 32];
        a[..8].copy_from_slice(&start);
        sp_runtime::AccountId32(a)
    };
    let expected = match l.unpack() {
        (1, []) => Some(pad(*b"Parent\0\0")),
        (1, [Parachain(id)]) => {
            let i = id.to_le_bytes();
            Some(pad([b's', b'i', b'b', b'l', i[0], i[1], i[2], i[3]]))
        }
        (0, [Plurality { id: BodyId::Index(i), .. }]) if *i <= u16::MAX as u32 => Some(community_account(*i as u16)),
        (0 | 1, [AccountId32 { network: None | Some(NetworkId::Kusama), id }]) => Some(sp_runtime::AccountId32(*id)),
        _ => None,
    };
    vk::check!(r == expected, "a location has the account of what it stands for");
    vk::cover!(r.is_none(), "none");
    vk::cover!(r.is_some() || n > 1, "some");
}

/// What a message from a place of `n` junctions is let act as.
fn acting(n: u8) {
    use cumulus_pallet_xcm::Origin;
    let l = any_path(n);
    let k = match vk::any_below(4) {
        0 => OriginKind::Native,
        1 => OriginKind::SovereignAccount,
        2 => OriginKind::Superuser,
        _ => OriginKind::Xcm,
    };
    let r = <xcm_executor_config::OriginConverter as ConvertOrigin<RuntimeOrigin>>::convert_origin(l, k).map(|o| o.caller);
    let expected = match (k, l.unpack()) {
        (OriginKind::SovereignAccount, _) => LocationToAccountId::convert_location(&l).map(|a| OriginCaller::system(RawOrigin::Signed(a))),
        (OriginKind::Native, (1, [])) => Some(OriginCaller::CumulusXcm(Origin::Relay)),
        (OriginKind::Native, (1, [Parachain(id)])) => Some(OriginCaller::CumulusXcm(Origin::SiblingParachain(*id))),
        (OriginKind::Native, (0, [AccountId32 { id, network: None | Some(NetworkId::Kusama) }])) =>
            Some(OriginCaller::system(RawOrigin::Signed(sp_runtime::AccountId32(*id)))),
        (OriginKind::Xcm, _) => Some(OriginCaller::PolkadotXcm),
        _ => None,
    };
    match (&r, &expected) {
        (Ok(o), Some(e)) => vk::check!(o == e, "a message acts as where it comes from"),
        (Err(from), None) => vk::check!(*from == l, "a refused place is handed back"),
        (Ok(_), None) => vk::check!(false, "messages from elsewhere act as nobody"),
        (Err(_), Some(_)) => vk::check!(false, "a message can act as where it comes from"),
    }
    if k == OriginKind::Xcm {
        vk::check!(unsafe { FROM } == l, "it speaks from its own place");
    }
    vk::cover!(r.is_err(), "refused");
    vk::cover!(k == OriginKind::Native && r.is_ok() || n > 1, "native");
    vk::cover!(k == OriginKind::SovereignAccount && r.is_ok() || n > 1, "account");
}

vk::harnesses! {
    #[kani::unwind(34)]
    fn acting0() { acting(0) }
    #[kani::unwind(34)]
    fn acting1() { acting(1) }
    #[kani::unwind(34)]
    fn acting2() { acting(2) }
    /// Who moves assets to other chains, and from where.
    #[kani::unwind(34)]
    fn executing() {
        let o = any_caller();
        let r = <pallet_xcm_config::ExecuteXcmOrigin as EnsureOrigin<RuntimeOrigin>>::try_origin(origin(&o));
        let own = match &o {
            OriginCaller::Communities(v) => Junction::try_from(v.clone()).ok().map(Location::from),
            OriginCaller::system(RawOrigin::Signed(a)) => Some(AccountId32 { network: Some(NetworkId::Kusama), id: a.0 }.into()),
            _ => None,
        };
        vk::check!(r.ok() == own, "accounts and communities act from their own place, nobody else does");
        if let Some(own) = own {
            let a = LocationToAccountId::convert_location(&own);
            vk::check!(a == signer(&o).or(speaks(&o).map(community_account)), "and with their own account");
        }
        vk::cover!(speaks(&o).is_some() && own.is_some(), "voice");
        vk::cover!(signer(&o).is_some(), "account");
        vk::cover!(own.is_none(), "refused");
    }
    /// What is switched off.
    #[kani::unwind(34)]
    fn switched_off() {
        let (a, l) = (asset(any_path(1)), any_location(1));
        let all = (l, a);
        vk::check!(!<pallet_xcm_config::XcmExecuteFilter as Contains<(Location, Asset)>>::contains(&all), "no messages of one's own");
        vk::check!(!<pallet_xcm_config::XcmTeleportFilter as Contains<(Location, Asset)>>::contains(&all), "nothing is teleported away");
        vk::check!(!<xcm_executor_config::IsTeleporter as ContainsPair<Asset, Location>>::contains(&a, &l), "nothing is teleported here");
        vk::check!(!<xcm_executor_config::Aliasers as ContainsPair<Location, Location>>::contains(&l, &a.id.0), "nobody poses as another");
        vk::cover!(l == a.id.0, "done");
    }
    /// The voice of a community as a junction, and back.
    #[kani::unwind(34)]
    fn junction() {
        let (id, subset) = (vk::any_u16(), any_subset());
        let mut v = Voice::new(id);
        if let Some(s) = subset.clone() {
            v.with_subset(s);
        }
        let j = Junction::try_from(v.clone());
        let part = match subset {
            None => Some(BodyPart::Voice),
            Some(Subset::Member(_)) => Some(BodyPart::Members { count: 1 }),
            Some(Subset::Members { count }) => Some(BodyPart::Members { count }),
            Some(Subset::Fraction(p)) => Some(BodyPart::Fraction { nom: p.deconstruct(), denom: 1_000_000 }),
            Some(Subset::AtLeastRank(_)) => None,
        };
        vk::check!(j.ok() == part.map(|part| Plurality { id: BodyId::Index(id as u32), part }), "a community is the plurality of its number");
        let o: RuntimeOrigin = v.into();
        let l = <Voice as TryConvert<RuntimeOrigin, Location>>::try_convert(o.clone());
        match j {
            Ok(j) => vk::check!(l == Ok(j.into()), "a community is at its own location"),
            Err(()) => vk::check!(l == Err(o), "a subset without a junction has no location"),
        }
        vk::cover!(j.is_err(), "rank");
        vk::cover!(matches!(part, Some(BodyPart::Fraction { .. })), "fraction");
    }
    #[kani::unwind(34)]
    fn accounts0() { accounts(0) }
    #[kani::unwind(34)]
    fn accounts1() { accounts(1) }
    #[kani::unwind(34)]
    fn accounts2() { accounts(2) }
    #[kani::unwind(34)]
    fn accounts3() { accounts(3) }
    #[kani::unwind(34)]
    fn reserves0() { reserves(0) }
    #[kani::unwind(34)]
    fn reserves1() { reserves(1) }
    #[kani::unwind(34)]
    fn reserves2() { reserves(2) }
    #[kani::unwind(34)]
    fn reserves3() { reserves(3) }
    #[kani::unwind(34)]
    fn reserves4() { reserves(4) }
    /// Who sends messages to other chains, and in whose name.
    #[kani::unwind(34)]
    fn senders() {
        let o = any_caller();
        let r = <pallet_xcm_config::SendXcmOrigin as EnsureOrigin<RuntimeOrigin>>::try_origin(origin(&o));
        let by_account = signer(&o).and_then(|a| community_of(&a));
        match (&o, &r) {
            (OriginCaller::Communities(v), _) => {
                let own = Junction::try_from(v.clone()).ok().map(Location::from);
                vk::check!(r.ok() == own, "a community speaks from its own location");
                vk::cover!(own.is_some(), "voice");
            }
            _ => {
                let own = by_account.map(|id| Location::from(Plurality { id: BodyId::Index(id as u32), part: BodyPart::Voice }));
                vk::check!(r.ok() == own, "the account of a community speaks for it, and nobody else does");
                vk::cover!(own.is_some(), "account");
                vk::cover!(own.is_none() && signer(&o).is_some(), "refused");
            }
        }
    }
    /// Who is exempt from paying for execution.
    #[kani::unwind(34)]
    fn exempt() {
        let l = any_location(2);
        let r = ParentOrParentsExecutivePlurality::contains(&l);
        let parent = l.parents == 1 && l.interior.len() == 0;
        let executive = l.parents == 1 && l.interior.len() == 1 && matches!(l.interior.at(0), Some(Plurality { id: BodyId::Executive, .. }));
        vk::check!(r == (parent || executive), "only the relay chain and its executive execute for free");
        vk::cover!(parent, "parent");
        vk::cover!(executive, "executive");
        vk::cover!(!r, "others");
    }
}
