//! Who may do what on Kreivo.
use crate::communities::{governance, memberships, pallet_communities_config as com, pallet_communities_manager_config as man};
use crate::world::*;
use crate::*;
use frame_support::traits::{EnsureOrigin, EnsureOriginWithArg, InstanceFilter, PrivilegeCmp};
use frame_system::RawOrigin;

fn ensure<E: EnsureOrigin<RuntimeOrigin>>(o: &OriginCaller) -> Option<E::Success> {
    E::try_origin(origin(o)).ok()
}
fn ensure_with<A, E: EnsureOriginWithArg<RuntimeOrigin, A>>(o: &OriginCaller, a: &A) -> Option<E::Success> {
    E::try_origin(origin(o), a).ok()
}
fn custom(o: &OriginCaller) -> Option<pallet_custom_origins::Origin> {
    match o {
        OriginCaller::Origins(c) => Some(c.clone()),
        _ => None,
    }
}

vk::harnesses! {
    /// Administration and memberships.
    #[kani::unwind(34)]
    fn admins() { with_storage(|| {
        let (id, active, admin) = (vk::any_u16(), vk::any_bool(), any_caller());
        place(id, active, &admin);
        let o = any_caller();
        let r = ensure::<com::AdminOrigin>(&o);
        let account = signer(&o).and_then(|a| community_of(&a));
        let by_voice = match speaks(&o) {
            Some(c) if c == id && active => Some(c),
            Some(_) => None,
            None if o == admin && active && !is_root(&o) && o != OriginCaller::system(RawOrigin::None) => Some(id),
            None => None,
        };
        vk::check!(r == by_voice.or(account), "a community is run by its voice, its admin or its own account");
        vk::check!(ensure::<com::MemberMgmtOrigin>(&o) == r, "and so are its memberships");
        vk::cover!(by_voice.is_some() && speaks(&o).is_some(), "voice");
        vk::cover!(by_voice.is_some() && speaks(&o).is_none(), "admin");
        vk::cover!(account.is_some() && by_voice.is_none(), "account");
        vk::cover!(r.is_none() && signer(&o).is_some(), "stranger");
    }) }
    /// Founding communities and printing memberships.
    #[kani::unwind(34)]
    fn founders() {
        let o = any_caller();
        let (root, who) = (is_root(&o), signer(&o));
        let create = ensure::<com::CreateOrigin>(&o);
        vk::check!(create.is_none(), "communities are founded through the manager only");
        let register = ensure::<man::RegisterOrigin>(&o);
        let pays = who.map(|w| Some((UNITS / 2, w, treasury())));
        vk::check!(register == if root { Some(None) } else { pays }, "root founds for free, accounts pay the treasury half a unit");
        let memberships = ensure::<man::CreateMembershipsOrigin>(&o).is_some();
        let ours = custom(&o) == Some(pallet_custom_origins::Origin::CreateMemberships);
        vk::check!(memberships == (root || ours), "root and the track for it print memberships");
        vk::check!(get::<AccountId, man::MembershipsManagerOwner>() == treasury(), "the treasury owns new memberships");
        vk::check!(get::<CommunityId, man::MembershipsManagerCollectionId>() == 0, "new memberships are in collection 0");
        vk::check!(ensure::<memberships::pallet_nfts_config::ForceOrigin>(&o).is_some() == root, "only root forces collections");
        vk::check!(ensure_with::<CommunityId, frame_support::traits::AsEnsureOriginWithArg<memberships::pallet_nfts_config::CreateOrigin>>(&o, &vk::any_u16())
            == if root { Some(treasury()) } else { None }, "only root creates collections, for the treasury");
        vk::cover!(root, "root");
        vk::cover!(who.is_some(), "pays");
        vk::cover!(ours, "track");
    }
    /// Referenda of communities.
    #[kani::unwind(34)]
    fn referenda() {
        let (o, voice, track) = (any_caller(), any_caller(), vk::any_u16());
        let member = (vk::any_u16(), any_account());
        unsafe {
            TRACK = (Some(voice.clone()), track);
            MEMBERSHIP = member;
        }
        let asked = any_caller();
        let r = ensure_with::<OriginCaller, governance::pallet_referenda_config::SubmitOrigin>(&o, &asked);
        let expected = if is_root(&o) {
            Some(treasury())
        } else if asked == voice && member.0 == track && signer(&o) == Some(member.1) {
            Some(member.1)
        } else {
            None
        };
        vk::check!(r == expected, "members propose to their own community, root to any");
        let root = is_root(&o);
        vk::check!(ensure::<governance::pallet_referenda_config::CancelOrigin>(&o).is_some() == root, "only root cancels");
        vk::check!(ensure::<governance::pallet_referenda_config::KillOrigin>(&o).is_some() == root, "only root kills");
        vk::cover!(r.is_some() && !root, "member");
        vk::cover!(r.is_none() && signer(&o) == Some(member.1), "elsewhere");
    }
    /// Tracks of communities.
    #[kani::unwind(34)]
    fn tracks() {
        let (o, owner, track, id) = (any_caller(), any_caller(), vk::any_u16(), vk::any_u16());
        unsafe { TRACK = (Some(owner.clone()), track) };
        let r = ensure_with::<CommunityId, governance::pallet_referenda_tracks_config::UpdateOrigin>(&o, &id);
        vk::check!(r.is_some() == (o == owner && id == track), "a track is changed by the origin it belongs to");
        vk::check!(ensure::<governance::pallet_referenda_tracks_config::AdminOrigin>(&o).is_some() == is_root(&o), "only root adds tracks");
        vk::cover!(r.is_some(), "own");
        vk::cover!(r.is_none() && o == owner, "another");
    }
    /// The collective and its referenda.
    #[kani::unwind(34)]
    fn collective() {
        use crate::collective::{governance::pallet_referenda_config as refs, pallet_ranked_collective_config as ranks};
        use pallet_custom_origins::Origin::*;
        let o = any_caller();
        let root = is_root(&o);
        vk::check!(ensure::<ranks::AddOrigin>(&o).is_none(), "nobody adds members to the collective by hand");
        vk::check!(ensure::<ranks::PromoteOrigin>(&o) == if root { Some(65535) } else { None }, "only root promotes");
        vk::check!(ensure::<ranks::DemoteOrigin>(&o) == if root { Some(65535) } else { None }, "only root demotes");
        vk::check!(ensure::<ranks::RemoveOrigin>(&o) == if root { Some(65535) } else { None }, "only root removes");
        vk::check!(ensure::<ranks::ExchangeOrigin>(&o).is_some() == root, "only root exchanges");
        vk::check!(ensure::<refs::SubmitOrigin>(&o) == signer(&o), "anyone proposes by signing");
        vk::check!(ensure::<refs::CancelOrigin>(&o).is_some() == (custom(&o) == Some(ReferendumCanceller)), "only the canceller cancels");
        vk::check!(ensure::<refs::KillOrigin>(&o).is_some() == (custom(&o) == Some(ReferendumKiller)), "only the killer kills");
        vk::check!(<ranks::MinRankOfClass as sp_runtime::traits::Convert<u16, u16>>::convert(vk::any_u16()) == 1, "rank 1 votes");
        vk::cover!(root, "root");
        vk::cover!(custom(&o) == Some(ReferendumKiller), "killer");
    }
    /// The collective's tracks.
    #[kani::unwind(34)]
    fn collective_tracks() {
        use crate::collective::tracks::TracksInfo as All;
        use crate::pallet_referenda::TracksInfo;
        use pallet_custom_origins::Origin::*;
        let o = any_caller();
        let track = <All as TracksInfo<Balance, BlockNumber>>::track_for(&o);
        let expected = match custom(&o) {
            Some(ReferendumCanceller) => Ok(1),
            Some(ReferendumKiller) => Ok(2),
            Some(CreateMemberships) => Ok(3),
            None if is_root(&o) => Ok(0),
            None => Err(()),
        };
        vk::check!(track == expected, "each origin has a track of its own, other origins have none");
        vk::cover!(track == Ok(3), "memberships");
        vk::cover!(track.is_err(), "none");
        let (mut seen, mut last) = (0, None);
        for t in <All as TracksInfo<Balance, BlockNumber>>::tracks() {
            vk::check!(Some(t.id) > last, "tracks are ordered by their id");
            last = Some(t.id);
            let i = &t.info;
            vk::check!(i.max_deciding > 0 && i.decision_period > 0 && i.decision_deposit > 0, "a track decides something, for a deposit");
            vk::check!(i.confirm_period <= i.decision_period, "what is decided can be confirmed in time");
            let least = if t.id == 3 { 50 } else { 90 };
            match i.min_approval {
                pallet_referenda::Curve::LinearDecreasing { floor, ceil, .. } =>
                    vk::check!(floor == Perbill::from_percent(least) && ceil == Perbill::one(), "approval never falls below its floor"),
                _ => vk::check!(false, "approval falls linearly"),
            }
            if Ok(t.id) == track {
                seen += 1;
            }
        }
        vk::check!(seen == track.is_ok() as u32, "the track of an origin is among the tracks");
    }
    /// Calls made by proxies.
    #[kani::unwind(50)]
    fn proxies() {
        use crate::impls::ProxyType::{self, *};
        let any = || match vk::any_below(7) {
            0 => Any, 1 => NonTransfer, 2 => CancelProxy, 3 => ProxyType::Assets, 4 => AssetOwner, 5 => AssetManager, _ => Collator,
        };
        let (p, q, c) = (any(), any(), RuntimeCall::any());
        let (pc, qc) = (p.filter(&c), q.filter(&c));
        let wraps = matches!(c, RuntimeCall::Utility(_) | RuntimeCall::Multisig(_));
        let allowed = match p {
            Any => true,
            NonTransfer => !matches!(c, RuntimeCall::Balances(_) | RuntimeCall::Assets(_)),
            CancelProxy => wraps || matches!(c, RuntimeCall::Proxy(pallet_proxy::Call::reject_announcement {})),
            ProxyType::Assets => wraps || matches!(c, RuntimeCall::Assets(_)),
            Collator => wraps || matches!(c, RuntimeCall::CollatorSelection(_)),
            AssetOwner | AssetManager => pc,
        };
        vk::check!(pc == allowed, "a proxy makes the calls of its kind");
        if let RuntimeCall::Assets(a) = c {
            use pallet_assets::Call::*;
            let moves = matches!(a, transfer {} | transfer_keep_alive {} | force_transfer {} | approve_transfer {} | transfer_approved {});
            vk::check!(!moves || matches!(p, Any | ProxyType::Assets) || !pc, "only full and asset proxies transfer assets");
            let owns = matches!(a, create {} | start_destroy {} | destroy_accounts {} | destroy_approvals {} | finish_destroy {}
                | transfer_ownership {} | set_team {} | set_metadata {} | clear_metadata {});
            let manages = matches!(a, mint {} | burn {} | freeze {} | thaw {} | freeze_asset {} | thaw_asset {});
            vk::check!(p != AssetOwner || pc == owns, "owner proxies do what owners do");
            vk::check!(p != AssetManager || pc == manages, "manager proxies do what managers do");
        } else {
            vk::check!(!matches!(p, AssetOwner | AssetManager) || pc == wraps, "owner and manager proxies only touch assets");
        }
        vk::check!(!p.is_superset(&q) || !qc || pc, "a wider proxy makes every call a narrower one makes");
        vk::check!(p.is_superset(&p), "a proxy is as wide as itself");
        vk::check!(ProxyType::default() == Any, "the default proxy is a full one");
        vk::cover!(p != q && p.is_superset(&q) && qc, "wider");
        vk::cover!(p == AssetOwner && pc && !wraps, "owner");
    }
    /// Privilege among origins.
    #[kani::unwind(34)]
    fn privilege() {
        use core::cmp::Ordering::*;
        let (a, b) = (any_caller(), any_caller());
        let r = <privileged::pallet_scheduler_config::OriginPrivilegeCmp as PrivilegeCmp<OriginCaller>>::cmp_privilege(&a, &b);
        let expected = if a == b { Some(Equal) } else if is_root(&a) { Some(Greater) } else { None };
        vk::check!(r == expected, "root is above everyone, everyone else only equal to themselves");
        vk::cover!(r == Some(Equal) && speaks(&a).is_some(), "equal");
        vk::cover!(r == Some(Greater), "greater");
        vk::cover!(r.is_none() && is_root(&b), "none");
    }
    /// The address of an account.
    #[kani::unwind(34)]
    fn lookup() {
        type L = system_support::frame_system_config::Lookup;
        let (a, i, b) = (any_account(), vk::any_u16(), any_32());
        vk::check!(L::lookup(MultiAddress::Id(a)).ok() == Some(a), "an account is its own address");
        vk::check!(L::lookup(MultiAddress::Index(i)).ok() == Some(community_account(i)), "a community's number is its address");
        vk::check!(L::lookup(MultiAddress::Address32(b)).is_err(), "other addresses are unknown");
        vk::check!(L::lookup(MultiAddress::Raw(Default::default())).is_err(), "raw addresses are unknown");
        vk::check!(L::lookup(MultiAddress::Address20([0; 20])).is_err(), "short addresses are unknown");
        vk::check!(L::lookup(L::unlookup(a)).ok() == Some(a), "the address of an account leads back to it");
        vk::cover!(true, "done");
    }
    /// Registering with `pass`.
    #[kani::unwind(34)]
    fn pass() {
        let (o, id) = (any_caller(), any_32());
        let r = ensure_with::<HashedUserId, system_support::pallet_pass_config::RegisterOrigin>(&o, &id);
        let pays = match r {
            None => None,
            Some(None) => Some(None),
            Some(Some(d)) => Some(Some((d.0, d.1, d.2))),
        };
        let expected = match signer(&o) {
            Some(a) => Some(Some((a, EXISTENTIAL_DEPOSIT, treasury()))),
            None if is_root(&o) || speaks(&o).is_some() => Some(None),
            None => None,
        };
        vk::check!(pays == expected, "accounts deposit for registering, root and communities don't, others can't");
        vk::cover!(speaks(&o).is_some(), "community");
        vk::cover!(signer(&o).is_some(), "signed");
        vk::cover!(pays.is_none(), "refused");
    }
    /// Proof of being recent.
    #[kani::unwind(34)]
    fn challenge() {
        use crate::fc_traits_authn::Challenger;
        let now = vk::any_u32();
        let hashes = [any_32(), any_32(), any_32(), any_32()];
        unsafe {
            NOW = now;
            let mut i = 0;
            while i < 4 {
                // the last four blocks; before the first block there are none
                KNOWN[i] = if now as usize > i { (now - 1 - i as u32, hashes[i]) } else { (0, hashes[i]) };
                i += 1;
            }
        }
        vk::assume(now > 4);
        let (at, c) = (vk::any_u32(), any_32());
        let r = system_support::UnincludedBlockHashChallenger::check_challenge(&at, &c);
        let back = now.wrapping_sub(at);
        let expected = back >= 1 && back <= 3 && c == hashes[(back - 1) as usize];
        vk::check!(!r.is_some() || (at < now && at >= now - 3), "a challenge is one of the last three blocks");
        vk::check!(r.is_some() == expected, "a challenge is the hash of its block");
        vk::cover!(r.is_some(), "accepted");
        vk::cover!(at == now - 4, "old");
    }
    /// What only root does.
    #[kani::unwind(34)]
    fn root_only() {
        use crate::monetary_stuff::pallet_assets_config as assets;
        use crate::privileged::*;
        use xcm::latest::{BodyId, BodyPart, Junction::Plurality, Location};
        let (o, from) = (any_caller(), any_location(2));
        unsafe { FROM = from };
        let root = is_root(&o);
        vk::check!(ensure::<cumulus_pallet_xcmp_queue_config::ControllerOrigin>(&o).is_some() == root, "only root controls the queue");
        vk::check!(ensure::<pallet_treasury_config::RejectOrigin>(&o).is_some() == root, "only root rejects spending");
        vk::check!(ensure::<pallet_treasury_config::SpendOrigin>(&o).is_none(), "nobody spends from the treasury directly");
        vk::check!(ensure::<pallet_scheduler_config::ScheduleOrigin>(&o).is_some() == root, "only root schedules");
        vk::check!(ensure::<pallet_preimage_config::ManagerOrigin>(&o).is_some() == root, "only root keeps preimages for free");
        vk::check!(ensure::<assets::ForceOrigin>(&o).is_some() == root, "only root forces assets");
        vk::check!(ensure::<xcm_config::pallet_xcm_config::AdminOrigin>(&o).is_some() == root, "only root administers XCM");
        let a = any_fal();
        vk::check!(ensure_with::<FungibleAssetLocation, assets::CreateOrigin>(&o, &a).is_none(), "nobody creates assets freely");
        let staking = o == OriginCaller::PolkadotXcm
            && from == Location::new(1, [Plurality { id: BodyId::Defense, part: BodyPart::Voice }]);
        vk::check!(ensure::<pallet_collator_selection_config::UpdateOrigin>(&o).is_some() == (root || staking), "root and the relay chain's staking admin manage collators");
        vk::cover!(root, "root");
        vk::cover!(staking, "staking admin");
        vk::cover!(signer(&o).is_some(), "signed");
    }
    /// Proxies that must not transfer.
    #[kani::unwind(50)]
    fn non_transfer() {
        let c = RuntimeCall::any();
        let moves = matches!(c, RuntimeCall::Balances(_) | RuntimeCall::Assets(_) | RuntimeCall::Payments(_) | RuntimeCall::PolkadotXcm(_));
        vk::check!(!moves || !impls::ProxyType::NonTransfer.filter(&c), "a proxy without transfers cannot pay or send assets away");
        vk::cover!(moves, "moves");
        vk::cover!(!moves, "others");
    }
    /// Contracts.
    #[kani::unwind(34)]
    fn contracts() {
        use crate::contracts::pallet_contracts_config as set;
        let o = any_caller();
        let root = is_root(&o);
        vk::check!(ensure::<set::UploadOrigin>(&o) == if root { Some(treasury()) } else { None }, "only root uploads code");
        let expected = match speaks(&o) {
            Some(id) if id == 1 || id == 2 => Some(community_account(id)),
            None if root => Some(treasury()),
            _ => None,
        };
        vk::check!(ensure::<set::InstantiateOrigin>(&o) == expected, "root and the two chosen communities make contracts");
        let c = RuntimeCall::any();
        let transfer = matches!(c, RuntimeCall::Balances(pallet_balances::Call::transfer_allow_death {}));
        vk::check!(<set::CallFilter as Contains<RuntimeCall>>::contains(&c) == transfer, "contracts only call transfers");
        vk::cover!(speaks(&o) == Some(2), "chosen");
        vk::cover!(transfer, "transfer");
    }
}
