//! Arbitrary accounts, origins, locations and assets.
use crate::*;
use frame_system::RawOrigin;
use pallet_communities::origin::Subset;
use pallet_communities::{CommunityInfo, CommunityState};
use shim::memberships::GenericRank;
use sp_runtime::AccountId32;
use xcm::latest::{Asset, AssetId, BodyId, BodyPart, Fungibility, Junction, Junctions, Location, NetworkId, Bytes};

pub use pallet_communities::pallet::{CommunityIdFor, Info};

pub const COMMUNITIES: [u8; 8] = *b"kv/cmtys";

/// The pallets' storage lives as long as this.
pub fn with_storage(f: impl FnOnce()) {
    pallet_communities::pallet::__with_storage::<Runtime>(f)
}

pub fn any_32() -> [u8; 32] {
    let (a, b) = (vk::any_u128().to_le_bytes(), vk::any_u128().to_le_bytes());
    let mut r = [0; 32];
    r[..16].copy_from_slice(&a);
    r[16..].copy_from_slice(&b);
    r
}
/// The account of a pallet's sub-account with a two byte id.
pub fn pallet_account(pallet: [u8; 8], id: u16) -> AccountId {
    let (p, i) = (pallet, id.to_le_bytes());
    let mut a = [0u8; 32];
    a[..12].copy_from_slice(&[b'm', b'o', b'd', b'l', p[0], p[1], p[2], p[3], p[4], p[5], p[6], p[7]]);
    a[12] = i[0];
    a[13] = i[1];
    AccountId32(a)
}
pub fn community_account(id: CommunityId) -> AccountId {
    pallet_account(COMMUNITIES, id)
}
pub fn treasury() -> AccountId {
    pallet_account(*b"py/trsry", 0)
}
/// The community the account belongs to.
pub fn community_of(a: &AccountId) -> Option<CommunityId> {
    let id = u16::from_le_bytes([a.0[12], a.0[13]]);
    if *a == community_account(id) {
        Some(id)
    } else {
        None
    }
}
/// Any account; those of communities and pallets are spelled out to make them easy to reach.
pub fn any_account() -> AccountId {
    match vk::any_below(4) {
        0 => community_account(vk::any_u16()),
        1 => pallet_account(vk::any_u64().to_le_bytes(), vk::any_u16()),
        2 => treasury(),
        _ => AccountId32(any_32()),
    }
}

pub fn any_subset() -> Option<Subset<Runtime>> {
    match vk::any_below(5) {
        0 => None,
        1 => Some(Subset::Member(vk::any_u32())),
        2 => Some(Subset::Members { count: vk::any_u32() }),
        3 => {
            let n = vk::any_u32();
            vk::assume(n <= 1_000_000);
            Some(Subset::Fraction(Permill::from_parts(n)))
        }
        _ => Some(Subset::AtLeastRank(GenericRank(vk::any_u8()))),
    }
}
pub fn any_voice() -> Voice {
    let mut v = Voice::new(vk::any_u16());
    if let Some(s) = any_subset() {
        v.with_subset(s);
    }
    v
}
pub fn any_caller() -> OriginCaller {
    use pallet_custom_origins::Origin;
    match vk::any_below(11) {
        0 => OriginCaller::system(RawOrigin::Root),
        1 => OriginCaller::system(RawOrigin::None),
        2 => OriginCaller::system(RawOrigin::Signed(any_account())),
        3 => OriginCaller::Origins(Origin::CreateMemberships),
        4 => OriginCaller::Origins(Origin::ReferendumCanceller),
        5 => OriginCaller::Origins(Origin::ReferendumKiller),
        6 => OriginCaller::Communities(any_voice()),
        7 => OriginCaller::CumulusXcm(cumulus_pallet_xcm::Origin::Relay),
        8 => OriginCaller::CumulusXcm(cumulus_pallet_xcm::Origin::SiblingParachain(vk::any_u32())),
        9 => OriginCaller::PolkadotXcm,
        _ => OriginCaller::Other(vk::any_u8()),
    }
}
pub fn is_root(o: &OriginCaller) -> bool {
    matches!(o, OriginCaller::system(RawOrigin::Root))
}
pub fn signer(o: &OriginCaller) -> Option<AccountId> {
    match o {
        OriginCaller::system(RawOrigin::Signed(a)) => Some(*a),
        _ => None,
    }
}
pub fn speaks(o: &OriginCaller) -> Option<CommunityId> {
    match o {
        OriginCaller::Communities(v) => Some(v.id()),
        _ => None,
    }
}
pub fn origin(o: &OriginCaller) -> RuntimeOrigin {
    RuntimeOrigin { caller: o.clone() }
}
/// A community in any state that answers to any origin.
pub fn place(id: CommunityId, active: bool, admin: &OriginCaller) {
    let mut i = CommunityInfo::default();
    if !active {
        i.state = CommunityState::Blocked;
    }
    Info::<Runtime>::insert(id, i);
    CommunityIdFor::<Runtime>::insert(admin.clone(), id);
}

pub fn any_network() -> NetworkId {
    match vk::any_below(8) {
        0 => NetworkId::ByGenesis(Bytes(vk::any_u32())),
        1 => NetworkId::ByFork { block_number: vk::any_u64(), block_hash: Bytes(vk::any_u32()) },
        2 => NetworkId::Polkadot,
        3 => NetworkId::Kusama,
        4 => NetworkId::Westend,
        5 => NetworkId::Ethereum { chain_id: vk::any_u64() },
        6 => NetworkId::BitcoinCore,
        _ => NetworkId::PolkadotBulletin,
    }
}
pub fn any_body() -> BodyId {
    match vk::any_below(7) {
        0 => BodyId::Unit,
        1 => BodyId::Moniker(vk::any_u32().to_le_bytes()),
        2 => BodyId::Executive,
        3 => BodyId::Technical,
        4 => BodyId::Treasury,
        5 => BodyId::Defense,
        _ => BodyId::Index(vk::any_u32()),
    }
}
pub fn any_part() -> BodyPart {
    match vk::any_below(5) {
        0 => BodyPart::Voice,
        1 => BodyPart::Members { count: vk::any_u32() },
        2 => BodyPart::Fraction { nom: vk::any_u32(), denom: vk::any_u32() },
        3 => BodyPart::AtLeastProportion { nom: vk::any_u32(), denom: vk::any_u32() },
        _ => BodyPart::MoreThanProportion { nom: vk::any_u32(), denom: vk::any_u32() },
    }
}
pub fn any_junction() -> Junction {
    match vk::any_below(10) {
        0 => Junction::Parachain(vk::any_u32()),
        1 => Junction::AccountId32 { network: if vk::any_bool() { Some(any_network()) } else { None }, id: any_32() },
        2 => Junction::AccountIndex64 { network: None, index: vk::any_u64() },
        3 => Junction::PalletInstance(vk::any_u8()),
        4 => Junction::GeneralIndex(vk::any_u128()),
        5 => Junction::GeneralKey { length: vk::any_u8(), data: Bytes(vk::any_u32()) },
        6 => Junction::OnlyChild,
        7 => Junction::Plurality { id: any_body(), part: any_part() },
        8 => Junction::AccountKey20 { network: None, key: Bytes(vk::any_u32()) },
        _ => Junction::GlobalConsensus(any_network()),
    }
}
/// Any location of at most `most` junctions.
pub fn any_location(most: u8) -> Location {
    let n = vk::any_below(most + 1);
    let mut path = Junctions::empty();
    let mut i = 0;
    while i < most {
        if i < n {
            let _ = path.push(any_junction());
        }
        i += 1;
    }
    Location::new(vk::any_u8(), path)
}
/// Any location of so many junctions.
pub fn any_path(n: u8) -> Location {
    let mut path = Junctions::empty();
    let mut i = 0;
    while i < n {
        let _ = path.push(any_junction());
        i += 1;
    }
    Location::new(vk::any_u8(), path)
}
pub fn asset(l: Location) -> Asset {
    Asset { id: AssetId(l), fun: Fungibility::Fungible(vk::any_u128()) }
}
pub fn any_fal() -> FungibleAssetLocation {
    if vk::any_bool() {
        FungibleAssetLocation::Here(vk::any_u32())
    } else {
        FungibleAssetLocation::External { network: virto_common::NetworkId::Ethereum { chain_id: vk::any_u64() }, child: None }
    }
}
