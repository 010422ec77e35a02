//! Locations of consensus systems, as in version 4 of XCM.
use crate::codec::{Decode, Encode, MaxEncodedLen};
use crate::scale_info::TypeInfo;

/// Hashes and keys that nothing looks into, cut to four bytes.
#[derive(Copy, Clone, Debug, PartialEq, Eq, Encode, Decode, MaxEncodedLen, TypeInfo)]
pub struct Bytes(pub u32);
#[derive(Copy, Clone, Debug, PartialEq, Eq, Encode, Decode, MaxEncodedLen, TypeInfo)]
pub enum NetworkId {
    ByGenesis(Bytes),
    ByFork { block_number: u64, block_hash: Bytes },
    Polkadot,
    Kusama,
    Westend,
    Rococo,
    Wococo,
    Ethereum { chain_id: u64 },
    BitcoinCore,
    BitcoinCash,
    PolkadotBulletin,
}
#[derive(Copy, Clone, Debug, PartialEq, Eq, Encode, Decode, MaxEncodedLen, TypeInfo)]
pub enum BodyId {
    Unit,
    Moniker([u8; 4]),
    Index(u32),
    Executive,
    Technical,
    Legislative,
    Judicial,
    Defense,
    Administration,
    Treasury,
}
#[derive(Copy, Clone, Debug, PartialEq, Eq, Encode, Decode, MaxEncodedLen, TypeInfo)]
pub enum BodyPart {
    Voice,
    Members { count: u32 },
    Fraction { nom: u32, denom: u32 },
    AtLeastProportion { nom: u32, denom: u32 },
    MoreThanProportion { nom: u32, denom: u32 },
}
#[derive(Copy, Clone, Debug, Eq, Encode, Decode, MaxEncodedLen, TypeInfo)]
pub enum Junction {
    Parachain(u32),
    AccountId32 { network: Option<NetworkId>, id: [u8; 32] },
    AccountIndex64 { network: Option<NetworkId>, index: u64 },
    AccountKey20 { network: Option<NetworkId>, key: Bytes },
    PalletInstance(u8),
    GeneralIndex(u128),
    GeneralKey { length: u8, data: Bytes },
    OnlyChild,
    Plurality { id: BodyId, part: BodyPart },
    GlobalConsensus(NetworkId),
}

/// As derived, but without comparing bytes one by one.
impl PartialEq for Junction {
    fn eq(&self, o: &Self) -> bool {
        use Junction::*;
        match (self, o) {
            (Parachain(a), Parachain(b)) => a == b,
            (AccountId32 { network: m, id: a }, AccountId32 { network: n, id: b }) => m == n && same(a, b),
            (AccountIndex64 { network: m, index: a }, AccountIndex64 { network: n, index: b }) => m == n && a == b,
            (AccountKey20 { network: m, key: a }, AccountKey20 { network: n, key: b }) => m == n && a == b,
            (PalletInstance(a), PalletInstance(b)) => a == b,
            (GeneralIndex(a), GeneralIndex(b)) => a == b,
            (GeneralKey { length: m, data: a }, GeneralKey { length: n, data: b }) => m == n && a == b,
            (OnlyChild, OnlyChild) => true,
            (Plurality { id: m, part: a }, Plurality { id: n, part: b }) => m == n && a == b,
            (GlobalConsensus(a), GlobalConsensus(b)) => a == b,
            _ => false,
        }
    }
}
use crate::same32 as same;

pub const MAX_JUNCTIONS: usize = 5;
/// A path of junctions; more than five are out of bounds (XCM allows eight).
#[derive(Copy, Clone, Debug)]
pub struct Junctions {
    path: [Junction; MAX_JUNCTIONS],
    len: u8,
}
impl Junctions {
    pub const fn empty() -> Self {
        Junctions { path: [Junction::OnlyChild; MAX_JUNCTIONS], len: 0 }
    }
    pub fn as_slice(&self) -> &[Junction] {
        &self.path[..self.len as usize]
    }
    pub fn len(&self) -> usize {
        self.len as usize
    }
    pub fn iter(&self) -> core::slice::Iter<'_, Junction> {
        self.as_slice().iter()
    }
    pub fn first(&self) -> Option<&Junction> {
        self.as_slice().first()
    }
    pub fn last(&self) -> Option<&Junction> {
        self.as_slice().last()
    }
    pub fn at(&self, i: usize) -> Option<&Junction> {
        self.as_slice().get(i)
    }
    pub fn push(&mut self, j: Junction) -> Result<(), Junction> {
        if self.len as usize == MAX_JUNCTIONS {
            crate::out_of_bounds("junctions");
        }
        self.path[self.len as usize] = j;
        self.len += 1;
        Ok(())
    }
}
impl PartialEq for Junctions {
    fn eq(&self, o: &Self) -> bool {
        let mut same = self.len == o.len;
        let mut i = 0;
        while i < MAX_JUNCTIONS {
            same = same && (i >= self.len as usize || self.path[i] == o.path[i]);
            i += 1;
        }
        same
    }
}
impl Eq for Junctions {}
impl<const N: usize> From<[Junction; N]> for Junctions {
    fn from(j: [Junction; N]) -> Self {
        let mut path = [Junction::OnlyChild; MAX_JUNCTIONS];
        path[..N].copy_from_slice(&j);
        Junctions { path, len: N as u8 }
    }
}
impl From<Junction> for Junctions {
    fn from(j: Junction) -> Self {
        [j].into()
    }
}
pub type InteriorLocation = Junctions;

#[derive(Copy, Clone, Debug, PartialEq, Eq)]
pub struct Location {
    pub parents: u8,
    pub interior: Junctions,
}
impl Location {
    pub fn new(parents: u8, interior: impl Into<Junctions>) -> Self {
        Location { parents, interior: interior.into() }
    }
    pub const fn here() -> Self {
        Location { parents: 0, interior: Junctions::empty() }
    }
    pub const fn parent() -> Self {
        Location { parents: 1, interior: Junctions::empty() }
    }
    pub fn unpack(&self) -> (u8, &[Junction]) {
        (self.parents, self.interior.as_slice())
    }
    pub const fn parent_count(&self) -> u8 {
        self.parents
    }
    pub const fn interior(&self) -> &Junctions {
        &self.interior
    }
    pub fn first_interior(&self) -> Option<&Junction> {
        self.interior.first()
    }
    pub fn last(&self) -> Option<&Junction> {
        self.interior.last()
    }
    pub fn at(&self, i: usize) -> Option<&Junction> {
        self.interior.at(i)
    }
    pub fn is_here(&self) -> bool {
        self.parents == 0 && self.interior.len == 0
    }
    /// Parents and junctions together.
    pub fn len(&self) -> usize {
        self.parents as usize + self.interior.len()
    }
    /// What follows the prefix, if that is one junction.
    pub fn match_and_split(&self, prefix: &Location) -> Option<&Junction> {
        if self.starts_with(prefix) && self.interior.len == prefix.interior.len + 1 {
            self.interior.last()
        } else {
            None
        }
    }
    pub fn starts_with(&self, prefix: &Location) -> bool {
        self.parents == prefix.parents
            && self.interior.len >= prefix.interior.len
            && prefix.interior.iter().zip(self.interior.iter()).all(|(p, j)| p == j)
    }
}
impl From<Junction> for Location {
    fn from(j: Junction) -> Self {
        Location::new(0, [j])
    }
}
impl From<Junctions> for Location {
    fn from(j: Junctions) -> Self {
        Location::new(0, j)
    }
}
impl<const N: usize> From<[Junction; N]> for Location {
    fn from(j: [Junction; N]) -> Self {
        Location::new(0, j)
    }
}

#[derive(Copy, Clone, Debug, PartialEq, Eq)]
pub enum AssetInstance {
    Undefined,
    Index(u128),
    Array4([u8; 4]),
}
#[derive(Copy, Clone, Debug, PartialEq, Eq)]
pub enum Fungibility {
    Fungible(u128),
    NonFungible(AssetInstance),
}
#[derive(Copy, Clone, Debug, PartialEq, Eq)]
pub struct AssetId(pub Location);
#[derive(Copy, Clone, Debug, PartialEq, Eq)]
pub struct Asset {
    pub id: AssetId,
    pub fun: Fungibility,
}

/// As what the sender wants to act.
#[derive(Copy, Clone, Debug, PartialEq, Eq)]
pub enum OriginKind {
    Native,
    SovereignAccount,
    Superuser,
    Xcm,
}

/// Several assets; nothing looks into them.
#[derive(Copy, Clone, Debug, PartialEq, Eq)]
pub struct Assets(u8);
pub const MAX_ITEMS_IN_ASSETS: usize = 20;
static SOME: [Asset; MAX_ITEMS_IN_ASSETS] =
    [Asset { id: AssetId(Location::here()), fun: Fungibility::Fungible(1) }; MAX_ITEMS_IN_ASSETS];
impl Assets {
    pub fn of(n: u8) -> Self {
        Assets(n)
    }
    pub fn inner(&self) -> &[Asset] {
        &SOME[..self.0 as usize]
    }
    pub fn len(&self) -> usize {
        self.0 as usize
    }
}
#[derive(Copy, Clone, Debug, PartialEq, Eq)]
pub enum WildFungibility {
    Fungible,
    NonFungible,
}
#[derive(Copy, Clone, Debug, PartialEq, Eq)]
pub enum WildAsset {
    All,
    AllOf { id: AssetId, fun: WildFungibility },
    AllCounted(u32),
    AllOfCounted { id: AssetId, fun: WildFungibility, count: u32 },
}
#[derive(Copy, Clone, Debug, PartialEq, Eq)]
pub enum AssetFilter {
    Definite(Assets),
    Wild(WildAsset),
}
/// Parts of instructions that nothing looks into.
#[derive(Copy, Clone, Debug, PartialEq, Eq)]
pub enum Response {
    Null,
}
#[derive(Copy, Clone, Debug, PartialEq, Eq)]
pub struct QueryResponseInfo;
#[derive(Copy, Clone, Debug, PartialEq, Eq)]
pub enum MaybeErrorCode {
    Success,
}
#[derive(Copy, Clone, Debug, PartialEq, Eq)]
pub enum Error {
    Overflow,
}
#[derive(Copy, Clone, Debug, PartialEq, Eq)]
pub enum WeightLimit {
    Unlimited,
    Limited(crate::frame_support::weights::Weight),
}
pub type QueryId = u64;
pub struct Xcm<Call>(pub core::marker::PhantomData<Call>);
pub struct DoubleEncoded<Call>(pub core::marker::PhantomData<Call>);

macro_rules! weights {
    ($($f:ident($($a:ident: $t:ty),*);)*) => {
        /// What each instruction weighs.
        pub trait XcmWeightInfo<Call> {
            $(fn $f($($a: &$t),*) -> crate::frame_support::weights::Weight;)*
        }
    };
}
weights! {
    withdraw_asset(assets: Assets);
    reserve_asset_deposited(assets: Assets);
    receive_teleported_asset(assets: Assets);
    query_response(id: u64, response: Response, most: crate::frame_support::weights::Weight, querier: Option<Location>);
    transfer_asset(assets: Assets, to: Location);
    transfer_reserve_asset(assets: Assets, to: Location, xcm: Xcm<()>);
    transact(kind: OriginKind, most: crate::frame_support::weights::Weight, call: DoubleEncoded<Call>);
    hrmp_new_channel_open_request(sender: u32, size: u32, capacity: u32);
    hrmp_channel_accepted(recipient: u32);
    hrmp_channel_closing(initiator: u32, sender: u32, recipient: u32);
    clear_origin();
    descend_origin(who: Junctions);
    report_error(info: QueryResponseInfo);
    deposit_asset(assets: AssetFilter, to: Location);
    deposit_reserve_asset(assets: AssetFilter, to: Location, xcm: Xcm<()>);
    exchange_asset(give: AssetFilter, receive: Assets, maximal: bool);
    initiate_reserve_withdraw(assets: AssetFilter, reserve: Location, xcm: Xcm<()>);
    initiate_teleport(assets: AssetFilter, to: Location, xcm: Xcm<()>);
    report_holding(info: QueryResponseInfo, assets: AssetFilter);
    buy_execution(fees: Asset, limit: WeightLimit);
    refund_surplus();
    set_error_handler(xcm: Xcm<Call>);
    set_appendix(xcm: Xcm<Call>);
    clear_error();
    claim_asset(assets: Assets, ticket: Location);
    trap(code: u64);
    subscribe_version(id: QueryId, most: crate::frame_support::weights::Weight);
    unsubscribe_version();
    burn_asset(assets: Assets);
    expect_asset(assets: Assets);
    expect_origin(origin: Option<Location>);
    expect_error(error: Option<(u32, Error)>);
    expect_transact_status(status: MaybeErrorCode);
    query_pallet(name: crate::collections::Vec<u8>, info: QueryResponseInfo);
    expect_pallet(index: u32, name: crate::collections::Vec<u8>, module: crate::collections::Vec<u8>, major: u32, minor: u32);
    report_transact_status(info: QueryResponseInfo);
    clear_transact_status();
    universal_origin(j: Junction);
    export_message(network: NetworkId, to: Junctions, xcm: Xcm<()>);
    lock_asset(asset: Asset, unlocker: Location);
    unlock_asset(asset: Asset, target: Location);
    note_unlockable(asset: Asset, owner: Location);
    request_unlock(asset: Asset, locker: Location);
    set_fees_mode(jit: bool);
    set_topic(topic: [u8; 32]);
    clear_topic();
    alias_origin(to: Location);
    unpaid_execution(limit: WeightLimit, checker: Option<Location>);
}

pub mod latest {
    pub use super::*;
    pub mod prelude {
        pub use super::super::Fungibility::*;
        pub use super::super::Junction::*;
        pub use super::super::{
            Asset, AssetId, AssetInstance, BodyId, BodyPart, Fungibility, InteriorLocation, Junction, Junctions,
            Location, NetworkId, OriginKind,
            AssetFilter, Assets, Error as XcmError, MaybeErrorCode, QueryId, QueryResponseInfo, Response, WeightLimit,
            WildAsset, WildFungibility, Xcm, XcmWeightInfo,
        };
        pub use super::super::AssetFilter::*;
        pub use super::super::WildAsset::*;
    }
}
