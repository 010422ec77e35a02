//! What the parts of the Kreivo runtime are written against: its origins, calls and the interfaces
//! of the pallets it is made of.
use crate::origins::pallet_custom_origins;
use parity_scale_codec::{Decode, Encode, MaxEncodedLen};
use scale_info::TypeInfo;
use shim::frame_support::dispatch::{DispatchInfo, GetDispatchInfo, PostDispatchInfo};
use shim::frame_support::traits::schedule::{v3, DispatchTime, Period};
use shim::frame_support::traits::{
    fungible, fungibles, Bounded, CallerTrait, ConstU32, Get, IsSubType, OriginTrait, PollStatus, Polling,
    QueryPreimage, StorePreimage,
};
use shim::frame_support::weights::constants::RocksDbWeight;
use shim::frame_support::PalletId;
use shim::frame_system::{self, RawOrigin};
use shim::memberships::{self, GenericRank};
use shim::sp_runtime::traits::{AccountIdConversion, BlakeTwo256, Dispatchable, IdentityLookup};
use shim::sp_runtime::{DispatchError, DispatchResult, DispatchResultWithInfo, Percent};
use shim::tokens::{Fortitude, Precision, Preservation, Restriction};
pub use virto_common::{AsFungibleAssetLocation, CommunityId, FungibleAssetLocation, MembershipId};

pub type AccountId = shim::sp_runtime::AccountId32;
pub type Balance = u128;
pub type BlockNumber = u32;

#[derive(Clone, Debug, PartialEq, Eq, TypeInfo, Encode, Decode, MaxEncodedLen)]
pub struct Runtime;

pub type Voice = pallet_communities::Origin<Runtime>;
#[allow(non_camel_case_types)]
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum OriginCaller {
    system(RawOrigin<AccountId>),
    Origins(pallet_custom_origins::Origin),
    Communities(Voice),
    CumulusXcm(crate::parts::cumulus_pallet_xcm::Origin),
    /// the place it came from is in `FROM`
    PolkadotXcm,
    /// any other kind of origin
    Other(u8),
}
pub static mut FROM: shim::xcm::Location = shim::xcm::Location::here();
shim::dummy_codec!(OriginCaller);
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct RuntimeOrigin {
    pub caller: OriginCaller,
}
macro_rules! origin {
    ($variant:ident, $t:ty) => {
        impl From<$t> for OriginCaller {
            fn from(o: $t) -> Self {
                OriginCaller::$variant(o)
            }
        }
        impl TryFrom<OriginCaller> for $t {
            type Error = OriginCaller;
            fn try_from(o: OriginCaller) -> Result<$t, OriginCaller> {
                match o {
                    OriginCaller::$variant(o) => Ok(o),
                    o => Err(o),
                }
            }
        }
        impl From<$t> for RuntimeOrigin {
            fn from(o: $t) -> Self {
                RuntimeOrigin { caller: o.into() }
            }
        }
        impl From<RuntimeOrigin> for Result<$t, RuntimeOrigin> {
            fn from(o: RuntimeOrigin) -> Self {
                match o.caller {
                    OriginCaller::$variant(o) => Ok(o),
                    caller => Err(RuntimeOrigin { caller }),
                }
            }
        }
    };
}
origin!(system, RawOrigin<AccountId>);
origin!(Origins, pallet_custom_origins::Origin);
origin!(Communities, Voice);
origin!(CumulusXcm, crate::parts::cumulus_pallet_xcm::Origin);
impl CallerTrait<AccountId> for OriginCaller {
    fn into_system(self) -> Option<RawOrigin<AccountId>> {
        match self {
            OriginCaller::system(o) => Some(o),
            _ => None,
        }
    }
    fn as_system_ref(&self) -> Option<&RawOrigin<AccountId>> {
        match self {
            OriginCaller::system(o) => Some(o),
            _ => None,
        }
    }
}
impl From<OriginCaller> for RuntimeOrigin {
    fn from(caller: OriginCaller) -> Self {
        RuntimeOrigin { caller }
    }
}
impl OriginTrait for RuntimeOrigin {
    type Call = RuntimeCall;
    type PalletsOrigin = OriginCaller;
    type AccountId = AccountId;
    fn caller(&self) -> &OriginCaller {
        &self.caller
    }
    fn into_caller(self) -> OriginCaller {
        self.caller
    }
}

/// The calls of pallets whose contents nothing here looks at.
#[derive(Copy, Clone, Debug, PartialEq, Eq)]
pub struct Opaque(pub u8);

macro_rules! calls {
    ($($m:ident: $($c:ident)*;)*) => {
        $(pub mod $m {
            pub use crate::parts::HasDeposit as Config;
            /// The pallet's calls, without their arguments.
            #[allow(non_camel_case_types)]
            #[derive(Copy, Clone, Debug, PartialEq, Eq)]
            pub enum Call { $($c {},)* }
            impl Call {
                pub fn any() -> Self {
                    let all = [$(Call::$c {},)*];
                    let i = vk::any_below(all.len() as u8);
                    all[i as usize]
                }
            }
        })*
    };
}
calls! {
    pallet_balances: transfer_allow_death force_transfer transfer_keep_alive transfer_all force_unreserve
        upgrade_accounts force_set_balance force_adjust_total_issuance burn;
    pallet_assets: create force_create start_destroy destroy_accounts destroy_approvals finish_destroy mint burn
        transfer transfer_keep_alive force_transfer freeze thaw freeze_asset thaw_asset transfer_ownership set_team
        set_metadata clear_metadata force_set_metadata force_clear_metadata force_asset_status approve_transfer
        cancel_approval force_cancel_approval transfer_approved touch refund set_min_balance touch_other refund_other
        block;
    pallet_proxy: proxy add_proxy remove_proxy remove_proxies create_pure kill_pure announce remove_announcement
        reject_announcement proxy_announced;
}
macro_rules! runtime_call {
    ($($v:ident),*) => {
        #[derive(Clone, Debug, PartialEq, Eq)]
        pub enum RuntimeCall {
            Balances(pallet_balances::Call),
            Assets(pallet_assets::Call),
            Proxy(pallet_proxy::Call),
            $($v(Opaque),)*
        }
        impl RuntimeCall {
            pub fn any() -> Self {
                let kinds = [$(RuntimeCall::$v as fn(Opaque) -> RuntimeCall,)*];
                let _ = kinds;
                let i = vk::any_u8();
                match i {
                    0 => RuntimeCall::Balances(pallet_balances::Call::any()),
                    1 => RuntimeCall::Assets(pallet_assets::Call::any()),
                    2 => RuntimeCall::Proxy(pallet_proxy::Call::any()),
                    n => runtime_call!(@pick n 3 $($v)*),
                }
            }
        }
    };
    (@pick $n:ident $k:expr, ) => {{ vk::assume(false); unreachable!() }};
    (@pick $n:ident $k:expr) => {{ vk::assume(false); unreachable!() }};
    (@pick $n:ident $k:tt $v:ident $($rest:ident)*) => {
        if $n == $k { RuntimeCall::$v(Opaque(vk::any_u8())) } else { runtime_call!(@next $n ($k) $($rest)*) }
    };
    (@next $n:ident ($k:expr) $($rest:ident)*) => { runtime_call!(@pick2 $n ($k + 1) $($rest)*) };
    (@pick2 $n:ident ($k:expr)) => {{ vk::assume(false); unreachable!() }};
    (@pick2 $n:ident ($k:expr) $v:ident $($rest:ident)*) => {
        if $n == $k { RuntimeCall::$v(Opaque(vk::any_u8())) } else { runtime_call!(@pick2 $n ($k + 1) $($rest)*) }
    };
}
runtime_call!(
    System, ParachainSystem, Timestamp, ParachainInfo, Pass, Vesting, CollatorSelection, Session, XcmpQueue,
    PolkadotXcm, CumulusXcm, MessageQueue, Multisig, Utility, Scheduler, Preimage, Treasury, KreivoCollective,
    KreivoReferenda, Payments, Communities, CommunityTracks, CommunityReferenda, CommunityMemberships,
    CommunitiesManager, Contracts
);
shim::dummy_codec!(RuntimeCall);
impl From<pallet_communities::Call<Runtime>> for RuntimeCall {
    fn from(_: pallet_communities::Call<Runtime>) -> Self {
        RuntimeCall::Communities(Opaque(0))
    }
}
impl From<pallet_payments::Call<Runtime>> for RuntimeCall {
    fn from(_: pallet_payments::Call<Runtime>) -> Self {
        RuntimeCall::Payments(Opaque(0))
    }
}
impl From<frame_system::Call<Runtime>> for RuntimeCall {
    fn from(_: frame_system::Call<Runtime>) -> Self {
        RuntimeCall::System(Opaque(0))
    }
}
impl IsSubType<pallet_communities::Call<Runtime>> for RuntimeCall {
    fn is_sub_type(&self) -> Option<&pallet_communities::Call<Runtime>> {
        None
    }
}
impl GetDispatchInfo for RuntimeCall {
    fn get_dispatch_info(&self) -> DispatchInfo {
        Default::default()
    }
}
impl Dispatchable for RuntimeCall {
    type RuntimeOrigin = RuntimeOrigin;
    type Config = ();
    type Info = DispatchInfo;
    type PostInfo = PostDispatchInfo;
    fn dispatch(self, _: RuntimeOrigin) -> DispatchResultWithInfo<PostDispatchInfo> {
        no("dispatching")
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum RuntimeEvent {
    Communities(pallet_communities::Event<Runtime>),
    Payments(pallet_payments::Event<Runtime>),
}
impl From<pallet_communities::Event<Runtime>> for RuntimeEvent {
    fn from(e: pallet_communities::Event<Runtime>) -> Self {
        RuntimeEvent::Communities(e)
    }
}
impl From<pallet_payments::Event<Runtime>> for RuntimeEvent {
    fn from(e: pallet_payments::Event<Runtime>) -> Self {
        RuntimeEvent::Payments(e)
    }
}
impl TryFrom<RuntimeEvent> for pallet_payments::Event<Runtime> {
    type Error = ();
    fn try_from(e: RuntimeEvent) -> Result<Self, ()> {
        match e {
            RuntimeEvent::Payments(e) => Ok(e),
            _ => Err(()),
        }
    }
}

pub static mut NOW: BlockNumber = 0;
pub static mut INDEX: Option<u32> = None;
impl frame_system::Config for Runtime {
    type AccountId = AccountId;
    type BlockNumber = BlockNumber;
    type RuntimeOrigin = RuntimeOrigin;
    type RuntimeCall = RuntimeCall;
    type RuntimeEvent = RuntimeEvent;
    type Hashing = BlakeTwo256;
    type Lookup = IdentityLookup<AccountId>;
    type DbWeight = RocksDbWeight;
    fn block_number() -> u32 {
        unsafe { NOW }
    }
    fn extrinsic_index() -> Option<u32> {
        unsafe { INDEX }
    }
}
/// Hashes of known blocks; zeroes for the others, as the system pallet has it.
pub static mut KNOWN: [(BlockNumber, [u8; 32]); 4] = [(0, [0; 32]); 4];
pub struct System;
impl System {
    pub fn block_number() -> BlockNumber {
        frame_system::Pallet::<Runtime>::block_number()
    }
    pub fn extrinsic_index() -> Option<u32> {
        frame_system::Pallet::<Runtime>::extrinsic_index()
    }
    pub fn block_hash(n: impl core::borrow::Borrow<BlockNumber>) -> shim::sp_runtime::H256 {
        let n = *n.borrow();
        unsafe {
            let mut i = 0;
            while i < 4 {
                if KNOWN[i].0 == n {
                    return shim::sp_runtime::H256(KNOWN[i].1);
                }
                i += 1;
            }
        }
        shim::sp_runtime::H256([0; 32])
    }
}

fn no(what: &str) -> ! {
    shim::out_of_bounds(what)
}

// --- tokens

pub static mut MINIMUM: [Balance; 2] = [0; 2];
/// The asset whose minimum balance is `MINIMUM[0]`; that of any other is `MINIMUM[1]`.
pub static mut ASSET: FungibleAssetLocation = FungibleAssetLocation::Here(0);
pub struct Balances;
pub struct Assets;
pub type AssetsFreezer = Assets;
#[derive(Copy, Clone, Debug, PartialEq, Eq, Encode, Decode, MaxEncodedLen, TypeInfo)]
pub struct RuntimeFreezeReason(pallet_communities::FreezeReason);
impl From<pallet_communities::FreezeReason> for RuntimeFreezeReason {
    fn from(r: pallet_communities::FreezeReason) -> Self {
        RuntimeFreezeReason(r)
    }
}
#[derive(Copy, Clone, Debug, PartialEq, Eq, Encode, Decode, MaxEncodedLen, TypeInfo)]
pub struct RuntimeHoldReason(pallet_payments::HoldReason);
impl From<pallet_payments::HoldReason> for RuntimeHoldReason {
    fn from(r: pallet_payments::HoldReason) -> Self {
        RuntimeHoldReason(r)
    }
}
impl fungible::Inspect<AccountId> for Balances {
    type Balance = Balance;
    fn total_issuance() -> Balance {
        no("tokens")
    }
    fn minimum_balance() -> Balance {
        no("tokens")
    }
    fn total_balance(_: &AccountId) -> Balance {
        no("tokens")
    }
    fn balance(_: &AccountId) -> Balance {
        no("tokens")
    }
    fn reducible_balance(_: &AccountId, _: Preservation, _: Fortitude) -> Balance {
        no("tokens")
    }
}
impl fungible::Mutate<AccountId> for Balances {
    fn mint_into(_: &AccountId, _: Balance) -> Result<Balance, DispatchError> {
        no("tokens")
    }
    fn burn_from(_: &AccountId, _: Balance, _: Precision, _: Fortitude) -> Result<Balance, DispatchError> {
        no("tokens")
    }
    fn transfer(_: &AccountId, _: &AccountId, _: Balance, _: Preservation) -> Result<Balance, DispatchError> {
        no("tokens")
    }
}
impl fungible::freeze::Inspect<AccountId> for Balances {
    type Id = RuntimeFreezeReason;
    fn balance_frozen(_: &Self::Id, _: &AccountId) -> Balance {
        no("tokens")
    }
    fn can_freeze(_: &Self::Id, _: &AccountId) -> bool {
        no("tokens")
    }
}
impl fungible::freeze::Mutate<AccountId> for Balances {
    fn set_freeze(_: &Self::Id, _: &AccountId, _: Balance) -> DispatchResult {
        no("tokens")
    }
    fn extend_freeze(_: &Self::Id, _: &AccountId, _: Balance) -> DispatchResult {
        no("tokens")
    }
    fn thaw(_: &Self::Id, _: &AccountId) -> DispatchResult {
        no("tokens")
    }
}
type Fal = FungibleAssetLocation;
impl fungibles::Inspect<AccountId> for Assets {
    type AssetId = Fal;
    type Balance = Balance;
    fn asset_exists(_: Fal) -> bool {
        no("tokens")
    }
    fn total_issuance(_: Fal) -> Balance {
        no("tokens")
    }
    fn minimum_balance(a: Fal) -> Balance {
        unsafe {
            if a == ASSET {
                MINIMUM[0]
            } else {
                MINIMUM[1]
            }
        }
    }
    fn total_balance(_: Fal, _: &AccountId) -> Balance {
        no("tokens")
    }
    fn balance(_: Fal, _: &AccountId) -> Balance {
        no("tokens")
    }
    fn reducible_balance(_: Fal, _: &AccountId, _: Preservation, _: Fortitude) -> Balance {
        no("tokens")
    }
}
impl fungibles::Mutate<AccountId> for Assets {
    fn mint_into(_: Fal, _: &AccountId, _: Balance) -> Result<Balance, DispatchError> {
        no("tokens")
    }
    fn burn_from(_: Fal, _: &AccountId, _: Balance, _: Precision, _: Fortitude) -> Result<Balance, DispatchError> {
        no("tokens")
    }
    fn transfer(_: Fal, _: &AccountId, _: &AccountId, _: Balance, _: Preservation) -> Result<Balance, DispatchError> {
        no("tokens")
    }
}
impl fungibles::Balanced<AccountId> for Assets {}
impl fungibles::Create<AccountId> for Assets {
    fn create(_: Fal, _: AccountId, _: bool, _: Balance) -> DispatchResult {
        no("tokens")
    }
}
impl fungibles::freeze::Inspect<AccountId> for Assets {
    type Id = RuntimeFreezeReason;
    fn balance_frozen(_: Fal, _: &Self::Id, _: &AccountId) -> Balance {
        no("tokens")
    }
    fn can_freeze(_: Fal, _: &Self::Id, _: &AccountId) -> bool {
        no("tokens")
    }
}
impl fungibles::freeze::Mutate<AccountId> for Assets {
    fn set_freeze(_: Fal, _: &Self::Id, _: &AccountId, _: Balance) -> DispatchResult {
        no("tokens")
    }
    fn extend_freeze(_: Fal, _: &Self::Id, _: &AccountId, _: Balance) -> DispatchResult {
        no("tokens")
    }
    fn thaw(_: Fal, _: &Self::Id, _: &AccountId) -> DispatchResult {
        no("tokens")
    }
}
impl fungibles::hold::Inspect<AccountId> for Assets {
    type Reason = RuntimeHoldReason;
    fn total_balance_on_hold(_: Fal, _: &AccountId) -> Balance {
        no("tokens")
    }
    fn balance_on_hold(_: Fal, _: &Self::Reason, _: &AccountId) -> Balance {
        no("tokens")
    }
    fn can_hold(_: Fal, _: &Self::Reason, _: &AccountId, _: Balance) -> bool {
        no("tokens")
    }
}
impl fungibles::hold::Mutate<AccountId> for Assets {
    fn hold(_: Fal, _: &Self::Reason, _: &AccountId, _: Balance) -> DispatchResult {
        no("tokens")
    }
    fn release(_: Fal, _: &Self::Reason, _: &AccountId, _: Balance, _: Precision) -> Result<Balance, DispatchError> {
        no("tokens")
    }
    fn burn_held(
        _: Fal,
        _: &Self::Reason,
        _: &AccountId,
        _: Balance,
        _: Precision,
        _: Fortitude,
    ) -> Result<Balance, DispatchError> {
        no("tokens")
    }
    fn transfer_on_hold(
        _: Fal,
        _: &Self::Reason,
        _: &AccountId,
        _: &AccountId,
        _: Balance,
        _: Precision,
        _: Restriction,
        _: Fortitude,
    ) -> Result<Balance, DispatchError> {
        no("tokens")
    }
    fn transfer_and_hold(
        _: Fal,
        _: &Self::Reason,
        _: &AccountId,
        _: &AccountId,
        _: Balance,
        _: Precision,
        _: Preservation,
        _: Fortitude,
    ) -> Result<Balance, DispatchError> {
        no("tokens")
    }
}

// --- memberships and polls

/// The one membership there is, number 1: its community and owner.
pub static mut MEMBERSHIP: (CommunityId, AccountId) = (0, shim::sp_runtime::AccountId32([0; 32]));
pub struct CommunityMemberships;
impl memberships::Inspect<AccountId> for CommunityMemberships {
    type Group = CommunityId;
    type Membership = MembershipId;
    fn user_memberships(
        who: &AccountId,
        group: Option<CommunityId>,
    ) -> Box<dyn Iterator<Item = (CommunityId, MembershipId)>> {
        let of = unsafe { MEMBERSHIP.0 };
        let own = unsafe { MEMBERSHIP.1 } == *who && group.unwrap_or(of) == of;
        Box::new(own.then_some((of, 1)).into_iter())
    }
    fn is_member_of(group: &CommunityId, who: &AccountId) -> bool {
        unsafe { MEMBERSHIP.0 == *group && MEMBERSHIP.1 == *who }
    }
    fn check_membership(who: &AccountId, m: &MembershipId) -> Option<CommunityId> {
        unsafe { (MEMBERSHIP.1 == *who && *m == 1).then_some(MEMBERSHIP.0) }
    }
    fn members_total(group: &CommunityId) -> u32 {
        unsafe { (MEMBERSHIP.0 == *group) as u32 }
    }
}
impl memberships::Manager<AccountId, ()> for CommunityMemberships {
    fn assign(_: &CommunityId, _: &MembershipId, _: &AccountId) -> Result<(), DispatchError> {
        no("memberships")
    }
    fn release(_: &CommunityId, _: &MembershipId) -> Result<(), DispatchError> {
        no("memberships")
    }
}
impl memberships::Rank<AccountId, ()> for CommunityMemberships {
    fn rank_of(_: &CommunityId, _: &MembershipId) -> Option<GenericRank> {
        no("memberships")
    }
    fn set_rank(_: &CommunityId, _: &MembershipId, _: impl Into<GenericRank>) -> Result<(), DispatchError> {
        no("memberships")
    }
    fn ranks_total(_: &CommunityId) -> u32 {
        no("memberships")
    }
}
pub struct CommunityReferenda;
type Tally = pallet_communities::Tally<Runtime>;
impl Polling<Tally> for CommunityReferenda {
    type Index = u32;
    type Votes = u32;
    type Class = CommunityId;
    type Moment = u32;
    fn classes() -> std::vec::Vec<CommunityId> {
        no("polls")
    }
    fn as_ongoing(_: u32) -> Option<(Tally, CommunityId)> {
        no("polls")
    }
    fn access_poll<R>(_: u32, _: impl FnOnce(PollStatus<&mut Tally, u32, CommunityId>) -> R) -> R {
        no("polls")
    }
    fn try_access_poll<R>(
        _: u32,
        _: impl FnOnce(PollStatus<&mut Tally, u32, CommunityId>) -> Result<R, DispatchError>,
    ) -> Result<R, DispatchError> {
        no("polls")
    }
}
/// The one track there is: the origin it belongs to and its id.
pub static mut TRACK: (Option<OriginCaller>, CommunityId) = (None, 0);
pub struct CommunityTracks;
impl CommunityTracks {
    pub fn track_for(o: &OriginCaller) -> Result<CommunityId, ()> {
        unsafe {
            match &TRACK.0 {
                Some(t) if t == o => Ok(TRACK.1),
                _ => Err(()),
            }
        }
    }
}

// --- scheduling

pub struct Scheduler;
impl v3::Named<BlockNumber, RuntimeCall, OriginCaller> for Scheduler {
    type Address = ();
    type Hasher = BlakeTwo256;
    fn schedule_named(
        _: v3::TaskName,
        _: DispatchTime<BlockNumber>,
        _: Option<Period<BlockNumber>>,
        _: u8,
        _: OriginCaller,
        _: Bounded<RuntimeCall, BlakeTwo256>,
    ) -> Result<(), DispatchError> {
        no("scheduling")
    }
    fn cancel_named(_: v3::TaskName) -> Result<(), DispatchError> {
        no("scheduling")
    }
    fn reschedule_named(_: v3::TaskName, _: DispatchTime<BlockNumber>) -> Result<(), DispatchError> {
        no("scheduling")
    }
    fn next_dispatch_time(_: v3::TaskName) -> Result<BlockNumber, DispatchError> {
        no("scheduling")
    }
}
pub struct Preimage;
impl QueryPreimage for Preimage {
    type H = BlakeTwo256;
}
impl StorePreimage for Preimage {}

pub struct Treasury;
impl Treasury {
    pub fn account_id() -> AccountId {
        PalletId(*b"py/trsry").into_account_truncating()
    }
}
pub struct PolkadotXcm;
impl PolkadotXcm {
    pub fn check_account() -> AccountId {
        PalletId(*b"py/xcmch").into_account_truncating()
    }
}
pub struct ParachainInfo;
impl ParachainInfo {
    pub fn parachain_id() -> u32 {
        2281
    }
}
shim::parameter_types! {
    pub TreasuryAccount: AccountId = Treasury::account_id();
}

// --- the configuration of the pallets, as far as their types matter here

impl pallet_communities::Config for Runtime {
    type CommunityId = CommunityId;
    type MembershipId = MembershipId;
    type ItemConfig = ();
    type MemberMgmt = CommunityMemberships;
    type CreateOrigin = crate::communities::pallet_communities_config::CreateOrigin;
    type AdminOrigin = crate::communities::pallet_communities_config::AdminOrigin;
    type MemberMgmtOrigin = crate::communities::pallet_communities_config::MemberMgmtOrigin;
    type Polls = CommunityReferenda;
    type Assets = Assets;
    type AssetsFreezer = AssetsFreezer;
    type Balances = Balances;
    type RuntimeCall = RuntimeCall;
    type RuntimeOrigin = RuntimeOrigin;
    type RuntimeFreezeReason = RuntimeFreezeReason;
    type RuntimeEvent = RuntimeEvent;
    type WeightInfo = ();
    type PalletId = crate::communities::pallet_communities_config::PalletId;
}
impl pallet_payments::Config for Runtime {
    type RuntimeEvent = RuntimeEvent;
    type PalletsOrigin = OriginCaller;
    type RuntimeCall = RuntimeCall;
    type Assets = Assets;
    type AssetsBalance = Balance;
    type FeeHandler = crate::payments::pallet_payments_config::FeeHandler;
    type SenderOrigin = crate::payments::pallet_payments_config::SenderOrigin;
    type BeneficiaryOrigin = crate::payments::pallet_payments_config::BeneficiaryOrigin;
    type DisputeResolver = crate::payments::pallet_payments_config::DisputeResolver;
    type PaymentId = crate::payments::pallet_payments_config::PaymentId;
    type Scheduler = Scheduler;
    type Preimages = Preimage;
    type RuntimeHoldReason = RuntimeHoldReason;
    type WeightInfo = ();
    type PalletId = crate::payments::pallet_payments_config::PalletId;
    type IncentivePercentage = crate::payments::pallet_payments_config::IncentivePercentage;
    type MaxRemarkLength = ConstU32<3>;
    type MaxFees = ConstU32<3>;
    type MaxDiscounts = ConstU32<3>;
    type CancelBufferBlockLength = crate::payments::pallet_payments_config::CancelBufferBlockLength;
}
/// The percentage of an amount that is rounded down.
pub fn share(p: Percent, n: Balance) -> Balance {
    p.mul_floor(n)
}
pub fn get<T, G: Get<T>>() -> T {
    G::get()
}
