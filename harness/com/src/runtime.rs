//! A runtime around the communities pallet.
use pallet_communities::origin::{EnsureCommunity, EnsureSignedPays};
use pallet_communities::{DecisionMethod, Tally, Vote};
use parity_scale_codec::{Decode, Encode, MaxEncodedLen};
use scale_info::TypeInfo;
use shim::frame_support::dispatch::{DispatchInfo, GetDispatchInfo, PostDispatchInfo};
use shim::frame_support::traits::{
    fungible, fungibles, nonfungibles_v2, CallerTrait, EitherOf, Get, IsSubType, OriginTrait, PollStatus, Polling, RankedMembers, TypedGet,
    UnfilteredDispatchable,
};
use shim::frame_support::weights::constants::RocksDbWeight;
use shim::frame_support::PalletId;
use shim::frame_system::{self, EnsureRoot, EnsureRootWithSuccess, RawOrigin};
use shim::memberships::{self, GenericRank};
use shim::sp_runtime::traits::{BlakeTwo256, Dispatchable, FromPalletId, IdentityLookup};
use shim::sp_runtime::{DispatchError, DispatchResult, DispatchResultWithInfo, TokenError};
use shim::tokens::{Fortitude, Precision, Preservation};

pub type Bal = u64;
pub type Cid = u16;
pub type Mid = u8;
pub type AVote = Vote<u8, Bal, Bal>;
pub type Method = DecisionMethod<u8, Bal>;

#[derive(Copy, Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Encode, Decode, MaxEncodedLen, TypeInfo)]
pub struct Acc(pub u32);
/// People and the treasury come first, then the pallet's account and those of communities.
pub const PEOPLE: usize = 3;
pub const TREASURY: Acc = Acc(3);
pub const ACCOUNTS: usize = 4;
pub const PALLET_ACCOUNT: Acc = Acc(0xffff);
pub const fn account_of(id: Cid) -> Acc {
    Acc(0x10000 + id as u32)
}
impl FromPalletId for Acc {
    fn from_pallet(_: &[u8; 8], sub: &[u8]) -> Self {
        if sub.len() == 2 {
            account_of(u16::from_le_bytes([sub[0], sub[1]]))
        } else {
            PALLET_ACCOUNT
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq, TypeInfo, Encode, Decode, MaxEncodedLen)]
pub struct Test;

pub type Voice = pallet_communities::Origin<Test>;
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Caller {
    System(RawOrigin<Acc>),
    Community(Voice),
    /// any other kind of origin, such as those of other chains or of ranks
    Other(u8),
}
shim::dummy_codec!(Caller);
impl From<RawOrigin<Acc>> for Caller {
    fn from(o: RawOrigin<Acc>) -> Self {
        Caller::System(o)
    }
}
impl From<Voice> for Caller {
    fn from(o: Voice) -> Self {
        Caller::Community(o)
    }
}
impl CallerTrait<Acc> for Caller {
    fn into_system(self) -> Option<RawOrigin<Acc>> {
        match self {
            Caller::System(o) => Some(o),
            _ => None,
        }
    }
    fn as_system_ref(&self) -> Option<&RawOrigin<Acc>> {
        match self {
            Caller::System(o) => Some(o),
            _ => None,
        }
    }
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Origin(pub Caller);
impl From<RawOrigin<Acc>> for Origin {
    fn from(o: RawOrigin<Acc>) -> Self {
        Origin(Caller::System(o))
    }
}
impl From<Voice> for Origin {
    fn from(o: Voice) -> Self {
        Origin(Caller::Community(o))
    }
}
impl From<Caller> for Origin {
    fn from(c: Caller) -> Self {
        Origin(c)
    }
}
impl From<Origin> for Result<RawOrigin<Acc>, Origin> {
    fn from(o: Origin) -> Self {
        match o.0 {
            Caller::System(s) => Ok(s),
            _ => Err(o),
        }
    }
}
impl From<Origin> for Result<Voice, Origin> {
    fn from(o: Origin) -> Self {
        match o.0 {
            Caller::Community(s) => Ok(s),
            _ => Err(o),
        }
    }
}
impl OriginTrait for Origin {
    type Call = Call;
    type PalletsOrigin = Caller;
    type AccountId = Acc;
    fn caller(&self) -> &Caller {
        &self.0
    }
    fn into_caller(self) -> Caller {
        self.0
    }
}

/// A call that only reports who made it.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Call {
    Communities(pallet_communities::Call<Test>),
    Probe(u8),
}
shim::dummy_codec!(Call);
impl From<pallet_communities::Call<Test>> for Call {
    fn from(c: pallet_communities::Call<Test>) -> Self {
        Call::Communities(c)
    }
}
impl From<frame_system::Call<Test>> for Call {
    fn from(_: frame_system::Call<Test>) -> Self {
        Call::Probe(0)
    }
}
impl IsSubType<pallet_communities::Call<Test>> for Call {
    fn is_sub_type(&self) -> Option<&pallet_communities::Call<Test>> {
        match self {
            Call::Communities(c) => Some(c),
            _ => None,
        }
    }
}
impl GetDispatchInfo for Call {
    fn get_dispatch_info(&self) -> DispatchInfo {
        Default::default()
    }
}
pub static mut PROBED: Option<(u8, Caller)> = None;
pub static mut PROBES: u32 = 0;
pub static mut PROBE_FAILS: bool = false;
impl Dispatchable for Call {
    type RuntimeOrigin = Origin;
    type Config = ();
    type Info = DispatchInfo;
    type PostInfo = PostDispatchInfo;
    fn dispatch(self, o: Origin) -> DispatchResultWithInfo<PostDispatchInfo> {
        match self {
            Call::Communities(c) => c.dispatch_bypass_filter(o),
            Call::Probe(n) => unsafe {
                PROBES += 1;
                PROBED = Some((n, o.0));
                if PROBE_FAILS {
                    return Err(DispatchError::Other("probe").into());
                }
                Ok(().into())
            },
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Event {
    Communities(pallet_communities::Event<Test>),
    Manager(pallet_communities_manager::Event<Test>),
}
impl From<pallet_communities::Event<Test>> for Event {
    fn from(e: pallet_communities::Event<Test>) -> Self {
        Event::Communities(e)
    }
}
impl From<pallet_communities_manager::Event<Test>> for Event {
    fn from(e: pallet_communities_manager::Event<Test>) -> Self {
        Event::Manager(e)
    }
}
pub static mut EVENTS: u32 = 0;
pub static mut LAST_EVENT: Option<Event> = None;
pub static mut PROVIDED: [Option<Acc>; 2] = [None, None];

impl frame_system::Config for Test {
    type AccountId = Acc;
    type BlockNumber = u32;
    type RuntimeOrigin = Origin;
    type RuntimeCall = Call;
    type RuntimeEvent = Event;
    type Hashing = BlakeTwo256;
    type Lookup = IdentityLookup<Acc>;
    type DbWeight = RocksDbWeight;
    fn block_number() -> u32 {
        1
    }
    fn on_event(e: Event) {
        unsafe {
            EVENTS += 1;
            LAST_EVENT = Some(e);
        }
    }
    fn on_inc_providers(a: &Acc) {
        unsafe {
            if PROVIDED[0].is_none() {
                PROVIDED[0] = Some(*a)
            } else {
                PROVIDED[1] = Some(*a)
            }
        }
    }
}

// --- memberships

/// A membership: who has it, of which community, and its rank there.
#[derive(Copy, Clone, PartialEq, Eq, Debug)]
pub struct Member {
    pub owner: Acc,
    pub group: Cid,
    pub rank: u8,
}
pub const MEMBERS: usize = 3;
/// Where memberships belong that are not assigned; their owner is the community that may give them out.
pub const POOL: Cid = 0xffff;
pub static mut MEMBER: [Member; MEMBERS] = [Member { owner: Acc(0), group: 0, rank: 0 }; MEMBERS];
pub static mut MEMBERS_TOTAL: u32 = 0;
pub static mut RANKS_TOTAL: u32 = 0;
/// Whether the memberships pallet refuses changes.
pub static mut MEMBERS_REFUSE: bool = false;
pub fn member(m: Mid) -> Option<Member> {
    if (m as usize) < MEMBERS {
        Some(unsafe { MEMBER[m as usize] })
    } else {
        None
    }
}
pub struct Members;
impl memberships::Inspect<Acc> for Members {
    type Group = Cid;
    type Membership = Mid;
    fn user_memberships(who: &Acc, group: Option<Cid>) -> Box<dyn Iterator<Item = (Cid, Mid)>> {
        let mut v = Vec::new();
        let mut i = 0;
        while i < MEMBERS {
            let m = unsafe { MEMBER[i] };
            if m.owner == *who && (group.is_none() || group == Some(m.group)) {
                v.push((m.group, i as u8));
            }
            i += 1;
        }
        Box::new(v.into_iter())
    }
    fn is_member_of(group: &Cid, who: &Acc) -> bool {
        let mut yes = false;
        let mut i = 0;
        while i < MEMBERS {
            let m = unsafe { MEMBER[i] };
            yes |= m.owner == *who && m.group == *group;
            i += 1;
        }
        yes
    }
    fn check_membership(who: &Acc, m: &Mid) -> Option<Cid> {
        match member(*m) {
            Some(x) if x.owner == *who => Some(x.group),
            _ => None,
        }
    }
    fn members_total(_: &Cid) -> u32 {
        unsafe { MEMBERS_TOTAL }
    }
}
impl memberships::Manager<Acc, ()> for Members {
    fn assign(group: &Cid, m: &Mid, who: &Acc) -> Result<(), DispatchError> {
        if unsafe { MEMBERS_REFUSE } {
            return Err("refused".into());
        }
        match member(*m) {
            // assigned from the pool of the community
            Some(x) if x.owner == account_of(*group) && x.group == POOL => unsafe {
                MEMBER[*m as usize] = Member { owner: *who, group: *group, rank: 0 };
                Ok(())
            },
            _ => Err("no such membership".into()),
        }
    }
    fn release(group: &Cid, m: &Mid) -> Result<(), DispatchError> {
        if unsafe { MEMBERS_REFUSE } {
            return Err("refused".into());
        }
        match member(*m) {
            Some(x) if x.group == *group => unsafe {
                MEMBER[*m as usize] = Member { owner: account_of(*group), group: POOL, rank: 0 };
                Ok(())
            },
            _ => Err("no such membership".into()),
        }
    }
}
impl memberships::Rank<Acc, ()> for Members {
    fn rank_of(group: &Cid, m: &Mid) -> Option<GenericRank> {
        match member(*m) {
            Some(x) if x.group == *group => Some(GenericRank(x.rank)),
            _ => None,
        }
    }
    fn set_rank(group: &Cid, m: &Mid, rank: impl Into<GenericRank>) -> Result<(), DispatchError> {
        if unsafe { MEMBERS_REFUSE } {
            return Err("refused".into());
        }
        match member(*m) {
            Some(x) if x.group == *group => unsafe {
                MEMBER[*m as usize].rank = rank.into().into();
                Ok(())
            },
            _ => Err("no such membership".into()),
        }
    }
    fn ranks_total(_: &Cid) -> u32 {
        unsafe { RANKS_TOTAL }
    }
}

// --- polls

#[derive(Clone, Debug, PartialEq)]
pub enum Poll {
    None,
    Ongoing(Tally<Test>, Cid),
    Completed(bool),
}
pub const POLLS: usize = 2;
pub static mut POLL: [Poll; POLLS] = [Poll::None, Poll::None];
pub struct Polls;
impl Polling<Tally<Test>> for Polls {
    type Index = u32;
    type Votes = u32;
    type Class = Cid;
    type Moment = u32;
    fn classes() -> std::vec::Vec<Cid> {
        shim::out_of_bounds("classes of polls")
    }
    fn as_ongoing(i: u32) -> Option<(Tally<Test>, Cid)> {
        if i as usize >= POLLS {
            return None;
        }
        match unsafe { &POLL[i as usize] } {
            Poll::Ongoing(t, c) => Some((t.clone(), *c)),
            _ => None,
        }
    }
    fn access_poll<R>(i: u32, f: impl FnOnce(PollStatus<&mut Tally<Test>, u32, Cid>) -> R) -> R {
        if i as usize >= POLLS {
            return f(PollStatus::None);
        }
        match unsafe { &mut POLL[i as usize] } {
            Poll::None => f(PollStatus::None),
            Poll::Ongoing(t, c) => f(PollStatus::Ongoing(t, *c)),
            Poll::Completed(ok) => f(PollStatus::Completed(1, *ok)),
        }
    }
    /// The tally is written back only on success.
    fn try_access_poll<R>(
        i: u32,
        f: impl FnOnce(PollStatus<&mut Tally<Test>, u32, Cid>) -> Result<R, DispatchError>,
    ) -> Result<R, DispatchError> {
        if i as usize >= POLLS {
            return f(PollStatus::None);
        }
        match unsafe { &mut POLL[i as usize] } {
            Poll::None => f(PollStatus::None),
            Poll::Ongoing(t, c) => {
                let mut now = t.clone();
                let r = f(PollStatus::Ongoing(&mut now, *c))?;
                *t = now;
                Ok(r)
            }
            Poll::Completed(ok) => f(PollStatus::Completed(1, *ok)),
        }
    }
}

/// Votes counted in a tally: ayes, nays, ayes without multiplication.
#[derive(Copy, Clone, PartialEq, Eq, Debug)]
pub struct Count {
    pub ayes: u32,
    pub nays: u32,
    pub bare: u32,
}
/// A tally is stored by the referenda pallet, in this format.
pub fn tally(c: Count) -> Tally<Test> {
    let mut b = [0u8; 12];
    b[..4].copy_from_slice(&c.ayes.to_le_bytes());
    b[4..8].copy_from_slice(&c.nays.to_le_bytes());
    b[8..].copy_from_slice(&c.bare.to_le_bytes());
    match Tally::decode(&mut &b[..]) {
        Ok(t) => t,
        Err(_) => shim::out_of_bounds("format of a tally"),
    }
}
struct Buffer([u8; 12], usize);
impl parity_scale_codec::Output for Buffer {
    fn write(&mut self, b: &[u8]) {
        if self.1 + b.len() > 12 {
            shim::out_of_bounds("format of a tally");
        }
        self.0[self.1..self.1 + b.len()].copy_from_slice(b);
        self.1 += b.len();
    }
}
pub fn count(t: &Tally<Test>) -> Count {
    let mut b = Buffer([0; 12], 0);
    t.encode_to(&mut b);
    let n = |i: usize| u32::from_le_bytes([b.0[i], b.0[i + 1], b.0[i + 2], b.0[i + 3]]);
    Count { ayes: n(0), nays: n(4), bare: n(8) }
}

// --- tokens

#[derive(Copy, Clone, PartialEq, Eq, Debug)]
pub struct Coin {
    pub balance: Bal,
    pub frozen: Bal,
}
pub const ASSETS: usize = 2;
pub static mut NATIVE: [Coin; ACCOUNTS] = [Coin { balance: 0, frozen: 0 }; ACCOUNTS];
pub static mut ASSET: [[Coin; ACCOUNTS]; ASSETS] = [[Coin { balance: 0, frozen: 0 }; ACCOUNTS]; ASSETS];
pub static mut ISSUANCE: Bal = 0;
pub static mut ASSET_ISSUANCE: [Bal; ASSETS] = [0; ASSETS];
/// Whether freezing is refused.
pub static mut FREEZER_REFUSES: bool = false;
/// The last asset that was asked to be created: id, admin, sufficiency, minimum.
pub static mut CREATED: Option<(u8, Acc, bool, Bal)> = None;
pub static mut CREATE_FAILS: bool = false;
const NO: DispatchError = DispatchError::Token(TokenError::FundsUnavailable);

#[derive(Copy, Clone, Debug, PartialEq, Eq, Encode, Decode, MaxEncodedLen, TypeInfo)]
pub struct Reason(pallet_communities::FreezeReason);
impl From<pallet_communities::FreezeReason> for Reason {
    fn from(r: pallet_communities::FreezeReason) -> Self {
        Reason(r)
    }
}

pub struct Native;
fn coin(a: &Acc) -> &'static mut Coin {
    unsafe { &mut NATIVE[a.0 as usize] }
}
impl fungible::Inspect<Acc> for Native {
    type Balance = Bal;
    fn total_issuance() -> Bal {
        unsafe { ISSUANCE }
    }
    fn minimum_balance() -> Bal {
        1
    }
    fn total_balance(a: &Acc) -> Bal {
        coin(a).balance
    }
    fn balance(a: &Acc) -> Bal {
        coin(a).balance
    }
    fn reducible_balance(a: &Acc, p: Preservation, _: Fortitude) -> Bal {
        let b = coin(a).balance;
        if p == Preservation::Expendable {
            b
        } else {
            b.saturating_sub(1)
        }
    }
}
impl fungible::Mutate<Acc> for Native {
    fn mint_into(_: &Acc, _: Bal) -> Result<Bal, DispatchError> {
        shim::out_of_bounds("minting")
    }
    fn burn_from(_: &Acc, _: Bal, _: Precision, _: Fortitude) -> Result<Bal, DispatchError> {
        shim::out_of_bounds("burning")
    }
    fn transfer(from: &Acc, to: &Acc, n: Bal, p: Preservation) -> Result<Bal, DispatchError> {
        if <Native as fungible::Inspect<Acc>>::reducible_balance(from, p, Fortitude::Polite) < n {
            return Err(NO);
        }
        coin(from).balance -= n;
        coin(to).balance += n;
        Ok(n)
    }
}
impl fungible::freeze::Inspect<Acc> for Native {
    type Id = Reason;
    fn balance_frozen(_: &Reason, a: &Acc) -> Bal {
        coin(a).frozen
    }
    fn can_freeze(_: &Reason, _: &Acc) -> bool {
        true
    }
}
impl fungible::freeze::Mutate<Acc> for Native {
    fn set_freeze(_: &Reason, a: &Acc, n: Bal) -> DispatchResult {
        if unsafe { FREEZER_REFUSES } {
            return Err(NO);
        }
        coin(a).frozen = n;
        Ok(())
    }
    fn extend_freeze(r: &Reason, a: &Acc, n: Bal) -> DispatchResult {
        Self::set_freeze(r, a, n.max(coin(a).frozen))
    }
    fn thaw(r: &Reason, a: &Acc) -> DispatchResult {
        Self::set_freeze(r, a, 0)
    }
}

pub struct Assets;
fn token(id: u8, a: &Acc) -> &'static mut Coin {
    unsafe { &mut ASSET[id as usize][a.0 as usize] }
}
impl fungibles::Inspect<Acc> for Assets {
    type AssetId = u8;
    type Balance = Bal;
    fn asset_exists(_: u8) -> bool {
        unsafe { CREATE_FAILS }
    }
    fn total_issuance(id: u8) -> Bal {
        unsafe { ASSET_ISSUANCE[id as usize] }
    }
    fn minimum_balance(_: u8) -> Bal {
        1
    }
    fn total_balance(id: u8, a: &Acc) -> Bal {
        token(id, a).balance
    }
    fn balance(id: u8, a: &Acc) -> Bal {
        token(id, a).balance
    }
    fn reducible_balance(id: u8, a: &Acc, _: Preservation, _: Fortitude) -> Bal {
        token(id, a).balance
    }
}
impl fungibles::Mutate<Acc> for Assets {
    fn mint_into(_: u8, _: &Acc, _: Bal) -> Result<Bal, DispatchError> {
        shim::out_of_bounds("minting")
    }
    fn burn_from(_: u8, _: &Acc, _: Bal, _: Precision, _: Fortitude) -> Result<Bal, DispatchError> {
        shim::out_of_bounds("burning")
    }
    fn transfer(_: u8, _: &Acc, _: &Acc, _: Bal, _: Preservation) -> Result<Bal, DispatchError> {
        shim::out_of_bounds("transfer of assets")
    }
}
impl fungibles::Create<Acc> for Assets {
    fn create(id: u8, admin: Acc, sufficient: bool, min: Bal) -> DispatchResult {
        unsafe {
            CREATED = Some((id, admin, sufficient, min));
            if CREATE_FAILS {
                return Err("exists".into());
            }
        }
        Ok(())
    }
}
impl fungibles::freeze::Inspect<Acc> for Assets {
    type Id = Reason;
    fn balance_frozen(id: u8, _: &Reason, a: &Acc) -> Bal {
        token(id, a).frozen
    }
    fn can_freeze(_: u8, _: &Reason, _: &Acc) -> bool {
        true
    }
}
impl fungibles::freeze::Mutate<Acc> for Assets {
    fn set_freeze(id: u8, _: &Reason, a: &Acc, n: Bal) -> DispatchResult {
        if unsafe { FREEZER_REFUSES } {
            return Err(NO);
        }
        token(id, a).frozen = n;
        Ok(())
    }
    fn extend_freeze(id: u8, r: &Reason, a: &Acc, n: Bal) -> DispatchResult {
        Self::set_freeze(id, r, a, n.max(token(id, a).frozen))
    }
    fn thaw(id: u8, r: &Reason, a: &Acc) -> DispatchResult {
        Self::set_freeze(id, r, a, 0)
    }
}

// --- the pallet

pub const DEPOSIT: Bal = 1000;
pub struct Deposit;
impl TypedGet for Deposit {
    type Type = Bal;
    fn get() -> Bal {
        DEPOSIT
    }
}
pub struct Treasury;
impl TypedGet for Treasury {
    type Type = Acc;
    fn get() -> Acc {
        TREASURY
    }
}
pub struct Free;
impl TypedGet for Free {
    type Type = Option<(Bal, Acc, Acc)>;
    fn get() -> Self::Type {
        None
    }
}
pub struct ThisPallet;
impl Get<PalletId> for ThisPallet {
    fn get() -> PalletId {
        PalletId(*b"kv/cmtys")
    }
}

impl pallet_communities::Config for Test {
    type CommunityId = Cid;
    type MembershipId = Mid;
    type ItemConfig = ();
    type MemberMgmt = Members;
    type CreateOrigin = EitherOf<EnsureRootWithSuccess<Acc, Free>, EnsureSignedPays<Test, Deposit, Treasury>>;
    type AdminOrigin = EnsureCommunity<Test>;
    type MemberMgmtOrigin = EnsureCommunity<Test>;
    type Polls = Polls;
    type Assets = Assets;
    type AssetsFreezer = Assets;
    type Balances = Native;
    type RuntimeCall = Call;
    type RuntimeOrigin = Origin;
    type RuntimeFreezeReason = Reason;
    type RuntimeEvent = Event;
    type WeightInfo = ();
    type PalletId = ThisPallet;
}

// --- the manager of communities

pub type Collection = shim::nfts::CollectionConfig<Bal, u32, Cid>;
pub type Track = shim::referenda::TrackInfo<Bal, u32>;
/// What was asked for, and which of it is refused.
pub static mut COLLECTIONS: [Option<(Cid, Acc, Acc, Collection)>; 2] = [None, None];
pub static mut TRACKS: [Option<(Cid, Track, Caller)>; 2] = [None, None];
pub static mut INDUCTED: [Option<Acc>; 2] = [None, None];
pub static mut COLLECTION_FAILS: bool = false;
pub static mut TRACK_FAILS: bool = false;
pub static mut INDUCT_FAILS: bool = false;
fn ask<T>(list: &mut [Option<T>; 2], t: T, fails: bool) -> DispatchResult {
    if list[0].is_none() {
        list[0] = Some(t);
    } else {
        list[1] = Some(t);
    }
    if fails {
        Err("refused".into())
    } else {
        Ok(())
    }
}
pub struct Items;
impl nonfungibles_v2::Inspect<Acc> for Items {
    type ItemId = u32;
    type CollectionId = Cid;
    fn owner(_: &Cid, _: &u32) -> Option<Acc> {
        shim::out_of_bounds("owner of an item")
    }
}
impl nonfungibles_v2::Create<Acc, Collection> for Items {
    fn create_collection(_: &Acc, _: &Acc, _: &Collection) -> Result<Cid, DispatchError> {
        shim::out_of_bounds("collection without id")
    }
    fn create_collection_with_id(id: Cid, who: &Acc, admin: &Acc, c: &Collection) -> DispatchResult {
        unsafe { ask(&mut COLLECTIONS, (id, *who, *admin, *c), COLLECTION_FAILS) }
    }
}
/// An item that was minted, and its price.
#[derive(Copy, Clone, PartialEq, Eq, Debug)]
pub struct Item {
    pub collection: Cid,
    pub id: u32,
    pub owner: Acc,
    pub price: Option<Bal>,
    pub priced: u32,
    pub for_one: bool,
}
pub const ITEMS: usize = 4;
pub static mut ITEM: [Option<Item>; ITEMS] = [None; ITEMS];
pub static mut MINTED: usize = 0;
/// The mint or pricing from which on all are refused.
pub static mut MINT_LIMIT: u32 = u32::MAX;
pub static mut PRICE_LIMIT: u32 = u32::MAX;
impl nonfungibles_v2::Mutate<Acc, ()> for Items {
    fn mint_into(c: &Cid, i: &u32, who: &Acc, _: &(), _: bool) -> DispatchResult {
        unsafe {
            if MINTED as u32 >= MINT_LIMIT {
                return Err("refused".into());
            }
            let mut k = 0;
            while k < ITEMS {
                if k < MINTED && matches!(ITEM[k], Some(x) if x.collection == *c && x.id == *i) {
                    return Err("exists".into());
                }
                k += 1;
            }
            if MINTED >= ITEMS {
                shim::out_of_bounds("items minted");
            }
            ITEM[MINTED] = Some(Item { collection: *c, id: *i, owner: *who, price: None, priced: 0, for_one: false });
            MINTED += 1;
        }
        Ok(())
    }
    fn burn(_: &Cid, _: &u32, _: Option<&Acc>) -> DispatchResult {
        shim::out_of_bounds("burning")
    }
}
impl nonfungibles_v2::Trading<Acc, Bal> for Items {
    fn buy_item(_: &Cid, _: &u32, _: &Acc, _: &Bal) -> DispatchResult {
        shim::out_of_bounds("buying")
    }
    fn set_price(c: &Cid, i: &u32, who: &Acc, price: Option<Bal>, only: Option<Acc>) -> DispatchResult {
        unsafe {
            let mut k = 0;
            while k < ITEMS {
                if let Some(x) = &mut ITEM[k] {
                    if x.collection == *c && x.id == *i && x.owner == *who {
                        if k as u32 >= PRICE_LIMIT {
                            return Err("refused".into());
                        }
                        x.price = price;
                        x.priced += 1;
                        x.for_one = only.is_some();
                        return Ok(());
                    }
                }
                k += 1;
            }
        }
        Err("no such item".into())
    }
    fn item_price(_: &Cid, _: &u32) -> Option<Bal> {
        shim::out_of_bounds("price of an item")
    }
}
pub struct Tracks;
impl shim::referenda::TracksInfo<Bal, u32> for Tracks {
    type Id = Cid;
    type RuntimeOrigin = Caller;
    fn track_for(_: &Caller) -> Result<Cid, ()> {
        Err(())
    }
    fn info(_: Cid) -> Option<Track> {
        None
    }
}
impl shim::tracks::MutateTracks<Bal, u32> for Tracks {
    fn insert(id: Cid, t: Track, o: Caller) -> DispatchResult {
        unsafe { ask(&mut TRACKS, (id, t, o), TRACK_FAILS) }
    }
    fn update(_: Cid, _: Track) -> DispatchResult {
        shim::out_of_bounds("update of a track")
    }
    fn remove(_: Cid, _: Caller) -> DispatchResult {
        shim::out_of_bounds("removal of a track")
    }
}
pub struct Collective;
impl RankedMembers for Collective {
    type AccountId = Acc;
    type Rank = u32;
    fn min_rank() -> u32 {
        0
    }
    fn rank_of(_: &Acc) -> Option<u32> {
        None
    }
    fn induct(who: &Acc) -> DispatchResult {
        unsafe { ask(&mut INDUCTED, *who, INDUCT_FAILS) }
    }
    fn promote(_: &Acc) -> DispatchResult {
        shim::out_of_bounds("promotion")
    }
    fn demote(_: &Acc) -> DispatchResult {
        shim::out_of_bounds("demotion")
    }
}
pub const MANAGER_COLLECTION: Cid = 7;
pub struct ManagerCollection;
impl Get<Cid> for ManagerCollection {
    fn get() -> Cid {
        MANAGER_COLLECTION
    }
}
impl Get<Acc> for Treasury {
    fn get() -> Acc {
        TREASURY
    }
}
impl pallet_communities_manager::Config for Test {
    type RuntimeEvent = Event;
    type CreateCollection = Items;
    type Tracks = Tracks;
    type RankedCollective = Collective;
    type WeightInfo = ();
    type RegisterOrigin = EitherOf<EnsureRootWithSuccess<Acc, Free>, EnsureSignedPays<Test, Deposit, Treasury>>;
    type CreateMembershipsOrigin = EnsureRoot<Acc>;
    type MembershipId = u32;
    type MembershipsManagerCollectionId = ManagerCollection;
    type MembershipsManagerOwner = Treasury;
    type CreateMemberships = Items;
}

pub type Manager = pallet_communities_manager::Pallet<Test>;
pub type Communities = pallet_communities::Pallet<Test>;

pub fn signed(a: Acc) -> Origin {
    RawOrigin::Signed(a).into()
}
pub fn root() -> Origin {
    RawOrigin::Root.into()
}
pub fn voice(id: Cid) -> Origin {
    Voice::new(id).into()
}
pub fn with_storage(f: impl FnOnce()) {
    pallet_communities::pallet::__with_storage::<Test>(f)
}
