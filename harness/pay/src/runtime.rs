//! A runtime around the payments pallet.
use crate::ledger::{self, Assets, Bal};
use parity_scale_codec::{Decode, Encode, MaxEncodedLen};
use scale_info::TypeInfo;
use shim::frame_support::dispatch::{DispatchInfo, DispatchResultWithPostInfo, GetDispatchInfo, PostDispatchInfo};
use shim::frame_support::traits::schedule::{v3::Named, v3::TaskName, DispatchTime, Period};
use shim::frame_support::traits::{
    Bounded, CallerTrait, ConstU32, EnsureOrigin, Get, OriginTrait, QueryPreimage, StorePreimage, UnfilteredDispatchable,
};
use shim::frame_support::weights::{constants::RocksDbWeight, Weight};
use shim::frame_support::PalletId;
use shim::frame_system::{self, EnsureSigned, RawOrigin};
use shim::sp_runtime::traits::{BlakeTwo256, Dispatchable, FromPalletId, IdentityLookup};
use shim::sp_runtime::{BoundedVec, DispatchError, DispatchResultWithInfo, Percent};

#[derive(Copy, Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Encode, Decode, MaxEncodedLen, TypeInfo)]
pub struct Acc(pub u8);
impl FromPalletId for Acc {
    fn from_pallet(_: &[u8; 8], _: &[u8]) -> Self {
        shim::out_of_bounds("pallet account")
    }
}
#[derive(Copy, Clone, Debug, PartialEq, Eq, Encode, Decode, MaxEncodedLen, TypeInfo)]
pub struct Id(pub u8);

pub const SENDER: Acc = Acc(0);
pub const BENEFICIARY: Acc = Acc(1);
pub const JUDGE: Acc = Acc(4);

#[derive(Clone, Debug, PartialEq, Eq, TypeInfo)]
pub struct Test;

#[derive(Copy, Clone, Debug, PartialEq, Eq, Encode, Decode, MaxEncodedLen, TypeInfo)]
pub struct Caller(pub RawOrigin<Acc>);
impl From<RawOrigin<Acc>> for Caller {
    fn from(o: RawOrigin<Acc>) -> Self {
        Caller(o)
    }
}
impl CallerTrait<Acc> for Caller {
    fn into_system(self) -> Option<RawOrigin<Acc>> {
        Some(self.0)
    }
    fn as_system_ref(&self) -> Option<&RawOrigin<Acc>> {
        Some(&self.0)
    }
}
#[derive(Copy, Clone, Debug, PartialEq, Eq)]
pub struct Origin(pub Caller);
impl From<RawOrigin<Acc>> for Origin {
    fn from(o: RawOrigin<Acc>) -> Self {
        Origin(Caller(o))
    }
}
impl From<Caller> for Origin {
    fn from(c: Caller) -> Self {
        Origin(c)
    }
}
impl From<Origin> for Result<RawOrigin<Acc>, Origin> {
    fn from(o: Origin) -> Self {
        Ok(o.0 .0)
    }
}
impl OriginTrait for Origin {
    type Call = Call;
    type PalletsOrigin = Caller;
    type AccountId = Acc;
    fn caller(&self) -> &Caller {
        &self.0
    }
    fn into_caller(self) -> Caller {
        self.0
    }
}

/// The judge resolves disputes; success is the account that is paid for it.
pub struct Judge;
impl EnsureOrigin<Origin> for Judge {
    type Success = Acc;
    fn try_origin(o: Origin) -> Result<Acc, Origin> {
        match o.0 .0 {
            RawOrigin::Root => Ok(JUDGE),
            _ => Err(o),
        }
    }
}

#[derive(Copy, Clone, Debug, PartialEq, Eq, Encode, Decode, MaxEncodedLen, TypeInfo)]
pub struct Reason(pallet_payments::HoldReason);
impl From<pallet_payments::HoldReason> for Reason {
    fn from(r: pallet_payments::HoldReason) -> Self {
        Reason(r)
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Call(pub pallet_payments::Call<Test>);
shim::dummy_codec!(Call);
impl From<pallet_payments::Call<Test>> for Call {
    fn from(c: pallet_payments::Call<Test>) -> Self {
        Call(c)
    }
}
impl GetDispatchInfo for Call {
    fn get_dispatch_info(&self) -> DispatchInfo {
        Default::default()
    }
}
impl Dispatchable for Call {
    type RuntimeOrigin = Origin;
    type Config = ();
    type Info = DispatchInfo;
    type PostInfo = PostDispatchInfo;
    fn dispatch(self, o: Origin) -> DispatchResultWithInfo<PostDispatchInfo> {
        self.0.dispatch_bypass_filter(o)
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Event(pub pallet_payments::Event<Test>);
impl From<pallet_payments::Event<Test>> for Event {
    fn from(e: pallet_payments::Event<Test>) -> Self {
        Event(e)
    }
}
impl TryFrom<Event> for pallet_payments::Event<Test> {
    type Error = ();
    fn try_from(e: Event) -> Result<Self, ()> {
        Ok(e.0)
    }
}

pub static mut NOW: u32 = 1;
pub static mut EVENTS: u32 = 0;
pub static mut LAST_EVENT: Option<Event> = None;

impl frame_system::Config for Test {
    type AccountId = Acc;
    type BlockNumber = u32;
    type RuntimeOrigin = Origin;
    type RuntimeCall = Call;
    type RuntimeEvent = Event;
    type Hashing = BlakeTwo256;
    type Lookup = IdentityLookup<Acc>;
    type DbWeight = RocksDbWeight;
    fn block_number() -> u32 {
        unsafe { NOW }
    }
    fn on_event(e: Event) {
        unsafe {
            EVENTS += 1;
            LAST_EVENT = Some(e);
        }
    }
}

/// At most two scheduled tasks.
#[derive(Clone, Debug, PartialEq)]
pub struct Task {
    pub id: TaskName,
    pub at: u32,
    pub origin: Caller,
    pub call: Call,
}
/// Equality without a loop.
pub fn same_name(a: &TaskName, b: &TaskName) -> bool {
    let (a, b): ([u128; 2], [u128; 2]) = unsafe { (core::mem::transmute(*a), core::mem::transmute(*b)) };
    a[0] == b[0] && a[1] == b[1]
}
pub static mut TASKS: [Option<Task>; 2] = [None, None];
/// Whether an unknown name is an error even where only successful paths are looked at.
pub static mut EXACT_NAMES: bool = false;
pub struct Sched;
impl Named<u32, Call, Caller> for Sched {
    type Address = ();
    type Hasher = BlakeTwo256;
    fn schedule_named(
        id: TaskName,
        when: DispatchTime<u32>,
        _: Option<Period<u32>>,
        _: u8,
        origin: Caller,
        call: Bounded<Call, BlakeTwo256>,
    ) -> Result<(), DispatchError> {
        let now = unsafe { NOW };
        let at = match when {
            DispatchTime::At(n) => n,
            DispatchTime::After(n) => now.checked_add(n).and_then(|n| n.checked_add(1)).ok_or("overflow")?,
        };
        if !ledger::goes(at > now && Self::find(&id).is_none()) {
            return Err("not scheduled".into());
        }
        let t = Some(Task { id, at, origin, call: call.value });
        unsafe {
            if TASKS[0].is_none() {
                TASKS[0] = t
            } else if TASKS[1].is_none() {
                TASKS[1] = t
            } else {
                shim::out_of_bounds("more than two scheduled tasks")
            }
        }
        Ok(())
    }
    fn cancel_named(id: TaskName) -> Result<(), DispatchError> {
        let found = Self::find(&id);
        if unsafe { EXACT_NAMES } && found.is_none() {
            return Err("not found".into());
        }
        if !ledger::goes(found.is_some()) {
            return Err("not found".into());
        }
        unsafe {
            // with a single task it is that one
            if TASKS[1].is_none() || found == Some(0) {
                TASKS[0] = None
            } else {
                TASKS[1] = None
            }
        }
        Ok(())
    }
    fn reschedule_named(_: TaskName, _: DispatchTime<u32>) -> Result<(), DispatchError> {
        shim::out_of_bounds("reschedule")
    }
    fn next_dispatch_time(id: TaskName) -> Result<u32, DispatchError> {
        match Self::find(&id) {
            Some(i) => unsafe { TASKS[i].as_ref().map(|t| t.at).ok_or("not found".into()) },
            None => Err("not found".into()),
        }
    }
}
impl Sched {
    fn find(id: &TaskName) -> Option<usize> {
        unsafe {
            if matches!(&TASKS[0], Some(t) if same_name(&t.id, id)) {
                return Some(0);
            }
            if matches!(&TASKS[1], Some(t) if same_name(&t.id, id)) {
                return Some(1);
            }
        }
        None
    }
}
pub struct Pre;
impl QueryPreimage for Pre {
    type H = BlakeTwo256;
}
impl StorePreimage for Pre {}

pub static mut NEXT_ID: Option<Id> = Some(Id(0));
/// Whom the id was made for.
pub static mut ID_FOR: Option<(Acc, Acc)> = None;
impl pallet_payments::PaymentId<Test> for Id {
    fn next(sender: &Acc, beneficiary: &Acc) -> Option<Id> {
        unsafe {
            ID_FOR = Some((*sender, *beneficiary));
            NEXT_ID
        }
    }
}

pub type Fee = (Acc, Bal, bool);
/// What the fee handler answers next: number of entries and the entries.
#[derive(Copy, Clone)]
pub struct FeePlan {
    pub n: usize,
    pub fees: [Fee; 2],
}
pub const NO_FEES: FeePlan = FeePlan { n: 0, fees: [(Acc(0), 0, false); 2] };
pub static mut SENDER_FEES: FeePlan = NO_FEES;
pub static mut BENEFICIARY_FEES: FeePlan = NO_FEES;
pub fn bounded(p: &FeePlan) -> BoundedVec<Fee, ConstU32<3>> {
    let mut v = BoundedVec::new();
    let mut i = 0;
    while i < p.n {
        let _ = v.try_push(p.fees[i]);
        i += 1;
    }
    v
}
/// What the fees were asked for: asset, sender, beneficiary, amount, length and first byte of the remark.
pub static mut FEES_FOR: Option<(u8, Acc, Acc, Bal, Option<(usize, u8)>)> = None;
pub struct Handler;
impl pallet_payments::FeeHandler<Test> for Handler {
    fn apply_fees(a: &u8, s: &Acc, b: &Acc, n: &Bal, remark: Option<&[u8]>) -> pallet_payments::Fees<Test> {
        unsafe {
            FEES_FOR = Some((*a, *s, *b, *n, remark.map(|r| (r.len(), if r.len() > 0 { r[0] } else { 0 }))));
            pallet_payments::Fees { sender_pays: bounded(&SENDER_FEES), beneficiary_pays: bounded(&BENEFICIARY_FEES) }
        }
    }
}

pub const BUFFER: u32 = 10;
pub static mut INCENTIVE: u8 = 10;
pub struct Incentive;
impl Get<Percent> for Incentive {
    fn get() -> Percent {
        Percent::from_percent(unsafe { INCENTIVE })
    }
}
pub struct ThisPallet;
impl Get<PalletId> for ThisPallet {
    fn get() -> PalletId {
        PalletId(*b"payments")
    }
}

impl pallet_payments::Config for Test {
    type RuntimeEvent = Event;
    type PalletsOrigin = Caller;
    type RuntimeCall = Call;
    type Assets = Assets;
    type AssetsBalance = Bal;
    type FeeHandler = Handler;
    type SenderOrigin = EnsureSigned<Acc>;
    type BeneficiaryOrigin = EnsureSigned<Acc>;
    type DisputeResolver = Judge;
    type PaymentId = Id;
    type Scheduler = Sched;
    type Preimages = Pre;
    type RuntimeHoldReason = Reason;
    type WeightInfo = ();
    type PalletId = ThisPallet;
    type IncentivePercentage = Incentive;
    type MaxRemarkLength = ConstU32<3>;
    type MaxFees = ConstU32<3>;
    type MaxDiscounts = ConstU32<3>;
    type CancelBufferBlockLength = ConstU32<BUFFER>;
}

pub type Payments = pallet_payments::Pallet<Test>;

pub fn signed(a: Acc) -> Origin {
    RawOrigin::Signed(a).into()
}
pub fn root() -> Origin {
    RawOrigin::Root.into()
}

/// Runs a history over empty storage, arbitrary balances and time.
pub fn history(f: impl FnOnce()) {
    pallet_payments::pallet::__with_storage::<Test>(|| {
        ledger::any_book();
        unsafe { NOW = vk::any_u32() }
        f()
    })
}

/// A result of an extrinsic; failed ones leave no trace, so histories go on only after success.
pub fn done(r: DispatchResultWithPostInfo) -> bool {
    r.is_ok()
}
#[allow(unused)]
fn unused(_: Weight) {}
