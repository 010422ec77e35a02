use crate::codec::{Decode, Encode, MaxEncodedLen};
use crate::frame_support::traits::{EnsureOrigin, EnsureOriginWithArg, OriginTrait};
use crate::frame_support::weights::RuntimeDbWeight;
use crate::frame_support::Parameter;
use crate::scale_info::TypeInfo;
use crate::sp_runtime::traits::{
    AtLeast32BitUnsigned, BadOrigin, FromPalletId, Get, Hash, Member, StaticLookup,
};
use core::marker::PhantomData;

#[derive(Copy, Clone, Debug, PartialEq, Eq, Encode, Decode, MaxEncodedLen, TypeInfo)]
pub enum RawOrigin<AccountId> {
    Root,
    Signed(AccountId),
    None,
}
impl<A> RawOrigin<A> {
    pub fn as_signed(&self) -> Option<&A> {
        match self {
            RawOrigin::Signed(a) => Some(a),
            _ => None,
        }
    }
}
impl<A> From<Option<A>> for RawOrigin<A> {
    fn from(s: Option<A>) -> Self {
        match s {
            Some(w) => RawOrigin::Signed(w),
            None => RawOrigin::None,
        }
    }
}

pub type Origin<T> = RawOrigin<<T as Config>::AccountId>;

pub trait Config: 'static + Eq + Clone + core::fmt::Debug + TypeInfo {
    type AccountId: Parameter + Member + Ord + MaxEncodedLen + FromPalletId + Copy;
    type BlockNumber: Parameter
        + Member
        + AtLeast32BitUnsigned
        + Default
        + Copy
        + MaxEncodedLen
        + core::hash::Hash
        + crate::codec::HasCompact;
    type RuntimeOrigin: Into<Result<RawOrigin<Self::AccountId>, Self::RuntimeOrigin>>
        + From<RawOrigin<Self::AccountId>>
        + Clone
        + OriginTrait<Call = Self::RuntimeCall, AccountId = Self::AccountId>;
    type RuntimeCall;
    type RuntimeEvent;
    type Hashing: Hash + TypeInfo;
    type Lookup: StaticLookup<Target = Self::AccountId>;
    type DbWeight: Get<RuntimeDbWeight>;

    /// What the harness provides in place of the system pallet's storage.
    fn block_number() -> Self::BlockNumber;
    fn extrinsic_index() -> Option<u32> {
        None
    }
    fn on_event(_: Self::RuntimeEvent) {}
    fn on_inc_providers(_: &Self::AccountId) {}
}

pub struct Pallet<T>(PhantomData<T>);
impl<T: Config> Pallet<T> {
    pub fn block_number() -> T::BlockNumber {
        T::block_number()
    }
    pub fn current_block_number() -> T::BlockNumber {
        T::block_number()
    }
    pub fn extrinsic_index() -> Option<u32> {
        T::extrinsic_index()
    }
    pub fn deposit_event(e: impl Into<T::RuntimeEvent>) {
        T::on_event(e.into())
    }
    pub fn inc_providers(who: &T::AccountId) {
        T::on_inc_providers(who)
    }
}

#[allow(non_camel_case_types)]
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Call<T: Config> {
    remark { len: u32 },
    #[doc(hidden)]
    __Ignore(PhantomData<T>),
}

pub struct EnsureSigned<A>(PhantomData<A>);
impl<A, O: Into<Result<RawOrigin<A>, O>> + From<RawOrigin<A>>> EnsureOrigin<O> for EnsureSigned<A> {
    type Success = A;
    fn try_origin(o: O) -> Result<A, O> {
        o.into().and_then(|o| match o {
            RawOrigin::Signed(who) => Ok(who),
            r => Err(O::from(r)),
        })
    }
}
pub struct EnsureRoot<A>(PhantomData<A>);
impl<A, O: Into<Result<RawOrigin<A>, O>> + From<RawOrigin<A>>> EnsureOrigin<O> for EnsureRoot<A> {
    type Success = ();
    fn try_origin(o: O) -> Result<(), O> {
        o.into().and_then(|o| match o {
            RawOrigin::Root => Ok(()),
            r => Err(O::from(r)),
        })
    }
}
pub struct EnsureRootWithSuccess<A, S>(PhantomData<(A, S)>);
impl<A, S: crate::sp_runtime::traits::TypedGet, O: Into<Result<RawOrigin<A>, O>> + From<RawOrigin<A>>> EnsureOrigin<O>
    for EnsureRootWithSuccess<A, S>
{
    type Success = S::Type;
    fn try_origin(o: O) -> Result<S::Type, O> {
        o.into().and_then(|o| match o {
            RawOrigin::Root => Ok(S::get()),
            r => Err(O::from(r)),
        })
    }
}
impl<A, S: crate::sp_runtime::traits::TypedGet, O: Into<Result<RawOrigin<A>, O>> + From<RawOrigin<A>>, Arg>
    EnsureOriginWithArg<O, Arg> for EnsureRootWithSuccess<A, S>
{
    type Success = S::Type;
    fn try_origin(o: O, _: &Arg) -> Result<S::Type, O> {
        <Self as EnsureOrigin<O>>::try_origin(o)
    }
}
pub struct EnsureNever<S>(PhantomData<S>);
impl<S, O> EnsureOrigin<O> for EnsureNever<S> {
    type Success = S;
    fn try_origin(o: O) -> Result<S, O> {
        Err(o)
    }
}

pub fn ensure_signed<O: Into<Result<RawOrigin<A>, O>>, A>(o: O) -> Result<A, BadOrigin> {
    match o.into() {
        Ok(RawOrigin::Signed(t)) => Ok(t),
        _ => Err(BadOrigin),
    }
}
pub fn ensure_root<O: Into<Result<RawOrigin<A>, O>>, A>(o: O) -> Result<(), BadOrigin> {
    match o.into() {
        Ok(RawOrigin::Root) => Ok(()),
        _ => Err(BadOrigin),
    }
}

pub mod pallet_prelude {
    pub use super::{ensure_root, ensure_signed};
    pub type BlockNumberFor<T> = <T as super::Config>::BlockNumber;
    pub type OriginFor<T> = <T as super::Config>::RuntimeOrigin;
    pub type AccountIdFor<T> = <T as super::Config>::AccountId;
}
