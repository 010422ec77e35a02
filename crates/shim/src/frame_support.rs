pub use crate::collections::BoundedVec;
pub use crate::shim_macro::pallet;
pub use crate::storage;
pub use crate::{ensure, fail, parameter_types};
pub use storage::{CountedStorageMap, StorageDoubleMap, StorageMap, StorageValue};

use crate::codec::{Codec, Decode, Encode, EncodeLike, MaxEncodedLen};
use crate::scale_info::TypeInfo;

pub mod __private {
    pub use crate::codec;
    pub use crate::scale_info;
    pub use crate::sp_runtime::{DispatchError, ModuleError};
}

pub struct Blake2_128Concat;
pub struct Blake2_256;
pub struct Twox64Concat;
pub struct Twox128;
pub struct Identity;

#[derive(Copy, Clone, Debug, PartialEq, Eq, Encode, Decode, MaxEncodedLen, TypeInfo)]
pub struct PalletId(pub [u8; 8]);

pub trait Parameter: Codec + EncodeLike + Clone + Eq + core::fmt::Debug + TypeInfo + 'static {}
impl<T: Codec + EncodeLike + Clone + Eq + core::fmt::Debug + TypeInfo + 'static> Parameter for T {}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $e:expr $(,)?) => {{
        if !$c {
            return ::core::result::Result::Err($e.into());
        }
    }};
}
#[macro_export]
macro_rules! fail {
    ($e:expr) => {{
        return ::core::result::Result::Err($e.into());
    }};
}
#[macro_export]
macro_rules! parameter_types {
    () => {};
    ($(#[$m:meta])* $vis:vis const $n:ident : $t:ty = $v:expr; $($rest:tt)*) => {
        $(#[$m])* $vis struct $n;
        impl $n {
            pub const fn get() -> $t { $v }
        }
        impl<I: From<$t>> $crate::sp_runtime::traits::Get<I> for $n {
            fn get() -> I { I::from(Self::get()) }
        }
        impl $crate::sp_runtime::traits::TypedGet for $n {
            type Type = $t;
            fn get() -> $t { Self::get() }
        }
        $crate::parameter_types! { $($rest)* }
    };
    ($(#[$m:meta])* $vis:vis $n:ident : $t:ty = $v:expr; $($rest:tt)*) => {
        $(#[$m])* $vis struct $n;
        impl $n {
            pub fn get() -> $t { $v }
        }
        impl<I: From<$t>> $crate::sp_runtime::traits::Get<I> for $n {
            fn get() -> I { I::from(Self::get()) }
        }
        impl $crate::sp_runtime::traits::TypedGet for $n {
            type Type = $t;
            fn get() -> $t { Self::get() }
        }
        $crate::parameter_types! { $($rest)* }
    };
    ($(#[$m:meta])* $vis:vis storage $n:ident : $t:ty = $v:expr; $($rest:tt)*) => {
        $crate::parameter_types! { $(#[$m])* $vis $n: $t = $v; $($rest)* }
    };
    ($(#[$m:meta])* $vis:vis static $n:ident : $t:ty = $v:expr; $($rest:tt)*) => {
        $crate::parameter_types! { $(#[$m])* $vis $n: $t = $v; $($rest)* }
    };
}

pub mod weights {
    use super::*;

    #[derive(Copy, Clone, Debug, Default, PartialEq, Eq, Encode, Decode, MaxEncodedLen, TypeInfo)]
    pub struct Weight {
        ref_time: u64,
        proof_size: u64,
    }
    impl Weight {
        pub const MAX: Weight = Weight { ref_time: u64::MAX, proof_size: u64::MAX };
        pub const fn from_parts(ref_time: u64, proof_size: u64) -> Self {
            Weight { ref_time, proof_size }
        }
        pub const fn zero() -> Self {
            Weight { ref_time: 0, proof_size: 0 }
        }
        pub const fn ref_time(&self) -> u64 {
            self.ref_time
        }
        pub const fn proof_size(&self) -> u64 {
            self.proof_size
        }
        pub const fn saturating_add(self, o: Self) -> Self {
            Weight {
                ref_time: self.ref_time.saturating_add(o.ref_time),
                proof_size: self.proof_size.saturating_add(o.proof_size),
            }
        }
        pub const fn saturating_sub(self, o: Self) -> Self {
            Weight {
                ref_time: self.ref_time.saturating_sub(o.ref_time),
                proof_size: self.proof_size.saturating_sub(o.proof_size),
            }
        }
        pub const fn saturating_mul(self, n: u64) -> Self {
            Weight { ref_time: self.ref_time.saturating_mul(n), proof_size: self.proof_size.saturating_mul(n) }
        }
        pub const fn checked_sub(&self, o: &Self) -> Option<Self> {
            if self.ref_time < o.ref_time || self.proof_size < o.proof_size {
                return None;
            }
            Some(Weight { ref_time: self.ref_time - o.ref_time, proof_size: self.proof_size - o.proof_size })
        }
        pub fn max(self, o: Self) -> Self {
            Weight { ref_time: self.ref_time.max(o.ref_time), proof_size: self.proof_size.max(o.proof_size) }
        }
        pub fn min(self, o: Self) -> Self {
            Weight { ref_time: self.ref_time.min(o.ref_time), proof_size: self.proof_size.min(o.proof_size) }
        }
        pub const fn any_gt(self, o: Self) -> bool {
            self.ref_time > o.ref_time || self.proof_size > o.proof_size
        }
        pub const fn all_gte(self, o: Self) -> bool {
            self.ref_time >= o.ref_time && self.proof_size >= o.proof_size
        }
        pub const fn all_lte(self, o: Self) -> bool {
            self.ref_time <= o.ref_time && self.proof_size <= o.proof_size
        }
    }
    /// One term of a fee; terms are kept in a fixed array.
    #[derive(Copy, Clone, Debug, PartialEq, Eq)]
    pub struct WeightToFeeCoefficient<Balance> {
        pub coeff_integer: Balance,
        pub coeff_frac: crate::sp_runtime::Perbill,
        pub negative: bool,
        pub degree: u8,
    }
    impl WeightToFeeCoefficient<u128> {
        fn saturating_eval(&self, result: u128, x: u128) -> u128 {
            let power = x.saturating_pow(self.degree.into());
            let (frac, integer) = (self.coeff_frac * power, self.coeff_integer.saturating_mul(power));
            if self.negative {
                result.saturating_sub(frac).saturating_sub(integer)
            } else {
                result.saturating_add(frac).saturating_add(integer)
            }
        }
    }
    pub struct WeightToFeeCoefficients<Balance>(pub [Option<WeightToFeeCoefficient<Balance>>; 4]);
    pub type FeePolynomial<Balance> = WeightToFeeCoefficients<Balance>;
    impl FeePolynomial<u128> {
        pub fn eval(&self, x: u64) -> u128 {
            let mut r = 0;
            let mut i = 0;
            while i < 4 {
                if let Some(c) = &self.0[i] {
                    r = c.saturating_eval(r, x as u128);
                }
                i += 1;
            }
            r
        }
    }
    pub trait WeightToFeePolynomial {
        type Balance;
        fn polynomial() -> WeightToFeeCoefficients<Self::Balance>;
    }
    pub trait WeightToFee {
        type Balance;
        fn weight_to_fee(weight: &Weight) -> Self::Balance;
    }
    impl<T: WeightToFeePolynomial<Balance = u128>> WeightToFee for T {
        type Balance = u128;
        fn weight_to_fee(weight: &Weight) -> u128 {
            T::polynomial().eval(weight.ref_time())
        }
    }
    #[derive(Copy, Clone, Debug, PartialEq, Eq)]
    pub struct RuntimeDbWeight {
        pub read: u64,
        pub write: u64,
    }
    impl RuntimeDbWeight {
        pub fn reads(self, n: u64) -> Weight {
            Weight::from_parts(self.read.saturating_mul(n), 0)
        }
        pub fn writes(self, n: u64) -> Weight {
            Weight::from_parts(self.write.saturating_mul(n), 0)
        }
        pub fn reads_writes(self, r: u64, w: u64) -> Weight {
            self.reads(r).saturating_add(self.writes(w))
        }
    }
    pub mod constants {
        use super::*;
        pub struct RocksDbWeight;
        impl crate::sp_runtime::traits::Get<RuntimeDbWeight> for RocksDbWeight {
            fn get() -> RuntimeDbWeight {
                RuntimeDbWeight { read: 25_000_000, write: 100_000_000 }
            }
        }
        impl RocksDbWeight {
            pub fn get() -> RuntimeDbWeight {
                RuntimeDbWeight { read: 25_000_000, write: 100_000_000 }
            }
        }
        pub struct ExtrinsicBaseWeight;
        impl ExtrinsicBaseWeight {
            pub const fn get() -> Weight {
                Weight::from_parts(108_157_000, 0)
            }
        }
        pub const WEIGHT_REF_TIME_PER_SECOND: u64 = 1_000_000_000_000;
        pub const WEIGHT_REF_TIME_PER_MILLIS: u64 = 1_000_000_000;
        pub const WEIGHT_REF_TIME_PER_MICROS: u64 = 1_000_000;
        pub const WEIGHT_REF_TIME_PER_NANOS: u64 = 1_000;
        pub const WEIGHT_PROOF_SIZE_PER_KB: u64 = 1024;
        pub const WEIGHT_PROOF_SIZE_PER_MB: u64 = 1024 * 1024;
    }
}

pub mod dispatch {
    pub use super::weights::Weight;
    pub use crate::frame_system::RawOrigin;
    pub use crate::sp_runtime::{DispatchError, DispatchErrorWithPostInfo as GenericDispatchErrorWithPostInfo, DispatchResult};

    #[derive(Copy, Clone, Debug, Default, PartialEq, Eq)]
    pub enum DispatchClass {
        #[default]
        Normal,
        Operational,
        Mandatory,
    }
    #[derive(Copy, Clone, Debug, Default, PartialEq, Eq)]
    pub enum Pays {
        #[default]
        Yes,
        No,
    }
    #[derive(Copy, Clone, Debug, Default, PartialEq, Eq)]
    pub struct DispatchInfo {
        pub weight: Weight,
        pub class: DispatchClass,
        pub pays_fee: Pays,
    }
    #[derive(Copy, Clone, Debug, Default, PartialEq, Eq)]
    pub struct PostDispatchInfo {
        pub actual_weight: Option<Weight>,
        pub pays_fee: Pays,
    }
    impl From<()> for PostDispatchInfo {
        fn from(_: ()) -> Self {
            Default::default()
        }
    }
    impl From<Option<Weight>> for PostDispatchInfo {
        fn from(actual_weight: Option<Weight>) -> Self {
            PostDispatchInfo { actual_weight, pays_fee: Default::default() }
        }
    }
    impl From<Pays> for PostDispatchInfo {
        fn from(pays_fee: Pays) -> Self {
            PostDispatchInfo { actual_weight: None, pays_fee }
        }
    }
    pub type DispatchErrorWithPostInfo = GenericDispatchErrorWithPostInfo<PostDispatchInfo>;
    pub type DispatchResultWithPostInfo = Result<PostDispatchInfo, DispatchErrorWithPostInfo>;
    pub trait GetDispatchInfo {
        fn get_dispatch_info(&self) -> DispatchInfo;
    }
}

pub mod pallet_prelude {
    pub use super::dispatch::{DispatchClass, DispatchResult, DispatchResultWithPostInfo, Pays};
    pub use super::storage::{OptionQuery, ResultQuery, ValueQuery};
    pub use super::traits::{
        ConstU32, ConstBool, ConstU128, ConstU16, ConstU64, ConstU8, EnsureOrigin, Get, GetDefault, Hooks, IsType, TypedGet,
    };
    pub use super::weights::Weight;
    pub use super::{
        ensure, Blake2_128Concat, Blake2_256, BoundedVec, CountedStorageMap, Identity, Parameter, StorageDoubleMap,
        StorageMap, StorageValue, Twox128, Twox64Concat,
    };
    pub use crate::codec::{Codec, Decode, Encode, MaxEncodedLen};
    pub use crate::scale_info::TypeInfo;
    pub use crate::sp_runtime::traits::{MaybeSerializeDeserialize, Member};
    pub use crate::sp_runtime::DispatchError;
    pub use core::marker::PhantomData;
    pub use core::fmt::Debug as RuntimeDebug;
}

pub mod traits {
    use super::*;
    use super::dispatch::*;
    use crate::frame_system::RawOrigin;
    pub use crate::sp_runtime::traits::{
        ConstBool, ConstU128, ConstU16, ConstU32, ConstU64, ConstU8, Get, MaybeEquivalence, Morph, TryMorph, TypedGet,
    };
    use crate::sp_runtime::traits::BadOrigin;
    pub use crate::tokens::{self, fungible, fungibles};
    use core::marker::PhantomData;

    pub struct GetDefault;
    impl<T: Default> Get<T> for GetDefault {
        fn get() -> T {
            T::default()
        }
    }
    pub trait Hooks<B> {}

    pub trait IsType<T>: Into<T> + From<T> {
        fn from_ref(t: &T) -> &Self;
        fn into_ref(&self) -> &T;
    }
    impl<T> IsType<T> for T {
        fn from_ref(t: &T) -> &T {
            t
        }
        fn into_ref(&self) -> &T {
            self
        }
    }
    pub trait IsSubType<T> {
        fn is_sub_type(&self) -> Option<&T>;
    }

    pub trait EnsureOrigin<O> {
        type Success;
        fn ensure_origin(o: O) -> Result<Self::Success, BadOrigin> {
            Self::try_origin(o).map_err(|_| BadOrigin)
        }
        fn try_origin(o: O) -> Result<Self::Success, O>;
    }
    pub trait EnsureOriginWithArg<O, A> {
        type Success;
        fn ensure_origin(o: O, a: &A) -> Result<Self::Success, BadOrigin> {
            Self::try_origin(o, a).map_err(|_| BadOrigin)
        }
        fn try_origin(o: O, a: &A) -> Result<Self::Success, O>;
    }
    pub struct AsEnsureOriginWithArg<E>(PhantomData<E>);
    impl<O, A, E: EnsureOrigin<O>> EnsureOriginWithArg<O, A> for AsEnsureOriginWithArg<E> {
        type Success = E::Success;
        fn try_origin(o: O, _: &A) -> Result<E::Success, O> {
            E::try_origin(o)
        }
    }
    pub struct NeverEnsureOrigin<S>(PhantomData<S>);
    impl<O, S> EnsureOrigin<O> for NeverEnsureOrigin<S> {
        type Success = S;
        fn try_origin(o: O) -> Result<S, O> {
            Err(o)
        }
    }
    pub struct MapSuccess<E, M>(PhantomData<(E, M)>);
    impl<O, E: EnsureOrigin<O>, M: Morph<E::Success>> EnsureOrigin<O> for MapSuccess<E, M> {
        type Success = M::Outcome;
        fn try_origin(o: O) -> Result<M::Outcome, O> {
            Ok(M::morph(E::try_origin(o)?))
        }
    }
    pub struct TryMapSuccess<E, M>(PhantomData<(E, M)>);
    impl<O: Clone, E: EnsureOrigin<O>, M: TryMorph<E::Success>> EnsureOrigin<O> for TryMapSuccess<E, M> {
        type Success = M::Outcome;
        fn try_origin(o: O) -> Result<M::Outcome, O> {
            let orig = o.clone();
            M::try_morph(E::try_origin(o)?).map_err(|()| orig)
        }
    }
    pub enum Either<L, R> {
        Left(L),
        Right(R),
    }
    pub struct EitherOfDiverse<L, R>(PhantomData<(L, R)>);
    impl<O, L: EnsureOrigin<O>, R: EnsureOrigin<O>> EnsureOrigin<O> for EitherOfDiverse<L, R> {
        type Success = Either<L::Success, R::Success>;
        fn try_origin(o: O) -> Result<Self::Success, O> {
            L::try_origin(o).map_or_else(|o| R::try_origin(o).map(Either::Right), |s| Ok(Either::Left(s)))
        }
    }
    pub struct EitherOf<L, R>(PhantomData<(L, R)>);
    impl<O, L: EnsureOrigin<O>, R: EnsureOrigin<O, Success = L::Success>> EnsureOrigin<O> for EitherOf<L, R> {
        type Success = L::Success;
        fn try_origin(o: O) -> Result<Self::Success, O> {
            L::try_origin(o).or_else(|o| R::try_origin(o))
        }
    }
    impl<O, A, L: EnsureOriginWithArg<O, A>, R: EnsureOriginWithArg<O, A, Success = L::Success>> EnsureOriginWithArg<O, A>
        for EitherOf<L, R>
    {
        type Success = L::Success;
        fn try_origin(o: O, a: &A) -> Result<Self::Success, O> {
            L::try_origin(o, a).or_else(|o| R::try_origin(o, a))
        }
    }

    pub trait CallerTrait<AccountId>: Parameter + From<RawOrigin<AccountId>> + 'static {
        fn into_system(self) -> Option<RawOrigin<AccountId>>;
        fn as_system_ref(&self) -> Option<&RawOrigin<AccountId>>;
        fn as_signed(&self) -> Option<&AccountId> {
            match self.as_system_ref() {
                Some(RawOrigin::Signed(w)) => Some(w),
                _ => None,
            }
        }
        fn is_root(&self) -> bool {
            matches!(self.as_system_ref(), Some(RawOrigin::Root))
        }
        fn is_none(&self) -> bool {
            matches!(self.as_system_ref(), Some(RawOrigin::None))
        }
    }
    pub trait OriginTrait: Sized {
        type Call;
        type PalletsOrigin: Into<Self> + CallerTrait<Self::AccountId> + MaxEncodedLen;
        type AccountId;
        fn caller(&self) -> &Self::PalletsOrigin;
        fn into_caller(self) -> Self::PalletsOrigin;
        fn none() -> Self {
            Self::PalletsOrigin::from(RawOrigin::None).into()
        }
        fn root() -> Self {
            Self::PalletsOrigin::from(RawOrigin::Root).into()
        }
        fn signed(by: Self::AccountId) -> Self {
            Self::PalletsOrigin::from(RawOrigin::Signed(by)).into()
        }
        fn set_caller_from(&mut self, caller: impl Into<Self::PalletsOrigin>) {
            *self = caller.into().into()
        }
        fn as_signed(&self) -> Option<&Self::AccountId> {
            self.caller().as_signed()
        }
        fn as_signer(&self) -> Option<&Self::AccountId> {
            self.caller().as_signed()
        }
        fn into_signer(self) -> Option<Self::AccountId> {
            match self.into_caller().into_system() {
                Some(RawOrigin::Signed(w)) => Some(w),
                _ => None,
            }
        }
        fn as_system_ref(&self) -> Option<&RawOrigin<Self::AccountId>> {
            self.caller().as_system_ref()
        }
    }
    pub trait UnfilteredDispatchable {
        type RuntimeOrigin;
        fn dispatch_bypass_filter(self, origin: Self::RuntimeOrigin) -> DispatchResultWithPostInfo;
    }

    pub trait Contains<T> {
        fn contains(t: &T) -> bool;
    }
    pub struct Everything;
    impl<T> Contains<T> for Everything {
        fn contains(_: &T) -> bool {
            true
        }
    }
    pub struct Nothing;
    impl<T> Contains<T> for Nothing {
        fn contains(_: &T) -> bool {
            false
        }
    }
    pub struct Equals<X>(PhantomData<X>);
    impl<T: PartialEq, X: Get<T>> Contains<T> for Equals<X> {
        fn contains(t: &T) -> bool {
            t == &X::get()
        }
    }
    pub struct EverythingBut<E>(PhantomData<E>);
    impl<T, E: Contains<T>> Contains<T> for EverythingBut<E> {
        fn contains(t: &T) -> bool {
            !E::contains(t)
        }
    }
    pub struct InsideBoth<A, B>(PhantomData<(A, B)>);
    impl<T, A: Contains<T>, B: Contains<T>> Contains<T> for InsideBoth<A, B> {
        fn contains(t: &T) -> bool {
            A::contains(t) && B::contains(t)
        }
    }
    macro_rules! any_of {
        ($($n:ident),+) => {
            impl<T, $($n: Contains<T>),+> Contains<T> for ($($n,)+) {
                fn contains(t: &T) -> bool { $($n::contains(t))||+ }
            }
        }
    }
    any_of!(A);
    any_of!(A, B);
    any_of!(A, B, C);
    any_of!(A, B, C, D);
    any_of!(A, B, C, D, E);
    any_of!(A, B, C, D, E, F);
    any_of!(A, B, C, D, E, F, G);
    any_of!(A, B, C, D, E, F, G, H);
    pub trait ContainsPair<A, B> {
        fn contains(a: &A, b: &B) -> bool;
    }
    impl<X, Y> ContainsPair<X, Y> for () {
        fn contains(_: &X, _: &Y) -> bool {
            false
        }
    }
    impl<X, Y> ContainsPair<X, Y> for Nothing {
        fn contains(_: &X, _: &Y) -> bool {
            false
        }
    }
    impl<X, Y> ContainsPair<X, Y> for Everything {
        fn contains(_: &X, _: &Y) -> bool {
            true
        }
    }
    macro_rules! any_pair_of {
        ($($n:ident),+) => {
            impl<X, Y, $($n: ContainsPair<X, Y>),+> ContainsPair<X, Y> for ($($n,)+) {
                fn contains(x: &X, y: &Y) -> bool { $($n::contains(x, y))||+ }
            }
        }
    }
    any_pair_of!(A);
    any_pair_of!(A, B);
    any_pair_of!(A, B, C);
    any_pair_of!(A, B, C, D);
    any_pair_of!(A, B, C, D, E);
    pub trait Currency<AccountId> {
        type NegativeImbalance;
    }
    pub trait Randomness<Output, BlockNumber> {
        fn random(subject: &[u8]) -> (Output, BlockNumber);
    }
    pub trait PalletInfoAccess {
        fn index() -> usize;
    }
    pub trait InstanceFilter<T>: Sized + Send + Sync {
        fn filter(&self, t: &T) -> bool;
        fn is_superset(&self, _o: &Self) -> bool {
            false
        }
    }
    pub trait PrivilegeCmp<O> {
        fn cmp_privilege(l: &O, r: &O) -> Option<core::cmp::Ordering>;
    }
    pub trait Incrementable: Sized {
        fn increment(&self) -> Option<Self>;
        fn initial_value() -> Option<Self>;
    }
    macro_rules! inc {
        ($($t:ty),*) => {$(impl Incrementable for $t {
            fn increment(&self) -> Option<$t> { let mut v = *self; v = v.saturating_add(1); if v == *self { None } else { Some(v) } }
            fn initial_value() -> Option<$t> { Some(0) }
        })*}
    }
    inc!(u8, u16, u32, u64, u128);
    pub trait RankedMembers {
        type AccountId;
        type Rank: crate::sp_runtime::traits::AtLeast32BitUnsigned;
        fn min_rank() -> Self::Rank;
        fn rank_of(who: &Self::AccountId) -> Option<Self::Rank>;
        fn induct(who: &Self::AccountId) -> DispatchResult;
        fn promote(who: &Self::AccountId) -> DispatchResult;
        fn demote(who: &Self::AccountId) -> DispatchResult;
    }

    #[derive(Clone, Debug, PartialEq, Eq)]
    pub struct Bounded<T, H> {
        pub value: T,
        pub hasher: PhantomData<H>,
    }
    pub trait QueryPreimage {
        type H: crate::sp_runtime::traits::Hash;
        fn peek<T: Clone>(b: &Bounded<T, Self::H>) -> Result<(T, Option<u32>), DispatchError> {
            Ok((b.value.clone(), None))
        }
        fn realize<T: Clone>(b: &Bounded<T, Self::H>) -> Result<(T, Option<u32>), DispatchError> {
            Ok((b.value.clone(), None))
        }
        fn drop<T>(_: &Bounded<T, Self::H>) {}
    }
    pub trait StorePreimage: QueryPreimage {
        fn bound<T: Encode>(value: T) -> Result<Bounded<T, Self::H>, DispatchError> {
            Ok(Bounded { value, hasher: PhantomData })
        }
    }

    pub mod schedule {
        #[derive(Copy, Clone, Debug, PartialEq, Eq)]
        pub enum DispatchTime<N> {
            At(N),
            After(N),
        }
        pub type Priority = u8;
        pub type Period<N> = (N, u32);
        pub const HIGHEST_PRIORITY: Priority = 0;
        pub const HARD_DEADLINE: Priority = 63;
        pub const LOWEST_PRIORITY: Priority = 255;
        pub mod v3 {
            use super::super::*;
            use super::*;
            pub type TaskName = [u8; 32];
            pub trait Named<BlockNumber, Call, Origin> {
                type Address;
                type Hasher: crate::sp_runtime::traits::Hash;
                fn schedule_named(
                    id: TaskName,
                    when: DispatchTime<BlockNumber>,
                    maybe_periodic: Option<Period<BlockNumber>>,
                    priority: Priority,
                    origin: Origin,
                    call: Bounded<Call, Self::Hasher>,
                ) -> Result<Self::Address, DispatchError>;
                fn cancel_named(id: TaskName) -> Result<(), DispatchError>;
                fn reschedule_named(
                    id: TaskName,
                    when: DispatchTime<BlockNumber>,
                ) -> Result<Self::Address, DispatchError>;
                fn next_dispatch_time(id: TaskName) -> Result<BlockNumber, DispatchError>;
            }
        }
    }

    pub enum PollStatus<Tally, Moment, Class> {
        None,
        Ongoing(Tally, Class),
        Completed(Moment, bool),
    }
    impl<Tally, Moment, Class> PollStatus<Tally, Moment, Class> {
        pub fn ensure_ongoing(self) -> Option<(Tally, Class)> {
            match self {
                PollStatus::Ongoing(t, c) => Some((t, c)),
                _ => None,
            }
        }
    }
    pub trait Polling<Tally> {
        type Index: crate::frame_support::Parameter + Ord + Copy + MaxEncodedLen + crate::codec::HasCompact;
        type Votes: crate::frame_support::Parameter + Ord + Copy + MaxEncodedLen + crate::codec::HasCompact;
        type Class: crate::frame_support::Parameter + Ord + Copy + MaxEncodedLen;
        type Moment;
        fn classes() -> std::vec::Vec<Self::Class>;
        fn as_ongoing(index: Self::Index) -> Option<(Tally, Self::Class)>;
        fn access_poll<R>(
            index: Self::Index,
            f: impl FnOnce(PollStatus<&mut Tally, Self::Moment, Self::Class>) -> R,
        ) -> R;
        fn try_access_poll<R>(
            index: Self::Index,
            f: impl FnOnce(PollStatus<&mut Tally, Self::Moment, Self::Class>) -> Result<R, DispatchError>,
        ) -> Result<R, DispatchError>;
    }
    pub trait VoteTally<Votes, Class> {
        fn new(class: Class) -> Self;
        fn ayes(&self, class: Class) -> Votes;
        fn support(&self, class: Class) -> crate::sp_runtime::Perbill;
        fn approval(&self, class: Class) -> crate::sp_runtime::Perbill;
    }

    pub mod nonfungibles_v2 {
        use super::*;
        pub trait Inspect<AccountId> {
            type ItemId;
            type CollectionId;
            fn owner(collection: &Self::CollectionId, item: &Self::ItemId) -> Option<AccountId>;
            fn collection_owner(_collection: &Self::CollectionId) -> Option<AccountId> {
                None
            }
        }
        pub trait Create<AccountId, CollectionConfig>: Inspect<AccountId> {
            fn create_collection(
                who: &AccountId,
                admin: &AccountId,
                config: &CollectionConfig,
            ) -> Result<Self::CollectionId, DispatchError>;
            fn create_collection_with_id(
                collection: Self::CollectionId,
                who: &AccountId,
                admin: &AccountId,
                config: &CollectionConfig,
            ) -> Result<(), DispatchError>;
        }
        pub trait Mutate<AccountId, ItemConfig>: Inspect<AccountId> {
            fn mint_into(
                collection: &Self::CollectionId,
                item: &Self::ItemId,
                who: &AccountId,
                config: &ItemConfig,
                deposit_collection_owner: bool,
            ) -> DispatchResult;
            fn burn(
                collection: &Self::CollectionId,
                item: &Self::ItemId,
                maybe_check_owner: Option<&AccountId>,
            ) -> DispatchResult;
        }
        pub trait Trading<AccountId, ItemPrice>: Inspect<AccountId> {
            fn buy_item(
                collection: &Self::CollectionId,
                item: &Self::ItemId,
                buyer: &AccountId,
                bid_price: &ItemPrice,
            ) -> DispatchResult;
            fn set_price(
                collection: &Self::CollectionId,
                item: &Self::ItemId,
                sender: &AccountId,
                price: Option<ItemPrice>,
                whitelisted_buyer: Option<AccountId>,
            ) -> DispatchResult;
            fn item_price(collection: &Self::CollectionId, item: &Self::ItemId) -> Option<ItemPrice>;
        }
    }
}
