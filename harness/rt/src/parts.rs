//! Interfaces of the crates that only the runtime uses, and its basic names.
use crate::standins::{AccountId, Balance, BlockNumber, Runtime, RuntimeOrigin};
pub use crate::constants::currency::{deposit, CENTS, EXISTENTIAL_DEPOSIT, GRAND, MILLICENTS, UNITS};
pub use frame_support::traits::{
    fungibles, ConstU32, Contains, ContainsPair, EitherOf, EnsureOrigin, EnsureOriginWithArg, Get, TypedGet,
};
pub use frame_support::{ensure, parameter_types, BoundedVec, PalletId};
pub use frame_system::EnsureRoot;
pub use pallet_payments::types::*;
pub use sp_runtime::traits::{LookupError, StaticLookup};
pub use sp_runtime::{MultiAddress, Perbill, Percent, Permill};
use crate::standins::CommunityId;

pub type Communities = pallet_communities::Pallet<Runtime>;
pub type Address = MultiAddress<AccountId, CommunityId>;
pub type HashedUserId = [u8; 32];
pub type KreivoAssetsCall = crate::standins::pallet_assets::Call;

pub const MINUTES: BlockNumber = 10;
pub const HOURS: BlockNumber = MINUTES * 60;
pub const DAYS: BlockNumber = HOURS * 24;

pub mod polkadot_core_primitives {
    pub type Balance = u128;
}
pub mod runtime_constants {
    pub mod currency {
        use crate::pick;
        use crate::parts::polkadot_core_primitives::Balance;
        pick! { "/repo/runtime/runtime-constants/src/lib.rs"; inside currency; bare }
    }
}
pub mod smallvec {
    /// At most four elements.
    #[macro_export]
    macro_rules! terms {
        ($($t:expr),* $(,)?) => {{
            let mut all = [None; 4];
            let mut n = 0;
            $(all[n] = Some($t); n += 1;)*
            let _ = n;
            frame_support::weights::WeightToFeeCoefficients(all)
        }};
    }
    pub use crate::terms as smallvec;
}

#[macro_export]
macro_rules! nothing {
    ($($t:tt)*) => {};
}
pub mod log {
    pub use crate::nothing as debug;
    pub use crate::nothing as error;
    pub use crate::nothing as info;
    pub use crate::nothing as trace;
    pub use crate::nothing as warn;
}

pub mod pallet_referenda {
    use crate::standins::{Balance, BlockNumber, OriginCaller, Runtime};
    use frame_support::traits::OriginTrait;
    pub use crate::nothing as impl_tracksinfo_get;
    pub use shim::referenda::{Curve, TrackInfo};
    use sp_std::borrow::Cow;

    pub struct Instance1;
    pub struct Instance2;
    #[derive(Clone, Debug, PartialEq, Eq)]
    pub struct Track<Id, Balance, Moment> {
        pub id: Id,
        pub info: TrackInfo<Balance, Moment>,
    }
    pub trait TracksInfo<Balance: Clone + 'static, Moment: Clone + 'static> {
        type Id: Clone + PartialEq + 'static;
        type RuntimeOrigin;
        fn tracks() -> impl Iterator<Item = Cow<'static, Track<Self::Id, Balance, Moment>>>;
        fn track_for(origin: &Self::RuntimeOrigin) -> Result<Self::Id, ()>;
        fn info(id: Self::Id) -> Option<Cow<'static, TrackInfo<Balance, Moment>>> {
            Self::tracks().find(|t| t.id == id).map(|t| match t {
                Cow::Borrowed(t) => Cow::Borrowed(&t.info),
                Cow::Owned(t) => Cow::Owned(t.info),
            })
        }
    }
    pub trait Config<I: 'static = ()>: frame_system::Config {
        type Tracks: TracksInfo<Balance, Self::BlockNumber, RuntimeOrigin = PalletsOriginOf<Self>>;
    }
    pub type BalanceOf<T, I = ()> = <Of<T, I> as Is>::Balance;
    pub struct Of<T, I>(core::marker::PhantomData<(T, I)>);
    pub trait Is {
        type Balance;
    }
    impl<T, I> Is for Of<T, I> {
        type Balance = Balance;
    }
    pub type PalletsOriginOf<T> = <<T as frame_system::Config>::RuntimeOrigin as OriginTrait>::PalletsOrigin;
    pub type TrackIdOf<T, I> = <<T as Config<I>>::Tracks as TracksInfo<Balance, <T as frame_system::Config>::BlockNumber>>::Id;

    impl Config<Instance1> for Runtime {
        type Tracks = crate::collective::tracks::TracksInfo;
    }
    impl Config<Instance2> for Runtime {
        type Tracks = crate::standins::CommunityTracks;
    }
    impl TracksInfo<Balance, BlockNumber> for crate::standins::CommunityTracks {
        type Id = virto_common::CommunityId;
        type RuntimeOrigin = OriginCaller;
        fn tracks() -> impl Iterator<Item = Cow<'static, Track<Self::Id, Balance, BlockNumber>>> {
            core::iter::empty()
        }
        fn track_for(origin: &OriginCaller) -> Result<Self::Id, ()> {
            crate::standins::CommunityTracks::track_for(origin)
        }
    }
}
pub mod pallet_referenda_tracks {
    pub use super::pallet_referenda::{Instance1, Instance2};
}
pub mod pallet_ranked_collective {
    pub type Rank = u16;
    pub type Votes = u32;
    pub struct TallyOf<T, I>(core::marker::PhantomData<(T, I)>);
}

pub mod fc_traits_authn {
    pub type Challenge = [u8; 32];
    pub trait Challenger {
        type Context;
        fn generate(cx: &Self::Context) -> Challenge;
        fn check_challenge(cx: &Self::Context, challenge: &[u8]) -> Option<()> {
            Self::generate(cx).eq(challenge).then_some(())
        }
    }
    pub use crate::nothing as composite_authenticator;
    pub mod util {
        pub struct AuthorityFromPalletId<P>(core::marker::PhantomData<P>);
    }
}

pub mod pallet_pass {
    use super::*;
    /// Who pays how much to whom.
    #[derive(Clone, Debug, PartialEq, Eq)]
    pub struct DepositInformation<T>(pub AccountId, pub Balance, pub AccountId, pub core::marker::PhantomData<T>);
    pub struct EnsureSignedPays<T, Amount, Receiver>(core::marker::PhantomData<(T, Amount, Receiver)>);
    impl<T, Amount: Get<Balance>, Receiver: Get<AccountId>> EnsureOriginWithArg<RuntimeOrigin, HashedUserId>
        for EnsureSignedPays<T, Amount, Receiver>
    {
        type Success = Option<DepositInformation<T>>;
        fn try_origin(o: RuntimeOrigin, _: &HashedUserId) -> Result<Self::Success, RuntimeOrigin> {
            let who = <frame_system::EnsureSigned<AccountId> as EnsureOrigin<RuntimeOrigin>>::try_origin(o)?;
            Ok(Some(DepositInformation(who, Amount::get(), Receiver::get(), core::marker::PhantomData)))
        }
    }
}
/// The native tokens' configuration.
pub trait HasDeposit {
    type ExistentialDeposit;
}
impl HasDeposit for Runtime {
    type ExistentialDeposit = ExistentialDeposit;
}
parameter_types! {
    pub const ExistentialDeposit: Balance = EXISTENTIAL_DEPOSIT;
}

pub mod xcm_executor {
    pub mod traits {
        use xcm::latest::{Location, OriginKind};
        pub trait ConvertOrigin<O> {
            fn convert_origin(location: impl Into<Location>, kind: OriginKind) -> Result<O, Location>;
        }
        impl<O, A: ConvertOrigin<O>, B: ConvertOrigin<O>, C: ConvertOrigin<O>, D: ConvertOrigin<O>, E: ConvertOrigin<O>>
            ConvertOrigin<O> for (A, B, C, D, E)
        {
            fn convert_origin(l: impl Into<Location>, k: OriginKind) -> Result<O, Location> {
                let l = A::convert_origin(l, k).or_else(|l| B::convert_origin(l, k)).or_else(|l| C::convert_origin(l, k));
                l.or_else(|l| D::convert_origin(l, k)).or_else(|l| E::convert_origin(l, k))
            }
        }
        pub struct JustTry;
        impl sp_runtime::traits::MaybeEquivalence<u128, u128> for JustTry {
            fn convert(n: &u128) -> Option<u128> {
                Some(*n)
            }
            fn convert_back(n: &u128) -> Option<u128> {
                Some(*n)
            }
        }
        /// How much of what local asset an asset is.
        pub trait MatchesFungibles<Id, Balance> {
            fn matches_fungibles(a: &xcm::latest::Asset) -> Result<(Id, Balance), ()>;
        }
        pub trait MatchesFungible<Balance> {
            fn matches_fungible(a: &xcm::latest::Asset) -> Option<Balance>;
        }
        pub trait ConvertLocation<AccountId> {
            fn convert_location(location: &Location) -> Option<AccountId>;
        }
        macro_rules! first_of {
            ($($n:ident),+) => {
                impl<Acc, $($n: ConvertLocation<Acc>),+> ConvertLocation<Acc> for ($($n,)+) {
                    fn convert_location(l: &Location) -> Option<Acc> {
                        $(if let Some(a) = $n::convert_location(l) { return Some(a); })+
                        None
                    }
                }
            }
        }
        first_of!(A, B);
        first_of!(A, B, C);
        first_of!(A, B, C, D);
        first_of!(A, B, C, D, E);
        first_of!(A, B, C, D, E, F);
        first_of!(A, B, C, D, E, F, G);
    }
}
pub use xcm_builder::{
    ConvertedConcreteId, FungibleAdapter, FungiblesAdapter, IsConcrete, LocalMint, MintLocation, StartsWith, UsingComponents,
    AllowExplicitUnpaidExecutionFrom, AllowTopLevelPaidExecutionFrom, AllowUnpaidExecutionFrom, TakeWeightCredit, WithComputedOrigin,
    AccountId32Aliases, EnsureXcmOrigin, NativeAsset, ParentIsPreset, RelayChainAsNative, Sibling, SiblingParachainAsNative,
    SiblingParachainConvertsVia, SignedAccountId32AsNative, SignedToAccountId32, SovereignSignedViaLocation,
};
pub use frame_support::traits::{AsEnsureOriginWithArg, EitherOfDiverse, Everything, NeverEnsureOrigin, Nothing};
pub use pallet_xcm::{EnsureXcm, IsVoiceOfBody, XcmPassthrough};
pub use xcm_executor::traits::JustTry;
pub mod cumulus_primitives_utility {
    use core::marker::PhantomData;
    pub struct TakeFirstAssetTrader<A, Charger, Matcher, Assets, To>(PhantomData<(A, Charger, Matcher, Assets, To)>);
    impl<A, C, M, S, To> super::xcm_builder::Trader for TakeFirstAssetTrader<A, C, M, S, To> {
        type In = M;
        type To = To;
    }
    pub struct XcmFeesTo32ByteAccount<Transactor, A, To>(PhantomData<(Transactor, A, To)>);
    impl<T, A, To: super::Get<A>> super::xcm_builder::Receiver<A> for XcmFeesTo32ByteAccount<T, A, To> {
        fn account() -> A {
            To::get()
        }
    }
}
pub mod parachains_common {
    pub mod impls {
        pub struct NonZeroIssuance<A, S>(core::marker::PhantomData<(A, S)>);
    }
    pub mod xcm_config {
        pub struct AssetFeeAsExistentialDepositMultiplier<R, F, B, I>(core::marker::PhantomData<(R, F, B, I)>);
        pub struct KreivoAssetsInstance;
        pub mod pallet_assets {
            pub struct BalanceToAssetBalance<F, T, C, I>(core::marker::PhantomData<(F, T, C, I)>);
        }
    }
}
pub mod cumulus_pallet_xcm {
    #[derive(Copy, Clone, Debug, PartialEq, Eq)]
    pub enum Origin {
        Relay,
        SiblingParachain(u32),
    }
    impl From<u32> for Origin {
        fn from(id: u32) -> Self {
            Origin::SiblingParachain(id)
        }
    }
}
pub mod pallet_xcm {
    use super::xcm_executor::traits::ConvertOrigin;
    use super::*;
    use crate::standins::{OriginCaller, FROM};
    use core::marker::PhantomData;
    use xcm::latest::prelude::*;
    /// Those who speak from a place that `F` contains.
    pub struct EnsureXcm<F>(PhantomData<F>);
    impl<F: Contains<Location>> EnsureOrigin<RuntimeOrigin> for EnsureXcm<F> {
        type Success = Location;
        fn try_origin(o: RuntimeOrigin) -> Result<Location, RuntimeOrigin> {
            let from = unsafe { FROM };
            if o.caller == OriginCaller::PolkadotXcm && F::contains(&from) {
                Ok(from)
            } else {
                Err(o)
            }
        }
    }
    pub struct IsVoiceOfBody<P, B>(PhantomData<(P, B)>);
    impl<P: Get<Location>, B: Get<BodyId>> Contains<Location> for IsVoiceOfBody<P, B> {
        fn contains(l: &Location) -> bool {
            l.match_and_split(&P::get()) == Some(&Plurality { id: B::get(), part: BodyPart::Voice })
        }
    }
    pub struct XcmPassthrough<O>(PhantomData<O>);
    impl ConvertOrigin<RuntimeOrigin> for XcmPassthrough<RuntimeOrigin> {
        fn convert_origin(l: impl Into<Location>, k: OriginKind) -> Result<RuntimeOrigin, Location> {
            let l = l.into();
            match k {
                OriginKind::Xcm => {
                    unsafe { FROM = l };
                    Ok(OriginCaller::PolkadotXcm.into())
                }
                _ => Err(l),
            }
        }
    }
}
pub mod xcm_builder {
    use super::xcm_executor::traits::{ConvertLocation, ConvertOrigin, MatchesFungible, MatchesFungibles};
    use super::*;
    use crate::standins::OriginCaller;
    use sp_runtime::traits::MaybeEquivalence;
    use core::marker::PhantomData;
    use frame_support::traits::OriginTrait;
    use frame_system::RawOrigin;
    use sp_runtime::traits::TryConvert;
    use xcm::latest::prelude::*;

    fn account(start: &[u8]) -> AccountId {
        let mut a = [0; 32];
        a[..start.len()].copy_from_slice(start);
        sp_runtime::AccountId32(a)
    }
    /// An asset named by the place it comes from.
    pub struct NativeAsset;
    impl ContainsPair<Asset, Location> for NativeAsset {
        fn contains(asset: &Asset, origin: &Location) -> bool {
            &asset.id.0 == origin
        }
    }
    pub struct ParentIsPreset<A>(PhantomData<A>);
    impl ConvertLocation<AccountId> for ParentIsPreset<AccountId> {
        fn convert_location(l: &Location) -> Option<AccountId> {
            match l.unpack() {
                (1, []) => Some(account(b"Parent")),
                _ => None,
            }
        }
    }
    pub struct Sibling;
    pub struct SiblingParachainConvertsVia<P, A>(PhantomData<(P, A)>);
    impl ConvertLocation<AccountId> for SiblingParachainConvertsVia<Sibling, AccountId> {
        fn convert_location(l: &Location) -> Option<AccountId> {
            match l.unpack() {
                (1, [Parachain(id)]) => {
                    let i = id.to_le_bytes();
                    Some(account(&[b's', b'i', b'b', b'l', i[0], i[1], i[2], i[3]]))
                }
                _ => None,
            }
        }
    }
    pub struct AccountId32Aliases<N, A>(PhantomData<(N, A)>);
    impl<N: Get<Option<NetworkId>>> ConvertLocation<AccountId> for AccountId32Aliases<N, AccountId> {
        fn convert_location(l: &Location) -> Option<AccountId> {
            let id = match l.unpack() {
                (0, [AccountId32 { id, network: None }]) => id,
                (0, [AccountId32 { id, network }]) if *network == N::get() => id,
                _ => return None,
            };
            Some(sp_runtime::AccountId32(*id))
        }
    }
    pub struct SignedToAccountId32<O, A, N>(PhantomData<(O, A, N)>);
    impl<N: Get<Option<NetworkId>>> TryConvert<RuntimeOrigin, Location> for SignedToAccountId32<RuntimeOrigin, AccountId, N> {
        fn try_convert(o: RuntimeOrigin) -> Result<Location, RuntimeOrigin> {
            match &o.caller {
                OriginCaller::system(RawOrigin::Signed(w)) => Ok(AccountId32 { network: N::get(), id: w.0 }.into()),
                _ => Err(o),
            }
        }
    }
    pub struct SovereignSignedViaLocation<C, O>(PhantomData<(C, O)>);
    impl<C: ConvertLocation<AccountId>> ConvertOrigin<RuntimeOrigin> for SovereignSignedViaLocation<C, RuntimeOrigin> {
        fn convert_origin(l: impl Into<Location>, k: OriginKind) -> Result<RuntimeOrigin, Location> {
            let l = l.into();
            match k {
                OriginKind::SovereignAccount => C::convert_location(&l).map(RuntimeOrigin::signed).ok_or(l),
                _ => Err(l),
            }
        }
    }
    pub struct RelayChainAsNative<R, O>(PhantomData<(R, O)>);
    impl<R: Get<RuntimeOrigin>> ConvertOrigin<RuntimeOrigin> for RelayChainAsNative<R, RuntimeOrigin> {
        fn convert_origin(l: impl Into<Location>, k: OriginKind) -> Result<RuntimeOrigin, Location> {
            let l = l.into();
            match (k, l.unpack()) {
                (OriginKind::Native, (1, [])) => Ok(R::get()),
                _ => Err(l),
            }
        }
    }
    pub struct SiblingParachainAsNative<P, O>(PhantomData<(P, O)>);
    impl<P: From<u32> + Into<RuntimeOrigin>> ConvertOrigin<RuntimeOrigin> for SiblingParachainAsNative<P, RuntimeOrigin> {
        fn convert_origin(l: impl Into<Location>, k: OriginKind) -> Result<RuntimeOrigin, Location> {
            let l = l.into();
            match (k, l.unpack()) {
                (OriginKind::Native, (1, [Parachain(id)])) => Ok(P::from(*id).into()),
                _ => Err(l),
            }
        }
    }
    pub struct SignedAccountId32AsNative<N, O>(PhantomData<(N, O)>);
    impl<N: Get<Option<NetworkId>>> ConvertOrigin<RuntimeOrigin> for SignedAccountId32AsNative<N, RuntimeOrigin> {
        fn convert_origin(l: impl Into<Location>, k: OriginKind) -> Result<RuntimeOrigin, Location> {
            let l = l.into();
            match (k, l.unpack()) {
                (OriginKind::Native, (0, [AccountId32 { id, network }])) if network.is_none() || *network == N::get() => {
                    Ok(RuntimeOrigin::signed(sp_runtime::AccountId32(*id)))
                }
                _ => Err(l),
            }
        }
    }
    /// Local assets that `M` contains, by the conversions `A` and `B`.
    pub struct MatchedConvertedConcreteId<Id, Balance, M, A, B>(PhantomData<(Id, Balance, M, A, B)>);
    impl<Id, N, M, A, B> MatchesFungibles<Id, N> for MatchedConvertedConcreteId<Id, N, M, A, B>
    where
        M: Contains<Location>,
        A: MaybeEquivalence<Location, Id>,
        B: MaybeEquivalence<u128, N>,
    {
        fn matches_fungibles(a: &Asset) -> Result<(Id, N), ()> {
            let n = match a.fun {
                Fungible(n) if M::contains(&a.id.0) => n,
                _ => return Err(()),
            };
            Ok((A::convert(&a.id.0).ok_or(())?, B::convert(&n).ok_or(())?))
        }
    }
    pub type ConvertedConcreteId<Id, Balance, A, B> = MatchedConvertedConcreteId<Id, Balance, Everything, A, B>;
    pub struct StartsWith<P>(PhantomData<P>);
    impl<P: Get<Location>> Contains<Location> for StartsWith<P> {
        fn contains(l: &Location) -> bool {
            l.starts_with(&P::get())
        }
    }
    pub struct IsConcrete<L>(PhantomData<L>);
    impl<L: Get<Location>> MatchesFungible<Balance> for IsConcrete<L> {
        fn matches_fungible(a: &Asset) -> Option<Balance> {
            match a.fun {
                Fungible(n) if a.id.0 == L::get() => Some(n),
                _ => None,
            }
        }
    }
    /// What adapters are made of.
    pub struct FungiblesAdapter<Assets, Matcher, Accounts, AccountId, Checked, Checking>(
        PhantomData<(Assets, Matcher, Accounts, AccountId, Checked, Checking)>,
    );
    pub struct FungibleAdapter<Currency, Matcher, Accounts, AccountId, Checked>(
        PhantomData<(Currency, Matcher, Accounts, AccountId, Checked)>,
    );
    pub trait Adapter {
        type Matcher;
        type Accounts;
    }
    impl<A, M, C, I, K, G> Adapter for FungiblesAdapter<A, M, C, I, K, G> {
        type Matcher = M;
        type Accounts = C;
    }
    impl<A, M, C, I, K> Adapter for FungibleAdapter<A, M, C, I, K> {
        type Matcher = M;
        type Accounts = C;
    }
    pub struct LocalMint<A>(PhantomData<A>);
    #[derive(Copy, Clone, Debug, PartialEq, Eq)]
    pub enum MintLocation {
        Local,
        NonLocal,
    }
    pub struct UsingComponents<Fee, L, A, C, To>(PhantomData<(Fee, L, A, C, To)>);
    pub trait Trader {
        /// what fees are paid in
        type In;
        /// where they go
        type To;
    }
    impl<Fee, L, A, C, To> Trader for UsingComponents<Fee, L, A, C, To> {
        type In = L;
        type To = To;
    }
    pub trait Receiver<A> {
        fn account() -> A;
    }
    impl<A, To: TypedGet<Type = A>, B> Receiver<A> for frame_support::traits::tokens::imbalance::ResolveTo<To, B> {
        fn account() -> A {
            To::get()
        }
    }
    /// How a message means to pay for its execution.
    #[derive(Copy, Clone, Debug, PartialEq, Eq)]
    pub enum Pays {
        /// it was paid before
        Already,
        /// it buys its execution
        Buys,
        /// it says that it does not
        Not,
        /// it says nothing
        Silent,
    }
    /// Whether a message from a place is let in.
    pub trait ShouldExecute {
        fn lets(from: &Location, pays: Pays) -> bool;
    }
    pub struct TakeWeightCredit;
    impl ShouldExecute for TakeWeightCredit {
        fn lets(_: &Location, pays: Pays) -> bool {
            pays == Pays::Already
        }
    }
    pub struct AllowTopLevelPaidExecutionFrom<T>(PhantomData<T>);
    impl<T: Contains<Location>> ShouldExecute for AllowTopLevelPaidExecutionFrom<T> {
        fn lets(from: &Location, pays: Pays) -> bool {
            pays == Pays::Buys && T::contains(from)
        }
    }
    pub struct AllowExplicitUnpaidExecutionFrom<T>(PhantomData<T>);
    impl<T: Contains<Location>> ShouldExecute for AllowExplicitUnpaidExecutionFrom<T> {
        fn lets(from: &Location, pays: Pays) -> bool {
            pays == Pays::Not && T::contains(from)
        }
    }
    pub struct AllowUnpaidExecutionFrom<T>(PhantomData<T>);
    impl<T: Contains<Location>> ShouldExecute for AllowUnpaidExecutionFrom<T> {
        fn lets(from: &Location, _: Pays) -> bool {
            T::contains(from)
        }
    }
    /// Messages that name no other origin are those of where they come from.
    pub struct WithComputedOrigin<B, L, N>(PhantomData<(B, L, N)>);
    impl<B: ShouldExecute, L, N> ShouldExecute for WithComputedOrigin<B, L, N> {
        fn lets(from: &Location, pays: Pays) -> bool {
            B::lets(from, pays)
        }
    }
    macro_rules! any_of {
        ($($n:ident),+) => {
            impl<$($n: ShouldExecute),+> ShouldExecute for ($($n,)+) {
                fn lets(from: &Location, pays: Pays) -> bool {
                    $($n::lets(from, pays))||+
                }
            }
        }
    }
    any_of!(A);
    any_of!(A, B);
    any_of!(A, B, C);
    any_of!(A, B, C, D);
    pub struct EnsureXcmOrigin<O, C>(PhantomData<(O, C)>);
    impl<O: Clone, C: TryConvert<O, Location>> EnsureOrigin<O> for EnsureXcmOrigin<O, C> {
        type Success = Location;
        fn try_origin(o: O) -> Result<Location, O> {
            C::try_convert(o)
        }
    }
}
