use crate::codec::{Decode, Encode, MaxEncodedLen};
use crate::scale_info::TypeInfo;

pub use crate::collections::BoundedVec;
pub use crate::morph_types;
pub use crate::codec;
pub use crate::scale_info;
pub use core::fmt::Debug as RuntimeDebug;
pub use traits::{SaturatedConversion, Saturating};

/// Ways to name an account.
#[derive(Clone, Debug, PartialEq, Eq, Encode, Decode, TypeInfo)]
pub enum MultiAddress<AccountId, AccountIndex> {
    Id(AccountId),
    Index(AccountIndex),
    Raw(std::vec::Vec<u8>),
    Address32([u8; 32]),
    Address20([u8; 20]),
}

/// A signed number with nine decimals.
#[derive(Copy, Clone, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Encode, Decode, MaxEncodedLen, TypeInfo)]
pub struct FixedI64(i64);
impl FixedI64 {
    pub const DIV: i64 = 1_000_000_000;
    pub const fn from_inner(v: i64) -> Self {
        FixedI64(v)
    }
    pub const fn into_inner(self) -> i64 {
        self.0
    }
    pub const fn from_rational(a: u128, b: u128) -> Self {
        if b == 0 {
            panic!("attempt to divide by zero in from_rational")
        }
        FixedI64((a * Self::DIV as u128 / b) as i64)
    }
    pub const fn from_u32(n: u32) -> Self {
        FixedI64(n as i64 * Self::DIV)
    }
    pub const fn into_perbill(self) -> Perbill {
        if self.0 <= 0 {
            Perbill::zero()
        } else if self.0 >= Self::DIV {
            Perbill::one()
        } else {
            Perbill::from_parts(self.0 as u32)
        }
    }
}

#[derive(Copy, Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Encode, Decode, MaxEncodedLen, TypeInfo, Default)]
pub struct H256(pub [u8; 32]);
impl AsRef<[u8]> for H256 {
    fn as_ref(&self) -> &[u8] {
        &self.0
    }
}
impl From<[u8; 32]> for H256 {
    fn from(b: [u8; 32]) -> Self {
        H256(b)
    }
}

#[derive(Copy, Clone, Debug, Eq, PartialOrd, Ord, Encode, Decode, MaxEncodedLen, TypeInfo)]
pub struct AccountId32(pub [u8; 32]);
impl PartialEq for AccountId32 {
    fn eq(&self, o: &Self) -> bool {
        crate::same32(&self.0, &o.0)
    }
}
impl AccountId32 {
    pub const fn new(b: [u8; 32]) -> Self {
        AccountId32(b)
    }
}
impl From<[u8; 32]> for AccountId32 {
    fn from(b: [u8; 32]) -> Self {
        AccountId32(b)
    }
}
impl From<AccountId32> for [u8; 32] {
    fn from(a: AccountId32) -> [u8; 32] {
        a.0
    }
}
impl AsRef<[u8; 32]> for AccountId32 {
    fn as_ref(&self) -> &[u8; 32] {
        &self.0
    }
}
impl AsRef<[u8]> for AccountId32 {
    fn as_ref(&self) -> &[u8] {
        &self.0
    }
}

#[derive(Copy, Clone, Debug, PartialEq, Eq, Encode, Decode, MaxEncodedLen, TypeInfo)]
pub struct ModuleError {
    pub index: u8,
    pub error: [u8; 4],
    #[codec(skip)]
    pub message: Option<&'static str>,
}
#[derive(Copy, Clone, Debug, PartialEq, Eq, Encode, Decode, MaxEncodedLen, TypeInfo)]
pub enum TokenError {
    FundsUnavailable,
    OnlyProvider,
    BelowMinimum,
    CannotCreate,
    UnknownAsset,
    Frozen,
    Unsupported,
    CannotCreateHold,
    NotExpendable,
    Blocked,
}
#[derive(Copy, Clone, Debug, PartialEq, Eq, Encode, Decode, MaxEncodedLen, TypeInfo)]
pub enum ArithmeticError {
    Underflow,
    Overflow,
    DivisionByZero,
}
#[derive(Copy, Clone, Debug, PartialEq, Eq, Encode, Decode, TypeInfo)]
pub enum DispatchError {
    Other(#[codec(skip)] &'static str),
    CannotLookup,
    BadOrigin,
    Module(ModuleError),
    ConsumerRemaining,
    NoProviders,
    TooManyConsumers,
    Token(TokenError),
    Arithmetic(ArithmeticError),
    Exhausted,
    Corruption,
    Unavailable,
    RootNotAllowed,
}
impl From<&'static str> for DispatchError {
    fn from(s: &'static str) -> Self {
        DispatchError::Other(s)
    }
}
impl From<TokenError> for DispatchError {
    fn from(e: TokenError) -> Self {
        DispatchError::Token(e)
    }
}
impl From<ArithmeticError> for DispatchError {
    fn from(e: ArithmeticError) -> Self {
        DispatchError::Arithmetic(e)
    }
}
impl From<traits::BadOrigin> for DispatchError {
    fn from(_: traits::BadOrigin) -> Self {
        DispatchError::BadOrigin
    }
}
impl From<traits::LookupError> for DispatchError {
    fn from(_: traits::LookupError) -> Self {
        DispatchError::CannotLookup
    }
}
impl From<DispatchError> for &'static str {
    fn from(_: DispatchError) -> &'static str {
        "error"
    }
}
pub type DispatchResult = Result<(), DispatchError>;
#[derive(Copy, Clone, Debug, PartialEq, Eq)]
pub struct DispatchErrorWithPostInfo<Info> {
    pub post_info: Info,
    pub error: DispatchError,
}
impl<Info: Default, E: Into<DispatchError>> From<E> for DispatchErrorWithPostInfo<Info> {
    fn from(e: E) -> Self {
        DispatchErrorWithPostInfo { post_info: Info::default(), error: e.into() }
    }
}
pub type DispatchResultWithInfo<T> = Result<T, DispatchErrorWithPostInfo<T>>;

/// Name, cut or filled with zeroes to `N` bytes.
pub const fn str_array<const N: usize>(s: &str) -> [u8; N] {
    let b = s.as_bytes();
    let mut out = [0u8; N];
    let mut i = 0;
    while i < b.len() && i < N {
        out[i] = b[i];
        i += 1;
    }
    out
}

/// floor(a / b), as a value constrained by multiplication: cheaper for the solver than a divider.
fn div_floor(a: u128, b: u64) -> u64 {
    let q = vk::any_u64();
    let p = (q as u128) * (b as u128);
    vk::assume(p <= a && a - p < b as u128);
    q
}
/// The same where a, b and the result are small.
fn div_floor_narrow(a: u64, b: u64) -> u64 {
    let q = vk::any_u32() as u64;
    let p = q * b;
    vk::assume(p <= a && a - p < b);
    q
}

/// Leaves open what a percentage of a number is, except that it is a function of both, at most the
/// number, and nothing or all of it for zero and one hundred percent.
pub static mut ABSTRACT_PERCENTAGES: bool = false;
static mut PERCENTAGES: [(u32, u32, u32); 6] = [(0, 0, 0); 6];
static mut PERCENTAGES_KNOWN: usize = 0;
fn abstract_percentage(p: u32, max: u32, n: u32) -> u32 {
    unsafe {
        let q = vk::any_u32();
        vk::assume(q <= n && (p != 0 || q == 0) && (p != max || q == n));
        let mut i = 0;
        while i < PERCENTAGES_KNOWN {
            let (x, y, z) = PERCENTAGES[i];
            vk::assume(x != p || y != n || z == q);
            i += 1;
        }
        if PERCENTAGES_KNOWN == PERCENTAGES.len() {
            crate::out_of_bounds("percentages taken");
        }
        PERCENTAGES[PERCENTAGES_KNOWN] = (p, n, q);
        PERCENTAGES_KNOWN += 1;
        q
    }
}

/// Leaves open what part p is of q, except that it is a function of both, nothing for p = 0, and
/// all if p is not less than q. In native runs it is computed.
pub static mut ABSTRACT_FRACTIONS: bool = false;
static mut FRACTIONS: [(u64, u64, u32); 4] = [(0, 0, 0); 4];
static mut FRACTIONS_KNOWN: usize = 0;
fn abstract_fraction(p: u64, q: u64, max: u32) -> u32 {
    let r = vk::any_u32();
    if cfg!(not(kani)) {
        let (mut p, mut q, max) = (p as u128, q as u128, max as u128);
        if q > max {
            let f = (q + max - 1) / max;
            q /= f;
            p /= f;
        }
        return (p * max / q) as u32;
    }
    unsafe {
        vk::assume(r <= max && (p != 0 || r == 0));
        let mut i = 0;
        while i < FRACTIONS_KNOWN {
            let (x, y, z) = FRACTIONS[i];
            vk::assume(x != p || y != q || z == r);
            i += 1;
        }
        if FRACTIONS_KNOWN == FRACTIONS.len() {
            crate::out_of_bounds("fractions taken");
        }
        FRACTIONS[FRACTIONS_KNOWN] = (p, q, r);
        FRACTIONS_KNOWN += 1;
        r
    }
}

pub trait PerThing: Copy {
    type Inner;
    const ACCURACY: Self::Inner;
}

macro_rules! per_thing {
    ($name:ident, $inner:ty, $max:literal) => {
        #[derive(
            Copy, Clone, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Encode, Decode, MaxEncodedLen, TypeInfo,
        )]
        pub struct $name($inner);
        impl PerThing for $name {
            type Inner = $inner;
            const ACCURACY: $inner = $max;
        }
        impl $name {
            pub const fn from_parts(p: $inner) -> Self {
                $name(if p > $max { $max } else { p })
            }
            pub const fn from_percent(p: $inner) -> Self {
                let p = if p > 100 { 100 } else { p };
                $name(p * ($max / 100))
            }
            pub const fn deconstruct(self) -> $inner {
                self.0
            }
            pub const fn zero() -> Self {
                $name(0)
            }
            pub const fn one() -> Self {
                $name($max)
            }
            pub const fn is_zero(&self) -> bool {
                self.0 == 0
            }
            pub const fn is_one(&self) -> bool {
                self.0 == $max
            }
            pub const fn left_from_one(self) -> Self {
                $name($max - self.0)
            }
            pub const fn saturating_add(self, o: Self) -> Self {
                let s = self.0 as u64 + o.0 as u64;
                $name(if s > $max { $max } else { s as $inner })
            }
            pub const fn saturating_sub(self, o: Self) -> Self {
                $name(self.0.saturating_sub(o.0))
            }
            pub fn mul_floor<N: traits::Small>(self, n: N) -> N {
                if N::NARROW && unsafe { ABSTRACT_PERCENTAGES } {
                    return N::from_u64(abstract_percentage(self.0 as u32, $max, n.to_u64() as u32) as u64);
                }
                if N::NARROW {
                    return N::from_u64(div_floor_narrow(n.to_u64() * self.0 as u64, $max));
                }
                N::from_u64(div_floor(n.to_u64() as u128 * self.0 as u128, $max))
            }
            pub fn mul_ceil<N: traits::Small>(self, n: N) -> N {
                N::from_u64(div_floor(n.to_u64() as u128 * self.0 as u128 + ($max as u128 - 1), $max))
            }
            /// p / q rounded down; one when q is zero or p exceeds q.
            pub fn from_rational<N: traits::Small>(p: N, q: N) -> Self {
                let (p, q) = (p.to_u64(), q.to_u64());
                if q == 0 || p > q {
                    return Self::one();
                }
                if unsafe { ABSTRACT_FRACTIONS } {
                    return $name(abstract_fraction(p, q, $max as u32) as $inner);
                }
                let (mut p, mut q) = (p, q);
                if q > $max {
                    let f = div_floor(q as u128 + ($max as u128 - 1), $max);
                    q = div_floor(q as u128, f);
                    p = div_floor(p as u128, f);
                }
                $name(div_floor(p as u128 * $max as u128, q) as $inner)
            }
        }
        /// Rounds to the nearest, halves down.
        impl<N: traits::Small> core::ops::Mul<N> for $name {
            type Output = N;
            fn mul(self, n: N) -> N {
                let x = n.to_u64() as u128 * self.0 as u128;
                let q = div_floor(x, $max);
                let r = x - q as u128 * $max as u128;
                N::from_u64(if r > $max as u128 / 2 { q + 1 } else { q })
            }
        }
        impl core::ops::Sub for $name {
            type Output = Self;
            fn sub(self, o: Self) -> Self {
                $name(self.0 - o.0)
            }
        }
    };
}
per_thing!(Percent, u8, 100);
per_thing!(Permill, u32, 1_000_000);
per_thing!(Perbill, u32, 1_000_000_000);

pub mod traits {
    use super::*;
    pub use core::marker::PhantomData;
    pub use core::ops::{Add, Div, Mul, Rem, Sub};

    pub trait Get<T> {
        fn get() -> T;
    }
    impl<T: Default> Get<T> for () {
        fn get() -> T {
            T::default()
        }
    }
    pub trait TypedGet {
        type Type;
        fn get() -> Self::Type;
    }
    macro_rules! konst {
        ($($n:ident $t:ty),*) => {$(
            #[derive(Copy, Clone, Debug, Default, PartialEq, Eq)]
            pub struct $n<const N: $t>;
            impl<const N: $t> Get<$t> for $n<N> { fn get() -> $t { N } }
            impl<const N: $t> Get<Option<$t>> for $n<N> { fn get() -> Option<$t> { Some(N) } }
            impl<const N: $t> TypedGet for $n<N> { type Type = $t; fn get() -> $t { N } }
        )*}
    }
    konst!(ConstU8 u8, ConstU16 u16, ConstU32 u32, ConstU64 u64, ConstU128 u128, ConstBool bool);

    pub trait Zero: Sized {
        fn zero() -> Self;
        fn is_zero(&self) -> bool;
    }
    pub trait One: Sized {
        fn one() -> Self;
        fn is_one(&self) -> bool;
    }
    pub trait Bounded {
        fn min_value() -> Self;
        fn max_value() -> Self;
    }
    pub trait CheckedAdd: Sized {
        fn checked_add(&self, v: &Self) -> Option<Self>;
    }
    pub trait CheckedSub: Sized {
        fn checked_sub(&self, v: &Self) -> Option<Self>;
    }
    pub trait CheckedMul: Sized {
        fn checked_mul(&self, v: &Self) -> Option<Self>;
    }
    pub trait CheckedDiv: Sized {
        fn checked_div(&self, v: &Self) -> Option<Self>;
    }
    pub trait Saturating: Sized {
        fn saturating_add(self, rhs: Self) -> Self;
        fn saturating_sub(self, rhs: Self) -> Self;
        fn saturating_mul(self, rhs: Self) -> Self;
        fn saturating_inc(&mut self)
        where
            Self: One + Copy,
        {
            *self = self.saturating_add(Self::one())
        }
        fn saturating_dec(&mut self)
        where
            Self: One + Copy,
        {
            *self = self.saturating_sub(Self::one())
        }
        fn saturating_accrue(&mut self, v: Self)
        where
            Self: Copy,
        {
            *self = self.saturating_add(v)
        }
        fn saturating_reduce(&mut self, v: Self)
        where
            Self: Copy,
        {
            *self = self.saturating_sub(v)
        }
        fn saturating_plus_one(self) -> Self
        where
            Self: One,
        {
            self.saturating_add(Self::one())
        }
        fn saturating_less_one(self) -> Self
        where
            Self: One,
        {
            self.saturating_sub(Self::one())
        }
    }
    pub trait UniqueSaturatedFrom<T>: Sized {
        fn unique_saturated_from(t: T) -> Self;
    }
    pub trait UniqueSaturatedInto<T>: Sized {
        fn unique_saturated_into(self) -> T;
    }
    pub trait SaturatedConversion: Sized {
        fn saturated_from<T>(t: T) -> Self
        where
            Self: UniqueSaturatedFrom<T>,
        {
            Self::unique_saturated_from(t)
        }
        fn saturated_into<T>(self) -> T
        where
            Self: UniqueSaturatedInto<T>,
        {
            self.unique_saturated_into()
        }
    }
    impl<T> SaturatedConversion for T {}

    /// Numbers the fixed-point model can multiply.
    pub trait Small: Copy {
        /// At most 32 bits.
        const NARROW: bool;
        fn to_u64(self) -> u64;
        fn from_u64(v: u64) -> Self;
    }

    macro_rules! sat {
        ($t:ty => $($u:ty),*) => {$(
            impl UniqueSaturatedFrom<$t> for $u {
                fn unique_saturated_from(t: $t) -> $u {
                    if t as u128 > <$u>::MAX as u128 { <$u>::MAX } else { t as $u }
                }
            }
            impl UniqueSaturatedInto<$u> for $t {
                fn unique_saturated_into(self) -> $u { <$u>::unique_saturated_from(self) }
            }
        )*}
    }
    macro_rules! num {
        ($($t:ty),*) => {$(
            impl Zero for $t { fn zero() -> $t { 0 } fn is_zero(&self) -> bool { *self == 0 } }
            impl One for $t { fn one() -> $t { 1 } fn is_one(&self) -> bool { *self == 1 } }
            impl Bounded for $t { fn min_value() -> $t { <$t>::MIN } fn max_value() -> $t { <$t>::MAX } }
            impl CheckedAdd for $t { fn checked_add(&self, v: &$t) -> Option<$t> { <$t>::checked_add(*self, *v) } }
            impl CheckedSub for $t { fn checked_sub(&self, v: &$t) -> Option<$t> { <$t>::checked_sub(*self, *v) } }
            impl CheckedMul for $t { fn checked_mul(&self, v: &$t) -> Option<$t> { <$t>::checked_mul(*self, *v) } }
            impl CheckedDiv for $t { fn checked_div(&self, v: &$t) -> Option<$t> { <$t>::checked_div(*self, *v) } }
            impl Saturating for $t {
                fn saturating_add(self, r: $t) -> $t { <$t>::saturating_add(self, r) }
                fn saturating_sub(self, r: $t) -> $t { <$t>::saturating_sub(self, r) }
                fn saturating_mul(self, r: $t) -> $t { <$t>::saturating_mul(self, r) }
            }
            impl Small for $t {
                const NARROW: bool = <$t>::BITS <= 32;
                fn to_u64(self) -> u64 {
                    if self as u128 > u64::MAX as u128 { crate::out_of_bounds("number beyond 64 bits") }
                    self as u64
                }
                fn from_u64(v: u64) -> $t { v as $t }
            }
            sat!($t => u8, u16, u32, u64, u128, usize);
        )*}
    }
    num!(u8, u16, u32, u64, u128, usize);

    pub trait BaseArithmetic:
        From<u8>
        + Zero
        + One
        + Bounded
        + CheckedAdd
        + CheckedSub
        + CheckedMul
        + CheckedDiv
        + Saturating
        + Copy
        + Ord
        + Add<Output = Self>
        + Sub<Output = Self>
        + Mul<Output = Self>
        + Div<Output = Self>
        + Rem<Output = Self>
        + core::ops::AddAssign
        + core::ops::SubAssign
        + core::ops::MulAssign
        + core::ops::DivAssign
        + UniqueSaturatedInto<u8>
        + UniqueSaturatedInto<u16>
        + UniqueSaturatedInto<u32>
        + UniqueSaturatedInto<u64>
        + UniqueSaturatedInto<u128>
        + UniqueSaturatedInto<usize>
        + UniqueSaturatedFrom<u8>
        + UniqueSaturatedFrom<u16>
        + UniqueSaturatedFrom<u32>
        + UniqueSaturatedFrom<u64>
        + UniqueSaturatedFrom<u128>
        + TryInto<u8>
        + TryInto<u16>
        + TryInto<u32>
        + TryInto<u64>
        + TryInto<u128>
        + TryInto<usize>
        + TryFrom<u8>
        + TryFrom<u16>
        + TryFrom<u32>
        + TryFrom<u64>
        + TryFrom<u128>
        + TryFrom<usize>
        + Small
        + 'static
    {
    }
    pub trait Unsigned {}
    pub trait AtLeast8Bit: BaseArithmetic + From<u8> {}
    pub trait AtLeast16Bit: AtLeast8Bit + From<u16> {}
    pub trait AtLeast32Bit: AtLeast16Bit + From<u32> {}
    pub trait AtLeast32BitUnsigned: AtLeast32Bit + Unsigned {}
    macro_rules! at_least_32 {
        ($($t:ty),*) => {$(
            impl BaseArithmetic for $t {}
            impl Unsigned for $t {}
            impl AtLeast8Bit for $t {}
            impl AtLeast16Bit for $t {}
            impl AtLeast32Bit for $t {}
            impl AtLeast32BitUnsigned for $t {}
        )*}
    }
    at_least_32!(u32, u64, u128);

    pub trait Member: Send + Sync + Sized + core::fmt::Debug + Eq + PartialEq + Clone + 'static {}
    impl<T: Send + Sync + Sized + core::fmt::Debug + Eq + PartialEq + Clone + 'static> Member for T {}
    pub trait MaybeSerializeDeserialize {}
    impl<T> MaybeSerializeDeserialize for T {}
    pub trait MaybeSerialize {}
    impl<T> MaybeSerialize for T {}
    pub trait MaybeDisplay {}
    impl<T> MaybeDisplay for T {}

    pub trait Convert<A, B> {
        fn convert(a: A) -> B;
    }
    pub struct Identity;
    impl<A> Convert<A, A> for Identity {
        fn convert(a: A) -> A {
            a
        }
    }
    pub trait TryConvert<A, B> {
        fn try_convert(a: A) -> Result<B, A>;
    }
    macro_rules! first_of {
        ($($n:ident),+) => {
            impl<From, To, $($n: TryConvert<From, To>),+> TryConvert<From, To> for ($($n,)+) {
                fn try_convert(a: From) -> Result<To, From> {
                    $(let a = match $n::try_convert(a) { Err(a) => a, r => return r };)+
                    Err(a)
                }
            }
        }
    }
    first_of!(A);
    first_of!(A, B);
    first_of!(A, B, C);
    first_of!(A, B, C, D);
    pub struct ConvertInto;
    impl<A, B: From<A>> Convert<A, B> for ConvertInto {
        fn convert(a: A) -> B {
            a.into()
        }
    }
    pub trait MaybeConvert<A, B> {
        fn maybe_convert(a: A) -> Option<B>;
    }
    pub trait MaybeEquivalence<A, B> {
        fn convert(a: &A) -> Option<B>;
        fn convert_back(b: &B) -> Option<A>;
    }
    pub trait Morph<A> {
        type Outcome;
        fn morph(a: A) -> Self::Outcome;
    }
    pub trait TryMorph<A> {
        type Outcome;
        fn try_morph(a: A) -> Result<Self::Outcome, ()>;
    }

    #[derive(Copy, Clone, Debug, PartialEq, Eq)]
    pub struct BadOrigin;
    #[derive(Copy, Clone, Debug, PartialEq, Eq)]
    pub struct LookupError;
    pub trait StaticLookup {
        type Source: crate::frame_support::Parameter;
        type Target;
        fn lookup(s: Self::Source) -> Result<Self::Target, LookupError>;
        fn unlookup(t: Self::Target) -> Self::Source;
    }
    pub struct IdentityLookup<T>(PhantomData<T>);
    impl<T: crate::frame_support::Parameter> StaticLookup for IdentityLookup<T> {
        type Source = T;
        type Target = T;
        fn lookup(s: T) -> Result<T, LookupError> {
            Ok(s)
        }
        fn unlookup(t: T) -> T {
            t
        }
    }

    pub trait Hash: 'static + Clone + Eq + core::fmt::Debug {
        type Output: Copy + Eq + core::fmt::Debug + AsRef<[u8]>;
        fn hash(s: &[u8]) -> Self::Output;
        fn hash_of<S: Encode>(s: &S) -> Self::Output {
            s.using_encoded(Self::hash)
        }
    }
    #[derive(Copy, Clone, Debug, PartialEq, Eq, Encode, Decode, TypeInfo, MaxEncodedLen)]
    pub struct BlakeTwo256;
    impl Hash for BlakeTwo256 {
        type Output = H256;
        fn hash(s: &[u8]) -> H256 {
            H256(crate::sp_io::hashing::blake2_256(s))
        }
    }

    pub trait BlockNumberProvider {
        type BlockNumber;
        fn current_block_number() -> Self::BlockNumber;
    }

    pub trait Dispatchable {
        type RuntimeOrigin;
        type Config;
        type Info;
        type PostInfo;
        fn dispatch(self, origin: Self::RuntimeOrigin) -> DispatchResultWithInfo<Self::PostInfo>;
    }

    /// How an account type represents the accounts of a pallet; the harness decides.
    pub trait FromPalletId: Sized {
        fn from_pallet(pallet: &[u8; 8], sub: &[u8]) -> Self;
        /// The pallet and sub-id the account belongs to.
        fn to_pallet<S: Decode>(&self) -> Option<([u8; 8], S)> {
            crate::out_of_bounds("pallet of an account")
        }
    }
    /// As Substrate does it: "modl", the pallet id, the sub-id, zeroes.
    impl FromPalletId for AccountId32 {
        fn from_pallet(pallet: &[u8; 8], sub: &[u8]) -> Self {
            let mut a = [0u8; 32];
            a[..4].copy_from_slice(b"modl");
            a[4..12].copy_from_slice(pallet);
            let mut i = 0;
            while i < sub.len() && i < 20 {
                a[12 + i] = sub[i];
                i += 1;
            }
            AccountId32(a)
        }
        fn to_pallet<S: Decode>(&self) -> Option<([u8; 8], S)> {
            let a = &self.0;
            if a[..4] != b"modl"[..] {
                return None;
            }
            let mut rest = &a[12..];
            let sub = S::decode(&mut rest).ok()?;
            let mut i = 0;
            while i < rest.len() {
                if rest[i] != 0 {
                    return None;
                }
                i += 1;
            }
            Some(([a[4], a[5], a[6], a[7], a[8], a[9], a[10], a[11]], sub))
        }
    }
    pub trait AccountIdConversion<A>: Sized {
        fn into_account_truncating(&self) -> A;
        fn into_sub_account_truncating<S: Encode>(&self, sub: S) -> A;
        fn try_into_account(&self) -> Option<A>;
        fn try_from_account(a: &A) -> Option<Self> {
            Self::try_from_sub_account::<()>(a).map(|x| x.0)
        }
        fn try_from_sub_account<S: Decode>(a: &A) -> Option<(Self, S)>;
    }
    impl<A: FromPalletId> AccountIdConversion<A> for crate::frame_support::PalletId {
        fn into_account_truncating(&self) -> A {
            A::from_pallet(&self.0, &[])
        }
        fn into_sub_account_truncating<S: Encode>(&self, sub: S) -> A {
            sub.using_encoded(|s| A::from_pallet(&self.0, s))
        }
        fn try_into_account(&self) -> Option<A> {
            Some(A::from_pallet(&self.0, &[]))
        }
        fn try_from_sub_account<S: Decode>(a: &A) -> Option<(Self, S)> {
            a.to_pallet().map(|(p, s)| (crate::frame_support::PalletId(p), s))
        }
    }
}

/// Types standing for functions.
#[macro_export]
macro_rules! morph_types {
    () => {};
    (
        $(#[$m:meta])* $vis:vis type $name:ident : Morph = |$var:ident : $vt:ty| -> $out:ty $body:block ;
        $($rest:tt)*
    ) => {
        $(#[$m])* $vis struct $name;
        impl $crate::sp_runtime::traits::Morph<$vt> for $name {
            type Outcome = $out;
            fn morph($var: $vt) -> $out $body
        }
        $crate::morph_types! { $($rest)* }
    };
    (
        $(#[$m:meta])* $vis:vis type $name:ident : TryMorph = |$var:ident : $vt:ty| -> Result<$out:ty, ()> $body:block ;
        $($rest:tt)*
    ) => {
        $(#[$m])* $vis struct $name;
        impl $crate::sp_runtime::traits::TryMorph<$vt> for $name {
            type Outcome = $out;
            fn try_morph($var: $vt) -> Result<$out, ()> $body
        }
        $crate::morph_types! { $($rest)* }
    };
    (
        $(#[$m:meta])* $vis:vis type $name:ident < $($p:ident $(: $b:ident $(< $($k:ident = $v:ty),* >)?)?),+ $(,)? >
        : Morph = |$var:ident : $vt:ty| -> $out:ty $body:block $(where $($wt:ty : $wb:path),* $(,)?)? ;
        $($rest:tt)*
    ) => {
        $(#[$m])* $vis struct $name<$($p),+>(core::marker::PhantomData<($($p,)+)>);
        impl<$($p $(: $b $(< $($k = $v),* >)?)?),+> $crate::sp_runtime::traits::Morph<$vt> for $name<$($p),+> $(where $($wt: $wb),*)? {
            type Outcome = $out;
            fn morph($var: $vt) -> $out $body
        }
        $crate::morph_types! { $($rest)* }
    };
    (
        $(#[$m:meta])* $vis:vis type $name:ident < $($p:ident $(: $b:ident $(< $($k:ident = $v:ty),* >)?)?),+ $(,)? >
        : TryMorph = |$var:ident : $vt:ty| -> Result<$out:ty, ()> $body:block $(where $($wt:ty : $wb:path),* $(,)?)? ;
        $($rest:tt)*
    ) => {
        $(#[$m])* $vis struct $name<$($p),+>(core::marker::PhantomData<($($p,)+)>);
        impl<$($p $(: $b $(< $($k = $v),* >)?)?),+> $crate::sp_runtime::traits::TryMorph<$vt> for $name<$($p),+> $(where $($wt: $wb),*)? {
            type Outcome = $out;
            fn try_morph($var: $vt) -> Result<$out, ()> $body
        }
        $crate::morph_types! { $($rest)* }
    };
}
