//! Fungible token traits.
use crate::codec::{Encode, FullCodec, MaxEncodedLen};
use crate::scale_info::TypeInfo;
use crate::sp_runtime::traits::{AtLeast32BitUnsigned, Member, Zero};
use crate::sp_runtime::{DispatchError, DispatchResult};

#[derive(Copy, Clone, Debug, PartialEq, Eq)]
pub enum Preservation {
    Expendable,
    Protect,
    Preserve,
}
#[derive(Copy, Clone, Debug, PartialEq, Eq)]
pub enum Fortitude {
    Polite,
    Force,
}
#[derive(Copy, Clone, Debug, PartialEq, Eq)]
pub enum Precision {
    Exact,
    BestEffort,
}
#[derive(Copy, Clone, Debug, PartialEq, Eq)]
pub enum Restriction {
    Free,
    OnHold,
}
#[derive(Copy, Clone, Debug, PartialEq, Eq)]
pub enum Provenance {
    Minted,
    Extant,
}
#[derive(Copy, Clone, Debug, PartialEq, Eq)]
pub enum WithdrawConsequence<B> {
    BalanceLow,
    WouldDie,
    UnknownAsset,
    Underflow,
    Overflow,
    Frozen,
    ReducedToZero(B),
    Success,
}
#[derive(Copy, Clone, Debug, PartialEq, Eq)]
pub enum DepositConsequence {
    BelowMinimum,
    CannotCreate,
    UnknownAsset,
    Overflow,
    Success,
    Blocked,
}
pub trait Balance:
    AtLeast32BitUnsigned
    + FullCodec
    + Copy
    + Default
    + core::fmt::Debug
    + TypeInfo
    + MaxEncodedLen
    + Send
    + Sync
    + Member
    + 'static
{
}
impl<
        T: AtLeast32BitUnsigned
            + FullCodec
            + Copy
            + Default
            + core::fmt::Debug
            + TypeInfo
            + MaxEncodedLen
            + Send
            + Sync
            + Member
            + 'static,
    > Balance for T
{
}
pub trait AssetId: FullCodec + Clone + Eq + core::fmt::Debug + TypeInfo + MaxEncodedLen + 'static {}
impl<T: FullCodec + Clone + Eq + core::fmt::Debug + TypeInfo + MaxEncodedLen + 'static> AssetId for T {}

macro_rules! token_traits {
    ($m:ident, $mm:ident, ($($a:ident : $at:ty)?), ($($decl:tt)*), ($($extra:tt)*)) => {
        pub mod $m {
            use super::*;
            $($extra)*
            pub use freeze::{Inspect as InspectFreeze, Mutate as MutateFreeze};
            pub use hold::{Inspect as InspectHold, Mutate as MutateHold};

            pub trait Inspect<AccountId>: Sized {
                $($decl)*
                type Balance: Balance;
                fn total_issuance($($a: $at)?) -> Self::Balance;
                fn active_issuance($($a: $at)?) -> Self::Balance {
                    Self::total_issuance($($a)?)
                }
                fn minimum_balance($($a: $at)?) -> Self::Balance;
                fn total_balance($($a: $at,)? who: &AccountId) -> Self::Balance;
                fn balance($($a: $at,)? who: &AccountId) -> Self::Balance;
                fn reducible_balance(
                    $($a: $at,)? who: &AccountId,
                    preservation: Preservation,
                    force: Fortitude,
                ) -> Self::Balance;
            }
            pub trait Unbalanced<AccountId>: Inspect<AccountId> {}
            impl<A, T: Inspect<A>> Unbalanced<A> for T {}

            pub trait Mutate<AccountId>: Inspect<AccountId> + Unbalanced<AccountId> {
                fn mint_into($($a: $at,)? who: &AccountId, amount: Self::Balance) -> Result<Self::Balance, DispatchError>;
                fn burn_from(
                    $($a: $at,)? who: &AccountId,
                    amount: Self::Balance,
                    precision: Precision,
                    force: Fortitude,
                ) -> Result<Self::Balance, DispatchError>;
                fn transfer(
                    $($a: $at,)? source: &AccountId,
                    dest: &AccountId,
                    amount: Self::Balance,
                    preservation: Preservation,
                ) -> Result<Self::Balance, DispatchError>;
            }
            pub trait Balanced<AccountId>: Inspect<AccountId> + Unbalanced<AccountId> {}

            pub mod hold {
                use super::*;
                pub trait Inspect<AccountId>: super::Inspect<AccountId> {
                    type Reason: Encode + TypeInfo + 'static;
                    fn total_balance_on_hold($($a: $at,)? who: &AccountId) -> Self::Balance;
                    fn balance_on_hold($($a: $at,)? reason: &Self::Reason, who: &AccountId) -> Self::Balance;
                    fn can_hold($($a: $at,)? reason: &Self::Reason, who: &AccountId, amount: Self::Balance) -> bool;
                }
                pub trait Mutate<AccountId>: Inspect<AccountId> {
                    fn hold($($a: $at,)? reason: &Self::Reason, who: &AccountId, amount: Self::Balance) -> DispatchResult;
                    fn release(
                        $($a: $at,)? reason: &Self::Reason,
                        who: &AccountId,
                        amount: Self::Balance,
                        precision: Precision,
                    ) -> Result<Self::Balance, DispatchError>;
                    fn burn_held(
                        $($a: $at,)? reason: &Self::Reason,
                        who: &AccountId,
                        amount: Self::Balance,
                        precision: Precision,
                        force: Fortitude,
                    ) -> Result<Self::Balance, DispatchError>;
                    fn transfer_on_hold(
                        $($a: $at,)? reason: &Self::Reason,
                        source: &AccountId,
                        dest: &AccountId,
                        amount: Self::Balance,
                        precision: Precision,
                        mode: Restriction,
                        force: Fortitude,
                    ) -> Result<Self::Balance, DispatchError>;
                    fn transfer_and_hold(
                        $($a: $at,)? reason: &Self::Reason,
                        source: &AccountId,
                        dest: &AccountId,
                        amount: Self::Balance,
                        precision: Precision,
                        expendability: Preservation,
                        force: Fortitude,
                    ) -> Result<Self::Balance, DispatchError>;
                }
            }
            pub mod freeze {
                use super::*;
                pub trait Inspect<AccountId>: super::Inspect<AccountId> {
                    type Id: Encode + TypeInfo + 'static;
                    fn balance_frozen($($a: $at,)? id: &Self::Id, who: &AccountId) -> Self::Balance;
                    fn balance_freezable($($a: $at,)? who: &AccountId) -> Self::Balance {
                        Self::total_balance($($a,)? who)
                    }
                    fn can_freeze($($a: $at,)? id: &Self::Id, who: &AccountId) -> bool;
                }
                pub trait Mutate<AccountId>: Inspect<AccountId> {
                    fn set_freeze($($a: $at,)? id: &Self::Id, who: &AccountId, amount: Self::Balance) -> DispatchResult;
                    fn extend_freeze($($a: $at,)? id: &Self::Id, who: &AccountId, amount: Self::Balance) -> DispatchResult;
                    fn thaw($($a: $at,)? id: &Self::Id, who: &AccountId) -> DispatchResult;
                    fn set_frozen(
                        $($a: $at,)? id: &Self::Id,
                        who: &AccountId,
                        amount: Self::Balance,
                        fortitude: Fortitude,
                    ) -> DispatchResult {
                        let _force = fortitude;
                        token_traits!(@set_frozen $mm $($a)? id who amount fortitude)
                    }
                    fn ensure_frozen(
                        $($a: $at,)? id: &Self::Id,
                        who: &AccountId,
                        amount: Self::Balance,
                        fortitude: Fortitude,
                    ) -> DispatchResult {
                        let now = Self::balance_frozen($(token_traits!(@clone $a),)? id, who);
                        Self::set_frozen($($a,)? id, who, if now > amount { now } else { amount }, fortitude)
                    }
                }
            }
        }
    };
    (@clone $a:ident) => { $a.clone() };
    // as in FRAME: a polite freeze must be covered by the balance
    (@set_frozen fungible $id:ident $who:ident $amount:ident $f:ident) => {{
        if $f == Fortitude::Polite && Self::balance_freezable($who) < $amount {
            return Err(crate::sp_runtime::TokenError::FundsUnavailable.into());
        }
        if $amount.is_zero() { Self::thaw($id, $who) } else { Self::set_freeze($id, $who, $amount) }
    }};
    (@set_frozen fungibles $a:ident $id:ident $who:ident $amount:ident $f:ident) => {{
        if $f == Fortitude::Polite && Self::balance_freezable($a.clone(), $who) < $amount {
            return Err(crate::sp_runtime::TokenError::FundsUnavailable.into());
        }
        if $amount.is_zero() { Self::thaw($a, $id, $who) } else { Self::set_freeze($a, $id, $who, $amount) }
    }};
}
token_traits!(fungible, fungible, (), (), ());
token_traits!(
    fungibles,
    fungibles,
    (asset: Self::AssetId),
    (
        type AssetId: AssetId;
        fn asset_exists(asset: Self::AssetId) -> bool;
    ),
    (
        pub trait Create<AccountId>: Inspect<AccountId> {
            fn create(
                id: Self::AssetId,
                admin: AccountId,
                is_sufficient: bool,
                min_balance: Self::Balance,
            ) -> DispatchResult;
        }
    )
);

pub mod imbalance {
    pub struct ResolveTo<A, B>(core::marker::PhantomData<(A, B)>);
}
