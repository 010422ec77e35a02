//! Which assets and messages from elsewhere are taken.
use crate::world::*;
use crate::xcm_builder::{Adapter, Pays, Receiver, ShouldExecute, Trader};
use crate::xcm_config::*;
use crate::xcm_executor::traits::{ConvertLocation, MatchesFungible, MatchesFungibles};
use crate::*;
use sp_runtime::traits::MaybeEquivalence;
use xcm::latest::prelude::{Asset, AssetId, AssetInstance, BodyId, Fungible, GlobalConsensus, Location, NetworkId, NonFungible, Parachain, Plurality};

/// The first and the second of two.
trait Two {
    type A;
    type B;
}
impl<A, B> Two for (A, B) {
    type A = A;
    type B = B;
}
type Native = <xcm_executor_config::AssetTransactor as Two>::A;
type Others = <xcm_executor_config::AssetTransactor as Two>::B;
type InOthers = <xcm_executor_config::Trader as Two>::A;
type InNative = <xcm_executor_config::Trader as Two>::B;

fn location<L: Get<Location>>() -> Location {
    L::get()
}
fn receiver<R: Receiver<AccountId>>() -> AccountId {
    R::account()
}
fn any_asset(n: u8) -> Asset {
    let id = AssetId(any_path(n));
    let fun = if vk::any_bool() { Fungible(vk::any_u128()) } else { NonFungible(AssetInstance::Undefined) };
    Asset { id, fun }
}

/// An asset `n` junctions away.
fn held(n: u8) {
    let a = any_asset(n);
    let amount = match a.fun {
        Fungible(n) => Some(n),
        _ => None,
    };
    let native = a.id.0 == Location::parent();
    let own = <<Native as Adapter>::Matcher as MatchesFungible<Balance>>::matches_fungible(&a);
    vk::check!(own == if native { amount } else { None }, "only the relay's tokens are the native ones, as many as there are");
    let other = <<Others as Adapter>::Matcher as MatchesFungibles<FungibleAssetLocation, Balance>>::matches_fungibles(&a);
    let id = AsFungibleAssetLocation::convert(&a.id.0);
    match (other, id, amount) {
        (Ok((i, m)), Some(id), Some(n)) => vk::check!(i == id && m == n, "an asset is the local one of its place, as much of it"),
        (Ok(_), _, _) => vk::check!(false, "what has no local asset is none"),
        (Err(_), Some(_), Some(_)) => vk::check!(false, "what has a local asset is that"),
        _ => {}
    }
    vk::check!(own.is_none() || other.is_err(), "no asset is kept in two places");
    let fee = <<InOthers as Trader>::In as MatchesFungibles<FungibleAssetLocation, Balance>>::matches_fungibles(&a);
    let hub = a.id.0.parents == 1 && a.id.0.interior.at(0) == Some(&Parachain(1000));
    let polkadot = a.id.0.parents == 2 && a.id.0.interior.at(0) == Some(&GlobalConsensus(NetworkId::Polkadot));
    vk::check!(fee == if hub || polkadot { other } else { Err(()) }, "other than the native tokens, only assets of the hub and of Polkadot pay fees");
    vk::cover!(fee.is_ok() || n < 3, "paid");
    vk::cover!(native || n > 0, "native");
    vk::cover!(amount.is_none(), "unique");
}

vk::harnesses! {
    #[kani::unwind(34)]
    fn held0() { held(0) }
    #[kani::unwind(34)]
    fn held1() { held(1) }
    #[kani::unwind(34)]
    fn held2() { held(2) }
    #[kani::unwind(34)]
    fn held3() { held(3) }
    #[kani::unwind(34)]
    fn held4() { held(4) }
    /// Where fees go.
    #[kani::unwind(34)]
    fn fees() {
        vk::check!(location::<<InNative as Trader>::In>() == Location::parent(), "the native tokens pay fees");
        vk::check!(receiver::<<InNative as Trader>::To>() == treasury(), "the treasury gets them");
        vk::check!(receiver::<<InOthers as Trader>::To>() == treasury(), "the treasury gets those in other assets too");
        let l = any_path(1);
        let a = LocationToAccountId::convert_location(&l);
        vk::check!(<<Native as Adapter>::Accounts as ConvertLocation<AccountId>>::convert_location(&l) == a, "native tokens are kept for the place's account");
        vk::check!(<<Others as Adapter>::Accounts as ConvertLocation<AccountId>>::convert_location(&l) == a, "so are other assets");
        vk::cover!(a.is_some(), "account");
    }
    /// Which messages run without paying.
    #[kani::unwind(34)]
    fn let_in() {
        let l = any_location(2);
        let pays = match vk::any_below(4) {
            0 => Pays::Already,
            1 => Pays::Buys,
            2 => Pays::Not,
            _ => Pays::Silent,
        };
        let relay = matches!(l.unpack(), (1, []) | (1, [Plurality { id: BodyId::Executive, .. }]));
        let lets = xcm_executor_config::Barrier::lets(&l, pays);
        let expected = match pays {
            Pays::Already | Pays::Buys => true,
            Pays::Not => relay,
            Pays::Silent => false,
        };
        vk::check!(lets == expected, "messages run if paid for, or openly unpaid from the relay and its executive body");
        vk::cover!(lets && pays == Pays::Not, "unpaid");
        vk::cover!(!lets && pays == Pays::Not, "refused");
    }
}
