//! What messages of other chains weigh.
use crate::xcm_weights::KreivoXcmWeight;
use crate::world::*;
use crate::*;
use frame_support::weights::Weight;
use xcm::latest::prelude::*;
use xcm::{Assets, DoubleEncoded, MAX_ITEMS_IN_ASSETS};

type Of = KreivoXcmWeight<RuntimeCall>;

fn program<Call>() -> Xcm<Call> {
    Xcm(core::marker::PhantomData)
}
fn any_wild() -> WildFungibility {
    if vk::any_bool() { WildFungibility::Fungible } else { WildFungibility::NonFungible }
}
/// Any assets, and how many they may be.
fn any_filter() -> (AssetFilter, u64) {
    let (id, fun, count) = (AssetId(Location::here()), any_wild(), vk::any_u32());
    match vk::any_below(5) {
        0 => {
            let n = vk::any_below(MAX_ITEMS_IN_ASSETS as u8 + 1);
            (Definite(Assets::of(n)), n as u64)
        }
        1 => (Wild(All), 100),
        2 => (Wild(AllOf { id, fun }), if fun == WildFungibility::Fungible { 1 } else { 128 }),
        3 => (Wild(AllCounted(count)), (count as u64).min(100)),
        _ => (Wild(AllOfCounted { id, fun, count }), (count as u64).min(100)),
    }
}

vk::harnesses! {
    /// Instructions over assets that are listed.
    #[kani::unwind(22)]
    fn listed() {
        let n = vk::any_below(MAX_ITEMS_IN_ASSETS as u8 + 1);
        let (all, one, l) = (Assets::of(n), Assets::of(1), Location::here());
        let of = |f: &dyn Fn(&Assets) -> Weight| {
            let each = f(&one);
            vk::check!(each.ref_time() > 0, "handling an asset takes time");
            vk::check!(f(&all) == each.saturating_mul(n as u64), "listed assets weigh one by one");
        };
        of(&|a| Of::withdraw_asset(a));
        of(&|a| Of::receive_teleported_asset(a));
        of(&|a| Of::transfer_asset(a, &l));
        of(&|a| Of::transfer_reserve_asset(a, &l, &program()));
        of(&|a| Of::burn_asset(a));
        of(&|a| Of::expect_asset(a));
        vk::check!(Of::reserve_asset_deposited(&all).ref_time() > 0, "so does accepting them");
        vk::check!(Of::claim_asset(&all, &l).ref_time() > 0, "and claiming them");
        vk::cover!(n == 20, "many");
        vk::cover!(n == 0, "none");
    }
    /// Instructions over assets that are described.
    #[kani::unwind(22)]
    fn described() {
        let ((all, n), one, l) = (any_filter(), Definite(Assets::of(1)), Location::here());
        let of = |f: &dyn Fn(&AssetFilter) -> Weight| {
            let each = f(&one);
            vk::check!(each.ref_time() > 0, "handling an asset takes time");
            vk::check!(f(&all) == each.saturating_mul(n), "described assets weigh as many as they may be");
        };
        of(&|a| Of::deposit_reserve_asset(a, &l, &program()));
        of(&|a| Of::initiate_reserve_withdraw(a, &l, &program()));
        of(&|a| Of::initiate_teleport(a, &l, &program()));
        let d = Of::deposit_asset(&all, &l);
        vk::check!(d.ref_time() <= 1_000_000_000 && d.proof_size() == 0, "depositing weighs no more than its limit");
        vk::check!(n == 0 || d.ref_time() > 0, "depositing assets takes time");
        vk::cover!(n == 128, "non-fungible");
        vk::cover!(n == 0, "none");
        vk::cover!(d.ref_time() == 1_000_000_000, "limit");
    }
    /// Instructions that are not supported, and all others.
    #[kani::unwind(34)]
    fn others() {
        let (f, _) = any_filter();
        let (all, l, j) = (Assets::of(vk::any_below(21)), any_location(1), any_junction());
        let (a, x, y, z) = (asset(l), vk::any_u32(), vk::any_u32(), vk::any_u32());
        let never = [
            Of::hrmp_new_channel_open_request(&x, &y, &z),
            Of::hrmp_channel_accepted(&x),
            Of::hrmp_channel_closing(&x, &y, &z),
            Of::exchange_asset(&f, &all, &vk::any_bool()),
            Of::universal_origin(&j),
            Of::export_message(&any_network(), &l.interior, &program()),
            Of::lock_asset(&a, &l),
            Of::unlock_asset(&a, &l),
            Of::note_unlockable(&a, &l),
            Of::request_unlock(&a, &l),
            Of::alias_origin(&l),
        ];
        let mut i = 0;
        while i < never.len() {
            vk::check!(never[i] == Weight::MAX, "what is not supported fits into no block");
            i += 1;
        }
        let none = Weight::zero();
        let some = [
            Of::query_response(&1, &Response::Null, &none, &Some(l)),
            Of::transact(&OriginKind::Xcm, &none, &DoubleEncoded(core::marker::PhantomData)),
            Of::clear_origin(),
            Of::descend_origin(&l.interior),
            Of::report_error(&QueryResponseInfo),
            Of::report_holding(&QueryResponseInfo, &f),
            Of::buy_execution(&a, &WeightLimit::Unlimited),
            Of::refund_surplus(),
            Of::set_error_handler(&program()),
            Of::set_appendix(&program()),
            Of::clear_error(),
            Of::trap(&2),
            Of::subscribe_version(&1, &none),
            Of::unsubscribe_version(),
            Of::expect_origin(&Some(l)),
            Of::expect_error(&None),
            Of::expect_transact_status(&MaybeErrorCode::Success),
            Of::query_pallet(&Default::default(), &QueryResponseInfo),
            Of::expect_pallet(&x, &Default::default(), &Default::default(), &y, &z),
            Of::report_transact_status(&QueryResponseInfo),
            Of::clear_transact_status(),
            Of::set_fees_mode(&true),
            Of::set_topic(&[0; 32]),
            Of::clear_topic(),
            Of::unpaid_execution(&WeightLimit::Unlimited, &None),
        ];
        let mut i = 0;
        while i < some.len() {
            vk::check!(some[i].ref_time() > 0, "every instruction takes time");
            vk::check!(!some[i].any_gt(Weight::from_parts(20_000_000_000, 64 * 1024)), "supported ones fit into a block");
            i += 1;
        }
        vk::cover!(matches!(f, Wild(_)), "done");
    }
}
