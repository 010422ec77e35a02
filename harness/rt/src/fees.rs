//! Fees and identifiers of payments on Kreivo.
use crate::payments::pallet_payments_config as set;
use crate::payments::{KreivoFeeHandler, BENEFICIARY_FEE, SENDER_FEE};
use crate::world::*;
use crate::*;
use frame_support::traits::EnsureOrigin;
use pallet_payments::PaymentId as _;

/// A percentage rounded down, and at least the minimum balance.
fn due(fee: Balance, percent: u32, amount: Balance, min: Balance) -> bool {
    let share = |f: Balance| f * 100 <= amount * percent as Balance && amount * (percent as Balance) < f * 100 + 100;
    (fee >= min) && (fee == min || share(fee)) && (fee != min || fee * 100 + 100 > amount * percent as Balance)
}

/// Fees for payments of up to `2^bits` units.
fn fees(bits: u32) {
    let (asset, other) = (any_fal(), any_fal());
    vk::assume(asset != other);
    let (min, amount) = (vk::any_u64() as Balance, vk::any_u64() as Balance);
    vk::assume(amount >> bits == 0 && min >> bits == 0);
    unsafe {
        ASSET = asset;
        MINIMUM = [min, vk::any_u64() as Balance];
    }
    let (s, b) = (any_account(), any_account());
    let r = <KreivoFeeHandler as FeeHandler<Runtime>>::apply_fees(&asset, &s, &b, &amount, None);
    let (sc, bc) = (community_of(&s).is_some(), community_of(&b).is_some());
    vk::check!(r.sender_pays.len() == !sc as usize, "senders pay one fee, communities none");
    vk::check!(r.beneficiary_pays.len() == !bc as usize, "beneficiaries pay one fee, communities none");
    if !sc {
        let (to, fee, mandatory) = r.sender_pays[0];
        vk::check!(to == treasury() && mandatory, "the sender's fee is mandatory and goes to the treasury");
        vk::check!(due(fee, 1, amount, min), "the sender pays one percent, and at least the minimum balance");
        vk::cover!(fee > min, "percent");
        vk::cover!(fee == min, "minimum");
    }
    if !bc {
        let (to, fee, mandatory) = r.beneficiary_pays[0];
        vk::check!(to == treasury() && mandatory, "the beneficiary's fee is mandatory and goes to the treasury");
        vk::check!(due(fee, 3, amount, min), "the beneficiary pays three percent, and at least the minimum balance");
    }
    vk::cover!(sc, "community pays");
    vk::cover!(bc, "community is paid");
}

vk::harnesses! {
    /// What storage costs.
    #[kani::unwind(34)]
    fn deposits() {
        let (items, bytes) = (vk::any_u16() as u32, vk::any_u16() as u32);
        let d = deposit(items, bytes);
        let x = items as Balance * 2_000 * CENTS + bytes as Balance * 100 * MILLICENTS;
        vk::check!(d * 100 <= x && x < d * 100 + 100, "storage costs a hundredth of the relay chain's");
        vk::check!(CENTS == UNITS / 3_000 && MILLICENTS == CENTS / 1_000 && EXISTENTIAL_DEPOSIT == CENTS / 10, "the currency's units");
        vk::check!(crate::constants::fee::base_tx_fee() == CENTS / 10, "the base fee");
        vk::cover!(d > UNITS, "much");
    }
    #[kani::unwind(34)]
    fn small() { fees(16) }
    #[kani::unwind(34)]
    fn medium() { fees(32) }
    #[kani::unwind(34)]
    fn large() { fees(60) }
    /// The number of a payment.
    #[kani::unwind(34)]
    fn next_id() {
        let (block, index) = (vk::any_u32(), vk::any_u32());
        let outside = vk::any_bool();
        unsafe {
            NOW = block;
            INDEX = if outside { None } else { Some(index) };
        }
        let (s, b) = (any_account(), any_account());
        let id = <virto_common::PaymentId as pallet_payments::PaymentId<Runtime>>::next(&s, &b);
        match id {
            None => vk::check!(outside, "every extrinsic can make a payment"),
            Some(id) => {
                vk::check!(!outside, "there are no ids outside of extrinsics");
                vk::check!(id.block_number() == block, "an id tells the block");
                vk::check!(index > u16::MAX as u32 || id.extrinsic_index() == index, "an id tells the extrinsic");
                let n = u64::from(id).to_le_bytes();
                vk::check!(n[0] == b.0[0] && n[1] == b.0[1], "an id starts like its beneficiary");
                let (block2, index2, b2) = (vk::any_u32(), vk::any_u32(), any_account());
                unsafe {
                    NOW = block2;
                    INDEX = Some(index2);
                }
                vk::assume(index <= u16::MAX as u32 && index2 <= u16::MAX as u32);
                let again = <virto_common::PaymentId as pallet_payments::PaymentId<Runtime>>::next(&s, &b2);
                let same = block == block2 && index == index2 && b.0[0] == b2.0[0] && b.0[1] == b2.0[1];
                vk::check!((again == Some(id)) == same, "different extrinsics never share an id");
                vk::cover!(same, "same");
                vk::cover!(!same, "different");
            }
        }
    }
    /// Who may pay, be paid, and settle disputes.
    #[kani::unwind(34)]
    fn roles() {
        let o = any_caller();
        let sender = <set::SenderOrigin as EnsureOrigin<RuntimeOrigin>>::try_origin(origin(&o));
        let paid = <set::BeneficiaryOrigin as EnsureOrigin<RuntimeOrigin>>::try_origin(origin(&o));
        let judge = <set::DisputeResolver as EnsureOrigin<RuntimeOrigin>>::try_origin(origin(&o));
        let expected = signer(&o).or(speaks(&o).map(community_account));
        vk::check!(sender.ok() == expected, "accounts and communities pay from their own account");
        vk::check!(paid.ok() == signer(&o), "beneficiaries act by signing");
        vk::check!(judge.ok() == if is_root(&o) { Some(treasury()) } else { None }, "only root settles disputes, for the treasury");
        vk::cover!(speaks(&o).is_some(), "community");
        vk::cover!(signer(&o).is_some(), "signed");
        vk::cover!(is_root(&o), "root");
    }
    #[kani::unwind(34)]
    fn terms() {
        vk::check!(SENDER_FEE == Percent::from_percent(1) && BENEFICIARY_FEE == Percent::from_percent(3), "fees are 1 % and 3 %");
        vk::check!(get::<Percent, set::IncentivePercentage>() == Percent::from_percent(10), "the incentive is 10 %");
        vk::check!(get::<PalletId, set::PalletId>() != PalletId(COMMUNITIES), "payments and communities keep apart accounts");
        vk::check!(get::<u32, set::CancelBufferBlockLength>() >= 14_400, "requests can be disputed for long enough");
        vk::cover!(true, "done");
    }
}
