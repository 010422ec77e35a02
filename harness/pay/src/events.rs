//! What each call reports.
use crate::deal::*;
use crate::ledger::*;
use crate::runtime::*;
use pallet_payments::{Event as E, PaymentState};
use shim::sp_runtime::BoundedVec;

fn reported(r: bool, f: impl Fn(&E<Test>) -> bool) {
    unsafe {
        if r {
            vk::check!(EVENTS == 1, "one event per call");
            vk::check!(matches!(&LAST_EVENT, Some(Event(e)) if f(e)), "the event says what happened to which payment");
        }
        vk::cover!(r, "reported");
    }
}
fn placed(state: PaymentState<u32>) -> Deal {
    let d = any_deal(NONE);
    place(&d, state);
    escrow(&d);
    d
}
vk::harnesses! {
    #[kani::unwind(6)]
    fn pay() { history(|| {
        unsafe { shim::sp_runtime::ABSTRACT_PERCENTAGES = true }
        let d = any_deal(NONE);
        announce(&d);
        let b = vk::any_u8();
        let mut remark = BoundedVec::new();
        let _ = remark.try_push(b);
        let _ = remark.try_push(7);
        let r = Payments::pay(signed(SENDER), BENEFICIARY, d.asset, d.amount, Some(remark));
        reported(r.is_ok(), |e| matches!(e, E::PaymentCreated { payment_id, asset, amount, remark: Some(m) }
            if *payment_id == d.id && *asset == d.asset && *amount == d.amount && m.len() == 2 && m[0] == b && m[1] == 7));
        unsafe {
            vk::check!(matches!(FEES_FOR, Some((_, _, _, _, Some((2, x)))) if x == b), "the fee handler sees the remark");
        }
    }) }
    #[kani::unwind(6)]
    fn request() { history(|| {
        unsafe { shim::sp_runtime::ABSTRACT_PERCENTAGES = true }
        let d = any_deal(NONE);
        announce(&d);
        let r = Payments::request_payment(signed(BENEFICIARY), SENDER, d.asset, d.amount);
        reported(r.is_ok(), |e| matches!(e, E::PaymentRequestCreated { payment_id } if *payment_id == d.id));
    }) }
    #[kani::unwind(6)]
    fn release() { history(|| {
        let d = placed(PaymentState::Created);
        let r = Payments::release(signed(SENDER), d.id);
        reported(r.is_ok(), |e| matches!(e, E::PaymentReleased { payment_id } if *payment_id == d.id));
    }) }
    #[kani::unwind(6)]
    fn cancel() { history(|| {
        let d = placed(PaymentState::Created);
        let r = Payments::cancel(signed(BENEFICIARY), d.id);
        reported(r.is_ok(), |e| matches!(e, E::PaymentCancelled { payment_id } if *payment_id == d.id));
    }) }
    #[kani::unwind(6)]
    fn refund() { history(|| {
        let d = placed(PaymentState::RefundRequested { cancel_block: vk::any_u32() });
        let r = Payments::cancel(signed(BENEFICIARY), d.id);
        reported(r.is_ok(), |e| matches!(e, E::PaymentRefunded { payment_id } if *payment_id == d.id));
    }) }
    #[kani::unwind(6)]
    fn ask_refund() { history(|| {
        let d = placed(PaymentState::Created);
        unsafe { vk::assume(NOW <= u32::MAX - BUFFER) }
        let r = Payments::request_refund(signed(SENDER), d.id);
        reported(r.is_ok(), |e| matches!(e, E::PaymentCreatorRequestedRefund { payment_id, expiry }
            if *payment_id == d.id && *expiry == unsafe { NOW } + BUFFER));
    }) }
    #[kani::unwind(6)]
    fn dispute() { history(|| {
        let until = vk::any_u32();
        vk::assume(unsafe { NOW } < until);
        let d = placed(PaymentState::RefundRequested { cancel_block: until });
        schedule_cancel(&d, until);
        let r = Payments::dispute_refund(signed(BENEFICIARY), d.id);
        reported(r.is_ok(), |e| matches!(e, E::PaymentRefundDisputed { payment_id } if *payment_id == d.id));
    }) }
    #[kani::unwind(6)]
    fn accept() { history(|| {
        let d = any_deal(NONE);
        place(&d, PaymentState::PaymentRequested);
        let r = Payments::accept_and_pay(signed(SENDER), d.id);
        reported(r.is_ok(), |e| matches!(e, E::PaymentRequestCompleted { payment_id } if *payment_id == d.id));
    }) }
    #[kani::unwind(6)]
    fn resolve() { history(|| {
        unsafe { shim::sp_runtime::ABSTRACT_PERCENTAGES = true }
        let d = placed(PaymentState::NeedsReview);
        book()[d.asset as usize][d.beneficiary.0 as usize].held += d.incentive;
        let r = Payments::resolve_dispute(root(), d.id, verdict(vk::any_below(101), vk::any_bool()));
        reported(r.is_ok(), |e| matches!(e, E::PaymentDisputeResolved { payment_id } if *payment_id == d.id));
    }) }
}
