//! Where the money is after each step of a payment's life.
use crate::deal::*;
use crate::ledger::*;
use crate::runtime::*;
use pallet_payments::PaymentState;
use shim::sp_runtime::Percent;

macro_rules! per_plan {
    ($($m:ident: $plan:expr;)*) => {$(
        pub mod $m {
            use super::*;
            vk::harnesses! {
                #[kani::unwind(6)]
                fn pay() { history(|| super::pays($plan)) }
                #[kani::unwind(6)]
                fn release() { history(|| super::releases($plan)) }
                #[kani::unwind(6)]
                fn cancel() { history(|| super::cancels($plan, false)) }
                #[kani::unwind(6)]
                fn refund() { history(|| super::cancels($plan, true)) }
                #[kani::unwind(6)]
                fn request() { history(|| super::requests($plan)) }
                #[kani::unwind(6)]
                fn accept() { history(|| super::accepts($plan)) }
                #[kani::unwind(6)]
                fn ask_refund() { history(|| super::asks_refund($plan)) }
                #[kani::unwind(6)]
                fn dispute() { history(|| super::disputes($plan)) }
                #[kani::unwind(6)]
                fn sender_wins() { history(|| super::resolves($plan, true)) }
                #[kani::unwind(6)]
                fn beneficiary_wins() { history(|| super::resolves($plan, false)) }
            }
        }
    )*
        #[cfg(not(kani))]
        pub fn replay(name: &str) -> bool {
            match name.split_once("::") {
                $(Some((stringify!($m), n)) => $m::replay(n),)*
                _ => false,
            }
        }
    }
}
per_plan! {
    none: NONE;
    one_each: ONE_EACH;
    sender_two: SENDER_TWO;
    sender_same: SENDER_SAME;
    beneficiary_two: BENEFICIARY_TWO;
    beneficiary_same: BENEFICIARY_SAME;
}

fn pays(plan: Plan) {
    let before = *book();
    let mut d = any_deal(plan);
    announce(&d);
    let r = Payments::pay(signed(SENDER), BENEFICIARY, d.asset, d.amount, None);
    vk::check!(r.is_ok(), "a covered payment is accepted");
    d.incentive = Percent::from_percent(10).mul_floor(d.amount);
    check_record(&d, PaymentState::Created);
    vk::check!(same(book(), &escrowed(&before, &d)), "amount, incentive and sender fees are in escrow, nothing else moved");
    unsafe {
        vk::check!(FEES_FOR == Some((d.asset, SENDER, BENEFICIARY, d.amount, None)), "fees are those of this payment");
        vk::check!(ID_FOR == Some((SENDER, BENEFICIARY)), "the id is made for these parties");
    }
    vk::cover!(d.amount > 1000 && d.incentive > 0, "paid");
}
fn releases(plan: Plan) {
    let rest = *book();
    let d = any_deal(plan);
    place(&d, PaymentState::Created);
    escrow(&d);
    let r = Payments::release(signed(SENDER), d.id);
    vk::check!(r.is_ok(), "the sender can release");
    vk::check!(same(book(), &settled(&rest, &d)), "amount and fees are paid out, the incentive returns, nothing stays held");
    check_record(&d, PaymentState::Finished);
    vk::cover!(d.amount > 1000 && d.incentive > 0, "released");
}
fn cancels(plan: Plan, refund: bool) {
    let rest = *book();
    let d = any_deal(plan);
    place(&d, if refund { PaymentState::RefundRequested { cancel_block: vk::any_u32() } } else { PaymentState::Created });
    escrow(&d);
    let r = Payments::cancel(signed(BENEFICIARY), d.id);
    vk::check!(r.is_ok(), "the beneficiary can cancel");
    vk::check!(same(book(), &returned(&rest, &d)), "the sender has everything back");
    vk::check!(gone(&d), "the payment is off the record");
    vk::cover!(d.amount > 1000 && d.incentive > 0, "cancelled");
}
fn requests(plan: Plan) {
    let before = *book();
    let mut d = any_deal(plan);
    announce(&d);
    let r = Payments::request_payment(signed(BENEFICIARY), SENDER, d.asset, d.amount);
    vk::check!(r.is_ok(), "a payment can be requested");
    d.incentive = Percent::from_percent(10).mul_floor(d.amount);
    check_record(&d, PaymentState::PaymentRequested);
    vk::check!(same(book(), &before), "a request moves nothing");
    unsafe {
        vk::check!(FEES_FOR == Some((d.asset, SENDER, BENEFICIARY, d.amount, None)), "fees are those of this payment");
        vk::check!(ID_FOR == Some((SENDER, BENEFICIARY)), "the id is made for these parties");
    }
    vk::cover!(d.amount > 1000, "requested");
}
fn accepts(plan: Plan) {
    let before = *book();
    let d = any_deal(plan);
    place(&d, PaymentState::PaymentRequested);
    let r = Payments::accept_and_pay(signed(SENDER), d.id);
    vk::check!(r.is_ok(), "the sender can accept a request");
    vk::check!(same(book(), &accepted(&before, &d)), "an accepted request pays amount and fees");
    check_record(&d, PaymentState::Finished);
    vk::cover!(d.amount > 1000, "accepted");
}
fn asks_refund(plan: Plan) {
    let d = any_deal(plan);
    place(&d, PaymentState::Created);
    escrow(&d);
    let before = *book();
    unsafe { vk::assume(NOW <= u32::MAX - BUFFER) }
    let r = Payments::request_refund(signed(SENDER), d.id);
    vk::check!(r.is_ok(), "the sender can request a refund");
    vk::check!(same(book(), &before), "asking for a refund moves nothing");
    check_record(&d, PaymentState::RefundRequested { cancel_block: unsafe { NOW } + BUFFER });
    vk::cover!(d.amount > 1000, "asked");
}
fn disputes(plan: Plan) {
    let d = any_deal(plan);
    let until = vk::any_u32();
    place(&d, PaymentState::RefundRequested { cancel_block: until });
    escrow(&d);
    schedule_cancel(&d, until);
    vk::assume(unsafe { NOW } < until);
    let mut want = *book();
    let r = Payments::dispute_refund(signed(BENEFICIARY), d.id);
    vk::check!(r.is_ok(), "the beneficiary can dispute a refund in time");
    let c = &mut want[d.asset as usize][d.beneficiary.0 as usize];
    c.free = c.free.wrapping_sub(d.incentive);
    c.held = c.held.wrapping_add(d.incentive);
    vk::check!(same(book(), &want), "disputing holds the beneficiary's incentive");
    check_record(&d, PaymentState::NeedsReview);
    vk::cover!(d.incentive > 0, "disputed");
}
fn resolves(plan: Plan, for_sender: bool) {
    unsafe { shim::sp_runtime::ABSTRACT_PERCENTAGES = true }
    let rest = *book();
    let d = any_deal(plan);
    let percent = vk::any_below(101);
    place(&d, PaymentState::NeedsReview);
    escrow(&d);
    book()[d.asset as usize][d.beneficiary.0 as usize].held += d.incentive;
    let r = Payments::resolve_dispute(root(), d.id, verdict(percent, for_sender));
    vk::check!(r.is_ok(), "the judge can resolve a dispute");
    let won = Percent::from_percent(percent).mul_floor(d.amount);
    let back = if for_sender { won } else { d.amount.wrapping_sub(won) };
    vk::check!(
        same(book(), &resolved(&rest, &d, back, for_sender)),
        "the winner gets the given percentage, the loser pays the judge, mandatory fees are paid, all else returns"
    );
    check_record(&d, PaymentState::Finished);
    vk::cover!(d.incentive > 0 && percent == 37 && d.amount > 1000, "resolved");
}
