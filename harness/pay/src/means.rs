//! Calls whose parties have the means for them go through.
use crate::deal::*;
use crate::ledger::*;
use crate::runtime::*;
use pallet_payments::PaymentState;
use shim::sp_runtime::Percent;

fn strict() {
    unsafe { STRICT = true }
}
fn free(d: &Deal, who: Acc) -> Bal {
    book()[d.asset as usize][who.0 as usize].free
}
/// Both parties keep their accounts alive, and the beneficiary's fees are below the amount.
fn sane(d: &Deal) {
    vk::assume(free(d, SENDER) >= 1 && free(d, BENEFICIARY) >= 1);
    vk::assume(total(&d.beneficiary_fees, false) <= d.amount);
}
fn pays(plan: Plan) {
    let mut d = any_deal(plan);
    announce(&d);
    d.incentive = Percent::from_percent(10).mul_floor(d.amount);
    let need = own(&d) + d.amount + 1;
    vk::assume(free(&d, SENDER) >= need);
    vk::cover!(free(&d, SENDER) == need && d.amount > 1000, "just enough");
    strict();
    let r = Payments::pay(signed(SENDER), BENEFICIARY, d.asset, d.amount, None);
    vk::check!(r.is_ok(), "who has amount, incentive and fees can pay");
}
fn accepts(plan: Plan) {
    let d = any_deal(plan);
    place(&d, PaymentState::PaymentRequested);
    sane(&d);
    let need = d.amount + total(&d.sender_fees, false);
    vk::assume(d.amount > 0 && free(&d, SENDER) >= need);
    vk::cover!(free(&d, SENDER) == need && d.amount > 1000, "just enough");
    strict();
    let r = Payments::accept_and_pay(signed(SENDER), d.id);
    vk::check!(r.is_ok(), "who has amount and fees can accept a request");
}
fn releases(plan: Plan) {
    let d = any_deal(plan);
    place(&d, PaymentState::Created);
    escrow(&d);
    sane(&d);
    vk::cover!(free(&d, SENDER) == 1 && free(&d, BENEFICIARY) == 1 && d.amount > 1000, "just enough");
    strict();
    let r = Payments::release(signed(SENDER), d.id);
    vk::check!(r.is_ok(), "what is in escrow can be released");
}
fn cancels(plan: Plan) {
    let d = any_deal(plan);
    let asked = vk::any_bool();
    place(&d, if asked { PaymentState::RefundRequested { cancel_block: vk::any_u32() } } else { PaymentState::Created });
    escrow(&d);
    vk::cover!(free(&d, BENEFICIARY) == 0 && asked && d.amount > 1000, "just enough");
    strict();
    let r = Payments::cancel(signed(BENEFICIARY), d.id);
    vk::check!(r.is_ok(), "what is in escrow can be returned, whatever else the beneficiary has");
}
fn disputes(plan: Plan) {
    let d = any_deal(plan);
    let until = vk::any_u32();
    place(&d, PaymentState::RefundRequested { cancel_block: until });
    escrow(&d);
    schedule_cancel(&d, until);
    vk::assume(unsafe { NOW } < until && free(&d, BENEFICIARY) >= d.incentive);
    vk::cover!(free(&d, BENEFICIARY) == d.incentive && d.incentive > 10, "just enough");
    strict();
    let r = Payments::dispute_refund(signed(BENEFICIARY), d.id);
    vk::check!(r.is_ok(), "who has the incentive can dispute");
}
fn resolves(plan: Plan, for_sender: bool) {
    unsafe { shim::sp_runtime::ABSTRACT_PERCENTAGES = true }
    let d = any_deal(plan);
    let percent = vk::any_below(101);
    place(&d, PaymentState::NeedsReview);
    escrow(&d);
    book()[d.asset as usize][d.beneficiary.0 as usize].held += d.incentive;
    sane(&d);
    let need = total(&d.beneficiary_fees, true) + 1;
    vk::assume(free(&d, BENEFICIARY) >= need);
    vk::cover!(free(&d, SENDER) == 1 && free(&d, BENEFICIARY) == need && percent == 100, "just enough");
    strict();
    let r = Payments::resolve_dispute(root(), d.id, verdict(percent, for_sender));
    vk::check!(r.is_ok(), "whatever the verdict, a dispute can be resolved");
}

macro_rules! cases {
    ($($plan:ident $m:ident),*) => {
        $(pub mod $m {
            use super::*;
            vk::harnesses! {
                #[kani::unwind(6)]
                fn pay() { history(|| super::pays($plan)) }
                #[kani::unwind(6)]
                fn accept() { history(|| super::accepts($plan)) }
                #[kani::unwind(6)]
                fn release() { history(|| super::releases($plan)) }
                #[kani::unwind(6)]
                fn cancel() { history(|| super::cancels($plan)) }
                #[kani::unwind(6)]
                fn dispute() { history(|| super::disputes($plan)) }
                #[kani::unwind(6)]
                fn sender_wins() { history(|| super::resolves($plan, true)) }
                #[kani::unwind(6)]
                fn beneficiary_wins() { history(|| super::resolves($plan, false)) }
            }
        })*
        #[cfg(not(kani))]
        pub fn replay(name: &str) -> bool {
            match name.split_once("::") {
                $(Some((stringify!($m), n)) => $m::replay(n),)*
                _ => false,
            }
        }
    }
}
cases!(NONE none, ONE_EACH one_each);
