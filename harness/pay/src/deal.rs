//! One payment as the checks see it, and where its money has to be.
use crate::ledger::*;
use crate::runtime::*;
use pallet_payments::{DisputeResult, Fees, PaymentDetail, PaymentState, Role};
use parity_scale_codec::Encode;
use shim::frame_support::traits::schedule::v3::TaskName;
use shim::frame_system::RawOrigin;
use shim::sp_runtime::Percent;

/// Which fees a payment has: recipients of the sender's and of the beneficiary's fees.
pub type Plan = (&'static [u8], &'static [u8]);
pub const NONE: Plan = (&[], &[]);
pub const ONE_EACH: Plan = (&[2], &[3]);
pub const SENDER_TWO: Plan = (&[2, 3], &[]);
pub const SENDER_SAME: Plan = (&[2, 2], &[3]);
pub const BENEFICIARY_TWO: Plan = (&[], &[3, 2]);
pub const BENEFICIARY_SAME: Plan = (&[2], &[3, 3]);

#[derive(Copy, Clone)]
pub struct Deal {
    pub id: Id,
    pub sender: Acc,
    pub beneficiary: Acc,
    pub asset: u8,
    pub amount: Bal,
    pub incentive: Bal,
    pub sender_fees: FeePlan,
    pub beneficiary_fees: FeePlan,
}

fn any_fees(to: &[u8]) -> FeePlan {
    let mut p = NO_FEES;
    p.n = to.len();
    let mut i = 0;
    while i < to.len() {
        p.fees[i] = (Acc(to[i]), vk::any_u32(), vk::any_bool());
        vk::assume(p.fees[i].1 < 1 << 28);
        i += 1;
    }
    p
}
/// Sum of the fees; in a dispute only of those charged in disputes.
pub fn total(p: &FeePlan, dispute: bool) -> Bal {
    let mut t = 0u32;
    let mut i = 0;
    while i < p.n {
        if !dispute || p.fees[i].2 {
            t = t.wrapping_add(p.fees[i].1);
        }
        i += 1;
    }
    t
}

pub fn any_deal(plan: Plan) -> Deal {
    let d = Deal {
        id: Id(0),
        sender: SENDER,
        beneficiary: BENEFICIARY,
        asset: 0,
        amount: vk::any_u32(),
        incentive: vk::any_u32(),
        sender_fees: any_fees(plan.0),
        beneficiary_fees: any_fees(plan.1),
    };
    vk::assume(d.amount < 1 << 28 && d.incentive <= d.amount);
    d
}

/// Makes the fee handler and the id source answer for this deal.
pub fn announce(d: &Deal) {
    unsafe {
        NEXT_ID = Some(d.id);
        SENDER_FEES = d.sender_fees;
        BENEFICIARY_FEES = d.beneficiary_fees;
    }
}

pub fn verdict(percent: u8, for_sender: bool) -> DisputeResult {
    DisputeResult {
        percent_beneficiary: Percent::from_percent(percent),
        in_favor_of: if for_sender { Role::Sender } else { Role::Beneficiary },
    }
}
fn same_fees(p: &FeePlan, v: &[Fee]) -> bool {
    let mut ok = v.len() == p.n;
    let mut i = 0;
    while i < p.n {
        ok = ok && v[i].0 == p.fees[i].0 && v[i].1 == p.fees[i].1 && v[i].2 == p.fees[i].2;
        i += 1;
    }
    ok
}
/// The payment is on record with the agreed terms and in the given state.
pub fn check_record(d: &Deal, state: PaymentState<u32>) {
    let p = pallet_payments::Payment::<Test>::get(d.sender, d.id);
    vk::check!(p.is_ok(), "the payment is on record");
    if let Ok(p) = p {
        vk::check!(p.state == state, "the payment is in the state the call leads to");
        vk::check!(
            p.asset == d.asset && p.amount == d.amount && p.beneficiary == d.beneficiary && p.incentive_amount == d.incentive,
            "the recorded terms are those agreed on"
        );
        vk::check!(
            same_fees(&d.sender_fees, &p.fees.sender_pays) && same_fees(&d.beneficiary_fees, &p.fees.beneficiary_pays),
            "the recorded fees are those agreed on"
        );
    }
    let p = pallet_payments::PaymentParties::<Test>::get(d.id);
    vk::check!(p == Ok((d.sender, d.beneficiary)), "the parties are on record");
}
pub fn record(d: &Deal, state: PaymentState<u32>) -> PaymentDetail<Test> {
    PaymentDetail {
        asset: d.asset,
        amount: d.amount,
        beneficiary: d.beneficiary,
        incentive_amount: d.incentive,
        state,
        fees: fees(d),
    }
}
/// Puts the payment on record.
pub fn place(d: &Deal, state: PaymentState<u32>) {
    pallet_payments::Payment::<Test>::insert(d.sender, d.id, record(d, state));
    pallet_payments::PaymentParties::<Test>::insert(d.id, (d.sender, d.beneficiary));
}
/// Nothing is on record for the payment.
pub fn gone(d: &Deal) -> bool {
    pallet_payments::Payment::<Test>::get(d.sender, d.id).is_err()
        && pallet_payments::PaymentParties::<Test>::get(d.id).is_err()
}
/// Puts the payment's cancellation on the agenda.
pub fn schedule_cancel(d: &Deal, at: u32) {
    unsafe {
        TASKS[0] = Some(Task {
            id: task_name(d),
            at,
            origin: Caller(RawOrigin::Signed(d.beneficiary)),
            call: Call(pallet_payments::Call::cancel { payment_id: d.id }),
        })
    }
}
pub fn task_name(d: &Deal) -> TaskName {
    ("payment", d.id).using_encoded(shim::sp_io::hashing::blake2_256)
}
pub fn fees(d: &Deal) -> Fees<Test> {
    Fees { sender_pays: bounded(&d.sender_fees), beneficiary_pays: bounded(&d.beneficiary_fees) }
}

fn add(c: &mut Bal, n: Bal) {
    *c = c.wrapping_add(n)
}
fn sub(c: &mut Bal, n: Bal) {
    *c = c.wrapping_sub(n)
}
fn pay_out(b: &mut [Cell; ACCOUNTS], p: &FeePlan, dispute: bool) {
    let mut i = 0;
    while i < p.n {
        if !dispute || p.fees[i].2 {
            add(&mut b[p.fees[i].0 .0 as usize].free, p.fees[i].1)
        }
        i += 1;
    }
}

/// Holds what the payment keeps in escrow, on top of everything else.
pub fn escrow(d: &Deal) {
    let b = &mut book()[d.asset as usize];
    add(&mut b[d.sender.0 as usize].held, own(d));
    add(&mut b[d.beneficiary.0 as usize].held, d.amount);
}
/// What the sender has on hold: the incentive and their fees.
pub fn own(d: &Deal) -> Bal {
    d.incentive.wrapping_add(total(&d.sender_fees, false))
}
/// Expected book while the payment is in escrow, from before it was paid.
pub fn escrowed(before: &Book, d: &Deal) -> Book {
    let mut book = *before;
    let b = &mut book[d.asset as usize];
    let own = own(d);
    let (s, r) = (d.sender.0 as usize, d.beneficiary.0 as usize);
    sub(&mut b[s].free, own.wrapping_add(d.amount));
    add(&mut b[s].held, own);
    add(&mut b[r].held, d.amount);
    book
}
/// Expected book after the escrow went back, from everything else there is.
pub fn returned(rest: &Book, d: &Deal) -> Book {
    let mut book = *rest;
    let b = &mut book[d.asset as usize];
    add(&mut b[d.sender.0 as usize].free, own(d).wrapping_add(d.amount));
    book
}
/// Expected book after the payment went through, from everything else there is.
pub fn settled(rest: &Book, d: &Deal) -> Book {
    let mut book = *rest;
    let b = &mut book[d.asset as usize];
    let (s, r) = (d.sender.0 as usize, d.beneficiary.0 as usize);
    add(&mut b[s].free, d.incentive);
    add(&mut b[r].free, d.amount.wrapping_sub(total(&d.beneficiary_fees, false)));
    pay_out(b, &d.sender_fees, false);
    pay_out(b, &d.beneficiary_fees, false);
    book
}
/// Expected book after a request was accepted.
pub fn accepted(before: &Book, d: &Deal) -> Book {
    let mut book = *before;
    let b = &mut book[d.asset as usize];
    let (s, r) = (d.sender.0 as usize, d.beneficiary.0 as usize);
    sub(&mut b[s].free, d.amount.wrapping_add(total(&d.sender_fees, false)));
    add(&mut b[r].free, d.amount.wrapping_sub(total(&d.beneficiary_fees, false)));
    pay_out(b, &d.sender_fees, false);
    pay_out(b, &d.beneficiary_fees, false);
    book
}
/// Expected book after a dispute that gave `back` of the amount to the sender, from everything
/// else there is. Both parties had the incentive on hold.
pub fn resolved(rest: &Book, d: &Deal, back: Bal, for_sender: bool) -> Book {
    let mut book = *rest;
    let b = &mut book[d.asset as usize];
    let (s, r) = (d.sender.0 as usize, d.beneficiary.0 as usize);
    let winner = if for_sender { s } else { r };
    let kept = total(&d.sender_fees, false).wrapping_sub(total(&d.sender_fees, true));
    add(&mut b[s].free, back.wrapping_add(kept));
    add(&mut b[r].free, d.amount.wrapping_sub(back).wrapping_sub(total(&d.beneficiary_fees, true)));
    add(&mut b[winner].free, d.incentive);
    add(&mut b[JUDGE.0 as usize].free, d.incentive);
    pay_out(b, &d.sender_fees, true);
    pay_out(b, &d.beneficiary_fees, true);
    book
}

pub fn same(a: &Book, b: &Book) -> bool {
    let mut ok = true;
    let mut k = 0;
    while k < ASSETS {
        let mut i = 0;
        while i < ACCOUNTS {
            ok &= a[k][i].free == b[k][i].free && a[k][i].held == b[k][i].held;
            i += 1;
        }
        k += 1;
    }
    ok
}
