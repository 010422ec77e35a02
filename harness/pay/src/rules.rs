//! Who may do what to a payment and when.
use crate::deal::*;
use crate::ledger::*;
use crate::runtime::*;
use pallet_payments::PaymentState;
use shim::frame_system::RawOrigin;

/// Any account but one, root or nobody.
fn anyone_but(a: Acc) -> Origin {
    match vk::any_below(3) {
        0 => RawOrigin::Root.into(),
        1 => RawOrigin::None.into(),
        _ => {
            let who = Acc(vk::any_below(ACCOUNTS as u8));
            vk::assume(who != a);
            signed(who)
        }
    }
}
fn not_root() -> Origin {
    if vk::any_bool() {
        RawOrigin::None.into()
    } else {
        signed(Acc(vk::any_below(ACCOUNTS as u8)))
    }
}
fn placed(state: PaymentState<u32>) -> Deal {
    let d = any_deal(NONE);
    let beneficiary_too = state == PaymentState::NeedsReview;
    let requested = state == PaymentState::PaymentRequested;
    place(&d, state);
    if !requested {
        escrow(&d);
    }
    if beneficiary_too {
        book()[d.asset as usize][d.beneficiary.0 as usize].held += d.incentive;
    }
    d
}
fn refund_requested() -> Deal {
    let until = vk::any_u32();
    vk::assume(unsafe { NOW } < until);
    let d = placed(PaymentState::RefundRequested { cancel_block: until });
    schedule_cancel(&d, until);
    d
}

pub mod authority {
    use super::*;
    vk::harnesses! {
        #[kani::unwind(6)]
        fn release() { history(|| {
            let d = placed(PaymentState::Created);
            vk::check!(Payments::release(anyone_but(SENDER), d.id).is_err(), "only the sender releases");
            vk::cover!(true, "reached");
        }) }
        #[kani::unwind(6)]
        fn ask_refund() { history(|| {
            let d = placed(PaymentState::Created);
            vk::check!(Payments::request_refund(anyone_but(SENDER), d.id).is_err(), "only the sender asks for a refund");
            vk::cover!(true, "reached");
        }) }
        #[kani::unwind(6)]
        fn accept() { history(|| {
            let d = placed(PaymentState::PaymentRequested);
            vk::check!(Payments::accept_and_pay(anyone_but(SENDER), d.id).is_err(), "only the sender accepts a request");
            vk::cover!(true, "reached");
        }) }
        #[kani::unwind(6)]
        fn cancel() { history(|| {
            let d = placed(PaymentState::Created);
            vk::check!(Payments::cancel(anyone_but(BENEFICIARY), d.id).is_err(), "only the beneficiary cancels");
            vk::cover!(true, "reached");
        }) }
        #[kani::unwind(6)]
        fn refund() { history(|| {
            let d = refund_requested();
            vk::check!(Payments::cancel(anyone_but(BENEFICIARY), d.id).is_err(), "only the beneficiary grants a refund");
            vk::cover!(true, "reached");
        }) }
        #[kani::unwind(6)]
        fn dispute() { history(|| {
            let d = refund_requested();
            vk::check!(Payments::dispute_refund(anyone_but(BENEFICIARY), d.id).is_err(), "only the beneficiary disputes");
            vk::cover!(true, "reached");
        }) }
        #[kani::unwind(6)]
        fn resolve() { history(|| {
            let d = placed(PaymentState::NeedsReview);
            let v = verdict(vk::any_below(101), vk::any_bool());
            vk::check!(Payments::resolve_dispute(not_root(), d.id, v).is_err(), "only the judge resolves");
            vk::cover!(true, "reached");
        }) }
        #[kani::unwind(6)]
        fn pay() { history(|| {
            let d = any_deal(NONE);
            announce(&d);
            let o = if vk::any_bool() { RawOrigin::Root } else { RawOrigin::None };
            vk::check!(Payments::pay(o.into(), BENEFICIARY, d.asset, d.amount, None).is_err(), "payments come from accounts");
            vk::cover!(true, "reached");
        }) }
        #[kani::unwind(6)]
        fn request() { history(|| {
            let d = any_deal(NONE);
            announce(&d);
            let o = if vk::any_bool() { RawOrigin::Root } else { RawOrigin::None };
            vk::check!(Payments::request_payment(o.into(), SENDER, d.asset, d.amount).is_err(), "requests come from accounts");
            vk::cover!(true, "reached");
        }) }
    }
}

pub mod lifecycle {
    use super::*;
    /// The call fails. What a failed call did is undone, as the runtime does.
    fn undo(d: &Deal, state: &Option<PaymentState<u32>>, b: Book) {
        *pallet_payments::Payment::<Test>::__table() = pallet_payments::Payment::<Test>::__fresh();
        *pallet_payments::PaymentParties::<Test>::__table() = pallet_payments::PaymentParties::<Test>::__fresh();
        if let Some(s) = state {
            place(d, s.clone());
        }
        *book() = b;
    }
    fn no_release(d: &Deal, s: &Option<PaymentState<u32>>) {
        let b = *book();
        let ok = Payments::release(signed(SENDER), d.id).is_ok();
        vk::check!(!ok, "cannot be released in this state");
        undo(d, s, b);
    }
    fn no_ask_refund(d: &Deal, s: &Option<PaymentState<u32>>) {
        let b = *book();
        let ok = Payments::request_refund(signed(SENDER), d.id).is_ok();
        vk::check!(!ok, "no refund can be asked for in this state");
        undo(d, s, b);
    }
    fn no_accept(d: &Deal, s: &Option<PaymentState<u32>>) {
        let b = *book();
        let ok = Payments::accept_and_pay(signed(SENDER), d.id).is_ok();
        vk::check!(!ok, "cannot be accepted in this state");
        undo(d, s, b);
    }
    fn no_cancel(d: &Deal, s: &Option<PaymentState<u32>>) {
        let b = *book();
        let ok = Payments::cancel(signed(BENEFICIARY), d.id).is_ok();
        vk::check!(!ok, "cannot be cancelled in this state");
        undo(d, s, b);
    }
    fn no_dispute(d: &Deal, s: &Option<PaymentState<u32>>) {
        let b = *book();
        let ok = Payments::dispute_refund(signed(BENEFICIARY), d.id).is_ok();
        vk::check!(!ok, "cannot be disputed in this state");
        undo(d, s, b);
    }
    fn no_resolve(d: &Deal, s: &Option<PaymentState<u32>>) {
        let b = *book();
        let ok = {
            let v = verdict(vk::any_below(101), vk::any_bool());
            Payments::resolve_dispute(root(), d.id, v).is_ok()
        };
        vk::check!(!ok, "cannot be resolved in this state");
        undo(d, s, b);
    }
    vk::harnesses! {
        #[kani::unwind(6)]
        fn created() { history(|| {
            let s = Some(PaymentState::Created);
            let d = placed(PaymentState::Created);
            no_accept(&d, &s);
            no_dispute(&d, &s);
            no_resolve(&d, &s);
            vk::cover!(true, "reached");
        }) }
        #[kani::unwind(6)]
        fn disputed() { history(|| {
            let s = Some(PaymentState::NeedsReview);
            let d = placed(PaymentState::NeedsReview);
            no_release(&d, &s);
            no_ask_refund(&d, &s);
            no_accept(&d, &s);
            no_cancel(&d, &s);
            no_dispute(&d, &s);
            vk::cover!(true, "reached");
        }) }
        #[kani::unwind(6)]
        fn requested() { history(|| {
            let s = Some(PaymentState::PaymentRequested);
            let d = placed(PaymentState::PaymentRequested);
            no_release(&d, &s);
            no_ask_refund(&d, &s);
            no_cancel(&d, &s);
            no_dispute(&d, &s);
            no_resolve(&d, &s);
            vk::cover!(true, "reached");
        }) }
        #[kani::unwind(6)]
        fn asked() { history(|| {
            let until = vk::any_u32();
            let s = Some(PaymentState::RefundRequested { cancel_block: until });
            let d = placed(PaymentState::RefundRequested { cancel_block: until });
            no_release(&d, &s);
            no_ask_refund(&d, &s);
            no_accept(&d, &s);
            no_resolve(&d, &s);
            vk::cover!(true, "reached");
        }) }
        #[kani::unwind(6)]
        fn finished() { history(|| {
            let s = Some(PaymentState::Finished);
            let d = any_deal(NONE);
            place(&d, PaymentState::Finished);
            no_release(&d, &s);
            no_ask_refund(&d, &s);
            no_accept(&d, &s);
            no_cancel(&d, &s);
            no_dispute(&d, &s);
            no_resolve(&d, &s);
            vk::cover!(true, "reached");
        }) }
        #[kani::unwind(6)]
        fn unknown() { history(|| {
            let s = None;
            let d = any_deal(NONE);
            no_release(&d, &s);
            no_ask_refund(&d, &s);
            no_accept(&d, &s);
            no_cancel(&d, &s);
            no_dispute(&d, &s);
            no_resolve(&d, &s);
            vk::cover!(true, "reached");
        }) }
    }
}

pub mod timeline {
    use super::*;
    use shim::frame_support::traits::UnfilteredDispatchable;
    vk::harnesses! {
        /// Asking puts the cancellation on the agenda, in the beneficiary's name.
        #[kani::unwind(6)]
        fn agenda() { history(|| {
            let d = placed(PaymentState::Created);
            unsafe {
                vk::assume(NOW <= u32::MAX - BUFFER);
                vk::check!(Payments::request_refund(signed(SENDER), d.id).is_ok(), "the sender can ask for a refund");
                vk::check!(TASKS[1].is_none(), "nothing else is scheduled");
                match &TASKS[0] {
                    Some(t) => {
                        vk::check!(t.at == NOW + BUFFER, "the refund is due after the buffer period");
                        vk::check!(t.origin == Caller(RawOrigin::Signed(BENEFICIARY)), "it runs in the name of the beneficiary");
                        vk::check!(matches!(&t.call.0, pallet_payments::Call::cancel { payment_id } if *payment_id == d.id), "it cancels this payment");
                        vk::cover!(t.at > 100, "scheduled");
                    }
                    None => vk::check!(false, "the refund is scheduled"),
                }
            }
        }) }
        /// When the time comes the refund takes place.
        #[kani::unwind(6)]
        fn due() { history(|| {
            let rest = *book();
            let d = placed(PaymentState::RefundRequested { cancel_block: unsafe { NOW } });
            let call = pallet_payments::Call::<Test>::cancel { payment_id: d.id };
            let r = call.dispatch_bypass_filter(signed(BENEFICIARY));
            vk::check!(r.is_ok(), "the scheduled refund succeeds");
            vk::check!(same(book(), &returned(&rest, &d)), "the sender has everything back");
            vk::cover!(d.amount > 1000, "refunded");
        }) }
        /// Disputing takes the cancellation off the agenda.
        #[kani::unwind(6)]
        fn dispute_unschedules() { history(|| {
            let d = refund_requested();
            let r = Payments::dispute_refund(signed(BENEFICIARY), d.id);
            vk::check!(r.is_ok(), "the beneficiary can dispute in time");
            unsafe { vk::check!(TASKS[0].is_none(), "a disputed refund does not take place"); }
            vk::cover!(d.amount > 1000, "disputed");
        }) }
        /// Asking and disputing agree on the name of the scheduled cancellation.
        #[kani::unwind(6)]
        fn ask_then_dispute() { history(|| {
            let d = placed(PaymentState::Created);
            unsafe {
                vk::assume(NOW <= u32::MAX - BUFFER);
                vk::assume(Payments::request_refund(signed(SENDER), d.id).is_ok());
                let later = vk::any_u32();
                vk::assume(later >= NOW && later < NOW + BUFFER);
                NOW = later;
                EXACT_NAMES = true;
                let r = Payments::dispute_refund(signed(BENEFICIARY), d.id);
                vk::check!(r.is_ok(), "the beneficiary can dispute until the buffer period ends");
                vk::check!(TASKS[0].is_none(), "a disputed refund does not take place");
                vk::cover!(d.amount > 1000, "disputed");
            }
        }) }
        /// Too late is too late.
        #[kani::unwind(6)]
        fn late() { history(|| {
            let d = placed(PaymentState::Created);
            unsafe {
                vk::assume(NOW <= u32::MAX - BUFFER);
                vk::assume(Payments::request_refund(signed(SENDER), d.id).is_ok());
                let later = vk::any_u32();
                vk::assume(later >= NOW + BUFFER);
                NOW = later;
                let r = Payments::dispute_refund(signed(BENEFICIARY), d.id);
                vk::check!(r.is_err(), "no dispute after the buffer period");
            }
            vk::cover!(true, "reached");
        }) }
        /// Near the end of time a refund is refused rather than scheduled in the past.
        #[kani::unwind(6)]
        fn end_of_time() { history(|| {
            let d = placed(PaymentState::Created);
            unsafe {
                vk::assume(NOW > u32::MAX - BUFFER);
                vk::check!(Payments::request_refund(signed(SENDER), d.id).is_err(), "the buffer period cannot be counted");
            }
            vk::cover!(true, "reached");
        }) }
    }
}

/// Any operation of the ledger or scheduler may be refused; then the call fails.
pub mod refusal {
    use super::*;
    fn moody() {
        unsafe { MOODY = true }
    }
    fn all_or_nothing(ok: bool) {
        unsafe {
            vk::check!(!ok || !REFUSED, "a call with a refused money movement fails");
            vk::cover!(!ok && REFUSED, "refused");
            vk::cover!(ok, "performed");
        }
    }
    macro_rules! cases {
        ($($plan:ident $m:ident),*) => {$(
            pub mod $m {
                use super::*;
                vk::harnesses! {
                    #[kani::unwind(6)]
                    fn pay() { history(|| {
                        unsafe { shim::sp_runtime::ABSTRACT_PERCENTAGES = true }
                        let d = any_deal($plan);
                        announce(&d);
                        moody();
                        all_or_nothing(Payments::pay(signed(SENDER), BENEFICIARY, d.asset, d.amount, None).is_ok());
                    }) }
                    #[kani::unwind(6)]
                    fn release() { history(|| {
                        let d = any_deal($plan);
                        place(&d, PaymentState::Created);
                        escrow(&d);
                        moody();
                        all_or_nothing(Payments::release(signed(SENDER), d.id).is_ok());
                    }) }
                    #[kani::unwind(6)]
                    fn cancel() { history(|| {
                        let d = any_deal($plan);
                        place(&d, PaymentState::Created);
                        escrow(&d);
                        moody();
                        all_or_nothing(Payments::cancel(signed(BENEFICIARY), d.id).is_ok());
                    }) }
                    #[kani::unwind(6)]
                    fn accept() { history(|| {
                        let d = any_deal($plan);
                        place(&d, PaymentState::PaymentRequested);
                        moody();
                        all_or_nothing(Payments::accept_and_pay(signed(SENDER), d.id).is_ok());
                    }) }
                    #[kani::unwind(6)]
                    fn ask_refund() { history(|| {
                        let d = any_deal($plan);
                        place(&d, PaymentState::Created);
                        escrow(&d);
                        moody();
                        all_or_nothing(Payments::request_refund(signed(SENDER), d.id).is_ok());
                    }) }
                    #[kani::unwind(6)]
                    fn dispute() { history(|| {
                        let d = any_deal($plan);
                        let until = vk::any_u32();
                        vk::assume(unsafe { NOW } < until);
                        place(&d, PaymentState::RefundRequested { cancel_block: until });
                        escrow(&d);
                        schedule_cancel(&d, until);
                        moody();
                        all_or_nothing(Payments::dispute_refund(signed(BENEFICIARY), d.id).is_ok());
                    }) }
                    #[kani::unwind(6)]
                    fn resolve() { history(|| {
                        unsafe { shim::sp_runtime::ABSTRACT_PERCENTAGES = true }
                        let d = any_deal($plan);
                        place(&d, PaymentState::NeedsReview);
                        escrow(&d);
                        book()[d.asset as usize][d.beneficiary.0 as usize].held += d.incentive;
                        let v = verdict(vk::any_below(101), vk::any_bool());
                        moody();
                        all_or_nothing(Payments::resolve_dispute(root(), d.id, v).is_ok());
                    }) }
                }
            }
        )*
            #[cfg(not(kani))]
            pub fn replay(name: &str) -> bool {
                match name.split_once("::") {
                    $(Some((stringify!($m), n)) => $m::replay(n),)*
                    _ => false,
                }
            }
        }
    }
    cases!(NONE none, ONE_EACH one_each);
}

/// A second payment on record is not touched by what happens to the first.
pub mod neighbours {
    use super::*;
    fn other(sender: Acc, beneficiary: Acc, state: PaymentState<u32>) -> Deal {
        let mut o = any_deal(NONE);
        o.id = Id(1);
        o.sender = sender;
        o.beneficiary = beneficiary;
        o.asset = 1;
        place(&o, state);
        o
    }
    fn with(first: PaymentState<u32>, f: impl Fn(&Deal) -> bool) {
        let state = match vk::any_below(5) {
            0 => PaymentState::Created,
            1 => PaymentState::NeedsReview,
            2 => PaymentState::PaymentRequested,
            3 => PaymentState::Finished,
            _ => PaymentState::RefundRequested { cancel_block: vk::any_u32() },
        };
        // the same parties, in either role, or others
        let (s, b) = match vk::any_below(3) {
            0 => (SENDER, BENEFICIARY),
            1 => (BENEFICIARY, SENDER),
            _ => (Acc(2), Acc(3)),
        };
        let o = other(s, b, state.clone());
        let d = placed(first);
        let before = *book();
        let ok = f(&d);
        vk::cover!(ok, "performed");
        if ok {
            check_record(&o, state);
            let mut i = 0;
            while i < ACCOUNTS {
                vk::check!(book()[1][i] == before[1][i], "other assets stay where they are");
                i += 1;
            }
        }
    }
    vk::harnesses! {
        #[kani::unwind(6)]
        fn release() { history(|| with(PaymentState::Created, |d| Payments::release(signed(SENDER), d.id).is_ok())) }
        #[kani::unwind(6)]
        fn cancel() { history(|| with(PaymentState::Created, |d| Payments::cancel(signed(BENEFICIARY), d.id).is_ok())) }
        #[kani::unwind(6)]
        fn accept() { history(|| with(PaymentState::PaymentRequested, |d| Payments::accept_and_pay(signed(SENDER), d.id).is_ok())) }
        #[kani::unwind(6)]
        fn ask_refund() { history(|| with(PaymentState::Created, |d| Payments::request_refund(signed(SENDER), d.id).is_ok())) }
        #[kani::unwind(6)]
        fn resolve() { history(|| {
            unsafe { shim::sp_runtime::ABSTRACT_PERCENTAGES = true }
            let v = verdict(vk::any_below(101), vk::any_bool());
            with(PaymentState::NeedsReview, |d| Payments::resolve_dispute(root(), d.id, v.clone()).is_ok())
        }) }
        #[kani::unwind(6)]
        fn pay() { history(|| {
            unsafe { shim::sp_runtime::ABSTRACT_PERCENTAGES = true }
            with(PaymentState::Finished, |_| {
                let mut n = any_deal(NONE);
                n.id = Id(2);
                announce(&n);
                Payments::pay(signed(SENDER), BENEFICIARY, n.asset, n.amount, None).is_ok()
            })
        }) }
        /// An id that is taken is not given to somebody else's payment.
        #[kani::unwind(6)]
        fn taken_id() { history(|| {
            unsafe { shim::sp_runtime::ABSTRACT_PERCENTAGES = true }
            let d = placed(PaymentState::Created);
            let n = any_deal(NONE);
            announce(&n);
            let (from, to) = (Acc(vk::any_below(ACCOUNTS as u8)), Acc(vk::any_below(ACCOUNTS as u8)));
            let ok = if vk::any_bool() {
                Payments::pay(signed(from), to, n.asset, n.amount, None).is_ok()
            } else {
                Payments::request_payment(signed(to), from, n.asset, n.amount).is_ok()
            };
            if ok {
                check_record(&d, PaymentState::Created);
            }
            vk::cover!(true, "reached");
        }) }
    }
}
