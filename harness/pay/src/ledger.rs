//! Token ledger with holds: what the payments pallet is configured with in place of pallet-assets.
//!
//! A performed operation does exactly what the interface promises. What happens to one that is not
//! covered depends on the mode: histories that go on only after success leave such paths out at
//! once, the checks about failures let the solver refuse any operation, covered or not, and those
//! about means refuse exactly what is not covered.
use crate::runtime::{Acc, Reason};
use shim::frame_support::traits::fungibles::{self, Inspect as _};
use shim::sp_runtime::{DispatchError, TokenError};
use shim::tokens::{Fortitude, Precision, Preservation, Restriction};

pub const ACCOUNTS: usize = 5;
pub const ASSETS: usize = 2;
pub type Bal = u32;

#[derive(Copy, Clone, PartialEq, Eq, Debug)]
pub struct Cell {
    pub free: Bal,
    pub held: Bal,
}
pub type Book = [[Cell; ACCOUNTS]; ASSETS];
pub static mut BOOK: Book = [[Cell { free: 0, held: 0 }; ACCOUNTS]; ASSETS];
/// Whether operations may be refused; otherwise only paths on which all of them succeed are looked at.
pub static mut MOODY: bool = false;
/// Whether operations that are not covered are refused; all others take place.
pub static mut STRICT: bool = false;
/// Whether some operation was refused.
pub static mut REFUSED: bool = false;

pub fn book() -> &'static mut Book {
    unsafe { &mut BOOK }
}

/// Whether the operation takes place.
pub fn goes(covered: bool) -> bool {
    unsafe {
        if MOODY {
            let ok = covered && vk::any_bool();
            REFUSED |= !ok;
            ok
        } else if STRICT {
            covered
        } else {
            vk::assume(covered);
            true
        }
    }
}
const NO: DispatchError = DispatchError::Token(TokenError::FundsUnavailable);

/// Balances are arbitrary, below a limit that keeps every sum of them within the balance type.
pub fn any_book() {
    let mut a = 0;
    while a < ASSETS {
        let mut i = 0;
        while i < ACCOUNTS {
            let c = Cell { free: vk::any_u32(), held: vk::any_u32() };
            vk::assume(c.free < 1 << 28 && c.held < 1 << 28);
            book()[a][i] = c;
            i += 1;
        }
        a += 1;
    }
}

fn cell(a: u8, who: &Acc) -> &'static mut Cell {
    &mut book()[a as usize][who.0 as usize]
}
/// How much of `n` is taken from what is there.
fn taken(there: Bal, n: Bal, p: Precision) -> Option<Bal> {
    let n = match p {
        Precision::BestEffort if there < n => there,
        _ => n,
    };
    if goes(there >= n) {
        Some(n)
    } else {
        None
    }
}

pub struct Assets;
impl fungibles::Inspect<Acc> for Assets {
    type AssetId = u8;
    type Balance = Bal;
    fn asset_exists(_: u8) -> bool {
        true
    }
    fn total_issuance(a: u8) -> Bal {
        let mut t = 0;
        let mut i = 0;
        while i < ACCOUNTS {
            t += book()[a as usize][i].free + book()[a as usize][i].held;
            i += 1;
        }
        t
    }
    fn minimum_balance(_: u8) -> Bal {
        1
    }
    fn total_balance(a: u8, who: &Acc) -> Bal {
        let c = book()[a as usize][who.0 as usize];
        c.free + c.held
    }
    fn balance(a: u8, who: &Acc) -> Bal {
        book()[a as usize][who.0 as usize].free
    }
    fn reducible_balance(a: u8, who: &Acc, p: Preservation, _: Fortitude) -> Bal {
        let f = Self::balance(a, who);
        if p == Preservation::Expendable {
            f
        } else {
            f.saturating_sub(1)
        }
    }
}
impl fungibles::Mutate<Acc> for Assets {
    fn mint_into(a: u8, who: &Acc, n: Bal) -> Result<Bal, DispatchError> {
        if !goes(Self::total_issuance(a).checked_add(n).is_some()) {
            return Err(NO);
        }
        cell(a, who).free += n;
        Ok(n)
    }
    fn burn_from(a: u8, who: &Acc, n: Bal, p: Precision, _: Fortitude) -> Result<Bal, DispatchError> {
        let n = taken(cell(a, who).free, n, p).ok_or(NO)?;
        cell(a, who).free -= n;
        Ok(n)
    }
    fn transfer(a: u8, from: &Acc, to: &Acc, n: Bal, p: Preservation) -> Result<Bal, DispatchError> {
        let there = Self::reducible_balance(a, from, p, Fortitude::Polite);
        let n = taken(there, n, Precision::Exact).ok_or(NO)?;
        cell(a, from).free -= n;
        cell(a, to).free += n;
        Ok(n)
    }
}
impl fungibles::Balanced<Acc> for Assets {}
impl fungibles::hold::Inspect<Acc> for Assets {
    type Reason = Reason;
    fn total_balance_on_hold(a: u8, who: &Acc) -> Bal {
        book()[a as usize][who.0 as usize].held
    }
    fn balance_on_hold(a: u8, _: &Reason, who: &Acc) -> Bal {
        book()[a as usize][who.0 as usize].held
    }
    fn can_hold(a: u8, _: &Reason, who: &Acc, n: Bal) -> bool {
        book()[a as usize][who.0 as usize].free >= n
    }
}
impl fungibles::hold::Mutate<Acc> for Assets {
    fn hold(a: u8, _: &Reason, who: &Acc, n: Bal) -> Result<(), DispatchError> {
        let n = taken(cell(a, who).free, n, Precision::Exact).ok_or(NO)?;
        cell(a, who).free -= n;
        cell(a, who).held += n;
        Ok(())
    }
    fn release(a: u8, _: &Reason, who: &Acc, n: Bal, p: Precision) -> Result<Bal, DispatchError> {
        let n = taken(cell(a, who).held, n, p).ok_or(NO)?;
        cell(a, who).held -= n;
        cell(a, who).free += n;
        Ok(n)
    }
    fn burn_held(a: u8, _: &Reason, who: &Acc, n: Bal, p: Precision, _: Fortitude) -> Result<Bal, DispatchError> {
        let n = taken(cell(a, who).held, n, p).ok_or(NO)?;
        cell(a, who).held -= n;
        Ok(n)
    }
    fn transfer_on_hold(
        a: u8,
        _: &Reason,
        from: &Acc,
        to: &Acc,
        n: Bal,
        p: Precision,
        mode: Restriction,
        _: Fortitude,
    ) -> Result<Bal, DispatchError> {
        let n = taken(cell(a, from).held, n, p).ok_or(NO)?;
        cell(a, from).held -= n;
        match mode {
            Restriction::Free => cell(a, to).free += n,
            Restriction::OnHold => cell(a, to).held += n,
        }
        Ok(n)
    }
    fn transfer_and_hold(
        a: u8,
        _: &Reason,
        from: &Acc,
        to: &Acc,
        n: Bal,
        p: Precision,
        e: Preservation,
        f: Fortitude,
    ) -> Result<Bal, DispatchError> {
        let n = taken(Self::reducible_balance(a, from, e, f), n, p).ok_or(NO)?;
        cell(a, from).free -= n;
        cell(a, to).held += n;
        Ok(n)
    }
}
