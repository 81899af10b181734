use crate::w::{self, *};
use alloc::vec::Vec;
use alloy_primitives::{keccak256, Address, U256};
use alloy_sol_types::SolError;
use openzeppelin_stylus::token::erc20::{
    extensions::{
        capped::{self, Capped},
        Erc20Metadata, IErc20Burnable, IErc20Metadata,
    },
    Erc20, Error, IErc20,
};
use stylus_sdk::prelude::*;

pub fn t() -> Erc20 {
    unsafe { Erc20::new(U256::ZERO, 0, vm()) }
}
pub fn transfer_topic() -> [u8; 32] {
    keccak256(b"Transfer(address,address,uint256)").0
}
pub fn approval_topic() -> [u8; 32] {
    keccak256(b"Approval(address,address,uint256)").0
}

/// what is observable about the token: balance of an arbitrary account, an arbitrary allowance
/// entry and the supply
pub struct Snap {
    pub x: Address,
    pub o: Address,
    pub s: Address,
    pub bal: U256,
    pub alw: U256,
    pub sup: U256,
}
pub fn snap() -> Snap {
    let (x, o, s) = (addr("x"), addr("o"), addr("s"));
    Snap { x, o, s, bal: t().balance_of(x), alw: t().allowance(o, s), sup: t().total_supply() }
}
/// accounting invariant instance: two different accounts never hold more than the supply together
pub fn inv2(a: Address, b: Address) {
    let (x, y, s) = (t().balance_of(a), t().balance_of(b), t().total_supply());
    assume(le(x, s) & le(y, s));
    assume((a == b) | (!add_ov(x, y) & le(wadd(x, y), s)));
}
impl Snap {
    pub fn bal_after(&self, from: Address, to: Address, v: U256) -> U256 {
        let (z, x) = (Address::ZERO, self.x);
        let d = (x == from) & (from != z);
        let e = (x == to) & (to != z);
        let m = sel(d, wsub(self.bal, v), self.bal);
        sel(e, wadd(m, v), m)
    }
    pub fn check_bal(&self, e: U256) {
        check(eq(t().balance_of(self.x), e), "balance of every account is as specified");
    }
    pub fn check_alw(&self, e: U256) {
        check(eq(t().allowance(self.o, self.s), e), "every allowance is as specified");
    }
    pub fn check_sup(&self, e: U256) {
        check(eq(t().total_supply(), e), "total supply is as specified");
    }
}
pub fn check_transfer_log(i: u32, from: Address, to: Address, v: U256) {
    check_log(i, &[transfer_topic(), word(from), word(to)], &word_u(v), "Transfer event");
}
/// the error must be one whose condition really holds, with a truthful payload
pub fn check_err(e: Error, from: Address, to: Address, b: U256, spender: Address, a: U256, v: U256) {
    match e {
        Error::InvalidSender(e) => check(from.is_zero() & e.sender.is_zero(), "InvalidSender truthful"),
        Error::InvalidReceiver(e) => {
            check(to.is_zero() & e.receiver.is_zero(), "InvalidReceiver truthful")
        }
        Error::InsufficientBalance(e) => check(
            lt(b, v) & eq(e.balance, b) & eq(e.needed, v) & (e.sender == from),
            "InsufficientBalance truthful",
        ),
        Error::InsufficientAllowance(e) => check(
            lt(a, v) & eq(e.allowance, a) & eq(e.needed, v) & (e.spender == spender),
            "InsufficientAllowance truthful",
        ),
        Error::InvalidSpender(e) => check(spender.is_zero() & e.spender.is_zero(), "InvalidSpender truthful"),
        Error::InvalidApprover(e) => check(from.is_zero() & e.approver.is_zero(), "InvalidApprover truthful"),
    }
}

h!(e20_transfer, {
    let (from, to, v) = (addr("from"), addr("to"), u256("v"));
    set_sender(from);
    inv2(from, to);
    let s = snap();
    let b = t().balance_of(from);
    let r = t().transfer(to, v);
    let bad = from.is_zero() | to.is_zero() | lt(b, v);
    match r {
        Ok(ok) => {
            cover("transferred");
            check(ok & !bad, "succeeds only when allowed");
            s.check_bal(s.bal_after(from, to, v));
            s.check_alw(s.alw);
            s.check_sup(s.sup);
            check(n_logs() == 1, "one event");
            check_transfer_log(0, from, to, v);
        }
        Err(e) => {
            cover("rejected");
            check(bad, "fails only when it must");
            check_err(e, from, to, b, Address::ZERO, U256::MAX, v);
        }
    }
});

h!(e20_transfer_from, {
    let (spender, from, to, v) = (addr("spender"), addr("from"), addr("to"), u256("v"));
    set_sender(spender);
    inv2(from, to);
    let s = snap();
    let (b, a) = (t().balance_of(from), t().allowance(from, spender));
    let r = t().transfer_from(from, to, v);
    let inf = eq(a, U256::MAX);
    let bad = from.is_zero()
        | to.is_zero()
        | lt(b, v)
        | (!inf & lt(a, v))
        | (!inf & spender.is_zero());
    match r {
        Ok(ok) => {
            cover("transferred");
            check(ok & !bad, "succeeds only when allowed");
            s.check_bal(s.bal_after(from, to, v));
            let hit = (s.o == from) & (s.s == spender) & !inf;
            s.check_alw(sel(hit, wsub(s.alw, v), s.alw));
            s.check_sup(s.sup);
            check(n_logs() == 1, "one event");
            check_transfer_log(0, from, to, v);
        }
        Err(e) => {
            cover("rejected");
            check(bad, "fails only when it must");
            check_err(e, from, to, b, spender, a, v);
        }
    }
});

h!(e20_approve, {
    let (owner, sp, v) = (addr("owner"), addr("sp"), u256("v"));
    set_sender(owner);
    let s = snap();
    let r = t().approve(sp, v);
    let bad = owner.is_zero() | sp.is_zero();
    match r {
        Ok(ok) => {
            cover("approved");
            check(ok & !bad, "succeeds only when allowed");
            s.check_bal(s.bal);
            s.check_sup(s.sup);
            s.check_alw(sel((s.o == owner) & (s.s == sp), v, s.alw));
            check(n_logs() == 1, "one event");
            check_log(0, &[approval_topic(), word(owner), word(sp)], &word_u(v), "Approval event");
        }
        Err(e) => {
            cover("rejected");
            check(bad, "fails only when it must");
            check_err(e, owner, Address::ZERO, U256::MAX, sp, U256::MAX, v);
        }
    }
});

h!(e20_spend_allowance, {
    let (owner, sp, v) = (addr("owner"), addr("sp"), u256("v"));
    let s = snap();
    let a = t().allowance(owner, sp);
    let inf = eq(a, U256::MAX);
    let r = t()._spend_allowance(owner, sp, v);
    let bad = !inf & (lt(a, v) | owner.is_zero() | sp.is_zero());
    match r {
        Ok(()) => {
            cover("spent");
            check(!bad, "succeeds only when allowed");
            s.check_bal(s.bal);
            s.check_sup(s.sup);
            s.check_alw(sel((s.o == owner) & (s.s == sp) & !inf, wsub(s.alw, v), s.alw));
        }
        Err(e) => {
            cover("rejected");
            check(bad, "fails only when it must");
            check_err(e, owner, Address::ZERO, U256::MAX, sp, a, v);
        }
    }
});

h!(e20_mint, {
    let (to, v) = (addr("to"), u256("v"));
    inv2(to, to);
    let s = snap();
    allow_trap(add_ov(s.sup, v) & !to.is_zero());
    let r = t()._mint(to, v);
    end_expect();
    match r {
        Ok(()) => {
            cover("minted");
            check(!to.is_zero() & !add_ov(s.sup, v), "succeeds only when allowed");
            s.check_bal(s.bal_after(Address::ZERO, to, v));
            s.check_alw(s.alw);
            s.check_sup(wadd(s.sup, v));
            check(n_logs() == 1, "one event");
            check_transfer_log(0, Address::ZERO, to, v);
        }
        Err(e) => {
            cover("rejected");
            check(to.is_zero(), "fails only when it must");
            check_err(e, to, to, U256::MAX, Address::ZERO, U256::MAX, v);
        }
    }
});

fn burn_spec(s: Snap, who: Address, b: U256, spent: Option<(Address, U256)>, r: Result<(), Error>, v: U256) {
    let (sp, a) = spent.unwrap_or((who, U256::MAX));
    let inf = eq(a, U256::MAX);
    let bad = who.is_zero() | lt(b, v) | (!inf & (lt(a, v) | sp.is_zero()));
    match r {
        Ok(()) => {
            cover("burned");
            check(!bad, "succeeds only when allowed");
            s.check_bal(s.bal_after(who, Address::ZERO, v));
            let hit = (s.o == who) & (s.s == sp) & !inf;
            s.check_alw(sel(hit, wsub(s.alw, v), s.alw));
            s.check_sup(wsub(s.sup, v));
            check(n_logs() == 1, "one event");
            check_transfer_log(0, who, Address::ZERO, v);
        }
        Err(e) => {
            cover("rejected");
            check(bad, "fails only when it must");
            check_err(e, who, Address::ZERO, b, sp, a, v);
        }
    }
}
h!(e20_burn_internal, {
    let (who, v) = (addr("who"), u256("v"));
    inv2(who, who);
    let s = snap();
    let b = t().balance_of(who);
    let r = t()._burn(who, v);
    burn_spec(s, who, b, None, r, v);
});
h!(e20_burn, {
    let (who, v) = (addr("who"), u256("v"));
    set_sender(who);
    inv2(who, who);
    let s = snap();
    let b = t().balance_of(who);
    let r = t().burn(v);
    burn_spec(s, who, b, None, r, v);
});
h!(e20_burn_from, {
    let (sp, who, v) = (addr("sp"), addr("who"), u256("v"));
    set_sender(sp);
    inv2(who, who);
    let s = snap();
    let (b, a) = (t().balance_of(who), t().allowance(who, sp));
    let r = t().burn_from(who, v);
    burn_spec(s, who, b, Some((sp, a)), r, v);
});

h!(e20_update, {
    let (from, to, v) = (addr("from"), addr("to"), u256("v"));
    inv2(from, to);
    let s = snap();
    let b = t().balance_of(from);
    let (fz, tz) = (from.is_zero(), to.is_zero());
    allow_trap(fz & add_ov(s.sup, v));
    let r = t()._update(from, to, v);
    end_expect();
    let bad = (!fz & lt(b, v)) | (fz & add_ov(s.sup, v));
    match r {
        Ok(()) => {
            cover("updated");
            check(!bad, "succeeds only when allowed");
            s.check_bal(s.bal_after(from, to, v));
            s.check_alw(s.alw);
            let up = sel(fz, wadd(s.sup, v), s.sup);
            s.check_sup(sel(tz, wsub(up, v), up));
            check(n_logs() == 1, "one event");
            check_transfer_log(0, from, to, v);
        }
        Err(e) => {
            cover("rejected");
            check(bad, "fails only when it must");
            match e {
                Error::InsufficientBalance(_) => check_err(e, from, to, b, to, U256::MAX, v),
                _ => check(false, "only InsufficientBalance is possible"),
            }
        }
    }
});

// any two operations in a row keep the accounting consistent: sum over the accounts that can be
// involved plus an arbitrary outsider
h!(e20_two_steps, {
    let (p, q) = (addr("p"), addr("q"));
    let (v1, v2) = (u256("v1"), u256("v2"));
    inv2(p, q);
    assume((p != q) & !p.is_zero() & !q.is_zero());
    let sum0 = wsub(t().total_supply(), wadd(t().balance_of(p), t().balance_of(q)));
    for i in 0..2 {
        let v = if i == 0 { v1 } else { v2 };
        match w::choose(4) {
            0 => {
                set_sender(p);
                let _ = t().transfer(q, v);
            }
            1 => {
                set_sender(q);
                let _ = t().transfer_from(p, q, v);
            }
            2 => {
                assume(!add_ov(t().total_supply(), v));
                let _ = t()._mint(p, v);
            }
            _ => {
                set_sender(q);
                let _ = t().burn_from(p, v);
            }
        }
    }
    let sum1 = wsub(t().total_supply(), wadd(t().balance_of(p), t().balance_of(q)));
    check(eq(sum0, sum1), "supply minus the holdings of the parties is invariant");
    cover("end");
});

fn enc1(sel: &[u8], words: &[[u8; 32]]) -> Vec<u8> {
    let mut v = Vec::new();
    v.extend_from_slice(&keccak256(sel).0[..4]);
    for w in words {
        v.extend_from_slice(w);
    }
    v
}
h!(e20_error_encoding, {
    use openzeppelin_stylus::token::erc20::*;
    let (a, p, q) = (addr("a"), u256("p"), u256("q"));
    let (e, x): (Error, Vec<u8>) = match w::choose(6) {
        0 => (
            Error::InsufficientBalance(ERC20InsufficientBalance { sender: a, balance: p, needed: q }),
            enc1(b"ERC20InsufficientBalance(address,uint256,uint256)", &[word(a), word_u(p), word_u(q)]),
        ),
        1 => (Error::InvalidSender(ERC20InvalidSender { sender: a }), enc1(b"ERC20InvalidSender(address)", &[word(a)])),
        2 => (Error::InvalidReceiver(ERC20InvalidReceiver { receiver: a }), enc1(b"ERC20InvalidReceiver(address)", &[word(a)])),
        3 => (
            Error::InsufficientAllowance(ERC20InsufficientAllowance { spender: a, allowance: p, needed: q }),
            enc1(b"ERC20InsufficientAllowance(address,uint256,uint256)", &[word(a), word_u(p), word_u(q)]),
        ),
        4 => (Error::InvalidSpender(ERC20InvalidSpender { spender: a }), enc1(b"ERC20InvalidSpender(address)", &[word(a)])),
        _ => (Error::InvalidApprover(ERC20InvalidApprover { approver: a }), enc1(b"ERC20InvalidApprover(address)", &[word(a)])),
    };
    let got: Vec<u8> = e.into();
    check(bytes_eq(&got, &x), "revert data is the ERC-6093 encoding");
    cover("encoded");
});

h!(e20_cap_metadata, {
    let c = unsafe { Capped::new(U256::from(7), 0, vm()) };
    let m = unsafe { Erc20Metadata::new(U256::from(9), 0, vm()) };
    let _ = c.cap();
    check(m.decimals() == 18, "decimals is 18");
    check((n_writes() == 0) & (n_logs() == 0), "views have no effect");
    cover("read");
});
