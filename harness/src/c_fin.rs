//! royalties (ERC-2981) and the vesting wallet
use crate::w::{self, *};
use alloc::vec::Vec;
use alloy_primitives::{keccak256, Address, Uint, U256};
use openzeppelin_stylus::finance::vesting_wallet::{self as vest, IVestingWallet, VestingWallet};
use openzeppelin_stylus::token::common::erc2981::{self, Erc2981, IErc2981};
use stylus_sdk::{prelude::*, storage::*, types::AddressVM};

type U96 = Uint<96, 2>;
fn r() -> Erc2981 {
    unsafe { Erc2981::new(U256::ZERO, 0, vm()) }
}
/// what a sale of token k at this price pays: (receiver, amount), with the division left to the specification
struct Roy {
    k: U256,
    p: U256,
    who: Address,
    amount: U256,
}
/// royalties as observed for an arbitrary token; the price is small enough not to overflow
fn roy() -> Roy {
    let (k, p) = (u256("k"), U256::from(uint::<128, 2>("price")));
    assume(!r()._fee_denominator().is_zero());
    let (who, amount) = r().royalty_info(k, p);
    Roy { k, p, who, amount }
}
fn pays(x: &Roy, who: Address, num: U96, m: &str) {
    // amount = floor(price * num / den)
    let (a, b) = r().royalty_info(x.k, x.p);
    let want = (x.p * U256::from(num)) / U256::from(r()._fee_denominator());
    check((a == who) & eq(b, want), m);
}
fn unchanged(x: &Roy, m: &str) {
    let (a, b) = r().royalty_info(x.k, x.p);
    check((a == x.who) & eq(b, x.amount), m);
}
h!(royalty_default, {
    let (to, num) = (addr("to"), uint::<96, 2>("num"));
    let x = roy();
    let den = r()._fee_denominator();
    match r()._set_default_royalty(to, num) {
        Ok(()) => {
            cover("set");
            check((num <= den) & !to.is_zero(), "succeeds only for a fraction of the price and a real receiver");
            // a token with its own royalty keeps it
            let (a, b) = r().royalty_info(x.k, x.p);
            let want = (x.p * U256::from(num)) / U256::from(den);
            check(((a == to) & eq(b, want)) | ((a == x.who) & eq(b, x.amount)), "the default, or the token's own royalty as before");
            check(r()._fee_denominator() == den, "the denominator stays");
            // after a reset the default applies
            r()._reset_token_royalty(x.k);
            pays(&x, to, num, "the default applies to every token without its own");
        }
        Err(erc2981::Error::InvalidDefaultRoyalty(e)) => {
            check((num > den) & eq(e.numerator, U256::from(num)) & eq(e.denominator, U256::from(den)), "InvalidDefaultRoyalty truthful")
        }
        Err(erc2981::Error::InvalidDefaultRoyaltyReceiver(e)) => check(to.is_zero() & e.receiver.is_zero(), "InvalidDefaultRoyaltyReceiver truthful"),
        Err(_) => check(false, "no other error"),
    }
});
h!(royalty_token, {
    let (id, to, num) = (u256("id"), addr("to"), uint::<96, 2>("num"));
    let x = roy();
    let den = r()._fee_denominator();
    match r()._set_token_royalty(id, to, num) {
        Ok(()) => {
            check((num <= den) & !to.is_zero(), "succeeds only for a fraction of the price and a real receiver");
            if eq(x.k, id) {
                cover("this token");
                pays(&x, to, num, "the token's royalty is the one set");
                // and survives a change of the default
                let _ = r()._set_default_royalty(addr("other"), uint::<96, 2>("num2"));
                pays(&x, to, num, "a token's own royalty overrides the default");
            } else {
                cover("another token");
                unchanged(&x, "no other token's royalty changes");
            }
        }
        Err(erc2981::Error::InvalidTokenRoyalty(e)) => check(
            (num > den) & eq(e.numerator, U256::from(num)) & eq(e.denominator, U256::from(den)) & eq(e.token_id, id),
            "InvalidTokenRoyalty truthful",
        ),
        Err(erc2981::Error::InvalidTokenRoyaltyReceiver(e)) => {
            check(to.is_zero() & e.receiver.is_zero() & eq(e.token_id, id), "InvalidTokenRoyaltyReceiver truthful")
        }
        Err(_) => check(false, "no other error"),
    }
});
h!(royalty_reset, {
    // reset one token, delete the default
    let id = u256("id");
    let x = roy();
    let (to, num, to2, num2) = (addr("to"), uint::<96, 2>("num"), addr("to2"), uint::<96, 2>("num2"));
    if eq(x.k, id) {
        if r()._set_default_royalty(to, num).is_err() | r()._set_token_royalty(id, to2, num2).is_err() {
            return;
        }
        pays(&x, to2, num2, "own royalty");
        r()._reset_token_royalty(id);
        cover("reset");
        pays(&x, to, num, "back to the default");
        r()._delete_default_royalty();
        let (_, b) = r().royalty_info(x.k, x.p);
        check(b.is_zero() & r().royalty_info(x.k, x.p).0.is_zero(), "nothing after the default is deleted");
    } else {
        r()._reset_token_royalty(id);
        unchanged(&x, "no other token's royalty changes");
        if r()._set_token_royalty(x.k, to2, num2).is_ok() {
            r()._delete_default_royalty();
            cover("own royalty kept");
            pays(&x, to2, num2, "deleting the default leaves a token's own royalty");
        }
    }
});
h!(royalty_bounded, {
    // a royalty set within its limits never exceeds the price; overflow aborts
    let (id, to, num, p) = (u256("id"), addr("to"), uint::<96, 2>("num"), u256("price"));
    let den = r()._fee_denominator();
    assume(!den.is_zero());
    if r()._set_token_royalty(id, to, num).is_err() {
        return;
    }
    let big = p.checked_mul(U256::from(num)).is_none();
    expect_trap(big);
    let (a, b) = r().royalty_info(id, p);
    end_expect();
    cover("paid");
    check(a == to, "to the receiver set");
    check(le(b, p), "a royalty never exceeds the price");
    check(eq(b, (p * U256::from(num)) / U256::from(den)), "and is the exact fraction, rounded down");
});

// ---------------------------------------------------------------- vesting
fn v() -> VestingWallet {
    unsafe { VestingWallet::new(U256::ZERO, 0, vm()) }
}
/// the linear schedule: (value, overflows)
fn schedule(total: U256, t: u64) -> (U256, bool) {
    let (s, d) = (v().start(), v().duration());
    let t = U256::from(t);
    let end = s + d;
    if t < s {
        return (U256::ZERO, false);
    }
    if t >= end {
        return (total, false);
    }
    match total.checked_mul(t - s) {
        Some(x) => (x / d, false),
        None => (U256::ZERO, true),
    }
}
#[derive(Clone, Copy)]
struct VestEnv {
    me: Address,
    owner: Address,
    token: Address,
    bal_ok: bool,
    bal: U256,
    want: U256,
    amount: U256,
    mode: u32,
    word: U256,
    paid: u32,
    reason: [u8; 5],
}
static mut VE: VestEnv = VestEnv { me: Address::ZERO, owner: Address::ZERO, token: Address::ZERO, bal_ok: false, bal: U256::ZERO, want: U256::ZERO, amount: U256::ZERO, mode: 0, word: U256::ZERO, paid: 0, reason: [0; 5] };
fn setup() -> (u64, Address) {
    let (me, now) = (addr("me"), u64_("now"));
    set_self(me);
    set_sender(addr("caller"));
    set_timestamp(now);
    unsafe { VE.me = me };
    (now, me)
}
extern "C" fn payee(i: u32) {
    let e = unsafe { VE };
    let c = call(i);
    check((c.target == e.owner) & (c.kind == 0) & eq(c.value, e.amount) & c.data.is_empty(), "pays the owner exactly what is releasable");
    check(eq(v().released_eth(), e.want), "recorded before the payment");
    let m = w::choose(2);
    unsafe {
        VE.mode = m;
        VE.paid += 1;
    }
    set_return(m == 1, &e.reason);
}
h!(vest_eth, {
    let (now, me) = setup();
    let bal = u256("balance");
    set_balance(me, bal);
    let rel = v().released_eth();
    let token = addr("token");
    let other = v().released_erc20(token);
    let (owner, s, d) = (v().owner(), v().start(), v().duration());
    check(eq(v().end(), s + d), "the end is start plus duration");
    let total = wadd(bal, rel);
    let (vested, big) = schedule(total, now);
    // only releases take ether out, so what was released had vested
    assume(add_ov(bal, rel) | big | le(rel, vested));
    allow_trap(add_ov(bal, rel) | big);
    let got = v().releasable_eth();
    check(eq(got, wsub(vested, rel)), "releasable is what vested and was not released");
    let at = u64_("at");
    end_expect();
    let (then, big2) = schedule(total, at);
    allow_trap(big2);
    check(eq(v().vested_amount_eth(at), then), "vested follows the linear schedule");
    end_expect();
    unsafe {
        VE.owner = owner;
        VE.amount = got;
        VE.want = vested;
        VE.reason = bytes_be("reason");
        VE.paid = 0;
    }
    on_call(payee);
    let r = v().release_eth();
    let e = unsafe { VE };
    check((e.paid == 1) & (n_calls() == 1), "one payment");
    match r {
        Ok(()) => {
            cover("released");
            check(e.mode == 1, "only when paid");
            check(eq(v().released_eth(), vested), "everything vested is now released");
            check(eq(v().released_erc20(token), other) & (v().owner() == owner) & eq(v().start(), s) & eq(v().duration(), d), "nothing else changes");
            check(n_logs() == 1, "one event");
            check_log(0, &[keccak256(b"EtherReleased(uint256)").0], &word_u(got), "EtherReleased event");
        }
        Err(vest::Error::ReleaseEtherFailed(x)) => {
            cover("not paid");
            check(e.mode == 0, "only when the owner refused");
            let b: Vec<u8> = vest::Error::ReleaseEtherFailed(x).into();
            check(bytes_eq(&b, &e.reason), "with its reason");
        }
        Err(_) => check(false, "no other error"),
    }
});
extern "C" fn token_model(i: u32) {
    let e = unsafe { VE };
    let c = call(i);
    check((c.target == e.token) & c.value.is_zero(), "talks only to the token");
    if c.data.len() == 36 {
        let d = calldata(b"balanceOf(address)", &[word(e.me)]);
        check(bytes_eq(&c.data, &d), "asks only for its own balance");
        set_return(e.bal_ok, &word_u(e.bal));
    } else {
        let d = calldata(b"transfer(address,uint256)", &[word(e.owner), word_u(e.amount)]);
        check(bytes_eq(&c.data, &d), "sends the owner exactly what is releasable");
        check(eq(v().released_erc20(e.token), e.want), "recorded before the payment");
        let m = w::choose(3);
        unsafe {
            VE.mode = m;
            VE.paid += 1;
        }
        match m {
            0 => set_return(false, &[]),
            1 => set_return(true, &[]),
            _ => set_return(true, &word_u(e.word)),
        }
    }
}
fn tokens(now: u64) -> (VestEnv, U256, U256, bool, bool) {
    let token = addr("token");
    let (ok, bal) = (flag("balance_ok"), u256("balance"));
    let rel = v().released_erc20(token);
    let total = wadd(bal, rel);
    let (vested, big) = schedule(total, now);
    let over = ok & (add_ov(bal, rel) | big);
    let owner = v().owner();
    unsafe {
        VE = VestEnv { owner, token, bal_ok: ok, bal, want: vested, amount: wsub(vested, rel), word: u256("word"), paid: 0, mode: 0, ..VE };
    }
    on_call(token_model);
    // a token whose balance shrinks by itself can leave less vested than was released
    let lost = ok & lt(vested, rel);
    (unsafe { VE }, rel, vested, over, lost)
}
fn no_token(e: vest::Error, token: Address, ok: bool) {
    match e {
        vest::Error::InvalidToken(e) => check(!ok & (e.token == token), "InvalidToken truthful"),
        _ => check(false, "no other error"),
    }
}
h!(vest_erc20_views, {
    let (now, _) = setup();
    let (e, rel, vested, over, lost) = tokens(now);
    let w0 = n_writes();
    allow_trap(over | lost);
    let r = v().releasable_erc20(e.token);
    end_expect();
    match r {
        Ok(x) => {
            cover("answered");
            check(e.bal_ok & !over, "from a real balance");
            check(eq(x, sel(lost, U256::ZERO, wsub(vested, rel))), "releasable is what vested and was not released, never more");
        }
        Err(x) => no_token(x, e.token, e.bal_ok),
    }
    let at = u64_("at");
    let total = wadd(e.bal, rel);
    let (then, big) = schedule(total, at);
    allow_trap(e.bal_ok & (big | add_ov(e.bal, rel)));
    let r = v().vested_amount_erc20(e.token, at);
    end_expect();
    match r {
        Ok(x) => check(e.bal_ok & eq(x, then), "vested follows the linear schedule"),
        Err(x) => no_token(x, e.token, e.bal_ok),
    }
    check((n_writes() == w0) & (n_logs() == 0) & (e.paid == 0), "views have no effect");
});
h!(vest_erc20, {
    let (now, _) = setup();
    let (e, rel, vested, over, lost) = tokens(now);
    let code = e.token.has_code();
    let other = addr("other");
    let (o0, eth, owner) = (v().released_erc20(other), v().released_eth(), v().owner());
    allow_trap(over | lost);
    let r = v().release_erc20(e.token);
    end_expect();
    let f = unsafe { VE };
    match r {
        Ok(()) => {
            cover("released");
            check(e.bal_ok & !over & !lost & code, "only from a real balance");
            check((f.paid == 1) & ((f.mode == 1) | ((f.mode == 2) & eq(f.word, U256::from(1)))), "only when the token accepted");
            check(eq(v().released_erc20(e.token), vested), "everything vested is now released");
            check((other == e.token) | eq(v().released_erc20(other), o0), "no other token's record changes");
            check(eq(v().released_eth(), eth) & (v().owner() == owner), "nothing else changes");
            check(n_logs() == 1, "one event");
            check_log(0, &[keccak256(b"ERC20Released(address,uint256)").0, word(e.token)], &word_u(wsub(vested, rel)), "ERC20Released event");
        }
        Err(vest::Error::InvalidToken(x)) => check(!e.bal_ok & (x.token == e.token), "InvalidToken truthful"),
        Err(vest::Error::SafeErc20(_)) => {
            cover("not paid");
            check(!code | ((f.paid == 1) & ((f.mode == 0) | ((f.mode == 2) & !eq(f.word, U256::from(1))))), "only when the token refused")
        }
        Err(_) => check(false, "no other error"),
    }
});
h!(vest_owner, {
    let (caller, new) = (addr("caller"), addr("new"));
    set_sender(caller);
    let owner = v().owner();
    let give = w::choose(2) == 1;
    let (rel, s, d) = (v().released_eth(), v().start(), v().duration());
    let r = if give { v().transfer_ownership(new) } else { v().renounce_ownership() };
    match r {
        Ok(()) => {
            cover("passed on");
            check((caller == owner) & (!give | !new.is_zero()), "only by the owner");
            check(v().owner() == if give { new } else { Address::ZERO }, "to the account named");
            check(eq(rel, v().released_eth()) & eq(s, v().start()) & eq(d, v().duration()), "the schedule stays");
        }
        Err(vest::Error::Ownable(_)) => check((caller != owner) | (give & new.is_zero()), "refused only with cause"),
        Err(_) => check(false, "no other error"),
    }
});
