//! SafeErc20, ERC-20 wrapper, ERC-4626 and ERC-3156 flash minting: code that talks to other contracts
use crate::c_erc20::{self as e, check_transfer_log, snap, t, Snap};
use crate::w::{self, *};
use alloc::{vec, vec::Vec};
use alloy_primitives::{keccak256, Address, Uint, U256, U8};
use openzeppelin_stylus::token::erc20::{
    extensions::{
        erc4626, flash_mint, wrapper, Erc20FlashMint, Erc20Wrapper, Erc4626, IErc20Wrapper,
        IErc3156FlashLender, IErc4626,
    },
    utils::{safe_erc20, ISafeErc20, SafeErc20},
    IErc20,
};
use stylus_sdk::{
    abi::Bytes,
    prelude::*,
    storage::{StorageAddress, StorageU8},
    types::AddressVM,
};

fn d_transfer(to: Address, v: U256) -> Vec<u8> {
    calldata(b"transfer(address,uint256)", &[word(to), word_u(v)])
}
fn d_transfer_from(f: Address, to: Address, v: U256) -> Vec<u8> {
    calldata(b"transferFrom(address,address,uint256)", &[word(f), word(to), word_u(v)])
}
fn d_approve(s: Address, v: U256) -> Vec<u8> {
    calldata(b"approve(address,uint256)", &[word(s), word_u(v)])
}
fn d_balance(a: Address) -> Vec<u8> {
    calldata(b"balanceOf(address)", &[word(a)])
}
fn d_allowance(o: Address, s: Address) -> Vec<u8> {
    calldata(b"allowance(address,address)", &[word(o), word(s)])
}
/// the token accepted: the call succeeded and returned nothing or true
fn accepted(i: u32) -> bool {
    let c = call(i);
    if !c.ok {
        return false;
    }
    if c.ret.is_empty() {
        return true;
    }
    let mut b = [0u8; 32];
    b.copy_from_slice(&c.ret[..32]);
    eq(U256::from_be_bytes(b), U256::from(1))
}
fn safe() -> SafeErc20 {
    unsafe { SafeErc20::new(U256::from(600), 0, vm()) }
}
fn check_failed(r: Result<(), safe_erc20::Error>, token: Address, good: bool) {
    match r {
        Ok(()) => {
            cover("ok");
            check(good, "succeeds only when the token accepted");
        }
        Err(safe_erc20::Error::SafeErc20FailedOperation(x)) => {
            cover("failed");
            check(!good & (x.token == token), "fails only when the token refused");
        }
        Err(_) => check(false, "no other error"),
    }
    check((n_writes() == 0) & (n_logs() == 0), "no effect of its own");
}

h!(safe_transfer, {
    let (token, to, v) = (addr("token"), addr("to"), u256("v"));
    ret_lens(&[0, 32, 64]);
    let code = token.has_code();
    let r = safe().safe_transfer(token, to, v);
    let n = n_calls();
    check(n == code as u32, "one call, only to a contract");
    let good = n == 1 && accepted(0);
    if n == 1 {
        check(is_call(0, token, &d_transfer(to, v)), "the call is transfer(to, v)");
    }
    check_failed(r, token, good);
});
h!(safe_transfer_from, {
    let (token, from, to, v) = (addr("token"), addr("from"), addr("to"), u256("v"));
    ret_lens(&[0, 32, 64]);
    let code = token.has_code();
    let r = safe().safe_transfer_from(token, from, to, v);
    let n = n_calls();
    check(n == code as u32, "one call, only to a contract");
    let good = n == 1 && accepted(0);
    if n == 1 {
        check(is_call(0, token, &d_transfer_from(from, to, v)), "the call is transferFrom(from, to, v)");
    }
    check_failed(r, token, good);
});
/// approve(v), or else approve(0) and approve(v); returns whether it ended well
fn forced(first: u32, token: Address, s: Address, v: U256) -> bool {
    let n = n_calls() - first;
    check((n == 1) | (n == 2) | (n == 3), "one to three calls");
    if n == 0 {
        return false;
    }
    check(is_call(first, token, &d_approve(s, v)), "first approves the value");
    if accepted(first) {
        check(n == 1, "nothing more once accepted");
        return true;
    }
    check(n >= 2, "a refusal is retried from zero");
    if n < 2 {
        return false;
    }
    check(is_call(first + 1, token, &d_approve(s, U256::ZERO)), "then approves zero");
    if !accepted(first + 1) {
        check(n == 2, "stops when zero is refused");
        return false;
    }
    check(n == 3, "then approves the value again");
    if n < 3 {
        return false;
    }
    check(is_call(first + 2, token, &d_approve(s, v)), "the value again");
    accepted(first + 2)
}
h!(safe_force_approve, {
    let (token, s, v) = (addr("token"), addr("sp"), u256("v"));
    ret_lens(&[0, 32]);
    let code = token.has_code();
    let r = safe().force_approve(token, s, v);
    if !code {
        check(n_calls() == 0, "no call without code");
        check_failed(r, token, false);
        return;
    }
    let good = forced(0, token, s, v);
    check_failed(r, token, good);
});
static mut AL: (bool, U256, bool, U256) = (true, U256::ZERO, true, U256::ZERO);
/// allowance() answers with a fixed value; every approval is answered by the same result
extern "C" fn allowance_model(i: u32) {
    let a = unsafe { AL };
    if call(i).data.len() == 68 && i == 0 {
        set_return(a.0, &word_u(a.1));
    } else {
        set_return(a.2, &word_u(a.3));
    }
}
h!(safe_increase, {
    let (me, token, s, v) = (addr("me"), addr("token"), addr("sp"), u256("v"));
    set_self(me);
    let code = token.has_code();
    let (aok, a) = (flag("allowance_ok"), u256("allowance"));
    unsafe { AL = (aok, a, flag("approve_ok"), u256("approve_word")) };
    on_call(allowance_model);
    expect_trap(code & aok & add_ov(a, v));
    let r = safe().safe_increase_allowance(token, s, v);
    end_expect();
    if !code {
        check(n_calls() == 0, "no call without code");
        check_failed(r, token, false);
        return;
    }
    check(is_call(0, token, &d_allowance(me, s)), "reads its own allowance");
    if !aok {
        check(n_calls() == 1, "stops when the allowance cannot be read");
        check_failed(r, token, false);
        return;
    }
    check(!add_ov(a, v), "an increase never wraps");
    let good = forced(1, token, s, wadd(a, v));
    check_failed(r, token, good);
});
h!(safe_decrease, {
    let (me, token, s, v) = (addr("me"), addr("token"), addr("sp"), u256("v"));
    set_self(me);
    ret_lens(&[32]);
    let code = token.has_code();
    let r = safe().safe_decrease_allowance(token, s, v);
    if !code {
        check(n_calls() == 0, "no call without code");
        check_failed(r, token, false);
        return;
    }
    check(is_call(0, token, &d_allowance(me, s)), "reads its own allowance");
    let c = call(0);
    if !c.ok {
        check(n_calls() == 1, "stops when the allowance cannot be read");
        check_failed(r, token, false);
        return;
    }
    let mut b = [0u8; 32];
    b.copy_from_slice(&c.ret[..32]);
    let a = U256::from_be_bytes(b);
    if let Err(safe_erc20::Error::SafeErc20FailedDecreaseAllowance(x)) = &r {
        cover("too much");
        check(lt(a, v), "refused only when the allowance is smaller");
        check((x.spender == s) & eq(x.current_allowance, a) & eq(x.requested_decrease, v), "truthful error");
        check(n_calls() == 1, "nothing was approved");
        return;
    }
    check(le(v, a), "a decrease never goes below zero");
    let good = forced(1, token, s, wsub(a, v));
    check_failed(r, token, good);
});

// ---------------------------------------------------------------- wrapper
fn wr() -> Erc20Wrapper {
    unsafe { Erc20Wrapper::new(U256::from(100), 0, vm()) }
}
fn check_erc20_err(r: &openzeppelin_stylus::token::erc20::Error, from: Address, to: Address, b: U256, v: U256) {
    use openzeppelin_stylus::token::erc20::Error;
    match r {
        Error::InvalidSender(_) => check(from.is_zero(), "InvalidSender truthful"),
        Error::InvalidReceiver(_) => check(to.is_zero(), "InvalidReceiver truthful"),
        Error::InsufficientBalance(x) => {
            check(lt(b, v) & eq(x.balance, b) & eq(x.needed, v) & (x.sender == from), "InsufficientBalance truthful")
        }
        _ => check(false, "no other token error"),
    }
}
h!(wrapper_deposit, {
    let (me, caller, account, v) = (addr("me"), addr("caller"), addr("account"), u256("v"));
    set_self(me);
    set_sender(caller);
    ret_lens(&[0, 32]);
    e::inv2(account, account);
    let s = snap();
    let u = wr().underlying();
    let code = u.has_code();
    allow_trap(add_ov(s.sup, v));
    let r = wr().deposit_for(account, v, &mut t());
    end_expect();
    let blocked = (caller == me) | (account == me);
    let n = n_calls();
    match r {
        Ok(ok) => {
            cover("deposited");
            check(ok & !blocked & !account.is_zero() & !add_ov(s.sup, v), "succeeds only when allowed");
            check(n == 1, "one call");
            check(is_call(0, u, &d_transfer_from(caller, me, v)), "pulls exactly v of the underlying from the caller");
            check(code && accepted(0), "only if the underlying moved");
            s.check_bal(s.bal_after(Address::ZERO, account, v));
            s.check_alw(s.alw);
            s.check_sup(wadd(s.sup, v));
            check(n_logs() == 1, "one event");
            check_transfer_log(0, Address::ZERO, account, v);
        }
        Err(wrapper::Error::InvalidSender(x)) => {
            check((caller == me) & (x.sender == me), "sender truthful")
        }
        Err(wrapper::Error::InvalidReceiver(x)) => {
            check((account == me) & (x.receiver == me), "receiver truthful")
        }
        Err(wrapper::Error::SafeErc20(_)) => {
            cover("underlying refused");
            check(!code || !accepted(0), "only if the underlying refused")
        }
        Err(wrapper::Error::Erc20(x)) => check_erc20_err(&x, Address::ZERO, account, U256::MAX, v),
        Err(wrapper::Error::InvalidUnderlying(_)) => check(false, "not on deposit"),
    }
    check(wr().underlying() == u, "the underlying never changes");
});
h!(wrapper_withdraw, {
    let (me, caller, account, v) = (addr("me"), addr("caller"), addr("account"), u256("v"));
    set_self(me);
    set_sender(caller);
    ret_lens(&[0, 32]);
    e::inv2(caller, caller);
    let s = snap();
    let b = t().balance_of(caller);
    let u = wr().underlying();
    let code = u.has_code();
    let r = wr().withdraw_to(account, v, &mut t());
    match r {
        Ok(ok) => {
            cover("withdrawn");
            check(ok & (account != me) & !caller.is_zero() & le(v, b), "succeeds only when allowed");
            check(n_calls() == 1, "one call");
            check(is_call(0, u, &d_transfer(account, v)), "pays exactly v of the underlying");
            check(code && accepted(0), "only if the underlying moved");
            s.check_bal(s.bal_after(caller, Address::ZERO, v));
            s.check_alw(s.alw);
            s.check_sup(wsub(s.sup, v));
            check(n_logs() == 1, "one event");
            check_transfer_log(0, caller, Address::ZERO, v);
        }
        Err(wrapper::Error::InvalidReceiver(x)) => {
            check((account == me) & (x.receiver == me), "receiver truthful")
        }
        Err(wrapper::Error::SafeErc20(_)) => {
            cover("underlying refused");
            check(!code || !accepted(0), "only if the underlying refused")
        }
        Err(wrapper::Error::Erc20(x)) => {
            cover("short");
            check_erc20_err(&x, caller, Address::ZERO, b, v)
        }
        Err(_) => check(false, "no other error"),
    }
});
h!(wrapper_recover, {
    let (me, account) = (addr("me"), addr("account"));
    set_self(me);
    ret_lens(&[32]);
    e::inv2(account, account);
    let s = snap();
    let u = wr().underlying();
    allow_trap(true);
    let r = wr()._recover(account, &mut t());
    end_expect();
    check(n_calls() == 1, "one call");
    check(is_call(0, u, &d_balance(me)), "asks for its own underlying balance");
    let c = call(0);
    match r {
        Ok(v) => {
            cover("recovered");
            let mut b = [0u8; 32];
            b.copy_from_slice(&c.ret[..32]);
            let bal = U256::from_be_bytes(b);
            check(c.ok & le(s.sup, bal) & eq(v, wsub(bal, s.sup)), "mints exactly what is not backed yet");
            let z = v.is_zero();
            check(z | !account.is_zero(), "to a real account");
            s.check_bal(s.bal_after(Address::ZERO, account, v));
            s.check_alw(s.alw);
            s.check_sup(bal);
        }
        Err(wrapper::Error::InvalidUnderlying(_)) => check(!c.ok, "only if the underlying failed"),
        Err(wrapper::Error::Erc20(x)) => check_erc20_err(&x, Address::ZERO, account, U256::MAX, U256::ZERO),
        Err(_) => check(false, "no other error"),
    }
});

// ---------------------------------------------------------------- ERC-4626
type U512 = Uint<512, 8>;
fn mul_div(a: U256, b: U256, d: U256, up: bool) -> (U256, bool) {
    let p = U512::from(a) * U512::from(b);
    let (q, r) = p.div_rem(U512::from(d));
    let q = q + U512::from((up & !r.is_zero()) as u64);
    let l = q.as_limbs();
    (U256::from_limbs([l[0], l[1], l[2], l[3]]), (l[4] | l[5] | l[6] | l[7]) != 0)
}
fn vault() -> Erc4626 {
    unsafe { Erc4626::new(U256::from(100), 0, vm()) }
}
#[derive(Clone, Copy)]
struct VaultEnv {
    me: Address,
    asset: Address,
    ta: U256,
    bal_ok: bool,
    mode: u32,
    word: U256,
    moved: u32,
}
static mut VE: VaultEnv = VaultEnv {
    me: Address::ZERO,
    asset: Address::ZERO,
    ta: U256::ZERO,
    bal_ok: true,
    mode: 0,
    word: U256::ZERO,
    moved: 0,
};
/// the asset: balanceOf(vault) is ta; a transfer is accepted or refused
extern "C" fn asset_model(i: u32) {
    let v = unsafe { VE };
    let c = call(i);
    check(c.target == v.asset, "talks only to the asset");
    check(c.value.is_zero(), "sends no value");
    if c.data.len() == 36 {
        check(bytes_eq(&c.data, &d_balance(v.me)), "asks only for its own balance");
        set_return(v.bal_ok, &word_u(v.ta));
    } else {
        // refused by revert, accepted with an empty answer, or answered with a word
        let m = w::choose(3);
        unsafe {
            VE.moved += 1;
            VE.mode = m;
        }
        match m {
            0 => set_return(false, &[]),
            1 => set_return(true, &[]),
            _ => set_return(true, &word_u(v.word)),
        }
    }
}
const OFFS: [u8; 6] = [6, 0, 78, 77, 18, 255];
/// an arbitrary vault; returns 10^offset (None: it does not fit)
fn vault_env(n: u32) -> (VaultEnv, Option<U256>) {
    let me = addr("me");
    set_self(me);
    let off = OFFS[w::choose(n) as usize];
    let mut so = unsafe { StorageU8::new(U256::from(100), 10, vm()) };
    so.set(U8::from(off));
    let v = VaultEnv {
        me,
        asset: vault().asset(),
        ta: u256("total_assets"),
        bal_ok: w::choose(2) == 0,
        mode: 0,
        word: u256("transfer_result"),
        moved: 0,
    };
    unsafe { VE = v };
    on_call(asset_model);
    let p = if off > 77 {
        None
    } else {
        let mut x = U256::from(1);
        for _ in 0..off {
            x = x * U256::from(10);
        }
        Some(x)
    };
    (v, p)
}
fn nofs() -> u32 {
    bound("vault decimal offsets first n of {6,0,78,77,18,255}", 3, 6)
}
fn shares_of(a: U256, v: &VaultEnv, p: Option<U256>, sup: U256, up: bool) -> Option<U256> {
    let p = p?;
    if add_ov(sup, p) | eq(v.ta, U256::MAX) {
        return None;
    }
    let (q, o) = mul_div(a, wadd(sup, p), wadd(v.ta, U256::from(1)), up);
    if o { None } else { Some(q) }
}
fn assets_of(s: U256, v: &VaultEnv, p: Option<U256>, sup: U256, up: bool) -> Option<U256> {
    let p = p?;
    if add_ov(sup, p) | eq(v.ta, U256::MAX) {
        return None;
    }
    let (q, o) = mul_div(s, wadd(v.ta, U256::from(1)), wadd(sup, p), up);
    if o { None } else { Some(q) }
}
fn vault_conv(k: u32) {
    let (v, p) = vault_env(nofs());
    let x = u256("x");
    let who = addr("who");
    let sup = t().total_supply();
    let bal = t().balance_of(who);
    let spec = match k {
        0 | 1 => shares_of(x, &v, p, sup, false),
        2 => shares_of(x, &v, p, sup, true),
        3 | 4 => assets_of(x, &v, p, sup, false),
        5 => assets_of(x, &v, p, sup, true),
        _ => assets_of(bal, &v, p, sup, false),
    };
    let w0 = n_writes();
    // an unreadable asset may be reported before or after an overflow
    allow_trap(spec.is_none());
    let r = match k {
        0 => vault().convert_to_shares(x, &t()),
        1 => vault().preview_deposit(x, &t()),
        2 => vault().preview_withdraw(x, &t()),
        3 => vault().convert_to_assets(x, &t()),
        4 => vault().preview_redeem(x, &t()),
        5 => vault().preview_mint(x, &t()),
        _ => vault().max_withdraw(who, &t()),
    };
    end_expect();
    match r {
        Ok(y) => {
            cover("converted");
            match spec {
                Some(z) => check(eq(y, z), "the value is the rounded quotient"),
                None => check(false, "a result that does not fit is never returned"),
            }
            check(v.bal_ok, "needs the asset balance");
        }
        Err(erc4626::Error::InvalidAsset(e)) => {
            check(!v.bal_ok & (e.asset == v.asset), "InvalidAsset truthful")
        }
        Err(_) => check(false, "no other error"),
    }
    check((n_writes() == w0) & (n_logs() == 0), "views have no effect");
}
h!(vault_shares_down, { vault_conv(w::choose(2)) });
h!(vault_shares_up, { vault_conv(2) });
h!(vault_assets_down, { vault_conv(3 + w::choose(2)) });
h!(vault_assets_up, { vault_conv(5) });
h!(vault_max_withdraw, { vault_conv(6) });
h!(vault_views, {
    let (v, _p) = vault_env(1);
    let who = addr("who");
    check(eq(vault().max_deposit(who), U256::MAX) & eq(vault().max_mint(who), U256::MAX), "no deposit limit");
    check(eq(vault().max_redeem(who, &t()), t().balance_of(who)), "all shares can be redeemed");
    match vault().total_assets() {
        Ok(a) => {
            cover("total");
            check(v.bal_ok & eq(a, v.ta), "total assets is the asset balance of the vault")
        }
        Err(erc4626::Error::InvalidAsset(e)) => check(!v.bal_ok & (e.asset == v.asset), "truthful"),
        Err(_) => check(false, "no other error"),
    }
});
h!(vault_decimals, {
    let ud = unsafe { StorageU8::new(U256::from(100), 11, vm()) }.get();
    let of = unsafe { StorageU8::new(U256::from(100), 10, vm()) }.get();
    let (a, b) = (ud.as_limbs()[0], of.as_limbs()[0]);
    expect_trap(a + b > 255);
    let d = vault().decimals();
    end_expect();
    check(d.as_limbs()[0] == a + b, "decimals is the asset's plus the offset");
    cover("decimals");
});
fn moves() -> bool {
    let v = unsafe { VE };
    (v.moved == 1) & ((v.mode == 1) | ((v.mode == 2) & eq(v.word, U256::from(1))))
}
fn deposit_topic() -> [u8; 32] {
    keccak256(b"Deposit(address,address,uint256,uint256)").0
}
fn withdraw_topic() -> [u8; 32] {
    keccak256(b"Withdraw(address,address,address,uint256,uint256)").0
}
fn two(a: U256, b: U256) -> Vec<u8> {
    let mut v = Vec::new();
    v.extend_from_slice(&word_u(a));
    v.extend_from_slice(&word_u(b));
    v
}
fn vault_in(mint: bool) {
    let (v, _) = vault_env(bound("vault flow decimal offsets first n of {6,0,78,77,18,255}", 2, 6));
    let (caller, rc, x) = (addr("caller"), addr("receiver"), u256("x"));
    set_sender(caller);
    e::inv2(rc, rc);
    let s = snap();
    let code = v.asset.has_code();
    // the rounded quotient itself is the subject of the conversion checks
    allow_trap(true);
    let q = if mint { vault().preview_mint(x, &t()) } else { vault().preview_deposit(x, &t()) };
    end_expect();
    let (ok, q) = (q.is_ok(), q.unwrap_or(U256::ZERO));
    check(ok == v.bal_ok, "the preview fails only with the asset");
    let (assets, shares) = if mint { (q, x) } else { (x, q) };
    allow_trap(ok && add_ov(s.sup, shares));
    let r = if mint { vault().mint(x, rc, &mut t()) } else { vault().deposit(x, rc, &mut t()) };
    end_expect();
    match r {
        Ok(y) => {
            cover("done");
            check(eq(y, q), "returns what the preview said");
            check(v.bal_ok & code & moves() & !rc.is_zero() & !add_ov(s.sup, shares), "succeeds only when allowed");
            check(unsafe { VE.moved } == 1, "moves the asset once");
            check(is_call(n_calls() - 1, v.asset, &d_transfer_from(caller, v.me, assets)), "pulls exactly the assets from the caller");
            s.check_bal(s.bal_after(Address::ZERO, rc, shares));
            s.check_alw(s.alw);
            s.check_sup(wadd(s.sup, shares));
            check(n_logs() == 2, "two events");
            check_transfer_log(0, Address::ZERO, rc, shares);
            check_log(1, &[deposit_topic(), word(caller), word(rc)], &two(assets, shares), "Deposit event");
        }
        Err(erc4626::Error::InvalidAsset(e)) => check(!v.bal_ok & (e.asset == v.asset), "InvalidAsset truthful"),
        Err(erc4626::Error::SafeErc20(_)) => {
            cover("refused");
            check(!code | !moves(), "only if the asset refused")
        }
        Err(erc4626::Error::Erc20(x)) => check_erc20_err(&x, Address::ZERO, rc, U256::MAX, shares),
        Err(_) => check(false, "no limit applies"),
    }
}
h!(vault_deposit, { vault_in(false) });
h!(vault_mint, { vault_in(true) });

fn vault_out(redeem: bool) {
    let (v, _) = vault_env(bound("vault flow decimal offsets first n of {6,0,78,77,18,255}", 1, 6));
    let (caller, rc, owner, x) = (addr("caller"), addr("receiver"), addr("owner"), u256("x"));
    set_sender(caller);
    e::inv2(owner, owner);
    let s = snap();
    let b = t().balance_of(owner);
    let a = t().allowance(owner, caller);
    let inf = eq(a, U256::MAX);
    let code = v.asset.has_code();
    allow_trap(true);
    let max = if redeem { b } else { vault().max_withdraw(owner, &t()).unwrap_or(U256::ZERO) };
    let q = if redeem { vault().preview_redeem(x, &t()) } else { vault().preview_withdraw(x, &t()) };
    end_expect();
    let (ok, y0) = (q.is_ok(), q.unwrap_or(U256::ZERO));
    check(ok == v.bal_ok, "the preview fails only with the asset");
    let (assets, shares) = if redeem { (y0, x) } else { (x, y0) };
    expect_trap(false);
    let r = if redeem { vault().redeem(x, rc, owner, &mut t()) } else { vault().withdraw(x, rc, owner, &mut t()) };
    end_expect();
    let third = caller != owner;
    match r {
        Ok(y) => {
            cover("done");
            check(eq(y, y0), "returns what the preview said");
            check(le(x, max), "within the limit");
            check(v.bal_ok & code & moves() & !owner.is_zero() & le(shares, b), "succeeds only when allowed");
            check(!third | inf | (le(shares, a) & !caller.is_zero()), "only the owner or an approved spender");
            check(unsafe { VE.moved } == 1, "moves the asset once");
            check(is_call(n_calls() - 1, v.asset, &d_transfer(rc, assets)), "pays exactly the assets to the receiver");
            s.check_bal(s.bal_after(owner, Address::ZERO, shares));
            let hit = third & !inf & (s.o == owner) & (s.s == caller);
            s.check_alw(sel(hit, wsub(s.alw, shares), s.alw));
            s.check_sup(wsub(s.sup, shares));
            check(n_logs() == 2, "two events");
            check_transfer_log(0, owner, Address::ZERO, shares);
            check_log(1, &[withdraw_topic(), word(caller), word(rc), word(owner)], &two(assets, shares), "Withdraw event");
        }
        Err(erc4626::Error::InvalidAsset(e)) => check(!v.bal_ok & (e.asset == v.asset), "InvalidAsset truthful"),
        Err(erc4626::Error::SafeErc20(_)) => {
            cover("refused");
            check(!code | !moves(), "only if the asset refused")
        }
        Err(erc4626::Error::ExceededMaxWithdraw(e)) => {
            check(!redeem & lt(max, x) & (e.owner == owner) & eq(e.assets, x) & eq(e.max, max), "limit truthful")
        }
        Err(erc4626::Error::ExceededMaxRedeem(e)) => {
            check(redeem & lt(b, x) & (e.owner == owner) & eq(e.shares, x) & eq(e.max, b), "limit truthful")
        }
        Err(erc4626::Error::Erc20(e)) => {
            use openzeppelin_stylus::token::erc20::Error as E2;
            match e {
                E2::InsufficientAllowance(e) => {
                    check(third & !inf & lt(a, shares) & eq(e.allowance, a) & eq(e.needed, shares) & (e.spender == caller), "allowance truthful")
                }
                E2::InsufficientBalance(_) => check(lt(b, shares), "balance truthful"),
                E2::InvalidSender(_) | E2::InvalidApprover(_) => check(owner.is_zero(), "owner truthful"),
                E2::InvalidSpender(_) => check(third & caller.is_zero(), "spender truthful"),
                E2::InvalidReceiver(_) => check(false, "no receiver error"),
            }
        }
        Err(_) => check(false, "no other error"),
    }
}
h!(vault_withdraw, { vault_out(false) });
h!(vault_redeem, { vault_out(true) });

// ---------------------------------------------------------------- flash mint
fn fm() -> Erc20FlashMint {
    unsafe { Erc20FlashMint::new(U256::from(100), 0, vm()) }
}
fn fee_receiver() -> Address {
    unsafe { StorageAddress::new(U256::from(101), 12, vm()) }.get()
}
fn magic() -> [u8; 32] {
    keccak256(b"ERC3156FlashBorrower.onFlashLoan").0
}
h!(flash_views, {
    let (me, token, v) = (addr("me"), addr("token"), u256("v"));
    set_self(me);
    let fee = unsafe { stylus_sdk::storage::StorageU256::new(U256::from(100), 0, vm()) }.get();
    let m = fm().max_flash_loan(token, &t());
    check(eq(m, sel(token == me, wsub(U256::MAX, t().total_supply()), U256::ZERO)), "only this token, at most what keeps the supply in range");
    match fm().flash_fee(token, v) {
        Ok(f) => {
            cover("fee");
            check((token == me) & eq(f, fee), "the configured fee")
        }
        Err(flash_mint::Error::UnsupportedToken(e)) => check((token != me) & (e.token == token), "truthful"),
        Err(_) => check(false, "no other error"),
    }
    check((n_writes() == 0) & (n_logs() == 0) & (n_calls() == 0), "views have no effect");
});
#[derive(Clone, Copy)]
struct FlashEnv {
    receiver: Address,
    before: U256,
    value: U256,
}
static mut FE: FlashEnv = FlashEnv { receiver: Address::ZERO, before: U256::ZERO, value: U256::ZERO };
static mut FR: (bool, [u8; 32]) = (false, [0; 32]);
extern "C" fn borrower(_i: u32) {
    let f = unsafe { FE };
    check(eq(t().balance_of(f.receiver), wadd(f.before, f.value)), "the loan is there when the borrower is called");
    let r = unsafe { FR };
    set_return(r.0, &r.1);
}
h!(flash_loan, {
    let (me, caller, rc, token, v) = (addr("me"), addr("caller"), addr("receiver"), addr("token"), u256("v"));
    set_self(me);
    set_sender(caller);
    let len = [5usize, 0, 33][w::choose(bound("flash loan data lengths: first n of {5,0,33}", 1, 3)) as usize];
    let data = vec_be(len, "data");
    let fee = fm().flash_fee(me, v).unwrap_or(U256::ZERO);
    let f = fee_receiver();
    e::inv2(rc, f);
    let s = snap();
    let b = t().balance_of(rc);
    let a = t().allowance(rc, me);
    let inf = eq(a, U256::MAX);
    let code = rc.has_code();
    let (cok, cw) = (flag("callback_ok"), b256("callback_word").0);
    unsafe {
        FE = FlashEnv { receiver: rc, before: b, value: v };
        FR = (cok, cw);
    }
    on_call(borrower);
    let sum = wadd(v, fee);
    let ov = add_ov(v, fee);
    let max = sel(token == me, wsub(U256::MAX, s.sup), U256::ZERO);
    let well = cok & (cw == magic());
    let burn = fee.is_zero() | f.is_zero();
    allow_trap(ov);
    let r = fm().flash_loan(rc, token, v, Bytes(data.clone()), &mut t());
    end_expect();
    match r {
        Ok(ok) => {
            cover("lent");
            check(ok & le(v, max) & (token == me) & code & well & !ov, "succeeds only when allowed");
            check(inf | le(sum, a), "the borrower approved principal and fee");
            check(le(fee, b), "the borrower can pay the fee");
            check(!rc.is_zero(), "real receiver");
            // what remains: the fee is gone from the borrower, everything else is as before
            let x = s.x;
            let m = sel(x == rc, wsub(s.bal, fee), s.bal);
            s.check_bal(sel(!burn & (x == f), wadd(m, fee), m));
            let hit = (s.o == rc) & (s.s == me) & !inf;
            s.check_alw(sel(hit, wsub(s.alw, sum), s.alw));
            s.check_sup(sel(burn, wsub(s.sup, fee), s.sup));
            check(n_calls() == 1, "one call");
            let c = call(0);
            let mut d = calldata(
                b"onFlashLoan(address,address,uint256,uint256,bytes)",
                &[word(caller), word(token), word_u(v), word_u(fee), word_u(U256::from(160)), word_u(U256::from(len))],
            );
            d.extend_from_slice(&data);
            while d.len() % 32 != 4 {
                d.push(0);
            }
            check((c.target == rc) & c.value.is_zero() & bytes_eq(&c.data, &d), "the borrower is called with the terms of the loan");
            let z = Address::ZERO;
            check_transfer_log(0, z, rc, v);
            if burn {
                check(n_logs() == 2, "two events");
                check_transfer_log(1, rc, z, sum);
            } else {
                check(n_logs() == 3, "three events");
                check_transfer_log(1, rc, z, v);
                check_transfer_log(2, rc, f, fee);
            }
        }
        Err(flash_mint::Error::ExceededMaxLoan(e)) => {
            cover("too much");
            check(lt(max, v) & eq(e.max_loan, max), "limit truthful")
        }
        Err(flash_mint::Error::UnsupportedToken(e)) => check((token != me) & (e.token == token), "token truthful"),
        Err(flash_mint::Error::InvalidReceiver(e)) => {
            cover("bad receiver");
            check((!code | !well) & (e.receiver == rc), "receiver truthful")
        }
        Err(flash_mint::Error::Erc20(e)) => {
            use openzeppelin_stylus::token::erc20::Error as E2;
            match e {
                E2::InsufficientAllowance(_) => check(!inf & lt(a, sum), "allowance truthful"),
                E2::InsufficientBalance(_) => check(lt(b, fee), "balance truthful"),
                E2::InvalidSpender(_) => check(me.is_zero(), "spender truthful"),
                E2::InvalidSender(_) | E2::InvalidReceiver(_) | E2::InvalidApprover(_) => check(rc.is_zero(), "receiver truthful"),
            }
        }
    }
});
