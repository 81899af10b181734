//! Nonces, ECDSA, EIP-712 and ERC-2612 permits
use crate::c_erc20 as e;
use crate::w::{self, *};
use alloc::{vec, vec::Vec};
use alloy_primitives::{address, keccak256, uint, Address, B256, U256};
use openzeppelin_stylus::token::erc20::{extensions::permit, extensions::Erc20Permit, IErc20};
use openzeppelin_stylus::utils::{
    cryptography::{
        ecdsa,
        eip712::{self, IEip712},
    },
    nonces::{self, Nonces},
};
use stylus_sdk::prelude::*;

fn nn() -> Nonces {
    unsafe { Nonces::new(U256::from(50), 0, vm()) }
}
h!(nonce_use, {
    let (o, x) = (addr("o"), addr("x"));
    let (a, b) = (nn().nonces(o), nn().nonces(x));
    expect_trap(eq(a, U256::MAX));
    let r = nn().use_nonce(o);
    end_expect();
    cover("used");
    check(eq(r, a), "returns the nonce that was current");
    check(eq(nn().nonces(o), wadd(a, U256::from(1))), "the nonce goes up by one");
    check(eq(nn().nonces(x), sel(x == o, wadd(a, U256::from(1)), b)), "other nonces are untouched");
    check(n_logs() == 0, "no event");
});
h!(nonce_use_checked, {
    let (o, x, n) = (addr("o"), addr("x"), u256("n"));
    let (a, b) = (nn().nonces(o), nn().nonces(x));
    allow_trap(eq(a, U256::MAX));
    let r = nn().use_checked_nonce(o, n);
    end_expect();
    match r {
        Ok(()) => {
            cover("used");
            check(eq(n, a), "accepted only when it is the current nonce");
            check(!eq(a, U256::MAX), "never wraps");
            check(eq(nn().nonces(x), sel(x == o, wadd(a, U256::from(1)), b)), "exactly one nonce goes up by one");
        }
        Err(nonces::Error::InvalidAccountNonce(e)) => {
            cover("rejected");
            check(!eq(n, a), "rejected only when it is not the current nonce");
            check((e.account == o) & eq(e.current_nonce, a), "truthful error");
        }
    }
});
// a nonce is never accepted twice
h!(nonce_replay, {
    let (o, p, n) = (addr("o"), addr("p"), u256("n"));
    allow_trap(true);
    let r1 = nn().use_checked_nonce(o, n);
    if r1.is_err() {
        return;
    }
    match w::choose(3) {
        0 => (),
        1 => {
            let _ = nn().use_nonce(p);
        }
        _ => {
            if nn().use_checked_nonce(p, u256("m")).is_err() {
                return;
            }
        }
    }
    cover("second use");
    let r2 = nn().use_checked_nonce(o, n);
    check(r2.is_err(), "a used nonce is rejected");
});

#[storage]
pub struct Top {}
unsafe impl TopLevelStorage for Top {}
fn top() -> Top {
    unsafe { Top::new(U256::from(900), 0, vm()) }
}
const EC: Address = address!("0000000000000000000000000000000000000001");
const HALF: U256 =
    uint!(0x7FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF5D576E7357A4501DDFE92F46681B20A0_U256);
/// the ecrecover precompile: arbitrary but fixed function of its 128-byte input; empty output for
/// an invalid signature (always so for v other than 27 and 28)
fn ecmodel(data: &[u8]) -> Address {
    let o = w::uf32("ecrecover", data);
    Address::from_slice(&o[12..])
}
extern "C" fn ecrecover(i: u32) {
    let c = call(i);
    check((c.target == EC) & (c.value.is_zero()), "calls the ecrecover precompile");
    check(c.data.len() == 128, "128 bytes of input");
    let v = U256::from_be_slice(&c.data[32..64]);
    let a = ecmodel(&c.data);
    if a.is_zero() | !(eq(v, U256::from(27)) | eq(v, U256::from(28))) {
        set_return(true, &[]);
    } else {
        set_return(true, &word(a));
    }
}
fn ecdata(hash: B256, v: u8, r: B256, s: B256) -> Vec<u8> {
    let mut x = Vec::new();
    x.extend_from_slice(&hash.0);
    x.extend_from_slice(&word_u(U256::from(v)));
    x.extend_from_slice(&r.0);
    x.extend_from_slice(&s.0);
    x
}
h!(ecdsa_recover, {
    let (hash, v, r, s) = (b256("hash"), u8_("v"), b256("r"), b256("s"));
    on_call(ecrecover);
    let res = ecdsa::recover(&mut top(), hash, v, r, s);
    let x = ecmodel(&ecdata(hash, v, r, s));
    let malleable = lt(HALF, U256::from_be_bytes(s.0));
    let valid = ((v == 27) | (v == 28)) & !x.is_zero();
    match res {
        Ok(a) => {
            cover("recovered");
            check(!malleable, "a high s value is never accepted");
            check(valid & (a == x), "returns the address the signature recovers to");
            check(!a.is_zero(), "never the zero address");
        }
        Err(ecdsa::Error::InvalidSignatureS(e)) => {
            cover("high s");
            check(malleable & (e.s == s), "high s truthful");
        }
        Err(ecdsa::Error::InvalidSignature(_)) => {
            cover("invalid");
            check(!valid, "rejected only when the signature recovers to nothing");
        }
    }
    check((n_writes() == 0) & (n_logs() == 0), "recovery has no effect");
});

#[storage]
pub struct Dom {}
impl IEip712 for Dom {
    const NAME: &'static str = "Some Token";
    const VERSION: &'static str = "1.2";
}
fn dom() -> Dom {
    unsafe { Dom::new(U256::from(800), 0, vm()) }
}
fn spec_separator(me: Address) -> [u8; 32] {
    let mut x = Vec::new();
    x.extend_from_slice(
        &keccak256(b"EIP712Domain(string name,string version,uint256 chainId,address verifyingContract)").0,
    );
    x.extend_from_slice(&keccak256(b"Some Token").0);
    x.extend_from_slice(&keccak256(b"1.2").0);
    x.extend_from_slice(&word_u(U256::from(stylus_sdk::block::chainid())));
    x.extend_from_slice(&word(me));
    keccak256(&x).0
}
fn spec_typed(me: Address, sh: &[u8; 32]) -> [u8; 32] {
    let mut x = Vec::new();
    x.extend_from_slice(&[0x19, 1]);
    x.extend_from_slice(&spec_separator(me));
    x.extend_from_slice(sh);
    keccak256(&x).0
}
h!(eip712_hash, {
    let (me, sh) = (addr("me"), b256("sh"));
    set_self(me);
    check(dom().domain_separator_v4().0 == spec_separator(me), "domain separator");
    check(dom().hash_typed_data_v4(sh).0 == spec_typed(me, &sh.0), "typed data hash");
    let p: Erc20Permit<Dom> = unsafe { Erc20Permit::new(U256::from(800), 0, vm()) };
    check(p.domain_separator().0 == spec_separator(me), "the permit extension exposes the same separator");
    let d = dom().eip712_domain();
    check((d.0 == [0x0f]) & (d.1.as_bytes() == b"Some Token") & (d.2.as_bytes() == b"1.2"), "name and version");
    check(eq(d.3, U256::from(stylus_sdk::block::chainid())) & (d.4 == me), "chain and contract");
    check((d.5 == [0u8; 32]) & d.6.is_empty(), "no salt, no extension");
    check((n_writes() == 0) & (n_logs() == 0) & (n_calls() == 0), "views have no effect");
    cover("hashed");
});
// different (domain, message) pairs never share a hash
h!(eip712_binding, {
    let (me1, me2) = (addr("me1"), addr("me2"));
    let (s1, s2) = (b256("s1"), b256("s2"));
    let (d1, d2) = (b256("d1"), b256("d2"));
    set_self(me1);
    let a = dom().hash_typed_data_v4(s1);
    set_self(me2);
    let b = dom().hash_typed_data_v4(s2);
    check((a != b) | ((me1 == me2) & (s1 == s2)), "the hash binds contract and message");
    let x = eip712::to_typed_data_hash(&d1, &s1);
    let y = eip712::to_typed_data_hash(&d2, &s2);
    check((x != y) | ((d1 == d2) & (s1 == s2)), "the hash binds domain and message");
    cover("bound");
});

h!(permit, {
    let (me, caller) = (addr("me"), addr("caller"));
    let (owner, sp, v, dl) = (addr("owner"), addr("sp"), u256("v"), u256("deadline"));
    let (sv, sr, ss) = (u8_("sig_v"), b256("sig_r"), b256("sig_s"));
    let now = u64_("now");
    set_self(me);
    set_sender(caller);
    set_timestamp(now);
    on_call(ecrecover);
    let s = e::snap();
    let x = addr("y");
    let n = nn().nonces(owner);
    let nx = nn().nonces(x);
    let mut sh = Vec::new();
    sh.extend_from_slice(
        &keccak256(b"Permit(address owner,address spender,uint256 value,uint256 nonce,uint256 deadline)").0,
    );
    sh.extend_from_slice(&word(owner));
    sh.extend_from_slice(&word(sp));
    sh.extend_from_slice(&word_u(v));
    sh.extend_from_slice(&word_u(n));
    sh.extend_from_slice(&word_u(dl));
    let h = spec_typed(me, &keccak256(&sh).0);
    let signer = ecmodel(&ecdata(B256::from(h), sv, sr, ss));
    let expired = lt(dl, U256::from(now));
    let high = lt(HALF, U256::from_be_bytes(ss.0));
    let valid = !high & ((sv == 27) | (sv == 28)) & !signer.is_zero();
    let mut p: Erc20Permit<Dom> = unsafe { Erc20Permit::new(U256::from(800), 0, vm()) };
    allow_trap(eq(n, U256::MAX));
    let r = p.permit(owner, sp, v, dl, sv, sr, ss, &mut e::t(), &mut nn());
    end_expect();
    match r {
        Ok(()) => {
            cover("permitted");
            check(!expired, "not after the deadline");
            check(valid & (signer == owner), "only with the owner's signature over exactly these terms");
            check(!sp.is_zero() & !owner.is_zero() & !eq(n, U256::MAX), "valid parties");
            s.check_bal(s.bal);
            s.check_sup(s.sup);
            s.check_alw(sel((s.o == owner) & (s.s == sp), v, s.alw));
            check(eq(nn().nonces(x), sel(x == owner, wadd(n, U256::from(1)), nx)), "exactly the owner's nonce is consumed");
            check(n_logs() == 1, "one event");
            check_log(0, &[e::approval_topic(), word(owner), word(sp)], &word_u(v), "Approval event");
        }
        Err(permit::Error::ExpiredSignature(e)) => {
            cover("expired");
            check(expired & eq(e.deadline, dl), "expired truthful");
        }
        Err(permit::Error::InvalidSigner(e)) => {
            cover("wrong signer");
            check(valid & (signer != owner) & (e.signer == signer) & (e.owner == owner), "signer truthful");
        }
        Err(permit::Error::ECDSA(_)) => {
            cover("bad signature");
            check(!valid, "invalid signature truthful");
        }
        Err(permit::Error::Erc20(_)) => {
            cover("bad party");
            check(sp.is_zero() | owner.is_zero(), "party truthful");
        }
    }
});
