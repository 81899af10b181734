//! ERC-721 extensions: enumeration, URIs, wrapper
use crate::c_nft::{self as n, Nft, Plain, Snap};
use crate::w::{self, *};
use alloc::{string::String, vec, vec::Vec};
use alloy_primitives::{keccak256, Address, U256};
use openzeppelin_stylus::token::erc721::{
    self,
    extensions::{enumerable, wrapper, Erc721Enumerable, Erc721Metadata, Erc721UriStorage, Erc721Wrapper, IErc721Enumerable},
    Erc721, Error, IErc721,
};
use stylus_sdk::{abi::Bytes, prelude::*, storage::*, types::AddressVM};

// ---------------------------------------------------------------- enumeration
fn e() -> Erc721Enumerable {
    unsafe { Erc721Enumerable::new(U256::from(64), 0, vm()) }
}
fn t() -> Erc721 {
    n::t()
}
const NAMES: [&str; 8] = ["id0", "id1", "id2", "id3", "id4", "id5", "id6", "id7"];
/// the tokens in existence, as the history so far says
struct Live {
    ids: Vec<U256>,
    owner: Vec<usize>,
    gone: Vec<U256>,
}
/// every listing names exactly the tokens it should, once each, and nothing beyond its end
fn listed(l: &Live, acc: &[Address]) {
    let past = u256("past");
    let n = l.ids.len();
    check(eq(e().total_supply(), U256::from(n)), "the supply counts the tokens");
    let mut got = Vec::new();
    for i in 0..n {
        match e().token_by_index(U256::from(i)) {
            Ok(x) => got.push(x),
            Err(_) => check(false, "every index below the supply is answered"),
        }
    }
    once(&got, &l.ids, |_| true, &l.gone);
    beyond(e().token_by_index(past), past, Address::ZERO, n);
    for o in 0..acc.len() {
        let k = l.owner.iter().filter(|x| **x == o).count();
        let mut got = Vec::new();
        for i in 0..k {
            match e().token_of_owner_by_index(acc[o], U256::from(i)) {
                Ok(x) => got.push(x),
                Err(_) => check(false, "every index below an owner's balance is answered"),
            }
        }
        once(&got, &l.ids, |i| l.owner[i] == o, &l.gone);
        beyond(e().token_of_owner_by_index(acc[o], past), past, acc[o], k);
    }
    let z = addr("stranger");
    assume(!acc.contains(&z));
    beyond(e().token_of_owner_by_index(z, past), past, z, 0);
}
fn once(got: &[U256], ids: &[U256], mine: impl Fn(usize) -> bool, gone: &[U256]) {
    for (i, id) in ids.iter().enumerate() {
        let mut c = 0u32;
        for g in got {
            c += eq(*g, *id) as u32;
        }
        check(c == mine(i) as u32, "each token is listed exactly once, and only with its owner");
    }
    for id in gone {
        for g in got {
            check(!eq(*g, *id), "burned tokens are not listed");
        }
    }
}
fn beyond(r: Result<U256, enumerable::Error>, i: U256, o: Address, n: usize) {
    let inside = lt(i, U256::from(n));
    match r {
        Ok(_) => check(inside, "nothing beyond the end"),
        Err(enumerable::Error::OutOfBoundsIndex(e)) => check(!inside & (e.owner == o) & eq(e.index, i), "OutOfBoundsIndex truthful"),
        Err(_) => check(false, "no other error"),
    }
}
h!(enum_history, {
    fresh_storage();
    let acc = [addr("a"), addr("b")];
    assume(!acc[0].is_zero() & !acc[1].is_zero() & (acc[0] != acc[1]));
    let mut l = Live { ids: Vec::new(), owner: Vec::new(), gone: Vec::new() };
    let ops = bound("operations in a history", 4, 5) as usize;
    let mut fresh = 0;
    for _ in 0..ops {
        let live = l.ids.len();
        // mint to either account, or pass on or burn any live token
        let c = w::choose(2 + 2 * live as u32) as usize;
        if c < 2 {
            let id = u256(NAMES[fresh]);
            fresh += 1;
            let mut new = !id.is_zero();
            for k in l.ids.iter().chain(l.gone.iter()) {
                new &= !eq(*k, id);
            }
            assume(new);
            check(t()._mint(acc[c], id).is_ok(), "minted");
            e()._add_token_to_all_tokens_enumeration(id);
            check(e()._add_token_to_owner_enumeration(acc[c], id, &t()).is_ok(), "listed");
            l.ids.push(id);
            l.owner.push(c);
        } else {
            let i = (c - 2) / 2;
            let (id, from) = (l.ids[i], l.owner[i]);
            if c % 2 == 0 {
                let to = 1 - from;
                check(t()._transfer(acc[from], acc[to], id).is_ok(), "moved");
                check(e()._remove_token_from_owner_enumeration(acc[from], id, &t()).is_ok(), "unlisted");
                check(e()._add_token_to_owner_enumeration(acc[to], id, &t()).is_ok(), "listed");
                l.owner[i] = to;
            } else {
                check(t()._burn(id).is_ok(), "burned");
                check(e()._remove_token_from_owner_enumeration(acc[from], id, &t()).is_ok(), "unlisted");
                e()._remove_token_from_all_tokens_enumeration(id);
                l.ids.remove(i);
                l.owner.remove(i);
                l.gone.push(id);
            }
        }
    }
    cover("history");
    listed(&l, &acc);
});
h!(enum_zero_id, {
    fresh_storage();
    let a = addr("a");
    assume(!a.is_zero());
    check(t()._mint(a, U256::ZERO).is_ok(), "minted");
    e()._add_token_to_all_tokens_enumeration(U256::ZERO);
    check(e()._add_token_to_owner_enumeration(a, U256::ZERO, &t()).is_ok(), "listed");
    cover("minted token 0");
    check(matches!(e().token_by_index(U256::ZERO), Ok(x) if x.is_zero()), "token 0 is listed among all tokens");
    check(matches!(e().token_of_owner_by_index(a, U256::ZERO), Ok(x) if x.is_zero()), "token 0 is listed with its owner");
});
h!(enum_batch, {
    let lo = u64_("lo");
    let n = ((u64_("hi") as u128) << 64) | lo as u128;
    let r = Erc721Enumerable::_check_increase_balance(n);
    check(r.is_err() == (n > 0), "batch minting is refused");
    cover("asked");
});

// ---------------------------------------------------------------- URIs
fn md() -> Erc721Metadata {
    unsafe { Erc721Metadata::new(U256::from(32), 0, vm()) }
}
fn us() -> Erc721UriStorage {
    unsafe { Erc721UriStorage::new(U256::from(40), 0, vm()) }
}
/// an ASCII text of one of the lengths around the storage format's borders
pub fn text(name: &str, n: u32) -> String {
    let len = [0usize, 3, 31, 32, 40, 64, 65][w::choose(n) as usize];
    ascii(len, name)
}
pub fn ascii(len: usize, name: &str) -> String {
    let v = vec_be(len, name);
    let mut hi = 0;
    for b in &v {
        hi |= *b;
    }
    assume(hi < 128);
    unsafe { String::from_utf8_unchecked(v) }
}
pub fn put(slot: u32, s: &str) {
    let mut x = unsafe { StorageString::new(U256::from(slot), 0, vm()) };
    x.set_str(s);
}
pub fn same(a: &str, b: &str) -> bool {
    bytes_eq(a.as_bytes(), b.as_bytes())
}
/// a token whose decimal digits are known, and those digits
pub fn numbered(quick: u32) -> (U256, String) {
    let n = [0, 4, 1, 3, 2][w::choose(bound("token ids: first n of 0-9, 2^256-1, 10-99, 2^64-1, 100-999", quick, 5)) as usize];
    let mut s = String::new();
    let id = match n {
        0 | 1 | 2 => {
            let d = bytes_be::<3>("digits");
            let k = n as usize + 1;
            let mut v = 0u64;
            let mut ok = true;
            for i in 0..k {
                ok &= d[i] < 10;
                v = v * 10 + d[i] as u64;
                s.push((b'0' + (d[i] & 15)) as char);
            }
            assume(ok & ((k == 1) | (d[0] > 0)));
            U256::from(v)
        }
        3 => {
            s.push_str("18446744073709551615");
            U256::from(u64::MAX)
        }
        _ => {
            s.push_str("115792089237316195423570985008687907853269984665640564039457584007913129639935");
            U256::MAX
        }
    };
    (id, s)
}
/// storage for three texts: whichever of them is the base URI
fn base(n: u32) {
    fresh_storage();
    put(32, "n");
    put(33, "s");
    put(34, &text("base", n));
}
/// the token may or may not exist
fn perhaps(id: U256) {
    if w::choose(2) == 1 {
        let a = addr("owner");
        assume(!a.is_zero());
        check(t()._mint(a, id).is_ok(), "minted");
    }
}
fn nonexistent(e: Error, id: U256) {
    match e {
        Error::NonexistentToken(e) => check(Plain::own(id).is_zero() & eq(e.token_id, id), "NonexistentToken truthful"),
        _ => check(false, "no other error"),
    }
}
h!(nft_metadata, {
    base(bound("text lengths: first n of {0,3,31,32,40,64,65}", 4, 7));
    let (id, s) = numbered(3);
    perhaps(id);
    let b = md().base_uri();
    let (w0, l0) = (n_writes(), n_logs());
    match md().token_uri(id, &t()) {
        Ok(u) => {
            cover("answered");
            check(!Plain::own(id).is_zero(), "only existing tokens have a URI");
            let want = if b.is_empty() { String::new() } else { b + &s };
            check(same(&u, &want), "base URI followed by the id in decimal");
        }
        Err(e) => nonexistent(e, id),
    }
    check((n_writes() == w0) & (n_logs() == l0) & (n_calls() == 0), "views have no effect");
});
h!(nft_uri_storage, {
    let nb = bound("base lengths: first n of {0,3,31,32,40,64,65}", 2, 5);
    base(nb);
    let (id, other) = (u256("id"), u256("other"));
    assume(!eq(id, other));
    perhaps(id);
    let nt = bound("token URI lengths: first n of {0,3,31,32,40,64,65}", 4, 7);
    // a longer or shorter text may already be there
    let old = text("old", nt);
    us()._set_token_uri(id, old);
    let keep = text("keep", 2);
    us()._set_token_uri(other, keep.clone());
    let l0 = n_logs();
    let u = text("uri", nt);
    us()._set_token_uri(id, u.clone());
    check(n_logs() == l0 + 1, "one event");
    check_log(l0, &[keccak256(b"MetadataUpdate(uint256)").0], &word_u(id), "MetadataUpdate event");
    let b = md().base_uri();
    check(same(&us().token_uris.getter(id).get_string(), &u), "the URI set is the URI kept");
    check(same(&us().token_uris.getter(other).get_string(), &keep), "and no other token's changes");
    if u.is_empty() & !b.is_empty() {
        return;
    }
    match us().token_uri(id, &t(), &md()) {
        Ok(r) => {
            cover("answered");
            check(!Plain::own(id).is_zero(), "only existing tokens have a URI");
            check(same(&r, &(b + &u)), "base URI followed by the token's URI");
        }
        Err(e) => nonexistent(e, id),
    }
});
h!(nft_uri_default, {
    base(2);
    let (id, s) = numbered(2);
    perhaps(id);
    us()._set_token_uri(id, String::new());
    let b = md().base_uri();
    match us().token_uri(id, &t(), &md()) {
        Ok(u) => {
            cover("answered");
            check(!Plain::own(id).is_zero(), "only existing tokens have a URI");
            let want = if b.is_empty() { String::new() } else { b + &s };
            check(same(&u, &want), "base URI followed by the id in decimal");
        }
        Err(e) => nonexistent(e, id),
    }
});

// ---------------------------------------------------------------- wrapper
fn wr() -> Erc721Wrapper {
    unsafe { Erc721Wrapper::new(U256::from(48), 0, vm()) }
}
#[derive(Clone, Copy)]
struct WrapEnv {
    under: Address,
    to: Address,
    ids: [U256; 2],
    /// underlying calls and receiver calls answered so far, and whether one of them went wrong and how
    seen: usize,
    asked: usize,
    /// 0 nothing wrong, 1 underlying reverted without, 2 with a reason, 3 receiver without, 4 with a reason, 5 a wrong answer
    bad: u32,
    word: [u8; 32],
    reason: [u8; 5],
    deposit: bool,
}
static mut WE: WrapEnv = WrapEnv { under: Address::ZERO, to: Address::ZERO, ids: [U256::ZERO; 2], seen: 0, asked: 0, bad: 0, word: [0; 32], reason: [0; 5], deposit: false };
extern "C" fn wrap_model(i: u32) {
    let e = unsafe { WE };
    let c = call(i);
    check(e.bad == 0, "nothing is called after a failure");
    if c.data[..4] == n::magic()[..4] {
        let k = e.asked;
        check(e.deposit & (k < 2) & (e.seen >= k), "the underlying token comes first");
        check(Plain::own(e.ids[k]) == e.to, "the receiver already owns the token when it is asked");
        let m = w::choose(3);
        unsafe {
            WE.asked += 1;
            WE.bad = [3, 4, if (e.word[..4] == n::magic()[..4]) { 0 } else { 5 }][m as usize];
        }
        match m {
            0 => set_return(false, &[]),
            1 => set_return(false, &e.reason),
            _ => set_return(true, &e.word),
        }
    } else {
        let k = e.seen;
        check(k < 2, "one underlying call per token");
        if !e.deposit {
            check(Plain::own(e.ids[k]).is_zero(), "burned before the underlying is handed out");
        }
        let m = w::choose(3);
        unsafe {
            WE.seen += 1;
            WE.bad = [1, 2, 0][m as usize];
        }
        match m {
            0 => set_return(false, &[]),
            1 => set_return(false, &e.reason),
            _ => set_return(true, &[]),
        }
    }
}
fn wrap_env(to: Address, ids: &[U256], deposit: bool) -> Address {
    let under = wr().underlying();
    let mut a = [U256::ZERO; 2];
    a[..ids.len()].copy_from_slice(ids);
    unsafe { WE = WrapEnv { under, to, ids: a, seen: 0, asked: 0, bad: 0, word: b256("answer").0, reason: bytes_be("reason"), deposit } };
    on_call(wrap_model);
    under
}
fn list() -> Vec<U256> {
    let k = w::choose(3) as usize;
    (0..k).map(|i| u256(NAMES[i])).collect()
}
/// all of the tokens went from `f` to `t` and nothing else happened
fn all_moved(s: &Snap, f: Address, t: Address, ids: &[U256]) {
    let mut hit = false;
    for i in ids {
        hit |= eq(s.k, *i);
    }
    let k = U256::from(ids.len());
    check(eq(num(Plain::own(s.k)), asel(hit, t, s.own)), "owner of every token is as specified");
    check(eq(num(Plain::appr(s.k)), asel(hit, Address::ZERO, s.appr)), "approval of every token is as specified");
    if !t.is_zero() {
        check(eq(Plain::bal(s.x), sel(s.x == t, wadd(s.bal, k), s.bal)), "balance of every account is as specified");
    }
    check(Plain::oper(s.o, s.s) == s.oper, "every operator grant is as specified");
    let _ = f;
}
/// the error names what really went wrong
fn wrap_err(e: wrapper::Error, under: Address, to: Address) -> Option<Error> {
    let w = unsafe { WE };
    match e {
        wrapper::Error::Erc721FailedOperation(e) => check((w.bad == 1) & (e.token == under), "Erc721FailedOperation truthful"),
        wrapper::Error::Erc721FailedOperationWithReason(e) => {
            check(w.bad == 2, "only when the underlying gave a reason");
            let v: Vec<u8> = wrapper::Error::Erc721FailedOperationWithReason(e).into();
            check(bytes_eq(&v, &w.reason), "the reason is passed on");
        }
        wrapper::Error::Erc721(Error::InvalidReceiver(e)) => check(
            (e.receiver == to) & (to.is_zero() | (w.bad == 3) | (w.bad == 5) | ((w.asked > 0) & (w.word != n::magic()))),
            "InvalidReceiver truthful",
        ),
        wrapper::Error::Erc721(Error::InvalidReceiverWithReason(_)) => check(w.bad == 4, "only when the receiver gave a reason"),
        wrapper::Error::Erc721(e) => return Some(e),
        _ => check(false, "no other error"),
    }
    None
}
h!(nwrap_deposit, {
    let (me, sender, to) = (addr("me"), addr("sender"), addr("account"));
    set_self(me);
    set_sender(sender);
    let ids = list();
    let mut taken = false;
    for i in 0..ids.len() {
        n::inv::<Plain>(ids[i], to, sender);
        taken |= !Plain::own(ids[i]).is_zero();
        for j in 0..i {
            taken |= eq(ids[i], ids[j]);
        }
    }
    assume(lt(Plain::bal(to), U256::MAX - U256::from(2)));
    let s = n::snap::<Plain>();
    let under = wrap_env(to, &ids, true);
    let code = to.has_code();
    let r = wr().deposit_for(to, ids.clone(), &mut t());
    let w = unsafe { WE };
    for i in 0..n_calls() as usize {
        // a pair of calls per token when the receiver is a contract, one otherwise
        let k = if code { i / 2 } else { i };
        if code & (i % 2 == 1) {
            n::check_received(i as u32, sender, Address::ZERO, to, ids[k], &[]);
        } else {
            let d = calldata(b"transferFrom(address,address,uint256)", &[word(sender), word(me), word_u(ids[k])]);
            check(is_call(i as u32, under, &d), "takes the sender's underlying token");
        }
    }
    match r {
        Ok(b) => {
            cover("deposited");
            check(b & (w.bad == 0) & (w.seen == ids.len()), "every underlying token was taken");
            check((w.asked == ids.len()) | !code, "every receiver accepted");
            check(!taken & (!to.is_zero() | ids.is_empty()), "each token was unwrapped before");
            all_moved(&s, Address::ZERO, to, &ids);
            check(n_logs() as usize == ids.len(), "one event per token");
            for i in 0..ids.len() {
                n::check_transfer(i as u32, Address::ZERO, to, ids[i]);
            }
        }
        Err(e) => match wrap_err(e, under, to) {
            Some(Error::InvalidSender(e)) => check(taken & e.sender.is_zero(), "InvalidSender truthful"),
            Some(_) => check(false, "no other error"),
            None => cover("refused"),
        },
    }
});
h!(nwrap_withdraw, {
    let (me, sender, to) = (addr("me"), addr("sender"), addr("account"));
    set_self(me);
    set_sender(sender);
    assume(!sender.is_zero());
    let ids = list();
    let mut auth = true;
    let mut there = true;
    let mut back = U256::ZERO;
    let s = n::snap::<Plain>();
    for i in 0..ids.len() {
        let ow = n::inv::<Plain>(ids[i], to, sender);
        auth &= n::authorized::<Plain>(ow, sender, ids[i]);
        there &= !ow.is_zero();
        back = sel(s.x == ow, wadd(back, U256::from(1)), back);
        for j in 0..i {
            there &= !eq(ids[i], ids[j]);
            // two tokens of one owner make a balance of two
            let two = (Plain::own(ids[j]) == ow) & !eq(ids[i], ids[j]) & !ow.is_zero();
            assume(!two | lt(U256::from(1), Plain::bal(ow)));
        }
    }
    let under = wrap_env(to, &ids, false);
    let mut owners = Vec::new();
    for i in &ids {
        owners.push(Plain::own(*i));
    }
    let r = wr().withdraw_to(to, ids.clone(), &mut t());
    let w = unsafe { WE };
    for i in 0..(n_calls() as usize).min(ids.len()) {
        let mut d = calldata(b"safeTransferFrom(address,address,uint256,bytes)", &[word(me), word(to), word_u(ids[i]), word_u(U256::from(128))]);
        d.extend_from_slice(&tail(&[]));
        check(is_call(i as u32, under, &d), "hands out the underlying token");
    }
    match r {
        Ok(b) => {
            cover("withdrawn");
            check(b & (w.bad == 0) & (w.seen == ids.len()), "every underlying token was handed out");
            check(auth & there, "only by the owner or its delegate, and once each");
            all_moved(&s, Address::ZERO, Address::ZERO, &ids);
            check(eq(Plain::bal(s.x), sel(s.x.is_zero(), s.bal, wsub(s.bal, back))), "balance of every account is as specified");
            check(n_logs() as usize == ids.len(), "one event per token");
            for i in 0..ids.len() {
                n::check_transfer(i as u32, owners[i], Address::ZERO, ids[i]);
            }
        }
        Err(e) => match wrap_err(e, under, to) {
            Some(Error::NonexistentToken(e)) => check(!there & (eq(e.token_id, w.ids[0]) | eq(e.token_id, w.ids[1])), "NonexistentToken truthful"),
            Some(Error::InsufficientApproval(e)) => check(!auth & (e.operator == sender), "InsufficientApproval truthful"),
            Some(_) => check(false, "no other error"),
            None => cover("refused"),
        },
    }
});
h!(nwrap_receive, {
    let (me, sender, op, from, id) = (addr("me"), addr("sender"), addr("operator"), addr("from"), u256("id"));
    set_self(me);
    set_sender(sender);
    n::inv::<Plain>(id, from, sender);
    let s = n::snap::<Plain>();
    let ow = Plain::own(id);
    let under = wrap_env(from, &[id], true);
    unsafe { WE.seen = 1 };
    let code = from.has_code();
    let r = wr().on_erc721_received(op, from, id, Bytes(vec_be(4, "data")), &mut t());
    let w = unsafe { WE };
    check(n_calls() as usize == w.asked, "no other call");
    match r {
        Ok(x) => {
            cover("wrapped");
            check(x.0 == n::magic()[..4], "acknowledges");
            check((sender == under) & ow.is_zero() & !from.is_zero(), "only for a token the underlying sends");
            check(!code | ((w.asked == 1) & (w.bad == 0)), "the previous owner accepted");
            s.moved::<Plain>(Address::ZERO, from, id);
            check(n_logs() == 1, "one event");
            n::check_transfer(0, Address::ZERO, from, id);
        }
        Err(wrapper::Error::UnsupportedToken(e)) => check((sender != under) & (e.token == sender), "UnsupportedToken truthful"),
        Err(e) => match wrap_err(e, under, from) {
            Some(Error::InvalidSender(e)) => check(!ow.is_zero() & e.sender.is_zero(), "InvalidSender truthful"),
            Some(_) => check(false, "no other error"),
            None => cover("refused"),
        },
    }
});
