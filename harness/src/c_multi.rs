//! ERC-1155: the plain token and the supply extension are held to one specification
use crate::w::{self, *};
use alloc::{string::String, vec::Vec};
use alloy_primitives::{keccak256, Address, U256};
use openzeppelin_stylus::token::erc1155::{
    extensions::{Erc1155MetadataUri, Erc1155Supply, Erc1155UriStorage, IErc1155Burnable, IErc1155MetadataUri, IErc1155Supply},
    Erc1155, Error, IErc1155,
};
use stylus_sdk::{abi::Bytes, prelude::*, storage::*, types::AddressVM};

type R = Result<(), Error>;
fn t() -> Erc1155 {
    unsafe { Erc1155::new(U256::ZERO, 0, vm()) }
}
fn s() -> Erc1155Supply {
    unsafe { Erc1155Supply::new(U256::ZERO, 0, vm()) }
}
trait Multi {
    const SUPPLY: bool;
    fn bal(x: Address, id: U256) -> U256;
    fn oper(o: Address, s: Address) -> bool;
    fn supply(id: U256) -> U256;
    fn all() -> U256;
    fn transfer(f: Address, t: Address, id: U256, v: U256, d: Bytes) -> R;
    fn transfer_batch(f: Address, t: Address, id: Vec<U256>, v: Vec<U256>, d: Bytes) -> R;
    fn mint(t: Address, id: U256, v: U256, d: Bytes) -> R;
    fn mint_batch(t: Address, id: Vec<U256>, v: Vec<U256>, d: Bytes) -> R;
    fn burn(f: Address, id: U256, v: U256) -> R;
    fn burn_batch(f: Address, id: Vec<U256>, v: Vec<U256>) -> R;
    fn approve(o: Address, a: bool) -> R;
    fn balances(x: Vec<Address>, id: Vec<U256>) -> Result<Vec<U256>, Error>;
}
macro_rules! multi {
    ($t:expr) => {
        fn bal(x: Address, id: U256) -> U256 {
            IErc1155::balance_of(&$t, x, id)
        }
        fn oper(o: Address, s: Address) -> bool {
            IErc1155::is_approved_for_all(&$t, o, s)
        }
        fn transfer(f: Address, t: Address, id: U256, v: U256, d: Bytes) -> R {
            IErc1155::safe_transfer_from(&mut $t, f, t, id, v, d)
        }
        fn transfer_batch(f: Address, t: Address, id: Vec<U256>, v: Vec<U256>, d: Bytes) -> R {
            IErc1155::safe_batch_transfer_from(&mut $t, f, t, id, v, d)
        }
        fn mint(t: Address, id: U256, v: U256, d: Bytes) -> R {
            $t._mint(t, id, v, &d)
        }
        fn mint_batch(t: Address, id: Vec<U256>, v: Vec<U256>, d: Bytes) -> R {
            $t._mint_batch(t, id, v, &d)
        }
        fn burn(f: Address, id: U256, v: U256) -> R {
            $t._burn(f, id, v)
        }
        fn burn_batch(f: Address, id: Vec<U256>, v: Vec<U256>) -> R {
            $t._burn_batch(f, id, v)
        }
        fn approve(o: Address, a: bool) -> R {
            IErc1155::set_approval_for_all(&mut $t, o, a)
        }
        fn balances(x: Vec<Address>, id: Vec<U256>) -> Result<Vec<U256>, Error> {
            IErc1155::balance_of_batch(&$t, x, id)
        }
    };
}
struct Plain;
struct Supply;
impl Multi for Plain {
    const SUPPLY: bool = false;
    fn supply(_: U256) -> U256 {
        U256::ZERO
    }
    fn all() -> U256 {
        U256::ZERO
    }
    multi!(t());
}
impl Multi for Supply {
    const SUPPLY: bool = true;
    fn supply(id: U256) -> U256 {
        IErc1155Supply::total_supply(&s(), id)
    }
    fn all() -> U256 {
        IErc1155Supply::total_supply_all(&s())
    }
    multi!(s());
}
/// an array argument of a bounded length
fn arr(n: usize, name: &[&str; 4]) -> Vec<U256> {
    (0..n).map(|i| u256(name[i])).collect()
}
const IDS: [&str; 4] = ["id0", "id1", "id2", "id3"];
const VALS: [&str; 4] = ["v0", "v1", "v2", "v3"];
fn lens() -> (usize, usize) {
    [(2, 2), (1, 1), (0, 0), (2, 1), (1, 2), (3, 3)][w::choose(bound("(ids, values) lengths: first n of 2/2 1/1 0/0 2/1 1/2 3/3", 5, 6)) as usize]
}
/// what the batch does to one balance (of account x in token k), as a running total before step n
fn fold(b0: U256, x: Address, k: U256, from: Address, to: Address, ids: &[U256], vs: &[U256], n: usize) -> U256 {
    let f = (x == from) & !from.is_zero();
    let t = (x == to) & !to.is_zero();
    let mut b = b0;
    for i in 0..n {
        let hit = eq(ids[i], k);
        b = sel(hit & f, wsub(b, vs[i]), b);
        b = sel(hit & t, wadd(b, vs[i]), b);
    }
    b
}

#[derive(Clone)]
struct Recv {
    /// 0 empty revert, 1 revert with a reason, 2 a word, 3 nothing
    mode: u32,
    word: [u8; 32],
    reason: [u8; 5],
    seen: u32,
    x: Address,
    k: U256,
    want: U256,
    bal: fn(Address, U256) -> U256,
}
static mut RE: Recv = Recv { mode: 0, word: [0; 32], reason: [0; 5], seen: 0, x: Address::ZERO, k: U256::ZERO, want: U256::ZERO, bal: Plain::bal };
#[allow(static_mut_refs)]
extern "C" fn receiver(_i: u32) {
    let r = unsafe { RE.clone() };
    check(eq((r.bal)(r.x, r.k), r.want), "the balances have already moved when the receiver is asked");
    let m = w::choose(4);
    unsafe {
        RE.mode = m;
        RE.seen += 1;
    }
    match m {
        0 => set_return(false, &[]),
        1 => set_return(false, &r.reason),
        2 => set_return(true, &r.word),
        _ => set_return(true, &[]),
    }
}
const ONE: &[u8] = b"onERC1155Received(address,address,uint256,uint256,bytes)";
const MANY: &[u8] = b"onERC1155BatchReceived(address,address,uint256[],uint256[],bytes)";
fn list(v: &[U256]) -> Vec<u8> {
    let mut o = Vec::new();
    o.extend_from_slice(&word_u(U256::from(v.len())));
    for x in v {
        o.extend_from_slice(&word_u(*x));
    }
    o
}
fn question(op: Address, from: Address, ids: &[U256], vs: &[U256], d: &[u8]) -> Vec<u8> {
    let mut c;
    if ids.len() == 1 {
        c = calldata(ONE, &[word(op), word(from), word_u(ids[0]), word_u(vs[0]), word_u(U256::from(160))]);
    } else {
        let l = 32 * (ids.len() + 1);
        c = calldata(MANY, &[word(op), word(from), word_u(U256::from(160)), word_u(U256::from(160 + l)), word_u(U256::from(160 + 2 * l))]);
        c.extend_from_slice(&list(ids));
        c.extend_from_slice(&list(vs));
    }
    c.extend_from_slice(&tail(d));
    c
}
fn data() -> Vec<u8> {
    let len = [5usize, 0, 33][w::choose(bound("receiver data lengths: first n of {5,0,33}", 1, 3)) as usize];
    vec_be(len, "data")
}
fn check_event(i: u32, op: Address, from: Address, to: Address, ids: &[U256], vs: &[U256]) {
    if ids.len() == 1 {
        let mut d = word_u(ids[0]).to_vec();
        d.extend_from_slice(&word_u(vs[0]));
        let sig = keccak256(b"TransferSingle(address,address,address,uint256,uint256)").0;
        check_log(i, &[sig, word(op), word(from), word(to)], &d, "TransferSingle event");
    } else {
        let mut d = word_u(U256::from(64)).to_vec();
        d.extend_from_slice(&word_u(U256::from(96 + 32 * ids.len())));
        d.extend_from_slice(&list(ids));
        d.extend_from_slice(&list(vs));
        let sig = keccak256(b"TransferBatch(address,address,address,uint256[],uint256[])").0;
        check_log(i, &[sig, word(op), word(from), word(to)], &d, "TransferBatch event");
    }
}
/// 0 transfer, 1 batch transfer, 2 mint, 3 batch mint, 4 burn, 5 batch burn, 6 public burn, 7 public batch burn
fn act<M: Multi>(op: u32) {
    let (nl, nv) = if op % 2 == 0 { (1, 1) } else { lens() };
    let (sender, a, b) = (addr("sender"), addr("from"), addr("to"));
    set_sender(sender);
    let (ids, vs) = (arr(nl, &IDS), arr(nv, &VALS));
    let from = if op == 2 || op == 3 { Address::ZERO } else { a };
    let to = if op >= 4 { Address::ZERO } else { b };
    let public = (op < 2) | (op >= 6);
    // observations: an arbitrary balance, an arbitrary operator grant, an arbitrary token's supply
    let (x, k, o, p) = (addr("x"), u256("k"), addr("o"), addr("p"));
    let (bal, oper, sup, all) = (M::bal(x, k), M::oper(o, p), M::supply(k), M::all());
    let auth = !public | (from == sender) | M::oper(from, sender);
    let code = to.has_code();
    let n = nl.min(nv);
    // running balances
    let mut short = Vec::new();
    let mut have = Vec::new();
    let mut any_short = false;
    let mut ovf = false;
    let (mut grown, mut parts) = (all, U256::ZERO);
    for i in 0..n {
        let fb = M::bal(from, ids[i]);
        let tb = M::bal(to, ids[i]);
        let h = fold(fb, from, ids[i], from, to, &ids, &vs, i);
        let sh = !from.is_zero() & lt(h, vs[i]);
        let r = fold(tb, to, ids[i], from, to, &ids, &vs, i);
        let r = sel((from == to) & !from.is_zero(), wsub(r, vs[i]), r);
        ovf |= !to.is_zero() & add_ov(r, vs[i]);
        have.push(h);
        short.push(sh & !any_short);
        any_short |= sh;
        if M::SUPPLY && op >= 2 {
            let sp = M::supply(ids[i]);
            let mut run = sp;
            let mut dup = false;
            for j in 0..i {
                let hit = eq(ids[j], ids[i]);
                dup |= hit;
                run = sel(hit & (op < 4), wadd(run, vs[j]), run);
            }
            if op < 4 {
                // minting keeps every supply and the total within range
                ovf |= add_ov(run, vs[i]) | add_ov(grown, vs[i]);
                grown = wadd(grown, vs[i]);
            } else {
                // a holding is part of its token's supply, and these are parts of the total
                assume(le(fb, sp));
                let mine = sel(dup, U256::ZERO, sp);
                assume(!add_ov(parts, mine) & le(wadd(parts, mine), all));
                parts = wadd(parts, mine);
            }
        }
    }
    let equal = nl == nv;
    let d = if op < 4 { data() } else { Vec::new() };
    let want = fold(bal, x, k, from, to, &ids, &vs, n);
    unsafe { RE = Recv { mode: 0, word: b256("answer").0, reason: bytes_be("reason"), seen: 0, x, k, want, bal: M::bal } };
    on_call(receiver);
    allow_trap(ovf & equal);
    let (i, v, dd) = (ids.clone(), vs.clone(), Bytes(d.clone()));
    let r = match op {
        0 => M::transfer(from, to, i[0], v[0], dd),
        1 => M::transfer_batch(from, to, i, v, dd),
        2 => M::mint(to, i[0], v[0], dd),
        3 => M::mint_batch(to, i, v, dd),
        4 => M::burn(from, i[0], v[0]),
        5 => M::burn_batch(from, i, v),
        6 => IErc1155Burnable::burn(&mut t(), from, i[0], v[0]),
        _ => IErc1155Burnable::burn_batch(&mut t(), from, i, v),
    };
    end_expect();
    #[allow(static_mut_refs)]
    let re = unsafe { RE.clone() };
    let asked = re.seen;
    let mut magic = [0u8; 32];
    magic[..4].copy_from_slice(&keccak256(if nl == 1 { ONE } else { MANY }).0[..4]);
    check(n_calls() == asked, "no other call");
    if asked > 0 {
        check((asked == 1) & code & !to.is_zero(), "one question, to a contract");
        check(is_call(0, to, &question(sender, from, &ids, &vs, &d)), "the receiver is told the true transfer");
    }
    match r {
        Ok(()) => {
            cover("done");
            check(equal, "arrays of different lengths are refused");
            check(auth, "only the holder or its operator moves tokens");
            check(!(from.is_zero() & to.is_zero()), "address zero neither holds nor receives");
            check((op >= 4) | !to.is_zero(), "never to address zero");
            check((op == 2) | (op == 3) | !from.is_zero(), "never from address zero");
            check(!any_short & !ovf, "no balance or supply wraps around");
            check(eq(M::bal(x, k), want), "every balance is as specified");
            check(M::oper(o, p) == oper, "no operator grant changes");
            if M::SUPPLY {
                let mut sp = sup;
                let mut al = all;
                for i in 0..n {
                    let hit = eq(ids[i], k);
                    sp = sel(hit & from.is_zero(), wadd(sp, vs[i]), sp);
                    sp = sel(hit & to.is_zero(), wsub(sp, vs[i]), sp);
                    al = sel(from.is_zero(), wadd(al, vs[i]), al);
                    al = sel(to.is_zero(), wsub(al, vs[i]), al);
                }
                check(eq(M::supply(k), sp), "every token's supply is as specified");
                check(eq(M::all(), al), "the total supply is as specified");
                check(IErc1155Supply::exists(&s(), k) == !M::supply(k).is_zero(), "exists reports the supply");
            }
            check(
                !code | to.is_zero() | ((asked == 1) & (re.mode == 2) & (re.word[..4] == magic[..4])),
                "a contract must have accepted",
            );
            check(n_logs() == 1, "one event");
            check_event(0, sender, from, to, &ids, &vs);
        }
        Err(Error::InvalidReceiverWithReason(e)) => {
            cover("refused with a reason");
            check((asked == 1) & (re.mode == 1), "only when the receiver gave a reason");
            let v: Vec<u8> = Error::InvalidReceiverWithReason(e).into();
            check(bytes_eq(&v, &re.reason), "the reason is passed on");
        }
        Err(Error::InvalidReceiver(e)) => check(
            (e.receiver == to) & ((to.is_zero() & (op < 4)) | ((asked == 1) & ((re.mode != 2) | (re.word != magic)))),
            "InvalidReceiver truthful",
        ),
        Err(Error::InvalidSender(e)) => check(from.is_zero() & e.sender.is_zero() & (op != 2) & (op != 3), "InvalidSender truthful"),
        Err(Error::MissingApprovalForAll(e)) => {
            cover("not allowed");
            check(!auth & (e.operator == sender) & (e.owner == from), "MissingApprovalForAll truthful")
        }
        Err(Error::InvalidArrayLength(e)) => check(
            !equal & eq(e.ids_length, U256::from(nl)) & eq(e.values_length, U256::from(nv)),
            "InvalidArrayLength truthful",
        ),
        Err(Error::InsufficientBalance(e)) => {
            cover("too much");
            let mut ok = false;
            for i in 0..n {
                ok |= short[i] & (e.sender == from) & eq(e.balance, have[i]) & eq(e.needed, vs[i]) & eq(e.token_id, ids[i]);
            }
            check(ok & equal, "InsufficientBalance truthful");
        }
        Err(_) => check(false, "no other error"),
    }
}
h!(multi_transfer, { act::<Plain>(0) });
h!(multi_transfer_batch, { act::<Plain>(1) });
h!(multi_mint, { act::<Plain>(2) });
h!(multi_mint_batch, { act::<Plain>(3) });
h!(multi_burn, { act::<Plain>(4) });
h!(multi_burn_batch, { act::<Plain>(5) });
h!(multi_burn_public, { act::<Plain>(6) });
h!(multi_burn_batch_public, { act::<Plain>(7) });
h!(supply_transfer, { act::<Supply>(0) });
h!(supply_transfer_batch, { act::<Supply>(1) });
h!(supply_mint, { act::<Supply>(2) });
h!(supply_mint_batch, { act::<Supply>(3) });
h!(supply_burn, { act::<Supply>(4) });
h!(supply_burn_batch, { act::<Supply>(5) });

fn approve<M: Multi>() {
    let (sender, op, yes) = (addr("sender"), addr("op"), flag("yes"));
    set_sender(sender);
    let (x, k, o, p) = (addr("x"), u256("k"), addr("o"), addr("p"));
    let (bal, oper, sup, all) = (M::bal(x, k), M::oper(o, p), M::supply(k), M::all());
    match M::approve(op, yes) {
        Ok(()) => {
            cover("set");
            check(!op.is_zero(), "never address zero");
            let hit = (o == sender) & (p == op);
            check(M::oper(o, p) == ((hit & yes) | (!hit & oper)), "every grant is as specified");
            check(eq(M::bal(x, k), bal) & eq(M::supply(k), sup) & eq(M::all(), all), "no balance or supply changes");
            check(n_logs() == 1, "one event");
            let sig = keccak256(b"ApprovalForAll(address,address,bool)").0;
            check_log(0, &[sig, word(sender), word(op)], &word_u(U256::from(yes as u32)), "ApprovalForAll event");
        }
        Err(Error::InvalidOperator(e)) => check(op.is_zero() & e.operator.is_zero(), "InvalidOperator truthful"),
        Err(_) => check(false, "no other error"),
    }
    check(n_calls() == 0, "no calls");
}
h!(multi_approve, { approve::<Plain>() });
h!(supply_approve, { approve::<Supply>() });

fn views<M: Multi>() {
    let (na, ni) = [(2usize, 2usize), (1, 1), (0, 0), (2, 1), (1, 2), (3, 3)][w::choose(6) as usize];
    const A: [&str; 3] = ["a0", "a1", "a2"];
    let xs: Vec<Address> = (0..na).map(|i| addr(A[i])).collect();
    let ids = arr(ni, &IDS);
    let w0 = n_writes();
    match M::balances(xs.clone(), ids.clone()) {
        Ok(v) => {
            cover("answered");
            check((na == ni) & (v.len() == na), "one balance per pair");
            for i in 0..na.min(v.len()).min(ni) {
                check(eq(v[i], M::bal(xs[i], ids[i])), "each in its place");
            }
        }
        Err(Error::InvalidArrayLength(e)) => check(
            (na != ni) & (eq(e.ids_length, U256::from(ni)) & eq(e.values_length, U256::from(na))),
            "InvalidArrayLength truthful",
        ),
        Err(_) => check(false, "no other error"),
    }
    check((n_writes() == w0) & (n_logs() == 0) & (n_calls() == 0), "views have no effect");
}
h!(multi_views, { views::<Plain>() });
h!(supply_views, { views::<Supply>() });

// ---------------------------------------------------------------- URIs
use crate::c_nft3::{put, same, text};
fn mu() -> Erc1155MetadataUri {
    unsafe { Erc1155MetadataUri::new(U256::from(32), 0, vm()) }
}
fn us() -> Erc1155UriStorage {
    unsafe { Erc1155UriStorage::new(U256::from(40), 0, vm()) }
}
h!(multi_uri, {
    fresh_storage();
    let (id, other) = (u256("id"), u256("other"));
    assume(!eq(id, other));
    let n = bound("text lengths: first n of {0,3,31,32,40,64,65}", 4, 6);
    let common = text("common", 2);
    put(32, &common);
    check(same(&mu().uri(id), &common), "the common URI, for every id");
    let (b0, base) = (text("oldbase", 2), text("base", 3));
    us().set_base_uri(b0);
    us().set_token_uri(id, text("old", n), &mu());
    let keep = text("keep", 2);
    us().set_token_uri(other, keep.clone(), &mu());
    us().set_base_uri(base.clone());
    let l0 = n_logs();
    let u = text("uri", n);
    us().set_token_uri(id, u.clone(), &mu());
    cover("set");
    let mut want = String::new();
    if u.is_empty() {
        want.push_str(&common);
    } else {
        want.push_str(&base);
        want.push_str(&u);
    }
    check(same(&us().uri(id, &mu()), &want), "base URI followed by the token's URI, or the common URI");
    check(n_logs() == l0 + 1, "one event");
    let mut d = word_u(U256::from(32)).to_vec();
    d.extend_from_slice(&tail(want.as_bytes()));
    check_log(l0, &[keccak256(b"URI(string,uint256)").0, word_u(id)], &d, "URI event");
    let mut kept = String::new();
    if keep.is_empty() {
        kept.push_str(&common);
    } else {
        kept.push_str(&base);
        kept.push_str(&keep);
    }
    check(same(&us().uri(other, &mu()), &kept), "no other token's URI changes");
});
