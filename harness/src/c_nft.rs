//! ERC-721: the plain token and the consecutive extension are held to one specification
use crate::w::{self, *};
use alloc::{vec, vec::Vec};
use alloy_primitives::{keccak256, Address, Uint, U256};
use openzeppelin_stylus::token::erc721::{
    extensions::{consecutive, Erc721Consecutive, IErc721Burnable},
    Erc721, Error, IErc721,
};
use stylus_sdk::{abi::Bytes, prelude::*, storage::*, types::AddressVM};

pub type R = Result<(), Error>;
pub trait Nft {
    fn setup();
    /// no representation limits are hit by touching this token
    fn token(_id: U256) {}
    /// a token id
    fn fresh(name: &str) -> U256 {
        u256(name)
    }
    fn own(id: U256) -> Address;
    fn bal(x: Address) -> U256;
    fn appr(id: U256) -> Address;
    fn oper(o: Address, s: Address) -> bool;
    fn owner_of(id: U256) -> Result<Address, Error>;
    fn balance_of(x: Address) -> Result<U256, Error>;
    fn get_approved(id: U256) -> Result<Address, Error>;
    fn transfer_from(f: Address, t: Address, id: U256) -> R;
    fn safe_transfer_from(f: Address, t: Address, id: U256) -> R;
    fn safe_transfer_from_with_data(f: Address, t: Address, id: U256, d: Bytes) -> R;
    fn approve(t: Address, id: U256) -> R;
    fn set_approval_for_all(o: Address, a: bool) -> R;
    fn update(t: Address, id: U256, auth: Address) -> Result<Address, Error>;
    fn mint(t: Address, id: U256) -> R;
    fn safe_mint(t: Address, id: U256, d: Bytes) -> R;
    fn burn(id: U256) -> R;
    fn transfer(f: Address, t: Address, id: U256) -> R;
    fn safe_transfer(f: Address, t: Address, id: U256, d: Bytes) -> R;
    fn approve_raw(t: Address, id: U256, auth: Address, emit: bool) -> R;
}
pub fn t() -> Erc721 {
    unsafe { Erc721::new(U256::ZERO, 0, vm()) }
}
pub struct Plain;
#[macro_export]
macro_rules! nft_impl {
    ($t:expr, $e:expr) => {
        fn own(id: U256) -> Address {
            $t._owner_of(id)
        }
        fn bal(x: Address) -> U256 {
            IErc721::balance_of(&$t, x).unwrap_or(U256::ZERO)
        }
        fn appr(id: U256) -> Address {
            $t._get_approved(id)
        }
        fn oper(o: Address, s: Address) -> bool {
            IErc721::is_approved_for_all(&$t, o, s)
        }
        fn owner_of(id: U256) -> Result<Address, Error> {
            IErc721::owner_of(&$t, id).map_err($e)
        }
        fn balance_of(x: Address) -> Result<U256, Error> {
            IErc721::balance_of(&$t, x).map_err($e)
        }
        fn get_approved(id: U256) -> Result<Address, Error> {
            IErc721::get_approved(&$t, id).map_err($e)
        }
        fn transfer_from(f: Address, t: Address, id: U256) -> R {
            IErc721::transfer_from(&mut $t, f, t, id).map_err($e)
        }
        fn safe_transfer_from(f: Address, t: Address, id: U256) -> R {
            IErc721::safe_transfer_from(&mut $t, f, t, id).map_err($e)
        }
        fn safe_transfer_from_with_data(f: Address, t: Address, id: U256, d: Bytes) -> R {
            IErc721::safe_transfer_from_with_data(&mut $t, f, t, id, d).map_err($e)
        }
        fn approve(t: Address, id: U256) -> R {
            IErc721::approve(&mut $t, t, id).map_err($e)
        }
        fn set_approval_for_all(o: Address, a: bool) -> R {
            IErc721::set_approval_for_all(&mut $t, o, a).map_err($e)
        }
        fn update(t: Address, id: U256, auth: Address) -> Result<Address, Error> {
            $t._update(t, id, auth).map_err($e)
        }
        fn mint(t: Address, id: U256) -> R {
            $t._mint(t, id).map_err($e)
        }
        fn safe_mint(t: Address, id: U256, d: Bytes) -> R {
            $t._safe_mint(t, id, &d).map_err($e)
        }
        fn burn(id: U256) -> R {
            $t._burn(id).map_err($e)
        }
        fn transfer(f: Address, t: Address, id: U256) -> R {
            $t._transfer(f, t, id).map_err($e)
        }
        fn safe_transfer(f: Address, t: Address, id: U256, d: Bytes) -> R {
            $t._safe_transfer(f, t, id, &d).map_err($e)
        }
        fn approve_raw(t: Address, id: U256, auth: Address, emit: bool) -> R {
            $t._approve(t, id, auth, emit).map_err($e)
        }
    };
}
impl Nft for Plain {
    fn setup() {}
    nft_impl!(t(), |e| e);
}
pub fn transfer_topic() -> [u8; 32] {
    keccak256(b"Transfer(address,address,uint256)").0
}
fn approval_topic() -> [u8; 32] {
    keccak256(b"Approval(address,address,uint256)").0
}
pub fn check_transfer(i: u32, f: Address, t: Address, id: U256) {
    check_log(i, &[transfer_topic(), word(f), word(t), word_u(id)], &[], "Transfer event");
}
/// what is observable: an arbitrary token, an arbitrary account and an arbitrary operator entry
pub struct Snap {
    pub k: U256,
    pub x: Address,
    pub o: Address,
    pub s: Address,
    pub own: Address,
    pub bal: U256,
    pub appr: Address,
    pub oper: bool,
}
pub fn snap<N: Nft>() -> Snap {
    let (k, x, o, s) = (N::fresh("k"), addr("x"), addr("o"), addr("s"));
    N::token(k);
    Snap { k, x, o, s, own: N::own(k), bal: N::bal(x), appr: N::appr(k), oper: N::oper(o, s) }
}
impl Snap {
    /// token id went from `f` to `t` and nothing else happened
    pub fn moved<N: Nft>(&self, f: Address, t: Address, id: U256) {
        let hit = eq(self.k, id);
        check(eq(num(N::own(self.k)), asel(hit, t, self.own)), "owner of every token is as specified");
        check(eq(num(N::appr(self.k)), asel(hit, Address::ZERO, self.appr)), "approval of every token is as specified");
        let d = (self.x == f) & !f.is_zero();
        let e = (self.x == t) & !t.is_zero();
        let m = sel(d, wsub(self.bal, U256::from(1)), self.bal);
        check(eq(N::bal(self.x), sel(e, wadd(m, U256::from(1)), m)), "balance of every account is as specified");
        self.same_oper::<N>();
    }
    fn same_oper<N: Nft>(&self) {
        check(N::oper(self.o, self.s) == self.oper, "every operator grant is as specified");
    }
    fn same_own<N: Nft>(&self) {
        check(N::own(self.k) == self.own, "no token changes hands");
        check(eq(N::bal(self.x), self.bal), "no balance changes");
    }
}
/// what every reachable state satisfies for the token touched: an owner has a positive balance,
/// nobody is approved for a token that does not exist or operates for address zero
pub fn inv<N: Nft>(id: U256, to: Address, op: Address) -> Address {
    N::token(id);
    let ow = N::own(id);
    assume(ow.is_zero() | !N::bal(ow).is_zero());
    assume(!ow.is_zero() | N::appr(id).is_zero());
    assume(to.is_zero() | !eq(N::bal(to), U256::MAX));
    assume(!N::oper(Address::ZERO, op));
    ow
}
pub fn authorized<N: Nft>(ow: Address, sp: Address, id: U256) -> bool {
    let (a, b) = (N::oper(ow, sp), N::appr(id));
    !sp.is_zero() & ((ow == sp) | a | (b == sp))
}
/// the condition named by the error holds and its payload is true
pub fn check_err(e: &Error, from: Address, to: Address, id: U256, ow: Address, sp: Address, auth: bool) {
    match e {
        Error::NonexistentToken(e) => check(ow.is_zero() & eq(e.token_id, id), "NonexistentToken truthful"),
        Error::InvalidReceiver(e) => check(to.is_zero() & e.receiver.is_zero(), "InvalidReceiver truthful"),
        Error::IncorrectOwner(e) => check(
            (ow != from) & (e.sender == from) & eq(e.token_id, id) & (e.owner == ow),
            "IncorrectOwner truthful",
        ),
        Error::InsufficientApproval(e) => {
            check(!auth & (e.operator == sp) & eq(e.token_id, id), "InsufficientApproval truthful")
        }
        Error::InvalidSender(_) => check(!ow.is_zero() & from.is_zero(), "InvalidSender truthful"),
        _ => check(false, "no other error"),
    }
}

pub fn transfer_from<N: Nft>() {
    N::setup();
    let (sender, from, to, id) = (addr("sender"), addr("from"), addr("to"), N::fresh("id"));
    set_sender(sender);
    assume(!sender.is_zero());
    let ow = inv::<N>(id, to, sender);
    let s = snap::<N>();
    let auth = authorized::<N>(ow, sender, id);
    match N::transfer_from(from, to, id) {
        Ok(()) => {
            cover("moved");
            check(!to.is_zero() & !ow.is_zero() & (ow == from) & auth, "succeeds only when allowed");
            s.moved::<N>(from, to, id);
            check(n_logs() == 1, "one event");
            check_transfer(0, from, to, id);
        }
        Err(e) => {
            cover("refused");
            check_err(&e, from, to, id, ow, sender, auth)
        }
    }
    check(n_calls() == 0, "calls nobody");
}
h!(nft_transfer_from, { transfer_from::<Plain>() });

/// the unauthenticated internal operations: 0 transfer, 1 mint, 2 burn
pub fn internal<N: Nft>(op: u32) {
    N::setup();
    let (from, to, id) = (addr("from"), addr("to"), N::fresh("id"));
    let (from, to) = match op {
        0 => (from, to),
        1 => (Address::ZERO, to),
        _ => (from, Address::ZERO),
    };
    let ow = inv::<N>(id, to, from);
    let s = snap::<N>();
    let r = match op {
        0 => N::transfer(from, to, id),
        1 => N::mint(to, id),
        _ => N::burn(id),
    };
    match r {
        Ok(()) => {
            cover("moved");
            check((op == 2) | !to.is_zero(), "to a real account");
            check((op == 1) == ow.is_zero(), "existing exactly when required");
            check((op == 2) | (ow == from), "from the owner");
            s.moved::<N>(ow, to, id);
            check(n_logs() == 1, "one event");
            check_transfer(0, ow, to, id);
        }
        Err(e) => {
            cover("refused");
            check((op != 2) | ow.is_zero(), "an existing token can be burned");
            check_err(&e, from, to, id, ow, from, true)
        }
    }
    check(n_calls() == 0, "calls nobody");
}
h!(nft_internal_transfer, { internal::<Plain>(0) });
h!(nft_mint, { internal::<Plain>(1) });
h!(nft_burn_internal, { internal::<Plain>(2) });

pub fn update<N: Nft>(burn: Option<fn(U256) -> R>) {
    N::setup();
    let (sender, to, id, auth) = (addr("sender"), addr("to"), N::fresh("id"), addr("auth"));
    set_sender(sender);
    let (to, auth) = if burn.is_some() { (Address::ZERO, sender) } else { (to, auth) };
    assume(burn.is_none() | !sender.is_zero());
    let ow = inv::<N>(id, to, auth);
    let s = snap::<N>();
    let ok = auth.is_zero() | authorized::<N>(ow, auth, id);
    let r = match burn {
        Some(f) => f(id).map(|_| ow),
        None => N::update(to, id, auth),
    };
    match r {
        Ok(p) => {
            cover("moved");
            check((p == ow) & ok, "only by someone authorized");
            s.moved::<N>(ow, to, id);
            check(n_logs() == 1, "one event");
            check_transfer(0, ow, to, id);
        }
        Err(e) => {
            cover("refused");
            check(!ok, "fails only without authority");
            check_err(&e, ow, Address::from([1; 20]), id, ow, auth, ok);
        }
    }
}
h!(nft_update, { update::<Plain>(None) });
h!(nft_burn, { update::<Plain>(Some(|id| IErc721Burnable::burn(&mut t(), id))) });

pub fn approve<N: Nft>(raw: bool) {
    N::setup();
    let (sender, to, id) = (addr("sender"), addr("to"), N::fresh("id"));
    let (auth, emit) = if raw { (addr("auth"), flag("emit")) } else { (sender, true) };
    set_sender(sender);
    assume(raw | !sender.is_zero());
    let ow = inv::<N>(id, Address::ZERO, auth);
    let s = snap::<N>();
    let checked = emit | !auth.is_zero();
    let may = auth.is_zero() | (ow == auth) | N::oper(ow, auth);
    let r = if raw { N::approve_raw(to, id, auth, emit) } else { N::approve(to, id) };
    match r {
        Ok(()) => {
            cover("approved");
            check(!checked | (!ow.is_zero() & may), "only the owner or an operator of the owner");
            check(eq(num(N::appr(s.k)), asel(eq(s.k, id), to, s.appr)), "exactly this approval is set");
            s.same_own::<N>();
            s.same_oper::<N>();
            check(n_logs() == emit as u32, "one event when asked for");
            if emit {
                check_log(0, &[approval_topic(), word(ow), word(to), word_u(id)], &[], "Approval event");
            }
        }
        Err(Error::NonexistentToken(e)) => check(ow.is_zero() & eq(e.token_id, id), "NonexistentToken truthful"),
        Err(Error::InvalidApprover(e)) => {
            cover("not entitled");
            check(!may & (e.approver == auth), "InvalidApprover truthful")
        }
        Err(_) => check(false, "no other error"),
    }
}
h!(nft_approve, { approve::<Plain>(false) });
h!(nft_approve_internal, { approve::<Plain>(true) });

pub fn approve_all<N: Nft>() {
    N::setup();
    let (sender, op, on) = (addr("sender"), addr("operator"), flag("on"));
    set_sender(sender);
    let s = snap::<N>();
    match N::set_approval_for_all(op, on) {
        Ok(()) => {
            cover("set");
            check(!op.is_zero(), "a real operator");
            let hit = (s.o == sender) & (s.s == op);
            check(N::oper(s.o, s.s) == ((hit & on) | (!hit & s.oper)), "exactly this grant is set");
            s.same_own::<N>();
            check(N::appr(s.k) == s.appr, "no single approval changes");
            check(n_logs() == 1, "one event");
            let tp = keccak256(b"ApprovalForAll(address,address,bool)").0;
            check_log(0, &[tp, word(sender), word(op)], &word_u(U256::from(on as u8)), "ApprovalForAll event");
        }
        Err(Error::InvalidOperator(e)) => check(op.is_zero() & e.operator.is_zero(), "InvalidOperator truthful"),
        Err(_) => check(false, "no other error"),
    }
}
h!(nft_approve_all, { approve_all::<Plain>() });

pub fn views<N: Nft>() {
    N::setup();
    let s = snap::<N>();
    let w0 = n_writes();
    match N::owner_of(s.k) {
        Ok(a) => {
            cover("owned");
            check(!s.own.is_zero() & (a == s.own), "the owner")
        }
        Err(Error::NonexistentToken(e)) => check(s.own.is_zero() & eq(e.token_id, s.k), "truthful"),
        Err(_) => check(false, "no other error"),
    }
    match N::get_approved(s.k) {
        Ok(a) => check(!s.own.is_zero() & (a == s.appr), "the approved account"),
        Err(Error::NonexistentToken(e)) => check(s.own.is_zero() & eq(e.token_id, s.k), "truthful"),
        Err(_) => check(false, "no other error"),
    }
    match N::balance_of(s.x) {
        Ok(b) => check(!s.x.is_zero() & eq(b, s.bal), "the balance"),
        Err(Error::InvalidOwner(e)) => check(s.x.is_zero() & e.owner.is_zero(), "truthful"),
        Err(_) => check(false, "no other error"),
    }
    check((n_writes() == w0) & (n_logs() == 0) & (n_calls() == 0), "views have no effect");
}
h!(nft_views, { views::<Plain>() });

// ---------------------------------------------------------------- receivers
#[derive(Clone, Copy)]
pub struct Recv {
    to: Address,
    id: U256,
    /// 0 empty revert, 1 revert with a reason, 2 a word, 3 nothing
    mode: u32,
    word: [u8; 32],
    reason: [u8; 5],
    seen: u32,
    own: fn(U256) -> Address,
}
pub static mut RE: Recv = Recv { to: Address::ZERO, id: U256::ZERO, mode: 0, word: [0; 32], reason: [0; 5], seen: 0, own: Plain::own };
extern "C" fn receiver(_i: u32) {
    let r = unsafe { RE };
    check((r.own)(r.id) == r.to, "the receiver already owns the token when it is asked");
    let m = w::choose(4);
    unsafe {
        RE.mode = m;
        RE.seen += 1;
    }
    match m {
        0 => set_return(false, &[]),
        1 => set_return(false, &r.reason),
        2 => set_return(true, &r.word),
        _ => set_return(true, &[]),
    }
}
pub const MAGIC: &[u8] = b"onERC721Received(address,address,uint256,bytes)";
pub fn magic() -> [u8; 32] {
    let mut o = [0u8; 32];
    o[..4].copy_from_slice(&keccak256(MAGIC).0[..4]);
    o
}
pub fn expect_receiver(to: Address, id: U256, own: fn(U256) -> Address) {
    unsafe { RE = Recv { to, id, mode: 0, word: b256("answer").0, reason: bytes_be("reason"), seen: 0, own } };
    on_call(receiver);
}
/// the answer a receiver gave: accepted, and the bytes of its reason when it gave one
pub fn receiver_ok() -> bool {
    let r = unsafe { RE };
    (r.mode == 2) & (r.word[..4] == magic()[..4])
}
fn receiver_bad() -> bool {
    let r = unsafe { RE };
    (r.mode != 2) | (r.word != magic())
}
pub fn check_received(i: u32, op: Address, from: Address, to: Address, id: U256, data: &[u8]) {
    let mut d = calldata(MAGIC, &[word(op), word(from), word_u(id), word_u(U256::from(128))]);
    d.extend_from_slice(&tail(data));
    check(is_call(i, to, &d), "the receiver is told the true transfer");
}
fn data() -> Vec<u8> {
    let len = [5usize, 0, 33][w::choose(bound("receiver data lengths: first n of {5,0,33}", 1, 3)) as usize];
    vec_be(len, "data")
}
/// 0 public without data, 1 public with data, 2 internal transfer, 3 mint
pub fn safe<N: Nft>(op: u32) {
    N::setup();
    let (sender, from, to, id) = (addr("sender"), addr("from"), addr("to"), N::fresh("id"));
    set_sender(sender);
    assume(!sender.is_zero());
    let from = if op == 3 { Address::ZERO } else { from };
    let ow = inv::<N>(id, to, sender);
    let s = snap::<N>();
    let auth = (op >= 2) | authorized::<N>(ow, sender, id);
    let code = to.has_code();
    let d = if op == 0 { Vec::new() } else { data() };
    expect_receiver(to, id, N::own);
    let r = match op {
        0 => N::safe_transfer_from(from, to, id),
        1 => N::safe_transfer_from_with_data(from, to, id, Bytes(d.clone())),
        2 => N::safe_transfer(from, to, id, Bytes(d.clone())),
        _ => N::safe_mint(to, id, Bytes(d.clone())),
    };
    let asked = unsafe { RE.seen };
    if asked > 0 {
        check((asked == 1) & code, "one question, to a contract");
        check_received(0, sender, from, to, id, &d);
    }
    check(n_calls() == asked, "no other call");
    match r {
        Ok(()) => {
            cover("moved");
            check(!to.is_zero() & (ow.is_zero() == (op == 3)) & (ow == from) & auth, "succeeds only when allowed");
            check(!code | ((asked == 1) & receiver_ok()), "a contract must have accepted");
            s.moved::<N>(from, to, id);
            check(n_logs() == 1, "one event");
            check_transfer(0, from, to, id);
        }
        Err(Error::InvalidReceiverWithReason(e)) => {
            cover("refused with a reason");
            let r = unsafe { RE };
            check((asked == 1) & (r.mode == 1), "only when the receiver gave a reason");
            let v: Vec<u8> = Error::InvalidReceiverWithReason(e).into();
            check(bytes_eq(&v, &r.reason), "the reason is passed on");
        }
        Err(Error::InvalidReceiver(e)) => {
            cover("refused");
            check(
                (to.is_zero() & e.receiver.is_zero()) | ((asked == 1) & receiver_bad() & (e.receiver == to)),
                "InvalidReceiver truthful",
            )
        }
        Err(e) => check_err(&e, from, to, id, ow, sender, auth),
    }
}
h!(nft_safe_transfer_from, { safe::<Plain>(0) });
h!(nft_safe_transfer_from_data, { safe::<Plain>(1) });
h!(nft_safe_transfer_internal, { safe::<Plain>(2) });
h!(nft_safe_mint, { safe::<Plain>(3) });
