//! ERC-721 extensions: consecutive minting, enumeration, URIs, wrapper
use crate::c_nft::{self as n, Nft, Snap, R};
use crate::{nft_impl, w::{self, *}};
use alloc::{string::String, vec, vec::Vec};
use alloy_primitives::{keccak256, Address, Uint, U256};
use openzeppelin_stylus::token::erc721::{
    self,
    extensions::{
        consecutive, enumerable, wrapper, Erc721Consecutive, Erc721Enumerable, Erc721Metadata, Erc721UriStorage,
        Erc721Wrapper, IErc721Enumerable,
    },
    Erc721, Error, IErc721,
};
use stylus_sdk::{abi::Bytes, prelude::*, storage::*, types::AddressVM};

type U96 = Uint<96, 2>;
pub fn c() -> Erc721Consecutive {
    unsafe { Erc721Consecutive::new(U256::ZERO, 0, vm()) }
}
fn unwrap(e: consecutive::Error) -> Error {
    match e {
        consecutive::Error::Erc721(e) => e,
        _ => {
            check(false, "no batch minting error here");
            stop();
            unreachable!()
        }
    }
}
fn cell(base: U256, i: usize) -> U256 {
    let slot = U256::from_be_bytes(keccak256(word_u(base)).0);
    unsafe { StorageU256::new(wadd(slot, U256::from(i)), 0, vm()) }.get()
}
fn mask96() -> U256 {
    (U256::from(1) << 96) - U256::from(1)
}
/// the batches minted so far: (last id, owner), in order; first id
pub struct Batches {
    n: usize,
    last: Vec<U256>,
    to: Vec<U256>,
    first: U256,
}
impl Batches {
    fn read() -> Batches {
        let n = unsafe { CN };
        let (mut last, mut to) = (Vec::new(), Vec::new());
        for i in 0..n {
            let x = cell(U256::from(4), i);
            last.push(x & mask96());
            to.push(x >> 96);
        }
        let f = unsafe { StorageUint::<96, 2>::new(U256::from(6), 20, vm()) }.get();
        Batches { n, last, to, first: U256::from(f) }
    }
    /// (was minted in a batch, to whom)
    fn owner(&self, id: U256) -> U256 {
        let mut r = U256::ZERO;
        for i in (0..self.n).rev() {
            r = sel(le(id, self.last[i]), self.to[i], r);
        }
        sel(lt(id, self.first), U256::ZERO, r)
    }
    fn next(&self) -> U256 {
        if self.n == 0 { self.first } else { self.last[self.n - 1] + U256::from(1) }
    }
}
static mut CN: usize = 0;
fn burned(id: U256) -> bool {
    let m = unsafe { StorageMap::<U256, StorageU256>::new(U256::from(5), 0, vm()) }.get(id >> 8);
    (m & (U256::from(1) << (id & U256::from(255)))) != U256::ZERO
}
fn raw_owner(id: U256) -> Address {
    unsafe { StorageMap::<U256, StorageAddress>::new(U256::ZERO, 0, vm()) }.get(id)
}
pub struct Cons;
impl Cons {
    fn batches(max: u32) {
        let k = w::choose(max + 1) as usize;
        unsafe {
            CN = k;
            StorageU256::new(U256::from(4), 0, vm()).set(U256::from(k));
        }
        let b = Batches::read();
        let mut prev = b.first;
        for i in 0..k {
            // batches are not empty, in order, and went to somebody
            assume(le(prev, b.last[i]) & !b.to[i].is_zero());
            prev = b.last[i] + U256::from(1);
        }
        assume(lt(prev, U256::from(1) << 96));
    }
}
impl Nft for Cons {
    fn setup() {
        Cons::batches(bound("batches minted before", 1, 3));
    }
    fn fresh(name: &str) -> U256 {
        let n = w::choose(bound("token id modulo 256: first n of {255,0,9}", 2, 3));
        let low = [255u64, 0, 9][n as usize];
        (u256(name) << 8) | U256::from(low)
    }
    nft_impl!(c(), unwrap);
}
h!(cons_owner, {
    Cons::batches(bound("batches minted before", 2, 4));
    let id = u256("id");
    let b = Batches::read();
    let (r, q) = (raw_owner(id), burned(id));
    let o = b.owner(id);
    let e = sel(!r.is_zero(), num(r), sel(q, U256::ZERO, o));
    w::merge(false);
    let got = c()._owner_of(id);
    check(eq(num(got), e), "recorded owner, else the batch owner unless burned");
    if !got.is_zero() {
        cover("owned");
    }
});
h!(cons_mint_batch, {
    Cons::batches(bound("batches minted before", 2, 4));
    let (to, size) = (addr("to"), uint::<96, 2>("size"));
    let max = unsafe { StorageUint::<96, 2>::new(U256::from(6), 8, vm()) }.get();
    let b = Batches::read();
    let (next, m) = (b.next(), U256::from(size));
    // ids stay below 2^96
    assume(lt(next + m, U256::from(1) << 96));
    assume(lt(Cons::bal(to), U256::from(1) << 128));
    let s = n::snap::<Cons>();
    // ids not minted yet have no record (single minting starts only after construction)
    assume(lt(s.k, next) | (raw_owner(s.k).is_zero() & !burned(s.k)));
    match c()._mint_consecutive(to, size) {
        Ok(f) => {
            cover("minted");
            check(eq(U256::from(f), next), "returns the first id of the batch");
            let z = size.is_zero();
            check(z | (!to.is_zero() & (size <= max)), "succeeds only when allowed");
            unsafe { CN = b.n + !z as usize };
            let hit = le(next, s.k) & lt(s.k, next + m);
            check(eq(num(Cons::own(s.k)), asel(hit, to, s.own)), "exactly the batch belongs to the receiver");
            check(Cons::appr(s.k) == s.appr, "no approval changes");
            check(eq(Cons::bal(s.x), sel((s.x == to) & !to.is_zero(), wadd(s.bal, m), s.bal)), "balances count the batch");
            check(Cons::oper(s.o, s.s) == s.oper, "no grant changes");
            check(n_logs() == !z as u32, "one event");
            if !z {
                let tp = keccak256(b"ConsecutiveTransfer(uint256,uint256,address,address)").0;
                let last = next + m - U256::from(1);
                check_log(0, &[tp, word_u(next), [0; 32], word(to)], &word_u(last), "ConsecutiveTransfer event");
            }
        }
        Err(consecutive::Error::Erc721(Error::InvalidReceiver(e))) => {
            check(to.is_zero() & e.receiver.is_zero() & !size.is_zero(), "InvalidReceiver truthful")
        }
        Err(consecutive::Error::ExceededMaxBatchMint(e)) => {
            cover("too many");
            check((size > max) & eq(e.batch_size, m) & eq(e.max_batch, U256::from(max)), "limit truthful")
        }
        Err(_) => check(false, "no other error"),
    }
});
h!(cons_transfer_from, { n::transfer_from::<Cons>() });
h!(cons_internal_transfer, { n::internal::<Cons>(0) });
h!(cons_mint, { n::internal::<Cons>(1) });
h!(cons_burn, { n::internal::<Cons>(2) });
h!(cons_update, { n::update::<Cons>(None) });
h!(cons_approve, { n::approve::<Cons>(false) });
h!(cons_approve_internal, { n::approve::<Cons>(true) });
h!(cons_approve_all, { n::approve_all::<Cons>() });
h!(cons_views, { n::views::<Cons>() });
h!(cons_safe_transfer_from, { n::safe::<Cons>(0) });
h!(cons_safe_transfer_from_data, { n::safe::<Cons>(1) });
h!(cons_safe_transfer_internal, { n::safe::<Cons>(2) });
h!(cons_safe_mint, { n::safe::<Cons>(3) });
