//! Interface to the symbolic executor (or, on replay, to the concrete host).
#![allow(dead_code)]
use alloc::vec::Vec;
use alloy_primitives::{Address, B256, U256};
use stylus_sdk::host::{WasmVM, VM};

pub mod raw {
    #[link(wasm_import_module = "wsym")]
    extern "C" {
        pub fn sym_le(p: *mut u8, n: usize, name: *const u8, nl: usize);
        pub fn sym_be(p: *mut u8, n: usize, name: *const u8, nl: usize);
        pub fn sym_u32(name: *const u8, nl: usize) -> u32;
        pub fn sym_u64(name: *const u8, nl: usize) -> u64;
        pub fn bound(name: *const u8, nl: usize, quick: u32, thorough: u32) -> u32;
        pub fn choose(n: u32) -> u32;
        pub fn assume(c: u32);
        pub fn check(c: u32, p: *const u8, n: usize);
        pub fn cover(p: *const u8, n: usize);
        pub fn expect_trap(c: u32);
        pub fn allow_trap(c: u32);
        pub fn end_expect();
        pub fn stop();
        pub fn set_sender(p: *const u8);
        pub fn set_self(p: *const u8);
        pub fn set_value(p: *const u8);
        pub fn set_timestamp(t: u64);
        pub fn set_balance(a: *const u8, v: *const u8);
        pub fn on_call(f: usize);
        pub fn set_return(status: u32, p: *const u8, n: usize);
        pub fn ret_lens(p: *const u32, n: usize);
        pub fn n_logs() -> u32;
        pub fn log_topics(i: u32) -> u32;
        pub fn log_len(i: u32) -> u32;
        pub fn log_read(i: u32, p: *mut u8);
        pub fn n_calls() -> u32;
        pub fn call_info(i: u32, tgt: *mut u8, val: *mut u8) -> u32;
        pub fn call_len(i: u32) -> u32;
        pub fn call_data(i: u32, p: *mut u8);
        pub fn call_status(i: u32) -> u32;
        pub fn call_ret_len(i: u32) -> u32;
        pub fn call_ret(i: u32, p: *mut u8);
        pub fn n_writes() -> u32;
        pub fn uf(name: *const u8, nl: usize, i: *const u8, il: usize, o: *mut u8, ol: usize);
        pub fn merge(on: u32);
        pub fn lazy(on: u32);
        pub fn cut(k: u64);
        pub fn check_mul(
            r: *const u8, rn: usize, k: u32, a: *const u8, an: usize, b: *const u8, bn: usize, m: *const u8, mn: usize,
            below: u32, p: *const u8, n: usize,
        );
        pub fn fresh_storage();
        pub fn dbg(v: u32, p: *const u8, n: usize);
        pub fn dbg_mem(q: *const u8, k: usize, p: *const u8, n: usize);
    }
}

pub fn vm() -> VM {
    VM(WasmVM {})
}

pub fn u256(n: &str) -> U256 {
    let mut b = [0u64; 4];
    unsafe { raw::sym_le(b.as_mut_ptr() as *mut u8, 32, n.as_ptr(), n.len()) };
    U256::from_limbs(b)
}
/// an unsigned integer of BITS bits (BITS a multiple of 8)
pub fn uint<const BITS: usize, const LIMBS: usize>(n: &str) -> alloy_primitives::Uint<BITS, LIMBS> {
    let mut b = [0u64; LIMBS];
    unsafe { raw::sym_le(b.as_mut_ptr() as *mut u8, BITS / 8, n.as_ptr(), n.len()) };
    alloy_primitives::Uint::from_limbs(b)
}
pub fn addr(n: &str) -> Address {
    let mut b = [0u8; 20];
    unsafe { raw::sym_be(b.as_mut_ptr(), 20, n.as_ptr(), n.len()) };
    Address::from(b)
}
pub fn b256(n: &str) -> B256 {
    let mut b = [0u8; 32];
    unsafe { raw::sym_be(b.as_mut_ptr(), 32, n.as_ptr(), n.len()) };
    B256::from(b)
}
pub fn bytes_be<const N: usize>(n: &str) -> [u8; N] {
    let mut b = [0u8; N];
    unsafe { raw::sym_be(b.as_mut_ptr(), N, n.as_ptr(), n.len()) };
    b
}
pub fn vec_be(len: usize, n: &str) -> Vec<u8> {
    let mut b = alloc::vec![0u8; len];
    unsafe { raw::sym_be(b.as_mut_ptr(), len, n.as_ptr(), n.len()) };
    b
}
pub fn u64_(n: &str) -> u64 {
    unsafe { raw::sym_u64(n.as_ptr(), n.len()) }
}
pub fn u32_(n: &str) -> u32 {
    unsafe { raw::sym_u32(n.as_ptr(), n.len()) }
}
pub fn u8_(n: &str) -> u8 {
    let mut b = [0u8; 1];
    unsafe { raw::sym_le(b.as_mut_ptr(), 1, n.as_ptr(), n.len()) };
    b[0]
}
/// symbolic bool
pub fn flag(n: &str) -> bool {
    u8_(n) & 1 != 0
}
/// explicit case split: every value below n is explored
pub fn choose(n: u32) -> u32 {
    unsafe { raw::choose(n) }
}
/// a bound of the exploration: the first value in the quick tier, the second in the thorough one
pub fn bound(n: &str, quick: u32, thorough: u32) -> u32 {
    unsafe { raw::bound(n.as_ptr(), n.len(), quick, thorough) }
}
pub fn assume(c: bool) {
    unsafe { raw::assume(c as u32) }
}
#[inline(never)]
pub fn check(c: bool, m: &str) {
    unsafe { raw::check(c as u32, m.as_ptr(), m.len()) }
}
pub fn cover(m: &str) {
    unsafe { raw::cover(m.as_ptr(), m.len()) }
}
/// from here to `end_expect`: the execution aborts exactly when c holds
pub fn expect_trap(c: bool) {
    unsafe { raw::expect_trap(c as u32) }
}
/// from here to `end_expect`: an abort is acceptable only when c holds
pub fn allow_trap(c: bool) {
    unsafe { raw::allow_trap(c as u32) }
}
pub fn end_expect() {
    unsafe { raw::end_expect() }
}
pub fn stop() {
    unsafe { raw::stop() }
}
/// a newly deployed contract: storage is zero until written (call it first)
pub fn fresh_storage() {
    unsafe { raw::fresh_storage() }
}
/// branch conditions that contain products are not sent to the solver
/// polynomials get one normal form (shifts count as multiples)
pub fn linear(lazily: bool) {
    unsafe { raw::lazy(2 | lazily as u32) }
}
pub fn lazy(on: bool) {
    unsafe { raw::lazy(on as u32) }
}
/// products with this constant are named and become cut points of the integer encoding
pub fn cut(k: u64) {
    unsafe { raw::cut(k) }
}
/// r 2^k = a b modulo m, and r < m if `below` (little-endian limbs, m constant), decided over the integers
pub fn check_mul(r: &[u64], k: u32, a: &[u64], b: &[u64], m: &[u64], below: bool, t: &str) {
    let f = |x: &[u64]| (x.as_ptr() as *const u8, 8 * x.len());
    let ((r, rn), (a, an), (b, bn), (m, mn)) = (f(r), f(a), f(b), f(m));
    unsafe { raw::check_mul(r, rn, k, a, an, b, bn, m, mn, below as u32, t.as_ptr(), t.len()) }
}
pub fn merge(on: bool) {
    unsafe { raw::merge(on as u32) }
}
pub fn set_sender(a: Address) {
    unsafe { raw::set_sender(a.as_ptr()) }
}
pub fn set_self(a: Address) {
    unsafe { raw::set_self(a.as_ptr()) }
}
pub fn set_timestamp(t: u64) {
    unsafe { raw::set_timestamp(t) }
}
pub fn set_value(v: U256) {
    let b = v.to_be_bytes::<32>();
    unsafe { raw::set_value(b.as_ptr()) }
}
pub fn set_balance(a: Address, v: U256) {
    let b = v.to_be_bytes::<32>();
    unsafe { raw::set_balance(a.as_ptr(), b.as_ptr()) }
}
pub fn on_call(f: extern "C" fn(u32)) {
    unsafe { raw::on_call(f as usize) }
}
pub fn set_return(ok: bool, d: &[u8]) {
    unsafe { raw::set_return((!ok) as u32, d.as_ptr(), d.len()) }
}
pub fn ret_lens(l: &[u32]) {
    unsafe { raw::ret_lens(l.as_ptr(), l.len()) }
}
pub fn n_logs() -> u32 {
    unsafe { raw::n_logs() }
}
pub struct Log {
    pub topics: u32,
    pub data: Vec<u8>,
}
pub fn log(i: u32) -> Log {
    unsafe {
        let n = raw::log_len(i) as usize;
        let mut v = alloc::vec![0u8; n];
        raw::log_read(i, v.as_mut_ptr());
        Log { topics: raw::log_topics(i), data: v }
    }
}
pub fn n_calls() -> u32 {
    unsafe { raw::n_calls() }
}
pub struct Call {
    /// 0 call, 1 static call, 2 delegate call
    pub kind: u32,
    pub target: Address,
    pub value: U256,
    pub data: Vec<u8>,
    pub ok: bool,
    pub ret: Vec<u8>,
}
pub fn call(i: u32) -> Call {
    unsafe {
        let mut t = [0u8; 20];
        let mut v = [0u8; 32];
        let kind = raw::call_info(i, t.as_mut_ptr(), v.as_mut_ptr());
        let mut data = alloc::vec![0u8; raw::call_len(i) as usize];
        raw::call_data(i, data.as_mut_ptr());
        let mut ret = alloc::vec![0u8; raw::call_ret_len(i) as usize];
        raw::call_ret(i, ret.as_mut_ptr());
        Call {
            kind,
            target: Address::from(t),
            value: U256::from_be_bytes(v),
            data,
            ok: raw::call_status(i) == 0,
            ret,
        }
    }
}
pub fn n_writes() -> u32 {
    unsafe { raw::n_writes() }
}
pub fn uf32(n: &str, i: &[u8]) -> [u8; 32] {
    let mut o = [0u8; 32];
    unsafe { raw::uf(n.as_ptr(), n.len(), i.as_ptr(), i.len(), o.as_mut_ptr(), 32) };
    o
}
pub fn dbg(v: u32, m: &str) {
    unsafe { raw::dbg(v, m.as_ptr(), m.len()) }
}
pub fn dbgm(v: &[u8], m: &str) {
    unsafe { raw::dbg_mem(v.as_ptr(), v.len(), m.as_ptr(), m.len()) }
}

// ---- branch-free helpers, so that specifications do not multiply paths ----

/// c ? a : b on 256-bit values
pub fn sel(c: bool, a: U256, b: U256) -> U256 {
    let m = (c as u64).wrapping_neg();
    let (x, y) = (a.as_limbs(), b.as_limbs());
    let mut o = [0u64; 4];
    for i in 0..4 {
        o[i] = (x[i] & m) | (y[i] & !m);
    }
    U256::from_limbs(o)
}
pub fn eq(a: U256, b: U256) -> bool {
    let (x, y) = (a.as_limbs(), b.as_limbs());
    ((x[0] ^ y[0]) | (x[1] ^ y[1]) | (x[2] ^ y[2]) | (x[3] ^ y[3])) == 0
}
pub fn le(a: U256, b: U256) -> bool {
    a <= b
}
pub fn lt(a: U256, b: U256) -> bool {
    a < b
}
pub fn aeq(a: Address, b: Address) -> bool {
    a == b
}
pub fn bytes_eq(a: &[u8], b: &[u8]) -> bool {
    a.len() == b.len() && a == b
}
pub fn add_ov(a: U256, b: U256) -> bool {
    a.overflowing_add(b).1
}
pub fn wadd(a: U256, b: U256) -> U256 {
    a.wrapping_add(b)
}
pub fn wsub(a: U256, b: U256) -> U256 {
    a.wrapping_sub(b)
}
pub fn word(a: Address) -> [u8; 32] {
    let mut o = [0u8; 32];
    o[12..].copy_from_slice(a.as_slice());
    o
}
pub fn word_u(v: U256) -> [u8; 32] {
    v.to_be_bytes::<32>()
}
/// log i equals the given topics and data
pub fn check_log(i: u32, topics: &[[u8; 32]], data: &[u8], m: &str) {
    if i >= n_logs() {
        check(false, m);
        return;
    }
    let l = log(i);
    let ok = l.topics as usize == topics.len() && l.data.len() == 32 * topics.len() + data.len();
    check(ok, m);
    if !ok {
        return;
    }
    let mut v = Vec::with_capacity(l.data.len());
    for t in topics {
        v.extend_from_slice(t);
    }
    v.extend_from_slice(data);
    check(bytes_eq(&l.data, &v), m);
}

pub fn calldata(sig: &[u8], words: &[[u8; 32]]) -> Vec<u8> {
    let mut v = Vec::new();
    v.extend_from_slice(&alloy_primitives::keccak256(sig).0[..4]);
    for w in words {
        v.extend_from_slice(w);
    }
    v
}
/// call i goes to `token`, carries no value and exactly this data
pub fn is_call(i: u32, token: Address, data: &[u8]) -> bool {
    let c = call(i);
    (c.target == token) & (c.kind < 2) & c.value.is_zero() & bytes_eq(&c.data, data)
}
/// ABI encoding of a trailing `bytes` argument: length word, content, padding
pub fn tail(d: &[u8]) -> Vec<u8> {
    let mut v = Vec::new();
    v.extend_from_slice(&word_u(U256::from(d.len())));
    v.extend_from_slice(d);
    while v.len() % 32 != 0 {
        v.push(0);
    }
    v
}
/// an address as a number, for branch-free selection
pub fn num(a: Address) -> U256 {
    U256::from_be_bytes(word(a))
}
pub fn asel(c: bool, a: Address, b: Address) -> U256 {
    sel(c, num(a), num(b))
}
