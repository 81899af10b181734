//! Pausable, math, bitmap, checkpoints
use crate::w::{self, *};
use alloc::{vec, vec::Vec};
use alloy_primitives::{keccak256, Address, U256};
use openzeppelin_stylus::utils::pausable::{self, Pausable};
use stylus_sdk::prelude::*;

fn p() -> Pausable {
    unsafe { Pausable::new(U256::from(3), 0, vm()) }
}
fn paused() -> bool {
    let (a, b) = (p().when_paused(), p().when_not_paused());
    check(a.is_ok() != b.is_ok(), "either paused or not");
    if let Err(x) = &a {
        check(matches!(x, pausable::Error::ExpectedPause(_)), "ExpectedPause");
    }
    if let Err(x) = &b {
        check(matches!(x, pausable::Error::EnforcedPause(_)), "EnforcedPause");
    }
    a.is_ok()
}
h!(pause, {
    let c = addr("c");
    set_sender(c);
    let was = paused();
    match p().pause() {
        Ok(()) => {
            cover("paused");
            check(!was, "pausing needs the unpaused state");
            check(paused(), "paused afterwards");
            check(n_logs() == 1, "one event");
            check_log(0, &[keccak256(b"Paused(address)").0], &word(c), "Paused event");
        }
        Err(e) => {
            cover("rejected");
            check(was & matches!(e, pausable::Error::EnforcedPause(_)), "rejected only while paused");
        }
    }
});
h!(unpause, {
    let c = addr("c");
    set_sender(c);
    let was = paused();
    match p().unpause() {
        Ok(()) => {
            cover("unpaused");
            check(was, "unpausing needs the paused state");
            check(!paused(), "not paused afterwards");
            check(n_logs() == 1, "one event");
            check_log(0, &[keccak256(b"Unpaused(address)").0], &word(c), "Unpaused event");
        }
        Err(e) => {
            cover("rejected");
            check(!was & matches!(e, pausable::Error::ExpectedPause(_)), "rejected only while not paused");
        }
    }
});

// ---------------------------------------------------------------- bitmap
use openzeppelin_stylus::utils::structs::bitmap::BitMap;
fn bm() -> BitMap {
    unsafe { BitMap::new(U256::from(9), 0, vm()) }
}
h!(bitmap_ops, {
    let (i, j) = (u256("i"), u256("j"));
    let (a, b) = (bm().get(i), bm().get(j));
    check(n_writes() == 0, "reading changes nothing");
    let op = w::choose(4);
    let on = match op {
        0 => {
            bm().set(i);
            true
        }
        1 => {
            bm().unset(i);
            false
        }
        2 => {
            bm().set_to(i, true);
            true
        }
        _ => {
            bm().set_to(i, false);
            false
        }
    };
    let _ = a;
    check(bm().get(i) == on, "the bit reads as written");
    check(bm().get(j) == (if eq(i, j) { on } else { b }), "no other bit changes");
    cover("written");
});

// ---------------------------------------------------------------- checkpoints
use alloy_primitives::U32;
use openzeppelin_stylus::utils::structs::checkpoints::{generic_size::Num, Size, Trace, S160, S208, S224};
pub trait Sym: Size {
    fn key(n: &str) -> Self::Key;
    fn val(n: &str) -> Self::Value;
    fn vz() -> Self::Value;
    fn kn(k: Self::Key) -> U256;
    fn vn(v: Self::Value) -> U256;
}
macro_rules! sym {
    ($s:ty) => {
        impl Sym for $s {
            fn key(n: &str) -> Self::Key {
                uint(n)
            }
            fn val(n: &str) -> Self::Value {
                uint(n)
            }
            fn vz() -> Self::Value {
                <Self::Value as Num>::ZERO
            }
            fn kn(k: Self::Key) -> U256 {
                U256::from(k)
            }
            fn vn(v: Self::Value) -> U256 {
                U256::from(v)
            }
        }
    };
}
sym!(S160);
sym!(S208);
sym!(S224);
fn tr<S: Size>() -> Trace<S> {
    unsafe { Trace::<S>::new(U256::from(12), 0, vm()) }
}
const KN: [&str; 12] = ["k0", "k1", "k2", "k3", "k4", "k5", "k6", "k7", "k8", "k9", "k10", "k11"];
const VN: [&str; 12] = ["v0", "v1", "v2", "v3", "v4", "v5", "v6", "v7", "v8", "v9", "v10", "v11"];
fn same<T: Ord>(a: T, b: T) -> bool {
    a == b
}
/// an arbitrary trace of n checkpoints, built with push
fn trace<S: Sym>(n: usize) -> alloc::vec::Vec<(S::Key, S::Value)> {
    unsafe { stylus_sdk::storage::StorageU256::new(U256::from(12), 0, vm()) }.set(U256::ZERO);
    let mut v: alloc::vec::Vec<(S::Key, S::Value)> = alloc::vec::Vec::new();
    for i in 0..n {
        let (k, x) = (S::key(KN[i]), S::val(VN[i]));
        if i > 0 {
            assume(v[i - 1].0 < k);
        }
        let r = tr::<S>().push(k, x);
        check(r.is_ok(), "an increasing key is accepted");
        v.push((k, x));
    }
    v
}
fn ckpt_lookup<S: Sym>(n: usize) {
    let v = trace::<S>(n);
    let q = S::key("q");
    let w0 = n_writes();
    let (mut lo, mut hi) = (U256::ZERO, U256::ZERO);
    for (k, x) in v.iter() {
        hi = sel(le(S::kn(*k), S::kn(q)), S::vn(*x), hi);
    }
    for (k, x) in v.iter().rev() {
        lo = sel(le(S::kn(q), S::kn(*k)), S::vn(*x), lo);
    }
    w::merge(false);
    let op = w::choose(4);
    match op {
        0 => check(eq(S::vn(tr::<S>().lower_lookup(q)), lo), "lower_lookup: value at the first key not below the query"),
        1 => check(eq(S::vn(tr::<S>().upper_lookup(q)), hi), "upper_lookup: value at the last key not above the query"),
        2 => check(eq(S::vn(tr::<S>().upper_lookup_recent(q)), hi), "upper_lookup_recent: the same as upper_lookup"),
        _ => {
            check(eq(tr::<S>().length(), U256::from(n)), "length");
            let z = S::vz();
            check(same(tr::<S>().latest(), if n == 0 { z } else { v[n - 1].1 }), "latest");
            match tr::<S>().latest_checkpoint() {
                None => check(n == 0, "no latest checkpoint only when empty"),
                Some((k, x)) => {
                    check(n > 0, "latest checkpoint");
                    check(same(k, v[n - 1].0) && same(x, v[n - 1].1), "latest checkpoint");
                }
            }
            for i in 0..n {
                let (k, x) = tr::<S>().at(U32::from(i));
                check(same(k, v[i].0) && same(x, v[i].1), "checkpoints read as pushed");
            }
        }
    }
    check(n_writes() == w0, "lookups change nothing");
    cover("looked up");
}
fn lens() -> usize {
    let l = [0usize, 1, 2, 3, 6, 7, 4, 5, 8, 10];
    l[w::choose(bound("trace lengths: first n of {0,1,2,3,6,7,4,5,8,10}", 6, 10)) as usize]
}
h!(ckpt_lookup_160, { ckpt_lookup::<S160>(lens()) });
h!(ckpt_lookup_208, { ckpt_lookup::<S208>(lens()) });
h!(ckpt_lookup_224, { ckpt_lookup::<S224>(lens()) });
fn ckpt_push<S: Sym>() {
    let n = w::choose(bound("pushes onto a trace of fewer than n checkpoints", 4, 6)) as usize;
    let v = trace::<S>(n);
    let (k, x) = (S::key("key"), S::val("val"));
    match tr::<S>().push(k, x) {
        Ok((a, b)) => {
            cover("pushed");
            check(same(b, x), "returns the new value");
            if n == 0 {
                check(same(a, S::vz()), "previous value of an empty trace is zero");
            } else {
                check(v[n - 1].0 <= k, "accepted only in order");
                check(same(a, v[n - 1].1), "returns the previous value");
            }
            let over = n > 0 && v[n - 1].0 == k;
            let m = if over { n } else { n + 1 };
            check(eq(tr::<S>().length(), U256::from(m)), "one checkpoint more, or the last one replaced");
            for i in 0..m {
                let (kk, xx) = tr::<S>().at(U32::from(i));
                if i == m - 1 {
                    check(same(kk, k) && same(xx, x), "the last checkpoint is the pushed one");
                } else {
                    check(same(kk, v[i].0) && same(xx, v[i].1), "history never changes");
                }
            }
        }
        Err(_) => {
            cover("out of order");
            check(n > 0, "refused only out of order");
            check(k < v[n - 1].0, "refused only out of order");
        }
    }
}
h!(ckpt_push_160, { ckpt_push::<S160>() });
h!(ckpt_push_208, { ckpt_push::<S208>() });
h!(ckpt_push_224, { ckpt_push::<S224>() });

// ---------------------------------------------------------------- math
use openzeppelin_stylus::utils::math::alloy::{Math, Rounding};
type U512 = alloy_primitives::Uint<512, 8>;
h!(math_average, {
    let (a, b) = (u256("a"), u256("b"));
    let s: U512 = (U512::from(a) + U512::from(b)) >> 1;
    check(s == U512::from(a.average(b)), "the average rounded down, without overflow");
    cover("average");
});
fn muldiv(up: bool) {
    let (a, b, d) = (u256("a"), u256("b"), u256("d"));
    let z = d.is_zero();
    let dd = sel(z, U256::from(1), d);
    let p = U512::from(a) * U512::from(b);
    let (q, r) = p.div_rem(U512::from(dd));
    let q = q + U512::from((up & !r.is_zero()) as u64);
    let l = q.as_limbs();
    let big = (l[4] | l[5] | l[6] | l[7]) != 0;
    expect_trap(z | big);
    let x = a.mul_div(b, d, if up { Rounding::Ceil } else { Rounding::Floor });
    end_expect();
    check(eq(x, U256::from_limbs([l[0], l[1], l[2], l[3]])), "the exact quotient, rounded as asked");
    cover("quotient");
}
h!(math_mul_div_floor, { muldiv(false) });
h!(math_mul_div_ceil, { muldiv(true) });
h!(math_sqrt, {
    w::merge(false);
    let b = bound("bits of the operand of sqrt", 10, 13);
    let a = U256::from(uint::<16, 1>("a"));
    assume(lt(a, U256::from(1u64 << b)));
    let r = a.sqrt();
    let x = r.as_limbs()[0];
    let y = a.as_limbs()[0];
    check(lt(r, U256::from(1u64 << b)), "no larger than the operand");
    check((x & 0xffff) * (x & 0xffff) <= y, "not above the root");
    check(((x & 0xffff) + 1) * ((x & 0xffff) + 1) > y, "not below the integer part of the root");
    cover("root");
});
