//! Field inversion, division and integer conversions
use crate::w::*;
use num_traits::{One, Zero};
use openzeppelin_crypto::{
    arithmetic::{uint::{Uint, U256, U64}, BigInteger},
    field::{
        fp::{Fp, Fp64, FpParams, LIMBS_64},
        group::AdditiveGroup,
        instance::*,
        prime::PrimeField,
        Field,
    },
    fp_from_num, from_num,
};

macro_rules! small {
    ($n:ident, $p:literal) => {
        pub struct $n;
        impl FpParams<LIMBS_64> for $n {
            const GENERATOR: Fp64<$n> = fp_from_num!("3");
            const MODULUS: U64 = from_num!($p);
        }
    };
}
small!(T13, "13");
small!(T61, "61");
// 2^64 - 59: no spare bit
small!(T64, "18446744073709551557");

fn raw_of<P: FpParams<N>, const N: usize>(x: &Fp<P, N>) -> [u64; N] {
    unsafe { *(x as *const Fp<P, N> as *const [u64; N]) }
}
/// the value as a concrete number, one path for each
fn each(w: u64, n: u64) -> u64 {
    for i in 0..n {
        if w == i {
            return i;
        }
    }
    n
}
/// x R mod p in the small field
fn mont(p: u64, x: u64) -> u64 {
    let mut r = x % p;
    for _ in 0..64 {
        r = (r + r) % p;
    }
    r
}
/// every element of a small field
fn inverse<P: FpParams<1>>() {
    merge(false);
    let p = P::MODULUS.as_limbs()[0];
    let w = u8_("a") as u64;
    assume(w < p);
    let a = Fp::<P, 1>::new_unchecked(Uint::new([w]));
    let mut b = a;
    let r = match choose(2) {
        0 => a.inverse(),
        _ => b.inverse_in_place().copied(),
    };
    let i = each(w, p);
    match r {
        None => check(i == 0, "every other element has an inverse"),
        Some(r) => {
            let l = raw_of(&r)[0];
            // stored forms: a R^-1 * r R^-1 = 1, i.e. a r = R^2
            check(i != 0 && l < p && i * l % p == mont(p, mont(p, 1)), "inverse");
        }
    }
    cover("inverse");
}
/// elements of a real field whose stored form is near zero or near the modulus
fn window<P: FpParams<N>, const N: usize>(n: u64) {
    merge(false);
    let w = u8_("w") as u64;
    assume(w >= 1 && w <= n);
    let high = choose(2) == 1;
    let of = |w: u64| {
        let mut l = [0u64; N];
        l[0] = w;
        let mut x = Fp::<P, N>::new_unchecked(Uint::new(l));
        if high {
            x = -x;
        }
        x
    };
    let r = of(w).inverse();
    let i = each(w, n + 1);
    check(r.is_some(), "has an inverse");
    if let Some(r) = r {
        check(r * of(i) == Fp::ONE, "inverse");
        check(Uint::<N>::new(raw_of(&r)) < P::MODULUS, "reduced");
    }
    cover("inverse");
}
fn division<P: FpParams<1>>() {
    merge(false);
    let p = P::MODULUS.as_limbs()[0];
    let (x, y) = (u8_("a") as u64, u8_("b") as u64);
    assume(x < p && y < p);
    let (a, b) = (Fp::<P, 1>::new_unchecked(Uint::new([x])), Fp::<P, 1>::new_unchecked(Uint::new([y])));
    let i = each(y, p);
    expect_trap(i == 0);
    let q = match choose(3) {
        0 => a / b,
        1 => &a / &b,
        _ => {
            let mut c = a;
            c /= b;
            c
        }
    };
    end_expect();
    let l = raw_of(&q)[0];
    // q R^-1 * b R^-1 = a R^-1
    check(l < p && l * i % p == x * mont(p, 1) % p, "quotient");
    cover("quotient");
}
/// integers of every type
fn signed<P: FpParams<N>, const N: usize>() {
    lazy(true);
    merge(false);
    let x = u64_("x");
    macro_rules! go {
        ($t:ty) => {{
            let v = x as $t;
            assume(v != 0);
            let a = Fp::<P, N>::from(v.unsigned_abs());
            let b = -a;
            check(Fp::<P, N>::from(v) == if v > 0 { a } else { b }, stringify!($t));
            check(Fp::<P, N>::from(0 as $t) == Fp::ZERO, "zero");
        }};
    }
    match choose(6) {
        0 => go!(i64),
        1 => go!(i32),
        2 => go!(i16),
        3 => go!(i8),
        4 => {
            check(Fp::<P, N>::from(x as u32) == Fp::from(x as u32 as u64), "u32");
            check(Fp::<P, N>::from(x as u16) == Fp::from(x as u16 as u64), "u16");
            check(Fp::<P, N>::from(x as u8) == Fp::from(x as u8 as u64), "u8");
            check(Fp::<P, N>::from(x as u128) == Fp::from(x), "u128");
            check(Fp::<P, N>::from(x as i128) == Fp::from(x), "i128");
        }
        _ => {
            let b = x & 1 == 1;
            check(Fp::<P, N>::from(b) == if b { Fp::ONE } else { Fp::ZERO }, "bool");
        }
    }
    cover("converted");
}
/// element to integer types: the value, or an abort when it does not fit
fn unsigned<P: FpParams<1>>() {
    lazy(true);
    let p = P::MODULUS.as_limbs()[0];
    let w = u64_("a");
    assume(w < p);
    let a = Fp::<P, 1>::new_unchecked(Uint::new([w]));
    let v = a.into_bigint().as_limbs()[0];
    macro_rules! go {
        ($t:ty, $max:expr) => {{
            expect_trap(v as u128 > $max as u128);
            let r: $t = a.into();
            end_expect();
            check(r as u128 == v as u128, stringify!($t));
        }};
    }
    match choose(8) {
        0 => go!(u128, u128::MAX),
        1 => go!(u64, u64::MAX),
        2 => go!(u32, u32::MAX),
        3 => go!(u16, u16::MAX),
        4 => go!(u8, u8::MAX),
        5 => go!(i64, i64::MAX),
        6 => go!(i32, i32::MAX),
        _ => go!(i8, i8::MAX),
    }
    cover("converted");
}
h!(finv_13, { inverse::<T13>() });
h!(finv_61, { inverse::<T61>() });
h!(finv_64, { window::<T64, 1>(4) });
h!(finv_goldilocks, { window::<GoldiLocksParam, 1>(4) });
h!(fdiv_13, { division::<T13>() });
h!(fsigned_goldilocks, { signed::<GoldiLocksParam, 1>() });
h!(fsigned_64, { signed::<T64, 1>() });
h!(funsigned_goldilocks, { unsigned::<GoldiLocksParam>() });
h!(funsigned_babybear, { unsigned::<BabyBearParam>() });
