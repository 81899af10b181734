//! Prime fields of the crypto library: real moduli, every operand
use crate::w::*;
use openzeppelin_crypto::{
    arithmetic::{uint::{Uint, U256, U64}, BigInteger},
    field::{
        fp::{Fp, Fp256, Fp64, FpParams, LIMBS_256, LIMBS_64},
        group::AdditiveGroup,
        instance::*,
        prime::PrimeField,
        Field,
    },
    fp_from_num, from_num,
};

/// a 256-bit modulus without a spare bit
pub struct Full;
impl FpParams<LIMBS_256> for Full {
    const GENERATOR: Fp256<Full> = fp_from_num!("3");
    const MODULUS: U256 = from_num!("115792089237316195423570985008687907853269984665640564039457584007908834671663");
}
/// a 128-bit one
pub struct Full2;
impl FpParams<2> for Full2 {
    const GENERATOR: Fp<Full2, 2> = fp_from_num!("3");
    const MODULUS: Uint<2> = from_num!("340282366920938463463374607431768211297");
}

const NAMES: [&str; 12] = ["a0", "a1", "a2", "a3", "b0", "b1", "b2", "b3", "c0", "c1", "c2", "c3"];
fn limbs<const N: usize>(k: usize) -> [u64; N] {
    let mut l = [0u64; N];
    for i in 0..N {
        l[i] = u64_(NAMES[4 * k + i]);
    }
    l
}
/// the stored (Montgomery) form
fn raw_of<P: FpParams<N>, const N: usize>(x: &Fp<P, N>) -> [u64; N] {
    unsafe { *(x as *const Fp<P, N> as *const [u64; N]) }
}
/// any element of the field, by its stored form
fn reduced<P: FpParams<N>, const N: usize>(k: usize) -> (Fp<P, N>, [u64; N]) {
    let l = limbs::<N>(k);
    assume(lt(&l, P::MODULUS.as_limbs()));
    (Fp::new_unchecked(Uint::new(l)), l)
}

// ---- oracle arithmetic on limbs ----

fn add<const N: usize>(a: &[u64; N], b: &[u64; N]) -> ([u64; N], u64) {
    let (mut r, mut c) = ([0u64; N], 0u64);
    for i in 0..N {
        let s = a[i].wrapping_add(b[i]);
        r[i] = s.wrapping_add(c);
        c = ((s < a[i]) | (r[i] < s)) as u64;
    }
    (r, c)
}
fn sub<const N: usize>(a: &[u64; N], b: &[u64; N]) -> ([u64; N], u64) {
    let (mut r, mut c) = ([0u64; N], 0u64);
    for i in 0..N {
        let s = a[i].wrapping_sub(b[i]);
        r[i] = s.wrapping_sub(c);
        c = ((a[i] < b[i]) | (s < c)) as u64;
    }
    (r, c)
}
fn lt<const N: usize>(a: &[u64; N], b: &[u64; N]) -> bool {
    let mut r = false;
    for i in 0..N {
        r = (a[i] < b[i]) | ((a[i] == b[i]) & r);
    }
    r
}
fn pick<const N: usize>(c: bool, a: &[u64; N], b: &[u64; N]) -> [u64; N] {
    let m = (c as u64).wrapping_neg();
    let mut r = [0u64; N];
    for i in 0..N {
        r[i] = (a[i] & m) | (b[i] & !m);
    }
    r
}
fn same<const N: usize>(a: &[u64; N], b: &[u64; N]) -> bool {
    let mut d = 0;
    for i in 0..N {
        d |= a[i] ^ b[i];
    }
    d == 0
}
/// (a + b) mod p and (a - b) mod p of reduced a, b
fn plus<const N: usize>(a: &[u64; N], b: &[u64; N], p: &[u64; N]) -> [u64; N] {
    let (s, c) = add(a, b);
    let (d, bw) = sub(&s, p);
    pick((c == 1) | (bw == 0), &d, &s)
}
fn minus<const N: usize>(a: &[u64; N], b: &[u64; N], p: &[u64; N]) -> [u64; N] {
    let (d, bw) = sub(a, b);
    pick(bw == 1, &add(&d, p).0, &d)
}

fn mul<P: FpParams<N>, const N: usize>() {
    lazy(true);
    cut(P::INV);
    let ((a, ra), (b, rb)) = (reduced::<P, N>(0), reduced::<P, N>(1));
    // the variants delegate to one implementation: one limb is enough for them
    let r = match choose(if N == 1 { 3 } else { 1 }) {
        0 => a * b,
        1 => &a * &b,
        _ => {
            let mut c = a;
            c *= b;
            c
        }
    };
    check_mul(&raw_of(&r), 64 * N as u32, &ra, &rb, P::MODULUS.as_limbs(), true, "product");
    cover("product");
}
fn square<P: FpParams<N>, const N: usize>() {
    lazy(true);
    cut(P::INV);
    let (a, ra) = reduced::<P, N>(0);
    check_mul(&raw_of(&a.square()), 64 * N as u32, &ra, &ra, P::MODULUS.as_limbs(), true, "square");
    cover("square");
}
fn into<P: FpParams<N>, const N: usize>() {
    lazy(true);
    cut(P::INV);
    let mut one = [0u64; N];
    one[0] = 1;
    let (a, ra) = reduced::<P, N>(0);
    check_mul(a.into_bigint().as_limbs(), 64 * N as u32, &ra, &one, P::MODULUS.as_limbs(), true, "value of an element");
    cover("into integer");
}
/// from every integer, reduced or not. x is n R (mod p): x R = n R^2, with R^2 mod p computed by the oracle
#[no_mangle]
pub extern "C" fn field_from_goldilocks() {
    lazy(true);
    cut(GoldiLocksParam::INV);
    let p = GoldiLocksParam::MODULUS;
    let n = limbs::<1>(0);
    let x = match choose(4) {
        0 => FpGoldiLocks::from_bigint(Uint::new(n)),
        1 => FpGoldiLocks::new(Uint::new(n)),
        2 => FpGoldiLocks::from(n[0]),
        _ => FpGoldiLocks::from(Uint::new(n)),
    };
    let mut r2 = [1u64];
    for _ in 0..128 {
        r2 = plus(&r2, &r2, p.as_limbs());
    }
    check_mul(&raw_of(&x), 64, &n, &r2, p.as_limbs(), true, "element of an integer");
    cover("from integer");
}
fn linear<P: FpParams<N>, const N: usize>() {
    let ((a, ra), (b, rb)) = (reduced::<P, N>(0), reduced::<P, N>(1));
    let pm = P::MODULUS;
    let p = pm.as_limbs();
    let zero = [0u64; N];
    // (the variants delegate to one implementation: few limbs are enough for them)
    match if N == 4 { [0, 2, 4, 5, 7, 9][choose(6) as usize] } else { choose(10) } {
        0 => check(same(&raw_of(&(a + b)), &plus(&ra, &rb, p)), "sum"),
        1 => check(same(&raw_of(&(&a + &b)), &plus(&ra, &rb, p)), "sum of references"),
        2 => check(same(&raw_of(&(a - b)), &minus(&ra, &rb, p)), "difference"),
        3 => check(same(&raw_of(&(&a - &b)), &minus(&ra, &rb, p)), "difference of references"),
        4 => check(same(&raw_of(&-a), &minus(&zero, &ra, p)), "negation"),
        5 => check(same(&raw_of(&a.double()), &plus(&ra, &ra, p)), "double"),
        6 => {
            let (mut c, mut d, mut e, mut f) = (a, a, a, a);
            c += b;
            check(same(&raw_of(&c), &plus(&ra, &rb, p)), "sum in place");
            d -= b;
            check(same(&raw_of(&d), &minus(&ra, &rb, p)), "difference in place");
            e.neg_in_place();
            check(same(&raw_of(&e), &minus(&zero, &ra, p)), "negation in place");
            f.double_in_place();
            check(same(&raw_of(&f), &plus(&ra, &ra, p)), "double in place");
        }
        7 => {
            check((a == b) == same(&ra, &rb), "equality");
            use num_traits::{One, Zero};
            check(a.is_zero() == same(&ra, &zero), "zero");
            check(a.is_one() == (a == Fp::<P, N>::from_bigint(Uint::ONE)), "one");
            check(same(&raw_of(&Fp::<P, N>::zero()), &zero), "the zero");
        }
        8 => {
            let v = [a, b];
            let s = plus(&ra, &rb, p);
            check(same(&raw_of(&v.iter().sum::<Fp<P, N>>()), &s), "sum of an iterator");
            check(same(&raw_of(&v.into_iter().sum::<Fp<P, N>>()), &s), "sum of an iterator of values");
        }
        _ => {
            // the constants
            let mut r = zero;
            r[0] = 1;
            for _ in 0..64 * N {
                r = plus(&r, &r, p);
            }
            check(same(&raw_of(&Fp::<P, N>::ONE), &r), "one is R");
            let mut r2 = r;
            for _ in 0..64 * N {
                r2 = plus(&r2, &r2, p);
            }
            check(same(P::R2.as_limbs(), &r2) & same(P::R.as_limbs(), &r), "R and its square");
            check(P::INV.wrapping_mul(p[0]) == u64::MAX, "inverse of the lowest limb");
            check(P::HAS_MODULUS_SPARE_BIT == (p[N - 1] >> 63 == 0), "spare bit");
            check(same(Fp::<P, N>::MODULUS.as_limbs(), p) & same(Fp::<P, N>::characteristic().as_limbs(), p), "modulus");
        }
    }
    cover("operation");
}
macro_rules! each {
    ($($f:ident $t:ident $n:literal $($h:ident)+;)*) => {$(each!(@ $t $n $f $($h)+);)*};
    (@ $t:ident $n:literal $f:ident $a:ident $b:ident $c:ident $d:ident) => {
        #[no_mangle]
        pub extern "C" fn $a() { mul::<$t, $n>() }
        #[no_mangle]
        pub extern "C" fn $b() { square::<$t, $n>() }
        #[no_mangle]
        pub extern "C" fn $c() { into::<$t, $n>() }
        #[no_mangle]
        pub extern "C" fn $d() { linear::<$t, $n>() }
    };
}
each! {
    f GoldiLocksParam 1 field_mul_goldilocks field_sq_goldilocks field_into_goldilocks field_lin_goldilocks;
    f BabyBearParam 1 field_mul_babybear field_sq_babybear field_into_babybear field_lin_babybear;
    f BLS12Param 4 field_mul_bls12 field_sq_bls12 field_into_bls12 field_lin_bls12;
    f BN256Param 4 field_mul_bn256 field_sq_bn256 field_into_bn256 field_lin_bn256;
    f VestaParam 4 field_mul_vesta field_sq_vesta field_into_vesta field_lin_vesta;
    f PallasParam 4 field_mul_pallas field_sq_pallas field_into_pallas field_lin_pallas;
    f Full 4 field_mul_full field_sq_full field_into_full field_lin_full;
    f Full2 2 field_mul_full2 field_sq_full2 field_into_full2 field_lin_full2;
}
fn wide<const N: usize, const M: usize>() {
    lazy(true);
    let (la, lb) = (limbs::<N>(0), limbs::<N>(1));
    let (lo, hi) = Uint::new(la).ct_widening_mul(&Uint::new(lb));
    let mut r = [0u64; M];
    for i in 0..N {
        r[i] = lo.as_limbs()[i];
        r[N + i] = hi.as_limbs()[i];
    }
    let mut m = [0u64; 9];
    m[2 * N] = 1;
    check_mul(&r, 0, &la, &lb, &m[..2 * N + 1], false, "full product");
    cover("full product");
}
#[no_mangle]
pub extern "C" fn wide_mul_1() {
    wide::<1, 2>()
}
#[no_mangle]
pub extern "C" fn wide_mul_2() {
    wide::<2, 4>()
}
#[no_mangle]
pub extern "C" fn wide_mul_4() {
    wide::<4, 8>()
}
