//! Fixed-width big integers of the crypto library, against the 256- to 448-bit integers of alloy
use crate::w::{self, *};
use alloc::{vec, vec::Vec};
use alloy_primitives::Uint as Ref;
use core::cmp::Ordering;
use openzeppelin_crypto::{
    arithmetic::{
        uint::{from_str_hex, from_str_radix, Uint, WideUint},
        BigInteger,
    },
    bits::BitIteratorBE,
};

fn pair<const B: usize, const N: usize>(n: &str) -> (Uint<N>, Ref<B, N>) {
    let mut l = [0u64; N];
    unsafe { raw::sym_le(l.as_mut_ptr() as *mut u8, 8 * N, n.as_ptr(), n.len()) };
    (Uint::new(l), Ref::from_limbs(l))
}
fn same<const B: usize, const N: usize>(a: &Uint<N>, b: &Ref<B, N>) -> bool {
    let mut d = 0;
    for i in 0..N {
        d |= a.as_limbs()[i] ^ b.as_limbs()[i];
    }
    d == 0
}
fn arith<const B: usize, const N: usize>() {
    let ((a, ra), (b, rb)) = (pair::<B, N>("a"), pair::<B, N>("b"));
    let (s, c) = ra.overflowing_add(rb);
    let (x, y) = a.ct_checked_add(&b);
    check(same(&x, &s) & (y == c), "checked addition");
    let mut m = a;
    let y = m.checked_add_assign(&b);
    check(same(&m, &s) & (y == c), "checked addition in place");
    check(same(&a.ct_wrapping_add(&b), &s), "wrapping addition");
    let (x, y) = a.ct_adc(&b, 0);
    check(same(&x, &s) & (y == c as u64), "addition with carry");
    let (d, c) = ra.overflowing_sub(rb);
    let (x, y) = a.ct_checked_sub(&b);
    check(same(&x, &d) & (y == c), "checked subtraction");
    let mut m = a;
    let y = m.checked_sub_assign(&b);
    check(same(&m, &d) & (y == c), "checked subtraction in place");
    check(same(&a.ct_wrapping_sub(&b), &d), "wrapping subtraction");
    let mut m = a;
    let y = m.checked_mul2_assign();
    check(same(&m, &ra.wrapping_shl(1)) & (y == (a.as_limbs()[N - 1] >> 63 == 1)), "doubling");
    let mut m = a;
    m.div2_assign();
    check(same(&m, &ra.wrapping_shr(1)), "halving");
    check(same(&(a ^ b), &(ra ^ rb)) & same(&(a & b), &(ra & rb)) & same(&(a | b), &(ra | rb)) & same(&!a, &!ra), "bitwise operations");
    cover("arithmetic");
    expect_trap(ra.overflowing_add(rb).1);
    let x = a.ct_add(&b);
    end_expect();
    check(same(&x, &s), "addition");
}
fn compare<const B: usize, const N: usize>() {
    let ((a, ra), (b, rb)) = (pair::<B, N>("a"), pair::<B, N>("b"));
    let (l, g) = (ra < rb, rb < ra);
    check(a.ct_lt(&b) == l, "less than");
    check(a.ct_gt(&b) == g, "greater than");
    check(a.ct_le(&b) == !g, "at most");
    check(a.ct_ge(&b) == !l, "at least");
    check(a.ct_eq(&b) == (!l & !g), "equal");
    check(a.ct_ne(&b) == (l | g), "different");
    check((a == b) == (!l & !g), "equality");
    let o = a.cmp(&b);
    check((o == Ordering::Less) == l, "ordering: less");
    check((o == Ordering::Greater) == g, "ordering: greater");
    check(a.partial_cmp(&b) == Some(o), "ordering: total");
    check(a.is_zero() == ra.is_zero(), "zero test");
    check(a.is_odd() == (a.as_limbs()[0] & 1 == 1), "odd");
    check(a.is_even() == (a.as_limbs()[0] & 1 == 0), "even");
    cover("comparisons");
}
fn bits<const B: usize, const N: usize>() {
    let (a, _) = pair::<B, N>("a");
    let at = |i: usize| i < 64 * N && a.as_limbs()[i / 64] >> (i % 64) & 1 == 1;
    let mut it = a.bit_be_iter();
    let mut ok = true;
    for i in (0..64 * N).rev() {
        ok &= it.next() == Some(at(i));
    }
    check(ok & it.next().is_none(), "the bits from the highest to the lowest");
    let mut ok = true;
    for i in 0..64 * N + 2 {
        ok &= a.get_bit(i) == at(i);
    }
    check(ok & !a.get_bit(usize::MAX), "single bits");
    let by = a.into_bytes_le();
    check(by.len() == 8 * N, "byte length");
    let mut ok = true;
    for i in 0..8 * N {
        ok &= by[i] == (a.as_limbs()[i / 8] >> (8 * (i % 8))) as u8;
    }
    check(ok, "little-endian bytes");
    check(Uint::<N>::from_bytes_le(&by) == a, "bytes and back");
    cover("bits");
}
fn width<const B: usize, const N: usize>() {
    // the width of a number whose highest set bit is k
    let k = w::choose(64 * N as u32 + 1) as usize;
    let (a, _) = pair::<B, N>("a");
    let mut l = *a.as_limbs();
    for i in 0..N {
        let keep = if k >= 64 * (i + 1) { u64::MAX } else if k <= 64 * i { 0 } else { (1u64 << (k - 64 * i)) - 1 };
        l[i] &= keep;
        if k > 64 * i && k <= 64 * (i + 1) {
            l[i] |= 1 << (k - 1 - 64 * i);
        }
    }
    let a = Uint::<N>::new(l);
    check(a.num_bits() == k, "bit length");
    let mut n = 0;
    let mut first = true;
    for b in a.bit_be_trimmed_iter() {
        if n == 0 {
            first = b;
        }
        n += 1;
    }
    check((n == k) & first, "leading zeros are trimmed");
    cover("width");
}
fn convert<const N: usize>() {
    let v = u64_("v");
    let z = |u: Uint<N>, lo: u64, hi: u64| {
        let mut ok = u.as_limbs()[0] == lo;
        for i in 1..N {
            ok &= u.as_limbs()[i] == if i == 1 { hi } else { 0 };
        }
        ok
    };
    check(z(Uint::from(v), v, 0), "from u64");
    check(z(Uint::from(v as u32), v as u32 as u64, 0), "from u32");
    check(z(Uint::from(v as u16), v as u16 as u64, 0), "from u16");
    check(z(Uint::from(v as u8), v as u8 as u64, 0), "from u8");
    check(z(Uint::from(v as usize), v as usize as u64, 0), "from usize");
    check(z(Uint::ZERO, 0, 0) & z(Uint::ONE, 1, 0) & (!Uint::<N>::MAX == Uint::ZERO), "constants");
    let h = u64_("h");
    cover("conversions");
    expect_trap((N == 1) & (h != 0));
    let u = Uint::<N>::from((h as u128) << 64 | v as u128);
    end_expect();
    check(z(u, v, h), "from u128");
}
macro_rules! sizes {
    ($($n:literal $b:literal $a:ident $c:ident $i:ident $w:ident $v:ident)*) => {$(
        h!($a, { arith::<$b, $n>() });
        h!($c, { compare::<$b, $n>() });
        h!($i, { bits::<$b, $n>() });
        h!($w, { width::<$b, $n>() });
        h!($v, { convert::<$n>() });
    )*};
}
sizes! {
    1 64 big_arith_1 big_compare_1 big_bits_1 big_width_1 big_convert_1
    2 128 big_arith_2 big_compare_2 big_bits_2 big_width_2 big_convert_2
    4 256 big_arith_4 big_compare_4 big_bits_4 big_width_4 big_convert_4
    7 448 big_arith_7 big_compare_7 big_bits_7 big_width_7 big_convert_7
}
// parsing: every digit string of the bounded length, over two limbs
h!(big_parse_hex, {
    let n = w::choose(bound("hexadecimal digits", 3, 4)) as usize + 1;
    let s = vec_be(n, "s");
    let z = w::choose(2) as usize; // also with 15 zeros below, across the limb boundary
    let (mut v, mut bad) = (0u128, false);
    for &c in &s {
        let d = c.is_ascii_digit();
        let (l, u) = ((b'a'..=b'f').contains(&c), (b'A'..=b'F').contains(&c));
        bad |= !(d | l | u);
        let x = (c & 15) + if d { 0 } else { 9 };
        v = v << 4 | x as u128;
    }
    let mut t = s.clone();
    for _ in 0..15 * z {
        t.push(b'0');
        v <<= 4;
    }
    cover("parse");
    expect_trap(bad);
    let u = from_str_hex::<2>(unsafe { core::str::from_utf8_unchecked(&t) });
    end_expect();
    check(u == Uint::from_u128(v), "the value of the hexadecimal digits");
});
h!(big_parse_dec, {
    let n = w::choose(bound("decimal digits", 3, 4)) as usize + 1;
    let s = vec_be(n, "s");
    let (mut v, mut bad) = (0u64, false);
    for &c in &s {
        bad |= !c.is_ascii_digit();
        v = v * 10 + (c & 15) as u64;
    }
    cover("parse");
    expect_trap(bad);
    let u = from_str_radix::<2>(unsafe { core::str::from_utf8_unchecked(&s) }, 10);
    end_expect();
    check(u == Uint::from_u64(v), "the value of the decimal digits");
});

// the remainder of a two-limb dividend q*d + r, for some full-width divisors d and every
// remainder r < d; and of every short dividend
h!(big_rem_wide, {
    let (lo, r, q) = (u64_("lo"), u64_("r"), u64_("q"));
    let d = [u64::MAX, (1 << 63) + 1, 0xffff_ffff_0000_0001, 0xa3e1_5f20_9b7c_4d69][w::choose(4) as usize];
    let hi = w::choose(bound("dividends with a high limb below n", 4, 8)) as u64;
    let lo = if hi == 0 { lo | 1 << 63 } else { lo };
    assume((r < d) & (q < 16));
    // d * q by doubling, three limbs are never needed
    let mut v = Ref::<128, 2>::from(r);
    for i in 0..4 {
        let x = Ref::<128, 2>::from(d & (q >> i & 1).wrapping_neg()) << i;
        v = v.wrapping_add(x);
    }
    assume((v.as_limbs()[0] == lo) & (v.as_limbs()[1] == hi));
    cover("divided");
    check(WideUint::<1>::new(Uint::new([lo]), Uint::new([hi])).ct_rem(&Uint::new([d])).as_limbs()[0] == r, "the remainder");
});
h!(big_rem_short, {
    let (a, d) = (u64_("a"), u64_("d"));
    let k = w::choose(bound("dividends of fewer than n bits", 7, 11));
    // a dividend of exactly k bits
    let a = if k == 0 { 0 } else { 1 << (k - 1) | a & ((1 << (k - 1)) - 1) };
    assume((d < 1 << 16) & (d != 0));
    let x = WideUint::<2>::new(Uint::new([a, 0]), Uint::ZERO);
    if k == 0 {
        cover("zero");
    }
    let r = x.ct_rem(&Uint::new([d, 0]));
    cover("divided");
    check((r.as_limbs()[0] == a % d) & (r.as_limbs()[1] == 0), "the remainder");
});
