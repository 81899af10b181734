//! Small coefficient structures for the generic code of the crypto library: the prime fields of 7
//! and 31 elements (with a chosen extension degree, which selects between two doubling formulas)
//! and the ring of integers modulo 2^32 whose powers are an uninterpreted function.
use crate::w::*;
use core::{
    cmp::Ordering,
    fmt::{Debug, Display, Formatter},
    iter::{Product, Sum},
    ops::*,
};
use num_traits::{One, Zero};
use openzeppelin_crypto::{
    arithmetic::uint::{Uint, U64},
    bits::BitIteratorBE,
    field::{group::AdditiveGroup, prime::PrimeField, Field},
};
use zeroize::Zeroize;

/// M = 2^k - 1 prime: the field of M elements. M = 0: integers modulo 2^32.
#[derive(Clone, Copy, Default, PartialEq, Eq, Hash)]
pub struct Tf<const M: u32, const D: usize>(pub u32);

const fn bits(m: u32) -> u32 {
    32 - m.leading_zeros()
}
#[inline(always)]
pub fn fold(m: u32, t: u32) -> u32 {
    let t = (t & m).wrapping_add(t >> bits(m));
    let t = (t & m).wrapping_add(t >> bits(m));
    // t <= m
    t & ((t == m) as u32).wrapping_sub(1)
}
#[inline(always)]
fn add<const M: u32>(a: u32, b: u32) -> u32 {
    if M == 0 {
        a.wrapping_add(b)
    } else {
        fold(M, a.wrapping_add(b))
    }
}
#[inline(always)]
fn neg<const M: u32>(a: u32) -> u32 {
    if M == 0 {
        a.wrapping_neg()
    } else {
        fold(M, M.wrapping_sub(a))
    }
}
#[inline(always)]
fn mul<const M: u32>(a: u32, b: u32) -> u32 {
    if M == 0 {
        a.wrapping_mul(b)
    } else {
        fold(M, a.wrapping_mul(b))
    }
}
impl<const M: u32, const D: usize> Tf<M, D> {
    /// the inverse, zero for zero
    pub fn inv(self) -> Self {
        // Fermat
        let (mut r, mut e, mut b) = (1, M - 2, self.0);
        while e > 0 {
            if e & 1 == 1 {
                r = mul::<M>(r, b);
            }
            b = mul::<M>(b, b);
            e >>= 1;
        }
        Tf(r)
    }
}

macro_rules! op {
    ($t:ident $f:ident $ta:ident $fa:ident |$a:ident, $b:ident| $e:expr) => {
        impl<const M: u32, const D: usize> $t<Tf<M, D>> for Tf<M, D> {
            type Output = Self;
            #[inline(always)]
            fn $f(self, o: Self) -> Self {
                let ($a, $b) = (self.0, o.0);
                Tf($e)
            }
        }
        impl<'a, const M: u32, const D: usize> $t<&'a Tf<M, D>> for Tf<M, D> {
            type Output = Self;
            #[inline(always)]
            fn $f(self, o: &'a Self) -> Self {
                $t::$f(self, *o)
            }
        }
        impl<'a, const M: u32, const D: usize> $t<&'a mut Tf<M, D>> for Tf<M, D> {
            type Output = Self;
            #[inline(always)]
            fn $f(self, o: &'a mut Self) -> Self {
                $t::$f(self, *o)
            }
        }
        impl<const M: u32, const D: usize> $ta<Tf<M, D>> for Tf<M, D> {
            #[inline(always)]
            fn $fa(&mut self, o: Self) {
                *self = $t::$f(*self, o);
            }
        }
        impl<'a, const M: u32, const D: usize> $ta<&'a Tf<M, D>> for Tf<M, D> {
            #[inline(always)]
            fn $fa(&mut self, o: &'a Self) {
                *self = $t::$f(*self, *o);
            }
        }
        impl<'a, const M: u32, const D: usize> $ta<&'a mut Tf<M, D>> for Tf<M, D> {
            #[inline(always)]
            fn $fa(&mut self, o: &'a mut Self) {
                *self = $t::$f(*self, *o);
            }
        }
    };
}
op!(Add add AddAssign add_assign |a, b| add::<M>(a, b));
op!(Sub sub SubAssign sub_assign |a, b| add::<M>(a, neg::<M>(b)));
op!(Mul mul MulAssign mul_assign |a, b| mul::<M>(a, b));
op!(Div div DivAssign div_assign |a, b| mul::<M>(a, Tf::<M, D>(b).inv().0));

impl<const M: u32, const D: usize> Neg for Tf<M, D> {
    type Output = Self;
    #[inline(always)]
    fn neg(self) -> Self {
        Tf(neg::<M>(self.0))
    }
}
impl<const M: u32, const D: usize> Zero for Tf<M, D> {
    fn zero() -> Self {
        Tf(0)
    }
    fn is_zero(&self) -> bool {
        self.0 == 0
    }
}
impl<const M: u32, const D: usize> One for Tf<M, D> {
    fn one() -> Self {
        Tf(1)
    }
}
macro_rules! fold_iter {
    ($t:ident $f:ident $o:ident $g:ident $z:expr) => {
        impl<const M: u32, const D: usize> $t<Self> for Tf<M, D> {
            fn $f<I: Iterator<Item = Self>>(i: I) -> Self {
                i.fold(Tf($z), $o::$g)
            }
        }
        impl<'a, const M: u32, const D: usize> $t<&'a Self> for Tf<M, D> {
            fn $f<I: Iterator<Item = &'a Self>>(i: I) -> Self {
                i.fold(Tf($z), $o::$g)
            }
        }
    };
}
fold_iter!(Sum sum Add add 0);
fold_iter!(Product product Mul mul 1);
macro_rules! from {
    ($($t:ty)*) => {$(
        impl<const M: u32, const D: usize> From<$t> for Tf<M, D> {
            fn from(x: $t) -> Self {
                Tf(if M == 0 { x as u32 } else { (x as i128).rem_euclid(M as i128) as u32 })
            }
        }
    )*};
}
from!(u128 u64 u32 u16 u8 i128 i64 i32 i16 i8 bool);
impl<const M: u32, const D: usize> From<U64> for Tf<M, D> {
    fn from(x: U64) -> Self {
        x.as_limbs()[0].into()
    }
}
impl<const M: u32, const D: usize> From<Tf<M, D>> for U64 {
    fn from(x: Tf<M, D>) -> U64 {
        Uint::new([x.0 as u64])
    }
}
impl<const M: u32, const D: usize> Zeroize for Tf<M, D> {
    fn zeroize(&mut self) {
        self.0 = 0;
    }
}
impl<const M: u32, const D: usize> Debug for Tf<M, D> {
    fn fmt(&self, _: &mut Formatter<'_>) -> core::fmt::Result {
        Ok(())
    }
}
impl<const M: u32, const D: usize> Display for Tf<M, D> {
    fn fmt(&self, _: &mut Formatter<'_>) -> core::fmt::Result {
        Ok(())
    }
}
impl<const M: u32, const D: usize> Ord for Tf<M, D> {
    fn cmp(&self, o: &Self) -> Ordering {
        self.0.cmp(&o.0)
    }
}
impl<const M: u32, const D: usize> PartialOrd for Tf<M, D> {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
macro_rules! field {
    ($m:literal $d:literal $($pow:item)?) => {
        impl Field for Tf<$m, $d> {
            const ONE: Self = Tf(1);
            fn extension_degree() -> usize {
                $d
            }
            fn square(&self) -> Self {
                *self * *self
            }
            fn square_in_place(&mut self) -> &mut Self {
                *self = *self * *self;
                self
            }
            fn inverse(&self) -> Option<Self> {
                if self.0 == 0 {
                    None
                } else {
                    Some(self.inv())
                }
            }
            fn inverse_in_place(&mut self) -> Option<&mut Self> {
                if self.0 == 0 {
                    return None;
                }
                *self = self.inv();
                Some(self)
            }
            $($pow)?
        }
        impl AdditiveGroup for Tf<$m, $d> {
            type Scalar = Self;
            const ZERO: Self = Tf(0);
        }
        impl PrimeField for Tf<$m, $d> {
            type BigInt = U64;
            const MODULUS: U64 = Uint::new([$m]);
            const MODULUS_BIT_SIZE: usize = 32;
            fn from_bigint(r: U64) -> Self {
                r.into()
            }
            fn into_bigint(self) -> U64 {
                self.into()
            }
        }
    };
}
field!(7 1);
field!(7 3);
field!(31 1);
field!(31 3);
field!(3 1);
field!(1 1);
field!(5 1);
field!(19 1);
field!(0 3);
field!(0 1
    fn pow<S: BitIteratorBE>(&self, exp: S) -> Self {
        power(*self, exp.bit_be_iter().fold(0u32, |e, b| e << 1 | b as u32))
    }
);
/// the power as an arbitrary function of base and exponent
pub fn power<const M: u32, const D: usize>(x: Tf<M, D>, e: u32) -> Tf<M, D> {
    let mut i = [0u8; 8];
    i[..4].copy_from_slice(&x.0.to_le_bytes());
    i[4..].copy_from_slice(&e.to_le_bytes());
    let o = uf32("power", &i);
    Tf(u32::from_le_bytes([o[0], o[1], o[2], o[3]]))
}
