//! Short Weierstrass curves: the generic point arithmetic over small fields, against the chord and
//! tangent construction in affine coordinates
use crate::{c_toy::*, w::*};
use alloc::vec::Vec;
use num_traits::Zero;
use openzeppelin_crypto::{
    arithmetic::uint::{Uint, U64},
    curve::{
        batch_inversion,
        sw::{Affine, Projective, SWCurveConfig},
        AffineRepr, CurveConfig, CurveGroup, PrimeGroup,
    },
    field::{group::AdditiveGroup, prime::PrimeField, Field},
};

macro_rules! curve {
    ($n:ident, $m:literal, $d:literal, $a:literal, $b:literal, $r:literal, $h:literal, $hi:literal, $gx:literal, $gy:literal) => {
        #[derive(Clone, Copy, PartialEq, Eq)]
        pub struct $n;
        impl CurveConfig for $n {
            type BaseField = Tf<$m, $d>;
            type ScalarField = Tf<$r, 1>;
            const COFACTOR: &'static [u64] = &[$h];
            const COFACTOR_INV: Tf<$r, 1> = Tf($hi);
        }
        impl SWCurveConfig for $n {
            const COEFF_A: Tf<$m, $d> = Tf($a);
            const COEFF_B: Tf<$m, $d> = Tf($b);
            const GENERATOR: Affine<Self> = Affine::new_unchecked(Tf($gx), Tf($gy));
        }
        impl Toy for $n {
            const M: u32 = $m;
        }
    };
}
/// gives access to the field's representation
pub trait Toy: SWCurveConfig<BaseField: Small> {
    const M: u32;
}
pub trait Small: Field {
    fn raw(self) -> u32;
    fn of(x: u32) -> Self;
}
impl<const M: u32, const D: usize> Small for Tf<M, D>
where
    Self: Field,
{
    fn raw(self) -> u32 {
        self.0
    }
    fn of(x: u32) -> Self {
        Tf(x)
    }
}
// order 12 = 4 * 3 and 10 = 2 * 5 and 8 over 7 elements; 21 = 3 * 7, 38 = 2 * 19 and 35 = 5 * 7 over 31
curve!(Z7, 7, 1, 0, 1, 3, 4, 1, 0, 1);
curve!(A7, 7, 1, 1, 4, 5, 2, 3, 0, 2);
curve!(B7, 7, 1, 1, 0, 1, 8, 0, 0, 0);
curve!(Z31, 31, 1, 0, 7, 7, 3, 5, 0, 10);
curve!(E7, 7, 3, 0, 1, 3, 4, 1, 0, 1);
curve!(A31, 31, 1, 3, 5, 19, 2, 10, 0, 6);
curve!(H31, 31, 1, 1, 8, 7, 5, 3, 0, 15);

type B<P> = <P as CurveConfig>::BaseField;

/// a point in affine coordinates
#[derive(Clone, Copy)]
struct Pt {
    inf: bool,
    x: u32,
    y: u32,
}
fn pick(c: bool, a: u32, b: u32) -> u32 {
    let m = (c as u32).wrapping_neg();
    (a & m) | (b & !m)
}
fn choose_pt(c: bool, a: Pt, b: Pt) -> Pt {
    Pt { inf: (c & a.inf) | (!c & b.inf), x: pick(c, a.x, b.x), y: pick(c, a.y, b.y) }
}
struct Fs(u32);
impl Fs {
    fn mul(&self, a: u32, b: u32) -> u32 {
        fold(self.0, a.wrapping_mul(b))
    }
    fn add(&self, a: u32, b: u32) -> u32 {
        fold(self.0, a.wrapping_add(b))
    }
    fn sub(&self, a: u32, b: u32) -> u32 {
        fold(self.0, a.wrapping_add(self.0).wrapping_sub(b))
    }
    fn inv(&self, a: u32) -> u32 {
        let (mut r, mut e, mut b) = (1, self.0 - 2, a);
        while e > 0 {
            if e & 1 == 1 {
                r = self.mul(r, b);
            }
            b = self.mul(b, b);
            e >>= 1;
        }
        r
    }
}
/// chord and tangent
fn sum<P: Toy>(p: Pt, q: Pt) -> Pt {
    let f = Fs(P::M);
    let same = (p.x == q.x) & (p.y == q.y);
    let opposite = (p.x == q.x) & (f.add(p.y, q.y) == 0);
    let n = pick(same, f.add(f.mul(3, f.mul(p.x, p.x)), P::COEFF_A.raw()), f.sub(q.y, p.y));
    let d = pick(same, f.add(p.y, p.y), f.sub(q.x, p.x));
    let l = f.mul(n, f.inv(d));
    let x = f.sub(f.sub(f.mul(l, l), p.x), q.x);
    let y = f.sub(f.mul(l, f.sub(p.x, x)), p.y);
    let r = Pt { inf: opposite, x, y };
    choose_pt(p.inf, q, choose_pt(q.inf, p, r))
}
fn elem<P: Toy>(n: &str) -> u32 {
    let x = u8_(n) as u32;
    assume(x < P::M);
    x
}
fn affine<P: Toy>(p: Pt) -> Affine<P> {
    let mut a = Affine::new_unchecked(B::<P>::of(p.x), B::<P>::of(p.y));
    a.infinity = p.inf;
    a
}
/// any projective representation of the point
fn projective<P: Toy>(p: Pt, nz: &str, nu: &str, nv: &str) -> Projective<P> {
    let f = Fs(P::M);
    let (z, u, v) = (elem::<P>(nz), elem::<P>(nu), elem::<P>(nv));
    assume((z == 0) == p.inf);
    let z2 = f.mul(z, z);
    let x = pick(p.inf, u, f.mul(p.x, z2));
    let y = pick(p.inf, v, f.mul(p.y, f.mul(z2, z)));
    Projective::new_unchecked(B::<P>::of(x), B::<P>::of(y), B::<P>::of(z))
}
fn is<P: Toy>(r: &Projective<P>, s: Pt) -> bool {
    let f = Fs(P::M);
    let (x, y, z) = (r.x.raw(), r.y.raw(), r.z.raw());
    let z2 = f.mul(z, z);
    let finite = (x == f.mul(s.x, z2)) & (y == f.mul(s.y, f.mul(z2, z)));
    (x < P::M) & (y < P::M) & (z < P::M) & ((z == 0) == s.inf) & (s.inf | finite)
}
fn is_affine<P: Toy>(a: &Affine<P>, s: Pt) -> bool {
    (a.infinity == s.inf) & (s.inf | ((a.x.raw() == s.x) & (a.y.raw() == s.y)))
}

// ---- identities over an arbitrary commutative ring (integers modulo 2^32) ----
// Jacobian coordinates: (x : y : z) is the affine point (x / z^2, y / z^3). A result is right if its
// coordinates are those of the chord and tangent construction, up to a common unit.

/// (x : y : z) = (c^2 x' : c^3 y' : c z') for c = 1, -1, 2, -2 (units in every field of odd characteristic)
fn scaled(r: [u32; 3], x: u32, y: u32, z: u32) -> bool {
    let mut ok = false;
    for c in [1u32, 2, 1u32.wrapping_neg(), 2u32.wrapping_neg()] {
        let c2 = c.wrapping_mul(c);
        ok |= (r[0] == c2.wrapping_mul(x)) & (r[1] == c2.wrapping_mul(c).wrapping_mul(y)) & (r[2] == c.wrapping_mul(z));
    }
    ok
}
fn m(a: u32, b: u32) -> u32 {
    a.wrapping_mul(b)
}
/// the tangent at (x : y : z): slope (3 x^2 + a z^4) / (2 y z)
fn tangent(a: u32, [x, y, z]: [u32; 3]) -> [u32; 3] {
    let n = m(3, m(x, x)).wrapping_add(m(a, m(m(z, z), m(z, z))));
    let d = m(2, y);
    // x3 = n^2 - 2 x d^2, y3 = n (x d^2 - x3) - y d^3, z3 = d z
    let d2 = m(d, d);
    let x3 = m(n, n).wrapping_sub(m(2, m(x, d2)));
    [x3, m(n, m(x, d2).wrapping_sub(x3)).wrapping_sub(m(y, m(d2, d))), m(d, z)]
}
/// the result of adding p and q
fn is_sum(r: [u32; 3], a: u32, p: [u32; 3], q: [u32; 3]) -> bool {
    let (z1, z2) = (m(p[2], p[2]), m(q[2], q[2]));
    let (u1, u2) = (m(p[0], z2), m(q[0], z1));
    let (s1, s2) = (m(p[1], m(z2, q[2])), m(q[1], m(z1, p[2])));
    // the chord: slope (s2 - s1) / (h z1 z2)
    let (h, n) = (u2.wrapping_sub(u1), s2.wrapping_sub(s1));
    let h2 = m(h, h);
    let x3 = m(n, n).wrapping_sub(m(h2, h)).wrapping_sub(m(2, m(u1, h2)));
    let y3 = m(n, m(u1, h2).wrapping_sub(x3)).wrapping_sub(m(s1, m(h2, h)));
    let chord = scaled(r, x3, y3, m(h, m(p[2], q[2])));
    let t = tangent(a, p);
    let tangent = scaled(r, t[0], t[1], t[2]);
    let as_p = scaled(r, p[0], p[1], p[2]);
    let as_q = scaled(r, q[0], q[1], q[2]);
    let (p0, q0) = (p[2] == 0, q[2] == 0);
    let fin = !p0 & !q0;
    (!(p0 & q0) | (r[2] == 0))
        & (!(p0 & !q0) | as_q)
        & (!(!p0 & q0) | as_p)
        & (!(fin & (u1 == u2) & (s1 == s2)) | tangent)
        & (!(fin & (u1 == u2) & (s1 != s2)) | (r[2] == 0))
        & (!(fin & (u1 != u2)) | chord)
}
macro_rules! ring {
    ($n:ident, $d:literal, $a:literal, $b:literal) => {
        #[derive(Clone, Copy, PartialEq, Eq)]
        pub struct $n;
        impl CurveConfig for $n {
            type BaseField = Tf<0, $d>;
            type ScalarField = Tf<7, 1>;
            const COFACTOR: &'static [u64] = &[1];
            const COFACTOR_INV: Tf<7, 1> = Tf(1);
        }
        impl SWCurveConfig for $n {
            const COEFF_A: Tf<0, $d> = Tf($a);
            const COEFF_B: Tf<0, $d> = Tf($b);
            const GENERATOR: Affine<Self> = Affine::new_unchecked(Tf(0), Tf(0));
        }
        impl Toy for $n {
            const M: u32 = 0;
        }
    };
}
ring!(Ra0, 1, 0, 7);
ring!(Ra5, 1, 5, 11);
ring!(Rb0, 1, 3, 0);
ring!(Re3, 3, 0, 7);

fn coords<P: Toy>(n: [&str; 3]) -> Projective<P> {
    Projective::new_unchecked(B::<P>::of(u32_(n[0])), B::<P>::of(u32_(n[1])), B::<P>::of(u32_(n[2])))
}
fn xyz<P: Toy>(p: &Projective<P>) -> [u32; 3] {
    [p.x.raw(), p.y.raw(), p.z.raw()]
}
/// an affine point, or the one at infinity, with the projective triple that it stands for
fn apoint<P: Toy>(n: [&str; 2], inf: bool) -> (Affine<P>, [u32; 3]) {
    let mut a = Affine::new_unchecked(B::<P>::of(u32_(n[0])), B::<P>::of(u32_(n[1])));
    a.infinity = inf;
    (a, [a.x.raw(), a.y.raw(), !inf as u32])
}
fn adds<P: Toy>() {
    linear(true);
    let a = P::COEFF_A.raw();
    let p = coords::<P>(["px", "py", "pz"]);
    let k = choose(6);
    let (q, r) = if k < 2 {
        let q = coords::<P>(["qx", "qy", "qz"]);
        (
            xyz(&q),
            match k {
                0 => p + q,
                _ => {
                    let mut c = p;
                    c += &q;
                    c
                }
            },
        )
    } else {
        let (q, t) = apoint::<P>(["qx", "qy"], choose(2) == 1);
        (
            t,
            match k {
                2 => p + q,
                3 => q + p,
                4 => {
                    let mut c = p;
                    c += q;
                    c
                }
                _ => [q].iter().fold(p, |c, x| c + x),
            },
        )
    };
    check(is_sum(xyz(&r), a, xyz(&p), q), "sum of two points");
    cover("added");
}
fn subs<P: Toy>() {
    linear(true);
    let a = P::COEFF_A.raw();
    let neg = |t: [u32; 3]| [t[0], t[1].wrapping_neg(), t[2]];
    let (ok, _) = match choose(4) {
        0 => {
            let (p, q) = (coords::<P>(["px", "py", "pz"]), coords::<P>(["qx", "qy", "qz"]));
            (is_sum(xyz(&(p - q)), a, xyz(&p), neg(xyz(&q))), ())
        }
        1 => {
            let p = coords::<P>(["px", "py", "pz"]);
            let (q, t) = apoint::<P>(["qx", "qy"], choose(2) == 1);
            (is_sum(xyz(&(p - q)), a, xyz(&p), neg(t)), ())
        }
        2 => {
            let (p, t) = apoint::<P>(["px", "py"], choose(2) == 1);
            let q = coords::<P>(["qx", "qy", "qz"]);
            let r = xyz(&(p - q));
            (is_sum(r, a, t, neg(xyz(&q))) | is_sum(r, a, neg(xyz(&q)), t), ())
        }
        _ => {
            let (p, t) = apoint::<P>(["px", "py"], choose(2) == 1);
            let (q, s) = apoint::<P>(["qx", "qy"], choose(2) == 1);
            (is_sum(xyz(&(p - q)), a, t, neg(s)), ())
        }
    };
    check(ok, "difference of two points");
    cover("subtracted");
}
fn double<P: Toy>() {
    linear(true);
    let a = P::COEFF_A.raw();
    let p = coords::<P>(["px", "py", "pz"]);
    let r = match choose(2) {
        0 => p.double(),
        _ => {
            let mut c = p;
            c.double_in_place();
            c
        }
    };
    let (t, z) = (tangent(a, xyz(&p)), p.z.raw() == 0);
    check((!z | (r.z.raw() == 0)) & (z | scaled(xyz(&r), t[0], t[1], t[2])), "double of a point");
    let n = xyz(&-p);
    check((n[0] == p.x.raw()) & (n[1] == p.y.raw().wrapping_neg()) & (n[2] == p.z.raw()), "negative of a point");
    let (s, t) = apoint::<P>(["qx", "qy"], choose(2) == 1);
    let n = -s;
    check((n.x.raw() == t[0]) & (n.y.raw() == t[1].wrapping_neg()) & (n.infinity == s.infinity), "negative of an affine point");
    check(Projective::<P>::zero().z.raw() == 0, "zero");
    check(p.is_zero() == z, "is_zero");
    cover("doubled");
}
fn equal<P: Toy>() {
    linear(true);
    let p = coords::<P>(["px", "py", "pz"]);
    let a = xyz(&p);
    let (got, b) = match choose(3) {
        0 => {
            let q = coords::<P>(["qx", "qy", "qz"]);
            (p == q, xyz(&q))
        }
        k => {
            let (q, t) = apoint::<P>(["qx", "qy"], choose(2) == 1);
            (if k == 1 { p == q } else { q == p }, t)
        }
    };
    let (z1, z2) = (m(a[2], a[2]), m(b[2], b[2]));
    let cross = (m(a[0], z2) == m(b[0], z1)) & (m(a[1], m(z2, b[2])) == m(b[1], m(z1, a[2])));
    let (p0, q0) = (a[2] == 0, b[2] == 0);
    check(got == ((p0 & q0) | (!p0 & !q0 & cross)), "equality of points");
    cover("compared");
}
/// the curve equation, for any pair of coordinates
fn membership<P: Toy>() {
    linear(true);
    let (s, t) = apoint::<P>(["x", "y"], choose(2) == 1);
    let rhs = m(t[0], m(t[0], t[0])).wrapping_add(m(P::COEFF_A.raw(), t[0])).wrapping_add(P::COEFF_B.raw());
    check(s.is_on_curve() == (s.infinity | (m(t[1], t[1]) == rhs)), "curve equation");
    cover("tested");
}

// ---- over small fields ----
fn convert<P: Toy>(x: u32, y: u32, order: usize) {
    let v = multiples::<P>(x, y, order);
    let (k, l) = (u8_("k") as u32, u8_("l") as u32);
    assume((k as usize) < order && (l as usize) < order);
    let (p, q) = (nth(&v, k), nth(&v, l));
    let s = affine::<P>(p);
    match choose(3) {
        0 => {
            let a = projective::<P>(p, "pz", "pu", "pv");
            check(is_affine(&a.into_affine(), p), "affine form");
        }
        1 => {
            let (a, b) = (projective::<P>(p, "pz", "pu", "pv"), projective::<P>(q, "qz", "qu", "qv"));
            let v = P7::<P>::normalize_batch(&[a, b]);
            check(v.len() == 2 && is_affine(&v[0], p) && is_affine(&v[1], q), "normalize_batch");
        }
        _ => {
            check(is(&s.into_group(), p), "projective form");
            check(s.is_zero() == p.inf, "is_zero");
            check(s.xy().is_none() == p.inf, "coordinates");
            if let Some((x, y)) = s.xy() {
                check(x.raw() == p.x && y.raw() == p.y, "coordinates");
            }
        }
    }
    cover("converted");
}
type P7<P> = Projective<P>;
/// the multiples of the curve's base point, all concrete
fn multiples<P: Toy>(x: u32, y: u32, n: usize) -> Vec<Pt> {
    let g = Pt { inf: false, x, y };
    let mut v = Vec::from([Pt { inf: true, x: 0, y: 0 }]);
    while v.len() < n {
        v.push(sum::<P>(v[v.len() - 1], g));
    }
    v
}
/// the k-th of a list of points
fn nth(v: &[Pt], k: u32) -> Pt {
    let mut r = v[0];
    for (i, p) in v.iter().enumerate() {
        r = choose_pt(k == i as u32, *p, r);
    }
    r
}
/// multiples of the point (x, y) of the given order
fn scalar<P: Toy>(x: u32, y: u32, order: usize) {
    merge(false);
    let n = bound("scalar bits", 6, 8);
    let k = u8_("k") as u32;
    assume(k < 1 << n);
    let v = multiples::<P>(x, y, 1 << n);
    check(!v[order - 1].inf && v[order].inf, "the order");
    let want = nth(&v, k);
    let p = v[1];
    let r = match choose(3) {
        0 => Projective::<P>::from(affine::<P>(p)).mul_bigint(k as u8),
        1 => affine::<P>(p).mul_bigint(k as u8),
        _ => Projective::<P>::from(affine::<P>(p)).mul_bits_be((0..8u32).rev().map(|i| k & (1 << i) != 0)),
    };
    check(is(&r, want), "multiple of a point");
    cover("multiplied");
}
/// points of a cyclic group of r h elements generated by (x, y)
fn groups<P: Toy>(x: u32, y: u32, r: u32, h: u32) {
    let k = u8_("k") as u32;
    assume(k < r * h);
    let v = multiples::<P>(x, y, (r * h) as usize);
    let p = nth(&v, k);
    let a = affine::<P>(p);
    match choose(3) {
        0 => check(a.is_in_correct_subgroup_assuming_on_curve() == (k * r % (r * h) == 0), "subgroup membership"),
        1 => check(is(&a.mul_by_cofactor_to_group(), nth(&v, k * h % (r * h))), "multiple by the cofactor"),
        _ => check(is_affine(&a.clear_cofactor(), nth(&v, k * h % (r * h))), "cleared cofactor"),
    }
    check(Projective::<P>::generator().into_affine() == P::GENERATOR, "generator");
    cover("groups");
}
fn inversions<const M: u32>()
where
    Tf<M, 1>: Field,
{
    let f = Fs(M);
    let mut v = Vec::new();
    let n = choose(3 + bound("more", 0, 1));
    for i in 0..n as usize {
        let x = u8_(["v0", "v1", "v2", "v3"][i]) as u32;
        assume(x < M);
        v.push(Tf::<M, 1>(x));
    }
    let w = v.clone();
    batch_inversion(&mut v);
    for i in 0..n as usize {
        check(v[i].0 == pick(w[i].0 == 0, 0, f.inv(w[i].0)), "inverse of each");
    }
    cover("inverted");
}
/// powers of a ring element, and sums of products
fn powers(e: u64, top: bool) {
    linear(false);
    let (x, y, z, t) = (u32_("x"), u32_("y"), u32_("z"), u32_("t"));
    let mut want = 1u32;
    for _ in 0..e {
        want = want.wrapping_mul(x);
    }
    let b = Tf::<0, 3>(x);
    let r = match choose(4) {
        0 => b.pow(e as u8),
        1 => b.pow(e),
        2 => b.pow([e, 0].as_slice()),
        _ => b.pow(Uint::<2>::new([e, 0])),
    };
    check(r.0 == want, "power");
    if top {
        // x^(e 2^64) of x = 1 and x = 0
        check(Tf::<0, 3>(1).pow(Uint::<2>::new([0, e])).0 == 1, "power of one");
        check(Tf::<0, 3>(0).pow(Uint::<2>::new([0, e])).0 == 0, "power of zero");
    }
    let s = Tf::<0, 3>::sum_of_products(&[Tf(x), Tf(y)], &[Tf(z), Tf(t)]);
    check(s.0 == x.wrapping_mul(z).wrapping_add(y.wrapping_mul(t)), "sum of products");
    cover("powers");
}

macro_rules! all {
    ($c:ident: $($n:ident $f:ident),*) => { $( h!($n, { $f::<$c>() }); )* };
}
all!(Ra0: cv_a0_add adds, cv_a0_sub subs, cv_a0_dbl double, cv_a0_eq equal, cv_a0_mem membership);
all!(Ra5: cv_a5_add adds, cv_a5_sub subs, cv_a5_dbl double, cv_a5_mem membership);
all!(Rb0: cv_b0_mem membership);
all!(Re3: cv_e3_dbl double);
h!(cv_conv, { convert::<A7>(0, 2, 10) });
h!(cv_mul_a0, { scalar::<Z7>(2, 3, 6) });
h!(cv_mul_a, { scalar::<A7>(0, 2, 10) });
h!(cv_grp, { groups::<A7>(0, 2, 5, 2) });
h!(cv_inv7, { inversions::<7>() });
h!(cv_pow, { powers(choose(33 + bound("larger exponents", 0, 100)) as u64, false) });
h!(cv_pow_big, { powers([1, 127, 200, 255][choose(4) as usize], true) });
