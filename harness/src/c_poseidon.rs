//! Poseidon2: the permutation and the sponge, over an abstract S-box
use crate::{c_toy::*, w::*};
use alloc::vec::Vec;
use openzeppelin_crypto::poseidon2::{params::PoseidonParams, Poseidon2};

type F = Tf<0, 1>;
const fn rc<const T: usize, const R: usize>() -> [[F; T]; R] {
    let mut r = [[Tf(0); T]; R];
    let (mut i, mut x) = (0, 0x9e3779b9u32);
    while i < R {
        let mut j = 0;
        while j < T {
            x = x.wrapping_mul(1664525).wrapping_add(1013904223);
            r[i][j] = Tf(x);
            j += 1;
        }
        i += 1;
    }
    r
}
macro_rules! params {
    ($n:ident, $t:literal, $c:literal, $f:literal, $p:literal, $d:literal, $m:ident, $k:ident, $q:ident) => {
        pub struct $n;
        const $m: [[F; $t]; 1] = rc::<$t, 1>();
        const $k: [[F; $t]; $f + $p] = rc::<$t, { $f + $p }>();
        const $q: [&[F]; $f + $p] = {
            let mut r: [&[F]; $f + $p] = [&[]; $f + $p];
            let mut i = 0;
            while i < $f + $p {
                r[i] = &$k[i];
                i += 1;
            }
            r
        };
        impl PoseidonParams<F> for $n {
            const T: usize = $t;
            const D: u8 = $d;
            const CAPACITY: usize = $c;
            const ROUNDS_F: usize = $f;
            const ROUNDS_P: usize = $p;
            const MAT_INTERNAL_DIAG_M_1: &'static [F] = &$m[0];
            const ROUND_CONSTANTS: &'static [&'static [F]] = &$q;
        }
    };
}
params!(P2, 2, 1, 8, 6, 5, M2, K2, Q2);
params!(P3, 3, 1, 8, 5, 7, M3, K3, Q3);
params!(P4, 4, 2, 4, 3, 3, M4, K4, Q4);
params!(P8, 8, 2, 4, 3, 7, M8, K8, Q8);
params!(P12, 12, 4, 2, 1, 5, M12, K12, Q12);
params!(P16, 16, 1, 2, 1, 11, M16, K16, Q16);
params!(P20, 20, 4, 2, 1, 5, M20, K20, Q20);
params!(P24, 24, 8, 2, 1, 7, M24, K24, Q24);

// ---- the permutation of the Poseidon2 paper (eprint 2023/323), with explicit matrices ----
const B4: [[u32; 4]; 4] = [[5, 7, 1, 3], [4, 6, 1, 1], [1, 3, 5, 7], [1, 1, 4, 6]];
fn external(t: usize, i: usize, j: usize) -> u32 {
    match t {
        2 | 3 => 1 + (i == j) as u32,
        4 => B4[i][j],
        _ => B4[i % 4][j % 4] * (1 + (i / 4 == j / 4) as u32),
    }
}
fn internal(t: usize, i: usize, j: usize, mu: &[F]) -> u32 {
    let d = match t {
        2 => [1, 2][i],
        3 => [1, 1, 2][i],
        _ => mu[i].0,
    };
    if i == j {
        d.wrapping_add(1)
    } else {
        1
    }
}
fn apply(s: &[F], m: impl Fn(usize, usize) -> u32) -> Vec<F> {
    (0..s.len())
        .map(|i| {
            let mut a = 0u32;
            for j in 0..s.len() {
                a = a.wrapping_add(s[j].0.wrapping_mul(m(i, j)));
            }
            Tf(a)
        })
        .collect()
}
fn permutation<P: PoseidonParams<F>>(s: &mut Vec<F>) {
    let t = P::T;
    *s = apply(s, |i, j| external(t, i, j));
    for r in 0..P::ROUNDS_F + P::ROUNDS_P {
        let full = r < P::ROUNDS_F / 2 || r >= P::ROUNDS_F / 2 + P::ROUNDS_P;
        for i in 0..if full { t } else { 1 } {
            s[i] = power(s[i] + P::ROUND_CONSTANTS[r][i], P::D as u32);
        }
        *s = if full { apply(s, |i, j| external(t, i, j)) } else { apply(s, |i, j| internal(t, i, j, P::MAT_INTERNAL_DIAG_M_1)) };
    }
}

/// absorb n elements and squeeze m, in one go or one by one
fn sponge<P: PoseidonParams<F>>(n: usize, m: usize) {
    merge(false);
    linear(false);
    const N: [&str; 50] = [
        "e0", "e1", "e2", "e3", "e4", "e5", "e6", "e7", "e8", "e9", "e10", "e11", "e12", "e13", "e14", "e15", "e16", "e17",
        "e18", "e19", "e20", "e21", "e22", "e23", "e24", "e25", "e26", "e27", "e28", "e29", "e30", "e31", "e32", "e33", "e34",
        "e35", "e36", "e37", "e38", "e39", "e40", "e41", "e42", "e43", "e44", "e45", "e46", "e47", "e48", "e49",
    ];
    let x: Vec<F> = (0..n).map(|i| Tf(u32_(N[i]))).collect();
    // the specification
    let rate = P::T - P::CAPACITY;
    let mut s: Vec<F> = (0..P::T).map(|_| Tf(0)).collect();
    for (i, e) in x.iter().enumerate() {
        if i > 0 && i % rate == 0 {
            permutation::<P>(&mut s);
        }
        s[P::CAPACITY + i % rate] += e;
    }
    let mut want = Vec::new();
    for i in 0..m {
        if i % rate == 0 {
            permutation::<P>(&mut s);
        }
        want.push(s[P::CAPACITY + i % rate]);
    }
    // the code
    let mut p = Poseidon2::<P, F>::new();
    check(Poseidon2::<P, F>::state_size() == P::T, "state size");
    let got: Vec<F> = if choose(2) == 0 {
        p.absorb_batch(&x);
        p.squeeze_batch(m)
    } else {
        for e in &x {
            p.absorb(e);
        }
        (0..m).map(|_| p.squeeze()).collect()
    };
    check(got.len() == m, "as many outputs as asked for");
    for i in 0..m {
        check(got[i] == want[i], "output of the sponge");
    }
    cover("squeezed");
    if m > 0 {
        expect_trap(true);
        p.absorb(&Tf(1));
        end_expect();
    }
}
h!(pos_2, { sponge::<P2>([1, 2, 0, 3][choose(3 + bound("more", 0, 1)) as usize], 2) });
h!(pos_3, { sponge::<P3>([1, 2, 3, 0, 5][choose(4 + bound("more", 0, 1)) as usize], 3) });
h!(pos_4, { sponge::<P4>([0, 2, 3, 4, 5][choose(3 + bound("more", 0, 2)) as usize], 3) });
h!(pos_8, { sponge::<P8>([0, 3, 6, 7, 13][choose(4 + bound("more", 0, 1)) as usize], 7) });
h!(pos_12, { sponge::<P12>([0, 8, 9, 17][choose(3 + bound("more", 0, 1)) as usize], 9) });
h!(pos_16, { sponge::<P16>([15, 16][choose(1 + bound("more", 0, 1)) as usize], 16) });
h!(pos_20, { sponge::<P20>([16, 17][choose(1 + bound("more", 0, 1)) as usize], 17) });
h!(pos_24, { sponge::<P24>([16, 17][choose(1 + bound("more", 0, 1)) as usize], 17) });
