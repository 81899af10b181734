//! Merkle proofs
use crate::w::{self, *};
use alloc::{vec, vec::Vec};
use alloy_primitives::{keccak256, B256};
use openzeppelin_crypto::{
    hash::{commutative_hash_pair, BuildHasher, Hash, Hasher},
    keccak::KeccakBuilder,
    merkle::{MultiProofError, Verifier},
};

/// keccak256 through the host, which the executor models as a collision-free function
struct Host;
struct HostHasher(Vec<u8>);
impl BuildHasher for Host {
    type Hasher = HostHasher;
    fn build_hasher(&self) -> HostHasher {
        HostHasher(Vec::new())
    }
}
impl Hasher for HostHasher {
    type Output = [u8; 32];
    fn update(&mut self, i: impl AsRef<[u8]>) {
        self.0.extend_from_slice(i.as_ref());
    }
    fn finalize(self) -> [u8; 32] {
        keccak256(&self.0).0
    }
}
fn beq(a: &[u8; 32], b: &[u8; 32]) -> bool {
    bytes_eq(a, b)
}
/// the pair hash of the specification: the smaller value first
fn pair(a: &[u8; 32], b: &[u8; 32]) -> [u8; 32] {
    word_u(sel(a > b, U(&h2(b, a)), U(&h2(a, b))))
}
fn h2(a: &[u8; 32], b: &[u8; 32]) -> [u8; 32] {
    let mut v = [0u8; 64];
    v[..32].copy_from_slice(a);
    v[32..].copy_from_slice(b);
    keccak256(v).0
}
#[allow(non_snake_case)]
fn U(a: &[u8; 32]) -> alloy_primitives::U256 {
    alloy_primitives::U256::from_be_bytes(*a)
}
fn nodes(n: usize, names: &[&str]) -> Vec<[u8; 32]> {
    (0..n).map(|i| b256(names[i]).0).collect()
}
const PN: [&str; 8] = ["p0", "p1", "p2", "p3", "p4", "p5", "p6", "p7"];
const LN: [&str; 8] = ["l0", "l1", "l2", "l3", "l4", "l5", "l6", "l7"];

h!(merkle_single, {
    let d = w::choose(bound("proof length", 6, 8) + 1) as usize;
    let (root, leaf) = (b256("root").0, b256("leaf").0);
    let proof = nodes(d, &PN);
    let got = Verifier::verify_with_builder(&proof, root, leaf, &Host);
    let mut x = leaf;
    for s in &proof {
        x = pair(&x, s);
    }
    cover("verified");
    check(got == beq(&x, &root), "accepted exactly when hashing the leaf up the proof gives the root");
});
h!(merkle_binding, {
    let d = w::choose(bound("proof length for binding", 2, 3) + 1) as usize;
    let (root, a, b) = (b256("root").0, b256("a").0, b256("b").0);
    let proof = nodes(d, &PN);
    if Verifier::verify_with_builder(&proof, root, a, &Host) && Verifier::verify_with_builder(&proof, root, b, &Host) {
        cover("both");
        check(beq(&a, &b), "a proof shows one value only");
    }
});
h!(merkle_pair, {
    let (a, b) = (b256("a").0, b256("b").0);
    let h = commutative_hash_pair(&a, &b, Host.build_hasher());
    cover("hashed");
    check((a > b) == lt(U(&b), U(&a)), "byte order is numeric order");
    check(beq(&h, &pair(&a, &b)), "keccak256 of the two values in ascending order");
    check(beq(&h, &commutative_hash_pair(&b, &a, Host.build_hasher())), "order does not matter");
});
h!(merkle_multi_sizes, {
    let m = bound("leaves and proof nodes", 4, 5);
    let (nl, np) = (w::choose(m + 1) as usize, w::choose(m + 1) as usize);
    let nf = w::choose(2 * m + 2) as usize;
    if nl + np == nf + 1 {
        return;
    }
    let r = Verifier::verify_multi_proof_with_builder(&nodes(np, &PN), &vec![flag("f"); nf], b256("root").0, &nodes(nl, &LN), &Host);
    cover("length mismatch");
    check(r == Err(MultiProofError::InvalidTotalHashes), "mismatched sizes are rejected");
});
fn multi(nl: usize) {
    let np = w::choose(bound("proof nodes", 4, 5) + 1) as usize;
    if nl + np == 0 {
        return;
    }
    let nf = nl + np - 1;
    let (proof, leaves, root) = (nodes(np, &PN), nodes(nl, &LN), b256("root").0);
    let flags: Vec<bool> = (0..nf).map(|_| w::choose(2) == 1).collect();
    // the tree the flags describe
    let mut queue: Vec<usize> = (0..nl).collect(); // node numbers waiting
    let mut val: Vec<[u8; 32]> = leaves.clone();
    let mut up: Vec<Option<(usize, [u8; 32])>> = vec![None; nl]; // parent and sibling
    let mut used = 0;
    let mut bad = nl == 0 && nf > 0;
    let mut at = 0;
    let mut why = MultiProofError::NoLeaves;
    for &f in &flags {
        if bad || at >= queue.len() {
            bad = true;
            break;
        }
        let a = queue[at];
        at += 1;
        let n = val.len();
        if f {
            if at >= queue.len() {
                bad = true;
                why = MultiProofError::InvalidRootChild;
                break;
            }
            let b = queue[at];
            at += 1;
            let h = pair(&val[a], &val[b]);
            up[a] = Some((n, val[b]));
            up[b] = Some((n, val[a]));
            val.push(h);
        } else {
            if used >= np {
                bad = true;
                why = MultiProofError::InvalidProofLength;
                break;
            }
            let h = pair(&val[a], &proof[used]);
            up[a] = Some((n, proof[used]));
            used += 1;
            val.push(h);
        }
        up.push(None);
        queue.push(n);
    }
    let r = Verifier::verify_multi_proof_with_builder(&proof, &flags, root, &leaves, &Host);
    match r {
        Err(e) => {
            cover("rejected");
            check(e == why, "the error names the defect");
            check(bad, "only ill-formed proofs are rejected with an error");
        }
        Ok(ok) => {
            check(!bad, "ill-formed proofs are rejected");
            if bad {
                return;
            }
            let top = if nf > 0 { val[val.len() - 1] } else if nl > 0 { leaves[0] } else { proof[0] };
            check(ok == beq(&top, &root), "accepted exactly when the described tree has this root");
            cover("decided");
            if nf > 0 {
                check(used == np, "every proof node is used");
                check(at == queue.len() - 1, "every leaf and every intermediate node is used");
            }
            // larger cases follow from these and merkle_pair
            for i in 0..(if nf < 2 { nl } else { 0 }) {
                let mut sib = Vec::new();
                let mut k = i;
                while let Some((p, s)) = up[k] {
                    sib.push(s);
                    k = p;
                }
                check(!ok | Verifier::verify_with_builder(&sib, root, leaves[i], &Host), "each leaf has a proof of its own");
            }
        }
    }
}
h!(merkle_multi_0, { multi(0) });
h!(merkle_multi_1, { multi(1) });
h!(merkle_multi_2, { multi(2) });
h!(merkle_multi_3, { multi(3) });
h!(merkle_multi_4, { multi(4) });
h!(merkle_keccak, {
    let b = KeccakBuilder;
    for k in [0usize, 1, 31, 32, 64, 135, 136, 137, 200, 272] {
        let d: Vec<u8> = (0..k).map(|i| (i * 7 + 3) as u8).collect();
        let mut h = b.build_hasher();
        h.update(&d[..k / 3]);
        h.update(&d[k / 3..]);
        check(beq(&h.finalize(), &keccak256(&d).0), "keccak256 of the concatenation of what was fed");
    }
    let (l, s, root) = (b256("l").0, b256("s").0, b256("root").0);
    check(Verifier::verify(&[], root, l) == beq(&root, &l), "an empty proof shows the root itself");
    cover("hashed");
    let mut x = [7u8; 32];
    let sib = [[3u8; 32], [9u8; 32], [8u8; 32]];
    for s in &sib {
        x = pair(&x, s);
    }
    check(Verifier::verify(&sib, root, [7; 32]) == beq(&root, &x), "the default hash is keccak256");
    check(Verifier::verify_multi_proof(&sib, &[false; 3], root, &[[7; 32]]) == Ok(beq(&root, &x)), "the default hash is keccak256");
    let _ = s;
});
