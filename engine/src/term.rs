//! Hash-consed bit-vector terms with an aggressive local simplifier.
use crate::bv::Bv;
use std::cell::RefCell;
use std::collections::HashMap;

#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub struct T(pub u32);

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum N {
    Const(Bv),
    Var(u32),
    Not(T),
    And(T, T),
    Or(T, T),
    Xor(T, T),
    /// linear combination  k + sum coef*t   (coefs nonzero, sorted by t)
    Sum(Box<[(Bv, T)]>, Bv),
    Mul(T, T),
    UDiv(T, T),
    URem(T, T),
    SDiv(T, T),
    SRem(T, T),
    Shl(T, T),
    LShr(T, T),
    AShr(T, T),
    /// most significant piece first, at least two pieces, flattened
    Concat(Box<[T]>),
    Extract(T, u32, u32),
    SExt(T),
    Eq(T, T),
    Ult(T, T),
    Slt(T, T),
    Ite(T, T, T),
    /// keccak256 of the (big-endian concatenated) bytes; value as big-endian integer
    Keccak(T),
    /// uninterpreted function
    Uf(u32, Box<[T]>),
}

pub struct Store {
    pub nodes: Vec<N>,
    pub width: Vec<u32>,
    map: HashMap<(N, u32), T>,
    pub vars: Vec<(String, u32)>,
    /// digest constant -> input constant, for concretely computed hashes
    pub known_hash: HashMap<Bv, T>,
    pub uf_names: Vec<(String, u32)>,
    varsets: HashMap<T, std::rc::Rc<Vec<u32>>>,
}

thread_local! {
    static ST: RefCell<Store> = RefCell::new(Store {
        nodes: Vec::new(), width: Vec::new(), map: HashMap::new(), vars: Vec::new(),
        known_hash: HashMap::new(), uf_names: Vec::new(), varsets: HashMap::new(),
    });
}

pub fn store<R>(f: impl FnOnce(&mut Store) -> R) -> R {
    ST.with(|s| f(&mut s.borrow_mut()))
}

fn intern(n: N, w: u32) -> T {
    store(|s| {
        // the width is part of the identity: a sign extension does not show it otherwise
        let key = (n, w);
        if let Some(t) = s.map.get(&key) {
            return *t;
        }
        let t = T(s.nodes.len() as u32);
        s.nodes.push(key.0.clone());
        s.width.push(w);
        s.map.insert(key, t);
        t
    })
}

pub fn node(t: T) -> N {
    store(|s| s.nodes[t.0 as usize].clone())
}
pub fn width(t: T) -> u32 {
    store(|s| s.width[t.0 as usize])
}
pub fn nterms() -> usize {
    store(|s| s.nodes.len())
}

pub fn cst(b: Bv) -> T {
    let w = b.w;
    intern(N::Const(b), w)
}
pub fn c(w: u32, v: u64) -> T {
    cst(Bv::new(w, v))
}
pub fn tt() -> T {
    c(1, 1)
}
pub fn ff() -> T {
    c(1, 0)
}
pub fn boolean(b: bool) -> T {
    c(1, b as u64)
}
pub fn fresh(name: &str, w: u32) -> T {
    let id = store(|s| {
        s.vars.push((name.to_string(), w));
        s.vars.len() as u32 - 1
    });
    intern(N::Var(id), w)
}
pub fn as_const(t: T) -> Option<Bv> {
    store(|s| match &s.nodes[t.0 as usize] {
        N::Const(b) => Some(b.clone()),
        _ => None,
    })
}
pub fn is_const(t: T) -> bool {
    store(|s| matches!(&s.nodes[t.0 as usize], N::Const(_)))
}
pub fn as_bool(t: T) -> Option<bool> {
    store(|s| match &s.nodes[t.0 as usize] {
        N::Const(b) => Some(b.l[0] & 1 == 1),
        _ => None,
    })
}

// ---------- concat / extract ----------

pub fn pieces(t: T) -> Vec<T> {
    match node(t) {
        N::Concat(p) => p.to_vec(),
        _ => vec![t],
    }
}

fn merge_pair(a: T, b: T) -> Option<T> {
    // a is the more significant neighbour
    let (na, nb) = (node(a), node(b));
    match (&na, &nb) {
        (N::Const(x), N::Const(y)) => Some(cst(x.concat(y))),
        (N::Extract(x, h1, l1), N::Extract(y, h2, l2)) if x == y && *l1 == *h2 + 1 => {
            Some(extract(*x, *h1, *l2))
        }
        (N::Ite(c1, a1, b1), N::Ite(c2, a2, b2)) if c1 == c2 => {
            Some(ite(*c1, concat(&[*a1, *a2]), concat(&[*b1, *b2])))
        }
        (N::Not(x), N::Not(y)) => {
            let m = merge_pair(*x, *y)?;
            Some(not(m))
        }
        _ => None,
    }
}

pub fn concat(ps: &[T]) -> T {
    let mut out: Vec<T> = Vec::new();
    let mut stack: Vec<T> = ps.iter().rev().cloned().collect();
    while let Some(p) = stack.pop() {
        if width(p) == 0 {
            continue;
        }
        if let N::Concat(q) = node(p) {
            for x in q.iter().rev() {
                stack.push(*x);
            }
            continue;
        }
        if let Some(&last) = out.last() {
            if let Some(m) = merge_pair(last, p) {
                out.pop();
                stack.push(m);
                continue;
            }
        }
        out.push(p);
    }
    if out.len() == 1 {
        return out[0];
    }
    assert!(!out.is_empty());
    let w = out.iter().map(|t| width(*t)).sum();
    intern(N::Concat(out.into_boxed_slice()), w)
}

pub fn zext(t: T, w: u32) -> T {
    let tw = width(t);
    if tw == w {
        return t;
    }
    assert!(w > tw, "zext {} -> {}", tw, w);
    concat(&[c(w - tw, 0), t])
}

pub fn sext(t: T, w: u32) -> T {
    let tw = width(t);
    if tw == w {
        return t;
    }
    match node(t) {
        N::Const(b) => return cst(b.sext(w)),
        N::Concat(p) => {
            if let Some(b) = as_const(p[0]) {
                if !b.msb() {
                    return zext(t, w);
                }
                if b.is_ones() {
                    return concat(&[cst(Bv::ones(w - tw)), t]);
                }
            }
        }
        N::SExt(x) => return sext(x, w),
        N::Ite(cc, a, b) if is_const(a) && is_const(b) => return ite(cc, sext(a, w), sext(b, w)),
        _ => {}
    }
    intern(N::SExt(t), w)
}

pub fn extract(t: T, hi: u32, lo: u32) -> T {
    let w = width(t);
    assert!(hi < w && lo <= hi, "extract {} {} of {}", hi, lo, w);
    if lo == 0 && hi == w - 1 {
        return t;
    }
    let ow = hi - lo + 1;
    match node(t) {
        N::Const(b) => return cst(b.extract(hi, lo)),
        N::Extract(x, _, l2) => return extract(x, hi + l2, lo + l2),
        N::Concat(p) => {
            let mut out = Vec::new();
            let mut top = w;
            for x in p.iter() {
                let xw = width(*x);
                let bot = top - xw; // piece covers [bot, top)
                if bot <= hi && top > lo {
                    let h = hi.min(top - 1) - bot;
                    let l = lo.max(bot) - bot;
                    out.push(extract(*x, h, l));
                }
                top = bot;
            }
            return concat(&out);
        }
        N::SExt(x) => {
            let xw = width(x);
            if hi < xw {
                return extract(x, hi, lo);
            }
            if lo < xw {
                return sext(extract(x, xw - 1, lo), ow);
            }
            return sext(extract(x, xw - 1, xw - 1), ow);
        }
        N::Not(x) => return not(extract(x, hi, lo)),
        N::And(a, b) => return and(extract(a, hi, lo), extract(b, hi, lo)),
        N::Or(a, b) => return or(extract(a, hi, lo), extract(b, hi, lo)),
        N::Xor(a, b) => return xor(extract(a, hi, lo), extract(b, hi, lo)),
        N::Ite(cc, a, b) => {
            let simple = |x: T| match node(x) {
                N::Const(_) | N::Concat(_) => true,
                _ => false,
            };
            if simple(a) || simple(b) {
                let (ea, eb) = (extract(a, hi, lo), extract(b, hi, lo));
                return ite(cc, ea, eb);
            }
        }
        N::Sum(ts, k) if lo == 0 && w <= 64 => {
            let mut acc = cst(k.extract(hi, 0));
            for (co, x) in ts.iter() {
                acc = add(acc, mul(cst(co.extract(hi, 0)), extract(*x, hi, 0)));
            }
            return acc;
        }
        N::Mul(a, b) if lo == 0 && w <= 64 => {
            return mul(extract(a, hi, 0), extract(b, hi, 0));
        }
        _ => {}
    }
    // high zero bits known?
    let mb = max_bits(t);
    if lo >= mb {
        return c(ow, 0);
    }
    if hi >= mb {
        return zext(extract(t, mb - 1, lo), ow);
    }
    intern(N::Extract(t, hi, lo), ow)
}

/// an upper bound for the number of significant bits (cheap)
pub fn max_bits(t: T) -> u32 {
    let w = width(t);
    match node(t) {
        N::Const(b) => b.bits(),
        N::Concat(p) => {
            let mut top = w;
            for x in p.iter() {
                let xw = width(*x);
                let m = match node(*x) {
                    N::Const(b) => b.bits(),
                    _ => xw,
                };
                if m > 0 {
                    return top - xw + m;
                }
                top -= xw;
            }
            0
        }
        N::Mul(a, b) => (max_bits1(a) + max_bits1(b)).min(w),
        N::UDiv(a, b) => {
            // x/0 = ones in SMT semantics: only narrow when the divisor is a nonzero constant
            match as_const(b) {
                Some(k) if !k.is_zero() => {
                    let m = max_bits1(a);
                    (m + 1).saturating_sub(k.bits()).min(w)
                }
                _ => w,
            }
        }
        N::URem(a, b) => match as_const(b) {
            Some(k) if !k.is_zero() => k.bits().min(max_bits1(a)),
            _ => max_bits1(a).max(max_bits1(b)).min(w),
        },
        N::Sum(ts, k) => {
            let mut m = k.bits();
            if ts.len() > 8 {
                return w;
            }
            for (co, x) in ts.iter() {
                m = m.max(co.bits() + max_bits1(*x));
            }
            let lg = 32 - (ts.len() as u32 + 1).leading_zeros();
            if ts.len() == 1 && k.is_zero() {
                m.min(w)
            } else {
                (m + lg).min(w)
            }
        }
        N::Ite(_, a, b) => max_bits1(a).max(max_bits1(b)),
        N::And(a, b) => max_bits1(a).min(max_bits1(b)),
        _ => w,
    }
}
fn max_bits1(t: T) -> u32 {
    // one level deep only, to stay cheap
    match node(t) {
        N::Const(_) | N::Concat(_) | N::Mul(..) | N::Sum(..) | N::URem(..) => max_bits(t),
        _ => width(t),
    }
}

// ---------- bitwise ----------

pub fn not(t: T) -> T {
    match node(t) {
        N::Const(b) => return cst(b.not()),
        N::Not(x) => return x,
        N::Concat(p) => {
            if p.iter().any(|x| is_const(*x)) {
                let v: Vec<T> = p.iter().map(|x| not(*x)).collect();
                return concat(&v);
            }
        }
        N::Ite(cc, a, b) if is_const(a) || is_const(b) => return ite(cc, not(a), not(b)),
        _ => {}
    }
    let w = width(t);
    intern(N::Not(t), w)
}

#[derive(Clone, Copy, PartialEq)]
enum BOp {
    And,
    Or,
    Xor,
}

fn bounds(t: T) -> Vec<u32> {
    // lower boundaries of the pieces, descending, excluding width itself
    let mut v = Vec::new();
    let mut top = width(t);
    for p in pieces(t) {
        let w = width(p);
        if let Some(b) = as_const(p) {
            // split constants into runs
            let mut i = w;
            let mut runs = 0;
            let mut loc = Vec::new();
            while i > 0 {
                let bit = b.bit(i - 1);
                let mut j = i - 1;
                while j > 0 && b.bit(j - 1) == bit {
                    j -= 1;
                }
                loc.push(top - w + j);
                i = j;
                runs += 1;
            }
            if runs <= 40 {
                v.extend(loc);
            } else {
                v.push(top - w);
            }
        } else {
            v.push(top - w);
        }
        top -= w;
    }
    v
}

fn bitop(op: BOp, a: T, b: T) -> T {
    let w = width(a);
    assert_eq!(w, width(b), "bitop widths");
    let (a, b) = if a <= b { (a, b) } else { (b, a) };
    if a == b {
        return match op {
            BOp::Xor => c(w, 0),
            _ => a,
        };
    }
    let (ca, cb) = (as_const(a), as_const(b));
    if let (Some(x), Some(y)) = (&ca, &cb) {
        return cst(match op {
            BOp::And => x.and(y),
            BOp::Or => x.or(y),
            BOp::Xor => x.xor(y),
        });
    }
    let (k, x) = match (&ca, &cb) {
        (Some(k), None) => (Some(k.clone()), b),
        (None, Some(k)) => (Some(k.clone()), a),
        _ => (None, a),
    };
    if let Some(k) = &k {
        if k.is_zero() {
            return match op {
                BOp::And => c(w, 0),
                _ => x,
            };
        }
        if k.is_ones() {
            return match op {
                BOp::And => x,
                BOp::Or => cst(k.clone()),
                BOp::Xor => not(x),
            };
        }
    }
    if not(a) == b {
        return match op {
            BOp::And => c(w, 0),
            _ => cst(Bv::ones(w)),
        };
    }
    if w == 1 {
        // absorption
        for (x, y) in [(a, b), (b, a)] {
            match (op, node(y)) {
                (BOp::And, N::Or(p, q)) if p == x || q == x => return x,
                (BOp::Or, N::And(p, q)) if p == x || q == x => return x,
                (BOp::And, N::And(p, q)) if p == x || q == x => return y,
                (BOp::Or, N::Or(p, q)) if p == x || q == x => return y,
                (BOp::And, N::Or(p, q)) if not(p) == x => return and(x, q),
                (BOp::And, N::Or(p, q)) if not(q) == x => return and(x, p),
                (BOp::Or, N::And(p, q)) if not(p) == x => return or(x, q),
                (BOp::Or, N::And(p, q)) if not(q) == x => return or(x, p),
                (BOp::And, N::And(p, q)) if not(p) == x || not(q) == x => return ff(),
                (BOp::Or, N::Or(p, q)) if not(p) == x || not(q) == x => return tt(),
                _ => {}
            }
        }
        if op == BOp::And {
            if let Some(m) = merge_eq_conj(a, b) {
                return m;
            }
        }
        if op == BOp::Or {
            // not(and(not a, not b)) merging of disequalities
            if let (N::Not(x), N::Not(y)) = (node(a), node(b)) {
                if let Some(m) = merge_eq_conj(x, y) {
                    return not(m);
                }
            }
        }
        if op == BOp::Xor {
            if let N::Not(x) = node(a) {
                return not(xor(x, b));
            }
            if let N::Not(y) = node(b) {
                return not(xor(a, y));
            }
        }
    } else {
        // piecewise
        let useful = |t: T| match node(t) {
            N::Const(_) => true,
            N::Concat(p) => p.iter().any(|x| is_const(*x)),
            _ => false,
        };
        let both_concat = matches!((node(a), node(b)), (N::Concat(_), N::Concat(_)));
        if useful(a) || useful(b) || both_concat {
            let mut bs = bounds(a);
            bs.extend(bounds(b));
            bs.sort_unstable_by(|x, y| y.cmp(x));
            bs.dedup();
            if bs.len() > 1 && bs.len() <= 130 {
                let mut top = w;
                let mut out = Vec::new();
                let mut simp = false;
                for lo in bs {
                    let (ea, eb) = (extract(a, top - 1, lo), extract(b, top - 1, lo));
                    let r = bitop(op, ea, eb);
                    let plain = matches!(node(r), N::And(..) | N::Or(..) | N::Xor(..));
                    if !plain {
                        simp = true;
                    }
                    out.push(r);
                    top = lo;
                }
                if simp {
                    return concat(&out);
                }
            }
        }
        // ite with constant leaves vs constant
        if k.is_some() {
            if let N::Ite(cc, p, q) = node(x) {
                if is_const(p) && is_const(q) {
                    let kt = cst(k.unwrap());
                    return ite(cc, bitop(op, p, kt), bitop(op, q, kt));
                }
            }
        }
    }
    let n = match op {
        BOp::And => N::And(a, b),
        BOp::Or => N::Or(a, b),
        BOp::Xor => N::Xor(a, b),
    };
    intern(n, w)
}

pub fn and(a: T, b: T) -> T {
    bitop(BOp::And, a, b)
}
pub fn or(a: T, b: T) -> T {
    bitop(BOp::Or, a, b)
}
pub fn xor(a: T, b: T) -> T {
    bitop(BOp::Xor, a, b)
}
pub fn implies(a: T, b: T) -> T {
    or(not(a), b)
}

fn ext_of(t: T) -> (T, u32, u32) {
    match node(t) {
        N::Extract(x, h, l) => (x, h, l),
        _ => (t, width(t) - 1, 0),
    }
}

/// conjuncts of a boolean term
pub fn conjuncts(t: T, out: &mut Vec<T>) {
    match node(t) {
        N::And(a, b) if width(t) == 1 => {
            conjuncts(a, out);
            conjuncts(b, out);
        }
        _ => out.push(t),
    }
}

/// merge two Eq on adjacent extracts
fn merge_eq2(x: T, y: T) -> Option<T> {
    if let (N::Eq(a1, b1), N::Eq(a2, b2)) = (node(x), node(y)) {
        if width(a1) == 1 && width(a2) == 1 && false {
            return None;
        }
        for (p1, q1) in [(a1, b1), (b1, a1)] {
            let (xa, ha, la) = ext_of(p1);
            let (xc, hc, lc) = ext_of(a2);
            if xa != xc {
                continue;
            }
            if is_const(xa) {
                continue;
            }
            // p1 with a2 adjacent; q1 with b2 adjacent or const
            let hi_first = la == hc + 1;
            let lo_first = lc == ha + 1;
            if !hi_first && !lo_first {
                continue;
            }
            let m = if hi_first { merge_pair(p1, a2) } else { merge_pair(a2, p1) };
            let n = if hi_first { merge_pair(q1, b2) } else { merge_pair(b2, q1) };
            if let (Some(m), Some(n)) = (m, n) {
                return Some(eq(m, n));
            }
        }
    }
    None
}

fn merge_eq_conj(a: T, b: T) -> Option<T> {
    let mut v = Vec::new();
    conjuncts(a, &mut v);
    let na = v.len();
    conjuncts(b, &mut v);
    if v.len() > 24 {
        return None;
    }
    for i in 0..na {
        for j in na..v.len() {
            if let Some(m) = merge_eq2(v[i], v[j]) {
                let mut acc = m;
                for (k, x) in v.iter().enumerate() {
                    if k != i && k != j {
                        acc = and(acc, *x);
                    }
                }
                return Some(acc);
            }
        }
    }
    None
}

// ---------- arithmetic ----------

fn lin(t: T) -> (Vec<(Bv, T)>, Bv) {
    let w = width(t);
    match node(t) {
        N::Const(b) => (vec![], b),
        N::Sum(ts, k) => (ts.to_vec(), k),
        N::Not(x) => {
            // ~x = -x - 1
            let (ts, k) = lin(x);
            (ts.into_iter().map(|(c, t)| (c.neg(), t)).collect(), k.not())
        }
        N::Concat(p) if p.len() == 2 && is_const(p[1]) => {
            // x << k  (when the top piece is an extract from 0)
            let z = as_const(p[1]).unwrap();
            if z.is_zero() {
                if let N::Extract(x, _h, 0) = node(p[0]) {
                    if width(x) == w {
                        return (vec![(Bv::new(w, 1).shl_n(z.w), x)], Bv::zero(w));
                    }
                }
            }
            (vec![(Bv::new(w, 1), t)], Bv::zero(w))
        }
        _ => (vec![(Bv::new(w, 1), t)], Bv::zero(w)),
    }
}

fn mk_sum(mut ts: Vec<(Bv, T)>, k: Bv) -> T {
    let w = k.w;
    ts.sort_by_key(|x| x.1);
    let mut out: Vec<(Bv, T)> = Vec::new();
    for (co, t) in ts {
        if let Some(l) = out.last_mut() {
            if l.1 == t {
                l.0 = l.0.add(&co);
                continue;
            }
        }
        out.push((co, t));
    }
    out.retain(|x| !x.0.is_zero());
    if out.is_empty() {
        return cst(k);
    }
    if out.len() == 1 && k.is_zero() && out[0].0.is_one() {
        return out[0].1;
    }
    if out.len() == 1 && out[0].0.is_ones() && k.is_ones() {
        return not(out[0].1);
    }
    intern(N::Sum(out.into_boxed_slice(), k), w)
}

pub fn add(a: T, b: T) -> T {
    assert_eq!(width(a), width(b), "add widths");
    if width(a) == 1 {
        return xor(a, b);
    }
    let (mut ta, ka) = lin(a);
    if ta.is_empty() && ka.is_zero() {
        return b;
    }
    let (tb, kb) = lin(b);
    if tb.is_empty() && kb.is_zero() {
        return a;
    }
    // disjoint bits: addition is concatenation  (zext(x) + (y << k))
    if disjoint(a, b) {
        return or(a, b);
    }
    ta.extend(tb);
    mk_sum(ta, ka.add(&kb))
}
/// no bit position can be set in both (syntactic)
fn disjoint(a: T, b: T) -> bool {
    let zero = |v: &[(u32, u32, bool)], lo: u32, hi: u32| -> bool {
        v.iter().all(|(l, h, z)| *z || *h < lo || *l > hi)
    };
    let segs = |t: T| -> Vec<(u32, u32, bool)> {
        let mut o = vec![];
        let mut hi = width(t);
        for p in pieces(t) {
            let w = width(p);
            let z = matches!(node(p), N::Const(ref k) if k.is_zero());
            o.push((hi - w, hi - 1, z));
            hi -= w;
        }
        o
    };
    let (sa, sb) = (segs(a), segs(b));
    if !sa.iter().any(|x| x.2) || !sb.iter().any(|x| x.2) {
        return false;
    }
    sa.iter().all(|(l, h, z)| *z || zero(&sb, *l, *h))
}
pub fn neg(a: T) -> T {
    if width(a) == 1 {
        return a;
    }
    let (ta, ka) = lin(a);
    mk_sum(ta.into_iter().map(|(c, t)| (c.neg(), t)).collect(), ka.neg())
}
pub fn sub(a: T, b: T) -> T {
    add(a, neg(b))
}
pub fn mul(a: T, b: T) -> T {
    let w = width(a);
    assert_eq!(w, width(b), "mul widths");
    if w == 1 {
        return and(a, b);
    }
    for (x, y) in [(a, b), (b, a)] {
        if let Some(k) = as_const(x) {
            if k.is_zero() {
                return c(w, 0);
            }
            if k.is_one() {
                return y;
            }
            let (ts, kk) = lin(y);
            return mk_sum(ts.into_iter().map(|(c, t)| (c.mul(&k), t)).collect(), kk.mul(&k));
        }
        // boolean factor
        if let N::Concat(p) = node(x) {
            if p.len() == 2 && width(p[1]) == 1 && as_const(p[0]).map_or(false, |z| z.is_zero()) {
                return ite(p[1], y, c(w, 0));
            }
        }
    }
    if LINEAR.with(|l| l.get()) {
        // polynomials in expanded form
        let ((ta, ka), (tb, kb)) = (lin(a), lin(b));
        if (ta.len() + 1) * (tb.len() + 1) <= 40_000 {
            let mut out = vec![];
            for (ca, x) in &ta {
                for (cb, y) in &tb {
                    let mut f = vec![];
                    factors(*x, &mut f);
                    factors(*y, &mut f);
                    f.sort();
                    out.push((ca.mul(cb), f[1..].iter().fold(f[0], |acc, z| intern(N::Mul(acc, *z), w))));
                }
                out.push((ca.mul(&kb), *x));
            }
            for (cb, y) in &tb {
                out.push((cb.mul(&ka), *y));
            }
            return mk_sum(out, ka.mul(&kb));
        }
    }
    let (a, b) = if a <= b { (a, b) } else { (b, a) };
    intern(N::Mul(a, b), w)
}
fn factors(t: T, out: &mut Vec<T>) {
    if let N::Mul(a, b) = node(t) {
        factors(a, out);
        factors(b, out);
    } else {
        out.push(t);
    }
}

/// number of common leading zero bits known syntactically
fn lead0(t: T) -> u32 {
    width(t) - max_bits(t)
}

pub fn udiv(a: T, b: T) -> T {
    let w = width(a);
    if let (Some(x), Some(y)) = (as_const(a), as_const(b)) {
        return cst(x.udivrem(&y).0);
    }
    if let Some(k) = as_const(b) {
        if k.is_one() {
            return a;
        }
        let n = k.bits();
        if !k.is_zero() && k == Bv::new(w, 1).shl_n(n - 1) {
            return lshr(a, c(w, (n - 1) as u64));
        }
        let z = lead0(a).min(lead0(b));
        if z > 0 && z < w && !k.is_zero() {
            let nw = w - z;
            return zext(udiv(extract(a, nw - 1, 0), extract(b, nw - 1, 0)), w);
        }
    }
    if as_const(a).map_or(false, |z| z.is_zero()) {
        // 0/b = 0 unless b = 0 (all ones)
        return ite(eq(b, c(w, 0)), cst(Bv::ones(w)), c(w, 0));
    }
    intern(N::UDiv(a, b), w)
}
pub fn urem(a: T, b: T) -> T {
    let w = width(a);
    if let (Some(x), Some(y)) = (as_const(a), as_const(b)) {
        return cst(x.udivrem(&y).1);
    }
    if let Some(k) = as_const(b) {
        if k.is_one() {
            return c(w, 0);
        }
        let n = k.bits();
        if !k.is_zero() && k == Bv::new(w, 1).shl_n(n - 1) {
            return zext(extract(a, n - 2, 0), w);
        }
    }
    let z = lead0(a).min(lead0(b));
    if z > 0 && z < w {
        let nw = w - z;
        return zext(urem(extract(a, nw - 1, 0), extract(b, nw - 1, 0)), w);
    }
    intern(N::URem(a, b), w)
}
fn sdivrem_c(x: &Bv, y: &Bv) -> (Bv, Bv) {
    let ax = if x.msb() { x.neg() } else { x.clone() };
    let ay = if y.msb() { y.neg() } else { y.clone() };
    let (q, r) = ax.udivrem(&ay);
    (
        if x.msb() != y.msb() { q.neg() } else { q },
        if x.msb() { r.neg() } else { r },
    )
}
pub fn sdiv(a: T, b: T) -> T {
    if let (Some(x), Some(y)) = (as_const(a), as_const(b)) {
        return cst(sdivrem_c(&x, &y).0);
    }
    let w = width(a);
    intern(N::SDiv(a, b), w)
}
pub fn srem(a: T, b: T) -> T {
    if let (Some(x), Some(y)) = (as_const(a), as_const(b)) {
        return cst(sdivrem_c(&x, &y).1);
    }
    let w = width(a);
    intern(N::SRem(a, b), w)
}

thread_local!(static LINEAR: std::cell::Cell<bool> = const { std::cell::Cell::new(false) });
/// keep shifts by constants as multiples, so that linear combinations have one form
pub fn set_linear(on: bool) {
    LINEAR.with(|l| l.set(on));
}
pub fn shl(a: T, b: T) -> T {
    let w = width(a);
    if let Some(k) = as_const(b) {
        let k = k.shamt();
        if k == 0 {
            return a;
        }
        if k >= w {
            return c(w, 0);
        }
        if LINEAR.with(|l| l.get()) {
            let f = Bv::new(w, 1).shl_n(k);
            let (ts, kk) = lin(a);
            return mk_sum(ts.into_iter().map(|(c, t)| (c.mul(&f), t)).collect(), kk.mul(&f));
        }
        return concat(&[extract(a, w - 1 - k, 0), c(k, 0)]);
    }
    if let N::Ite(cc, p, q) = node(b) {
        if is_const(p) && is_const(q) {
            return ite(cc, shl(a, p), shl(a, q));
        }
    }
    intern(N::Shl(a, b), w)
}
pub fn lshr(a: T, b: T) -> T {
    let w = width(a);
    if let Some(k) = as_const(b) {
        let k = k.shamt();
        if k == 0 {
            return a;
        }
        if k >= w {
            return c(w, 0);
        }
        return zext(extract(a, w - 1, k), w);
    }
    if let N::Ite(cc, p, q) = node(b) {
        if is_const(p) && is_const(q) {
            return ite(cc, lshr(a, p), lshr(a, q));
        }
    }
    intern(N::LShr(a, b), w)
}
pub fn ashr(a: T, b: T) -> T {
    let w = width(a);
    if let Some(k) = as_const(b) {
        let k = k.shamt().min(w - 1);
        if k == 0 {
            return a;
        }
        return sext(extract(a, w - 1, k), w);
    }
    intern(N::AShr(a, b), w)
}

// ---------- comparisons ----------

/// (keccak input, offset) when t is keccak(x) + offset
pub fn hash_base(t: T) -> Option<(T, T)> {
    let w = width(t);
    if w != 256 {
        return None;
    }
    match node(t) {
        N::Keccak(x) => Some((x, c(256, 0))),
        N::Const(b) => store(|s| s.known_hash.get(&b).cloned()).map(|i| (i, c(256, 0))),
        N::Sum(ts, k) => {
            let mut base = None;
            let mut rest = vec![];
            for (co, x) in ts.iter() {
                if let N::Keccak(i) = node(*x) {
                    if base.is_some() || !co.is_one() {
                        return None;
                    }
                    base = Some(i);
                } else {
                    rest.push((co.clone(), *x));
                }
            }
            if let Some(b) = base {
                return Some((b, mk_sum(rest, k)));
            }
            // known concrete hash + offset: recover the base from the constant
            if !k.is_zero() {
                if let Some(i) = store(|s| s.known_hash.get(&k).cloned()) {
                    return Some((i, mk_sum(ts.to_vec(), Bv::zero(w))));
                }
            }
            None
        }
        _ => None,
    }
}

pub fn hash_const_near(b: &Bv) -> Option<(T, Bv)> {
    // constant = known hash + small offset
    store(|s| {
        for (h, i) in &s.known_hash {
            let d = b.sub(h);
            if d.fits_u64() {
                return Some((*i, d));
            }
        }
        None
    })
}

fn hash_base2(t: T) -> Option<(T, T)> {
    if let Some(x) = hash_base(t) {
        return Some(x);
    }
    match node(t) {
        N::Const(b) if b.w == 256 && b.bits() > 192 => {
            hash_const_near(&b).map(|(i, d)| (i, cst(d)))
        }
        N::Sum(ts, k) if width(t) == 256 && k.bits() > 192 => {
            if ts.iter().any(|(_, x)| matches!(node(*x), N::Keccak(_))) {
                return None;
            }
            hash_const_near(&k).map(|(i, d)| (i, mk_sum(ts.to_vec(), d)))
        }
        _ => None,
    }
}

pub fn eq(a: T, b: T) -> T {
    let w = width(a);
    assert_eq!(w, width(b), "eq widths");
    if a == b {
        return tt();
    }
    let (a, b) = if a <= b { (a, b) } else { (b, a) };
    let (ca, cb) = (as_const(a), as_const(b));
    if ca.is_some() && cb.is_some() {
        return ff();
    }
    if w == 1 {
        if let Some(k) = &ca {
            return if k.is_zero() { not(b) } else { b };
        }
        if let Some(k) = &cb {
            return if k.is_zero() { not(a) } else { a };
        }
        if not(a) == b {
            return ff();
        }
        return not(xor(a, b));
    }
    // hashes
    if w == 256 {
        let (ha, hb) = (hash_base2(a), hash_base2(b));
        match (ha, hb) {
            (Some((x, ox)), Some((y, oy))) => {
                let same = if width(x) != width(y) { ff() } else { eq(x, y) };
                return and(same, eq(ox, oy));
            }
            (Some(_), None) | (None, Some(_)) => {
                let k = if ca.is_some() { &ca } else { &cb };
                if let Some(k) = k {
                    if k.bits() <= 128 {
                        return ff();
                    }
                }
            }
            _ => {}
        }
    }
    let k = if ca.is_some() { ca.clone() } else { cb.clone() };
    let x = if ca.is_some() { b } else { a };
    if let Some(k) = &k {
        let kt = cst(k.clone());
        match node(x) {
            N::Not(y) => return eq(y, cst(k.not())),
            N::Ite(cc, p, q) => {
                let (ep, eq_) = (eq(p, kt), eq(q, kt));
                if is_const(ep) || is_const(eq_) {
                    return ite(cc, ep, eq_);
                }
            }
            N::Or(p, q) if k.is_zero() => return and(eq(p, kt), eq(q, kt)),
            N::Xor(p, q) if k.is_zero() => return eq(p, q),
            N::Xor(p, q) if is_const(p) || is_const(q) => {
                let (kk, y) = if is_const(p) { (p, q) } else { (q, p) };
                return eq(y, xor(kk, kt));
            }
            N::SExt(y) => {
                let yw = width(y);
                let lowk = k.extract(yw - 1, 0);
                if lowk.sext(w) == *k {
                    return eq(y, cst(lowk));
                }
                return ff();
            }
            _ => {}
        }
    }
    // linear
    if matches!(node(a), N::Sum(..)) || matches!(node(b), N::Sum(..)) {
        let d = sub(a, b);
        match node(d) {
            N::Const(z) => return boolean(z.is_zero()),
            N::Sum(ts, kk) => {
                if ts.len() == 1 {
                    if ts[0].0.is_one() {
                        return eq(ts[0].1, cst(kk.neg()));
                    }
                    if ts[0].0.is_ones() {
                        return eq(ts[0].1, cst(kk));
                    }
                    if ts[0].0.bit(0) {
                        // odd coefficient: invertible
                        let mut inv = Bv::new(w, 1);
                        let two = Bv::new(w, 2);
                        for _ in 0..10 {
                            inv = inv.mul(&two.sub(&ts[0].0.mul(&inv)));
                        }
                        return eq(ts[0].1, cst(kk.neg().mul(&inv)));
                    }
                } else if ts.len() == 2 && kk.is_zero() {
                    if ts[0].0.is_one() && ts[1].0.is_ones()
                        || ts[1].0.is_one() && ts[0].0.is_ones()
                    {
                        return eq(ts[0].1, ts[1].1);
                    }
                }
                // canonical: positive vs rest
                let a2 = d;
                let z = c(w, 0);
                let (p, q) = if a2 <= z { (a2, z) } else { (z, a2) };
                // keep the original shape when it is simpler for the solver
                if ts.len() <= 3 {
                    return intern(N::Eq(a, b), 1);
                }
                return intern(N::Eq(p, q), 1);
            }
            _ => {
                return eq(d, c(w, 0));
            }
        }
    }
    // piecewise
    let (pa, pb) = (matches!(node(a), N::Concat(_)), matches!(node(b), N::Concat(_)));
    let has_c = |t: T| match node(t) {
        N::Concat(p) => p.iter().any(|x| is_const(*x)),
        _ => false,
    };
    if (pa && (pb || cb.is_some() || has_c(a))) || (pb && (ca.is_some() || has_c(b))) {
        let mut bs: Vec<u32> = vec![];
        for t in [a, b] {
            let mut top = w;
            for p in pieces(t) {
                top -= width(p);
                bs.push(top);
            }
        }
        bs.sort_unstable_by(|x, y| y.cmp(x));
        bs.dedup();
        // collect segments
        let mut segs: Vec<(T, T)> = vec![];
        let mut top = w;
        for lo in bs {
            let (ea, eb) = (extract(a, top - 1, lo), extract(b, top - 1, lo));
            if let (Some(x), Some(y)) = (as_const(ea), as_const(eb)) {
                if x != y {
                    return ff();
                }
            } else if ea != eb {
                segs.push((ea, eb));
            }
            top = lo;
        }
        return eq_segs(segs);
    }
    intern(N::Eq(a, b), 1)
}

/// conjunction of equalities; merges segments which are contiguous in both sides
fn eq_segs(mut segs: Vec<(T, T)>) -> T {
    // orient
    for s in segs.iter_mut() {
        let (xa, _, _) = ext_of(s.0);
        let (xb, _, _) = ext_of(s.1);
        if is_const(s.0) || (!is_const(s.1) && xb < xa) {
            *s = (s.1, s.0);
        }
    }
    loop {
        let mut done = true;
        'o: for i in 0..segs.len() {
            for j in 0..segs.len() {
                if i == j {
                    continue;
                }
                let (xi, _, li) = ext_of(segs[i].0);
                let (xj, hj, _) = ext_of(segs[j].0);
                if xi == xj && li == hj + 1 {
                    // i above j
                    let b = match merge_pair(segs[i].1, segs[j].1) {
                        Some(b) => b,
                        None => continue,
                    };
                    if let Some(a) = merge_pair(segs[i].0, segs[j].0) {
                        segs[i] = (a, b);
                        segs.swap_remove(j);
                        done = false;
                        break 'o;
                    }
                }
            }
        }
        if done {
            break;
        }
    }
    let mut acc = tt();
    for (a, b) in segs {
        let e = eq(a, b);
        acc = and(acc, e);
    }
    acc
}

pub fn ne(a: T, b: T) -> T {
    not(eq(a, b))
}

pub fn ult(a: T, b: T) -> T {
    let w = width(a);
    assert_eq!(w, width(b), "ult widths");
    if a == b {
        return ff();
    }
    let (ca, cb) = (as_const(a), as_const(b));
    if let (Some(x), Some(y)) = (&ca, &cb) {
        return boolean(x.ult(y));
    }
    if let Some(k) = &cb {
        if k.is_zero() {
            return ff();
        }
        if k.is_one() {
            return eq(a, c(w, 0));
        }
        if k.is_ones() {
            return ne(a, b);
        }
        if max_bits(a) < k.bits() {
            return tt();
        }
    }
    if let Some(k) = &ca {
        if k.is_ones() {
            return ff();
        }
        if k.is_zero() {
            return ne(a, b);
        }
        if max_bits(b) < k.bits() {
            return ff();
        }
    }
    if w == 1 {
        return and(not(a), b);
    }
    // not(x) < not(y)  <=>  y < x
    if let (N::Not(x), N::Not(y)) = (node(a), node(b)) {
        return ult(y, x);
    }
    if ca.is_some() || cb.is_some() {
        let (it, isa) = if ca.is_some() { (b, false) } else { (a, true) };
        if let N::Ite(cc, p, q) = node(it) {
            let f = |z: T| if isa { ult(z, b) } else { ult(a, z) };
            let (ep, eq_) = (f(p), f(q));
            if is_const(ep) || is_const(eq_) {
                return ite(cc, ep, eq_);
            }
        }
    }
    // strip equal high pieces
    if matches!(node(a), N::Concat(_)) || matches!(node(b), N::Concat(_)) {
        let z = lead0(a).min(lead0(b));
        if z > 0 && z < w {
            return ult(extract(a, w - z - 1, 0), extract(b, w - z - 1, 0));
        }
        let (pa, pb) = (pieces(a), pieces(b));
        if pa[0] == pb[0] {
            let nw = w - width(pa[0]);
            return ult(extract(a, nw - 1, 0), extract(b, nw - 1, 0));
        }
        // low equal pieces
        let (la, lb) = (*pa.last().unwrap(), *pb.last().unwrap());
        if la == lb {
            let k = width(la);
            return ult(extract(a, w - 1, k), extract(b, w - 1, k));
        }
    }
    intern(N::Ult(a, b), 1)
}
pub fn ule(a: T, b: T) -> T {
    not(ult(b, a))
}
pub fn slt(a: T, b: T) -> T {
    let w = width(a);
    assert_eq!(w, width(b));
    if a == b {
        return ff();
    }
    let (ca, cb) = (as_const(a), as_const(b));
    if let (Some(x), Some(y)) = (&ca, &cb) {
        return boolean(x.slt(y));
    }
    if max_bits(a) < w && max_bits(b) < w {
        return ult(a, b);
    }
    if ca.is_some() || cb.is_some() {
        let (it, isa) = if ca.is_some() { (b, false) } else { (a, true) };
        if let N::Ite(cc, p, q) = node(it) {
            let f = |z: T| if isa { slt(z, b) } else { slt(a, z) };
            let (ep, eq_) = (f(p), f(q));
            if is_const(ep) || is_const(eq_) {
                return ite(cc, ep, eq_);
            }
        }
    }
    if cb.as_ref().map_or(false, |k| k.is_zero()) {
        return extract(a, w - 1, w - 1);
    }
    if cb.as_ref().map_or(false, |k| k.is_ones()) {
        // a < -1
    }
    if ca.as_ref().map_or(false, |k| k.is_ones()) {
        // -1 < b  <=> b >= 0
        return not(extract(b, w - 1, w - 1));
    }
    intern(N::Slt(a, b), 1)
}

pub fn ite(cc: T, a: T, b: T) -> T {
    let w = width(a);
    assert_eq!(w, width(b), "ite widths");
    if let Some(k) = as_bool(cc) {
        return if k { a } else { b };
    }
    if a == b {
        return a;
    }
    if let N::Not(x) = node(cc) {
        return ite(x, b, a);
    }
    let mut a = a;
    let mut b = b;
    if let N::Ite(c2, x, _) = node(a) {
        if c2 == cc {
            a = x;
        }
    }
    if let N::Ite(c2, _, y) = node(b) {
        if c2 == cc {
            b = y;
        }
    }
    if a == b {
        return a;
    }
    if w == 1 {
        match (as_bool(a), as_bool(b)) {
            (Some(true), Some(false)) => return cc,
            (Some(false), Some(true)) => return not(cc),
            (Some(true), None) => return or(cc, b),
            (Some(false), None) => return and(not(cc), b),
            (None, Some(true)) => return or(not(cc), a),
            (None, Some(false)) => return and(cc, a),
            _ => {}
        }
        if a == cc {
            return or(cc, b);
        }
        if b == cc {
            return and(cc, a);
        }
        if not(a) == b {
            return eq(cc, a);
        }
    }
    // ite(c, x, ite(d, x, y)) = ite(c|d, x, y)
    if let N::Ite(d, x, y) = node(b) {
        if x == a {
            return ite(or(cc, d), a, y);
        }
        if y == a {
            return ite(or(cc, not(d)), a, x);
        }
    }
    if let N::Ite(d, x, y) = node(a) {
        if y == b {
            return ite(and(cc, d), x, b);
        }
        if x == b {
            return ite(and(cc, not(d)), y, b);
        }
    }
    // ite(x == k, k, x) = x
    if let N::Eq(p, q) = node(cc) {
        if (p == a && q == b) || (p == b && q == a) {
            return b;
        }
    }
    // common zero-extension
    if w > 1 {
        if let (N::Concat(pa), N::Concat(pb)) = (node(a), node(b)) {
            if pa[0] == pb[0] {
                let nw = w - width(pa[0]);
                return concat(&[pa[0], ite(cc, extract(a, nw - 1, 0), extract(b, nw - 1, 0))]);
            }
        }
        let (ka, kb) = (as_const(a), as_const(b));
        let z = lead0(a).min(lead0(b));
        if z > 0 && z < w && (ka.is_some() || kb.is_some()) {
            let nw = w - z;
            return zext(ite(cc, extract(a, nw - 1, 0), extract(b, nw - 1, 0)), w);
        }
    }
    intern(N::Ite(cc, a, b), w)
}

pub fn keccak(input: T) -> T {
    if let Some(b) = as_const(input) {
        let mut bytes = b.to_le();
        bytes.reverse();
        let h = crate::bv::keccak256(&bytes);
        let mut le = h.to_vec();
        le.reverse();
        let d = Bv::from_le(&le);
        store(|s| s.known_hash.insert(d.clone(), input));
        return cst(d);
    }
    intern(N::Keccak(input), 256)
}

pub fn keccak_empty() -> T {
    let h = crate::bv::keccak256(&[]);
    let mut le = h.to_vec();
    le.reverse();
    cst(Bv::from_le(&le))
}

pub fn uf_id(name: &str, w: u32) -> u32 {
    store(|s| {
        if let Some(i) = s.uf_names.iter().position(|x| x.0 == name && x.1 == w) {
            return i as u32;
        }
        s.uf_names.push((name.to_string(), w));
        s.uf_names.len() as u32 - 1
    })
}
pub fn uf(id: u32, args: Vec<T>) -> T {
    let w = store(|s| s.uf_names[id as usize].1);
    intern(N::Uf(id, args.into_boxed_slice()), w)
}

pub fn children(n: &N) -> Vec<T> {
    match n {
        N::Const(_) | N::Var(_) => vec![],
        N::Not(a) | N::Extract(a, _, _) | N::SExt(a) | N::Keccak(a) => vec![*a],
        N::And(a, b) | N::Or(a, b) | N::Xor(a, b) | N::Mul(a, b) | N::UDiv(a, b)
        | N::URem(a, b) | N::SDiv(a, b) | N::SRem(a, b) | N::Shl(a, b) | N::LShr(a, b)
        | N::AShr(a, b) | N::Eq(a, b) | N::Ult(a, b) | N::Slt(a, b) => vec![*a, *b],
        N::Ite(a, b, d) => vec![*a, *b, *d],
        N::Concat(p) => p.to_vec(),
        N::Uf(_, p) => p.to_vec(),
        N::Sum(p, _) => p.iter().map(|x| x.1).collect(),
    }
}

/// sorted list of variables (hash terms count as a pseudo-variable u32::MAX shared by all)
pub fn varset(t: T) -> std::rc::Rc<Vec<u32>> {
    if let Some(v) = store(|s| s.varsets.get(&t).cloned()) {
        return v;
    }
    let n = node(t);
    let mut out: Vec<u32> = Vec::new();
    match &n {
        N::Var(i) => out.push(*i),
        _ => {
            for ch in children(&n) {
                let v = varset(ch);
                out.extend(v.iter());
            }
            if matches!(n, N::Keccak(_)) {
                out.push(u32::MAX);
            }
            if let N::Uf(i, _) = n {
                out.push(u32::MAX - 1 - i);
            }
        }
    }
    out.sort_unstable();
    out.dedup();
    let r = std::rc::Rc::new(out);
    store(|s| s.varsets.insert(t, r.clone()));
    r
}

// ---------- evaluation ----------

pub struct Eval<'a> {
    pub model: &'a HashMap<u32, Bv>,
    pub memo: HashMap<T, Bv>,
    /// values of hash terms as chosen by the solver; None = real keccak
    pub hash: Option<&'a HashMap<T, Bv>>,
    pub ufv: Option<&'a HashMap<T, Bv>>,
}

impl<'a> Eval<'a> {
    pub fn new(model: &'a HashMap<u32, Bv>) -> Eval<'a> {
        Eval { model, memo: HashMap::new(), hash: None, ufv: None }
    }
    pub fn eval(&mut self, t: T) -> Bv {
        if let Some(b) = self.memo.get(&t) {
            return b.clone();
        }
        let n = node(t);
        let w = width(t);
        let r = match &n {
            N::Const(b) => return b.clone(),
            N::Var(i) => self.model.get(i).cloned().unwrap_or_else(|| Bv::zero(w)),
            N::Not(a) => self.eval(*a).not(),
            N::And(a, b) => {
                let x = self.eval(*a);
                if x.is_zero() {
                    x
                } else {
                    x.and(&self.eval(*b))
                }
            }
            N::Or(a, b) => {
                let x = self.eval(*a);
                x.or(&self.eval(*b))
            }
            N::Xor(a, b) => {
                let x = self.eval(*a);
                x.xor(&self.eval(*b))
            }
            N::Sum(ts, k) => {
                let mut acc = k.clone();
                for (co, x) in ts.iter() {
                    acc = acc.add(&co.mul(&self.eval(*x)));
                }
                acc
            }
            N::Mul(a, b) => {
                let x = self.eval(*a);
                x.mul(&self.eval(*b))
            }
            N::UDiv(a, b) => {
                let x = self.eval(*a);
                x.udivrem(&self.eval(*b)).0
            }
            N::URem(a, b) => {
                let x = self.eval(*a);
                x.udivrem(&self.eval(*b)).1
            }
            N::SDiv(a, b) => {
                let x = self.eval(*a);
                sdivrem_c(&x, &self.eval(*b)).0
            }
            N::SRem(a, b) => {
                let x = self.eval(*a);
                sdivrem_c(&x, &self.eval(*b)).1
            }
            N::Shl(a, b) => {
                let x = self.eval(*a);
                x.shl_n(self.eval(*b).shamt())
            }
            N::LShr(a, b) => {
                let x = self.eval(*a);
                x.lshr_n(self.eval(*b).shamt())
            }
            N::AShr(a, b) => {
                let x = self.eval(*a);
                x.ashr_n(self.eval(*b).shamt())
            }
            N::Concat(p) => {
                let mut acc = self.eval(p[0]);
                for x in &p[1..] {
                    acc = acc.concat(&self.eval(*x));
                }
                acc
            }
            N::Extract(a, h, l) => self.eval(*a).extract(*h, *l),
            N::SExt(a) => self.eval(*a).sext(w),
            N::Eq(a, b) => {
                let x = self.eval(*a);
                Bv::new(1, (x == self.eval(*b)) as u64)
            }
            N::Ult(a, b) => {
                let x = self.eval(*a);
                Bv::new(1, x.ult(&self.eval(*b)) as u64)
            }
            N::Slt(a, b) => {
                let x = self.eval(*a);
                Bv::new(1, x.slt(&self.eval(*b)) as u64)
            }
            N::Ite(cc, a, b) => {
                if self.eval(*cc).is_zero() {
                    self.eval(*b)
                } else {
                    self.eval(*a)
                }
            }
            N::Keccak(a) => match self.hash.and_then(|h| h.get(&t).cloned()) {
                Some(v) => v,
                None => {
                    let x = self.eval(*a);
                    let mut bytes = x.to_le();
                    bytes.reverse();
                    let mut le = crate::bv::keccak256(&bytes).to_vec();
                    le.reverse();
                    Bv::from_le(&le)
                }
            },
            N::Uf(id, args) => match self.ufv.and_then(|h| h.get(&t).cloned()) {
                Some(v) => v,
                None => {
                    // a fixed, deterministic interpretation
                    let mut bytes = id.to_le_bytes().to_vec();
                    for x in args.iter() {
                        bytes.extend(self.eval(*x).to_le());
                    }
                    let mut acc: Vec<u8> = Vec::new();
                    let mut i = 0u8;
                    while (acc.len() as u32) * 8 < w {
                        let mut m = bytes.clone();
                        m.push(i);
                        acc.extend(crate::bv::keccak256(&m));
                        i += 1;
                    }
                    Bv::from_le(&acc).extract(w - 1, 0)
                }
            },
        };
        self.memo.insert(t, r.clone());
        r
    }
    pub fn truth(&mut self, t: T) -> bool {
        !self.eval(t).is_zero()
    }
}

pub fn show(t: T) -> String {
    fn go(t: T, d: u32) -> String {
        let n = node(t);
        if d == 0 {
            return match n {
                N::Const(b) => format!("{:?}", b),
                N::Var(i) => store(|s| s.vars[i as usize].0.clone()),
                _ => format!("t{}", t.0),
            };
        }
        match &n {
            N::Const(b) => {
                if b.w <= 64 || b.fits_u64() {
                    format!("{}", b.l[0])
                } else {
                    format!("0x{}", b.hex())
                }
            }
            N::Var(i) => store(|s| s.vars[*i as usize].0.clone()),
            N::Extract(a, h, l) => format!("{}[{}:{}]", go(*a, d - 1), h, l),
            N::Eq(a, b) => format!("({} == {})", go(*a, d - 1), go(*b, d - 1)),
            N::Ult(a, b) => format!("({} <u {})", go(*a, d - 1), go(*b, d - 1)),
            N::And(a, b) => format!("({} & {})", go(*a, d - 1), go(*b, d - 1)),
            N::Or(a, b) => format!("({} | {})", go(*a, d - 1), go(*b, d - 1)),
            N::Not(a) => format!("!{}", go(*a, d - 1)),
            N::Sum(ts, k) => {
                let mut s = String::from("(");
                for (co, x) in ts.iter() {
                    if co.is_one() {
                        s += &format!("+{}", go(*x, d - 1));
                    } else if co.is_ones() {
                        s += &format!("-{}", go(*x, d - 1));
                    } else {
                        s += &format!("+0x{}*{}", co.hex(), go(*x, d - 1));
                    }
                }
                if !k.is_zero() {
                    s += &format!("+{}", go(cst(k.clone()), 1));
                }
                s + ")"
            }
            N::Concat(p) => {
                let v: Vec<String> = p.iter().map(|x| go(*x, d - 1)).collect();
                format!("{{{}}}", v.join(","))
            }
            N::Ite(a, b, e) => {
                format!("({} ? {} : {})", go(*a, d - 1), go(*b, d - 1), go(*e, d - 1))
            }
            other => {
                let name = format!("{:?}", other);
                let name = name.split('(').next().unwrap().to_string();
                let v: Vec<String> = children(other).iter().map(|x| go(*x, d - 1)).collect();
                format!("{}({})", name, v.join(","))
            }
        }
    }
    go(t, 12)
}

/// rebuild t with the given replacements (memo holds them and every rebuilt subterm)
pub fn subst(t: T, memo: &mut HashMap<T, T>) -> T {
    if let Some(r) = memo.get(&t) {
        return *r;
    }
    let n = node(t);
    let r = match &n {
        N::Const(_) | N::Var(_) => t,
        N::Ite(cc, a, b) => {
            let k = subst(*cc, memo);
            match as_bool(k) {
                Some(true) => subst(*a, memo),
                Some(false) => subst(*b, memo),
                None => {
                    let (x, y) = (subst(*a, memo), subst(*b, memo));
                    ite(k, x, y)
                }
            }
        }
        _ => {
            let ch = children(&n);
            let nc: Vec<T> = ch.iter().map(|x| subst(*x, memo)).collect();
            if nc == ch {
                t
            } else {
                match &n {
                    N::Not(_) => not(nc[0]),
                    N::And(..) => and(nc[0], nc[1]),
                    N::Or(..) => or(nc[0], nc[1]),
                    N::Xor(..) => xor(nc[0], nc[1]),
                    N::Sum(ts, k) => {
                        let mut acc = cst(k.clone());
                        for (i, (co, _)) in ts.iter().enumerate() {
                            acc = add(acc, mul(cst(co.clone()), nc[i]));
                        }
                        acc
                    }
                    N::Mul(..) => mul(nc[0], nc[1]),
                    N::UDiv(..) => udiv(nc[0], nc[1]),
                    N::URem(..) => urem(nc[0], nc[1]),
                    N::SDiv(..) => sdiv(nc[0], nc[1]),
                    N::SRem(..) => srem(nc[0], nc[1]),
                    N::Shl(..) => shl(nc[0], nc[1]),
                    N::LShr(..) => lshr(nc[0], nc[1]),
                    N::AShr(..) => ashr(nc[0], nc[1]),
                    N::Concat(_) => concat(&nc),
                    N::Extract(_, h, l) => extract(nc[0], *h, *l),
                    N::SExt(_) => sext(nc[0], width(t)),
                    N::Eq(..) => eq(nc[0], nc[1]),
                    N::Ult(..) => ult(nc[0], nc[1]),
                    N::Slt(..) => slt(nc[0], nc[1]),
                    N::Keccak(_) => keccak(nc[0]),
                    N::Uf(id, _) => uf(*id, nc),
                    N::Const(_) | N::Var(_) | N::Ite(..) => unreachable!(),
                }
            }
        }
    };
    memo.insert(t, r);
    r
}

/// conditions of the value-level if-then-elses below t, with multiplicity
pub fn ite_conds(t: T, seen: &mut std::collections::HashSet<T>, out: &mut HashMap<T, u32>) {
    if !seen.insert(t) {
        return;
    }
    let n = node(t);
    if let N::Ite(cc, _, _) = &n {
        atoms(*cc, out);
    }
    for x in children(&n) {
        ite_conds(x, seen, out);
    }
}
fn atoms(t: T, out: &mut HashMap<T, u32>) {
    match node(t) {
        N::Not(a) if width(t) == 1 => atoms(a, out),
        N::And(a, b) | N::Or(a, b) if width(t) == 1 => {
            atoms(a, out);
            atoms(b, out);
        }
        N::Ite(a, b, d) if width(t) == 1 => {
            atoms(a, out);
            atoms(b, out);
            atoms(d, out);
        }
        N::Const(_) => {}
        _ => *out.entry(t).or_insert(0) += 1,
    }
}
