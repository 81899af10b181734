//! Integer reading of bit-vector terms.
//!
//! Multi-limb multiplication is out of reach of bit-blasting, so claims about it are decided over
//! the integers: the unsigned value of a term is written as a polynomial over atoms (inputs and
//! integer quotients), where every wrap-around, shift, truncation, carry and borrow is a quotient
//! D(n, P) = floor(P / 2^n). Quotients are put into a normal form, and what is left of a claim is
//! handed to the SMT solver as a linear problem over the monomials, with the defining inequalities
//! 0 <= P - 2^n D < 2^n of every quotient.
use crate::bv::Bv;
use crate::term::*;
use num_bigint::BigInt;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::fmt::Write as _;

pub type Mono = Vec<u32>;
#[derive(Clone, PartialEq, Eq, Hash, Debug, Default)]
pub struct Poly(pub BTreeMap<Mono, BigInt>);

fn zero() -> BigInt {
    BigInt::from(0)
}
fn one() -> BigInt {
    BigInt::from(1)
}
fn pow2(n: u32) -> BigInt {
    one() << n as usize
}
fn is0(b: &BigInt) -> bool {
    b.sign() == num_bigint::Sign::NoSign
}
fn neg(b: &BigInt) -> bool {
    b.sign() == num_bigint::Sign::Minus
}
pub fn big(b: &Bv) -> BigInt {
    BigInt::from_bytes_le(num_bigint::Sign::Plus, &b.to_le())
}
/// floor division
fn fdiv(a: &BigInt, b: &BigInt) -> BigInt {
    let q = a / b;
    if neg(a) && &q * b != *a {
        q - 1
    } else {
        q
    }
}
fn fmod(a: &BigInt, b: &BigInt) -> BigInt {
    a - fdiv(a, b) * b
}

/// p = k q with q free of common factors and its first coefficient positive
pub fn primitive(p: &Poly) -> (BigInt, Poly) {
    let mut g = zero();
    for c in p.0.values() {
        let (mut a, mut b) = (g, BigInt::from(c.magnitude().clone()));
        while !is0(&b) {
            let r = &a % &b;
            a = b;
            b = r;
        }
        g = a;
        if g == one() {
            break;
        }
    }
    if is0(&g) {
        return (one(), p.clone());
    }
    if p.0.values().next().map(neg).unwrap_or(false) {
        g = -g;
    }
    (g.clone(), Poly(p.0.iter().map(|(m, c)| (m.clone(), c / &g)).collect()))
}

impl Poly {
    fn c(b: BigInt) -> Poly {
        let mut p = Poly::default();
        p.put(vec![], b);
        p
    }
    fn put(&mut self, m: Mono, b: BigInt) {
        if is0(&b) {
            return;
        }
        let e = self.0.entry(m).or_insert_with(zero);
        *e += b;
        if is0(e) {
            // remove by search: the key was moved into the map
            let k: Vec<Mono> = self.0.iter().filter(|(_, v)| is0(v)).map(|(k, _)| k.clone()).collect();
            for x in k {
                self.0.remove(&x);
            }
        }
    }
    fn acc(&mut self, o: &Poly, k: &BigInt) {
        for (m, c) in &o.0 {
            let v = c * k;
            if is0(&v) {
                continue;
            }
            match self.0.get_mut(m) {
                Some(e) => {
                    *e += v;
                    if is0(e) {
                        self.0.remove(m);
                    }
                }
                None => {
                    self.0.insert(m.clone(), v);
                }
            }
        }
    }
    pub fn add(&self, o: &Poly) -> Poly {
        let mut r = self.clone();
        r.acc(o, &one());
        r
    }
    pub fn sub(&self, o: &Poly) -> Poly {
        let mut r = self.clone();
        r.acc(o, &BigInt::from(-1));
        r
    }
    pub fn scale(&self, k: &BigInt) -> Poly {
        let mut r = Poly::default();
        r.acc(self, k);
        r
    }
    pub fn mul(&self, o: &Poly) -> Poly {
        let mut r: BTreeMap<Mono, BigInt> = BTreeMap::new();
        for (m, a) in &self.0 {
            for (n, b) in &o.0 {
                let mut k = m.clone();
                k.extend_from_slice(n);
                k.sort_unstable();
                *r.entry(k).or_insert_with(zero) += a * b;
            }
        }
        r.retain(|_, v| !is0(v));
        Poly(r)
    }
}

#[derive(Clone)]
enum Atom {
    Free,
    Term(T),
    Div(u32, Poly),
}

pub struct Ints {
    atoms: Vec<(Atom, BigInt, BigInt)>,
    divs: HashMap<(u32, Poly), u32>,
    terms: HashMap<T, u32>,
    val: HashMap<T, Poly>,
    /// upper bounds of non-negative polynomials
    known: HashMap<Poly, (BigInt, BigInt)>,
    /// atoms whose value the solver has fixed
    fixed: HashMap<u32, BigInt>,
    eqs: Vec<(Mono, Poly)>,
    /// polynomials known to be non-negative
    pub facts: Vec<Poly>,
    /// polynomials known not to be zero
    apart: Vec<Poly>,
    pub limit: usize,
    pub overflow: bool,
}

impl Ints {
    pub fn new() -> Ints {
        Ints {
            atoms: vec![],
            divs: HashMap::new(),
            terms: HashMap::new(),
            val: HashMap::new(),
            known: HashMap::new(),
            fixed: HashMap::new(),
            eqs: vec![],
            facts: vec![],
            apart: vec![],
            limit: 20000,
            overflow: false,
        }
    }
    fn atom(&self, i: u32) -> Poly {
        if let Some(v) = self.fixed.get(&i) {
            return Poly::c(v.clone());
        }
        let mut p = Poly::default();
        p.put(vec![i], one());
        p
    }
    fn opaque(&mut self, t: T) -> Poly {
        let n = self.atoms.len() as u32;
        let i = *self.terms.entry(t).or_insert(n);
        if i == n {
            self.atoms.push((Atom::Term(t), zero(), pow2(max_bits(t)) - 1));
        }
        self.atom(i)
    }
    fn naive(&self, p: &Poly) -> (BigInt, BigInt) {
        let (mut lo, mut hi) = (zero(), zero());
        for (m, c) in &p.0 {
            let (mut a, mut b) = (one(), one());
            for x in m {
                let (_, l, h) = &self.atoms[*x as usize];
                let v = [&a * l, &a * h, &b * l, &b * h];
                a = v.iter().min().unwrap().clone();
                b = v.iter().max().unwrap().clone();
            }
            let (x, y) = (&a * c, &b * c);
            if neg(c) {
                lo += y;
                hi += x;
            } else {
                lo += x;
                hi += y;
            }
        }
        (lo, hi)
    }
    /// an interval containing the value of p: remainders X - 2^n D(n, X) count as one value
    pub fn range(&self, p: &Poly) -> (BigInt, BigInt) {
        let (mut l0, mut h0) = self.naive(p);
        if p.0.len() > 1 {
            let (k, q) = primitive(p);
            if let Some((l, h)) = self.known.get(&q) {
                let (a, b) = if neg(&k) { (h * &k, l * &k) } else { (l * &k, h * &k) };
                l0 = l0.max(a);
                h0 = h0.min(b);
            }
        }
        let mut q = p.clone();
        let (mut lo, mut hi) = (zero(), zero());
        let mut ids: BTreeSet<u32> = BTreeSet::new();
        for m in q.0.keys() {
            if m.len() == 1 {
                ids.insert(m[0]);
            }
        }
        while let Some(i) = ids.pop_last() {
            let c = match q.0.get(&vec![i]) {
                Some(c) => c.clone(),
                None => continue,
            };
            if let Atom::Div(n, x) = &self.atoms[i as usize].0 {
                let w = pow2(*n);
                // c D = c/2^n (X - rem)
                if !is0(&(&c % &w)) {
                    continue;
                }
                let k = -(&c / &w);
                // q = q' + k (X - 2^n D), the bracket in [0, 2^n)
                let mut r = q.clone();
                r.acc(x, &-&k);
                r.acc(&self.atom(i), &(&k * &w));
                if r.0.len() < q.0.len() {
                    q = r;
                    if neg(&k) {
                        lo += &k * (&w - 1);
                    } else {
                        hi += &k * (&w - 1);
                    }
                    for m in x.0.keys() {
                        if m.len() == 1 {
                            ids.insert(m[0]);
                        }
                    }
                }
            }
        }
        let (l, h) = self.naive(&q);
        lo += l;
        hi += h;
        (lo.max(l0), hi.min(h0))
    }
    /// floor(p / 2^n) in normal form
    pub fn div(&mut self, n: u32, p: &Poly) -> Poly {
        if n == 0 {
            return p.clone();
        }
        if p.0.len() > self.limit {
            self.overflow = true;
        }
        let mut n = n;
        let mut p = p.clone();
        let mut out = Poly::default();
        loop {
            let w = pow2(n);
            let (lo, hi) = self.range(&p);
            let a = fdiv(&lo, &w);
            if a == fdiv(&hi, &w) {
                out.put(vec![], a);
                return out;
            }
            // whole multiples come out, and every coefficient is reduced to the symmetric range
            let mut rest = Poly::default();
            for (m, c) in &p.0 {
                let q = fdiv(&(c + pow2(n - 1)), &w);
                let r = c - &q * &w;
                out.put(m.clone(), q);
                if !is0(&r) {
                    rest.0.insert(m.clone(), r);
                }
            }
            p = rest;
            if p.0.is_empty() {
                return out;
            }
            // common factor 2^j; a constant below it is rounded away
            let mut j = n;
            for (m, c) in &p.0 {
                if !m.is_empty() {
                    j = j.min(c.trailing_zeros().unwrap_or(0) as u32);
                }
            }
            if j > 0 {
                let d = pow2(j);
                for c in p.0.values_mut() {
                    *c = fdiv(c, &d);
                }
                p.0.retain(|_, c| !is0(c));
                n -= j;
                if n == 0 {
                    return out.add(&p);
                }
                continue;
            }
            // D(n, D(k, X) + Q) = D(n + k, X + 2^k Q)
            let mut best: Option<(u32, u32)> = None;
            for (m, c) in &p.0 {
                if m.len() == 1 && (*c == one() || *c == BigInt::from(-1)) {
                    if let Atom::Div(k, _) = &self.atoms[m[0] as usize].0 {
                        if best.map(|b| b.1 < *k).unwrap_or(true) {
                            best = Some((m[0], *k));
                        }
                    }
                }
            }
            if let Some((i, k)) = best {
                let x = match &self.atoms[i as usize].0 {
                    Atom::Div(_, x) => x.clone(),
                    _ => unreachable!(),
                };
                let mut q = p.clone();
                let c = q.0.remove(&vec![i]).unwrap();
                let mut np = x;
                if neg(&c) {
                    // -D(k, X) = 1 + D(k, -1 - X)
                    np = Poly::c(BigInt::from(-1)).sub(&np);
                    q = q.add(&Poly::c(one()));
                }
                np.acc(&q, &pow2(k));
                n += k;
                p = np;
                continue;
            }
            break;
        }
        let w = pow2(n);
        let (lo, hi) = self.range(&p);
        let (a, b) = (fdiv(&lo, &w), fdiv(&hi, &w));
        if a == b {
            out.put(vec![], a);
            return out;
        }
        // floor(P / w) = -1 - floor((-1 - P) / w): one of the two is the normal form
        let half = -pow2(n - 1);
        if p.0.iter().find(|x| !x.0.is_empty() && *x.1 != half).map(|x| neg(x.1)).unwrap_or(false) {
            // no quotient has a unit coefficient here, and no factor is common: only -2^(n-1) needs care
            let mut q = Poly::c(BigInt::from(-1)).sub(&p);
            for (m, c) in q.0.iter_mut() {
                if *c == -&half {
                    *c = half.clone();
                    out.put(m.clone(), BigInt::from(-1));
                }
            }
            let d = self.quotient(n, q, -1 - b, -1 - a);
            return out.sub(&d).sub(&Poly::c(one()));
        }
        let d = self.quotient(n, p, a, b);
        out.add(&d)
    }
    fn quotient(&mut self, n: u32, p: Poly, a: BigInt, b: BigInt) -> Poly {
        let key = (n, p.clone());
        let i = match self.divs.get(&key) {
            Some(i) => *i,
            None => {
                let i = self.atoms.len() as u32;
                self.atoms.push((Atom::Div(n, p), a, b));
                self.divs.insert(key, i);
                i
            }
        };
        self.atom(i)
    }
    /// the unsigned value of the term
    pub fn value(&mut self, t: T) -> Poly {
        if let Some(p) = self.val.get(&t) {
            return p.clone();
        }
        let w = width(t);
        let p = match node(t) {
            N::Var(_) if w > 32 => {
                // compilers split 64-bit products into halves: the halves are the atoms
                let mut p = Poly::default();
                let mut l = 0;
                while l < w {
                    let h = (l + 31).min(w - 1);
                    let v = self.opaque(extract(t, h, l));
                    p.acc(&v, &pow2(l));
                    l = h + 1;
                }
                p
            }
            N::Const(b) => Poly::c(big(&b)),
            N::Sum(ts, k) => {
                let half = pow2(w - 1);
                let sg = |x: BigInt| if w > 1 && x >= half { x - pow2(w) } else { x };
                let mut p = Poly::c(sg(big(&k)));
                let (mut lo, mut hi) = (sg(big(&k)), sg(big(&k)));
                for (c, x) in ts.iter() {
                    let v = self.value(*x);
                    let c = sg(big(c));
                    let top: BigInt = (pow2(max_bits(*x)) - 1) * &c;
                    if neg(&c) {
                        lo += top;
                    } else {
                        hi += top;
                    }
                    p.acc(&v, &c);
                }
                self.note(&p, lo, hi);
                self.wrap(p, w)
            }
            N::Mul(a, b) => {
                let (x, y) = (self.value(a), self.value(b));
                let p = x.mul(&y);
                self.note(&p, zero(), (pow2(max_bits(a)) - 1) * (pow2(max_bits(b)) - 1));
                self.wrap(p, w)
            }
            N::Concat(ps) => {
                let mut p = Poly::default();
                for x in ps.iter() {
                    p = p.scale(&pow2(width(*x)));
                    let v = self.value(*x);
                    p.acc(&v, &one());
                }
                p
            }
            N::Extract(a, h, l) => {
                let x = self.value(a);
                let mut p = self.div(l, &x);
                if h + 1 < max_bits(a) {
                    let q = self.div(h + 1, &x);
                    p.acc(&q, &-pow2(h + 1 - l));
                }
                p
            }
            N::Ult(a, b) => {
                let x = self.value(a).sub(&self.value(b));
                self.div(width(a), &x).scale(&BigInt::from(-1))
            }
            N::Ite(k, a, b) => {
                let (c, x, y) = (self.value(k), self.value(a), self.value(b));
                let d = x.sub(&y);
                y.add(&c.mul(&d))
            }
            N::Not(a) => Poly::c(pow2(w) - 1).sub(&self.value(a)),
            N::And(a, b) if w == 1 => self.value(a).mul(&self.value(b)),
            N::Or(a, b) if w == 1 => {
                let (x, y) = (self.value(a), self.value(b));
                x.add(&y).sub(&x.mul(&y))
            }
            N::Xor(a, b) if w == 1 => {
                let (x, y) = (self.value(a), self.value(b));
                x.add(&y).sub(&x.mul(&y).scale(&BigInt::from(2)))
            }
            N::Eq(a, b) => {
                let x = self.value(a).sub(&self.value(b));
                let (lo, hi) = self.range(&x);
                let one_ = Poly::c(one());
                if lo == zero() && hi == zero() {
                    one_
                } else if lo == zero() && hi == one() {
                    one_.sub(&x)
                } else if lo == BigInt::from(-1) && hi == zero() {
                    one_.add(&x)
                } else {
                    self.opaque(t)
                }
            }
            _ => self.opaque(t),
        };
        if p.0.len() > self.limit {
            self.overflow = true;
        }
        self.note(&p, zero(), pow2(max_bits(t)) - 1);
        self.val.insert(t, p.clone());
        p
    }
    /// p lies in [lo, hi]
    fn note(&mut self, p: &Poly, lo: BigInt, hi: BigInt) {
        if p.0.len() < 2 {
            return;
        }
        let (k, q) = primitive(p);
        let (a, b) = if neg(&k) { (-fdiv(&hi, &-&k), -fdiv(&lo, &-&k)) } else { (-fdiv(&-&lo, &k), fdiv(&hi, &k)) };
        let e = self.known.entry(q).or_insert_with(|| (a.clone(), b.clone()));
        if e.0 < a {
            e.0 = a;
        }
        if e.1 > b {
            e.1 = b;
        }
    }
    fn wrap(&mut self, p: Poly, w: u32) -> Poly {
        let q = self.div(w, &p);
        let mut r = p;
        r.acc(&q, &-pow2(w));
        r
    }
    pub fn peek(&self, t: T) -> Option<Poly> {
        self.val.get(&t).cloned()
    }
    /// learn what a literal says, where it is linear
    pub fn learn(&mut self, lit: T, truth: bool) {
        match node(lit) {
            N::Not(a) if width(lit) == 1 => self.learn(a, !truth),
            N::And(a, b) if truth && width(lit) == 1 => {
                self.learn(a, true);
                self.learn(b, true);
            }
            N::Or(a, b) if !truth && width(lit) == 1 => {
                self.learn(a, false);
                self.learn(b, false);
            }
            N::Ult(a, b) => {
                let d = self.value(b).sub(&self.value(a));
                if truth {
                    self.facts.push(d.sub(&Poly::c(one())));
                } else {
                    self.facts.push(d.scale(&BigInt::from(-1)));
                }
            }
            N::Eq(a, b) if truth => {
                let d = self.value(b).sub(&self.value(a));
                self.facts.push(d.clone());
                self.facts.push(d.scale(&BigInt::from(-1)));
            }
            N::Eq(a, b) => {
                let (x, y) = (self.value(a), self.value(b));
                self.apart.push(x.sub(&y));
                for (t, x) in [(a, x), (b, y)] {
                    self.facts.push(Poly::c(pow2(max_bits(t)) - 1).sub(&x));
                    self.facts.push(x);
                }
            }
            _ if width(lit) == 1 => {
                let v = self.value(lit);
                let d = if truth { v.sub(&Poly::c(one())) } else { v.scale(&BigInt::from(-1)) };
                self.facts.push(d);
            }
            _ => {}
        }
    }
    fn num(b: &BigInt) -> String {
        if neg(b) {
            format!("(- {})", -b)
        } else {
            format!("{}", b)
        }
    }
    fn lin(p: &Poly) -> String {
        let mut s = String::from("(+ 0");
        for (m, c) in &p.0 {
            if m.is_empty() {
                let _ = write!(s, " {}", Self::num(c));
            } else {
                let _ = write!(s, " (* {} {})", Self::num(c), Self::var(m));
            }
        }
        s.push(')');
        s
    }
    fn var(m: &Mono) -> String {
        let mut s = String::from("m");
        for x in m {
            let _ = write!(s, "_{}", x);
        }
        s
    }
    /// a linear script: the claims together with everything known about the monomials in them
    pub fn script(&self, neg_goal: &[String], over: &[&Poly], extra: &[Poly], real: bool) -> String {
        let sort = if real { "Real" } else { "Int" };
        let mut monos: BTreeSet<Mono> = BTreeSet::new();
        let mut todo: Vec<Poly> = over.iter().map(|p| (*p).clone()).collect();
        todo.extend(self.facts.iter().cloned());
        todo.extend(extra.iter().cloned());
        let mut body = String::new();
        for (m, e) in &self.eqs {
            let mut d = e.clone();
            d.acc(&Poly([(m.clone(), one())].into_iter().collect()), &BigInt::from(-1));
            let _ = writeln!(body, "(assert (= {} 0))", Self::lin(&d));
            todo.push(d);
        }
        for f in self.facts.iter().chain(extra) {
            let _ = writeln!(body, "(assert (>= {} 0))", Self::lin(f));
        }
        let mut seen: HashSet<u32> = HashSet::new();
        while let Some(p) = todo.pop() {
            for m in p.0.keys() {
                if m.is_empty() || !monos.insert(m.clone()) {
                    continue;
                }
                let (lo, hi) = self.naive(&Poly([(m.clone(), one())].into_iter().collect()));
                let _ = writeln!(body, "(assert (and (>= {0} {1}) (<= {0} {2})))", Self::var(m), Self::num(&lo), Self::num(&hi));
                for a in m {
                    if seen.insert(*a) {
                        if let Atom::Div(n, x) = &self.atoms[*a as usize].0 {
                            let mut r = x.clone();
                            r.acc(&Poly([(vec![*a], one())].into_iter().collect()), &-pow2(*n));
                            let _ = writeln!(body, "(assert (and (>= {0} 0) (<= {0} {1})))", Self::lin(&r), pow2(*n) - 1);
                            todo.push(r);
                        }
                    }
                }
            }
        }
        let mut s = String::new();
        for m in &monos {
            let _ = writeln!(s, "(declare-const {} {})", Self::var(m), sort);
        }
        s.push_str(&body);
        for g in neg_goal {
            let _ = writeln!(s, "(assert {})", g);
        }
        s
    }
    /// r >= m, for an r with r 2^k = a b + h where a b <= most, with the limbs of r in
    /// their ranges and what the literals say. The monomials are free variables within their bounds.
    pub fn below(&self, lits: &[(T, bool)], rt: T, r: &Poly, k: u32, h: &Poly, m: &BigInt, most: &BigInt) -> String {
        let mut me = Ints::new();
        me.val = self.val.clone();
        me.atoms = self.atoms.clone();
        me.divs = self.divs.clone();
        me.terms = self.terms.clone();
        me.known = self.known.clone();
        for (l, v) in lits {
            me.learn(*l, *v);
        }
        let mut polys: Vec<Poly> = me.facts.clone();
        // the 64-bit limbs of r
        let mut i = 0;
        while i < width(rt) {
            let l = me.value(extract(rt, (i + 63).min(width(rt) - 1), i));
            polys.push(l.clone());
            polys.push(Poly::c(pow2(64) - 1).sub(&l));
            i += 64;
        }
        let mut monos: BTreeSet<Mono> = BTreeSet::new();
        let mut body = String::new();
        for f in &polys {
            let _ = writeln!(body, "(assert (>= {} 0))", Self::lin(f));
        }
        for d in &me.apart {
            let _ = writeln!(body, "(assert (or {} {}))", Self::ge(d, &one()), Self::lt(d, &zero()));
        }
        polys.extend(me.apart.iter().cloned());
        // R is r, AB the product
        let _ = writeln!(body, "(declare-const AB Int)\n(assert (>= AB 0))");
        let _ = writeln!(body, "(assert (<= AB {}))", most);
        let _ = writeln!(body, "(assert (= (* {} {}) (+ AB {})))", pow2(k), Self::lin(r), Self::lin(h));
        let _ = writeln!(body, "(assert (>= {} {}))", Self::lin(r), m);
        polys.push(r.clone());
        polys.push(h.clone());
        let mut s = String::new();
        for p in &polys {
            for mo in p.0.keys() {
                if mo.is_empty() || !monos.insert(mo.clone()) {
                    continue;
                }
                let (lo, hi) = me.naive(&Poly([(mo.clone(), one())].into_iter().collect()));
                let _ = writeln!(s, "(declare-const {0} Int)\n(assert (and (>= {0} {1}) (<= {0} {2})))", Self::var(mo), Self::num(&lo), Self::num(&hi));
            }
        }
        s.push_str(&body);
        s
    }
    /// what is left of p modulo m
    pub fn residue(p: &Poly, m: &BigInt) -> Poly {
        let mut r = Poly::default();
        for (k, c) in &p.0 {
            let mut v = fmod(c, m);
            if &v + &v > *m {
                v -= m;
            }
            if !is0(&v) {
                r.0.insert(k.clone(), v);
            }
        }
        r
    }
    /// quotients in p with few possible values
    pub fn narrow(&self, p: &Poly) -> Vec<u32> {
        let mut out: BTreeSet<u32> = BTreeSet::new();
        for m in p.0.keys() {
            for a in m {
                let (k, lo, hi) = &self.atoms[*a as usize];
                if matches!(k, Atom::Div(..)) && hi - lo <= BigInt::from(3) {
                    out.insert(*a);
                }
            }
        }
        out.into_iter().collect()
    }
    /// pairs of quotients that can differ only little: (a, b, lowest, highest value of a - b)
    pub fn close(&self, p: &Poly) -> Vec<(u32, u32, BigInt, BigInt)> {
        let mut out = vec![];
        let mut of: BTreeSet<u32> = BTreeSet::new();
        for m in p.0.keys() {
            of.extend(m);
        }
        for a in &of {
            let Atom::Div(n, x) = &self.atoms[*a as usize].0 else { continue };
            for b in 0..self.atoms.len() as u32 {
                if b == *a || self.fixed.contains_key(&b) || (of.contains(&b) && b > *a) {
                    continue;
                }
                let Atom::Div(k, y) = &self.atoms[b as usize].0 else { continue };
                if k != n {
                    continue;
                }
                let d = x.sub(y);
                if d.0.len() > 3 {
                    continue;
                }
                let (lo, hi) = self.range(&d);
                let (l, h): (BigInt, BigInt) = (fdiv(&lo, &pow2(*n)), -fdiv(&-hi, &pow2(*n)));
                if &h - &l <= BigInt::from(3) {
                    out.push((*a, b, l, h));
                }
            }
        }
        out
    }
    /// short differences with two possible values: (polynomial, lowest, highest value)
    pub fn flags(&self) -> Vec<(Poly, BigInt, BigInt)> {
        let mut out: Vec<(Poly, BigInt, BigInt)> = self
            .known
            .iter()
            .filter(|(p, (l, h))| p.0.len() <= 6 && h - l == one() && p.0.keys().all(|m| m.len() < 2))
            .map(|(p, (l, h))| (p.clone(), l.clone(), h.clone()))
            .collect();
        out.sort_by_key(|x| x.0 .0.keys().cloned().collect::<Vec<_>>());
        out
    }
    pub fn bounds(&self, a: u32) -> (BigInt, BigInt) {
        (self.atoms[a as usize].1.clone(), self.atoms[a as usize].2.clone())
    }
    pub fn atom_poly(&self, a: u32) -> Poly {
        Poly([(vec![a], one())].into_iter().collect())
    }
    /// the solver has shown that the atom has this value
    pub fn fix(&mut self, a: u32, v: BigInt) {
        self.fixed.insert(a, v);
    }
    pub fn substitute(&self, p: &Poly) -> Poly {
        let mut r = Poly::default();
        for (m, c) in &p.0 {
            let mut k = vec![];
            let mut v = c.clone();
            for a in m {
                match self.fixed.get(a) {
                    Some(x) => v *= x,
                    None => k.push(*a),
                }
            }
            r.acc(&Poly([(k, v)].into_iter().filter(|x| !is0(&x.1)).collect()), &one());
        }
        for (a, e) in &self.eqs {
            // a = e
            if let Some(c) = r.0.remove(a) {
                r.acc(e, &c);
            }
        }
        r
    }
    /// p = 0 holds: solve it for an atom
    pub fn equation(&mut self, p: &Poly) {
        self.equation_by(p, true)
    }
    fn equation_by(&mut self, p: &Poly, quotients: bool) {
        let p = self.substitute(p);
        // a quotient if there is one, otherwise any monomial with a unit coefficient
        let mut best: Option<&Mono> = None;
        for (m, c) in &p.0 {
            if !m.is_empty() && (*c == one() || *c == BigInt::from(-1)) {
                let rank = |m: &Mono| ((m.len() == 1) == quotients, m[0]);
                if best.map(|b| rank(b) < rank(m)).unwrap_or(true) {
                    best = Some(m);
                }
            }
        }
        if let Some(a) = best.cloned() {
            let mut e = p.clone();
            let c = e.0.remove(&a).unwrap();
            let e = e.scale(&-c);
            self.eqs.push((a, e));
        } else if !p.0.is_empty() {
            self.facts.push(p.scale(&BigInt::from(-1)));
            self.facts.push(p);
        }
    }
    /// Montgomery factors: words t = k x (mod 2^64) with k = -1/m. They stay atoms, with the
    /// equation x + m t = 2^64 q
    pub fn factors(&mut self, cuts: &[(T, T, T)], k: u64, m: &BigInt) {
        let w = pow2(64);
        let m0 = fmod(m, &w);
        if !is0(&fmod(&(BigInt::from(k) * &m0 + 1), &w)) {
            return;
        }
        for (t, x, _) in cuts {
            let (v, mut e) = (self.value(*t), self.value(*x));
            e.acc(&v, &m0);
            let q = self.div(64, &e);
            e.acc(&q, &-&w);
            if std::env::var("WSYM_INT").is_ok() {
                eprintln!("EQ {}", self.full(&e));
            }
            self.equation_by(&e, false);
        }
    }
    /// the literals as equations
    pub fn solve(&mut self, lit: T, truth: bool) {
        match node(lit) {
            N::Not(a) if width(lit) == 1 => self.solve(a, !truth),
            N::And(a, b) if truth && width(lit) == 1 => {
                self.solve(a, true);
                self.solve(b, true);
            }
            N::Or(a, b) if !truth && width(lit) == 1 => {
                self.solve(a, false);
                self.solve(b, false);
            }
            N::Eq(a, b) if truth => {
                if as_const(a).map(|k| k.is_zero()).unwrap_or(false) {
                    return self.vanish(b);
                }
                if as_const(b).map(|k| k.is_zero()).unwrap_or(false) {
                    return self.vanish(a);
                }
                let d = self.value(b).sub(&self.value(a));
                self.equation(&d);
            }
            _ if width(lit) == 1 => {
                let v = self.value(lit);
                let d = if truth { v.sub(&Poly::c(one())) } else { v };
                self.equation(&d);
            }
            _ => {}
        }
    }
    /// t = 0: so are the parts of a disjunction and the terms of a sum without negative terms
    fn vanish(&mut self, t: T) {
        if let N::Or(a, b) = node(t) {
            self.vanish(a);
            self.vanish(b);
            return;
        }
        let p = self.value(t);
        if p.0.values().any(neg) {
            return self.equation(&p);
        }
        for m in p.0.keys() {
            match m.len() {
                0 => {}
                1 => self.fix(m[0], zero()),
                _ => self.eqs.push((m.clone(), Poly::default())),
            }
        }
    }
    pub fn konst(b: BigInt) -> Poly {
        Poly::c(b)
    }
    pub fn ge(p: &Poly, k: &BigInt) -> String {
        format!("(>= {} {})", Self::lin(p), Self::num(k))
    }
    pub fn lt(p: &Poly, k: &BigInt) -> String {
        format!("(< {} {})", Self::lin(p), Self::num(k))
    }
    pub fn nonzero_mod(p: &Poly, m: &BigInt) -> String {
        format!("(not (= (mod {} {}) 0))", Self::lin(p), m)
    }
    pub fn size(&self) -> usize {
        self.atoms.len()
    }
    pub fn full(&self, p: &Poly) -> String {
        let mut s = String::new();
        let mut as_ = BTreeSet::new();
        for (m, c) in p.0.iter() {
            let _ = write!(s, " {}{}*{}", if neg(c) { "-" } else { "" }, format!("{:#x}", c.magnitude()), Self::var(m));
            as_.extend(m.clone());
        }
        for a in as_ {
            match &self.atoms[a as usize] {
                (Atom::Free, l, h) => {
                    let _ = write!(s, "\n    a{} in [{}, {}]", a, l, h);
                }
                (Atom::Term(t), _, _) => {
                    let _ = write!(s, "\n    a{} = {}", a, show(*t));
                }
                (Atom::Div(n, x), l, h) => {
                    let _ = write!(s, "\n    a{} in [{:#x}, {:#x}] = D({}, {})", a, l, h, n, self.brief(x));
                }
            }
        }
        s
    }
    pub fn brief(&self, p: &Poly) -> String {
        let mut s = String::new();
        for (m, c) in p.0.iter().take(6) {
            let _ = write!(s, " {}{}*{}", if neg(c) { "-" } else { "" }, format!("{:#x}", c.magnitude()), Self::var(m));
        }
        if p.0.len() > 6 {
            let _ = write!(s, " ... {} monomials", p.0.len());
        }
        s
    }
    pub fn show(&self, p: &Poly) -> String {
        let mut s = String::new();
        let mut seen = BTreeSet::new();
        let mut todo = vec![];
        let mut put = |s: &mut String, p: &Poly, todo: &mut Vec<u32>| {
            for (m, c) in p.0.iter().take(12) {
                let _ = write!(s, " {}{}*{}", if neg(c) { "-" } else { "" }, format!("{:#x}", c.magnitude()), Self::var(m));
                for a in m {
                    if seen.insert(*a) {
                        todo.push(*a);
                    }
                }
            }
        };
        put(&mut s, p, &mut todo);
        let mut n = 0;
        while let Some(a) = todo.pop() {
            n += 1;
            if n > 60 {
                break;
            }
            match &self.atoms[a as usize] {
                (Atom::Free, l, h) => {
                    let _ = write!(s, "\n    a{} in [{}, {}]", a, l, h);
                }
                (Atom::Term(t), _, _) => {
                    let _ = write!(s, "\n    a{} = {}", a, show(*t));
                }
                (Atom::Div(n, x), l, h) => {
                    let _ = write!(s, "\n    a{} in [{}, {}] = D({}, ", a, l, h, n);
                    put(&mut s, x, &mut todo);
                    s.push(')');
                }
            }
        }
        s
    }
}

/// case split on the conditions of the selections in the terms: (literals, terms) per case
pub fn cases(ts: &[T], limit: usize) -> Option<Vec<(Vec<(T, bool)>, Vec<T>)>> {
    let mut out = vec![];
    let mut todo = vec![(vec![], ts.to_vec())];
    while let Some((lits, ts)) = todo.pop() {
        let mut conds: HashMap<T, u32> = HashMap::new();
        let mut seen = HashSet::new();
        for t in &ts {
            ite_conds(*t, &mut seen, &mut conds);
        }
        let pick = conds.keys().max_by_key(|t| (conds[*t], std::cmp::Reverse(t.0))).cloned();
        match pick {
            None => out.push((lits, ts)),
            Some(a) => {
                if out.len() + todo.len() > limit {
                    return None;
                }
                for v in [true, false] {
                    let mut memo = HashMap::new();
                    memo.insert(a, boolean(v));
                    // what the literal says about its relatives
                    if let N::Ult(x, y) = node(a) {
                        if v {
                            for r in [eq(x, y), ult(y, x)] {
                                if as_bool(r).is_none() {
                                    memo.insert(r, ff());
                                }
                            }
                        }
                    }
                    if let N::Eq(x, y) = node(a) {
                        if v {
                            for r in [ult(x, y), ult(y, x)] {
                                if as_bool(r).is_none() {
                                    memo.insert(r, ff());
                                }
                            }
                        }
                    }
                    let mut l: Vec<(T, bool)> = lits.clone();
                    l.push((a, v));
                    todo.push((l, ts.iter().map(|t| subst(*t, &mut memo)).collect()));
                }
            }
        }
    }
    Some(out)
}
