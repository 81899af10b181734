//! Copy-on-write byte memory with symbolic bytes.
use crate::bv::Bv;
use crate::term::*;
use std::rc::Rc;

pub const PS: usize = 256;

#[derive(Clone)]
pub struct Page {
    pub data: [u8; PS],
    /// (term id, byte index); term u32::MAX = concrete
    pub sym: Option<Box<[(u32, u32); PS]>>,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum MB {
    C(u8),
    S(T, u32),
}

#[derive(Clone)]
pub struct Mem {
    pub pages: Vec<Rc<Page>>,
}

impl Mem {
    pub fn new(bytes: usize) -> Mem {
        let z = Rc::new(Page { data: [0; PS], sym: None });
        Mem { pages: vec![z; bytes / PS] }
    }
    pub fn len(&self) -> usize {
        self.pages.len() * PS
    }
    pub fn grow(&mut self, bytes: usize) {
        let z = Rc::new(Page { data: [0; PS], sym: None });
        let n = self.pages.len() + bytes / PS;
        self.pages.resize(n, z);
    }
    #[inline]
    pub fn get(&self, a: usize) -> MB {
        let p = &self.pages[a / PS];
        let o = a % PS;
        if let Some(s) = &p.sym {
            if s[o].0 != u32::MAX {
                return MB::S(T(s[o].0), s[o].1);
            }
        }
        MB::C(p.data[o])
    }
    #[inline]
    pub fn set(&mut self, a: usize, b: MB) {
        let p = Rc::make_mut(&mut self.pages[a / PS]);
        let o = a % PS;
        match b {
            MB::C(x) => {
                p.data[o] = x;
                if let Some(s) = &mut p.sym {
                    s[o].0 = u32::MAX;
                }
            }
            MB::S(t, i) => {
                let s = p.sym.get_or_insert_with(|| Box::new([(u32::MAX, 0); PS]));
                s[o] = (t.0, i);
            }
        }
    }
    /// fast concrete load
    #[inline]
    pub fn load_c(&self, a: usize, n: usize) -> Option<u64> {
        let mut r = 0u64;
        let o = a % PS;
        if o + n <= PS {
            let p = &self.pages[a / PS];
            if let Some(s) = &p.sym {
                for i in 0..n {
                    if s[o + i].0 != u32::MAX {
                        return None;
                    }
                }
            }
            for i in (0..n).rev() {
                r = r << 8 | p.data[o + i] as u64;
            }
            return Some(r);
        }
        for i in (0..n).rev() {
            match self.get(a + i) {
                MB::C(x) => r = r << 8 | x as u64,
                _ => return None,
            }
        }
        Some(r)
    }
    #[inline]
    pub fn store_c(&mut self, a: usize, n: usize, v: u64) {
        let o = a % PS;
        if o + n <= PS {
            let p = Rc::make_mut(&mut self.pages[a / PS]);
            if let Some(s) = &mut p.sym {
                for i in 0..n {
                    s[o + i].0 = u32::MAX;
                }
            }
            for i in 0..n {
                p.data[o + i] = (v >> (8 * i)) as u8;
            }
            return;
        }
        for i in 0..n {
            self.set(a + i, MB::C((v >> (8 * i)) as u8));
        }
    }
    /// little-endian term of n bytes
    pub fn load_le(&self, a: usize, n: usize) -> T {
        let b: Vec<MB> = (0..n).rev().map(|i| self.get(a + i)).collect();
        bytes_term(&b)
    }
    /// big-endian term of n bytes
    pub fn load_be(&self, a: usize, n: usize) -> T {
        let b: Vec<MB> = (0..n).map(|i| self.get(a + i)).collect();
        bytes_term(&b)
    }
    pub fn store_le(&mut self, a: usize, n: usize, t: T) {
        if let Some(b) = as_const(t) {
            for i in 0..n {
                self.set(a + i, MB::C(b.byte(i as u32)));
            }
            return;
        }
        for i in 0..n {
            self.set(a + i, byte_of(t, i as u32));
        }
    }
    pub fn store_be(&mut self, a: usize, n: usize, t: T) {
        if let Some(b) = as_const(t) {
            for i in 0..n {
                self.set(a + i, MB::C(b.byte((n - 1 - i) as u32)));
            }
            return;
        }
        for i in 0..n {
            self.set(a + i, byte_of(t, (n - 1 - i) as u32));
        }
    }
}

/// byte i (little-endian index) of a term, resolved through concatenations
pub fn byte_of(t: T, i: u32) -> MB {
    match node(t) {
        N::Const(b) => MB::C(b.byte(i)),
        N::Concat(p) => {
            let mut bot = 0;
            for x in p.iter().rev() {
                let w = width(*x);
                if i * 8 >= bot && i * 8 + 8 <= bot + w {
                    if (i * 8 - bot) % 8 == 0 {
                        return byte_of(*x, (i * 8 - bot) / 8);
                    }
                    break;
                }
                bot += w;
            }
            // unaligned pieces: isolate the byte
            let e = extract(t, i * 8 + 7, i * 8);
            match as_const(e) {
                Some(b) => MB::C(b.byte(0)),
                None => MB::S(e, 0),
            }
        }
        N::Extract(x, _, lo) if lo % 8 == 0 => byte_of(x, i + lo / 8),
        _ => MB::S(t, i),
    }
}

/// bytes given most significant first
pub fn bytes_term(b: &[MB]) -> T {
    let mut ps: Vec<T> = Vec::new();
    let mut i = 0;
    while i < b.len() {
        match b[i] {
            MB::C(_) => {
                let mut v = vec![];
                while i < b.len() {
                    if let MB::C(x) = b[i] {
                        v.push(x);
                        i += 1;
                    } else {
                        break;
                    }
                }
                v.reverse();
                ps.push(cst(Bv::from_le(&v)));
            }
            MB::S(t, k) => {
                let mut n = 1;
                while i + n < b.len() {
                    match b[i + n] {
                        MB::S(t2, k2) if t2 == t && k2 + n as u32 == k => n += 1,
                        _ => break,
                    }
                }
                let lo = (k + 1 - n as u32) * 8;
                let hi = k * 8 + 7;
                let w = width(t);
                if hi < w {
                    ps.push(extract(t, hi, lo));
                } else {
                    ps.push(extract(zext(t, hi + 1), hi, lo));
                }
                i += n;
            }
        }
    }
    concat(&ps)
}
