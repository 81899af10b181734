//! Fixed-width bit-vector constants (any width).
use std::fmt;

#[derive(Clone, PartialEq, Eq, Hash)]
pub struct Bv {
    pub w: u32,
    pub l: Vec<u64>,
}

fn nl(w: u32) -> usize {
    ((w + 63) / 64) as usize
}

impl Bv {
    pub fn zero(w: u32) -> Bv {
        Bv { w, l: vec![0; nl(w)] }
    }
    pub fn new(w: u32, v: u64) -> Bv {
        let mut b = Bv::zero(w);
        if w > 0 {
            b.l[0] = v;
        }
        b.norm();
        b
    }
    pub fn from_limbs(w: u32, l: &[u64]) -> Bv {
        let mut b = Bv::zero(w);
        for i in 0..b.l.len().min(l.len()) {
            b.l[i] = l[i];
        }
        b.norm();
        b
    }
    pub fn ones(w: u32) -> Bv {
        let mut b = Bv { w, l: vec![u64::MAX; nl(w)] };
        b.norm();
        b
    }
    fn norm(&mut self) {
        let r = self.w % 64;
        if r != 0 {
            let n = self.l.len();
            self.l[n - 1] &= (1u64 << r) - 1;
        }
    }
    pub fn is_zero(&self) -> bool {
        self.l.iter().all(|x| *x == 0)
    }
    pub fn is_ones(&self) -> bool {
        *self == Bv::ones(self.w)
    }
    pub fn is_one(&self) -> bool {
        self.l[0] == 1 && self.l[1..].iter().all(|x| *x == 0)
    }
    pub fn fits_u64(&self) -> bool {
        self.l[1..].iter().all(|x| *x == 0)
    }
    pub fn u64(&self) -> u64 {
        self.l[0]
    }
    pub fn bit(&self, i: u32) -> bool {
        (self.l[(i / 64) as usize] >> (i % 64)) & 1 == 1
    }
    pub fn set_bit(&mut self, i: u32, v: bool) {
        if v {
            self.l[(i / 64) as usize] |= 1 << (i % 64);
        } else {
            self.l[(i / 64) as usize] &= !(1 << (i % 64));
        }
    }
    pub fn msb(&self) -> bool {
        self.bit(self.w - 1)
    }
    pub fn bits(&self) -> u32 {
        // number of significant bits
        for i in (0..self.l.len()).rev() {
            if self.l[i] != 0 {
                return i as u32 * 64 + 64 - self.l[i].leading_zeros();
            }
        }
        0
    }
    pub fn not(&self) -> Bv {
        let mut r = Bv { w: self.w, l: self.l.iter().map(|x| !x).collect() };
        r.norm();
        r
    }
    fn zip(&self, o: &Bv, f: impl Fn(u64, u64) -> u64) -> Bv {
        debug_assert_eq!(self.w, o.w);
        let mut r =
            Bv { w: self.w, l: self.l.iter().zip(&o.l).map(|(a, b)| f(*a, *b)).collect() };
        r.norm();
        r
    }
    pub fn and(&self, o: &Bv) -> Bv {
        self.zip(o, |a, b| a & b)
    }
    pub fn or(&self, o: &Bv) -> Bv {
        self.zip(o, |a, b| a | b)
    }
    pub fn xor(&self, o: &Bv) -> Bv {
        self.zip(o, |a, b| a ^ b)
    }
    pub fn add(&self, o: &Bv) -> Bv {
        assert_eq!(self.w, o.w);
        let mut r = Bv::zero(self.w);
        let mut c = 0u128;
        for i in 0..self.l.len() {
            let s = self.l[i] as u128 + o.l[i] as u128 + c;
            r.l[i] = s as u64;
            c = s >> 64;
        }
        r.norm();
        r
    }
    pub fn neg(&self) -> Bv {
        self.not().add(&Bv::new(self.w, 1))
    }
    pub fn sub(&self, o: &Bv) -> Bv {
        self.add(&o.neg())
    }
    pub fn mul(&self, o: &Bv) -> Bv {
        assert_eq!(self.w, o.w);
        let n = self.l.len();
        let mut r = Bv::zero(self.w);
        for i in 0..n {
            let mut c = 0u128;
            if self.l[i] == 0 {
                continue;
            }
            for j in 0..n - i {
                let s = self.l[i] as u128 * o.l[j] as u128 + r.l[i + j] as u128 + c;
                r.l[i + j] = s as u64;
                c = s >> 64;
            }
        }
        r.norm();
        r
    }
    pub fn ult(&self, o: &Bv) -> bool {
        assert_eq!(self.w, o.w);
        for i in (0..self.l.len()).rev() {
            if self.l[i] != o.l[i] {
                return self.l[i] < o.l[i];
            }
        }
        false
    }
    pub fn slt(&self, o: &Bv) -> bool {
        match (self.msb(), o.msb()) {
            (true, false) => true,
            (false, true) => false,
            _ => self.ult(o),
        }
    }
    pub fn shl_n(&self, k: u32) -> Bv {
        let mut r = Bv::zero(self.w);
        if k >= self.w {
            return r;
        }
        let ws = (k / 64) as usize;
        let bs = k % 64;
        for i in (ws..self.l.len()).rev() {
            let mut v = self.l[i - ws] << bs;
            if bs > 0 && i > ws {
                v |= self.l[i - ws - 1] >> (64 - bs);
            }
            r.l[i] = v;
        }
        r.norm();
        r
    }
    pub fn lshr_n(&self, k: u32) -> Bv {
        let mut r = Bv::zero(self.w);
        if k >= self.w {
            return r;
        }
        let ws = (k / 64) as usize;
        let bs = k % 64;
        let n = self.l.len();
        for i in 0..n - ws {
            let mut v = self.l[i + ws] >> bs;
            if bs > 0 && i + ws + 1 < n {
                v |= self.l[i + ws + 1] << (64 - bs);
            }
            r.l[i] = v;
        }
        r
    }
    pub fn shamt(&self) -> u32 {
        if self.fits_u64() && self.l[0] < self.w as u64 {
            self.l[0] as u32
        } else {
            self.w
        }
    }
    pub fn ashr_n(&self, k: u32) -> Bv {
        let k = k.min(self.w);
        let r = self.lshr_n(k);
        if self.msb() && k > 0 {
            r.or(&Bv::ones(self.w).shl_n(self.w - k))
        } else {
            r
        }
    }
    pub fn udivrem(&self, o: &Bv) -> (Bv, Bv) {
        // SMT-LIB semantics for zero divisor
        if o.is_zero() {
            return (Bv::ones(self.w), self.clone());
        }
        if self.fits_u64() && o.fits_u64() {
            return (
                Bv::new(self.w, self.l[0] / o.l[0]),
                Bv::new(self.w, self.l[0] % o.l[0]),
            );
        }
        let mut q = Bv::zero(self.w);
        let mut r = Bv::zero(self.w + 1);
        let d = o.zext(self.w + 1);
        for i in (0..self.bits()).rev() {
            r = r.shl_n(1);
            r.set_bit(0, self.bit(i));
            if !r.ult(&d) {
                r = r.sub(&d);
                q.set_bit(i, true);
            }
        }
        (q, r.extract(self.w - 1, 0))
    }
    pub fn zext(&self, w: u32) -> Bv {
        Bv::from_limbs(w, &self.l)
    }
    pub fn sext(&self, w: u32) -> Bv {
        let r = self.zext(w);
        if self.msb() {
            r.or(&Bv::ones(w).shl_n(self.w))
        } else {
            r
        }
    }
    pub fn extract(&self, hi: u32, lo: u32) -> Bv {
        let s = self.lshr_n(lo);
        Bv::from_limbs(hi - lo + 1, &s.l)
    }
    pub fn concat(&self, lo: &Bv) -> Bv {
        let w = self.w + lo.w;
        self.zext(w).shl_n(lo.w).or(&lo.zext(w))
    }
    pub fn hex(&self) -> String {
        let n = ((self.w + 3) / 4) as usize;
        let mut s = String::with_capacity(n);
        for i in (0..n).rev() {
            let limb = self.l[i / 16];
            let d = (limb >> ((i % 16) * 4)) & 15;
            s.push(std::char::from_digit(d as u32, 16).unwrap());
        }
        s
    }
    pub fn from_hex(w: u32, h: &str) -> Bv {
        let mut r = Bv::zero(w);
        for (i, c) in h.bytes().rev().enumerate() {
            let d = (c as char).to_digit(16).expect("hex") as u64;
            if (i * 4) < (w as usize) {
                r.l[i / 16] |= d << ((i % 16) * 4);
            }
        }
        r.norm();
        r
    }
    pub fn from_bin(w: u32, h: &str) -> Bv {
        let mut r = Bv::zero(w);
        for (i, c) in h.bytes().rev().enumerate() {
            if c == b'1' && (i as u32) < w {
                r.set_bit(i as u32, true);
            }
        }
        r
    }
    /// little-endian byte i
    pub fn byte(&self, i: u32) -> u8 {
        (self.l[(i / 8) as usize] >> ((i % 8) * 8)) as u8
    }
    /// from little-endian bytes
    pub fn from_le(b: &[u8]) -> Bv {
        let mut r = Bv::zero(b.len() as u32 * 8);
        for (i, x) in b.iter().enumerate() {
            r.l[i / 8] |= (*x as u64) << ((i % 8) * 8);
        }
        r
    }
    pub fn to_le(&self) -> Vec<u8> {
        (0..(self.w + 7) / 8).map(|i| self.byte(i)).collect()
    }
    pub fn smt(&self) -> String {
        if self.w % 4 == 0 {
            format!("#x{}", self.hex())
        } else {
            let mut s = String::from("#b");
            for i in (0..self.w).rev() {
                s.push(if self.bit(i) { '1' } else { '0' });
            }
            s
        }
    }
}

impl fmt::Debug for Bv {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "0x{}:{}", self.hex(), self.w)
    }
}

/// keccak-256
pub fn keccak256(input: &[u8]) -> [u8; 32] {
    const RC: [u64; 24] = [
        0x0000000000000001, 0x0000000000008082, 0x800000000000808a, 0x8000000080008000,
        0x000000000000808b, 0x0000000080000001, 0x8000000080008081, 0x8000000000008009,
        0x000000000000008a, 0x0000000000000088, 0x0000000080008009, 0x000000008000000a,
        0x000000008000808b, 0x800000000000008b, 0x8000000000008089, 0x8000000000008003,
        0x8000000000008002, 0x8000000000000080, 0x000000000000800a, 0x800000008000000a,
        0x8000000080008081, 0x8000000000008080, 0x0000000080000001, 0x8000000080008008,
    ];
    const ROT: [u32; 24] =
        [1, 3, 6, 10, 15, 21, 28, 36, 45, 55, 2, 14, 27, 41, 56, 8, 25, 43, 62, 18, 39, 61, 20, 44];
    const PIL: [usize; 24] =
        [10, 7, 11, 17, 18, 3, 5, 16, 8, 21, 24, 4, 15, 23, 19, 13, 12, 2, 20, 14, 22, 9, 6, 1];
    fn f(s: &mut [u64; 25]) {
        for rc in RC {
            let mut c = [0u64; 5];
            for x in 0..5 {
                c[x] = s[x] ^ s[x + 5] ^ s[x + 10] ^ s[x + 15] ^ s[x + 20];
            }
            for x in 0..5 {
                let d = c[(x + 4) % 5] ^ c[(x + 1) % 5].rotate_left(1);
                for y in 0..5 {
                    s[x + 5 * y] ^= d;
                }
            }
            let mut t = s[1];
            for i in 0..24 {
                let j = PIL[i];
                let b = s[j];
                s[j] = t.rotate_left(ROT[i]);
                t = b;
            }
            for y in 0..5 {
                let r = [s[5 * y], s[5 * y + 1], s[5 * y + 2], s[5 * y + 3], s[5 * y + 4]];
                for x in 0..5 {
                    s[5 * y + x] = r[x] ^ (!r[(x + 1) % 5] & r[(x + 2) % 5]);
                }
            }
            s[0] ^= rc;
        }
    }
    let mut s = [0u64; 25];
    let mut m = input.to_vec();
    m.push(1);
    while m.len() % 136 != 0 {
        m.push(0);
    }
    let n = m.len();
    m[n - 1] |= 0x80;
    for ch in m.chunks(136) {
        for i in 0..17 {
            s[i] ^= u64::from_le_bytes(ch[8 * i..8 * i + 8].try_into().unwrap());
        }
        f(&mut s);
    }
    let mut out = [0u8; 32];
    for i in 0..4 {
        out[8 * i..8 * i + 8].copy_from_slice(&s[i].to_le_bytes());
    }
    out
}
