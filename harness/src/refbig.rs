//! Reference big integers: sign and magnitude in base 2^32, written for clarity and shared with
//! nothing in the code under test (which works in base 2^64).
use crate::run::Rng;
use std::cmp::Ordering;

#[derive(Clone, PartialEq, Eq, Debug, Default, Hash)]
pub struct Nat(pub Vec<u32>);

impl Nat {
    pub fn norm(mut self) -> Nat {
        while self.0.last() == Some(&0) {
            self.0.pop();
        }
        self
    }
    pub fn zero() -> Nat {
        Nat(vec![])
    }
    pub fn from_u64(n: u64) -> Nat {
        Nat(vec![n as u32, (n >> 32) as u32]).norm()
    }
    pub fn from_words(w: &[u64]) -> Nat {
        Nat(w
            .iter()
            .flat_map(|&x| [x as u32, (x >> 32) as u32])
            .collect())
        .norm()
    }
    pub fn words(&self) -> Vec<u64> {
        self.0
            .chunks(2)
            .map(|c| c[0] as u64 | (c.get(1).copied().unwrap_or(0) as u64) << 32)
            .collect()
    }
    pub fn is_zero(&self) -> bool {
        self.0.is_empty()
    }
    pub fn bits(&self) -> usize {
        match self.0.last() {
            None => 0,
            Some(t) => self.0.len() * 32 - t.leading_zeros() as usize,
        }
    }
    pub fn bit(&self, i: usize) -> bool {
        self.0.get(i / 32).is_some_and(|w| w >> (i % 32) & 1 == 1)
    }
    pub fn cmp(&self, o: &Nat) -> Ordering {
        self.0
            .len()
            .cmp(&o.0.len())
            .then_with(|| self.0.iter().rev().cmp(o.0.iter().rev()))
    }
    pub fn add(&self, o: &Nat) -> Nat {
        let n = self.0.len().max(o.0.len());
        let mut r = Vec::with_capacity(n + 1);
        let mut c = 0u64;
        for i in 0..n {
            let s = c
                + self.0.get(i).copied().unwrap_or(0) as u64
                + o.0.get(i).copied().unwrap_or(0) as u64;
            r.push(s as u32);
            c = s >> 32;
        }
        r.push(c as u32);
        Nat(r).norm()
    }
    /// `self - o`, requires `self >= o`.
    pub fn sub(&self, o: &Nat) -> Nat {
        let mut r = Vec::with_capacity(self.0.len());
        let mut b = 0i64;
        for i in 0..self.0.len() {
            let mut s = self.0[i] as i64 - o.0.get(i).copied().unwrap_or(0) as i64 - b;
            b = 0;
            if s < 0 {
                s += 1 << 32;
                b = 1;
            }
            r.push(s as u32);
        }
        assert_eq!(b, 0);
        Nat(r).norm()
    }
    pub fn mul(&self, o: &Nat) -> Nat {
        let mut r = vec![0u32; self.0.len() + o.0.len()];
        for (i, &a) in self.0.iter().enumerate() {
            let mut c = 0u64;
            for (j, &b) in o.0.iter().enumerate() {
                let t = a as u64 * b as u64 + r[i + j] as u64 + c;
                r[i + j] = t as u32;
                c = t >> 32;
            }
            r[i + o.0.len()] = c as u32;
        }
        Nat(r).norm()
    }
    pub fn shl(&self, n: usize) -> Nat {
        if self.is_zero() {
            return Nat::zero();
        }
        let mut r = vec![0u32; n / 32];
        let k = n % 32;
        let mut c = 0u32;
        for &w in &self.0 {
            r.push(if k == 0 { w } else { w << k | c });
            c = if k == 0 { 0 } else { w >> (32 - k) };
        }
        r.push(c);
        Nat(r).norm()
    }
    pub fn shr(&self, n: usize) -> Nat {
        let d = n / 32;
        if d >= self.0.len() {
            return Nat::zero();
        }
        let k = n % 32;
        let s = &self.0[d..];
        Nat((0..s.len())
            .map(|i| {
                let hi = s.get(i + 1).copied().unwrap_or(0) as u64;
                ((hi << 32 | s[i] as u64) >> k) as u32
            })
            .collect())
        .norm()
    }
    pub fn pow(&self, n: u64) -> Nat {
        // plain repeated multiplication
        let mut r = Nat::from_u64(1);
        for _ in 0..n {
            r = r.mul(self);
        }
        r
    }
    pub fn from_dec(s: &str) -> Nat {
        let mut r: Vec<u32> = vec![];
        for c in s.bytes() {
            let mut carry = (c - b'0') as u64;
            for w in r.iter_mut() {
                let t = *w as u64 * 10 + carry;
                *w = t as u32;
                carry = t >> 32;
            }
            if carry > 0 {
                r.push(carry as u32);
            }
        }
        Nat(r).norm()
    }
    pub fn to_dec(&self) -> String {
        let mut v = self.0.clone();
        let mut out: Vec<u32> = vec![];
        while !v.is_empty() {
            let mut rem = 0u64;
            for w in v.iter_mut().rev() {
                let t = rem << 32 | *w as u64;
                *w = (t / 1_000_000_000) as u32;
                rem = t % 1_000_000_000;
            }
            out.push(rem as u32);
            while v.last() == Some(&0) {
                v.pop();
            }
        }
        let mut s = match out.pop() {
            None => return "0".into(),
            Some(x) => x.to_string(),
        };
        for x in out.iter().rev() {
            s.push_str(&format!("{x:09}"));
        }
        s
    }
}

#[derive(Clone, PartialEq, Eq, Debug, Default, Hash)]
pub struct Int {
    pub neg: bool,
    pub n: Nat,
}

impl Int {
    pub fn new(neg: bool, n: Nat) -> Int {
        Int {
            neg: neg && !n.is_zero(),
            n,
        }
    }
    pub fn from_i64(n: i64) -> Int {
        Int::new(n < 0, Nat::from_u64(n.unsigned_abs()))
    }
    pub fn is_zero(&self) -> bool {
        self.n.is_zero()
    }
    pub fn neg(&self) -> Int {
        Int::new(!self.neg, self.n.clone())
    }
    pub fn add(&self, o: &Int) -> Int {
        if self.neg == o.neg {
            return Int::new(self.neg, self.n.add(&o.n));
        }
        match self.n.cmp(&o.n) {
            Ordering::Less => Int::new(o.neg, o.n.sub(&self.n)),
            _ => Int::new(self.neg, self.n.sub(&o.n)),
        }
    }
    pub fn sub(&self, o: &Int) -> Int {
        self.add(&o.neg())
    }
    pub fn mul(&self, o: &Int) -> Int {
        Int::new(self.neg != o.neg, self.n.mul(&o.n))
    }
    pub fn pow(&self, e: u64) -> Int {
        Int::new(self.neg && e % 2 == 1, self.n.pow(e))
    }
    pub fn cmp(&self, o: &Int) -> Ordering {
        match (self.neg, o.neg) {
            (false, true) => Ordering::Greater,
            (true, false) => Ordering::Less,
            (false, false) => self.n.cmp(&o.n),
            (true, true) => o.n.cmp(&self.n),
        }
    }
    pub fn shl(&self, n: usize) -> Int {
        Int::new(self.neg, self.n.shl(n))
    }
    /// Floor of the division by 2^n.
    pub fn shr(&self, n: usize) -> Int {
        let q = self.n.shr(n);
        if self.neg && q.shl(n) != self.n {
            Int::new(true, q.add(&Nat::from_u64(1)))
        } else {
            Int::new(self.neg, q)
        }
    }
    /// Two's complement, `w` limbs.
    fn twos(&self, w: usize) -> Vec<u32> {
        let mut v: Vec<u32> = (0..w)
            .map(|i| self.n.0.get(i).copied().unwrap_or(0))
            .collect();
        if self.neg {
            let mut c = 1u64;
            for x in v.iter_mut() {
                let t = !*x as u64 + c;
                *x = t as u32;
                c = t >> 32;
            }
        }
        v
    }
    fn from_twos(mut v: Vec<u32>) -> Int {
        let neg = v.last().is_some_and(|x| x >> 31 == 1);
        if neg {
            let mut c = 1u64;
            for x in v.iter_mut() {
                let t = !*x as u64 + c;
                *x = t as u32;
                c = t >> 32;
            }
        }
        Int::new(neg, Nat(v).norm())
    }
    pub fn bitop(&self, o: &Int, f: impl Fn(u32, u32) -> u32) -> Int {
        let w = self.n.0.len().max(o.n.0.len()) + 2;
        Int::from_twos(
            self.twos(w)
                .iter()
                .zip(o.twos(w))
                .map(|(a, b)| f(*a, b))
                .collect(),
        )
    }
    pub fn to_dec(&self) -> String {
        format!("{}{}", if self.neg { "-" } else { "" }, self.n.to_dec())
    }
    pub fn short(&self) -> String {
        let w = self.n.words();
        if w.len() > 80 {
            // a summary that still tells different values apart
            let mut h = std::collections::hash_map::DefaultHasher::new();
            std::hash::Hash::hash(&self.n, &mut h);
            let h = std::hash::Hasher::finish(&h);
            let sign = if self.neg { "-" } else { "" };
            let top = w[w.len() - 1];
            return format!(
                "{sign}0x{top:016x}_..({} words, hash {h:x}).._{:016x}",
                w.len(),
                w[0]
            );
        }
        let h: Vec<_> = w.iter().rev().map(|x| format!("{x:016x}")).collect();
        format!("{}0x{}", if self.neg { "-" } else { "" }, h.join("_"))
    }
}

// ---------------------------------------------------------------- operands

const EDGE: [u64; 16] = [
    0,
    1,
    2,
    3,
    u64::MAX,
    u64::MAX - 1,
    1 << 63,
    (1 << 63) - 1,
    (1 << 63) + 1,
    1 << 32,
    (1 << 32) - 1,
    (1 << 32) + 1,
    u64::MAX << 32,
    0x5555_5555_5555_5555,
    0x7FFF_FFFF_0000_0001,
    10_000_000_000_000_000_000,
];

pub fn gen_word(r: &mut Rng) -> u64 {
    match r.below(8) {
        0..=3 => *r.pick(&EDGE),
        4 => r.u64() >> r.below(64),
        5 => 1u64 << r.below(64),
        _ => r.u64(),
    }
}

/// A canonical magnitude of up to `max` words.
pub fn gen_nat(r: &mut Rng, max: usize) -> Nat {
    let len = r.size(max);
    let w: Vec<u64> = match r.below(8) {
        0 => {
            // around a power of two
            let k = r.below(64 * len.max(1));
            let p = Nat::from_u64(1).shl(k);
            return match r.below(3) {
                0 => p,
                1 => p.sub(&Nat::from_u64(1)),
                _ => p.add(&Nat::from_u64(1)),
            };
        }
        1 => vec![*r.pick(&EDGE); len],
        2 => {
            // mostly zero words
            let mut v = vec![0; len];
            if len > 0 {
                let i = r.below(len);
                v[i] = gen_word(r);
                v[len - 1] = gen_word(r).max(1);
            }
            v
        }
        3 => (0..len).map(|_| r.u64()).collect(),
        _ => (0..len).map(|_| gen_word(r)).collect(),
    };
    Nat::from_words(&w)
}

/// A magnitude of exactly `len` words.
pub fn gen_long(r: &mut Rng, len: usize) -> Nat {
    let mut w: Vec<u64> = match r.below(6) {
        0 => vec![*r.pick(&EDGE); len],
        1 => {
            let mut v = vec![0; len];
            for _ in 0..r.range(0, 3) {
                let i = r.below(len);
                v[i] = gen_word(r);
            }
            v
        }
        2 => {
            let mut v = vec![u64::MAX; len];
            for _ in 0..r.range(0, 3) {
                let i = r.below(len);
                v[i] = gen_word(r);
            }
            v
        }
        3 => (0..len).map(|_| gen_word(r)).collect(),
        _ => (0..len).map(|_| r.u64()).collect(),
    };
    if w[len - 1] == 0 {
        w[len - 1] = gen_word(r).max(1);
    }
    Nat::from_words(&w)
}

pub fn gen_int(r: &mut Rng, max: usize) -> Int {
    let n = gen_nat(r, max);
    Int::new(r.bool(), n)
}

/// An operand related to `a`: equal magnitude, neighbours, common top words, multiples...
pub fn gen_related(r: &mut Rng, a: &Nat, max: usize) -> Nat {
    let one = Nat::from_u64(1);
    match r.below(10) {
        0 => a.clone(),
        1 => a.add(&one),
        2 if !a.is_zero() => a.sub(&one),
        3 if !a.is_zero() => {
            // same words except one
            let mut w = a.words();
            let i = r.below(w.len());
            w[i] = gen_word(r);
            Nat::from_words(&w)
        }
        4 => {
            let k = r.size(64 * 3);
            a.shl(k)
        }
        5 => {
            let k = r.size(64 * 3);
            a.shr(k)
        }
        6 => {
            // complement of the words: sums that carry all along
            Nat::from_words(&a.words().iter().map(|x| !x).collect::<Vec<_>>())
        }
        7 => {
            let d = Nat::from_u64(gen_word(r));
            a.mul(&d)
        }
        _ => gen_nat(r, max),
    }
}
