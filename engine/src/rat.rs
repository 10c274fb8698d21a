//! Exact rational arithmetic (no external crates).
use std::cmp::Ordering;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Big { pub neg: bool, pub m: Vec<u32> } // little endian, no trailing zeros; zero = empty, neg=false

fn trim(v: &mut Vec<u32>) { while let Some(0) = v.last() { v.pop(); } }
fn cmp_m(a: &[u32], b: &[u32]) -> Ordering {
    if a.len() != b.len() { return a.len().cmp(&b.len()); }
    for i in (0..a.len()).rev() { if a[i] != b[i] { return a[i].cmp(&b[i]); } }
    Ordering::Equal
}
fn add_m(a: &[u32], b: &[u32]) -> Vec<u32> {
    let (a, b) = if a.len() >= b.len() { (a, b) } else { (b, a) };
    let mut r = Vec::with_capacity(a.len() + 1); let mut c = 0u64;
    for i in 0..a.len() { let s = a[i] as u64 + *b.get(i).unwrap_or(&0) as u64 + c; r.push(s as u32); c = s >> 32; }
    if c > 0 { r.push(c as u32); } r
}
fn sub_m(a: &[u32], b: &[u32]) -> Vec<u32> { // a>=b
    let mut r = Vec::with_capacity(a.len()); let mut br = 0i64;
    for i in 0..a.len() { let mut d = a[i] as i64 - *b.get(i).unwrap_or(&0) as i64 - br; if d < 0 { d += 1 << 32; br = 1 } else { br = 0 } r.push(d as u32); }
    trim(&mut r); r
}
fn mul_m(a: &[u32], b: &[u32]) -> Vec<u32> {
    if a.is_empty() || b.is_empty() { return vec![]; }
    let mut r = vec![0u32; a.len() + b.len()];
    for i in 0..a.len() { let mut c = 0u64; let ai = a[i] as u64; for j in 0..b.len() { let t = ai * b[j] as u64 + r[i + j] as u64 + c; r[i + j] = t as u32; c = t >> 32; } r[i + b.len()] = c as u32; }
    trim(&mut r); r
}
fn divrem_small(a: &[u32], d: u32) -> (Vec<u32>, u32) {
    let mut q = vec![0u32; a.len()]; let mut r = 0u64;
    for i in (0..a.len()).rev() { let c = (r << 32) | a[i] as u64; q[i] = (c / d as u64) as u32; r = c % d as u64; }
    trim(&mut q); (q, r as u32)
}
fn shl_bits(a: &[u32], s: u32) -> Vec<u32> { if s == 0 { return a.to_vec(); } let mut r = Vec::with_capacity(a.len() + 1); let mut c = 0u32; for &x in a { r.push((x << s) | c); c = x >> (32 - s); } if c > 0 { r.push(c); } r }
fn shr_bits(a: &[u32], s: u32) -> Vec<u32> { if s == 0 { return a.to_vec(); } let mut r = vec![0u32; a.len()]; for i in 0..a.len() { r[i] = a[i] >> s; if i + 1 < a.len() { r[i] |= a[i + 1] << (32 - s); } } trim(&mut r); r }
pub fn divrem_m(a: &[u32], b: &[u32]) -> (Vec<u32>, Vec<u32>) {
    assert!(!b.is_empty());
    if cmp_m(a, b) == Ordering::Less { return (vec![], a.to_vec()); }
    if b.len() == 1 { let (q, r) = divrem_small(a, b[0]); return (q, if r == 0 { vec![] } else { vec![r] }); }
    let s = b[b.len() - 1].leading_zeros();
    let b2 = shl_bits(b, s); let mut a2 = shl_bits(a, s); if a2.len() == a.len() { a2.push(0); }
    let n = b2.len(); let m = a2.len() - n;
    let mut q = vec![0u32; m];
    for j in (0..m).rev() {
        let num = ((a2[j + n] as u64) << 32) | a2[j + n - 1] as u64;
        let mut qh = num / b2[n - 1] as u64; let mut rh = num % b2[n - 1] as u64;
        while qh >= 1 << 32 || qh * b2[n - 2] as u64 > ((rh << 32) | a2[j + n - 2] as u64) { qh -= 1; rh += b2[n - 1] as u64; if rh >= 1 << 32 { break; } }
        let mut br = 0i64; let mut c = 0u64;
        for i in 0..n { let p = qh * b2[i] as u64 + c; c = p >> 32; let t = a2[i + j] as i64 - br - (p & 0xffffffff) as i64; if t < 0 { a2[i + j] = (t + (1 << 32)) as u32; br = 1 } else { a2[i + j] = t as u32; br = 0 } }
        let t = a2[j + n] as i64 - br - c as i64;
        if t < 0 { a2[j + n] = (t + (1 << 32)) as u32; qh -= 1; let mut c = 0u64; for i in 0..n { let s = a2[i + j] as u64 + b2[i] as u64 + c; a2[i + j] = s as u32; c = s >> 32; } a2[j + n] = (a2[j + n] as u64 + c) as u32; } else { a2[j + n] = t as u32; }
        q[j] = qh as u32;
    }
    trim(&mut q); a2.truncate(n); trim(&mut a2); (q, shr_bits(&a2, s))
}
fn bits_m(a: &[u32]) -> usize { if a.is_empty() { 0 } else { a.len() * 32 - a[a.len() - 1].leading_zeros() as usize } }
fn gcd_m(a: &[u32], b: &[u32]) -> Vec<u32> {
    let (mut a, mut b) = (a.to_vec(), b.to_vec());
    while !b.is_empty() {
        if a.len() <= 4 && b.len() <= 4 { let mut x = to_u128(&a); let mut y = to_u128(&b); while y != 0 { let t = x % y; x = y; y = t; } return from_u128(x); }
        let (_, r) = divrem_m(&a, &b); a = b; b = r;
    }
    a
}
fn to_u128(a: &[u32]) -> u128 { let mut r = 0u128; for i in (0..a.len()).rev() { r = (r << 32) | a[i] as u128; } r }
fn from_u128(mut x: u128) -> Vec<u32> { let mut r = vec![]; while x > 0 { r.push(x as u32); x >>= 32; } r }

impl Big {
    pub fn zero() -> Big { Big { neg: false, m: vec![] } }
    pub fn from_i128(x: i128) -> Big { Big { neg: x < 0, m: from_u128(x.unsigned_abs()) } }
    pub fn is_zero(&self) -> bool { self.m.is_empty() }
    pub fn is_one(&self) -> bool { !self.neg && self.m.len() == 1 && self.m[0] == 1 }
    fn mk(neg: bool, m: Vec<u32>) -> Big { let neg = neg && !m.is_empty(); Big { neg, m } }
    pub fn neg(&self) -> Big { Big::mk(!self.neg, self.m.clone()) }
    pub fn add(&self, o: &Big) -> Big {
        if self.neg == o.neg { return Big::mk(self.neg, add_m(&self.m, &o.m)); }
        match cmp_m(&self.m, &o.m) { Ordering::Equal => Big::zero(), Ordering::Greater => Big::mk(self.neg, sub_m(&self.m, &o.m)), Ordering::Less => Big::mk(o.neg, sub_m(&o.m, &self.m)) }
    }
    pub fn mul(&self, o: &Big) -> Big { Big::mk(self.neg != o.neg, mul_m(&self.m, &o.m)) }
    pub fn pow(&self, n: u32) -> Big { let mut r = Big::from_i128(1); for _ in 0..n { r = r.mul(self); } r }
    pub fn modp(&self, p: u64) -> u64 { let mut r = 0u128; for &x in self.m.iter().rev() { r = ((r << 32) | x as u128) % p as u128; } let r = r as u64; if self.neg && r != 0 { p - r } else { r } }
    pub fn cmp(&self, o: &Big) -> Ordering { match (self.neg, o.neg) { (false, true) => Ordering::Greater, (true, false) => Ordering::Less, (false, false) => cmp_m(&self.m, &o.m), (true, true) => cmp_m(&o.m, &self.m) } }
    pub fn to_dec(&self) -> String {
        if self.m.is_empty() { return "0".into(); }
        let mut v = self.m.clone(); let mut parts = vec![];
        while !v.is_empty() { let (q, r) = divrem_small(&v, 1_000_000_000); parts.push(r); v = q; }
        let mut s = String::new(); if self.neg { s.push('-'); }
        s += &format!("{}", parts.pop().unwrap()); for p in parts.iter().rev() { s += &format!("{:09}", p); } s
    }
    pub fn from_dec(s: &str) -> Big { let (neg, s) = if let Some(t) = s.strip_prefix('-') { (true, t) } else { (false, s) }; let mut r = Big::zero(); let ten9 = Big::from_i128(1_000_000_000);
        let b = s.as_bytes(); let mut i = 0; while i < b.len() { let n = (b.len() - i).min(9); let chunk: i128 = s[i..i + n].parse().unwrap(); r = if n == 9 { r.mul(&ten9) } else { r.mul(&Big::from_i128(10i128.pow(n as u32))) }.add(&Big::from_i128(chunk)); i += n; }
        r.neg = neg && !r.m.is_empty(); r }
    pub fn to_f64(&self) -> f64 { Rat { n: self.clone(), d: Big::from_i128(1) }.to_f64() }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Rat { pub n: Big, pub d: Big }
impl Rat {
    pub fn int(x: i128) -> Rat { Rat { n: Big::from_i128(x), d: Big::from_i128(1) } }
    pub fn new(n: Big, d: Big) -> Rat {
        assert!(!d.is_zero());
        if n.is_zero() { return Rat::int(0); }
        let (mut n, mut d) = (n, d);
        if d.neg { n.neg = !n.neg; d.neg = false; }
        if d.is_one() { return Rat { n, d }; }
        let g = gcd_m(&n.m, &d.m);
        if !(g.len() == 1 && g[0] == 1) { n.m = divrem_m(&n.m, &g).0; d.m = divrem_m(&d.m, &g).0; }
        Rat { n, d }
    }
    pub fn frac(a: i128, b: i128) -> Rat { Rat::new(Big::from_i128(a), Big::from_i128(b)) }
    pub fn is_zero(&self) -> bool { self.n.is_zero() }
    pub fn is_int(&self) -> bool { self.d.is_one() }
    pub fn is_neg(&self) -> bool { self.n.neg }
    pub fn add(&self, o: &Rat) -> Rat { if self.d == o.d { return Rat::new(self.n.add(&o.n), self.d.clone()); } Rat::new(self.n.mul(&o.d).add(&o.n.mul(&self.d)), self.d.mul(&o.d)) }
    pub fn neg(&self) -> Rat { Rat { n: self.n.neg(), d: self.d.clone() } }
    pub fn sub(&self, o: &Rat) -> Rat { self.add(&o.neg()) }
    pub fn mul(&self, o: &Rat) -> Rat { Rat::new(self.n.mul(&o.n), self.d.mul(&o.d)) }
    pub fn div(&self, o: &Rat) -> Rat { Rat::new(self.n.mul(&o.d), self.d.mul(&o.n)) }
    pub fn cmp(&self, o: &Rat) -> Ordering { self.n.mul(&o.d).cmp(&o.n.mul(&self.d)) }
    pub fn abs(&self) -> Rat { let mut r = self.clone(); r.n.neg = false; r }
    pub fn to_i128(&self) -> Option<i128> { if !self.is_int() || self.n.m.len() > 3 { return None; } let v = to_u128(&self.n.m) as i128; Some(if self.n.neg { -v } else { v }) }
    pub fn floor(&self) -> Big { let (q, r) = divrem_m(&self.n.m, &self.d.m); let q = Big::mk(self.n.neg, q); if self.n.neg && !r.is_empty() { q.add(&Big::from_i128(-1)) } else { q } }
    pub fn trunc(&self) -> Big { let (q, _) = divrem_m(&self.n.m, &self.d.m); Big::mk(self.n.neg, q) }
    /// correctly rounded to nearest even (normal range)
    pub fn to_f64(&self) -> f64 {
        if self.n.is_zero() { return 0.0; }
        let nb = bits_m(&self.n.m) as i64; let db = bits_m(&self.d.m) as i64;
        // want quotient with 66+ bits
        let shift = 66 - (nb - db);
        let (num, den) = if shift >= 0 { (shl_big(&self.n.m, shift as usize), self.d.m.clone()) } else { (self.n.m.clone(), shl_big(&self.d.m, (-shift) as usize)) };
        let (q, r) = divrem_m(&num, &den);
        let mut qv = to_u128(&q); // 66..67 bits
        if !r.is_empty() { qv |= 1; } // sticky
        // value = qv * 2^-shift ; u128 to f64 conversion rounds to nearest even with sticky kept
        let f = qv as f64;
        let v = ldexp(f, -shift);
        if self.n.neg { -v } else { v }
    }
    pub fn to_smt(&self) -> String {
        let a = Big { neg: false, m: self.n.m.clone() }.to_dec();
        let s = if self.d.is_one() { format!("{}.0", a) } else { format!("(/ {}.0 {}.0)", a, self.d.to_dec()) };
        if self.n.neg { format!("(- {})", s) } else { s }
    }
    pub fn pow_i(&self, n: i64) -> Rat { let a = n.unsigned_abs() as u32; let r = Rat { n: self.n.pow(a), d: self.d.pow(a) }; if n < 0 { Rat::new(r.d, r.n) } else { r } }
    /// decimal literal such as 1.25e-3
    pub fn from_decimal(s: &str) -> Option<Rat> {
        let (mant, exp) = match s.find(|c| c == 'e' || c == 'E') { Some(i) => (&s[..i], s[i + 1..].parse::<i32>().ok()?), None => (s, 0) };
        let (neg, mant) = if let Some(t) = mant.strip_prefix('-') { (true, t) } else { (false, mant) };
        let (ip, fp) = match mant.find('.') { Some(i) => (&mant[..i], &mant[i + 1..]), None => (mant, "") };
        let digits: String = format!("{}{}", ip, fp); if digits.is_empty() || !digits.bytes().all(|c| c.is_ascii_digit()) { return None; }
        let mut n = Big::from_dec(&digits); if neg && !n.is_zero() { n.neg = true; }
        let e = exp - fp.len() as i32;
        let ten = Big::from_i128(10);
        Some(if e >= 0 { Rat::new(n.mul(&ten.pow(e as u32)), Big::from_i128(1)) } else { Rat::new(n, ten.pow((-e) as u32)) })
    }
    /// exact value of an f64
    pub fn from_f64_exact(x: f64) -> Rat {
        let b = x.to_bits(); let e = ((b >> 52) & 0x7ff) as i32; let m = b & ((1 << 52) - 1);
        let (m, e) = if e == 0 { (m, -1074) } else { (m | (1 << 52), e - 1075) };
        let mut n = Big::from_i128(m as i128); if x < 0.0 { n = n.neg(); }
        let two = Big { neg: false, m: shl_big(&[1], e.unsigned_abs() as usize) };
        if e >= 0 { Rat::new(n.mul(&two), Big::from_i128(1)) } else { Rat::new(n, two) }
    }
}
fn shl_big(a: &[u32], s: usize) -> Vec<u32> { let mut r = vec![0u32; s / 32]; r.extend(shl_bits(a, (s % 32) as u32)); r }
pub fn ldexp(mut f: f64, mut e: i64) -> f64 {
    while e > 1000 { f *= 2f64.powi(1000); e -= 1000; }
    while e < -1000 { f *= 2f64.powi(-1000); e += 1000; }
    f * 2f64.powi(e as i32)
}
