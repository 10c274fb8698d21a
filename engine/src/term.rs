//! Hash-consed real-valued terms with modular fingerprints (Schwartz-Zippel canonicalisation),
//! numeric sample lanes and interval evaluation.
use crate::rat::{Big, Rat};
use std::collections::HashMap;

pub type T = u32;
pub const P: u64 = (1u64 << 61) - 1;
#[derive(Default, Clone, Copy)] pub struct Fx(u64);
impl std::hash::Hasher for Fx { fn finish(&self) -> u64 { self.0 } fn write(&mut self, b: &[u8]) { for x in b { self.write_u64(*x as u64); } } fn write_u8(&mut self, x: u8) { self.write_u64(x as u64) } fn write_u32(&mut self, x: u32) { self.write_u64(x as u64) } fn write_usize(&mut self, x: usize) { self.write_u64(x as u64) } fn write_u64(&mut self, x: u64) { self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517cc1b727220a95); self.0 ^= self.0 >> 32; } }
pub type Fast<K, V> = HashMap<K, V, std::hash::BuildHasherDefault<Fx>>;
pub const L: usize = 4; // fingerprint lanes
pub const S: usize = 160; // numeric sample lanes

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum F { Sqrt, Abs, Ln, Log10, Log2, Exp, Exp2, Sin, Cos, Tan, Asin, Acos, Atan, Sinh, Cosh, Tanh, Cbrt, Round, Floor, Ceil, Trunc, RoundEven }
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Spec { NaN, Inf, NegInf }
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Node { Const(Rat), Spec(Spec), Pi, Var(u32), Add(T, T), Mul(T, T), Div(T, T), Fun(F, T), Pow(T, T), Atan2(T, T) }

#[derive(Clone, Debug)]
pub struct VarInfo { pub lo: f64, pub hi: f64, pub f32: bool, pub idx: usize, pub fresh: bool }

/// one modulus per lane: constants, too, are compared modulo four unrelated primes
pub const PR: [u64; L] = [P, 1652209333470525283, 1758790999861185869, 1291759872201423631];
fn mulp(a: u64, b: u64, l: usize) -> u64 { let t = a as u128 * b as u128; if l == 0 { let r = (t & P as u128) as u64 + (t >> 61) as u64; if r >= P { r - P } else { r } } else { (t % PR[l] as u128) as u64 } }
fn addp(a: u64, b: u64, l: usize) -> u64 { let r = a + b; if r >= PR[l] { r - PR[l] } else { r } }
fn invp(a: u64, l: usize) -> u64 { let (mut r0, mut r1) = (PR[l] as i128, a as i128); let (mut t0, mut t1) = (0i128, 1i128); while r1 != 0 { let q = r0 / r1; (r0, r1) = (r1, r0 - q * r1); (t0, t1) = (t1, t0 - q * t1); } if r0 != 1 { return 0; } t0.rem_euclid(PR[l] as i128) as u64 }
fn cfp(r: &Rat) -> Fp { let mut f = [0; L]; for l in 0..L { f[l] = mulp(r.n.modp(PR[l]), invp(r.d.modp(PR[l]), l), l); } f }
pub fn mix(mut z: u64) -> u64 { z = z.wrapping_add(0x9e3779b97f4a7c15); z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9); z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb); z ^ (z >> 31) }
fn hfp(tag: u64, parts: &[u64], lane: u64) -> u64 { let mut h = mix(tag ^ (lane << 56)); for &p in parts { h = mix(h ^ p); } h % PR[lane as usize] }
type Fp = [u64; L];

pub struct Terms {
    pub nodes: Vec<Node>,
    pub fps: Vec<Fp>,
    map: Fast<Fp, T>, memo: Fast<(u8, T, T), T>,
    pub vars: Vec<VarInfo>,
    pub samples: Vec<Vec<f64>>, // per var: S values
    vals: Vec<Option<Box<[f64; S]>>>,
    pub merges: u64,
    pub zero: T, pub one: T, pub neg1: T, pub nan: T, pub inf: T, pub ninf: T, pub pi: T,
    pub seed: u64,
    pub pt_cache: HashMap<T, Iv>,
    pub merge_log: Vec<(Node, T)>,
}

#[derive(Clone, Copy, Debug)]
pub struct Iv { pub lo: f64, pub hi: f64 }
fn dn(x: f64) -> f64 { if x.is_nan() { f64::NEG_INFINITY } else { x.next_down() } }
fn up(x: f64) -> f64 { if x.is_nan() { f64::INFINITY } else { x.next_up() } }
/// the floating-point sum is the exact sum (TwoSum)
fn sum_exact(a: f64, b: f64, s: f64) -> bool { if !s.is_finite() { return false; } let bb = s - a; (a - (s - bb)) + (b - bb) == 0.0 }
fn pad(x: Iv) -> Iv { // transcendental: assume libm error < 4 ulp
    let l = x.lo - x.lo.abs() * 1e-15 - 5e-324; let h = x.hi + x.hi.abs() * 1e-15 + 5e-324; Iv { lo: dn(l), hi: up(h) } }
impl Iv {
    pub fn all() -> Iv { Iv { lo: f64::NEG_INFINITY, hi: f64::INFINITY } }
    pub fn pt(x: f64) -> Iv { Iv { lo: x, hi: x } }
    pub fn add(self, o: Iv) -> Iv { let (l, h) = (self.lo + o.lo, self.hi + o.hi); Iv { lo: if sum_exact(self.lo, o.lo, l) { l } else { dn(l) }, hi: if sum_exact(self.hi, o.hi, h) { h } else { up(h) } } }
    pub fn neg(self) -> Iv { Iv { lo: -self.hi, hi: -self.lo } }
    pub fn sub(self, o: Iv) -> Iv { self.add(o.neg()) }
    pub fn mul(self, o: Iv) -> Iv {
        let m = |a: f64, b: f64| -> (f64, f64) { if a == 0.0 || b == 0.0 { return (0.0, 0.0); } let p = a * b; if p.abs() > 1e-290 && p.abs() < 1e290 && a.mul_add(b, -p) == 0.0 { (p, p) } else { (dn(p), up(p)) } };
        let c = [m(self.lo, o.lo), m(self.lo, o.hi), m(self.hi, o.lo), m(self.hi, o.hi)];
        let (mut lo, mut hi) = (c.iter().map(|x| x.0).fold(f64::INFINITY, f64::min), c.iter().map(|x| x.1).fold(f64::NEG_INFINITY, f64::max));
        // signs survive underflow
        if (self.lo >= 0.0 && o.lo >= 0.0) || (self.hi <= 0.0 && o.hi <= 0.0) { lo = lo.max(0.0); } if (self.lo >= 0.0 && o.hi <= 0.0) || (self.hi <= 0.0 && o.lo >= 0.0) { hi = hi.min(0.0); }
        Iv { lo, hi }
    }
    pub fn inv(self) -> Iv { let r = self.inv0(); if self.lo >= 0.0 { Iv { lo: r.lo.max(0.0), hi: r.hi } } else if self.hi <= 0.0 { Iv { lo: r.lo, hi: r.hi.min(0.0) } } else { r } }
    fn inv0(self) -> Iv { if self.lo > 0.0 || self.hi < 0.0 { Iv { lo: dn(1.0 / self.hi), hi: up(1.0 / self.lo) } } else if self.lo == 0.0 && self.hi > 0.0 { Iv { lo: dn(1.0 / self.hi), hi: f64::INFINITY } } else if self.hi == 0.0 && self.lo < 0.0 { Iv { lo: f64::NEG_INFINITY, hi: up(1.0 / self.lo) } } else { Iv::all() } }
    pub fn div(self, o: Iv) -> Iv { self.mul(o.inv()) }
    pub fn abs(self) -> Iv { if self.lo >= 0.0 { self } else if self.hi <= 0.0 { self.neg() } else { Iv { lo: 0.0, hi: self.hi.max(-self.lo) } } }
    pub fn sqr(self) -> Iv { let a = self.abs(); a.mul(a) }
    pub fn mono(self, f: impl Fn(f64) -> f64) -> Iv { pad(Iv { lo: f(self.lo), hi: f(self.hi) }) }
    pub fn width(self) -> f64 { self.hi - self.lo }
    pub fn contains(self, x: f64) -> bool { self.lo <= x && x <= self.hi }
    pub fn meet(self, o: Iv) -> Iv { Iv { lo: self.lo.max(o.lo), hi: self.hi.min(o.hi) } }
    pub fn mid(self) -> f64 { if self.lo == f64::NEG_INFINITY { if self.hi == f64::INFINITY { 0.0 } else { self.hi.min(0.0) * 2.0 - 1.0 } } else if self.hi == f64::INFINITY { self.lo.max(0.0) * 2.0 + 1.0 } else { 0.5 * self.lo + 0.5 * self.hi } }
}
pub fn iv_cos(x: Iv) -> Iv {
    let pi = std::f64::consts::PI;
    if !(x.width() < 6.28) || x.lo.abs() > 1e6 || x.hi.abs() > 1e6 { return Iv { lo: -1.0, hi: 1.0 }; }
    let (a, b) = (x.lo.cos(), x.hi.cos()); let mut r = Iv { lo: a.min(b), hi: a.max(b) };
    let e = 1e-9; // pad for extremum detection
    let k0 = ((x.lo - e) / pi).ceil() as i64; let k1 = ((x.hi + e) / pi).floor() as i64;
    for k in k0..=k1 { if k.rem_euclid(2) == 0 { r.hi = 1.0 } else { r.lo = -1.0 } }
    let p = 1e-14; Iv { lo: (r.lo - p).max(-1.0), hi: (r.hi + p).min(1.0) }
}
pub fn iv_fun(f: F, a: Iv) -> Iv {
    match f {
        F::Abs => a.abs(),
        F::Sqrt => { let a = Iv { lo: a.lo.max(0.0), hi: a.hi.max(0.0) }; let r = a.mono(f64::sqrt); Iv { lo: r.lo.max(0.0), hi: r.hi } }
        F::Cbrt => a.mono(f64::cbrt),
        F::Ln => Iv { lo: a.lo.max(0.0), hi: a.hi.max(0.0) }.mono(f64::ln),
        F::Log10 => Iv { lo: a.lo.max(0.0), hi: a.hi.max(0.0) }.mono(f64::log10),
        F::Log2 => Iv { lo: a.lo.max(0.0), hi: a.hi.max(0.0) }.mono(f64::log2),
        F::Exp => { let r = a.mono(f64::exp); Iv { lo: r.lo.max(0.0), hi: r.hi } }
        F::Exp2 => { let r = a.mono(f64::exp2); Iv { lo: r.lo.max(0.0), hi: r.hi } }
        F::Cos => iv_cos(a),
        F::Sin => { let h = std::f64::consts::FRAC_PI_2; iv_cos(Iv { lo: dn(a.lo - h) - 1e-15, hi: up(a.hi - h) + 1e-15 }) }
        F::Atan => a.mono(f64::atan), F::Tanh => a.mono(f64::tanh), F::Sinh => a.mono(f64::sinh),
        F::Asin => Iv { lo: a.lo.max(-1.0), hi: a.hi.min(1.0) }.mono(f64::asin),
        F::Acos => { let c = Iv { lo: a.lo.max(-1.0), hi: a.hi.min(1.0) }; pad(Iv { lo: c.hi.acos(), hi: c.lo.acos() }) }
        F::Cosh => { let m = a.abs(); m.mono(f64::cosh) }
        F::Tan => Iv::all(),
        F::Round => Iv { lo: a.lo.round(), hi: a.hi.round() }, F::RoundEven => Iv { lo: a.lo.round_ties_even(), hi: a.hi.round_ties_even() },
        F::Floor => Iv { lo: a.lo.floor(), hi: a.hi.floor() }, F::Ceil => Iv { lo: a.lo.ceil(), hi: a.hi.ceil() }, F::Trunc => Iv { lo: a.lo.trunc(), hi: a.hi.trunc() },
    }
}
pub fn iv_pow(a: Iv, b: Iv) -> Iv {
    if a.hi <= 0.0 && a.lo < 0.0 { return Iv::all(); }
    let a = Iv { lo: a.lo.max(0.0), hi: a.hi };
    let c = [a.lo.powf(b.lo), a.lo.powf(b.hi), a.hi.powf(b.lo), a.hi.powf(b.hi)];
    if c.iter().any(|x| x.is_nan()) { return Iv { lo: 0.0, hi: f64::INFINITY }; }
    let mut lo = c.iter().cloned().fold(f64::INFINITY, f64::min); let mut hi = c.iter().cloned().fold(f64::NEG_INFINITY, f64::max);
    if b.lo < 0.0 && b.hi > 0.0 { lo = lo.min(1.0); hi = hi.max(1.0); }
    let r = pad(Iv { lo, hi }); Iv { lo: r.lo.max(0.0), hi: r.hi }
}

impl Terms {
    pub fn new(seed: u64) -> Terms {
        let mut t = Terms { nodes: vec![], fps: vec![], map: Fast::default(), memo: Fast::default(), vars: vec![], samples: vec![], vals: vec![], merges: 0, zero: 0, one: 0, neg1: 0, nan: 0, inf: 0, ninf: 0, pi: 0, seed, pt_cache: HashMap::new(), merge_log: vec![] };
        t.zero = t.cst(Rat::int(0)); t.one = t.cst(Rat::int(1)); t.neg1 = t.cst(Rat::int(-1));
        t.nan = t.push(Node::Spec(Spec::NaN), [P, 1, 1, 1]); t.inf = t.push(Node::Spec(Spec::Inf), [P, 2, 2, 2]); t.ninf = t.push(Node::Spec(Spec::NegInf), [P, 3, 3, 3]);
        let mut f = [0; L]; for l in 0..L { f[l] = hfp(77, &[], l as u64); } t.pi = t.push(Node::Pi, f);
        t
    }
    fn push(&mut self, n: Node, fp: Fp) -> T { let id = self.nodes.len() as T; self.nodes.push(n); self.fps.push(fp); self.vals.push(None); self.map.insert(fp, id); id }
    fn intern(&mut self, n: Node, fp: Fp) -> T {
        if let Some(&t) = self.map.get(&fp) { if self.nodes[t as usize] != n { self.merges += 1; if self.merge_log.len() < 200000 { self.merge_log.push((n, t)); } } return t; }
        if !matches!(n, Node::Const(_)) {
            // a constant after all? rational reconstruction in the first lane, confirmed in the others
            if let Some(r) = recon(fp[0]).filter(|r| cfp(r) == fp) { self.merges += 1; let t = self.cst(r); if self.merge_log.len() < 200000 { self.merge_log.push((n, t)); } return t; }
        }
        self.push(n, fp)
    }
    pub fn cst(&mut self, r: Rat) -> T { let fp = cfp(&r); if let Some(&t) = self.map.get(&fp) { if let Node::Const(q) = &self.nodes[t as usize] { assert!(*q == r, "fingerprint collision of two constants"); } return t; } self.push(Node::Const(r), fp) }
    pub fn int(&mut self, i: i128) -> T { self.cst(Rat::int(i)) }
    pub fn var(&mut self, idx: usize, lo: f64, hi: f64, f32: bool, fresh: bool) -> T {
        for (i, v) in self.vars.iter().enumerate() { if v.idx == idx && v.lo.to_bits() == lo.to_bits() && v.hi.to_bits() == hi.to_bits() && v.f32 == f32 && v.fresh == fresh {
            let mut fp = [0; L]; for l in 0..L { fp[l] = hfp(1, &[i as u64, self.seed], l as u64); } return self.map[&fp]; } }
        let i = self.vars.len(); self.vars.push(VarInfo { lo, hi, f32, idx, fresh });
        let mut fp = [0; L]; for l in 0..L { fp[l] = hfp(1, &[i as u64, self.seed], l as u64); }
        let mut s = Vec::with_capacity(S); for k in 0..S { s.push(sample(self.seed, idx, k, lo, hi, f32)); } self.samples.push(s);
        self.push(Node::Var(i as u32), fp)
    }
    pub fn var_term(&self, i: u32) -> Option<T> { let mut fp = [0; L]; for l in 0..L { fp[l] = hfp(1, &[i as u64, self.seed], l as u64); } self.map.get(&fp).copied() }
    pub fn rat(&self, t: T) -> Option<&Rat> { if let Node::Const(r) = &self.nodes[t as usize] { Some(r) } else { None } }
    pub fn spec(&self, t: T) -> Option<Spec> { if let Node::Spec(r) = &self.nodes[t as usize] { Some(*r) } else { None } }
    fn bin(&self, a: T, b: T, f: impl Fn(u64, u64, usize) -> u64) -> Fp { let mut r = [0; L]; for l in 0..L { r[l] = f(self.fps[a as usize][l], self.fps[b as usize][l], l); } r }
    pub fn add(&mut self, a: T, b: T) -> T {
        if a == self.zero { return b; } if b == self.zero { return a; }
        if let (Some(x), Some(y)) = (self.rat(a), self.rat(b)) { if let Some(&t) = self.memo.get(&(2, a, b)) { return t; } let r = x.add(y); let t = self.cst(r); self.memo.insert((2, a, b), t); return t; }
        if a == self.zero { return b; } if b == self.zero { return a; }
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        if let Some(&t) = self.memo.get(&(0, a, b)) { return t; } let fp = self.bin(a, b, addp); let t = self.intern(Node::Add(a, b), fp); self.memo.insert((0, a, b), t); t
    }
    pub fn neg(&mut self, a: T) -> T { let m = self.neg1; self.mul(m, a) }
    pub fn sub(&mut self, a: T, b: T) -> T { let n = self.neg(b); self.add(a, n) }
    pub fn mul(&mut self, a: T, b: T) -> T {
        if a == self.one { return b; } if b == self.one { return a; }
        if let (Some(x), Some(y)) = (self.rat(a), self.rat(b)) { if let Some(&t) = self.memo.get(&(3, a, b)) { return t; } let r = x.mul(y); let t = self.cst(r); self.memo.insert((3, a, b), t); return t; }
        if a == self.zero || b == self.zero { return self.zero; }
        if a == self.one { return b; } if b == self.one { return a; }
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        match (&self.nodes[a as usize], &self.nodes[b as usize]) {
            (Node::Fun(F::Sqrt, u), _) if a == b => return *u,
            (Node::Fun(F::Abs, u), _) if a == b => { let u = *u; return self.mul(u, u); }
            (Node::Pow(x, c), Node::Pow(y, d)) if x == y => { let (x, c, d) = (*x, *c, *d); let e = self.add(c, d); return self.pow(x, e); }
            (Node::Pow(x, c), _) if *x == b => { let (x, c) = (*x, *c); let o = self.one; let e = self.add(c, o); return self.pow(x, e); }
            (_, Node::Pow(x, c)) if *x == a => { let (x, c) = (*x, *c); let o = self.one; let e = self.add(c, o); return self.pow(x, e); }
            _ => {}
        }
        if let Some(&t) = self.memo.get(&(1, a, b)) { return t; }
        // (c*s)*(d*s) with s = sqrt(u) anywhere among the factors: extract the radical
        let mut fa = vec![]; self.radicals(a, &mut fa, 0); if !fa.is_empty() { let mut fb = vec![]; self.radicals(b, &mut fb, 0); if let Some(&r) = fa.iter().find(|r| fb.contains(r)) { let u = match self.nodes[r as usize] { Node::Fun(F::Sqrt, u) => u, _ => unreachable!() }; let (ca, cb) = (self.strip(a, r), self.strip(b, r)); let c = self.mul(ca, cb); let t = self.mul(c, u); self.memo.insert((1, a, b), t); return t; } }
        if let Some(&t) = self.memo.get(&(1, a, b)) { return t; } let fp = self.bin(a, b, mulp); let t = self.intern(Node::Mul(a, b), fp); self.memo.insert((1, a, b), t); t
    }
    fn radicals(&self, a: T, out: &mut Vec<T>, d: u32) { match self.nodes[a as usize] { Node::Fun(F::Sqrt, _) => out.push(a), Node::Mul(x, y) if d < 6 => { self.radicals(x, out, d + 1); self.radicals(y, out, d + 1); } _ => {} } }
    fn has_factor(&self, a: T, r: T, d: u32) -> bool { a == r || matches!(self.nodes[a as usize], Node::Mul(x, y) if d < 6 && (self.has_factor(x, r, d + 1) || self.has_factor(y, r, d + 1))) }
    fn strip(&mut self, a: T, r: T) -> T { if a == r { return self.one; } match self.nodes[a as usize] { Node::Mul(x, y) => if self.has_factor(x, r, 1) { let z = self.strip(x, r); self.mul(z, y) } else { let z = self.strip(y, r); self.mul(x, z) }, _ => unreachable!() } }
    pub fn div(&mut self, a: T, b: T) -> T {
        if let Some(y) = self.rat(b).cloned() { if !y.is_zero() { let c = if let Some(&t) = self.memo.get(&(4, b, b)) { t } else { let i = Rat::int(1).div(&y); let c = self.cst(i); self.memo.insert((4, b, b), c); c }; return self.mul(a, c); } }
        if a == self.zero { return self.zero; }
        if a == b { return self.one; }
        if let (Node::Fun(F::Ln, u), Node::Fun(F::Ln, r)) = (&self.nodes[a as usize], &self.nodes[b as usize]) { let (u, r) = (*u, *r); if self.rat(r) == Some(&Rat::int(10)) { return self.fun(F::Log10, u); } if self.rat(r) == Some(&Rat::int(2)) { return self.fun(F::Log2, u); } }
        let fp = self.bin(a, b, |x, y, l| if y == 0 { u64::MAX } else { mulp(x, invp(y, l), l) });
        if fp.iter().any(|&x| x == u64::MAX) { return self.nan; }
        self.intern(Node::Div(a, b), fp)
    }
    pub fn powi(&mut self, a: T, n: i64) -> T {
        if n == 0 { return self.one; }
        if n < 0 { let p = self.powi(a, -n); let o = self.one; return self.div(o, p); }
        if let Node::Pow(x, c) = self.nodes[a as usize] { let k = self.int(n as i128); let e = self.mul(c, k); return self.pow(x, e); }
        let mut r = self.one; let mut b = a; let mut e = n; while e > 0 { if e & 1 == 1 { r = self.mul(r, b); } e >>= 1; if e > 0 { b = self.mul(b, b); } } r
    }
    fn atom(&mut self, tag: u64, n: Node, args: &[T]) -> T {
        let mut fp = [0; L]; for l in 0..L { let p: Vec<u64> = args.iter().map(|&a| self.fps[a as usize][l]).collect(); fp[l] = hfp(tag, &p, l as u64); }
        self.intern(n, fp)
    }
    /// base is assumed >= 0 (a definedness obligation is raised by the caller)
    pub fn pow(&mut self, a: T, b: T) -> T {
        if let Some(r) = self.rat(b).cloned() {
            if r.is_zero() { return self.one; }
            if r.is_int() { if let Some(n) = r.to_i128() { if n.abs() <= 64 && !matches!(self.nodes[a as usize], Node::Pow(..)) { return self.powi(a, n as i64); } if n == 1 { return a; } } }
            if r == Rat::frac(1, 2) { return self.fun(F::Sqrt, a); }
            if let Node::Pow(x, c) = self.nodes[a as usize] { if self.rat(c).is_some() { let e = self.mul(c, b); return self.pow(x, e); } }
            if a == self.one { return a; }
            if a == self.zero && !r.is_neg() { return a; }
        }
        // base^(log_base u) = u
        if let Some(r) = self.rat(a).cloned() { if let Node::Fun(f, u) = self.nodes[b as usize] { if (r == Rat::int(10) && f == F::Log10) || (r == Rat::int(2) && f == F::Log2) { return u; } }
            if let Node::Mul(x, y) = self.nodes[b as usize] { for (c, l) in [(x, y), (y, x)] { if self.rat(c).is_some() { if let Node::Fun(f, u) = self.nodes[l as usize] { if (r == Rat::int(10) && f == F::Log10) || (r == Rat::int(2) && f == F::Log2) { return self.pow(u, c); } } } } } }
        self.atom(10, Node::Pow(a, b), &[a, b])
    }
    pub fn fun(&mut self, f: F, a: T) -> T {
        if let Some(r) = self.rat(a).cloned() {
            match f {
                F::Abs => return self.cst(r.abs()),
                F::Sqrt => { if !r.is_neg() { let x = r.to_f64().sqrt(); let c = Rat::from_f64_exact(x); if c.mul(&c) == r { return self.cst(c); } if let Some(c) = perfect_sqrt(&r) { return self.cst(c); } } }
                F::Floor => { let b = r.floor(); return self.cst(Rat { n: b, d: Big::from_i128(1) }); }
                F::Ceil => { let b = r.neg().floor().neg(); return self.cst(Rat { n: b, d: Big::from_i128(1) }); }
                F::Trunc => { let b = r.trunc(); return self.cst(Rat { n: b, d: Big::from_i128(1) }); }
                F::Round => { let b = r.abs().add(&Rat::frac(1, 2)).floor(); let q = Rat { n: if r.is_neg() { b.neg() } else { b }, d: Big::from_i128(1) }; return self.cst(q); }
                F::RoundEven => { let x = r.to_f64().round_ties_even(); return self.cst(Rat::from_f64_exact(x)); }
                F::Exp if r.is_zero() => return self.one, F::Cos if r.is_zero() => return self.one,
                F::Sin | F::Tan | F::Atan | F::Asin | F::Sinh | F::Tanh | F::Cbrt if r.is_zero() => return self.zero,
                F::Ln | F::Log10 | F::Log2 if r == Rat::int(1) => return self.zero,
                _ => {}
            }
        }
        match (f, &self.nodes[a as usize]) {
            (F::Ln, Node::Fun(F::Exp, u)) | (F::Exp, Node::Fun(F::Ln, u)) => return *u,
            (F::Abs, Node::Fun(F::Sqrt, _)) | (F::Abs, Node::Fun(F::Abs, _)) | (F::Abs, Node::Pow(..)) => return a,
            (F::Sqrt, Node::Mul(x, y)) if x == y => { let x = *x; return self.fun(F::Abs, x); }
            (F::Log10, Node::Pow(x, y)) if self.rat(*x) == Some(&Rat::int(10)) => return *y,
            (F::Log2, Node::Pow(x, y)) if self.rat(*x) == Some(&Rat::int(2)) => return *y,
            (F::Ln | F::Log10 | F::Log2, Node::Pow(x, y)) if self.rat(*y).is_some() => { let (x, y) = (*x, *y); let l = self.fun(f, x); return self.mul(y, l); }
            (F::Exp, Node::Mul(x, y)) => { for (c, l) in [(*x, *y), (*y, *x)] { if self.rat(c).is_some() { if let Node::Fun(F::Ln, u) = self.nodes[l as usize] { return self.pow(u, c); } } } }
            (F::Exp2, _) => { let two = self.int(2); return self.pow(two, a); }
            _ => {}
        }
        if matches!(f, F::Abs) || matches!(f, F::Cos) { let n = self.neg(a); let (c, o) = if self.fps[a as usize] <= self.fps[n as usize] { (a, n) } else { (n, a) }; let _ = o; return self.atom(100 + f as u64, Node::Fun(f, c), &[c]); }
        if matches!(f, F::Sin | F::Tan | F::Atan | F::Asin | F::Sinh | F::Tanh | F::Cbrt) { let n = self.neg(a); if self.fps[a as usize] > self.fps[n as usize] { let s = self.atom(100 + f as u64, Node::Fun(f, n), &[n]); return self.neg(s); } }
        self.atom(100 + f as u64, Node::Fun(f, a), &[a])
    }
    pub fn atan2(&mut self, a: T, b: T) -> T { self.atom(11, Node::Atan2(a, b), &[a, b]) }

    // ---- numeric sample lanes
    pub fn children(&self, t: T) -> [Option<T>; 2] { match self.nodes[t as usize] { Node::Add(a, b) | Node::Mul(a, b) | Node::Div(a, b) | Node::Pow(a, b) | Node::Atan2(a, b) => [Some(a), Some(b)], Node::Fun(_, a) => [Some(a), None], _ => [None, None] } }
    pub fn reach(&self, roots: &[T]) -> Vec<T> {
        let mut seen = std::collections::HashSet::new(); let mut st: Vec<T> = roots.to_vec();
        while let Some(t) = st.pop() { if seen.insert(t) { for c in self.children(t) { if let Some(c) = c { st.push(c) } } } }
        let mut v: Vec<T> = seen.into_iter().collect(); v.sort(); v // ids are topologically ordered... see order()
    }
    /// children-before-parents order (ids are not always topological because of merging)
    pub fn order(&self, roots: &[T]) -> Vec<T> {
        let mut out = vec![]; let mut state: HashMap<T, u8> = HashMap::new(); let mut st: Vec<(T, bool)> = roots.iter().rev().map(|&r| (r, false)).collect();
        while let Some((t, done)) = st.pop() { if done { if state.insert(t, 2) != Some(2) { out.push(t); } continue; } if state.contains_key(&t) { continue; } state.insert(t, 1); st.push((t, true)); for c in self.children(t) { if let Some(c) = c { if !state.contains_key(&c) { st.push((c, false)); } } } }
        out
    }
    pub fn val(&mut self, t: T) -> &[f64; S] {
        if self.vals[t as usize].is_none() {
            let mut st = vec![t];
            while let Some(&n) = st.last() {
                if self.vals[n as usize].is_some() { st.pop(); continue; }
                let ch = self.children(n); let mut more = false;
                for c in ch { if let Some(c) = c { if self.vals[c as usize].is_none() { st.push(c); more = true; } } }
                if more { continue; }
                st.pop();
                let mut v = Box::new([0f64; S]);
                match self.nodes[n as usize].clone() {
                    Node::Const(r) => { let x = r.to_f64(); v.fill(x) }
                    Node::Spec(s) => v.fill(match s { Spec::NaN => f64::NAN, Spec::Inf => f64::INFINITY, Spec::NegInf => f64::NEG_INFINITY }),
                    Node::Pi => v.fill(std::f64::consts::PI),
                    Node::Var(i) => v.copy_from_slice(&self.samples[i as usize]),
                    nd => { let c = self.children(n); let z = [0f64; S]; let a = self.vals[c[0].unwrap() as usize].as_ref().unwrap(); let b: &[f64; S] = match c[1] { Some(b) => self.vals[b as usize].as_ref().unwrap(), None => &z }; for i in 0..S { v[i] = eval1(&nd, a[i], b[i]); } }
                }
                self.vals[n as usize] = Some(v);
            }
        }
        self.vals[t as usize].as_ref().unwrap()
    }
    /// replace the values of one sample lane for the given variables (all cached lanes are recomputed lazily)
    pub fn set_lane(&mut self, lane: usize, f: &HashMap<u32, f64>) {
        for (v, x) in f { if let Some(s) = self.samples.get_mut(*v as usize) { s[lane] = *x; } }
        for v in self.vals.iter_mut() { *v = None; }
    }
    pub fn eval_at(&self, t: T, asg: &dyn Fn(u32) -> f64, memo: &mut HashMap<T, f64>) -> f64 {
        if let Some(&x) = memo.get(&t) { return x; }
        for n in self.order(&[t]) { if memo.contains_key(&n) { continue; }
            let x = match &self.nodes[n as usize] { Node::Const(r) => r.to_f64(), Node::Spec(s) => match s { Spec::NaN => f64::NAN, Spec::Inf => f64::INFINITY, Spec::NegInf => f64::NEG_INFINITY }, Node::Pi => std::f64::consts::PI, Node::Var(i) => asg(*i), nd => { let c = self.children(n); eval1(nd, memo[&c[0].unwrap()], c[1].map(|c| memo[&c]).unwrap_or(0.0)) } };
            memo.insert(n, x); }
        memo[&t]
    }
    /// interval enclosure of all `order`ed terms over a box
    pub fn iv_eval(&self, order: &[T], bx: &[Iv], out: &mut HashMap<T, Iv>) {
        for &n in order { let r = self.iv1(n, bx, out); out.insert(n, r); }
    }
    fn iv1(&self, n: T, bx: &[Iv], out: &HashMap<T, Iv>) -> Iv {
        match &self.nodes[n as usize] {
            Node::Const(r) => { let x = r.to_f64(); if x.abs() < 1e15 && (r.is_int() || r.d == Big::from_i128(2)) { Iv::pt(x) } else { Iv { lo: dn(x), hi: up(x) } } }
            Node::Spec(_) => Iv::all(), Node::Pi => { let p = std::f64::consts::PI; Iv { lo: dn(p), hi: up(p) } }
            Node::Var(i) => bx[*i as usize],
            Node::Add(a, b) => out[a].add(out[b]),
            Node::Mul(a, b) => if a == b { out[a].sqr() } else { let r = out[a].mul(out[b]); for (p, q) in [(a, b), (b, a)] { if let (Node::Div(c, pi), Node::Atan2(y, _)) = (&self.nodes[*p as usize], &self.nodes[*q as usize]) { if *pi == self.pi { if let Some(c) = self.rat(*c) { let c = c.to_f64(); if c > 0.0 && c == c.trunc() && c < 1e15 { let yy = out[y]; let h = if yy.lo >= 0.0 { Iv { lo: 0.0, hi: c } } else if yy.hi < 0.0 { Iv { lo: -c, hi: 0.0 } } else { Iv { lo: -c, hi: c } }; return r.meet(h); } } } } } r }, // c/pi * atan2: exact ends
            Node::Div(a, b) => { let r = out[a].div(out[b]); match self.nodes[*b as usize] { Node::Add(x, y) if x == *a || y == *a => { let o = out[if x == *a { &y } else { &x }]; if out[a].lo >= 0.0 && o.lo >= 0.0 && out[b].lo > 0.0 { r.meet(Iv { lo: 0.0, hi: 1.0 }) } else { r } } _ => r } } // u/(u+k)
            Node::Fun(f, a) => iv_fun(*f, out[a]),
            Node::Pow(a, b) => iv_pow(out[a], out[b]),
            Node::Atan2(a, b) => { let (y, x) = (out[a], out[b]); if x.lo > 0.0 { let c = [y.lo.atan2(x.lo), y.lo.atan2(x.hi), y.hi.atan2(x.lo), y.hi.atan2(x.hi)]; pad(Iv { lo: c.iter().cloned().fold(9.0, f64::min), hi: c.iter().cloned().fold(-9.0, f64::max) }) } else if y.lo > 0.0 || y.hi < 0.0 { let c = [y.lo.atan2(x.lo), y.lo.atan2(x.hi), y.hi.atan2(x.lo), y.hi.atan2(x.hi)]; pad(Iv { lo: c.iter().cloned().fold(9.0, f64::min), hi: c.iter().cloned().fold(-9.0, f64::max) }) } else if y.lo >= 0.0 { Iv { lo: 0.0, hi: 3.1415926535897936 } } else { Iv { lo: -3.1415926535897936, hi: 3.1415926535897936 } } }
        }
    }
    /// like iv_eval, with known bounds for some (sub)terms
    pub fn iv_eval_b(&self, order: &[T], bx: &[Iv], bounds: &HashMap<T, Iv>, out: &mut HashMap<T, Iv>) {
        for &n in order { let mut r = self.iv1(n, bx, out); if let Some(b) = bounds.get(&n) { r = r.meet(*b); } out.insert(n, r); }
    }
    /// polynomial normal form over opaque atoms (variables, quotients, functions); None when it grows too large
    pub fn poly(&self, t: T, cap: usize) -> Option<std::collections::BTreeMap<Vec<T>, Rat>> {
        type Po = std::collections::BTreeMap<Vec<T>, Rat>;
        let mut memo: HashMap<T, std::rc::Rc<Po>> = HashMap::new();
        let put = |p: &mut Po, k: Vec<T>, c: Rat| { if c.is_zero() { return; } let e = p.entry(k.clone()).or_insert_with(|| Rat::int(0)); *e = e.add(&c); if e.is_zero() { p.remove(&k); } };
        let mut work = 0usize;
        for n in self.order(&[t]) {
            let mut r: Po = Po::new();
            match &self.nodes[n as usize] {
                Node::Const(c) => put(&mut r, vec![], c.clone()),
                Node::Spec(_) => return None,
                Node::Add(a, b) => { let (a, b) = (memo[a].clone(), memo[b].clone()); r = (*a).clone(); for (k, c) in b.iter() { put(&mut r, k.clone(), c.clone()); } }
                Node::Mul(a, b) => { let (x, y) = (memo[a].clone(), memo[b].clone()); let deg = |p: &Po| p.keys().map(|k| k.len()).max().unwrap_or(0); work += x.len() * y.len(); if work > 40 * cap { return None; } if x.len() * y.len() > 4 * cap || deg(&x) + deg(&y) > 10 { r.insert(vec![n], Rat::int(1)); } else { for (k, c) in x.iter() { for (l, d) in y.iter() { let mut m = k.clone(); m.extend_from_slice(l); m.sort(); put(&mut r, m, c.mul(d)); } } } }
                _ => { r.insert(vec![n], Rat::int(1)); }
            }
            if r.len() > cap { return None; }
            memo.insert(n, std::rc::Rc::new(r));
        }
        Some((*memo[&t]).clone())
    }
    pub fn poly_range(&self, p: &std::collections::BTreeMap<Vec<T>, Rat>, iv: &dyn Fn(T) -> Iv) -> Iv {
        let mut s = Iv::pt(0.0);
        for (k, c) in p { let x = c.to_f64(); let mut m = Iv { lo: dn(x), hi: up(x) }; let mut i = 0; while i < k.len() { let mut j = i; while j < k.len() && k[j] == k[i] { j += 1; } let b = iv(k[i]); let mut e = Iv::pt(1.0); let n = j - i; for _ in 0..n / 2 { e = e.mul(b.sqr()); } if n % 2 == 1 { e = e.mul(b); } m = m.mul(e); i = j; } s = s.add(m); }
        s
    }
    pub fn dom_box(&self) -> Vec<Iv> { self.vars.iter().map(|v| Iv { lo: v.lo, hi: v.hi }).collect() }
    pub fn show(&self, t: T) -> String { self.show_d(t, 6) }
    fn show_d(&self, t: T, d: u32) -> String {
        if d == 0 { return format!("t{}", t); }
        match &self.nodes[t as usize] { Node::Const(r) => { if r.d.m.len() <= 1 && r.n.m.len() <= 1 { if r.is_int() { r.n.to_dec() } else { format!("{}/{}", r.n.to_dec(), r.d.to_dec()) } } else { format!("{:e}", r.to_f64()) } } Node::Spec(s) => format!("{:?}", s), Node::Pi => "pi".into(), Node::Var(i) => format!("x{}", self.vars[*i as usize].idx), Node::Add(a, b) => format!("({} + {})", self.show_d(*a, d - 1), self.show_d(*b, d - 1)), Node::Mul(a, b) => format!("{}*{}", self.show_d(*a, d - 1), self.show_d(*b, d - 1)), Node::Div(a, b) => format!("({} / {})", self.show_d(*a, d - 1), self.show_d(*b, d - 1)), Node::Fun(f, a) => format!("{:?}({})", f, self.show_d(*a, d - 1)), Node::Pow(a, b) => format!("pow({}, {})", self.show_d(*a, d - 1), self.show_d(*b, d - 1)), Node::Atan2(a, b) => format!("atan2({}, {})", self.show_d(*a, d - 1), self.show_d(*b, d - 1)) }
    }
}
pub fn eval1(nd: &Node, a: f64, b: f64) -> f64 {
    match nd { Node::Add(..) => a + b, Node::Mul(..) => a * b, Node::Div(..) => a / b, Node::Pow(..) => a.powf(b), Node::Atan2(..) => a.atan2(b),
        Node::Fun(f, _) => match f { F::Sqrt => a.sqrt(), F::Abs => a.abs(), F::Ln => a.ln(), F::Log10 => a.log10(), F::Log2 => a.log2(), F::Exp => a.exp(), F::Exp2 => a.exp2(), F::Sin => a.sin(), F::Cos => a.cos(), F::Tan => a.tan(), F::Asin => a.asin(), F::Acos => a.acos(), F::Atan => a.atan(), F::Sinh => a.sinh(), F::Cosh => a.cosh(), F::Tanh => a.tanh(), F::Cbrt => a.cbrt(), F::Round => a.round(), F::Floor => a.floor(), F::Ceil => a.ceil(), F::Trunc => a.trunc(), F::RoundEven => a.round_ties_even() },
        _ => unreachable!() }
}
fn recon(v: u64) -> Option<Rat> { // rational reconstruction with |n|,d < 2^28
    let (mut r0, mut r1) = (P as i128, v as i128); let (mut t0, mut t1) = (0i128, 1i128); let bound = 1i128 << 28;
    while r1 >= bound { let q = r0 / r1; let r = r0 - q * r1; r0 = r1; r1 = r; let t = t0 - q * t1; t0 = t1; t1 = t; }
    if t1 == 0 || t1.abs() >= bound { return None; } Some(Rat::frac(r1, t1))
}
pub fn perfect_sqrt(r: &Rat) -> Option<Rat> { let s = |b: &Big| -> Option<Big> { let x = b.to_f64().sqrt().round(); if x > 9e15 { return None; } let c = Big::from_i128(x as i128); if c.mul(&c) == *b { Some(c) } else { None } }; Some(Rat::new(s(&r.n)?, s(&r.d)?)) }
/// k-th sample of the idx-th variable; the first lanes are structured, the rest random.
pub fn sample(seed: u64, idx: usize, k: usize, lo: f64, hi: f64, f32_: bool) -> f64 {
    let h = mix(mix(seed ^ 0x51ed).wrapping_add((idx as u64) << 20).wrapping_add(k as u64));
    let u = (h >> 11) as f64 / (1u64 << 53) as f64; let h2 = mix(h); let sel = h2 % 100;
    let finite = lo.is_finite() && hi.is_finite();
    let mut x = if finite {
        let structured = k % 4 == 1;
        if structured && sel < 12 { lo } else if structured && sel < 24 { hi } else if structured && sel < 40 && lo <= 0.0 && hi >= 0.0 { 0.0 } else if structured && sel < 50 && lo <= 1.0 && hi >= 1.0 { 1.0 } else if structured && sel < 60 { lo + (hi - lo) * ((u * 8.0).floor() / 8.0) } else if k % 4 == 2 { let c = if lo <= 0.0 && hi >= 0.0 { 0.0 } else if lo > 0.0 { lo } else { hi }; let m = 10f64.powf(-6.0 * u); let s = if h2 & 1024 != 0 { hi - c } else { lo - c }; c + s * m } else { lo + (hi - lo) * u }
    } else {
        let mag = match sel % 5 { 0 => 10f64.powf(8.0 * u - 4.0), 1 => (u * 21.0 - 10.0).round(), 2 => u * 200.0 - 100.0, _ => u * 4.0 - 2.0 };
        let v = if k % 4 == 1 { match sel % 10 { 0..=3 => 0.0, 4 | 5 => 1.0, 6 => -1.0, 7 => 0.5, 8 => 2.0, _ => mag } } else if h2 & 1024 != 0 { -mag } else { mag };
        if lo.is_finite() { lo + v.abs() } else if hi.is_finite() { hi - v.abs() } else { v }
    };
    if f32_ { x = x as f32 as f64; if x < lo { x = (lo as f32).next_up() as f64; } if x > hi { x = (hi as f32).next_down() as f64; } }
    x
}
/// real reading of a floating literal / stored constant
pub fn read_f64(x: f64) -> Result<Rat, Spec> { read_const(x, format!("{:e}", x), 15, 200_000, 0.5 * ulp64(x)) }
pub fn read_f32(x: f32) -> Result<Rat, Spec> { read_const(x as f64, format!("{:e}", x), 7, 1000, 0.5 * ((x.abs().next_up() - x.abs()) as f64)) }
fn ulp64(x: f64) -> f64 { let a = x.abs(); a.next_up() - a }
fn read_const(x: f64, s: String, digs: usize, maxden: i128, tol: f64) -> Result<Rat, Spec> {
    if x.is_nan() { return Err(Spec::NaN); } if x.is_infinite() { return Err(if x > 0.0 { Spec::Inf } else { Spec::NegInf }); }
    let dec = Rat::from_decimal(&s).unwrap();
    let nd = s.split('e').next().unwrap().bytes().filter(|c| c.is_ascii_digit()).count();
    if nd < digs || (nd == digs && digs > 7) { return Ok(dec); }
    let maxden = if nd == digs { 40 } else { maxden }; // a 7-digit single-precision value: only very simple fractions
    // simplest fraction inside the rounding interval (1/3, 5/12, 216/24389, ...)
    if x.abs() < 1e9 && x.abs() > 1e-9 {
        let ex = Rat::from_f64_exact(x); let t = Rat::from_f64_exact(tol); let t3 = Rat::from_f64_exact(3.0 * tol); // a quotient of two literals is off by up to 1.5 ulp
       
        let (mut h0, mut h1, mut k0, mut k1) = (0i128, 1i128, 1i128, 0i128); let mut r = ex.abs();
        for _ in 0..20 { let a = match (Rat { n: r.floor(), d: Big::from_i128(1) }).to_i128() { Some(a) => a, None => break }; let h = a * h1 + h0; let k = a * k1 + k0; if k > maxden || h > 1 << 60 { break; } h0 = h1; h1 = h; k0 = k1; k1 = k; let c = Rat::frac(if x < 0.0 { -h } else { h }, k); if c.sub(&ex).abs().cmp(&t) != std::cmp::Ordering::Greater || (k <= 100 && c.sub(&ex).abs().cmp(&t3) != std::cmp::Ordering::Greater) { return Ok(c); } let f = r.sub(&Rat::int(a)); if f.is_zero() { break; } r = Rat::int(1).div(&f); }
    }
    Ok(dec)
}
/// recognise q*pi and q/pi : returns (q, +1/-1)
pub fn pi_multiple(x: f64, f32_: bool) -> Option<(Rat, i32)> {
    if !x.is_finite() || x == 0.0 || x.abs() > 1e5 || x.abs() < 1e-5 { return None; }
    if f32_ && x as f32 == (180.0 / std::f64::consts::PI) as f32 { return Some((Rat::int(180), -1)); } // f32::to_degrees
    let tol = if f32_ { 1.2e-7 } else { 3e-16 };
    let s = if f32_ { format!("{:e}", x as f32) } else { format!("{:e}", x) };
    let nd = s.split('e').next().unwrap().bytes().filter(|c| c.is_ascii_digit()).count();
    if nd < if f32_ { 8 } else { 15 } { return None; }
    let pi = std::f64::consts::PI;
    for (v, k) in [(x / pi, 1), (x * pi, -1)] {
        for d in [1i128, 2, 3, 4, 6, 8, 90, 180, 360, 200] { let n = (v * d as f64).round(); if n == 0.0 || n.abs() > 720.0 { continue; } if (v - n / d as f64).abs() <= tol * v.abs() { return Some((Rat::frac(n as i128, d), k)); } }
    }
    None
}
