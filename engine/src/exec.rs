//! Path-wise symbolic execution of the compiled code over exact real arithmetic.
use crate::ir::*;
use crate::rat::Rat;
use crate::solve::{Answer, Cond, Rel, Solver};
use crate::term::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Cell { U, B(u8), F(u8, u8, T) }
#[derive(Clone, Debug)]
pub enum V { I(u32, u128), F(T), U, A(Rc<Vec<V>>), B(Rc<Vec<Cell>>) }
pub type Obj = Rc<Vec<Cell>>;
#[derive(Clone)]
pub struct Frame { f: Rc<Func>, bb: u32, prev: u32, ip: usize, regs: Vec<V>, allocas: Vec<u32>, dst: Option<u32>, rty: Ty }
#[derive(Clone)]
pub struct State { frames: Vec<Frame>, mem: Fast<u32, Obj>, next: u32, pub path: Vec<Cond>, pub alive: [u64; 4], pub made: Vec<(Option<Cond>, u32)>, pos: usize, pub nvars: usize, pub cases: Vec<u32>, pub inputs: Vec<T>, expect_panic: bool, steps: u64, pub nobl: usize, tr: Option<Rc<Tr>> }
/// obligations met on a path, newest first (for re-executing the path natively)
pub struct Tr { a: T, b: T, up: Option<Rc<Tr>> }
pub struct Conf { pub key: u64, pub inputs: Vec<f64>, pub cases: Vec<u32>, pub nobl: usize, pub vals: Vec<(f64, f64)> }
pub enum E { Fork(Vec<Vec<Cond>>), Dead, Panic(String), Mem(String), Unsup(String), Done }
type R<X> = Result<X, E>;
fn uns<X>(s: impl Into<String>) -> R<X> { Err(E::Unsup(s.into())) }

#[derive(Clone, Debug)]
pub struct Obl { pub label: String, pub status: &'static str, pub method: String, pub detail: String, pub inputs: Vec<f64>, pub cases: Vec<u32>, pub vars: Vec<(f64, f64, bool)> }
pub struct Limits { pub steps: u64, pub paths: usize, pub secs: f64 }
pub struct Exec<'m> {
    pub m: &'m mut Module, pub t: Terms, pub s: Solver, gcache: Fast<u32, Obj>, flit64: Fast<u64, T>, flit32: Fast<u32, T>,
    pub obls: Vec<Obl>, pub fns: BTreeSet<u32>, pub paths: usize, pub dead: usize, pub complete: usize, pub work: Vec<State>, pub lim: Limits, pub reached: BTreeMap<String, usize>, pub steps: u64, pub unsup: Vec<String>, pub consts: BTreeSet<u64>, pub bits32: bool, pub trace: bool, lane_rr: usize, plain: Vec<bool>, names: HashMap<u32, Rc<str>>, pub unfinished: bool, pub fatal: bool, pub conf: Vec<Conf>,
}
fn laneset(v: &[f64; S], f: impl Fn(f64) -> bool) -> [u64; 4] { let mut r = [0u64; 4]; for i in 0..S { if f(v[i]) { r[i / 64] |= 1 << (i % 64); } } r }
fn and4(a: [u64; 4], b: [u64; 4]) -> [u64; 4] { [a[0] & b[0], a[1] & b[1], a[2] & b[2], a[3] & b[3]] }
fn any4(a: [u64; 4]) -> bool { a != [0; 4] }

impl<'m> Exec<'m> {
    pub fn new(m: &'m mut Module, seed: u64, lim: Limits) -> Self {
        Exec { m, t: Terms::new(seed), s: Solver::new(), gcache: Fast::default(), flit64: Fast::default(), flit32: Fast::default(), obls: vec![], fns: BTreeSet::new(), paths: 0, dead: 0, complete: 0, work: vec![], lim, reached: BTreeMap::new(), steps: 0, unsup: vec![], consts: BTreeSet::new(), bits32: false, trace: false, lane_rr: 0, plain: vec![], names: HashMap::new(), conf: vec![], unfinished: false, fatal: false }
    }
    // ---------- floats
    fn f64lit(&mut self, x: f64) -> T {
        if let Some(&t) = self.flit64.get(&x.to_bits()) { return t; }
        let t = self.lit(x, false); self.flit64.insert(x.to_bits(), t); t
    }
    fn f32lit(&mut self, x: f32) -> T { if let Some(&t) = self.flit32.get(&x.to_bits()) { return t; } let t = self.lit(x as f64, true); self.flit32.insert(x.to_bits(), t); t }
    fn lit(&mut self, x: f64, f32_: bool) -> T {
        if let Some((q, k)) = pi_multiple(x, f32_) { let c = self.t.cst(q); let p = self.t.pi; return if k > 0 { self.t.mul(c, p) } else { self.t.div(c, p) }; }
        // a full-precision constant: the cube root of a simple fraction etc. is left as its decimal value
        match if f32_ { read_f32(x as f32) } else { read_f64(x) } { Ok(r) => self.t.cst(r), Err(Spec::NaN) => self.t.nan, Err(Spec::Inf) => self.t.inf, Err(Spec::NegInf) => self.t.ninf }
    }
    fn cval(&self, t: T) -> Option<f64> { match &self.t.nodes[t as usize] { Node::Const(r) => Some(r.to_f64()), Node::Spec(Spec::NaN) => Some(f64::NAN), Node::Spec(Spec::Inf) => Some(f64::INFINITY), Node::Spec(Spec::NegInf) => Some(f64::NEG_INFINITY), Node::Pi => Some(std::f64::consts::PI), Node::Mul(a, b) => { let (x, y) = (*a, *b); if x == self.t.pi || y == self.t.pi { Some(self.cval(x)? * self.cval(y)?) } else { None } } Node::Div(a, b) if *b == self.t.pi => Some(self.cval(*a)? / std::f64::consts::PI), _ => None } }
    fn sgn(&mut self, st: &mut State, a: T) -> R<i32> { // sign of a (specs allowed except NaN)
        if a == self.t.inf { return Ok(1); } if a == self.t.ninf { return Ok(-1); }
        let z = self.t.zero; if self.decide(st, Cond { a, rel: Rel::Eq, b: z })? { return Ok(0); } Ok(if self.decide(st, Cond { a: z, rel: Rel::Lt, b: a })? { 1 } else { -1 })
    }
    fn fadd(&mut self, a: T, b: T) -> T {
        match (self.t.spec(a), self.t.spec(b)) { (None, None) => self.t.add(a, b), (Some(Spec::NaN), _) | (_, Some(Spec::NaN)) => self.t.nan, (Some(x), Some(y)) => if x == y { a } else { self.t.nan }, (Some(_), None) => a, (None, Some(_)) => b }
    }
    fn fneg(&mut self, a: T) -> T { match self.t.spec(a) { None => self.t.neg(a), Some(Spec::NaN) => a, Some(Spec::Inf) => self.t.ninf, Some(Spec::NegInf) => self.t.inf } }
    fn fmul(&mut self, st: &mut State, a: T, b: T) -> R<T> {
        if self.t.spec(a).is_none() && self.t.spec(b).is_none() { return Ok(self.t.mul(a, b)); }
        if a == self.t.nan || b == self.t.nan { return Ok(self.t.nan); }
        let s = self.sgn(st, a)? * self.sgn(st, b)?; Ok(if s == 0 { self.t.nan } else if s > 0 { self.t.inf } else { self.t.ninf })
    }
    fn fdiv(&mut self, st: &mut State, a: T, b: T) -> R<T> {
        if a == self.t.nan || b == self.t.nan { return Ok(self.t.nan); }
        if self.t.spec(b).is_some() { return Ok(if self.t.spec(a).is_some() { self.t.nan } else { self.t.zero }); }
        let z = self.t.zero;
        if self.decide(st, Cond { a: b, rel: Rel::Eq, b: z })? { let s = self.sgn(st, a)?; return Ok(if s == 0 { self.t.nan } else if s > 0 { self.t.inf } else { self.t.ninf }); }
        if self.t.spec(a).is_some() { let s = self.sgn(st, a)? * self.sgn(st, b)?; return Ok(if s > 0 { self.t.inf } else { self.t.ninf }); }
        Ok(self.t.div(a, b))
    }
    fn ffun(&mut self, st: &mut State, f: F, a: T) -> R<T> {
        if let Some(s) = self.t.spec(a) { return Ok(match (f, s) { (_, Spec::NaN) => a, (F::Abs, _) => self.t.inf, (F::Sqrt | F::Ln | F::Log10 | F::Log2, Spec::Inf) => a, (F::Sqrt | F::Ln | F::Log10 | F::Log2, Spec::NegInf) => self.t.nan, (F::Exp | F::Exp2, Spec::Inf) => a, (F::Exp | F::Exp2, Spec::NegInf) => self.t.zero, (F::Round | F::Floor | F::Ceil | F::Trunc | F::RoundEven | F::Cbrt, _) => a, _ => self.t.nan }); }
        let z = self.t.zero;
        match f {
            F::Sqrt => { if self.decide(st, Cond { a, rel: Rel::Lt, b: z })? { return Ok(self.t.nan); } }
            F::Ln | F::Log10 | F::Log2 => { if self.decide(st, Cond { a, rel: Rel::Lt, b: z })? { return Ok(self.t.nan); } if self.decide(st, Cond { a, rel: Rel::Eq, b: z })? { return Ok(self.t.ninf); } }
            F::Abs => { if self.t.rat(a).is_none() { // sign known from the domain?
                    if self.known(st, Cond { a, rel: Rel::Lt, b: z }, false) == Some(false) { return Ok(a); } if self.known(st, Cond { a: z, rel: Rel::Lt, b: a }, false) == Some(false) { return Ok(self.t.neg(a)); } } }
            F::Sin | F::Cos | F::Tan => { if let Some(r) = self.trig_pi(f, a) { return Ok(r); } }
            F::Cbrt => { if a == z { return Ok(z); } let n = self.t.cst(Rat::frac(1, 3)); if self.decide(st, Cond { a, rel: Rel::Lt, b: z })? { let m = self.t.neg(a); let p = self.t.pow(m, n); return Ok(self.t.neg(p)); } if self.decide(st, Cond { a, rel: Rel::Eq, b: z })? { return Ok(z); } return Ok(self.t.pow(a, n)); }
            F::Asin | F::Acos => { let o = self.t.one; let n = self.t.neg1; if self.decide(st, Cond { a: o, rel: Rel::Lt, b: a })? || self.decide(st, Cond { a, rel: Rel::Lt, b: n })? { return Ok(self.t.nan); } }
            _ => {}
        }
        Ok(self.t.fun(f, a))
    }
    fn trig_pi(&mut self, f: F, a: T) -> Option<T> { // sin/cos of q*pi for q multiple of 1/6, 1/4
        let q = match self.t.nodes[a as usize] { Node::Pi => Rat::int(1), Node::Mul(x, y) if y == self.t.pi => self.t.rat(x)?.clone(), Node::Mul(x, y) if x == self.t.pi => self.t.rat(y)?.clone(), _ => return None };
        let k = q.mul(&Rat::int(6)).to_i128()?; let h = Rat::frac(1, 2);
        let k = if f == F::Cos { k + 3 } else if f == F::Sin { k } else { return None }; let k = k.rem_euclid(12);
        let v = match k { 0 | 6 => Some(Rat::int(0)), 3 => Some(Rat::int(1)), 9 => Some(Rat::int(-1)), 1 | 5 => Some(h.clone()), 7 | 11 => Some(h.neg()), _ => None };
        if let Some(v) = v { return Some(self.t.cst(v)); }
        let t3 = self.t.int(3); let s3 = self.t.fun(F::Sqrt, t3); let c = self.t.cst(if k < 6 { h } else { h.neg() }); Some(self.t.mul(c, s3))
    }
    fn fpow(&mut self, st: &mut State, a: T, b: T) -> R<T> {
        if b == self.t.zero || a == self.t.one { return Ok(self.t.one); }
        if a == self.t.nan || b == self.t.nan { return Ok(self.t.nan); }
        if self.t.spec(a).is_some() || self.t.spec(b).is_some() {
            if a == self.t.inf { let s = self.sgn(st, b)?; return Ok(if s > 0 { a } else { self.t.zero }); }
            return uns("pow of infinity");
        }
        let z = self.t.zero;
        let rb = self.t.rat(b).cloned();
        if let Some(r) = &rb { if r.is_int() { if let Some(n) = r.to_i128() { if n.abs() <= 64 { if n < 0 { let p = self.t.powi(a, (-n) as i64); let o = self.t.one; return self.fdiv(st, o, p); } return Ok(self.t.powi(a, n as i64)); } } } }
        if self.decide(st, Cond { a, rel: Rel::Lt, b: z })? { return Ok(self.t.nan); }
        if self.decide(st, Cond { a, rel: Rel::Eq, b: z })? { let s = self.sgn(st, b)?; return Ok(if s > 0 { z } else if s == 0 { self.t.one } else { self.t.inf }); }
        Ok(self.t.pow(a, b))
    }
    fn fminmax(&mut self, st: &mut State, a: T, b: T, max: bool) -> R<T> {
        if a == self.t.nan { return Ok(b); } if b == self.t.nan { return Ok(a); } if a == b { return Ok(a); }
        let le = self.fcmp(st, "ole", a, b)?; Ok(if le != max { a } else { b })
    }
    fn fcmp(&mut self, st: &mut State, p: &str, a: T, b: T) -> R<bool> {
        if p == "true" { return Ok(true); } if p == "false" { return Ok(false); }
        let unord = a == self.t.nan || b == self.t.nan;
        if p == "ord" { return Ok(!unord); } if p == "uno" { return Ok(unord); }
        if unord { return Ok(p.starts_with('u')); }
        let (sa, sb) = (self.t.spec(a), self.t.spec(b));
        if sa.is_some() || sb.is_some() { let v = |s: Option<Spec>| match s { Some(Spec::Inf) => 1, Some(Spec::NegInf) => -1, _ => 0 }; let (x, y) = (v(sa), v(sb)); return Ok(match &p[1..] { "eq" => x == y, "ne" => x != y, "lt" => x < y, "le" => x <= y, "gt" => x > y, _ => x >= y }); }
        let c = match &p[1..] { "eq" => Cond { a, rel: Rel::Eq, b }, "ne" => Cond { a, rel: Rel::Ne, b }, "lt" => Cond { a, rel: Rel::Lt, b }, "le" => Cond { a, rel: Rel::Le, b }, "gt" => Cond { a: b, rel: Rel::Lt, b: a }, "ge" => Cond { a: b, rel: Rel::Le, b: a }, _ => return uns(format!("fcmp {}", p)) };
        self.decide(st, c)
    }
    // ---------- decisions
    pub fn cond_lanes(&mut self, c: &Cond) -> ([u64; 4], [u64; 4]) { // (surely true, surely false) lanes
        let d = self.t.sub(c.a, c.b); let (a, b) = (self.t.val(c.a).clone(), self.t.val(c.b).clone()); let dv = self.t.val(d).clone(); let mut yes = [0u64; 4]; let mut no = [0u64; 4];
        for i in 0..S { if !a[i].is_finite() || !b[i].is_finite() || !dv[i].is_finite() { continue; } let m = 1e-12 * (a[i].abs() + b[i].abs()) + 1e-300; let bit = 1u64 << (i % 64); let w = i / 64;
            // exact agreement on structured lanes counts as equality
            let x = a[i] - b[i];
            let (y, n) = match c.rel { Rel::Lt => (x < -m, x > m || (x == 0.0 && dv[i] == 0.0)), Rel::Le => (x < -m || (x == 0.0 && dv[i] == 0.0), x > m), Rel::Eq => (x == 0.0 && dv[i] == 0.0, x.abs() > m), Rel::Ne => (x.abs() > m, x == 0.0 && dv[i] == 0.0) };
            if y { yes[w] |= bit; } if n { no[w] |= bit; } }
        (yes, no)
    }
    /// is the truth of `c` determined by the path?  `deep` allows solver calls
    pub fn known(&mut self, st: &mut State, c: Cond, deep: bool) -> Option<bool> {
        if c.a == c.b { return Some(matches!(c.rel, Rel::Le | Rel::Eq)); }
        let d = self.t.sub(c.a, c.b);
        if let Some(r) = self.t.rat(d) { let o = if r.is_zero() { 0 } else if r.is_neg() { -1 } else { 1 }; return Some(match c.rel { Rel::Lt => o < 0, Rel::Le => o <= 0, Rel::Eq => o == 0, Rel::Ne => o != 0 }); }
        // sign facts from the path
        let (mut lt, mut eq, mut gt) = (true, true, true); let nd = self.t.neg(d);
        for p in st.path.clone() { let pd = self.t.sub(p.a, p.b); let (mut l, mut e, mut g) = match p.rel { Rel::Lt => (true, false, false), Rel::Le => (true, true, false), Rel::Eq => (false, true, false), Rel::Ne => (true, false, true) }; if pd == nd { std::mem::swap(&mut l, &mut g); } else if pd != d { continue; } lt &= l; eq &= e; gt &= g; e = false; let _ = e; }
        let (al, af) = match c.rel { Rel::Lt => (lt, eq || gt), Rel::Le => (lt || eq, gt), Rel::Eq => (eq, lt || gt), Rel::Ne => (lt || gt, eq) };
        if !al { return Some(false); } if !af { return Some(true); }
        // interval over the declared domain, tightened by simple path bounds
        let bx = self.s.box_of(&self.t, &st.path); let tb = self.s.term_bounds(&self.t, &st.path); let iv = self.s.range_b(&self.t, d, &bx, &tb);
        let ia = self.s.range_b(&self.t, c.a, &bx, &tb).sub(self.s.range_b(&self.t, c.b, &bx, &tb)); let iv = iv.meet(ia);
        match c.rel { Rel::Lt => { if iv.hi < 0.0 { return Some(true); } if iv.lo >= 0.0 { return Some(false); } } Rel::Le => { if iv.hi <= 0.0 { return Some(true); } if iv.lo > 0.0 { return Some(false); } } Rel::Eq => if iv.lo > 0.0 || iv.hi < 0.0 { return Some(false); }, Rel::Ne => if iv.lo > 0.0 || iv.hi < 0.0 { return Some(true); } }
        if !deep { return None; }
        let (yes, no) = self.cond_lanes(&c); let (y, n) = (any4(and4(yes, st.alive)), any4(and4(no, st.alive)));
        if y && n { return None; }
        let iv = self.s.range_poly(&self.t, d, &bx, &tb);
        match c.rel { Rel::Lt => { if iv.hi < 0.0 { return Some(true); } if iv.lo >= 0.0 { return Some(false); } } Rel::Le => { if iv.hi <= 0.0 { return Some(true); } if iv.lo > 0.0 { return Some(false); } } Rel::Eq => if iv.lo > 0.0 || iv.hi < 0.0 { return Some(false); }, Rel::Ne => if iv.lo > 0.0 || iv.hi < 0.0 { return Some(true); } }
        // ask the solver about the unseen side(s)
        let mut fy = y; let mut fnn = n;
        if !n { let mut q = st.path.clone(); q.push(c.not()); match self.s.check(&mut self.t, &q, false) { Answer::Unsat(_) => return Some(true), Answer::Sat(m) => { self.add_lane(st, &m); fnn = true } _ => fnn = true } }
        if !y { let mut q = st.path.clone(); q.push(c); match self.s.check(&mut self.t, &q, false) { Answer::Unsat(_) => return Some(false), Answer::Sat(m) => { self.add_lane(st, &m); fy = true } _ => fy = true } }
        let _ = (fy, fnn); None
    }
    fn add_lane(&mut self, st: &mut State, m: &HashMap<u32, f64>) {
        let l = 128 + self.lane_rr % 32; self.lane_rr += 1; self.t.set_lane(l, m); let (w, b) = (l / 64, 1u64 << (l % 64));
        for s in self.work.iter_mut() { s.alive[w] &= !b; }
        st.alive[w] &= !b; let mut ok = true; for c in st.path.clone() { let (y, _) = self.cond_lanes(&c); if y[w] & b == 0 { ok = false; break; } } if ok { st.alive[w] |= b; }
    }
    fn decide(&mut self, st: &mut State, c: Cond) -> R<bool> {
        // decisions of the instruction under re-execution are looked up by condition: which ones are asked may depend on the path
        if let Some(m) = st.made.iter().find(|m| m.0 == Some(c)) { return Ok(m.1 == 0); }
        match self.known(st, c, true) { Some(b) => { st.made.push((Some(c), if b { 0 } else { 1 })); Ok(b) } None => Err(E::Fork(vec![vec![c], vec![c.not()]])) }
    }
    fn choose(&mut self, st: &mut State, n: u32) -> R<u32> { let k = st.pos; st.pos += 1; if let Some(m) = st.made.iter().filter(|m| m.0.is_none()).nth(k) { return Ok(m.1); } if n == 1 { st.made.push((None, 0)); return Ok(0); } Err(E::Fork(vec![vec![]; n as usize])) }
    /// concrete integer value of trunc/floor-like symbolic value: enumerated by forking
    fn enum_trunc(&mut self, st: &mut State, a: T, lo: i128, hi: i128) -> R<i128> { // truncation toward zero saturating to [lo,hi]
        if a == self.t.nan { return Ok(0); } if a == self.t.inf { return Ok(hi); } if a == self.t.ninf { return Ok(lo); }
        if let Some(r) = self.t.rat(a) { let b = r.trunc(); return Ok((Rat { n: b, d: crate::rat::Big::from_i128(1) }).to_i128().unwrap_or(if r.is_neg() { lo } else { hi }).clamp(lo, hi)); }
        if let Some(x) = self.cval(a) { return Ok((x as i128).clamp(lo, hi)); }
        let bx = self.s.box_of(&self.t, &st.path); let iv = self.s.range(&self.t, a, &bx);
        if !(iv.lo.is_finite() && iv.hi.is_finite()) || iv.hi - iv.lo > 2000.0 { return uns(format!("float to int conversion of an unbounded value {}", self.t.show(a))); }
        let (l, h) = ((iv.lo.floor() as i128).max(lo), (iv.hi.floor() as i128 + 1).min(hi)); let (mut l, mut h) = (l, h.max(l));
        // binary search by decisions
        while l < h { let mid = (l + h + 1).div_euclid(2); let c = self.t.int(mid); if mid > 0 { if self.decide(st, Cond { a: c, rel: Rel::Le, b: a })? { l = mid } else { h = mid - 1 } } else { // trunc: value > mid-1 means trunc >= mid
                let c1 = self.t.int(mid - 1); if self.decide(st, Cond { a: c1, rel: Rel::Lt, b: a })? { l = mid } else { h = mid - 1 } } }
        Ok(l.clamp(lo, hi))
    }
    // ---------- memory
    fn obj(&mut self, st: &State, id: u32) -> R<Obj> {
        if let Some(o) = st.mem.get(&id) { return Ok(o.clone()); } if let Some(o) = self.gcache.get(&id) { return Ok(o.clone()); }
        if id >= 1 && (id as usize) <= self.m.globals.len() && id < (1 << 20) {
            let g = id - 1; if let Err(e) = self.m.global(g) { return uns(e); }
            let (ty, init) = { let d = &self.m.globals[g as usize]; (d.ty.clone(), d.init.clone()) }; let n = d_size(&ty);
            let mut v = vec![Cell::U; n as usize];
            match init { Some(c) => { let val = self.cv(&ty, &c)?; self.to_cells(&ty, &val, &mut v, 0)?; } None => { let nm = self.m.globals[g as usize].name.clone(); if nm.contains("environ") || nm.contains("stack_chk") { v = vec![Cell::B(0); n as usize]; } else { return uns(format!("external global {}", nm)); } } }
            let o = Rc::new(v); self.gcache.insert(id, o.clone()); return Ok(o);
        }
        Err(E::Mem(format!("access to a freed or invalid object {}", id)))
    }
    fn objm<'a>(&mut self, st: &'a mut State, id: u32) -> R<&'a mut Vec<Cell>> { if !st.mem.contains_key(&id) { let o = self.obj(st, id)?; st.mem.insert(id, o); } Ok(Rc::make_mut(st.mem.get_mut(&id).unwrap())) }
    fn alloc(&mut self, st: &mut State, n: u64, c: Cell) -> u64 { let id = st.next; st.next += 1; st.mem.insert(id, Rc::new(vec![c; n as usize])); (id as u64) << 32 }
    fn chk(&self, p: u64, n: u64, len: usize) -> R<()> { let off = p & 0xffff_ffff; if off + n > len as u64 { Err(E::Mem(format!("out-of-bounds access: offset {} size {} in an object of {} bytes", off, n, len))) } else { Ok(()) } }
    fn rd(&mut self, st: &State, p: u64, n: u64) -> R<Vec<Cell>> { if n == 0 { return Ok(vec![]); } let o = self.obj(st, (p >> 32) as u32)?; self.chk(p, n, o.len())?; let f = (p & 0xffff_ffff) as usize; Ok(o[f..f + n as usize].to_vec()) }
    fn wr(&mut self, st: &mut State, p: u64, c: &[Cell]) -> R<()> { if c.is_empty() { return Ok(()); } let o = self.obj(st, (p >> 32) as u32)?; self.chk(p, c.len() as u64, o.len())?; drop(o); let f = (p & 0xffff_ffff) as usize; let v = self.objm(st, (p >> 32) as u32)?; v[f..f + c.len()].copy_from_slice(c); Ok(()) }
    fn load(&mut self, st: &State, ty: &Ty, p: u64) -> R<V> {
        if let (Ty::I(_) | Ty::Ptr | Ty::F64 | Ty::F32, Some(o)) = (ty, st.mem.get(&((p >> 32) as u32))) { let n = store_size(ty); if n == 0 || n > 8 { let c = self.rd(st, p, n)?; return self.from_cells(ty, &c); } self.chk(p, n, o.len())?; let f = (p & 0xffff_ffff) as usize; let mut b = [Cell::U; 8]; b[..n as usize].copy_from_slice(&o[f..f + n as usize]); return self.from_cells(ty, &b[..n as usize]); }
        let n = store_size(ty); let c = self.rd(st, p, n)?; self.from_cells(ty, &c) }
    fn from_cells(&mut self, ty: &Ty, c: &[Cell]) -> R<V> {
        match ty {
            Ty::I(_) | Ty::Ptr => { let bits = if let Ty::I(b) = ty { *b } else { 64 }; let mut v = 0u128; let mut conc = true; let mut und = 0; for (i, x) in c.iter().enumerate() { match x { Cell::B(b) => v |= (*b as u128) << (8 * i), Cell::U => { conc = false; und += 1 } Cell::F(..) => conc = false } } if conc { Ok(V::I(bits, mask(v, bits))) } else if und == c.len() { Ok(V::U) } else { self.norm_bits(bits, c.to_vec()) } }
            Ty::F64 | Ty::F32 => { let n = if *ty == Ty::F64 { 8u8 } else { 4 }; match c[0] { Cell::F(k, 0, t) if k == n && (0..n).all(|i| c[i as usize] == Cell::F(k, i, t)) => Ok(V::F(t)), Cell::U => Ok(V::U), _ => { let mut v = 0u64; for (i, x) in c.iter().enumerate() { if let Cell::B(b) = x { v |= (*b as u64) << (8 * i) } else { return uns("mixed bytes read as float"); } } Ok(V::F(if n == 8 { self.f64lit(f64::from_bits(v)) } else { self.f32lit(f32::from_bits(v as u32)) })) } } }
            Ty::Arr(..) | Ty::Vec(..) | Ty::Struct(..) => { let mut v = vec![]; if let Ty::Vec(n, t) = ty { if **t == Ty::I(1) { let x = self.from_cells(&Ty::I(c.len() as u32 * 8), c)?; let x = self.int(&x)?; for i in 0..*n { v.push(V::I(1, (x >> i) & 1)); } return Ok(V::A(Rc::new(v))); } } for i in 0..ty.count() { let t = ty.elt(i); let o = ty.field_off(i) as usize; let s = store_size(&t) as usize; v.push(self.from_cells(&t, &c[o..o + s])?); } Ok(V::A(Rc::new(v))) }
            _ => uns(format!("load of {:?}", ty)),
        }
    }
    fn norm_bits(&mut self, bits: u32, mut c: Vec<Cell>) -> R<V> { // concretise constant float cells
        let mut i = 0; while i < c.len() { if let Cell::F(k, 0, t) = c[i] { if let Some(x) = self.cval(t) { let k = k as usize; if i + k <= c.len() { let b: Vec<u8> = if k == 8 { x.to_bits().to_le_bytes().to_vec() } else { (x as f32).to_bits().to_le_bytes().to_vec() }; if (0..k).all(|j| c[i + j] == Cell::F(k as u8, j as u8, t)) { for j in 0..k { c[i + j] = Cell::B(b[j]); } } } } } i += 1; }
        if c.iter().all(|x| matches!(x, Cell::B(_))) { let mut v = 0u128; for (i, x) in c.iter().enumerate() { if let Cell::B(b) = x { v |= (*b as u128) << (8 * i) } } return Ok(V::I(bits, mask(v, bits))); }
        Ok(V::B(Rc::new(c)))
    }
    fn to_cells(&mut self, ty: &Ty, v: &V, out: &mut Vec<Cell>, at: usize) -> R<()> {
        match (ty, v) {
            (_, V::U) => { for i in 0..store_size(ty) as usize { out[at + i] = Cell::U; } }
            (Ty::I(_) | Ty::Ptr, V::I(_, x)) => { for i in 0..store_size(ty) as usize { out[at + i] = Cell::B((x >> (8 * i)) as u8); } }
            (Ty::I(_) | Ty::Ptr, V::B(c)) => { for (i, x) in c.iter().enumerate() { out[at + i] = *x; } }
            (Ty::F64, V::F(t)) => for i in 0..8 { out[at + i] = Cell::F(8, i as u8, *t); },
            (Ty::F32, V::F(t)) => for i in 0..4 { out[at + i] = Cell::F(4, i as u8, *t); },
            (Ty::Vec(n, t), V::A(a)) if **t == Ty::I(1) => { let mut x = 0u128; for i in 0..*n as usize { x |= self.int(&a[i])? << i; } for i in 0..store_size(ty) as usize { out[at + i] = Cell::B((x >> (8 * i)) as u8); } }
            (_, V::A(a)) => { for i in 0..a.len() { let t = ty.elt(i); self.to_cells(&t, &a[i], out, at + ty.field_off(i) as usize)?; } }
            _ => return uns(format!("store {:?} as {:?}", v, ty)),
        }
        Ok(())
    }
    fn store(&mut self, st: &mut State, ty: &Ty, v: &V, p: u64) -> R<()> { // padding of aggregates is left alone
        match (ty, v) { (Ty::Struct(..) | Ty::Arr(..), V::A(a)) => { for i in 0..a.len() { self.store(st, &ty.elt(i), &a[i], p + ty.field_off(i))?; } Ok(()) } _ => { let n = store_size(ty) as usize;
            if n > 0 && n <= 8 { if let Some(o) = st.mem.get_mut(&((p >> 32) as u32)) { let x: Option<[Cell; 8]> = match (ty, v) { (Ty::I(_) | Ty::Ptr, V::I(_, x)) => { let mut c = [Cell::U; 8]; for i in 0..n { c[i] = Cell::B((x >> (8 * i)) as u8); } Some(c) } (Ty::F64, V::F(t)) => { let mut c = [Cell::U; 8]; for i in 0..8 { c[i] = Cell::F(8, i as u8, *t); } Some(c) } (Ty::F32, V::F(t)) => { let mut c = [Cell::U; 8]; for i in 0..4 { c[i] = Cell::F(4, i as u8, *t); } Some(c) } _ => None };
                if let Some(c) = x { let len = o.len(); let f = (p & 0xffff_ffff) as usize; if f + n > len { return self.chk(p, n as u64, len); } Rc::make_mut(o)[f..f + n].copy_from_slice(&c[..n]); return Ok(()); } } }
            let mut c = vec![Cell::U; n]; self.to_cells(ty, v, &mut c, 0)?; self.wr(st, p, &c) } }
    }
    // ---------- values
    fn cv(&mut self, ty: &Ty, c: &C) -> R<V> {
        Ok(match c {
            C::Int(v) => V::I(if let Ty::I(b) = ty { *b } else { 64 }, *v), C::F64(x) => V::F(self.f64lit(*x)), C::F32(x) => V::F(self.f32lit(*x)), C::Undef => V::U,
            C::Zero => match ty { Ty::I(b) => V::I(*b, 0), Ty::Ptr => V::I(64, 0), Ty::F32 | Ty::F64 => V::F(self.t.zero), Ty::Arr(..) | Ty::Vec(..) | Ty::Struct(..) => { let mut v = vec![]; for i in 0..ty.count() { v.push(self.cv(&ty.elt(i), &C::Zero)?); } V::A(Rc::new(v)) } _ => V::U },
            C::Agg(a) => { let mut v = vec![]; for (i, x) in a.iter().enumerate() { v.push(self.cv(&ty.elt(i), x)?); } V::A(Rc::new(v)) }
            C::Bytes(b) => V::A(Rc::new(b.iter().map(|x| V::I(8, *x as u128)).collect())),
            C::Global(g) => V::I(64, if *g >= FN_BASE { (*g as u128) << 32 } else { (*g as u128 + 1) << 32 }),
            C::Expr(e) => match &**e {
                CE::Cast(c) => { let v = self.cv(&Ty::Ptr, c)?; if let (V::I(_, x), Ty::I(b)) = (&v, ty) { V::I(*b, mask(*x, *b)) } else { v } }
                CE::Gep(t, p, idx) => { let b = self.cv(&Ty::Ptr, p)?; let mut a = self.int(&b)?; let mut cur = t.clone(); for (k, i) in idx.iter().enumerate() { let iv = match i { C::Int(v) => sext(*v, 64) as i64, C::Zero => 0, _ => return uns("gep const") }; if k == 0 { a = (a as i128 + iv as i128 * cur.size() as i128) as u128; } else { a = (a as i128 + match &cur { Ty::Struct(..) => cur.field_off(iv as usize) as i128, _ => cur.elt(0).size() as i128 * iv as i128 }) as u128; cur = match &cur { Ty::Struct(..) => cur.elt(iv as usize), _ => cur.elt(0) }; } } V::I(64, mask(a, 64)) }
                CE::Bin(o, a, b) => { let bits = if let Ty::I(b) = ty { *b } else { 64 }; let x = self.cv(ty, a)?; let y = self.cv(ty, b)?; let (x, y) = (self.int(&x)?, self.int(&y)?); V::I(bits, mask(match o.as_str() { "add" => x.wrapping_add(y), "sub" => x.wrapping_sub(y), "xor" => x ^ y, "mul" => x.wrapping_mul(y), _ => x << y }, bits)) }
            },
        })
    }
    fn get(&mut self, st: &State, o: &Op) -> R<V> { match o { Op::R(r) => Ok(st.frames.last().unwrap().regs[*r as usize].clone()), Op::C(c) => { let c = c.clone(); self.cv(&c.0, &c.1) } } }
    fn int(&mut self, v: &V) -> R<u128> { match v { V::I(_, x) => Ok(*x), V::U => uns("use of an undefined integer"), V::B(_) => uns("integer view of symbolic float bits"), _ => uns("int expected") } }
    fn geti(&mut self, st: &State, o: &Op) -> R<u128> { let v = self.get(st, o)?; self.int(&v) }
    fn flt(&mut self, v: &V) -> R<T> { match v { V::F(t) => Ok(*t), V::U => uns("use of an undefined float"), _ => uns("float expected") } }
    fn set(&self, st: &mut State, r: u32, v: V) { st.frames.last_mut().unwrap().regs[r as usize] = v; }
    fn elems(&self, v: &V, n: usize) -> Vec<V> { match v { V::A(a) => a.to_vec(), V::U => vec![V::U; n], _ => vec![v.clone()] } }
    fn bin(&mut self, st: &mut State, op: &str, ty: &Ty, a: &V, b: &V) -> R<V> {
        if let Ty::Vec(n, e) = ty { let (x, y) = (self.elems(a, *n as usize), self.elems(b, *n as usize)); let mut r = vec![]; for i in 0..*n as usize { r.push(self.bin(st, op, e, &x[i], &y[i])?); } return Ok(V::A(Rc::new(r))); }
        if op.starts_with('f') { let (x, y) = (self.flt(a)?, self.flt(b)?); return Ok(V::F(match op { "fadd" => self.fadd(x, y), "fsub" => { let n = self.fneg(y); self.fadd(x, n) } "fmul" => self.fmul(st, x, y)?, "fdiv" => self.fdiv(st, x, y)?, "frem" => { let q = self.fdiv(st, x, y)?; let q = self.ffun(st, F::Trunc, q)?; let p = self.fmul(st, q, y)?; let n = self.fneg(p); self.fadd(x, n) } _ => return uns(op) })); }
        let bits = if let Ty::I(b) = ty { *b } else { 64 };
        if matches!(a, V::B(_)) || matches!(b, V::B(_)) { return self.bitop(st, op, bits, a, b); }
        if matches!(a, V::U) || matches!(b, V::U) { return Ok(V::U); }
        let (x, y) = (self.int(a)?, self.int(b)?); let (sx, sy) = (sext(x, bits), sext(y, bits));
        let r = match op { "add" => x.wrapping_add(y), "sub" => x.wrapping_sub(y), "mul" => x.wrapping_mul(y), "udiv" => if y == 0 { return Err(E::Mem("division by zero".into())); } else { x / y }, "urem" => if y == 0 { return Err(E::Mem("division by zero".into())); } else { x % y }, "sdiv" => if y == 0 { return Err(E::Mem("division by zero".into())); } else { sx.wrapping_div(sy) as u128 }, "srem" => if y == 0 { return Err(E::Mem("division by zero".into())); } else { sx.wrapping_rem(sy) as u128 }, "shl" => if y >= 128 { 0 } else { x << y }, "lshr" => if y >= 128 { 0 } else { x >> y }, "ashr" => (sx >> y.min(127)) as u128, "and" => x & y, "or" => x | y, "xor" => x ^ y, _ => return uns(op) };
        Ok(V::I(bits, mask(r, bits)))
    }
    fn bitop(&mut self, st: &mut State, op: &str, bits: u32, a: &V, b: &V) -> R<V> {
        let n = (bits / 8) as usize; let cells = |v: &V| -> Option<Vec<Cell>> { match v { V::B(c) => Some(c.to_vec()), V::I(_, x) => Some((0..n).map(|i| Cell::B((x >> (8 * i)) as u8)).collect()), V::U => Some(vec![Cell::U; n]), _ => None } };
        let (x, y) = (cells(a).unwrap(), cells(b).unwrap());
        if let V::I(_, s) = b { if (op == "shl" || op == "lshr") && s % 8 == 0 { let k = (*s / 8) as usize; let mut r = vec![Cell::B(0); n]; for i in 0..n { if op == "shl" { if i >= k { r[i] = x[i - k]; } } else if i + k < n { r[i] = x[i + k]; } } return self.norm_bits(bits, r); }
            // sign bit
            if let (Some(Cell::F(k, 0, t)), true) = (x.get(0).copied(), x.len() == n) { if k as usize == n && (0..n).all(|i| x[i] == Cell::F(k, i as u8, t)) { let sm = 1u128 << (bits - 1);
                if op == "and" && *s == mask(!sm, bits) { let r = self.ffun(st, F::Abs, t)?; return self.fbits(r, k); }
                if op == "xor" && *s == sm { let r = self.fneg(t); return self.fbits(r, k); }
                if op == "and" && *s == sm { let z = self.t.zero; let neg = self.decide(st, Cond { a: t, rel: Rel::Lt, b: z })?; return Ok(V::I(bits, if neg { sm } else { 0 })); }
                if op == "lshr" && *s == bits as u128 - 1 { let z = self.t.zero; let neg = self.decide(st, Cond { a: t, rel: Rel::Lt, b: z })?; return Ok(V::I(bits, if neg { 1 } else { 0 })); }
                if op == "ashr" && *s == bits as u128 - 1 { let z = self.t.zero; let neg = self.decide(st, Cond { a: t, rel: Rel::Lt, b: z })?; return Ok(V::I(bits, if neg { mask(!0, bits) } else { 0 })); }
                if op == "or" && *s == sm { let r = self.ffun(st, F::Abs, t)?; let r = self.fneg(r); return self.fbits(r, k); } } } }
        if op == "or" || op == "and" || op == "xor" { let mut r = vec![]; for i in 0..n { r.push(match (op, x[i], y[i]) { (_, Cell::B(p), Cell::B(q)) => Cell::B(match op { "or" => p | q, "and" => p & q, _ => p ^ q }), ("or" | "xor", Cell::B(0), c) | ("or" | "xor", c, Cell::B(0)) => c, ("and", Cell::B(0), _) | ("and", _, Cell::B(0)) => Cell::B(0), ("and", Cell::B(255), c) | ("and", c, Cell::B(255)) => c, _ => return uns(format!("bit operation {} on symbolic float bits", op)) }); } return self.norm_bits(bits, r); }
        uns(format!("{} on symbolic float bits", op))
    }
    fn fbits(&mut self, t: T, k: u8) -> R<V> { let c: Vec<Cell> = (0..k).map(|i| Cell::F(k, i, t)).collect(); self.norm_bits(k as u32 * 8, c) }
    fn icmp(&mut self, st: &mut State, p: &str, ty: &Ty, a: &V, b: &V) -> R<V> {
        if let Ty::Vec(n, e) = ty { let (x, y) = (self.elems(a, *n as usize), self.elems(b, *n as usize)); let mut r = vec![]; for i in 0..*n as usize { r.push(self.icmp(st, p, e, &x[i], &y[i])?); } return Ok(V::A(Rc::new(r))); }
        let bits = if let Ty::I(b) = ty { *b } else { 64 };
        if let (V::B(c), V::I(_, k)) = (a, b) { if let Cell::F(n, 0, t) = c[0] { if n as usize == c.len() && (0..n).all(|i| c[i as usize] == Cell::F(n, i, t)) { let z = self.t.zero; if p == "slt" && *k == 0 { let r = self.decide(st, Cond { a: t, rel: Rel::Lt, b: z })?; return Ok(V::I(1, r as u128)); } if p == "sgt" && *k == mask(!0, bits) { let r = self.decide(st, Cond { a: t, rel: Rel::Lt, b: z })?; return Ok(V::I(1, !r as u128)); } if (p == "eq" || p == "ne") && *k == 0 { let r = self.decide(st, Cond { a: t, rel: Rel::Eq, b: z })?; return Ok(V::I(1, (r == (p == "eq")) as u128)); } } } }
        if let (V::B(c), V::B(d)) = (a, b) { if p == "eq" || p == "ne" { let mut eq = true; let mut i = 0; while i < c.len() { match (c[i], d[i]) { (Cell::F(k, 0, x), Cell::F(k2, 0, y)) if k == k2 => { if !self.decide(st, Cond { a: x, rel: Rel::Eq, b: y })? { eq = false; break; } i += k as usize; } (x, y) => { if x != y { if let (Cell::B(_), Cell::B(_)) = (x, y) { eq = false; break; } return uns("compare of symbolic bits"); } i += 1; } } } return Ok(V::I(1, (eq == (p == "eq")) as u128)); } }
        let (x, y) = (self.int(a)?, self.int(b)?); let (sx, sy) = (sext(x, bits), sext(y, bits));
        Ok(V::I(1, match p { "eq" => x == y, "ne" => x != y, "ult" => x < y, "ule" => x <= y, "ugt" => x > y, "uge" => x >= y, "slt" => sx < sy, "sle" => sx <= sy, "sgt" => sx > sy, _ => sx >= sy } as u128))
    }
    fn cast(&mut self, st: &mut State, op: &str, from: &Ty, to: &Ty, v: &V) -> R<V> {
        if op != "bitcast" { if let (Ty::Vec(n, fe), Ty::Vec(_, te)) = (from, to) { let x = self.elems(v, *n as usize); let mut r = vec![]; for e in x { r.push(self.cast(st, op, fe, te, &e)?); } return Ok(V::A(Rc::new(r))); } }
        if let V::U = v { return Ok(V::U); }
        let fb = if let Ty::I(b) = from { *b } else { 64 }; let tb = if let Ty::I(b) = to { *b } else { 64 };
        Ok(match op {
            "trunc" => match v { V::B(c) if tb % 8 == 0 => return self.from_cells(to, &c[..(tb / 8) as usize]), _ => V::I(tb, mask(self.int(v)?, tb)) },
            "zext" => match v { V::B(c) if tb % 8 == 0 => { let mut c = c.to_vec(); c.resize((tb / 8) as usize, Cell::B(0)); V::B(Rc::new(c)) } _ => V::I(tb, self.int(v)?) },
            "sext" => V::I(tb, mask(sext(self.int(v)?, fb) as u128, tb)),
            "ptrtoint" | "inttoptr" | "ptrtoaddr" | "addrspacecast" => match v { V::B(_) => v.clone(), _ => V::I(tb, mask(self.int(v)?, tb)) },
            "fptrunc" | "fpext" => V::F(self.flt(v)?),
            "uitofp" => { let x = self.int(v)?; V::F(self.t.int(x as i128)) } "sitofp" => { let x = sext(self.int(v)?, fb); V::F(self.t.int(x)) }
            "fptoui" => { let t = self.flt(v)?; V::I(tb, self.enum_trunc(st, t, 0, mask(!0, tb) as i128)? as u128) }
            "fptosi" => { let t = self.flt(v)?; let h = (mask(!0, tb) >> 1) as i128; V::I(tb, mask(self.enum_trunc(st, t, -h - 1, h)? as u128, tb)) }
            "bitcast" => { let mut c = vec![Cell::U; store_size(from) as usize]; self.to_cells(from, v, &mut c, 0)?; self.from_cells(to, &c)? }
            _ => return uns(op),
        })
    }
    fn fname(&mut self, f: u32) -> Rc<str> { if let Some(n) = self.names.get(&f) { return n.clone(); } let n: Rc<str> = self.m.fns[f as usize].name.as_str().into(); self.names.insert(f, n.clone()); n }
    fn push_call(&mut self, st: &mut State, f: u32, args: Vec<V>, dst: Option<u32>, rty: Ty) -> R<()> {
        let fun = match self.m.func(f) { Ok(f) => f, Err(e) => return uns(e) }; self.fns.insert(f);
        let mut regs = vec![V::U; fun.nregs]; for (i, a) in args.into_iter().enumerate() { if i < fun.params.len() { regs[fun.params[i] as usize] = a; } }
        if st.frames.len() > 400 { return uns("call depth"); }
        st.frames.push(Frame { f: fun, bb: 0, prev: 0, ip: 0, regs, allocas: vec![], dst, rty }); Ok(())
    }
    // ---------- driver
    pub fn run(&mut self, entry: u32) {
        let t0 = std::time::Instant::now();
        let mut st = State { frames: vec![], mem: Fast::default(), next: 1 << 20, path: vec![], alive: laneset(&[0.0; S], |_| true), made: vec![], pos: 0, nvars: 0, cases: vec![], inputs: vec![], expect_panic: false, steps: 0, nobl: 0, tr: None };
        if let Err(E::Unsup(e)) = self.push_call(&mut st, entry, vec![], None, Ty::Void) { self.unsup.push(e); return; }
        self.work.push(st);
        let mut calls = 0;
        while let Some(mut st) = self.work.pop() {
            loop {
                if st.steps > self.lim.steps || self.paths > self.lim.paths || ((st.steps & 0xfff == 0 || self.s.calls != calls) && t0.elapsed().as_secs_f64() > self.lim.secs) { self.unfinished = true; self.unsup.push(format!("limit reached: {} paths, {} instructions on the path, {:.0}s", self.paths, st.steps, t0.elapsed().as_secs_f64())); self.work.clear(); return; }
                st.steps += 1; self.steps += 1; st.pos = 0; calls = self.s.calls;
                match self.step(&mut st) {
                    Ok(()) => { st.made.clear(); }
                    Err(E::Fork(opts)) => {
                        let n = opts.len(); let mut kids = vec![];
                        let key = opts[0].first().copied(); for (i, conds) in opts.into_iter().enumerate() { let mut s = st.clone(); s.made.push((key, i as u32)); for c in &conds { let (y, _) = self.cond_lanes(c); s.alive = and4(s.alive, y); s.path.push(*c); } kids.push(s); }
                        let _ = n; kids.reverse(); st = kids.pop().unwrap(); self.work.extend(kids);
                    }
                    Err(E::Done) => { self.paths += 1; self.complete += 1; self.conform(&st); break; }
                    Err(E::Dead) => { self.paths += 1; self.dead += 1; break; }
                    Err(E::Panic(w)) => { self.paths += 1; if st.expect_panic { self.complete += 1; *self.reached.entry("expected panic".into()).or_default() += 1; self.push_obl(&st, "panics as demanded".into(), "proved", "path".into(), String::new(), vec![]); self.conform(&st); } else { let f: Vec<String> = st.frames.iter().rev().take(5).map(|f| demangle(&f.f.name)).collect(); self.bad_path(&mut st, "no-panic", &format!("panics: {} in {}", w, f.join(" <- "))); } break; }
                    Err(E::Mem(w)) => { self.paths += 1; let f = st.frames.last().map(|f| demangle(&f.f.name)).unwrap_or_default(); self.bad_path(&mut st, "memory-safety", &format!("{} in {}", w, f)); break; }
                    Err(E::Unsup(w)) => { self.paths += 1; let f: Vec<String> = st.frames.iter().rev().take(4).map(|f| demangle(&f.f.name)).collect(); self.unsup.push(format!("{} in {}", w, f.join(" <- "))); if self.trace { eprintln!("UNSUP {} in {}", w, f.join(" <- ")); } break; }
                }
            }
            if self.fatal { break; }
        }
    }
    fn note(&mut self, st: &mut State, a: T, b: T) { st.nobl += 1; if st.nobl <= 300 { st.tr = Some(Rc::new(Tr { a, b, up: st.tr.take() })); } }
    /// a sample point of a finished path with the values of its obligations there: the machine must agree
    fn conform(&mut self, st: &State) {
        const KEEP: usize = 40; let l = match (0..S).find(|l| st.alive[l / 64] >> (l % 64) & 1 == 1) { Some(l) => l, None => return };
        let key = (self.paths as u64).wrapping_mul(0x9e3779b97f4a7c15) ^ 0x5bd1e995; let key = key ^ (key >> 29);
        if self.conf.len() >= KEEP { let (i, k) = self.conf.iter().enumerate().map(|(i, c)| (i, c.key)).max_by_key(|c| c.1).unwrap(); if k <= key { return; } self.conf.swap_remove(i); }
        let mut vals = vec![]; let mut t = &st.tr; while let Some(n) = t { vals.push((n.a, n.b)); t = &n.up; } vals.reverse();
        let mut out = vec![]; for (a, b) in vals { let mut v = |s: &mut Self, t| match s.cval(t) { Some(x) => x, None => s.t.val(t)[l] }; out.push((v(self, a), v(self, b))); }
        let inputs = self.lane_inputs(st, l); self.conf.push(Conf { key, inputs, cases: st.cases.clone(), nobl: st.nobl, vals: out });
    }
    fn bad_path(&mut self, st: &mut State, label: &str, why: &str) {
        // is the path feasible at all?
        let (status, inputs) = self.witness(st, &[]);
        if status == "infeasible" { return; }
        let st2 = if status == "witness" { "refuted" } else { "unknown" };
        self.push_obl(st, label.into(), st2, "path".into(), why.into(), inputs);
    }
    fn push_obl(&mut self, st: &State, label: String, status: &'static str, method: String, detail: String, inputs: Vec<f64>) { let vars = self.input_vars(st); if self.trace { eprintln!("  [{}] {} ({}) {}", status, label, method, detail); } self.obls.push(Obl { label, status, method, detail, inputs, cases: st.cases.clone(), vars }); }
    fn input_vars(&self, st: &State) -> Vec<(f64, f64, bool)> { st.inputs.iter().map(|&t| if let Node::Var(i) = self.t.nodes[t as usize] { let v = &self.t.vars[i as usize]; (v.lo, v.hi, v.f32) } else { (0.0, 0.0, false) }).collect() }
    fn lane_inputs(&mut self, st: &State, l: usize) -> Vec<f64> { st.inputs.iter().map(|&t| if let Node::Var(i) = self.t.nodes[t as usize] { self.t.samples[i as usize][l] } else { 0.0 }).collect() }
    fn witness(&mut self, st: &mut State, extra: &[Cond]) -> (&'static str, Vec<f64>) {
        let mut al = st.alive; for c in extra { let (y, _) = self.cond_lanes(c); al = and4(al, y); }
        for l in 0..S { if al[l / 64] >> (l % 64) & 1 == 1 { return ("witness", self.lane_inputs(st, l)); } }
        let mut q = st.path.clone(); q.extend_from_slice(extra);
        match self.s.check(&mut self.t, &q, true) { Answer::Unsat(_) => ("infeasible", vec![]), Answer::Sat(m) => { let v = st.inputs.iter().map(|&t| if let Node::Var(i) = self.t.nodes[t as usize] { *m.get(&i).unwrap_or(&0.0) } else { 0.0 }).collect(); ("witness", v) } _ => ("unknown", vec![]) }
    }
    /// prove that `goals` (a conjunction) hold on the path; each goal negated separately
    fn prove(&mut self, st: &mut State, label: String, goals: Vec<Cond>) {
        let mut method = String::from("normal-form");
        for g in goals {
            if self.t.spec(g.a).is_some() || self.t.spec(g.b).is_some() {
                let ok = match (self.cval(g.a), self.cval(g.b)) { (Some(x), Some(y)) => match g.rel { Rel::Lt => x < y, Rel::Le => x <= y, Rel::Eq => x == y || (x.is_nan() && y.is_nan()), Rel::Ne => x != y }, (Some(x), None) => (g.rel == Rel::Ne) || (x == f64::NEG_INFINITY && g.rel != Rel::Eq), (None, Some(y)) => g.rel == Rel::Ne || (y == f64::INFINITY && g.rel != Rel::Eq), _ => false };
                if ok { continue; }
                let (s, w) = self.witness(st, &[]); if s == "infeasible" { continue; }
                let d = format!("{} {:?} {}", self.t.show(g.a), g.rel, self.t.show(g.b)); self.push_obl(st, label, if s == "witness" { "refuted" } else { "unknown" }, "special value".into(), d, w); return;
            }
            if let Some(b) = self.known(st, g, false) { if b { if self.t.rat(g.a).is_none() && g.a != g.b { method = "interval".into(); } continue; } let (s, w) = self.witness(st, &[]); if s == "infeasible" { continue; } let d = format!("{} {:?} {} is false", self.t.show(g.a), g.rel, self.t.show(g.b)); self.push_obl(st, label, if s == "witness" { "refuted" } else { "unknown" }, "normal-form".into(), d, w); return; }
            if matches!(g.rel, Rel::Le | Rel::Lt) { let bx = self.s.box_of(&self.t, &st.path); let tb = self.s.term_bounds(&self.t, &st.path); let d = self.t.sub(g.a, g.b); let iv = self.s.range_poly(&self.t, d, &bx, &tb); if iv.hi < 0.0 || (g.rel == Rel::Le && iv.hi <= 0.0) { method = "polynomial-form+interval".into(); continue; } }
            // substitution of path equalities
            let g2 = self.s.subst_path(&mut self.t, &st.path, &g);
            if let Some(true) = self.known(st, g2, false) { method = "normal-form+path".into(); continue; }
            let n = g.not();
            // sample lanes on this path: a clear violation is a counterexample candidate
            let (yes, _) = self.cond_lanes(&n); let al = and4(yes, st.alive); let mut cand: Option<(f64, usize)> = None; let (va, vb) = (self.t.val(g.a).clone(), self.t.val(g.b).clone());
            for l in 0..S { if al[l / 64] >> (l % 64) & 1 == 1 { let e = (va[l] - vb[l]).abs() / (1e-300 + va[l].abs() + vb[l].abs()); if e > 1e-9 && cand.map_or(true, |c| e > c.0) { cand = Some((e, l)); } } }
            if let Some((_, l)) = cand { // keep a candidate only if a rigorous enclosure at that point excludes the goal
                let d = self.t.sub(g.a, g.b); let bx: Vec<Iv> = (0..self.t.vars.len()).map(|i| Iv::pt(self.t.samples[i][l])).collect(); let iv = self.s.range(&self.t, d, &bx); let mg = 1e-10 * (va[l].abs() + vb[l].abs()) + 1e3 * iv.width(); let iv = Iv { lo: iv.lo - mg, hi: iv.hi + mg };
                let out = match g.rel { Rel::Lt | Rel::Le => iv.lo > 0.0, Rel::Eq => iv.lo > 0.0 || iv.hi < 0.0, Rel::Ne => false }; if !out { cand = None; } }
            if let Some((e, l)) = cand { if e > 1e-6 { let w = self.lane_inputs(st, l); let d = format!("{} {:?} {}: {} vs {}", self.t.show(g.a), g.rel, self.t.show(g.b), va[l], vb[l]); self.push_obl(st, label, "refuted", "sample".into(), d, w); return; } }
            let mut q = st.path.clone(); q.push(n);
            if let Some(q2) = self.s.solve_path(&mut self.t, &q) {
                let g3 = q2.last().unwrap().not(); let hold = { let d = self.t.sub(g3.a, g3.b); match self.t.rat(d) { Some(r) => match g3.rel { Rel::Lt => r.is_neg(), Rel::Le => r.is_neg() || r.is_zero(), Rel::Eq => r.is_zero(), Rel::Ne => !r.is_zero() }, None => false } };
                if hold { method = "normal-form+path".into(); continue; }
                if let Answer::Unsat(m) = self.s.check(&mut self.t, &q2, false) { method = m; continue; }
            }
            match self.s.check(&mut self.t, &q, true) {
                Answer::Unsat(m) => { method = m; }
                Answer::Sat(m) => { let w = st.inputs.iter().map(|&t| if let Node::Var(i) = self.t.nodes[t as usize] { *m.get(&i).unwrap_or(&0.0) } else { 0.0 }).collect(); let d = format!("{} {:?} {}", self.t.show(g.a), g.rel, self.t.show(g.b)); self.push_obl(st, label, "refuted", "smt model".into(), d, w); return; }
                Answer::Unknown => { let n = (0..S).filter(|l| st.alive[l / 64] >> (l % 64) & 1 == 1).count(); let w = if let Some((_, l)) = cand { self.lane_inputs(st, l) } else { vec![] }; let d = format!("{} {:?} {}; {} samples on the path agree", self.t.show(g.a), g.rel, self.t.show(g.b), n); self.push_obl(st, label, "unknown", format!("samples:{}", n), d, w); return; }
            }
        }
        self.push_obl(st, label, "proved", method, String::new(), vec![]);
    }
    fn rstr(&mut self, st: &State, p: u128, n: u128) -> R<String> { let c = self.rd(st, p as u64, n as u64)?; Ok(c.iter().map(|x| if let Cell::B(b) = x { *b as char } else { '?' }).collect()) }

    fn step(&mut self, st: &mut State) -> R<()> {
        let fr = st.frames.last_mut().unwrap(); let f = fr.f.clone(); let bb = fr.bb as usize; let ip = fr.ip;
        let inst = &f.blocks[bb][ip];
        match inst {
            Inst::Alloca { dst, size } => { let p = self.alloc(st, *size, Cell::U); let fr = st.frames.last_mut().unwrap(); fr.allocas.push((p >> 32) as u32); fr.regs[*dst as usize] = V::I(64, p as u128); }
            Inst::Load { dst, ty, ptr } => { let p = self.geti(st, ptr)? as u64; let v = self.load(st, ty, p)?; self.set(st, *dst, v); }
            Inst::Store { ty, val, ptr } => { let p = self.geti(st, ptr)? as u64; let v = self.get(st, val)?; self.store(st, ty, &v, p)?; }
            Inst::Gep { dst, base, cst, dynv } => { let mut a = self.geti(st, base)? as i128 + *cst as i128; for (o, t, sc) in dynv { let v = self.geti(st, o)?; let bits = if let Ty::I(b) = t { *b } else { 64 }; a += sext(v, bits) * *sc as i128; } self.set(st, *dst, V::I(64, mask(a as u128, 64))); }
            Inst::Bin { dst, op, ty, a, b, nuw, nsw } => { let (x, y) = (self.get(st, a)?, self.get(st, b)?); let r = self.bin(st, op, ty, &x, &y)?;
                if *nuw || *nsw { if let (V::I(bits, p), V::I(_, q), V::I(_, z)) = (&x, &y, &r) { let bad = match op.as_str() { "add" => (*nuw && p + q != *z) || (*nsw && sext(*p, *bits) + sext(*q, *bits) != sext(*z, *bits)), "sub" => (*nuw && q > p) || (*nsw && sext(*p, *bits) - sext(*q, *bits) != sext(*z, *bits)), "mul" => *bits <= 64 && ((*nuw && p * q != *z) || (*nsw && sext(*p, *bits) * sext(*q, *bits) != sext(*z, *bits))), _ => false }; if bad { return Err(E::Mem(format!("unchecked integer {} overflows", op))); } } }
                self.set(st, *dst, r); }
            Inst::ICmp { dst, pred, ty, a, b } => { let (x, y) = (self.get(st, a)?, self.get(st, b)?); for o in [a, b] { if let Op::C(c) = o { if let C::Int(k) = c.1 { if k > 2 && k < 4096 && !self.consts.contains(&(k as u64)) && f.name.contains("10colorspace") { self.consts.insert(k as u64); } } } } let r = self.icmp(st, pred, ty, &x, &y)?; self.set(st, *dst, r); }
            Inst::FCmp { dst, pred, ty, a, b } => { let (x, y) = (self.get(st, a)?, self.get(st, b)?); let r = if let Ty::Vec(n, _) = ty { let (p, q) = (self.elems(&x, *n as usize), self.elems(&y, *n as usize)); let mut r = vec![]; for i in 0..*n as usize { let (p, q) = (self.flt(&p[i])?, self.flt(&q[i])?); r.push(V::I(1, self.fcmp(st, pred, p, q)? as u128)); } V::A(Rc::new(r)) } else { let (p, q) = (self.flt(&x)?, self.flt(&y)?); V::I(1, self.fcmp(st, pred, p, q)? as u128) }; self.set(st, *dst, r); }
            Inst::FNeg { dst, ty, a } => { let x = self.get(st, a)?; let r = if let Ty::Vec(n, _) = ty { let mut r = vec![]; for e in self.elems(&x, *n as usize) { let t = self.flt(&e)?; r.push(V::F(self.fneg(t))); } V::A(Rc::new(r)) } else { let t = self.flt(&x)?; V::F(self.fneg(t)) }; self.set(st, *dst, r); }
            Inst::Cast { dst, op, from, a, to } => { let x = self.get(st, a)?; let r = self.cast(st, op, from, to, &x)?; self.set(st, *dst, r); }
            Inst::Select { dst, cty, c, a, b, .. } => { let k = self.get(st, c)?; let (x, y) = (self.get(st, a)?, self.get(st, b)?); let r = if let Ty::Vec(n, _) = cty { let n = *n as usize; let (k, x, y) = (self.elems(&k, n), self.elems(&x, n), self.elems(&y, n)); let mut r = vec![]; for i in 0..n { r.push(if self.int(&k[i])? & 1 == 1 { x[i].clone() } else { y[i].clone() }); } V::A(Rc::new(r)) } else if self.int(&k)? & 1 == 1 { x } else { y }; self.set(st, *dst, r); }
            Inst::Br(b) => { self.jump(st, *b)?; return Ok(()); }
            Inst::CondBr(c, a, b) => { let k = self.geti(st, c)?; self.jump(st, if k & 1 == 1 { *a } else { *b })?; return Ok(()); }
            Inst::Switch { v, def, cases, .. } => { let k = self.geti(st, v)?; let t = cases.iter().find(|c| c.0 == k).map(|c| c.1).unwrap_or(*def); self.jump(st, t)?; return Ok(()); }
            Inst::Ret(v) => {
                let r = match v { Some((_, o)) => Some(self.get(st, o)?), None => None };
                let fr = st.frames.pop().unwrap(); for a in fr.allocas { st.mem.remove(&a); }
                if st.frames.is_empty() { return Err(E::Done); }
                if let (Some(d), Some(r)) = (fr.dst, r) { self.set(st, d, r); }
                return Ok(());
            }
            Inst::Unreachable => return Err(E::Mem("unreachable code reached".into())),
            Inst::Phi { .. } => return uns("phi out of place"),
            Inst::Extract { dst, a, idx } => { let mut v = self.get(st, a)?; for &i in idx { v = match &v { V::A(x) => x[i].clone(), V::U => V::U, _ => return uns("extractvalue") }; } self.set(st, *dst, v); }
            Inst::Insert { dst, ty, a, v, idx } => { let x = self.get(st, a)?; let n = self.get(st, v)?; let r = ins(ty, &x, &n, idx); self.set(st, *dst, r); }
            Inst::ExtractElt { dst, a, i } => { let x = self.get(st, a)?; let i = self.geti(st, i)? as usize; let v = match &x { V::A(e) => e[i].clone(), _ => V::U }; self.set(st, *dst, v); }
            Inst::InsertElt { dst, ty, a, v, i } => { let x = self.get(st, a)?; let n = self.get(st, v)?; let i = self.geti(st, i)? as usize; let mut e = self.elems(&x, ty.count()); e[i] = n; self.set(st, *dst, V::A(Rc::new(e))); }
            Inst::Shuffle { dst, n, a, b, mask } => { let (x, y) = (self.get(st, a)?, self.get(st, b)?); let mut e = self.elems(&x, *n); e.extend(self.elems(&y, *n)); let r = mask.iter().map(|m| m.map(|i| e[i].clone()).unwrap_or(V::U)).collect(); self.set(st, *dst, V::A(Rc::new(r))); }
            Inst::AtomicRmw { dst, op, ptr, ty, v } => { let p = self.geti(st, ptr)? as u64; let old = self.load(st, ty, p)?; let x = self.get(st, v)?; let n = match op.as_str() { "xchg" => x, "add" | "sub" | "and" | "or" | "xor" => self.bin(st, op, ty, &old, &x)?, _ => return uns(format!("atomicrmw {}", op)) }; self.store(st, ty, &n, p)?; self.set(st, *dst, old); }
            Inst::CmpXchg { dst, ptr, ty, cmp, new } => { let p = self.geti(st, ptr)? as u64; let old = self.load(st, ty, p)?; let c = self.get(st, cmp)?; let n = self.get(st, new)?; let eq = self.int(&old)? == self.int(&c)?; if eq { self.store(st, ty, &n, p)?; } self.set(st, *dst, V::A(Rc::new(vec![old, V::I(1, eq as u128)]))); }
            Inst::Freeze { dst, a, ty } => { let v = self.get(st, a)?; let v = if let V::U = v { self.cv(ty, &C::Zero)? } else { v }; self.set(st, *dst, v); }
            Inst::Nop => {}
            Inst::Unsupported(s) => return uns(s.clone()),
            Inst::Call { dst, callee, args, ret, normal, noreturn } => {
                let fid = match callee { Callee::Fn(f) => *f, Callee::Reg(o) => { let p = self.geti(st, o)?; let k = (p >> 32) as u32; if k < FN_BASE { return uns("indirect call to a non-function"); } k - FN_BASE } Callee::Asm => return uns("asm") };
                let name = self.fname(fid);
                let noreturn = *noreturn || self.m.fns[fid as usize].noreturn;
                if noreturn { return Err(E::Panic(demangle(&name))); }
                let mut av = Vec::with_capacity(args.len()); for (_, o) in args { av.push(self.get(st, o)?); }
                let plain = self.plain.get(fid as usize).copied().unwrap_or(false); let built = if plain { None } else { self.builtin(st, &name, &av, args, ret)? };
                if built.is_none() && !plain && name.starts_with("_R") && !name.contains("4Ulps4ulps") && !name.contains("fmt6format") { if self.plain.len() <= fid as usize { self.plain.resize(fid as usize + 1, false); } self.plain[fid as usize] = true; }
                match built {
                    Some(r) => { if let Some(d) = dst { self.set(st, *d, r); } if let Some(n) = normal { self.jump(st, *n)?; return Ok(()); } }
                    None => {
                        // set the return point of the caller first
                        if let Some(n) = normal { self.jump(st, *n)?; } else { st.frames.last_mut().unwrap().ip += 1; }
                        if let Err(e) = self.push_call(st, fid, av, *dst, ret.clone()) { return Err(e); }
                        return Ok(());
                    }
                }
            }
        }
        st.frames.last_mut().unwrap().ip += 1; Ok(())
    }
    fn jump(&mut self, st: &mut State, b: u32) -> R<()> {
        let fr = st.frames.last_mut().unwrap(); fr.prev = fr.bb; fr.bb = b; fr.ip = 0; let f = fr.f.clone(); let prev = fr.prev; let mut new = vec![];
        for i in &f.blocks[b as usize] { if let Inst::Phi { dst, inc, .. } = i { let o = &inc.iter().find(|x| x.1 == prev).ok_or_else(|| E::Unsup("phi edge".into()))?.0; let v = self.get(st, o)?; new.push((*dst, v)); } else { break; } }
        let n = new.len(); for (d, v) in new { self.set(st, d, v); } st.frames.last_mut().unwrap().ip = n; Ok(())
    }
    fn unit(&self) -> R<Option<V>> { Ok(Some(V::U)) }
    fn map1(&mut self, st: &mut State, v: &V, f: &mut dyn FnMut(&mut Self, &mut State, T) -> R<T>) -> R<Option<V>> { match v { V::A(a) => { let mut r = vec![]; for e in a.iter() { let t = self.flt(e)?; r.push(V::F(f(self, st, t)?)); } Ok(Some(V::A(Rc::new(r)))) } _ => { let t = self.flt(v)?; Ok(Some(V::F(f(self, st, t)?))) } } }
    fn map2(&mut self, st: &mut State, a: &V, b: &V, f: &mut dyn FnMut(&mut Self, &mut State, T, T) -> R<T>) -> R<Option<V>> { match (a, b) { (V::A(x), V::A(y)) => { let mut r = vec![]; for i in 0..x.len() { let (p, q) = (self.flt(&x[i])?, self.flt(&y[i])?); r.push(V::F(f(self, st, p, q)?)); } Ok(Some(V::A(Rc::new(r)))) } _ => { let (p, q) = (self.flt(a)?, self.flt(b)?); Ok(Some(V::F(f(self, st, p, q)?))) } } }
    /// None = not a builtin
    fn builtin(&mut self, st: &mut State, name: &str, a: &[V], args: &[(Ty, Op)], ret: &Ty) -> R<Option<V>> {
        if name.starts_with("vp_") { return self.vp(st, name, a); }
        if name.starts_with("llvm.") { return self.intrinsic(st, name, a, args, ret); }
        // float_cmp's distance in representable values: over the reals 0 for equal numbers, otherwise more than any margin
        if name.contains("float_cmp") && name.contains("4Ulps4ulps") { let (w, ty) = if *ret == Ty::I(32) { (32, Ty::F32) } else { (64, Ty::F64) }; let (p, q) = (self.int(&a[0])? as u64, self.int(&a[1])? as u64); let (x, y) = (self.load(st, &ty, p)?, self.load(st, &ty, q)?); let (x, y) = (self.flt(&x)?, self.flt(&y)?); if self.cval(x).is_none() || self.cval(y).is_none() { let e = self.fcmp(st, "oeq", x, y)?; return Ok(Some(V::I(w, if e { 0 } else { 1 << 30 }))); } }
        if name.starts_with("_RNvMNtC") && (name.contains("4core3f64d") || name.contains("4core3f32f")) && (name.contains("9total_cmp") || name.contains("9is_normal") || name.contains("12is_subnormal") || name.contains("8classify")) {
            let ty = if name.contains("4core3f32") { Ty::F32 } else { Ty::F64 }; let z = self.t.zero;
            if name.contains("9total_cmp") { let (p, q) = (self.int(&a[0])? as u64, self.int(&a[1])? as u64); let (x, y) = (self.load(st, &ty, p)?, self.load(st, &ty, q)?); if let (Ok(x), Ok(y)) = (self.flt(&x), self.flt(&y)) { if (self.cval(x).is_none() || self.cval(y).is_none()) && self.t.spec(x).is_none() && self.t.spec(y).is_none() { let r = if self.decide(st, Cond { a: x, rel: Rel::Lt, b: y })? { 0xff } else if self.decide(st, Cond { a: y, rel: Rel::Lt, b: x })? { 1 } else { 0 }; return Ok(Some(V::I(8, r))); } } }
            else if let Ok(x) = self.flt(&a[0]) { if self.cval(x).is_none() && self.t.spec(x).is_none() { let e = self.decide(st, Cond { a: x, rel: Rel::Eq, b: z })?; return Ok(Some(if name.contains("8classify") { V::I(8, if e { 2 } else { 4 }) } else if name.contains("9is_normal") { V::I(1, !e as u128) } else { V::I(1, 0) })); } }
        }
        if self.m.fns[fidx(self.m, name) as usize].def.is_none() || name.starts_with("_RN") || name.starts_with("_R") {
            // allocator shims
            if name.contains("___rust_alloc_zeroed") || name.contains("__rust_alloc_zeroed") { let n = self.int(&a[0])? as u64; let p = self.alloc(st, n, Cell::B(0)); return Ok(Some(V::I(64, p as u128))); }
            if name.ends_with("___rust_alloc") || name == "__rust_alloc" { let n = self.int(&a[0])? as u64; if n > 1 << 28 { return uns("huge allocation"); } let p = self.alloc(st, n, Cell::U); return Ok(Some(V::I(64, p as u128))); }
            if name.ends_with("___rust_dealloc") || name == "__rust_dealloc" { let p = self.int(&a[0])?; if st.mem.remove(&((p >> 32) as u32)).is_none() || p & 0xffff_ffff != 0 { return Err(E::Mem("invalid deallocation".into())); } return self.unit(); }
            if name.ends_with("___rust_realloc") || name == "__rust_realloc" { let p = self.int(&a[0])? as u64; let n = self.int(&a[3])? as usize; let o = self.obj(st, (p >> 32) as u32)?; let mut v = o.to_vec(); v.resize(n, Cell::U); st.mem.remove(&((p >> 32) as u32)); let id = st.next; st.next += 1; st.mem.insert(id, Rc::new(v)); return Ok(Some(V::I(64, (id as u128) << 32))); }
            if name.contains("__rust_no_alloc_shim") { return self.unit(); }
            if name.contains("5stdio6__print") || name.contains("5stdio7__eprint") || name.contains("6_print") && name.contains("stdio") { return self.unit(); }
            if name.contains("hashmap_random_keys") { return Ok(Some(V::A(Rc::new(vec![V::I(64, 1), V::I(64, 2)])))); }
            if name.contains("5alloc3fmt6format") { if let (Ty::Ptr, true) = (&args[0].0, *ret == Ty::Void) { let p = self.int(&a[0])? as u64; for (k, v) in [(0u64, 0u128), (8, 1), (16, 0)] { self.store(st, &Ty::I(64), &V::I(64, v), p + k)?; } return self.unit(); } }
        }
        let f1 = |s: &str| -> Option<F> { let b = s.strip_suffix('f').filter(|b| ["sin", "cos", "tan", "asin", "acos", "atan", "sinh", "cosh", "tanh", "exp", "exp2", "log", "log10", "log2", "sqrt", "cbrt", "fabs", "round", "floor", "ceil", "trunc", "rint", "roundeven"].contains(b)).unwrap_or(s); Some(match b { "sin" => F::Sin, "cos" => F::Cos, "tan" => F::Tan, "asin" => F::Asin, "acos" => F::Acos, "atan" => F::Atan, "sinh" => F::Sinh, "cosh" => F::Cosh, "tanh" => F::Tanh, "exp" => F::Exp, "exp2" => F::Exp2, "log" => F::Ln, "log10" => F::Log10, "log2" => F::Log2, "sqrt" => F::Sqrt, "cbrt" => F::Cbrt, "fabs" => F::Abs, "round" => F::Round, "floor" => F::Floor, "ceil" => F::Ceil, "trunc" => F::Trunc, "rint" | "roundeven" => F::RoundEven, _ => return None }) };
        if !name.starts_with('_') { if let Some(f) = f1(name) { let t = self.flt(&a[0])?; return Ok(Some(V::F(self.ffun(st, f, t)?))); } }
        match name {
            "pow" | "powf" => return self.map2(st, &a[0], &a[1], &mut |s, st, x, y| s.fpow(st, x, y)),
            "atan2" | "atan2f" => { let (y, x) = (self.flt(&a[0])?, self.flt(&a[1])?); return Ok(Some(V::F(self.fatan2(st, y, x)?))); }
            "hypot" | "hypotf" => { let (x, y) = (self.flt(&a[0])?, self.flt(&a[1])?); let (p, q) = (self.fmul(st, x, x)?, self.fmul(st, y, y)?); let s = self.fadd(p, q); return Ok(Some(V::F(self.ffun(st, F::Sqrt, s)?))); }
            "fma" | "fmaf" => { let (x, y, z) = (self.flt(&a[0])?, self.flt(&a[1])?, self.flt(&a[2])?); let p = self.fmul(st, x, y)?; return Ok(Some(V::F(self.fadd(p, z)))); }
            "expm1" | "expm1f" => { let x = self.flt(&a[0])?; let e = self.ffun(st, F::Exp, x)?; let m = self.t.neg1; return Ok(Some(V::F(self.fadd(e, m)))); }
            "log1p" | "log1pf" => { let x = self.flt(&a[0])?; let o = self.t.one; let y = self.fadd(x, o); return Ok(Some(V::F(self.ffun(st, F::Ln, y)?))); }
            "fmin" | "fminf" => return self.map2(st, &a[0], &a[1], &mut |s, st, x, y| s.fminmax(st, x, y, false)), "fmax" | "fmaxf" => return self.map2(st, &a[0], &a[1], &mut |s, st, x, y| s.fminmax(st, x, y, true)),
            "fmod" | "fmodf" => { let r = self.bin(st, "frem", &Ty::F64, &a[0], &a[1])?; return Ok(Some(r)); }
            "memcmp" | "bcmp" => { let (p, q, n) = (self.int(&a[0])? as u64, self.int(&a[1])? as u64, self.int(&a[2])? as u64); let (x, y) = (self.rd(st, p, n)?, self.rd(st, q, n)?); let mut i = 0; while i < x.len() { match (x[i], y[i]) { (Cell::B(p), Cell::B(q)) => { if p != q { return Ok(Some(V::I(32, if p < q { mask(!0, 32) } else { 1 }))); } i += 1; } (Cell::F(k, 0, s), Cell::F(k2, 0, t)) if k == k2 => { if !self.decide(st, Cond { a: s, rel: Rel::Eq, b: t })? { return Ok(Some(V::I(32, 1))); } i += k as usize; } _ => return uns("memcmp on mixed bytes") } } return Ok(Some(V::I(32, 0))); }
            "memcpy" | "memmove" => { let (d, s, n) = (self.int(&a[0])? as u64, self.int(&a[1])? as u64, self.int(&a[2])? as u64); let c = self.rd(st, s, n)?; self.wr(st, d, &c)?; return Ok(Some(a[0].clone())); }
            "strlen" => { let p = self.int(&a[0])? as u64; let mut n = 0; loop { let c = self.rd(st, p + n, 1)?; if c[0] == Cell::B(0) { break; } n += 1; } return Ok(Some(V::I(64, n as u128))); }
            _ => {}
        }
        if self.m.fns[fidx(self.m, name) as usize].def.is_some() { return Ok(None); }
        uns(format!("external function {}", demangle(name)))
    }
    fn fatan2(&mut self, st: &mut State, y: T, x: T) -> R<T> {
        if self.t.spec(y).is_some() || self.t.spec(x).is_some() { return uns("atan2 of a special value"); }
        let z = self.t.zero;
        if self.decide(st, Cond { a: y, rel: Rel::Eq, b: z })? { return Ok(if self.decide(st, Cond { a: x, rel: Rel::Lt, b: z })? { self.t.pi } else { z }); }
        Ok(self.t.atan2(y, x))
    }
    fn vp(&mut self, st: &mut State, name: &str, a: &[V]) -> R<Option<V>> {
        match name {
            "vp_any_f64" | "vp_any_f32" => { let (lo, hi) = (self.flt(&a[0])?, self.flt(&a[1])?); let f = |s: &Self, t| s.cval(t).unwrap_or(f64::NAN); let (lo, hi) = (f(self, lo), f(self, hi)); let i = st.inputs.len(); let v = self.t.var(i, lo, hi, name == "vp_any_f32", false); st.inputs.push(v); Ok(Some(V::F(v))) }
            "vp_case" => { let n = self.int(&a[0])? as u32; if n == 0 { return Err(E::Dead); } let k = self.choose(st, n)?; st.cases.push(k); Ok(Some(V::I(32, k as u128))) }
            "vp_symbolic" => Ok(Some(V::I(1, 1))),
            "vp_assume" => { if self.int(&a[0])? & 1 == 1 { self.unit() } else { Err(E::Dead) } }
            "vp_assume_lt" | "vp_assume_le" | "vp_assume_ne" | "vp_assume_eq" => { let (x, y) = (self.flt(&a[0])?, self.flt(&a[1])?); let c = Cond { a: x, rel: match name { "vp_assume_lt" => Rel::Lt, "vp_assume_le" => Rel::Le, "vp_assume_eq" => Rel::Eq, _ => Rel::Ne }, b: y }; if self.t.spec(x).is_some() || self.t.spec(y).is_some() { return Err(E::Dead); } match self.known(st, c, true) { Some(true) => self.unit(), Some(false) => Err(E::Dead), None => { let (y, _) = self.cond_lanes(&c); st.alive = and4(st.alive, y); st.path.push(c); self.unit() } } }
            "vp_expect_panic" => { st.expect_panic = self.int(&a[0])? & 1 == 1; self.unit() }
            "vp_reached" => { let l = self.lab(st, a)?; *self.reached.entry(l).or_default() += 1; self.unit() }
            "vp_assert" => { let l = self.lab(st, a)?; let b = self.int(&a[2])? & 1 == 1; let o = self.t.one; let z = self.t.zero; self.note(st, if b { o } else { z }, o); if b { self.push_obl(st, l, "proved", "path".into(), String::new(), vec![]); } else { self.bad_path(st, &l, "asserted condition is false"); } self.unit() }
            "vp_eq" => { let l = self.lab(st, a)?; let (x, y) = (self.flt(&a[2])?, self.flt(&a[3])?); self.note(st, x, y); self.prove(st, l, vec![Cond { a: x, rel: Rel::Eq, b: y }]); self.unit() }
            "vp_near" => { let l = self.lab(st, a)?; let (x, y, e) = (self.flt(&a[2])?, self.flt(&a[3])?, self.flt(&a[4])?); self.note(st, x, y); if x == y || self.t.spec(x).is_some() || self.t.spec(y).is_some() { self.prove(st, l, vec![Cond { a: x, rel: Rel::Eq, b: y }]); } else { let d = self.t.sub(x, y); let n = self.t.neg(e); self.prove(st, l, vec![Cond { a: d, rel: Rel::Le, b: e }, Cond { a: n, rel: Rel::Le, b: d }]); } self.unit() }
            "vp_le" => { let l = self.lab(st, a)?; let (x, y) = (self.flt(&a[2])?, self.flt(&a[3])?); self.note(st, x, y); self.prove(st, l, vec![Cond { a: x, rel: Rel::Le, b: y }]); self.unit() }
            "vp_lt" => { let l = self.lab(st, a)?; let (x, y) = (self.flt(&a[2])?, self.flt(&a[3])?); self.note(st, x, y); self.prove(st, l, vec![Cond { a: x, rel: Rel::Lt, b: y }]); self.unit() }
            _ => uns(name),
        }
    }
    fn lab(&mut self, st: &State, a: &[V]) -> R<String> { let (p, n) = (self.int(&a[0])?, self.int(&a[1])?); self.rstr(st, p, n) }
    fn intrinsic(&mut self, st: &mut State, name: &str, a: &[V], args: &[(Ty, Op)], ret: &Ty) -> R<Option<V>> {
        let b = &name[5..]; let op = b.split('.').next().unwrap(); let bits = if let Ty::I(b) = ret { *b } else if let Some((Ty::I(b), _)) = args.get(0) { *b } else { 64 };
        if b.starts_with("lifetime") || b.starts_with("dbg") || b.starts_with("assume") || b.starts_with("experimental.noalias") || b.starts_with("prefetch") || b.starts_with("va_") { if b.starts_with("assume") { if let V::I(_, 0) = a[0] { return Err(E::Mem("assumption violated (undefined behaviour)".into())); } } return self.unit(); }
        if b.contains("with.overflow") {
            let ib = if let Ty::I(b) = args[0].0 { b } else { 64 }; let (x, y) = (self.int(&a[0])?, self.int(&a[1])?); let (sx, sy) = (sext(x, ib), sext(y, ib));
            let (r, o) = match op { "uadd" => { let r = mask(x.wrapping_add(y), ib); (r, r < x) } "usub" => (mask(x.wrapping_sub(y), ib), x < y), "umul" => { let (r, o) = x.overflowing_mul(y); (mask(r, ib), o || mask(r, ib) != r) } "sadd" => { let r = sx.wrapping_add(sy); (mask(r as u128, ib), sext(mask(r as u128, ib), ib) != r) } "ssub" => { let r = sx.wrapping_sub(sy); (mask(r as u128, ib), sext(mask(r as u128, ib), ib) != r) } "smul" => { let (r, o) = sx.overflowing_mul(sy); (mask(r as u128, ib), o || sext(mask(r as u128, ib), ib) != r) } _ => return uns(name) };
            return Ok(Some(V::A(Rc::new(vec![V::I(ib, r), V::I(1, o as u128)]))));
        }
        if b.starts_with("fptoui.sat") || b.starts_with("fptosi.sat") { let t = self.flt(&a[0])?; let (lo, hi) = if b.starts_with("fptoui") { (0, mask(!0, bits.min(120)) as i128) } else { let h = (mask(!0, bits) >> 1) as i128; (-h - 1, h) }; return Ok(Some(V::I(bits, mask(self.enum_trunc(st, t, lo, hi)? as u128, bits)))); }
        let fo = match op { "fabs" => Some(F::Abs), "sqrt" => Some(F::Sqrt), "sin" => Some(F::Sin), "cos" => Some(F::Cos), "tan" => Some(F::Tan), "asin" => Some(F::Asin), "acos" => Some(F::Acos), "atan" => Some(F::Atan), "sinh" => Some(F::Sinh), "cosh" => Some(F::Cosh), "tanh" => Some(F::Tanh), "exp" => Some(F::Exp), "exp2" => Some(F::Exp2), "log" => Some(F::Ln), "log10" => Some(F::Log10), "log2" => Some(F::Log2), "round" => Some(F::Round), "floor" => Some(F::Floor), "ceil" => Some(F::Ceil), "trunc" => Some(F::Trunc), "rint" | "nearbyint" | "roundeven" => Some(F::RoundEven), _ => None };
        if let Some(f) = fo { return self.map1(st, &a[0], &mut |s, st, t| s.ffun(st, f, t)); }
        match op {
            "memcpy" | "memmove" => { let (d, s, n) = (self.int(&a[0])? as u64, self.int(&a[1])? as u64, self.int(&a[2])? as u64); let c = self.rd(st, s, n)?; self.wr(st, d, &c)?; self.unit() }
            "memset" => { let (d, n) = (self.int(&a[0])? as u64, self.int(&a[2])? as usize); let c = match a[1] { V::U => Cell::U, _ => Cell::B(self.int(&a[1])? as u8) }; self.wr(st, d, &vec![c; n])?; self.unit() }
            "umin" | "umax" | "smin" | "smax" => { let (x, y) = (self.int(&a[0])?, self.int(&a[1])?); let lt = if op.starts_with('u') { x < y } else { sext(x, bits) < sext(y, bits) }; Ok(Some(V::I(bits, if lt == op.ends_with("min") { x } else { y }))) }
            "minimumnum" | "minnum" | "minimum" => self.map2(st, &a[0], &a[1], &mut |s, st, x, y| s.fminmax(st, x, y, false)), "maximumnum" | "maxnum" | "maximum" => self.map2(st, &a[0], &a[1], &mut |s, st, x, y| s.fminmax(st, x, y, true)),
            "pow" => self.map2(st, &a[0], &a[1], &mut |s, st, x, y| s.fpow(st, x, y)),
            "powi" => { let t = self.flt(&a[0])?; let n = sext(self.int(&a[1])?, 32); if self.t.spec(t).is_some() { return uns("powi special"); } if n < 0 { let p = self.t.powi(t, -n as i64); let o = self.t.one; return Ok(Some(V::F(self.fdiv(st, o, p)?))); } if n > 200 { return uns("powi"); } Ok(Some(V::F(self.t.powi(t, n as i64)))) }
            "fma" | "fmuladd" => { let mut k = 0; let z = a[2].clone(); let zs = self.elems(&z, 1); let v = self.map2(st, &a[0], &a[1], &mut |s, st, x, y| { let p = s.fmul(st, x, y)?; let c = s.flt(&zs[k])?; k += 1; Ok(s.fadd(p, c)) })?; Ok(v) }
            "copysign" => self.map2(st, &a[0], &a[1], &mut |s, st, x, y| { let ax = s.ffun(st, F::Abs, x)?; let z = s.t.zero; if y == s.t.nan { return uns("copysign NaN"); } if s.fcmp(st, "olt", y, z)? { Ok(s.fneg(ax)) } else { Ok(ax) } }),
            "ctpop" => Ok(Some(V::I(bits, self.int(&a[0])?.count_ones() as u128))), "ctlz" => { let x = self.int(&a[0])?; Ok(Some(V::I(bits, (x.leading_zeros() - (128 - bits)) as u128))) } "cttz" => { let x = self.int(&a[0])?; Ok(Some(V::I(bits, if x == 0 { bits as u128 } else { x.trailing_zeros() as u128 }))) }
            "bswap" => { let x = self.int(&a[0])?; Ok(Some(V::I(bits, x.swap_bytes() >> (128 - bits)))) }
            "abs" => { let x = sext(self.int(&a[0])?, bits); Ok(Some(V::I(bits, mask(x.unsigned_abs(), bits)))) }
            "fshl" | "fshr" => { let (x, y, s) = (self.int(&a[0])?, self.int(&a[1])?, (self.int(&a[2])? % bits as u128) as u32); if bits > 64 { return uns("fshl128"); } let w = (x << bits) | y; Ok(Some(V::I(bits, mask(if op == "fshl" { (w << s) >> bits } else { w >> s }, bits)))) }
            "usub" => { let (x, y) = (self.int(&a[0])?, self.int(&a[1])?); Ok(Some(V::I(bits, x.saturating_sub(y)))) } "uadd" => { let (x, y) = (self.int(&a[0])?, self.int(&a[1])?); Ok(Some(V::I(bits, (x + y).min(mask(!0, bits))))) }
            "ucmp" | "scmp" => { let ib = if let Ty::I(b) = args[0].0 { b } else { 64 }; let (x, y) = (self.int(&a[0])?, self.int(&a[1])?); let o = if op == "ucmp" { x.cmp(&y) } else { sext(x, ib).cmp(&sext(y, ib)) }; Ok(Some(V::I(bits, mask(o as i128 as u128, bits)))) }
            "threadlocal" => Ok(Some(a[0].clone())), "is" => if b.starts_with("is.constant") { Ok(Some(V::I(1, 0))) } else if b.starts_with("is.fpclass") { let t = self.flt(&a[0])?; let m = self.int(&a[1])?; let c = match self.t.spec(t) { Some(Spec::NaN) => m & 3 != 0, Some(Spec::Inf) => m & 0x200 != 0, Some(Spec::NegInf) => m & 4 != 0, None => return uns("is.fpclass") }; Ok(Some(V::I(1, c as u128))) } else { uns(name) },
            "expect" => Ok(Some(a[0].clone())), "ptrmask" => { let (x, y) = (self.int(&a[0])?, self.int(&a[1])?); Ok(Some(V::I(64, x & y))) }
            "vector" if b.starts_with("vector.reduce.fadd") => { let mut s = self.flt(&a[0])?; for e in self.elems(&a[1], 1) { let t = self.flt(&e)?; s = self.fadd(s, t); } Ok(Some(V::F(s))) }
            "x86" => self.x86(st, name, a),
            "trap" => Err(E::Panic("trap".into())),
            _ => uns(format!("intrinsic {}", name)),
        }
    }
    fn x86(&mut self, st: &mut State, name: &str, a: &[V]) -> R<Option<V>> {
        if name.contains(".hadd.") { let (x, y) = (self.elems(&a[0], 4), self.elems(&a[1], 4)); let n = x.len(); let lane = if name.contains(".pd") { 2 } else { 4 }; let mut r = vec![]; for l in (0..n).step_by(lane) { for v in [&x, &y] { for k in (0..lane).step_by(2) { let (p, q) = (self.flt(&v[l + k])?, self.flt(&v[l + k + 1])?); r.push(V::F(self.fadd(p, q))); } } } return Ok(Some(V::A(Rc::new(r)))); }
        if name.contains(".max.p") { return self.map2(st, &a[0], &a[1], &mut |s, st, x, y| s.fminmax(st, x, y, true)); } if name.contains(".min.p") { return self.map2(st, &a[0], &a[1], &mut |s, st, x, y| s.fminmax(st, x, y, false)); }
        uns(format!("intrinsic {}", name))
    }
}
fn fidx(m: &Module, n: &str) -> u32 { m.fidx[n] }
fn d_size(t: &Ty) -> u64 { t.size() }
fn store_size(t: &Ty) -> u64 { match t { Ty::I(n) => (*n as u64 + 7) / 8, Ty::Vec(n, e) => if **e == Ty::I(1) { (n + 7) / 8 } else { n * e.size() }, t => t.size() } }
fn ins(ty: &Ty, x: &V, n: &V, idx: &[usize]) -> V { if idx.is_empty() { return n.clone(); } let mut e = match x { V::A(a) => a.to_vec(), _ => vec![V::U; ty.count()] }; let k = idx[0]; e[k] = ins(&ty.elt(k), &e[k], n, &idx[1..]); V::A(Rc::new(e)) }
/// readable form of a v0 / legacy mangled name (crate and path identifiers only)
pub fn demangle(n: &str) -> String {
    if !n.starts_with("_R") && !n.starts_with("_ZN") { return n.into(); }
    let b = n.as_bytes(); let mut i = 2; let mut parts = vec![];
    while i < b.len() { if b[i].is_ascii_digit() && b[i] != b'0' { let mut k = 0usize; let s = i; while i < b.len() && b[i].is_ascii_digit() { k = k * 10 + (b[i] - b'0') as usize; i += 1; } if i < b.len() && b[i] == b'_' { i += 1; } if k > 1 && i + k <= b.len() && b[i..i + k].iter().all(|c| c.is_ascii_alphanumeric() || *c == b'_' || *c == b'$' || *c == b'.') && !b[i].is_ascii_digit() { parts.push(String::from_utf8_lossy(&b[i..i + k]).to_string()); i += k; } else { i = s + 1; } } else { i += 1; } }
    parts.join("::")
}
