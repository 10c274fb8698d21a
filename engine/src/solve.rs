//! Decision procedures for conjunctions of real constraints: interval propagation,
//! branch-and-bound with mean-value forms, and SMT (z3 / cvc5) on the nonlinear real encoding.
use crate::rat::Rat;
use crate::term::*;
use std::collections::{BTreeSet, HashMap};
use std::io::Write;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Rel { Lt, Le, Eq, Ne }
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Cond { pub a: T, pub rel: Rel, pub b: T }
impl Cond { pub fn not(&self) -> Cond { match self.rel { Rel::Lt => Cond { a: self.b, rel: Rel::Le, b: self.a }, Rel::Le => Cond { a: self.b, rel: Rel::Lt, b: self.a }, Rel::Eq => Cond { rel: Rel::Ne, ..*self }, Rel::Ne => Cond { rel: Rel::Eq, ..*self } } } }
#[derive(Clone, Debug)]
pub enum Answer { Unsat(String), Sat(HashMap<u32, f64>), Unknown }
pub struct Solver { cache: HashMap<(Vec<Cond>, bool), Answer>, pub calls: u64, pub smt_calls: u64, pub secs: f64, pub smt_secs: f64, pub deep_secs: f64, pub shallow_secs: f64, pub no_smt: bool }

fn falsified(rel: Rel, iv: Iv) -> bool { match rel { Rel::Lt => iv.lo >= 0.0, Rel::Le => iv.lo > 0.0, Rel::Eq => iv.lo > 0.0 || iv.hi < 0.0, Rel::Ne => iv.lo == 0.0 && iv.hi == 0.0 } }

struct Prog { order: Vec<T>, pos: HashMap<T, usize>, vars: Vec<u32>, ch: Vec<[usize; 2]> }

impl Solver {
    pub fn new() -> Solver { Solver { cache: HashMap::new(), calls: 0, smt_calls: 0, secs: 0.0, smt_secs: 0.0, deep_secs: 20.0, shallow_secs: 0.3, no_smt: false } }
    pub fn box_of(&self, t: &Terms, path: &[Cond]) -> Vec<Iv> {
        let mut b = t.dom_box();
        for c in path { for (x, y, flip) in [(c.a, c.b, false), (c.b, c.a, true)] { if let (Node::Var(i), Some(r)) = (&t.nodes[x as usize], t.rat(y)) { let v = r.to_f64(); let i = *i as usize; match (c.rel, flip) { (Rel::Lt | Rel::Le, false) => b[i].hi = b[i].hi.min(v.next_up()), (Rel::Lt | Rel::Le, true) => b[i].lo = b[i].lo.max(v.next_down()), (Rel::Eq, _) => { b[i].lo = b[i].lo.max(v.next_down()); b[i].hi = b[i].hi.min(v.next_up()); } _ => {} } } } }
        b
    }
    /// bounds of (sub)terms stated by the path
    pub fn term_bounds(&self, t: &Terms, path: &[Cond]) -> HashMap<T, Iv> {
        let mut m: HashMap<T, Iv> = HashMap::new();
        for c in path { for (x, y, flip) in [(c.a, c.b, false), (c.b, c.a, true)] { if t.rat(x).is_some() { continue; } if let Some(r) = t.rat(y) { let v = r.to_f64(); let ex = r.is_int() && v.abs() < 1e15; let (vl, vh) = if ex { (v, v) } else { (v.next_down(), v.next_up()) }; let e = m.entry(x).or_insert(Iv::all()); match (c.rel, flip) { (Rel::Lt | Rel::Le, false) => e.hi = e.hi.min(vh), (Rel::Lt | Rel::Le, true) => e.lo = e.lo.max(vl), (Rel::Eq, _) => { e.lo = e.lo.max(vl); e.hi = e.hi.min(vh); } _ => {} } } } }
        m
    }
    pub fn range_b(&self, t: &Terms, x: T, bx: &[Iv], tb: &HashMap<T, Iv>) -> Iv { if let Some(r) = t.rat(x) { let v = r.to_f64(); if r.is_int() && v.abs() < 1e15 { return Iv::pt(v); } return Iv { lo: v.next_down(), hi: v.next_up() }; } let o = t.order(&[x]); let mut m = HashMap::with_capacity(o.len()); t.iv_eval_b(&o, bx, tb, &mut m); m[&x] }
    /// enclosure of x through its polynomial form over atoms
    pub fn range_poly(&self, t: &Terms, x: T, bx: &[Iv], tb: &HashMap<T, Iv>) -> Iv {
        let p = match t.poly(x, 700) { Some(p) => p, None => return Iv::all() };
        let mut atoms: Vec<T> = p.keys().flatten().copied().collect(); atoms.sort(); atoms.dedup();
        let o = t.order(&atoms); let mut m = HashMap::with_capacity(o.len()); t.iv_eval_b(&o, bx, tb, &mut m); t.poly_range(&p, &|a| m[&a])
    }
    pub fn range(&self, t: &Terms, x: T, bx: &[Iv]) -> Iv { if let Some(r) = t.rat(x) { let v = r.to_f64(); return Iv { lo: v.next_down(), hi: v.next_up() }; } let o = t.order(&[x]); let mut m = HashMap::with_capacity(o.len()); t.iv_eval(&o, bx, &mut m); m[&x] }
    pub fn vars_of(&self, t: &Terms, x: T) -> BTreeSet<u32> { t.reach(&[x]).iter().filter_map(|&n| if let Node::Var(i) = t.nodes[n as usize] { Some(i) } else { None }).collect() }
    /// use equalities `var = term` of the path as rewrites
    pub fn subst_path(&self, t: &mut Terms, path: &[Cond], g: &Cond) -> Cond {
        let mut g = *g;
        for c in path { if c.rel == Rel::Eq { for (x, y) in [(c.a, c.b), (c.b, c.a)] { if let Node::Var(i) = t.nodes[x as usize] { if !self.vars_of(t, y).contains(&i) { let mut memo = HashMap::new(); memo.insert(x, y); g.a = subst(t, g.a, &mut memo); g.b = subst(t, g.b, &mut memo); break; } } } } }
        g
    }
    /// eliminate variables that an equality of the query determines (linear with a constant coefficient)
    pub fn solve_path(&self, t: &mut Terms, q: &[Cond]) -> Option<Vec<Cond>> {
        let mut q: Vec<Cond> = q.to_vec(); let mut done = false;
        'outer: for _ in 0..12 {
            for k in 0..q.len() {
                let c = q[k]; let inner = |t: &Terms, x: T| if let Node::Fun(F::Abs | F::Sqrt, y) = t.nodes[x as usize] { y } else { x };
                let d = match c.rel { Rel::Eq => if c.b == t.zero { inner(t, c.a) } else if c.a == t.zero { inner(t, c.b) } else { t.sub(c.a, c.b) }, Rel::Le if c.b == t.zero && matches!(t.nodes[c.a as usize], Node::Fun(F::Abs, _)) => inner(t, c.a), _ => continue };
                if t.rat(d).is_some() { continue; }
                for v in self.vars_of(t, d) {
                    let vt = match t.var_term(v) { Some(x) => x, None => continue }; let at = |t: &mut Terms, x: T| { let mut m = HashMap::new(); m.insert(vt, x); subst(t, d, &mut m) };
                    let (z, o, w) = (t.zero, t.one, t.int(2)); let d0 = at(t, z); if t.spec(d0).is_some() { continue; } let d1 = at(t, o); let d2 = at(t, w); if t.spec(d1).is_some() || t.spec(d2).is_some() { continue; }
                    let c1 = t.sub(d1, d0); let c2 = t.sub(d2, d1); if c1 != c2 { continue; } let cr = match t.rat(c1) { Some(r) if !r.is_zero() => c1, _ => continue }; let lin = t.mul(cr, vt); let back = t.add(lin, d0); if back != d { continue; }
                    let n = t.neg(d0); let rhs = t.div(n, cr); let mut memo = HashMap::new(); memo.insert(vt, rhs); let mut r = vec![]; for (j, o) in q.iter().enumerate() { if j == k { continue; } let n = Cond { a: subst(t, o.a, &mut memo), rel: o.rel, b: subst(t, o.b, &mut memo) }; if t.spec(n.a).is_some() || t.spec(n.b).is_some() { return None; } r.push(n); }
                    let (lo, hi) = (t.vars[v as usize].lo, t.vars[v as usize].hi); if lo.is_finite() { let l = t.cst(Rat::from_f64_exact(lo)); r.insert(0, Cond { a: l, rel: Rel::Le, b: rhs }); } if hi.is_finite() { let l = t.cst(Rat::from_f64_exact(hi)); r.insert(0, Cond { a: rhs, rel: Rel::Le, b: l }); }
                    q = r; done = true; continue 'outer;
                }
            }
            break;
        }
        if done { Some(q) } else { None }
    }
    pub fn check(&mut self, t: &mut Terms, conds: &[Cond], deep: bool) -> Answer {
        // cone of influence of the last condition
        let last = *conds.last().unwrap_or(&Cond { a: t.zero, rel: Rel::Eq, b: t.zero });
        let vs: Vec<BTreeSet<u32>> = conds.iter().map(|c| { let mut v = self.vars_of(t, c.a); v.extend(self.vars_of(t, c.b)); v }).collect();
        let mut rel: BTreeSet<u32> = vs.last().cloned().unwrap_or_default(); let mut keep = vec![false; conds.len()]; if let Some(k) = keep.last_mut() { *k = true; }
        loop { let mut ch = false; for i in 0..conds.len() { if !keep[i] && (!vs[i].is_disjoint(&rel) || vs[i].is_empty()) { keep[i] = true; rel.extend(vs[i].iter()); ch = true; } } if !ch { break; } }
        let mut q: Vec<Cond> = (0..conds.len()).filter(|&i| keep[i]).map(|i| conds[i]).collect(); q.dedup(); let _ = last;
        if let Some(a) = self.cache.get(&(q.clone(), deep)) { return a.clone(); }
        if !deep { if let Some(a) = self.cache.get(&(q.clone(), true)) { return a.clone(); } }
        self.calls += 1; let t0 = std::time::Instant::now();
        let a = self.check0(t, &q, deep); self.secs += t0.elapsed().as_secs_f64();
        if std::env::var("VP_TRACE").is_ok() { let l = q.last().unwrap(); let bx = self.box_of(t, &q); let tb = self.term_bounds(t, &q); let d = t.sub(l.a, l.b); let r = self.range_b(t, d, &bx, &tb); let r2 = if let Node::Div(n, _) = t.nodes[d as usize] { self.range_b(t, n, &bx, &tb) } else { r }; eprintln!("{:?} {:?} {:.2}s {} of {} conditions: {} {:?} {}", r, r2, t0.elapsed().as_secs_f64(), match &a { Answer::Unsat(m) => m.as_str(), Answer::Sat(_) => "sat", _ => "unknown" }, q.len(), t.show(l.a), l.rel, t.show(l.b)); }
        self.cache.insert((q, deep), a.clone()); a
    }
    fn check0(&mut self, t: &mut Terms, q: &[Cond], deep: bool) -> Answer {
        let ds: Vec<(T, Rel)> = q.iter().map(|c| (t.sub(c.a, c.b), c.rel)).collect();
        // substitution of equalities first
        for k in 0..q.len() { if q[k].rel == Rel::Eq { let c = q[k]; for (x, y) in [(c.a, c.b), (c.b, c.a)] { if let Node::Var(i) = t.nodes[x as usize] { if t.rat(y).is_some() { let mut memo = HashMap::new(); memo.insert(x, y); let mut r: Vec<Cond> = vec![]; let mut bad = false; for (j, o) in q.iter().enumerate() { if j == k { continue; } let n = Cond { a: subst(t, o.a, &mut memo), rel: o.rel, b: subst(t, o.b, &mut memo) }; let d = t.sub(n.a, n.b); if t.spec(n.a).is_some() || t.spec(n.b).is_some() { return Answer::Unknown; } if let Some(v) = t.rat(d) { let s = if v.is_zero() { 0 } else if v.is_neg() { -1 } else { 1 }; let ok = match n.rel { Rel::Lt => s < 0, Rel::Le => s <= 0, Rel::Eq => s == 0, Rel::Ne => s != 0 }; if !ok { bad = true; } continue; } r.push(n); }
                            if bad { return Answer::Unsat("substitution".into()); } let v = t.rat(y).unwrap().to_f64(); let dm = &t.vars[i as usize]; if v < dm.lo || v > dm.hi { return Answer::Unsat("domain".into()); }
                            if r.is_empty() { let mut m = HashMap::new(); m.insert(i, v); return Answer::Sat(fill(t, m)); }
                            return match self.check0(t, &r, deep) { Answer::Sat(mut m) => { m.insert(i, v); Answer::Sat(m) } a => a }; } } } } }
        let bx = self.box_of(t, q);
        for v in bx.iter() { if v.lo > v.hi { return Answer::Unsat("interval".into()); } }
        for (d, r) in &ds { if falsified(*r, self.range(t, *d, &bx)) { return Answer::Unsat("interval".into()); } }
        if !self.no_smt && self.lin(t, q) { return Answer::Unsat("z3-linear".into()); }
        if !self.no_smt && self.abst(t, q) { return Answer::Unsat("z3-abstraction".into()); }
        match self.bnb(t, &ds, &bx, if deep { 3000 } else { 600 }) { Answer::Unknown => {} a => return a }
        if !self.no_smt { match self.smt(t, q, if deep { self.deep_secs } else { self.shallow_secs }, deep) { Answer::Unknown => {} a => return a } }
        if deep { return self.bnb(t, &ds, &bx, 400_000); }
        Answer::Unknown
    }
    // ---------- branch and bound
    fn bnb(&self, t: &Terms, ds: &[(T, Rel)], bx: &[Iv], budget: usize) -> Answer {
        let roots: Vec<T> = ds.iter().map(|d| d.0).collect(); let order = t.order(&roots);
        if order.iter().any(|&n| matches!(t.nodes[n as usize], Node::Spec(_))) { return Answer::Unknown; }
        let pos: HashMap<T, usize> = order.iter().enumerate().map(|(i, &n)| (n, i)).collect();
        let mut vars: Vec<u32> = order.iter().filter_map(|&n| if let Node::Var(i) = t.nodes[n as usize] { Some(i) } else { None }).collect(); vars.sort(); vars.dedup();
        if vars.is_empty() || vars.len() > 24 { return Answer::Unknown; }
        let finite = vars.iter().all(|&v| bx[v as usize].lo.is_finite() && bx[v as usize].hi.is_finite());
        let ch: Vec<[usize; 2]> = order.iter().map(|&n| { let c = t.children(n); [c[0].map(|x| pos[&x]).unwrap_or(0), c[1].map(|x| pos[&x]).unwrap_or(0)] }).collect();
        let p = Prog { order, pos, vars, ch };
        let budget = (budget * 60 / (p.order.len() + 40)).max(60);
        let mut st: Vec<Vec<Iv>> = vec![p.vars.iter().map(|&v| bx[v as usize]).collect()]; let mut n = 0;
        let mut heap: std::collections::VecDeque<Vec<Iv>> = st.drain(..).collect();
        while let Some(b) = heap.pop_back() {
            n += 1; if n > budget || (!finite && n > 400) { return Answer::Unknown; }
            let (bad, smear) = self.box_test(t, &p, ds, &b);
            if bad { continue; }
            // midpoint as a model
            let mid: HashMap<u32, f64> = p.vars.iter().zip(b.iter()).map(|(&v, iv)| { let m = iv.mid(); (v, if t.vars[v as usize].f32 { (m as f32 as f64).clamp(iv.lo, iv.hi) } else { m }) }).collect();
            if sat_at(t, ds, &mid) { return Answer::Sat(fill(t, mid)); }
            let mut k = usize::MAX; let mut best = 0.0; for i in 0..b.len() { let w = b[i].width(); if !(w > 1e-13 * (1.0 + b[i].lo.abs())) { continue; } let s = if w.is_finite() { smear[i].max(1e-12 * w) } else { f64::MAX }; if s > best || k == usize::MAX { best = s; k = i; } }
            if k == usize::MAX { return Answer::Unknown; }
            let m = b[k].mid(); let mut l = b.clone(); let mut r = b; l[k].hi = m; r[k].lo = m; heap.push_back(l); heap.push_back(r);
        }
        Answer::Unsat("interval-bnb".into())
    }
    fn box_test(&self, t: &Terms, p: &Prog, ds: &[(T, Rel)], b: &[Iv]) -> (bool, Vec<f64>) {
        let nv = p.vars.len(); let n = p.order.len();
        let ev = |bx: &[Iv]| -> Vec<Iv> { let mut v: Vec<Iv> = Vec::with_capacity(n); for (i, &nd) in p.order.iter().enumerate() { let (x, y) = (p.ch[i][0], p.ch[i][1]); let r = match &t.nodes[nd as usize] { Node::Const(r) => { let x = r.to_f64(); if r.is_zero() { Iv::pt(0.0) } else if r.is_int() && x.abs() < 1e15 { Iv::pt(x) } else { Iv { lo: x.next_down(), hi: x.next_up() } } } Node::Spec(_) => Iv::all(), Node::Pi => { let p = std::f64::consts::PI; Iv { lo: p.next_down(), hi: p.next_up() } } Node::Var(k) => bx[p.vars.binary_search(k).unwrap()], Node::Add(..) => v[x].add(v[y]), Node::Mul(..) => if x == y { v[x].sqr() } else { v[x].mul(v[y]) }, Node::Div(..) => v[x].div(v[y]), Node::Fun(f, _) => iv_fun(*f, v[x]), Node::Pow(..) => iv_pow(v[x], v[y]), Node::Atan2(..) => iv_atan2(v[x], v[y]) }; v.push(r); } v };
        let v = ev(b);
        for (d, r) in ds { if falsified(*r, v[p.pos[d]]) { return (true, vec![]); } }
        // gradients (interval)
        let mut smear = vec![0.0f64; nv]; let mut dead = false;
        let widths_ok = b.iter().all(|i| i.width().is_finite());
        if widths_ok && nv * n < 60000 {
            let z = Iv::pt(0.0); let mut g: Vec<Option<Vec<Iv>>> = Vec::with_capacity(n);
            for (i, &nd) in p.order.iter().enumerate() {
                let (x, y) = (p.ch[i][0], p.ch[i][1]);
                let lin = |g: &Vec<Option<Vec<Iv>>>, cs: &[(usize, Iv)]| -> Option<Vec<Iv>> { let mut out: Option<Vec<Iv>> = None; for (k, c) in cs { if let Some(gk) = &g[*k] { let o = out.get_or_insert_with(|| vec![z; nv]); for j in 0..nv { if gk[j].lo == 0.0 && gk[j].hi == 0.0 { continue; } o[j] = o[j].add(gk[j].mul(*c)); } } } out };
                let one = Iv::pt(1.0);
                let r = match &t.nodes[nd as usize] { Node::Const(_) | Node::Pi | Node::Spec(_) => None, Node::Var(k) => { let mut o = vec![z; nv]; o[p.vars.binary_search(k).unwrap()] = one; Some(o) } Node::Add(..) => lin(&g, &[(x, one), (y, one)]), Node::Mul(..) => lin(&g, &[(x, v[y]), (y, v[x])]), Node::Div(..) => { let iy = v[y].inv(); lin(&g, &[(x, iy), (y, v[i].mul(iy).neg())]) }
                    Node::Fun(f, _) => { let a = v[x]; let d = match f { F::Sqrt => v[i].inv().mul(Iv::pt(0.5)), F::Abs => if a.lo > 0.0 { one } else if a.hi < 0.0 { Iv::pt(-1.0) } else { Iv { lo: -1.0, hi: 1.0 } }, F::Ln => a.inv(), F::Log10 => a.inv().mul(Iv { lo: 0.43429448190325170, hi: 0.43429448190325190 }), F::Log2 => a.inv().mul(Iv { lo: 1.4426950408889630, hi: 1.4426950408889640 }), F::Exp => v[i], F::Exp2 => v[i].mul(Iv { lo: 0.69314718055994520, hi: 0.69314718055994540 }), F::Sin => iv_fun(F::Cos, a), F::Cos => iv_fun(F::Sin, a).neg(), F::Atan => one.add(a.sqr()).inv(), F::Cbrt => v[i].sqr().inv().mul(Iv { lo: 0.33333333333333326, hi: 0.33333333333333337 }), _ => Iv::all() }; lin(&g, &[(x, d)]) }
                    Node::Pow(_, e) => { if let Some(c) = t.rat(*e) { let c = c.to_f64(); let d = iv_pow(v[x], Iv { lo: (c - 1.0).next_down(), hi: (c - 1.0).next_up() }).mul(Iv { lo: c.next_down(), hi: c.next_up() }); lin(&g, &[(x, d)]) } else if t.rat(match t.nodes[nd as usize] { Node::Pow(b, _) => b, _ => 0 }).is_some() { let lb = iv_fun(F::Ln, v[x]); lin(&g, &[(y, v[i].mul(lb))]) } else { lin(&g, &[(x, Iv::all()), (y, Iv::all())]) } }
                    Node::Atan2(..) => { let r2 = v[x].sqr().add(v[y].sqr()).inv(); lin(&g, &[(x, v[y].mul(r2)), (y, v[x].mul(r2).neg())]) } };
                g.push(r);
            }
            let mids: Vec<Iv> = b.iter().map(|i| Iv::pt(i.mid())).collect(); let vm = ev(&mids);
            for (d, r) in ds { let k = p.pos[d]; let mut m = vm[k]; if let Some(gk) = &g[k] { for j in 0..nv { let dx = b[j].sub(mids[j]); let s = gk[j].mul(dx); if s.lo.is_nan() || s.hi.is_nan() { m = Iv::all(); break; } m = m.add(s); let mag = gk[j].abs().hi; smear[j] = smear[j].max(if mag.is_finite() { mag * b[j].width() } else { 1e6 * b[j].width() }); } } 
                // monotone corners
                if let Some(gk) = &g[k] { if gk.iter().all(|x| x.lo >= 0.0 || x.hi <= 0.0) { let lo: Vec<Iv> = (0..nv).map(|j| Iv::pt(if gk[j].lo >= 0.0 { b[j].lo } else { b[j].hi })).collect(); let hi: Vec<Iv> = (0..nv).map(|j| Iv::pt(if gk[j].lo >= 0.0 { b[j].hi } else { b[j].lo })).collect(); let (l, h) = (ev(&lo)[k], ev(&hi)[k]); m = m.meet(Iv { lo: l.lo, hi: h.hi }); } }
                if falsified(*r, m.meet(v[k])) { dead = true; break; } }
        } else { for j in 0..nv { smear[j] = b[j].width(); } }
        (dead, smear)
    }
    // ---------- SMT
    /// products and quotients as opaque atoms: linear arithmetic only
    fn lin(&mut self, t: &mut Terms, q: &[Cond]) -> bool {
        let roots: Vec<T> = q.iter().flat_map(|c| [c.a, c.b]).collect(); let order = t.order(&roots); if order.len() > 2500 { return false; }
        let mut s = String::from("(set-logic QF_LRA)\n"); let nn = |t: &Terms, x: T| t.rat(x).is_some(); let mut atoms = 0;
        for &n in &order { match t.nodes[n as usize].clone() {
            Node::Const(r) => s += &format!("(define-fun t{} () Real {})\n", n, r.to_smt()), Node::Spec(_) => return false,
            Node::Var(i) => { s += &format!("(declare-const t{} Real)\n", n); let v = &t.vars[i as usize]; if v.lo.is_finite() { s += &format!("(assert (<= {} t{}))\n", Rat::from_f64_exact(v.lo).to_smt(), n); } if v.hi.is_finite() { s += &format!("(assert (<= t{} {}))\n", n, Rat::from_f64_exact(v.hi).to_smt()); } }
            Node::Add(a, b) => s += &format!("(define-fun t{} () Real (+ t{} t{}))\n", n, a, b), Node::Mul(a, b) if nn(t, a) || nn(t, b) => s += &format!("(define-fun t{} () Real (* t{} t{}))\n", n, a, b),
            Node::Mul(a, b) => { atoms += 1; s += &format!("(declare-const t{} Real)\n", n); if a == b { s += &format!("(assert (>= t{} 0.0))\n", n); } }
            Node::Div(a, b) if nn(t, b) && b != t.zero => s += &format!("(define-fun t{} () Real (/ t{} t{}))\n", n, a, b),
            Node::Fun(F::Abs, a) => s += &format!("(define-fun t{0} () Real (ite (>= t{1} 0.0) t{1} (- t{1})))\n", n, a),
            Node::Fun(F::Sqrt | F::Exp | F::Exp2, _) | Node::Pow(..) => { atoms += 1; s += &format!("(declare-const t{0} Real)(assert (>= t{0} 0.0))\n", n) }
            _ => { atoms += 1; s += &format!("(declare-const t{} Real)\n", n) }
        } }
        if atoms == 0 { return false; }
        // enclosures of the atoms, and monotonicity of the elementary functions among them
        let bx = self.box_of(t, q); let tb = self.term_bounds(t, q); let mut iv = HashMap::with_capacity(order.len()); t.iv_eval_b(&order, &bx, &tb, &mut iv);
        let mut mono: Vec<(T, T, (u8, Rat))> = vec![];
        for &n in &order { let at = match &t.nodes[n as usize] { Node::Mul(a, b) => !nn(t, *a) && !nn(t, *b), Node::Div(_, b) => !nn(t, *b), Node::Fun(F::Abs, _) => false, Node::Fun(..) | Node::Pow(..) | Node::Atan2(..) | Node::Pi => true, _ => false }; if !at { continue; }
            let v = iv[&n]; if v.lo.is_finite() && v.lo.abs() < 1e100 { s += &format!("(assert (<= {} t{}))\n", Rat::from_f64_exact(v.lo).to_smt(), n); } if v.hi.is_finite() && v.hi.abs() < 1e100 { s += &format!("(assert (<= t{} {}))\n", n, Rat::from_f64_exact(v.hi).to_smt()); }
            match &t.nodes[n as usize] { Node::Fun(f @ (F::Sqrt | F::Exp | F::Exp2 | F::Ln | F::Log10 | F::Log2 | F::Cbrt | F::Atan | F::Round | F::Floor), a) => mono.push((n, *a, (*f as u8 + 10, Rat::int(0)))), Node::Pow(a, b) => if let Some(r) = t.rat(*b) { if !r.is_neg() { mono.push((n, *a, (1, r.clone()))) } } else if let Some(r) = t.rat(*a) { if r.cmp(&Rat::int(1)) == std::cmp::Ordering::Greater { mono.push((n, *b, (2, r.clone()))) } }, _ => {} } }
        if mono.len() <= 24 { for i in 0..mono.len() { for j in 0..mono.len() { if i != j && mono[i].2 == mono[j].2 { s += &format!("(assert (=> (<= t{} t{}) (<= t{} t{})))\n", mono[i].1, mono[j].1, mono[i].0, mono[j].0); } } } }
        for c in q { s += &match c.rel { Rel::Lt => format!("(assert (< t{} t{}))\n", c.a, c.b), Rel::Le => format!("(assert (<= t{} t{}))\n", c.a, c.b), Rel::Eq => format!("(assert (= t{} t{}))\n", c.a, c.b), Rel::Ne => format!("(assert (not (= t{} t{})))\n", c.a, c.b) }; }
        s += "(check-sat)\n"; let t0 = std::time::Instant::now(); self.smt_calls += 1; let o = run_tool("z3-new", &["-in", "-t:1000"], &s, 1.5); self.smt_secs += t0.elapsed().as_secs_f64(); o.lines().next().unwrap_or("").trim() == "unsat"
    }
    /// the last condition alone, as a polynomial over opaque atoms (quotients, functions) with their enclosures
    fn abst(&mut self, t: &mut Terms, q: &[Cond]) -> bool {
        let c = match q.last() { Some(c) => *c, None => return false }; let d = t.sub(c.a, c.b); let p = match t.poly(d, 40) { Some(p) => p, None => return false };
        let atoms: BTreeSet<T> = p.keys().flatten().cloned().collect(); if atoms.is_empty() || atoms.len() > 10 || !p.keys().any(|k| k.len() > 1) { return false; }
        let bx = self.box_of(t, q); let tb = self.term_bounds(t, q); let mut s = String::from("(set-logic QF_NRA)\n");
        for &a in &atoms { s += &format!("(declare-const t{} Real)\n", a); let v = self.range_b(t, a, &bx, &tb); if v.lo.is_finite() && v.lo.abs() < 1e100 { s += &format!("(assert (<= {} t{}))\n", Rat::from_f64_exact(v.lo).to_smt(), a); } if v.hi.is_finite() && v.hi.abs() < 1e100 { s += &format!("(assert (<= t{} {}))\n", a, Rat::from_f64_exact(v.hi).to_smt()); } }
        s += "(define-fun d () Real (+ 0.0"; for (k, r) in &p { s += " (*"; s += &format!(" {} 1.0", r.to_smt()); for a in k { s += &format!(" t{}", a); } s += ")"; } s += "))\n";
        s += &match c.rel { Rel::Lt => "(assert (< d 0.0))\n", Rel::Le => "(assert (<= d 0.0))\n", Rel::Eq => "(assert (= d 0.0))\n", Rel::Ne => "(assert (not (= d 0.0)))\n" };
        s += "(check-sat)\n"; let t0 = std::time::Instant::now(); self.smt_calls += 1; let o = run_tool("z3-new", &["-in", "-t:1000"], &s, 1.5); self.smt_secs += t0.elapsed().as_secs_f64(); o.lines().next().unwrap_or("").trim() == "unsat"
    }
    pub fn smt_text(&self, t: &mut Terms, q: &[Cond]) -> Option<(String, Vec<u32>)> {
        let roots: Vec<T> = q.iter().flat_map(|c| [c.a, c.b]).collect(); let order = t.order(&roots); if order.len() > 2500 { return None; }
        let mut s = String::from("(set-option :pp.decimal true)\n(set-option :pp.decimal_precision 25)\n(set-logic QF_NRA)\n"); let mut vars = vec![]; let mut pows: Vec<(T, T, Rat)> = vec![]; let mut mono: Vec<(T, T, F)> = vec![];
        let nm = |n: T| format!("t{}", n);
        for &n in &order { match t.nodes[n as usize].clone() {
            Node::Const(r) => s += &format!("(define-fun t{} () Real {})\n", n, r.to_smt()), Node::Spec(_) => return None,
            Node::Pi => s += &format!("(declare-const t{0} Real)(assert (and (< 3.14159265358979 t{0}) (< t{0} 3.1415926535898)))\n", n),
            Node::Var(i) => { vars.push(i); s += &format!("(declare-const t{} Real)\n", n); let v = &t.vars[i as usize]; if v.lo.is_finite() { s += &format!("(assert (<= {} t{}))\n", Rat::from_f64_exact(v.lo).to_smt(), n); } if v.hi.is_finite() { s += &format!("(assert (<= t{} {}))\n", n, Rat::from_f64_exact(v.hi).to_smt()); } }
            Node::Add(a, b) => s += &format!("(define-fun t{} () Real (+ {} {}))\n", n, nm(a), nm(b)), Node::Mul(a, b) => s += &format!("(define-fun t{} () Real (* {} {}))\n", n, nm(a), nm(b)),
            Node::Div(a, b) => s += &format!("(declare-const t{0} Real)(assert (= (* t{0} {2}) {1}))(assert (not (= {2} 0.0)))\n", n, nm(a), nm(b)),
            Node::Fun(F::Sqrt, a) => { s += &format!("(declare-const t{0} Real)(assert (>= t{0} 0.0))(assert (= (* t{0} t{0}) {1}))\n", n, nm(a)); }
            Node::Fun(F::Abs, a) => s += &format!("(define-fun t{0} () Real (ite (>= {1} 0.0) {1} (- {1})))\n", n, nm(a)),
            Node::Fun(f, a) => { s += &format!("(declare-const t{} Real)\n", n); match f { F::Cos | F::Sin => s += &format!("(assert (<= (- 1.0) t{0}))(assert (<= t{0} 1.0))\n", n), F::Exp | F::Exp2 => { s += &format!("(assert (> t{} 0.0))\n", n); mono.push((n, a, f)); } F::Cbrt => { s += &format!("(assert (= (* t{0} t{0} t{0}) {1}))\n", n, nm(a)); } F::Round => s += &format!("(assert (<= (- t{0} {1}) 0.5))(assert (<= (- {1} t{0}) 0.5))\n", n, nm(a)), F::Floor => s += &format!("(assert (<= t{0} {1}))(assert (< {1} (+ t{0} 1.0)))\n", n, nm(a)), F::Ln | F::Log10 | F::Log2 | F::Atan | F::Tanh | F::Sinh => mono.push((n, a, f)), _ => {} } }
            Node::Pow(a, b) => { s += &format!("(declare-const t{0} Real)(assert (>= t{0} 0.0))\n", n); if let Some(r) = t.rat(b).cloned() { pows.push((n, a, r.clone())); if let (Some(p), Some(d)) = (Rat { n: r.n.clone(), d: crate::rat::Big::from_i128(1) }.to_i128(), Rat { n: r.d.clone(), d: crate::rat::Big::from_i128(1) }.to_i128()) { if p.abs() <= 12 && d <= 12 && p > 0 { let l: Vec<String> = (0..d).map(|_| nm(n)).collect(); let rr: Vec<String> = (0..p).map(|_| nm(a)).collect(); let j = |v: Vec<String>| if v.len() == 1 { v[0].clone() } else { format!("(* {})", v.join(" ")) }; s += &format!("(assert (= {} {}))\n", j(l), j(rr)); } } s += &format!("(assert (=> (> {0} 0.0) (> t{1} 0.0)))\n", nm(a), n); if !r.is_neg() { s += &format!("(assert (=> (= {0} 1.0) (= t{1} 1.0)))(assert (=> (< {0} 1.0) (< t{1} 1.0)))(assert (=> (> {0} 1.0) (> t{1} 1.0)))(assert (=> (= {0} 0.0) (= t{1} 0.0)))\n", nm(a), n); } } }
            Node::Atan2(..) => s += &format!("(declare-const t{0} Real)(assert (<= (- 3.1415926535898) t{0}))(assert (<= t{0} 3.1415926535898))\n", n),
        } }
        for i in 0..pows.len() { for j in i + 1..pows.len() { if pows[i].2 == pows[j].2 { let (l, r) = if pows[i].2.is_neg() { (&pows[j], &pows[i]) } else { (&pows[i], &pows[j]) }; s += &format!("(assert (= (< t{0} t{1}) (< t{2} t{3})))\n(assert (= (< t{1} t{0}) (< t{3} t{2})))\n", pows[i].1, pows[j].1, l.0, r.0); } } }
        for i in 0..mono.len() { for j in i + 1..mono.len() { if mono[i].2 == mono[j].2 { s += &format!("(assert (= (< t{0} t{1}) (< t{2} t{3})))\n(assert (= (< t{1} t{0}) (< t{3} t{2})))\n", mono[i].1, mono[j].1, mono[i].0, mono[j].0); } } }
        // sin^2 + cos^2 = 1
        for &n in &order { if let Node::Fun(F::Sin, a) = t.nodes[n as usize] { for &m in &order { if let Node::Fun(F::Cos, b) = t.nodes[m as usize] { let nb = t.neg(b); if b == a || nb == a { s += &format!("(assert (= (+ (* t{0} t{0}) (* t{1} t{1})) 1.0))\n", n, m); } } } } }
        for c in q { s += &match c.rel { Rel::Lt => format!("(assert (< t{} t{}))\n", c.a, c.b), Rel::Le => format!("(assert (<= t{} t{}))\n", c.a, c.b), Rel::Eq => format!("(assert (= t{} t{}))\n", c.a, c.b), Rel::Ne => format!("(assert (not (= t{} t{})))\n", c.a, c.b) }; }
        s += "(check-sat)\n"; Some((s, vars))
    }
    fn smt(&mut self, t: &mut Terms, q: &[Cond], secs: f64, deep: bool) -> Answer {
        let (base, vars) = match self.smt_text(t, q) { Some(x) => x, None => return Answer::Unknown };
        let vn: Vec<(u32, T)> = { let roots: Vec<T> = q.iter().flat_map(|c| [c.a, c.b]).collect(); t.order(&roots).iter().filter_map(|&n| if let Node::Var(i) = t.nodes[n as usize] { Some((i, n)) } else { None }).collect() }; let _ = vars;
        let mut txt = base.clone(); if !vn.is_empty() { txt += &format!("(get-value ({}))\n", vn.iter().map(|v| format!("t{}", v.1)).collect::<Vec<_>>().join(" ")); }
        if let Ok(d) = std::env::var("VP_SMT_DUMP") { let _ = std::fs::write(format!("{}/q{}.smt2", d, self.smt_calls), &txt); }
        let t0 = std::time::Instant::now(); self.smt_calls += 1;
        let out = run_tool("z3-new", &["-in", &format!("-t:{}", (secs * 1000.0) as u64)], &txt, secs * 1.2 + 0.3); self.smt_secs += t0.elapsed().as_secs_f64();
        let first = out.lines().next().unwrap_or("").trim().to_string();
        if first == "unsat" { return Answer::Unsat("z3".into()); }
        if first == "sat" {
            let vals = parse_vals(&out[out.find('\n').unwrap_or(0)..]);
            let m: HashMap<u32, f64> = vn.iter().filter_map(|(i, n)| vals.get(&format!("t{}", n)).map(|x| (*i, *x))).collect();
            let ds: Vec<(T, Rel)> = q.iter().map(|c| (t.sub(c.a, c.b), c.rel)).collect();
            if sat_at_loose(t, &ds, &m) { return Answer::Sat(fill(t, m)); }
            return Answer::Unknown;
        }
        if deep { let t1 = std::time::Instant::now(); let txt2 = base.lines().filter(|l| !l.contains(":pp.")).collect::<Vec<_>>().join("\n"); let o = run_tool("cvc5", &["--lang", "smt2", &format!("--tlimit={}", (secs * 500.0) as u64)], &txt2, secs * 0.5 + 1.0); self.smt_secs += t1.elapsed().as_secs_f64(); self.smt_calls += 1; if o.lines().next().unwrap_or("").trim() == "unsat" { return Answer::Unsat("cvc5".into()); } }
        Answer::Unknown
    }
}
pub fn iv_atan2(y: Iv, x: Iv) -> Iv { let c = [y.lo.atan2(x.lo), y.lo.atan2(x.hi), y.hi.atan2(x.lo), y.hi.atan2(x.hi)]; let pi = 3.1415926535897936; if x.lo > 0.0 || y.lo > 0.0 || y.hi < 0.0 { let l = c.iter().cloned().fold(9.0, f64::min); let h = c.iter().cloned().fold(-9.0, f64::max); Iv { lo: l - l.abs() * 1e-15 - 1e-300, hi: h + h.abs() * 1e-15 + 1e-300 } } else if y.lo >= 0.0 { Iv { lo: 0.0, hi: pi } } else { Iv { lo: -pi, hi: pi } } }
fn fill(t: &Terms, mut m: HashMap<u32, f64>) -> HashMap<u32, f64> { for (i, v) in t.vars.iter().enumerate() { m.entry(i as u32).or_insert_with(|| if v.lo <= 0.5 && v.hi >= 0.5 { 0.5 } else if v.lo.is_finite() { v.lo } else { v.hi }); } m }
fn sat_at(t: &Terms, ds: &[(T, Rel)], m: &HashMap<u32, f64>) -> bool { let mut memo = HashMap::new(); let f = |i: u32| *m.get(&i).unwrap_or(&0.5); for (d, r) in ds { let x = t.eval_at(*d, &f, &mut memo); let sc = scale(t, *d, &memo); let e = 1e-13 * sc; let ok = match r { Rel::Lt => x < -e, Rel::Le => x < -e || x == 0.0, Rel::Eq => x == 0.0, Rel::Ne => x.abs() > e }; if !ok || !x.is_finite() { return false; } } true }
fn sat_at_loose(t: &Terms, ds: &[(T, Rel)], m: &HashMap<u32, f64>) -> bool { let mut memo = HashMap::new(); let f = |i: u32| *m.get(&i).unwrap_or(&0.5); for (d, r) in ds { let x = t.eval_at(*d, &f, &mut memo); let e = 1e-9 * (1e-3 + scale(t, *d, &memo)); let n = 1e-12 * noise(t, *d, &memo, 0); let ok = x.is_finite() && match r { Rel::Lt => x < -n, Rel::Le => x <= e, Rel::Eq => x.abs() <= e, Rel::Ne => x.abs() > n }; if !ok { return false; } } true }
/// the size of what is added up in `d`: a difference far below it is rounding of this evaluation, not a value
fn noise(t: &Terms, d: T, memo: &HashMap<T, f64>, k: u32) -> f64 { let v = |x: T| memo.get(&x).copied().unwrap_or(0.0).abs(); if k > 40 { return v(d); } match t.nodes[d as usize] { Node::Add(a, b) => noise(t, a, memo, k + 1) + noise(t, b, memo, k + 1), Node::Mul(a, b) => if t.rat(a).is_some() { v(a) * noise(t, b, memo, k + 1) } else if t.rat(b).is_some() { v(b) * noise(t, a, memo, k + 1) } else { v(d) }, Node::Div(a, b) => noise(t, a, memo, k + 1) / v(b).max(1e-300), _ => v(d) } }
fn scale(t: &Terms, d: T, memo: &HashMap<T, f64>) -> f64 { match t.nodes[d as usize] { Node::Add(a, b) => memo.get(&a).copied().unwrap_or(0.0).abs() + memo.get(&b).copied().unwrap_or(0.0).abs(), _ => memo.get(&d).copied().unwrap_or(0.0).abs() } }
pub fn subst(t: &mut Terms, x: T, memo: &mut HashMap<T, T>) -> T {
    for n in t.order(&[x]) { if memo.contains_key(&n) { continue; } let g = |m: &HashMap<T, T>, k: T| m[&k];
        let r = match t.nodes[n as usize].clone() { Node::Add(a, b) => { let (a, b) = (g(memo, a), g(memo, b)); t.add(a, b) } Node::Mul(a, b) => { let (a, b) = (g(memo, a), g(memo, b)); t.mul(a, b) } Node::Div(a, b) => { let (a, b) = (g(memo, a), g(memo, b)); if b == t.zero { t.nan } else { t.div(a, b) } } Node::Fun(f, a) => { let a = g(memo, a); t.fun(f, a) } Node::Pow(a, b) => { let (a, b) = (g(memo, a), g(memo, b)); t.pow(a, b) } Node::Atan2(a, b) => { let (a, b) = (g(memo, a), g(memo, b)); t.atan2(a, b) } _ => n };
        memo.insert(n, r); }
    memo[&x]
}
fn run_tool(bin: &str, args: &[&str], input: &str, secs: f64) -> String {
    use std::process::*;
    let mut c = match Command::new(bin).args(args).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn() { Ok(c) => c, Err(_) => return String::new() };
    let mut si = c.stdin.take().unwrap(); let inp = input.to_string(); let h = std::thread::spawn(move || { let _ = si.write_all(inp.as_bytes()); });
    let t0 = std::time::Instant::now(); loop { match c.try_wait() { Ok(Some(_)) => break, _ => {} } if t0.elapsed().as_secs_f64() > secs { let _ = c.kill(); let _ = c.wait(); let _ = h.join(); return "timeout".into(); } std::thread::sleep(std::time::Duration::from_millis(2)); }
    let _ = h.join(); let mut s = String::new(); use std::io::Read; let _ = c.stdout.take().unwrap().read_to_string(&mut s); s
}
fn parse_vals(s: &str) -> HashMap<String, f64> {
    let s = s.replace('(', " ( ").replace(')', " ) "); let tk: Vec<&str> = s.split_whitespace().collect(); let mut m = HashMap::new(); let mut i = 0;
    fn ex(tk: &[&str], i: &mut usize) -> Option<f64> { if *i >= tk.len() { return None; } if tk[*i] == "(" { *i += 1; let op = *tk.get(*i)?; *i += 1; let mut v = vec![]; while *i < tk.len() && tk[*i] != ")" { v.push(ex(tk, i)?); } *i += 1; match op { "-" => Some(if v.len() == 1 { -v[0] } else { v[0] - v[1] }), "/" => Some(v[0] / v[1]), "+" => Some(v.iter().sum()), "*" => Some(v.iter().product()), _ => None } } else { let w = tk[*i].trim_end_matches('?'); *i += 1; w.parse().ok() } }
    while i + 1 < tk.len() { if tk[i] == "(" && tk[i + 1].starts_with('t') { let n = tk[i + 1].to_string(); i += 2; if let Some(v) = ex(&tk, &mut i) { m.insert(n, v); } } else { i += 1; } }
    m
}
