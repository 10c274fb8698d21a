//! Parser for the textual LLVM IR produced by rustc (opt-level 0, fat LTO).
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty { Void, I(u32), F16, F32, F64, FX, Ptr, Arr(u64, Box<Ty>), Vec(u64, Box<Ty>), Struct(Vec<Ty>, bool), Other }
impl Ty {
    pub fn size(&self) -> u64 { match self { Ty::Void | Ty::Other => 0, Ty::I(n) => { let b = (*n as u64 + 7) / 8; if b <= 1 { b } else if b <= 2 { 2 } else if b <= 4 { 4 } else if b <= 8 { 8 } else { (b + 15) / 16 * 16 } } Ty::F16 => 2, Ty::F32 => 4, Ty::F64 => 8, Ty::FX => 16, Ty::Ptr => 8, Ty::Arr(n, t) => n * t.size(), Ty::Vec(n, t) => if **t == Ty::I(1) { (n + 7) / 8 } else { (n * t.size()).next_power_of_two() }, Ty::Struct(f, packed) => { let mut o = 0; let mut al = 1; for t in f { if !*packed { let a = t.align(); o = (o + a - 1) / a * a; al = al.max(a); } o += t.size(); } if *packed { o } else { (o + al - 1) / al * al } } } }
    pub fn align(&self) -> u64 { match self { Ty::Arr(_, t) => t.align(), Ty::Struct(f, p) => if *p { 1 } else { f.iter().map(|t| t.align()).max().unwrap_or(1) }, Ty::Void | Ty::Other => 1, t => t.size().max(1).min(32) } }
    pub fn field_off(&self, i: usize) -> u64 { match self { Ty::Struct(f, packed) => { let mut o = 0; for (k, t) in f.iter().enumerate() { if !*packed { let a = t.align(); o = (o + a - 1) / a * a; } if k == i { return o; } o += t.size(); } panic!("field_off") } Ty::Arr(_, t) | Ty::Vec(_, t) => t.size() * i as u64, _ => panic!("field_off on {:?}", self) } }
    pub fn elt(&self, i: usize) -> Ty { match self { Ty::Struct(f, _) => f[i].clone(), Ty::Arr(_, t) | Ty::Vec(_, t) => (**t).clone(), _ => panic!("elt") } }
    pub fn count(&self) -> usize { match self { Ty::Struct(f, _) => f.len(), Ty::Arr(n, _) | Ty::Vec(n, _) => *n as usize, _ => 0 } }
}
/// Constant as written in the IR (floats keep their bits).
#[derive(Clone, Debug)]
pub enum C { Int(u128), F32(f32), F64(f64), Undef, Zero, Agg(Vec<C>), Bytes(Vec<u8>), Global(u32), Expr(Box<CE>) }
#[derive(Clone, Debug)]
pub enum CE { Gep(Ty, C, Vec<C>), Cast(C), Bin(String, C, C) }
#[derive(Clone, Debug)]
pub enum Op { R(u32), C(Rc<(Ty, C)>) }
#[derive(Clone, Debug)]
pub enum Callee { Fn(u32), Reg(Op), Asm }
#[derive(Clone, Debug)]
pub enum Inst {
    Alloca { dst: u32, size: u64 },
    Load { dst: u32, ty: Ty, ptr: Op }, Store { ty: Ty, val: Op, ptr: Op },
    Gep { dst: u32, base: Op, cst: i64, dynv: Vec<(Op, Ty, i64)> },
    Bin { dst: u32, op: String, ty: Ty, a: Op, b: Op, nuw: bool, nsw: bool },
    ICmp { dst: u32, pred: String, ty: Ty, a: Op, b: Op }, FCmp { dst: u32, pred: String, ty: Ty, a: Op, b: Op },
    FNeg { dst: u32, ty: Ty, a: Op },
    Cast { dst: u32, op: String, from: Ty, a: Op, to: Ty },
    Select { dst: u32, cty: Ty, c: Op, a: Op, b: Op, ty: Ty },
    Br(u32), CondBr(Op, u32, u32), Switch { ty: Ty, v: Op, def: u32, cases: Vec<(u128, u32)> },
    Ret(Option<(Ty, Op)>), Unreachable,
    Phi { dst: u32, ty: Ty, inc: Vec<(Op, u32)> },
    Call { dst: Option<u32>, callee: Callee, args: Vec<(Ty, Op)>, ret: Ty, normal: Option<u32>, noreturn: bool },
    Extract { dst: u32, a: Op, idx: Vec<usize> }, Insert { dst: u32, ty: Ty, a: Op, v: Op, idx: Vec<usize> },
    ExtractElt { dst: u32, a: Op, i: Op }, InsertElt { dst: u32, ty: Ty, a: Op, v: Op, i: Op },
    Shuffle { dst: u32, n: usize, a: Op, b: Op, mask: Vec<Option<usize>> },
    AtomicRmw { dst: u32, op: String, ptr: Op, ty: Ty, v: Op }, CmpXchg { dst: u32, ptr: Op, ty: Ty, cmp: Op, new: Op },
    Freeze { dst: u32, a: Op, ty: Ty }, Nop, Unsupported(String),
}
pub struct Func { pub name: String, pub params: Vec<u32>, pub nregs: usize, pub blocks: Vec<Vec<Inst>>, pub sret: bool }
pub struct FnDecl { pub name: String, pub def: Option<(usize, usize)>, pub noreturn: bool }
pub struct GlobalDecl { pub name: String, pub ty: Ty, pub init: Option<C>, pub external: bool, raw: (usize, usize), parsed: bool }
pub struct Module { pub text: String, pub types: HashMap<String, Ty>, tyraw: HashMap<String, (usize, usize)>, pub globals: Vec<GlobalDecl>, pub gidx: HashMap<String, u32>, pub fns: Vec<FnDecl>, pub fidx: HashMap<String, u32>, noret_groups: std::collections::HashSet<u32>, pub cache: HashMap<u32, Rc<Func>> }
pub const FN_BASE: u32 = 0x4000_0000;

struct Cur<'a> { s: &'a [u8], i: usize }
impl<'a> Cur<'a> {
    fn new(s: &'a str) -> Cur<'a> { Cur { s: s.as_bytes(), i: 0 } }
    fn ws(&mut self) { while self.i < self.s.len() && (self.s[self.i] == b' ' || self.s[self.i] == b'\t' || self.s[self.i] == b'\n') { self.i += 1; } }
    fn peek(&mut self) -> u8 { self.ws(); *self.s.get(self.i).unwrap_or(&0) }
    fn eat(&mut self, t: &str) -> bool { self.ws(); if self.s[self.i..].starts_with(t.as_bytes()) { let e = self.i + t.len(); let wordy = t.as_bytes().last().map(|c| c.is_ascii_alphanumeric()).unwrap_or(false); if wordy && e < self.s.len() && (self.s[e].is_ascii_alphanumeric() || self.s[e] == b'_' || self.s[e] == b'.') { return false; } self.i = e; true } else { false } }
    fn expect(&mut self, t: &str) -> Result<(), String> { if self.eat(t) { Ok(()) } else { Err(format!("expected '{}' at '{}'", t, self.rest(60))) } }
    fn rest(&self, n: usize) -> String { String::from_utf8_lossy(&self.s[self.i.min(self.s.len())..(self.i + n).min(self.s.len())]).into() }
    fn word(&mut self) -> String { self.ws(); let b = self.i; while self.i < self.s.len() && (self.s[self.i].is_ascii_alphanumeric() || self.s[self.i] == b'_' || self.s[self.i] == b'.' || self.s[self.i] == b'-' || self.s[self.i] == b'$') { self.i += 1; } String::from_utf8_lossy(&self.s[b..self.i]).into() }
    fn name(&mut self) -> String { // after % or @
        if self.i < self.s.len() && self.s[self.i] == b'"' { self.i += 1; let b = self.i; while self.s[self.i] != b'"' { self.i += 1; } let r = String::from_utf8_lossy(&self.s[b..self.i]).into(); self.i += 1; r } else { self.word() } }
    fn parens(&mut self) { self.ws(); if self.i < self.s.len() && self.s[self.i] == b'(' { let mut d = 0; let mut q = false; while self.i < self.s.len() { let c = self.s[self.i]; if c == b'"' { q = !q; } if !q { if c == b'(' { d += 1 } if c == b')' { d -= 1; if d == 0 { self.i += 1; return; } } } self.i += 1; } } }
    fn end(&mut self) -> bool { self.ws(); self.i >= self.s.len() }
}
const VALW: &[&str] = &["true", "false", "null", "undef", "poison", "zeroinitializer", "getelementptr", "ptrtoint", "inttoptr", "ptrtoaddr", "trunc", "add", "sub", "xor", "bitcast", "splat", "asm", "none", "mul", "shl", "addrspacecast"];

impl Module {
    pub fn load(path: &str) -> Result<Module, String> {
        let text = std::fs::read_to_string(path).map_err(|e| format!("{}: {}", path, e))?;
        let mut m = Module { text: String::new(), types: HashMap::new(), tyraw: HashMap::new(), globals: vec![], gidx: HashMap::new(), fns: vec![], fidx: HashMap::new(), noret_groups: Default::default(), cache: HashMap::new() };
        let b = text.as_bytes(); let mut i = 0; let mut noret: Vec<(u32, Vec<u32>, bool)> = vec![];
        while i < b.len() {
            let e = text[i..].find('\n').map(|k| i + k).unwrap_or(b.len()); let line = &text[i..e];
            match b[i] {
                b'%' => { if let Some(k) = line.find(" = type ") { let nm = line[1..k].trim_matches('"').to_string(); m.tyraw.insert(nm, (i + k + 8, e)); } }
                b'@' => { let mut c = Cur::new(line); c.i = 1; let nm = c.name(); if c.eat("=") { let id = m.globals.len() as u32; m.gidx.insert(nm.clone(), id); m.globals.push(GlobalDecl { name: nm, ty: Ty::Other, init: None, external: false, raw: (i + c.i, e), parsed: false }); } }
                b'd' if line.starts_with("define ") || line.starts_with("declare ") => {
                    let at = line.find(" @").unwrap() + 2; let mut c = Cur::new(line); c.i = at; let nm = c.name();
                    let id = m.fns.len() as u32; let tail = &line[c.i..];
                    let lastp = tail.rfind(')').unwrap_or(0); let mut groups = vec![]; let mut nr = false;
                    for w in tail[lastp..].split(' ') { if let Some(g) = w.strip_prefix('#') { if let Ok(g) = g.parse() { groups.push(g) } } if w == "noreturn" { nr = true; } }
                    noret.push((id, groups, nr));
                    if line.starts_with("define ") { let end = text[e..].find("\n}").map(|k| e + k).unwrap(); m.fns.push(FnDecl { name: nm.clone(), def: Some((i, end)), noreturn: false }); i = end + 2; m.fidx.insert(nm, id); while i < b.len() && b[i] != b'\n' { i += 1; } i += 1; continue; }
                    m.fns.push(FnDecl { name: nm.clone(), def: None, noreturn: false }); m.fidx.insert(nm, id);
                }
                b'a' if line.starts_with("attributes #") => { let k = line[12..].find(' ').unwrap(); let g: u32 = line[12..12 + k].parse().unwrap(); if line.split(|c: char| c == ' ' || c == '{').any(|w| w == "noreturn") { m.noret_groups.insert(g); } }
                _ => {}
            }
            i = e + 1;
        }
        for (id, gs, nr) in noret { if nr || gs.iter().any(|g| m.noret_groups.contains(g)) { m.fns[id as usize].noreturn = true; } }
        m.text = text; Ok(m)
    }
    fn sym(&mut self, n: &str) -> C { // address constant
        if let Some(&g) = self.gidx.get(n) { return C::Global(g); }
        if let Some(&f) = self.fidx.get(n) { return C::Global(FN_BASE + f); }
        let id = self.fns.len() as u32; self.fns.push(FnDecl { name: n.into(), def: None, noreturn: false }); self.fidx.insert(n.into(), id); C::Global(FN_BASE + id)
    }
    fn ty(&mut self, c: &mut Cur) -> Result<Ty, String> {
        let t = self.ty0(c)?;
        Ok(t)
    }
    fn ty0(&mut self, c: &mut Cur) -> Result<Ty, String> {
        match c.peek() {
            b'%' => { c.i += 1; let n = c.name(); if let Some(t) = self.types.get(&n) { return Ok(t.clone()); } let (a, e) = *self.tyraw.get(&n).ok_or(format!("type {}", n))?; let s = self.text[a..e].to_string(); let t = if s.starts_with("opaque") { Ty::Other } else { self.ty(&mut Cur::new(&s))? }; self.types.insert(n, t.clone()); Ok(t) }
            b'[' => { c.i += 1; let n: u64 = c.word().parse().map_err(|_| "arr")?; c.expect("x")?; let t = self.ty(c)?; c.expect("]")?; Ok(Ty::Arr(n, Box::new(t))) }
            b'{' => { c.i += 1; let f = self.tylist(c, b'}')?; Ok(Ty::Struct(f, false)) }
            b'<' => { c.i += 1; if c.peek() == b'{' { c.i += 1; let f = self.tylist(c, b'}')?; c.expect(">")?; return Ok(Ty::Struct(f, true)); } let n: u64 = c.word().parse().map_err(|_| format!("vec at {}", c.rest(30)))?; c.expect("x")?; let t = self.ty(c)?; c.expect(">")?; Ok(Ty::Vec(n, Box::new(t))) }
            _ => { let w = c.word(); Ok(match w.as_str() { "void" => Ty::Void, "ptr" => { if c.eat("addrspace") { c.parens(); } Ty::Ptr } "float" => Ty::F32, "double" => Ty::F64, "half" | "bfloat" => Ty::F16, "x86_fp80" | "fp128" => Ty::FX, "metadata" | "label" | "token" => Ty::Other, w if w.starts_with('i') && w[1..].parse::<u32>().is_ok() => Ty::I(w[1..].parse().unwrap()), _ => return Err(format!("type '{}' at '{}'", w, c.rest(40))) }) }
        }
    }
    fn tylist(&mut self, c: &mut Cur, end: u8) -> Result<Vec<Ty>, String> { let mut v = vec![]; if c.peek() == end { c.i += 1; return Ok(v); } loop { v.push(self.ty(c)?); if c.peek() == b',' { c.i += 1; continue; } if c.peek() == end { c.i += 1; return Ok(v); } return Err(format!("tylist at {}", c.rest(30))); } }
    fn cst(&mut self, t: &Ty, c: &mut Cur) -> Result<C, String> {
        match c.peek() {
            b'@' => { c.i += 1; let n = c.name(); Ok(self.sym(&n)) }
            b'{' => { c.i += 1; self.agg(c, b'}') }
            b'[' => { c.i += 1; self.agg(c, b']') }
            b'<' => { c.i += 1; if c.peek() == b'{' { c.i += 1; let r = self.agg(c, b'}')?; c.expect(">")?; Ok(r) } else { self.agg(c, b'>') } }
            b'c' if c.s.get(c.i + 1) == Some(&b'"') => { c.i += 2; let mut v = vec![]; while c.s[c.i] != b'"' { if c.s[c.i] == b'\\' { if c.s[c.i + 1] == b'\\' { v.push(b'\\'); c.i += 2; } else { v.push(u8::from_str_radix(std::str::from_utf8(&c.s[c.i + 1..c.i + 3]).unwrap(), 16).unwrap()); c.i += 3; } } else { v.push(c.s[c.i]); c.i += 1; } } c.i += 1; Ok(C::Bytes(v)) }
            _ => {
                let st = c.i; let mut w = c.word();
                if c.i < c.s.len() && c.s[c.i] == b'+' { c.i += 1; w = format!("{}+{}", w, c.word()); }
                match w.as_str() {
                    "true" => Ok(C::Int(1)), "false" => Ok(C::Int(0)), "null" | "none" => Ok(C::Int(0)), "undef" | "poison" => Ok(C::Undef), "zeroinitializer" => Ok(C::Zero),
                    "splat" => { c.expect("(")?; let et = self.ty(c)?; let v = self.cst(&et, c)?; c.expect(")")?; Ok(C::Agg(vec![v; t.count()])) }
                    "getelementptr" => { while c.peek() != b'(' { let _ = c.word(); if c.peek() == b'(' && c.rest(3).starts_with("(i") && false { break; } if c.peek() == b'(' { // inrange(..) has its own parens
                                let save = c.i; c.i += 1; let k = c.peek(); c.i = save; if k == b'-' || k.is_ascii_digit() { c.parens(); } } }
                        c.expect("(")?; let bt = self.ty(c)?; c.expect(",")?; let pt = self.ty(c)?; let p = self.cst(&pt, c)?; let mut idx = vec![]; while c.eat(",") { let it = self.ty(c)?; idx.push(self.cst(&it, c)?); } c.expect(")")?; Ok(C::Expr(Box::new(CE::Gep(bt, p, idx)))) }
                    "ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "ptrtoaddr" | "addrspacecast" => { c.expect("(")?; let ft = self.ty(c)?; let v = self.cst(&ft, c)?; c.expect("to")?; let _ = self.ty(c)?; c.expect(")")?; Ok(C::Expr(Box::new(CE::Cast(v)))) }
                    "add" | "sub" | "xor" | "mul" | "shl" => { while c.peek() != b'(' { c.word(); } c.expect("(")?; let at = self.ty(c)?; let a = self.cst(&at, c)?; c.expect(",")?; let bt = self.ty(c)?; let b = self.cst(&bt, c)?; c.expect(")")?; Ok(C::Expr(Box::new(CE::Bin(w, a, b)))) }
                    _ => match t {
                        Ty::I(n) => { let v: i128 = w.parse().or_else(|_| w.parse::<u128>().map(|x| x as i128)).map_err(|_| format!("int const '{}' at {}", w, String::from_utf8_lossy(&c.s[st..(st + 40).min(c.s.len())])))?; Ok(C::Int(mask(v as u128, *n))) }
                        Ty::F64 => Ok(C::F64(if let Some(h) = w.strip_prefix("f0x").or(w.strip_prefix("0x")) { f64::from_bits(u64::from_str_radix(h, 16).map_err(|e| e.to_string())?) } else { fp_word(&w)? })),
                        Ty::F32 => Ok(C::F32(if let Some(h) = w.strip_prefix("f0x") { f32::from_bits(u32::from_str_radix(h, 16).map_err(|e| e.to_string())?) } else if let Some(h) = w.strip_prefix("0x") { f64::from_bits(u64::from_str_radix(h, 16).map_err(|e| e.to_string())?) as f32 } else { fp_word(&w)? as f32 })),
                        Ty::F16 | Ty::FX => Ok(C::Undef),
                        _ => Err(format!("constant '{}' of {:?} at '{}'", w, t, c.rest(30))),
                    },
                }
            }
        }
    }
    fn agg(&mut self, c: &mut Cur, end: u8) -> Result<C, String> { let mut v = vec![]; if c.peek() == end { c.i += 1; return Ok(C::Agg(v)); } loop { let t = self.ty(c)?; v.push(self.cst(&t, c)?); if c.peek() == b',' { c.i += 1; continue; } if c.peek() == end { c.i += 1; return Ok(C::Agg(v)); } return Err(format!("agg at {}", c.rest(30))); } }
    pub fn global(&mut self, g: u32) -> Result<(), String> {
        if self.globals[g as usize].parsed { return Ok(()); }
        let (a, e) = self.globals[g as usize].raw; let s = self.text[a..e].to_string(); let mut c = Cur::new(&s);
        let mut ext = false;
        loop { let save = c.i; let w = c.word(); if w == "global" || w == "constant" { break; } if w == "alias" || w == "ifunc" { return Err("alias".into()); } if w.starts_with("external") || w == "extern_weak" { ext = true; } if w.is_empty() { if c.peek() == b'(' { c.parens(); } else { return Err(format!("global {}", &s[save..(save + 40).min(s.len())])); } } }
        let t = self.ty(&mut c)?; let init = if ext { None } else { Some(self.cst(&t, &mut c)?) };
        let d = &mut self.globals[g as usize]; d.ty = t; d.init = init; d.external = ext; d.parsed = true; Ok(())
    }
    pub fn func(&mut self, f: u32) -> Result<Rc<Func>, String> {
        if let Some(x) = self.cache.get(&f) { return Ok(x.clone()); }
        let (a, e) = self.fns[f as usize].def.ok_or_else(|| format!("no body for {}", self.fns[f as usize].name))?;
        let txt = self.text[a..e].to_string(); let mut lines: Vec<String> = vec![];
        for l in txt.lines() { if l.starts_with(';') || l.trim().is_empty() { continue; } if (l.starts_with("   ") || l.starts_with("  ]")) && !lines.is_empty() { let x = lines.last_mut().unwrap(); x.push(' '); x.push_str(l.trim()); continue; } lines.push(l.to_string()); }
        let hdr = lines.remove(0);
        let mut regs: HashMap<String, u32> = HashMap::new(); let mut params = vec![]; let mut sret = false;
        { let at = hdr.find(" @").unwrap() + 2; let mut c = Cur::new(&hdr); c.i = at; c.name(); c.expect("(")?; let mut k = 0; if c.peek() != b')' { loop { if c.eat("...") { break; } let _ = self.ty(&mut c)?; let mut named = None; while c.peek() != b',' && c.peek() != b')' { if c.peek() == b'%' { c.i += 1; named = Some(c.name()); } else { let w = c.word(); if w == "sret" { sret = true; } if c.peek() == b'(' { c.parens(); } if w.is_empty() && c.peek() != b'%' && c.peek() != b',' && c.peek() != b')' { if c.peek() == b'"' { c.name(); } else { return Err(format!("param at {}", c.rest(40))); } } } } let nm = named.unwrap_or(format!("{}", k)); k += 1; let id = regs.len() as u32; regs.insert(nm, id); params.push(id); if c.peek() == b',' { c.i += 1; } else { break; } } } }
        // blocks
        let mut names: HashMap<String, u32> = HashMap::new(); let mut blocks: Vec<Vec<String>> = vec![];
        let is_label = |l: &str| !l.starts_with(' ') && l.contains(':');
        if !is_label(&lines[0]) { names.insert(format!("{}", params.len()), 0); blocks.push(vec![]); }
        for l in lines { if is_label(&l) { let n = if l.starts_with('"') { l[1..l[1..].find('"').unwrap() + 1].to_string() } else { l[..l.find(':').unwrap()].to_string() }; names.insert(n, blocks.len() as u32); blocks.push(vec![]); } else { blocks.last_mut().unwrap().push(l); } }
        let mut out = vec![];
        let mut ctx = FCtx { regs, names };
        for b in blocks { let mut v = vec![]; for l in b { match self.inst(&l, &mut ctx) { Ok(i) => v.push(i), Err(e) => v.push(Inst::Unsupported(format!("{} in: {}", e, l.trim()))) } } out.push(v); }
        let fun = Rc::new(Func { name: self.fns[f as usize].name.clone(), params, nregs: ctx.regs.len(), blocks: out, sret });
        self.cache.insert(f, fun.clone()); Ok(fun)
    }
    fn opnd(&mut self, t: &Ty, c: &mut Cur, x: &mut FCtx) -> Result<Op, String> { if c.peek() == b'%' { c.i += 1; let n = c.name(); return Ok(Op::R(x.reg(&n))); } let v = self.cst(t, c)?; Ok(Op::C(Rc::new((t.clone(), v)))) }
    fn tyop(&mut self, c: &mut Cur, x: &mut FCtx) -> Result<(Ty, Op), String> { let t = self.ty(c)?; self.skip_attrs(c); let o = self.opnd(&t, c, x)?; Ok((t, o)) }
    fn skip_attrs(&mut self, c: &mut Cur) { loop { c.ws(); let save = c.i; let k = c.peek(); if k == b'"' { c.name(); if c.eat("=") { c.name(); } continue; } if !k.is_ascii_alphabetic() { return; } if k == b'c' && c.s.get(c.i + 1) == Some(&b'"') { return; } let w = c.word(); if VALW.contains(&w.as_str()) || w.starts_with("f0x") || w.starts_with("0x") || w.chars().next().unwrap().is_ascii_digit() { c.i = save; return; } if w == "align" || w == "alignstack" { if c.peek() == b'(' { c.parens(); } else { c.word(); } continue; } if c.i < c.s.len() && c.s[c.i] == b'(' { c.parens(); } } }
    fn label(&mut self, c: &mut Cur, x: &FCtx) -> Result<u32, String> { c.expect("label")?; c.expect("%")?; let n = c.name(); x.names.get(&n).cloned().ok_or(format!("label {}", n)) }
    fn inst(&mut self, l: &str, x: &mut FCtx) -> Result<Inst, String> {
        let mut cc = Cur::new(l); let c = &mut cc; let mut dst = None;
        if c.peek() == b'%' { c.i += 1; let n = c.name(); c.expect("=")?; dst = Some(x.reg(&n)); }
        let mut w = c.word();
        while w == "tail" || w == "musttail" || w == "notail" { w = c.word(); }
        let d = dst.unwrap_or(0);
        Ok(match w.as_str() {
            "alloca" => { c.eat("inalloca"); let t = self.ty(c)?; let mut n = 1; if c.eat(",") { if !c.eat("align") { let (_, o) = self.tyop(c, x)?; if let Op::C(k) = &o { if let C::Int(v) = k.1 { n = v as u64 } } else { return Err("dynamic alloca".into()); } } } Inst::Alloca { dst: d, size: t.size() * n } }
            "load" => { c.eat("atomic"); c.eat("volatile"); let t = self.ty(c)?; c.expect(",")?; let (_, p) = self.tyop(c, x)?; Inst::Load { dst: d, ty: t, ptr: p } }
            "store" => { c.eat("atomic"); c.eat("volatile"); let (t, v) = self.tyop(c, x)?; c.expect(",")?; let (_, p) = self.tyop(c, x)?; Inst::Store { ty: t, val: v, ptr: p } }
            "getelementptr" => { loop { let s = c.i; let k = c.word(); if ["inbounds", "nuw", "nusw"].contains(&k.as_str()) { continue; } c.i = s; break; } let bt = self.ty(c)?; c.expect(",")?; let (pt, p) = self.tyop(c, x)?; if pt != Ty::Ptr { return Err("vector gep".into()); } let mut cst = 0i64; let mut dy = vec![]; let mut cur = bt; let mut first = true;
                while c.eat(",") { if c.peek() == b'!' { break; } let (it, o) = self.tyop(c, x)?; let sc; let mut nt = None; if first { sc = cur.size() as i64; } else { match &cur { Ty::Struct(..) => { if let Op::C(k) = &o { if let C::Int(v) = k.1 { cst += cur.field_off(v as usize) as i64; let e = cur.elt(v as usize); cur = e; continue; } } return Err("gep struct index".into()); } Ty::Arr(_, t) | Ty::Vec(_, t) => { sc = t.size() as i64; nt = Some((**t).clone()); } _ => return Err("gep into scalar".into()) } } first = false; match &o { Op::C(k) => match &k.1 { C::Int(v) => { let bits = if let Ty::I(b) = it { b } else { 64 }; cst += sext(*v, bits) as i64 * sc } C::Zero => {} _ => dy.push((o.clone(), it, sc)) }, _ => dy.push((o, it, sc)) } if let Some(t) = nt { cur = t } }
                Inst::Gep { dst: d, base: p, cst, dynv: dy } }
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "shl" | "lshr" | "ashr" | "and" | "or" | "xor" | "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => { let (mut nuw, mut nsw) = (false, false); loop { let s = c.i; let k = c.word(); match k.as_str() { "nuw" => nuw = true, "nsw" => nsw = true, "exact" | "disjoint" | "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc" => {} _ => { c.i = s; break; } } } let t = self.ty(c)?; let a = self.opnd(&t, c, x)?; c.expect(",")?; let b = self.opnd(&t, c, x)?; Inst::Bin { dst: d, op: w, ty: t, a, b, nuw, nsw } }
            "fneg" => { loop { let s = c.i; let k = c.word(); if ["fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc"].contains(&k.as_str()) { continue; } c.i = s; break; } let (t, a) = self.tyop(c, x)?; Inst::FNeg { dst: d, ty: t, a } }
            "icmp" => { c.eat("samesign"); let p = c.word(); let t = self.ty(c)?; let a = self.opnd(&t, c, x)?; c.expect(",")?; let b = self.opnd(&t, c, x)?; Inst::ICmp { dst: d, pred: p, ty: t, a, b } }
            "fcmp" => { let mut p = c.word(); while ["fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc"].contains(&p.as_str()) { p = c.word(); } let t = self.ty(c)?; let a = self.opnd(&t, c, x)?; c.expect(",")?; let b = self.opnd(&t, c, x)?; Inst::FCmp { dst: d, pred: p, ty: t, a, b } }
            "trunc" | "zext" | "sext" | "fptrunc" | "fpext" | "fptoui" | "fptosi" | "uitofp" | "sitofp" | "ptrtoint" | "inttoptr" | "bitcast" | "addrspacecast" | "ptrtoaddr" => { loop { let s = c.i; let k = c.word(); if ["nuw", "nsw", "nneg", "fast", "contract", "nnan"].contains(&k.as_str()) { continue; } c.i = s; break; } let (t, a) = self.tyop(c, x)?; c.expect("to")?; let to = self.ty(c)?; Inst::Cast { dst: d, op: w, from: t, a, to } }
            "select" => { loop { let s = c.i; let k = c.word(); if ["fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc"].contains(&k.as_str()) { continue; } c.i = s; break; } let (ct, cnd) = self.tyop(c, x)?; c.expect(",")?; let (t, a) = self.tyop(c, x)?; c.expect(",")?; let (_, b) = self.tyop(c, x)?; Inst::Select { dst: d, cty: ct, c: cnd, a, b, ty: t } }
            "br" => { let s = c.i; if let Ok(b) = self.label(c, x) { Inst::Br(b) } else { c.i = s; let (_, k) = self.tyop(c, x)?; c.expect(",")?; let t = self.label(c, x)?; c.expect(",")?; let f = self.label(c, x)?; Inst::CondBr(k, t, f) } }
            "switch" => { let (t, v) = self.tyop(c, x)?; c.expect(",")?; let def = self.label(c, x)?; c.expect("[")?; let mut cases = vec![]; while c.peek() != b']' { let kt = self.ty(c)?; let k = self.cst(&kt, c)?; c.expect(",")?; let b = self.label(c, x)?; if let C::Int(k) = k { cases.push((k, b)) } else { return Err("switch case".into()); } } Inst::Switch { ty: t, v, def, cases } }
            "ret" => { if c.eat("void") { Inst::Ret(None) } else { let (t, o) = self.tyop(c, x)?; Inst::Ret(Some((t, o))) } }
            "unreachable" => Inst::Unreachable,
            "phi" => { loop { let s = c.i; let k = c.word(); if ["fast", "nnan", "ninf", "nsz", "contract"].contains(&k.as_str()) { continue; } c.i = s; break; } let t = self.ty(c)?; let mut inc = vec![]; loop { c.expect("[")?; let o = self.opnd(&t, c, x)?; c.expect(",")?; c.expect("%")?; let n = c.name(); c.expect("]")?; let b = *x.names.get(&n).ok_or(format!("phi label {}", n))?; inc.push((o, b)); if !c.eat(",") { break; } if c.peek() == b'!' { break; } } Inst::Phi { dst: d, ty: t, inc } }
            "call" | "invoke" => {
                // calling convention / return attributes
                loop { let s = c.i; let k = c.peek(); if !k.is_ascii_alphabetic() { break; } let v = c.word(); if v == "void" || v == "ptr" || v == "float" || v == "double" || v == "half" || v == "fp128" || v == "x86_fp80" || v == "metadata" || v == "token" || (v.starts_with('i') && v.len() > 1 && v[1..].parse::<u32>().is_ok()) { c.i = s; break; } if v == "align" || v == "cc" { if c.peek() == b'(' { c.parens(); } else { c.word(); } } if c.i < c.s.len() && c.s[c.i] == b'(' { c.parens(); } }
                let rt = self.ty(c)?; self.skip_attrs(c);
                if c.peek() == b'(' { c.parens(); } // function type
                let callee = match c.peek() { b'@' => { c.i += 1; let n = c.name(); if let Some(&f) = self.fidx.get(&n) { Callee::Fn(f) } else { match self.sym(&n) { C::Global(g) if g >= FN_BASE => Callee::Fn(g - FN_BASE), _ => return Err("callee".into()) } } } b'%' => { c.i += 1; let n = c.name(); Callee::Reg(Op::R(x.reg(&n))) } b'a' => { return Ok(Inst::Unsupported("inline asm".into())) } _ => return Err(format!("callee at {}", c.rest(30))) };
                c.expect("(")?; let mut args = vec![];
                if c.peek() == b')' { c.i += 1; } else { loop { let t = self.ty(c)?; self.skip_attrs(c); if t == Ty::Other { // metadata operand
                            let mut dep = 0; while c.i < c.s.len() { let k = c.s[c.i]; if k == b'(' { dep += 1 } if k == b')' { if dep == 0 { break; } dep -= 1 } if k == b',' && dep == 0 { break; } c.i += 1; } args.push((t, Op::C(Rc::new((Ty::Other, C::Undef))))); } else { let o = self.opnd(&t, c, x)?; args.push((t, o)); } if c.peek() == b',' { c.i += 1; continue; } c.expect(")")?; break; } }
                let mut noreturn = false; let mut normal = None;
                while !c.end() { if c.peek() == b'#' { c.i += 1; let g: u32 = c.word().parse().unwrap_or(u32::MAX); if self.noret_groups.contains(&g) { noreturn = true; } } else if c.peek() == b'[' { while c.s[c.i] != b']' { c.i += 1; } c.i += 1; } else if c.peek() == b',' { break; } else { let v = c.word(); if v == "noreturn" { noreturn = true; } else if v == "to" { normal = Some(self.label(c, x)?); break; } else if v.is_empty() { break; } } }
                if let Callee::Fn(f) = &callee { if self.fns[*f as usize].noreturn { noreturn = true; } }
                Inst::Call { dst: if rt == Ty::Void { None } else { dst }, callee, args, ret: rt, normal, noreturn }
            }
            "extractvalue" => { let (_, a) = self.tyop(c, x)?; let mut idx = vec![]; while c.eat(",") { if c.peek() == b'!' { break; } idx.push(c.word().parse().map_err(|_| "idx")?); } Inst::Extract { dst: d, a, idx } }
            "insertvalue" => { let (t, a) = self.tyop(c, x)?; c.expect(",")?; let (_, v) = self.tyop(c, x)?; let mut idx = vec![]; while c.eat(",") { if c.peek() == b'!' { break; } idx.push(c.word().parse().map_err(|_| "idx")?); } Inst::Insert { dst: d, ty: t, a, v, idx } }
            "extractelement" => { let (_, a) = self.tyop(c, x)?; c.expect(",")?; let (_, i) = self.tyop(c, x)?; Inst::ExtractElt { dst: d, a, i } }
            "insertelement" => { let (t, a) = self.tyop(c, x)?; c.expect(",")?; let (_, v) = self.tyop(c, x)?; c.expect(",")?; let (_, i) = self.tyop(c, x)?; Inst::InsertElt { dst: d, ty: t, a, v, i } }
            "shufflevector" => { let (t, a) = self.tyop(c, x)?; c.expect(",")?; let (_, b) = self.tyop(c, x)?; c.expect(",")?; let (mt, m) = self.tyop(c, x)?; let mask = match &m { Op::C(k) => match &k.1 { C::Agg(v) => v.iter().map(|e| if let C::Int(i) = e { Some(*i as usize) } else { None }).collect(), C::Zero => vec![Some(0); mt.count()], C::Undef => vec![None; mt.count()], _ => return Err("mask".into()) }, _ => return Err("mask".into()) }; Inst::Shuffle { dst: d, n: t.count(), a, b, mask } }
            "atomicrmw" => { c.eat("volatile"); let op = c.word(); let (_, p) = self.tyop(c, x)?; c.expect(",")?; let (t, v) = self.tyop(c, x)?; Inst::AtomicRmw { dst: d, op, ptr: p, ty: t, v } }
            "cmpxchg" => { c.eat("weak"); c.eat("volatile"); let (_, p) = self.tyop(c, x)?; c.expect(",")?; let (t, a) = self.tyop(c, x)?; c.expect(",")?; let (_, n) = self.tyop(c, x)?; Inst::CmpXchg { dst: d, ptr: p, ty: t, cmp: a, new: n } }
            "fence" => Inst::Nop,
            "freeze" => { let (t, a) = self.tyop(c, x)?; Inst::Freeze { dst: d, a, ty: t } }
            _ => Inst::Unsupported(l.trim().to_string()),
        })
    }
}
struct FCtx { regs: HashMap<String, u32>, names: HashMap<String, u32> }
impl FCtx { fn reg(&mut self, n: &str) -> u32 { if let Some(&r) = self.regs.get(n) { return r; } let r = self.regs.len() as u32; self.regs.insert(n.into(), r); r } }
pub fn mask(v: u128, bits: u32) -> u128 { if bits >= 128 { v } else { v & ((1u128 << bits) - 1) } }
pub fn sext(v: u128, bits: u32) -> i128 { if bits >= 128 { v as i128 } else { let s = 128 - bits; ((v << s) as i128) >> s } }
fn fp_word(w: &str) -> Result<f64, String> { match w { "+inf" | "inf" => Ok(f64::INFINITY), "-inf" => Ok(f64::NEG_INFINITY), "nan" | "+nan" | "qnan" | "+qnan" => Ok(f64::NAN), "-nan" | "-qnan" => Ok(-f64::NAN), _ => w.parse().map_err(|_| format!("float const {}", w)) } }
