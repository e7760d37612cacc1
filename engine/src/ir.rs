//! Parser for the textual LLVM IR produced by llvm-dis (opaque pointers), lowered to a compact form.
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    Float(u32),
    Array(Rc<Ty>, u64),
    Vector(Rc<Ty>, u64),
    Struct(Rc<Vec<Ty>>, bool),
    Other,
}
impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => { let b = ((*w as u64) + 7) / 8; b.next_power_of_two().min(16) }
            Ty::Ptr => 8,
            Ty::Float(w) => (*w as u64) / 8,
            Ty::Array(t, _) => t.align(),
            Ty::Vector(_, _) => self.size().next_power_of_two(),
            Ty::Struct(f, packed) => if *packed { 1 } else { f.iter().map(|t| t.align()).max().unwrap_or(1) },
            _ => 1,
        }
    }
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(w) => { let b = ((*w as u64) + 7) / 8; let a = self.align(); (b + a - 1) / a * a }
            Ty::Ptr => 8,
            Ty::Float(w) => (*w as u64) / 8,
            Ty::Array(t, n) => t.size() * n,
            Ty::Vector(t, n) => (t.bits() as u64 * n + 7) / 8,
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for t in f.iter() { if !packed { let a = t.align(); o = (o + a - 1) / a * a; } o += t.size(); }
                if !packed { let a = self.align(); o = (o + a - 1) / a * a; }
                o
            }
            _ => 0,
        }
    }
    pub fn store_size(&self) -> u64 {
        match self { Ty::Int(w) => ((*w as u64) + 7) / 8, _ => self.size() }
    }
    pub fn bits(&self) -> u32 {
        match self { Ty::Int(w) => *w, Ty::Ptr => 64, Ty::Float(w) => *w, _ => (self.size() * 8) as u32 }
    }
    pub fn bits_exact(&self) -> u32 { match self { Ty::Vector(t, n) => t.bits() * *n as u32, _ => self.bits() } }
    pub fn field_off(&self, i: usize) -> u64 {
        match self {
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for (k, t) in f.iter().enumerate() {
                    if !packed { let a = t.align(); o = (o + a - 1) / a * a; }
                    if k == i { return o; }
                    o += t.size();
                }
                panic!("field index")
            }
            Ty::Array(t, _) => t.size() * i as u64,
            Ty::Vector(t, _) => t.size() * i as u64,
            _ => panic!("field_off of {:?}", self),
        }
    }
    pub fn elem(&self, i: usize) -> Ty {
        match self {
            Ty::Struct(f, _) => f[i].clone(),
            Ty::Array(t, _) | Ty::Vector(t, _) => (**t).clone(),
            _ => panic!("elem of {:?}", self),
        }
    }
    pub fn nelems(&self) -> usize {
        match self { Ty::Struct(f, _) => f.len(), Ty::Array(_, n) | Ty::Vector(_, n) => *n as usize, _ => 0 }
    }
    pub fn is_agg(&self) -> bool { matches!(self, Ty::Struct(..) | Ty::Array(..) | Ty::Vector(..)) }
}

#[derive(Clone, Debug)]
pub enum Val {
    C(u128),
    E(crate::expr::Ex),
    Agg(Rc<Vec<Val>>),
}

#[derive(Clone, Debug)]
pub enum Opd { Reg(u32), K(Val) }

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum BinOp { Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred { Eq, Ne, Ult, Ule, Ugt, Uge, Slt, Sle, Sgt, Sge }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cast { Trunc, Zext, Sext, PtrInt, Bitcast }

#[derive(Clone, Debug)]
pub enum Inst {
    Bin(u32, BinOp, Ty, Opd, Opd),
    Icmp(u32, Pred, Ty, Opd, Opd),
    Select(u32, Ty, bool, Opd, Opd, Opd), // vector-condition flag
    Cast(u32, Cast, Ty, Opd, Ty),
    Load(u32, Ty, Opd),
    Store(Ty, Opd, Opd),
    Alloca(u32, u64, u64),
    Gep(u32, Opd, i64, Vec<(Opd, u32, u64)>), // base + const + sum(idx(width) * scale)
    Call(Option<u32>, Ty, Callee, Vec<(Opd, Ty)>),
    ExtractValue(u32, Opd, Vec<usize>),
    InsertValue(u32, Ty, Opd, Opd, Vec<usize>),
    ExtractElement(u32, Ty, Opd, Opd),
    InsertElement(u32, Ty, Opd, Opd, Opd),
    Shuffle(u32, Opd, Opd, Vec<i64>),
    Freeze(u32, Opd),
    CmpXchg(u32, Ty, Opd, Opd, Opd),
    AtomicRmw(u32, String, Ty, Opd, Opd),
    Fence,
    Unsupported(String),
}
#[derive(Clone, Debug)]
pub enum Callee { Direct(usize), Intrinsic(String), Indirect(Opd) }

#[derive(Clone, Debug)]
pub enum Term {
    Ret(Option<(Opd, Ty)>),
    Br(u32),
    CondBr(Opd, u32, u32),
    Switch(Opd, u32, u32, Vec<(u128, u32)>), // operand, width, default, cases
    Unreachable,
    Unsupported(String),
}
#[derive(Clone, Debug)]
pub struct Block { pub phis: Vec<(u32, Vec<(Opd, u32)>)>, pub insts: Vec<Inst>, pub term: Term }
#[derive(Clone, Debug)]
pub struct Func {
    pub name: String,
    pub nregs: u32,
    pub params: Vec<u32>,
    pub blocks: Vec<Block>,
    pub addr: u64,
    pub defined: bool,
    pub noreturn: bool,
}
pub struct Global { pub name: String, pub addr: u64, pub ty: Ty, pub constant: bool, pub init: Option<Vec<Option<u8>>>, pub ext: bool }

pub struct Module {
    pub funcs: Vec<Func>,
    pub fidx: HashMap<String, usize>,
    pub faddr: HashMap<u64, usize>,
    pub globals: Vec<Global>,
    pub gidx: HashMap<String, usize>,
    types: HashMap<String, Ty>,
    attr_noreturn: std::collections::HashSet<String>,
    alias: HashMap<String, String>,
}

#[derive(Clone, Debug, PartialEq)]
enum Tok { P(char), W(String), L(String), G(String), M, A(String), I(i128), S(Vec<u8>), CS(Vec<u8>), F, Arrow3 }

fn lex(s: &str) -> Vec<Tok> {
    let b = s.as_bytes();
    let mut i = 0;
    let mut v = Vec::new();
    let id = |c: u8| c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-';
    let qstr = |i: &mut usize| -> Vec<u8> {
        // at opening quote
        let mut o = vec![];
        *i += 1;
        while b[*i] != b'"' {
            if b[*i] == b'\\' {
                let h = std::str::from_utf8(&b[*i + 1..*i + 3]).unwrap();
                if let Ok(x) = u8::from_str_radix(h, 16) { o.push(x); *i += 3; continue; }
                if b[*i + 1] == b'\\' { o.push(b'\\'); *i += 2; continue; }
            }
            o.push(b[*i]);
            *i += 1;
        }
        *i += 1;
        o
    };
    while i < b.len() {
        let c = b[i];
        match c {
            b' ' | b'\t' | b'\n' | b'\r' => i += 1,
            b';' => { while i < b.len() && b[i] != b'\n' { i += 1; } }
            b'%' | b'@' => {
                i += 1;
                let name = if b[i] == b'"' { String::from_utf8_lossy(&qstr(&mut i)).into_owned() } else { let s0 = i; while i < b.len() && id(b[i]) { i += 1; } s[s0..i].to_string() };
                v.push(if c == b'%' { Tok::L(name) } else { Tok::G(name) });
            }
            b'!' => { i += 1; while i < b.len() && id(b[i]) { i += 1; } v.push(Tok::M); }
            b'#' => { i += 1; let s0 = i; while i < b.len() && b[i].is_ascii_digit() { i += 1; } v.push(Tok::A(s[s0..i].to_string())); }
            b'"' => { let q = qstr(&mut i); v.push(Tok::S(q)); }
            b'c' if i + 1 < b.len() && b[i + 1] == b'"' => { i += 1; let q = qstr(&mut i); v.push(Tok::CS(q)); }
            b'-' | b'0'..=b'9' => {
                let s0 = i;
                i += 1;
                while i < b.len() && id(b[i]) && b[i] != b'-' || (i < b.len() && (b[i] == b'+' || b[i] == b'-') && b[i - 1] == b'e') { i += 1; }
                let t = &s[s0..i];
                match t.parse::<i128>() { Ok(x) => v.push(Tok::I(x)), Err(_) => match t.parse::<u128>() { Ok(x) => v.push(Tok::I(x as i128)), _ => v.push(Tok::F) } }
            }
            b'.' => { while i < b.len() && b[i] == b'.' { i += 1; } v.push(Tok::Arrow3); }
            _ if c.is_ascii_alphabetic() || c == b'_' => { let s0 = i; while i < b.len() && id(b[i]) { i += 1; } v.push(Tok::W(s[s0..i].to_string())); }
            _ => { v.push(Tok::P(c as char)); i += 1; }
        }
    }
    v
}

struct P<'a> { t: Vec<Tok>, i: usize, m: &'a Module, regs: &'a mut HashMap<String, u32> }

impl<'a> P<'a> {
    fn peek(&self) -> Option<&Tok> { self.t.get(self.i) }
    fn is_p(&self, c: char) -> bool { self.peek() == Some(&Tok::P(c)) }
    fn is_w(&self, w: &str) -> bool { matches!(self.peek(), Some(Tok::W(x)) if x == w) }
    fn eat_p(&mut self, c: char) -> bool { if self.is_p(c) { self.i += 1; true } else { false } }
    fn eat_w(&mut self, w: &str) -> bool { if self.is_w(w) { self.i += 1; true } else { false } }
    fn exp(&mut self, c: char) { if !self.eat_p(c) { panic!("expected '{}' at {:?}", c, &self.t[self.i.saturating_sub(3)..(self.i + 4).min(self.t.len())]) } }
    fn word(&mut self) -> String { match self.t[self.i].clone() { Tok::W(w) => { self.i += 1; w } x => panic!("expected word, got {:?} after {:?}", x, &self.t[..self.i]) } }
    fn int(&mut self) -> i128 { match self.t[self.i] { Tok::I(x) => { self.i += 1; x } ref x => panic!("expected int, got {:?}", x) } }
    fn skip_parens(&mut self) {
        let mut d = 0;
        loop {
            match self.t[self.i] { Tok::P('(') => d += 1, Tok::P(')') => d -= 1, _ => {} }
            self.i += 1;
            if d == 0 { break; }
        }
    }
    fn is_type(&self) -> bool {
        match self.peek() {
            Some(Tok::W(w)) => is_type_word(w),
            Some(Tok::P('[')) | Some(Tok::P('{')) | Some(Tok::P('<')) => true,
            Some(Tok::L(_)) => true,
            _ => false,
        }
    }
    fn ty(&mut self) -> Ty {
        match self.t[self.i].clone() {
            Tok::W(w) => {
                self.i += 1;
                match w.as_str() {
                    "void" => Ty::Void,
                    "ptr" => { if self.is_w("addrspace") { self.i += 1; self.skip_parens(); } Ty::Ptr }
                    "float" => Ty::Float(32),
                    "double" => Ty::Float(64),
                    "half" | "bfloat" => Ty::Float(16),
                    "fp128" => Ty::Float(128),
                    "opaque" => Ty::Other,
                    _ if w.starts_with('i') && w[1..].parse::<u32>().is_ok() => Ty::Int(w[1..].parse().unwrap()),
                    _ => Ty::Other,
                }
            }
            Tok::L(n) => { self.i += 1; self.m.types.get(&n).cloned().unwrap_or(Ty::Other) }
            Tok::P('[') => { self.i += 1; let n = self.int() as u64; assert!(self.eat_w("x")); let t = self.ty(); self.exp(']'); Ty::Array(Rc::new(t), n) }
            Tok::P('{') => { self.i += 1; let f = self.fields('}'); Ty::Struct(Rc::new(f), false) }
            Tok::P('<') => {
                self.i += 1;
                if self.eat_p('{') { let f = self.fields('}'); self.exp('>'); return Ty::Struct(Rc::new(f), true); }
                let n = self.int() as u64; assert!(self.eat_w("x")); let t = self.ty(); self.exp('>'); Ty::Vector(Rc::new(t), n)
            }
            x => panic!("type? {:?} after {:?}", x, &self.t[..self.i]),
        }
    }
    fn fields(&mut self, end: char) -> Vec<Ty> {
        let mut f = vec![];
        while !self.is_p(end) { f.push(self.ty()); self.eat_p(','); }
        self.exp(end);
        f
    }
    fn attrs(&mut self) {
        while !self.is_type() {
            match self.peek() {
                Some(Tok::W(w)) => {
                    let w = w.clone();
                    self.i += 1;
                    if self.is_p('(') { self.skip_parens(); }
                    else if w == "align" { self.int(); }
                }
                Some(Tok::A(_)) | Some(Tok::S(_)) => { self.i += 1; if self.eat_p('=') { self.i += 1; } }
                _ => break,
            }
        }
    }
    fn reg(&mut self, n: &str) -> u32 { let k = self.regs.len() as u32; *self.regs.entry(n.to_string()).or_insert(k) }
    fn opd(&mut self, ty: &Ty) -> Opd {
        if let Tok::L(n) = self.t[self.i].clone() { self.i += 1; return Opd::Reg(self.reg(&n)); }
        Opd::K(self.konst(ty))
    }
    fn ty_opd(&mut self) -> (Ty, Opd) { let t = self.ty(); let o = self.opd(&t); (t, o) }
    fn gaddr(&self, g: &str) -> u128 {
        if let Some(&i) = self.m.gidx.get(g) { return self.m.globals[i].addr as u128; }
        if let Some(&i) = self.m.fidx.get(g) { return self.m.funcs[i].addr as u128; }
        if let Some(a) = self.m.alias.get(g) { return self.gaddr(a); }
        panic!("unknown global @{}", g)
    }
    fn konst(&mut self, ty: &Ty) -> Val {
        let tok = self.t[self.i].clone();
        self.i += 1;
        match tok {
            Tok::I(x) => match ty {
                Ty::Int(w) => Val::C((x as u128) & crate::expr::mask(*w)),
                _ => Val::C(x as u128),
            },
            Tok::F => Val::C(0),
            Tok::G(g) => Val::C(self.gaddr(&g)),
            Tok::CS(s) => Val::Agg(Rc::new(s.iter().map(|&b| Val::C(b as u128)).collect())),
            Tok::P('[') | Tok::P('{') => {
                let end = if tok == Tok::P('[') { ']' } else { '}' };
                let mut v = vec![];
                while !self.is_p(end) { let t = self.ty(); v.push(self.konst(&t)); self.eat_p(','); }
                self.exp(end);
                Val::Agg(Rc::new(v))
            }
            Tok::P('<') => {
                let br = self.eat_p('{');
                let end = if br { '}' } else { '>' };
                let mut v = vec![];
                while !self.is_p(end) { let t = self.ty(); v.push(self.konst(&t)); self.eat_p(','); }
                self.exp(end);
                if br { self.exp('>'); }
                Val::Agg(Rc::new(v))
            }
            Tok::W(w) => match w.as_str() {
                "true" => Val::C(1),
                "false" => Val::C(0),
                "null" | "none" => Val::C(0),
                "zeroinitializer" | "undef" | "poison" => zero(ty),
                "splat" => { self.exp('('); let t = self.ty(); let v = self.konst(&t); self.exp(')'); Val::Agg(Rc::new(vec![v; ty.nelems()])) }
                "getelementptr" => {
                    while let Some(Tok::W(x)) = self.peek() { if is_type_word(x) { break; } self.i += 1; if self.is_p('(') && !matches!(self.t[self.i - 1], Tok::W(ref q) if q == "inbounds" || q == "nuw" || q == "nusw") { self.skip_parens(); } }
                    self.exp('(');
                    let t = self.ty();
                    self.exp(',');
                    let (_, base) = self.ty_opd();
                    let mut idx = vec![];
                    while self.eat_p(',') { let (it, o) = self.ty_opd(); idx.push((it, o)); }
                    self.exp(')');
                    let (c, dynv) = gep_lower(&t, &idx);
                    assert!(dynv.is_empty());
                    let Opd::K(Val::C(b)) = base else { panic!() };
                    Val::C(b.wrapping_add(c as i128 as u128) & crate::expr::mask(64))
                }
                "ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "addrspacecast" | "ptrtoaddr" => {
                    self.exp('(');
                    let t = self.ty();
                    let v = self.konst(&t);
                    assert!(self.eat_w("to"));
                    let d = self.ty();
                    self.exp(')');
                    match v { Val::C(x) => Val::C(x & crate::expr::mask(d.bits())), v => v }
                }
                "add" | "sub" | "xor" | "mul" => {
                    while let Some(Tok::W(_)) = self.peek() { self.i += 1; }
                    self.exp('(');
                    let (t, a) = self.ty_opd();
                    self.exp(',');
                    let (_, b) = self.ty_opd();
                    self.exp(')');
                    let (Opd::K(Val::C(a)), Opd::K(Val::C(b))) = (a, b) else { panic!() };
                    let r = match w.as_str() { "add" => a.wrapping_add(b), "sub" => a.wrapping_sub(b), "mul" => a.wrapping_mul(b), _ => a ^ b };
                    Val::C(r & crate::expr::mask(t.bits()))
                }
                _ => panic!("constant? {} in {:?}", w, &self.t[..self.i]),
            },
            x => panic!("constant? {:?} after {:?}", x, &self.t[self.i.saturating_sub(8)..self.i]),
        }
    }
}
fn is_type_word(w: &str) -> bool {
    matches!(w, "void" | "ptr" | "float" | "double" | "half" | "fp128" | "label" | "metadata" | "token" | "opaque" | "bfloat" | "x86_amx")
        || (w.starts_with('i') && w.len() > 1 && w[1..].bytes().all(|b| b.is_ascii_digit()))
}
pub fn zero(ty: &Ty) -> Val {
    match ty {
        Ty::Array(..) | Ty::Vector(..) | Ty::Struct(..) => Val::Agg(Rc::new((0..ty.nelems()).map(|i| zero(&ty.elem(i))).collect())),
        _ => Val::C(0),
    }
}
/// returns constant byte offset and dynamic parts
fn gep_lower(t: &Ty, idx: &[(Ty, Opd)]) -> (i64, Vec<(Opd, u32, u64)>) {
    let mut c: i64 = 0;
    let mut dynv = vec![];
    let mut cur = t.clone();
    for (k, (it, o)) in idx.iter().enumerate() {
        let scale = if k == 0 { cur.size() } else {
            match &cur {
                Ty::Struct(..) => {
                    let Opd::K(Val::C(i)) = o else { panic!("dynamic struct index") };
                    c += cur.field_off(*i as usize) as i64;
                    cur = cur.elem(*i as usize);
                    continue;
                }
                _ => { let e = cur.elem(0); cur = e.clone(); e.size() }
            }
        };
        match o {
            Opd::K(Val::C(i)) => { c = c.wrapping_add((crate::expr::sext128(*i, it.bits()) as i64).wrapping_mul(scale as i64)); }
            _ => dynv.push((o.clone(), it.bits(), scale)),
        }
    }
    (c, dynv)
}

const FN_BASE: u64 = 0x1_0000;
const GL_BASE: u64 = 0x1000_0000;

pub fn parse(text: &str) -> Module {
    let mut m = Module { funcs: vec![], fidx: HashMap::new(), faddr: HashMap::new(), globals: vec![], gidx: HashMap::new(), types: HashMap::new(), attr_noreturn: Default::default(), alias: HashMap::new() };
    // pass 1: symbols
    let mut func_src: Vec<(usize, &str, Vec<&str>)> = vec![];
    let mut global_src: Vec<(usize, &str)> = vec![];
    let mut lines = text.lines();
    let mut type_lines = vec![];
    let mut pend: Vec<(&str, Vec<&str>, bool)> = vec![];
    let mut gl: Vec<&str> = vec![];
    while let Some(l) = lines.next() {
        if l.starts_with("define ") {
            let mut body = vec![];
            for b in lines.by_ref() { if b == "}" { break; } body.push(b); }
            pend.push((l, body, true));
        } else if l.starts_with("declare ") { pend.push((l, vec![], false)); }
        else if l.starts_with('@') { gl.push(l); }
        else if l.starts_with('%') { type_lines.push(l); }
        else if l.starts_with("attributes #") {
            let id = l["attributes #".len()..].split(' ').next().unwrap();
            if l.contains(" noreturn ") { m.attr_noreturn.insert(id.to_string()); }
        }
    }
    for l in &type_lines {
        // %name = type ...
        let t = lex(l);
        let Tok::L(n) = t[0].clone() else { continue };
        let mut r = HashMap::new();
        let mut p = P { t, i: 3, m: &m, regs: &mut r };
        let ty = p.ty();
        m.types.insert(n, ty);
    }
    let fname = |l: &str| -> String {
        let i = l.find('@').unwrap();
        let r = &l[i + 1..];
        if r.starts_with('"') { r[1..].split('"').next().unwrap().to_string() } else { r.split('(').next().unwrap().to_string() }
    };
    for (l, body, def) in pend {
        let n = fname(l);
        let idx = m.funcs.len();
        let addr = FN_BASE + 16 * idx as u64;
        let tail = &l[l.rfind(')').unwrap_or(0)..];
        let nr = tail.split(' ').any(|w| w == "noreturn" || (w.starts_with('#') && m.attr_noreturn.contains(&w[1..])));
        m.funcs.push(Func { name: n.clone(), nregs: 0, params: vec![], blocks: vec![], addr, defined: def, noreturn: nr });
        m.fidx.insert(n, idx);
        m.faddr.insert(addr, idx);
        if def { func_src.push((idx, l, body)); }
    }
    // globals
    let mut addr = GL_BASE;
    let mut pg = vec![];
    for l in gl {
        let t = lex(l);
        let Tok::G(n) = t[0].clone() else { panic!() };
        let mut i = 2;
        let mut constant = false;
        let mut ext = false;
        let mut is_alias = false;
        while i < t.len() {
            match &t[i] {
                Tok::W(w) if w == "global" => { i += 1; break; }
                Tok::W(w) if w == "constant" => { constant = true; i += 1; break; }
                Tok::W(w) if w == "alias" => { is_alias = true; break; }
                Tok::W(w) => { if w == "external" || w == "extern_weak" { ext = true; } i += 1; }
                _ => i += 1,
            }
        }
        if is_alias {
            for k in i..t.len() { if let Tok::G(a) = &t[k] { m.alias.insert(n.clone(), a.clone()); break; } }
            continue;
        }
        let mut r = HashMap::new();
        let mut p = P { t, i, m: &m, regs: &mut r };
        let ty = p.ty();
        let pos = p.i;
        let tt = std::mem::take(&mut p.t);
        addr = (addr + 63) / 64 * 64;
        let gi = m.globals.len();
        let sz = ty.size();
        m.globals.push(Global { name: n.clone(), addr, ty, constant, init: None, ext });
        m.gidx.insert(n, gi);
        addr += sz.max(1) + 64;
        if !ext { pg.push((gi, tt, pos)); }
    }
    global_src.clear();
    for (gi, t, pos) in pg {
        if m.globals[gi].name.starts_with("llvm.") { continue; }
        let ty = m.globals[gi].ty.clone();
        let mut r = HashMap::new();
        let is_undef = matches!(&t[pos], Tok::W(w) if w == "undef" || w == "poison");
        let mut out: Vec<Option<u8>> = vec![Some(0); ty.size() as usize];
        if is_undef { out.iter_mut().for_each(|x| *x = None); }
        let mut p = P { t, i: pos, m: &m, regs: &mut r };
        let v = p.konst(&ty);
        if !is_undef { flatten(&ty, &v, 0, &mut out); }
        m.globals[gi].init = Some(out);
    }
    // function bodies
    for (idx, head, body) in func_src {
        let mut regs: HashMap<String, u32> = HashMap::new();
        let mut params = vec![];
        {
            let i = head.find('@').unwrap();
            let t = lex(&head[i..]);
            let mut p = P { t, i: 1, m: &m, regs: &mut regs };
            p.exp('(');
            let mut n = 0;
            while !p.is_p(')') {
                if p.peek() == Some(&Tok::Arrow3) { p.i += 1; continue; }
                let _t = p.ty();
                // attributes until ',' or ')' or %name
                loop {
                    match p.peek() {
                        Some(Tok::L(nm)) => { let nm = nm.clone(); p.i += 1; let r = p.reg(&nm); params.push(r); break; }
                        Some(Tok::P(',')) | Some(Tok::P(')')) => { let r = p.reg(&n.to_string()); params.push(r); break; }
                        Some(Tok::W(_)) => { let w = p.word(); if p.is_p('(') { p.skip_parens(); } else if w == "align" { p.int(); } }
                        x => panic!("param attr {:?}", x),
                    }
                }
                n += 1;
                p.eat_p(',');
            }
        }
        // blocks
        let mut labels: HashMap<String, u32> = HashMap::new();
        let mut raw: Vec<(String, Vec<String>)> = vec![];
        let mut cur: Option<(String, Vec<String>)> = None;
        let mut k = 0;
        while k < body.len() {
            let l = body[k];
            k += 1;
            if l.is_empty() || l.trim_start().starts_with(';') { continue; }
            if !l.starts_with(' ') {
                // label
                let nm = if l.starts_with('"') { l[1..].split('"').next().unwrap().to_string() } else { l.split(':').next().unwrap().to_string() };
                if let Some(c) = cur.take() { raw.push(c); }
                cur = Some((nm, vec![]));
                continue;
            }
            if cur.is_none() { cur = Some((format!("{}", params.len()), vec![])); }
            let mut s = l.to_string();
            if l.trim_start().starts_with("switch ") && l.ends_with('[') {
                while k < body.len() { s.push(' '); s.push_str(body[k].trim()); let e = body[k].trim().starts_with(']'); k += 1; if e { break; } }
            }
            cur.as_mut().unwrap().1.push(s);
        }
        if let Some(c) = cur.take() { raw.push(c); }
        for (i, (n, _)) in raw.iter().enumerate() { labels.insert(n.clone(), i as u32); }
        let mut blocks = vec![];
        for (_, ins) in &raw {
            let mut b = Block { phis: vec![], insts: vec![], term: Term::Unreachable };
            for s in ins {
                let t = lex(s);
                let mut p = P { t, i: 0, m: &m, regs: &mut regs };
                inst(&mut p, &labels, &mut b, s);
            }
            blocks.push(b);
        }
        let f = &mut m.funcs[idx];
        f.nregs = regs.len() as u32;
        f.params = params;
        f.blocks = blocks;
    }
    m
}

fn flatten(ty: &Ty, v: &Val, off: usize, out: &mut Vec<Option<u8>>) {
    match (ty, v) {
        (_, Val::Agg(vs)) => for (i, x) in vs.iter().enumerate() { flatten(&ty.elem(i), x, off + ty.field_off(i) as usize, out); },
        (_, Val::C(c)) => { let n = ty.store_size() as usize; for i in 0..n { out[off + i] = Some((c >> (8 * i)) as u8); } }
        _ => panic!(),
    }
}

fn inst(p: &mut P, labels: &HashMap<String, u32>, b: &mut Block, src: &str) {
    let mut dst = None;
    if let (Some(Tok::L(n)), Some(Tok::P('='))) = (p.t.get(0).cloned(), p.t.get(1)) { dst = Some(p.reg(&n)); p.i = 2; }
    let lab = |p: &mut P| -> u32 { assert!(p.eat_w("label")); let Tok::L(n) = p.t[p.i].clone() else { panic!() }; p.i += 1; labels[&n] };
    let mut w = p.word();
    while w == "tail" || w == "musttail" || w == "notail" { w = p.word(); }
    let d = || dst.unwrap();
    match w.as_str() {
        "ret" => {
            if p.is_w("void") { b.term = Term::Ret(None); } else { let (t, o) = p.ty_opd(); b.term = Term::Ret(Some((o, t))); }
        }
        "br" => {
            if p.is_w("label") { let l = lab(p); b.term = Term::Br(l); }
            else { let (_, c) = p.ty_opd(); p.exp(','); let x = lab(p); p.exp(','); let y = lab(p); b.term = Term::CondBr(c, x, y); }
        }
        "switch" => {
            let (t, o) = p.ty_opd();
            p.exp(',');
            let def = lab(p);
            p.exp('[');
            let mut cs = vec![];
            while !p.is_p(']') { let ct = p.ty(); let Val::C(c) = p.konst(&ct) else { panic!() }; p.exp(','); let l = lab(p); cs.push((c, l)); }
            b.term = Term::Switch(o, t.bits(), def, cs);
        }
        "unreachable" => b.term = Term::Unreachable,
        "invoke" | "resume" | "indirectbr" | "callbr" => b.term = Term::Unsupported(src.trim().to_string()),
        "phi" => {
            let t = p.ty();
            let mut v = vec![];
            loop {
                p.exp('[');
                let o = p.opd(&t);
                p.exp(',');
                let Tok::L(n) = p.t[p.i].clone() else { panic!() };
                p.i += 1;
                p.exp(']');
                v.push((o, labels[&n]));
                if !(p.is_p(',') && p.t.get(p.i + 1) == Some(&Tok::P('['))) { break; }
                p.i += 1;
            }
            b.phis.push((d(), v));
        }
        "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "and" | "or" | "xor" | "shl" | "lshr" | "ashr" => {
            let op = match w.as_str() { "add" => BinOp::Add, "sub" => BinOp::Sub, "mul" => BinOp::Mul, "udiv" => BinOp::UDiv, "sdiv" => BinOp::SDiv, "urem" => BinOp::URem, "srem" => BinOp::SRem,
                "and" => BinOp::And, "or" => BinOp::Or, "xor" => BinOp::Xor, "shl" => BinOp::Shl, "lshr" => BinOp::LShr, _ => BinOp::AShr };
            while !p.is_type() { p.i += 1; }
            let t = p.ty();
            let x = p.opd(&t);
            p.exp(',');
            let y = p.opd(&t);
            b.insts.push(Inst::Bin(d(), op, t, x, y));
        }
        "icmp" => {
            if p.is_w("samesign") { p.i += 1; }
            let pr = match p.word().as_str() { "eq" => Pred::Eq, "ne" => Pred::Ne, "ult" => Pred::Ult, "ule" => Pred::Ule, "ugt" => Pred::Ugt, "uge" => Pred::Uge, "slt" => Pred::Slt, "sle" => Pred::Sle, "sgt" => Pred::Sgt, _ => Pred::Sge };
            let t = p.ty();
            let x = p.opd(&t);
            p.exp(',');
            let y = p.opd(&t);
            b.insts.push(Inst::Icmp(d(), pr, t, x, y));
        }
        "select" => {
            while !p.is_type() { p.i += 1; }
            let (ct, c) = p.ty_opd();
            p.exp(',');
            let (t, x) = p.ty_opd();
            p.exp(',');
            let (_, y) = p.ty_opd();
            b.insts.push(Inst::Select(d(), t, matches!(ct, Ty::Vector(..)), c, x, y));
        }
        "trunc" | "zext" | "sext" | "ptrtoint" | "inttoptr" | "bitcast" | "ptrtoaddr" | "addrspacecast" => {
            while !p.is_type() { p.i += 1; }
            let (t, x) = p.ty_opd();
            assert!(p.eat_w("to"));
            let to = p.ty();
            let k = match w.as_str() { "trunc" => Cast::Trunc, "zext" => Cast::Zext, "sext" => Cast::Sext, "bitcast" => Cast::Bitcast, _ => Cast::PtrInt };
            b.insts.push(Inst::Cast(d(), k, t, x, to));
        }
        "load" => {
            while p.is_w("atomic") || p.is_w("volatile") { p.i += 1; }
            let t = p.ty();
            p.exp(',');
            let (_, a) = p.ty_opd();
            b.insts.push(Inst::Load(d(), t, a));
        }
        "store" => {
            while p.is_w("atomic") || p.is_w("volatile") { p.i += 1; }
            let (t, v) = p.ty_opd();
            p.exp(',');
            let (_, a) = p.ty_opd();
            b.insts.push(Inst::Store(t, v, a));
        }
        "alloca" => {
            p.eat_w("inalloca");
            let t = p.ty();
            let mut n = 1;
            let mut al = t.align();
            while p.eat_p(',') {
                if p.eat_w("align") { al = p.int() as u64; }
                else if p.is_type() { let it = p.ty(); match p.opd(&it) { Opd::K(Val::C(c)) => n = c as u64, _ => { b.insts.push(Inst::Unsupported(src.into())); return; } } }
                else { break; }
            }
            b.insts.push(Inst::Alloca(d(), t.size() * n, al));
        }
        "getelementptr" => {
            while !p.is_type() { p.i += 1; if p.is_p('(') { p.skip_parens(); } }
            let t = p.ty();
            p.exp(',');
            let (bt, base) = p.ty_opd();
            if bt != Ty::Ptr { b.insts.push(Inst::Unsupported(src.into())); return; }
            let mut idx = vec![];
            while p.is_p(',') && p.t.get(p.i + 1) != Some(&Tok::M) { p.i += 1; let (it, o) = p.ty_opd(); idx.push((it, o)); }
            let (c, dy) = gep_lower(&t, &idx);
            b.insts.push(Inst::Gep(d(), base, c, dy));
        }
        "call" => {
            // fast-math / cc / ret attrs
            p.attrs();
            let rt = p.ty();
            if p.is_p('(') { p.skip_parens(); }
            if p.is_w("asm") { b.insts.push(Inst::Unsupported(src.trim().to_string())); return; }
            let tok = p.t[p.i].clone();
            p.i += 1;
            let callee = match tok {
                Tok::G(n) => if n.starts_with("llvm.") { Callee::Intrinsic(n) } else if let Some(&i) = p.m.fidx.get(&n) { Callee::Direct(i) } else if let Some(a) = p.m.alias.get(&n) { Callee::Direct(p.m.fidx[a]) } else { panic!("callee {}", n) },
                Tok::L(n) => Callee::Indirect(Opd::Reg(p.reg(&n))),
                Tok::W(_) => { p.i -= 1; let v = p.konst(&Ty::Ptr); Callee::Indirect(Opd::K(v)) }
                x => panic!("callee {:?} in {}", x, src),
            };
            if let Callee::Intrinsic(n) = &callee {
                if n.starts_with("llvm.lifetime") || n.starts_with("llvm.experimental.noalias") || n.starts_with("llvm.dbg") || n.starts_with("llvm.assume") || n.starts_with("llvm.prefetch") || n.starts_with("llvm.invariant") { return; }
            }
            p.exp('(');
            let mut args = vec![];
            while !p.is_p(')') {
                let t = p.ty();
                // param attributes
                loop {
                    match p.peek() {
                        Some(Tok::W(w)) if !is_const_word(w) => { let w = p.word(); if p.is_p('(') { p.skip_parens(); } else if w == "align" { p.int(); } }
                        _ => break,
                    }
                }
                if t == Ty::Other { // metadata etc.
                    while !p.is_p(',') && !p.is_p(')') { p.i += 1; }
                    args.push((Opd::K(Val::C(0)), t));
                } else {
                    let o = p.opd(&t);
                    args.push((o, t));
                }
                p.eat_p(',');
            }
            b.insts.push(Inst::Call(dst, rt, callee, args));
        }
        "extractvalue" => {
            let (_, x) = p.ty_opd();
            let mut ix = vec![];
            while p.is_p(',') { p.i += 1; if let Some(Tok::I(_)) = p.peek() { ix.push(p.int() as usize); } else { break; } }
            b.insts.push(Inst::ExtractValue(d(), x, ix));
        }
        "insertvalue" => {
            let (t, x) = p.ty_opd();
            p.exp(',');
            let (_, v) = p.ty_opd();
            let mut ix = vec![];
            while p.is_p(',') { p.i += 1; if let Some(Tok::I(_)) = p.peek() { ix.push(p.int() as usize); } else { break; } }
            b.insts.push(Inst::InsertValue(d(), t, x, v, ix));
        }
        "extractelement" => { let (t, x) = p.ty_opd(); p.exp(','); let (_, i) = p.ty_opd(); b.insts.push(Inst::ExtractElement(d(), t, x, i)); }
        "insertelement" => { let (t, x) = p.ty_opd(); p.exp(','); let (_, v) = p.ty_opd(); p.exp(','); let (_, i) = p.ty_opd(); b.insts.push(Inst::InsertElement(d(), t, x, v, i)); }
        "shufflevector" => {
            let (_, x) = p.ty_opd();
            p.exp(',');
            let (_, y) = p.ty_opd();
            p.exp(',');
            let mt = p.ty();
            let undef = p.is_w("poison") || p.is_w("undef");
            let mv = p.konst(&mt);
            let Val::Agg(v) = mv else { panic!() };
            let mask = v.iter().map(|x| if undef { -1 } else { match x { Val::C(c) => *c as i64, _ => panic!() } }).collect();
            b.insts.push(Inst::Shuffle(d(), x, y, mask));
        }
        "freeze" => { let (_, x) = p.ty_opd(); b.insts.push(Inst::Freeze(d(), x)); }
        "cmpxchg" => {
            while p.is_w("weak") || p.is_w("volatile") { p.i += 1; }
            let (_, a) = p.ty_opd(); p.exp(','); let (t, c) = p.ty_opd(); p.exp(','); let (_, n) = p.ty_opd();
            b.insts.push(Inst::CmpXchg(d(), t, a, c, n));
        }
        "atomicrmw" => {
            p.eat_w("volatile");
            let op = p.word();
            let (_, a) = p.ty_opd(); p.exp(','); let (t, v) = p.ty_opd();
            b.insts.push(Inst::AtomicRmw(d(), op, t, a, v));
        }
        "fence" => b.insts.push(Inst::Fence),
        _ => { b.insts.push(Inst::Unsupported(src.trim().to_string())); }
    }
}
fn is_const_word(w: &str) -> bool {
    matches!(w, "true" | "false" | "null" | "none" | "zeroinitializer" | "undef" | "poison" | "splat" | "getelementptr" | "ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "addrspacecast" | "ptrtoaddr" | "add" | "sub" | "xor" | "mul")
}
