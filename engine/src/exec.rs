//! Symbolic executor for the lowered LLVM IR.
use crate::expr::*;
use crate::fx::{Map, Set};
use crate::ir::*;
use crate::solver::*;
use std::collections::BTreeMap;
use std::rc::Rc;
use std::time::Instant;

/// One byte of memory: 0..=255 concrete, UNDEF, or CELL0 + 8-bit expression.
pub type Cell = u32;
pub const UNDEF: Cell = 256;
pub const CELL0: Cell = 257;

#[derive(Clone)]
pub struct Obj {
    pub base: u64,
    pub size: u64,            // upper bound on the size if symbolic
    pub sym_size: Option<Ex>, // 64-bit expression
    pub heap: bool,
    pub cells: Rc<Vec<Cell>>, // may be shorter than size (rest undefined)
}

#[derive(Clone)]
pub struct Frame {
    pub f: usize,
    pub blk: u32,
    pub ip: usize,
    pub regs: Vec<Val>,
    pub allocas: Vec<u64>,
    pub dst: Option<u32>,
}

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Rc<Frame>>,
    pub mem: BTreeMap<u64, Rc<Obj>>,
    pub pc: Vec<Ex>,
    pub pcset: Rc<Set<Ex>>,
    pub model: Rc<Vec<u8>>,
    pub fixed: Rc<Set<u32>>,
    pub known: Rc<Map<Ex, u128>>,
    pub ninput: usize,
    pub heap_next: u64,
    pub sym_next: u64,
    pub stack_next: u64,
    pub seqs: Rc<Vec<Rc<Vec<Cell>>>>,   // hasher states: id -> bytes fed so far
    pub classes: Rc<Vec<Rc<Vec<Cell>>>>, // finished sequences: class -> bytes
    pub steps: u64,
    pub forks: u32,
    pub notes: Rc<Vec<(u64, Val)>>,
    pub sampled: bool,
    pub alloc_c: u64,               // bytes allocated on the heap so far: constant part
    pub alloc_s: Rc<Vec<Ex>>,       // and symbolic parts
}

#[derive(Clone, Debug)]
pub struct Violation { pub kind: String, pub what: String, pub at: String, pub input: Vec<u8>, pub trace: Vec<String> }

pub enum End { Ret, Killed, Violated, Error(String), Stopped }
type R<T> = Result<T, End>;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Icpt {
    None, MakeSym, Assume, Check, Cover, Param, Note, Concretize, IsSym, Allocated,
    Alloc, AllocZ, Realloc, Dealloc, Shim, Memcmp, Bcmp, Memcpy, Memmove, Memset, Strlen,
    HNew, HWrite, HWriteStr, HFinish, RandKeys, Panic, Print,
}

#[derive(Default)]
pub struct Stats {
    pub paths: u64, pub killed: u64, pub forks: u64, pub steps: u64, pub maxsteps: u64, pub concretized: u64,
    pub errors: Map<String, u64>, pub covers: Map<String, u64>, pub checks: Map<String, u64>,
    pub samples: Vec<Vec<u8>>, pub maxpc: usize, pub incomplete: u64, pub unknown: u64, pub funcs: Set<usize>,
    pub ninput: usize,
}

pub struct Engine {
    pub m: Rc<Module>,
    pub p: Pool,
    pub s: Solver,
    pub icpt: Vec<Icpt>,
    pub gsorted: Vec<usize>,
    pub gcells: Vec<Option<Rc<Vec<Cell>>>>,
    pub input_vars: Vec<u32>,
    pub params: Vec<u64>,
    pub pending: Vec<State>,
    pub st: Stats,
    pub viol: Vec<Violation>,
    pub step_limit: u64,
    pub t0: Instant,
}

fn cst(v: u128) -> Val { Val::C(v) }

impl Engine {
    pub fn new(m: Rc<Module>, params: Vec<u64>, step_limit: u64, rlimit: u32) -> Self {
        let icpt = m.funcs.iter().map(|f| classify(f)).collect();
        let mut gsorted: Vec<usize> = (0..m.globals.len()).collect();
        gsorted.sort_by_key(|&i| m.globals[i].addr);
        let n = m.globals.len();
        Engine { m, p: Pool::new(), s: Solver::new(rlimit), icpt, gsorted, gcells: vec![None; n], input_vars: vec![], params, pending: vec![], st: Stats::default(), viol: vec![], step_limit, t0: Instant::now() }
    }

    pub fn initial(&mut self, entry: &str) -> State {
        let f = *self.m.fidx.get(entry).unwrap_or_else(|| panic!("no entry {}", entry));
        let nregs = self.m.funcs[f].nregs as usize;
        self.st.funcs.insert(f);
        State {
            frames: vec![Rc::new(Frame { f, blk: 0, ip: 0, regs: vec![cst(0); nregs], allocas: vec![], dst: None })],
            mem: BTreeMap::new(), pc: vec![], pcset: Rc::new(Set::default()), model: Rc::new(vec![]), fixed: Rc::new(Set::default()), known: Rc::new(Map::default()),
            ninput: 0, heap_next: 0x2_0000_0000, sym_next: 0x1000_0000_0000, stack_next: 0x7000_0000_0000, seqs: Rc::new(vec![]), classes: Rc::new(vec![]),
            steps: 0, forks: 0, notes: Rc::new(vec![]), sampled: false, alloc_c: 0, alloc_s: Rc::new(vec![]),
        }
    }

    // ---------- values ----------
    fn ex(&mut self, v: &Val, w: u32) -> Ex { match v { Val::C(c) => self.p.cst(*c, w), Val::E(e) => *e, Val::Agg(_) => panic!("aggregate used as scalar") } }
    fn norm(&self, e: Ex) -> Val { match self.p.as_const(e) { Some(c) => Val::C(c), None => Val::E(e) } }

    fn bin(&mut self, op: BinOp, w: u32, a: &Val, b: &Val) -> Val {
        if let (Val::C(x), Val::C(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let m = mask(w);
            let r = match op {
                BinOp::Add => x.wrapping_add(y), BinOp::Sub => x.wrapping_sub(y), BinOp::Mul => x.wrapping_mul(y),
                BinOp::UDiv => if y == 0 { m } else { x / y }, BinOp::URem => if y == 0 { x } else { x % y },
                BinOp::SDiv => { let q = sext128(y, w); if q == 0 { m } else { sext128(x, w).wrapping_div(q) as u128 } }
                BinOp::SRem => { let q = sext128(y, w); if q == 0 { x } else { sext128(x, w).wrapping_rem(q) as u128 } }
                BinOp::And => x & y, BinOp::Or => x | y, BinOp::Xor => x ^ y,
                BinOp::Shl => if y >= w as u128 { 0 } else { x << y }, BinOp::LShr => if y >= w as u128 { 0 } else { x >> y },
                BinOp::AShr => (sext128(x, w) >> y.min(w as u128 - 1)) as u128,
            };
            return Val::C(r & m);
        }
        let (x, y) = (self.ex(a, w), self.ex(b, w));
        let p = &mut self.p;
        let e = match op {
            BinOp::Add => p.add(x, y), BinOp::Sub => p.sub(x, y), BinOp::Mul => p.mul(x, y), BinOp::UDiv => p.udiv(x, y), BinOp::SDiv => p.sdiv(x, y),
            BinOp::URem => p.urem(x, y), BinOp::SRem => p.srem(x, y), BinOp::And => p.and(x, y), BinOp::Or => p.or(x, y), BinOp::Xor => p.xor(x, y),
            BinOp::Shl => p.shl(x, y), BinOp::LShr => p.lshr(x, y), BinOp::AShr => p.ashr(x, y),
        };
        self.norm(e)
    }
    fn cmp(&mut self, pr: Pred, w: u32, a: &Val, b: &Val) -> Val {
        if let (Val::C(x), Val::C(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let (sx, sy) = (sext128(x, w), sext128(y, w));
            let r = match pr { Pred::Eq => x == y, Pred::Ne => x != y, Pred::Ult => x < y, Pred::Ule => x <= y, Pred::Ugt => x > y, Pred::Uge => x >= y,
                Pred::Slt => sx < sy, Pred::Sle => sx <= sy, Pred::Sgt => sx > sy, Pred::Sge => sx >= sy };
            return Val::C(r as u128);
        }
        let (x, y) = (self.ex(a, w), self.ex(b, w));
        let p = &mut self.p;
        let e = match pr { Pred::Eq => p.eq(x, y), Pred::Ne => p.ne(x, y), Pred::Ult => p.ult(x, y), Pred::Ule => p.ule(x, y), Pred::Ugt => p.ult(y, x), Pred::Uge => p.ule(y, x),
            Pred::Slt => p.slt(x, y), Pred::Sle => p.sle(x, y), Pred::Sgt => p.slt(y, x), Pred::Sge => p.sle(y, x) };
        self.norm(e)
    }
    fn ite(&mut self, c: &Val, ty: &Ty, a: &Val, b: &Val) -> Val {
        match c {
            Val::C(1) => a.clone(),
            Val::C(_) => b.clone(),
            Val::E(ce) => match (a, b) {
                (Val::Agg(x), Val::Agg(y)) => { let v = (0..x.len()).map(|i| self.ite(c, &ty.elem(i), &x[i], &y[i])).collect(); Val::Agg(Rc::new(v)) }
                _ => { let w = ty.bits(); let (x, y) = (self.ex(a, w), self.ex(b, w)); let e = self.p.ite(*ce, x, y); self.norm(e) }
            },
            _ => panic!(),
        }
    }
    fn cast(&mut self, k: Cast, from: &Ty, v: &Val, to: &Ty) -> Val {
        if let (Ty::Vector(fe, n), Ty::Vector(te, n2), true) = (from, to, k != Cast::Bitcast) {
            assert_eq!(n, n2);
            let Val::Agg(x) = v else { panic!() };
            let (fe, te) = (fe.clone(), te.clone());
            return Val::Agg(Rc::new(x.iter().map(|a| self.cast(k, &fe, a, &te)).collect()));
        }
        let (fw, tw) = (from.bits_exact(), to.bits_exact());
        match k {
            Cast::Bitcast => {
                if from == to || (!from.is_agg() && !to.is_agg()) { return v.clone(); }
                // go through one wide integer
                let whole = match (from, v) {
                    (Ty::Vector(e, _), Val::Agg(x)) => { let w = e.bits(); let mut acc: Option<(Val, u32)> = None; for a in x.iter() { acc = Some(match acc { None => (a.clone(), w), Some((lo, lw)) => (self.concat(a, w, &lo, lw), lw + w) }); } acc.unwrap().0 }
                    (_, v) => v.clone(),
                };
                match to {
                    Ty::Vector(e, n) => { let w = e.bits(); let mut o = vec![]; for i in 0..*n as u32 { o.push(self.extract(&whole, fw, i * w, w)); } Val::Agg(Rc::new(o)) }
                    _ => whole,
                }
            }
            Cast::Trunc => self.extract(v, fw, 0, tw),
            Cast::Zext => match v { Val::E(e) => { let r = self.p.zext(*e, tw); self.norm(r) } v => v.clone() },
            Cast::Sext => match v { Val::C(c) => Val::C(sext128(*c, fw) as u128 & mask(tw)), Val::E(e) => { let r = self.p.sext(*e, tw); self.norm(r) } _ => panic!() },
            Cast::PtrInt => if tw < fw { self.extract(v, fw, 0, tw) } else if tw > fw { match v { Val::E(e) => { let r = self.p.zext(*e, tw); self.norm(r) } v => v.clone() } } else { v.clone() },
        }
    }
    fn extract(&mut self, v: &Val, w: u32, lo: u32, len: u32) -> Val {
        let _ = w;
        match v { Val::C(c) => Val::C((c >> lo) & mask(len)), Val::E(e) => { let r = self.p.extract(*e, lo, len); self.norm(r) } _ => panic!() }
    }
    fn concat(&mut self, h: &Val, hw: u32, l: &Val, lw: u32) -> Val {
        if let (Val::C(a), Val::C(b)) = (h, l) { return Val::C((a << lw) | b); }
        let (a, b) = (self.ex(h, hw), self.ex(l, lw));
        let r = self.p.concat(a, b);
        self.norm(r)
    }

    // ---------- path condition ----------
    fn slice(&mut self, st: &State, c: Ex) -> (Vec<Ex>, Vec<u32>) {
        let mut vs: Set<u32> = self.p.vars(c).iter().copied().collect();
        let mut rest: Vec<(Ex, Rc<Vec<u32>>)> = st.pc.iter().map(|&e| (e, self.p.vars(e))).collect();
        let mut out = vec![c];
        loop {
            let mut next = Vec::with_capacity(rest.len());
            let mut grew = false;
            for (e, v) in rest {
                if v.iter().any(|x| vs.contains(x)) { out.push(e); for &x in v.iter() { grew |= vs.insert(x); } } else { next.push((e, v)); }
            }
            rest = next;
            if !grew { break; }
        }
        let mut v: Vec<u32> = vs.into_iter().collect();
        v.sort_unstable();
        (out, v)
    }
    fn query(&mut self, st: &State, c: Ex) -> Res {
        let (cs, vs) = self.slice(st, c);
        let r = self.s.check(&mut self.p, &cs, &vs);
        if r == Res::Unknown { self.st.unknown += 1; }
        r
    }
    fn eval_model(&mut self, st: &State, e: Ex) -> u128 { self.p.begin_eval(); self.p.eval(e, &st.model) }

    fn add_pc(&mut self, st: &mut State, c: Ex) {
        if self.p.as_const(c) == Some(1) { return; }
        if let Node::And(a, b) = self.p.n(c) { self.add_pc(st, a); self.add_pc(st, b); return; }
        if st.pcset.contains(&c) { return; }
        Rc::make_mut(&mut st.pcset).insert(c);
        st.pc.push(c);
        if let Node::Eq(a, b) = self.p.n(c) {
            if let Some(k) = self.p.as_const(b) {
                Rc::make_mut(&mut st.known).insert(a, k);
                if let Node::Var(v) = self.p.n(a) { Rc::make_mut(&mut st.fixed).insert(v); }
            }
        }
    }
    fn set_model(&mut self, st: &mut State, o: &[(u32, u8)]) {
        let m = Rc::make_mut(&mut st.model);
        for &(v, x) in o { if m.len() <= v as usize { m.resize(v as usize + 1, 0); } m[v as usize] = x; }
    }
    fn all_fixed(&mut self, st: &State, e: Ex) -> bool { let v = self.p.vars(e); v.iter().all(|x| st.fixed.contains(x)) }
    /// truth value if already determined syntactically
    fn quick(&mut self, st: &State, c: Ex) -> Option<bool> {
        if let Some(k) = self.p.as_const(c) { return Some(k == 1); }
        if st.pcset.contains(&c) { return Some(true); }
        let n = self.p.not1(c);
        if st.pcset.contains(&n) { return Some(false); }
        if self.all_fixed(st, c) { return Some(self.eval_model(st, c) == 1); }
        None
    }
    /// Decide a condition, pushing the other side as a pending state when it is feasible too.
    /// The caller must not have changed `st` since the start of the current instruction.
    fn decide(&mut self, st: &mut State, c: Ex) -> R<bool> {
        if let Some(b) = self.quick(st, c) { return Ok(b); }
        let cur = self.eval_model(st, c) == 1;
        let n = self.p.not1(c);
        let (taken, other) = if cur { (c, n) } else { (n, c) };
        match self.query(st, other) {
            Res::Unsat => { Rc::make_mut(&mut st.pcset).insert(taken); }
            Res::Sat(m) => {
                let mut o = st.clone();
                self.set_model(&mut o, &m);
                self.add_pc(&mut o, other);
                o.forks += 1;
                self.try_fix(&mut o, other);
                self.pending.push(o);
                self.st.forks += 1;
                self.add_pc(st, taken);
                st.forks += 1;
                self.try_fix(st, taken);
            }
            Res::Unknown => return Err(End::Error("solver returned unknown".into())),
        }
        Ok(cur)
    }
    /// after constraining a single byte variable, see whether it became fixed
    fn try_fix(&mut self, st: &mut State, c: Ex) {
        let v = self.p.vars(c);
        if v.len() != 1 || st.fixed.contains(&v[0]) { return; }
        // only worth asking when the constraint is an equality over the variable
        if !matches!(self.p.n(c), Node::Eq(..) | Node::Ult(..) | Node::Ule(..)) { return; }
        let var = self.p.var(v[0]);
        let val = self.eval_model(st, var);
        let k = self.p.cst(val, 8);
        let ne = self.p.ne(var, k);
        if self.query(st, ne) == Res::Unsat { let e = self.p.eq(var, k); Rc::make_mut(&mut st.fixed).insert(v[0]); self.add_pc(st, e); }
    }
    /// Make a value concrete, forking over every feasible value.
    fn conc(&mut self, st: &mut State, v: &Val, w: u32) -> R<u128> {
        let e = match v { Val::C(c) => return Ok(*c), Val::E(e) => *e, _ => panic!() };
        if let Some(k) = st.known.get(&e) { return Ok(*k); }
        let val = self.eval_model(st, e);
        if self.all_fixed(st, e) { return Ok(val); }
        let k = self.p.cst(val, w);
        let eq = self.p.eq(e, k);
        self.st.concretized += 1;
        if !self.decide(st, eq)? { panic!("concretize: model disagrees"); }
        Rc::make_mut(&mut st.known).insert(e, val);
        let vs = self.p.vars(e);
        if vs.len() == 1 && !st.fixed.contains(&vs[0]) { self.try_fix(st, eq); }
        else if vs.len() == 2 {
            // bytes of a two-byte quantity, when it is pinned down completely
            for &x in vs.iter() {
                if st.fixed.contains(&x) { continue; }
                let var = self.p.var(x);
                let xv = self.eval_model(st, var);
                let kk = self.p.cst(xv, 8);
                let ne = self.p.ne(var, kk);
                if self.query(st, ne) == Res::Unsat { let e = self.p.eq(var, kk); Rc::make_mut(&mut st.fixed).insert(x); self.add_pc(st, e); }
            }
        }
        Ok(val)
    }
    pub fn model_input(&mut self, st: &State) -> Vec<u8> {
        (0..st.ninput).map(|i| *st.model.get(self.input_vars[i] as usize).unwrap_or(&0)).collect()
    }

    fn here(&self, st: &State) -> Vec<String> { st.frames.iter().rev().take(8).map(|f| self.m.funcs[f.f].name.clone()).collect() }
    fn violate(&mut self, st: &State, kind: &str, what: String, at: String) {
        if self.viol.iter().any(|v| v.kind == kind && v.what == what && v.at == at) { return; }
        let input = self.model_input(st);
        let trace = self.here(st);
        self.viol.push(Violation { kind: kind.into(), what, at, input, trace });
    }
    fn bad_mem(&mut self, st: &State, what: &str, addr: u64, n: u64) -> End {
        let f = self.m.funcs[st.frames.last().unwrap().f].name.clone();
        self.violate(st, "memory", format!("{} of {} byte(s)", what, n), f);
        let _ = addr;
        End::Violated
    }

    // ---------- memory ----------
    fn gfind(&self, addr: u64) -> Option<usize> {
        let k = self.gsorted.partition_point(|&i| self.m.globals[i].addr <= addr);
        if k == 0 { return None; }
        let gi = self.gsorted[k - 1];
        let g = &self.m.globals[gi];
        if addr - g.addr <= g.ty.size() { Some(gi) } else { None }
    }
    fn gcell(&mut self, gi: usize) -> Rc<Vec<Cell>> {
        if let Some(c) = &self.gcells[gi] { return c.clone(); }
        let g = &self.m.globals[gi];
        let v: Vec<Cell> = match &g.init { Some(b) => b.iter().map(|x| match x { Some(x) => *x as Cell, None => UNDEF }).collect(), None => vec![0; g.ty.size() as usize] };
        let r = Rc::new(v);
        self.gcells[gi] = Some(r.clone());
        r
    }
    /// object containing [addr, addr+n): its cells and offset
    fn locate(&mut self, st: &mut State, addr: u64, n: u64) -> R<(Rc<Vec<Cell>>, usize)> {
        if let Some((_, o)) = st.mem.range(..=addr).next_back() {
            let off = addr - o.base;
            if off + n <= o.size {
                let (cells, ss) = (o.cells.clone(), o.sym_size);
                if let Some(s) = ss { self.sym_bound(st, s, off + n)?; }
                return Ok((cells, off as usize));
            }
        }
        if let Some(gi) = self.gfind(addr) {
            let off = addr - self.m.globals[gi].addr;
            if self.m.globals[gi].ext && self.m.globals[gi].init.is_none() { return Err(End::Error(format!("access to external global {}", self.m.globals[gi].name))); }
            if off + n <= self.m.globals[gi].ty.size() { return Ok((self.gcell(gi), off as usize)); }
        }
        Err(self.bad_mem(st, "out-of-bounds or dangling access", addr, n))
    }
    fn sym_bound(&mut self, st: &mut State, s: Ex, need: u64) -> R<()> {
        let k = self.p.cst(need as u128, 64);
        let bad = self.p.ult(s, k);
        if self.decide(st, bad)? { return Err(self.bad_mem(st, "access past a dynamically sized allocation", 0, need)); }
        Ok(())
    }
    fn cell_at(cells: &[Cell], i: usize) -> Cell { if i < cells.len() { cells[i] } else { UNDEF } }
    fn cell_val(&mut self, st: &State, c: Cell) -> Val {
        if c < 256 { return Val::C(c as u128); }
        if c == UNDEF { let e = self.p.fresh_var(); return Val::E(e); }
        let e = c - CELL0;
        if let Node::Var(v) = self.p.n(e) { if st.fixed.contains(&v) { return Val::C(*st.model.get(v as usize).unwrap_or(&0) as u128); } }
        Val::E(e)
    }
    fn val_cell(&self, v: &Val) -> Cell { match v { Val::C(c) => (*c & 255) as Cell, Val::E(e) => CELL0 + *e, _ => panic!() } }

    fn load(&mut self, st: &mut State, ty: &Ty, addr: u64) -> R<Val> {
        if ty.is_agg() {
            if let Ty::Vector(e, n) = ty {
                if e.bits() % 8 != 0 { let it = Ty::Int((e.bits() as u64 * n) as u32); let v = self.load(st, &it, addr)?; return Ok(self.cast(Cast::Bitcast, &it, &v, ty)); }
            }
            let mut v = vec![];
            for i in 0..ty.nelems() { v.push(self.load(st, &ty.elem(i), addr + ty.field_off(i))?); }
            return Ok(Val::Agg(Rc::new(v)));
        }
        let n = ty.store_size();
        if n == 0 { return Ok(Val::C(0)); }
        let (cells, off) = self.locate(st, addr, n)?;
        // fast path
        let mut acc: u128 = 0;
        let mut ok = off + n as usize <= cells.len();
        if ok { for i in 0..n as usize { let c = cells[off + i]; if c > 255 { ok = false; break; } acc |= (c as u128) << (8 * i); } }
        let w = ty.bits();
        if ok { return Ok(Val::C(acc & mask(w))); }
        let mut v = self.cell_val(st, Self::cell_at(&cells, off));
        for i in 1..n as usize { let c = self.cell_val(st, Self::cell_at(&cells, off + i)); v = self.concat(&c, 8, &v, 8 * i as u32); }
        if w < n as u32 * 8 { v = self.extract(&v, n as u32 * 8, 0, w); }
        if let Val::E(e) = v { if let Some(k) = st.known.get(&e) { return Ok(Val::C(*k)); } }
        Ok(v)
    }
    /// writable cells of the object containing [addr, addr+n)
    fn wr<'a>(&mut self, st: &'a mut State, addr: u64, n: u64) -> R<(&'a mut Vec<Cell>, usize)> {
        let hit = match st.mem.range(..=addr).next_back() { Some((_, o)) if addr - o.base + n <= o.size => Some((o.base, o.sym_size)), _ => None };
        let (base, ss) = match hit {
            Some(x) => x,
            None => {
                let Some(gi) = self.gfind(addr) else { return Err(self.bad_mem(st, "out-of-bounds or dangling write", addr, n)) };
                let (ga, gs, k) = { let g = &self.m.globals[gi]; (g.addr, g.ty.size(), g.constant) };
                if addr - ga + n > gs { return Err(self.bad_mem(st, "out-of-bounds write", addr, n)); }
                if k { return Err(self.bad_mem(st, "write to constant memory", addr, n)); }
                let cells = self.gcell(gi);
                st.mem.insert(ga, Rc::new(Obj { base: ga, size: gs, sym_size: None, heap: false, cells }));
                (ga, None)
            }
        };
        let off = (addr - base) as usize;
        if let Some(s) = ss { self.sym_bound(st, s, off as u64 + n)?; }
        let o = Rc::make_mut(st.mem.get_mut(&base).unwrap());
        let c = Rc::make_mut(&mut o.cells);
        if c.len() < off + n as usize { c.resize(off + n as usize, UNDEF); }
        Ok((c, off))
    }
    fn store(&mut self, st: &mut State, ty: &Ty, v: &Val, addr: u64) -> R<()> {
        if ty.is_agg() {
            if let Ty::Vector(e, n) = ty {
                if e.bits() % 8 != 0 { let it = Ty::Int((e.bits() as u64 * n) as u32); let v = self.cast(Cast::Bitcast, ty, v, &it); return self.store(st, &it, &v, addr); }
            }
            let Val::Agg(x) = v else { panic!("store agg {:?} {:?}", ty, v) };
            let x = x.clone();
            for i in 0..ty.nelems() { self.store(st, &ty.elem(i), &x[i], addr + ty.field_off(i))?; }
            return Ok(());
        }
        let n = ty.store_size() as usize;
        if n == 0 { return Ok(()); }
        match v {
            Val::C(c) => { let c = *c; let (cells, off) = self.wr(st, addr, n as u64)?; for i in 0..n { cells[off + i] = ((c >> (8 * i)) & 255) as Cell; } }
            Val::E(e) => {
                let w = ty.bits();
                let e = if w < n as u32 * 8 { self.p.zext(*e, n as u32 * 8) } else { *e };
                let mut t = [0 as Cell; 16];
                for i in 0..n { let b = self.p.extract(e, 8 * i as u32, 8); let b = self.norm(b); t[i] = self.val_cell(&b); }
                let (cells, off) = self.wr(st, addr, n as u64)?;
                cells[off..off + n].copy_from_slice(&t[..n]);
            }
            _ => panic!("store {:?}", v),
        }
        Ok(())
    }
    fn read_cells(&mut self, st: &mut State, addr: u64, n: u64) -> R<Vec<Cell>> {
        if n == 0 { return Ok(vec![]); }
        let (c, off) = self.locate(st, addr, n)?;
        Ok((0..n as usize).map(|i| Self::cell_at(&c, off + i)).collect())
    }
    fn write_cells(&mut self, st: &mut State, addr: u64, d: &[Cell]) -> R<()> {
        if d.is_empty() { return Ok(()); }
        let (c, off) = self.wr(st, addr, d.len() as u64)?;
        c[off..off + d.len()].copy_from_slice(d);
        Ok(())
    }
    fn new_heap(&mut self, st: &mut State, size: &Val, align: u64, zero: bool) -> u64 {
        let al = align.max(16);
        match size {
            Val::C(n) => {
                let n = *n as u64;
                st.alloc_c += n;
                let base = (st.heap_next + al - 1) / al * al;
                st.heap_next = base + n + 32;
                let cells = Rc::new(if zero { vec![0; n as usize] } else { vec![] });
                st.mem.insert(base, Rc::new(Obj { base, size: n, sym_size: None, heap: true, cells }));
                base
            }
            Val::E(e) => {
                let hi = self.p.range(*e, 8).1.min(1 << 36) as u64;
                let base = st.sym_next;
                st.sym_next += 1 << 37;
                Rc::make_mut(&mut st.alloc_s).push(*e);
                st.mem.insert(base, Rc::new(Obj { base, size: hi, sym_size: Some(*e), heap: true, cells: Rc::new(vec![]) }));
                base
            }
            _ => panic!(),
        }
    }

    // ---------- interpreter ----------
    fn get(&self, fr: &Frame, o: &Opd) -> Val { match o { Opd::Reg(r) => fr.regs[*r as usize].clone(), Opd::K(v) => v.clone() } }
    fn arg(&self, st: &State, o: &Opd) -> Val { self.get(st.frames.last().unwrap(), o) }
    fn set(&self, st: &mut State, r: u32, v: Val) { Rc::make_mut(st.frames.last_mut().unwrap()).regs[r as usize] = v; }
    fn advance(&self, st: &mut State) { Rc::make_mut(st.frames.last_mut().unwrap()).ip += 1; }

    fn jump(&mut self, st: &mut State, to: u32) {
        let m = self.m.clone();
        let fr = Rc::make_mut(st.frames.last_mut().unwrap());
        let from = fr.blk;
        let b = &m.funcs[fr.f].blocks[to as usize];
        match b.phis.len() {
            0 => {}
            _ => {
                let mut vals = Vec::with_capacity(b.phis.len());
                for (d, inc) in &b.phis {
                    let o = &inc.iter().find(|(_, l)| *l == from).expect("phi edge").0;
                    vals.push((*d, match o { Opd::Reg(r) => fr.regs[*r as usize].clone(), Opd::K(v) => v.clone() }));
                }
                for (d, v) in vals { fr.regs[d as usize] = v; }
            }
        }
        fr.blk = to;
        fr.ip = 0;
    }

    /// Run a state until it ends; forked siblings go to self.pending.
    pub fn run(&mut self, st: &mut State, stop: &dyn Fn() -> bool) -> End {
        let m = self.m.clone();
        loop {
            let (f, blk, ip) = { let fr = st.frames.last().unwrap(); (fr.f, fr.blk as usize, fr.ip) };
            let b = &m.funcs[f].blocks[blk];
            st.steps += 1;
            self.st.steps += 1;
            if self.st.steps & 0xfff == 0 && stop() { return End::Stopped; }
            if st.steps > self.step_limit {
                let at = self.m.funcs[f].name.clone();
                self.violate(st, "hang", format!("no result after {} IR instructions", self.step_limit), at);
                return End::Violated;
            }
            let r = if ip < b.insts.len() { self.inst(st, &b.insts[ip]) } else { self.term(st, &b.term) };
            if let Err(e) = r { return e; }
        }
    }

    fn term(&mut self, st: &mut State, t: &Term) -> R<()> {
        match t {
            Term::Br(l) => self.jump(st, *l),
            Term::CondBr(c, a, b) => {
                let v = self.arg(st, c);
                let x = match v { Val::C(c) => c == 1, Val::E(e) => self.decide(st, e)?, _ => panic!() };
                self.jump(st, if x { *a } else { *b });
            }
            Term::Switch(o, w, def, cases) => {
                let v = self.arg(st, o);
                match v {
                    Val::C(c) => { let t = cases.iter().find(|(k, _)| *k == c).map(|x| x.1).unwrap_or(*def); self.jump(st, t); }
                    Val::E(e) => {
                        if let Some(&k) = st.known.get(&e) { let t = cases.iter().find(|(c, _)| *c == k).map(|x| x.1).unwrap_or(*def); self.jump(st, t); return Ok(()); }
                        let cur = self.eval_model(st, e);
                        let tgt = cases.iter().find(|(k, _)| *k == cur).map(|x| x.1).unwrap_or(*def);
                        let ks: Vec<u128> = if tgt == *def { cases.iter().filter(|x| x.1 != tgt).map(|x| x.0).collect() } else { cases.iter().filter(|x| x.1 == tgt).map(|x| x.0).collect() };
                        let mut any = self.p.f();
                        for k in ks { let kk = self.p.cst(k, *w); let q = self.p.eq(e, kk); any = self.p.or(any, q); }
                        let c = if tgt == *def { self.p.not1(any) } else { any };
                        if !self.decide(st, c)? { panic!("switch: model disagrees"); }
                        self.jump(st, tgt);
                    }
                    _ => panic!(),
                }
            }
            Term::Ret(v) => {
                let val = v.as_ref().map(|(o, _)| self.arg(st, o));
                let fr = st.frames.pop().unwrap();
                for a in &fr.allocas { st.mem.remove(a); }
                if let Some(a) = fr.allocas.first() { st.stack_next = st.stack_next.min(*a); }
                if st.frames.is_empty() { return Err(End::Ret); }
                if let (Some(d), Some(v)) = (fr.dst, val) { self.set(st, d, v); }
            }
            Term::Unreachable => {
                let at = self.m.funcs[st.frames.last().unwrap().f].name.clone();
                self.violate(st, "unreachable", "code the compiler was told is unreachable".into(), at);
                return Err(End::Violated);
            }
            Term::Unsupported(s) => return Err(End::Error(format!("unsupported terminator: {}", s))),
        }
        Ok(())
    }

    fn inst(&mut self, st: &mut State, i: &Inst) -> R<()> {
        match i {
            Inst::Bin(d, op, ty, a, b) => {
                let (x, y) = (self.arg(st, a), self.arg(st, b));
                if matches!(op, BinOp::UDiv | BinOp::SDiv | BinOp::URem | BinOp::SRem) {
                    if let (Val::C(0), Ty::Int(_)) = (&y, ty) { let at = self.m.funcs[st.frames.last().unwrap().f].name.clone(); self.violate(st, "ub", "division by zero".into(), at); return Err(End::Violated); }
                }
                let r = match (ty, &x, &y) {
                    (Ty::Vector(e, _), Val::Agg(p), Val::Agg(q)) => { let w = e.bits(); Val::Agg(Rc::new((0..p.len()).map(|k| self.bin(*op, w, &p[k], &q[k])).collect())) }
                    _ => self.bin(*op, ty.bits(), &x, &y),
                };
                self.set(st, *d, r);
            }
            Inst::Icmp(d, pr, ty, a, b) => {
                let (x, y) = (self.arg(st, a), self.arg(st, b));
                let r = match (ty, &x, &y) {
                    (Ty::Vector(e, _), Val::Agg(p), Val::Agg(q)) => { let w = e.bits(); Val::Agg(Rc::new((0..p.len()).map(|k| self.cmp(*pr, w, &p[k], &q[k])).collect())) }
                    _ => self.cmp(*pr, ty.bits(), &x, &y),
                };
                self.set(st, *d, r);
            }
            Inst::Select(d, ty, vecc, c, a, b) => {
                let (c, x, y) = (self.arg(st, c), self.arg(st, a), self.arg(st, b));
                let r = if *vecc {
                    let (Val::Agg(c), Val::Agg(x), Val::Agg(y)) = (&c, &x, &y) else { panic!() };
                    let e = ty.elem(0);
                    Val::Agg(Rc::new((0..c.len()).map(|k| self.ite(&c[k], &e, &x[k], &y[k])).collect()))
                } else {
                    match c { Val::E(e) => match self.quick(st, e) { Some(b) => if b { x } else { y }, None => self.ite(&c, ty, &x, &y) }, _ => self.ite(&c, ty, &x, &y) }
                };
                self.set(st, *d, r);
            }
            Inst::Cast(d, k, from, v, to) => { let v = self.arg(st, v); let r = self.cast(*k, from, &v, to); self.set(st, *d, r); }
            Inst::Load(d, ty, a) => {
                let a = self.arg(st, a);
                let r = match &a {
                    Val::C(a) => self.load(st, ty, *a as u64)?,
                    Val::E(e) => {
                        match self.table_load(st, *e, ty)? {
                            Some(v) => v,
                            None => { let a = self.conc(st, &a, 64)?; self.load(st, ty, a as u64)? }
                        }
                    }
                    _ => panic!(),
                };
                self.set(st, *d, r);
            }
            Inst::Store(ty, v, a) => {
                let (v, a) = (self.arg(st, v), self.arg(st, a));
                let a = self.conc(st, &a, 64)?;
                self.store(st, ty, &v, a as u64)?;
            }
            Inst::Alloca(d, size, align) => {
                let al = (*align).max(16);
                let base = (st.stack_next + al - 1) / al * al;
                st.stack_next = base + size + 16;
                st.mem.insert(base, Rc::new(Obj { base, size: *size, sym_size: None, heap: false, cells: Rc::new(vec![]) }));
                let fr = Rc::make_mut(st.frames.last_mut().unwrap());
                fr.allocas.push(base);
                fr.regs[*d as usize] = Val::C(base as u128);
            }
            Inst::Gep(d, base, c, dy) => {
                let b = self.arg(st, base);
                let mut r = match b { Val::C(x) => Val::C((x as u64).wrapping_add(*c as u64) as u128), v => self.bin(BinOp::Add, 64, &v, &Val::C(*c as u64 as u128)) };
                for (o, w, scale) in dy {
                    let v = self.arg(st, o);
                    let v = match v { Val::C(x) => Val::C(sext128(x, *w) as u64 as u128), Val::E(e) => { let q = if *w < 64 { self.p.sext(e, 64) } else { e }; self.norm(q) } _ => panic!() };
                    let v = self.bin(BinOp::Mul, 64, &v, &Val::C(*scale as u128));
                    r = self.bin(BinOp::Add, 64, &r, &v);
                }
                self.set(st, *d, r);
            }
            Inst::ExtractValue(d, a, ix) => { let mut v = self.arg(st, a); for &k in ix { let Val::Agg(x) = v else { panic!() }; v = x[k].clone(); } self.set(st, *d, v); }
            Inst::InsertValue(d, _ty, a, v, ix) => {
                let (a, v) = (self.arg(st, a), self.arg(st, v));
                fn put(a: &Val, v: Val, ix: &[usize]) -> Val { if ix.is_empty() { return v; } let Val::Agg(x) = a else { panic!() }; let mut y = (**x).clone(); y[ix[0]] = put(&x[ix[0]], v, &ix[1..]); Val::Agg(Rc::new(y)) }
                let r = put(&a, v, ix);
                self.set(st, *d, r);
            }
            Inst::ExtractElement(d, _ty, a, i) => {
                let (a, i) = (self.arg(st, a), self.arg(st, i));
                let i = self.conc(st, &i, 64)? as usize;
                let Val::Agg(x) = a else { panic!() };
                let v = x[i].clone();
                self.set(st, *d, v);
            }
            Inst::InsertElement(d, _ty, a, v, i) => {
                let (a, v, i) = (self.arg(st, a), self.arg(st, v), self.arg(st, i));
                let i = self.conc(st, &i, 64)? as usize;
                let Val::Agg(x) = a else { panic!() };
                let mut x = (*x).clone();
                x[i] = v;
                self.set(st, *d, Val::Agg(Rc::new(x)));
            }
            Inst::Shuffle(d, a, b, mk) => {
                let (Val::Agg(x), Val::Agg(y)) = (self.arg(st, a), self.arg(st, b)) else { panic!() };
                let v = mk.iter().map(|&k| if k < 0 { Val::C(0) } else if (k as usize) < x.len() { x[k as usize].clone() } else { y[k as usize - x.len()].clone() }).collect();
                self.set(st, *d, Val::Agg(Rc::new(v)));
            }
            Inst::Freeze(d, a) => { let v = self.arg(st, a); self.set(st, *d, v); }
            Inst::CmpXchg(d, ty, a, c, n) => {
                let (a, c, n) = (self.arg(st, a), self.arg(st, c), self.arg(st, n));
                let a = self.conc(st, &a, 64)? as u64;
                let old = self.load(st, ty, a)?;
                let eq = self.cmp(Pred::Eq, ty.bits(), &old, &c);
                let eq = match eq { Val::C(c) => c == 1, Val::E(e) => self.decide(st, e)?, _ => panic!() };
                if eq { self.store(st, ty, &n, a)?; }
                self.set(st, *d, Val::Agg(Rc::new(vec![old, Val::C(eq as u128)])));
            }
            Inst::AtomicRmw(d, op, ty, a, v) => {
                let (a, v) = (self.arg(st, a), self.arg(st, v));
                let a = self.conc(st, &a, 64)? as u64;
                let old = self.load(st, ty, a)?;
                let w = ty.bits();
                let n = match op.as_str() {
                    "xchg" => v, "add" => self.bin(BinOp::Add, w, &old, &v), "sub" => self.bin(BinOp::Sub, w, &old, &v), "and" => self.bin(BinOp::And, w, &old, &v),
                    "or" => self.bin(BinOp::Or, w, &old, &v), "xor" => self.bin(BinOp::Xor, w, &old, &v), _ => return Err(End::Error(format!("atomicrmw {}", op))),
                };
                self.store(st, ty, &n, a)?;
                self.set(st, *d, old);
            }
            Inst::Fence => {}
            Inst::Call(d, rt, callee, args) => return self.call(st, *d, rt, callee, args),
            Inst::Unsupported(s) => return Err(End::Error(format!("unsupported instruction: {}", s.chars().take(120).collect::<String>()))),
        }
        self.advance(st);
        Ok(())
    }

    /// Load from a constant table at a symbolic in-bounds index: an if-then-else over runs of equal entries.
    fn table_load(&mut self, st: &mut State, addr: Ex, ty: &Ty) -> R<Option<Val>> {
        if ty.is_agg() || st.known.contains_key(&addr) || self.all_fixed(st, addr) { return Ok(None); }
        let a = self.eval_model(st, addr) as u64;
        let Some(gi) = self.gfind(a) else { return Ok(None) };
        let (base, size, k) = { let g = &self.m.globals[gi]; (g.addr, g.ty.size(), g.constant) };
        let n = ty.store_size();
        if !k || size > 4096 || n > size || st.mem.contains_key(&base) { return Ok(None); }
        let b = self.p.cst(base as u128, 64);
        let off = self.p.sub(addr, b);
        let lim = self.p.cst((size - n) as u128, 64);
        let inb = self.p.ule(off, lim);
        if !self.decide(st, inb)? { return Ok(None); }
        // stride: entries reachable (only multiples of n if the offset is scaled that way)
        let cells = self.gcell(gi);
        let stride = match self.p.n(off) { Node::Shl(_, s) => 1u64 << self.p.as_const(s).unwrap_or(0).min(12), Node::Mul(_, c) => self.p.as_const(c).unwrap_or(1) as u64, Node::Concat(_, l) if self.p.as_const(l) == Some(0) => 1 << self.p.w(l), _ => 1 };
        let stride = if stride == 0 { 1 } else { stride };
        let mut runs: Vec<(u64, u128)> = vec![]; // (start offset, value)
        let mut o = 0;
        while o + n <= size {
            let mut v = 0u128;
            for i in 0..n as usize { let c = cells[o as usize + i]; if c > 255 { return Ok(None); } v |= (c as u128) << (8 * i); }
            if runs.last().map(|r| r.1) != Some(v) { runs.push((o, v)); }
            o += stride;
        }
        if runs.len() > 600 { return Ok(None); }
        let w = ty.bits();
        let mut e = self.p.cst(runs.last().unwrap().1, w);
        for i in (0..runs.len() - 1).rev() {
            let nx = self.p.cst(runs[i + 1].0 as u128, 64);
            let c = self.p.ult(off, nx);
            let v = self.p.cst(runs[i].1, w);
            e = self.p.ite(c, v, e);
        }
        Ok(Some(self.norm(e)))
    }

    fn call(&mut self, st: &mut State, d: Option<u32>, rt: &Ty, callee: &Callee, args: &[(Opd, Ty)]) -> R<()> {
        let fi = match callee {
            Callee::Intrinsic(n) => { let r = self.intrinsic(st, n, rt, args)?; if let Some(d) = d { self.set(st, d, r.unwrap_or(Val::C(0))); } self.advance(st); return Ok(()); }
            Callee::Direct(i) => *i,
            Callee::Indirect(o) => {
                let v = self.arg(st, o);
                let a = self.conc(st, &v, 64)? as u64;
                match self.m.faddr.get(&a) { Some(&i) => i, None => return Err(self.bad_mem(st, "call through an invalid function pointer", a, 0)) }
            }
        };
        if self.icpt[fi] != Icpt::None {
            let vals: Vec<Val> = args.iter().map(|(o, _)| self.arg(st, o)).collect();
            let r = self.intercept(st, fi, &vals)?;
            if let Some(d) = d { self.set(st, d, r); }
            self.advance(st);
            return Ok(());
        }
        let m = self.m.clone();
        let f = &m.funcs[fi];
        if !f.defined {
            if f.noreturn { return self.panic_at(st, fi, &args.iter().map(|(o, _)| self.arg(st, o)).collect::<Vec<_>>()); }
            return Err(End::Error(format!("call to external function {}", f.name)));
        }
        if st.frames.len() > 1500 {
            let at = f.name.clone();
            self.violate(st, "recursion", "call depth above 1500".into(), at);
            return Err(End::Violated);
        }
        self.st.funcs.insert(fi);
        let mut regs = vec![Val::C(0); f.nregs as usize];
        for (k, (o, _)) in args.iter().enumerate() { if k < f.params.len() { regs[f.params[k] as usize] = self.arg(st, o); } }
        self.advance(st);
        st.frames.push(Rc::new(Frame { f: fi, blk: 0, ip: 0, regs, allocas: vec![], dst: d }));
        Ok(())
    }

    fn cstr(&mut self, st: &mut State, p: &Val, n: &Val) -> String {
        if let (Val::C(p), Val::C(n)) = (p, n) {
            if *n < 4096 { if let Ok(c) = self.read_cells_quiet(st, *p as u64, *n as u64) { return c; } }
        }
        "?".into()
    }
    fn read_cells_quiet(&mut self, st: &mut State, a: u64, n: u64) -> Result<String, ()> {
        let nv = self.viol.len();
        match self.read_cells(st, a, n) {
            Ok(c) => Ok(c.iter().map(|&x| if x < 256 { x as u8 as char } else { '?' }).collect()),
            Err(_) => { self.viol.truncate(nv); Err(()) }
        }
    }
    fn panic_at(&mut self, st: &mut State, fi: usize, args: &[Val]) -> R<()> {
        let name = self.m.funcs[fi].name.clone();
        // a &'static Location is {ptr file, len, line, col} in constant memory
        let mut at = String::new();
        for a in args.iter().rev() {
            if let Val::C(a) = a {
                if let Some(gi) = self.gfind(*a as u64) {
                    let g = &self.m.globals[gi];
                    if g.ty.size() == 24 && g.addr == *a as u64 {
                        let c = self.gcell(gi);
                        let rd = |o: usize, n: usize| (0..n).fold(0u64, |x, i| x | ((c[o + i] as u64 & 255) << (8 * i)));
                        let (p, n, l) = (rd(0, 8), rd(8, 8), rd(16, 4));
                        if n < 512 { if let Ok(s) = self.read_cells_quiet(st, p, n) { at = format!("{}:{}", s, l); break; } }
                    }
                }
            }
        }
        if at.is_empty() { at = self.m.funcs[st.frames.last().unwrap().f].name.clone(); }
        let mut what = name;
        if args.len() >= 2 { let s = self.cstr(st, &args[0].clone(), &args[1].clone()); if s != "?" && s.len() > 3 && s.chars().all(|c| c.is_ascii_graphic() || c == ' ') { what = format!("{} \"{}\"", what, s); } }
        self.violate(st, "panic", what, at);
        Err(End::Violated)
    }

    fn intercept(&mut self, st: &mut State, fi: usize, a: &[Val]) -> R<Val> {
        let k = self.icpt[fi];
        match k {
            Icpt::MakeSym => {
                let n = self.conc(st, &a[1], 64)? as usize;
                let p = self.conc(st, &a[0], 64)? as u64;
                let mut cells = vec![];
                for i in 0..n {
                    let ix = st.ninput + i;
                    if ix == self.input_vars.len() { let e = self.p.fresh_var(); let Node::Var(v) = self.p.n(e) else { panic!() }; self.input_vars.push(v); }
                    let e = self.p.var(self.input_vars[ix]);
                    cells.push(CELL0 + e);
                }
                self.write_cells(st, p, &cells)?;
                st.ninput += n;
                self.st.ninput = self.st.ninput.max(st.ninput);
                Ok(Val::C(0))
            }
            Icpt::Assume => {
                let c = self.ex(&a[0], 1);
                match self.quick(st, c) { Some(true) => return Ok(Val::C(0)), Some(false) => return Err(End::Killed), None => {} }
                if self.eval_model(st, c) == 1 { self.add_pc(st, c); self.try_fix(st, c); return Ok(Val::C(0)); }
                match self.query(st, c) {
                    Res::Unsat => Err(End::Killed),
                    Res::Sat(m) => { self.set_model(st, &m); self.add_pc(st, c); self.try_fix(st, c); Ok(Val::C(0)) }
                    Res::Unknown => Err(End::Error("solver returned unknown".into())),
                }
            }
            Icpt::Check => {
                let c = self.ex(&a[0], 1);
                let id = self.cstr(st, &a[1].clone(), &a[2].clone());
                *self.st.checks.entry(id.clone()).or_insert(0) += 1;
                match self.quick(st, c) {
                    Some(true) => return Ok(Val::C(0)),
                    Some(false) => { self.violate(st, "check", id, "harness".into()); return Err(End::Violated); }
                    None => {}
                }
                let n = self.p.not1(c);
                match self.query(st, n) {
                    Res::Unsat => { Rc::make_mut(&mut st.pcset).insert(c); Ok(Val::C(0)) }
                    Res::Unknown => Err(End::Error("solver returned unknown".into())),
                    Res::Sat(m) => {
                        let mut o = st.clone();
                        self.set_model(&mut o, &m);
                        self.violate(&o, "check", id, "harness".into());
                        // go on with the inputs that satisfy the check
                        match self.query(st, c) {
                            Res::Sat(m) => { self.set_model(st, &m); self.add_pc(st, c); Ok(Val::C(0)) }
                            _ => Err(End::Violated),
                        }
                    }
                }
            }
            Icpt::Cover => { let id = self.cstr(st, &a[0].clone(), &a[1].clone()); *self.st.covers.entry(id).or_insert(0) += 1; Ok(Val::C(0)) }
            Icpt::Param => { let i = self.conc(st, &a[0], 32)? as usize; Ok(Val::C(*self.params.get(i).unwrap_or(&0) as u128)) }
            Icpt::Note => { let i = self.conc(st, &a[0], 64)? as u64; Rc::make_mut(&mut st.notes).push((i, a[1].clone())); Ok(Val::C(0)) }
            Icpt::Concretize => { let v = self.conc(st, &a[0], 64)?; Ok(Val::C(v)) }
            Icpt::IsSym => Ok(Val::C(1)),
            Icpt::Allocated => {
                let mut t = Val::C(st.alloc_c as u128);
                for e in st.alloc_s.clone().iter() { let e = self.norm(*e); t = self.bin(BinOp::Add, 64, &t, &e); }
                Ok(t)
            }
            Icpt::Alloc | Icpt::AllocZ => {
                let al = self.conc(st, &a[1], 64)? as u64;
                let sz = match &a[0] { Val::E(e) => { if let Some(k) = st.known.get(e) { Val::C(*k) } else if self.all_fixed(st, *e) { Val::C(self.eval_model(st, *e)) } else if k == Icpt::AllocZ { Val::C(self.conc(st, &a[0], 64)?) } else { a[0].clone() } } v => v.clone() };
                if let Val::C(n) = sz { if n > 1 << 32 { return Err(End::Error(format!("allocation of {} bytes", n))); } }
                Ok(Val::C(self.new_heap(st, &sz, al, k == Icpt::AllocZ) as u128))
            }
            Icpt::Realloc => {
                let p = self.conc(st, &a[0], 64)? as u64;
                let al = self.conc(st, &a[2], 64)? as u64;
                let n = self.conc(st, &a[3], 64)?;
                let Some(o) = st.mem.get(&p).cloned() else { return Err(self.bad_mem(st, "realloc of an invalid pointer", p, 0)) };
                let q = self.new_heap(st, &Val::C(n), al, false);
                let mut c = (*o.cells).clone();
                if o.sym_size.is_none() { c.truncate(o.size as usize); }
                c.truncate(n as usize);
                Rc::make_mut(st.mem.get_mut(&q).unwrap()).cells = Rc::new(c);
                st.mem.remove(&p);
                Ok(Val::C(q as u128))
            }
            Icpt::Dealloc => {
                let p = self.conc(st, &a[0], 64)? as u64;
                match st.mem.get(&p) { Some(o) if o.heap => { st.mem.remove(&p); Ok(Val::C(0)) } _ => Err(self.bad_mem(st, "invalid or double free", p, 0)) }
            }
            Icpt::Shim | Icpt::Print => Ok(Val::C(0)),
            Icpt::Memcmp | Icpt::Bcmp => {
                let n = self.conc(st, &a[2], 64)? as u64;
                let (p, q) = (self.conc(st, &a[0], 64)? as u64, self.conc(st, &a[1], 64)? as u64);
                let (x, y) = (self.read_cells(st, p, n)?, self.read_cells(st, q, n)?);
                if k == Icpt::Bcmp {
                    let mut all = self.p.t();
                    for i in 0..n as usize { let (u, v) = (self.cell_val(st, x[i]), self.cell_val(st, y[i])); let e = self.cmp(Pred::Eq, 8, &u, &v); let e = self.ex(&e, 1); all = self.p.and(e, all); if self.p.as_const(all) == Some(0) { break; } }
                    let ne = self.p.not1(all);
                    let r = self.p.zext(ne, 32);
                    return Ok(self.norm(r));
                }
                let mut r = self.p.cst(0, 32);
                let (neg, pos) = (self.p.cst(0xffff_ffff, 32), self.p.cst(1, 32));
                for i in (0..n as usize).rev() {
                    let (u, v) = (self.cell_val(st, x[i]), self.cell_val(st, y[i]));
                    let (u, v) = (self.ex(&u, 8), self.ex(&v, 8));
                    let eq = self.p.eq(u, v);
                    let lt = self.p.ult(u, v);
                    let d = self.p.ite(lt, neg, pos);
                    r = self.p.ite(eq, r, d);
                }
                Ok(self.norm(r))
            }
            Icpt::Memcpy | Icpt::Memmove => { self.memcpy(st, &a[0], &a[1], &a[2])?; Ok(a[0].clone()) }
            Icpt::Memset => { self.memset(st, &a[0], &a[1], &a[2])?; Ok(a[0].clone()) }
            Icpt::Strlen => {
                let p = self.conc(st, &a[0], 64)? as u64;
                for i in 0.. { let v = self.load(st, &Ty::Int(8), p + i)?; let v = self.conc(st, &v, 8)?; if v == 0 { return Ok(Val::C(i as u128)); } }
                unreachable!()
            }
            Icpt::HNew => {
                let p = self.conc(st, &a[0], 64)? as u64;
                let id = self.new_seq(st, vec![]);
                self.store(st, &Ty::Int(64), &Val::C(id as u128), p)?;
                Ok(Val::C(0))
            }
            Icpt::HWrite | Icpt::HWriteStr => {
                let n = self.conc(st, &a[2], 64)? as u64;
                let p = self.conc(st, &a[0], 64)? as u64;
                let q = self.conc(st, &a[1], 64)? as u64;
                let id = self.load(st, &Ty::Int(64), p)?;
                let id = self.conc(st, &id, 64)? as usize;
                let mut c = self.read_cells(st, q, n)?;
                if k == Icpt::HWriteStr { c.push(0xff); }
                let mut s = (*st.seqs[id]).clone();
                s.extend(c);
                let id = self.new_seq(st, s);
                self.store(st, &Ty::Int(64), &Val::C(id as u128), p)?;
                Ok(Val::C(0))
            }
            Icpt::HFinish => {
                let p = self.conc(st, &a[0], 64)? as u64;
                let id = self.load(st, &Ty::Int(64), p)?;
                let id = self.conc(st, &id, 64)? as usize;
                let s = st.seqs[id].clone();
                let mut class = None;
                for (ci, c) in st.classes.clone().iter().enumerate() {
                    if c.len() != s.len() { continue; }
                    let mut all = self.p.t();
                    for i in 0..s.len() {
                        let (u, v) = (self.cell_val(st, s[i]), self.cell_val(st, c[i]));
                        let e = self.cmp(Pred::Eq, 8, &u, &v);
                        let e = self.ex(&e, 1);
                        all = self.p.and(e, all);
                        if self.p.as_const(all) == Some(0) { break; }
                    }
                    if self.decide(st, all)? { class = Some(ci); break; }
                }
                let ci = class.unwrap_or_else(|| { Rc::make_mut(&mut st.classes).push(s); st.classes.len() - 1 });
                let mut x = (ci as u64 + 1).wrapping_mul(0x9E37_79B9_7F4A_7C15);
                x ^= x >> 29; x = x.wrapping_mul(0xBF58_476D_1CE4_E5B9); x ^= x >> 32;
                Ok(Val::C(x as u128))
            }
            Icpt::RandKeys => Ok(Val::Agg(Rc::new(vec![Val::C(0x0123_4567_89ab_cdef), Val::C(0x0fed_cba9_8765_4321)]))),
            Icpt::Panic => self.panic_at(st, fi, a).map(|_| Val::C(0)),
            Icpt::None => unreachable!(),
        }
    }
    fn new_seq(&mut self, st: &mut State, s: Vec<Cell>) -> usize { let v = Rc::make_mut(&mut st.seqs); v.push(Rc::new(s)); v.len() - 1 }

    fn memcpy(&mut self, st: &mut State, d: &Val, s: &Val, n: &Val) -> R<()> {
        let n = self.conc(st, n, 64)? as u64;
        let d = self.conc(st, d, 64)? as u64;
        let s = self.conc(st, s, 64)? as u64;
        let c = self.read_cells(st, s, n)?;
        self.write_cells(st, d, &c)
    }
    fn memset(&mut self, st: &mut State, d: &Val, v: &Val, n: &Val) -> R<()> {
        let n = self.conc(st, n, 64)? as u64;
        let d = self.conc(st, d, 64)? as u64;
        let b = self.extract(v, 32, 0, 8);
        let c = self.val_cell(&b);
        self.write_cells(st, d, &vec![c; n as usize])
    }

    fn intrinsic(&mut self, st: &mut State, n: &str, rt: &Ty, args: &[(Opd, Ty)]) -> R<Option<Val>> {
        let a: Vec<Val> = args.iter().map(|(o, _)| self.arg(st, o)).collect();
        let parts: Vec<&str> = n.split('.').collect();
        let base = parts.get(1).copied().unwrap_or("");
        // element-wise lifting
        if let Ty::Vector(e, cnt) = rt {
            if matches!(base, "umin" | "umax" | "smin" | "smax" | "uadd" | "usub" | "bswap" | "ctpop" | "abs" | "fshl" | "fshr") {
                let mut out = vec![];
                for i in 0..*cnt as usize {
                    let la: Vec<Val> = a.iter().map(|v| match v { Val::Agg(x) => x[i].clone(), v => v.clone() }).collect();
                    out.push(self.scalar_intr(n, base, &parts, e.bits(), &la)?);
                }
                return Ok(Some(Val::Agg(Rc::new(out))));
            }
        }
        match base {
            "memcpy" | "memmove" => { self.memcpy(st, &a[0], &a[1], &a[2])?; Ok(None) }
            "memset" => { self.memset(st, &a[0], &a[1], &a[2])?; Ok(None) }
            "threadlocal" => Ok(Some(a[0].clone())),
            "trap" | "ubsantrap" => { let at = self.m.funcs[st.frames.last().unwrap().f].name.clone(); self.violate(st, "trap", "abort".into(), at); Err(End::Violated) }
            "expect" | "launder" | "strip" | "ptrmask" if base != "ptrmask" => Ok(Some(a[0].clone())),
            "ptrmask" => Ok(Some(self.bin(BinOp::And, 64, &a[0], &a[1]))),
            "is" => Ok(Some(Val::C(0))),
            "objectsize" => Ok(Some(Val::C(mask(64)))),
            "x86" if n == "llvm.x86.sse2.pause" => Ok(None),
            "stacksave" | "stackrestore" | "donothing" | "sideeffect" | "va_start" => Ok(Some(Val::C(0))),
            "uadd" | "usub" | "umul" | "sadd" | "ssub" | "smul" if parts.get(2) == Some(&"with") => {
                let w = match &args[0].1 { Ty::Int(w) => *w, _ => return Err(End::Error(format!("intrinsic {}", n))) };
                let signed = base.starts_with('s');
                let op = match &base[1..] { "add" => BinOp::Add, "sub" => BinOp::Sub, _ => BinOp::Mul };
                let r = self.bin(op, w, &a[0], &a[1]);
                let o = match (base, signed) {
                    ("uadd", _) => self.cmp(Pred::Ult, w, &r, &a[0]),
                    ("usub", _) => self.cmp(Pred::Ult, w, &a[0], &a[1]),
                    _ => {
                        if w > 64 { return Err(End::Error(format!("intrinsic {}", n))); }
                        let k = if signed { Cast::Sext } else { Cast::Zext };
                        let (f, t) = (Ty::Int(w), Ty::Int(2 * w));
                        let (x, y) = (self.cast(k, &f, &a[0], &t), self.cast(k, &f, &a[1], &t));
                        let wide = self.bin(op, 2 * w, &x, &y);
                        let back = self.cast(k, &f, &r, &t);
                        self.cmp(Pred::Ne, 2 * w, &wide, &back)
                    }
                };
                Ok(Some(Val::Agg(Rc::new(vec![r, o]))))
            }
            "vector" if parts.get(2) == Some(&"reduce") => {
                let Val::Agg(x) = &a[0] else { panic!() };
                let Ty::Vector(e, _) = &args[0].1 else { panic!() };
                let w = e.bits();
                let mut r = x[0].clone();
                for v in x.iter().skip(1) {
                    r = match parts[3] {
                        "or" => self.bin(BinOp::Or, w, &r, v), "and" => self.bin(BinOp::And, w, &r, v), "add" => self.bin(BinOp::Add, w, &r, v), "xor" => self.bin(BinOp::Xor, w, &r, v), "mul" => self.bin(BinOp::Mul, w, &r, v),
                        "umax" => { let c = self.cmp(Pred::Ugt, w, &r, v); self.ite(&c, e, &r, v) }
                        "umin" => { let c = self.cmp(Pred::Ult, w, &r, v); self.ite(&c, e, &r, v) }
                        _ => return Err(End::Error(format!("intrinsic {}", n))),
                    };
                }
                Ok(Some(r))
            }
            _ => { let w = rt.bits(); Ok(Some(self.scalar_intr2(n, base, &parts, w, &a, args)?)) }
        }
    }
    fn scalar_intr2(&mut self, n: &str, base: &str, parts: &[&str], w: u32, a: &[Val], args: &[(Opd, Ty)]) -> R<Val> {
        if base == "scmp" || base == "ucmp" {
            let aw = args[0].1.bits();
            let (lt, gt) = if base == "scmp" { (Pred::Slt, Pred::Sgt) } else { (Pred::Ult, Pred::Ugt) };
            let (l, g) = (self.cmp(lt, aw, &a[0], &a[1]), self.cmp(gt, aw, &a[0], &a[1]));
            let t = Ty::Int(w);
            let x = self.ite(&g, &t, &Val::C(1), &Val::C(0));
            return Ok(self.ite(&l, &t, &Val::C(mask(w)), &x));
        }
        self.scalar_intr(n, base, parts, w, a)
    }
    fn scalar_intr(&mut self, n: &str, base: &str, parts: &[&str], w: u32, a: &[Val]) -> R<Val> {
        let t = Ty::Int(w);
        let sat = parts.get(2) == Some(&"sat");
        Ok(match base {
            "umin" => { let c = self.cmp(Pred::Ult, w, &a[0], &a[1]); self.ite(&c, &t, &a[0], &a[1]) }
            "umax" => { let c = self.cmp(Pred::Ugt, w, &a[0], &a[1]); self.ite(&c, &t, &a[0], &a[1]) }
            "smin" => { let c = self.cmp(Pred::Slt, w, &a[0], &a[1]); self.ite(&c, &t, &a[0], &a[1]) }
            "smax" => { let c = self.cmp(Pred::Sgt, w, &a[0], &a[1]); self.ite(&c, &t, &a[0], &a[1]) }
            "uadd" if sat => { let r = self.bin(BinOp::Add, w, &a[0], &a[1]); let c = self.cmp(Pred::Ult, w, &r, &a[0]); self.ite(&c, &t, &Val::C(mask(w)), &r) }
            "usub" if sat => { let c = self.cmp(Pred::Ult, w, &a[0], &a[1]); let r = self.bin(BinOp::Sub, w, &a[0], &a[1]); self.ite(&c, &t, &Val::C(0), &r) }
            "abs" => { let c = self.cmp(Pred::Slt, w, &a[0], &Val::C(0)); let r = self.bin(BinOp::Sub, w, &Val::C(0), &a[0]); self.ite(&c, &t, &r, &a[0]) }
            "bswap" => { let k = w / 8; let mut r = self.extract(&a[0], w, 0, 8); for i in 1..k { let b = self.extract(&a[0], w, i * 8, 8); r = self.concat(&r, i * 8, &b, 8); } r }
            "fshl" | "fshr" => {
                let sh = self.bin(BinOp::URem, w, &a[2], &Val::C(w as u128));
                let inv = self.bin(BinOp::Sub, w, &Val::C(w as u128), &sh);
                let (l, r) = if base == "fshl" { (self.bin(BinOp::Shl, w, &a[0], &sh), self.bin(BinOp::LShr, w, &a[1], &inv)) } else { (self.bin(BinOp::Shl, w, &a[0], &inv), self.bin(BinOp::LShr, w, &a[1], &sh)) };
                self.bin(BinOp::Or, w, &l, &r)
            }
            "ctpop" => match &a[0] { Val::C(c) => Val::C(c.count_ones() as u128), v => { let mut r = Val::C(0); for i in 0..w { let b = self.extract(v, w, i, 1); let b = self.cast(Cast::Zext, &Ty::Int(1), &b, &t); r = self.bin(BinOp::Add, w, &r, &b); } r } },
            "ctlz" => match &a[0] { Val::C(c) => Val::C((c.leading_zeros() - (128 - w)) as u128), v => { let mut r = Val::C(w as u128); for i in 0..w { let b = self.extract(v, w, i, 1); r = self.ite(&b, &t, &Val::C((w - 1 - i) as u128), &r); } r } },
            "cttz" => match &a[0] { Val::C(c) => Val::C((c.trailing_zeros().min(w)) as u128), v => { let mut r = Val::C(w as u128); for i in (0..w).rev() { let b = self.extract(v, w, i, 1); r = self.ite(&b, &t, &Val::C(i as u128), &r); } r } },
            "bitreverse" => { let mut r = self.extract(&a[0], w, 0, 1); for i in 1..w { let b = self.extract(&a[0], w, i, 1); r = self.concat(&r, i, &b, 1); } r }
            _ => return Err(End::Error(format!("unsupported intrinsic {}", n))),
        })
    }
}

fn classify(f: &Func) -> Icpt {
    let n = f.name.as_str();
    match n {
        "symex_make_symbolic" => return Icpt::MakeSym,
        "symex_assume" => return Icpt::Assume,
        "symex_check" => return Icpt::Check,
        "symex_cover" => return Icpt::Cover,
        "symex_param" => return Icpt::Param,
        "symex_note" => return Icpt::Note,
        "symex_concretize" => return Icpt::Concretize,
        "symex_is_symbolic" => return Icpt::IsSym,
        "symex_allocated" => return Icpt::Allocated,
        "memcmp" => return Icpt::Memcmp,
        "bcmp" => return Icpt::Bcmp,
        "memcpy" => return Icpt::Memcpy,
        "memmove" => return Icpt::Memmove,
        "memset" => return Icpt::Memset,
        "strlen" => return Icpt::Strlen,
        _ => {}
    }
    if f.defined { return Icpt::None; }
    if n.contains("___rustc") {
        if n.ends_with("12___rust_alloc") { return Icpt::Alloc; }
        if n.ends_with("19___rust_alloc_zeroed") { return Icpt::AllocZ; }
        if n.ends_with("14___rust_realloc") { return Icpt::Realloc; }
        if n.ends_with("14___rust_dealloc") { return Icpt::Dealloc; }
        if n.contains("no_alloc_shim_is_unstable") { return Icpt::Shim; }
    }
    if n.contains("4core4hash3sip") {
        if n.contains("13new_with_keys") { return Icpt::HNew; }
        if n.contains("6Hasher9write_str") { return Icpt::HWriteStr; }
        if n.contains("6Hasher5write") { return Icpt::HWrite; }
        if n.contains("6Hasher6finish") { return Icpt::HFinish; }
    }
    if n.contains("19hashmap_random_keys") { return Icpt::RandKeys; }
    if n.contains("2io5stdio6__print") || n.contains("2io5stdio7__eprint") { return Icpt::Print; }
    if f.noreturn { return Icpt::Panic; }
    Icpt::None
}
