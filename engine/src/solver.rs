//! Z3 (C API, in process) behind a model cache and a query cache.
use crate::expr::*;
use crate::fx::Map;
use std::ffi::{c_char, c_int, c_uint, c_void, CString};
use std::time::Instant;

type Ctx = *mut c_void;
type Ast = *mut c_void;
type Sort = *mut c_void;
type Sol = *mut c_void;
type Mdl = *mut c_void;

#[link(name = "z3")]
extern "C" {
    fn Z3_mk_config() -> *mut c_void;
    fn Z3_mk_context_rc(c: *mut c_void) -> Ctx;
    fn Z3_set_error_handler(c: Ctx, h: *const c_void);
    fn Z3_get_error_code(c: Ctx) -> c_int;
    fn Z3_inc_ref(c: Ctx, a: Ast);
    fn Z3_mk_bv_sort(c: Ctx, sz: c_uint) -> Sort;
    fn Z3_mk_int_symbol(c: Ctx, i: c_int) -> *mut c_void;
    fn Z3_mk_const(c: Ctx, s: *mut c_void, ty: Sort) -> Ast;
    fn Z3_mk_numeral(c: Ctx, n: *const c_char, ty: Sort) -> Ast;
    fn Z3_mk_unsigned_int64(c: Ctx, v: u64, ty: Sort) -> Ast;
    fn Z3_mk_bvadd(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsub(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvmul(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvudiv(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsdiv(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvurem(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsrem(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvand(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvor(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvxor(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvshl(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvlshr(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvashr(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvult(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvule(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvslt(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsle(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_eq(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_not(c: Ctx, a: Ast) -> Ast;
    fn Z3_mk_and(c: Ctx, n: c_uint, a: *const Ast) -> Ast;
    fn Z3_mk_or(c: Ctx, n: c_uint, a: *const Ast) -> Ast;
    fn Z3_mk_xor(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_true(c: Ctx) -> Ast;
    fn Z3_mk_false(c: Ctx) -> Ast;
    fn Z3_mk_ite(c: Ctx, a: Ast, b: Ast, d: Ast) -> Ast;
    fn Z3_mk_concat(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_extract(c: Ctx, hi: c_uint, lo: c_uint, a: Ast) -> Ast;
    fn Z3_mk_zero_ext(c: Ctx, i: c_uint, a: Ast) -> Ast;
    fn Z3_mk_sign_ext(c: Ctx, i: c_uint, a: Ast) -> Ast;
    fn Z3_mk_string_symbol(c: Ctx, s: *const c_char) -> *mut c_void;
    fn Z3_mk_solver_for_logic(c: Ctx, l: *mut c_void) -> Sol;
    fn Z3_mk_simple_solver(c: Ctx) -> Sol;
    fn Z3_solver_inc_ref(c: Ctx, s: Sol);
    fn Z3_solver_push(c: Ctx, s: Sol);
    fn Z3_solver_pop(c: Ctx, s: Sol, n: c_uint);
    fn Z3_solver_assert(c: Ctx, s: Sol, a: Ast);
    fn Z3_solver_check(c: Ctx, s: Sol) -> c_int;
    fn Z3_solver_get_model(c: Ctx, s: Sol) -> Mdl;
    fn Z3_model_inc_ref(c: Ctx, m: Mdl);
    fn Z3_model_dec_ref(c: Ctx, m: Mdl);
    fn Z3_model_eval(c: Ctx, m: Mdl, t: Ast, completion: bool, v: *mut Ast) -> bool;
    fn Z3_get_numeral_uint64(c: Ctx, v: Ast, u: *mut u64) -> bool;
    fn Z3_mk_params(c: Ctx) -> *mut c_void;
    fn Z3_params_inc_ref(c: Ctx, p: *mut c_void);
    fn Z3_params_set_uint(c: Ctx, p: *mut c_void, k: *mut c_void, v: c_uint);
    fn Z3_solver_set_params(c: Ctx, s: Sol, p: *mut c_void);
    fn Z3_get_version(a: *mut c_uint, b: *mut c_uint, c: *mut c_uint, d: *mut c_uint);
}
extern "C" fn on_err(_: Ctx, _: c_int) {}

#[derive(Clone, Debug, PartialEq)]
pub enum Res { Unsat, Sat(Vec<(u32, u8)>), Unknown }

pub struct Solver {
    ctx: Ctx,
    sol: Sol,
    bv: Map<Ex, Ast>,
    bl: Map<Ex, Ast>,
    sorts: Map<u32, Sort>,
    cache: Map<Vec<Ex>, Res>,
    recent: Vec<Vec<u8>>,
    rix: usize,
    pub n_query: u64,
    pub n_sat: u64,
    pub n_unsat: u64,
    pub n_unknown: u64,
    pub n_cache: u64,
    pub n_modelhit: u64,
    pub time: f64,
    pub max_query: f64,
}

pub fn z3_version() -> String {
    let (mut a, mut b, mut c, mut d) = (0, 0, 0, 0);
    unsafe { Z3_get_version(&mut a, &mut b, &mut c, &mut d) };
    format!("{}.{}.{}", a, b, c)
}

impl Solver {
    pub fn new(rlimit: u32) -> Self {
        unsafe {
            let ctx = Z3_mk_context_rc(Z3_mk_config());
            Z3_set_error_handler(ctx, on_err as *const c_void);
            let _ = Z3_mk_simple_solver as *const c_void;
            let l = CString::new("QF_BV").unwrap();
            let sol = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, l.as_ptr()));
            Z3_solver_inc_ref(ctx, sol);
            let p = Z3_mk_params(ctx);
            Z3_params_inc_ref(ctx, p);
            let t = CString::new("rlimit").unwrap();
            Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, t.as_ptr()), rlimit);
            Z3_solver_set_params(ctx, sol, p);
            Solver { ctx, sol, bv: Map::default(), bl: Map::default(), sorts: Map::default(), cache: Map::default(), recent: vec![], rix: 0,
                n_query: 0, n_sat: 0, n_unsat: 0, n_unknown: 0, n_cache: 0, n_modelhit: 0, time: 0.0, max_query: 0.0 }
        }
    }
    fn sort(&mut self, w: u32) -> Sort {
        let c = self.ctx;
        *self.sorts.entry(w).or_insert_with(|| unsafe { let s = Z3_mk_bv_sort(c, w); Z3_inc_ref(c, s); s })
    }
    unsafe fn numeral(&mut self, v: u128, w: u32) -> Ast {
        let s = self.sort(w);
        let a = if v <= u64::MAX as u128 { Z3_mk_unsigned_int64(self.ctx, v as u64, s) }
        else { let t = CString::new(v.to_string()).unwrap(); Z3_mk_numeral(self.ctx, t.as_ptr(), s) };
        Z3_inc_ref(self.ctx, a);
        a
    }
    // bit-vector view of an expression
    fn to_bv(&mut self, p: &Pool, e: Ex) -> Ast {
        if let Some(&a) = self.bv.get(&e) { return a; }
        self.ensure(p, e, false);
        self.bv[&e]
    }
    fn to_bool(&mut self, p: &Pool, e: Ex) -> Ast {
        if let Some(&a) = self.bl.get(&e) { return a; }
        self.ensure(p, e, true);
        self.bl[&e]
    }
    // width-1 expressions get a Bool translation, wider ones a BV translation;
    // conversions are inserted where needed. Iterative to survive deep DAGs.
    fn ensure(&mut self, p: &Pool, root: Ex, want_bool: bool) {
        let mut stack = vec![(root, want_bool)];
        while let Some(&(e, wb)) = stack.last() {
            if if wb { self.bl.contains_key(&e) } else { self.bv.contains_key(&e) } { stack.pop(); continue; }
            let (node, w) = p.nodes[e as usize];
            use Node::*;
            let mut need: Vec<(Ex, bool)> = vec![];
            let boolnode = w == 1 && !matches!(node, Extract(..) | Add(..) | Sub(..) | Mul(..) | UDiv(..) | SDiv(..) | URem(..) | SRem(..) | Shl(..) | LShr(..) | AShr(..) | Var(_) | ZExt(_) | SExt(_) | Concat(..));
            if boolnode && !wb { need.push((e, true)); }
            else if !boolnode && wb { need.push((e, false)); }
            else {
                match node {
                    Const(_) | Var(_) => {}
                    And(a, b) | Or(a, b) | Xor(a, b) => { need.push((a, w == 1)); need.push((b, w == 1)); }
                    Ite(c, a, b) => { need.push((c, true)); need.push((a, w == 1)); need.push((b, w == 1)); }
                    Eq(a, b) => { let x = p.w(a) == 1; need.push((a, x)); need.push((b, x)); }
                    _ => for k in p.kids(e).iter().flatten() { need.push((*k, false)); },
                }
            }
            let mut ok = true;
            for (k, b) in need {
                if !(if b { self.bl.contains_key(&k) } else { self.bv.contains_key(&k) }) { stack.push((k, b)); ok = false; }
            }
            if !ok { continue; }
            let c = self.ctx;
            unsafe {
                let r = if boolnode && !wb {
                    let one = self.numeral(1, 1);
                    let zero = self.numeral(0, 1);
                    Z3_mk_ite(c, self.bl[&e], one, zero)
                } else if !boolnode && wb {
                    let one = self.numeral(1, 1);
                    Z3_mk_eq(c, self.bv[&e], one)
                } else if boolnode {
                    match node {
                        Const(v) => if v == 1 { Z3_mk_true(c) } else { Z3_mk_false(c) },
                        And(a, b) => { let v = [self.bl[&a], self.bl[&b]]; Z3_mk_and(c, 2, v.as_ptr()) }
                        Or(a, b) => { let v = [self.bl[&a], self.bl[&b]]; Z3_mk_or(c, 2, v.as_ptr()) }
                        Xor(a, b) => { if p.as_const(b) == Some(1) { Z3_mk_not(c, self.bl[&a]) } else { Z3_mk_xor(c, self.bl[&a], self.bl[&b]) } }
                        Ite(k, a, b) => Z3_mk_ite(c, self.bl[&k], self.bl[&a], self.bl[&b]),
                        Eq(a, b) => if p.w(a) == 1 { Z3_mk_eq(c, self.bl[&a], self.bl[&b]) } else { Z3_mk_eq(c, self.bv[&a], self.bv[&b]) },
                        Ult(a, b) => Z3_mk_bvult(c, self.bv[&a], self.bv[&b]),
                        Ule(a, b) => Z3_mk_bvule(c, self.bv[&a], self.bv[&b]),
                        Slt(a, b) => Z3_mk_bvslt(c, self.bv[&a], self.bv[&b]),
                        Sle(a, b) => Z3_mk_bvsle(c, self.bv[&a], self.bv[&b]),
                        _ => unreachable!(),
                    }
                } else {
                    let v = |k: Ex| self.bv[&k];
                    match node {
                        Const(x) => self.numeral(x, w),
                        Var(i) => { let s = self.sort(8); Z3_mk_const(c, Z3_mk_int_symbol(c, i as c_int), s) }
                        Add(a, b) => Z3_mk_bvadd(c, v(a), v(b)),
                        Sub(a, b) => Z3_mk_bvsub(c, v(a), v(b)),
                        Mul(a, b) => Z3_mk_bvmul(c, v(a), v(b)),
                        UDiv(a, b) => Z3_mk_bvudiv(c, v(a), v(b)),
                        SDiv(a, b) => Z3_mk_bvsdiv(c, v(a), v(b)),
                        URem(a, b) => Z3_mk_bvurem(c, v(a), v(b)),
                        SRem(a, b) => Z3_mk_bvsrem(c, v(a), v(b)),
                        And(a, b) => Z3_mk_bvand(c, v(a), v(b)),
                        Or(a, b) => Z3_mk_bvor(c, v(a), v(b)),
                        Xor(a, b) => Z3_mk_bvxor(c, v(a), v(b)),
                        Shl(a, b) => Z3_mk_bvshl(c, v(a), v(b)),
                        LShr(a, b) => Z3_mk_bvlshr(c, v(a), v(b)),
                        AShr(a, b) => Z3_mk_bvashr(c, v(a), v(b)),
                        Ite(k, a, b) => Z3_mk_ite(c, self.bl[&k], v(a), v(b)),
                        Concat(a, b) => Z3_mk_concat(c, v(a), v(b)),
                        Extract(a, lo) => Z3_mk_extract(c, lo + w - 1, lo, v(a)),
                        ZExt(a) => Z3_mk_zero_ext(c, w - p.w(a), v(a)),
                        SExt(a) => Z3_mk_sign_ext(c, w - p.w(a), v(a)),
                        _ => unreachable!("{:?}", node),
                    }
                };
                if Z3_get_error_code(c) != 0 { panic!("z3 error {} translating {:?} w{}", Z3_get_error_code(c), node, w); }
                Z3_inc_ref(c, r);
                if wb { self.bl.insert(e, r); } else { self.bv.insert(e, r); }
            }
            stack.pop();
        }
    }

    /// Is the conjunction of `cs` satisfiable? On Sat, values for all variables in cs.
    pub fn check(&mut self, p: &mut Pool, cs: &[Ex], vars: &[u32]) -> Res {
        let mut key: Vec<Ex> = cs.iter().copied().filter(|&c| p.as_const(c) != Some(1)).collect();
        if key.iter().any(|&c| p.as_const(c) == Some(0)) { return Res::Unsat; }
        if key.is_empty() { return Res::Sat(vec![]); }
        key.sort_unstable();
        key.dedup();
        if let Some(r) = self.cache.get(&key) { self.n_cache += 1; return r.clone(); }
        for k in 0..self.recent.len() {
            let i = (self.rix + self.recent.len() - k) % self.recent.len();
            let m = &self.recent[i];
            p.begin_eval();
            if key.iter().rev().all(|&c| p.eval(c, m) == 1) {
                self.n_modelhit += 1;
                let r = Res::Sat(vars.iter().map(|&v| (v, *m.get(v as usize).unwrap_or(&0))).collect());
                self.cache.insert(key, r.clone());
                return r;
            }
        }
        let t0 = Instant::now();
        self.n_query += 1;
        for &c in &key { self.to_bool(p, c); }
        for &v in vars { let e = p.var(v); self.to_bv(p, e); }
        let r = unsafe {
            Z3_solver_push(self.ctx, self.sol);
            for c in &key { Z3_solver_assert(self.ctx, self.sol, self.bl[c]); }
            let res = match Z3_solver_check(self.ctx, self.sol) {
                -1 => { self.n_unsat += 1; Res::Unsat }
                1 => {
                    self.n_sat += 1;
                    let m = Z3_solver_get_model(self.ctx, self.sol);
                    Z3_model_inc_ref(self.ctx, m);
                    let mut out = vec![];
                    for &v in vars {
                        let e = p.var(v);
                        let a = self.bv[&e];
                        let mut val = std::ptr::null_mut();
                        Z3_model_eval(self.ctx, m, a, true, &mut val);
                        let mut u = 0u64;
                        Z3_get_numeral_uint64(self.ctx, val, &mut u);
                        out.push((v, u as u8));
                    }
                    Z3_model_dec_ref(self.ctx, m);
                    Res::Sat(out)
                }
                _ => { self.n_unknown += 1; Res::Unknown }
            };
            Z3_solver_pop(self.ctx, self.sol, 1);
            res
        };
        if let Res::Sat(ref o) = r {
            let mut m = vec![0u8; p.nvars as usize];
            for &(v, x) in o { m[v as usize] = x; }
            // the engine trusts models only after evaluating them
            p.begin_eval();
            for &c in &key { assert!(p.eval(c, &m) == 1, "z3 model does not satisfy the constraints (translation bug)"); }
            if self.recent.len() < 12 { self.recent.push(m); self.rix = self.recent.len() - 1; }
            else { self.rix = (self.rix + 1) % 12; self.recent[self.rix] = m; }
        }
        let dt = t0.elapsed().as_secs_f64();
        self.time += dt;
        if dt > self.max_query { self.max_query = dt; }
        if r != Res::Unknown { self.cache.insert(key, r.clone()); }
        r
    }
}
