//! Hash-consed bit-vector expressions. Every symbolic variable is one byte wide.
use crate::fx::Map;
use std::rc::Rc;

pub type Ex = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Node {
    Const(u128),
    Var(u32),
    Add(Ex, Ex),
    Sub(Ex, Ex),
    Mul(Ex, Ex),
    UDiv(Ex, Ex),
    SDiv(Ex, Ex),
    URem(Ex, Ex),
    SRem(Ex, Ex),
    And(Ex, Ex),
    Or(Ex, Ex),
    Xor(Ex, Ex),
    Shl(Ex, Ex),
    LShr(Ex, Ex),
    AShr(Ex, Ex),
    Eq(Ex, Ex),
    Ult(Ex, Ex),
    Ule(Ex, Ex),
    Slt(Ex, Ex),
    Sle(Ex, Ex),
    Ite(Ex, Ex, Ex),
    Concat(Ex, Ex), // high, low
    Extract(Ex, u32), // low bit; width from the node's width
    ZExt(Ex),
    SExt(Ex),
}

pub fn mask(w: u32) -> u128 {
    if w >= 128 { u128::MAX } else { (1u128 << w) - 1 }
}
pub fn sext128(v: u128, w: u32) -> i128 {
    if w >= 128 { return v as i128; }
    let s = 128 - w;
    ((v << s) as i128) >> s
}

pub struct Pool {
    pub nodes: Vec<(Node, u32)>,
    map: Map<(Node, u32), Ex>,
    vars_memo: Map<Ex, Rc<Vec<u32>>>,
    ev_stamp: Vec<u32>,
    ev_val: Vec<u128>,
    stamp: u32,
    pub nvars: u32,
}

impl Pool {
    pub fn new() -> Self {
        Pool { nodes: Vec::new(), map: Map::default(), vars_memo: Map::default(), ev_stamp: vec![], ev_val: vec![], stamp: 0, nvars: 0 }
    }
    fn mk(&mut self, n: Node, w: u32) -> Ex {
        if let Some(&e) = self.map.get(&(n, w)) { return e; }
        let e = self.nodes.len() as Ex;
        self.nodes.push((n, w));
        self.map.insert((n, w), e);
        e
    }
    #[inline]
    pub fn w(&self, e: Ex) -> u32 { self.nodes[e as usize].1 }
    #[inline]
    pub fn n(&self, e: Ex) -> Node { self.nodes[e as usize].0 }
    #[inline]
    pub fn as_const(&self, e: Ex) -> Option<u128> {
        if let Node::Const(c) = self.nodes[e as usize].0 { Some(c) } else { None }
    }
    pub fn cst(&mut self, v: u128, w: u32) -> Ex { self.mk(Node::Const(v & mask(w)), w) }
    pub fn t(&mut self) -> Ex { self.cst(1, 1) }
    pub fn f(&mut self) -> Ex { self.cst(0, 1) }
    pub fn fresh_var(&mut self) -> Ex {
        let v = self.nvars;
        self.nvars += 1;
        self.mk(Node::Var(v), 8)
    }
    pub fn var(&mut self, id: u32) -> Ex { self.mk(Node::Var(id), 8) }

    pub fn not1(&mut self, a: Ex) -> Ex {
        debug_assert_eq!(self.w(a), 1);
        match self.n(a) {
            Node::Const(c) => self.cst(c ^ 1, 1),
            Node::Ult(x, y) => self.mk(Node::Ule(y, x), 1),
            Node::Ule(x, y) => self.mk(Node::Ult(y, x), 1),
            Node::Slt(x, y) => self.mk(Node::Sle(y, x), 1),
            Node::Sle(x, y) => self.mk(Node::Slt(y, x), 1),
            Node::Xor(x, y) if self.as_const(y) == Some(1) => x,
            _ => { let o = self.cst(1, 1); self.mk(Node::Xor(a, o), 1) }
        }
    }

    pub fn add(&mut self, mut a: Ex, mut b: Ex) -> Ex {
        let w = self.w(a);
        if self.as_const(a).is_some() { std::mem::swap(&mut a, &mut b); }
        match (self.as_const(a), self.as_const(b)) {
            (Some(x), Some(y)) => return self.cst(x.wrapping_add(y), w),
            (None, Some(0)) => return a,
            (None, Some(y)) => {
                if let Node::Add(p, q) = self.n(a) {
                    if let Some(z) = self.as_const(q) {
                        let c = self.cst(z.wrapping_add(y), w);
                        return self.add(p, c);
                    }
                }
            }
            _ => {
                // (x + c) + y  ->  (x + y) + c
                if let Node::Add(p, q) = self.n(a) {
                    if self.as_const(q).is_some() { let s = self.add(p, b); return self.add(s, q); }
                }
                if let Node::Add(p, q) = self.n(b) {
                    if self.as_const(q).is_some() { let s = self.add(a, p); return self.add(s, q); }
                }
                // (x - y) + y
                if let Node::Sub(p, q) = self.n(a) { if q == b { return p; } }
                if let Node::Sub(p, q) = self.n(b) { if q == a { return p; } }
                if let Some(e) = self.linear(a, b) { return e; }
                if a > b { std::mem::swap(&mut a, &mut b); }
            }
        }
        self.mk(Node::Add(a, b), w)
    }

    /// A sum of several parts in one canonical form, so that sums over the same octets are the same term however they
    /// were grouped. None for short sums, which stay as they are.
    fn linear(&mut self, a: Ex, b: Ex) -> Option<Ex> {
        let w = self.w(a);
        let (mut parts, mut c) = (Vec::new(), 0u128);
        if !self.parts(a, 1, w, &mut parts, &mut c) || !self.parts(b, 1, w, &mut parts, &mut c) || parts.len() < 5 { return None; }
        parts.sort();
        let mut sum: Vec<(Ex, u128)> = Vec::with_capacity(parts.len());
        for (e, k) in parts {
            match sum.last_mut() {
                Some(l) if l.0 == e => l.1 = l.1.wrapping_add(k) & mask(w),
                _ => sum.push((e, k)),
            }
        }
        sum.retain(|x| x.1 != 0);
        if sum.len() < 5 { return None; }
        let mut acc: Option<Ex> = None;
        for (e, k) in sum {
            let z = self.zext(e, w);
            let t = if k == 1 { z } else if k.is_power_of_two() {
                let s = self.cst(k.trailing_zeros() as u128, w);
                self.shl(z, s)
            } else {
                let f = self.cst(k, w);
                self.mul(z, f)
            };
            acc = Some(match acc { None => t, Some(x) => self.mk(Node::Add(x, t), w) });
        }
        let c = c & mask(w);
        let acc = acc?;
        if c == 0 { return Some(acc); }
        let c = self.cst(c, w);
        Some(self.mk(Node::Add(acc, c), w))
    }
    /// `e` (zero-extended to `w` bits) times `k` as a sum; false if there are too many parts
    fn parts(&self, e: Ex, k: u128, w: u32, out: &mut Vec<(Ex, u128)>, c: &mut u128) -> bool {
        let k = k & mask(w);
        if k == 0 { return true; }
        match self.n(e) {
            Node::Const(v) => { *c = c.wrapping_add(v.wrapping_mul(k)); true }
            Node::Add(p, q) if self.w(e) == w => self.parts(p, k, w, out, c) && self.parts(q, k, w, out, c),
            Node::Mul(p, q) if self.w(e) == w && self.as_const(q).is_some() => {
                let f = self.as_const(q).unwrap();
                self.parts(p, k.wrapping_mul(f), w, out, c)
            }
            Node::Concat(h, l) => {
                let s = self.w(l);
                (s >= w || self.parts(h, k.wrapping_shl(s), w, out, c)) && self.parts(l, k, w, out, c)
            }
            Node::ZExt(x) => self.parts(x, k, w, out, c),
            _ => { out.push((e, k)); out.len() <= 80 }
        }
    }
    pub fn sub(&mut self, a: Ex, b: Ex) -> Ex {
        let w = self.w(a);
        if a == b { return self.cst(0, w); }
        if let Some(y) = self.as_const(b) {
            let c = self.cst(0u128.wrapping_sub(y), w);
            return self.add(a, c);
        }
        if let Node::Add(p, q) = self.n(a) {
            if p == b { return q; }
            if q == b { return p; }
            if self.as_const(q).is_some() { let s = self.sub(p, b); return self.add(s, q); }
        }
        if let Node::Add(p, q) = self.n(b) {
            if let Some(z) = self.as_const(q) {
                let s = self.sub(a, p);
                let c = self.cst(0u128.wrapping_sub(z), w);
                return self.add(s, c);
            }
        }
        self.mk(Node::Sub(a, b), w)
    }
    pub fn mul(&mut self, mut a: Ex, mut b: Ex) -> Ex {
        let w = self.w(a);
        if self.as_const(a).is_some() { std::mem::swap(&mut a, &mut b); }
        match (self.as_const(a), self.as_const(b)) {
            (Some(x), Some(y)) => return self.cst(x.wrapping_mul(y), w),
            (None, Some(0)) => return b,
            (None, Some(1)) => return a,
            (None, Some(y)) if y.is_power_of_two() => {
                let s = self.cst(y.trailing_zeros() as u128, w);
                return self.shl(a, s);
            }
            _ => {}
        }
        self.mk(Node::Mul(a, b), w)
    }
    pub fn udiv(&mut self, a: Ex, b: Ex) -> Ex {
        let w = self.w(a);
        match (self.as_const(a), self.as_const(b)) {
            (Some(x), Some(y)) if y != 0 => return self.cst(x / y, w),
            (_, Some(1)) => return a,
            (None, Some(y)) if y.is_power_of_two() => {
                let s = self.cst(y.trailing_zeros() as u128, w);
                return self.lshr(a, s);
            }
            _ => {}
        }
        self.mk(Node::UDiv(a, b), w)
    }
    pub fn urem(&mut self, a: Ex, b: Ex) -> Ex {
        let w = self.w(a);
        match (self.as_const(a), self.as_const(b)) {
            (Some(x), Some(y)) if y != 0 => return self.cst(x % y, w),
            (None, Some(y)) if y.is_power_of_two() => {
                let s = self.cst(y - 1, w);
                return self.and(a, s);
            }
            _ => {}
        }
        self.mk(Node::URem(a, b), w)
    }
    pub fn sdiv(&mut self, a: Ex, b: Ex) -> Ex {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.as_const(a), self.as_const(b)) {
            let (x, y) = (sext128(x, w), sext128(y, w));
            if y != 0 { return self.cst(x.wrapping_div(y) as u128, w); }
        }
        self.mk(Node::SDiv(a, b), w)
    }
    pub fn srem(&mut self, a: Ex, b: Ex) -> Ex {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.as_const(a), self.as_const(b)) {
            let (x, y) = (sext128(x, w), sext128(y, w));
            if y != 0 { return self.cst(x.wrapping_rem(y) as u128, w); }
        }
        self.mk(Node::SRem(a, b), w)
    }
    /// Splits a mask into maximal runs of ones: (lo, len)
    fn runs(m: u128, w: u32) -> Vec<(u32, u32)> {
        let mut v = vec![];
        let mut i = 0;
        while i < w {
            if (m >> i) & 1 == 1 {
                let s = i;
                while i < w && (m >> i) & 1 == 1 { i += 1; }
                v.push((s, i - s));
            } else { i += 1; }
        }
        v
    }
    pub fn and(&mut self, mut a: Ex, mut b: Ex) -> Ex {
        let w = self.w(a);
        if a == b { return a; }
        if self.as_const(a).is_some() { std::mem::swap(&mut a, &mut b); }
        match (self.as_const(a), self.as_const(b)) {
            (Some(x), Some(y)) => return self.cst(x & y, w),
            (None, Some(0)) => return b,
            (None, Some(y)) if y == mask(w) => return a,
            (None, Some(y)) => {
                if let Node::And(p, q) = self.n(a) {
                    if let Some(z) = self.as_const(q) { let c = self.cst(z & y, w); return self.and(p, c); }
                }
                // structural: mask over concat / zext / shl, so masks become slices
                match self.n(a) {
                    Node::Concat(h, l) => {
                        let lw = self.w(l);
                        let hm = self.cst(y >> lw, w - lw);
                        let lm = self.cst(y, lw);
                        let h2 = self.and(h, hm);
                        let l2 = self.and(l, lm);
                        return self.concat(h2, l2);
                    }
                    Node::ZExt(x) => {
                        let xw = self.w(x);
                        let m = self.cst(y, xw);
                        let x2 = self.and(x, m);
                        return self.zext(x2, w);
                    }
                    _ => {}
                }
                let r = Self::runs(y, w);
                if r.len() == 1 && w > 1 {
                    let (lo, len) = r[0];
                    let mut e = self.extract(a, lo, len);
                    if lo > 0 { let z = self.cst(0, lo); e = self.concat(e, z); }
                    return self.zext(e, w);
                }
            }
            _ => {
                if w == 1 {
                    // a & !a
                    if self.not1(a) == b { return self.cst(0, 1); }
                }
                if a > b { std::mem::swap(&mut a, &mut b); }
            }
        }
        self.mk(Node::And(a, b), w)
    }
    pub fn or(&mut self, mut a: Ex, mut b: Ex) -> Ex {
        let w = self.w(a);
        if a == b { return a; }
        if self.as_const(a).is_some() { std::mem::swap(&mut a, &mut b); }
        match (self.as_const(a), self.as_const(b)) {
            (Some(x), Some(y)) => return self.cst(x | y, w),
            (None, Some(0)) => return a,
            (None, Some(y)) if y == mask(w) => return b,
            _ => {}
        }
        if w == 1 && self.as_const(b).is_none() && self.not1(a) == b { return self.cst(1, 1); }
        if w > 1 {
            // disjoint or: try to merge as concatenation when the known-zero parts complement each other
            if let Some(e) = self.or_concat(a, b, w) { return e; }
            if let Some(e) = self.or_concat(b, a, w) { return e; }
        }
        if self.as_const(b).is_none() && a > b { std::mem::swap(&mut a, &mut b); }
        self.mk(Node::Or(a, b), w)
    }
    /// a has its low k bits zero (a = concat(h, 0_k)), b is a zext of something of width <= k
    fn or_concat(&mut self, a: Ex, b: Ex, w: u32) -> Option<Ex> {
        let k = self.low_zeros(a);
        if k == 0 || k >= w { return None; }
        let bw = self.active_bits(b);
        if bw > k { return None; }
        let h = self.extract(a, k, w - k);
        let l = self.extract(b, 0, k);
        Some(self.concat(h, l))
    }
    fn low_zeros(&self, a: Ex) -> u32 {
        match self.n(a) {
            Node::Const(c) => if c == 0 { self.w(a) } else { c.trailing_zeros() },
            Node::Concat(h, l) => {
                let z = self.low_zeros(l);
                if z == self.w(l) { z + self.low_zeros(h) } else { z }
            }
            Node::ZExt(x) => { let z = self.low_zeros(x); if z == self.w(x) { self.w(a) } else { z } }
            _ => 0,
        }
    }
    fn active_bits(&self, a: Ex) -> u32 {
        match self.n(a) {
            Node::Const(c) => 128 - c.leading_zeros(),
            Node::ZExt(x) => self.active_bits(x),
            Node::Concat(h, l) => { let hb = self.active_bits(h); if hb == 0 { self.active_bits(l) } else { hb + self.w(l) } }
            Node::Ite(_, x, y) => self.active_bits(x).max(self.active_bits(y)),
            _ => self.w(a),
        }
    }
    pub fn xor(&mut self, mut a: Ex, mut b: Ex) -> Ex {
        let w = self.w(a);
        if a == b { return self.cst(0, w); }
        if self.as_const(a).is_some() { std::mem::swap(&mut a, &mut b); }
        match (self.as_const(a), self.as_const(b)) {
            (Some(x), Some(y)) => return self.cst(x ^ y, w),
            (None, Some(0)) => return a,
            (None, Some(1)) if w == 1 => return self.not1(a),
            (None, Some(y)) => {
                if let Node::Xor(p, q) = self.n(a) {
                    if let Some(z) = self.as_const(q) { let c = self.cst(z ^ y, w); return self.xor(p, c); }
                }
            }
            _ => { if a > b { std::mem::swap(&mut a, &mut b); } }
        }
        self.mk(Node::Xor(a, b), w)
    }
    pub fn shl(&mut self, a: Ex, b: Ex) -> Ex {
        let w = self.w(a);
        if let Some(s) = self.as_const(b) {
            if s == 0 { return a; }
            if s >= w as u128 { return self.cst(0, w); }
            let s = s as u32;
            let lo = self.extract(a, 0, w - s);
            let z = self.cst(0, s);
            return self.concat(lo, z);
        }
        if self.as_const(a) == Some(0) { return a; }
        self.mk(Node::Shl(a, b), w)
    }
    pub fn lshr(&mut self, a: Ex, b: Ex) -> Ex {
        let w = self.w(a);
        if let Some(s) = self.as_const(b) {
            if s == 0 { return a; }
            if s >= w as u128 { return self.cst(0, w); }
            let s = s as u32;
            let hi = self.extract(a, s, w - s);
            return self.zext(hi, w);
        }
        if self.as_const(a) == Some(0) { return a; }
        self.mk(Node::LShr(a, b), w)
    }
    pub fn ashr(&mut self, a: Ex, b: Ex) -> Ex {
        let w = self.w(a);
        if let Some(s) = self.as_const(b) {
            if s == 0 { return a; }
            let s = (s.min(w as u128 - 1)) as u32;
            let hi = self.extract(a, s, w - s);
            return self.sext(hi, w);
        }
        self.mk(Node::AShr(a, b), w)
    }
    pub fn eq(&mut self, mut a: Ex, mut b: Ex) -> Ex {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if a == b { return self.t(); }
        if self.as_const(a).is_some() { std::mem::swap(&mut a, &mut b); }
        match (self.as_const(a), self.as_const(b)) {
            (Some(_), Some(_)) => return self.f(),
            (None, Some(c)) => {
                if w == 1 { return if c == 1 { a } else { self.not1(a) }; }
                match self.n(a) {
                    Node::ZExt(x) => {
                        let xw = self.w(x);
                        if c > mask(xw) { return self.f(); }
                        let k = self.cst(c, xw);
                        return self.eq(x, k);
                    }
                    Node::SExt(x) => {
                        let xw = self.w(x);
                        if (sext128(c & mask(xw), xw) as u128) & mask(w) != c { return self.f(); }
                        let k = self.cst(c, xw);
                        return self.eq(x, k);
                    }
                    Node::Concat(h, l) => {
                        let lw = self.w(l);
                        let kh = self.cst(c >> lw, w - lw);
                        let kl = self.cst(c, lw);
                        let e1 = self.eq(h, kh);
                        if self.as_const(e1) == Some(0) { return e1; }
                        let e2 = self.eq(l, kl);
                        return self.and(e1, e2);
                    }
                    Node::Add(p, q) => if let Some(z) = self.as_const(q) {
                        let k = self.cst(c.wrapping_sub(z), w);
                        return self.eq(p, k);
                    },
                    Node::Xor(p, q) => if let Some(z) = self.as_const(q) {
                        let k = self.cst(c ^ z, w);
                        return self.eq(p, k);
                    },
                    Node::Ite(k, x, y) => {
                        let (cx, cy) = (self.as_const(x), self.as_const(y));
                        if cx.is_some() || cy.is_some() {
                            let ex = self.eq(x, b);
                            let ey = self.eq(y, b);
                            return self.ite(k, ex, ey);
                        }
                    }
                    _ => {}
                }
            }
            _ => {
                if let (Node::ZExt(x), Node::ZExt(y)) = (self.n(a), self.n(b)) {
                    let (wx, wy) = (self.w(x), self.w(y));
                    let m = wx.max(wy);
                    let x2 = self.zext(x, m);
                    let y2 = self.zext(y, m);
                    if m < w { return self.eq(x2, y2); }
                }
                if let (Node::Concat(h1, l1), Node::Concat(h2, l2)) = (self.n(a), self.n(b)) {
                    if self.w(l1) == self.w(l2) {
                        let e1 = self.eq(h1, h2);
                        let e2 = self.eq(l1, l2);
                        return self.and(e1, e2);
                    }
                }
                if a > b { std::mem::swap(&mut a, &mut b); }
            }
        }
        self.mk(Node::Eq(a, b), 1)
    }
    pub fn ne(&mut self, a: Ex, b: Ex) -> Ex { let e = self.eq(a, b); self.not1(e) }

    /// inclusive unsigned range, cheap over-approximation
    pub fn range(&self, a: Ex, depth: u32) -> (u128, u128) {
        let w = self.w(a);
        let full = (0, mask(w));
        if depth == 0 { return full; }
        match self.n(a) {
            Node::Const(c) => (c, c),
            Node::ZExt(x) => self.range(x, depth - 1),
            Node::Ite(_, x, y) => {
                let (l1, h1) = self.range(x, depth - 1);
                let (l2, h2) = self.range(y, depth - 1);
                (l1.min(l2), h1.max(h2))
            }
            Node::Add(x, y) => {
                let (l1, h1) = self.range(x, depth - 1);
                let (l2, h2) = self.range(y, depth - 1);
                // treat constants "negative" carefully: only when no wrap is possible or always wraps
                match h1.checked_add(h2) {
                    Some(h) if h <= mask(w) => (l1 + l2, h),
                    _ => {
                        if w < 128 {
                            let m = 1u128 << w;
                            let lo = l1 + l2;
                            let hi = h1 + h2;
                            if lo >= m && hi < 2 * m { return (lo - m, hi - m); }
                        }
                        full
                    }
                }
            }
            Node::Mul(x, y) => {
                let (l1, h1) = self.range(x, depth - 1);
                let (l2, h2) = self.range(y, depth - 1);
                match h1.checked_mul(h2) { Some(h) if h <= mask(w) => (l1 * l2, h), _ => full }
            }
            Node::Concat(h, l) => {
                let lw = self.w(l);
                let (a1, b1) = self.range(h, depth - 1);
                let (a2, b2) = self.range(l, depth - 1);
                ((a1 << lw) | a2, (b1 << lw) | b2)
            }
            Node::And(x, y) => {
                let (_, h1) = self.range(x, depth - 1);
                let (_, h2) = self.range(y, depth - 1);
                (0, h1.min(h2))
            }
            Node::URem(_, y) => match self.as_const(y) { Some(c) if c > 0 => (0, c - 1), _ => full },
            Node::UDiv(x, y) => match self.as_const(y) { Some(c) if c > 0 => { let (l, h) = self.range(x, depth - 1); (l / c, h / c) } _ => full },
            _ => full,
        }
    }
    pub fn ult(&mut self, a: Ex, b: Ex) -> Ex {
        if a == b { return self.f(); }
        let w = self.w(a);
        let (l1, h1) = self.range(a, 6);
        let (l2, h2) = self.range(b, 6);
        if h1 < l2 { return self.t(); }
        if l1 >= h2 { return self.f(); }
        if let (Some(0), _) = (self.as_const(a), 0) { let z = self.cst(0, w); return self.ne(b, z); }
        if self.as_const(b) == Some(1) { let z = self.cst(0, w); return self.eq(a, z); }
        if let Some(e) = self.narrow_cmp(a, b, 0) { return e; }
        self.mk(Node::Ult(a, b), 1)
    }
    pub fn ule(&mut self, a: Ex, b: Ex) -> Ex {
        let e = self.ult(b, a);
        self.not1(e)
    }
    fn narrow_cmp(&mut self, a: Ex, b: Ex, _k: u32) -> Option<Ex> {
        // zext(x) < const, const < zext(x), zext(x) < zext(y): compare at the narrow width
        let w = self.w(a);
        let wa = match self.n(a) { Node::ZExt(x) => self.w(x), Node::Const(c) => 128 - c.leading_zeros(), _ => w };
        let wb = match self.n(b) { Node::ZExt(x) => self.w(x), Node::Const(c) => 128 - c.leading_zeros(), _ => w };
        let m = wa.max(wb).max(1);
        if m < w {
            let x = self.extract(a, 0, m);
            let y = self.extract(b, 0, m);
            return Some(self.ult(x, y));
        }
        None
    }
    pub fn slt(&mut self, a: Ex, b: Ex) -> Ex {
        if a == b { return self.f(); }
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.as_const(a), self.as_const(b)) {
            return if sext128(x, w) < sext128(y, w) { self.t() } else { self.f() };
        }
        let half = 1u128 << (w - 1);
        let (l1, h1) = self.range(a, 6);
        let (l2, h2) = self.range(b, 6);
        if h1 < half && h2 < half { return self.ult(a, b); }
        if l1 >= half && l2 >= half { return self.ult(a, b); }
        if l1 >= half && h2 < half { return self.t(); }
        if h1 < half && l2 >= half { return self.f(); }
        // x <s 0  ->  top bit
        if self.as_const(b) == Some(0) { return self.extract(a, w - 1, 1); }
        if self.as_const(a) == Some(mask(w)) { let t = self.extract(b, w - 1, 1); return self.not1(t); }
        self.mk(Node::Slt(a, b), 1)
    }
    pub fn sle(&mut self, a: Ex, b: Ex) -> Ex { let e = self.slt(b, a); self.not1(e) }

    pub fn ite(&mut self, c: Ex, a: Ex, b: Ex) -> Ex {
        if a == b { return a; }
        match self.as_const(c) { Some(1) => return a, Some(_) => return b, None => {} }
        let w = self.w(a);
        if w == 1 {
            match (self.as_const(a), self.as_const(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not1(c),
                (Some(1), None) => return self.or(c, b),
                (Some(0), None) => { let n = self.not1(c); return self.and(n, b); }
                (None, Some(0)) => return self.and(c, a),
                (None, Some(1)) => { let n = self.not1(c); return self.or(n, a); }
                _ => {}
            }
        }
        if let Node::Xor(x, y) = self.n(c) {
            if self.as_const(y) == Some(1) { return self.ite(x, b, a); }
        }
        if let Node::Ite(c2, _, y) = self.n(b) { if c2 == c { return self.ite(c, a, y); } }
        if let Node::Ite(c2, x, _) = self.n(a) { if c2 == c { return self.ite(c, x, b); } }
        self.mk(Node::Ite(c, a, b), w)
    }
    pub fn concat(&mut self, h: Ex, l: Ex) -> Ex {
        let (hw, lw) = (self.w(h), self.w(l));
        if let (Some(x), Some(y)) = (self.as_const(h), self.as_const(l)) {
            return self.cst((x << lw) | y, hw + lw);
        }
        // adjacent extracts of one expression
        let he = if let Node::Extract(x, lo) = self.n(h) { Some((x, lo)) } else { None };
        if let Some((x, lo)) = he {
            if let Node::Extract(y, lo2) = self.n(l) {
                if x == y && lo2 + lw == lo { return self.extract(x, lo2, hw + lw); }
            }
            // l itself is the base's low part (full-width base extract is collapsed to base)
            if lo == lw && x == l { return x; }
            if let Node::Concat(m, rest) = self.n(l) {
                if let Node::Extract(y, lo2) = self.n(m) {
                    let mw = self.w(m);
                    if x == y && lo2 + mw == lo {
                        let e = self.extract(x, lo2, hw + mw);
                        return self.concat(e, rest);
                    }
                }
            }
        }
        // right-associate: concat(concat(a,b),c) = concat(a, concat(b,c))
        if let Node::Concat(p, q) = self.n(h) {
            let r = self.concat(q, l);
            return self.concat(p, r);
        }
        if self.as_const(h) == Some(0) { return self.zext(l, hw + lw); }
        // merge constants: concat(c1, concat(c2, x))
        if let (Some(c1), Node::Concat(p, q)) = (self.as_const(h), self.n(l)) {
            if let Some(c2) = self.as_const(p) {
                let pw = self.w(p);
                let c = self.cst((c1 << pw) | c2, hw + pw);
                return self.concat(c, q);
            }
        }
        self.mk(Node::Concat(h, l), hw + lw)
    }
    pub fn extract(&mut self, a: Ex, lo: u32, len: u32) -> Ex {
        let w = self.w(a);
        debug_assert!(lo + len <= w && len > 0, "extract {} {} of {}", lo, len, w);
        if lo == 0 && len == w { return a; }
        match self.n(a) {
            Node::Const(c) => return self.cst(c >> lo, len),
            Node::Extract(x, lo2) => return self.extract(x, lo + lo2, len),
            Node::Concat(h, l) => {
                let lw = self.w(l);
                if lo >= lw { return self.extract(h, lo - lw, len); }
                if lo + len <= lw { return self.extract(l, lo, len); }
                let hh = self.extract(h, 0, lo + len - lw);
                let ll = self.extract(l, lo, lw - lo);
                return self.concat(hh, ll);
            }
            Node::ZExt(x) => {
                let xw = self.w(x);
                if lo >= xw { return self.cst(0, len); }
                if lo + len <= xw { return self.extract(x, lo, len); }
                let e = self.extract(x, lo, xw - lo);
                return self.zext(e, len);
            }
            Node::SExt(x) => {
                let xw = self.w(x);
                if lo + len <= xw { return self.extract(x, lo, len); }
                if lo < xw {
                    let e = self.extract(x, lo, xw - lo);
                    return self.sext(e, len);
                }
                let s = self.extract(x, xw - 1, 1);
                return self.sext(s, len);
            }
            Node::And(x, y) => { let p = self.extract(x, lo, len); let q = self.extract(y, lo, len); return self.and(p, q); }
            Node::Or(x, y) => { let p = self.extract(x, lo, len); let q = self.extract(y, lo, len); return self.or(p, q); }
            Node::Xor(x, y) => { let p = self.extract(x, lo, len); let q = self.extract(y, lo, len); return self.xor(p, q); }
            Node::Ite(c, x, y) => { let p = self.extract(x, lo, len); let q = self.extract(y, lo, len); return self.ite(c, p, q); }
            Node::Add(x, y) if lo == 0 => { let p = self.extract(x, 0, len); let q = self.extract(y, 0, len); return self.add(p, q); }
            Node::Sub(x, y) if lo == 0 => { let p = self.extract(x, 0, len); let q = self.extract(y, 0, len); return self.sub(p, q); }
            Node::Mul(x, y) if lo == 0 => { let p = self.extract(x, 0, len); let q = self.extract(y, 0, len); return self.mul(p, q); }
            _ => {}
        }
        self.mk(Node::Extract(a, lo), len)
    }
    pub fn zext(&mut self, a: Ex, w: u32) -> Ex {
        let aw = self.w(a);
        if aw == w { return a; }
        match self.n(a) {
            Node::Const(c) => return self.cst(c, w),
            Node::ZExt(x) => return self.zext(x, w),
            _ => {}
        }
        self.mk(Node::ZExt(a), w)
    }
    pub fn sext(&mut self, a: Ex, w: u32) -> Ex {
        let aw = self.w(a);
        if aw == w { return a; }
        match self.n(a) {
            Node::Const(c) => return self.cst(sext128(c, aw) as u128, w),
            Node::ZExt(x) => return self.zext(x, w),
            Node::SExt(x) => return self.sext(x, w),
            _ => {}
        }
        self.mk(Node::SExt(a), w)
    }

    pub fn vars(&mut self, e: Ex) -> Rc<Vec<u32>> {
        if let Some(v) = self.vars_memo.get(&e) { return v.clone(); }
        // iterative post-order
        let mut stack = vec![(e, false)];
        while let Some((x, done)) = stack.pop() {
            if self.vars_memo.contains_key(&x) { continue; }
            let kids = self.kids(x);
            if !done {
                stack.push((x, true));
                for k in kids.iter().flatten() { if !self.vars_memo.contains_key(k) { stack.push((*k, false)); } }
            } else {
                let r = match self.n(x) {
                    Node::Var(v) => Rc::new(vec![v]),
                    _ => {
                        let sets: Vec<Rc<Vec<u32>>> = kids.iter().flatten().map(|k| self.vars_memo[k].clone()).filter(|s| !s.is_empty()).collect();
                        match sets.len() {
                            0 => Rc::new(vec![]),
                            1 => sets[0].clone(),
                            _ => {
                                let mut v: Vec<u32> = sets.iter().flat_map(|s| s.iter().copied()).collect();
                                v.sort_unstable();
                                v.dedup();
                                if v.len() == sets[0].len() { sets[0].clone() } else { Rc::new(v) }
                            }
                        }
                    }
                };
                self.vars_memo.insert(x, r);
            }
        }
        self.vars_memo[&e].clone()
    }
    pub fn kids(&self, e: Ex) -> [Option<Ex>; 3] {
        use Node::*;
        match self.n(e) {
            Const(_) | Var(_) => [None, None, None],
            Add(a, b) | Sub(a, b) | Mul(a, b) | UDiv(a, b) | SDiv(a, b) | URem(a, b) | SRem(a, b) | And(a, b) | Or(a, b)
            | Xor(a, b) | Shl(a, b) | LShr(a, b) | AShr(a, b) | Eq(a, b) | Ult(a, b) | Ule(a, b) | Slt(a, b) | Sle(a, b)
            | Concat(a, b) => [Some(a), Some(b), None],
            Ite(a, b, c) => [Some(a), Some(b), Some(c)],
            Extract(a, _) | ZExt(a) | SExt(a) => [Some(a), None, None],
        }
    }
    pub fn begin_eval(&mut self) { self.stamp += 1; }
    /// Evaluate under a model (var -> byte). begin_eval() must be called when the model changes.
    pub fn eval(&mut self, e: Ex, model: &[u8]) -> u128 {
        let n = self.nodes.len();
        if self.ev_stamp.len() < n { self.ev_stamp.resize(n + 1024, 0); self.ev_val.resize(n + 1024, 0); }
        let st = self.stamp;
        if self.ev_stamp[e as usize] == st { return self.ev_val[e as usize]; }
        let mut stack = vec![e];
        while let Some(&x) = stack.last() {
            if self.ev_stamp[x as usize] == st { stack.pop(); continue; }
            let kids = self.kids(x);
            let mut ready = true;
            for k in kids.iter().flatten() {
                if self.ev_stamp[*k as usize] != st { stack.push(*k); ready = false; }
            }
            if !ready { continue; }
            let (node, w) = self.nodes[x as usize];
            let v = |k: Ex| self.ev_val[k as usize];
            let m = mask(w);
            use Node::*;
            let r = match node {
                Const(c) => c,
                Var(i) => *model.get(i as usize).unwrap_or(&0) as u128,
                Add(a, b) => v(a).wrapping_add(v(b)),
                Sub(a, b) => v(a).wrapping_sub(v(b)),
                Mul(a, b) => v(a).wrapping_mul(v(b)),
                UDiv(a, b) => if v(b) == 0 { m } else { v(a) / v(b) },
                URem(a, b) => if v(b) == 0 { v(a) } else { v(a) % v(b) },
                SDiv(a, b) => { let (p, q) = (sext128(v(a), w), sext128(v(b), w)); if q == 0 { if p < 0 { 1 } else { m } } else { p.wrapping_div(q) as u128 } }
                SRem(a, b) => { let (p, q) = (sext128(v(a), w), sext128(v(b), w)); if q == 0 { p as u128 } else { p.wrapping_rem(q) as u128 } }
                And(a, b) => v(a) & v(b),
                Or(a, b) => v(a) | v(b),
                Xor(a, b) => v(a) ^ v(b),
                Shl(a, b) => if v(b) >= w as u128 { 0 } else { v(a) << v(b) },
                LShr(a, b) => if v(b) >= w as u128 { 0 } else { v(a) >> v(b) },
                AShr(a, b) => { let s = v(b).min(w as u128 - 1); (sext128(v(a), w) >> s) as u128 }
                Eq(a, b) => (v(a) == v(b)) as u128,
                Ult(a, b) => (v(a) < v(b)) as u128,
                Ule(a, b) => (v(a) <= v(b)) as u128,
                Slt(a, b) => { let k = self.w(a); (sext128(v(a), k) < sext128(v(b), k)) as u128 }
                Sle(a, b) => { let k = self.w(a); (sext128(v(a), k) <= sext128(v(b), k)) as u128 }
                Ite(c, a, b) => if v(c) == 1 { v(a) } else { v(b) },
                Concat(h, l) => (v(h) << self.w(l)) | v(l),
                Extract(a, lo) => v(a) >> lo,
                ZExt(a) => v(a),
                SExt(a) => sext128(v(a), self.w(a)) as u128,
            } & m;
            self.ev_val[x as usize] = r;
            self.ev_stamp[x as usize] = st;
            stack.pop();
        }
        self.ev_val[e as usize]
    }
}
