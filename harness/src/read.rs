//! An independent reader of RDATA: for any octets, whether they are RDATA of a type and how that RDATA
//! is written in full (names expanded, what the crate's values can not hold left out).
use crate::kit::*;
use crate::props;
use crate::spec::*;
use crate::wire::*;
use maybe_dns::rdata::*;
use maybe_dns::*;

#[derive(PartialEq)]
enum Verdict {
    /// not RDATA of this type
    Reject,
    /// the RDATA in full
    Is(Vec<u8>),
    /// the same, with octets after it: may be rejected
    Longer(Vec<u8>),
    /// malformed in a way nobody promises anything about, or assigned but not supported here
    Open,
}
use Verdict::*;

struct R<'a> {
    m: &'a [u8],
    p: usize,
    bad: bool,
    open: bool,
    out: Vec<u8>,
}

impl R<'_> {
    fn left(&self) -> usize {
        if self.bad { 0 } else { self.m.len() - self.p }
    }
    /// the next n octets, without writing them
    fn skip(&mut self, n: usize) -> Vec<u8> {
        if self.bad || self.m.len() - self.p < n {
            self.bad = true;
            return vec![0; 0];
        }
        self.p += n;
        self.m[self.p - n..self.p].to_vec()
    }
    fn u8_(&mut self) -> u8 {
        let v = self.skip(1);
        if self.bad { 0 } else { v[0] }
    }
    fn u16_(&mut self) -> u16 {
        let v = self.skip(2);
        if self.bad { 0 } else { (v[0] as u16) << 8 | v[1] as u16 }
    }
    /// the next n octets, as they are
    fn copy(&mut self, n: usize) {
        let v = self.skip(n);
        self.out.extend_from_slice(&v);
    }
    fn copy8(&mut self) -> u8 {
        let v = self.u8_();
        self.out.push(v);
        v
    }
    fn copy16(&mut self) -> u16 {
        let v = self.u16_();
        self.out.extend_from_slice(&[(v >> 8) as u8, v as u8]);
        v
    }
    fn rest(&mut self) {
        self.copy(self.left());
    }
    fn cs(&mut self) {
        let n = self.copy8();
        self.copy(n as usize);
    }
    fn name(&mut self) {
        if self.bad {
            return;
        }
        match decode_name(self.m, self.p) {
            Ok((l, end)) => {
                self.p = end;
                self.out.extend_from_slice(&W::new().name(&l).0);
            }
            Err(_) => self.bad = true,
        }
    }
    fn must(&mut self, b: bool) {
        if !b {
            self.bad = true;
        }
    }
    fn lossy(&mut self, n: usize) {
        let v = self.skip(n);
        let s = String::from_utf8_lossy(&v).to_string();
        if s.len() > 255 {
            self.open = true;
        }
        self.out.push(s.len() as u8);
        self.out.extend_from_slice(s.as_bytes());
    }
    fn bitmap(&mut self) {
        let all = all_types();
        let mut set = [false; 512];
        let mut seen = [false; 256];
        while self.left() > 0 {
            let (w, n) = (self.u8_(), self.u8_());
            if n > 32 {
                self.bad = true;
            }
            let map = self.skip(n as usize);
            if self.bad {
                return;
            }
            seen[w as usize] = true;
            for (i, o) in map.iter().enumerate() {
                for b in 0..8 {
                    if o >> (7 - b) & 1 == 1 {
                        let t = w as usize * 256 + i * 8 + b;
                        if !all.iter().any(|x| x.0 as usize == t) {
                            self.bad = true;
                            return;
                        }
                        set[t] = true;
                    }
                }
            }
        }
        for w in 0..2 {
            if let Some(last) = (0..256).rev().find(|i| set[w * 256 + i]) {
                self.out.extend_from_slice(&[w as u8, last as u8 / 8 + 1]);
                for o in 0..=last / 8 {
                    let mut v = 0;
                    for b in 0..8 {
                        v = v << 1 | set[w * 256 + o * 8 + b] as u8;
                    }
                    self.out.push(v);
                }
            }
        }
    }
    fn svcb(&mut self) {
        self.copy(2);
        self.name();
        let mut last = None;
        while self.left() > 0 {
            let (k, n) = (self.copy16(), self.copy16());
            // the order of parameters that are not in order is nobody's promise
            if last.is_some_and(|l| l >= k) {
                self.open = true;
            }
            last = Some(k);
            let v = self.skip(n as usize);
            if self.bad {
                return;
            }
            match k {
                0 => {
                    let mut prev = None;
                    if v.len() % 2 != 0 {
                        self.bad = true;
                        return;
                    }
                    for i in 0..v.len() / 2 {
                        let x = (v[2 * i] as u16) << 8 | v[2 * i + 1] as u16;
                        if x > 6 && x < 65280 {
                            self.open = true;
                        }
                        if prev.is_some_and(|p| p >= x) {
                            self.open = true;
                        }
                        prev = Some(x);
                    }
                }
                1 => {
                    let mut p = 0;
                    while p < v.len() {
                        p += 1 + v[p] as usize;
                    }
                    self.must(p == v.len());
                }
                2 => self.must(v.is_empty()),
                3 => self.must(v.len() == 2),
                4 | 6 => {
                    let a = if k == 4 { 4 } else { 16 };
                    if v.len() > a && v.len() % a == 0 {
                        self.open = true; // several addresses: not supported
                    } else {
                        self.must(v.len() == a);
                    }
                }
                7..=65279 => self.open = true,
                65535 => self.must(v.is_empty()),
                _ => (),
            }
            self.out.extend_from_slice(&v);
        }
    }
}

fn verdict(ty: u16, m: &[u8], start: usize) -> Verdict {
    let mut r = R { m, p: start, bad: false, open: false, out: vec![] };
    match ty {
        1 => r.copy(4),
        28 => r.copy(16),
        2 | 5 | 12 => r.name(),
        6 => {
            r.name();
            r.name();
            r.copy(20);
        }
        10 | 61 => r.rest(),
        11 => {
            r.copy(5);
            r.rest();
        }
        13 => {
            r.cs();
            r.cs();
        }
        14 => {
            r.name();
            r.name();
        }
        15 => {
            r.copy(2);
            r.name();
        }
        16 => {
            while r.left() > 0 {
                let n = r.u8_();
                r.lossy(n as usize);
            }
        }
        29 => r.copy(16),
        33 => {
            r.copy(6);
            r.name();
        }
        35 => {
            r.copy(4);
            let n = r.u8_();
            let mut f = r.skip(n as usize);
            f.retain(|c| matches!(c, b'S' | b'A' | b'U' | b'P'));
            r.out.push(f.len() as u8);
            r.out.extend_from_slice(&f);
            r.cs();
            let n = r.copy8();
            let t = r.skip(n as usize);
            r.must(std::str::from_utf8(&t).is_ok());
            r.out.extend_from_slice(&t);
            r.name();
        }
        41 => {
            while r.left() > 0 {
                r.copy(2);
                let n = r.copy16();
                r.copy(n as usize);
            }
        }
        42 => {
            let f = r.copy16();
            r.copy(1);
            let b = r.u8_();
            let mut a = r.skip((b & 127) as usize);
            let full = if f == 1 { 4 } else { 16 };
            r.must(f == 1 || f == 2);
            r.must(a.len() <= full);
            a.resize(full, 0);
            r.out.push(b & 128 | full as u8);
            r.out.extend_from_slice(&a);
            if r.left() > 0 {
                r.open = true; // several items: not supported
            }
        }
        43 | 59 => {
            r.copy(2);
            let a = r.copy8();
            let d = r.copy8();
            r.must(ALGS.contains(&a));
            r.must(matches!(d, 1 | 2 | 4 | 5));
            r.rest();
        }
        44 => {
            let a = r.copy8();
            let f = r.copy8();
            if a == 6 || f == 2 {
                r.open = true; // assigned: Ed448 (RFC 8709), SHA-256 (RFC 6594)
            }
            r.must(a < 6 && f < 2);
            r.rest();
        }
        45 => {
            r.copy(1);
            let g = r.copy8();
            let a = r.copy8();
            r.must(a < 6 && g < 4);
            match g {
                0 => {
                    r.skip(1);
                    r.out.push(b'.');
                }
                1 => r.copy(4),
                2 => r.copy(16),
                _ => r.name(),
            }
            r.rest();
        }
        46 => {
            let t = r.copy16();
            let a = r.copy8();
            r.must(all_types().iter().any(|x| x.0 == t));
            r.must(ALGS.contains(&a));
            r.copy(15);
            r.name();
            r.rest();
        }
        47 => {
            r.name();
            r.bitmap();
        }
        48 | 60 => {
            let f = r.u16_();
            r.out.extend_from_slice(&[(f >> 8) as u8 & 1, f as u8 & 1]);
            r.copy(1);
            let a = r.copy8();
            r.must(ALGS.contains(&a));
            r.rest();
        }
        49 => {
            let i = r.copy16();
            let d = r.copy8();
            r.must(i < 3 && d == 1);
            r.rest();
        }
        52 => {
            let (u, s, t) = (r.copy8(), r.copy8(), r.copy8());
            r.must(u < 4 && s < 2 && t < 3);
            r.rest();
        }
        55 => {
            let h = r.copy8();
            let a = r.copy8();
            r.must(a < 6);
            let k = r.copy16();
            r.copy(h as usize);
            r.copy(k as usize);
            while r.left() > 0 {
                r.name();
            }
        }
        62 => {
            r.copy(4);
            let f = r.copy16();
            r.must(f < 4);
            r.bitmap();
        }
        64 => r.svcb(),
        108 => r.copy(6),
        109 => r.copy(8),
        249 => {
            r.name();
            r.copy(8);
            let m = r.copy16();
            let e = r.copy16();
            r.must(m != 0 && m != 65535 && e < 22);
            let n = r.copy16();
            r.copy(n as usize);
            let n = r.copy16();
            r.copy(n as usize);
        }
        250 => {
            r.name();
            r.copy(8);
            let n = r.copy16();
            r.copy(n as usize);
            r.copy(2);
            let e = r.copy16();
            r.must(matches!(e, 0 | 16 | 17 | 18 | 22));
            let n = r.copy16();
            r.copy(n as usize);
        }
        256 => {
            r.copy(4);
            r.rest();
        }
        257 => {
            let f = r.u8_();
            r.out.push(f & 128);
            let n = r.u8_();
            r.must(n != 0);
            r.lossy(n as usize);
            r.rest();
        }
        _ => r.bad = true,
    }
    if r.open {
        Open
    } else if r.bad {
        Reject
    } else if r.left() > 0 {
        Longer(r.out)
    } else {
        Is(r.out)
    }
}

/// The RDATA in full of the record at `at` of the message `m`, its last one, if it has one.
pub fn verdict_of(m: &[u8], at: usize) -> Option<Vec<u8>> {
    let n = (m[at + 9] as usize) << 8 | m[at + 10] as usize;
    if m.len() - at - 11 < n {
        return None;
    }
    let n = concretize(n);
    match verdict((m[at + 1] as u16) << 8 | m[at + 2] as u16, &m[..at + 11 + n], at + 11) {
        Is(w) | Longer(w) => Some(w),
        _ => None,
    }
}

fn options(w: &[u8]) -> Vec<(u16, &[u8])> {
    let mut v: Vec<(u16, &[u8])> = vec![];
    let mut i = 0;
    while i < w.len() {
        let c = (w[i] as u16) << 8 | w[i + 1] as u16;
        let l = (w[i + 2] as usize) << 8 | w[i + 3] as usize;
        // of equal codes the last one stays
        v.retain(|x| x.0 != c);
        v.push((c, &w[i + 4..i + 4 + l]));
        i += 4 + l;
    }
    v
}

/// Whether two RDATA of a type say the same.
pub fn same(ty: u16, a: &[u8], b: &[u8]) -> bool {
    if ty != 41 {
        return a == b;
    }
    let (a, b) = (options(a), options(b));
    a.len() == b.len() && a.iter().all(|x| b.contains(x))
}

/// The record at `at` of the message `m` (owner: one octet), its only one: the packet is accepted
/// exactly if its RDATA is what its type asks for, and then is written as such.
#[inline(never)]
pub fn reads(m: &[u8], at: usize) {
    let ty = (m[at + 1] as u16) << 8 | m[at + 2] as u16;
    let n = (m[at + 9] as usize) << 8 | m[at + 10] as usize;
    let start = at + 11;
    let p = Packet::try_from(m);
    if m.len() - start < n {
        cover("too long");
        return check(p.is_err(), "RDATA beyond the message is rejected");
    }
    // a view of the message that ends with the RDATA
    let n = concretize(n);
    match (verdict(ty, &m[..start + n], start), p) {
        (Open, _) => cover("open"),
        (Reject, p) => {
            cover("rejected");
            check(p.is_err(), "octets that are not RDATA of the type are rejected");
        }
        (Is(_), Err(_)) => check(false, "RDATA of the type is accepted"),
        (Longer(_), Err(_)) => cover("longer"),
        (Is(w) | Longer(w), Ok(p)) => {
            cover("accepted");
            let d = p.answers()[0].data();
            match d {
                RecordData::OPT(o) => {
                    // of equal codes one may stay
                    let mut i = 0;
                    let mut known = 0;
                    while i < w.len() {
                        let c = (w[i] as u16) << 8 | w[i + 1] as u16;
                        let l = (w[i + 2] as usize) << 8 | w[i + 3] as usize;
                        match o.0.get(&c) {
                            Some(v) => known += (v[..] == w[i + 4..i + 4 + l]) as usize,
                            None => check(false, "no option is lost"),
                        }
                        i += 4 + l;
                    }
                    check(known >= o.0.len(), "no option is made up");
                }
                _ => check(d.to_bytes() == w, "the RDATA in full"),
            }
        }
    }
}

const ALGS: [u8; 12] = [1, 3, 5, 8, 10, 13, 14, 15, 16, 252, 253, 254];

/// A record of type param(0) with any param(1) octets of RDATA; param(2) as param(4) of h_any_rdata.
#[no_mangle]
pub extern "C" fn h_read() {
    reads(&props::rdata_msg(param(0) as u16, param(1), 0, param(2)), 12);
}
