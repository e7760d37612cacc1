//! Independent wire format writer and reader (RFC 1035 and the RFCs of the record types), used as
//! the oracle. Shares no code with the crate under test.
use crate::kit::*;

#[derive(Clone, Default)]
pub struct W(pub Vec<u8>);

impl W {
    pub fn new() -> Self {
        W(Vec::new())
    }
    pub fn u8(mut self, v: u8) -> Self {
        self.0.push(v);
        self
    }
    pub fn u16(mut self, v: u16) -> Self {
        self.0.push((v >> 8) as u8);
        self.0.push(v as u8);
        self
    }
    pub fn u32(mut self, v: u32) -> Self {
        self.0.push((v >> 24) as u8);
        self.0.push((v >> 16) as u8);
        self.0.push((v >> 8) as u8);
        self.0.push(v as u8);
        self
    }
    pub fn raw(mut self, b: &[u8]) -> Self {
        self.0.extend_from_slice(b);
        self
    }
    /// character-string
    pub fn cs(mut self, b: &[u8]) -> Self {
        self.0.push(b.len() as u8);
        self.0.extend_from_slice(b);
        self
    }
    pub fn name(mut self, n: &Labels) -> Self {
        for l in n {
            self.0.push(l.len() as u8);
            self.0.extend_from_slice(l);
        }
        self.0.push(0);
        self
    }
    /// resource record
    pub fn rr(self, owner: &Labels, ty: u16, class: u16, ttl: u32, rdata: &[u8]) -> Self {
        self.name(owner).u16(ty).u16(class).u32(ttl).u16(rdata.len() as u16).raw(rdata)
    }
}

pub type Labels = Vec<Vec<u8>>;

/// Symbolic labels with the given lengths.
pub fn labels(shape: &[usize]) -> Labels {
    shape.iter().map(|n| bytes(*n)).collect()
}

const SHAPES: [&[usize]; 6] = [&[], &[1], &[2, 1], &[1, 1, 2], &[63], &[63, 63, 63, 61]];

/// A symbolic name: the first `n` shapes of root, one to three short labels, a longest label, a longest name.
pub fn name(n: usize) -> Labels {
    labels(SHAPES[pick(n)])
}

pub fn name_len(n: &Labels) -> usize {
    n.iter().map(|l| l.len() + 1).sum::<usize>() + 1
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Malformed;

/// RFC 1035 4.1.4: decode the name at `pos`; returns the labels and the position after the name.
/// `strict` additionally demands that pointers refer to an earlier part of the message than the
/// labels read so far, which is what keeps the decoding finite.
pub fn decode_name(msg: &[u8], pos: usize) -> Result<(Labels, usize), Malformed> {
    let mut out = Labels::new();
    let mut p = pos;
    let mut end = None;
    let mut limit = pos;
    loop {
        if p >= msg.len() {
            return Err(Malformed);
        }
        let b = msg[p];
        if b == 0 {
            return Ok((out, end.unwrap_or(p + 1)));
        } else if b >= 0xc0 {
            if p + 1 >= msg.len() {
                return Err(Malformed);
            }
            let t = (b as usize - 0xc0) * 256 + msg[p + 1] as usize;
            if end.is_none() {
                end = Some(p + 2);
            }
            if t >= limit {
                return Err(Malformed);
            }
            limit = t;
            p = t;
        } else if b < 64 {
            let l = b as usize;
            if p + 1 + l > msg.len() {
                return Err(Malformed);
            }
            out.push(msg[p + 1..p + 1 + l].to_vec());
            p += 1 + l;
        } else {
            return Err(Malformed);
        }
    }
}

fn be16(b: &[u8], p: usize) -> Option<u16> {
    if p + 2 > b.len() {
        return None;
    }
    Some((b[p] as u16) << 8 | b[p + 1] as u16)
}

/// Positions of the names inside the RDATA of the types this crate compresses: (skip, count)
fn rdata_names(ty: u16, rd: &[u8]) -> (usize, usize) {
    match ty {
        2 | 5 | 12 | 47 => (0, 1),
        6 | 14 => (0, 2),
        15 => (2, 1),
        33 => (6, 1),
        35 => {
            let mut p = 4;
            for _ in 0..3 {
                if p < rd.len() {
                    p += 1 + rd[p] as usize;
                }
            }
            (p, 1)
        }
        _ => (0, 0),
    }
}

/// Walks a whole message and returns its uncompressed form; None if it is malformed.
pub fn expand(msg: &[u8]) -> Option<Vec<u8>> {
    if msg.len() < 12 {
        return None;
    }
    let mut out = W::new().raw(&msg[..12]);
    let mut p = 12;
    for _ in 0..be16(msg, 4)? {
        let (n, e) = decode_name(msg, p).ok()?;
        if e + 4 > msg.len() {
            return None;
        }
        out = out.name(&n).raw(&msg[e..e + 4]);
        p = e + 4;
    }
    let rrs = be16(msg, 6)? as usize + be16(msg, 8)? as usize + be16(msg, 10)? as usize;
    for _ in 0..rrs {
        let (n, e) = decode_name(msg, p).ok()?;
        if e + 10 > msg.len() {
            return None;
        }
        let ty = be16(msg, e)?;
        let len = be16(msg, e + 8)? as usize;
        let start = e + 10;
        let end = start + len;
        if end > msg.len() {
            return None;
        }
        let (skip, count) = rdata_names(ty, &msg[start..end]);
        let mut rd = W::new().raw(&msg[start..start + skip]);
        let mut q = start + skip;
        for _ in 0..count {
            let (n, e) = decode_name(&msg[..end], q).ok()?;
            rd = rd.name(&n);
            q = e;
        }
        rd = rd.raw(&msg[q..end]);
        out = out.name(&n).raw(&msg[e..e + 8]).u16(rd.0.len() as u16).raw(&rd.0);
        p = end;
    }
    if p != msg.len() {
        return None;
    }
    Some(out.0)
}
