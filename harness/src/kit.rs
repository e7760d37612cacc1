//! Interface between the harnesses and whoever runs them: the symbolic engine (which intercepts
//! the `symex_*` functions) or the native replay binary (which implements them over a file).
extern "C" {
    fn symex_make_symbolic(p: *mut u8, n: usize);
    fn symex_assume(b: bool);
    fn symex_check(b: bool, id: *const u8, n: usize);
    fn symex_cover(id: *const u8, n: usize);
    fn symex_param(i: u64) -> u64;
    fn symex_concretize(v: u64) -> u64;
    fn symex_allocated() -> u64;
}

use std::sync::atomic::{AtomicBool, Ordering};

/// `n` unconstrained bytes.
#[inline(never)]
pub fn bytes(n: usize) -> Vec<u8> {
    let mut v = vec![0u8; n];
    if frozen() {
        for i in 0..n {
            v[i] = 1 + (i & 1) as u8;
        }
    } else if n > 0 {
        unsafe { symex_make_symbolic(v.as_mut_ptr(), n) };
    }
    v
}

/// While it is on, the octets that would be symbolic are 1, 2, 1, 2 ... instead; choices stay symbolic.
pub static FROZEN: AtomicBool = AtomicBool::new(false);

fn frozen() -> bool {
    FROZEN.load(Ordering::Relaxed)
}

pub fn arr<const N: usize>() -> [u8; N] {
    let mut v = [0u8; N];
    if frozen() {
        for i in 0..N {
            v[i] = 1 + (i & 1) as u8;
        }
        return v;
    }
    unsafe { symex_make_symbolic(v.as_mut_ptr(), N) };
    v
}

pub fn u8v() -> u8 {
    arr::<1>()[0]
}
pub fn u16v() -> u16 {
    u16::from_be_bytes(arr())
}
pub fn u32v() -> u32 {
    u32::from_be_bytes(arr())
}
pub fn u64v() -> u64 {
    u64::from_be_bytes(arr())
}
pub fn boolv() -> bool {
    let b = u8v();
    assume(b < 2);
    b == 1
}

pub fn assume(b: bool) {
    unsafe { symex_assume(b) }
}

#[inline(never)]
pub fn check(b: bool, id: &'static str) {
    unsafe { symex_check(b, id.as_ptr(), id.len()) }
}

#[inline(never)]
pub fn cover(id: &'static str) {
    unsafe { symex_cover(id.as_ptr(), id.len()) }
}

pub fn param(i: u64) -> usize {
    unsafe { symex_param(i) as usize }
}

/// A symbolic choice in 0..n; every alternative becomes its own path.
#[inline(never)]
pub fn pick(n: usize) -> usize {
    if n <= 1 {
        return 0;
    }
    let mut b = 0u8;
    unsafe { symex_make_symbolic(&mut b, 1) };
    let v = b as usize;
    assume(v < n);
    unsafe { symex_concretize(v as u64) as usize }
}

/// `v`, one path per value.
pub fn concretize(v: usize) -> usize {
    unsafe { symex_concretize(v as u64) as usize }
}

/// Number of heap bytes requested so far.
pub fn allocated() -> u64 {
    unsafe { symex_allocated() }
}

/// One element of a list of alternatives.
pub fn one_of(list: &[usize]) -> usize {
    list[pick(list.len())]
}

/// `n` symbolic 7-bit bytes.
pub fn ascii(n: usize) -> Vec<u8> {
    let v = bytes(n);
    for b in &v {
        assume(*b < 0x80);
    }
    v
}

/// `n` bytes, of which only the first `k` and the last one are symbolic.
pub fn sparse(n: usize, k: usize) -> Vec<u8> {
    let mut v: Vec<u8> = (0..n).map(|i| (i * 7 + i / 256) as u8 & 0x7f).collect();
    for i in 0..n.min(k) {
        v[i] = u8v();
    }
    if n > k {
        v[n - 1] = u8v();
    }
    v
}

/// String of `n` bytes: any UTF-8 for short ones, 7-bit text for long ones.
pub fn string(n: usize) -> String {
    if n <= 4 {
        match String::from_utf8(bytes(n)) {
            Ok(s) => s,
            Err(_) => {
                assume(false);
                unreachable!()
            }
        }
    } else {
        let mut v = sparse(n, 2);
        for b in v.iter_mut() {
            assume(*b < 0x80);
        }
        String::from_utf8(v).unwrap()
    }
}
