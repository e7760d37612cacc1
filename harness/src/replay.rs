//! Native replay of one counterexample: `replay ENTRY P0,P1,.. HEX`.
//! exit 0: the property held on this input, 10: an assertion failed, 20: the input does not meet the
//! harness's assumptions, anything else (abort, signal): the code under test panicked or crashed.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::RefCell;
use std::sync::atomic::{AtomicU64, Ordering};

/// The system allocator, counting the bytes that were asked for.
struct Counting;
static ASKED: AtomicU64 = AtomicU64::new(0);
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        ASKED.fetch_add(l.size() as u64, Ordering::Relaxed);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        ASKED.fetch_add(l.size() as u64, Ordering::Relaxed);
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        ASKED.fetch_add(n as u64, Ordering::Relaxed);
        System.realloc(p, l, n)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
}
#[global_allocator]
static ALLOC: Counting = Counting;

#[no_mangle]
pub extern "C" fn symex_allocated() -> u64 {
    ASKED.load(Ordering::Relaxed)
}

thread_local! {
    static IN: RefCell<(Vec<u8>, usize)> = RefCell::new((Vec::new(), 0));
    static PAR: RefCell<Vec<u64>> = RefCell::new(Vec::new());
}

#[no_mangle]
pub unsafe extern "C" fn symex_make_symbolic(p: *mut u8, n: usize) {
    IN.with(|c| {
        let mut c = c.borrow_mut();
        for i in 0..n {
            let at = c.1;
            let b = c.0.get(at).copied().unwrap_or(0);
            c.1 += 1;
            *p.add(i) = b;
        }
    })
}
#[no_mangle]
pub extern "C" fn symex_assume(b: bool) {
    if !b {
        println!("REPLAY: assumption not met");
        std::process::exit(20);
    }
}
#[no_mangle]
pub unsafe extern "C" fn symex_check(b: bool, id: *const u8, n: usize) {
    if !b {
        let s = std::slice::from_raw_parts(id, n);
        println!("REPLAY: check failed: {}", String::from_utf8_lossy(s));
        std::process::exit(10);
    }
}
#[no_mangle]
pub unsafe extern "C" fn symex_cover(id: *const u8, n: usize) {
    let s = std::slice::from_raw_parts(id, n);
    println!("REPLAY: reached {}", String::from_utf8_lossy(s));
}
#[no_mangle]
pub extern "C" fn symex_param(i: u64) -> u64 {
    PAR.with(|p| p.borrow().get(i as usize).copied().unwrap_or(0))
}
#[no_mangle]
pub extern "C" fn symex_concretize(v: u64) -> u64 {
    v
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let hex = a.get(3).cloned().unwrap_or_default();
    let data: Vec<u8> = (0..hex.len() / 2).map(|i| u8::from_str_radix(&hex[2 * i..2 * i + 2], 16).unwrap()).collect();
    IN.with(|c| *c.borrow_mut() = (data, 0));
    PAR.with(|p| *p.borrow_mut() = a[2].split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect());
    match harness::ENTRIES.iter().find(|e| e.0 == a[1]) {
        Some(e) => (e.1)(),
        None => {
            println!("REPLAY: no entry {}", a[1]);
            std::process::exit(30);
        }
    }
    println!("REPLAY: held");
}
