//! symex: symbolic execution of LLVM IR with Z3. See DESIGN.md.
mod exec;
mod expr;
mod fx;
mod ir;
mod solver;
use exec::*;
use std::fmt::Write as _;
use std::io::Write as _;
use std::rc::Rc;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::time::{Instant, SystemTime, UNIX_EPOCH};

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, st: *mut i32, opt: i32) -> i32;
    fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn prctl(op: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
    fn _exit(c: i32) -> !;
    fn getpid() -> i32;
    fn setpriority(which: i32, who: u32, prio: i32) -> i32;
    fn kill(pid: i32, sig: i32) -> i32;
}

struct Job { name: String, entry: String, params: Vec<u64>, time: f64, steps: u64 }

fn now() -> f64 { SystemTime::now().duration_since(UNIX_EPOCH).unwrap().as_secs_f64() }
fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), c if (c as u32) < 32 || (c as u32) > 126 => { let _ = write!(o, "\\u{:04x}", (c as u32) & 0xffff); } c => o.push(c) } }
    o.push('"');
    o
}
fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{:02x}", x)).collect() }

fn write_part(dir: &str, job: &str, e: &Engine, wall: f64) {
    let s = &e.st;
    let mut o = String::new();
    let mp = |m: &fx::Map<String, u64>| { let mut v: Vec<_> = m.iter().collect(); v.sort(); v.iter().map(|(k, n)| format!("{}:{}", js(k), n)).collect::<Vec<_>>().join(",") };
    let _ = write!(o, "{{\"job\":{},\"paths\":{},\"killed\":{},\"forks\":{},\"steps\":{},\"maxsteps\":{},\"concretized\":{},\"maxpc\":{},\"incomplete\":{},\"unknown\":{},\"ninput\":{}", js(job), s.paths, s.killed, s.forks, s.steps, s.maxsteps, s.concretized, s.maxpc, s.incomplete, s.unknown, s.ninput);
    let _ = write!(o, ",\"queries\":{},\"sat\":{},\"unsat\":{},\"cached\":{},\"modelhit\":{},\"solver_s\":{:.4},\"max_query_s\":{:.4},\"exprs\":{},\"wall_s\":{:.3}", e.s.n_query, e.s.n_sat, e.s.n_unsat, e.s.n_cache, e.s.n_modelhit, e.s.time, e.s.max_query, e.p.nodes.len(), wall);
    let _ = write!(o, ",\"errors\":{{{}}},\"covers\":{{{}}},\"checks\":{{{}}}", mp(&s.errors), mp(&s.covers), mp(&s.checks));
    let _ = write!(o, ",\"samples\":[{}]", s.samples.iter().map(|x| js(&hex(x))).collect::<Vec<_>>().join(","));
    let _ = write!(o, ",\"funcs\":[{}]", s.funcs.iter().map(|&f| js(&e.m.funcs[f].name)).collect::<Vec<_>>().join(","));
    let _ = write!(o, ",\"violations\":[{}]}}", e.viol.iter().map(|v| format!("{{\"kind\":{},\"what\":{},\"at\":{},\"input\":{},\"trace\":[{}]}}", js(&v.kind), js(&v.what), js(&v.at), js(&hex(&v.input)), v.trace.iter().map(|t| js(t)).collect::<Vec<_>>().join(","))).collect::<Vec<_>>().join(","));
    let path = format!("{}/{}.{}.json", dir, job, unsafe { getpid() });
    let tmp = format!("{}.tmp", path);
    std::fs::File::create(&tmp).unwrap().write_all(o.as_bytes()).unwrap();
    std::fs::rename(tmp, path).unwrap();
}

fn reset_stats(e: &mut Engine) {
    e.st = Stats { ninput: e.st.ninput, funcs: std::mem::take(&mut e.st.funcs), ..Default::default() };
    e.viol.clear();
    e.s.n_query = 0; e.s.n_sat = 0; e.s.n_unsat = 0; e.s.n_cache = 0; e.s.n_modelhit = 0; e.s.n_unknown = 0; e.s.time = 0.0; e.s.max_query = 0.0;
}

fn rss_mb() -> u64 {
    std::fs::read_to_string("/proc/self/statm").ok().and_then(|s| s.split(' ').nth(1).and_then(|x| x.parse::<u64>().ok())).unwrap_or(0) * 4 / 1024
}

// shared: [0] = active processes, [1] = global stop, [8 + 4*job] = stop flag, [9 + 4*job] = start (ms), [10+4*job] = violation time (ms)
fn explore(m: Rc<ir::Module>, job: &Job, ji: usize, dir: &str, n: u64, sh: &'static [AtomicU64], rlimit: u32, ignore: &[String], only: &[String], grace: f64, rss_max: u64) -> ! {
    let mut e = Engine::new(m, job.params.clone(), job.steps, rlimit);
    let init = e.initial(&job.entry);
    e.pending.push(init);
    let mut t0 = Instant::now();
    let start = sh[9 + 4 * ji].load(SeqCst) as f64 / 1000.0;
    let stop = || {
        if sh[8 + 4 * ji].load(SeqCst) != 0 || sh[1].load(SeqCst) != 0 { return true; }
        let t = now();
        if t - start > job.time { return true; }
        let v = sh[10 + 4 * ji].load(SeqCst);
        v != 0 && t - v as f64 / 1000.0 > grace
    };
    let mut nv = 0;
    let mut since = 0u64;
    while let Some(mut st) = e.pending.pop() {
        if stop() { e.st.incomplete += 1 + e.pending.len() as u64; break; }
        let base = st.steps;
        let end = e.run(&mut st, &stop);
        let _ = base;
        e.st.maxsteps = e.st.maxsteps.max(st.steps);
        e.st.maxpc = e.st.maxpc.max(st.pc.len());
        match end {
            End::Ret => {
                e.st.paths += 1;
                if e.st.samples.len() < 4 || (e.st.paths % 997 == 0 && e.st.samples.len() < 12) { let s = e.model_input(&st); e.st.samples.push(s); }
            }
            End::Killed => e.st.killed += 1,
            End::Violated => e.st.paths += 1,
            End::Error(s) => { *e.st.errors.entry(s).or_insert(0) += 1; }
            End::Stopped => { e.st.incomplete += 1; }
        }
        if e.viol.len() > nv {
            nv = e.viol.len();
            let fresh = e.viol.iter().any(|v| { let k = format!("{}|{}|{}", v.kind, v.what, v.at); !ignore.iter().any(|i| k.contains(i.as_str())) && (v.kind != "check" || only.is_empty() || only.iter().any(|i| k.contains(i.as_str()))) });
            if fresh { let _ = sh[10 + 4 * ji].compare_exchange(0, (now() * 1000.0) as u64, SeqCst, SeqCst); }
        }
        since += 1;
        if since & 0xff == 0 && rss_mb() > rss_max { e.st.incomplete += 1 + e.pending.len() as u64; *e.st.errors.entry("memory budget".into()).or_insert(0) += 1; break; }
        // hand half of the work to an idle core
        while e.pending.len() >= 2 {
            let a = sh[0].load(SeqCst);
            if a >= n { break; }
            if sh[0].compare_exchange(a, a + 1, SeqCst, SeqCst).is_err() { continue; }
            let pid = unsafe { fork() };
            if pid < 0 { sh[0].fetch_sub(1, SeqCst); break; }
            let all = std::mem::take(&mut e.pending);
            let child = pid == 0;
            for (i, s) in all.into_iter().enumerate() { if (i % 2 == 0) == child { e.pending.push(s); } }
            if child { reset_stats(&mut e); nv = 0; t0 = Instant::now(); }
        }
    }
    write_part(dir, &job.name, &e, t0.elapsed().as_secs_f64());
    unsafe { _exit(0) }
}

fn children(of: u32) -> Vec<u32> {
    std::fs::read_to_string(format!("/proc/{}/task/{}/children", of, of)).unwrap_or_default().split_whitespace().filter_map(|x| x.parse().ok()).collect()
}

fn main() {
    let mut ll = String::new();
    let mut out = String::new();
    let mut n = 8u64;
    let mut rlimit = 0u32;
    let mut grace = 10.0f64;
    let mut total = 1e9f64;
    let mut rss = 3500u64;
    let mut jobs: Vec<Job> = vec![];
    let mut ignore = vec![];
    let mut only = vec![];
    let mut it = std::env::args().skip(1);
    while let Some(a) = it.next() {
        let mut v = || it.next().unwrap();
        match a.as_str() {
            "--ll" => ll = v(),
            "--out" => out = v(),
            "-j" => n = v().parse().unwrap(),
            "--rlimit" => rlimit = v().parse().unwrap(),
            "--grace" => grace = v().parse().unwrap(),
            "--total" => total = v().parse().unwrap(),
            "--rss" => rss = v().parse().unwrap(),
            "--ignore" => ignore.push(v()),
            "--only" => only.push(v()),
            // name:entry:params:time:steps
            "--job" => { let s = v(); let p: Vec<&str> = s.split(':').collect(); jobs.push(Job { name: p[0].into(), entry: p[1].into(), params: p[2].split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect(), time: p[3].parse().unwrap(), steps: p[4].parse().unwrap() }); }
            x => panic!("argument {}", x),
        }
    }
    let t0 = Instant::now();
    let src = std::fs::read_to_string(&ll).unwrap();
    let m = Rc::new(ir::parse(&src));
    drop(src);
    eprintln!("symex: parsed {} functions, {} globals in {:.1}s; z3 {}", m.funcs.len(), m.globals.len(), t0.elapsed().as_secs_f64(), solver::z3_version());
    for j in &jobs { if !m.fidx.contains_key(&j.entry) { eprintln!("symex: no entry point {}", j.entry); std::process::exit(3); } }
    let sh: &'static [AtomicU64] = unsafe {
        let p = mmap(std::ptr::null_mut(), 1 << 20, 3, 0x21, -1, 0);
        std::slice::from_raw_parts(p as *const AtomicU64, (1 << 20) / 8)
    };
    unsafe { prctl(36, 1, 0, 0, 0); setpriority(0, 0, 5); }
    let mut next = 0;
    let mut live = 0u64;
    let mut bad = 0;
    let begin = now();
    loop {
        while next < jobs.len() {
            let a = sh[0].load(SeqCst);
            if a >= n { break; }
            if sh[0].compare_exchange(a, a + 1, SeqCst, SeqCst).is_err() { continue; }
            sh[9 + 4 * next].store((now() * 1000.0) as u64, SeqCst);
            let pid = unsafe { fork() };
            if pid == 0 {
                unsafe { prctl(1, 9, 0, 0, 0); }
                explore(m.clone(), &jobs[next], next, &out, n, sh, rlimit, &ignore, &only, grace, rss);
            }
            live += 1;
            next += 1;
        }
        if now() - begin > total { sh[1].store(1, SeqCst); }
        // a worker that does not come back from the solver
        if now() - begin > total + 60.0 { for p in children(std::process::id()) { unsafe { kill(p as i32, 9); } } }
        let mut st = 0;
        let pid = unsafe { waitpid(-1, &mut st, 1) };
        if pid > 0 {
            sh[0].fetch_sub(1, SeqCst);
            if st != 0 { bad += 1; eprintln!("symex: worker {} ended with status {:#x}", pid, st); }
            continue;
        }
        if pid < 0 && next == jobs.len() { break; }
        let _ = live;
        std::thread::sleep(std::time::Duration::from_millis(3));
    }
    if bad > 0 { std::process::exit(4); }
}
