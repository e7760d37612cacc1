//! More entries: layouts with many pointers, compressed names in RDATA, bitmaps, SVCB parameters, errors.
use crate::kit::*;
use crate::props;
use crate::spec::*;
use crate::wire::*;
use maybe_dns::rdata::*;
use maybe_dns::*;
use std::collections::BTreeSet;
use std::sync::atomic::Ordering;

/// A chain of param(0) compression pointers, each referring to the one before (param(1) = 1: with a
/// label in front of every pointer), read from the last one.
#[no_mangle]
pub extern "C" fn h_chain() {
    let (n, labelled) = (param(0), param(1) == 1);
    let x = u8v();
    let mut m = vec![1, x, 0];
    let mut target = 0usize;
    for _ in 0..n {
        let at = m.len();
        if labelled {
            m.extend_from_slice(&[1, x]);
        }
        m.push(0xc0 | (target >> 8) as u8);
        m.push(target as u8);
        target = at;
    }
    let mut buf = DnsBuffer::from(&m[..]);
    check(buf.set_position(target).is_ok(), "set_position inside");
    match buf.extract_fqdn() {
        Ok(g) => {
            cover("accepted");
            let k = if labelled { n + 1 } else { 1 };
            check(g.iter().len() == k, "labels behind a chain of pointers");
            for l in g.iter() {
                check(l[..] == [x], "labels behind a chain of pointers");
            }
            check(buf.position() == m.len(), "position after a chain of pointers");
            check(g.len() == 2 * k + 1 && g.to_bytes().len() == 2 * k + 1, "size of a long name");
            let _ = (g.label_count(), g.is_root(), g.is_link_local());
        }
        // a limit on the size of a name is fine
        Err(_) => check(2 * (n + 1) + 1 > 255, "a chain of backward pointers is followed"),
    }
}

/// RDLENGTH other than the length of the RDATA: kind param(0), level param(1).
#[no_mangle]
pub extern "C" fn h_rdlength() {
    let s = spec(param(0));
    let n = s.wire.len();
    let len = pick(n.min(24) + 3) + n.saturating_sub(24);
    let w = W(vec![0xee; 12]).u8(0).u16(s.ty).u16(1).u32(9).u16(len as u16).raw(&s.wire).0;
    let start = w.len() - n;
    let mut buf = DnsBuffer::from(&w[..]);
    check(buf.set_position(12).is_ok(), "set_position inside");
    match ResourceRecord::try_from(&mut buf) {
        Ok(r) => {
            cover("accepted");
            check(len <= n, "RDLENGTH beyond the end of the message is rejected");
            check(buf.position() == start + len, "the record ends where RDLENGTH says");
            let d = r.data().to_bytes();
            let b = r.to_bytes();
            let l = b.len() - d.len();
            check(b[l..] == d[..] && b[l - 2] as usize * 256 + b[l - 1] as usize == d.len(), "RDLENGTH is the length of the RDATA");
        }
        Err(_) => {
            cover("rejected");
            check(len != n, "a record with the right RDLENGTH is accepted");
        }
    }
}

fn level_name() -> Labels {
    match param(1) {
        0 => name(4),
        1 => labels(if pick(2) == 0 { &[63] } else { &[1, 63, 2] }),
        _ => labels(if pick(2) == 0 { &[63, 63, 63, 61] } else { &[1; 127] }),
    }
}

/// A name as the name of a question (param(0) = 0), owner of a record (1) or in RDATA (2) of a packet,
/// written plainly and compressed, and read back.
#[no_mangle]
pub extern "C" fn h_name_io() {
    let (ls, other) = (level_name(), labels(&[1]));
    let (n, o) = (fq(&ls), fq(&other));
    let mut p = Packet::new_reply(1);
    p.add_question(Question::new(o.clone(), QType::A, QClass::IN));
    match param(0) {
        0 => p.add_question(Question::new(n.clone(), QType::A, QClass::IN)),
        1 => p.add_answer(ResourceRecord::new(n.clone(), RecordType::A, RecordClass::IN, 1, A::from(7).into_record_data())),
        _ => p.add_answer(ResourceRecord::new(o, RecordType::CNAME, RecordClass::IN, 1, Cname::new(n.clone()).into_record_data())),
    }
    for b in [p.to_bytes(), p.to_bytes_compressed()] {
        match Packet::try_from(&b[..]) {
            Ok(q) => {
                let ok = match param(0) {
                    0 => q.questions().len() == 2 && *q.questions()[1].name() == n,
                    1 => q.answers().len() == 1 && *q.answers()[0].name() == n,
                    _ => q.answers().len() == 1 && *q.answers()[0].data() == Cname::new(n.clone()).into_record_data(),
                };
                check(ok, "a name in a packet reads back equal");
            }
            Err(_) => check(false, "a written packet is accepted"),
        }
    }
}

/// RDATA of kind param(0) whose names are given with compression pointers: read as if written in full.
#[no_mangle]
pub extern "C" fn h_rdata_ptr() {
    let base = labels(&[2, 1]);
    // message: header, question with `base` at 12 (second label at 15), record with owner at 12
    let head = W::new().u16(1).u16(0x8000).u16(1).u16(1).u16(0).u16(0).name(&base).u16(1).u16(1);
    let mut short = W::new();
    let mut full = W::new();
    let (a, b) = (arr::<4>(), arr::<4>());
    let put = |s: W, f: W| -> (W, W) {
        let l = bytes(1);
        match pick(4) {
            0 => (s.u16(0xc00c), f.name(&base)),
            1 => (s.cs(&l).u16(0xc00c), f.name(&vec![l.clone(), base[0].clone(), base[1].clone()])),
            2 => (s.cs(&l).u16(0xc00f), f.name(&vec![l.clone(), base[1].clone()])),
            _ => (s.name(&vec![l.clone()]), f.name(&vec![l.clone()])),
        }
    };
    let raw = |s: W, f: W, x: &[u8]| (s.raw(x), f.raw(x));
    let mut must = true;
    let ty = match param(0) {
        k @ (2 | 3 | 4) => {
            (short, full) = put(short, full);
            [2, 5, 12][k - 2]
        }
        5 => {
            (short, full) = put(short, full);
            (short, full) = put(short, full);
            for x in [a, b, a, b, a] {
                (short, full) = raw(short, full, &x);
            }
            6
        }
        9 => {
            (short, full) = put(short, full);
            (short, full) = put(short, full);
            14
        }
        10 => {
            (short, full) = raw(short, full, &a[..2]);
            (short, full) = put(short, full);
            15
        }
        13 => {
            (short, full) = raw(short, full, &a);
            (short, full) = raw(short, full, &b[..2]);
            (short, full) = put(short, full);
            33
        }
        14 => {
            (short, full) = raw(short, full, &a);
            (short, full) = raw(short, full, &[1, b'S', 1, b[0], 1, b'!']);
            (short, full) = put(short, full);
            35
        }
        // types whose names should not be compressed: read correctly or not at all
        18 => {
            must = false;
            (short, full) = raw(short, full, &[a[0], 3, 1]);
            (short, full) = put(short, full);
            (short, full) = raw(short, full, &b);
            45
        }
        21 => {
            must = false;
            (short, full) = raw(short, full, &[1, 1, 0, 1, a[0], a[1]]);
            (short, full) = put(short, full);
            55
        }
        24 => {
            must = false;
            (short, full) = raw(short, full, &a[..2]);
            (short, full) = put(short, full);
            (short, full) = raw(short, full, &[0, 3, 0, 2, b[0], b[1]]);
            64
        }
        27 => {
            must = false;
            (short, full) = put(short, full);
            (short, full) = raw(short, full, &a);
            (short, full) = raw(short, full, &b);
            (short, full) = raw(short, full, &[0, 1, 0, 0, 0, 1, a[0], 0, 0]);
            249
        }
        28 => {
            must = false;
            (short, full) = put(short, full);
            (short, full) = raw(short, full, &a);
            (short, full) = raw(short, full, &b);
            (short, full) = raw(short, full, &[0, 1, a[0], 0, 9, 0, 0, 0, 0]);
            250
        }
        #[cfg(feature = "dnssec")]
        33 => {
            must = false;
            (short, full) = raw(short, full, &[0, 1, 15, 2]);
            for x in [a, b, a] {
                (short, full) = raw(short, full, &x);
            }
            (short, full) = raw(short, full, &b[..2]);
            (short, full) = put(short, full);
            (short, full) = raw(short, full, &b);
            46
        }
        #[cfg(feature = "dnssec")]
        34 => {
            (short, full) = put(short, full);
            (short, full) = raw(short, full, &[0, 1, 0x40]);
            47
        }
        _ => {
            assume(false);
            unreachable!()
        }
    };
    let m = head.u16(0xc00c).u16(ty).u16(1).u32(5).u16(short.0.len() as u16).raw(&short.0).0;
    match Packet::try_from(&m[..]) {
        Ok(p) => {
            cover("accepted");
            check(p.answers().len() == 1, "one record");
            let r = &p.answers()[0];
            check(r.data_raw() == full.0, "names in RDATA are expanded");
            check(*r.name() == fq(&base) && r.time_to_live() == 5, "the record around expanded names");
            let b = p.to_bytes();
            let w = W(m[..12].to_vec()).name(&base).u16(1).u16(1).rr(&base, ty, 1, 5, &full.0).0;
            check(b == w, "the uncompressed packet");
            let c = p.to_bytes_compressed();
            check(Packet::try_from(&c[..]).map(|q| q.answers() == p.answers()).unwrap_or(false), "compressed again");
        }
        Err(_) => {
            cover("rejected");
            check(!must, "compressed names in RDATA are accepted");
        }
    }
}

#[inline(never)]
pub fn types_of(which: usize, bitmap: &[u8]) -> Result<BTreeSet<RecordType>, DnsError> {
    if which == 0 {
        let w = W::new().u32(1).u16(3).raw(bitmap).0;
        Csync::try_from(&mut DnsBuffer::from(&w[..])).map(|c| c.types)
    } else {
        #[cfg(feature = "dnssec")]
        {
            let w = W::new().u8(0).raw(bitmap).0;
            return Nsec::try_from(&mut DnsBuffer::from(&w[..])).map(|c| c.types);
        }
        #[cfg(not(feature = "dnssec"))]
        Err(DnsError::LengthViolation)
    }
}

/// adds the types of one window to `set`; false: a type without assignment
#[inline(never)]
fn window(set: &mut BTreeSet<RecordType>, win: usize, at: usize, octet: u8) -> bool {
    let all = all_types();
    for j in 0..8 {
        if octet & (0x80 >> j) != 0 {
            let code = win * 256 + at * 8 + j;
            match all.iter().find(|t| t.0 as usize == code) {
                Some(t) => set.insert(t.1),
                None => return false,
            };
        }
    }
    true
}

/// RFC 4034 4.1.2: the wire form of a set of types.
fn bitmap_wire(t: &BTreeSet<RecordType>) -> Vec<u8> {
    let all = all_types();
    let mut w = W::new();
    for win in 0..2usize {
        let (mut m, mut n) = ([0u8; 32], 0);
        for (code, ty) in &all {
            let c = *code as usize;
            if c / 256 == win && t.contains(ty) {
                m[c % 256 / 8] |= 0x80 >> (c % 8);
                n = n.max(c % 256 / 8 + 1);
            }
        }
        if n > 0 {
            w = w.u8(win as u8).u8(n as u8).raw(&m[..n]);
        }
    }
    w.0
}

/// A set of types is written as RFC 4034 says, in both forms, and its size is predicted.
#[inline(never)]
pub fn types_written(which: usize, t: &BTreeSet<RecordType>) {
    let map = bitmap_wire(t);
    let (d, ty, want) = if which == 0 {
        let mut f = Csync::default();
        f.soa_serial = 7;
        f.flags.set_immediate(true);
        f.flags.set_soa_minimum(true);
        f.types = t.clone();
        (f.into_record_data(), RecordType::CSYNC, W::new().u32(7).u16(3).raw(&map).0)
    } else {
        #[cfg(feature = "dnssec")]
        {
            let n = Nsec::with_types(FQDN::new("n"), t.clone());
            (n.into_record_data(), RecordType::NSEC, W::new().u8(1).u8(b'n').u8(0).raw(&map).0)
        }
        #[cfg(not(feature = "dnssec"))]
        return;
    };
    check(d.to_bytes() == want, "a type bitmap is written as RFC 4034 says");
    check(d.byte_size() == want.len(), "the size of a type bitmap");
    let mut p = Packet::new_reply(1);
    p.add_answer(ResourceRecord::new(FQDN::new("o"), ty, RecordClass::IN, 5, d));
    let c = p.to_bytes_compressed();
    check(c[12 + 3 + 10..] == want[..], "a type bitmap is written as RFC 4034 says in the compressed form");
}

/// Any set of up to param(1) types, in CSYNC (param(0) = 0) or NSEC (1), is written as RFC 4034 says.
#[no_mangle]
pub extern "C" fn h_bitmap_write() {
    let all = all_types();
    let mut t = BTreeSet::new();
    for _ in 0..param(1) {
        t.insert(all[pick(all.len())].1);
    }
    types_written(param(0), &t);
}

/// One window of param(1) octets of which any one is any octet: CSYNC (param(0) = 0) or NSEC (1).
#[no_mangle]
pub extern "C" fn h_bitmap_wide() {
    let n = param(1);
    let win = pick(3);
    let at = pick(n);
    let o = u8v();
    let mut m = vec![0u8; n];
    m[at] = o;
    let w = W::new().u8(win as u8).u8(n as u8).raw(&m).0;
    let mut want = BTreeSet::new();
    let known = window(&mut want, win, at, o);
    match types_of(param(0), &w) {
        Ok(t) => {
            cover("accepted");
            check(n <= 32, "a window of more than 32 octets is rejected");
            check(known && t == want, "the types of a wide bitmap");
        }
        Err(_) => {
            cover("rejected");
            check(n > 32 || !known, "a bitmap of known types is accepted");
        }
    }
}

/// Several windows: window 0 with any octet at one of two places, window 1 with any octet, and, with
/// param(1) = 3, a third window.
#[no_mangle]
pub extern "C" fn h_bitmap_multi() {
    let (a, b) = (u8v(), u8v());
    let at = [0usize, 3, 5][pick(3)];
    let mut m = vec![0u8; at + 1];
    m[at] = a;
    let mut w = W::new().u8(0).u8(at as u8 + 1).raw(&m).u8(1).u8(1).u8(b);
    let mut want = BTreeSet::new();
    let mut known = window(&mut want, 0, at, a) && window(&mut want, 1, 0, b);
    assume(a != 0 && b != 0);
    if param(1) == 3 {
        let (x, c) = (u8v(), u8v());
        assume(x >= 2 && c != 0);
        w = w.u8(x).u8(1).u8(c);
        known = false;
    }
    match types_of(param(0), &w.0) {
        Ok(t) => {
            cover("accepted");
            check(known && t == want, "the types of several windows");
            types_written(param(0), &t);
        }
        Err(_) => {
            cover("rejected");
            check(!known, "a bitmap of known types is accepted");
        }
    }
}

// ------------------------------------------------------------------------------------------------
// SVCB

fn svcb(w: &W) -> Result<Svcb, DnsError> {
    Svcb::try_from(&mut DnsBuffer::from(&w.0[..]))
}

#[no_mangle]
pub extern "C" fn h_svcb() {
    let prio = u16v();
    let head = W::new().u16(prio).u8(0);
    match param(0) {
        // any key with an empty value
        0 => {
            let k = u16v();
            let w = head.u16(k).u16(0);
            match svcb(&w) {
                Ok(s) => {
                    cover("accepted");
                    check(s.params.len() == 1 && s.to_bytes() == w.0, "a parameter is kept");
                    check(k != 3 && k != 4 && k != 6, "an empty port or address is rejected");
                }
                Err(_) => {
                    cover("rejected");
                    check(k != 2 && !(65280..=65535).contains(&k), "a flag or private parameter is accepted");
                }
            }
        }
        // values of any length for parameters of a fixed size
        1 => {
            let k = [3usize, 4, 6, 2][pick(4)];
            let need = [2usize, 4, 16, 0][[3usize, 4, 6, 2].iter().position(|x| *x == k).unwrap()];
            let n = pick(19);
            let v = bytes(n);
            let w = head.u16(k as u16).u16(n as u16).raw(&v);
            match svcb(&w) {
                Ok(s) => {
                    cover("accepted");
                    check(s.params.len() == 1 && s.to_bytes() == w.0, "a value is kept whole");
                    check(if need == 0 { n == 0 } else { n > 0 && n % need == 0 }, "a value of the wrong size is rejected");
                }
                Err(_) => {
                    cover("rejected");
                    check(n != need, "a value of the right size is accepted");
                }
            }
        }
        // parameters in any order are written in the order of their keys
        2 => {
            let (k1, k2) = (u16v(), u16v());
            assume(k1 >= 65280 && k2 >= 65280 && k1 < 65535 && k2 < 65535 && k1 != k2);
            let (v1, v2, p) = (bytes(pick(2)), bytes(1), u16v());
            let a = W::new().u16(k1).u16(v1.len() as u16).raw(&v1).0;
            let b = W::new().u16(k2).u16(1).raw(&v2).0;
            let c = W::new().u16(3).u16(2).u16(p).0;
            let w = match pick(3) {
                0 => head.clone().raw(&a).raw(&b).raw(&c),
                1 => head.clone().raw(&a).raw(&c).raw(&b),
                _ => head.clone().raw(&c).raw(&a).raw(&b),
            };
            let want = if k1 < k2 { head.raw(&c).raw(&a).raw(&b) } else { head.raw(&c).raw(&b).raw(&a) };
            match svcb(&w) {
                Ok(s) => {
                    cover("accepted");
                    check(s.params.len() == 3 && s.to_bytes() == want.0, "parameters are written in ascending order");
                }
                Err(_) => check(false, "parameters with different keys are accepted"),
            }
        }
        // a length that leaves the record, and the mode
        3 => {
            let (k, n) = (u16v(), u16v());
            let v = bytes(2);
            let w = head.u16(k).u16(n).raw(&v);
            match svcb(&w) {
                Ok(s) => {
                    cover("accepted");
                    check(n <= 2, "a value that leaves the record is rejected");
                    check(s.priority == prio && s.target_name.is_root(), "priority and target");
                    let alias = matches!(std::mem::discriminant(&s.mode()), d if d == std::mem::discriminant(&svcb(&W::new().u16(0).u8(0)).unwrap().mode()));
                    check(alias == (prio == 0), "priority 0 is alias mode");
                }
                Err(_) => cover("rejected"),
            }
        }
        // the list of protocols has to fill its value
        4 => {
            let n = pick(6);
            let v = bytes(n);
            let w = head.u16(1).u16(n as u16).raw(&v);
            let mut p = 0;
            while p < n {
                p += 1 + v[p] as usize;
            }
            match svcb(&w) {
                Ok(s) => {
                    cover("accepted");
                    check(p == n && s.to_bytes() == w.0, "the protocols of a record");
                }
                Err(_) => {
                    cover("rejected");
                    check(p != n || n == 0, "a list of protocols is accepted");
                }
            }
        }
        // mandatory keys: known ones, written in ascending order
        _ => {
            let (a, b) = (u16v(), u16v());
            let w = head.clone().u16(0).u16(4).u16(a).u16(b);
            let known = |k: u16| k <= 6 || k >= 65280;
            match svcb(&w) {
                Ok(s) => {
                    cover("accepted");
                    check(known(a) && known(b), "unknown mandatory keys are rejected");
                    let want = if a < b { head.u16(0).u16(4).u16(a).u16(b) } else if a > b { head.u16(0).u16(4).u16(b).u16(a) } else { head.u16(0).u16(2).u16(a) };
                    check(s.to_bytes() == want.0, "mandatory keys are written in ascending order");
                }
                Err(_) => {
                    cover("rejected");
                    check(a >= b || !known(a) || !known(b), "mandatory keys are accepted");
                }
            }
        }
    }
}

// ------------------------------------------------------------------------------------------------
// record sets of the usual types

#[no_mangle]
pub extern "C" fn h_rrset_types() {
    let owner = labels(&[2, 1]);
    let ttl = u32v();
    let cw = u16v();
    assume(cw >= 1 && cw < 0x8000);
    let mut vals = Vec::new();
    let mut datas: Vec<Vec<u8>> = Vec::new();
    let ty = match param(0) {
        0 => {
            for _ in 0..3 {
                let b = arr::<4>();
                vals.push(A::new(std::net::Ipv4Addr::from(b)).into_record_data());
                datas.push(b.to_vec());
            }
            RecordType::A
        }
        1 => {
            for _ in 0..2 {
                let (p, n) = (u16v(), name(3));
                vals.push(Mx::new(p, fq(&n)).into_record_data());
                datas.push(W::new().u16(p).name(&n).0);
            }
            RecordType::MX
        }
        2 => {
            for _ in 0..2 {
                let s = string(pick(3));
                datas.push(W::new().cs(s.as_bytes()).0);
                vals.push(Txt::new(vec![s]).into_record_data());
            }
            RecordType::TXT
        }
        4 => {
            // many records, one of them anything, one anything in its last octet
            let k = param(1);
            for i in 0..k {
                let i = (i * 37 + 11) % k;
                let mut b = [10, (i / 7) as u8, (i % 7) as u8 * 36, (i * 5) as u8];
                if i == k / 2 {
                    b = arr::<4>();
                }
                if i == 0 {
                    b[3] = u8v();
                }
                vals.push(A::new(std::net::Ipv4Addr::from(b)).into_record_data());
                datas.push(b.to_vec());
            }
            RecordType::A
        }
        5 => {
            // the same for a long time, then anything
            let mut first = sparse(param(1), 2);
            for i in 0..3 {
                let mut d = first.clone();
                d.extend(bytes(pick(3)));
                if i == 1 && param(1) > 0 {
                    first[0] = u8v();
                }
                vals.push(Null::new(d.clone()).into_record_data());
                datas.push(d);
            }
            RecordType::NULL
        }
        _ => {
            for _ in 0..2 {
                let (a, n) = (u16v(), name(4));
                vals.push(Srv::new(a, 7, 8, fq(&n)).into_record_data());
                datas.push(W::new().u16(a).u16(7).u16(8).name(&n).0);
            }
            RecordType::SRV
        }
    };
    let n = vals.len();
    let name = fq(&owner);
    let class = RecordClass::from(cw);
    let mut set = ResourceRecordSet::new(&name, ty, class, ttl, vals.iter().collect());
    let mut sorted = datas;
    for i in 1..n {
        let mut j = i;
        while j > 0 && sorted[j] < sorted[j - 1] {
            sorted.swap(j, j - 1);
            j -= 1;
        }
    }
    let mut w = W::new();
    for d in &sorted {
        w = w.rr(&owner, ty as u16, cw, ttl, d);
    }
    check(set.to_bytes() == w.0, "a set is written in canonical order");
    check(set.byte_size() == w.0.len(), "size of a set");
    set.canonical_reorder();
    check(set.records().len() == n, "canonical_reorder keeps the records");
    for (r, d) in set.records().iter().zip(&sorted) {
        check(r.to_bytes() == *d, "canonical_reorder sorts the records");
    }
    check(set.to_bytes() == w.0, "canonical_reorder does not change the form");
}

/// Last label of param(0) octets, "local", param(1) octets, or of any param(0) octets if param(1) is 9.
#[no_mangle]
pub extern "C" fn h_local() {
    let (a, b) = (param(0), param(1));
    let mut l = ascii(a);
    if b != 9 {
        l.extend(b"local");
        l.extend(ascii(b));
    }
    let mut data = labels(&[1, 2]);
    data.truncate(pick(3));
    data.push(l.clone());
    let n = FQDN::from(data.clone());
    check(n.is_link_local() == (&l[..] == b"local"), "link local");
    data.push(b"com".to_vec());
    check(!FQDN::from(data).is_link_local(), "link local");
}

// ------------------------------------------------------------------------------------------------
// errors

#[inline(never)]
pub fn error_ok(e: DnsError) {
    use std::error::Error;
    cover("error");
    let mut depth = 0;
    let mut cur: Option<&(dyn Error + 'static)> = Some(&e);
    while let Some(c) = cur {
        depth += 1;
        if depth > 4 {
            break;
        }
        cur = c.source();
    }
    check(depth <= 4, "the chain of causes of an error ends");
}

/// The errors of every parser, on any bytes.
#[no_mangle]
pub extern "C" fn h_error_any() {
    let e = match param(0) {
        0 => {
            let mut m = bytes(12);
            for i in 4..12 {
                m[i] = 0;
            }
            Packet::try_from(&m[..]).err()
        }
        1 => Packet::try_from(&bytes(pick(12))[..]).err(),
        2 => {
            let m = W::new().u32(0).u16(1).u16(0).u32(0).raw(&bytes(5)).0;
            Packet::try_from(&m[..]).err()
        }
        3 => {
            let all = all_types();
            let (t, _) = all[pick(all.len())];
            let n = pick(4);
            let m = W::new().u8(0).u16(t).u16(1).u32(0).u16(n as u16).raw(&bytes(n)).0;
            ResourceRecord::try_from(&mut DnsBuffer::from(&m[..])).err()
        }
        4 => DnsBuffer::from(&bytes(4)[..]).extract_fqdn().err(),
        5 => {
            let b = bytes(3);
            let mut d = DnsBuffer::from(&b[..]);
            match pick(6) {
                0 => d.set_position(u64v() as usize).err(),
                1 => d.advance(u64v() as usize).err(),
                2 => d.extract_bytes(u64v() as usize).err(),
                3 => d.extract_u32().err(),
                4 => d.extract_string().err(),
                _ => d.extract_u16_as::<QClass>().err(),
            }
        }
        _ => {
            #[cfg(feature = "dnssec")]
            {
                // times before the epoch: the error has a cause
                use std::time::{Duration, UNIX_EPOCH};
                let k = DnsKey::new(15u8.try_into().unwrap(), vec![1]);
                let n = FQDN::default();
                let set = ResourceRecordSet::new(&n, RecordType::A, RecordClass::IN, 1, vec![]);
                let (a, b) = (u16v(), u16v());
                let before = UNIX_EPOCH - Duration::from_secs(a as u64 + 1);
                let after = UNIX_EPOCH + Duration::from_secs(b as u64);
                let e = if pick(2) == 0 {
                    Rrsig::from_dnskey(&k, &set, &before, &after, &[]).err()
                } else {
                    Rrsig::from_dnskey(&k, &set, &after, &before, &[]).err()
                };
                check(e.is_some(), "a time before the epoch is an error");
                e
            }
            #[cfg(not(feature = "dnssec"))]
            None
        }
    };
    if let Some(e) = e {
        error_ok(e);
    }
}

/// Known findings that the other entries make an exception for, in their strict form.
#[no_mangle]
pub extern "C" fn h_known() {
    let b = bytes(param(1));
    match param(0) {
        0 => {
            if let Ok(s) = Svcb::try_from(&mut DnsBuffer::from(&b[..])) {
                check(s.byte_size() == s.to_bytes().len(), "SVCB byte_size");
            }
        }
        _ => (),
    }
}

fn used(m: &[u8], how: usize) {
    match how {
        0 => props::parse(m, false),
        1 => props::parse(m, true),
        2 => props::stable(m),
        _ => crate::read::reads(m, 12),
    }
}

/// A message with a question and a record of kind param(0), level param(1); param(2): parse (0), use
/// everything of the result (1), write it and read it again (2); of h_mutant
/// also: compare with the reader of read.rs (3).
#[no_mangle]
pub extern "C" fn h_use() {
    let s = spec(param(0));
    let w = W::new().u16(1).u16(0x8000).u16(1).u16(1).u16(0).u16(0).name(&labels(&[1])).u16(1).u16(1);
    used(&w.rr(&labels(&[1]), s.ty, 1, 9, &s.wire).0, param(2));
}

/// A message with a record as in h_use, of one of its shapes and with fixed octets, and the same one in which any
/// param(3) consecutive octets from the RDLENGTH on have been replaced by any others.
pub fn mutated() -> (Vec<u8>, Vec<u8>) {
    FROZEN.store(true, Ordering::Relaxed);
    let s = spec(param(0));
    FROZEN.store(false, Ordering::Relaxed);
    let old = W::new().u16(1).u16(0x8000).u16(0).u16(1).u16(0).u16(0).rr(&vec![], s.ty, 1, 9, &s.wire).0;
    let mut m = old.clone();
    let w = param(3);
    let n = m.len() - 21;
    assume(w <= n);
    let at = 21 + if n - w < 200 {
        pick(n - w + 1)
    } else if pick(2) == 0 {
        pick(100)
    } else {
        n - w - pick(100)
    };
    for i in 0..w {
        m[at + i] = u8v();
    }
    (old, m)
}

/// The second message of mutated().
#[no_mangle]
pub extern "C" fn h_mutant() {
    used(&mutated().1, param(2));
}
