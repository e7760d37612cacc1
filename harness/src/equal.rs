//! Equality, order, editing in place, conversions of addresses.
use crate::kit::*;
use crate::more::mutated;
use crate::read::{same, verdict_of};
use crate::spec::*;
use crate::wire::*;
use maybe_dns::rdata::*;
use maybe_dns::*;
use std::cmp::Ordering as O;
use std::net::{Ipv4Addr, Ipv6Addr};

const MDNS: bool = cfg!(feature = "mdns");

/// A record and the same one with some octets replaced (as h_mutant): equal exactly if the data is the same.
#[no_mangle]
pub extern "C" fn h_equal() {
    let (m, g) = mutated();
    let (Ok(a), Ok(b)) = (Packet::try_from(&m[..]), Packet::try_from(&g[..])) else {
        return cover("rejected");
    };
    let (Some(x), Some(y)) = (verdict_of(&m, 12), verdict_of(&g, 12)) else {
        return cover("open");
    };
    let ty = (m[13] as u16) << 8 | m[14] as u16;
    let eq = same(ty, &x, &y);
    if eq {
        cover("same")
    } else {
        cover("different")
    }
    check((a.answers()[0].data() == b.answers()[0].data()) == eq, "record data is equal exactly if its content is");
    check((a == b) == eq, "packets are equal exactly if their content is");
    check(a == a.clone() && b == b.clone(), "a clone is equal");
}

fn order(a: &Labels, b: &Labels, c: &Labels) {
    let (x, y, z) = (fq(a), fq(b), fq(c));
    check((x == y) == (a == b), "names are equal exactly if their labels are");
    check((x.cmp(&y) == O::Equal) == (a == b), "the order of names agrees with equality");
    check(x.cmp(&y) == y.cmp(&x).reverse(), "the order of names is antisymmetric");
    check(x.partial_cmp(&y) == Some(x.cmp(&y)), "both orders agree");
    if x.cmp(&y) == O::Less && y.cmp(&z) == O::Less {
        cover("chain");
        check(x.cmp(&z) == O::Less, "the order of names is transitive");
    }
}

type QFields = (Labels, usize, usize, bool);
fn question() -> (Question, QFields) {
    let f = (name(3), one_of(&[0, 1, 4]), pick(4), MDNS && boolv());
    let q = build_q(&f);
    (q, f)
}
const QT: [QType; 5] = [QType::A, QType::NS, QType::TXT, QType::AAAA, QType::ANY];
const QC: [QClass; 4] = [QClass::IN, QClass::CH, QClass::HS, QClass::ANY];
const QTN: [u16; 5] = [1, 2, 16, 28, 255];
const QCN: [u16; 4] = [1, 3, 4, 255];
fn build_q(f: &QFields) -> Question {
    #[allow(unused_mut)]
    let mut q = Question::new(fq(&f.0), QT[f.1], QC[f.2]);
    #[cfg(feature = "mdns")]
    q.set_unicast_response(f.3);
    q
}
fn wire_q(f: &QFields) -> Vec<u8> {
    W::new().name(&f.0).u16(QTN[f.1]).u16(QCN[f.2] | (f.3 as u16) << 15).0
}

type RFields = (Labels, usize, u16, u32, bool, Vec<u8>);
const RT: [RecordType; 4] = [RecordType::NULL, RecordType::OPENPGPKEY, RecordType::NULL, RecordType::OPENPGPKEY];
const RTN: [u16; 2] = [10, 61];
fn build_r(f: &RFields) -> ResourceRecord {
    #[allow(unused_mut)]
    let mut r = ResourceRecord::new(fq(&f.0), RT[f.1], RecordClass::from(f.2), f.3, data_r(f.1, &f.5));
    #[cfg(feature = "mdns")]
    r.set_cache_flush(f.4);
    r
}
fn data_r(t: usize, d: &[u8]) -> RecordData {
    if t == 0 {
        Null::new(d.to_vec()).into_record_data()
    } else {
        OpenPgpKey(d.to_vec()).into_record_data()
    }
}
fn wire_r(f: &RFields) -> Vec<u8> {
    W::new().rr(&f.0, RTN[f.1], f.2 | (f.4 as u16) << 15, f.3, &f.5).0
}
fn class() -> u16 {
    let c = u16v();
    assume(c >= 1 && c < 0x8000);
    c
}
fn record() -> (ResourceRecord, RFields) {
    let f = (name(3), pick(2), class(), u32v(), MDNS && boolv(), bytes(pick(3)));
    let r = build_r(&f);
    (r, f)
}

/// Two values of kind param(0): equal exactly if every field is.
#[no_mangle]
pub extern "C" fn h_equal_parts() {
    match param(0) {
        0 => {
            let (a, b, c) = (name(3), name(3), name(3));
            order(&a, &b, &c);
        }
        1 => {
            let (a, x) = question();
            let (b, y) = question();
            check((a == b) == (x == y), "questions are equal exactly if their fields are");
        }
        2 => {
            let (a, x) = record();
            let (b, y) = record();
            check((a == b) == (x == y), "records are equal exactly if their fields are");
        }
        3 => {
            let (x, y) = (arr::<12>(), arr::<12>());
            assume(x[3] & 15 <= 10 && y[3] & 15 <= 10);
            let a = Header::try_from(&mut DnsBuffer::from(&x[..]));
            let b = Header::try_from(&mut DnsBuffer::from(&y[..]));
            let (Ok(a), Ok(b)) = (a, b) else {
                return check(false, "every header with a known RCODE is accepted");
            };
            if x[2] & 0x78 < 24 && y[2] & 0x78 < 24 {
                check((a == b) == (x == y), "headers are equal exactly if their fields are");
            } else if x == y {
                check(a == b, "headers of the same octets are equal");
            }
        }
        5 => {
            const S: [&[usize]; 11] = [&[1], &[1, 1], &[1, 2], &[2, 1], &[3], &[1, 1, 1], &[4], &[2, 2], &[1, 3], &[3, 1], &[1, 2, 1]];
            let a = labels(S[pick(S.len())]);
            let b = labels(S[pick(S.len())]);
            let c = a.clone();
            order(&a, &b, &c);
        }
        6 => {
            const S: [&[usize]; 9] = [&[62], &[63], &[1; 126], &[1; 127], &[63, 63, 63, 61], &[63, 63, 61, 63], &[31, 32], &[32, 31], &[20, 20, 20, 20]];
            let a: Labels = S[pick(S.len())].iter().map(|n| sparse(*n, 1)).collect();
            let b: Labels = S[pick(S.len())].iter().map(|n| sparse(*n, 1)).collect();
            let c = b.clone();
            order(&a, &b, &c);
        }
        _ => {
            // packets that differ in one place, if at all
            let (q, fq_) = question();
            let (r, fr) = record();
            let make = |q: &Question, r: &ResourceRecord, s: usize, id: u16| {
                let mut p = Packet::new_reply(id);
                p.add_question(q.clone());
                match s {
                    0 => p.add_answer(r.clone()),
                    1 => p.add_authority(r.clone()),
                    2 => p.add_additional(r.clone()),
                    _ => (),
                }
                p
            };
            let (s, id) = (pick(4), u16v());
            let a = make(&q, &r, s, id);
            match pick(3) {
                0 => {
                    let (t, id2) = (pick(4), u16v());
                    let b = make(&q, &r, t, id2);
                    check((a == b) == (s == t && id == id2), "packets are equal exactly if their content is");
                }
                1 => {
                    let (q2, f2) = question();
                    let b = make(&q2, &r, s, id);
                    check((a == b) == (fq_ == f2), "packets are equal exactly if their content is");
                }
                _ => {
                    let mut f2 = (fr.0.clone(), fr.1, class(), u32v(), MDNS && boolv(), bytes(pick(2)));
                    if pick(2) == 0 {
                        f2.0 = name(2);
                    }
                    let b = make(&q, &build_r(&f2), s, id);
                    check((a == b) == (s == 3 || fr == f2), "packets are equal exactly if their content is");
                }
            }
        }
    }
}

/// param(0) edits of a question (param(1) = 0) or a record (1) with its own setters: only the edited
/// field changes, and the result is what a new value with those fields is.
#[no_mangle]
pub extern "C" fn h_edit() {
    let n = param(0);
    if param(1) == 0 {
        let (mut q, mut f) = question();
        let (mut p, mut before) = (Packet::new_query(7, true), Packet::new_query(7, true));
        p.add_question(q.clone());
        for _ in 0..n {
            // the last edit is made inside a packet
            match pick(4) {
                0 => {
                    f.0 = name(2);
                    q.set_name(fq(&f.0));
                    p.questions_mut()[0].set_name(fq(&f.0));
                }
                1 => {
                    f.1 = pick(5);
                    q.set_query_type(QT[f.1]);
                    p.questions_mut()[0].set_query_type(QT[f.1]);
                }
                2 => {
                    f.2 = pick(4);
                    q.set_class(QC[f.2]);
                    p.questions_mut()[0].set_class(QC[f.2]);
                }
                _ => {
                    f.3 = MDNS && boolv();
                    #[cfg(feature = "mdns")]
                    q.set_unicast_response(f.3);
                    #[cfg(feature = "mdns")]
                    p.questions_mut()[0].set_unicast_response(f.3);
                }
            }
            let fresh = build_q(&f);
            check(q == fresh, "an edited question equals a new one");
            check(*q.name() == fq(&f.0) && *q.query_type() == QT[f.1] && *q.class() == QC[f.2], "fields of an edited question");
            #[cfg(feature = "mdns")]
            check(q.unicast_response() == f.3, "fields of an edited question");
            check(q.to_bytes() == wire_q(&f), "wire form of an edited question");
        }
        check(p.questions()[0] == q, "a question edited inside a packet");
        before.add_question(build_q(&f));
        check(p == before && p.to_bytes() == before.to_bytes(), "a packet with an edited question");
        check(p.to_bytes()[12..] == wire_q(&f)[..], "wire form of an edited question in a packet");
    } else {
        let (mut r, mut f) = record();
        let twin = r.clone();
        let tw = wire_r(&f);
        for _ in 0..n {
            match pick(5) {
                0 => {
                    f.0 = name(2);
                    r.set_name(fq(&f.0));
                }
                1 => {
                    f.2 = class();
                    r.set_class(RecordClass::from(f.2));
                }
                2 => {
                    f.3 = u32v();
                    r.set_time_to_live(f.3);
                }
                3 => {
                    f.4 = MDNS && boolv();
                    #[cfg(feature = "mdns")]
                    r.set_cache_flush(f.4);
                }
                _ => {
                    f.1 = pick(2);
                    f.5 = bytes(pick(3));
                    let d = data_r(f.1, &f.5);
                    match pick(2) {
                        0 => r.set_data(d),
                        _ => *r.data_mut() = d,
                    }
                    r.set_record_type(RT[f.1]);
                }
            }
            check(r == build_r(&f), "an edited record equals a new one");
            check(*r.name() == fq(&f.0) && *r.record_type() == RT[f.1] && *r.class() == RecordClass::from(f.2), "fields of an edited record");
            check(r.time_to_live() == f.3 && *r.data() == data_r(f.1, &f.5) && r.data_raw() == f.5, "fields of an edited record");
            #[cfg(feature = "mdns")]
            check(r.cache_flush() == f.4, "fields of an edited record");
            check(r.to_bytes() == wire_r(&f), "wire form of an edited record");
        }
        check(twin.to_bytes() == tw, "editing leaves a clone alone");
        let mut p = Packet::new_reply(9);
        p.add_answer(twin);
        let mut l = p.take_answers();
        l.push(r);
        p.set_authorities(l);
        let w = [tw, wire_r(&f)].concat();
        check(p.to_bytes()[12..] == w[..] && p.answers().is_empty(), "records moved between sections");
    }
}

/// Names edited label by label.
#[no_mangle]
pub extern "C" fn h_edit_name() {
    let mut ls = name(5);
    let mut n = fq(&ls);
    for _ in 0..param(0) {
        match pick(3) {
            0 => {
                let l = ascii(1 + pick(2));
                n.append_label(std::str::from_utf8(&l).unwrap());
                ls.push(l);
            }
            1 => {
                for (i, l) in n.iter_mut().enumerate() {
                    let x = u8v();
                    l[0] = x;
                    ls[i][0] = x;
                }
            }
            _ => {
                let x = u8v();
                for (i, l) in (&mut n).into_iter().enumerate() {
                    l.push(x);
                    ls[i].push(x);
                }
            }
        }
        check(n == fq(&ls), "an edited name equals a new one");
        check(n.len() == name_len(&ls) && n.label_count() as usize == ls.len(), "length of an edited name");
        check(n.to_bytes() == W::new().name(&ls).0, "wire form of an edited name");
    }
    let q: Vec<Vec<u8>> = n.into_iter().collect();
    check(q == ls, "labels of an edited name");
}

/// Addresses from and to numbers, std's types and text.
#[no_mangle]
pub extern "C" fn h_addr() {
    match param(0) {
        0 => {
            let b = arr::<4>();
            let ip = Ipv4Addr::from(b);
            let v = u32::from_be_bytes(b);
            let mut a = A::from(v);
            check(*a.inner() == ip && A::from(ip) == a && A::new(ip) == a, "address from a number");
            check(a.to_bytes() == b, "wire form of an address");
            check(u32::from(A::new(ip)) == v, "number of an address");
            let c = Ipv4Addr::from(arr::<4>());
            *a.inner_mut() = c;
            check(a == A::new(c) && (a == A::new(ip)) == (c == ip) && a.into_inner() == c, "address in place");
        }
        1 => {
            let b = arr::<16>();
            let ip = Ipv6Addr::from(b);
            let v = u128::from_be_bytes(b);
            let mut a = Aaaa::from(v);
            check(*a.inner() == ip && Aaaa::from(ip) == a && Aaaa::new(ip) == a, "address from a number");
            check(a.to_bytes() == b, "wire form of an address");
            check(u128::from(&a) == v, "number of an address");
            let c = Ipv6Addr::from(arr::<16>());
            *a.inner_mut() = c;
            check(a == Aaaa::new(c) && (a == Aaaa::new(ip)) == (c == ip) && a.into_inner() == c, "address in place");
        }
        2 => {
            let t = ascii(param(1));
            let mut s = if param(1) < 7 { "10.2.3.".to_string() } else { String::new() };
            s.push_str(std::str::from_utf8(&t).unwrap());
            match (s.parse::<Ipv4Addr>(), A::try_from(&s[..])) {
                (Ok(ip), Ok(a)) => {
                    cover("address");
                    check(*a.inner() == ip, "address from text");
                }
                (Err(_), Err(_)) => cover("no address"),
                _ => check(false, "exactly the texts of addresses are accepted"),
            }
        }
        3 => {
            let t = ascii(param(1));
            let s = std::str::from_utf8(&t).unwrap();
            match (s.parse::<Ipv6Addr>(), Aaaa::try_from(s)) {
                (Ok(ip), Ok(a)) => {
                    cover("address");
                    check(*a.inner() == ip, "address from text");
                }
                (Err(_), Err(_)) => cover("no address"),
                _ => check(false, "exactly the texts of addresses are accepted"),
            }
        }
        _ => {
            let (x, y) = (name(5), name(2));
            let mut p = Ptr::new(fq(&x));
            check(*p.inner() == fq(&x), "name of a PTR");
            *p.inner_mut() = fq(&y);
            check(p == Ptr::new(fq(&y)) && p.to_bytes() == W::new().name(&y).0 && p.into_inner() == fq(&y), "name of a PTR in place");
        }
    }
}

/// Reads from a longer buffer: param(0) octets after the first, operation param(1).
#[no_mangle]
pub extern "C" fn h_buffer_long() {
    let n = param(0);
    let l = pick(256);
    let x = u8v();
    assume(x < 0x80);
    let mut b = vec![l as u8];
    b.extend((0..n).map(|i| if i % 37 == 5 { x } else { 0x30 + (i % 64) as u8 }));
    let mut buf = DnsBuffer::from(&b[..]);
    match param(1) {
        0 => {
            match buf.extract_character_string() {
                Ok(s) => {
                    cover("accepted");
                    check(l <= n && s[..] == b[1..1 + l], "extract_character_string");
                    check(buf.position() == 1 + l, "position after a character string");
                }
                Err(_) => check(l > n, "extract_character_string refuses"),
            }
        }
        1 => {
            match buf.extract_string() {
                Ok(s) => {
                    cover("accepted");
                    check(l <= n && *s.as_bytes() == b[1..1 + l], "extract_string");
                    check(buf.position() == 1 + l, "position after a string");
                }
                Err(_) => check(l > n, "extract_string refuses"),
            }
        }
        2 => {
            // the same read at every place of the buffer, and a seek that fails leaves the cursor
            let ok = buf.set_position(l).is_ok();
            check(ok == (l <= n + 1), "set_position");
            if ok {
                cover("accepted");
                check(buf.set_position(n + 2).is_err() && buf.position() == l, "a failed seek leaves the position");
                check(buf.advance(n + 2).is_err() && buf.position() == l, "a failed advance leaves the position");
                let left = n + 1 - l;
                match buf.extract_u16() {
                    Ok(v) => {
                        check(left >= 2 && v == u16::from_be_bytes([b[l], b[l + 1]]), "extract_u16");
                        check(buf.position() == l + 2, "position after a u16");
                    }
                    Err(_) => check(left < 2, "extract_u16 refuses"),
                }
            }
        }
        _ => {
            match buf.extract_bytes(l) {
                Ok(s) => {
                    cover("accepted");
                    check(l <= n + 1 && *s == b[..l], "extract_bytes");
                    check(buf.position() == l, "position after octets");
                }
                Err(_) => check(l > n + 1 && buf.position() == 0, "extract_bytes refuses"),
            }
        }
    }
}
