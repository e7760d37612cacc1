//! The properties, one entry function per job kind. `symex_param(0..)` select the variant.
use crate::kit::*;
use crate::spec::*;
use crate::wire::*;
use maybe_dns::rdata::*;
use maybe_dns::*;
use std::collections::HashMap;

// ------------------------------------------------------------------------------------------------
// parsing arbitrary bytes

/// Everything a caller can do with a packet it has just parsed.
#[inline(never)]
fn exercise(p: &Packet) {
    let _ = (p.id(), p.recursion_desired(), p.truncation(), p.authoritative_answer(), p.opcode());
    let _ = (p.query_response(), p.response_code(), p.recursion_available());
    check(p.header().byte_size() == 12 && p.header().to_bytes().len() == 12, "a header is 12 bytes");
    for q in p.questions() {
        touch_name(q.name());
        let _ = (q.query_type(), q.class());
        let b = q.to_bytes();
        check(q.byte_size() == b.len(), "question byte_size");
    }
    for r in p.answers().iter().chain(p.authorities()).chain(p.additionals()) {
        touch_name(r.name());
        let _ = (r.record_type(), r.class(), r.time_to_live());
        let b = r.to_bytes();
        check(size_ok(r.byte_size(), b.len(), surplus(r.data())), "record byte_size");
        check(r.data_raw().len() + 10 + r.name().len() == b.len(), "record length");
    }
    let b = p.to_bytes();
    let c = p.to_bytes_compressed();
    check(c.len() <= b.len(), "compression never makes a packet longer");
    check(p.clone() == *p, "a clone is equal");
}

/// Known finding K1: Svcb::byte_size counts the key and length of every parameter twice (a unit test
/// of the repository demands the wrong number).
fn surplus(d: &RecordData) -> usize {
    match d {
        RecordData::SVCB(s) => 4 * s.params.len(),
        _ => 0,
    }
}
fn size_ok(size: usize, len: usize, surplus: usize) -> bool {
    size == len || size == len + surplus
}

fn touch_name(n: &FQDN) {
    let _ = (n.is_empty(), n.is_root(), n.is_link_local(), n.label_count());
    check(n.len() == n.byte_size(), "name len");
}

/// Less than 16 KiB and 1 KiB per byte of input were allocated since `before`.
fn modest(before: u64, len: usize) -> bool {
    allocated() - before < 16384 + 1024 * len as u64
}

/// Parses `b`; with `deep`, uses everything of the result.
pub fn parse(b: &[u8], deep: bool) {
    let before = allocated();
    let r = Packet::try_from(b);
    check(modest(before, b.len()), "memory in proportion to the input");
    match r {
        Ok(p) => {
            cover("accepted");
            if deep {
                exercise(&p);
            }
        }
        Err(_) => cover("rejected"),
    }
}

/// Any message of exactly param(0) bytes; param(1): use the result as well.
#[no_mangle]
pub extern "C" fn h_any() {
    let b = bytes(param(0));
    parse(&b, param(1) == 1);
}

/// Any message of param(0) bytes after a header whose counts are the digits of param(1) (e.g. 1200:
/// one question, two answers); param(2): use the result as well.
#[no_mangle]
pub extern "C" fn h_any_body() {
    let (n, counts, deep) = (param(0), param(1), param(2) == 1);
    let mut m = vec![2, 0x41, 0x81, 0x80];
    for d in [1000, 100, 10, 1] {
        m.push(0);
        m.push((counts / d % 10) as u8);
    }
    m.extend_from_slice(&bytes(n));
    parse(&m, deep);
}

/// A response with one record of type param(0) in section param(2) whose RDATA are any param(1)
/// bytes; param(3): use the result as well. Owner: root, or a pointer to a question when param(2) is 3.
/// param(4) = 10 * a + c: the c RDATA bytes from position a on are zero (say, a name that is the root).
#[no_mangle]
pub extern "C" fn h_any_rdata() {
    let m = rdata_msg(param(0) as u16, param(1), param(2), param(4));
    parse(&m, param(3) == 1);
}

pub fn rdata_msg(ty: u16, n: usize, section: usize, zero: usize) -> Vec<u8> {
    let mut w = W::new().u16(0x1234).u16(0x8180);
    let q = section == 3;
    for i in 0..4 {
        let c = if i == 0 { q } else if q { i == 1 } else { i == section + 1 };
        w = w.u16(c as u16);
    }
    if q {
        w = w.name(&labels(&[2, 1])).u16(1).u16(1).u16(0xc00c);
    } else {
        w = w.u8(0);
    }
    let mut rd = bytes(n);
    for i in 0..zero % 10 {
        rd[zero / 10 + i] = 0;
    }
    w.u16(ty).u16(1).u32(0x00010203).u16(n as u16).raw(&rd).0
}

/// The public parsers of the parts, on any param(1) bytes from any start position.
#[no_mangle]
pub extern "C" fn h_any_part() {
    let n = param(1);
    let b = bytes(n);
    let mut buf = DnsBuffer::from(&b[..]);
    let at = pick(n + 1);
    check(buf.set_position(at).is_ok(), "set_position inside");
    let before = allocated();
    let ok = match param(0) {
        0 => FQDN::try_from(&mut buf).is_ok(),
        1 => Question::try_from(&mut buf).is_ok(),
        2 => ResourceRecord::try_from(&mut buf).is_ok(),
        3 => Header::try_from(&mut buf).is_ok(),
        4 => buf.extract_character_string().is_ok(),
        5 => buf.extract_string().is_ok(),
        _ => Packet::try_from(&mut buf).is_ok(),
    };
    check(modest(before, n), "memory in proportion to the input");
    check(buf.position() <= n && buf.remaining() == n - buf.position(), "cursor stays inside the buffer");
    cover(if ok { "accepted" } else { "rejected" });
}

// ------------------------------------------------------------------------------------------------
// whatever was accepted survives being written and read again

#[inline(never)]
pub fn stable(m: &[u8]) {
    let p = match Packet::try_from(m) {
        Ok(p) => p,
        Err(_) => return cover("rejected"),
    };
    cover("accepted");
    let b = p.to_bytes();
    match Packet::try_from(&b[..]) {
        Ok(q) => {
            check(q == p, "decode(encode(decode(m))) == decode(m)");
            check(q.to_bytes() == b || has_opt(&p), "encoding is a fixpoint");
        }
        Err(_) => check(false, "an encoded packet is accepted again"),
    }
    let c = p.to_bytes_compressed();
    match Packet::try_from(&c[..]) {
        Ok(q) => check(q == p, "decode(compress(decode(m))) == decode(m)"),
        Err(_) => check(false, "a compressed packet is accepted again"),
    }
}

fn has_opt(p: &Packet) -> bool {
    p.answers().iter().chain(p.authorities()).chain(p.additionals()).any(|r| matches!(r.data(), RecordData::OPT(_)))
}

#[no_mangle]
pub extern "C" fn h_stable_body() {
    let (n, counts) = (param(0), param(1));
    let mut m = vec![2, 0x41, 0x81, 0x80];
    for d in [1000, 100, 10, 1] {
        m.push(0);
        m.push((counts / d % 10) as u8);
    }
    m.extend_from_slice(&bytes(n));
    stable(&m);
}

#[no_mangle]
pub extern "C" fn h_stable_rdata() {
    let m = rdata_msg(param(0) as u16, param(1), param(2), param(3));
    stable(&m);
}

// ------------------------------------------------------------------------------------------------
// header

fn ref_rcode(n: u8) -> Option<ResponseCode> {
    use ResponseCode::*;
    Some(match n {
        0 => NoError,
        1 => FormatError,
        2 => ServerFailure,
        3 => NameError,
        4 => NotImplemented,
        5 => Refused,
        6 => YXDomain,
        7 => YXRRSet,
        8 => NXRRSet,
        9 => NotAuth,
        10 => NotZone,
        _ => return None,
    })
}
fn ref_opcode(n: u8) -> OpCode {
    match n {
        0 => OpCode::StandardQuery,
        1 => OpCode::InverseQuery,
        2 => OpCode::ServerStatusRequest,
        _ => OpCode::Reserved,
    }
}

#[inline(never)]
fn check_header(h: &Header, f: u16) {
    check(h.query_response() == (f & 0x8000 != 0), "QR is bit 0");
    check(h.opcode() == ref_opcode((f >> 11) as u8 & 15), "OPCODE is bits 1-4");
    check(h.authoritative_answer() == (f & 0x0400 != 0), "AA is bit 5");
    check(h.truncation() == (f & 0x0200 != 0), "TC is bit 6");
    check(h.recursion_desired() == (f & 0x0100 != 0), "RD is bit 7");
    check(h.recursion_available() == (f & 0x0080 != 0), "RA is bit 8");
    check(Some(h.response_code()) == ref_rcode(f as u8 & 15), "RCODE is bits 12-15");
}

/// Header and packet header accessors against the RFC 1035 4.1.1 layout, for every header.
#[no_mangle]
pub extern "C" fn h_header() {
    let b = arr::<12>();
    let f = (b[2] as u16) << 8 | b[3] as u16;
    let mut buf = DnsBuffer::from(&b[..]);
    let h = match Header::try_from(&mut buf) {
        Ok(h) => h,
        Err(_) => {
            check(f & 15 > 10, "every header with a known RCODE is accepted");
            return cover("rejected");
        }
    };
    cover("accepted");
    check(f & 15 <= 10, "an unknown RCODE is rejected");
    check(buf.position() == 12, "a header is 12 bytes");
    check_header(&h, f);
    check(h.to_bytes() == b, "a header is written as it was read");
    check(h.byte_size() == 12, "header byte_size");
    let mut m = b;
    for i in 4..12 {
        m[i] = 0;
    }
    match Packet::try_from(&m[..]) {
        Ok(p) => {
            check_header(p.header(), f);
            check(p.id() == (b[0] as u16) << 8 | b[1] as u16, "ID is the first word");
            check(p.query_response() == h.query_response() && p.opcode() == h.opcode(), "packet QR, OPCODE");
            check(p.authoritative_answer() == h.authoritative_answer(), "packet AA");
            check(p.truncation() == h.truncation(), "packet TC");
            check(p.recursion_desired() == h.recursion_desired(), "packet RD");
            check(p.recursion_available() == h.recursion_available(), "packet RA");
            check(p.response_code() == h.response_code(), "packet RCODE");
            check(p.to_bytes() == m, "an empty packet is its header");
            check(p.to_bytes_compressed() == m, "an empty packet is its header (compressed)");
            check(p.byte_size() == 12, "empty packet byte_size");
        }
        Err(_) => check(false, "an empty packet is accepted"),
    }
}

/// Constructors and any sequence of param(0) setter calls on a header (param(1) = 1: via the packet).
#[no_mangle]
pub extern "C" fn h_header_set() {
    let via = param(1) == 1;
    let mut id = u16v();
    let mut f: u16;
    let mut h;
    match pick(3) {
        0 => {
            let rd = boolv();
            h = Header::new_query(id, rd);
            f = (rd as u16) << 8;
        }
        1 => {
            let o = pick(4) as u8;
            h = Header::new_reply(id, ref_opcode(o));
            f = 0x8000 | (o as u16) << 11;
        }
        _ => {
            f = u16v();
            assume(f & 15 <= 10);
            let b = W::new().u16(id).u16(f).u32(0).u32(0).0;
            h = match Header::try_from(&mut DnsBuffer::from(&b[..])) {
                Ok(h) => h,
                Err(_) => return check(false, "every header with a known RCODE is accepted"),
            };
        }
    }
    let mut p = Packet::default();
    p.set_header(h.clone());
    if pick(3) == 1 {
        // constructors of the packet
        let rd = boolv();
        if pick(2) == 0 {
            p = Packet::new_query(id, rd);
            h = Header::new_query(id, rd);
            f = (rd as u16) << 8;
        } else {
            p = Packet::new_reply(id);
            h = Header::new_reply(id, OpCode::StandardQuery);
            f = 0x8000;
        }
    }
    for _ in 0..param(0) {
        let bit = |f: u16, m: u16, v: bool| if v { f | m } else { f & !m };
        match pick(8) {
            0 => {
                let v = boolv();
                if via { p.set_recursion_desired(v) } else { h.set_recursion_desired(v) }
                f = bit(f, 0x0100, v);
            }
            1 => {
                let v = boolv();
                if via { p.set_truncation(v) } else { h.set_truncation(v) }
                f = bit(f, 0x0200, v);
            }
            2 => {
                let v = boolv();
                if via { p.set_authoritative_answer(v) } else { h.set_authoritative_answer(v) }
                f = bit(f, 0x0400, v);
            }
            3 => {
                let o = pick(4) as u8;
                if via { p.set_opcode(ref_opcode(o)) } else { h.set_opcode(ref_opcode(o)) }
                f = f & !0x7800 | (o as u16) << 11;
            }
            4 => {
                let v = boolv();
                if via { p.set_query_response(v) } else { h.set_query_response(v) }
                f = bit(f, 0x8000, v);
                if !v {
                    // a query carries no server status
                    f &= !0x008f;
                }
            }
            5 => {
                let r = pick(11) as u8;
                let c = ref_rcode(r).unwrap();
                if via { p.set_response_code(c) } else { h.set_response_code(c) }
                f = f & !15 | r as u16;
                if r != 0 {
                    f |= 0x8000;
                }
            }
            6 => {
                let v = boolv();
                if via { p.set_recursion_available(v) } else { h.set_recursion_available(v) }
                f = bit(f, 0x0080, v);
                if v {
                    f |= 0x8000;
                }
            }
            _ => {
                if via {
                    id = u16v();
                    p.set_id(id);
                }
            }
        }
    }
    let h = if via { p.header().clone() } else { h };
    check_header(&h, f);
    let b = h.to_bytes();
    check(b[..] == W::new().u16(id).u16(f).u32(0).u32(0).0[..], "a setter changes its own field only");
    check(b.len() == 12, "a header is 12 bytes");
    if via {
        check(p.id() == id, "packet id");
        check(p.to_bytes() == b && p.to_bytes_compressed() == b, "the packet writes its header");
    }
}

// ------------------------------------------------------------------------------------------------
// names

/// Name decoding against the reference decoder: any param(0) bytes, any start position, any cursor.
#[no_mangle]
pub extern "C" fn h_name_decode() {
    let n = param(0);
    let b = bytes(n);
    decode_case(&b, pick(n + 1));
}

#[inline(never)]
fn decode_case(b: &[u8], at: usize) {
    let mut buf = DnsBuffer::from(b);
    check(buf.set_position(at).is_ok(), "set_position inside");
    let got = buf.extract_fqdn();
    match (got, decode_name(b, at)) {
        (Ok(g), Ok((w, end))) => {
            cover("name accepted");
            check(g.iter().len() == w.len(), "number of labels");
            check(g == FQDN::from(w), "labels of a decoded name");
            check(buf.position() == end, "position after a name");
        }
        (Err(_), Err(_)) => cover("name rejected"),
        (Ok(_), Err(_)) => check(false, "a malformed name is rejected"),
        (Err(_), Ok(_)) => check(false, "a well-formed name is accepted"),
    }
}

/// Chains of pointers and long labels at concrete places with symbolic contents and targets.
#[no_mangle]
pub extern "C" fn h_name_layout() {
    let mut w;
    let at;
    match param(0) {
        // name - pointer to any place - pointer to any place
        0 => {
            w = W::new().raw(&bytes(1)).cs(&bytes(2)).u8(0).cs(&bytes(1)).raw(&[0xc0 | pick(2) as u8]).raw(&bytes(1));
            at = w.0.len();
            w = w.cs(&bytes(1)).raw(&[0xc0]).raw(&bytes(1));
        }
        // longest label, its end at or around the end of the buffer
        1 => {
            at = 1;
            w = W::new().u8(0).cs(&bytes(63)).u8(0);
            w.0.truncate(64 + pick(3));
        }
        // reserved label types and lengths up to 255
        2 => {
            at = 0;
            w = W::new().raw(&bytes(1)).raw(&vec![0; 256]);
        }
        // pointers above 255 and 4096
        3 => {
            let off = [254, 255, 256, 257, 511, 4095, 4096, 16382, 16383][pick(9)];
            w = W(vec![0xff; off]).cs(&bytes(2)).u8(0);
            at = w.0.len();
            w = w.cs(&bytes(1)).raw(&[0xc0 | (off >> 8) as u8, off as u8]);
        }
        // name of exactly 255 bytes behind a pointer
        4 => {
            w = W(vec![0; 12]).name(&labels(&[63, 63, 63, 61]));
            at = w.0.len();
            w = w.raw(&[0xc0, 12]);
        }
        // many one byte labels
        _ => {
            at = 3;
            w = W(vec![0; 3]).name(&labels(&[1; 127]));
        }
    }
    decode_case(&w.0, at);
}

/// A name built from any labels: wire form, size, round trip.
#[no_mangle]
pub extern "C" fn h_name_encode() {
    let ls = match param(0) {
        0 => {
            let k = pick(4);
            (0..k).map(|_| bytes(1 + pick(3))).collect::<Labels>()
        }
        1 => labels(&[63]),
        2 => labels(&[63, 63, 63, 61]),
        3 => labels(&[62, 1, 63]),
        4 => labels(&[1, 5]),
        5 => labels(&[5, 5, 3]),
        _ => labels(&[1; 127]),
    };
    let n = fq(&ls);
    let w = W::new().name(&ls).0;
    let b = n.to_bytes();
    check(b == w, "wire form of a name");
    check(n.byte_size() == w.len() && n.len() == w.len(), "size of a name");
    check(n.label_count() as usize == ls.len(), "number of labels");
    check(n.is_empty() == ls.is_empty() && n.is_root() == ls.is_empty(), "root name");
    let pad = pick(2) * 7;
    let mut m = vec![0xffu8; pad];
    m.extend_from_slice(&b);
    m.push(0x7f);
    let mut buf = DnsBuffer::from(&m[..]);
    check(buf.set_position(pad).is_ok(), "set_position inside");
    match FQDN::try_from(&mut buf) {
        Ok(g) => {
            check(g == n, "a name reads back equal");
            check(buf.position() == pad + b.len(), "a name ends at its terminator");
        }
        Err(_) => check(false, "a written name is accepted"),
    }
    let from_slice = FQDN::from(&ls[..]);
    check(from_slice == n, "From<&[Vec<u8>]>");
    let mut it = n.iter();
    for l in &ls {
        check(it.next() == Some(l), "iter yields the labels in order");
    }
    check(it.next().is_none(), "iter ends");
    if param(0) == 0 || param(0) > 3 {
        let local = ls.last().map(|l| &l[..] == b"local").unwrap_or(false);
        check(n.is_link_local() == local, "link local");
    }
}

/// Names from strings: labels are separated by dots, empty ones are dropped.
#[no_mangle]
pub extern "C" fn h_name_str() {
    let s = ascii(param(0));
    let st = std::str::from_utf8(&s).unwrap();
    let n = FQDN::new(st);
    let mut ls = Labels::new();
    let mut cur = Vec::new();
    for b in &s {
        if *b == b'.' {
            if !cur.is_empty() {
                ls.push(std::mem::take(&mut cur));
            }
        } else {
            cur.push(*b);
        }
    }
    if !cur.is_empty() {
        ls.push(cur);
    }
    check(n == fq(&ls), "labels of a name given as a string");
    check(FQDN::from(st) == n, "From<&str>");
    check(n.to_bytes() == W::new().name(&ls).0, "wire form of a name given as a string");
    check(n.is_root() == ls.is_empty() && n.is_empty() == ls.is_empty(), "root");
    check(n.label_count() as usize == ls.len(), "label count");
    let mut a = n.clone();
    a.append_label("xy");
    ls.push(b"xy".to_vec());
    check(a == fq(&ls), "append_label");
    check(a != n, "names with different labels differ");
    let parts: Vec<&str> = ls.iter().map(|l| std::str::from_utf8(l).unwrap()).collect();
    check(FQDN::from(&parts[..]) == a, "From<&[&str]>");
}

/// `Display` gives the labels joined by dots.
#[no_mangle]
pub extern "C" fn h_name_display() {
    let k = pick(3);
    let ls: Labels = (0..k).map(|_| ascii(1 + pick(2))).collect();
    let n = fq(&ls);
    let mut want = Vec::new();
    for (i, l) in ls.iter().enumerate() {
        if i > 0 {
            want.push(b'.');
        }
        want.extend_from_slice(l);
    }
    check(n.to_string().as_bytes() == &want[..], "text of a name");
    let local = FQDN::new("a.local");
    check(local.is_link_local() && !FQDN::new("local.a").is_link_local(), "link local");
}

/// Two names are equal exactly if their labels are.
#[no_mangle]
pub extern "C" fn h_name_eq() {
    let (a, b) = (name(4), name(4));
    check((fq(&a) == fq(&b)) == (a == b), "equality of names");
}

/// `Display` of any labels is well-formed text.
#[no_mangle]
pub extern "C" fn h_name_text() {
    let n = fq(&labels(&[param(0)]));
    let s = n.to_string();
    check(std::str::from_utf8(s.as_bytes()).is_ok(), "the text of a name is UTF-8");
}

// ------------------------------------------------------------------------------------------------
// questions and records

const QTYPES: [(u16, QType); 4] = [(252, QType::AXFR), (253, QType::MAILB), (254, QType::MAILA), (255, QType::ANY)];
const QCLASSES: [(u16, QClass); 6] =
    [(1, QClass::IN), (2, QClass::CS), (3, QClass::CH), (4, QClass::HS), (254, QClass::NONE), (255, QClass::ANY)];

fn q_types() -> Vec<(u16, QType)> {
    use QType::*;
    let mut v = vec![
        (1, A), (2, NS), (5, CNAME), (6, SOA), (10, NULL), (11, WKS), (12, PTR), (13, HINFO),
        (14, MINFO), (15, MX), (16, TXT), (28, AAAA), (29, LOC), (33, SRV), (35, NAPTR), (41, OPT),
        (42, APL), (44, SSHFP), (45, IPSECKEY), (49, DHCID), (52, TLSA), (55, HIP),
        (61, OPENPGPKEY), (62, CSYNC), (64, SVCB), (108, EUI48), (109, EUI64), (249, TKEY),
        (250, TSIG), (256, URI), (257, CAA),
    ];
    v.extend(QTYPES);
    #[cfg(feature = "dnssec")]
    v.extend([(43, DS), (46, RRSIG), (47, NSEC), (48, DNSKEY), (59, CDS), (60, CDNSKEY)]);
    v
}

const MDNS: bool = cfg!(feature = "mdns");

/// A question: constructors, setters, wire form, round trip, every type and class.
#[no_mangle]
pub extern "C" fn h_question() {
    let ls = if param(0) == 0 { name(5) } else { labels(&[63, 63, 63, 61]) };
    let ts = q_types();
    let (tn, t) = ts[pick(ts.len())];
    let (cn, c) = QCLASSES[pick(6)];
    let mut q;
    if pick(2) == 0 {
        q = Question::new(fq(&ls), t, c);
    } else {
        q = Question::new(FQDN::new("x"), QType::A, QClass::IN);
        q.set_name(fq(&ls));
        q.set_query_type(t);
        q.set_class(c);
    }
    let mut uni = false;
    #[cfg(feature = "mdns")]
    {
        check(!q.unicast_response(), "unicast response is off by default");
        uni = boolv();
        q.set_unicast_response(uni);
        check(q.unicast_response() == uni, "unicast response flag");
    }
    check(*q.name() == fq(&ls) && *q.query_type() == t && *q.class() == c, "accessors");
    let w = W::new().name(&ls).u16(tn).u16(cn | (uni as u16) << 15).0;
    let b = q.to_bytes();
    check(b == w, "wire form of a question");
    check(q.byte_size() == w.len(), "size of a question");
    let m = W(vec![0xee; 12]).raw(&w).raw(&bytes(1)).0;
    let mut buf = DnsBuffer::from(&m[..]);
    check(buf.set_position(12).is_ok(), "set_position inside");
    match Question::try_from(&mut buf) {
        Ok(g) => {
            check(g == q, "a question reads back equal");
            check(buf.position() == 12 + w.len(), "position after a question");
        }
        Err(_) => check(false, "a written question is accepted"),
    }
    // inside a packet, both ways
    let p = Packet::with_questions(u16v(), boolv(), vec![q.clone()]);
    let pb = p.to_bytes();
    check(pb[12..] == w[..], "a packet holds the question");
    let pc = p.to_bytes_compressed();
    check(pc == pb, "a single question can not be compressed");
}

/// Parsing a question from any type and class words.
#[no_mangle]
pub extern "C" fn h_question_parse() {
    let ls = labels(&[1]);
    let (t, c) = (u16v(), u16v());
    let m = W::new().name(&ls).u16(t).u16(c).0;
    let mut buf = DnsBuffer::from(&m[..]);
    let known_t = q_types().iter().any(|x| x.0 == t);
    let known_c = QCLASSES.iter().any(|x| x.0 == c & 0x7fff);
    match Question::try_from(&mut buf) {
        Ok(q) => {
            cover("accepted");
            check(known_t && known_c, "unknown types and classes are rejected");
            check(*q.query_type() as u16 == t, "type word");
            check(*q.class() as u16 == c & 0x7fff, "class word");
            #[cfg(feature = "mdns")]
            check(q.unicast_response() == (c >> 15 == 1), "unicast response is the top bit of the class");
            check(buf.position() == m.len(), "position after a question");
            let b = q.to_bytes();
            let want = if MDNS { c } else { c & 0x7fff };
            check(b == W::new().name(&ls).u16(t).u16(want).0, "a question is written as it was read");
        }
        Err(_) => {
            cover("rejected");
            check(!(known_t && known_c), "known types and classes are accepted");
        }
    }
}

/// A record around any RDATA: constructor, setters, wire form, round trip, both feature sets.
#[no_mangle]
pub extern "C" fn h_record() {
    let ls = if param(0) == 0 { name(5) } else { labels(&[63, 63, 63, 61]) };
    let (cw, ttl) = (u16v(), u32v());
    assume(cw < 0x8000);
    let rd = if param(0) == 0 { bytes(one_of(&[0, 1, 4])) } else { bytes(one_of(&[255, 256, 300])) };
    let class = match cw {
        1 => RecordClass::IN,
        2 => RecordClass::CS,
        3 => RecordClass::CH,
        4 => RecordClass::HS,
        v => RecordClass::UdpPayloadSize(v),
    };
    check(RecordClass::from(cw) == class, "class word");
    let val = Null::new(rd.clone()).into_record_data();
    let mut r;
    if pick(2) == 0 {
        r = ResourceRecord::new(fq(&ls), RecordType::NULL, class, ttl, val.clone());
    } else {
        r = ResourceRecord::new(FQDN::new("x"), RecordType::A, RecordClass::CH, 7, Null::new(vec![1]).into_record_data());
        r.set_name(fq(&ls));
        r.set_record_type(RecordType::NULL);
        r.set_class(class);
        r.set_time_to_live(ttl);
        if pick(2) == 0 {
            r.set_data(val.clone());
        } else {
            *r.data_mut() = val.clone();
        }
    }
    let mut fl = false;
    #[cfg(feature = "mdns")]
    {
        check(!r.cache_flush(), "cache flush is off by default");
        fl = boolv();
        r.set_cache_flush(fl);
        check(r.cache_flush() == fl, "cache flush flag");
    }
    check(*r.name() == fq(&ls) && *r.record_type() == RecordType::NULL && *r.class() == class, "accessors");
    check(r.time_to_live() == ttl && *r.data() == val && r.data_raw() == rd, "accessors");
    let w = W::new().rr(&ls, 10, cw | (fl as u16) << 15, ttl, &rd).0;
    check(r.to_bytes() == w, "wire form of a record");
    check(r.byte_size() == w.len(), "size of a record");
    // followed by other data, which must be left alone
    let m = W(vec![0xee; 12]).raw(&w).raw(&bytes(2)).0;
    let mut buf = DnsBuffer::from(&m[..]);
    check(buf.set_position(12).is_ok(), "set_position inside");
    match ResourceRecord::try_from(&mut buf) {
        Ok(g) => {
            check(g == r, "a record reads back equal");
            check(buf.position() == 12 + w.len(), "position after a record");
            check(g.take_data() == val, "take_data");
        }
        Err(_) => check(false, "a written record is accepted"),
    }
    // the record alone in a packet, compressed: nothing to point at
    let mut p = Packet::new_reply(3);
    p.add_answer(r);
    check(p.to_bytes_compressed()[12..] == w[..], "a single name can not be compressed");
}

/// Parsing a record from any class word and TTL: the class keeps 15 bits, mDNS takes the top one.
#[no_mangle]
pub extern "C" fn h_record_parse() {
    let (c, ttl) = (u16v(), u32v());
    let m = W::new().rr(&labels(&[1]), 10, c, ttl, &bytes(2)).0;
    let r = match ResourceRecord::try_from(&mut DnsBuffer::from(&m[..])) {
        Ok(r) => r,
        Err(_) => return check(false, "a NULL record of any class is accepted"),
    };
    check(r.time_to_live() == ttl, "ttl");
    check(u16::from(*r.class()) == c & 0x7fff, "class word");
    #[cfg(feature = "mdns")]
    {
        check(r.cache_flush() == (c >> 15 == 1), "cache flush is the top bit of the class");
        check(r.to_bytes() == m, "a record is written as it was read");
        // toggling the flag leaves the class alone
        let mut t = r.clone();
        t.set_cache_flush(!r.cache_flush());
        check(t.class() == r.class() && t.time_to_live() == ttl, "cache flush is independent of the class");
    }
}

/// RDATA is confined to RDLENGTH: a record of type param(0) with any param(1) RDATA bytes is judged
/// the same whatever follows it, and the cursor always ends behind the RDATA.
#[no_mangle]
pub extern "C" fn h_confined() {
    let (ty, n) = (param(0) as u16, param(1));
    let rd = bytes(n);
    let m = W(vec![0; 1]).rr(&vec![], ty, 1, 0, &rd).0;
    let k = m.len();
    let x = W(m.clone()).raw(&bytes(6)).0;
    let y = W(m.clone()).0;
    let mut bx = DnsBuffer::from(&x[..]);
    let mut by = DnsBuffer::from(&y[..]);
    check(bx.set_position(1).is_ok() && by.set_position(1).is_ok(), "set_position inside");
    let (rx, ry) = (ResourceRecord::try_from(&mut bx), ResourceRecord::try_from(&mut by));
    match (rx, ry) {
        (Ok(a), Ok(b)) => {
            cover("accepted");
            check(a == b, "a record does not depend on what follows it");
            check(bx.position() == k && by.position() == k, "the cursor ends behind the RDATA");
        }
        (Err(_), Err(_)) => cover("rejected"),
        _ => check(false, "acceptance does not depend on what follows the record"),
    }
}

// ------------------------------------------------------------------------------------------------
// RDATA

/// RDATA of kind param(0), sizes by level param(1): wire form, size, round trip.
#[no_mangle]
pub extern "C" fn h_rdata() {
    let s = spec(param(0));
    rdata_roundtrip(&s);
}

#[inline(never)]
fn rdata_roundtrip(s: &Spec) {
    let n = s.wire.len();
    let owner = labels(&[1]);
    let w = W::new().rr(&owner, s.ty, 1, 9, &s.wire).0;
    let m = W(vec![0xee; 12]).raw(&w).raw(&[0xaa]).0;
    let mut buf = DnsBuffer::from(&m[..]);
    check(buf.set_position(12).is_ok(), "set_position inside");
    let r = match ResourceRecord::try_from(&mut buf) {
        Ok(r) => r,
        Err(_) => return check(false, "valid RDATA is accepted"),
    };
    cover("accepted");
    check(*r.record_type() as u16 == s.ty, "record type");
    check(buf.position() == 12 + w.len(), "position after the record");
    let d = r.data();
    check(d.to_bytes() == s.wire, "RDATA is written as it was read");
    check(r.data_raw() == s.wire, "data_raw");
    check(size_ok(d.byte_size(), n, surplus(d)), "RDATA byte_size");
    check(r.to_bytes() == w, "the record is written as it was read");
    if let Some(v) = &s.val {
        check(v.to_bytes() == s.wire, "wire form of the value");
        check(v.byte_size() == n, "byte_size of the value");
        check(d == v, "the RDATA read is the value written");
    }
    match d {
        RecordData::APL(a) => {
            check(a.prefix == s.wire[2], "APL: prefix");
            check(a.n == (s.wire[3] >> 7 == 1), "APL: negation");
        }
        RecordData::SVCB(v) => {
            use std::mem::discriminant;
            check(v.priority == (s.wire[0] as u16) << 8 | s.wire[1] as u16, "SVCB: priority");
            let _ = discriminant(&v.mode());
        }
        _ => (),
    }
}

/// Several EDNS options: the set of options survives, whatever their order.
#[no_mangle]
pub extern "C" fn h_opt() {
    let k = param(0);
    let mut w = W::new();
    let mut want: HashMap<u16, Vec<u8>> = HashMap::new();
    for _ in 0..k {
        let (c, d) = (u16v(), bytes(pick(3)));
        assume(!want.contains_key(&c));
        w = w.u16(c).u16(d.len() as u16).raw(&d);
        want.insert(c, d);
    }
    let o = match Opt::try_from(&mut DnsBuffer::from(&w.0[..])) {
        Ok(o) => o,
        Err(_) => return check(false, "valid options are accepted"),
    };
    check(o.0.len() == k && o.0 == want, "the options read");
    let b = o.to_bytes();
    check(b.len() == w.0.len() && o.byte_size() == b.len(), "size of the options");
    match Opt::try_from(&mut DnsBuffer::from(&b[..])) {
        Ok(p) => check(p == o, "the options survive"),
        Err(_) => check(false, "written options are accepted"),
    }
}

/// APL address parts of any length: missing octets are zero, too many are rejected.
#[no_mangle]
pub extern "C" fn h_apl() {
    let v6 = pick(2) == 1;
    let full = if v6 { 16 } else { 4 };
    let n = pick(20);
    let (p, neg, a) = (u8v(), boolv(), bytes(n));
    let fam = if v6 { 2 } else { 1 };
    let w = W::new().u16(fam).u8(p).u8((neg as u8) << 7 | n as u8).raw(&a).0;
    match Apl::try_from(&mut DnsBuffer::from(&w[..])) {
        Ok(x) => {
            cover("accepted");
            check(n <= full, "an address part longer than an address is rejected");
            let mut f = a.clone();
            f.resize(full, 0);
            check(x.prefix == p && x.n == neg, "APL fields");
            check(x.to_bytes() == W::new().u16(fam).u8(p).u8((neg as u8) << 7 | full as u8).raw(&f).0, "APL address");
            check(x.byte_size() == 4 + full, "APL size");
        }
        Err(_) => {
            cover("rejected");
            check(n > full, "an address part of up to an address is accepted");
        }
    }
}

/// Type bitmaps: any window number and any bitmap of up to param(1) octets, in CSYNC (param(0) = 0)
/// or NSEC (1): exactly the types whose bits are set, and unknown types or oversized windows rejected.
#[no_mangle]
pub extern "C" fn h_bitmap() {
    let n = param(1);
    let win = u8v();
    let map = bytes(n);
    let all = all_types();
    let mut want = std::collections::BTreeSet::new();
    let mut unknown = n > 32;
    for i in 0..n {
        for j in 0..8u16 {
            if map[i] & (0x80 >> j) != 0 {
                let code = win as u32 * 256 + i as u32 * 8 + j as u32;
                match all.iter().find(|t| t.0 as u32 == code) {
                    Some(t) => {
                        want.insert(t.1);
                    }
                    None => unknown = true,
                }
            }
        }
        if unknown {
            break;
        }
    }
    let head = if param(0) == 0 { W::new().u32(1).u16(3) } else { W::new().u8(0) };
    let w = head.u8(win).u8(n as u8).raw(&map).0;
    let mut buf = DnsBuffer::from(&w[..]);
    let got = if param(0) == 0 {
        Csync::try_from(&mut buf).map(|c| c.types)
    } else {
        #[cfg(feature = "dnssec")]
        let r = Nsec::try_from(&mut buf).map(|c| c.types);
        #[cfg(not(feature = "dnssec"))]
        let r = Err(DnsError::LengthViolation);
        r
    };
    match got {
        Ok(t) => {
            cover("accepted");
            check(!unknown, "unknown types are rejected");
            check(t == want, "the types of a bitmap");
        }
        Err(_) => {
            cover("rejected");
            check(unknown, "a bitmap of known types is accepted");
        }
    }
}

// ------------------------------------------------------------------------------------------------
// code points

#[no_mangle]
pub extern "C" fn h_codes() {
    let n = u16v();
    match param(0) {
        0 => match RecordType::try_from(n) {
            Ok(t) => {
                cover("known");
                check(u16::from(t) == n && t as u16 == n, "record type code");
                check(t.to_bytes() == n.to_be_bytes() && t.byte_size() == 2, "record type bytes");
                check(all_types().iter().any(|x| x.0 == n && x.1 == t), "record type assignment");
            }
            Err(_) => {
                cover("unknown");
                check(!all_types().iter().any(|x| x.0 == n), "assigned record types are known");
            }
        },
        1 => match QType::try_from(n) {
            Ok(t) => {
                cover("known");
                check(u16::from(t) == n && t as u16 == n, "query type code");
                check(t.to_bytes() == n.to_be_bytes() && t.byte_size() == 2, "query type bytes");
                check(q_types().iter().any(|x| x.0 == n && x.1 == t), "query type assignment");
            }
            Err(_) => {
                cover("unknown");
                check(!q_types().iter().any(|x| x.0 == n), "assigned query types are known");
            }
        },
        2 => match QClass::try_from(n) {
            Ok(c) => {
                cover("known");
                let n = n & 0x7fff;
                check(u16::from(c) == n && c as u16 == n, "query class code");
                check(c.to_bytes() == n.to_be_bytes() && c.byte_size() == 2, "query class bytes");
                check(QCLASSES.iter().any(|x| x.0 == n && x.1 == c), "query class assignment");
            }
            Err(_) => {
                cover("unknown");
                check(!QCLASSES.iter().any(|x| x.0 == n & 0x7fff), "assigned query classes are known");
            }
        },
        3 => {
            let c = RecordClass::from(n);
            let n = n & 0x7fff;
            check(u16::from(c) == n, "class code");
            check(c.to_bytes() == n.to_be_bytes() && c.byte_size() == 2, "class bytes");
            check((c == RecordClass::IN) == (n == 1) && (c == RecordClass::CS) == (n == 2), "class assignment");
            check((c == RecordClass::CH) == (n == 3) && (c == RecordClass::HS) == (n == 4), "class assignment");
        }
        4 => {
            let b = n as u8;
            check(OpCode::from(b) == ref_opcode(b), "opcode assignment");
            match ResponseCode::try_from(b) {
                Ok(r) => {
                    cover("known");
                    check(r as u8 == b && ref_rcode(b) == Some(r), "response code assignment");
                }
                Err(_) => {
                    cover("unknown");
                    check(b > 10, "assigned response codes are known");
                }
            }
        }
        5 => {
            let b = n as u8;
            match Algorithm::try_from(b) {
                Ok(a) => {
                    cover("known");
                    check(b <= 5 && u8::from(a) == b, "algorithm code");
                }
                Err(_) => {
                    cover("unknown");
                    check(b > 5, "assigned algorithms are known");
                }
            }
        }
        6 => {
            use maybe_dns::rdata::sshfp::FingerprintType as F;
            use maybe_dns::rdata::tlsa::*;
            let b = n as u8;
            check(F::try_from(b).map(u8::from).ok() == if b <= 1 { Some(b) } else { None }, "SSHFP fingerprint type");
            check(CertUsage::try_from(b).map(u8::from).ok() == if b <= 3 { Some(b) } else { None }, "TLSA usage");
            check(Selector::try_from(b).map(u8::from).ok() == if b <= 1 { Some(b) } else { None }, "TLSA selector");
            check(MatchingType::try_from(b).map(u8::from).ok() == if b <= 2 { Some(b) } else { None }, "TLSA matching");
        }
        7 => {
            use maybe_dns::rdata::dhcid::IdentifierType as I;
            use maybe_dns::rdata::{naptr, tkey, tsig};
            check(I::try_from(n).map(u16::from).ok() == if n <= 2 { Some(n) } else { None }, "DHCID identifier type");
            let m = n >= 1 && n <= 65534;
            check(tkey::Mode::try_from(n).map(u16::from).ok() == if m { Some(n) } else { None }, "TKEY mode");
            check(tkey::Error::try_from(n).map(u16::from).ok() == if n <= 21 { Some(n) } else { None }, "TKEY error");
            let t = n == 0 || n == 16 || n == 17 || n == 18 || n == 22;
            check(tsig::Error::try_from(n).map(u16::from).ok() == if t { Some(n) } else { None }, "TSIG error");
            let b = n as u8;
            let f = b == b'S' || b == b'A' || b == b'U' || b == b'P';
            check(naptr::Flag::try_from(b).map(u8::from).ok() == if f { Some(b) } else { None }, "NAPTR flag");
        }
        #[cfg(feature = "dnssec")]
        8 => {
            // algorithm and digest type numbers, as far as they show in DS and DNSKEY records
            let b = n as u8;
            let w = [0, 1, b, 1];
            match Ds::try_from(&mut DnsBuffer::from(&w[..])) {
                Ok(d) => {
                    cover("known");
                    check(sec::ALGS.contains(&b) && u8::from(d.algorithm) == b, "DNSSEC algorithm");
                }
                Err(_) => {
                    cover("unknown");
                    check(!sec::ALGS.contains(&b), "assigned DNSSEC algorithms are known");
                }
            }
            let w = [0, 1, 15, b];
            let known = b == 1 || b == 2 || b == 4 || b == 5;
            match Ds::try_from(&mut DnsBuffer::from(&w[..])) {
                Ok(d) => check(known && u8::from(d.digest_type) == b, "digest type"),
                Err(_) => check(!known, "assigned digest types are known"),
            }
            let w = [1, 1, 3, b];
            match DnsKey::try_from(&mut DnsBuffer::from(&w[..])) {
                Ok(d) => check(sec::ALGS.contains(&b) && u8::from(d.algorithm) == b, "DNSKEY algorithm"),
                Err(_) => check(!sec::ALGS.contains(&b), "assigned DNSSEC algorithms are known"),
            }
        }
        _ => {
            // the type number of a record decides how its RDATA is read
            let all = all_types();
            let (code, t) = all[pick(all.len())];
            let w = [0u8; 64];
            let mut b = DnsBuffer::from(&w[..40]);
            if let Ok(d) = RecordData::from(t, &mut b) {
                cover("known");
                check(data_code(&d) == code, "the type number selects the RDATA format");
            }
        }
    }
}

fn data_code(d: &RecordData) -> u16 {
    match d {
        RecordData::A(_) => 1,
        RecordData::NS(_) => 2,
        RecordData::CNAME(_) => 5,
        RecordData::SOA(_) => 6,
        RecordData::NULL(_) => 10,
        RecordData::WKS(_) => 11,
        RecordData::PTR(_) => 12,
        RecordData::HINFO(_) => 13,
        RecordData::MINFO(_) => 14,
        RecordData::MX(_) => 15,
        RecordData::TXT(_) => 16,
        RecordData::AAAA(_) => 28,
        RecordData::LOC(_) => 29,
        RecordData::SRV(_) => 33,
        RecordData::NAPTR(_) => 35,
        RecordData::OPT(_) => 41,
        RecordData::APL(_) => 42,
        RecordData::SSHFP(_) => 44,
        RecordData::IPSECKEY(_) => 45,
        RecordData::DHCID(_) => 49,
        RecordData::TLSA(_) => 52,
        RecordData::HIP(_) => 55,
        RecordData::OPENPGPKEY(_) => 61,
        RecordData::CSYNC(_) => 62,
        RecordData::SVCB(_) => 64,
        RecordData::EUI48(_) => 108,
        RecordData::EUI64(_) => 109,
        RecordData::TKEY(_) => 249,
        RecordData::TSIG(_) => 250,
        RecordData::URI(_) => 256,
        RecordData::CAA(_) => 257,
        #[cfg(feature = "dnssec")]
        RecordData::DS(_) => 43,
        #[cfg(feature = "dnssec")]
        RecordData::RRSIG(_) => 46,
        #[cfg(feature = "dnssec")]
        RecordData::NSEC(_) => 47,
        #[cfg(feature = "dnssec")]
        RecordData::DNSKEY(_) => 48,
        #[cfg(feature = "dnssec")]
        RecordData::CDS(_) => 59,
        #[cfg(feature = "dnssec")]
        RecordData::CDNSKEY(_) => 60,
    }
}

// ------------------------------------------------------------------------------------------------
// DnsBuffer

/// Any sequence of param(1) buffer operations on any param(0) bytes against a model of the cursor.
#[no_mangle]
pub extern "C" fn h_buffer() {
    let n = param(0);
    let b = bytes(n);
    let mut buf = DnsBuffer::from(&b[..]);
    let mut pos = 0usize;
    for _ in 0..param(1) {
        match pick(11) {
            0 => {
                let k = u64v() as usize;
                check(buf.set_position(k).is_ok() == (k <= n), "set_position");
                if k <= n {
                    pos = k;
                }
            }
            1 => {
                let k = u64v() as usize;
                check(buf.advance(k).is_ok() == (k <= n - pos), "advance");
                if k <= n - pos {
                    pos += k;
                }
            }
            2 => {
                let k = small_or_huge(n);
                match buf.peek_bytes(k) {
                    Ok(x) => check(k <= n - pos && x == &b[pos..pos + k], "peek_bytes"),
                    Err(_) => check(k > n - pos, "peek_bytes refuses"),
                }
            }
            3 => {
                let k = small_or_huge(n);
                match buf.extract_bytes(k) {
                    Ok(x) => {
                        check(k <= n - pos && x == &b[pos..pos + k], "extract_bytes");
                        pos += k;
                    }
                    Err(_) => check(k > n - pos, "extract_bytes refuses"),
                }
            }
            4 => match buf.extract_u8() {
                Ok(x) => {
                    check(n - pos >= 1 && x == b[pos], "extract_u8");
                    pos += 1;
                }
                Err(_) => check(n - pos < 1, "extract_u8 refuses"),
            },
            5 => match buf.extract_u16() {
                Ok(x) => {
                    check(n - pos >= 2 && x == (b[pos] as u16) << 8 | b[pos + 1] as u16, "extract_u16");
                    pos += 2;
                }
                Err(_) => check(n - pos < 2, "extract_u16 refuses"),
            },
            6 => match buf.extract_u32() {
                Ok(x) => {
                    check(n - pos >= 4, "extract_u32");
                    let w = (b[pos] as u32) << 24 | (b[pos + 1] as u32) << 16 | (b[pos + 2] as u32) << 8 | b[pos + 3] as u32;
                    check(x == w, "extract_u32");
                    pos += 4;
                }
                Err(_) => check(n - pos < 4, "extract_u32 refuses"),
            },
            7 => {
                let fits = pos < n && b[pos] as usize <= n - pos - 1;
                match buf.extract_character_string() {
                    Ok(x) => {
                        check(fits && x[..] == b[pos + 1..pos + 1 + b[pos] as usize], "extract_character_string");
                        pos += 1 + x.len();
                    }
                    Err(_) => {
                        check(!fits, "extract_character_string refuses");
                        return;
                    }
                }
            }
            8 => {
                let fits = pos < n && b[pos] as usize <= n - pos - 1;
                match buf.extract_string() {
                    Ok(x) => {
                        check(fits && x.as_bytes() == &b[pos + 1..pos + 1 + b[pos] as usize], "extract_string");
                        pos += 1 + x.len();
                    }
                    Err(_) => {
                        check(
                            !fits || std::str::from_utf8(&b[pos + 1..pos + 1 + b[pos] as usize]).is_err(),
                            "extract_string refuses",
                        );
                        return;
                    }
                }
            }
            9 => {
                let k = small_or_huge(n);
                match buf.sub_buffer(k) {
                    Ok(s) => {
                        check(k <= n - pos, "sub_buffer");
                        check(s.position() == pos && s.remaining() == k, "extent of a sub buffer");
                        check(s.as_slice() == &b[..pos + k], "contents of a sub buffer");
                    }
                    Err(_) => check(k > n - pos, "sub_buffer refuses"),
                }
            }
            _ => match buf.extract_u16_as::<RecordType>() {
                Ok(t) => {
                    check(n - pos >= 2 && t as u16 == (b[pos] as u16) << 8 | b[pos + 1] as u16, "extract_u16_as");
                    pos += 2;
                }
                Err(_) => return,
            },
        }
        check(buf.position() == pos && buf.remaining() == n - pos, "cursor");
        check(buf.as_slice() == &b[..], "as_slice is the whole buffer");
    }
}

fn small_or_huge(n: usize) -> usize {
    let k = pick(n + 4);
    match k - k.saturating_sub(n + 1) {
        _ if k <= n + 1 => k,
        _ if k == n + 2 => usize::MAX,
        _ => usize::MAX - 1,
    }
}

// ------------------------------------------------------------------------------------------------
// whole packets

fn rec(owner: &Labels, ttl: u32, d: RecordData, ty: RecordType) -> ResourceRecord {
    ResourceRecord::new(fq(owner), ty, RecordClass::IN, ttl, d)
}

/// Any history of param(0) mutations: counts and contents of both serialisations.
#[no_mangle]
pub extern "C" fn h_history() {
    let mut p;
    // what the packet has to contain: the TTL (or type) marks identify the entries
    let mut qs: Vec<u8> = Vec::new();
    let mut rs: [Vec<u8>; 3] = [Vec::new(), Vec::new(), Vec::new()];
    let mut mark = 0u8;
    let question = |m: u8| Question::new(FQDN::from(vec![vec![m]]), QType::A, QClass::IN);
    let record = |m: u8| rec(&vec![vec![m]], m as u32, Null::new(vec![m]).into_record_data(), RecordType::NULL);
    match pick(5) {
        0 => p = Packet::default(),
        1 => p = Packet::new_query(1, true),
        2 => p = Packet::new_reply(1),
        3 => {
            let k = pick(3) as u8;
            qs = (1..=k).collect();
            mark = k;
            p = Packet::with_questions(1, false, qs.iter().map(|m| question(*m)).collect());
        }
        _ => {
            let m = W::new().u16(7).u16(0x8000).u16(1).u16(1).u16(1).u16(1)
                .name(&vec![vec![1]]).u16(1).u16(1)
                .rr(&vec![vec![2]], 10, 1, 2, &[2])
                .rr(&vec![vec![3]], 10, 1, 3, &[3])
                .rr(&vec![vec![4]], 10, 1, 4, &[4]).0;
            p = match Packet::try_from(&m[..]) {
                Ok(p) => p,
                Err(_) => return check(false, "a valid packet is accepted"),
            };
            qs = vec![1];
            rs = [vec![2], vec![3], vec![4]];
            mark = 4;
        }
    }
    for _ in 0..param(0) {
        let op = pick(16);
        match op {
            0 => {
                mark += 1;
                qs.push(mark);
                p.add_question(question(mark));
            }
            1..=3 => {
                mark += 1;
                rs[op - 1].push(mark);
                let r = record(mark);
                match op {
                    1 => p.add_answer(r),
                    2 => p.add_authority(r),
                    _ => p.add_additional(r),
                }
            }
            4 => {
                let k = pick(3) as u8;
                qs = (mark + 1..=mark + k).collect();
                mark += k;
                p.set_questions(qs.iter().map(|m| question(*m)).collect());
            }
            5..=7 => {
                let k = pick(3) as u8;
                rs[op - 5] = (mark + 1..=mark + k).collect();
                mark += k;
                let v = rs[op - 5].iter().map(|m| record(*m)).collect();
                match op {
                    5 => p.set_answers(v),
                    6 => p.set_authorities(v),
                    _ => p.set_additionals(v),
                }
            }
            8 => {
                let t = p.take_questions();
                check(t.len() == qs.len(), "take_questions");
                qs.clear();
            }
            9..=11 => {
                let t = match op {
                    9 => p.take_answers(),
                    10 => p.take_authorities(),
                    _ => p.take_additionals(),
                };
                check(t.len() == rs[op - 9].len(), "take records");
                for (r, m) in t.iter().zip(&rs[op - 9]) {
                    check(r.time_to_live() == *m as u32, "taken records");
                }
                rs[op - 9].clear();
            }
            12 => {
                mark += 1;
                qs.push(mark);
                p.questions_mut().push(question(mark));
            }
            13 => {
                qs.pop();
                p.questions_mut().pop();
            }
            14 => {
                // a header with counts of its own
                let mut w = W::new().u16(9).u16(0x0100).0;
                w.extend_from_slice(&bytes(8));
                match Header::try_from(&mut DnsBuffer::from(&w[..])) {
                    Ok(h) => p.set_header(h),
                    Err(_) => return check(false, "a valid header is accepted"),
                }
            }
            _ => p.set_header(Header::new_query(5, false)),
        }
    }
    let mut w = W::new().u16(qs.len() as u16);
    for r in &rs {
        w = w.u16(r.len() as u16);
    }
    for m in &qs {
        w = w.name(&vec![vec![*m]]).u16(1).u16(1);
    }
    for m in rs.iter().flatten() {
        w = w.rr(&vec![vec![*m]], 10, 1, *m as u32, &[*m]);
    }
    let b = p.to_bytes();
    check(b[4..] == w.0[..], "counts and sections of the packet");
    check(p.byte_size() == b.len(), "size of the packet");
    let c = p.to_bytes_compressed();
    check(c[4..] == w.0[..], "counts and sections of the compressed packet");
    check(b[..4] == c[..4], "both forms start with the same header");
    check(p.questions().len() == qs.len() && p.answers().len() == rs[0].len(), "lengths");
    check(p.authorities().len() == rs[1].len() && p.additionals().len() == rs[2].len(), "lengths");
    match Packet::try_from(&b[..]) {
        Ok(q) => {
            check(q.questions() == p.questions() && q.answers() == p.answers(), "sections read back");
            check(q.authorities() == p.authorities() && q.additionals() == p.additionals(), "sections read back");
        }
        Err(_) => check(false, "a written packet is accepted"),
    }
}

/// Sections with param(0) entries: two-byte counts.
#[no_mangle]
pub extern "C" fn h_many() {
    let n = param(0);
    let sec = pick(4);
    let how = pick(3);
    let mut p = Packet::new_reply(1);
    let x = u8v();
    let q = Question::new(FQDN::default(), QType::A, QClass::IN);
    let r = rec(&vec![], x as u32, Null::new(vec![]).into_record_data(), RecordType::NULL);
    if how == 0 {
        for _ in 0..n {
            match sec {
                0 => p.add_question(q.clone()),
                1 => p.add_answer(r.clone()),
                2 => p.add_authority(r.clone()),
                _ => p.add_additional(r.clone()),
            }
        }
    } else {
        match sec {
            0 if how == 1 => p = Packet::with_questions(1, true, vec![q; n]),
            0 => p.set_questions(vec![q; n]),
            1 => p.set_answers(vec![r; n]),
            2 => p.set_authorities(vec![r; n]),
            _ => p.set_additionals(vec![r; n]),
        }
    }
    let b = p.to_bytes();
    let c = p.to_bytes_compressed();
    for i in 0..4 {
        let want = if i == sec { n } else { 0 };
        check(b[4 + 2 * i] as usize * 256 + b[5 + 2 * i] as usize == want, "count in the header");
        check(c[4 + 2 * i] as usize * 256 + c[5 + 2 * i] as usize == want, "count in the compressed header");
    }
    check(p.byte_size() == b.len(), "size of the packet");
    check(b.len() == 12 + n * if sec == 0 { 5 } else { 11 }, "size of the packet");
    match Packet::try_from(&b[..]) {
        Ok(g) => {
            let l = [g.questions().len(), g.answers().len(), g.authorities().len(), g.additionals().len()];
            for i in 0..4 {
                check(l[i] == if i == sec { n } else { 0 }, "entries read back");
            }
        }
        Err(_) => check(false, "a written packet is accepted"),
    }
}

/// A name-bearing record of kind k with names drawn from `pool`.
fn name_record(k: usize, owner: &Labels, a: &Labels, b: &Labels) -> ResourceRecord {
    let (ty, d) = match k {
        0 => (RecordType::NS, Ns::new(fq(a)).into_record_data()),
        1 => (RecordType::CNAME, Cname::new(fq(a)).into_record_data()),
        2 => (RecordType::PTR, Ptr::new(fq(a)).into_record_data()),
        3 => (RecordType::MX, Mx::new(0x0101, fq(a)).into_record_data()),
        4 => (RecordType::SRV, Srv::new(1, 2, 3, fq(a)).into_record_data()),
        5 => (RecordType::SOA, Soa::new(fq(a), fq(b), 1, 2, 3, 4, 5).into_record_data()),
        6 => (RecordType::MINFO, Minfo::new(fq(a), fq(b)).into_record_data()),
        7 => (
            RecordType::NAPTR,
            Naptr::new(1, 2, vec![naptr::Flag::S], vec![9, 9], "!".into(), fq(a)).into_record_data(),
        ),
        #[cfg(feature = "dnssec")]
        8 => (
            RecordType::NSEC,
            Nsec::with_types(fq(a), [RecordType::A, RecordType::CAA].into_iter().collect()).into_record_data(),
        ),
        _ => (RecordType::TXT, Txt::new(vec!["x".into()]).into_record_data()),
    };
    rec(owner, 77, d, ty)
}

#[inline(never)]
fn compressed_ok(p: &Packet) {
    let b = p.to_bytes();
    let c = p.to_bytes_compressed();
    check(c.len() <= b.len(), "compression never makes a packet longer");
    match expand(&c) {
        // every pointer refers to an earlier name, and following them gives the uncompressed packet
        Some(x) => check(x == b, "following the pointers gives the uncompressed packet"),
        None => check(false, "a compressed packet is well-formed"),
    }
    match Packet::try_from(&c[..]) {
        Ok(q) => {
            check(q.questions() == p.questions() && q.answers() == p.answers(), "sections read back");
            check(q.authorities() == p.authorities() && q.additionals() == p.additionals(), "sections read back");
        }
        Err(_) => check(false, "a compressed packet is accepted"),
    }
    if c.len() < b.len() {
        cover("compressed");
    }
}

/// Compression of a packet: a question, then records of kinds param(0) and param(1) whose names are
/// built from two symbolic labels, so that the names may share any suffixes.
#[no_mangle]
pub extern "C" fn h_compress() {
    let l: Vec<Vec<u8>> = vec![bytes(1), bytes(1), bytes(2)];
    let pool: Vec<Labels> = vec![
        vec![],
        vec![l[0].clone()],
        vec![l[1].clone(), l[0].clone()],
        vec![l[2].clone(), l[1].clone(), l[0].clone()],
        vec![l[0].clone(), l[0].clone()],
    ];
    let (k1, k2, wide) = (param(0), param(1), param(2));
    let n = if wide == 0 { 3 } else { 5 };
    let mut p = Packet::new_reply(1);
    p.add_question(Question::new(fq(&pool[1 + pick(n - 1)]), QType::A, QClass::IN));
    p.add_answer(name_record(k1, &pool[1 + pick(2)], &pool[pick(n)], &pool[pick(3)]));
    let second = name_record(k2, &pool[pick(n)], &pool[1 + pick(2)], &pool[2]);
    if pick(2) == 0 {
        p.add_authority(second);
    } else {
        p.add_additional(second);
    }
    compressed_ok(&p);
}

/// Compression around the boundaries: names at offsets around 0x3fff, long labels, names with empty
/// labels, all RDATA kinds that carry names but must not break.
#[no_mangle]
pub extern "C" fn h_compress_edge() {
    let x = vec![bytes(2), bytes(1)];
    let mut p = Packet::new_reply(1);
    match param(0) {
        // a filler record moves the following names to offsets around 2^14, 2^16
        0 => {
            let base = [0x3ff0usize, 0x3ffe, 0x7ff0][pick(3)];
            let at = base + pick(16);
            // 12 header, 1 root, 10 fixed
            let fill = at - 12 - 11;
            p.add_answer(rec(&vec![], 0, Null::new(vec![0x11; fill]).into_record_data(), RecordType::NULL));
            p.add_answer(rec(&x, 0, Null::new(vec![]).into_record_data(), RecordType::NULL));
            p.add_answer(rec(&x, 0, Null::new(vec![1]).into_record_data(), RecordType::NULL));
            let sub: Labels = vec![vec![7], x[0].clone(), x[1].clone()];
            p.add_additional(name_record(pick(9), &sub, &x, &sub));
        }
        // offsets of one and two bytes
        1 => {
            let fill = 200 + pick(80);
            p.add_answer(rec(&vec![], 0, Null::new(vec![0x11; fill]).into_record_data(), RecordType::NULL));
            p.add_answer(name_record(5, &x, &vec![vec![9], x[1].clone()], &x));
            p.add_additional(name_record(4, &x, &x, &x));
        }
        // empty labels in names from the API
        2 => {
            let e: Labels = vec![x[0].clone(), vec![], x[1].clone()];
            let f: Labels = vec![vec![], x[1].clone()];
            let g: Labels = vec![x[1].clone(), vec![]];
            let pool = [e, f, g, x.clone()];
            let (a, b) = (pick(4), pick(4));
            p.add_question(Question::new(fq(&pool[a]), QType::A, QClass::IN));
            p.add_question(Question::new(fq(&pool[b]), QType::A, QClass::IN));
            let u = p.to_bytes();
            let c = p.to_bytes_compressed();
            check(expand(&c) == Some(u), "empty labels are left out in both forms");
            return;
        }
        // longest labels and names
        3 => {
            let a = labels(&[63, 63]);
            let b: Labels = vec![bytes(1), a[0].clone(), a[1].clone()];
            let c: Labels = vec![a[1].clone()];
            p.add_question(Question::new(fq(&a), QType::A, QClass::IN));
            p.add_answer(name_record(pick(9), &b, &c, &a));
        }
        // every RDATA kind after a question with the same name in it
        _ => {
            p.add_question(Question::new(fq(&x), QType::ANY, QClass::IN));
            let s = spec(param(0) - 4);
            let w = W::new().rr(&x, s.ty, 1, 9, &s.wire).0;
            match ResourceRecord::try_from(&mut DnsBuffer::from(&w[..])) {
                Ok(r) => p.add_answer(r),
                Err(_) => return check(false, "valid RDATA is accepted"),
            }
            p.add_additional(rec(&x, 0, A::from(7).into_record_data(), RecordType::A));
        }
    }
    compressed_ok(&p);
}

/// The compressor really compresses: a repeated name costs two bytes.
#[no_mangle]
pub extern "C" fn h_compress_gain() {
    let n = labels(&[3, 2]);
    let mut p = Packet::new_reply(1);
    p.add_question(Question::new(fq(&n), QType::A, QClass::IN));
    let k = 1 + pick(3);
    for _ in 0..k {
        p.add_answer(rec(&n, 1, A::from(u32v()).into_record_data(), RecordType::A));
    }
    let c = p.to_bytes_compressed();
    check(c.len() == 12 + 8 + 4 + k * 16, "a repeated owner name becomes a pointer");
    compressed_ok(&p);
}

/// A packet whose last record is of kind param(0): every proper prefix is rejected, the whole is
/// accepted.
#[no_mangle]
pub extern "C" fn h_prefix() {
    let s = spec(param(0));
    let w = W::new().u16(1).u16(0x8000).u16(1).u16(1).u16(0).u16(1)
        .name(&labels(&[1])).u16(1).u16(1)
        .rr(&vec![], 1, 1, 9, &[1, 2, 3, 4])
        .rr(&labels(&[1]), s.ty, 1, 9, &s.wire).0;
    let n = w.len();
    let cut = if n <= 250 {
        pick(n + 1)
    } else {
        match pick(3) {
            0 => n - 1 - pick(200),
            1 => pick(50),
            _ => n,
        }
    };
    if cut < n {
        check(Packet::try_from(&w[..cut]).is_err(), "a truncated packet is rejected");
        cover("truncated");
    } else {
        check(Packet::try_from(&w[..]).is_ok(), "the whole packet is accepted");
        cover("whole");
    }
}

/// A valid message with records of kind param(0) (kind 0: only questions) whose counts announce one
/// entry more than there is, in each of the sections, is rejected.
#[no_mangle]
pub extern "C" fn h_missing() {
    let s = spec(param(0));
    let (nq, na) = (pick(3), pick(3));
    let mut w = W::new();
    for _ in 0..nq {
        w = w.u8(0).u16(1).u16(1);
    }
    for _ in 0..na {
        w = w.u8(0).u16(s.ty).u16(1).u32(0).u16(s.wire.len() as u16).raw(&s.wire);
    }
    // the records belong to the sections in order
    let (x, y) = (pick(na + 1), pick(na + 1));
    let (x, y) = (x.min(y), x.max(y));
    let mut c = [nq, x, y - x, na - y];
    let ok = boolv();
    if !ok {
        c[pick(4)] += 1;
    }
    let m = W::new().u16(1).u16(0x8000).u16(c[0] as u16).u16(c[1] as u16).u16(c[2] as u16).u16(c[3] as u16).raw(&w.0).0;
    match Packet::try_from(&m[..]) {
        Ok(p) => {
            cover("accepted");
            check(ok, "a message with too few entries is rejected");
            check(p.questions().len() == c[0] && p.answers().len() == c[1], "sections");
            check(p.authorities().len() == c[2] && p.additionals().len() == c[3], "sections");
        }
        Err(_) => {
            cover("rejected");
            check(!ok, "the whole packet is accepted");
        }
    }
}

/// Compression leaves type, class, flags and TTL alone: a question and a record with any words.
#[no_mangle]
pub extern "C" fn h_compress_fields() {
    let n = labels(&[1]);
    let m = W::new().u16(u16v()).u16(0x8000).u16(1).u16(1).u16(0).u16(0).name(&n);
    let m = if param(0) == 0 {
        m.u16(1).u16(u16v()).rr(&n, 1, 1, u32v(), &[1, 2, 3, 4])
    } else if param(0) == 1 {
        m.u16(u16v()).u16(1).rr(&n, 1, 1, 5, &[1, 2, 3, 4])
    } else {
        m.u16(1).u16(1).rr(&n, 10, u16v(), u32v(), &bytes(2))
    };
    if let Ok(p) = Packet::try_from(&m.0[..]) {
        cover("accepted");
        compressed_ok(&p);
        check(p.to_bytes_compressed()[..12] == m.0[..12], "the header of a compressed packet");
    }
}

/// A packet with one record of kinds param(0) and param(2) in each section: parse puts everything in
/// its place, serialisation gives the same bytes, the size matches.
#[no_mangle]
pub extern "C" fn h_packet() {
    let (a, b) = (spec(param(0)), spec(param(2)));
    let (o, ttl) = (labels(&[2]), u32v());
    let (id, flags) = (u16v(), u16v());
    assume(flags & 15 <= 10);
    let nq = pick(3);
    let mut w = W::new().u16(id).u16(flags).u16(nq as u16).u16(2).u16(1).u16(1);
    let ql: Vec<Labels> = (0..nq).map(|_| labels(&[1])).collect();
    for q in &ql {
        w = w.name(q).u16(255).u16(1);
    }
    w = w.rr(&o, a.ty, 1, ttl, &a.wire).rr(&o, b.ty, 2, 5, &b.wire).rr(&vec![], b.ty, 3, 6, &b.wire).rr(&o, a.ty, 4, 7, &a.wire);
    let p = match Packet::try_from(&w.0[..]) {
        Ok(p) => p,
        Err(_) => return check(false, "a valid packet is accepted"),
    };
    cover("accepted");
    check(p.questions().len() == nq && p.answers().len() == 2, "sections");
    check(p.authorities().len() == 1 && p.additionals().len() == 1, "sections");
    for (q, l) in p.questions().iter().zip(&ql) {
        check(*q.name() == fq(l) && *q.query_type() == QType::ANY, "questions in order");
    }
    let r = [&p.answers()[0], &p.answers()[1], &p.authorities()[0], &p.additionals()[0]];
    let s = [&a, &b, &b, &a];
    for i in 0..4 {
        check(*r[i].record_type() as u16 == s[i].ty, "records in order");
        check(u16::from(*r[i].class()) == i as u16 + 1, "classes in order");
        check(r[i].data_raw() == s[i].wire, "data of the records");
    }
    check(r[0].time_to_live() == ttl && r[1].time_to_live() == 5, "ttls in order");
    check(r[2].time_to_live() == 6 && r[3].time_to_live() == 7, "ttls in order");
    check(p.to_bytes() == w.0, "a packet is written as it was read");
    let extra: usize = r.iter().map(|x| surplus(x.data())).sum();
    check(size_ok(p.byte_size(), w.0.len(), extra), "size of a packet");
}

// ------------------------------------------------------------------------------------------------
// record sets

/// A set of param(0) records with any data: signed form, independent of the order of the records.
#[no_mangle]
pub extern "C" fn h_rrset() {
    let n = param(0);
    let owner = labels(&[1, 1]);
    let (cw, ttl) = (u16v(), u32v());
    assume(cw >= 1 && cw < 0x8000);
    let datas: Vec<Vec<u8>> = (0..n).map(|_| bytes(if param(1) == 0 { 1 + pick(2) } else { pick(3) })).collect();
    let vals: Vec<RecordData> = datas.iter().map(|d| Null::new(d.clone()).into_record_data()).collect();
    let name = fq(&owner);
    let class = RecordClass::from(cw);
    let set = ResourceRecordSet::new(&name, RecordType::NULL, class, ttl, vals.iter().collect());
    check(*set.name() == name && set.set_type() == RecordType::NULL, "accessors");
    check(set.set_class() == class && set.ttl() == ttl && set.records().len() == n, "accessors");
    let b = set.to_bytes();
    let mut sorted = datas.clone();
    // insertion sort on the octets: left-justified, absence of an octet sorts first (RFC 4034 6.3)
    for i in 1..n {
        let mut j = i;
        while j > 0 && less(&sorted[j], &sorted[j - 1]) {
            sorted.swap(j, j - 1);
            j -= 1;
        }
    }
    let mut w = W::new();
    for d in &sorted {
        w = w.rr(&owner, 10, cw, ttl, d);
    }
    check(b == w.0, "a set is written in canonical order");
    check(set.byte_size() == b.len(), "size of a set");
    // another order of the same records
    let mut perm: Vec<&RecordData> = vals.iter().collect();
    perm.rotate_left(pick(n));
    let mut other = ResourceRecordSet::new(&name, RecordType::NULL, class, ttl, perm);
    check(other.to_bytes() == b, "the order of the records does not matter");
    other.canonical_reorder();
    for (r, d) in other.records().iter().zip(&sorted) {
        check(r.to_bytes() == *d, "canonical_reorder sorts the records");
    }
    check(other.records().len() == n && other.to_bytes() == b, "canonical_reorder keeps the records");
}

fn less(a: &[u8], b: &[u8]) -> bool {
    for i in 0..a.len().min(b.len()) {
        if a[i] != b[i] {
            return a[i] < b[i];
        }
    }
    a.len() < b.len()
}

// ------------------------------------------------------------------------------------------------
// errors

#[no_mangle]
pub extern "C" fn h_error() {
    use std::error::Error;
    // the errors a caller gets from malformed input, in particular every kind of RDATA
    let n = u16v();
    let e = match pick(6) {
        0 => RecordType::try_from(n).err(),
        1 => QClass::try_from(n).err(),
        2 => ResponseCode::try_from(n as u8).err(),
        3 => DnsBuffer::from(&[][..]).extract_u8().err(),
        4 => DnsBuffer::from(&[0xc0, 0][..]).extract_fqdn().err(),
        _ => maybe_dns::rdata::tkey::Mode::try_from(n).err(),
    };
    if let Some(e) = e {
        cover("error");
        let mut depth = 0;
        let mut cur: Option<&(dyn Error + 'static)> = Some(&e);
        while let Some(c) = cur {
            depth += 1;
            if depth > 4 {
                break;
            }
            cur = c.source();
        }
        check(depth <= 4, "the chain of causes of an error ends");
    }
}
