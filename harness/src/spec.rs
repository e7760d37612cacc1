//! One symbolic specimen per record type: the wire form of its RDATA, written by hand from the
//! RFC, and (where the public API can build it) the value that has to correspond to it.
use crate::kit::*;
use crate::wire::*;
use maybe_dns::rdata::*;
use maybe_dns::{Algorithm, RData, RecordData, RecordType, FQDN};
use std::collections::{BTreeSet, HashMap};
use std::net::{Ipv4Addr, Ipv6Addr};
use std::sync::atomic::{AtomicUsize, Ordering};

pub struct Spec {
    pub ty: u16,
    pub wire: Vec<u8>,
    pub val: Option<RecordData>,
}

fn lv() -> usize {
    param(1).min(10) % 7
}
/// Levels from 10 on are level 3 with one shape each instead of the product of all of them.
static CHOICES: AtomicUsize = AtomicUsize::new(0);
fn pick(n: usize) -> usize {
    if param(1) < 10 {
        crate::kit::pick(n)
    } else {
        (param(1) - 10 + CHOICES.fetch_add(1, Ordering::Relaxed)) % n.max(1)
    }
}
fn one_of(list: &[usize]) -> usize {
    list[pick(list.len())]
}
/// Levels 0 to 2: all octets symbolic. 3: lengths around which sign bits and small limits lie; 4: lengths around the
/// sign bit of 16 bits and near the longest RDATA, both with symbolic octets at the ends only.
fn blob() -> Vec<u8> {
    match lv() {
        0 => bytes(one_of(&[0, 1, 3])),
        1 => bytes(one_of(&[2, 16, 64])),
        2 => bytes(one_of(&[255, 256, 300])),
        3 => sparse(one_of(&[31, 32, 33, 127, 128, 511, 512, 1280, 4096]), 3),
        _ => sparse(one_of(&[32767, 32768, 65000]), 3),
    }
}
/// the second blob of a record
fn blob2() -> Vec<u8> {
    match lv() {
        0 | 1 => blob(),
        2 => bytes(1),
        3 => sparse(one_of(&[0, 127, 128, 600]), 2),
        _ => bytes(pick(2)),
    }
}
/// length of a character-string
fn cs_len() -> usize {
    match lv() {
        0 => one_of(&[0, 1, 2]),
        1 => one_of(&[3, 64]),
        3 => one_of(&[31, 32, 126, 127, 128, 129, 254]),
        _ => 255,
    }
}
fn cs() -> Vec<u8> {
    let n = cs_len();
    if lv() < 3 {
        bytes(n)
    } else {
        sparse(n, 2)
    }
}
fn nm() -> Labels {
    match lv() {
        0 => name(4),
        1 => labels(if pick(2) == 0 { &[63] } else { &[1, 63, 2] }),
        2 => labels(if pick(2) == 0 { &[63, 63, 63, 61] } else { &[1, 1, 1, 1, 1, 1, 1, 1] }),
        3 => {
            const S: [&[usize]; 4] = [&[31, 32], &[62, 3], &[3, 7, 15], &[1; 127]];
            S[pick(4)].iter().map(|n| sparse(*n, 1)).collect()
        }
        _ => labels(&[2]),
    }
}
pub fn fq(n: &Labels) -> FQDN {
    FQDN::from(n.clone())
}
fn up_to(max: u8) -> u8 {
    let v = u8v();
    assume(v <= max);
    v
}


#[inline(never)]
pub fn spec(kind: usize) -> Spec {
    match kind {
        0 => s_a(),
        1 => s_aaaa(),
        2 => s_name(2),
        3 => s_name(5),
        4 => s_name(12),
        5 => s_soa(),
        6 => s_null(),
        7 => s_wks(),
        8 => s_hinfo(),
        9 => s_minfo(),
        10 => s_mx(),
        11 => s_txt(),
        12 => s_loc(),
        13 => s_srv(),
        14 => s_naptr(),
        15 => s_opt(),
        16 => s_apl(),
        17 => s_sshfp(),
        18 => s_ipseckey(),
        19 => s_dhcid(),
        20 => s_tlsa(),
        21 => s_hip(),
        22 => s_openpgp(),
        23 => s_csync(),
        24 => s_svcb(),
        25 => s_eui48(),
        26 => s_eui64(),
        27 => s_tkey(),
        28 => s_tsig(),
        29 => s_uri(),
        30 => s_caa(),
        #[cfg(feature = "dnssec")]
        31 => s_ds(43),
        #[cfg(feature = "dnssec")]
        32 => s_ds(59),
        #[cfg(feature = "dnssec")]
        33 => s_rrsig(),
        #[cfg(feature = "dnssec")]
        34 => s_nsec(),
        #[cfg(feature = "dnssec")]
        35 => s_dnskey(48),
        #[cfg(feature = "dnssec")]
        36 => s_dnskey(60),
        _ => {
            assume(false);
            unreachable!()
        }
    }
}

fn some(ty: u16, w: W, v: RecordData) -> Spec {
    Spec { ty, wire: w.0, val: Some(v) }
}

fn s_a() -> Spec {
    let b = arr::<4>();
    let v = A::new(Ipv4Addr::new(b[0], b[1], b[2], b[3]));
    check(v.record_type() == RecordType::A, "A: record_type");
    some(1, W::new().raw(&b), v.into_record_data())
}
fn s_aaaa() -> Spec {
    let b = arr::<16>();
    let v = Aaaa::new(Ipv6Addr::from(b));
    check(v.record_type() == RecordType::AAAA, "AAAA: record_type");
    some(28, W::new().raw(&b), v.into_record_data())
}
fn s_name(ty: u16) -> Spec {
    let n = nm();
    let (rt, v) = match ty {
        2 => {
            let v = Ns::new(fq(&n));
            (v.record_type(), v.into_record_data())
        }
        5 => {
            let v = Cname::new(fq(&n));
            (v.record_type(), v.into_record_data())
        }
        _ => {
            let v = Ptr::new(fq(&n));
            (v.record_type(), v.into_record_data())
        }
    };
    check(rt as u16 == ty, "NS/CNAME/PTR: record_type");
    some(ty, W::new().name(&n), v)
}
fn s_soa() -> Spec {
    let (m, r) = (nm(), nm());
    let (a, b, c, d, e) = (u32v(), u32v(), u32v(), u32v(), u32v());
    let v = Soa::new(fq(&m), fq(&r), a, b, c, d, e);
    check(v.record_type() == RecordType::SOA, "SOA: record_type");
    some(6, W::new().name(&m).name(&r).u32(a).u32(b).u32(c).u32(d).u32(e), v.into_record_data())
}
fn s_null() -> Spec {
    let b = blob();
    let v = Null::new(b.clone());
    check(v.record_type() == RecordType::NULL, "NULL: record_type");
    some(10, W::new().raw(&b), v.into_record_data())
}
fn s_wks() -> Spec {
    let (b, p, m) = (arr::<4>(), u8v(), blob());
    let v = Wks::new(Ipv4Addr::from(b), p, m.clone());
    check(v.record_type() == RecordType::WKS, "WKS: record_type");
    some(11, W::new().raw(&b).u8(p).raw(&m), v.into_record_data())
}
fn s_hinfo() -> Spec {
    let (a, b) = (cs(), cs());
    let v = Hinfo::new(a.clone(), b.clone());
    check(v.record_type() == RecordType::HINFO, "HINFO: record_type");
    some(13, W::new().cs(&a).cs(&b), v.into_record_data())
}
fn s_minfo() -> Spec {
    let (a, b) = (nm(), nm());
    let v = Minfo::new(fq(&a), fq(&b));
    check(v.record_type() == RecordType::MINFO, "MINFO: record_type");
    some(14, W::new().name(&a).name(&b), v.into_record_data())
}
fn s_mx() -> Spec {
    let (p, n) = (u16v(), nm());
    let v = Mx::new(p, fq(&n));
    check(v.record_type() == RecordType::MX, "MX: record_type");
    some(15, W::new().u16(p).name(&n), v.into_record_data())
}
fn s_txt() -> Spec {
    let n = match lv() {
        0 => pick(3),
        1 | 2 => 1 + pick(2),
        3 => one_of(&[1, 2, 17]),
        _ => 255,
    };
    let mut w = W::new();
    let mut t = Vec::new();
    for _ in 0..n {
        let s = if n > 2 { string(5) } else { string(cs_len()) };
        w = w.cs(s.as_bytes());
        t.push(s);
    }
    let v = Txt::new(t);
    check(v.record_type() == RecordType::TXT, "TXT: record_type");
    some(16, w, v.into_record_data())
}
fn s_loc() -> Spec {
    let (v, s, h, p) = (u8v(), u8v(), u8v(), u8v());
    let (a, b, c) = (u32v(), u32v(), u32v());
    let x = Loc { version: v, size: s, horiz_pre: h, vert_pre: p, latitude: a, longitude: b, altitude: c };
    check(x.record_type() == RecordType::LOC, "LOC: record_type");
    some(29, W::new().u8(v).u8(s).u8(h).u8(p).u32(a).u32(b).u32(c), x.into_record_data())
}
fn s_srv() -> Spec {
    let (a, b, c, n) = (u16v(), u16v(), u16v(), nm());
    let v = Srv::new(a, b, c, fq(&n));
    check(v.record_type() == RecordType::SRV, "SRV: record_type");
    some(33, W::new().u16(a).u16(b).u16(c).name(&n), v.into_record_data())
}
fn s_naptr() -> Spec {
    use maybe_dns::rdata::naptr::Flag;
    let (o, p) = (u16v(), u16v());
    let nf = if lv() == 3 { pick(5) } else { pick(3) };
    let mut fl = Vec::new();
    let mut fb = Vec::new();
    for _ in 0..nf {
        let b = u8v();
        let f = match b {
            b'S' => Flag::S,
            b'A' => Flag::A,
            b'U' => Flag::U,
            b'P' => Flag::P,
            _ => {
                assume(false);
                unreachable!()
            }
        };
        fl.push(f);
        fb.push(b);
    }
    let (s, r, n) = (cs(), string(cs_len()), nm());
    let w = W::new().u16(o).u16(p).cs(&fb).cs(&s).cs(r.as_bytes()).name(&n);
    let v = Naptr::new(o, p, fl, s, r, fq(&n));
    check(v.record_type() == RecordType::NAPTR, "NAPTR: record_type");
    some(35, w, v.into_record_data())
}
fn s_opt() -> Spec {
    // the options are kept in a hash map, so the order of two options is not defined: the generic
    // byte comparison uses at most one option, `h_opt` covers several
    let mut w = W::new();
    let mut m = HashMap::new();
    if lv() != 0 || pick(2) == 1 {
        let (c, d) = (u16v(), blob());
        w = w.u16(c).u16(d.len() as u16).raw(&d);
        m.insert(c, d);
    }
    let v = Opt(m);
    check(v.record_type() == RecordType::OPT, "OPT: record_type");
    some(41, w, v.into_record_data())
}
fn s_apl() -> Spec {
    // the address part type can not be named from outside: parse only
    let v6 = pick(2) == 1;
    let (p, n) = (u8v(), boolv());
    let a = bytes(if v6 { 16 } else { 4 });
    let w = W::new().u16(if v6 { 2 } else { 1 }).u8(p).u8((n as u8) << 7 | a.len() as u8).raw(&a);
    Spec { ty: 42, wire: w.0, val: None }
}
fn s_sshfp() -> Spec {
    use maybe_dns::rdata::sshfp::FingerprintType;
    let (a, t, f) = (up_to(5), up_to(1), blob());
    let v = Sshfp::new(
        alg(a),
        if t == 0 { FingerprintType::Reserved } else { FingerprintType::SHA1 },
        f.clone(),
    );
    check(v.record_type() == RecordType::SSHFP, "SSHFP: record_type");
    some(44, W::new().u8(a).u8(t).raw(&f), v.into_record_data())
}
fn alg(a: u8) -> Algorithm {
    match a {
        0 => Algorithm::Reserved,
        1 => Algorithm::RSA,
        2 => Algorithm::DSA,
        3 => Algorithm::ECDSA,
        4 => Algorithm::Ed25519,
        _ => Algorithm::Ed448,
    }
}
fn s_ipseckey() -> Spec {
    use maybe_dns::rdata::ipseckey::Gateway;
    let (p, g, a) = (u8v(), pick(4), up_to(5));
    let w = W::new().u8(p).u8(g as u8).u8(a);
    let (w, gw) = match g {
        0 => (w.u8(b'.'), Gateway::None),
        1 => {
            let b = arr::<4>();
            (w.raw(&b), Gateway::IpV4(Ipv4Addr::from(b)))
        }
        2 => {
            let b = arr::<16>();
            (w.raw(&b), Gateway::IpV6(Ipv6Addr::from(b)))
        }
        _ => {
            let n = nm();
            (w.name(&n), Gateway::Domain(fq(&n)))
        }
    };
    let k = blob();
    let w = w.raw(&k);
    let v = IpSecKey { precedence: p, algorithm: alg(a), gateway: gw, public_key: k };
    check(v.record_type() == RecordType::IPSECKEY, "IPSECKEY: record_type");
    some(45, w, v.into_record_data())
}
fn s_dhcid() -> Spec {
    use maybe_dns::rdata::dhcid::IdentifierType;
    let (c, d) = (up_to(2), blob());
    let v = Dhcid {
        identifier_code: match c {
            0 => IdentifierType::ChaddrOfDhcpRequest,
            1 => IdentifierType::ClientIdentifierOption,
            _ => IdentifierType::DUID,
        },
        digest: d.clone(),
    };
    check(v.record_type() == RecordType::DHCID, "DHCID: record_type");
    some(49, W::new().u16(c as u16).u8(1).raw(&d), v.into_record_data())
}
fn s_tlsa() -> Spec {
    use maybe_dns::rdata::tlsa::*;
    let (c, s, m, d) = (up_to(3), up_to(1), up_to(2), blob());
    let v = Tlsa::new(
        match c {
            0 => CertUsage::Ca,
            1 => CertUsage::ServiceCertificateConstraint,
            2 => CertUsage::TrustAnchor,
            _ => CertUsage::DomainIssuedCertificate,
        },
        if s == 0 { Selector::Full } else { Selector::SubjectPublicKeyInfo },
        match m {
            0 => MatchingType::ExactMatch,
            1 => MatchingType::SHA256,
            _ => MatchingType::SHA512,
        },
        d.clone(),
    );
    check(v.record_type() == RecordType::TLSA, "TLSA: record_type");
    some(52, W::new().u8(c).u8(s).u8(m).raw(&d), v.into_record_data())
}
fn s_hip() -> Spec {
    let (a, hit, key) = (up_to(5), cs(), blob());
    let mut w = W::new().u8(hit.len() as u8).u8(a).u16(key.len() as u16).raw(&hit).raw(&key);
    let mut rs = Vec::new();
    let servers = if lv() == 3 { one_of(&[0, 1, 4]) } else { pick(3) };
    for _ in 0..servers {
        let n = if lv() == 3 && servers > 1 { labels(&[2]) } else { nm() };
        w = w.name(&n);
        rs.push(fq(&n));
    }
    let v = Hip {
        public_key_algorithm: alg(a),
        hit,
        public_key: key,
        rendevous_server: if rs.is_empty() { None } else { Some(rs) },
    };
    check(v.record_type() == RecordType::HIP, "HIP: record_type");
    some(55, w, v.into_record_data())
}
fn s_openpgp() -> Spec {
    let b = blob();
    let v = OpenPgpKey(b.clone());
    check(v.record_type() == RecordType::OPENPGPKEY, "OPENPGPKEY: record_type");
    some(61, W::new().raw(&b), v.into_record_data())
}

/// The record types in ascending order, as far as the features know them.
pub fn all_types() -> Vec<(u16, RecordType)> {
    use RecordType::*;
    let mut v = vec![
        (1, A), (2, NS), (5, CNAME), (6, SOA), (10, NULL), (11, WKS), (12, PTR), (13, HINFO),
        (14, MINFO), (15, MX), (16, TXT), (28, AAAA), (29, LOC), (33, SRV), (35, NAPTR), (41, OPT),
        (42, APL), (44, SSHFP), (45, IPSECKEY), (49, DHCID), (52, TLSA), (55, HIP),
        (61, OPENPGPKEY), (62, CSYNC), (64, SVCB), (108, EUI48), (109, EUI64), (249, TKEY),
        (250, TSIG), (256, URI), (257, CAA),
    ];
    #[cfg(feature = "dnssec")]
    v.extend([(43, DS), (46, RRSIG), (47, NSEC), (48, DNSKEY), (59, CDS), (60, CDNSKEY)]);
    v.sort_by_key(|t| t.0);
    v
}

/// A set of record types and its RFC 4034 4.1.2 bitmap. `lv` 0: up to 2 arbitrary types; above: each
/// of a group of types independently present or absent, which together cover all types.
fn types() -> (BTreeSet<RecordType>, Vec<u8>) {
    let all = all_types();
    let mut set = BTreeSet::new();
    let mut maps = [[0u8; 32]; 2];
    let mut lens = [0usize; 2];
    let mut put = |i: usize| {
        let (n, t) = all[i];
        set.insert(t);
        let (win, bit) = (n as usize / 256, n as usize % 256);
        maps[win][bit / 8] |= 0x80 >> (bit % 8);
        if bit / 8 + 1 > lens[win] {
            lens[win] = bit / 8 + 1;
        }
    };
    if lv() == 0 {
        for _ in 0..pick(3) {
            put(pick(all.len()));
        }
    } else if lv() >= 3 {
        // all types but one
        let but = pick(all.len() + 1);
        for i in 0..all.len() {
            if i != but {
                put(i);
            }
        }
    } else {
        // every type of one group of 8 adjacent codes may be present, plus a far one
        let g = pick(all.len() / 6 + 1) * 6;
        for i in g..(g + 6).min(all.len()) {
            if pick(2) == 1 {
                put(i);
            }
        }
        if pick(2) == 1 {
            put(all.len() - 1);
        }
    }
    let mut w = Vec::new();
    for win in 0..2 {
        if lens[win] > 0 {
            w.push(win as u8);
            w.push(lens[win] as u8);
            w.extend_from_slice(&maps[win][..lens[win]]);
        }
    }
    (set, w)
}
fn s_csync() -> Spec {
    let (s, f, (t, m)) = (u32v(), up_to(3), types());
    let v = Csync::new(s, (f as u16).try_into().unwrap(), t);
    check(v.flags.immediate() == (f & 1 != 0), "CSYNC: immediate flag");
    check(v.flags.soa_minimum() == (f & 2 != 0), "CSYNC: soaminimum flag");
    check(v.record_type() == RecordType::CSYNC, "CSYNC: record_type");
    some(62, W::new().u32(s).u16(f as u16).raw(&m), v.into_record_data())
}
fn s_svcb() -> Spec {
    // the parameter types can not be named from outside: parse only. Parameters in ascending order of
    // their keys, each at most once (RFC 9460 2.2).
    let (p, n) = (u16v(), if lv() == 0 { name(2) } else { nm() });
    let mut w = W::new().u16(p).name(&n);
    if lv() == 3 {
        // any subset of the registered keys
        for k in 0..7 {
            if pick(2) == 0 {
                continue;
            }
            w = match k {
                0 => w.u16(0).u16(4).u16(1).u16(3),
                1 => w.u16(1).u16(6).cs(&bytes(2)).cs(&bytes(2)),
                2 => w.u16(2).u16(0),
                3 => w.u16(3).u16(2).u16(u16v()),
                4 => w.u16(4).u16(4).raw(&arr::<4>()),
                5 => w.u16(5).u16(3).raw(&arr::<3>()),
                _ => w.u16(6).u16(16).raw(&arr::<16>()),
            };
        }
        for k in 0..one_of(&[0, 1, 4]) {
            w = w.u16(65300 + k as u16).u16(2).raw(&arr::<2>());
        }
        return Spec { ty: 64, wire: w.0, val: None };
    }
    let np = if lv() > 3 { 1 } else { pick(3) };
    let mut last: i32 = -1;
    for _ in 0..np {
        let k = pick(9);
        assume(k as i32 > last || (k == 7 && last == 7));
        last = k as i32;
        w = match k {
            0 => {
                let ks = [0u16, 1, 3, 4, 6];
                let a = pick(5);
                let b = a + pick(5 - a);
                if a == b {
                    w.u16(0).u16(2).u16(ks[a])
                } else {
                    w.u16(0).u16(4).u16(ks[a]).u16(ks[b])
                }
            }
            1 => {
                let l: Vec<Vec<u8>> = (0..pick(3)).map(|_| cs()).collect();
                let mut v = W::new();
                for x in &l {
                    v = v.cs(x);
                }
                w.u16(1).u16(v.0.len() as u16).raw(&v.0)
            }
            2 => w.u16(2).u16(0),
            3 => w.u16(3).u16(2).u16(u16v()),
            4 => w.u16(4).u16(4).raw(&arr::<4>()),
            5 => {
                let b = blob();
                w.u16(5).u16(b.len() as u16).raw(&b)
            }
            6 => w.u16(6).u16(16).raw(&arr::<16>()),
            7 => {
                let (key, b) = (u16v(), blob());
                assume(key >= 65280 && key < 65535);
                assume(np == 1);
                w.u16(key).u16(b.len() as u16).raw(&b)
            }
            _ => w.u16(65535).u16(0),
        };
    }
    Spec { ty: 64, wire: w.0, val: None }
}
fn s_eui48() -> Spec {
    Spec { ty: 108, wire: bytes(6), val: None }
}
fn s_eui64() -> Spec {
    Spec { ty: 109, wire: bytes(8), val: None }
}
fn s_tkey() -> Spec {
    use maybe_dns::rdata::tkey::{Error, Mode};
    let (n, i, x, m, e) = (nm(), u32v(), u32v(), u16v(), up_to(21) as u16);
    assume(m >= 1 && m < 65535);
    let (k, o) = (blob(), blob2());
    let w = W::new().name(&n).u32(i).u32(x).u16(m).u16(e).u16(k.len() as u16).raw(&k).u16(o.len() as u16).raw(&o);
    let v = Tkey {
        algorithm: fq(&n),
        inception: i,
        expiration: x,
        mode: match m {
            1 => Mode::ServerAssignment,
            2 => Mode::DiffieHellmanExchange,
            3 => Mode::GssApiNegotiation,
            4 => Mode::ResolverAssignment,
            5 => Mode::KeyDeletion,
            v => Mode::Available(v),
        },
        error: match e {
            0 => Error::None,
            16 => Error::BadSig,
            17 => Error::BadKey,
            18 => Error::BadTime,
            19 => Error::BadMode,
            20 => Error::BadName,
            21 => Error::BadAlg,
            v => Error::NonExtendedRcode(v),
        },
        key_data: k,
        other_data: o,
    };
    check(v.record_type() == RecordType::TKEY, "TKEY: record_type");
    some(249, w, v.into_record_data())
}
fn s_tsig() -> Spec {
    use maybe_dns::rdata::tsig::Error;
    let (n, t, f, id) = (nm(), arr::<6>(), u16v(), u16v());
    let (m, o) = (blob(), blob2());
    let (ec, e) = match pick(5) {
        0 => (0, Error::None),
        1 => (16, Error::BadSig),
        2 => (17, Error::BadKey),
        3 => (18, Error::BadTime),
        _ => (22, Error::BadTrunc),
    };
    let w = W::new().name(&n).raw(&t).u16(f).u16(m.len() as u16).raw(&m).u16(id).u16(ec).u16(o.len() as u16).raw(&o);
    let mut ts = 0u64;
    for b in t {
        ts = ts << 8 | b as u64;
    }
    let v = Tsig { algorithm: fq(&n), time_signed: ts, fudge: f, mac: m, original_id: id, error: e, other_data: o };
    check(v.record_type() == RecordType::TSIG, "TSIG: record_type");
    some(250, w, v.into_record_data())
}
fn s_uri() -> Spec {
    let (p, x, t) = (u16v(), u16v(), blob());
    let v = Uri::new(p, x, t.clone());
    check(v.record_type() == RecordType::URI, "URI: record_type");
    some(256, W::new().u16(p).u16(x).raw(&t), v.into_record_data())
}
fn s_caa() -> Spec {
    let (c, t, d) = (boolv(), string(if lv() == 0 { 1 + pick(2) } else { cs_len() }), blob());
    let v = Caa::new(c, t.clone(), d.clone());
    check(v.record_type() == RecordType::CAA, "CAA: record_type");
    some(257, W::new().u8((c as u8) << 7).cs(t.as_bytes()).raw(&d), v.into_record_data())
}

#[cfg(feature = "dnssec")]
pub mod sec {
    use super::*;
    pub const ALGS: [u8; 12] = [1, 3, 5, 8, 10, 13, 14, 15, 16, 252, 253, 254];
    pub fn alg_code() -> u8 {
        let a = u8v();
        assume(ALGS.contains(&a));
        a
    }
    pub fn s_ds(ty: u16) -> Spec {
        let (k, a, t, d) = (u16v(), alg_code(), u8v(), blob());
        assume(t == 1 || t == 2 || t == 4 || t == 5);
        let v = Ds::new(k, a.try_into().unwrap(), t.try_into().unwrap(), d.clone());
        check(v.record_type() == RecordType::DS, "DS: record_type");
        let v = if ty == 43 { v.into_record_data() } else { RecordData::CDS(v) };
        some(ty, W::new().u16(k).u8(a).u8(t).raw(&d), v)
    }
    pub fn s_rrsig() -> Spec {
        let all = all_types();
        let (n, t) = all[pick(all.len())];
        let (a, l, ttl, e, i, k, s, d) = (alg_code(), u8v(), u32v(), u32v(), u32v(), u16v(), nm(), blob());
        let v = Rrsig::new(t, a.try_into().unwrap(), l, ttl, e, i, k, fq(&s), d.clone());
        check(v.record_type() == RecordType::RRSIG, "RRSIG: record_type");
        check(v.key_tag() == k && v.signature() == &d[..], "RRSIG: accessors");
        some(46, W::new().u16(n).u8(a).u8(l).u32(ttl).u32(e).u32(i).u16(k).name(&s).raw(&d), v.into_record_data())
    }
    pub fn s_nsec() -> Spec {
        let n = if lv() == 0 { name(2) } else { labels(&[63]) };
        let (t, m) = types();
        let v = Nsec::with_types(fq(&n), t);
        check(v.record_type() == RecordType::NSEC, "NSEC: record_type");
        some(47, W::new().name(&n).raw(&m), v.into_record_data())
    }
    pub fn s_dnskey(ty: u16) -> Spec {
        let (z, s, a, k) = (boolv(), boolv(), alg_code(), blob());
        let mut v = DnsKey::new(a.try_into().unwrap(), k.clone());
        v.zone_key = z;
        v.secure_entry_point = s;
        check(v.protocol() == 3 && v.valid_protocol(), "DNSKEY: protocol");
        check(v.record_type() == RecordType::DNSKEY, "DNSKEY: record_type");
        let v = if ty == 48 { v.into_record_data() } else { RecordData::CDNSKEY(v) };
        some(ty, W::new().u16((z as u16) << 8 | s as u16).u8(3).u8(a).raw(&k), v)
    }
}
#[cfg(feature = "dnssec")]
use sec::*;
