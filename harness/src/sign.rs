//! DNSSEC: digests, key tags, signing and verifying, over ideal cryptography.
use crate::crypto;
use crate::kit::*;
use crate::wire::*;
use maybe_dns::rdata::*;
use maybe_dns::*;
use std::time::{Duration, UNIX_EPOCH};

fn fq(l: &Labels) -> FQDN {
    FQDN::from(l.clone())
}

/// `n` symbolic octets without upper case letters: canonical form is the business of the caller
fn lower(n: usize) -> Vec<u8> {
    let v = bytes(n);
    for b in &v {
        assume(*b < b'A' || *b > b'Z');
    }
    v
}

const SHAPES: [&[usize]; 5] = [&[], &[1], &[2, 1], &[1, 1, 2], &[63]];
fn owner(n: usize) -> Labels {
    SHAPES[n].iter().map(|n| lower(*n)).collect()
}

/// The types of algorithms and digests have no public name: values of them come out of parsed records.
fn key(rdata: &[u8]) -> DnsKey {
    match DnsKey::try_from(&mut DnsBuffer::from(rdata)) {
        Ok(k) => k,
        Err(_) => {
            check(false, "the algorithm is known");
            unreachable!()
        }
    }
}
fn ds_of(digest_type: u8) -> Ds {
    match Ds::try_from(&mut DnsBuffer::from(&[0, 0, 8, digest_type][..])) {
        Ok(d) => d,
        Err(_) => {
            check(false, "the digest type is known");
            unreachable!()
        }
    }
}

/// RFC 4034 appendix B over the RDATA of the key
fn key_tag(rdata: &[u8]) -> u16 {
    if rdata[3] == 1 {
        // B.1: the modulus is at the end of the key
        let n = rdata.len();
        return if n < 4 + 3 { 0 } else { (rdata[n - 3] as u16) << 8 | rdata[n - 2] as u16 };
    }
    let mut ac: u32 = 0;
    for i in 0..rdata.len() {
        ac += if i & 1 == 1 { rdata[i] as u32 } else { (rdata[i] as u32) << 8 };
    }
    ac += ac >> 16 & 0xffff;
    ac as u16
}

fn dnskey(a: u8, public: &[u8]) -> (DnsKey, Vec<u8>) {
    let (zone, sep) = (boolv(), boolv());
    let rdata = W::new().u8(zone as u8).u8(sep as u8).u8(3).u8(a).raw(public).0;
    if boolv() {
        return (key(&rdata), rdata);
    }
    let mut k = DnsKey::new(key(&[0, 0, 3, a]).algorithm, public.to_vec());
    k.zone_key = zone;
    k.secure_entry_point = sep;
    (k, rdata)
}

// ------------------------------------------------------------------------------------------------
// digests

/// p0: octets of the key, p1: shape of the owner, p2: algorithm
#[no_mangle]
pub extern "C" fn h_ds() {
    let name = owner(param(1));
    let public = if param(0) > 40 { sparse(param(0), 4) } else { bytes(param(0)) };
    let a = param(2) as u8;
    let (k, rdata) = dnskey(a, &public);
    let ty = [1u8, 2, 4, 5][pick(4)];
    let dt = ds_of(ty).digest_type;
    let ds = match Ds::try_from_dnskey(&fq(&name), &k, dt) {
        Ok(d) => d,
        Err(_) => {
            check(false, "a DS can be made from any DNSKEY");
            return;
        }
    };
    check(ds.key_tag == key_tag(&rdata), "key tag of a DS");
    check(ds.algorithm == k.algorithm && ds.digest_type == dt, "algorithm and digest type of a DS");
    check(ds.digest == crypto::hash(ty, &W::new().name(&name).raw(&rdata).0), "the digest of a DS covers owner and DNSKEY");
    cover("ds");
}

/// p0: octets
#[no_mangle]
pub extern "C" fn h_digest() {
    let d = bytes(param(0));
    let ty = [1u8, 2, 4, 5][pick(4)];
    match ds_of(ty).digest_type.hash_data(&d) {
        Ok(h) => check(h == crypto::hash(ty, &d), "a digest is that of its algorithm"),
        Err(_) => check(false, "a digest is that of its algorithm"),
    }
    cover("digest");
}

/// p0: octets of the identifier, p1: shape of the name
#[no_mangle]
pub extern "C" fn h_dhcid() {
    use maybe_dns::rdata::dhcid::IdentifierType::*;
    let (id, name) = (bytes(param(0)), owner(param(1)));
    let c = pick(3);
    let r = Dhcid::new([ChaddrOfDhcpRequest, ClientIdentifierOption, DUID][c], &id, &fq(&name));
    let digest = crypto::hash(2, &W::new().raw(&id).name(&name).0);
    check(r.digest == digest, "the digest of a DHCID covers identifier and name");
    check(r.to_bytes() == W::new().u16(c as u16).u8(1).raw(&digest).0, "a DHCID is written with its code and digest");
    cover("dhcid");
}

fn digit(n: u8, table: &[u8]) -> u8 {
    table[n as usize]
}

/// Printed forms. p0: octets, p1: 0: digest in hexadecimal, 1: key, 2: signature in base 64
#[no_mangle]
pub extern "C" fn h_print() {
    let d = if param(0) > 16 { sparse(param(0), 2) } else { bytes(param(0)) };
    let k = key(&[0, 0, 3, 8]);
    let mut want = Vec::new();
    if param(1) == 0 {
        for b in &d {
            want.push(digit(*b >> 4, b"0123456789ABCDEF"));
            want.push(digit(*b & 15, b"0123456789ABCDEF"));
        }
        let s = Ds::new(u16v(), k.algorithm, ds_of(2).digest_type, d).hex_digest();
        check(s.as_bytes() == &want[..], "a digest prints as its hexadecimal digits");
    } else {
        let t = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
        for c in d.chunks(3) {
            let at = |i: usize| if i < c.len() { c[i] } else { 0 };
            want.push(digit(at(0) >> 2, t));
            want.push(digit((at(0) & 3) << 4 | at(1) >> 4, t));
            want.push(if c.len() > 1 { digit((at(1) & 15) << 2 | at(2) >> 6, t) } else { b'=' });
            want.push(if c.len() > 2 { digit(at(2) & 63, t) } else { b'=' });
        }
        let s = if param(1) == 1 {
            DnsKey::new(k.algorithm, d).base64_public_key()
        } else {
            Rrsig::new(RecordType::A, k.algorithm, 0, 0, 0, 0, 0, FQDN::from(Labels::new()), d).base64_signature()
        };
        check(s.as_bytes() == &want[..], "keys and signatures print in base 64");
    }
    cover("printed");
}

// ------------------------------------------------------------------------------------------------
// signatures

struct Set {
    owner: Labels,
    ty: u16,
    class: u16,
    ttl: u32,
    datas: Vec<Vec<u8>>,
}

/// A set of `n` distinct records of kind 0: A, 1: NULL of 1 or 2 octets, 2: NULL of 0 or 1 octets, 3: long NULL
fn set(n: usize, kind: usize, shape: usize) -> Set {
    let class = u16v();
    assume(class >= 1 && class <= 4 && class != 2);
    let owner = owner(shape);
    let ttl = u32v();
    let datas: Vec<Vec<u8>> = (0..n)
        .map(|_| match kind {
            0 => bytes(4),
            1 => bytes(1 + pick(2)),
            // long ones that differ near their ends only
            3 => {
                let mut d = vec![7; [250, 300, 1000][pick(3)]];
                let at = d.len() - 2;
                d[at] = u8v();
                d
            }
            _ => bytes(pick(2)),
        })
        .collect();
    for i in 0..n {
        for j in 0..i {
            assume(datas[i] != datas[j]);
        }
    }
    Set { owner, ty: if kind == 0 { 1 } else { 10 }, class, ttl, datas }
}

fn value(ty: u16, d: &[u8]) -> RecordData {
    if ty == 1 {
        A::new(std::net::Ipv4Addr::new(d[0], d[1], d[2], d[3])).into_record_data()
    } else {
        Null::new(d.to_vec()).into_record_data()
    }
}

fn less(a: &[u8], b: &[u8]) -> bool {
    for i in 0..a.len().min(b.len()) {
        if a[i] != b[i] {
            return a[i] < b[i];
        }
    }
    a.len() < b.len()
}

/// the fields of an RRSIG before the signature
struct Head {
    ty: u16,
    alg: u8,
    labels: u8,
    ttl: u32,
    exp: u32,
    inc: u32,
    tag: u16,
    signer: Labels,
}

impl Head {
    fn wire(&self) -> Vec<u8> {
        W::new().u16(self.ty).u8(self.alg).u8(self.labels).u32(self.ttl).u32(self.exp).u32(self.inc).u16(self.tag).name(&self.signer).0
    }
}

/// RFC 4034 3.1.8.1: RRSIG_RDATA | RR(1) | RR(2) ...
fn signed(h: &Head, s: &Set) -> Vec<u8> {
    let mut sorted = s.datas.clone();
    for i in 1..sorted.len() {
        let mut j = i;
        while j > 0 && less(&sorted[j], &sorted[j - 1]) {
            sorted.swap(j, j - 1);
            j -= 1;
        }
    }
    let mut w = W(h.wire());
    for d in &sorted {
        w = w.rr(&s.owner, s.ty, s.class, h.ttl, d);
    }
    w.0
}

fn rr_class(c: u16) -> RecordClass {
    RecordClass::from(c)
}
fn rr_type(t: u16) -> RecordType {
    if t == 1 {
        RecordType::A
    } else {
        RecordType::NULL
    }
}

/// Signing. p0: algorithm, p1: records, p2: kind, p3: shape of the owner, p4: 1: a wildcard owner
#[no_mangle]
pub extern "C" fn h_sign() {
    let a = param(0) as u8;
    let who = pick(2) as u8;
    let mut s = set(param(1), param(2), param(3));
    if param(4) == 1 {
        s.owner.insert(0, b"*".to_vec());
    } else if let Some(l) = s.owner.first() {
        assume(l != b"*");
    }
    let (k, rdata) = dnskey(a, &crypto::public(a, who));
    let (inc, exp) = (u32v(), u32v());
    let (ni, ne) = (u32v(), u32v());
    assume(ni < 1_000_000_000 && ne < 1_000_000_000);
    let name = fq(&s.owner);
    let vals: Vec<RecordData> = s.datas.iter().map(|d| value(s.ty, d)).collect();
    let set = ResourceRecordSet::new(&name, rr_type(s.ty), rr_class(s.class), s.ttl, vals.iter().collect());
    let sig = match Rrsig::from_dnskey(&k, &set, &(UNIX_EPOCH + Duration::new(inc as u64, ni)), &(UNIX_EPOCH + Duration::new(exp as u64, ne)), &crypto::private(a, who)) {
        Ok(s) => s,
        Err(_) => {
            check(false, "signing with a valid key works");
            return;
        }
    };
    let head = Head {
        ty: s.ty,
        alg: a,
        labels: s.owner.len() as u8 - (param(4) == 1) as u8,
        ttl: s.ttl,
        exp,
        inc,
        tag: key_tag(&rdata),
        signer: s.owner.clone(),
    };
    check(sig.key_tag() == head.tag, "key tag of an RRSIG");
    check(sig.to_bytes() == W(head.wire()).raw(sig.signature()).0, "fields of an RRSIG");
    check(crypto::verify(a, who, &signed(&head, &s), sig.signature()), "the signature covers the RRSIG fields and the canonical set");
    check(!crypto::verify(a, 1 - who, &signed(&head, &s), sig.signature()), "the signature is that of the key");
    // and its own verification agrees, whatever the order of the records
    let mut perm: Vec<&RecordData> = vals.iter().collect();
    let by = pick(perm.len().max(1));
    perm.rotate_left(by);
    let other = ResourceRecordSet::new(&name, rr_type(s.ty), rr_class(s.class), s.ttl, perm);
    check(matches!(sig.verify(&k, &other), Ok(true)), "its own signatures verify");
    cover("signed");
    // one DSA signature in 128 has a number with a leading zero octet; the ideal ones always have
    #[cfg(not(feature = "ideal"))]
    if a == 3 {
        for i in 0..400 {
            let ttl = s.ttl.wrapping_add(i);
            let set = ResourceRecordSet::new(&name, rr_type(s.ty), rr_class(s.class), ttl, vals.iter().collect());
            let sig = Rrsig::from_dnskey(&k, &set, &UNIX_EPOCH, &UNIX_EPOCH, &crypto::private(a, who)).unwrap();
            let head = Head { ttl, exp: 0, inc: 0, signer: s.owner.clone(), ..head };
            check(crypto::verify(a, who, &signed(&head, &s), sig.signature()), "the signature covers the RRSIG fields and the canonical set");
        }
    }
}

/// Verifying. A signature made over one set of fields and records is presented with others.
/// p0: algorithm, p1: records, p2: kind, p3: shape, p4: what may differ
#[no_mangle]
pub extern "C" fn h_verify() {
    let a = param(0) as u8;
    let (n, kind, shape, diff) = (param(1), param(2), param(3), param(4));
    let s = set(n, kind, shape);
    let who = if diff == 1 { pick(2) as u8 } else { 0 };
    let h = Head { ty: s.ty, alg: a, labels: u8v(), ttl: u32v(), exp: u32v(), inc: u32v(), tag: u16v(), signer: owner(1) };
    let mut public = crypto::public(a, 0);
    if diff == 14 {
        // RFC 3110: the length of the exponent in three octets
        public.insert(0, 0);
        public.insert(0, 0);
    }
    if diff == 15 {
        // an exponent of 258 octets, most of them zeros
        let e = public[0] as usize;
        let mut long = vec![0, 1, 2];
        long.resize(3 + 258 - e, 0);
        long.extend_from_slice(&public[1..]);
        public = long;
    }
    let (k, _) = dnskey(a, &public);
    // what is presented
    let (mut h2, mut s2) = (
        Head { signer: h.signer.clone(), ..h },
        Set { owner: s.owner.clone(), datas: s.datas.clone(), ..s },
    );
    let mut sig = crypto::sign(a, who, &signed(&h, &s));
    let mut wrong = who != 0;
    match diff {
        // another time to live than the original one
        0 => s2.ttl = u32v(),
        1 | 14 | 15 => {}
        2 => {
            h2.labels = u8v();
            h2.ttl = u32v();
            h2.tag = u16v();
            wrong = h2.labels != h.labels || h2.ttl != h.ttl || h2.tag != h.tag;
        }
        3 => {
            h2.exp = u32v();
            h2.inc = u32v();
            wrong = h2.exp != h.exp || h2.inc != h.inc;
        }
        4 => {
            h2.signer = owner(pick(3));
            wrong = h2.signer != h.signer;
        }
        5 => {
            s2.owner = owner(pick(3));
            wrong = s2.owner != s.owner;
        }
        6 => {
            s2.class = u16v();
            assume(s2.class >= 1 && s2.class <= 4 && s2.class != 2);
            wrong = s2.class != s.class;
        }
        7 => {
            // other contents of one record
            let i = pick(n);
            s2.datas[i] = bytes(s.datas[i].len());
            for j in 0..n {
                assume(j == i || s2.datas[j] != s2.datas[i]);
            }
            wrong = s2.datas[i] != s.datas[i];
        }
        8 => {
            // a record less
            s2.datas.remove(pick(n));
            wrong = true;
        }
        9 => {
            // a record more
            let d = bytes(s.datas[0].len());
            for x in &s.datas {
                assume(*x != d);
            }
            s2.datas.push(d);
            wrong = true;
        }
        10 => {
            // another type of the same data
            h2.ty = if s.ty == 10 { 16 } else { 10 };
            wrong = true;
        }
        11 => {
            // damaged signature
            let (i, b) = (pick(sig.len().min(8)), u8v());
            let i = sig.len() - 1 - i;
            wrong = sig[i] != b;
            sig[i] = b;
        }
        12 => {
            sig.pop();
            wrong = true;
        }
        _ => {
            sig.push(u8v());
            wrong = true;
        }
    }
    let name = fq(&s2.owner);
    let vals: Vec<RecordData> = s2.datas.iter().map(|d| value(s2.ty, d)).collect();
    let mut refs: Vec<&RecordData> = vals.iter().collect();
    let by = pick(refs.len().max(1));
    refs.rotate_left(by);
    let set = ResourceRecordSet::new(&name, rr_type(s2.ty), rr_class(s2.class), s2.ttl, refs);
    let ty = match h2.ty {
        1 => RecordType::A,
        10 => RecordType::NULL,
        _ => RecordType::TXT,
    };
    let r = Rrsig::new(ty, k.algorithm, h2.labels, h2.ttl, h2.exp, h2.inc, h2.tag, fq(&h2.signer), sig);
    let v = r.verify(&k, &set);
    if wrong {
        check(!matches!(v, Ok(true)), "only the signed fields and records verify");
        cover("rejected");
    } else {
        check(matches!(v, Ok(true)), "a signature over the canonical form verifies");
        cover("accepted");
    }
}

/// Keys and algorithms that do not fit. p0: algorithm of the RRSIG, p1: octets of the key, p2: octets of the signature,
/// p3: 1: the key has another algorithm
#[no_mangle]
pub extern "C" fn h_verify_any() {
    let a = param(0) as u8;
    let material = bytes(param(1));
    let s = set(1, 2, 1);
    let ka = if param(3) == 1 { crypto::ALGS[pick(9)] } else { a };
    assume(param(3) == 0 || ka != a);
    let (k, _) = dnskey(ka, &material);
    let name = fq(&s.owner);
    let vals: Vec<RecordData> = s.datas.iter().map(|d| value(s.ty, d)).collect();
    let set = ResourceRecordSet::new(&name, rr_type(s.ty), rr_class(s.class), s.ttl, vals.iter().collect());
    let r = Rrsig::new(rr_type(s.ty), key(&[0, 0, 3, a]).algorithm, u8v(), s.ttl, u32v(), u32v(), u16v(), fq(&s.owner), bytes(param(2)));
    let v = r.verify(&k, &set);
    check(!matches!(v, Ok(true)), "a key or signature that does not fit never verifies");
    if param(3) == 1 {
        check(v.is_err(), "a key of another algorithm is an error");
    }
    cover("not verified");
}

/// Signing with something that is not a key, or an algorithm that cannot sign. p0: algorithm, p1: octets of the key
#[no_mangle]
pub extern "C" fn h_sign_any() {
    let a = param(0) as u8;
    let material = bytes(param(1));
    let data = bytes(2);
    match key(&[0, 0, 3, a]).algorithm.sign_data(&data, &material) {
        Ok(_) => check(cfg!(not(feature = "ideal")) || material.len() == 3, "signing needs a private key"),
        Err(_) => cover("refused"),
    }
}

/// Times before the epoch. p0: 0: inception, 1: expiration
#[no_mangle]
pub extern "C" fn h_sign_time() {
    let s = set(1, 2, 1);
    let (k, _) = dnskey(15, &crypto::public(15, 0));
    let name = fq(&s.owner);
    let vals: Vec<RecordData> = s.datas.iter().map(|d| value(s.ty, d)).collect();
    let set = ResourceRecordSet::new(&name, rr_type(s.ty), rr_class(s.class), s.ttl, vals.iter().collect());
    let d = u32v();
    assume(d > 0);
    let (early, late) = (UNIX_EPOCH - Duration::from_secs(d as u64), UNIX_EPOCH + Duration::from_secs(u32v() as u64));
    let (i, e) = if param(0) == 0 { (early, late) } else { (late, early) };
    check(Rrsig::from_dnskey(&k, &set, &i, &e, &crypto::private(15, 0)).is_err(), "a time before the epoch is an error");
    cover("early");
}
