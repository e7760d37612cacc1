//! What a rejection says: the error of the code's kind, with the code.
use crate::kit::*;
use crate::spec::*;
use crate::wire::*;
use maybe_dns::rdata::*;
use maybe_dns::*;

const ALGS: [u8; 12] = [1, 3, 5, 8, 10, 13, 14, 15, 16, 252, 253, 254];

fn known(t: u16) -> bool {
    all_types().iter().any(|x| x.0 == t)
}

/// The kinds of codes, by the error that stands for them.
#[derive(Clone, Copy, PartialEq)]
enum Kind {
    Type,
    Class,
    Rcode,
    Apl,
    Csync,
    SshAlg,
    SshFp,
    Gateway,
    Naptr,
    Mode,
    TkeyErr,
    Ident,
    Usage,
    Selector,
    Matching,
    Svcb,
    Digest,
    SecAlg,
}
use Kind::*;

fn of(e: &DnsError) -> Option<(Kind, u16)> {
    Some(match *e {
        DnsError::InvalidType(v) => (Type, v),
        DnsError::InvalidClass(v) => (Class, v),
        DnsError::InvalidResponseCode(v) => (Rcode, v as u16),
        DnsError::InvalidAplFamily(v) => (Apl, v),
        DnsError::InvalidCsyncFlag(v) => (Csync, v),
        DnsError::InvalidSSHFPAlgorithm(v) => (SshAlg, v as u16),
        DnsError::InvalidSSHFPFingerprintType(v) => (SshFp, v as u16),
        DnsError::InvalidIpSecKeyGatewayType(v) => (Gateway, v as u16),
        DnsError::InvalidNaptrFlag(v) => (Naptr, v as u16),
        DnsError::InvalidTkeyMode(v) => (Mode, v),
        DnsError::InvalidTkeyError(v) => (TkeyErr, v),
        DnsError::InvalidIdentifierTypeError(v) => (Ident, v),
        DnsError::InvalidTLSACertUsage(v) => (Usage, v as u16),
        DnsError::InvalidTLSASelector(v) => (Selector, v as u16),
        DnsError::InvalidTLSAMatchingType(v) => (Matching, v as u16),
        DnsError::InvalidSvcbParam(v) => (Svcb, v),
        DnsError::InvalidDigestType(v) => (Digest, v as u16),
        DnsError::InvalidDnsSecAlgorithm(v) => (SecAlg, v as u16),
        _ => return None,
    })
}

/// `wrong` are the codes that are not assigned: the error is that of one of them.
fn judge<T>(r: Result<T, DnsError>, wrong: &[(Kind, u16)]) {
    match r {
        Ok(_) => {
            cover("accepted");
            check(wrong.is_empty(), "an unassigned code is rejected");
        }
        Err(e) => {
            cover("rejected");
            let o = of(&e);
            check(wrong.iter().any(|w| o == Some(*w)), "the error names the code that is not assigned");
        }
    }
}

fn wrong(l: &[(bool, Kind, u16)]) -> Vec<(Kind, u16)> {
    l.iter().filter(|x| !x.0).map(|x| (x.1, x.2)).collect()
}

/// One code of the kind param(0), any value.
#[no_mangle]
pub extern "C" fn h_reject() {
    let n = u16v();
    let b = n as u8;
    let w = n & 255;
    match param(0) {
        0 => judge(RecordType::try_from(n), &wrong(&[(known(n), Type, n)])),
        1 => judge(QType::try_from(n), &wrong(&[(known(n) || (n >= 252 && n <= 255), Type, n)])),
        2 => {
            let (c, k) = (n & 0x7fff, matches!(n & 0x7fff, 1..=4 | 254 | 255));
            judge(QClass::try_from(n), &wrong(&[(k, Class, n), (k, Class, c)]));
        }
        3 => judge(ResponseCode::try_from(b), &wrong(&[(b <= 10, Rcode, w)])),
        4 => judge(Algorithm::try_from(b), &wrong(&[(b <= 5, SshAlg, w)])),
        5 => judge(sshfp::FingerprintType::try_from(b), &wrong(&[(b <= 1, SshFp, w)])),
        6 => judge(tlsa::CertUsage::try_from(b), &wrong(&[(b <= 3, Usage, w)])),
        7 => judge(tlsa::Selector::try_from(b), &wrong(&[(b <= 1, Selector, w)])),
        8 => judge(tlsa::MatchingType::try_from(b), &wrong(&[(b <= 2, Matching, w)])),
        9 => judge(tkey::Mode::try_from(n), &wrong(&[(n != 0 && n != 65535 && tkey::Mode::try_from(n).is_ok(), Mode, n)])),
        10 => judge(tkey::Error::try_from(n), &wrong(&[(n <= 21, TkeyErr, n)])),
        11 => judge(naptr::Flag::try_from(b), &wrong(&[(matches!(b, b'S' | b'A' | b'U' | b'P'), Naptr, w)])),
        12 => judge(dhcid::IdentifierType::try_from(n), &wrong(&[(n <= 2, Ident, n)])),
        13 => {
            let x = W::new().u16(7).raw(&[u8v(), b]).u32(0).u32(0).0;
            judge(Header::try_from(&mut DnsBuffer::from(&x[..])), &wrong(&[(b & 15 <= 10, Rcode, w & 15)]));
        }
        14 => {
            let c = u16v();
            let x = W::new().name(&labels(&[1])).u16(n).u16(c).0;
            let ct = c & 0x7fff;
            let mut l = wrong(&[(known(n) || (n >= 252 && n <= 255), Type, n)]);
            if !matches!(ct, 1..=4 | 254 | 255) {
                l.push((Class, c));
                l.push((Class, ct));
            }
            judge(Question::try_from(&mut DnsBuffer::from(&x[..])), &l);
        }
        15 => {
            // where a known type is given its data may still be wrong
            assume(!known(n));
            let x = W::new().rr(&labels(&[1]), n, 1, 2, &[]).0;
            judge(ResourceRecord::try_from(&mut DnsBuffer::from(&x[..])), &[(Type, n)]);
            let x = W::new().u16(1).u16(0x8000).u16(0).u16(0).u16(0).u16(1).raw(&x).0;
            judge(Packet::try_from(&x[..]), &[(Type, n)]);
        }
        _ => {
            // a pointer that does not point back
            let at = 12 + pick(3);
            assume(n >= at as u16 && n < 0x4000);
            let mut x = vec![0; at];
            x.extend([0xc0 | (n >> 8) as u8, n as u8, 0, 0]);
            let mut buf = DnsBuffer::from(&x[..]);
            check(buf.set_position(at).is_ok(), "set_position inside");
            match buf.extract_fqdn() {
                Err(DnsError::UnresolveableCompressionPointer) => cover("rejected"),
                _ => check(false, "a pointer that does not point back is reported as such"),
            }
        }
    }
}

/// A record of type param(0), complete, with any codes in it.
#[no_mangle]
pub extern "C" fn h_reject_rdata() {
    let (a, b, c) = (u8v(), u8v(), u8v());
    let (x, y) = (u16v(), u16v());
    let (aw, bw, cw) = (a as u16, b as u16, c as u16);
    let ty = param(0) as u16;
    let w = W::new();
    let (rd, bad) = match ty {
        42 => (w.u16(x).u8(9).u8(0), wrong(&[(x == 1 || x == 2, Apl, x)])),
        43 | 59 => (w.u16(x).u8(a).u8(b).u8(1), wrong(&[(ALGS.contains(&a), SecAlg, aw), (matches!(b, 1 | 2 | 4 | 5), Digest, bw)])),
        44 => {
            assume(a != 6 && b != 2);
            (w.u8(a).u8(b).u8(1), wrong(&[(a < 6, SshAlg, aw), (b < 2, SshFp, bw)]))
        }
        45 => (w.u8(a).u8(b).u8(c).raw(&[0; 16]), wrong(&[(b < 4, Gateway, bw), (c < 6, SshAlg, cw)])),
        46 => (w.u16(x).u8(a).raw(&[0; 15]).u8(0), wrong(&[(known(x), Type, x), (ALGS.contains(&a), SecAlg, aw)])),
        48 | 60 => (w.u16(x).u8(3).u8(a), wrong(&[(ALGS.contains(&a), SecAlg, aw)])),
        49 => (w.u16(x).u8(a).u8(b), wrong(&[(x < 3, Ident, x), (a == 1, Digest, aw)])),
        52 => (w.u8(a).u8(b).u8(c).u8(1), wrong(&[(a < 4, Usage, aw), (b < 2, Selector, bw), (c < 3, Matching, cw)])),
        55 => (w.u8(1).u8(a).u16(1).u8(1).u8(1), wrong(&[(a < 6, SshAlg, aw)])),
        62 => (w.u32(1).u16(x), wrong(&[(x < 4, Csync, x)])),
        64 => {
            assume(x >= 7 && x != 65535);
            (w.u16(1).u8(0).u16(x).u16(1).u8(a), wrong(&[(x >= 65280, Svcb, x)]))
        }
        249 => {
            let m = tkey::Mode::try_from(x).is_ok();
            (w.u8(0).raw(&[0; 8]).u16(x).u16(y).u16(0).u16(0), wrong(&[(m, Mode, x), (y < 22, TkeyErr, y)]))
        }
        250 => (w.u8(0).raw(&[0; 8]).u16(0).u16(1).u16(y).u16(0), wrong(&[(matches!(y, 0 | 16 | 17 | 18 | 22), TkeyErr, y)])),
        _ => {
            // NSEC: one window with one octet
            let (win, len) = (pick(3), 1 + pick(2));
            let mut m = w.u8(0).u8(win as u8).u8(len as u8);
            let mut l = vec![];
            let v = [a, b];
            for i in 0..len {
                m = m.u8(v[i]);
                for k in 0..8 {
                    let t = (win * 256 + i * 8 + k) as u16;
                    if v[i] >> (7 - k) & 1 == 1 && !known(t) {
                        l.push((Type, t));
                    }
                }
            }
            (m, l)
        }
    };
    let m = W::new().u16(1).u16(0x8000).u16(0).u16(1).u16(0).u16(0).rr(&vec![], ty, 1, 9, &rd.0).0;
    judge(Packet::try_from(&m[..]), &bad);
}
