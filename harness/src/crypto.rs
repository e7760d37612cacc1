//! Digests and signatures as the DNSSEC RFCs define them, over the same libraries as the code under test: the ideal
//! ones when the harness is compiled for the solver, the real ones in the native replay. Algorithm numbers are those
//! of DNSSEC: 1 RSA/MD5, 3 DSA/SHA1, 5 RSA/SHA1, 8 RSA/SHA256, 10 RSA/SHA512, 13, 14 ECDSA, 15 Ed25519, 16 Ed448.
pub const ALGS: [u8; 9] = [1, 3, 5, 8, 10, 13, 14, 15, 16];

/// digest numbers of RFC 4034 A.2 and its successors; 0 stands for MD5
#[cfg(feature = "ideal")]
pub fn hash(ty: u8, data: &[u8]) -> Vec<u8> {
    use idealcore::Hash::*;
    idealcore::hash([Md5, Sha1, Sha256, Sha1, Sha384, Sha512][ty as usize], data)
}

#[cfg(not(feature = "ideal"))]
pub fn hash(ty: u8, data: &[u8]) -> Vec<u8> {
    use ring::digest as d;
    let a = match ty {
        0 => {
            use md5::Digest;
            return md5::Md5::digest(data).to_vec();
        }
        1 => &d::SHA1_FOR_LEGACY_USE_ONLY,
        2 => &d::SHA256,
        4 => &d::SHA384,
        _ => &d::SHA512,
    };
    d::digest(a, data).as_ref().to_vec()
}

/// the digest an RSA algorithm uses
pub fn rsa_hash(alg: u8) -> u8 {
    match alg {
        1 => 0,
        5 => 1,
        8 => 2,
        _ => 5,
    }
}

#[cfg(feature = "ideal")]
mod imp {
    use super::*;
    use idealcore::Kind::{self, *};

    fn kind(alg: u8) -> Kind {
        match alg {
            1 | 5 | 8 | 10 => Rsa,
            3 => Dsa,
            13 => P256,
            14 => P384,
            15 => Ed25519,
            _ => Ed448,
        }
    }
    pub fn private(alg: u8, who: u8) -> Vec<u8> {
        idealcore::private(kind(alg), who)
    }
    /// the public key field of the DNSKEY
    pub fn public(alg: u8, who: u8) -> Vec<u8> {
        let k = idealcore::public(kind(alg), who);
        match kind(alg) {
            Rsa => [&[3, 1, 0, 1][..], &k].concat(),
            Dsa => {
                let (q, p, g) = dsa::parameters();
                [&[0][..], &q, &p, &g, &k].concat()
            }
            P256 | P384 => k[1..].to_vec(),
            _ => k,
        }
    }
    fn rsa_prefix(alg: u8) -> &'static [u8] {
        use idealcore::Hash::*;
        idealcore::digest_info([Md5, Sha1, Sha256, Sha1, Sha384, Sha512][rsa_hash(alg) as usize])
    }
    pub fn sign(alg: u8, who: u8, data: &[u8]) -> Vec<u8> {
        match kind(alg) {
            Rsa => idealcore::rsa_sign(who, rsa_prefix(alg), &hash(rsa_hash(alg), data)),
            Dsa => {
                use dsa::pkcs8::DecodePrivateKey;
                use dsa::signature::hazmat::PrehashSigner;
                let s = dsa::SigningKey::from_pkcs8_der(&private(alg, who)).unwrap().sign_prehash(&hash(1, data)).unwrap();
                dsa_field(0, &s.r().to_bytes_be(), &s.s().to_bytes_be())
            }
            k => idealcore::sign(k, who, data),
        }
    }
    pub fn verify(alg: u8, who: u8, data: &[u8], sig: &[u8]) -> bool {
        match kind(alg) {
            Rsa => sig == &sign(alg, who, data)[..],
            Dsa => {
                use dsa::pkcs8::DecodePrivateKey;
                use dsa::signature::hazmat::PrehashVerifier;
                if sig.len() != 41 || sig[0] != 0 {
                    return false;
                }
                let b = |x: &[u8]| dsa::BigUint::from_bytes_be(x);
                let s = match dsa::Signature::from_components(b(&sig[1..21]), b(&sig[21..])) {
                    Ok(s) => s,
                    Err(_) => return false,
                };
                dsa::SigningKey::from_pkcs8_der(&private(alg, who)).unwrap().verifying_key().verify_prehash(&hash(1, data), &s).is_ok()
            }
            k => sig == &idealcore::sign(k, who, data)[..],
        }
    }
}

#[cfg(not(feature = "ideal"))]
mod imp {
    use super::*;
    use ring::signature::KeyPair;
    use rsa::pkcs8::DecodePrivateKey;
    use rsa::traits::PublicKeyParts;

    pub fn private(alg: u8, who: u8) -> Vec<u8> {
        let k: [&[u8]; 2] = match alg {
            1 | 5 | 8 | 10 => [include_bytes!("keys/rsa0.der"), include_bytes!("keys/rsa1.der")],
            3 => [include_bytes!("keys/dsa0.der"), include_bytes!("keys/dsa1.der")],
            13 => [include_bytes!("keys/p2560.der"), include_bytes!("keys/p2561.der")],
            14 => [include_bytes!("keys/p3840.der"), include_bytes!("keys/p3841.der")],
            15 => [include_bytes!("keys/ed255190.der"), include_bytes!("keys/ed255191.der")],
            _ => [include_bytes!("keys/ed4480.bin"), include_bytes!("keys/ed4481.bin")],
        };
        k[who as usize].to_vec()
    }
    fn rsa_key(who: u8) -> rsa::RsaPrivateKey {
        rsa::RsaPrivateKey::from_pkcs8_der(&private(1, who)).unwrap()
    }
    fn dsa_key(who: u8) -> dsa::SigningKey {
        dsa::SigningKey::from_pkcs8_der(&private(3, who)).unwrap()
    }
    fn ec(alg: u8) -> (&'static ring::signature::EcdsaSigningAlgorithm, &'static dyn ring::signature::VerificationAlgorithm) {
        use ring::signature::*;
        if alg == 13 {
            (&ECDSA_P256_SHA256_FIXED_SIGNING, &ECDSA_P256_SHA256_FIXED)
        } else {
            (&ECDSA_P384_SHA384_FIXED_SIGNING, &ECDSA_P384_SHA384_FIXED)
        }
    }
    fn ec_key(alg: u8, who: u8) -> ring::signature::EcdsaKeyPair {
        ring::signature::EcdsaKeyPair::from_pkcs8(ec(alg).0, &private(alg, who), &ring::rand::SystemRandom::new()).unwrap()
    }
    fn ed_key(who: u8) -> ring::signature::Ed25519KeyPair {
        ring::signature::Ed25519KeyPair::from_pkcs8(&private(15, who)).unwrap()
    }
    fn ed448_key(who: u8) -> crrl::ed448::PrivateKey {
        crrl::ed448::PrivateKey::decode(&private(16, who)).unwrap()
    }
    fn wide(b: Vec<u8>, n: usize) -> Vec<u8> {
        [vec![0; n - b.len()], b].concat()
    }
    pub fn public(alg: u8, who: u8) -> Vec<u8> {
        match alg {
            1 | 5 | 8 | 10 => {
                let k = rsa_key(who);
                let e = k.e().to_bytes_be();
                [&[e.len() as u8][..], &e, &k.n().to_bytes_be()].concat()
            }
            3 => {
                let k = dsa_key(who);
                let (c, y) = (k.verifying_key().components(), k.verifying_key().y());
                let n = 128;
                [vec![8], wide(c.q().to_bytes_be(), 20), wide(c.p().to_bytes_be(), n), wide(c.g().to_bytes_be(), n), wide(y.to_bytes_be(), n)].concat()
            }
            13 | 14 => ec_key(alg, who).public_key().as_ref()[1..].to_vec(),
            15 => ed_key(who).public_key().as_ref().to_vec(),
            _ => ed448_key(who).public_key.encode().to_vec(),
        }
    }
    fn rsa_scheme(alg: u8) -> rsa::Pkcs1v15Sign {
        // DigestInfo of RFC 8017 9.2
        let p: &[u8] = match alg {
            1 => b"\x30\x20\x30\x0c\x06\x08\x2a\x86\x48\x86\xf7\x0d\x02\x05\x05\x00\x04\x10",
            5 => b"\x30\x21\x30\x09\x06\x05\x2b\x0e\x03\x02\x1a\x05\x00\x04\x14",
            8 => b"\x30\x31\x30\x0d\x06\x09\x60\x86\x48\x01\x65\x03\x04\x02\x01\x05\x00\x04\x20",
            _ => b"\x30\x51\x30\x0d\x06\x09\x60\x86\x48\x01\x65\x03\x04\x02\x03\x05\x00\x04\x40",
        };
        rsa::Pkcs1v15Sign { hash_len: None, prefix: p.into() }
    }
    pub fn sign(alg: u8, who: u8, data: &[u8]) -> Vec<u8> {
        match alg {
            1 | 5 | 8 | 10 => rsa_key(who).sign(rsa_scheme(alg), &hash(rsa_hash(alg), data)).unwrap(),
            3 => {
                use sha1::Digest;
                use signature::DigestSigner;
                let s: dsa::Signature = dsa_key(who).sign_digest(sha1::Sha1::new_with_prefix(data));
                dsa_field(8, &s.r().to_bytes_be(), &s.s().to_bytes_be())
            }
            13 | 14 => ec_key(alg, who).sign(&ring::rand::SystemRandom::new(), data).unwrap().as_ref().to_vec(),
            15 => ed_key(who).sign(data).as_ref().to_vec(),
            _ => ed448_key(who).sign_raw(data).to_vec(),
        }
    }
    pub fn verify(alg: u8, who: u8, data: &[u8], sig: &[u8]) -> bool {
        use ring::signature::{UnparsedPublicKey, ED25519};
        match alg {
            1 | 5 | 8 | 10 => rsa_key(who).to_public_key().verify(rsa_scheme(alg), &hash(rsa_hash(alg), data), sig).is_ok(),
            3 => {
                use signature::hazmat::PrehashVerifier;
                if sig.len() != 41 || sig[0] != 8 {
                    return false;
                }
                let b = |x: &[u8]| rsa::BigUint::from_bytes_be(x);
                match dsa::Signature::from_components(b(&sig[1..21]), b(&sig[21..])) {
                    Ok(s) => dsa_key(who).verifying_key().verify_prehash(&hash(1, data), &s).is_ok(),
                    Err(_) => false,
                }
            }
            13 | 14 => UnparsedPublicKey::new(ec(alg).1, ec_key(alg, who).public_key().as_ref()).verify(data, sig).is_ok(),
            15 => UnparsedPublicKey::new(&ED25519, public(15, who)).verify(data, sig).is_ok(),
            _ => ed448_key(who).public_key.verify_raw(sig, data),
        }
    }
}

/// T, R, S of RFC 2536 section 3
fn dsa_field(t: u8, r: &[u8], s: &[u8]) -> Vec<u8> {
    let mut v = vec![0; 41];
    v[0] = t;
    v[21 - r.len()..21].copy_from_slice(r);
    v[41 - s.len()..].copy_from_slice(s);
    v
}

pub use imp::*;
