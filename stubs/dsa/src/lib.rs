//! The dsa crate's interface over ideal cryptography (see idealcore). A signature is a pair of numbers of at most
//! 20 octets, so what was signed is kept in a table and the numbers only name the entry; the first number has a
//! leading zero octet in its 20 octet form, as one signature in 256 has.
pub use idealcore::{pkcs8, signature, BigUint};
use idealcore::signature::*;
use idealcore::{Digest, Error, Kind};
use std::sync::Mutex;

static SIGNED: Mutex<Vec<(u8, Vec<u8>)>> = Mutex::new(Vec::new());

/// q, p, g of the only parameters there are
pub fn parameters() -> (Vec<u8>, Vec<u8>, Vec<u8>) {
    (vec![0x81; 20], vec![0x83; 64], vec![0x05; 64])
}

#[derive(Clone, Debug, PartialEq)]
pub struct Components {
    p: BigUint,
    q: BigUint,
    g: BigUint,
}
impl Components {
    pub fn from_components(p: BigUint, q: BigUint, g: BigUint) -> Result<Self> {
        if p.0.is_empty() || q.0.is_empty() || g.0.is_empty() {
            return Err(Error);
        }
        Ok(Components { p, q, g })
    }
    pub fn p(&self) -> &BigUint {
        &self.p
    }
    pub fn q(&self) -> &BigUint {
        &self.q
    }
    pub fn g(&self) -> &BigUint {
        &self.g
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct VerifyingKey {
    c: Components,
    y: BigUint,
}
impl VerifyingKey {
    pub fn from_components(c: Components, y: BigUint) -> Result<Self> {
        if y.0.is_empty() {
            return Err(Error);
        }
        Ok(VerifyingKey { c, y })
    }
    pub fn components(&self) -> &Components {
        &self.c
    }
    pub fn y(&self) -> &BigUint {
        &self.y
    }
    fn check(&self, digest: &[u8], s: &Signature) -> bool {
        let (q, p, g) = parameters();
        let who = match idealcore::parse_public(Kind::Dsa, &self.y.0) {
            Some(w) => w,
            None => return false,
        };
        if self.c.q.0 != q || self.c.p.0 != p || self.c.g.0 != g {
            return false;
        }
        let t = SIGNED.lock().unwrap();
        for (i, (w, d)) in t.iter().enumerate() {
            if *w == who && s.r == handle(i, 19) && s.s == handle(i, 20) && &d[..] == digest {
                return true;
            }
        }
        false
    }
}

fn handle(i: usize, n: usize) -> BigUint {
    let mut v = vec![0x11; n];
    v[n - 1] = i as u8;
    BigUint(v)
}

#[derive(Clone, Debug, PartialEq)]
pub struct Signature {
    r: BigUint,
    s: BigUint,
}
impl Signature {
    pub fn from_components(r: BigUint, s: BigUint) -> Result<Self> {
        if r.0.is_empty() || s.0.is_empty() {
            return Err(Error);
        }
        Ok(Signature { r, s })
    }
    pub fn r(&self) -> &BigUint {
        &self.r
    }
    pub fn s(&self) -> &BigUint {
        &self.s
    }
}
/// DER: SEQUENCE { INTEGER r, INTEGER s }
impl TryFrom<&[u8]> for Signature {
    type Error = Error;
    fn try_from(b: &[u8]) -> Result<Self> {
        if b.len() < 2 || b[0] != 0x30 || b[1] as usize != b.len() - 2 {
            return Err(Error);
        }
        let mut p = 2;
        let mut int = || {
            if p + 2 > b.len() || b[p] != 2 || p + 2 + b[p + 1] as usize > b.len() {
                return Err(Error);
            }
            let n = b[p + 1] as usize;
            let v = BigUint::from_bytes_be(&b[p + 2..p + 2 + n]);
            p += 2 + n;
            Ok(v)
        };
        let (r, s) = (int()?, int()?);
        if p != b.len() {
            return Err(Error);
        }
        Signature::from_components(r, s)
    }
}

pub struct SigningKey(u8, VerifyingKey);
impl SigningKey {
    pub fn verifying_key(&self) -> &VerifyingKey {
        &self.1
    }
    fn make(&self, digest: &[u8]) -> Signature {
        let mut t = SIGNED.lock().unwrap();
        t.push((self.0, digest.to_vec()));
        Signature { r: handle(t.len() - 1, 19), s: handle(t.len() - 1, 20) }
    }
}
impl pkcs8::DecodePrivateKey for SigningKey {
    fn from_pkcs8_der(b: &[u8]) -> Result<Self> {
        let who = idealcore::parse_private(Kind::Dsa, b).ok_or(Error)?;
        let (q, p, g) = parameters();
        let c = Components { p: BigUint(p), q: BigUint(q), g: BigUint(g) };
        Ok(SigningKey(who, VerifyingKey { c, y: BigUint(idealcore::public(Kind::Dsa, who)) }))
    }
}
impl<D: Digest> DigestSigner<D, Signature> for SigningKey {
    fn try_sign_digest(&self, d: D) -> Result<Signature> {
        Ok(self.make(&d.finalize()))
    }
}
impl hazmat::PrehashSigner<Signature> for SigningKey {
    fn sign_prehash(&self, d: &[u8]) -> Result<Signature> {
        Ok(self.make(d))
    }
}
impl Signer<Signature> for SigningKey {
    fn try_sign(&self, m: &[u8]) -> Result<Signature> {
        Ok(self.make(&idealcore::hash(idealcore::Hash::Sha256, m)))
    }
}
impl<D: Digest> DigestVerifier<D, Signature> for VerifyingKey {
    fn verify_digest(&self, d: D, s: &Signature) -> Result<()> {
        hazmat::PrehashVerifier::verify_prehash(self, &d.finalize(), s)
    }
}
impl hazmat::PrehashVerifier<Signature> for VerifyingKey {
    fn verify_prehash(&self, d: &[u8], s: &Signature) -> Result<()> {
        if self.check(d, s) {
            Ok(())
        } else {
            Err(Error)
        }
    }
}
impl Verifier<Signature> for VerifyingKey {
    fn verify(&self, m: &[u8], s: &Signature) -> Result<()> {
        hazmat::PrehashVerifier::verify_prehash(self, &idealcore::hash(idealcore::Hash::Sha256, m), s)
    }
}
