//! Ideal cryptography: what the code under test calls when it is compiled for the solver.
//!
//! A digest is a tag of the algorithm followed by the data, a signature is the identity of the key followed by
//! the data that was signed: nothing collides and nothing can be forged, so an assertion over a digest or a
//! signature is an assertion over exactly the bytes that went into it. Two key pairs exist per algorithm.
//! The interfaces are those of the real crates, as far as the code under test uses them.
use std::fmt;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
#[repr(u8)]
pub enum Hash {
    Md5 = 1,
    Sha1 = 2,
    Sha256 = 3,
    Sha384 = 4,
    Sha512 = 5,
}

pub fn hash(h: Hash, data: &[u8]) -> Vec<u8> {
    let mut v = Vec::with_capacity(1 + data.len());
    v.push(0xd0 | h as u8);
    v.extend_from_slice(data);
    v
}

/// DigestInfo prefix of PKCS #1 (RFC 8017 9.2); ring and rsa write the same one for the same hash.
pub fn digest_info(h: Hash) -> &'static [u8] {
    match h {
        Hash::Md5 => &[0x30, 0x20, 0x30, 0x0c, 0x06, 0x08, 0x2a, 0x86, 0x48, 0x86, 0xf7, 0x0d, 0x02, 0x05, 0x05, 0x00, 0x04, 0x10],
        Hash::Sha1 => &[0x30, 0x21, 0x30, 0x09, 0x06, 0x05, 0x2b, 0x0e, 0x03, 0x02, 0x1a, 0x05, 0x00, 0x04, 0x14],
        Hash::Sha256 => &[0x30, 0x31, 0x30, 0x0d, 0x06, 0x09, 0x60, 0x86, 0x48, 0x01, 0x65, 0x03, 0x04, 0x02, 0x01, 0x05, 0x00, 0x04, 0x20],
        Hash::Sha384 => &[0x30, 0x41, 0x30, 0x0d, 0x06, 0x09, 0x60, 0x86, 0x48, 0x01, 0x65, 0x03, 0x04, 0x02, 0x02, 0x05, 0x00, 0x04, 0x30],
        Hash::Sha512 => &[0x30, 0x51, 0x30, 0x0d, 0x06, 0x09, 0x60, 0x86, 0x48, 0x01, 0x65, 0x03, 0x04, 0x02, 0x03, 0x05, 0x00, 0x04, 0x40],
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
#[repr(u8)]
pub enum Kind {
    Rsa = 1,
    Dsa = 3,
    P256 = 13,
    P384 = 14,
    Ed25519 = 15,
    Ed448 = 16,
}

/// The private key bytes of key pair `who` (0 or 1).
pub fn private(k: Kind, who: u8) -> Vec<u8> {
    vec![0x50, k as u8, who]
}

pub fn parse_private(k: Kind, b: &[u8]) -> Option<u8> {
    if b.len() == 3 && b[0] == 0x50 && b[1] == k as u8 && b[2] < 2 {
        Some(b[2])
    } else {
        None
    }
}

/// The public key in the encoding of its library: the modulus for RSA, y for DSA, an uncompressed point for ECDSA.
pub fn public(k: Kind, who: u8) -> Vec<u8> {
    let (first, n): (u8, usize) = match k {
        Kind::Rsa => (0xc1, RSA_LEN),
        Kind::Dsa => (0x71, 64),
        Kind::P256 => (4, 65),
        Kind::P384 => (4, 97),
        Kind::Ed25519 => (0x25, 32),
        Kind::Ed448 => (0x44, 57),
    };
    let mut v = vec![0x33; n];
    v[0] = first;
    v[1] = who;
    v
}

pub fn parse_public(k: Kind, b: &[u8]) -> Option<u8> {
    if b.len() < 2 {
        return None;
    }
    let who = b[1] & 1;
    if b == &public(k, who)[..] {
        Some(who)
    } else {
        None
    }
}

/// Signature of a scheme that takes the message itself.
pub fn sign(k: Kind, who: u8, msg: &[u8]) -> Vec<u8> {
    let mut v = Vec::with_capacity(3 + msg.len());
    v.push(0x51);
    v.push(k as u8);
    v.push(who);
    v.extend_from_slice(msg);
    v
}

pub fn verify(k: Kind, public: &[u8], msg: &[u8], sig: &[u8]) -> bool {
    match parse_public(k, public) {
        Some(who) => sig == &sign(k, who, msg)[..],
        None => false,
    }
}

pub const RSA_LEN: usize = 512;

/// RSA signature of an encoded message (DigestInfo and digest), as long as the modulus.
pub fn rsa_sign(who: u8, prefix: &[u8], digest: &[u8]) -> Vec<u8> {
    let mut v = Vec::with_capacity(RSA_LEN);
    let n = prefix.len() + digest.len();
    v.push(0x51);
    v.push(who);
    v.push((n >> 8) as u8);
    v.push(n as u8);
    v.extend_from_slice(prefix);
    v.extend_from_slice(digest);
    assert!(v.len() <= RSA_LEN, "outside the model: message too long");
    while v.len() < RSA_LEN {
        v.push(0xff);
    }
    v
}

/// Numbers, as big endian bytes without leading zeros.
#[derive(Clone, PartialEq, Eq, Debug, Default)]
pub struct BigUint(pub Vec<u8>);

impl BigUint {
    pub fn from_bytes_be(b: &[u8]) -> Self {
        let mut i = 0;
        while i < b.len() && b[i] == 0 {
            i += 1;
        }
        BigUint(b[i..].to_vec())
    }
    pub fn to_bytes_be(&self) -> Vec<u8> {
        if self.0.is_empty() {
            vec![0]
        } else {
            self.0.clone()
        }
    }
    pub fn bits(&self) -> usize {
        match self.0.first() {
            Some(b) => 8 * self.0.len() - b.leading_zeros() as usize,
            None => 0,
        }
    }
}

impl PartialOrd for BigUint {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some((self.0.len(), &self.0).cmp(&(o.0.len(), &o.0)))
    }
}

/// Error of every operation here.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Default)]
pub struct Error;

impl Error {
    pub fn new() -> Self {
        Error
    }
}

impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Unspecified")
    }
}

impl std::error::Error for Error {}

/// Result of a `Digest`.
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Output(pub Vec<u8>);

impl std::ops::Deref for Output {
    type Target = [u8];
    fn deref(&self) -> &[u8] {
        &self.0
    }
}
impl AsRef<[u8]> for Output {
    fn as_ref(&self) -> &[u8] {
        &self.0
    }
}

pub trait Digest: Sized {
    const HASH: Hash;
    fn new() -> Self;
    fn data(&mut self) -> &mut Vec<u8>;
    fn update(&mut self, d: impl AsRef<[u8]>) {
        self.data().extend_from_slice(d.as_ref())
    }
    fn chain_update(mut self, d: impl AsRef<[u8]>) -> Self {
        self.update(d);
        self
    }
    fn new_with_prefix(d: impl AsRef<[u8]>) -> Self {
        Self::new().chain_update(d)
    }
    fn finalize(mut self) -> Output {
        Output(hash(Self::HASH, self.data()))
    }
    fn digest(d: impl AsRef<[u8]>) -> Output {
        Self::new_with_prefix(d).finalize()
    }
}

#[macro_export]
macro_rules! hasher {
    ($n:ident, $h:expr) => {
        #[derive(Clone, Debug, Default)]
        pub struct $n(Vec<u8>);
        impl $crate::Digest for $n {
            const HASH: $crate::Hash = $h;
            fn new() -> Self {
                $n(Vec::new())
            }
            fn data(&mut self) -> &mut Vec<u8> {
                &mut self.0
            }
        }
    };
}

pub mod pkcs8 {
    pub type Error = crate::Error;
    pub trait DecodePrivateKey: Sized {
        fn from_pkcs8_der(b: &[u8]) -> Result<Self, Error>;
    }
}

pub mod signature {
    pub use crate::{Digest, Error};
    pub type Result<T> = std::result::Result<T, Error>;
    pub trait Signer<S> {
        fn try_sign(&self, msg: &[u8]) -> Result<S>;
        fn sign(&self, msg: &[u8]) -> S {
            self.try_sign(msg).expect("signature operation failed")
        }
    }
    pub trait Verifier<S> {
        fn verify(&self, msg: &[u8], signature: &S) -> Result<()>;
    }
    pub trait DigestSigner<D: Digest, S> {
        fn try_sign_digest(&self, digest: D) -> Result<S>;
        fn sign_digest(&self, digest: D) -> S {
            self.try_sign_digest(digest).expect("signature operation failed")
        }
    }
    pub trait DigestVerifier<D: Digest, S> {
        fn verify_digest(&self, digest: D, signature: &S) -> Result<()>;
    }
    pub mod hazmat {
        pub trait PrehashSigner<S> {
            fn sign_prehash(&self, prehash: &[u8]) -> super::Result<S>;
        }
        pub trait PrehashVerifier<S> {
            fn verify_prehash(&self, prehash: &[u8], signature: &S) -> super::Result<()>;
        }
    }
}
