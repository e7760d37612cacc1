//! The rsa crate's interface over ideal cryptography (see idealcore).
pub use idealcore::{pkcs8, signature, BigUint, Digest};
use idealcore::{Hash, Kind};

pub mod errors {
    pub type Error = idealcore::Error;
    pub type Result<T> = std::result::Result<T, Error>;
}
pub use errors::{Error, Result};

pub mod sha2 {
    pub use idealcore::Digest;
    idealcore::hasher!(Sha256, idealcore::Hash::Sha256);
    idealcore::hasher!(Sha384, idealcore::Hash::Sha384);
    idealcore::hasher!(Sha512, idealcore::Hash::Sha512);
}

pub mod traits {
    pub trait SignatureScheme {
        fn prefix(&self) -> Vec<u8>;
    }
    pub trait PublicKeyParts {
        fn n(&self) -> &crate::BigUint;
        fn e(&self) -> &crate::BigUint;
        fn size(&self) -> usize {
            (self.n().bits() + 7) / 8
        }
    }
}
use traits::{PublicKeyParts, SignatureScheme};

pub mod pkcs1v15 {
    #[derive(Clone, Debug)]
    pub struct Pkcs1v15Sign {
        pub hash_len: Option<usize>,
        pub prefix: Box<[u8]>,
    }
    impl Pkcs1v15Sign {
        pub fn new<D: idealcore::Digest>() -> Self {
            Pkcs1v15Sign { hash_len: None, prefix: idealcore::digest_info(D::HASH).into() }
        }
        pub fn new_unprefixed() -> Self {
            Pkcs1v15Sign { hash_len: None, prefix: Box::new([]) }
        }
        pub fn new_raw() -> Self {
            Self::new_unprefixed()
        }
    }
    impl crate::traits::SignatureScheme for Pkcs1v15Sign {
        fn prefix(&self) -> Vec<u8> {
            self.prefix.to_vec()
        }
    }
}
pub use pkcs1v15::Pkcs1v15Sign;

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct RsaPublicKey {
    n: BigUint,
    e: BigUint,
}
impl RsaPublicKey {
    pub fn new(n: BigUint, e: BigUint) -> Result<Self> {
        // as the real crate: the modulus is odd, the exponent is odd and at least 2
        if n.0.last().map_or(true, |b| b & 1 == 0) || e.0.last().map_or(true, |b| b & 1 == 0) || e.0.len() > 5 || (e.0.len() == 1 && e.0[0] < 2) {
            return Err(idealcore::Error);
        }
        Ok(RsaPublicKey { n, e })
    }
    pub fn verify<S: SignatureScheme>(&self, scheme: S, hashed: &[u8], sig: &[u8]) -> Result<()> {
        let who = idealcore::parse_public(Kind::Rsa, &self.n.0).ok_or(idealcore::Error)?;
        if self.e.0 == [1, 0, 1] && sig == &idealcore::rsa_sign(who, &scheme.prefix(), hashed)[..] {
            Ok(())
        } else {
            Err(idealcore::Error)
        }
    }
}
impl PublicKeyParts for RsaPublicKey {
    fn n(&self) -> &BigUint {
        &self.n
    }
    fn e(&self) -> &BigUint {
        &self.e
    }
}

#[derive(Clone, Debug)]
pub struct RsaPrivateKey(u8, RsaPublicKey);
impl pkcs8::DecodePrivateKey for RsaPrivateKey {
    fn from_pkcs8_der(b: &[u8]) -> Result<Self> {
        let who = idealcore::parse_private(Kind::Rsa, b).ok_or(idealcore::Error)?;
        Ok(RsaPrivateKey(who, RsaPublicKey { n: BigUint(idealcore::public(Kind::Rsa, who)), e: BigUint(vec![1, 0, 1]) }))
    }
}
impl RsaPrivateKey {
    pub fn to_public_key(&self) -> RsaPublicKey {
        self.1.clone()
    }
    pub fn sign<S: SignatureScheme>(&self, scheme: S, digest: &[u8]) -> Result<Vec<u8>> {
        Ok(idealcore::rsa_sign(self.0, &scheme.prefix(), digest))
    }
}
impl PublicKeyParts for RsaPrivateKey {
    fn n(&self) -> &BigUint {
        &self.1.n
    }
    fn e(&self) -> &BigUint {
        &self.1.e
    }
}
const _: Hash = Hash::Sha1;
