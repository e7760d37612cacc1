//! ring's interface over ideal cryptography (see idealcore).
pub mod error {
    pub type Unspecified = idealcore::Error;
    pub type KeyRejected = idealcore::Error;
}

pub mod rand {
    pub trait SecureRandom {}
    #[derive(Clone, Debug, Default)]
    pub struct SystemRandom(());
    impl SystemRandom {
        pub fn new() -> Self {
            SystemRandom(())
        }
    }
    impl SecureRandom for SystemRandom {}
}

pub mod digest {
    use idealcore::Hash;

    #[derive(Debug, PartialEq, Eq)]
    pub struct Algorithm(Hash);
    pub static SHA1_FOR_LEGACY_USE_ONLY: Algorithm = Algorithm(Hash::Sha1);
    pub static SHA256: Algorithm = Algorithm(Hash::Sha256);
    pub static SHA384: Algorithm = Algorithm(Hash::Sha384);
    pub static SHA512: Algorithm = Algorithm(Hash::Sha512);

    impl Algorithm {
        pub fn output_len(&self) -> usize {
            match self.0 {
                Hash::Md5 => 16,
                Hash::Sha1 => 20,
                Hash::Sha256 => 32,
                Hash::Sha384 => 48,
                Hash::Sha512 => 64,
            }
        }
    }

    #[derive(Clone, Debug)]
    pub struct Digest(Vec<u8>, &'static Algorithm);
    impl Digest {
        pub fn algorithm(&self) -> &'static Algorithm {
            self.1
        }
    }
    impl AsRef<[u8]> for Digest {
        fn as_ref(&self) -> &[u8] {
            &self.0
        }
    }

    pub fn digest(a: &'static Algorithm, data: &[u8]) -> Digest {
        Digest(idealcore::hash(a.0, data), a)
    }

    #[derive(Clone, Debug)]
    pub struct Context(Vec<u8>, &'static Algorithm);
    impl Context {
        pub fn new(a: &'static Algorithm) -> Self {
            Context(Vec::new(), a)
        }
        pub fn update(&mut self, d: &[u8]) {
            self.0.extend_from_slice(d)
        }
        pub fn finish(self) -> Digest {
            digest(self.1, &self.0)
        }
        pub fn algorithm(&self) -> &'static Algorithm {
            self.1
        }
    }
}

pub mod rsa {
    use idealcore::{Error, Hash, Kind};

    #[derive(Debug)]
    pub struct KeyPair(u8, PublicKey);
    #[derive(Debug, Clone)]
    pub struct PublicKey(Vec<u8>);
    impl PublicKey {
        pub fn modulus_len(&self) -> usize {
            self.0.len()
        }
    }
    pub trait RsaEncoding: Sync {
        fn hash(&self) -> Hash;
    }
    impl KeyPair {
        pub fn from_pkcs8(b: &[u8]) -> Result<Self, Error> {
            let who = idealcore::parse_private(Kind::Rsa, b).ok_or(Error)?;
            Ok(KeyPair(who, PublicKey(idealcore::public(Kind::Rsa, who))))
        }
        pub fn public(&self) -> &PublicKey {
            &self.1
        }
        pub fn public_modulus_len(&self) -> usize {
            self.1.modulus_len()
        }
        pub fn sign(&self, enc: &'static dyn RsaEncoding, _rng: &dyn crate::rand::SecureRandom, msg: &[u8], out: &mut [u8]) -> Result<(), Error> {
            if out.len() != self.1.modulus_len() {
                return Err(Error);
            }
            let h = enc.hash();
            out.copy_from_slice(&idealcore::rsa_sign(self.0, idealcore::digest_info(h), &idealcore::hash(h, msg)));
            Ok(())
        }
    }
}

pub mod signature {
    use idealcore::{Error, Hash, Kind};
    pub use crate::rsa::{KeyPair as RsaKeyPair, RsaEncoding};

    pub struct RsaPadding(Hash);
    impl RsaEncoding for RsaPadding {
        fn hash(&self) -> Hash {
            self.0
        }
    }
    pub static RSA_PKCS1_SHA256: RsaPadding = RsaPadding(Hash::Sha256);
    pub static RSA_PKCS1_SHA384: RsaPadding = RsaPadding(Hash::Sha384);
    pub static RSA_PKCS1_SHA512: RsaPadding = RsaPadding(Hash::Sha512);

    pub trait VerificationAlgorithm: Sync {
        fn check(&self, public: &[u8], msg: &[u8], sig: &[u8]) -> bool;
    }
    pub struct Scheme(Kind);
    impl VerificationAlgorithm for Scheme {
        fn check(&self, public: &[u8], msg: &[u8], sig: &[u8]) -> bool {
            idealcore::verify(self.0, public, msg, sig)
        }
    }
    pub static ECDSA_P256_SHA256_FIXED: Scheme = Scheme(Kind::P256);
    pub static ECDSA_P384_SHA384_FIXED: Scheme = Scheme(Kind::P384);
    pub static ED25519: Scheme = Scheme(Kind::Ed25519);
    pub type EcdsaSigningAlgorithm = Scheme;
    pub static ECDSA_P256_SHA256_FIXED_SIGNING: Scheme = Scheme(Kind::P256);
    pub static ECDSA_P384_SHA384_FIXED_SIGNING: Scheme = Scheme(Kind::P384);

    /// n, e of an RSA key and the PKCS #1 schemes that verify with it
    pub struct RsaParameters(Hash);
    pub static RSA_PKCS1_1024_8192_SHA1_FOR_LEGACY_USE_ONLY: RsaParameters = RsaParameters(Hash::Sha1);
    pub static RSA_PKCS1_2048_8192_SHA1_FOR_LEGACY_USE_ONLY: RsaParameters = RsaParameters(Hash::Sha1);
    pub static RSA_PKCS1_1024_8192_SHA256_FOR_LEGACY_USE_ONLY: RsaParameters = RsaParameters(Hash::Sha256);
    pub static RSA_PKCS1_2048_8192_SHA256: RsaParameters = RsaParameters(Hash::Sha256);
    pub static RSA_PKCS1_1024_8192_SHA512_FOR_LEGACY_USE_ONLY: RsaParameters = RsaParameters(Hash::Sha512);
    pub static RSA_PKCS1_2048_8192_SHA512: RsaParameters = RsaParameters(Hash::Sha512);
    pub struct RsaPublicKeyComponents<B> {
        pub n: B,
        pub e: B,
    }
    impl<B: AsRef<[u8]>> RsaPublicKeyComponents<B> {
        pub fn verify(&self, p: &'static RsaParameters, msg: &[u8], sig: &[u8]) -> Result<(), Error> {
            let who = idealcore::parse_public(Kind::Rsa, self.n.as_ref()).ok_or(Error)?;
            if self.e.as_ref() == [1, 0, 1] && sig == &idealcore::rsa_sign(who, idealcore::digest_info(p.0), &idealcore::hash(p.0, msg))[..] {
                Ok(())
            } else {
                Err(Error)
            }
        }
    }

    pub struct UnparsedPublicKey<B>(&'static dyn VerificationAlgorithm, B);
    impl<B> UnparsedPublicKey<B> {
        pub fn new(a: &'static dyn VerificationAlgorithm, b: B) -> Self {
            UnparsedPublicKey(a, b)
        }
    }
    impl<B: AsRef<[u8]>> UnparsedPublicKey<B> {
        pub fn verify(&self, msg: &[u8], sig: &[u8]) -> Result<(), Error> {
            if self.0.check(self.1.as_ref(), msg, sig) {
                Ok(())
            } else {
                Err(Error)
            }
        }
    }

    #[derive(Clone, Debug)]
    pub struct Signature(Vec<u8>);
    impl AsRef<[u8]> for Signature {
        fn as_ref(&self) -> &[u8] {
            &self.0
        }
    }

    pub trait KeyPair {
        type PublicKey: AsRef<[u8]>;
        fn public_key(&self) -> &Self::PublicKey;
    }

    pub struct EcdsaKeyPair(Kind, u8, Vec<u8>);
    impl EcdsaKeyPair {
        pub fn from_pkcs8(a: &'static EcdsaSigningAlgorithm, b: &[u8], _rng: &dyn crate::rand::SecureRandom) -> Result<Self, Error> {
            let who = idealcore::parse_private(a.0, b).ok_or(Error)?;
            Ok(EcdsaKeyPair(a.0, who, idealcore::public(a.0, who)))
        }
        pub fn sign(&self, _rng: &dyn crate::rand::SecureRandom, msg: &[u8]) -> Result<Signature, Error> {
            Ok(Signature(idealcore::sign(self.0, self.1, msg)))
        }
    }
    impl KeyPair for EcdsaKeyPair {
        type PublicKey = Vec<u8>;
        fn public_key(&self) -> &Vec<u8> {
            &self.2
        }
    }

    pub struct Ed25519KeyPair(u8, Vec<u8>);
    impl Ed25519KeyPair {
        pub fn from_pkcs8(b: &[u8]) -> Result<Self, Error> {
            let who = idealcore::parse_private(Kind::Ed25519, b).ok_or(Error)?;
            Ok(Ed25519KeyPair(who, idealcore::public(Kind::Ed25519, who)))
        }
        pub fn from_pkcs8_maybe_unchecked(b: &[u8]) -> Result<Self, Error> {
            Self::from_pkcs8(b)
        }
        pub fn sign(&self, msg: &[u8]) -> Signature {
            Signature(idealcore::sign(Kind::Ed25519, self.0, msg))
        }
    }
    impl KeyPair for Ed25519KeyPair {
        type PublicKey = Vec<u8>;
        fn public_key(&self) -> &Vec<u8> {
            &self.1
        }
    }
}
