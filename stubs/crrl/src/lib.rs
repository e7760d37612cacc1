//! crrl's Ed448 interface over ideal cryptography (see idealcore).
pub mod ed448 {
    use idealcore::Kind::Ed448;

    #[derive(Clone, Copy, Debug)]
    pub struct PublicKey(u8);
    #[derive(Clone, Copy, Debug)]
    pub struct PrivateKey {
        who: u8,
        pub public_key: PublicKey,
    }
    impl PrivateKey {
        pub fn decode(b: &[u8]) -> Option<Self> {
            let who = idealcore::parse_private(Ed448, b)?;
            Some(PrivateKey { who, public_key: PublicKey(who) })
        }
        pub fn encode(self) -> Vec<u8> {
            idealcore::private(Ed448, self.who)
        }
        pub fn sign_raw(self, m: &[u8]) -> Vec<u8> {
            idealcore::sign(Ed448, self.who, m)
        }
    }
    impl PublicKey {
        pub fn decode(b: &[u8]) -> Option<Self> {
            Some(PublicKey(idealcore::parse_public(Ed448, b)?))
        }
        pub fn encode(self) -> Vec<u8> {
            idealcore::public(Ed448, self.0)
        }
        pub fn verify_raw(self, sig: &[u8], m: &[u8]) -> bool {
            sig == &idealcore::sign(Ed448, self.0, m)[..]
        }
    }
}
