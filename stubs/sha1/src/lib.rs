pub use idealcore::Digest;
idealcore::hasher!(Sha1, idealcore::Hash::Sha1);
