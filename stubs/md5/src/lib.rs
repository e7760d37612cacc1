pub use idealcore::Digest;
idealcore::hasher!(Md5, idealcore::Hash::Md5);
