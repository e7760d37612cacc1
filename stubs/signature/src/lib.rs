pub use idealcore::signature::*;
