pub mod crypto;
pub mod kit;
pub mod sign;
pub mod wire;

/// The entries, for native replay.
pub static ENTRIES: &[(&str, extern "C" fn())] = &[
    ("h_ds", sign::h_ds),
    ("h_digest", sign::h_digest),
    ("h_dhcid", sign::h_dhcid),
    ("h_print", sign::h_print),
    ("h_sign", sign::h_sign),
    ("h_verify", sign::h_verify),
    ("h_verify_any", sign::h_verify_any),
    ("h_sign_any", sign::h_sign_any),
    ("h_sign_time", sign::h_sign_time),
];
