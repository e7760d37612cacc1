pub mod kit;
pub mod more;
pub mod props;
pub mod read;
pub mod equal;
pub mod reject;
pub mod spec;
pub mod wire;

/// The entries, for native replay.
pub static ENTRIES: &[(&str, extern "C" fn())] = &[
    ("h_any", props::h_any),
    ("h_any_body", props::h_any_body),
    ("h_any_rdata", props::h_any_rdata),
    ("h_any_part", props::h_any_part),
    ("h_stable_body", props::h_stable_body),
    ("h_stable_rdata", props::h_stable_rdata),
    ("h_header", props::h_header),
    ("h_header_set", props::h_header_set),
    ("h_name_decode", props::h_name_decode),
    ("h_name_layout", props::h_name_layout),
    ("h_name_encode", props::h_name_encode),
    ("h_name_str", props::h_name_str),
    ("h_name_display", props::h_name_display),
    ("h_name_eq", props::h_name_eq),
    ("h_name_text", props::h_name_text),
    ("h_question", props::h_question),
    ("h_question_parse", props::h_question_parse),
    ("h_record", props::h_record),
    ("h_record_parse", props::h_record_parse),
    ("h_confined", props::h_confined),
    ("h_rdata", props::h_rdata),
    ("h_opt", props::h_opt),
    ("h_apl", props::h_apl),
    ("h_bitmap", props::h_bitmap),
    ("h_codes", props::h_codes),
    ("h_buffer", props::h_buffer),
    ("h_history", props::h_history),
    ("h_many", props::h_many),
    ("h_compress", props::h_compress),
    ("h_compress_edge", props::h_compress_edge),
    ("h_compress_gain", props::h_compress_gain),
    ("h_prefix", props::h_prefix),
    ("h_missing", props::h_missing),
    ("h_compress_fields", props::h_compress_fields),
    ("h_packet", props::h_packet),
    ("h_rrset", props::h_rrset),
    ("h_error", props::h_error),
    ("h_chain", more::h_chain),
    ("h_rdlength", more::h_rdlength),
    ("h_name_io", more::h_name_io),
    ("h_rdata_ptr", more::h_rdata_ptr),
    ("h_bitmap_write", more::h_bitmap_write),
    ("h_bitmap_wide", more::h_bitmap_wide),
    ("h_bitmap_multi", more::h_bitmap_multi),
    ("h_svcb", more::h_svcb),
    ("h_rrset_types", more::h_rrset_types),
    ("h_local", more::h_local),
    ("h_error_any", more::h_error_any),
    ("h_known", more::h_known),
    ("h_use", more::h_use),
    ("h_mutant", more::h_mutant),
    ("h_read", read::h_read),
    ("h_equal", equal::h_equal),
    ("h_equal_parts", equal::h_equal_parts),
    ("h_edit", equal::h_edit),
    ("h_edit_name", equal::h_edit_name),
    ("h_addr", equal::h_addr),
    ("h_buffer_long", equal::h_buffer_long),
    ("h_reject", reject::h_reject),
    ("h_reject_rdata", reject::h_reject_rdata),
];
