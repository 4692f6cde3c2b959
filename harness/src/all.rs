pub mod iox;
pub mod kx;
pub mod refk;
pub mod sx;
mod c01;
mod c02;
mod c03;
mod c04;
mod c05;
mod c06;
mod c07;
mod c08;
mod c09;
mod c10;
mod c11;
mod c12;
mod c13;
mod c14;
mod c15;
mod c16;
mod c17;
mod c18;
mod c19;
mod c20;
mod c21;
mod c22;
mod c23;
mod c24;

macro_rules! entries {
    ($($m:ident :: $f:ident),* $(,)?) => {
        /// Everything that can be explored or replayed.
        #[allow(dead_code)]
        pub const ENTRIES: &[(&str, fn())] = &[$((stringify!($f), $m::$f as fn())),*];
        $(#[no_mangle] pub extern "C" fn $f() { $m::$f() })*
    };
}
entries! {
    c01::c01_raw, c01::c01_fields, c01::c01_replace, c01::c01_length, c01::c01_dict, c01::c01_entry, c01::c01_cut,
    c02::c02_ids, c02::c02_lengths, c02::c02_kdf, c02::c02_inner, c02::c02_inner_field, c02::c02_padding, c02::c02_ragged, c02::c02_framing, c02::c02_gzip, c02::c02_stream, c02::c02_xml, c02::c02_v3_field, c02::c02_v3_blocks, c02::c02_v3_raw,
    c03::c03_config, c03::c03_len, c03::c03_big,
    c04::c04_prefix, c04::c04_data, c04::c04_two, c04::c04_field, c04::c04_dict, c04::c04_hash, c04::c04_fields, c04::c04_tag,
    c05::c05_bytes, c05::c05_cut, c05::c05_blocks, c05::c05_resize,
    c06::c06_pair, c06::c06_shift, c06::c06_repeat, c06::c06_v3,
    c07::c07_config, c07::c07_order, c07::c07_dict, c07::c07_extra, c07::c07_inner, c07::c07_split, c07::c07_gzip, c07::c07_key,
    c08::c08_config, c08::c08_len, c08::c08_big,
    c09::c09_config, c09::c09_split, c09::c09_order, c09::c09_damage,
    c10::c10_aes, c10::c10_rounds, c10::c10_argon, c10::c10_unknown, c10::c10_unknown_file, c10::c10_key, c10::c10_read,
    c11::c11_text, c11::c11_times, c11::c11_uuid, c11::c11_flags, c11::c11_tree, c11::c11_fields, c11::c11_custom, c11::c11_nested, c11::c11_roots,
    c12::c12_write, c12::c12_back, c12::c12_read, c12::c12_file,
    c13::c13_raw, c13::c13_tokens, c13::c13_value, c13::c13_deep,
    c14::c14_encode, c14::c14_roundtrip, c14::c14_decode, c14::c14_uuid, c14::c14_text, c14::c14_change, c14::c14_range, c14::c14_iso, c14::c14_offset, c14::c14_iso_text,
    c15::c15_config, c15::c15_extra, c15::c15_ids, c15::c15_read, c15::c15_dict, c15::c15_carry, c15::c15_full, c15::c15_three,
    c16::c16_find, c16::c16_walk, c16::c16_remove, c16::c16_sequence,
    c17::c17_sequence, c17::c17_full, c17::c17_names, c17::c17_value,
    c18::c18_sequence, c18::c18_many, c18::c18_push,
    c19::c19_any, c19::c19_layout, c19::c19_dict, c19::c19_config, c19::c19_touched, c19::c19_damaged,
    c20::c20_sequence, c20::c20_misfit, c20::c20_keys, c20::c20_content,
    c21::c21_make, c21::c21_saved, c21::c21_window, c21::c21_insert, c21::c21_any, c21::c21_wide,
    c22::c22_open, c22::c22_damaged, c22::c22_import, c22::c22_save, c22::c22_locked, c22::c22_export,
    c23::c23_open, c23::c23_cut, c23::c23_import, c23::c23_save, c23::c23_locked, c23::c23_export,
    c24::c24_every, c24::c24_one,
}
