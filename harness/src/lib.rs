#![allow(dead_code)]
pub mod sx;
pub mod util;
pub mod book;
pub mod mix;

/// The program of /repo, compiled into the harness for its own property only.
#[cfg(feature = "cli")]
pub mod c23;
#[cfg(feature = "cli")]
pub static PROGRAM: &[(&str, fn())] = &[("h_c23_program", c23::h_c23_program as fn()), ("h_c23_many", c23::h_c23_many as fn())];
#[cfg(not(feature = "cli"))]
pub static PROGRAM: &[(&str, fn())] = &[];

macro_rules! harnesses {
    ($($m:ident :: { $($f:ident),* $(,)? })*) => {
        $(pub mod $m;)*
        pub static HARNESSES: &[(&str, fn())] = &[$($((stringify!($f), $m::$f as fn())),*),*];
    };
}
harnesses! {
    smoke::{h_smoke}
    c01::{h_c01_plain, h_c01_wide, h_c01_long, h_c01_cost, h_c01_history, h_c01_zero, h_c01_around, h_c01_mixed, h_c01_large, h_c01_meet}
    c02::{h_c02_totals, h_c02_text, h_c02_mixed, h_c02_cost, h_c02_order, h_c02_bare, h_c02_wide, h_c02_large, h_c02_meet, h_c02_meet_text}
    c03::{h_c03_layout, h_c03_account, h_c03_utf8, h_c03_symbol, h_c03_lot, h_c03_elided, h_c03_alone, h_c03_classes, h_c03_bytes, h_c03_long, h_c03_meet, h_c03_point}
    c04::{h_c04_value, h_c04_display, h_c04_long, h_c04_over, h_c04_compare, h_c04_print, h_c04_padded, h_c04_from}
    c05::{h_c05_linear, h_c05_product, h_c05_mixing, h_c05_balance, h_c05_order, h_c05_long, h_c05_quantity}
    c06::{h_c06_unit, h_c06_total, h_c06_layout, h_c06_many, h_c06_dates, h_c06_exchange, h_c06_basis, h_c06_around, h_c06_stated, h_c06_pairs, h_c06_scale, h_c06_large, h_c06_meet, h_c06_repeat}
    c07::{h_c07_two, h_c07_three, h_c07_parts, h_c07_none, h_c07_between, h_c07_zero, h_c07_more, h_c07_around, h_c07_series, h_c07_wide, h_c07_large, h_c07_meet}
    c08::{h_c08_latest, h_c08_graph, h_c08_chain, h_c08_links, h_c08_pure, h_c08_detour, h_c08_many, h_c08_both, h_c08_far, h_c08_large}
    c09::{h_c09_time, h_c09_value, h_c09_symbol, h_c09_date, h_c09_series, h_c09_pairs, h_c09_long, h_c09_bad, h_c09_shape, h_c09_text, h_c09_only, h_c09_wide, h_c09_meet}
    c10::{h_c10_register, h_c10_lookup, h_c10_chars, h_c10_text, h_c10_many, h_c10_shapes, h_c10_long, h_c10_asked}
    c11::{h_c11_grow, h_c11_text, h_c11_ops, h_c11_move, h_c11_fill, h_c11_varied, h_c11_large, h_c11_meet}
    c12::{h_c12_date, h_c12_year, h_c12_payee, h_c12_note, h_c12_shape, h_c12_bad, h_c12_both, h_c12_many, h_c12_datetime, h_c12_long, h_c12_meet, h_c12_after}
    c13::{h_c13_blocks, h_c13_comment, h_c13_ends, h_c13_empty, h_c13_adjacent, h_c13_many, h_c13_varied, h_c13_names, h_c13_long, h_c13_large, h_c13_meet, h_c13_faulty}
    c14::{h_c14_place, h_c14_many, h_c14_forms, h_c14_posts, h_c14_wide, h_c14_long, h_c14_large, h_c14_meet}
    c15::{h_c15_texts, h_c15_files, h_c15_include, h_c15_again, h_c15_big, h_c15_missing, h_c15_path, h_c15_lines, h_c15_lost, h_c15_portions, h_c15_count, h_c15_broken, h_c15_deep, h_c15_large, h_c15_meet}
    c16::{h_c16_order, h_c16_string, h_c16_letters, h_c16_name, h_c16_refuse, h_c16_content, h_c16_shared, h_c16_large, h_c16_meet, h_c16_paths}
    c17::{h_c17_pool, h_c17_text, h_c17_lots, h_c17_amounts, h_c17_create, h_c17_keep, h_c17_alike, h_c17_affix, h_c17_long, h_c17_large, h_c17_meet}
    c18::{h_c18_accounts, h_c18_commodities, h_c18_exchange, h_c18_prices}
    c19::{h_c19_post, h_c19_cost, h_c19_quantity, h_c19_amount, h_c19_none, h_c19_price, h_c19_parts, h_c19_lot, h_c19_rest}
    c20::{h_c20_lot, h_c20_none, h_c20_first, h_c20_apart, h_c20_meet, h_c20_trade}
    c21::{h_c21_text, h_c21_header, h_c21_post, h_c21_amount, h_c21_tail, h_c21_next, h_c21_utf8, h_c21_lot, h_c21_bytes, h_c21_many}
    c22::{h_c22_build, h_c22_many, h_c22_header, h_c22_posts, h_c22_parts, h_c22_meet}
}
