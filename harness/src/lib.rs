//! Symbolic harnesses: one function per claim, written against the public API of succinct_neo.
#![allow(unused_imports)]
pub mod prim;
pub mod util;

macro_rules! harness {
    ($($m:ident :: $f:ident),* $(,)?) => {
        $(
            // the symbol the executor starts from
            #[export_name = concat!("h_", stringify!($f))]
            pub extern "C-unwind" fn $f() { $m::$f() }
        )*
        /// Name lookup for native replay.
        pub fn find(n: &str) -> Option<fn()> {
            match n {
                $(stringify!($f) => Some($m::$f as fn()),)*
                _ => None,
            }
        }
    };
}

pub mod bits;
pub mod slices;
pub mod ints;
pub mod ranks;
pub mod debug;

harness! {
    bits::c01_step, bits::c01_seq, bits::c02_new, bits::c02_tail, bits::c03_vec, bits::c03_slice, bits::c04_u8, bits::c04_u16, bits::c04_u32, bits::c04_u64, bits::c04_usize, bits::c04_words, bits::c23_get, bits::c23_modify, bits::c23_ints, bits::c24_vec, bits::c24_some, bits::c24_slice, bits::c26_bits, bits::c26_ranges, bits::c26_words, bits::c26_ints,
    slices::c05_bounds, slices::c05_ranges, slices::c05_nested, slices::c05_storage, slices::c06_write, slices::c06_seq, slices::c07_split, slices::c07_refuse, slices::c07_mut, slices::c08_step, slices::c08_short, slices::c08_full, slices::c08_adapters, slices::c08_skip, slices::c09_short, slices::c09_storage, slices::c09_same, slices::c09_long, slices::c09_far, slices::c09_vec, slices::c27_slice, slices::c27_iter, slices::c27_ints,
    ints::c10_push, ints::c10_capacity, ints::c11_set, ints::c11_any, ints::c12_reject, ints::c12_width, ints::c12_width_any, ints::c13_iter, ints::c13_adapters, ints::c13_skip, ints::c14_layout, ints::c10_long, ints::c11_long, ints::c13_long, ints::c14_long, ints::c26_packed,
    ranks::c15_small, ranks::c16_small, ranks::c15_big, ranks::c16_big, ranks::c15_window, ranks::c16_window, ranks::c17_rank, ranks::c17_in, ranks::c17_select, ranks::c17_big, ranks::c17_window, ranks::c18_small, ranks::c18_edge, ranks::c18_window, ranks::c18_big, ranks::c18_run, ranks::c19_strats, ranks::c19_upper, ranks::c20_strats, ranks::c20_small, ranks::c20_big, ranks::c20_window, ranks::c21_small, ranks::c21_next, ranks::c21_big, ranks::c21_window, ranks::c22_keep, ranks::c22_big, ranks::c22_window,
    debug::c25_fmt, debug::c25_long,
}
