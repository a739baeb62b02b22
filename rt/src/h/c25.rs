//! C25: bit_length and numbits.
use sup::*;
use zserio::{bit_length, numbits};

/// `n` is the number of bits of `x` up to its highest set one
fn is_blen(x: u64, n: u64) -> bool {
    let n = conc(n);
    if n > 64 {
        return false;
    }
    if n == 0 {
        return x == 0;
    }
    (n == 64 || x >> n == 0) & (x >> (n - 1) & 1 == 1)
}
macro_rules! ty {
    ($f:ident, $g:ident, $t:ty, $w:literal) => {
        fn $f() {
            let v = bits($w) as $t;
            assume(v as i128 >= 0);
            let a = bit_length(v) as u64;
            log(a);
            check!(is_blen(v as u64, a), "bit length wrong");
            reach!();
        }
        fn $g() {
            let v = bits($w) as $t;
            assume(v as i128 >= 0);
            let b = numbits(v) as u64;
            log(b);
            // the bits needed to tell `v` values (0..v) apart: none for no value, and never
            // less than one otherwise
            let ok = if v == 0 {
                b == 0
            } else if v == 1 {
                b == 1
            } else {
                is_blen(v as u64 - 1, b)
            };
            check!(ok, "bit count for n values wrong");
            reach!();
        }
    };
}
ty!(h_c25_len_u8, h_c25_num_u8, u8, 8);
ty!(h_c25_len_u16, h_c25_num_u16, u16, 16);
ty!(h_c25_len_u32, h_c25_num_u32, u32, 32);
ty!(h_c25_len_u64, h_c25_num_u64, u64, 64);
ty!(h_c25_len_i8, h_c25_num_i8, i8, 8);
ty!(h_c25_len_i16, h_c25_num_i16, i16, 16);
ty!(h_c25_len_i32, h_c25_num_i32, i32, 32);
ty!(h_c25_len_i64, h_c25_num_i64, i64, 64);
harnesses!(
    h_c25_len_u8, h_c25_num_u8, h_c25_len_u16, h_c25_num_u16, h_c25_len_u32, h_c25_num_u32,
    h_c25_len_u64, h_c25_num_u64, h_c25_len_i8, h_c25_num_i8, h_c25_len_i16, h_c25_num_i16,
    h_c25_len_i32, h_c25_num_i32, h_c25_len_i64, h_c25_num_i64
);
