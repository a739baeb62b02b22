//! C18: expressions. Every function of the corpus, against the mathematical value.
use crate::models::*;
use crate::types::*;
use gcmodel::*;
use sup::*;

fn fits(v: i128) -> bool {
    v >= i64::MIN as i128 && v <= i64::MAX as i128
}
fn numbits(n: u32) -> u32 {
    if n <= 1 {
        n
    } else {
        32 - (n - 1).leading_zeros()
    }
}
fn ok(v: i128, lo: i128, hi: i128) -> bool {
    v >= lo && v <= hi
}
#[path = "matrix.rs"]
mod matrix_;
mod calls {
    use super::*;
    calc!(
        h_c18_arith_add_same = exprs::Arith { a: U8, b: U8 } |x| x.a as u32 + x.b as u32 <= 255; x.add_same() as u32 == x.a as u32 + x.b as u32;
        h_c18_arith_sub_same = exprs::Arith { a: U8, b: U8 } |x| x.a >= x.b; x.sub_same() as i32 == x.a as i32 - x.b as i32;
        h_c18_arith_mul_same = exprs::Arith { a: U8, b: U8 } |x| x.a as u32 * x.b as u32 <= 255; x.mul_same() as u32 == x.a as u32 * x.b as u32;
        h_c18_arith_div_same = exprs::Arith { a: U8, b: U8 } |x| x.b != 0; x.div_same() as u32 == x.a as u32 / x.b as u32;
        h_c18_arith_mod_same = exprs::Arith { a: U8, b: U8 } |x| x.b != 0; x.mod_same() as u32 == x.a as u32 % x.b as u32;
        h_c18_arith_add_wide = exprs::Arith { a: U8, d: U32 } |x| x.a as u64 + x.d as u64 <= u32::MAX as u64; x.add_wide() as u64 == x.a as u64 + x.d as u64;
        h_c18_arith_add_signed = exprs::Arith { c: I16, e: I64 } |x| fits(x.c as i128 + x.e as i128); x.add_signed() as i128 == x.c as i128 + x.e as i128;
        h_c18_arith_mix_signs = exprs::Arith { a: U8, e: I64 } |x| x.e >= 0 && x.a as i64 >= x.e; x.mix_signs() == x.a as i64 - x.e;
        h_c18_arith_narrow_left = exprs::Arith { f: Bit<5>, d: U32 } |x| x.f * x.d as u64 <= u32::MAX as u64; x.narrow_left() as u64 == x.f * x.d as u64;
        h_c18_arith_literal_left = exprs::Arith { d: U32 } |x| x.d <= 100; x.literal_left() as i64 == 100 - x.d as i64;
        h_c18_arith_literal_right = exprs::Arith { d: U32 } |x| true; x.literal_right() == x.d / 7;
        h_c18_arith_with_const = exprs::Arith { d: U32 } |x| x.d <= u32::MAX - 1000; x.with_const() as u64 == x.d as u64 + 1000;
        h_c18_arith_with_signed_const = exprs::Arith { c: I16 } |x| x.c as i32 + 5 <= i16::MAX as i32; x.with_signed_const() as i32 == x.c as i32 + 5;
        h_c18_arith_negated = exprs::Arith { c: I16 } |x| x.c != i16::MIN; x.negated() as i32 == -(x.c as i32);
        h_c18_arith_precedence_1 = exprs::Arith { d: U32 } |x| x.d < 1 << 30; x.precedence_1() == x.d + x.d * 3;
        h_c18_arith_precedence_2 = exprs::Arith { d: U32 } |x| x.d < 1 << 29; x.precedence_2() == (x.d + x.d) * 3;
        h_c18_arith_precedence_3 = exprs::Arith { d: U32 } |x| x.d >= 2; x.precedence_3() == x.d - x.d / 2 - 1;
        h_c18_arith_precedence_4 = exprs::Arith { d: U32 } |x| x.d >= 2; x.precedence_4() == x.d - (x.d / 2 - 1);
        h_c18_arith_nested_parens = exprs::Arith { d: U32 } |x| true; x.nested_parens() == ((x.d % 16) * (x.d % 8)) / (1 + x.d % 4);
        h_c18_arith_var_field = exprs::Arith { g: VU16, d: U32 } |x| x.g as u64 + x.d as u64 <= u32::MAX as u64; x.var_field() as u64 == x.g as u64 + x.d as u64;
        h_c18_compare_eq_same = exprs::Compare { a: U8 } |x| true; x.eq_same() == (x.a == 200);
        h_c18_compare_ne_mixed = exprs::Compare { a: U8, b: I32 } |x| true; x.ne_mixed() == (x.a as i64 != x.b as i64);
        h_c18_compare_lt_mixed = exprs::Compare { b: I32, c: U64 } |x| true; x.lt_mixed() == ((x.b as i128) < x.c as i128);
        h_c18_compare_le_mixed = exprs::Compare { a: U8, d: Bit<3> } |x| true; x.le_mixed() == (x.d <= x.a as u64);
        h_c18_compare_gt_mixed = exprs::Compare { b: I32, c: U64 } |x| true; x.gt_mixed() == (x.c as i128 > x.b as i128);
        h_c18_compare_ge_mixed = exprs::Compare { a: U8, d: Bit<3> } |x| true; x.ge_mixed() == (x.a as u64 >= x.d);
        h_c18_compare_lt_negative = exprs::Compare { b: I32 } |x| true; x.lt_negative() == (x.b < -3);
        h_c18_compare_and_or = exprs::Compare { p: Bool, q: Bool, a: U8 } |x| true; x.and_or() == ((x.p & x.q) | (x.a > 3));
        h_c18_compare_or_and = exprs::Compare { p: Bool, q: Bool, a: U8 } |x| true; x.or_and() == (x.p | (x.q & (x.a > 3)));
        h_c18_compare_not_first = exprs::Compare { p: Bool, q: Bool } |x| true; x.not_first() == (!x.p & x.q);
        h_c18_compare_not_all = exprs::Compare { p: Bool, q: Bool } |x| true; x.not_all() == !(x.p & x.q);
        h_c18_compare_eq_bools = exprs::Compare { p: Bool, q: Bool } |x| true; x.eq_bools() == (x.p == x.q);
        h_c18_compare_compound = exprs::Compare { a: U8, b: I32, c: U64, d: Bit<3> } |x| x.a < 255; x.compound() == (x.a as u64 + 1 > x.d && (x.b < 0 || x.c >= 10));
        h_c18_compare_enum_same = exprs::Compare { k: Kind, l: Kind } |x| true; x.enum_same() == (kind_num(x.k) == kind_num(x.l));
        h_c18_compare_enum_item = exprs::Compare { k: Kind, l: Kind } |x| true; x.enum_item() == (kind_num(x.k) == 3 || kind_num(x.l) != 0);
        h_c18_compare_text = exprs::Compare { s: Str } |x| true; x.text() == eq(x.s.as_bytes(), b"ab");
        h_c18_compare_chained = exprs::Compare { a: U8, d: Bit<3>, p: Bool } |x| true; x.chained() == (((x.a as u64) < x.d) == x.p);
        h_c18_compare_chained_eq = exprs::Compare { a: U8, p: Bool, q: Bool } |x| true; x.chained_eq() == ((x.p == x.q) != (x.a == 1));
        h_c18_compare_right_compared = exprs::Compare { a: U8, d: Bit<3>, p: Bool } |x| true; x.right_compared() == (x.p == ((x.a as u64) < x.d));
        h_c18_compare_two_compared = exprs::Compare { a: U8, b: I32, d: Bit<3> } |x| true; x.two_compared() == (((x.a as u64) < x.d) != (x.b > -3));
        h_c18_compare_chained_sum = exprs::Compare { a: U8, d: Bit<3>, q: Bool } |x| x.a as u64 >= x.d; x.chained_sum() == ((x.a as u64 - x.d >= 2) == x.q);
        h_c18_bitops_and_same = exprs::BitOps { a: U8 } |x| true; x.and_same() == x.a & 15;
        h_c18_bitops_or_mixed = exprs::BitOps { a: U8, b: U16 } |x| true; x.or_mixed() == x.a as u16 | x.b;
        h_c18_bitops_xor_mixed = exprs::BitOps { b: U16, d: Bit<7> } |x| true; x.xor_mixed() == x.b ^ x.d as u16;
        h_c18_bitops_and_or_xor = exprs::BitOps { b: U16 } |x| true; x.and_or_xor() == ((x.b & 255) | (x.b ^ 3));
        h_c18_bitops_xor_and = exprs::BitOps { b: U16 } |x| true; x.xor_and() == x.b ^ (x.b & 12);
        h_c18_bitops_inverted = exprs::BitOps { a: U8 } |x| true; x.inverted() == 255 - x.a;
        h_c18_bitops_inverted_signed = exprs::BitOps { c: I32 } |x| true; x.inverted_signed() as i64 == -1 - x.c as i64;
        h_c18_bitops_shift_left = exprs::BitOps { b: U16 } |x| x.b < 1 << 13; x.shift_left() == x.b * 8;
        h_c18_bitops_shift_right = exprs::BitOps { b: U16 } |x| true; x.shift_right() == x.b / 32;
        h_c18_bitops_shift_signed = exprs::BitOps { c: I32 } |x| true; x.shift_signed() == x.c.div_euclid(16);
        h_c18_bitops_shift_by = exprs::BitOps { d: Bit<7>, e: U64 } |x| x.d < 64; x.shift_by() == x.e >> conc(x.d);
        h_c18_bitops_parens = exprs::BitOps { b: U16 } |x| true; x.parens() == (x.b / 16) & 30;
        h_c18_bitops_not_and = exprs::BitOps { b: U16 } |x| true; x.not_and() == x.b - x.b % 4;
        h_c18_bitops_shift_sum = exprs::BitOps { e: U64 } |x| true; x.shift_sum() == x.e / 8;
        h_c18_bitops_shift_then_and = exprs::BitOps { b: U16 } |x| true; x.shift_then_and() == (x.b / 16) % 16;
        h_c18_bitops_masked = exprs::BitOps { b: U16 } |x| true; x.masked() == (x.b / 16 % 16 == 1);
        h_c18_chosen_same = exprs::Chosen { p: Bool, a: U8 } |x| true; x.same() == if x.p { x.a } else { 7 };
        h_c18_chosen_mixed = exprs::Chosen { p: Bool, a: U8, b: U32 } |x| true; x.mixed() == if x.p { x.a as u32 } else { x.b };
        h_c18_chosen_signs = exprs::Chosen { p: Bool, c: I16, b: U32 } |x| x.c >= 0; x.signs() == if x.p { x.c as i64 } else { x.b as i64 };
        h_c18_chosen_nested = exprs::Chosen { p: Bool, a: U8, b: U32 } |x| true; x.nested() == if !x.p { x.b } else if x.a > 4 { 1 } else { 2 };
        h_c18_chosen_compared = exprs::Chosen { a: U8, b: U32 } |x| x.a < 255; x.compared() == if x.a == 4 { x.b } else { x.b / 2 };
        h_c18_chosen_summed = exprs::Chosen { p: Bool, a: U8, b: U32 } |x| true; x.summed() == if x.p { x.a as u32 } else { x.b } % 100 + 1;
        h_c18_chosen_truth = exprs::Chosen { p: Bool, a: U8 } |x| true; x.truth() == if x.p { x.a == 3 } else { true };
        h_c18_chosen_kinds = exprs::Chosen { p: Bool, k: Kind, l: Kind } |x| true; kind_num(x.kinds()) == if x.p { kind_num(x.k) } else { kind_num(x.l) };
        h_c18_queries_count = exprs::Queries { a: Arr<U8, 3> } |x| true; x.count() as usize == x.a.len();
        h_c18_queries_count_more = exprs::Queries { a: Arr<U8, 3>, b: Fix<Point, 2> } |x| true; x.count_more() as usize == x.a.len() * 2 + 2;
        h_c18_queries_some = exprs::Queries { a: Arr<U8, 3> } |x| true; x.some() == (x.a.len() > 1);
        h_c18_queries_kind_value = exprs::Queries { k: Kind } |x| true; x.kind_value() as u32 == kind_num(x.k);
        h_c18_queries_kind_sum = exprs::Queries { k: Kind, n: U32 } |x| x.n <= u32::MAX - 200; x.kind_sum() == kind_num(x.k) + x.n;
        h_c18_queries_mask_value = exprs::Queries { f: Flags } |x| true; x.mask_value() == x.f.bits();
        h_c18_queries_bit_count = exprs::Queries { n: U32 } |x| true; x.bit_count() as u32 == numbits(x.n);
        h_c18_queries_bit_count_more = exprs::Queries { n: U32 } |x| true; x.bit_count_more() == numbits(x.n) + 3;
        h_c18_queries_is_kind = exprs::Queries { k: Kind } |x| true; x.is_kind() == (kind_num(x.k) == 1);
        h_c18_queries_member = exprs::Queries { p: Point } |x| true; x.member() == x.p.x;
        h_c18_queries_member_sum = exprs::Queries { p: Point } |x| x.p.x >= 0; x.member_sum() as i64 == x.p.x as i64 + x.p.y as i64;
        h_c18_queries_element = exprs::Queries { b: Fix<Point, 2> } |x| true; x.element() == x.b[1].x;
        h_c18_queries_element_at = exprs::Queries { a: Arr<U8, 3> } |x| !x.a.is_empty(); x.element_at() == x.a[0];
        h_c18_queries_element_by = exprs::Queries { a: Arr<U8, 3>, n: U32 } |x| (x.n as usize) < x.a.len(); x.element_by() == x.a[conc(x.n as u64) as usize];
        h_c18_queries_pick = exprs::Queries { b: Fix<Point, 2>, n: U32, p: Point } |x| true; x.pick().alike(if x.n > 3 { &x.p } else { &x.b[0] });
        h_c18_queries_has_all = exprs::Queries { f: Flags } |x| true; x.has_all() == (x.f.bits() & 3 == 0);
        h_c18_queries_has_same = exprs::Queries { f: Flags } |x| true; x.has_same() == ((x.f.bits() & 1 != 0) == (x.f.bits() & 2 != 0));
        h_c18_queries_value_of_item = exprs::Queries { k: Kind } |x| true; x.value_of_item() as u32 == 200 - kind_num(x.k);
        h_c18_queries_called = exprs::Queries { a: Arr<U8, 3> } |x| true; x.called() as usize == x.a.len() + 1;
        h_c18_queries_called_twice = exprs::Queries { a: Arr<U8, 3>, b: Fix<Point, 2> } |x| true; x.called_twice() as usize == x.a.len() + 2;
        h_c18_reals_sum = exprs::Reals { a: F32, b: F64 } |x| true; x.sum().to_bits() == (x.a as f64 + x.b).to_bits();
        h_c18_reals_scaled = exprs::Reals { b: F64 } |x| true; x.scaled().to_bits() == (x.b * 2.0).to_bits();
        h_c18_reals_with_int = exprs::Reals { b: F64, n: I16 } |x| true; x.with_int().to_bits() == (x.b - x.n as f64).to_bits();
        h_c18_reals_doubled = exprs::Reals { a: F32 } |x| true; x.doubled().to_bits() == (x.a * 2.0).to_bits();
        h_c18_reals_int_times = exprs::Reals { n: I16 } |x| true; x.int_times().to_bits() == (x.n as f64 * 2.5).to_bits();
        h_c18_reals_lit_first = exprs::Reals { b: F64 } |x| true; x.lit_first().to_bits() == (1.0 - x.b).to_bits();
        h_c18_reals_above_int = exprs::Reals { a: F32, n: I16 } |x| true; x.above_int() == (x.a as f64 > x.n as f64);
        h_c18_reals_above_lit = exprs::Reals { b: F64 } |x| true; x.above_lit() == (x.b >= 3.0);
        h_c18_reals_less = exprs::Reals { a: F32, b: F64 } |x| true; x.less() == ((x.a as f64) < x.b);
        h_c18_reals_positive = exprs::Reals { a: F32 } |x| true; x.positive() == (x.a > 0.0);
        h_c18_reals_chosen = exprs::Reals { a: F32, b: F64, n: I16 } |x| true; x.chosen().to_bits() == if x.n > 0 { (x.a as f64).to_bits() } else { x.b.to_bits() };
        h_c18_sel_get = exprs::Sel { a: U8, one: U8 } |x| x.one < 255; x.get() == if x.a > 3 { x.one as u32 + 1 } else { x.a as u32 };
        h_c18_uni_bx = exprs::Uni { b: Point } |x| true; x.bx() == x.b.x;
    );
}
mod wires {
    use super::*;
    checks!(
        []
        h_c18_exprs_lengths = wire2::<exprs::Lengths>();
        h_c18_exprs_selects = wire::<exprs::Selects>();
        h_c18_exprs_sel = wire::<exprs::Sel>();
        h_c18_exprs_uni = wire::<exprs::Uni>();
    );
}
pub fn table() -> Vec<(&'static str, fn())> {
    [calls::TABLE, wires::TABLE, matrix_::TABLE].concat()
}
