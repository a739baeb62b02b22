//! C22: constants.
use crate::models::*;
use crate::types::*;
use gcmodel::*;
use sup::*;

fn joined(j: &str, s: &str) -> bool {
    let (j, s) = (j.as_bytes(), s.as_bytes());
    j.len() == s.len() + 10 && eq(&j[..s.len()], s) && eq(&j[s.len()..], b"plain text")
}
/// A value equals the constant exactly if it equals what the schema says.
macro_rules! consts {
    ($($n:ident = $($c:ident)::+ : $t:ty, $v:expr;)*) => {
        $( fn $n() {
            let v = bits(<$t>::BITS) as $t;
            let (is, should): (bool, bool) = (v == consts::$($c)::+, v == $v);
            check!(is == should, "the constant has another value than its schema expression");
            reach!();
        } )*
        harnesses!($($n),*);
    };
}
mod numbers {
    use super::*;
    consts!(
        h_c22_dec = dec::DEC: u8, 200;
        h_c22_neg = neg::NEG: i32, -77;
        h_c22_hex = hex::HEX: u16, 0xffe0;
        h_c22_oct = oct::OCT: u16, 493;
        h_c22_bin = bin::BIN: u8, 11;
        h_c22_lowest = lowest::LOWEST: i64, i64::MIN;
        h_c22_highest = highest::HIGHEST: u64, u64::MAX;
        h_c22_hex_64 = hex_64::HEX64: u64, 0xfedcba9876543210;
        h_c22_five_bits = five_bits::FIVE_BITS: u64, 31;
        h_c22_forty_bits = forty_bits::FORTY_BITS: i64, -(1 << 39);
        h_c22_big_var = big_var::BIG_VAR: i64, -1234567890123;
        h_c22_size = size::SIZE: u32, i32::MAX as u32;
        h_c22_sum = sum::SUM: u32, 7;
        h_c22_parens = parens::PARENS: u32, 9;
        h_c22_difference = difference::DIFFERENCE: i32, -3;
        h_c22_quotient = quotient::QUOTIENT: u32, 14;
        h_c22_remainder = remainder::REMAINDER: u32, 2;
        h_c22_shifted = shifted::SHIFTED: u32, 1048579;
        h_c22_masked = masked::MASKED: u32, 48;
        h_c22_chosen = chosen::CHOSEN: u32, 10;
        h_c22_from_other = from_other::FROM_OTHER: u32, 65506;
        h_c22_from_two = from_two::FROM_TWO: u32, 99093;
        h_c22_bits = bits::BITS: u8, 8;
        h_c22_kind_value = kind_value::KIND_VALUE: u8, 200;
        h_c22_aliased = aliased::ALIASED: u16, 12345;
        h_c22_wide_kind = wide_kind::WIDE_KIND: u32, 201;
        h_c22_mask_value = mask_value::MASK_VALUE: u8, 32;
        h_c22_neg_remainder = neg_remainder::NEG_REMAINDER: i32, -1;
        h_c22_neg_quotient = neg_quotient::NEG_QUOTIENT: i32, -19;
        h_c22_by_negative = by_negative::BY_NEGATIVE: i32, -19;
        h_c22_rem_by_negative = rem_by_negative::REM_BY_NEGATIVE: i32, 1;
        h_c22_both_negative = both_negative::BOTH_NEGATIVE: i32, 19;
        h_c22_neg_product = neg_product::NEG_PRODUCT: i32, -226;
        h_c22_inverted = inverted::INVERTED: i32, -6;
        h_c22_neg_anded = neg_anded::NEG_ANDED: i32, 179;
        h_c22_neg_ored = neg_ored::NEG_ORED: i32, -253;
        h_c22_neg_xored = neg_xored::NEG_XORED: i32, -16;
        h_c22_neg_shifted = neg_shifted::NEG_SHIFTED: i32, -20;
        h_c22_left_shifted = left_shifted::LEFT_SHIFTED: i64, -25769803776;
        h_c22_wide_shifted = wide_shifted::WIDE_SHIFTED: u64, 1 << 63;
        h_c22_bits_one = bits_one::BITS_ONE: u8, 1;
        h_c22_bits_two = bits_two::BITS_TWO: u8, 1;
        h_c22_bits_256 = bits_256::BITS_256: u8, 8;
        h_c22_bits_257 = bits_257::BITS_257: u8, 9;
        h_c22_nested = nested::NESTED: u32, 2;
        h_c22_precedence = precedence::PRECEDENCE: u32, 12;
        h_c22_bit_precedence = bit_precedence::BIT_PRECEDENCE: u32, 11;
        h_c22_shift_precedence = shift_precedence::SHIFT_PRECEDENCE: u32, 16;
    );
}
mod calls {
    use super::*;
    calc!(
        h_c22_uses_via_const = consts::Uses { w: Bit<11> } |x| true; x.via_const() as u64 == 1048579 + x.w;
        h_c22_uses_text = consts::Uses { w: Bit<11> } |x| true; eq(x.text().as_bytes(), b"plain text, joined");
        h_c22_uses_flag = consts::Uses { w: Bit<11> } |x| true; x.flag();
        h_c22_returns_plain = consts::Returns { s: Str } |x| true; eq(x.plain().as_bytes(), b"x");
        h_c22_returns_constant = consts::Returns { s: Str } |x| true; eq(x.constant().as_bytes(), b"plain text");
        h_c22_returns_either = consts::Returns { s: Str, b: Bool } |x| true; eq(x.either().as_bytes(), if x.b { x.s.as_bytes() } else { b"plain text" });
        h_c22_returns_point = consts::Returns { p: Point } |x| true; x.point().alike(&x.p);
        h_c22_returns_kind = consts::Returns { p: Point } |x| true; kind_num(x.kind()) == 4;
        h_c22_returns_alias = consts::Returns { n: U16 } |x| true; x.alias() == x.n;
        h_c22_returns_is_flags = consts::Returns { n: U16 } |x| true; x.is_flags();
    );
}
mod types {
    use super::*;
    fn h_c22_bools() {
        check!(consts::yes::YES && !consts::no::NO && !consts::less::LESS && consts::both::BOTH, "a truth value");
        check!(consts::ordered::ORDERED && consts::same::SAME && consts::logic_precedence::LOGIC_PRECEDENCE, "a truth value");
        reach!();
    }
    fn h_c22_returns_joined() {
        real_text();
        let mut x = consts::Returns::default();
        x.s = Str::fresh();
        check!(joined(&x.joined(), &x.s), "the value is not that of the schema expression");
        reach!();
    }
    /// any float equals the constant exactly if it has the constant's pattern
    fn h_c22_floats() {
        let (a, b) = (bits(32) as u32, bits(64));
        check!((a == consts::half::HALF.to_bits()) == (a == 0x3f00_0000), "HALF");
        check!((a == consts::single::SINGLE.to_bits()) == (a == 0xbfa0_0000), "SINGLE");
        check!((b == consts::double::DOUBLE.to_bits()) == (b == 0x4009_21fb_5444_2d18), "DOUBLE");
        check!((b == consts::exponent::EXPONENT.to_bits()) == (b == 0.0025f64.to_bits()), "EXPONENT");
        check!((b == consts::tiny::TINY.to_bits()) == (b == 0x3bdd83c94fb6d2ac), "TINY");
        check!((b == consts::huge::HUGE.to_bits()) == (b == 0x7fefffffffffffff), "HUGE");
        check!((b == consts::smallest::SMALLEST.to_bits()) == (b == 0x0000000000000001), "SMALLEST");
        check!((b == consts::tenth::TENTH.to_bits()) == (b == 0x3fb999999999999a), "TENTH");
        check!((a == consts::faint::FAINT.to_bits()) == (a == 0x1e62ac70), "FAINT");
        check!((a == consts::widest::WIDEST.to_bits()) == (a == 0x7f7fffff), "WIDEST");
        check!((a == consts::float_from_int::FLOAT_FROM_INT.to_bits()) == (a == 5f32.to_bits()), "FLOAT_FROM_INT");
        check!((b == consts::float_from_sum::FLOAT_FROM_SUM.to_bits()) == (b == 3.5f64.to_bits()), "FLOAT_FROM_SUM");
        check!((a == consts::float_from_double::FLOAT_FROM_DOUBLE.to_bits()) == (a == 0.0025f32.to_bits()), "FLOAT_FROM_DOUBLE");
        reach!();
    }
    fn h_c22_texts() {
        let b = bytes(pick(20) as usize);
        check!(eq(&b, consts::text::TEXT.as_bytes()) == eq(&b, b"plain text"), "TEXT");
        check!(eq(&b, consts::joined::JOINED.as_bytes()) == eq(&b, b"plain text, joined"), "JOINED");
        reach!();
    }
    fn h_c22_items() {
        let k = base::Kind::any();
        check!((k == consts::default_kind::DEFAULT_KIND) == (kind_num(k) == 4), "DEFAULT_KIND");
        let f = base::Flags::any();
        check!((f.bits() == consts::some_flags::SOME_FLAGS.bits()) == (f.bits() == 16), "SOME_FLAGS");
        let m = bits(16) as u16;
        use consts::MaskFromConst as M;
        check!((m == M::McA.bits()) == (m == 11) && (m == M::McB.bits()) == (m == 16), "MaskFromConst");
        check!((m == M::McC.bits()) == (m == 4096) && (m == M::McD.bits()) == (m == 8192), "MaskFromConst");
        reach!();
    }
    checks!(
        [h_c22_returns_joined, h_c22_bools, h_c22_floats, h_c22_texts, h_c22_items]
        h_c22_from_const = enum_values::<consts::FromConst>();
        h_c22_from_negative = enum_values::<consts::FromNegative>();
        h_c22_from_rest = enum_values::<consts::FromRest>();
        h_c22_enums_computed = enum_values::<enums::Computed>();
        h_c22_mask_from_const = mask_values::<consts::MaskFromConst>();
        h_c22_uses = wire::<consts::Uses>();
        h_c22_returns = wire::<consts::Returns>();
    );
}
pub fn table() -> Vec<(&'static str, fn())> {
    [numbers::TABLE, calls::TABLE, types::TABLE].concat()
}
