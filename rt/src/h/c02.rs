//! C02: variable-length integers, encoding side.
use sup::*;
use zserio::ztype::*;
use zserio::ZserioError;

macro_rules! unsigned {
    ($name:ident, $t:ty, $w:literal, $max:literal, $limit:expr, $wr:ident, $rd:ident, $size:ident) => {
        fn $name() {
            let f = frame();
            let v = bits($w) as $t;
            let mut w = BitWriter::new();
            f.open(&mut w);
            let limit: u64 = $limit;
            if v as u64 > limit {
                check!($wr(&mut w, v).is_err(), "a value out of range is written");
                reach!();
                return;
            }
            must!($wr(&mut w, v), "writing a value in range fails");
            let n = f.written(&w);
            let s = must!($size(v), "size of a value in range fails");
            check!(s as u64 == n, "reported size differs from bits written");
            let d = f.close(w);
            let mut b = Bs::new();
            b.varu(v as u64, $max);
            check!(eq(&d, &f.reference(&b)), "bytes differ from the wire format");
            let mut r = f.reader(&d);
            let x = must!($rd(&mut r), "reading back fails");
            check!(x == v, "value changed");
            check!(f.at_end(&mut r, n), "reader does not end behind the value");
            reach!();
        }
    };
}
unsigned!(h_c02_varuint16, u16, 16, 2, (1 << 15) - 1, write_varuint16, read_varuint16, varuint16_bitsize);
unsigned!(h_c02_varuint32, u32, 32, 4, (1 << 29) - 1, write_varuint32, read_varuint32, varuint32_bitsize);
unsigned!(h_c02_varuint64, u64, 64, 8, (1 << 57) - 1, write_varuint64, read_varuint64, varuint64_bitsize);
unsigned!(h_c02_varuint, u64, 64, 9, u64::MAX, write_varuint, read_varuint, varuint_bitsize);
unsigned!(h_c02_varsize, u32, 32, 5, (1 << 31) - 1, write_varsize, read_varsize, varsize_bitsize);

macro_rules! signed {
    ($name:ident, $t:ty, $w:literal, $max:literal, $limit:expr, $wr:ident, $rd:ident, $size:ident) => {
        fn $name() {
            let f = frame();
            let v = bits($w) as $t;
            let mut w = BitWriter::new();
            f.open(&mut w);
            let limit: u64 = $limit;
            if (v as i64).unsigned_abs() > limit && $max < 9 {
                check!($wr(&mut w, v).is_err(), "a value out of range is written");
                check!(matches!($size(v), Err(ZserioError::DataError(_))), "a value out of range has a size");
                reach!();
                return;
            }
            must!($wr(&mut w, v), "writing a value in range fails");
            let n = f.written(&w);
            let s = must!($size(v), "size of a value in range fails");
            check!(s as u64 == n, "reported size differs from bits written");
            let d = f.close(w);
            let mut b = Bs::new();
            b.vari(v as i64, $max);
            check!(eq(&d, &f.reference(&b)), "bytes differ from the wire format");
            let mut r = f.reader(&d);
            let x = must!($rd(&mut r), "reading back fails");
            check!(x == v, "value changed");
            check!(f.at_end(&mut r, n), "reader does not end behind the value");
            reach!();
        }
    };
}
signed!(h_c02_varint16, i16, 16, 2, (1 << 14) - 1, write_varint16, read_varint16, varint16_bitsize);
signed!(h_c02_varint32, i32, 32, 4, (1 << 28) - 1, write_varint32, read_varint32, varint32_bitsize);
signed!(h_c02_varint64, i64, 64, 8, (1 << 56) - 1, write_varint64, read_varint64, varint64_bitsize);
signed!(h_c02_varint, i64, 64, 9, u64::MAX >> 1, write_varint, read_varint, varint_bitsize);

harnesses!(
    h_c02_varuint16, h_c02_varuint32, h_c02_varuint64, h_c02_varuint, h_c02_varsize,
    h_c02_varint16, h_c02_varint32, h_c02_varint64, h_c02_varint
);
