//! C01: fixed-width integers and bit fields.
use sup::*;
use zserio::ztype::*;

fn uw(width: u32, f: Frame) {
    let v = bits(width);
    let mut w = BitWriter::new();
    f.open(&mut w);
    must!(write_unsigned_bits(&mut w, v, width as u8), "writing a value that fits fails");
    check!(f.written(&w) == width as u64, "wrong number of bits written");
    let d = f.close(w);
    let mut b = Bs::new();
    b.u(v, width);
    check!(eq(&d, &f.reference(&b)), "bits differ from big-endian layout");
    let mut r = f.reader(&d);
    let x = must!(read_unsigned_bits(&mut r, width as u8), "reading back fails");
    check!(x == v, "value changed");
    check!(f.at_end(&mut r, width as u64), "reader does not end behind the value");
    reach!();
}
fn sw(width: u32, f: Frame) {
    let raw = bits(width);
    let v = ((raw << (64 - width)) as i64) >> (64 - width);
    let mut w = BitWriter::new();
    f.open(&mut w);
    must!(write_signed_bits(&mut w, v, width as u8), "writing a value that fits fails");
    check!(f.written(&w) == width as u64, "wrong number of bits written");
    let d = f.close(w);
    let mut b = Bs::new();
    b.u(raw, width);
    check!(eq(&d, &f.reference(&b)), "bits differ from two's complement layout");
    let mut r = f.reader(&d);
    let x = must!(read_signed_bits(&mut r, width as u8), "reading back fails");
    check!(x == v, "value changed");
    check!(f.at_end(&mut r, width as u64), "reader does not end behind the value");
    reach!();
}
/// unsigned, all widths x all offsets
fn h_c01_unsigned() {
    let width = pick(64) as u32 + 1;
    uw(width, frame());
}
fn h_c01_signed() {
    let width = pick(64) as u32 + 1;
    sw(width, frame());
}

macro_rules! std_int {
    ($f:expr, $t:ty, $n:literal, $wr:ident, $rd:ident) => {{
        let f = $f;
        let v = bits($n) as $t;
        let mut w = BitWriter::new();
        f.open(&mut w);
        must!($wr(&mut w, v), "writing fails");
        check!(f.written(&w) == $n, "wrong number of bits written");
        let d = f.close(w);
        let mut b = Bs::new();
        b.u(v as u64, $n);
        check!(eq(&d, &f.reference(&b)), "wrong layout");
        let mut r = f.reader(&d);
        let x = must!($rd(&mut r), "reading fails");
        check!(x == v, "value changed");
        check!(f.at_end(&mut r, $n), "reader does not end behind the value");
        reach!();
    }};
}
fn h_c01_std() {
    let k = pick(8);
    let f = frame();
    match k {
        0 => std_int!(f, u8, 8, write_uint8, read_uint8),
        1 => std_int!(f, u16, 16, write_uint16, read_uint16),
        2 => std_int!(f, u32, 32, write_uint32, read_uint32),
        3 => std_int!(f, u64, 64, write_uint64, read_uint64),
        4 => std_int!(f, i8, 8, write_int8, read_int8),
        5 => std_int!(f, i16, 16, write_int16, read_int16),
        6 => std_int!(f, i32, 32, write_int32, read_int32),
        _ => std_int!(f, i64, 64, write_int64, read_int64),
    }
}
/// two values back to back: neither disturbs the other
fn h_c01_pair() {
    let n1 = pick(if thorough() { 64 } else { 20 }) as u32 + 1;
    let n2 = pick(if thorough() { 64 } else { 20 }) as u32 + 1;
    let (a, braw) = (bits(n1), bits(n2));
    let b = ((braw << (64 - n2)) as i64) >> (64 - n2);
    let mut w = BitWriter::new();
    must!(write_unsigned_bits(&mut w, a, n1 as u8), "write");
    must!(write_signed_bits(&mut w, b, n2 as u8), "write");
    w.close().unwrap();
    let d = w.data().clone();
    logb(&d);
    let mut e = Bs::new();
    e.u(a, n1);
    e.u(braw, n2);
    check!(eq(&d, &e.pack()), "wrong layout of two adjacent values");
    let mut r = BitReader::new(&d);
    let x = must!(read_unsigned_bits(&mut r, n1 as u8), "read");
    let y = must!(read_signed_bits(&mut r, n2 as u8), "read");
    check!(x == a && y == b, "values changed");
    reach!();
}
harnesses!(h_c01_unsigned, h_c01_signed, h_c01_std, h_c01_pair);
