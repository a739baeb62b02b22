//! C03: variable-length integers, decoding of arbitrary bytes.
use sup::*;
use zserio::ztype::*;

/// Reference decoder for unsigned: value and byte count, None if the data ends early.
fn ref_u(d: &[u8], max: usize) -> Option<(u64, usize)> {
    let mut v: u64 = 0;
    let mut i = 0;
    loop {
        if i >= d.len() {
            return None;
        }
        let b = d[i] as u64;
        i += 1;
        if i == max {
            return Some((v << 8 | b, i));
        }
        v = v << 7 | (b & 0x7f);
        if b & 0x80 == 0 {
            return Some((v, i));
        }
    }
}
/// Reference decoder for signed: (negative, magnitude, bytes).
fn ref_i(d: &[u8], max: usize) -> Option<(bool, u64, usize)> {
    if d.is_empty() {
        return None;
    }
    let neg = d[0] & 0x80 != 0;
    let mut v = (d[0] & 0x3f) as u64;
    if d[0] & 0x40 == 0 {
        return Some((neg, v, 1));
    }
    let mut i = 1;
    loop {
        if i >= d.len() {
            return None;
        }
        let b = d[i] as u64;
        i += 1;
        if i == max {
            return Some((neg, v << 8 | b, i));
        }
        v = v << 7 | (b & 0x7f);
        if b & 0x80 == 0 {
            return Some((neg, v, i));
        }
    }
}
/// arbitrary bytes placed at a bit offset
fn input(max: usize) -> (Frame, Vec<u8>, Vec<u8>) {
    let f = frame();
    let n = pick(max as u64 + 2) as usize;
    let d = bytes(n);
    let mut b = Bs::new();
    b.u(f.pre, f.off);
    b.bytes(&d);
    // pad so that a truncated value is really truncated: no whole byte follows
    (f, d, b.pack())
}
macro_rules! unsigned {
    ($name:ident, $max:literal, $limit:expr, $rd:ident) => {
        fn $name() {
            let (f, d, s) = input($max);
            let mut r = BitReader::new(&s[..]);
            r.skip(f.off as u64).unwrap();
            let got = $rd(&mut r);
            let limit: u64 = $limit;
            // when the value is cut short, at most 7 padding bits follow: never a whole byte
            match ref_u(&d, $max) {
                None => check!(got.is_err(), "a truncated value is accepted"),
                Some((v, n)) => {
                    if v > limit {
                        check!(got.is_err(), "a value the type cannot hold is accepted");
                    } else {
                        let x = must!(got, "a well-formed value is rejected");
                        log(x as u64);
                        check!(x as u64 == v, "wrong value");
                        check!(r.position() == f.off as u64 + 8 * n as u64, "wrong number of bytes consumed");
                        reach!();
                    }
                }
            }
        }
    };
}
unsigned!(h_c03_varuint16, 2, (1 << 15) - 1, read_varuint16);
unsigned!(h_c03_varuint32, 4, (1 << 29) - 1, read_varuint32);
unsigned!(h_c03_varuint64, 8, (1 << 57) - 1, read_varuint64);
unsigned!(h_c03_varuint, 9, u64::MAX, read_varuint);
unsigned!(h_c03_varsize, 5, (1 << 31) - 1, read_varsize);

macro_rules! signed {
    ($name:ident, $max:literal, $rd:ident) => {
        fn $name() {
            let (f, d, s) = input($max);
            let mut r = BitReader::new(&s[..]);
            r.skip(f.off as u64).unwrap();
            let got = $rd(&mut r);
            match ref_i(&d, $max) {
                None => check!(got.is_err(), "a truncated value is accepted"),
                Some((neg, m, n)) => {
                    let x = must!(got, "a well-formed value is rejected");
                    log(x as u64);
                    let v = if neg {
                        // the one-byte encoding of "minus zero" denotes the minimum of the 9-byte type
                        if m == 0 && $max == 9 && n == 1 { i64::MIN } else { (m as i64).wrapping_neg() }
                    } else {
                        m as i64
                    };
                    check!(x as i64 == v, "wrong value");
                    check!(r.position() == f.off as u64 + 8 * n as u64, "wrong number of bytes consumed");
                    reach!();
                }
            }
        }
    };
}
signed!(h_c03_varint16, 2, read_varint16);
signed!(h_c03_varint32, 4, read_varint32);
signed!(h_c03_varint64, 8, read_varint64);
signed!(h_c03_varint, 9, read_varint);
harnesses!(
    h_c03_varuint16, h_c03_varuint32, h_c03_varuint64, h_c03_varuint, h_c03_varsize,
    h_c03_varint16, h_c03_varint32, h_c03_varint64, h_c03_varint
);
