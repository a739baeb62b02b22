//! C05: floating-point values, bit-exact.
use sup::*;
use zserio::ztype::*;

fn h_c05_float64() {
    let f = frame();
    let p = bits(64);
    let v = f64::from_bits(p);
    let mut w = BitWriter::new();
    f.open(&mut w);
    must!(write_float64(&mut w, v), "write fails");
    check!(f.written(&w) == 64, "wrong number of bits");
    let d = f.close(w);
    let mut b = Bs::new();
    b.u(p, 64);
    check!(eq(&d, &f.reference(&b)), "not the big-endian IEEE pattern");
    let mut r = f.reader(&d);
    let x = must!(read_float64(&mut r), "read fails");
    check!(x.to_bits() == p, "pattern changed");
    check!(f.at_end(&mut r, 64), "reader does not end behind the value");
    reach!();
}
fn h_c05_float32() {
    let f = frame();
    let p = bits(32);
    let v = f32::from_bits(p as u32);
    let mut w = BitWriter::new();
    f.open(&mut w);
    must!(write_float32(&mut w, v), "write fails");
    check!(f.written(&w) == 32, "wrong number of bits");
    let d = f.close(w);
    let mut b = Bs::new();
    b.u(p, 32);
    check!(eq(&d, &f.reference(&b)), "not the big-endian IEEE pattern");
    let mut r = f.reader(&d);
    let x = must!(read_float32(&mut r), "read fails");
    check!(x.to_bits() as u64 == p, "pattern changed");
    check!(f.at_end(&mut r, 32), "reader does not end behind the value");
    reach!();
}
/// IEEE half -> single, written from the definition of the formats
fn half_to_single(h: u32) -> u32 {
    let s = (h >> 15) << 31;
    let e = (h >> 10) & 31;
    let m = h & 0x3ff;
    if e == 31 {
        return s | 0x7f80_0000 | m << 13;
    }
    if e == 0 {
        if m == 0 {
            return s;
        }
        // subnormal: m * 2^-24
        let mut k = 0;
        while m >> k != 1 {
            k += 1;
        }
        return s | (127 - 24 + k) << 23 | (m << (23 - k) & 0x7f_ffff);
    }
    s | (e + 112) << 23 | m << 13
}
/// IEEE single -> half, round to nearest, ties to even (NaN: any NaN with the sign)
fn single_to_half(x: u32) -> u32 {
    let s = (x >> 31) << 15;
    let e = ((x >> 23) & 0xff) as i32;
    let m = x & 0x7f_ffff;
    let m24 = if e == 0 { m } else { m | 0x80_0000 };
    // unbiased exponent of the half format
    let he = e - 112;
    if he >= 31 {
        return s | 0x7c00;
    }
    let shift = if he <= 0 { 14 - he } else { 13 };
    if shift > 25 {
        return s;
    }
    let q = m24 >> shift;
    let rest = m24 & ((1u32 << shift) - 1);
    let half = 1u32 << (shift - 1);
    let mut out = if he <= 0 { q } else { (he as u32 - 1 << 10) + q };
    if rest > half || (rest == half && out & 1 == 1) {
        out += 1;
    }
    s | out
}
/// every half pattern: decoded to the right number, and unchanged when written again
fn h_c05_float16_read() {
    let f = frame();
    let p = bits(16);
    let mut b = f.open_ref();
    b.u(p, 16);
    let d = f.close_ref(b);
    let mut r = f.reader(&d);
    let x = must!(read_float16(&mut r), "read fails");
    check!(f.at_end(&mut r, 16), "reader does not end behind the value");
    let nan = p >> 10 & 31 == 31 && p & 0x3ff != 0;
    if nan {
        check!(x.to_bits() & 0x7f80_0000 == 0x7f80_0000 && x.to_bits() & 0x7f_ffff != 0, "NaN lost");
    } else {
        check!(x.to_bits() == half_to_single(p as u32), "wrong number");
    }
    let mut w = BitWriter::new();
    f.open(&mut w);
    must!(write_float16(&mut w, x), "write fails");
    let d2 = f.close(w);
    if nan {
        let mut r = f.reader(&d2);
        let y = must!(read_unsigned_bits(&mut r, 16), "read fails");
        check!(y >> 10 & 31 == 31 && y & 0x3ff != 0 && y >> 15 == p >> 15, "NaN lost on writing");
    } else {
        check!(eq(&d, &d2), "pattern changed");
    }
    reach!();
}
/// every single value is written as the nearest half
fn h_c05_float16_write() {
    let off = pick(2) as u32 * 5;
    let f = frame_at(off);
    let p = bits(32) as u32;
    // one path per exponent keeps the rounding arithmetic simple
    let e = conc((p >> 23 & 0xff) as u64) as u32;
    let v = f32::from_bits(p);
    let mut w = BitWriter::new();
    f.open(&mut w);
    must!(write_float16(&mut w, v), "write fails");
    check!(f.written(&w) == 16, "wrong number of bits");
    let d = f.close(w);
    let mut r = f.reader(&d);
    let y = must!(read_unsigned_bits(&mut r, 16), "read fails") as u32;
    if e == 255 && p & 0x7f_ffff != 0 {
        check!(y >> 10 & 31 == 31 && y & 0x3ff != 0 && y >> 15 == p >> 31, "NaN lost");
    } else {
        check!(y == single_to_half(p & 0x8000_0000 | e << 23 | p & 0x7f_ffff), "not the nearest half");
    }
    reach!();
}
harnesses!(h_c05_float64, h_c05_float32, h_c05_float16_read, h_c05_float16_write);
