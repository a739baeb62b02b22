//! C07: alignment of writer, reader and size computation.
use sup::*;
use zserio::ztype::*;

/// from every position up to opt(4) bits, every alignment 1..=opt(5)
fn h_c07_streams() {
    let pos = pick(opt(4) + 1);
    let al = 1 + pick(opt(5));
    streams(pos, al)
}
/// alignments that users write: 8, 16, 32, 64, 128
fn h_c07_common() {
    let pos = pick(200);
    let al = [1u64, 8, 16, 32, 64, 128, 256][pick(7) as usize];
    streams(pos, al)
}
fn streams(pos: u64, al: u64) {
    let mut w = BitWriter::new();
    let mut b = Bs::new();
    let mut left = pos;
    while left > 0 {
        let n = if left > 64 { 64 } else { left };
        let v = bits(n as u32);
        w.write_u64(v, n as u8).unwrap();
        b.u(v, n as u32);
        left -= n;
    }
    must!(align_writer(&mut w, al), "aligning the writer fails");
    let p = w.bit_count();
    check!(p % al == 0 && p >= pos && p - pos < al, "writer not at the next multiple");
    check!(pos + align_bitsize(pos, al) == p, "size computation disagrees with the writer");
    let tail = bits(8);
    w.write_u64(tail, 8).unwrap();
    w.close().unwrap();
    let d = w.data().clone();
    logb(&d);
    b.align(al);
    b.u(tail, 8);
    check!(eq(&d, &b.pack()), "padding is not zero bits");
    let mut r = BitReader::new(&d);
    r.skip(pos).unwrap();
    must!(align_reader(&mut r, al), "aligning the reader fails");
    check!(r.position() == p, "reader disagrees with the writer");
    check!(r.read_u64(8).unwrap() == tail, "reader misplaced");
    reach!();
}
/// size computation for any position (32 bits) and power-of-two alignments up to 2^12
fn h_c07_size_pow2() {
    let k = pick(13);
    let al = 1u64 << k;
    let pos = bits(62);
    let a = align_bitsize(pos, al);
    log(a);
    check!(a < al && (pos + a) & (al - 1) == 0, "not the minimal padding");
    reach!();
}
/// any alignment up to 64 (not only powers of two), positions below 2^opt(6)
fn h_c07_size_any() {
    let al = 1 + pick(64);
    let pos = bits(opt(6) as u32);
    let a = align_bitsize(pos, al);
    log(a);
    let m = pos % al;
    let e = if m == 0 { 0 } else { al - m };
    check!(a == e, "not the minimal padding");
    reach!();
}
/// aligning a reader past the end of the data is an error
fn h_c07_reader_end() {
    let n = pick(5);
    let d = bytes(n as usize);
    let mut r = BitReader::new(&d);
    let p = pick(8 * n + 1);
    r.skip(p).unwrap();
    let al = 1 + pick(64);
    let target = (p + al - 1) / al * al;
    let res = align_reader(&mut r, al);
    if target > 8 * n {
        check!(res.is_err(), "reader aligned behind the end of data");
    } else {
        check!(res.is_ok() && r.position() == target, "reader not aligned");
    }
    reach!();
}
/// power-of-two alignments, any position of 62 bits
fn h_c07_align_to_pow2() {
    let k = pick(8);
    let al = 1u64 << k;
    let pos = bits(62);
    let x = align_to(al as u8, pos);
    log(x);
    check!(x >= pos && x - pos < al && x & (al - 1) == 0, "not the smallest multiple that is not below");
    reach!();
}
/// every alignment, small positions
fn h_c07_align_to_any() {
    let al = 1 + pick(255);
    let pos = bits(opt(16) as u32);
    let x = align_to(al as u8, pos);
    log(x);
    let m = pos % al;
    let e = if m == 0 { pos } else { pos - m + al };
    check!(x == e, "not the smallest multiple that is not below");
    reach!();
}
harnesses!(h_c07_streams, h_c07_common, h_c07_size_pow2, h_c07_size_any, h_c07_reader_end, h_c07_align_to_pow2, h_c07_align_to_any);
