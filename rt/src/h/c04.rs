//! C04: strings, byte blobs, external bit blobs.
use sup::*;
use zserio::ztype::*;

fn string_rt(f: Frame, s: String) {
    let mut w = BitWriter::new();
    f.open(&mut w);
    must!(write_string(&mut w, &s), "writing a string fails");
    let n = f.written(&w);
    let sz = must!(bitsize_string(&s), "size fails");
    check!(sz == n, "reported size differs from bits written");
    let d = f.close(w);
    let mut b = Bs::new();
    b.string(s.as_bytes());
    check!(eq(&d, &f.reference(&b)), "bytes differ from length + UTF-8 contents");
    let mut r = f.reader(&d);
    let x = must!(read_string(&mut r), "reading back fails");
    check!(eq(x.as_bytes(), s.as_bytes()), "string changed");
    check!(f.at_end(&mut r, n), "reader does not end behind the string");
    reach!();
}
/// every valid UTF-8 string of up to `opt(1)` bytes
fn h_c04_string() {
    let n = pick(opt(1) + 1) as usize;
    let d = bytes(n);
    if let Ok(s) = String::from_utf8(d) {
        string_rt(frame2(), s)
    }
}
/// ASCII strings at every bit offset
fn h_c04_string_offsets() {
    let f = frame();
    let n = pick(6) as usize;
    let mut d = bytes(n);
    for x in d.iter_mut() {
        *x &= 0x7f;
    }
    let s = unsafe { String::from_utf8_unchecked(d) };
    string_rt(f, s)
}
/// strings around the length where the header grows to two bytes
fn h_c04_string_long() {
    let f = frame2();
    let n = 125 + pick(6) as usize;
    let mut s = String::new();
    for _ in 0..n {
        s.push('a');
    }
    // a few symbolic characters, the rest fixed
    let a = bits(7) as u8;
    let z = bits(7) as u8;
    unsafe {
        let v = s.as_mut_vec();
        v[0] = a;
        v[n - 1] = z;
    }
    string_rt(f, s)
}
fn bytes_rt(f: Frame, data: Vec<u8>) {
    let v = BytesType { byte_size: data.len() as u32, data_blob: data };
    let mut w = BitWriter::new();
    f.open(&mut w);
    must!(write_bytes_type(&mut w, &v), "writing a blob fails");
    let n = f.written(&w);
    check!(bitsize_of_bytes(&v) == n, "reported size differs from bits written");
    let d = f.close(w);
    let mut b = Bs::new();
    b.string(&v.data_blob);
    check!(eq(&d, &f.reference(&b)), "bytes differ from length + contents");
    let mut r = f.reader(&d);
    let x = must!(read_bytes_type(&mut r), "reading back fails");
    check!(x.byte_size == v.byte_size && eq(&x.data_blob, &v.data_blob), "blob changed");
    check!(f.at_end(&mut r, n), "reader does not end behind the blob");
    reach!();
}
fn h_c04_bytes() {
    let f = frame();
    let n = pick(opt(2) + 1) as usize;
    bytes_rt(f, bytes(n))
}
fn h_c04_bytes_long() {
    let f = frame2();
    let n = 125 + pick(6) as usize;
    bytes_rt(f, bytes(n))
}
fn extern_rt(f: Frame, nbits: u32) {
    let nb = (nbits as usize + 7) / 8;
    let mut data = bytes(nb);
    if nbits % 8 != 0 {
        // bits behind the last one are not part of the value
        data[nb - 1] &= 0xff << (8 - nbits % 8);
    }
    let v = ExternType { bit_size: nbits, data_blob: data };
    let mut w = BitWriter::new();
    f.open(&mut w);
    must!(write_extern_type(&mut w, &v), "writing an extern blob fails");
    let n = f.written(&w);
    check!(bitsize_of_extern(&v) == n, "reported size differs from bits written");
    let d = f.close(w);
    let mut b = Bs::new();
    b.varsize(nbits as u64);
    for i in 0..nbits as usize {
        b.u((v.data_blob[i / 8] >> (7 - i % 8)) as u64, 1);
    }
    check!(eq(&d, &f.reference(&b)), "bits differ from length + contents");
    let mut r = f.reader(&d);
    let x = must!(read_extern_type(&mut r), "reading back fails");
    check!(x.bit_size == v.bit_size && eq(&x.data_blob, &v.data_blob), "extern blob changed");
    check!(f.at_end(&mut r, n), "reader does not end behind the extern blob");
    reach!();
}
/// every bit size up to opt(3), all offsets
fn h_c04_extern() {
    let f = frame();
    let n = pick(opt(3) + 1) as u32;
    extern_rt(f, n)
}
fn h_c04_extern_long() {
    let f = frame2();
    let n = 120 + pick(16) as u32;
    extern_rt(f, n)
}
/// bits behind the last one of an extern blob never reach the stream
fn h_c04_extern_dirty() {
    let f = frame2();
    let n = 1 + pick(16) as u32;
    let nb = (n as usize + 7) / 8;
    let v = ExternType { bit_size: n, data_blob: bytes(nb) };
    let mut w = BitWriter::new();
    f.open(&mut w);
    must!(write_extern_type(&mut w, &v), "writing an extern blob fails");
    let d = f.close(w);
    let mut b = Bs::new();
    b.varsize(n as u64);
    for i in 0..n as usize {
        b.u((v.data_blob[i / 8] >> (7 - i % 8)) as u64, 1);
    }
    check!(eq(&d, &f.reference(&b)), "bits differ from length + contents");
    reach!();
}
/// raw bytes, as used by floats and blobs
fn h_c04_raw() {
    let f = frame();
    let n = pick(6) as usize;
    let v = bytes(n);
    let mut w = BitWriter::new();
    f.open(&mut w);
    must!(write_bytes(&mut w, &v), "writing bytes fails");
    let d = f.close(w);
    let mut b = Bs::new();
    b.bytes(&v);
    check!(eq(&d, &f.reference(&b)), "bytes differ");
    let mut r = f.reader(&d);
    let x = must!(read_bytes(&mut r, n as u32), "reading bytes fails");
    check!(eq(&x, &v), "bytes changed");
    check!(f.at_end(&mut r, 8 * n as u64), "reader does not end behind the bytes");
    reach!();
}
harnesses!(
    h_c04_string, h_c04_string_offsets, h_c04_string_long, h_c04_bytes, h_c04_bytes_long,
    h_c04_extern, h_c04_extern_long, h_c04_extern_dirty, h_c04_raw
);
