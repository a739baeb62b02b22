//! C06: decoding arbitrary bytes neither crashes nor over-allocates.
use crate::kinds::*;
use sup::*;
use zserio::ztype::*;

/// single allocations allowed while decoding `n` bytes into elements of `sz` bytes
fn bound(n: usize, sz: usize, chunk: u64) -> u64 {
    // doubling vectors of at most one element per input bit, plus the reservation
    let elems = 16 * (n as u64 + 1);
    elems * sz as u64 + chunk * sz as u64 + 1024
}
/// any number of input bytes, read from any bit
fn input(max: u64) -> (Vec<u8>, u64) {
    let n = pick(max + 1);
    let d = bytes(n as usize);
    let p = if n == 0 { 0 } else { pick(8) };
    (d, p)
}
fn scalar<T>(max: u64, f: fn(&mut BitReader) -> zserio::Result<T>) {
    let (d, p) = input(max);
    let mut r = BitReader::new(&d);
    r.skip(p).unwrap();
    let v = f(&mut r);
    log(v.is_ok() as u64);
    check!(r.position() <= 8 * d.len() as u64, "reader behind the end of data");
    check!(heap_max() <= bound(d.len(), 1, 0), "more memory requested than the input justifies");
    if v.is_ok() {
        cover(1)
    } else {
        cover(2)
    }
}
/// bit fields of any width
fn h_c06_bits() {
    let (d, p) = input(9);
    let w = pick(65) as u8;
    let mut r = BitReader::new(&d);
    r.skip(p).unwrap();
    let v = if pick(2) == 0 { read_unsigned_bits(&mut r, w).is_ok() } else { read_signed_bits(&mut r, w).is_ok() };
    log(v as u64);
    check!(v || p + w as u64 > 8 * d.len() as u64, "an error although there is enough data");
    reach!();
}
fn array<K: Kind>(packed: bool, max: u64) {
    let n = pick(max + 1);
    let d = bytes(n as usize);
    // start position, reservation limit, fixed length, aligned elements
    let (p, chunk, fixed, aligned) = [
        (0u64, 1000u64, false, false),
        (3, 2, false, false),
        (5, 0, false, true),
        (3, 1000, true, false),
        (0, 1000, true, true),
    ][pick(5) as usize];
    let p = if n == 0 { 0 } else { p };
    zserio::set_array_alloc_chunk(chunk as usize);
    let mut a = Array { array_trait: K::tr(), is_packed: packed, fixed_size: if fixed { Some(3) } else { None } };
    let off = vec![0u32; 3];
    let off = if aligned { Some(&off) } else { None };
    let mut r = BitReader::new(&d);
    r.skip(p).unwrap();
    let mut v: Vec<K::T> = vec![];
    let mut ok = false;
    if let Ok(n) = a.zserio_read_array_length(&mut r) {
        if packed && n > 3 {
            // elements of a constant packed array take no bits: any claimed length is
            // well-formed.  Bounded here, see DESIGN.md
            let mut q = BitReader::new(&d);
            q.skip(r.position()).unwrap();
            if aligned {
                let _ = zserio::ztype::align_reader(&mut q, 8);
            }
            let flat = match q.read_u64(7) {
                Ok(x) => x == 64,
                Err(_) => false,
            };
            assume(K::INT && !flat || n <= 6);
        }
        ok = a.zserio_read(&mut r, &mut v, n, off).is_ok();
        check!(!ok || v.len() == n, "wrong number of elements");
    }
    log(ok as u64);
    log(v.len() as u64);
    check!(r.position() <= 8 * d.len() as u64, "reader behind the end of data");
    check!(heap_max() <= bound(d.len(), std::mem::size_of::<K::T>(), chunk), "more memory requested than the input justifies");
    zserio::set_array_alloc_chunk(1000);
    if ok {
        cover(1)
    } else {
        cover(2)
    }
}
macro_rules! all {
    ({ $($h:ident $f:expr, $x:expr;)* } { $($a:ident $b:ident $k:ident $n:expr, $m:expr;)* }) => {
        $( fn $h() { scalar($x, $f) } )*
        $( fn $a() { array::<$k>(false, $n) } fn $b() { array::<$k>(true, $m) } )*
        harnesses!(h_c06_bits, $($h,)* $($a, $b),*);
    };
}
all! {{
    h_c06_string read_string, opt(12);
    h_c06_bytes read_bytes_type, opt(12);
    h_c06_extern read_extern_type, opt(12);
    h_c06_varint16 read_varint16, 4;
    h_c06_varint32 read_varint32, 6;
    h_c06_varint64 read_varint64, 10;
    h_c06_varint read_varint, 11;
    h_c06_varuint16 read_varuint16, 4;
    h_c06_varuint32 read_varuint32, 6;
    h_c06_varuint64 read_varuint64, 10;
    h_c06_varuint read_varuint, 11;
    h_c06_varsize read_varsize, 7;
    h_c06_float16 read_float16, 4;
    h_c06_float32 read_float32, 6;
    h_c06_float64 read_float64, 10;
    h_c06_u8 read_uint8, 3;
    h_c06_u16 read_uint16, 4;
    h_c06_u32 read_uint32, 6;
    h_c06_u64 read_uint64, 10;
    h_c06_i8 read_int8, 3;
    h_c06_i16 read_int16, 4;
    h_c06_i32 read_int32, 6;
    h_c06_i64 read_int64, 10;
} {
    h_c06_a_u3 h_c06_p_u3 U3 2, opt(13);
    h_c06_a_u8 h_c06_p_u8 U8 opt(13), opt(13);
    h_c06_a_u13 h_c06_p_u13 U13 opt(13), opt(13);
    h_c06_a_u33 h_c06_p_u33 U33 opt(14), opt(14);
    h_c06_a_u64 h_c06_p_u64 U64 opt(14), opt(14);
    h_c06_a_i3 h_c06_p_i3 I3 2, opt(13);
    h_c06_a_i8 h_c06_p_i8 I8 opt(13), opt(13);
    h_c06_a_i33 h_c06_p_i33 I33 opt(14), opt(14);
    h_c06_a_i64 h_c06_p_i64 I64 opt(14), opt(14);
    h_c06_a_varuint16 h_c06_p_varuint16 VU16 opt(15), opt(15);
    h_c06_a_varuint32 h_c06_p_varuint32 VU32 opt(15), opt(15);
    h_c06_a_varuint64 h_c06_p_varuint64 VU64 opt(15), opt(15);
    h_c06_a_varuint h_c06_p_varuint VU opt(15), opt(15);
    h_c06_a_varsize h_c06_p_varsize VSize opt(15), opt(15);
    h_c06_a_varint16 h_c06_p_varint16 VI16 opt(15), opt(15);
    h_c06_a_varint32 h_c06_p_varint32 VI32 opt(15), opt(15);
    h_c06_a_varint64 h_c06_p_varint64 VI64 opt(15), opt(15);
    h_c06_a_varint h_c06_p_varint VI opt(15), opt(15);
    h_c06_a_bool h_c06_p_bool Bool 2, 2;
    h_c06_a_float16 h_c06_p_float16 F16 opt(15), opt(15);
    h_c06_a_float32 h_c06_p_float32 F32 opt(14), opt(14);
    h_c06_a_float64 h_c06_p_float64 F64 opt(14), opt(14);
    h_c06_a_string h_c06_p_string Str opt(15), opt(15);
    h_c06_a_bytes h_c06_p_bytes Blob opt(15), opt(15);
    h_c06_a_extern h_c06_p_extern Extern opt(15), opt(15);
    h_c06_a_object h_c06_p_object Object opt(14), opt(20);
}}
