//! C27: what decodes can be encoded again, with the same meaning.
use crate::kinds::*;
use sup::*;

fn one<K: Kind>(max: u64) {
    let n = pick(max + 1);
    let d = bytes(n as usize);
    let mut r = BitReader::new(&d);
    let mut v = K::T::default();
    if K::tr().read(&mut r, &mut v).is_err() {
        cover(2);
        return;
    }
    let mut w = BitWriter::new();
    must!(K::tr().write(&mut w, &v), "a decoded value cannot be encoded");
    let bits = w.bit_count();
    check!(bits <= r.position(), "the encoding of a decoded value is longer");
    w.close().unwrap();
    let e = w.data().clone();
    logb(&e);
    let mut r = BitReader::new(&e);
    let mut x = K::T::default();
    must!(K::tr().read(&mut r, &mut x), "an encoded value cannot be decoded again");
    check!(K::same(&v, &x), "re-encoding changes the value");
    check!(r.position() == bits, "reader does not end behind the value");
    cover(1)
}
fn array<K: Kind>(packed: bool, max: u64) {
    let n = pick(max + 1);
    let d = bytes(n as usize);
    let fixed = if pick(2) == 1 { Some(2) } else { None };
    let mk = || Array { array_trait: K::tr(), is_packed: packed, fixed_size: fixed };
    let none: Option<&Vec<u32>> = None;
    let mut r = BitReader::new(&d);
    let mut a = mk();
    let Ok(n) = a.zserio_read_array_length(&mut r) else { return };
    // constant packed arrays of any claimed length are well-formed; bounded
    if packed {
        assume(n <= 3);
    }
    let mut v: Vec<K::T> = vec![];
    if a.zserio_read(&mut r, &mut v, n, none).is_err() {
        cover(2);
        return;
    }
    let mut w = BitWriter::new();
    must!(mk().zserio_write(&mut w, &v, none), "a decoded array cannot be encoded");
    w.close().unwrap();
    let e = w.data().clone();
    logb(&e);
    let mut r = BitReader::new(&e);
    let mut b = mk();
    let m = must!(b.zserio_read_array_length(&mut r), "an encoded array cannot be decoded again");
    check!(m == n, "re-encoding changes the length");
    let mut x: Vec<K::T> = vec![];
    must!(b.zserio_read(&mut r, &mut x, m, none), "an encoded array cannot be decoded again");
    let mut ok = x.len() == v.len();
    if ok {
        for i in 0..v.len() {
            ok &= K::same(&v[i], &x[i]);
        }
    }
    check!(ok, "re-encoding changes the elements");
    cover(1)
}
macro_rules! all {
    ($($a:ident $b:ident $k:ident $n:expr, $m:expr;)* ; $($c:ident $p:ident $o:expr;)*) => {
        $( fn $a() { one::<$k>($n) } fn $b() { array::<$k>(false, $m) } )*
        // packed: types that use every bit pattern of their Rust type
        $( fn $c() { array::<$p>(true, $o) } )*
        harnesses!($($a, $b,)* $($c),*);
    };
}
all!(
    h_c27_u13 h_c27_u13_array U13 3, opt(13);
    h_c27_u64 h_c27_u64_array U64 9, opt(14);
    h_c27_i3 h_c27_i3_array I3 1, 2;
    h_c27_i33 h_c27_i33_array I33 6, opt(14);
    h_c27_varuint16 h_c27_varuint16_array VU16 3, opt(15);
    h_c27_varuint32 h_c27_varuint32_array VU32 5, opt(15);
    h_c27_varuint64 h_c27_varuint64_array VU64 9, opt(15);
    h_c27_varuint h_c27_varuint_array VU 10, opt(15);
    h_c27_varsize h_c27_varsize_array VSize 6, opt(15);
    h_c27_varint16 h_c27_varint16_array VI16 3, opt(15);
    h_c27_varint32 h_c27_varint32_array VI32 5, opt(15);
    h_c27_varint64 h_c27_varint64_array VI64 9, opt(15);
    h_c27_varint h_c27_varint_array VI 10, opt(15);
    h_c27_bool h_c27_bool_array Bool 1, 2;
    h_c27_float16 h_c27_float16_array F16Any 2, 4;
    h_c27_float32 h_c27_float32_array F32 5, opt(14);
    h_c27_float64 h_c27_float64_array F64 9, opt(14);
    h_c27_string h_c27_string_array Str opt(12), opt(15);
    h_c27_bytes h_c27_bytes_array Blob opt(12), opt(15);
    h_c27_extern h_c27_extern_array Extern opt(12), opt(15);
    h_c27_object h_c27_object_array Object 7, opt(14);
    ;
    h_c27_u8_packed U8 opt(13);
    h_c27_u32_packed U32 opt(21);
    h_c27_u64_packed U64 opt(14);
    h_c27_i8_packed I8 opt(13);
    h_c27_i32_packed I32 opt(22);
    h_c27_i64_packed I64 opt(14);
    h_c27_varuint_packed VU opt(15);
    h_c27_varint_packed VI opt(15);
    h_c27_bool_packed Bool 2;
    h_c27_float32_packed F32 opt(14);
    h_c27_string_packed Str opt(15);
    h_c27_object_packed Object opt(20);
);
