//! C26: truncated encodings are errors.
use crate::kinds::*;
use sup::*;

/// a single value of the type
fn one<K: Kind>() {
    let f = frame2();
    let v = K::fresh();
    let mut w = BitWriter::new();
    f.open(&mut w);
    must!(K::tr().write(&mut w, &v), "writing fails");
    w.close().unwrap();
    let d = w.data().clone();
    logb(&d);
    let keep = pick(d.len() as u64) as usize;
    let mut r = BitReader::new(&d[..keep]);
    if r.skip(f.off as u64).is_ok() {
        let mut x = K::T::default();
        check!(K::tr().read(&mut r, &mut x).is_err(), "a truncated value is read without an error");
    }
    reach!();
}
fn array<K: Kind>(packed: bool, max: u64) {
    let n = pick(max + 1) as usize;
    let c = if n as u64 == max { Case::<K>::plain(frame_at(0), n) } else { Case::<K>::any(frame_at(0), n) };
    let mut w = BitWriter::new();
    must!(c.write(packed, &mut w), "writing an array fails");
    w.close().unwrap();
    let d = w.data().clone();
    logb(&d);
    if !d.is_empty() {
        let keep = pick(d.len() as u64) as usize;
        let mut r = BitReader::new(&d[..keep]);
        check!(c.read(packed, &mut r).is_err(), "a truncated array is read without an error");
    }
    reach!();
}
macro_rules! all {
    ($($a:ident $b:ident $c:ident $k:ident $n:expr, $m:expr;)*) => {
        $( fn $a() { one::<$k>() } fn $b() { array::<$k>(false, $n) } fn $c() { array::<$k>(true, $m) } )*
        harnesses!($($a, $b, $c),*);
    };
}
all!(
    h_c26_u3 h_c26_u3_array h_c26_u3_packed U3 opt(8), opt(17);
    h_c26_u8 h_c26_u8_array h_c26_u8_packed U8 opt(8), opt(18);
    h_c26_u13 h_c26_u13_array h_c26_u13_packed U13 opt(8), opt(18);
    h_c26_u32 h_c26_u32_array h_c26_u32_packed U32 opt(8), opt(18);
    h_c26_u64 h_c26_u64_array h_c26_u64_packed U64 opt(8), opt(18);
    h_c26_i13 h_c26_i13_array h_c26_i13_packed I13 opt(8), opt(18);
    h_c26_i32 h_c26_i32_array h_c26_i32_packed I32 opt(8), opt(18);
    h_c26_varuint16 h_c26_varuint16_array h_c26_varuint16_packed VU16 2, 2;
    h_c26_varuint32 h_c26_varuint32_array h_c26_varuint32_packed VU32 2, opt(18);
    h_c26_varuint64 h_c26_varuint64_array h_c26_varuint64_packed VU64 1, 1;
    h_c26_varuint h_c26_varuint_array h_c26_varuint_packed VU 1, 1;
    h_c26_varsize h_c26_varsize_array h_c26_varsize_packed VSize 2, opt(18);
    h_c26_varint16 h_c26_varint16_array h_c26_varint16_packed VI16 2, 2;
    h_c26_varint32 h_c26_varint32_array h_c26_varint32_packed VI32 2, opt(18);
    h_c26_varint64 h_c26_varint64_array h_c26_varint64_packed VI64 1, 1;
    h_c26_varint h_c26_varint_array h_c26_varint_packed VI 1, 1;
    h_c26_bool h_c26_bool_array h_c26_bool_packed Bool 9, 9;
    h_c26_float16 h_c26_float16_array h_c26_float16_packed F16 2, 2;
    h_c26_float32 h_c26_float32_array h_c26_float32_packed F32 opt(8), opt(8);
    h_c26_float64 h_c26_float64_array h_c26_float64_packed F64 opt(8), opt(8);
    h_c26_string h_c26_string_array h_c26_string_packed Str opt(9), opt(9);
    h_c26_bytes h_c26_bytes_array h_c26_bytes_packed Blob opt(9), opt(9);
    h_c26_extern h_c26_extern_array h_c26_extern_packed Extern opt(9), opt(9);
    h_c26_object h_c26_object_array h_c26_object_packed Object opt(8), opt(19);
);
