//! C08: packed arrays give back every element.
use crate::kinds::*;
use sup::*;

fn packed<K: Kind>(max: u64) {
    let off = 3 * pick(2) as u32;
    let f = frame_at(off);
    let n = pick(max + 1) as usize;
    // the longest arrays only in the usual form, shorter ones in every form
    let c = if n as u64 == max && n > 1 { Case::<K>::plain(f, n) } else { Case::<K>::any(f, n) };
    let mut w = BitWriter::new();
    c.f.open(&mut w);
    must!(c.write(true, &mut w), "writing a packed array fails");
    let bits = c.f.written(&w);
    let d = c.f.close(w);
    let mut r = c.f.reader(&d);
    let v = must!(c.read(true, &mut r), "reading the packed array fails");
    check!(c.same(&v), "elements changed");
    check!(c.f.at_end(&mut r, bits), "reader does not end behind the array");
    // element-wise reading gives the same
    let mut r = c.f.reader(&d);
    let mut a = c.arr(true);
    let len = must!(a.zserio_read_array_length(&mut r), "reading the length fails");
    check!(len == n, "wrong length");
    let mut ctx = a.array_trait.create_context();
    let mut v = vec![];
    for i in 0..n {
        let mut x = K::T::default();
        must!(a.read_one_element(&mut r, &mut ctx, &mut x, i, c.off()), "reading one element fails");
        v.push(x);
    }
    check!(c.same(&v), "elements changed when read one by one");
    reach!();
}
/// Longer arrays at one position, to see effects of earlier elements on later ones.
fn long<K: Kind>(n: u64) {
    long_of(Case::<K>::plain(frame_at(0), n as usize))
}
/// Lengths of more than a byte
fn many<K: Kind>() {
    long_of(Case::<K>::many(frame_at(5), true))
}
fn long_of<K: Kind>(c: Case<K>) {
    let mut w = BitWriter::new();
    c.f.open(&mut w);
    must!(c.write(true, &mut w), "writing a packed array fails");
    let bits = c.f.written(&w);
    let d = c.f.close(w);
    let mut r = c.f.reader(&d);
    let v = must!(c.read(true, &mut r), "reading the packed array fails");
    check!(c.same(&v), "elements changed");
    check!(c.f.at_end(&mut r, bits), "reader does not end behind the array");
    reach!();
}
macro_rules! longs {
    ($($h:ident $k:ident $n:expr),* $(,)?) => {
        $( fn $h() { long::<$k>($n) } )*
    };
}
longs!(h_c08_long_u3 U3 opt(23), h_c08_long_u8 U8 opt(23), h_c08_long_i3 I3 opt(23), h_c08_long_u64 U64 opt(24),
    h_c08_long_varuint VULong opt(24), h_c08_long_varint VILong (if thorough() { opt(24) } else { 2 }), h_c08_long_i32 I32 opt(24), h_c08_long_i64 I64 opt(24));
macro_rules! all {
    ($($h:ident $k:ident $n:expr),* ; $($m:ident $km:ident),* $(,)?) => {
        $( fn $h() { packed::<$k>($n) } )*
        $( fn $m() { many::<$km>() } )*
        harnesses!($($h),*, h_c08_long_u3, h_c08_long_u8, h_c08_long_i3, h_c08_long_u64, h_c08_long_varuint, h_c08_long_varint,
            h_c08_long_i32, h_c08_long_i64, $($m),*);
    };
}
all!(
    h_c08_u3 U3 opt(10), h_c08_u8 U8 opt(10), h_c08_u13 U13 opt(18), h_c08_u16 U16 opt(10), h_c08_u32 U32 opt(18),
    h_c08_u33 U33 opt(18), h_c08_u64 U64 opt(10),
    h_c08_i3 I3 opt(10), h_c08_i8 I8 opt(10), h_c08_i13 I13 opt(18), h_c08_i16 I16 opt(18), h_c08_i32 I32 opt(18),
    h_c08_i33 I33 opt(18), h_c08_i64 I64 opt(10),
    h_c08_varuint16 VU16 opt(11), h_c08_varuint32 VU32 opt(11), h_c08_varuint64 VU64 opt(11), h_c08_varuint VU opt(11),
    h_c08_varsize VSize opt(11),
    h_c08_varint16 VI16 opt(11), h_c08_varint32 VI32 opt(11), h_c08_varint64 VI64 opt(11), h_c08_varint VI opt(11),
    h_c08_bool Bool opt(10), h_c08_float16 F16 opt(11), h_c08_float32 F32 opt(10), h_c08_float64 F64 opt(10),
    h_c08_string Str opt(11), h_c08_bytes Blob opt(11), h_c08_extern Extern opt(11), h_c08_object Object opt(19);
    h_c08_many_u8 U8, h_c08_many_i16 I16, h_c08_many_u64 U64, h_c08_many_bool Bool, h_c08_many_string Str,
);
