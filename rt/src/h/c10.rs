//! C10: plain arrays, element by element.
use crate::kinds::*;
use sup::*;
use zserio::ztype::array_traits::packing_context_node::PackingContextNode;


fn plain<K: Kind>(max: u64) {
    let f = frame2();
    let n = pick(max + 1) as usize;
    let c = if n as u64 == max && n > 1 { Case::<K>::plain(f, n) } else { Case::<K>::any(f, n) };
    let mut w = BitWriter::new();
    c.f.open(&mut w);
    must!(c.write(false, &mut w), "writing an array fails");
    let bits = c.f.written(&w);
    let d = c.f.close(w);
    let b = c.layout();
    check!(bits == b.len() - c.f.off as u64, "wrong number of bits written");
    check!(eq(&d, &c.f.close_ref(b)), "bytes differ from the array layout");
    let mut r = c.f.reader(&d);
    let v = must!(c.read(false, &mut r), "reading the array fails");
    check!(c.same(&v), "elements changed");
    check!(c.f.at_end(&mut r, bits), "reader does not end behind the array");
    // element-wise reading gives the same
    let mut r = c.f.reader(&d);
    let mut a = c.arr(false);
    let len = must!(a.zserio_read_array_length(&mut r), "reading the length fails");
    check!(len == n, "wrong length");
    let mut ctx = PackingContextNode::new();
    let mut v = vec![];
    for i in 0..n {
        let mut x = K::T::default();
        must!(a.read_one_element(&mut r, &mut ctx, &mut x, i, c.off()), "reading one element fails");
        v.push(x);
    }
    check!(c.same(&v), "elements changed when read one by one");
    check!(c.f.at_end(&mut r, bits), "reader does not end behind the array");
    reach!();
}
macro_rules! all {
    ($($h:ident $k:ident $n:expr),* ; $($m:ident $km:ident),* $(,)?) => {
        $( fn $h() { plain::<$k>($n) } )*
        $( fn $m() { long_of(Case::<$km>::many(frame_at(5), true)) } )*
        harnesses!($($h),*, h_c10_long, $($m),*);
    };
}
all!(
    h_c10_u3 U3 opt(8), h_c10_u8 U8 opt(8), h_c10_u13 U13 opt(8), h_c10_u16 U16 opt(8), h_c10_u32 U32 opt(8),
    h_c10_u33 U33 opt(8), h_c10_u64 U64 opt(8),
    h_c10_i3 I3 opt(8), h_c10_i8 I8 opt(8), h_c10_i13 I13 opt(8), h_c10_i16 I16 opt(8), h_c10_i32 I32 opt(8),
    h_c10_i33 I33 opt(8), h_c10_i64 I64 opt(8),
    h_c10_varuint16 VU16 opt(9), h_c10_varuint32 VU32 opt(9), h_c10_varuint64 VU64 opt(9), h_c10_varuint VU opt(9),
    h_c10_varsize VSize opt(9),
    h_c10_varint16 VI16 opt(9), h_c10_varint32 VI32 opt(9), h_c10_varint64 VI64 opt(9), h_c10_varint VI opt(9),
    h_c10_bool Bool opt(8), h_c10_float16 F16 opt(9), h_c10_float32 F32 opt(8), h_c10_float64 F64 opt(8),
    h_c10_string Str opt(9), h_c10_bytes Blob opt(9), h_c10_extern Extern opt(9), h_c10_object Object opt(8);
    h_c10_many_u3 U3, h_c10_many_u8 U8, h_c10_many_varint16 VI16, h_c10_many_float32 F32, h_c10_many_string Str, h_c10_many_object Object,
);
/// long arrays: the length takes two bytes
fn h_c10_long() {
    let f = frame_at(3);
    let n = 126 + pick(4) as usize;
    long_of(Case::<U8>::plain(f, n))
}
fn long_of<K: Kind>(c: Case<K>) {
    let mut w = BitWriter::new();
    c.f.open(&mut w);
    must!(c.write(false, &mut w), "writing an array fails");
    let bits = c.f.written(&w);
    let d = c.f.close(w);
    check!(eq(&d, &c.f.close_ref(c.layout())), "bytes differ from the array layout");
    let mut r = c.f.reader(&d);
    let v = must!(c.read(false, &mut r), "reading the array fails");
    check!(c.same(&v), "elements changed");
    check!(c.f.at_end(&mut r, bits), "reader does not end behind the array");
    reach!();
}
