//! C11: the reported size of an array equals the bits it takes.
use crate::kinds::*;
use sup::*;

fn size<K: Kind>(max: u64, pmax: u64) {
    let packed = pick(2) == 1;
    let max = if packed { pmax } else { max };
    // 0, 3, 8 and 13 bits in front
    let f = frame_at(if packed && !thorough() { 13 * pick(2) as u32 } else { [0, 3, 8, 13][pick(4) as usize] });
    let n = pick(max + 1) as usize;
    let c = if n as u64 == max && n > 1 { Case::<K>::plain(f, n) } else { Case::<K>::any(f, n) };
    size_of(packed, c)
}
fn size_of<K: Kind>(packed: bool, c: Case<K>) {
    let mut w = BitWriter::new();
    c.f.open(&mut w);
    must!(c.write(packed, &mut w), "writing an array fails");
    let bits = c.f.written(&w);
    log(bits);
    let s = must!(c.size(packed), "computing the size fails");
    check!(s == bits, "reported size differs from the bits written");
    if packed && !c.aligned {
        // the size function that generated code uses for arrays inside packed objects
        let s = must!(c.arr(true).zserio_bitsize_packed(&c.data, c.off(), c.f.off as u64), "computing the packed size fails");
        check!(s == bits, "reported packed size differs from the bits written");
    }
    reach!();
}
macro_rules! all {
    ($($h:ident $k:ident $n:expr, $m:expr;)* | $($hm:ident $km:ident),* $(,)?) => {
        $( fn $h() { size::<$k>($n, $m) } )*
        $( fn $hm() { size_of(pick(2) == 1, Case::<$km>::many(frame_at(5), false)) } )*
        harnesses!($($h),*, $($hm),*);
    };
}
all!(
    h_c11_u3 U3 opt(8), opt(17); h_c11_u8 U8 opt(8), opt(17); h_c11_u13 U13 opt(8), opt(18);
    h_c11_u16 U16 opt(8), opt(18); h_c11_u32 U32 opt(8), opt(18); h_c11_u33 U33 opt(8), opt(18);
    h_c11_u64 U64 opt(8), opt(18);
    h_c11_i3 I3 opt(8), opt(17); h_c11_i8 I8 opt(8), opt(17); h_c11_i13 I13 opt(8), opt(18);
    h_c11_i16 I16 opt(8), opt(18); h_c11_i32 I32 opt(8), opt(18); h_c11_i33 I33 opt(8), opt(18);
    h_c11_i64 I64 opt(8), opt(18);
    h_c11_varuint16 VU16 opt(9), opt(18); h_c11_varuint32 VU32 opt(9), opt(18); h_c11_varuint64 VU64 opt(9), opt(18);
    h_c11_varuint VU opt(9), opt(18); h_c11_varsize VSize opt(9), opt(18);
    h_c11_varint16 VI16 opt(9), opt(18); h_c11_varint32 VI32 opt(9), opt(18); h_c11_varint64 VI64 opt(9), opt(18);
    h_c11_varint VI opt(9), opt(18);
    h_c11_bool Bool opt(8), opt(8); h_c11_float16 F16 opt(9), opt(9); h_c11_float32 F32 opt(8), opt(8);
    h_c11_float64 F64 opt(8), opt(8);
    h_c11_string Str opt(9), opt(9); h_c11_bytes Blob opt(9), opt(9); h_c11_extern Extern opt(9), opt(9);
    h_c11_object Object opt(8), opt(19);
    | h_c11_many_u8 U8, h_c11_many_i16 I16, h_c11_many_bool Bool, h_c11_many_string Str,
);
