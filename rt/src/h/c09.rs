//! C09: wire format of packed integer arrays.
use crate::kinds::*;
use sup::*;

/// no value needs more than `n` bits in magnitude
fn fits(d: &[i128], n: u32) -> bool {
    let mut ok = true;
    for x in d {
        let m = *x ^ (*x >> 127);
        // |x| < 2^n; the magnitude of a negative number is one more than its complement
        let lim = if *x < 0 { (1i128 << n) - 1 } else { 1i128 << n };
        ok &= m < lim;
    }
    ok
}
fn elem_len<K: Kind>(v: &K::T) -> u64 {
    let mut b = Bs::new();
    K::put(v, &mut b);
    b.len()
}
fn wire<K: Kind>(max: u64) {
    let f = frame2();
    let n = pick(max + 1) as usize;
    let auto = if n as u64 == max && !thorough() { f.off == 0 } else { pick(2) == 0 };
    let mut c = Case::<K>::plain(f, n);
    c.fixed = if auto { None } else { Some(n) };
    wire_of(c)
}
/// Lengths of more than a byte
fn many<K: Kind>() {
    wire_of(Case::<K>::many(frame_at(5), false))
}
fn wire_of<K: Kind>(c: Case<K>) {
    let (n, auto) = (c.data.len(), c.fixed.is_none());
    let mut w = BitWriter::new();
    c.f.open(&mut w);
    must!(c.write(true, &mut w), "writing a packed array fails");
    let written = c.f.written(&w);
    let d = c.f.close(w);
    let mut b = c.f.open_ref();
    if auto {
        b.varsize(n as u64);
    }
    if n == 0 {
        check!(written == b.len() - c.f.off as u64 && eq(&d, &c.f.close_ref(b)), "an empty packed array is only its length");
        reach!();
        return;
    }
    // look at the descriptor that was written
    let mut r = BitReader::new(&d);
    r.skip(b.len()).unwrap();
    let flag = conc(r.read_u64(1).unwrap()) == 1;
    let mut deltas = vec![];
    for i in 1..n {
        deltas.push(K::int(&c.data[i]) - K::int(&c.data[i - 1]));
    }
    let first = elem_len::<K>(&c.data[0]);
    let mut plain = 1;
    for v in &c.data {
        plain += elem_len::<K>(v);
    }
    let packed_len = |w: u64| 7 + first + (n as u64 - 1) * (if w > 0 { w + 1 } else { 0 });
    b.bool(flag);
    if flag {
        let w = conc(r.read_u64(6).unwrap());
        check!(n >= 2, "one element is packed");
        check!(w <= 62, "delta width above 62 bits");
        check!(packed_len(w) < plain, "packed although that is not smaller");
        check!(fits(&deltas, w as u32), "a delta does not fit the written width");
        check!(w == 0 || !fits(&deltas, w as u32 - 1), "the delta width is not the smallest");
        b.u(w, 6);
        K::put(&c.data[0], &mut b);
        if w > 0 {
            for x in &deltas {
                b.u(*x as u64, w as u32 + 1);
            }
        }
    } else {
        let mut best = None;
        let mut w = 0;
        while w <= 62 && packed_len(w) < plain {
            best = Some(w);
            w += 1;
        }
        if n >= 2 {
            if let Some(w) = best {
                check!(!fits(&deltas, w as u32), "not packed although that is smaller");
            }
        }
        for v in &c.data {
            K::put(v, &mut b);
        }
    }
    check!(written == b.len() - c.f.off as u64, "wrong number of bits written");
    check!(eq(&d, &c.f.close_ref(b)), "bytes differ from the packed array format");
    reach!();
}
/// A difference too wide for delta compression, anywhere in a longer array, forbids it.
fn wide<K: Kind>(n: u64) {
    let c = Case::<K>::plain(frame_at(0), n as usize);
    let mut deltas = vec![];
    for i in 1..n as usize {
        deltas.push(K::int(&c.data[i]) - K::int(&c.data[i - 1]));
    }
    assume(!fits(&deltas, 62));
    let mut w = BitWriter::new();
    c.f.open(&mut w);
    must!(c.write(true, &mut w), "writing a packed array fails");
    let d = c.f.close(w);
    let mut b = c.f.open_ref();
    b.varsize(n);
    b.bool(false);
    for v in &c.data {
        K::put(v, &mut b);
    }
    check!(eq(&d, &c.f.close_ref(b)), "an array with a difference of more than 62 bits is not stored unpacked");
    reach!();
}
fn h_c09_wide_varuint() {
    wide::<VULong>(opt(24))
}
fn h_c09_wide_varint() {
    wide::<VILong>(opt(24))
}
macro_rules! all {
    ($($h:ident $k:ident $n:expr),* ; $($m:ident $km:ident),* $(,)?) => {
        $( fn $h() { wire::<$k>($n) } )*
        $( fn $m() { many::<$km>() } )*
        harnesses!($($h),*, h_c09_wide_varuint, h_c09_wide_varint, $($m),*);
    };
}
all!(
    h_c09_u3 U3 opt(17), h_c09_u8 U8 opt(17), h_c09_u13 U13 opt(18), h_c09_u16 U16 opt(18), h_c09_u32 U32 opt(18),
    h_c09_u33 U33 opt(18), h_c09_u64 U64 opt(18),
    h_c09_i3 I3 opt(17), h_c09_i8 I8 opt(17), h_c09_i13 I13 opt(18), h_c09_i16 I16 opt(18), h_c09_i32 I32 opt(18),
    h_c09_i33 I33 opt(18), h_c09_i64 I64 opt(18),
    h_c09_varuint16 VU16 opt(18), h_c09_varuint32 VU32 opt(18), h_c09_varuint64 VU64 opt(18), h_c09_varuint VU opt(18),
    h_c09_varsize VSize opt(18),
    h_c09_varint16 VI16 opt(18), h_c09_varint32 VI32 opt(18), h_c09_varint64 VI64 opt(18), h_c09_varint VI opt(18);
    h_c09_many_u8 U8, h_c09_many_i16 I16, 
);
