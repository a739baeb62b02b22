//! Element kinds of arrays: trait object, arbitrary valid value, reference encoding.
use sup::*;
pub use zserio::ztype::Array;
use zserio::ztype::array_traits::array_trait::ArrayTrait;
use zserio::ztype::array_traits::delta_context::DeltaContext;
use zserio::ztype::array_traits::packing_context_node::PackingContextNode;
use zserio::ztype::array_traits::*;
use zserio::ztype::*;
use zserio::ZserioPackableObject;

pub trait Kind {
    type T: Default + Clone;
    /// delta-packable as an integer
    const INT: bool = true;
    const SIGNED: bool = false;
    /// variable length
    const VAR: bool = false;
    /// most bits an element can take (bounded kinds)
    const MAXBITS: u64;
    fn tr() -> Box<dyn ArrayTrait<Self::T>>;
    fn fresh() -> Self::T;
    fn put(v: &Self::T, b: &mut Bs);
    fn same(a: &Self::T, b: &Self::T) -> bool;
    /// integer value, sign-extended
    fn int(_: &Self::T) -> i128 {
        0
    }
}
macro_rules! field {
    ($name:ident, $tr:ident, $t:ty, $n:literal, signed) => {
        pub struct $name;
        impl Kind for $name {
            type T = $t;
            const SIGNED: bool = true;
            const MAXBITS: u64 = $n;
            fn tr() -> Box<dyn ArrayTrait<$t>> {
                Box::new($tr { num_bits: $n })
            }
            fn fresh() -> $t {
                // sign-extended from n bits
                let v = bits($n);
                ((v << (64 - $n)) as i64 >> (64 - $n)) as $t
            }
            fn put(v: &$t, b: &mut Bs) {
                b.i(*v as i64, $n)
            }
            fn same(a: &$t, b: &$t) -> bool {
                a == b
            }
            fn int(v: &$t) -> i128 {
                *v as i128
            }
        }
    };
    ($name:ident, $tr:ident, $t:ty, $n:literal, unsigned) => {
        pub struct $name;
        impl Kind for $name {
            type T = $t;
            const MAXBITS: u64 = $n;
            fn tr() -> Box<dyn ArrayTrait<$t>> {
                Box::new($tr { num_bits: $n })
            }
            fn fresh() -> $t {
                bits($n) as $t
            }
            fn put(v: &$t, b: &mut Bs) {
                b.u(*v as u64, $n)
            }
            fn same(a: &$t, b: &$t) -> bool {
                a == b
            }
            fn int(v: &$t) -> i128 {
                *v as i128
            }
        }
    };
}
field!(U3, UnsignedBitFieldArrayTrait, u8, 3, unsigned);
field!(U8, UnsignedBitFieldArrayTrait, u8, 8, unsigned);
field!(U13, UnsignedBitFieldArrayTrait, u16, 13, unsigned);
field!(U16, UnsignedBitFieldArrayTrait, u16, 16, unsigned);
field!(U32, UnsignedBitFieldArrayTrait, u32, 32, unsigned);
field!(U33, UnsignedBitFieldArrayTrait, u64, 33, unsigned);
field!(U64, UnsignedBitFieldArrayTrait, u64, 64, unsigned);
field!(I3, BitFieldArrayTrait, i8, 3, signed);
field!(I8, BitFieldArrayTrait, i8, 8, signed);
field!(I13, BitFieldArrayTrait, i16, 13, signed);
field!(I16, BitFieldArrayTrait, i16, 16, signed);
field!(I32, BitFieldArrayTrait, i32, 32, signed);
field!(I33, BitFieldArrayTrait, i64, 33, signed);
field!(I64, BitFieldArrayTrait, i64, 64, signed);
macro_rules! var {
    ($name:ident, $tr:ident, $t:ty, $w:literal, $max:literal, $limit:expr, unsigned) => {
        pub struct $name;
        impl Kind for $name {
            type T = $t;
            const VAR: bool = true;
            const MAXBITS: u64 = 8 * $max;
            fn tr() -> Box<dyn ArrayTrait<$t>> {
                Box::new($tr {})
            }
            fn fresh() -> $t {
                let v = bits($w);
                assume(v <= $limit);
                v as $t
            }
            fn put(v: &$t, b: &mut Bs) {
                b.varu(*v as u64, $max)
            }
            fn same(a: &$t, b: &$t) -> bool {
                a == b
            }
            fn int(v: &$t) -> i128 {
                *v as i128
            }
        }
    };
    ($name:ident, $tr:ident, $t:ty, $w:literal, $max:literal, $limit:expr, signed) => {
        pub struct $name;
        impl Kind for $name {
            type T = $t;
            const SIGNED: bool = true;
            const VAR: bool = true;
            const MAXBITS: u64 = 8 * $max;
            fn tr() -> Box<dyn ArrayTrait<$t>> {
                Box::new($tr {})
            }
            fn fresh() -> $t {
                let v = bits($w) as $t;
                assume($max == 9 || (v as i64).unsigned_abs() <= $limit);
                v
            }
            fn put(v: &$t, b: &mut Bs) {
                b.vari(*v as i64, $max)
            }
            fn same(a: &$t, b: &$t) -> bool {
                a == b
            }
            fn int(v: &$t) -> i128 {
                *v as i128
            }
        }
    };
}
var!(VU16, VarUint16ArrayTrait, u16, 16, 2, (1 << 15) - 1, unsigned);
var!(VU32, VarUint32ArrayTrait, u32, 32, 4, (1 << 29) - 1, unsigned);
var!(VU64, VarUint64ArrayTrait, u64, 64, 8, (1 << 57) - 1, unsigned);
var!(VU, VarUintArrayTrait, u64, 64, 9, u64::MAX, unsigned);
var!(VSize, VarSizeArrayTrait, u32, 32, 5, (1 << 31) - 1, unsigned);
var!(VI16, VarInt16ArrayTrait, i16, 16, 2, (1 << 14) - 1, signed);
var!(VI32, VarInt32ArrayTrait, i32, 32, 4, (1 << 28) - 1, signed);
var!(VI64, VarInt64ArrayTrait, i64, 64, 8, (1 << 56) - 1, signed);
var!(VI, VarIntArrayTrait, i64, 64, 9, u64::MAX, signed);

macro_rules! long {
    ($name:ident, $base:ident, $t:ty, $doc:literal) => {
        #[doc = $doc]
        pub struct $name;
        impl Kind for $name {
            type T = $t;
            const SIGNED: bool = $base::SIGNED;
            const VAR: bool = true;
            const MAXBITS: u64 = 72;
            fn tr() -> Box<dyn ArrayTrait<$t>> {
                $base::tr()
            }
            fn fresh() -> $t {
                let v = $base::fresh();
                // at least 2^56 in magnitude: all nine bytes
                assume(v.abs_diff(0) >= 1 << 56 && v.abs_diff(0) < 1 << 63);
                v
            }
            fn put(v: &$t, b: &mut Bs) {
                $base::put(v, b)
            }
            fn same(a: &$t, b: &$t) -> bool {
                a == b
            }
            fn int(v: &$t) -> i128 {
                *v as i128
            }
        }
    };
}
long!(VULong, VU, u64, "varuint of nine bytes (below 2^63)");
long!(VILong, VI, i64, "varint of nine bytes");

pub struct Bool;
impl Kind for Bool {
    type T = bool;
    const INT: bool = false;
    const MAXBITS: u64 = 1;
    fn tr() -> Box<dyn ArrayTrait<bool>> {
        Box::new(BooleanArrayTrait {})
    }
    fn fresh() -> bool {
        bits(1) == 1
    }
    fn put(v: &bool, b: &mut Bs) {
        b.bool(*v)
    }
    fn same(a: &bool, b: &bool) -> bool {
        a == b
    }
}
/// numbers that a half represents exactly (normal, both signs)
pub struct F16;
impl Kind for F16 {
    type T = f32;
    const INT: bool = false;
    const MAXBITS: u64 = 16;
    fn tr() -> Box<dyn ArrayTrait<f32>> {
        Box::new(Float16ArrayTrait {})
    }
    fn fresh() -> f32 {
        let p = bits(16) as u32;
        let e = p >> 10 & 31;
        assume(e != 0 && e != 31);
        f32::from_bits((p >> 15) << 31 | (e + 112) << 23 | (p & 0x3ff) << 13)
    }
    fn put(v: &f32, b: &mut Bs) {
        let x = v.to_bits();
        b.u((x >> 31) as u64, 1);
        b.u(((x >> 23 & 0xff) - 112) as u64, 5);
        b.u((x >> 13) as u64, 10)
    }
    fn same(a: &f32, b: &f32) -> bool {
        a.to_bits() == b.to_bits()
    }
}
/// any half, compared as a number (NaN equals NaN)
pub struct F16Any;
impl Kind for F16Any {
    type T = f32;
    const INT: bool = false;
    const MAXBITS: u64 = 16;
    fn tr() -> Box<dyn ArrayTrait<f32>> {
        F16::tr()
    }
    fn fresh() -> f32 {
        F16::fresh()
    }
    fn put(v: &f32, b: &mut Bs) {
        F16::put(v, b)
    }
    fn same(a: &f32, b: &f32) -> bool {
        let (x, y) = (a.to_bits(), b.to_bits());
        let nan = |z: u32| z & 0x7fff_ffff > 0x7f80_0000;
        x == y || nan(x) && nan(y)
    }
}
pub struct F32;
impl Kind for F32 {
    type T = f32;
    const INT: bool = false;
    const MAXBITS: u64 = 32;
    fn tr() -> Box<dyn ArrayTrait<f32>> {
        Box::new(Float32ArrayTrait {})
    }
    fn fresh() -> f32 {
        f32::from_bits(bits(32) as u32)
    }
    fn put(v: &f32, b: &mut Bs) {
        b.u(v.to_bits() as u64, 32)
    }
    fn same(a: &f32, b: &f32) -> bool {
        a.to_bits() == b.to_bits()
    }
}
pub struct F64;
impl Kind for F64 {
    type T = f64;
    const INT: bool = false;
    const MAXBITS: u64 = 64;
    fn tr() -> Box<dyn ArrayTrait<f64>> {
        Box::new(Float64ArrayTrait {})
    }
    fn fresh() -> f64 {
        f64::from_bits(bits(64))
    }
    fn put(v: &f64, b: &mut Bs) {
        b.u(v.to_bits(), 64)
    }
    fn same(a: &f64, b: &f64) -> bool {
        a.to_bits() == b.to_bits()
    }
}
/// ASCII strings of up to two characters
pub struct Str;
impl Kind for Str {
    type T = String;
    const INT: bool = false;
    const MAXBITS: u64 = 24;
    fn tr() -> Box<dyn ArrayTrait<String>> {
        Box::new(StringArrayTrait {})
    }
    fn fresh() -> String {
        let mut d = bytes(pick(3) as usize);
        for x in d.iter_mut() {
            *x &= 0x7f;
        }
        unsafe { String::from_utf8_unchecked(d) }
    }
    fn put(v: &String, b: &mut Bs) {
        b.string(v.as_bytes())
    }
    fn same(a: &String, b: &String) -> bool {
        eq(a.as_bytes(), b.as_bytes())
    }
}
pub struct Blob;
impl Kind for Blob {
    type T = BytesType;
    const INT: bool = false;
    const MAXBITS: u64 = 24;
    fn tr() -> Box<dyn ArrayTrait<BytesType>> {
        Box::new(ByteBufferArrayTrait {})
    }
    fn fresh() -> BytesType {
        let d = bytes(pick(3) as usize);
        BytesType { byte_size: d.len() as u32, data_blob: d }
    }
    fn put(v: &BytesType, b: &mut Bs) {
        b.string(&v.data_blob)
    }
    fn same(a: &BytesType, b: &BytesType) -> bool {
        a.byte_size == b.byte_size && eq(&a.data_blob, &b.data_blob)
    }
}
/// bit blobs of 0, 1, 7, 8 or 11 bits
pub struct Extern;
impl Kind for Extern {
    type T = ExternType;
    const INT: bool = false;
    const MAXBITS: u64 = 19;
    fn tr() -> Box<dyn ArrayTrait<ExternType>> {
        Box::new(BitBufferArrayTrait {})
    }
    fn fresh() -> ExternType {
        let n = [0u32, 1, 7, 8, 11][pick(5) as usize];
        let mut d = bytes((n as usize + 7) / 8);
        if n % 8 != 0 {
            let l = d.len() - 1;
            d[l] &= 0xff << (8 - n % 8);
        }
        ExternType { bit_size: n, data_blob: d }
    }
    fn put(v: &ExternType, b: &mut Bs) {
        b.varsize(v.bit_size as u64);
        for i in 0..v.bit_size as usize {
            b.u((v.data_blob[i / 8] >> (7 - i % 8)) as u64, 1);
        }
    }
    fn same(a: &ExternType, b: &ExternType) -> bool {
        a.bit_size == b.bit_size && eq(&a.data_blob, &b.data_blob)
    }
}
/// A structure as the generator lays it out: an integer, a flag and a signed integer.
#[derive(Default, Clone)]
pub struct Pair {
    pub a: u8,
    pub f: bool,
    pub b: i16,
}
const TA: UnsignedBitFieldArrayTrait = UnsignedBitFieldArrayTrait { num_bits: 8 };
const TB: BitFieldArrayTrait = BitFieldArrayTrait { num_bits: 16 };
impl ZserioPackableObject for Pair {
    fn zserio_read(&mut self, r: &mut BitReader) -> zserio::Result<()> {
        self.a = read_uint8(r)?;
        self.f = r.read_bool()?;
        self.b = read_int16(r)?;
        Ok(())
    }
    fn zserio_write(&self, w: &mut BitWriter) -> zserio::Result<()> {
        write_uint8(w, self.a)?;
        w.write_bool(self.f)?;
        write_int16(w, self.b)
    }
    fn zserio_read_packed(&mut self, c: &mut PackingContextNode, r: &mut BitReader) -> zserio::Result<()> {
        c.children[0].context.as_mut().unwrap().read(&TA, r, &mut self.a)?;
        self.f = r.read_bool()?;
        c.children[1].context.as_mut().unwrap().read(&TB, r, &mut self.b)
    }
    fn zserio_write_packed(&self, c: &mut PackingContextNode, w: &mut BitWriter) -> zserio::Result<()> {
        c.children[0].context.as_mut().unwrap().write(&TA, w, &self.a)?;
        w.write_bool(self.f)?;
        c.children[1].context.as_mut().unwrap().write(&TB, w, &self.b)
    }
    fn zserio_bitsize(&self, _: u64) -> zserio::Result<u64> {
        Ok(25)
    }
    fn zserio_bitsize_packed(&self, c: &mut PackingContextNode, p: u64) -> zserio::Result<u64> {
        let a = c.children[0].context.as_mut().unwrap().bitsize_of(&TA, p, &self.a)?;
        let b = c.children[1].context.as_mut().unwrap().bitsize_of(&TB, p + a + 1, &self.b)?;
        Ok(a + 1 + b)
    }
    fn zserio_create_packing_context(c: &mut PackingContextNode) {
        for _ in 0..2 {
            let mut n = PackingContextNode::new();
            n.context = Some(DeltaContext::new());
            c.children.push(n);
        }
    }
    fn zserio_init_packing_context(&self, c: &mut PackingContextNode) -> zserio::Result<()> {
        c.children[0].context.as_mut().unwrap().init(&TA, &self.a)?;
        c.children[1].context.as_mut().unwrap().init(&TB, &self.b)
    }
}
pub struct Object;
impl Kind for Object {
    type T = Pair;
    const INT: bool = false;
    const MAXBITS: u64 = 25;
    fn tr() -> Box<dyn ArrayTrait<Pair>> {
        Box::new(ObjectArrayTrait {})
    }
    fn fresh() -> Pair {
        Pair { a: bits(8) as u8, f: bits(1) == 1, b: bits(16) as i16 }
    }
    fn put(v: &Pair, b: &mut Bs) {
        b.u(v.a as u64, 8);
        b.bool(v.f);
        b.i(v.b as i64, 16)
    }
    fn same(a: &Pair, b: &Pair) -> bool {
        (a.a == b.a) & (a.f == b.f) & (a.b == b.b)
    }
}

/// An array of `n` arbitrary elements with all its parameters.
pub struct Case<K: Kind> {
    pub f: Frame,
    pub data: Vec<K::T>,
    pub fixed: Option<usize>,
    pub aligned: bool,
    pub offsets: Vec<u32>,
}
/// Of the long variable-length types, two-element arrays start with an element of the
/// shortest or the longest encoding (any element in the thorough tier).
fn ends<K: Kind>(v: &K::T) {
    if K::INT && K::MAXBITS >= 64 && K::VAR && !thorough() {
        let x = K::int(v);
        let x = x ^ (x >> 127);
        let top = 7 * (K::MAXBITS / 8 - 1);
        assume(x < 64 || x >> top != 0);
    }
}
impl<K: Kind> Case<K> {
    /// `n` elements, every combination of fixed/auto length and aligned/unaligned
    pub fn any(f: Frame, n: usize) -> Case<K> {
        let p = pick(4);
        let data: Vec<K::T> = (0..n).map(|_| K::fresh()).collect();
        Case { f, data, fixed: if p & 1 == 1 { Some(n) } else { None }, aligned: p & 2 == 2, offsets: vec![0; n] }
    }
    pub fn plain(f: Frame, n: usize) -> Case<K> {
        let data: Vec<K::T> = (0..n).map(|_| K::fresh()).collect();
        if n >= 2 {
            ends::<K>(&data[0]);
        }
        Case { f, data, fixed: None, aligned: false, offsets: vec![] }
    }
    /// many equal elements and one other among them
    pub fn many(f: Frame, all: bool) -> Case<K> {
        let n = if all { [130usize, 258, 300][pick(3) as usize] } else { 258 };
        let at = if all { [1, n / 2, n - 1][pick(3) as usize] } else { n / 2 };
        let (x, y) = (K::fresh(), K::fresh());
        ends::<K>(&x);
        ends::<K>(&y);
        let data: Vec<K::T> = (0..n).map(|i| if i == at { y.clone() } else { x.clone() }).collect();
        let p = if all { pick(2) } else { 0 };
        Case { f, data, fixed: if p == 1 { Some(n) } else { None }, aligned: false, offsets: vec![] }
    }
    pub fn arr(&self, packed: bool) -> Array<K::T> {
        Array { array_trait: K::tr(), is_packed: packed, fixed_size: self.fixed }
    }
    pub fn off(&self) -> Option<&Vec<u32>> {
        if self.aligned {
            Some(&self.offsets)
        } else {
            None
        }
    }
    pub fn write(&self, packed: bool, w: &mut BitWriter) -> zserio::Result<()> {
        self.arr(packed).zserio_write(w, &self.data, self.off())
    }
    pub fn read(&self, packed: bool, r: &mut BitReader) -> zserio::Result<Vec<K::T>> {
        let mut a = self.arr(packed);
        let n = a.zserio_read_array_length(r)?;
        let mut v = vec![];
        a.zserio_read(r, &mut v, n, self.off())?;
        Ok(v)
    }
    pub fn size(&self, packed: bool) -> zserio::Result<u64> {
        self.arr(packed).zserio_bitsize(&self.data, self.off(), self.f.off as u64)
    }
    pub fn same(&self, v: &[K::T]) -> bool {
        if v.len() != self.data.len() {
            return false;
        }
        let mut ok = true;
        for i in 0..v.len() {
            ok &= K::same(&v[i], &self.data[i]);
        }
        ok
    }
    /// reference layout of a plain array, starting behind `self.f`'s prefix
    pub fn layout(&self) -> Bs {
        let mut b = self.f.open_ref();
        if self.fixed.is_none() {
            b.varsize(self.data.len() as u64);
        }
        for v in &self.data {
            if self.aligned {
                b.align(8);
            }
            K::put(v, &mut b);
        }
        b
    }
}
