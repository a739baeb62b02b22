//! Schema types: how a value is chosen and the bits the zserio format assigns to it.
use bitreader::BitReader;
use rust_bitwriter::BitWriter;
use std::marker::PhantomData;
use sup::*;
use zserio::ztype::array_traits::array_trait::ArrayTrait;
use zserio::ztype::array_traits::*;
use zserio::ztype::{Array, BytesType, ExternType, ZserioPackableObject};

// Values are chosen through these. Usually everything is symbolic. In focus mode only the unit with
// number FOCUS is (and decisions next to it: presence, lengths, members); the others are constants
// that differ from unit to unit. Units are counted anew for each element of an array.
const ALL: u64 = u64::MAX;
static mut FOCUS: u64 = ALL;
static mut UNIT: u64 = 0;
static mut SEQ: u64 = 0;
static mut MAX: u64 = 0;
static mut NARROW: u32 = 64;
static mut FULL: bool = false;
/// No symbolic values from now on: constants, and every decision for the most (present, longest, last member).
pub fn full() {
    focus(Some(ALL - 2));
    unsafe { FULL = true }
}
/// From now on only numbers whose bits above the lowest n are equal.
pub fn narrow(n: u32) {
    unsafe { NARROW = n }
}
pub fn focus(f: Option<u64>) {
    unsafe {
        FOCUS = f.unwrap_or(ALL);
        UNIT = 0;
        SEQ = 0;
        MAX = 0;
        FULL = false;
        if f.is_none() {
            NARROW = 64;
        }
    }
}
pub fn element() {
    unsafe { UNIT = 0 }
}
pub fn units() -> u64 {
    unsafe { MAX }
}
fn unit(near: u64) -> bool {
    unsafe {
        UNIT += 1;
        SEQ += 1;
        MAX = MAX.max(UNIT);
        FOCUS == ALL || (UNIT - 1).abs_diff(FOCUS) <= near
    }
}
fn constant() -> u64 {
    unsafe { SEQ * 7 % 31 }
}
pub fn vbits(n: u32) -> u64 {
    if unit(0) {
        let few = unsafe { NARROW };
        if n > few {
            return bits(few) ^ if pick(2) == 0 { 0 } else { u64::MAX >> (64 - n) };
        }
        bits(n)
    } else if n == 0 {
        0
    } else {
        constant() & (u64::MAX >> (64 - n))
    }
}
pub fn vpick(n: u64) -> u64 {
    if unit(1) {
        pick(n)
    } else if unsafe { FULL } {
        n - 1
    } else {
        constant() % n
    }
}
pub fn epick(n: u64) -> u64 {
    if unit(0) {
        pick(n)
    } else if unsafe { FULL } {
        n - 1
    } else {
        constant() % n
    }
}
pub fn vbytes(n: usize) -> Vec<u8> {
    if unit(0) {
        bytes(n)
    } else {
        (0..n).map(|i| (constant() + i as u64) as u8).collect()
    }
}

pub trait Ty {
    type R: Default + Clone;
    /// any value the type can hold
    fn fresh() -> Self::R;
    /// appends the wire format; `b` holds everything in front
    fn put(v: &Self::R, b: &mut Bs);
    fn same(a: &Self::R, b: &Self::R) -> bool;
    /// choosing a value forks no path
    const CHEAP: bool = false;
    /// numbers with a delta context of their own in a packed array of objects
    fn slots() -> usize {
        0
    }
    /// within a packed array: collects the numbers (without `b`), then appends the wire format
    fn pack(v: &Self::R, _: &mut Packer, b: Option<&mut Bs>) {
        if let Some(b) = b {
            Self::put(v, b)
        }
    }
}
/// The delta contexts of a packed array of objects, as the format defines them. Whether a context is
/// packed and with which width is read from the bytes that were written (HINT) and then checked.
#[derive(Default)]
pub struct Packer {
    at: usize,
    ctx: Vec<Ctx>,
}
#[derive(Default, Clone)]
struct Ctx {
    nums: Vec<i128>,
    narrow: bool,
    size: u64,
    first: u64,
    next: usize,
    width: Option<u64>,
}
static mut HINT: Vec<u8> = Vec::new();
#[allow(static_mut_refs)]
pub fn hint(d: &[u8]) {
    unsafe { HINT = d.to_vec() }
}
#[allow(static_mut_refs)]
fn hinted(at: u64, n: u32) -> u64 {
    let mut v = 0;
    for i in at..at + n as u64 {
        let x = unsafe { HINT.get((i / 8) as usize).copied().unwrap_or(0) };
        v = v << 1 | (x >> (7 - i % 8) & 1) as u64;
    }
    conc(v)
}
/// no difference needs more than `n` bits in magnitude
fn fits(nums: &[i128], narrow: bool, n: u32) -> bool {
    let mut ok = true;
    for i in 1..nums.len() {
        if narrow {
            let x = nums[i] as i64 - nums[i - 1] as i64;
            let m = x ^ (x >> 63);
            let lim = if x < 0 { ((1u64 << n) - 1) as i64 } else { (1u64 << n) as i64 };
            ok &= n == 63 || m < lim;
            continue;
        }
        let x = nums[i] - nums[i - 1];
        let m = x ^ (x >> 127);
        let lim = if x < 0 { (1i128 << n) - 1 } else { 1i128 << n };
        ok &= m < lim;
    }
    ok
}
impl Packer {
    pub fn new(slots: usize) -> Packer {
        Packer { at: 0, ctx: vec![Ctx::default(); slots] }
    }
    /// the next element begins
    pub fn element(&mut self) {
        self.at = 0;
    }
    pub fn skip(&mut self, n: usize) {
        self.at += n;
    }
    pub fn done(&self) -> bool {
        self.at == self.ctx.len()
    }
    /// `narrow`: all values are below 2^62 in magnitude
    pub fn number(&mut self, v: i128, narrow: bool, put: impl Fn(&mut Bs), b: Option<&mut Bs>) {
        let c = &mut self.ctx[self.at];
        c.narrow = narrow;
        self.at += 1;
        let Some(b) = b else {
            let mut one = Bs::new();
            put(&mut one);
            if c.nums.is_empty() {
                c.first = one.len();
            }
            c.nums.push(v);
            c.size += one.len();
            return;
        };
        let i = c.next;
        c.next += 1;
        if i == 0 {
            let n = c.nums.len() as u64;
            let less = |w: u64| 6 + c.first + (n - 1) * (if w > 0 { w + 1 } else { 0 }) < c.size;
            let packed = hinted(b.len(), 1) == 1;
            b.bool(packed);
            if packed {
                let w = hinted(b.len(), 6);
                b.u(w, 6);
                check!(w <= 62, "delta width above 62 bits");
                check!(n >= 2 && less(w), "packed although that is not smaller");
                check!(fits(&c.nums, c.narrow, w as u32), "a delta does not fit the written width");
                check!(w == 0 || !fits(&c.nums, c.narrow, w as u32 - 1), "the delta width is not the smallest");
                c.width = Some(w);
            } else if n >= 2 {
                let mut best = None;
                let mut w = 0;
                while w <= 62 && less(w) {
                    best = Some(w);
                    w += 1;
                }
                if let Some(w) = best {
                    check!(!fits(&c.nums, c.narrow, w as u32), "not packed although that is smaller");
                }
            }
            put(b);
            return;
        }
        match c.width {
            None => put(b),
            Some(0) => (),
            Some(w) => b.u((v - c.nums[i - 1]) as u64, w as u32 + 1),
        }
    }
}
/// A packed array of objects (behind its length).
pub fn put_packed_objects<T: Ty>(v: &[T::R], b: &mut Bs) {
    let mut p = Packer::new(T::slots());
    for x in v {
        p.element();
        T::pack(x, &mut p, None);
        check!(p.done(), "the reference model counts contexts wrongly");
    }
    for x in v {
        p.element();
        T::pack(x, &mut p, Some(b));
    }
}
/// packed X x[], X an object; at most MAX elements
pub struct PkObj<T, const MAX: u64>(PhantomData<T>);
impl<T: Ty, const MAX: u64> Ty for PkObj<T, MAX> {
    type R = Vec<T::R>;
    fn fresh() -> Self::R {
        let n = vpick(MAX + 1);
        (0..n).map(|_| T::fresh()).collect()
    }
    fn put(v: &Self::R, b: &mut Bs) {
        b.varsize(v.len() as u64);
        put_packed_objects::<T>(v, b)
    }
    fn same(a: &Self::R, b: &Self::R) -> bool {
        same_all::<T>(a, b)
    }
}
/// A number that is an offset: never packed.
pub struct Off<T>(PhantomData<T>);
impl<T: Ty> Ty for Off<T> {
    type R = T::R;
    fn fresh() -> Self::R {
        T::fresh()
    }
    fn put(v: &Self::R, b: &mut Bs) {
        T::put(v, b)
    }
    fn same(a: &Self::R, b: &Self::R) -> bool {
        T::same(a, b)
    }
}
/// the delta context of a number
#[macro_export]
macro_rules! packable {
    ($bits:expr) => {
        fn slots() -> usize {
            1
        }
        fn pack(v: &Self::R, p: &mut $crate::types::Packer, b: Option<&mut sup::Bs>) {
            p.number(*v as i128, $bits <= 60, |b| Self::put(v, b), b)
        }
    };
}
macro_rules! ints {
    ($($name:ident $t:ty, $n:literal, $put:ident;)*) => { $(
        pub struct $name;
        impl Ty for $name {
            type R = $t;
            fn fresh() -> $t { vbits($n) as $t }
            fn put(v: &$t, b: &mut Bs) { b.$put(*v as _, $n) }
            fn same(a: &$t, b: &$t) -> bool { a == b }
            const CHEAP: bool = true;
            packable!($n);
        }
    )* };
}
ints!(U8 u8, 8, u; U16 u16, 16, u; U32 u32, 32, u; U64 u64, 64, u; I8 i8, 8, i; I16 i16, 16, i; I32 i32, 32, i; I64 i64, 64, i;);
/// bit:N
pub struct Bit<const N: u32>;
impl<const N: u32> Ty for Bit<N> {
    type R = u64;
    fn fresh() -> u64 {
        vbits(N)
    }
    fn put(v: &u64, b: &mut Bs) {
        b.u(*v, N)
    }
    fn same(a: &u64, b: &u64) -> bool {
        a == b
    }
    packable!(N);
}
/// int:N
pub struct Int<const N: u32>;
impl<const N: u32> Ty for Int<N> {
    type R = i64;
    fn fresh() -> i64 {
        (vbits(N) << (64 - N)) as i64 >> (64 - N)
    }
    fn put(v: &i64, b: &mut Bs) {
        b.i(*v, N)
    }
    fn same(a: &i64, b: &i64) -> bool {
        a == b
    }
    packable!(N);
}
macro_rules! varu {
    ($($name:ident $t:ty, $max:literal, $w:literal;)*) => { $(
        pub struct $name;
        impl Ty for $name {
            type R = $t;
            fn fresh() -> $t { vbits($w) as $t }
            fn put(v: &$t, b: &mut Bs) { b.varu(*v as u64, $max) }
            fn same(a: &$t, b: &$t) -> bool { a == b }
            const CHEAP: bool = true;
            packable!($w);
        }
    )* };
}
varu!(VU16 u16, 2, 15; VU32 u32, 4, 29; VU64 u64, 8, 57; VU u64, 9, 64; VSize u32, 5, 31;);
macro_rules! vari {
    ($($name:ident $t:ty, $max:literal, $w:literal;)*) => { $(
        pub struct $name;
        impl Ty for $name {
            type R = $t;
            fn fresh() -> $t {
                let v = (vbits($w) << (64 - $w)) as i64 >> (64 - $w);
                // one value less than two's complement has
                if $max != 9 {
                    assume(v != -(1i64 << ($w - 1)));
                }
                v as $t
            }
            fn put(v: &$t, b: &mut Bs) { b.vari(*v as i64, $max) }
            fn same(a: &$t, b: &$t) -> bool { a == b }
            const CHEAP: bool = true;
            packable!($w);
        }
    )* };
}
vari!(VI16 i16, 2, 15; VI32 i32, 4, 29; VI64 i64, 8, 57; VI i64, 9, 64;);
/// numbers of five bits
pub struct Few<R>(PhantomData<R>);
macro_rules! few {
    ($($t:ty),*) => { $(
        impl Ty for Few<$t> {
            type R = $t;
            fn fresh() -> $t {
                let v = vbits(5);
                if <$t>::MIN == 0 { v as $t } else { ((v << 59) as i64 >> 59) as $t }
            }
            fn put(_: &$t, _: &mut Bs) {}
            fn same(a: &$t, b: &$t) -> bool { a == b }
        }
    )* };
}
few!(u8, u16, u32, u64, i8, i16, i32, i64);
pub struct Bool;
impl Ty for Bool {
    type R = bool;
    fn fresh() -> bool {
        vbits(1) != 0
    }
    fn put(v: &bool, b: &mut Bs) {
        b.bool(*v)
    }
    fn same(a: &bool, b: &bool) -> bool {
        a == b
    }
}
pub struct F64;
impl Ty for F64 {
    type R = f64;
    fn fresh() -> f64 {
        f64::from_bits(vbits(64))
    }
    fn put(v: &f64, b: &mut Bs) {
        b.u(v.to_bits(), 64)
    }
    fn same(a: &f64, b: &f64) -> bool {
        a.to_bits() == b.to_bits()
    }
}
pub struct F32;
impl Ty for F32 {
    type R = f32;
    fn fresh() -> f32 {
        f32::from_bits(vbits(32) as u32)
    }
    fn put(v: &f32, b: &mut Bs) {
        b.u(v.to_bits() as u64, 32)
    }
    fn same(a: &f32, b: &f32) -> bool {
        a.to_bits() == b.to_bits()
    }
}
/// numbers a half represents exactly (normal, both signs)
pub struct F16;
impl Ty for F16 {
    type R = f32;
    fn fresh() -> f32 {
        let p = vbits(16) as u32;
        let e = p >> 10 & 31;
        if unsafe { FOCUS != ALL && FOCUS != UNIT - 1 } {
            return 1.5 + (p & 7) as f32;
        }
        assume(e != 0 && e != 31);
        f32::from_bits((p >> 15) << 31 | (e + 112) << 23 | (p & 0x3ff) << 13)
    }
    fn put(v: &f32, b: &mut Bs) {
        let x = v.to_bits();
        b.u((x >> 31) as u64, 1);
        b.u(((x >> 23 & 0xff) - 112) as u64, 5);
        b.u((x >> 13) as u64, 10)
    }
    /// as numbers: NaN equals NaN
    fn same(a: &f32, b: &f32) -> bool {
        let (x, y) = (a.to_bits(), b.to_bits());
        let nan = |z: u32| z & 0x7fff_ffff > 0x7f80_0000;
        x == y || nan(x) && nan(y)
    }
}
/// ASCII strings of 0 to 2 characters
pub struct Str;
impl Ty for Str {
    type R = String;
    fn fresh() -> String {
        let mut s = String::with_capacity(2);
        for _ in 0..vpick(3) {
            s.push(vbits(7) as u8 as char)
        }
        s
    }
    fn put(v: &String, b: &mut Bs) {
        b.string(v.as_bytes())
    }
    fn same(a: &String, b: &String) -> bool {
        eq(a.as_bytes(), b.as_bytes())
    }
}
/// 0 to 2 bytes
pub struct Bytes;
impl Ty for Bytes {
    type R = BytesType;
    fn fresh() -> BytesType {
        let n = vpick(3) as usize;
        BytesType { byte_size: n as u32, data_blob: vbytes(n) }
    }
    fn put(v: &BytesType, b: &mut Bs) {
        b.varsize(v.byte_size as u64);
        b.bytes(&v.data_blob[..v.byte_size as usize])
    }
    fn same(a: &BytesType, b: &BytesType) -> bool {
        a.byte_size == b.byte_size && eq(&a.data_blob, &b.data_blob)
    }
}
/// blobs of 0, 5 or 11 bits; the unused bits are zero
pub struct Extern;
impl Ty for Extern {
    type R = ExternType;
    fn fresh() -> ExternType {
        let n = [0u32, 5, 11][vpick(3) as usize];
        let mut d = vbytes((n as usize + 7) / 8);
        if n % 8 != 0 {
            let k = d.len() - 1;
            d[k] &= !(0xffu8 >> (n % 8));
        }
        ExternType { bit_size: n, data_blob: d }
    }
    fn put(v: &ExternType, b: &mut Bs) {
        b.varsize(v.bit_size as u64);
        let mut n = v.bit_size;
        for x in &v.data_blob {
            let k = n.min(8);
            b.u((x >> (8 - k)) as u64, k);
            n -= k;
        }
    }
    fn same(a: &ExternType, b: &ExternType) -> bool {
        a.bit_size == b.bit_size && eq(&a.data_blob, &b.data_blob)
    }
}
/// preceded by a presence bit
pub struct Opt<T>(PhantomData<T>);
impl<T: Ty> Ty for Opt<T> {
    type R = Option<T::R>;
    fn fresh() -> Self::R {
        if vpick(2) == 0 {
            None
        } else {
            Some(T::fresh())
        }
    }
    fn put(v: &Self::R, b: &mut Bs) {
        b.bool(v.is_some());
        if let Some(x) = v {
            T::put(x, b)
        }
    }
    fn same(a: &Self::R, b: &Self::R) -> bool {
        match (a, b) {
            (None, None) => true,
            (Some(x), Some(y)) => T::same(x, y),
            _ => false,
        }
    }
    fn slots() -> usize {
        T::slots()
    }
    fn pack(v: &Self::R, p: &mut Packer, mut b: Option<&mut Bs>) {
        if let Some(b) = &mut b {
            b.bool(v.is_some())
        }
        match v {
            Some(x) => T::pack(x, p, b),
            None => p.skip(T::slots()),
        }
    }
}
pub fn same_all<T: Ty>(a: &[T::R], b: &[T::R]) -> bool {
    let mut ok = a.len() == b.len();
    if ok {
        for i in 0..a.len() {
            ok &= T::same(&a[i], &b[i]);
        }
    }
    ok
}
/// T x[] with at most MAX elements
pub struct Arr<T, const MAX: u64>(PhantomData<T>);
impl<T: Ty, const MAX: u64> Ty for Arr<T, MAX> {
    type R = Vec<T::R>;
    fn fresh() -> Self::R {
        let n = vpick(MAX + 1);
        (0..n).map(|_| T::fresh()).collect()
    }
    fn put(v: &Self::R, b: &mut Bs) {
        b.varsize(v.len() as u64);
        for x in v {
            T::put(x, b)
        }
    }
    fn same(a: &Self::R, b: &Self::R) -> bool {
        same_all::<T>(a, b)
    }
    /// (an array within a packed array is packed itself)
    fn pack(v: &Self::R, _: &mut Packer, b: Option<&mut Bs>) {
        if let Some(b) = b {
            b.varsize(v.len() as u64);
            put_packed_objects::<T>(v, b)
        }
    }
}
/// T x[N]
pub struct Fix<T, const N: usize>(PhantomData<T>);
impl<T: Ty, const N: usize> Ty for Fix<T, N> {
    type R = Vec<T::R>;
    fn fresh() -> Self::R {
        (0..N).map(|_| T::fresh()).collect()
    }
    fn put(v: &Self::R, b: &mut Bs) {
        for x in v {
            T::put(x, b)
        }
    }
    fn same(a: &Self::R, b: &Self::R) -> bool {
        same_all::<T>(a, b)
    }
    fn pack(v: &Self::R, _: &mut Packer, b: Option<&mut Bs>) {
        if let Some(b) = b {
            put_packed_objects::<T>(v, b)
        }
    }
}
/// align(A): T x
pub struct Al<T, const A: u64>(PhantomData<T>);
impl<T: Ty, const A: u64> Ty for Al<T, A> {
    type R = T::R;
    fn fresh() -> T::R {
        T::fresh()
    }
    fn put(v: &T::R, b: &mut Bs) {
        b.align(A);
        T::put(v, b)
    }
    fn same(a: &T::R, b: &T::R) -> bool {
        T::same(a, b)
    }
    fn slots() -> usize {
        T::slots()
    }
    fn pack(v: &Self::R, p: &mut Packer, mut b: Option<&mut Bs>) {
        if let Some(b) = &mut b {
            b.align(A)
        }
        T::pack(v, p, b)
    }
}
/// Appends what the runtime writes for an array (whose own format C09 and C10 decide).
pub fn put_runtime<T: Clone + Default>(mut a: Array<T>, v: &Vec<T>, b: &mut Bs) {
    let mut w = BitWriter::new();
    let skip = b.len() % 8;
    w.write_u64(0, skip as u8).unwrap();
    a.zserio_write(&mut w, v, None::<&Vec<u32>>).unwrap();
    let n = w.bit_count();
    w.close().unwrap();
    let d = w.data();
    let mut i = skip;
    while i < n {
        b.b.push(d[(i / 8) as usize] >> (7 - i % 8) & 1);
        i += 1;
    }
}
/// packed bit:N / uintN arrays; FIXED is the length or -1
pub fn put_packed_u<T: Clone + Default>(v: &Vec<T>, bits: u8, fixed: Option<usize>, b: &mut Bs)
where
    UnsignedBitFieldArrayTrait: ArrayTrait<T>,
{
    put_runtime(Array { array_trait: Box::new(UnsignedBitFieldArrayTrait { num_bits: bits }), is_packed: true, fixed_size: fixed }, v, b)
}
pub fn put_packed_i<T: Clone + Default>(v: &Vec<T>, bits: u8, fixed: Option<usize>, b: &mut Bs)
where
    BitFieldArrayTrait: ArrayTrait<T>,
{
    put_runtime(Array { array_trait: Box::new(BitFieldArrayTrait { num_bits: bits }), is_packed: true, fixed_size: fixed }, v, b)
}

/// packed uintN x[] with at most MAX elements
pub struct PkU<T, const N: u8, const MAX: u64>(PhantomData<T>);
impl<T: Ty, const N: u8, const MAX: u64> Ty for PkU<T, N, MAX>
where
    UnsignedBitFieldArrayTrait: ArrayTrait<T::R>,
{
    type R = Vec<T::R>;
    fn fresh() -> Self::R {
        Arr::<T, MAX>::fresh()
    }
    fn put(v: &Self::R, b: &mut Bs) {
        put_packed_u(v, N, None, b)
    }
    fn same(a: &Self::R, b: &Self::R) -> bool {
        same_all::<T>(a, b)
    }
}

/// packed intN x[LEN]
pub struct PkIF<T, const N: u8, const LEN: usize>(PhantomData<T>);
impl<T: Ty, const N: u8, const LEN: usize> Ty for PkIF<T, N, LEN>
where
    BitFieldArrayTrait: ArrayTrait<T::R>,
{
    type R = Vec<T::R>;
    fn fresh() -> Self::R {
        Fix::<T, LEN>::fresh()
    }
    fn put(v: &Self::R, b: &mut Bs) {
        put_packed_i(v, N, Some(LEN), b)
    }
    fn same(a: &Self::R, b: &Self::R) -> bool {
        same_all::<T>(a, b)
    }
}

/// A generated type with its meaning in the schema.
pub trait Model: ZserioPackableObject + Clone + Default {
    fn any() -> Self;
    fn wire(&self, b: &mut Bs);
    fn alike(&self, o: &Self) -> bool;
    /// see Ty::slots and Ty::pack
    fn slots() -> usize {
        0
    }
    fn pack(&self, _: &mut Packer, b: Option<&mut Bs>) {
        if let Some(b) = b {
            self.wire(b)
        }
    }
    /// an object to read into, given the same parameters
    fn any_params() -> Self {
        Self::default()
    }
    fn blank(&self) -> Self {
        Self::default()
    }
    /// takes over the parameters
    fn adopt(&mut self, _: &Self) {}
}
/// A parameterised type: any value for given parameters
pub trait Given: Model {
    fn filled(x: Self) -> Self;
    fn given(set: impl FnOnce(&mut Self)) -> Self {
        let mut x = Self::default();
        set(&mut x);
        Self::filled(x)
    }
}
pub trait Enum: Model + PartialEq {
    type B: Ty;
    fn items() -> Vec<(Self, <Self::B as Ty>::R)>;
}
pub trait Mask: Model {
    type B: Ty;
    fn make(v: <Self::B as Ty>::R) -> Self;
    fn get(&self) -> <Self::B as Ty>::R;
}
/// A field of generated type X
pub struct M<X>(PhantomData<X>);
impl<X: Model> Ty for M<X> {
    type R = X;
    fn fresh() -> X {
        X::any()
    }
    fn put(v: &X, b: &mut Bs) {
        v.wire(b)
    }
    fn same(a: &X, b: &X) -> bool {
        a.alike(b)
    }
    fn slots() -> usize {
        X::slots()
    }
    fn pack(v: &X, p: &mut Packer, b: Option<&mut Bs>) {
        v.pack(p, b)
    }
}
/// A structure whose fields are all unconditional: name { field: schema type, ... }
#[macro_export]
macro_rules! model {
    ($t:ty { $($f:ident : $ty:ty),* $(,)? }) => {
        impl $crate::types::Model for $t {
            fn any() -> Self {
                $( let $f = <$ty as $crate::types::Ty>::fresh(); )*
                #[allow(clippy::needless_update)]
                Self { $($f,)* ..Default::default() }
            }
            #[allow(unused_variables)]
            fn wire(&self, b: &mut sup::Bs) {
                $( <$ty as $crate::types::Ty>::put(&self.$f, b); )*
            }
            #[allow(unused_variables)]
            fn alike(&self, o: &Self) -> bool {
                true $( & <$ty as $crate::types::Ty>::same(&self.$f, &o.$f) )*
            }
            fn slots() -> usize {
                0 $( + <$ty as $crate::types::Ty>::slots() )*
            }
            #[allow(unused_variables, unused_mut)]
            fn pack(&self, p: &mut $crate::types::Packer, mut b: Option<&mut sup::Bs>) {
                $( <$ty as $crate::types::Ty>::pack(&self.$f, p, b.as_deref_mut()); )*
            }
        }
    };
}
/// A structure with conditional fields: fields at the front, then field: type => |s| condition
#[macro_export]
macro_rules! cond_model {
    ($t:ty [$($p:ident : $pt:ty),*] { $($f:ident : $ty:ty $(=> |$s:ident| $c:expr)?),* $(,)? }) => {
        impl $crate::types::Given for $t {
            fn filled(mut x: Self) -> Self {
                $( $crate::cond_model!(@any x $f $ty $(, $s $c)?); )*
                x
            }
        }
        impl $crate::types::Model for $t {
            fn any() -> Self {
                <Self as $crate::types::Given>::filled(Self::any_params())
            }
            #[allow(unused_mut)]
            fn any_params() -> Self {
                let mut x = Self::default();
                $( x.$p = <$pt as $crate::types::Ty>::fresh(); )*
                x
            }
            #[allow(unused_mut)]
            fn blank(&self) -> Self {
                let mut x = Self::default();
                $( x.$p = self.$p.clone(); )*
                x
            }
            #[allow(unused_variables)]
            fn adopt(&mut self, o: &Self) {
                $( self.$p = o.$p.clone(); )*
            }
            fn wire(&self, b: &mut sup::Bs) {
                $( if $crate::cond_model!(@if self $(, $s $c)?) { <$ty as $crate::types::Ty>::put(&self.$f, b); } )*
            }
            fn alike(&self, o: &Self) -> bool {
                let mut ok = true;
                $( ok &= <$pt as $crate::types::Ty>::same(&self.$p, &o.$p); )*
                $( if $crate::cond_model!(@if self $(, $s $c)?) { ok &= <$ty as $crate::types::Ty>::same(&self.$f, &o.$f); } )*
                ok
            }
            fn slots() -> usize {
                0 $( + <$ty as $crate::types::Ty>::slots() )*
            }
            #[allow(unused_mut, unused_variables)]
            fn pack(&self, p: &mut $crate::types::Packer, mut b: Option<&mut sup::Bs>) {
                $( if $crate::cond_model!(@if self $(, $s $c)?) {
                    <$ty as $crate::types::Ty>::pack(&self.$f, p, b.as_deref_mut());
                } else {
                    p.skip(<$ty as $crate::types::Ty>::slots());
                } )*
            }
        }
    };
    (@if $x:ident) => { true };
    (@if $x:ident, $s:ident $c:expr) => {{ let $s = $x; $c }};
    (@any $x:ident $f:ident $ty:ty) => { $x.$f = <$ty as $crate::types::Ty>::fresh(); };
    // mostly left alone when absent; numbers may hold anything then
    (@any $x:ident $f:ident $ty:ty, $s:ident $c:expr) => {
        let present = { let $s = &$x; $c };
        if present || <$ty as $crate::types::Ty>::CHEAP { $x.$f = <$ty as $crate::types::Ty>::fresh(); }
    };
}
/// An enum: every item with its value, written as type $b
#[macro_export]
macro_rules! enum_model {
    ($t:ty : $b:ty { $($i:ident = $v:expr),* $(,)? }) => {
        impl $crate::types::Enum for $t {
            type B = $b;
            fn items() -> Vec<(Self, <$b as $crate::types::Ty>::R)> {
                vec![$( (<$t>::$i, $v) ),*]
            }
        }
        impl $crate::types::Model for $t {
            fn any() -> Self {
                const ALL: &[$t] = &[$(<$t>::$i),*];
                ALL[$crate::types::epick(ALL.len() as u64) as usize]
            }
            fn wire(&self, b: &mut sup::Bs) {
                let v = match self { $( <$t>::$i => $v, )* };
                <$b as $crate::types::Ty>::put(&v, b)
            }
            fn alike(&self, o: &Self) -> bool {
                self == o
            }
            fn slots() -> usize {
                1
            }
            fn pack(&self, p: &mut $crate::types::Packer, b: Option<&mut sup::Bs>) {
                let v: <$b as $crate::types::Ty>::R = match self { $( <$t>::$i => $v, )* };
                <$b as $crate::types::Ty>::pack(&v, p, b)
            }
        }
    };
}
/// A bitmask, written as type $b; any combination of bits
#[macro_export]
macro_rules! mask_model {
    ($t:ty : $b:ty) => {
        impl $crate::types::Mask for $t {
            type B = $b;
            fn make(v: <$b as $crate::types::Ty>::R) -> Self {
                <$t>::from(v)
            }
            fn get(&self) -> <$b as $crate::types::Ty>::R {
                self.bits()
            }
        }
        impl $crate::types::Model for $t {
            fn any() -> Self {
                <$t>::from(<$b as $crate::types::Ty>::fresh())
            }
            fn wire(&self, b: &mut sup::Bs) {
                <$b as $crate::types::Ty>::put(&self.bits(), b)
            }
            fn alike(&self, o: &Self) -> bool {
                self.bits() == o.bits()
            }
            fn slots() -> usize {
                1
            }
            fn pack(&self, p: &mut $crate::types::Packer, b: Option<&mut sup::Bs>) {
                <$b as $crate::types::Ty>::pack(&self.bits(), p, b)
            }
        }
    };
}

/// A structure or choice with fields of parameterised types: `type [parameters] (x i) { fields }`.
/// A field is (T), obj(X, settings), list(X, length, settings), auto(X, largest length, settings),
/// opt(X, settings), bits(width) or elems(T, length), then perhaps `if (condition)`. In lengths, settings and conditions `x` is the
/// object as far as it is filled and `i` the index of an element.
#[macro_export]
macro_rules! deep_model {
    ($t:ty [$($p:ident : $pt:ty),*] ($x:ident $i:ident) { $($f:ident : $kind:ident ( $($arg:tt)* ) $(if ($c:expr))?),* $(,)? }) => {
        impl $crate::types::Given for $t {
            #[allow(unused_mut, unused_variables)]
            fn filled(mut $x: Self) -> Self {
                $( if true $( && $c )? { $crate::deep_model!(@any $x $i $f $kind $($arg)*); } )*
                $x
            }
        }
        impl $crate::types::Model for $t {
            fn any() -> Self {
                <Self as $crate::types::Given>::filled(Self::any_params())
            }
            #[allow(unused_mut)]
            fn any_params() -> Self {
                let mut x = Self::default();
                $( x.$p = <$pt as $crate::types::Ty>::fresh(); )*
                x
            }
            #[allow(unused_mut)]
            fn blank(&self) -> Self {
                let mut x = Self::default();
                $( x.$p = self.$p.clone(); )*
                x
            }
            #[allow(unused_variables)]
            fn adopt(&mut self, o: &Self) {
                $( self.$p = o.$p.clone(); )*
            }
            #[allow(unused_variables)]
            fn wire(&self, b: &mut sup::Bs) {
                let $x = self;
                $( if true $( && $c )? { $crate::deep_model!(@wire $x b $f $kind $($arg)*); } )*
            }
            #[allow(unused_variables)]
            fn alike(&self, o: &Self) -> bool {
                let $x = self;
                let mut ok = true;
                $( ok &= <$pt as $crate::types::Ty>::same(&self.$p, &o.$p); )*
                $( if true $( && $c )? { ok &= $crate::deep_model!(@same $x o $f $kind $($arg)*); } )*
                ok
            }
            fn slots() -> usize {
                0 $( + $crate::deep_model!(@slots $kind $($arg)*) )*
            }
            #[allow(unused_mut, unused_variables)]
            fn pack(&self, p: &mut $crate::types::Packer, mut b: Option<&mut sup::Bs>) {
                let $x = self;
                $( if true $( && $c )? {
                    $crate::deep_model!(@pack $x p b $f $kind $($arg)*);
                } else {
                    p.skip($crate::deep_model!(@slots $kind $($arg)*));
                } )*
            }
        }
    };
    (@slots ty $T:ty) => { <$T as $crate::types::Ty>::slots() };
    (@slots bits $n:expr) => { 1 };
    (@slots ibits $n:expr) => { 1 };
    (@slots obj $X:ty, $($s:tt)*) => { <$X as $crate::types::Model>::slots() };
    (@slots opt $X:ty, $($s:tt)*) => { <$X as $crate::types::Model>::slots() };
    (@slots $k:ident $($s:tt)*) => { 0 };
    (@pack $x:ident $p:ident $b:ident $f:ident ty $T:ty) => { <$T as $crate::types::Ty>::pack(&$x.$f, $p, $b.as_deref_mut()); };
    (@pack $x:ident $p:ident $b:ident $f:ident bits $n:expr) => {
        $p.number($x.$f as i128, false, |b| b.u($x.$f, sup::conc($n) as u32), $b.as_deref_mut());
    };
    (@pack $x:ident $p:ident $b:ident $f:ident ibits $n:expr) => {
        $p.number($x.$f as i128, false, |b| b.i($x.$f, sup::conc($n) as u32), $b.as_deref_mut());
    };
    (@pack $x:ident $p:ident $b:ident $f:ident elems $T:ty, $n:expr) => {
        if let Some(b) = $b.as_deref_mut() { $crate::types::put_packed_objects::<$T>(&$x.$f, b); }
    };
    (@pack $x:ident $p:ident $b:ident $f:ident list $X:ty, $($r:tt)*) => {
        if let Some(b) = $b.as_deref_mut() { $crate::types::put_packed_objects::<$crate::types::M<$X>>(&$x.$f, b); }
    };
    (@pack $x:ident $p:ident $b:ident $f:ident auto $X:ty, $($r:tt)*) => {
        if let Some(b) = $b.as_deref_mut() { b.varsize($x.$f.len() as u64); $crate::types::put_packed_objects::<$crate::types::M<$X>>(&$x.$f, b); }
    };
    (@pack $x:ident $p:ident $b:ident $f:ident obj $($r:tt)*) => { $x.$f.pack($p, $b.as_deref_mut()); };
    (@pack $x:ident $p:ident $b:ident $f:ident opt $X:ty, $($r:tt)*) => {
        <$crate::types::Opt<$crate::types::M<$X>> as $crate::types::Ty>::pack(&$x.$f, $p, $b.as_deref_mut());
    };
    (@pack $x:ident $p:ident $b:ident $f:ident $k:ident $($r:tt)*) => {
        if let Some(b) = $b.as_deref_mut() { $crate::deep_model!(@wire $x b $f $k $($r)*); }
    };
    (@new $X:ty, $($p:ident = $e:expr),*) => {{
        let mut y = <$X>::default();
        $( y.$p = $e; )*
        <$X as $crate::types::Given>::filled(y)
    }};
    (@any $x:ident $i:ident $f:ident ty $T:ty) => { $x.$f = <$T as $crate::types::Ty>::fresh(); };
    (@any $x:ident $i:ident $f:ident bits $n:expr) => { $x.$f = $crate::types::vbits(sup::conc($n) as u32); };
    (@wire $x:ident $b:ident $f:ident bits $n:expr) => { $b.u($x.$f, sup::conc($n) as u32); };
    (@same $x:ident $o:ident $f:ident bits $n:expr) => { $x.$f == $o.$f };
    (@any $x:ident $i:ident $f:ident elems $T:ty, $n:expr) => {
        for _ in 0..$n { let e = <$T as $crate::types::Ty>::fresh(); $x.$f.push(e); }
    };
    (@any $x:ident $i:ident $f:ident obj $X:ty, $($s:tt)*) => { $x.$f = $crate::deep_model!(@new $X, $($s)*); };
    (@any $x:ident $i:ident $f:ident opt $X:ty, $($s:tt)*) => {
        if $crate::types::vpick(2) != 0 { $x.$f = Some($crate::deep_model!(@new $X, $($s)*)); }
    };
    (@any $x:ident $i:ident $f:ident list $X:ty, $n:expr, $($s:tt)*) => {
        for $i in 0..$n as usize { $crate::types::element(); let e = $crate::deep_model!(@new $X, $($s)*); $x.$f.push(e); }
    };
    (@any $x:ident $i:ident $f:ident auto $X:ty, $n:expr, $($s:tt)*) => {
        for $i in 0..$crate::types::vpick($n + 1) as usize { $crate::types::element(); let e = $crate::deep_model!(@new $X, $($s)*); $x.$f.push(e); }
    };
    (@any $x:ident $i:ident $f:ident ibits $n:expr) => {{
        let n = sup::conc($n) as u32;
        $x.$f = ($crate::types::vbits(n) << (64 - n)) as i64 >> (64 - n);
    }};
    (@wire $x:ident $b:ident $f:ident ibits $n:expr) => { $b.i($x.$f, sup::conc($n) as u32); };
    (@same $x:ident $o:ident $f:ident ibits $n:expr) => { $x.$f == $o.$f };
    (@any $x:ident $i:ident $f:ident pelems $($r:tt)*) => { $crate::deep_model!(@any $x $i $f elems $($r)*); };
    (@same $x:ident $o:ident $f:ident pelems $($r:tt)*) => { $crate::deep_model!(@same $x $o $f elems $($r)*) };
    (@wire $x:ident $b:ident $f:ident pelems $T:ty, $n:expr) => { $crate::types::put_packed_objects::<$T>(&$x.$f, $b); };
    (@any $x:ident $i:ident $f:ident plist $($r:tt)*) => { $crate::deep_model!(@any $x $i $f list $($r)*); };
    (@same $x:ident $o:ident $f:ident plist $($r:tt)*) => { $crate::deep_model!(@same $x $o $f list $($r)*) };
    (@wire $x:ident $b:ident $f:ident plist $X:ty, $($r:tt)*) => { $crate::types::put_packed_objects::<$crate::types::M<$X>>(&$x.$f, $b); };
    (@any $x:ident $i:ident $f:ident list8 $($r:tt)*) => { $crate::deep_model!(@any $x $i $f list $($r)*); };
    (@same $x:ident $o:ident $f:ident list8 $($r:tt)*) => { $crate::deep_model!(@same $x $o $f list $($r)*) };
    (@wire $x:ident $b:ident $f:ident list8 $($r:tt)*) => { for e in &$x.$f { $b.align(8); e.wire($b); } };
    (@any $x:ident $i:ident $f:ident at $A:literal, $k:ident $($r:tt)*) => { $crate::deep_model!(@any $x $i $f $k $($r)*); };
    (@same $x:ident $o:ident $f:ident at $A:literal, $k:ident $($r:tt)*) => { $crate::deep_model!(@same $x $o $f $k $($r)*) };
    (@wire $x:ident $b:ident $f:ident at $A:literal, $k:ident $($r:tt)*) => { $b.align($A); $crate::deep_model!(@wire $x $b $f $k $($r)*); };
    (@any $x:ident $i:ident $f:ident packed $($r:tt)*) => { $crate::deep_model!(@any $x $i $f auto $($r)*); };
    (@same $x:ident $o:ident $f:ident packed $($r:tt)*) => { $crate::deep_model!(@same $x $o $f auto $($r)*) };
    (@wire $x:ident $b:ident $f:ident packed $X:ty, $($r:tt)*) => { $b.varsize($x.$f.len() as u64); $crate::types::put_packed_objects::<$crate::types::M<$X>>(&$x.$f, $b); };
    (@wire $x:ident $b:ident $f:ident ty $T:ty) => { <$T as $crate::types::Ty>::put(&$x.$f, $b); };
    (@wire $x:ident $b:ident $f:ident elems $T:ty, $n:expr) => { for e in &$x.$f { <$T as $crate::types::Ty>::put(e, $b); } };
    (@wire $x:ident $b:ident $f:ident obj $($r:tt)*) => { $x.$f.wire($b); };
    (@wire $x:ident $b:ident $f:ident opt $($r:tt)*) => {
        $b.bool($x.$f.is_some());
        if let Some(e) = &$x.$f { e.wire($b); }
    };
    (@wire $x:ident $b:ident $f:ident list $($r:tt)*) => { for e in &$x.$f { e.wire($b); } };
    (@wire $x:ident $b:ident $f:ident auto $($r:tt)*) => { $b.varsize($x.$f.len() as u64); for e in &$x.$f { e.wire($b); } };
    (@same $x:ident $o:ident $f:ident ty $T:ty) => { <$T as $crate::types::Ty>::same(&$x.$f, &$o.$f) };
    (@same $x:ident $o:ident $f:ident elems $T:ty, $n:expr) => { $crate::types::same_all::<$T>(&$x.$f, &$o.$f) };
    (@same $x:ident $o:ident $f:ident obj $($r:tt)*) => { $x.$f.alike(&$o.$f) };
    (@same $x:ident $o:ident $f:ident opt $X:ty, $($r:tt)*) => { <$crate::types::Opt<$crate::types::M<$X>> as $crate::types::Ty>::same(&$x.$f, &$o.$f) };
    (@same $x:ident $o:ident $f:ident list $X:ty, $($r:tt)*) => { $crate::types::same_all::<$crate::types::M<$X>>(&$x.$f, &$o.$f) };
    (@same $x:ident $o:ident $f:ident auto $X:ty, $($r:tt)*) => { $crate::types::same_all::<$crate::types::M<$X>>(&$x.$f, &$o.$f) };
}
