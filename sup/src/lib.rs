//! Support for harnesses that run both symbolically (as LLVM IR under zsym) and natively (replay).
#![allow(clippy::all)]
pub use bitreader::BitReader;
pub use rust_bitwriter::BitWriter;

extern "C-unwind" {
    fn zsym_bits(n: u32) -> u64;
    fn zsym_bytes(p: *mut u8, n: u64);
    fn zsym_assume(b: bool);
    fn zsym_assert(b: bool, id: u32);
    fn zsym_cover(id: u32);
    fn zsym_log(v: u64);
    fn zsym_concretize(v: u64) -> u64;
    fn zsym_heap_max() -> u64;
    fn zsym_opt(id: u32) -> u64;
}

/// A fresh symbolic value of `n` bits.
#[inline(never)]
pub fn bits(n: u32) -> u64 {
    if n == 0 {
        return 0;
    }
    unsafe { zsym_bits(n) }
}
/// `n` fresh symbolic bytes.
#[inline(never)]
pub fn bytes(n: usize) -> Vec<u8> {
    let mut v = vec![0u8; n];
    unsafe { zsym_bytes(v.as_mut_ptr(), n as u64) };
    v
}
pub fn assume(b: bool) {
    unsafe { zsym_assume(b) }
}
/// Forks over the feasible values of `v`.
pub fn conc(v: u64) -> u64 {
    unsafe { zsym_concretize(v) }
}
/// A case number in 0..n, one path each.
#[inline(never)]
pub fn pick(n: u64) -> u64 {
    if n <= 1 {
        return 0;
    }
    let w = 64 - (n - 1).leading_zeros();
    let v = bits(w);
    assume(v < n);
    conc(v)
}
pub fn log(v: u64) {
    unsafe { zsym_log(v) }
}
pub fn cover(id: u32) {
    unsafe { zsym_cover(id) }
}
pub fn heap_max() -> u64 {
    unsafe { zsym_heap_max() }
}
/// Tier-dependent bound `id` (a concrete constant of this run).
pub fn opt(id: u32) -> u64 {
    unsafe { zsym_opt(id) }
}
/// From here on texts are really formatted (elsewhere, in error messages, they count as empty).
pub fn real_text() {
    opt(1000);
}
/// 0 in the quick tier, 1 in the thorough tier.
pub fn thorough() -> bool {
    opt(0) != 0
}

pub const fn fid(s: &str) -> u32 {
    let b = s.as_bytes();
    let mut h: u32 = 7;
    let mut i = 0;
    while i < b.len() {
        h = (h * 31 + b[i] as u32) % 40009;
        i += 1;
    }
    h * 100000
}
#[inline(never)]
pub fn chk(c: bool, id: u32, msg: &'static str) {
    #[cfg(feature = "native")]
    native::note(c, msg);
    let _ = msg;
    unsafe { zsym_assert(c, id) }
}
/// The assertion of a harness: must hold on every path.
#[macro_export]
macro_rules! check {
    ($c:expr, $m:literal) => {{
        const ID: u32 = $crate::fid(file!()) + line!();
        $crate::chk($c, ID, concat!(file!(), ":", line!(), ": ", $m))
    }};
}
/// Unwraps an Ok; an Err is a property violation.
#[macro_export]
macro_rules! must {
    ($e:expr, $m:literal) => {
        match $e {
            Ok(v) => v,
            Err(_) => {
                $crate::check!(false, $m);
                return;
            }
        }
    };
}
/// Marks a point that some path must reach (vacuity guard).
#[macro_export]
macro_rules! reach {
    () => {{
        const ID: u32 = $crate::fid(file!()) + line!();
        $crate::cover(ID)
    }};
}
/// Defines harness entry points and the table used by native replay.
#[macro_export]
macro_rules! harnesses {
    ($($name:ident),* $(,)?) => {
        pub mod entry {
            $( #[no_mangle] pub extern "C" fn $name() { super::$name() } )*
        }
        pub const TABLE: &[(&str, fn())] = &[ $( (stringify!($name), $name as fn()) ),* ];
    };
}

/// Branch-free equality, one assertion for the solver instead of a fork per byte.
#[inline(never)]
pub fn eq(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut d = 0u8;
    for i in 0..a.len() {
        d |= a[i] ^ b[i];
    }
    d == 0
}

/// Reference bit string: one bit per byte, most significant first. Deliberately naive.
#[derive(Clone, Default)]
pub struct Bs {
    pub b: Vec<u8>,
}
impl Bs {
    pub fn new() -> Bs {
        Bs { b: Vec::with_capacity(64) }
    }
    pub fn len(&self) -> u64 {
        self.b.len() as u64
    }
    /// the n low bits of v
    pub fn u(&mut self, v: u64, n: u32) {
        let mut i = n;
        while i > 0 {
            i -= 1;
            self.b.push(((v >> i) & 1) as u8);
        }
    }
    pub fn i(&mut self, v: i64, n: u32) {
        self.u(v as u64, n)
    }
    pub fn bool(&mut self, v: bool) {
        self.u(v as u64, 1)
    }
    pub fn align(&mut self, n: u64) {
        while self.len() % n != 0 {
            self.b.push(0);
        }
    }
    pub fn bytes(&mut self, v: &[u8]) {
        for x in v {
            self.u(*x as u64, 8)
        }
    }
    /// variable-length unsigned integer of at most `max` bytes; v must be in range
    pub fn varu(&mut self, v: u64, max: u32) {
        let n = varu_len(v, max);
        for k in 0..n {
            // bits that follow this byte's payload
            let rest = n - 1 - k;
            let last = rest == 0;
            if n == max {
                if last {
                    self.u(v, 8)
                } else {
                    self.u(1, 1);
                    self.u(v >> (8 + 7 * (rest - 1)), 7)
                }
            } else {
                self.u(!last as u64, 1);
                self.u(v >> (7 * rest), 7)
            }
        }
    }
    /// variable-length signed integer of at most `max` bytes; v must be in range
    pub fn vari(&mut self, v: i64, max: u32) {
        if max == 9 && v == i64::MIN {
            self.u(0x80, 8);
            return;
        }
        let neg = v < 0;
        let a = v.unsigned_abs();
        let n = vari_len(a, max);
        self.bool(neg);
        for k in 0..n {
            let rest = n - 1 - k;
            let last = rest == 0;
            let p = if k == 0 { 6 } else { 7 };
            if n == max {
                if last {
                    self.u(a, 8)
                } else {
                    self.u(1, 1);
                    self.u(a >> (8 + 7 * (rest - 1)), p)
                }
            } else {
                self.u(!last as u64, 1);
                self.u(a >> (7 * rest), p)
            }
        }
    }
    pub fn varsize(&mut self, v: u64) {
        self.varu(v, 5)
    }
    pub fn string(&mut self, v: &[u8]) {
        self.varsize(v.len() as u64);
        self.bytes(v)
    }
    pub fn pack(&self) -> Vec<u8> {
        let n = self.b.len();
        let mut o = Vec::with_capacity((n + 7) / 8);
        let mut i = 0;
        while i < n {
            let mut x = 0u8;
            for k in 0..8 {
                x <<= 1;
                if i + k < n {
                    x |= self.b[i + k];
                }
            }
            o.push(x);
            i += 8;
        }
        o
    }
}
/// Bytes the zserio format needs for v (shortest form); v must be in range.
pub fn varu_len(v: u64, max: u32) -> u32 {
    let mut n = 1;
    while n < max && v >> (7 * n) != 0 {
        n += 1;
    }
    n
}
/// bits available in `max` bytes
pub fn varu_range(max: u32) -> u32 {
    7 * (max - 1) + 8
}
pub fn vari_len(a: u64, max: u32) -> u32 {
    let mut n = 1;
    while n < max && a >> (7 * n - 1) != 0 {
        n += 1;
    }
    n
}
pub fn vari_range(max: u32) -> u32 {
    6 + 7 * (max - 2) + 8
}

/// A bit position inside a stream: `off` leading bits with arbitrary contents.
pub struct Frame {
    pub off: u32,
    pub pre: u64,
    pub tail: u64,
}
pub fn frame_at(off: u32) -> Frame {
    Frame { off, pre: bits(off), tail: bits(7) }
}
/// every offset within a byte, one path each
pub fn frame() -> Frame {
    let off = pick(8) as u32;
    frame_at(off)
}
/// offset 0 or 3 only (where the offset is not the point)
pub fn frame2() -> Frame {
    let off = pick(2) as u32 * 3;
    frame_at(off)
}
impl Frame {
    pub fn open(&self, w: &mut BitWriter) {
        w.write_u64(self.pre, self.off as u8).unwrap();
    }
    /// number of payload bits so far
    pub fn written(&self, w: &BitWriter) -> u64 {
        w.bit_count() - self.off as u64
    }
    pub fn close(&self, mut w: BitWriter) -> Vec<u8> {
        w.write_u64(self.tail, 7).unwrap();
        w.close().unwrap();
        let v = w.data().clone();
        logb(&v);
        v
    }
    pub fn reference(&self, payload: &Bs) -> Vec<u8> {
        let mut b = Bs::new();
        b.u(self.pre, self.off);
        b.b.extend_from_slice(&payload.b);
        b.u(self.tail, 7);
        b.pack()
    }
    pub fn open_ref(&self) -> Bs {
        let mut b = Bs::new();
        b.u(self.pre, self.off);
        b
    }
    pub fn close_ref(&self, mut b: Bs) -> Vec<u8> {
        b.u(self.tail, 7);
        b.pack()
    }
    pub fn reader<'a>(&self, d: &'a [u8]) -> BitReader<'a> {
        let mut r = BitReader::new(d);
        let p = r.read_u64(self.off as u8).unwrap();
        check!(p == self.pre, "the bits in front were changed");
        r
    }
    /// the reader stands right behind `n` payload bits and the tail is intact
    pub fn at_end(&self, r: &mut BitReader, n: u64) -> bool {
        r.position() == self.off as u64 + n && r.read_u64(7).unwrap() == self.tail
    }
}
/// logs a byte vector (compared between symbolic and native runs)
pub fn logb(v: &[u8]) {
    log(v.len() as u64);
    for x in v {
        log(*x as u64)
    }
}

#[cfg(feature = "native")]
pub mod native;
