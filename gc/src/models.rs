//! The schema corpus (/verif/schemas), once more as reference models.
use crate::types::*;
use crate::{cond_model, deep_model, enum_model, mask_model, model, packable};
use gcmodel::*;
use sup::*;

// ------------------------------------------------------------ base
model!(base::Point { x: I16, y: Bit<5> });
enum_model!(base::Kind : U8 { None = 0, First = 3, Second = 4, Last = 200 });
mask_model!(base::Flags: U8);
pub type Point = M<base::Point>;
pub type Kind = M<base::Kind>;
pub type Flags = M<base::Flags>;

macro_rules! like {
    ($($n:ident: $t:ty = $r:ty, $any:expr;)*) => { $(
        pub struct $n;
        impl Ty for $n {
            type R = $r;
            fn fresh() -> $r {
                $any
            }
            fn put(v: &$r, b: &mut Bs) {
                <$t>::put(v, b)
            }
            fn same(a: &$r, b: &$r) -> bool {
                <$t>::same(a, b)
            }
            fn slots() -> usize {
                <$t>::slots()
            }
            fn pack(v: &$r, p: &mut Packer, b: Option<&mut Bs>) {
                <$t>::pack(v, p, b)
            }
        }
    )* };
}
like!(
    UpTo2: U8 = u8, vpick(3) as u8;
    UpTo2Bits: Bit<4> = u64, vpick(3);
    Widths: U8 = u8, [1u8, 7, 8, 33, 64][vpick(5) as usize];
);

// ------------------------------------------------------------ structs
model!(structs::Ints { a: U8, b: I8, c: U16, d: I16, e: U32, f: I32, g: U64, h: I64 });
model!(structs::Fields { a: Bit<1>, b: Int<1>, c: Bit<7>, d: Int<5>, e: Bit<33>, f: Int<48>, g: Bit<64>, h: Int<64> });
model!(structs::Vars { a: VU16, b: VI16, c: VU32, d: VSize });
model!(structs::Vars2 { a: VI32, b: VU64 });
model!(structs::Vars3 { a: VI64, b: VU });
model!(structs::Vars4 { a: VI, b: Bool });
model!(structs::Reals { a: Bool, b: F64, c: F32, d: Bool });
model!(structs::Halves { a: F16, b: Bit<1> });
model!(structs::Blobs { a: Bit<1>, s: Str, b: Bytes, e: Extern, z: U8 });
model!(structs::Aligned { a: Bit<3>, b: Al<Bit<5>, 8>, c: Bool, d: Al<U8, 32>, e: Al<Point, 16>, f: Bit<1>, g: Al<Arr<Bit<2>, 2>, 8> });
model!(structs::Nested { p: Point, q: Bit<3>, k: Kind, f: Flags, r: Point });
model!(structs::Arrays2 { a: Fix<Kind, 2>, b: Arr<Str, 1>, c: Arr<Bool, 3>, d: Fix<VU16, 2> });
model!(structs::Empty {});
model!(structs::HasEmpty { a: U8, e: M<structs::Empty>, b: U8 });
model!(structs::Names { z_type: U8, camel_case_1: U8, z_self: U8, x_y: U8 });

deep_model!(structs::Arrays [] (x i) {
    a: ty(Arr<U8, 2>),
    b: ty(Fix<Bit<3>, 2>),
    n: ty(UpTo2),
    c: elems(I16, conc(x.n as u64)),
    d: ty(Arr<Point, 1>),
});
deep_model!(structs::PackedIn [] (x i) {
    n: ty(UpTo2Bits),
    a: ty(PkU<U16, 16, 2>),
    b: pelems(I8, conc(x.n)),
    c: pelems(Bit<7>, 2),
});
deep_model!(structs::DynBits [] (x i) {
    n: ty(Widths),
    a: bits(x.n as u64),
    b: ibits(x.n as u64),
    z: ty(Bit<1>),
});
/// some values of an integer type
macro_rules! few {
    ($($n:ident: $r:ty, $t:ty, $($v:expr),*;)*) => { $(
        pub struct $n;
        impl Ty for $n {
            type R = $r;
            fn fresh() -> $r {
                let v: &[$r] = &[$($v),*];
                v[vpick(v.len() as u64) as usize]
            }
            fn put(v: &$r, b: &mut Bs) {
                <$t>::put(v, b)
            }
            fn same(a: &$r, b: &$r) -> bool {
                a == b
            }
            fn slots() -> usize {
                1
            }
            fn pack(v: &$r, p: &mut Packer, b: Option<&mut Bs>) {
                <$t>::pack(v, p, b)
            }
        }
    )* };
}
few!(FewN: u16, U16, 1, 12; FewW: u32, VU32, 3, 33; FewS: i8, I8, 5, 64;);
deep_model!(structs::DynWide [] (x i) {
    n: ty(FewN),
    w: ty(FewW),
    s: ty(FewS),
    a: bits(x.n as u64),
    b: ibits(x.w as u64),
    c: bits(x.s as u64),
    d: ibits(x.n as u64 + x.w as u64),
    z: ty(Bit<1>),
});
/// widths 1 and 12 (one more for b)
impl Model for structs::DynArr {
    fn any() -> Self {
        let n = [1u32, 12][vpick(2) as usize];
        let k = vpick(3);
        let i = || (vbits(n + 1) << (63 - n)) as i64 >> (63 - n);
        structs::DynArr { n: n as u8, a: vec![vbits(n), vbits(n)], b: (0..k).map(|_| i()).collect() }
    }
    fn wire(&self, b: &mut Bs) {
        U8::put(&self.n, b);
        for x in &self.a {
            b.u(*x, self.n as u32)
        }
        b.varsize(self.b.len() as u64);
        for x in &self.b {
            b.i(*x, self.n as u32 + 1)
        }
    }
    fn alike(&self, o: &Self) -> bool {
        (self.n == o.n) & same_all::<U64>(&self.a, &o.a) & same_all::<I64>(&self.b, &o.b)
    }
}

// ------------------------------------------------------------ offsets
/// 0 to 2 items, each from a byte boundary on
pub struct ByteItems<T>(std::marker::PhantomData<T>);
impl<T: Ty> Ty for ByteItems<T> {
    type R = Vec<T::R>;
    fn fresh() -> Self::R {
        Arr::<T, 2>::fresh()
    }
    fn put(v: &Self::R, b: &mut Bs) {
        for x in v {
            b.align(8);
            T::put(x, b)
        }
    }
    fn same(a: &Self::R, b: &Self::R) -> bool {
        same_all::<T>(a, b)
    }
}
model!(offsets::One { pad: Bit<3>, off: Off<U32>, more: Bit<1>, p: Al<Point, 8>, z: Bit<2> });
impl Model for offsets::Indexed {
    fn any() -> Self {
        let items = ByteItems::<Bit<11>>::fresh();
        offsets::Indexed { offs: items.iter().map(|_| U32::fresh()).collect(), pad: vbits(5), items, z: vbits(1) }
    }
    fn wire(&self, b: &mut Bs) {
        Arr::<U32, 2>::put(&self.offs, b);
        b.u(self.pad, 5);
        ByteItems::<Bit<11>>::put(&self.items, b);
        b.u(self.z, 1)
    }
    fn alike(&self, o: &Self) -> bool {
        same_all::<U32>(&self.offs, &o.offs) & (self.pad == o.pad) & same_all::<Bit<11>>(&self.items, &o.items) & (self.z == o.z)
    }
}
impl Model for offsets::IndexedObj {
    fn any() -> Self {
        let items = ByteItems::<Point>::fresh();
        offsets::IndexedObj { n: items.len() as u8, offs: items.iter().map(|_| U32::fresh()).collect(), pad: vbits(5), items }
    }
    fn wire(&self, b: &mut Bs) {
        b.u(self.n as u64, 8);
        for x in &self.offs {
            b.u(*x as u64, 32)
        }
        b.u(self.pad, 5);
        ByteItems::<Point>::put(&self.items, b);
    }
    fn alike(&self, o: &Self) -> bool {
        (self.n == o.n) & same_all::<U32>(&self.offs, &o.offs) & (self.pad == o.pad) & same_all::<Point>(&self.items, &o.items)
    }
}

// ------------------------------------------------------------ optionals
model!(optionals::Opts { a: Opt<U8>, b: Bit<2>, c: Opt<Point>, d: Opt<VU16>, e: Opt<Kind> });
model!(optionals::Opts2 { a: Opt<Str>, b: Opt<Arr<U8, 2>>, c: Opt<Bool>, d: Opt<Flags>, e: Opt<Arr<Point, 1>> });
model!(optionals::Opts3 { a: Opt<Fix<Bit<3>, 2>>, b: Opt<PkU<U8, 8, 2>>, c: Opt<Extern>, d: Opt<Bytes>, e: Opt<F32> });
cond_model!(optionals::Conds [] {
    a: U8,
    b: U8 => |s| s.a > 3,
    c: Bool,
    d: Point => |s| s.c,
    e: Str => |s| !s.c && s.a == 7,
    f: Arr<U16, 1> => |s| s.c || s.a != 0,
    g: Kind => |s| s.a < 10,
});
cond_model!(optionals::CondSum [] {
    a: U8,
    b: U8 => |s| (s.a as u32) + 1 < 10,
});
cond_model!(optionals::CondKind [] {
    k: Kind,
    a: U8 => |s| s.k == base::Kind::First,
    b: U16 => |s| s.k != base::Kind::None,
    f: Flags,
    c: U8 => |s| s.f.bits() & 2 != 0,
    d: U8 => |s| s.f.bits() & 0x10 != 0,
});
cond_model!(optionals::CondOpt [] {
    a: Opt<U8>,
    has: Bool,
    b: Arr<Bit<3>, 2> => |s| s.has,
    c: U8 => |s| s.has && s.b.len() > 1,
});

// ------------------------------------------------------------ choices
cond_model!(choices::ByInt [sel: U8] {
    a: U8 => |s| s.sel == 0,
    b: Bit<5> => |s| s.sel == 1 || s.sel == 7,
    c: Point => |s| s.sel == 2,
    d: Arr<U16, 2> => |s| s.sel == 3,
    e: Str => |s| s.sel == 4,
});
cond_model!(choices::ByKind [k: Kind] {
    a: U8 => |s| s.k == base::Kind::None,
    b: Point => |s| s.k == base::Kind::First || s.k == base::Kind::Second,
});
cond_model!(choices::ByBool [flag: Bool] {
    a: U8 => |s| s.flag,
    b: U16 => |s| !s.flag,
});
cond_model!(choices::WithDefault [sel: U8] {
    a: U8 => |s| s.sel == 1,
    d: U16 => |s| s.sel != 1 && s.sel != 2,
});
cond_model!(choices::DefaultEmpty [sel: U16] {
    a: U8 => |s| s.sel == 1,
});
cond_model!(choices::DefaultArr [sel: U8] {
    a: Bool => |s| s.sel == 1,
    d: Arr<Bit<3>, 2> => |s| s.sel != 1,
});
deep_model!(choices::Holder [] (x i) {
    s: ty(U8),
    c: obj(choices::ByInt, sel = x.s),
    z: ty(Bit<3>),
});
cond_model!(choices::EmptyFirst [sel: Few9] {
    a: U32 => |s| s.sel == 1,
    b: I16 => |s| s.sel == 3 || s.sel == 4,
    c: Kind => |s| s.sel == 5,
    d: Point => |s| s.sel == 6,
});
/// uint8 of values below 9
pub struct Few9;
impl Ty for Few9 {
    type R = u8;
    fn fresh() -> u8 {
        let v = vbits(8) as u8;
        assume(v < 9);
        v
    }
    fn put(v: &u8, b: &mut Bs) {
        U8::put(v, b)
    }
    fn same(a: &u8, b: &u8) -> bool {
        a == b
    }
    packable!(8);
}
deep_model!(choices::HolderEmpty [] (x i) {
    s: ty(Few9),
    c: obj(choices::EmptyFirst, sel = x.s),
    z: ty(U16),
});
deep_model!(choices::HolderDefaults [] (x i) {
    s: ty(U8),
    c: obj(choices::WithDefault, sel = x.s),
    d: obj(choices::DefaultEmpty, sel = x.s as u16),
    e: obj(choices::DefaultArr, sel = x.s),
    f: obj(choices::ByBool, flag = x.s == 3),
    z: ty(U8),
});
cond_model!(choices::OnlyCase [sel: U8] {
    a: Point => |s| s.sel == 1,
});
cond_model!(choices::OnlyDefault [sel: U8] {
    a: Kind => |s| s.sel != 1,
});
cond_model!(choices::Nothing [sel: U8] {});
deep_model!(choices::HolderOnly [] (x i) {
    s: ty(U8),
    a: auto(choices::OnlyCase, 2, sel = 1),
    b: list(choices::OnlyDefault, 2, sel = x.s),
    c: obj(choices::Nothing, sel = x.s),
    d: obj(choices::OnlyDefault, sel = 2),
    e: list(choices::Nothing, 2, sel = 1),
    f: obj(choices::OnlyCase, sel = 1),
});
impl Model for choices::HolderKind {
    fn any() -> Self {
        let (c, d) = (choices::ByKind::any(), choices::ByBool::any());
        choices::HolderKind { k: c.k, c, b: d.flag, d }
    }
    fn wire(&self, b: &mut Bs) {
        self.k.wire(b);
        self.c.wire(b);
        b.bool(self.b);
        self.d.wire(b)
    }
    fn alike(&self, o: &Self) -> bool {
        (self.k == o.k) & self.c.alike(&o.c) & (self.b == o.b) & self.d.alike(&o.d)
    }
}

// ------------------------------------------------------------ unions
macro_rules! union_model {
    ($t:ty, $sel:ty { $($n:literal $S:ident $f:ident : $ty:ty),* $(,)? }) => {
        impl Model for $t {
            fn any() -> Self {
                let mut x = Self::default();
                let n = vpick([$($n),*].len() as u64);
                $( if n == $n { x.union_selector = <$sel>::$S; x.$f = <$ty>::fresh(); } )*
                x
            }
            fn wire(&self, b: &mut Bs) {
                match self.union_selector {
                    $( <$sel>::$S => { b.varsize($n); <$ty>::put(&self.$f, b) } )*
                }
            }
            fn alike(&self, o: &Self) -> bool {
                match (&self.union_selector, &o.union_selector) {
                    $( (<$sel>::$S, <$sel>::$S) => <$ty>::same(&self.$f, &o.$f), )*
                    _ => false,
                }
            }
            fn slots() -> usize {
                0 $( + <$ty>::slots() )*
            }
            fn pack(&self, p: &mut Packer, mut b: Option<&mut Bs>) {
                // (tags are not packed)
                if let Some(b) = b.as_deref_mut() {
                    match self.union_selector {
                        $( <$sel>::$S => b.varsize($n), )*
                    }
                }
                $( match self.union_selector {
                    <$sel>::$S => <$ty>::pack(&self.$f, p, b.as_deref_mut()),
                    _ => p.skip(<$ty>::slots()),
                } )*
            }
        }
    };
}
union_model!(unions::Simple, unions::SimpleSelector { 0 A a: U8, 1 B b: Bit<3>, 2 C c: Point, 3 D d: Str, 4 E e: Arr<U16, 2>, 5 F f: Bool, 6 G g: Kind });
union_model!(unions::Nested, unions::NestedSelector { 0 S s: M<unions::Simple>, 1 V v: VU16, 2 P p: PkU<U8, 8, 2> });
model!(unions::Holder { a: Bit<3>, u: M<unions::Simple>, us: Arr<M<unions::Simple>, 1>, z: Bit<1> });

// ------------------------------------------------------------ enums
enum_model!(enums::Small : Bit<3> { SNone = 0, SRed = 2, SBlue = 3, SBlack = 7 });
enum_model!(enums::Signed : I8 { MMin = -128, MNeg = -1, MZero = 0, MOne = 1, MMax = 127 });
enum_model!(enums::Computed : U16 { CA = 7, CB = 21, CC = 22, CD = 0x7f00 });
enum_model!(enums::Wide : U32 { WA = 0, WB = 0x7fff_fffe });
enum_model!(enums::Var : VU16 { VA = 0, VB = 127, VC = 128 });
enum_model!(enums::Long : I64 { LA = -5, LB = 1000000 });
model!(enums::All { pad: Bit<1>, a: M<enums::Small>, b: M<enums::Signed>, c: M<enums::Computed>, d: M<enums::Wide>, e: M<enums::Var>, f: M<enums::Long> });

// ------------------------------------------------------------ bitmasks
mask_model!(masks::Auto: U8);
mask_model!(masks::Mixed: U32);
mask_model!(masks::Ten: Bit<10>);
mask_model!(masks::Big: U64);
model!(masks::All { pad: Bit<2>, a: M<masks::Auto>, b: M<masks::Mixed>, c: M<masks::Ten>, d: M<masks::Big> });
cond_model!(masks::Tests [p: M<masks::Auto>] { a: M<masks::Auto> });

// ------------------------------------------------------------ packed arrays of objects
/// the thorough tier takes one element more
fn items_max(quick: u64) -> u64 {
    quick + opt(0)
}
macro_rules! packs {
    ($($p:ident $x:ty, $max:literal;)*) => { $(
        impl Model for packs::$p {
            fn any() -> Self {
                let n = pick(items_max($max) + 1);
                packs::$p { items: (0..n).map(|_| { element(); <$x>::any() }).collect() }
            }
            fn wire(&self, b: &mut Bs) {
                b.varsize(self.items.len() as u64);
                put_packed_objects::<M<$x>>(&self.items, b)
            }
            fn alike(&self, o: &Self) -> bool {
                same_all::<M<$x>>(&self.items, &o.items)
            }
        }
    )* };
}
packs!(
    PPoint base::Point, 3;
    PKind base::Kind, 3;
    PFlags base::Flags, 3;
    PInts structs::Ints, 2;
    PFields structs::Fields, 2;
    PNested structs::Nested, 2;
    PUnion unions::Simple, 2;
    PUnion2 unions::Nested, 2;
    POpts optionals::Opts, 2;
    POpts2 optionals::Opts2, 2;
    PConds optionals::Conds, 2;
    PReals structs::Reals, 2;
    PArrays structs::Arrays, 2;
    PBlobs structs::Blobs, 2;
    PAligned structs::Aligned, 2;
    PVars structs::Vars, 2;
    PVars2 structs::Vars2, 2;
    PVars3 structs::Vars3, 2;
    PVars4 structs::Vars4, 2;
    PHalves structs::Halves, 2;
    PDyn structs::DynBits, 2;
    PDynWide structs::DynWide, 2;
    PPackedIn structs::PackedIn, 2;
    PEnums enums::All, 2;
    PMasks masks::All, 2;
    POffset offsets::One, 2;
    PMoreEnums combos::AllEnums, 2;
    PMoreMasks combos::AllMasks, 2;
    PMany combos::CondMany, 2;
    PAlignCond combos::AlignCond, 2;
    PHolder unions::Holder, 2;
    PHolder2 choices::Holder, 2;
    PArrays2 structs::Arrays2, 2;
    PEmpty structs::HasEmpty, 2;
    POpts3 optionals::Opts3, 2;
    POffKinds combos::OffKinds, 2;
    PHuge combos::Huge, 3;
    PDown combos::Down, 3;
    PHigh combos::High, 3;
    PHolderEmpty choices::HolderEmpty, 2;
    PHolderDefaults choices::HolderDefaults, 2;
    PHolderMember choices::HolderMember, 2;
);
impl Model for packs::PFixed {
    fn any() -> Self {
        packs::PFixed { items: (0..2).map(|_| { element(); base::Point::any() }).collect() }
    }
    fn wire(&self, b: &mut Bs) {
        put_packed_objects::<Point>(&self.items, b)
    }
    fn alike(&self, o: &Self) -> bool {
        same_all::<Point>(&self.items, &o.items)
    }
}
/// packed arrays of choices, all of one selector
macro_rules! choice_packs {
    ($($p:ident $x:ty, $S:ty;)*) => { $(
        deep_model!(packs::$p [] (x i) { s: ty($S), items: packed($x, 2, sel = x.s) });
    )* };
}
choice_packs!(
    PWithDefault choices::WithDefault, U8;
    PEmptyFirst choices::EmptyFirst, Few9;
);
impl Model for packs::PChoice {
    fn any() -> Self {
        let s = pick(6) as u8;
        let n = pick(items_max(2) + 1);
        let one = || {
            element();
            let mut c = choices::ByInt::default();
            c.sel = s;
            c.a = U8::fresh();
            c.b = vbits(5);
            if s == 2 {
                c.c = Point::fresh();
            }
            if s == 3 {
                c.d = Arr::<U16, 2>::fresh();
            }
            if s == 4 {
                c.e = Str::fresh();
            }
            c
        };
        packs::PChoice { s, items: (0..n).map(|_| one()).collect() }
    }
    fn wire(&self, b: &mut Bs) {
        U8::put(&self.s, b);
        b.varsize(self.items.len() as u64);
        put_packed_objects::<M<choices::ByInt>>(&self.items, b)
    }
    fn alike(&self, o: &Self) -> bool {
        (self.s == o.s) & same_all::<M<choices::ByInt>>(&self.items, &o.items)
    }
}

// ------------------------------------------------------------ choices by members, constants and expressions
model!(choices::Header { kind: Kind, level: I8 });
pub type Header = M<choices::Header>;
cond_model!(choices::ByMember [h: Header] {
    a: U8 => |s| s.h.kind == base::Kind::First,
    b: I16 => |s| s.h.kind == base::Kind::Last,
    c: Bool => |s| s.h.kind != base::Kind::First && s.h.kind != base::Kind::Last,
});
cond_model!(choices::ByConst [s: U8] {
    a: U8 => |x| x.s == 2,
    b: U16 => |x| x.s == 3 || x.s == 16,
    c: Bool => |x| x.s == 32,
});
cond_model!(choices::ByLevel [h: Header] {
    a: U8 => |s| s.h.level == -1,
    b: U16 => |s| s.h.level == -128 || s.h.level == 127,
});
cond_model!(choices::ByMask [f: Flags] {
    a: U8 => |s| s.f.bits() == 1,
    b: U16 => |s| s.f.bits() == 2 || s.f.bits() == 16,
});
cond_model!(choices::ByAlias [k: Kind] {
    a: U8 => |s| s.k == base::Kind::First,
    b: U16 => |s| s.k == base::Kind::Last,
});
deep_model!(choices::HolderMember [] (x i) {
    h: ty(Header),
    m: obj(choices::ByMember, h = x.h.clone()),
    c: obj(choices::ByConst, s = if x.h.kind == base::Kind::First { 2 } else { 16 }),
    l: obj(choices::ByLevel, h = x.h.clone()),
});

// ------------------------------------------------------------ expressions
model!(exprs::Arith { a: U8, b: U8, c: I16, d: U32, e: I64, f: Bit<5>, g: VU16 });
model!(exprs::Compare { a: U8, b: I32, c: U64, d: Bit<3>, p: Bool, q: Bool, k: Kind, l: Kind, s: Str });
model!(exprs::BitOps { a: U8, b: U16, c: I32, d: Bit<7>, e: U64 });
model!(exprs::Chosen { p: Bool, a: U8, b: U32, c: I16, k: Kind, l: Kind });
model!(exprs::Queries { a: Arr<U8, 3>, b: Fix<Point, 2>, k: Kind, f: Flags, n: U32, p: Point });
model!(exprs::Reals { a: F32, b: F64, n: I16 });
deep_model!(exprs::Lengths [] (x i) {
    n: ty(U8),
    m: ty(U8),
    w: bits((x.n as u64 & 7) + 1),
    list: elems(Bit<2>, conc((x.n % 3 + x.m % 2) as u64)),
    opt: ty(U8) if ((x.n > x.m) == (x.w > 2)),
    more: elems(U8, if x.n > 100 { 2 } else { 1 }),
});
cond_model!(exprs::Sel [a: U8, k: Kind] {
    one: U8 => |s| s.a as u32 % 3 + kind_num(s.k) == 1,
    two: U16 => |s| s.a as u32 % 3 + kind_num(s.k) == 2,
});
pub fn kind_num(k: base::Kind) -> u32 {
    match k {
        base::Kind::None => 0,
        base::Kind::First => 3,
        base::Kind::Second => 4,
        base::Kind::Last => 200,
    }
}
deep_model!(exprs::Selects [] (x i) {
    x: ty(Bit<4>),
    k: ty(Kind),
    sel: obj(exprs::Sel, a = x.x as u8 + 1, k = x.k),
});
union_model!(exprs::Uni, exprs::UniSelector { 0 A a: U8, 1 B b: Point });

// ------------------------------------------------------------ parameters
deep_model!(params::Items [count: Count] (x i) {
    items: elems(U16, conc(x.count as u64)),
    last: ty(U8) if (x.count > 1),
});
/// parameters that are the length of an array
pub struct Count;
impl Ty for Count {
    type R = u8;
    fn fresh() -> u8 {
        vpick(4) as u8
    }
    fn put(v: &u8, b: &mut Bs) {
        U8::put(v, b)
    }
    fn same(a: &u8, b: &u8) -> bool {
        a == b
    }
    packable!(8);
}
deep_model!(params::Simple [] (x i) {
    n: ty(Pick<2, 4>),
    a: obj(params::Items, count = x.n as u8),
    b: obj(params::Items, count = x.n as u8 + 1),
    c: obj(params::Items, count = 2),
});
deep_model!(params::InArrays [] (x i) {
    n: ty(Pick<2, 4>),
    fixed: list(params::Items, 2, count = x.n as u8),
    auto: auto(params::Items, 1, count = x.n as u8),
    packed_items: auto(params::Items, 2, count = x.n as u8),
});
/// bit:BITS of values below N, one path each
pub struct Pick<const BITS: u32, const N: u64>;
impl<const BITS: u32, const N: u64> Ty for Pick<BITS, N> {
    type R = u64;
    fn fresh() -> u64 {
        vpick(N)
    }
    fn put(v: &u64, b: &mut Bs) {
        b.u(*v, BITS)
    }
    fn same(a: &u64, b: &u64) -> bool {
        a == b
    }
    packable!(BITS);
}
deep_model!(params::Indexed [] (x i) {
    sizes: ty(Arr<Pick<2, 4>, 2>),
    items: list(params::Items, x.sizes.len(), count = x.sizes[i] as u8),
});
deep_model!(params::El [p: Count] (x i) { v: elems(Bit<3>, conc(x.p as u64)) });
deep_model!(params::Tail [p: Count, q: Bool] (x i) { n: ty(U8) if (x.q), v: elems(Bit<2>, conc(x.p as u64)) });
model!(params::Rec { n: Pick<1, 2>, m: Fix<Pick<1, 2>, 2> });
deep_model!(params::IndexForms [] (x i) {
    e: ty(Pick<1, 2>),
    counts: ty(Fix<Pick<1, 2>, 2>),
    a: list(params::El, 2, p = if x.e == 0 { 1 } else { x.counts[i] as u8 }),
    b: list(params::El, 2, p = if x.e == 0 { x.counts[i] as u8 } else { 1 }),
    c: list(params::El, 2, p = if x.e == i as u64 { 1 } else { 2 }),
    d: list(params::El, 2, p = i as u8 + 1),
    f: auto(params::El, 2, p = i as u8),
    g: list(params::El, 2, p = x.counts[1 - i] as u8),
    h: list(params::Tail, 2, p = x.counts[if x.e == 1 { 0 } else { i }] as u8, q = x.counts[i] == 0),
});
deep_model!(params::IndexMembers [] (x i) {
    recs: ty(Fix<M<params::Rec>, 2>),
    a: list(params::El, 2, p = x.recs[i].n as u8),
    b: list(params::El, 2, p = x.recs[1].m[i] as u8),
    c: list(params::El, 2, p = x.recs[i].m[i] as u8),
    d: list(params::Tail, 2, p = 2, q = x.recs[i].n > i as u64),
    e: plist(params::El, 2, p = x.recs[1].m[i] as u8),
});
deep_model!(params::Head [] (x i) { n: ty(Count), more: ty(Bool) });
pub type Head = M<params::Head>;
deep_model!(params::Inner [h: Head, extra: Count] (x i) {
    values: elems(Bit<4>, x.h.n),
    last: ty(U16) if (x.h.more),
    items: obj(params::Items, count = x.extra),
});
deep_model!(params::Middle [head: Head] (x i) {
    inner: obj(params::Inner, h = x.head.clone(), extra = if x.head.more { 1 } else { 0 }),
    inners: list(params::Inner, 2, h = x.head.clone(), extra = 2),
});
deep_model!(params::Outer [] (x i) {
    h: ty(Head),
    m: obj(params::Middle, head = x.h.clone()),
});
deep_model!(params::Heads [] (x i) {
    heads: ty(Arr<Head, 2>),
    inners: list(params::Inner, x.heads.len(), h = x.heads[i].clone(), extra = 1),
});
deep_model!(params::Cast [wide: I32, narrow: U8, three: Bit<3>] (x i) {
    a: ty(U8) if (x.wide < 0),
    b: ty(U8) if (x.narrow as u64 > x.three),
});
deep_model!(params::Casts [] (x i) {
    s: ty(I8),
    u: ty(Below<256>),
    t: ty(Below<8>),
    c: obj(params::Cast, wide = x.s as i32, narrow = x.u as u8, three = 5),
    d: obj(params::Cast, wide = -1, narrow = 255, three = x.t as u64),
});
/// uint16 of values the parameter it is passed to can hold
pub struct Below<const N: u16>;
impl<const N: u16> Ty for Below<N> {
    type R = u16;
    fn fresh() -> u16 {
        let v = vbits(16) as u16;
        assume(v < N);
        v
    }
    fn put(v: &u16, b: &mut Bs) {
        U16::put(v, b)
    }
    fn same(a: &u16, b: &u16) -> bool {
        a == b
    }
    packable!(16);
}
deep_model!(params::KindItem [k: Kind, f: Flags, b: Bool] (x i) {
    a: ty(U8) if (x.k == base::Kind::First),
    c: ty(U16) if (x.f.bits() & 2 != 0),
    d: ty(U8) if (x.b),
});
deep_model!(params::Kinds [] (x i) {
    k: ty(Kind),
    ks: ty(Fix<Kind, 2>),
    f: ty(Flags),
    one: obj(params::KindItem, k = x.k, f = x.f.clone(), b = true),
    more: list(params::KindItem, 2, k = x.ks[i], f = base::Flags::from(1), b = x.k == base::Kind::Last),
});
deep_model!(params::Chosen [sel: Pick<2, 4>, n: Count] (x i) {
    a: ty(U8) if (x.sel == 0),
    b: obj(params::Items, count = x.n) if (x.sel == 1),
    c: elems(Bit<3>, x.n) if (x.sel == 2),
});
impl Given for params::Either {
    fn filled(mut x: Self) -> Self {
        use params::EitherSelector::*;
        match vpick(3) {
            0 => {
                x.union_selector = A;
                for _ in 0..x.n {
                    x.a.push(U8::fresh())
                }
            }
            1 => {
                x.union_selector = B;
                let n = x.n;
                x.b = params::Items::given(|p| p.count = n);
            }
            _ => {
                x.union_selector = C;
                x.c = U16::fresh()
            }
        }
        x
    }
}
impl Model for params::Either {
    fn any() -> Self {
        Self::filled(Self::any_params())
    }
    fn any_params() -> Self {
        let mut x = Self::default();
        x.n = Count::fresh();
        x.limit = U16::fresh();
        x
    }
    fn blank(&self) -> Self {
        let mut x = Self::default();
        x.n = self.n;
        x.limit = self.limit;
        x
    }
    fn wire(&self, b: &mut Bs) {
        use params::EitherSelector::*;
        match self.union_selector {
            A => {
                b.varsize(0);
                for x in &self.a {
                    U8::put(x, b)
                }
            }
            B => {
                b.varsize(1);
                self.b.wire(b)
            }
            C => {
                b.varsize(2);
                U16::put(&self.c, b)
            }
        }
    }
    fn alike(&self, o: &Self) -> bool {
        use params::EitherSelector::*;
        (self.n == o.n)
            & (self.limit == o.limit)
            & match (&self.union_selector, &o.union_selector) {
                (A, A) => same_all::<U8>(&self.a, &o.a),
                (B, B) => self.b.alike(&o.b),
                (C, C) => self.c == o.c,
                _ => false,
            }
    }
}
deep_model!(params::Others [] (x i) {
    s: ty(Pick<2, 4>),
    n: ty(Pick<2, 3>),
    c: obj(params::Chosen, sel = x.s, n = x.n as u8),
    e: obj(params::Either, n = x.n as u8, limit = 300),
    cs: auto(params::Chosen, 1, sel = x.s, n = 1),
    es: list(params::Either, 1, n = 2, limit = x.n as u16),
});
deep_model!(params::ByFunction [] (x i) {
    n: ty(Small),
    items: obj(params::Items, count = x.n / 2),
});
/// uint8 of values below 8
pub struct Small;
impl Ty for Small {
    type R = u8;
    fn fresh() -> u8 {
        vpick(8) as u8
    }
    fn put(v: &u8, b: &mut Bs) {
        U8::put(v, b)
    }
    fn same(a: &u8, b: &u8) -> bool {
        a == b
    }
}
deep_model!(params::ByOptional [] (x i) {
    n: ty(Opt<U8>),
    has: ty(Bool),
    a: obj(params::Items, count = 1) if (x.has),
    b: opt(params::Items, count = 2),
});

// ------------------------------------------------------------ constants
enum_model!(consts::FromConst : U16 { FcA = 200, FcB = 201, FcC = 0xffe0, FcD = 300, FcE = 14 });
enum_model!(consts::FromNegative : I32 { FnA = -77, FnB = -76, FnC = -1, FnD = 0 });
enum_model!(consts::FromRest : I8 { FrA = -7, FrB = -4, FrC = 6, FrD = 4 });
mask_model!(consts::MaskFromConst: U16);
cond_model!(consts::Uses [] {
    e: M<consts::FromConst>,
    n: M<consts::FromNegative>,
    m: M<consts::MaskFromConst>,
    w: Bit<11>,
    a: Fix<U8, 7>,
    b: U8 => |s| s.w == 11,
});
model!(consts::Returns { s: Str, p: Point, b: Bool, n: U16 });

// ------------------------------------------------------------ templates
use templates as t;
macro_rules! pair {
    ($($t:ty : $a:ty, $b:ty;)*) => { $( model!($t { first: $a, second: $b }); )* };
}
pair!(
    t::Pairuint8Int16: U8, I16;
    t::PairstringPoint: Str, Point;
    t::Pairuint16Bool: U16, Bool;
    t::NamedPair: U16, Bool;
    t::KindFlags: Kind, Flags;
    t::Pairuint8Uint8: U8, U8;
    t::Pairuint8Bool: U8, Bool;
    t::PairPairuint8BoolListuint8: M<t::Pairuint8Bool>, M<t::Listuint8>;
    t::Pairbit3Bool: Bit<3>, Bool;
    t::Pairbit5Bool: Bit<5>, Bool;
    t::Pairint7Listbit9: Int<7>, M<t::Listbit9>;
    t::PairListuint8Bool: M<t::Listuint8>, Bool;
    t::PairListstringbool: M<t::Liststring>, Bool;
    t::PairListuint8Uint8: M<t::Listuint8>, U8;
    t::PairListboolbool: M<t::Listbool>, Bool;
    t::Pairbit11Uint16: Bit<11>, U16;
    t::Pairbit6Uint8: Bit<6>, U8;
    t::Pairuint8Bit6: U8, Bit<6>;
    t::Pairuint8Int6: U8, Int<6>;
    t::Pairuint16Bit11: U16, Bit<11>;
    t::Pairuint16Uint8: U16, U8;
    t::Pairbooluint32: Bool, U32;
    t::Pairuint32Bool: U32, Bool;
);
macro_rules! list {
    ($($t:ty : $a:ty;)*) => { $( model!($t { items: $a }); )* };
}
list!(
    t::Listuint8: Arr<U8, 2>;
    t::PointList: Arr<Point, 2>;
    t::Strings: Arr<Str, 1>;
    t::Liststring: Arr<Str, 1>;
    t::Listbit9: Arr<Bit<9>, 2>;
    t::Listbool: Arr<Bool, 2>;
);
model!(t::PackedListuint8 { items: PkU<U8, 8, 2>, last: Opt<U8> });
macro_rules! maybe {
    ($($t:ty : $a:ty;)*) => { $( cond_model!($t [] { has: Bool, value: $a => |s| s.has }); )* };
}
maybe!(
    t::Maybeuint32: U32;
    t::MaybePoint: Point;
    t::Maybeuint8: U8;
    t::Maybebool: Bool;
    t::MaybeMaybeuint8: M<t::Maybeuint8>;
    t::MaybeMaybebool: M<t::Maybebool>;
    t::MaybePairuint8Int6: M<t::Pairuint8Int6>;
);
deep_model!(t::Counteduint16 [n: Count] (x i) { items: elems(U16, conc(x.n as u64)) });
union_model!(t::OneOfuint8String, t::OneOfuint8StringSelector { 0 A a: U8, 1 B b: Str });
union_model!(t::OneOfPointKind, t::OneOfPointKindSelector { 0 A a: Point, 1 B b: Kind });
cond_model!(t::Selectbooluint16 [sel: U8] {
    t: Bool => |s| s.sel == 0,
    v: Arr<U16, 1> => |s| s.sel == 1,
    other: U8 => |s| s.sel > 1,
});
model!(t::Wrapperuint8 { pair: M<t::Pairuint8Uint8>, list: M<t::Listuint8> });
deep_model!(t::Sized [n: Count] (x i) { values: elems(Bit<4>, conc(x.n as u64)) });
deep_model!(t::WithParamSized [] (x i) { n: ty(Count), value: obj(t::Sized, n = x.n) });
model!(t::UsesPairs { a: M<t::Pairuint8Int16>, b: M<t::PairstringPoint>, c: M<t::Pairuint16Bool>, d: M<t::NamedPair>, e: M<t::KindFlags> });
model!(t::UsesLists { a: M<t::Listuint8>, b: M<t::PointList>, c: M<t::Strings>, d: M<t::PackedListuint8> });
deep_model!(t::UsesMany [] (x i) {
    a: ty(M<t::Maybeuint32>),
    b: ty(M<t::MaybePoint>),
    n: ty(U8),
    c: obj(t::Counteduint16, n = x.n % 3),
    d: ty(M<t::OneOfuint8String>),
    e: obj(t::Selectbooluint16, sel = x.n),
});
model!(t::UsesNested {
    a: M<t::Wrapperuint8>,
    b: M<t::PairPairuint8BoolListuint8>,
    c: M<t::WithParamSized>,
    d: Fix<M<t::Pairuint8Int16>, 2>,
    e: Arr<M<t::OneOfPointKind>, 1>,
});
macro_rules! sums {
    ($($t:ty : $a:ty;)*) => { $(
        deep_model!($t [] (x i) {
            a: ty($a),
            b: ty(U8) if (x.a > 10),
            c: elems(Bit<4>, conc((x.a % 3) as u64)),
        });
    )* };
}
sums!(
    t::Sumsuint8: U8;
    t::Sumsuint16: U16;
    t::Sumsbit5: Bit<5>;
);
model!(t::UsesSums { a: M<t::Sumsuint8>, b: M<t::Sumsuint16>, c: M<t::Sumsbit5> });
cond_model!(t::ByTypeuint16 [sel: U16] { a: U8 => |s| s.sel == 1, b: U16 => |s| s.sel == 300 });
cond_model!(t::ByTypeuint32 [sel: U32] { a: U8 => |s| s.sel == 1, b: U32 => |s| s.sel == 300 });
cond_model!(t::OnKinduint8 [k: Kind] { a: U8 => |s| s.k == base::Kind::First, b: Arr<U8, 2> => |s| s.k == base::Kind::Last });
cond_model!(t::OnKindPoint [k: Kind] { a: Point => |s| s.k == base::Kind::First, b: Arr<Point, 1> => |s| s.k == base::Kind::Last });
deep_model!(t::UsesTypes [] (x i) {
    n: ty(U16),
    m: ty(U32),
    k: ty(Kind),
    a: obj(t::ByTypeuint16, sel = x.n),
    b: obj(t::ByTypeuint32, sel = x.m),
    c: obj(t::OnKinduint8, k = x.k),
    d: obj(t::OnKindPoint, k = x.k),
});
model!(t::UsesWidths {
    a: M<t::Pairbit3Bool>,
    b: M<t::Pairbit5Bool>,
    c: M<t::Pairint7Listbit9>,
    d: M<t::PairListuint8Bool>,
    e: M<t::PairListstringbool>,
});
model!(t::Deepuint8 { p: M<t::PairListuint8Uint8>, m: M<t::MaybeMaybeuint8> });
model!(t::Deepbool { p: M<t::PairListboolbool>, m: M<t::MaybeMaybebool> });
model!(t::UsesDeep { a: M<t::Deepuint8>, b: M<t::Deepbool> });

// ------------------------------------------------------------ combinations
cond_model!(combos::AlignCond [] {
    pad: Bit<3>,
    has: Bool,
    a: Al<U8, 16> => |s| s.has,
    b: Al<Arr<Bit<3>, 2>, 8> => |s| !s.has,
    z: Bit<1>,
});
// (order of presence bit and padding: not claimed)
model!(combos::AlignOpt { pad: Bit<3>, a: Al<Opt<U8>, 8>, m: Bit<1>, b: Al<Opt<Arr<Point, 2>>, 32>, z: Bit<1> });
model!(combos::AlignOdd { a: Bit<1>, b: Bit<2>, c: Al<Bit<1>, 3>, d: Al<Fix<U8, 2>, 24>, e: Al<Str, 64>, z: Bit<1> });
cond_model!(combos::OffCond [] {
    pad: Bit<3>,
    off: Off<U32>,
    has: Bool,
    p: Al<Point, 8> => |s| s.has,
    z: Bit<2>,
});
model!(combos::OffOpt { pad: Bit<3>, off: Off<U32>, p: Al<Opt<Point>, 8>, z: Bit<2> });
model!(combos::OffArr { pad: Bit<3>, off: Off<U32>, items: Al<Arr<Bit<5>, 2>, 8>, m: Bit<2>, off_2: Off<U32>, two: Al<Fix<U8, 2>, 8>, z: Bit<2> });
model!(combos::OffKinds {
    a: Off<U32>, b: Off<U32>, c: Off<U16>, pad: Bit<1>, s: Al<Str, 8>, m: Bit<1>, k: Al<Kind, 8>, n: Bit<1>, t: Al<Bool, 8>
});
model!(combos::AlignOff { off: Off<U32>, pad: Bit<3>, a: Al<U8, 64>, z: Bit<1> });
deep_model!(combos::IndexedCond [] (x i) {
    offs: ty(Arr<U32, 2>),
    has: ty(Bool),
    items: elems(Al<Bit<11>, 8>, x.offs.len()) if (x.has),
    z: ty(Bit<1>),
});
model!(combos::IndexedStrings { offs: Fix<U32, 2>, pad: Bit<3>, items: Fix<Al<Str, 8>, 2>, z: Bit<1> });
deep_model!(combos::IndexedAligned [] (x i) {
    offs: ty(Arr<U32, 2>),
    pad: ty(Bit<5>),
    items: at(32, elems Al<Bit<3>, 8>, x.offs.len()),
    z: ty(Bit<1>),
});
model!(combos::IndexedOpt { offs: Fix<U32, 1>, pad: Bit<5>, items: Opt<Fix<Al<Bit<3>, 8>, 1>>, z: Bit<1> });
/// (padding within packed arrays: not claimed)
impl Model for combos::IndexedPacked {
    fn any() -> Self {
        let offs = Arr::<U32, 2>::fresh();
        let items = (0..offs.len()).map(|_| Bit::<13>::fresh()).collect();
        combos::IndexedPacked { offs, pad: vbits(5), items, z: vbits(1) }
    }
    fn wire(&self, _: &mut Bs) {}
    fn alike(&self, o: &Self) -> bool {
        same_all::<U32>(&self.offs, &o.offs) & (self.pad == o.pad) & same_all::<Bit<13>>(&self.items, &o.items) & (self.z == o.z)
    }
}
deep_model!(combos::IndexedItems [] (x i) {
    n: ty(Pick<2, 3>),
    offs: ty(Fix<U32, 2>),
    items: list8(params::Items, 2, count = x.n as u8),
    z: ty(Bit<1>),
});
cond_model!(combos::CondPacked [] {
    has: Bool,
    a: PkU<U16, 16, 2> => |s| s.has,
    b: PkIF<I8, 8, 2> => |s| !s.has,
    c: PkObj<Point, 2> => |s| s.has,
});
model!(combos::OptArrays { a: Opt<Arr<Kind, 2>>, b: Opt<Fix<Str, 1>>, c: Opt<PkObj<Point, 2>> });
deep_model!(combos::CondMany [] (x i) {
    n: ty(U8),
    a: ty(VU16) if (x.n > 1),
    b: ty(Int<5>) if (x.n < 4),
    c: ty(Bytes) if (x.n == 2),
    d: ty(Extern) if (x.n == 3),
    e: ty(F16) if (x.n == 2 || x.n == 0),
    f: ty(Flags) if (x.n != 0),
    g: bits(x.n as u64) if (x.n > 2 && x.n < 5),
});
enum_model!(combos::Down : I16 { DTop = 300, DNext = 301, DLow = -300, DLower = -299, DMid = 5, DEnd = 6 });
enum_model!(combos::VarInt : VI16 { ViA = -16383, ViB = -16382, ViC = -1, ViD = 0, ViE = 64 });
enum_model!(combos::VarU32 : VU32 { VuA = 0x1fff_ffff, VuB = 0 });
enum_model!(combos::Sizes : VSize { SzA = 2147483647, SzB = 128, SzC = 129 });
enum_model!(combos::Huge : U64 { HA = 0x7fff_ffff_ffff_ffff, HB = 0, HC = 4294967296 });
enum_model!(combos::Five : Int<5> { FiA = -16, FiB = 15, FiC = -8, FiD = -7 });
enum_model!(combos::Seventeen : Bit<17> { SA = 131071, SB = 65535, SC = 65536 });
enum_model!(combos::Spread : I32 { SpA = i32::MIN, SpB = i32::MAX, SpC = -2 });
model!(combos::AllEnums {
    a: M<combos::Down>, b: M<combos::VarInt>, c: M<combos::VarU32>, d: M<combos::Sizes>, e: M<combos::Huge>, f: M<combos::Five>,
    g: M<combos::Seventeen>, h: M<combos::Spread>
});
mask_model!(combos::High: U64);
mask_model!(combos::ThirtyThree: Bit<33>);
mask_model!(combos::Overlap: U16);
mask_model!(combos::VarMask: VU16);
mask_model!(combos::OneBit: Bit<1>);
model!(combos::AllMasks {
    pad: Bit<3>, a: M<combos::High>, b: M<combos::ThirtyThree>, c: M<combos::Overlap>, d: M<combos::VarMask>, e: M<combos::OneBit>
});
deep_model!(combos::IndexAndPlain [count: Count, extra: Bit<3>, last: Bool] (x i) {
    items: elems(U8, conc(x.count as u64)),
    more: ty(Bit<4>) if (x.extra > 2),
    tail: ty(U16) if (x.last),
});
deep_model!(combos::IndexAndPlains [] (x i) {
    counts: ty(Fix<Pick<2, 3>, 2>),
    e: ty(Bit<3>),
    l: ty(Bool),
    a: list(combos::IndexAndPlain, 2, count = x.counts[i] as u8, extra = x.e, last = x.l),
    b: auto(combos::IndexAndPlain, 1, count = 1, extra = x.e, last = x.l),
    c: list(combos::IndexAndPlain, 2, count = x.counts[0] as u8, extra = x.counts[i] + 1, last = x.e == 3),
    d: list(combos::IndexAndPlain, 2, count = if i == 1 { 2 } else { 1 }, extra = 0, last = i == 0),
});
cond_model!(combos::ByText [s: Str, f: F64] {
    a: U8 => |x| x.s.len() > 1,
    c: U8 => |x| x.f > 0.5,
});
deep_model!(combos::ByArm [c: M<choices::ByInt>, e: M<unions::Simple>, v: VI16, w: Int<5>, f: F32, p: ShortPoint] (x i) {
    a: ty(U8) if (x.c.a == 7),
    b: ty(U16) if ((x.v as i64) < x.w),
    d: ty(U8) if (x.e.a > 2),
    g: ty(U8) if (x.f > 1.5),
    h: elems(Bit<2>, conc(x.p.y)),
});
like!(
    // (NaN differs from itself: a known finding)
    NotNan: F32 = f32, {
        let f = F32::fresh();
        assume(f.to_bits() & 0x7fff_ffff <= 0x7f80_0000);
        f
    };
    // points whose y is the length of an array
    ShortPoint: Point = base::Point, base::Point { x: I16::fresh(), y: vpick(3) };
    // the first member
    OnlyA: M<unions::Simple> = unions::Simple, {
        let mut u = unions::Simple::default();
        u.a = U8::fresh();
        u
    };
    Zero: U8 = u8, 0;
);
deep_model!(combos::Texts [] (x i) {
    sel: ty(Zero),
    c: obj(choices::ByInt, sel = 0),
    e: ty(OnlyA),
    s: ty(Str),
    f: ty(NotNan),
    ps: ty(Fix<ShortPoint, 2>),
    v: ty(VI16),
    one: obj(combos::ByText, s = x.s.clone(), f = 1.5),
    two: obj(combos::ByArm, c = x.c.clone(), e = x.e.clone(), v = x.v, w = -3, f = x.f, p = x.ps[1].clone()),
    three: list(combos::ByArm, 2, c = x.c.clone(), e = x.e.clone(), v = 100, w = 3, f = 2.5, p = x.ps[i].clone()),
});
cond_model!(t::OtherwisePointuint8 [sel: U8] { v: U8 => |s| s.sel == 1, t: Point => |s| s.sel != 1 && s.sel != 2 });
cond_model!(t::OtherwisestringKind [sel: U8] { v: Kind => |s| s.sel == 1, t: Str => |s| s.sel != 1 && s.sel != 2 });
cond_model!(t::OtherwiseListuint16 [sel: U8] { t: Arr<U16, 2> => |s| s.sel != 1 });
cond_model!(t::OtherwiseListPoint [sel: U8] { t: Arr<Point, 1> => |s| s.sel != 1 });
deep_model!(t::UsesOtherwise [] (x i) {
    n: ty(U8),
    a: obj(t::OtherwisePointuint8, sel = x.n),
    b: obj(t::OtherwisestringKind, sel = x.n),
    c: obj(t::OtherwiseListuint16, sel = x.n),
    d: obj(t::OtherwiseListPoint, sel = x.n),
});
cond_model!(t::Fieldsuint8String [] {
    a: Opt<U8>,
    b: PkU<U8, 8, 1>,
    c: Fix<U8, 2>,
    d: Al<Str, 8>,
    e: Arr<U8, 1> => |s| s.c[0] == s.c[1],
});
cond_model!(t::Fieldsint16Point [] {
    a: Opt<I16>,
    b: PkObj<I16, 1>,
    c: Fix<I16, 2>,
    d: Al<Point, 8>,
    e: Arr<I16, 1> => |s| s.c[0] == s.c[1],
});
union_model!(t::Eitheruint8, t::Eitheruint8Selector { 0 One one: U8, 1 Many many: Arr<U8, 2> });
union_model!(t::EitherPoint, t::EitherPointSelector { 0 One one: Point, 1 Many many: Arr<Point, 1> });
model!(t::PackedListuint16 { items: PkU<U16, 16, 1>, last: Opt<U16> });
cond_model!(t::OtherwisePairuint8 [sel: U8] {
    a: M<t::Pairuint8Bit6> => |s| s.sel == 1,
    b: Arr<M<t::Pairbit6Uint8>, 1> => |s| s.sel == 2,
    c: M<t::MaybePairuint8Int6> => |s| s.sel != 1 && s.sel != 2,
});
cond_model!(t::ArmPairs [sel: U8] {
    a: M<t::Pairuint16Bit11> => |s| s.sel == 1,
    b: Arr<M<t::Pairbit11Uint16>, 2> => |s| s.sel != 1,
});
union_model!(t::UnionPairs, t::UnionPairsSelector {
    0 A a: M<t::Pairuint32Bool>,
    1 B b: Arr<M<t::Pairbooluint32>, 1>,
    2 C c: M<t::PackedListuint16>,
});
deep_model!(t::UsesArms [] (x i) {
    n: ty(U8),
    a: obj(t::OtherwisePairuint8, sel = x.n),
    b: obj(t::ArmPairs, sel = x.n),
});
deep_model!(t::UsesPackedPairs [] (x i) {
    a: ty(PkObj<M<t::Pairuint16Uint8>, 1>),
    n: ty(U8),
    b: packed(t::OtherwisePairuint8, 1, sel = x.n),
});
#[path = "large.rs"]
mod large_models;

// ------------------------------------------------------------ packages within packages
enum_model!(nest::deep::Level : U8 { Low = 1, High = 7 });
pub type Level = M<nest::deep::Level>;
model!(nest::deep::leaf::Leaf { a: Bit<5> });
pub type Leaf = M<nest::deep::leaf::Leaf>;
model!(nest::Own { a: U8, leaf: Leaf });
model!(nest::DuoLevel { one: Level, two: Level });
model!(nest::deep::Duobool { one: Bool, two: Bool });
union_model!(nest::deep::leaf::Uni, nest::deep::leaf::UniSelector { 0 A a: Leaf, 1 B b: U8 });
deep_model!(nest::deep::Mid [n: Count] (x i) {
    leaf: ty(Leaf),
    p: ty(Point),
    list: elems(Leaf, conc(x.n as u64)),
    duo: ty(M<nest::deep::Duobool>),
});
cond_model!(nest::deep::ByLevel [l: Level] {
    a: Leaf => |s| s.l == nest::deep::Level::Low,
    b: U16 => |s| s.l == nest::deep::Level::High,
});
deep_model!(nest::Holder [] (x i) {
    level: ty(Level),
    n: ty(Pick<2, 4>),
    m: obj(nest::deep::Mid, n = x.n as u8),
    c: obj(nest::deep::ByLevel, l = x.level),
    leaves: ty(Arr<Leaf, 1>),
    duo: ty(M<nest::DuoLevel>),
    u: ty(M<nest::deep::leaf::Uni>),
    top: elems(Bit<3>, if x.n < 2 { 1 } else { 3 }),
    own: ty(M<nest::Own>),
});
