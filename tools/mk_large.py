#!/usr/bin/env python3
"""Writes schemas/large.zs and gc/src/large.rs: types beyond the sizes that ordinary schemas have."""
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
z = ["// made by tools/mk_large.py", "package large;", "", "import base.*;", "import unions.*;", ""]
r = ["//! Types beyond the sizes that ordinary schemas have (made by tools/mk_large.py).", "use crate::models::*;", "use crate::types::*;",
     "use crate::{deep_model, enum_model, mask_model, model, cond_model};", "use gcmodel::*;", "use sup::*;", ""]


def block(kind, name, lines):
    z.extend([f"{kind} {name}", "{"] + ["    " + x for x in lines] + ["};", ""])




def nm(i, p="q"):
    return p + chr(97 + i // 26) + chr(97 + i % 26)


TY = ["bool", "uint8", "int16", "bit:5", "varuint16", "string", "Point", "Kind", "int:11", "uint64"]
MO = ["Bool", "U8", "I16", "Bit<5>", "VU16", "Str", "Point", "Kind", "Int<11>", "U64"]
# union with tags of two bytes
block("union", "Tags", [f"{TY[i % 10]} {nm(i)};" for i in range(140)])
r.append("union_model!(large::Tags, large::TagsSelector { " + ", ".join(f"{i} {nm(i, 'Q')} {nm(i)}: {MO[i % 10]}" for i in range(140)) + " });")
# structure with many fields
block("struct", "Fields", [f"{TY[i % 10]} {nm(i)};" for i in range(90)])
r.append("model!(large::Fields { " + ", ".join(f"{nm(i)}: { {0: 'Yes', 2: 'Less', 6: 'At', 8: 'Low', 5: 'Text', 7: 'One', 4: 'Vu1'}.get(i % 10, MO[i % 10]) if i > 7 else ('Vu1' if i == 4 else MO[i]) }" for i in range(90)) + " });")
# choice with many cases, several values each
cs, conds = [], []
for i in range(40):
    cs += [f"case {i}:", f"case {40 + 3 * i}:", f"    {TY[i % 10]} {nm(i)};"]
    conds.append(f"{nm(i)}: {MO[i % 10]} => |s| s.sel == {i} || s.sel == {40 + 3 * i}")
block("choice", "Cases(uint16 sel) on sel", cs + ["default:", "    uint32 rest;"])
cond = "s.sel >= 40 && (s.sel > 157 || s.sel % 3 != 1)"
r.append("cond_model!(large::Cases [sel: U16] { " + ", ".join(conds) + f", rest: U32 => |s| {cond} }});")
block("struct", "HasCases", ["uint16 n;", "Cases(n) c;", "bit:3 z;"])
r.append("deep_model!(large::HasCases [] (x i) { n: ty(U16), c: obj(large::Cases, sel = x.n), z: ty(Bit<3>) });")
# enumeration with many items
block("enum uint16", "Items", [f"{nm(i, 'I').upper()}" + (f" = {i * 7}" if i % 20 == 0 else "") + ("," if i < 299 else "") for i in range(300)])
v, vals = 0, []
for i in range(300):
    v = i * 7 if i % 20 == 0 else v + 1
    vals.append(v)
r.append("enum_model!(large::Items : U16 { " + ", ".join(f"{nm(i, 'I').capitalize()} = {x}" for i, x in enumerate(vals)) + " });")
# bitmask using all bits
block("bitmask uint64", "Bits", [f"{nm(i, 'B').upper()}" + ("," if i < 63 else "") for i in range(64)])
r.append("mask_model!(large::Bits: U64);")
# depth
block("struct", "Da", ["bit:3 v;"])
r.append("model!(large::Da { v: Bit<3> });")
for i in range(1, 13):
    block("struct", f"D{chr(97 + i)}", [f"bit:3 v;", f"D{chr(96 + i)} d;"])
    r.append(f"model!(large::D{chr(97 + i)} {{ v: Bit<3>, d: M<large::D{chr(96 + i)}> }});")
# parameters through many levels
block("struct", "Pa(uint8 p)", ["uint8 v if p > 100;", "bit:4 a[p % 3];"])
r.append("deep_model!(large::Pa [p: U8] (x i) { v: ty(U8) if (x.p > 100), a: elems(Bit<4>, conc((x.p % 3) as u64)) });")
for i in range(1, 7):
    block("struct", f"P{chr(97 + i)}(uint8 p)", [f"P{chr(96 + i)}(p) d;", "bit:3 v;"])
    r.append(f"deep_model!(large::P{chr(97 + i)} [p: U8] (x i) {{ d: obj(large::P{chr(96 + i)}, p = x.p), v: ty(Bit<3>) }});")
block("struct", "HasP", ["uint8 n;", "Pg(n) d;"])
r.append("deep_model!(large::HasP [] (x i) { n: ty(U8), d: obj(large::Pg, p = x.n) });")
# long arrays
LONG = [("Plain", "uint16 a[];", "a: Many<U16, 258>"), ("Bits3", "bit:3 a[];", "a: Many<Bit<3>, 300>"), ("Objects", "Point a[];", "a: Many<Point, 260>"),
        ("Strings", "string a[];", "a: Many<Str, 130>"), ("Packed", "packed uint16 a[];", "a: ManyP<U16, 258>"),
        ("PackedObjects", "packed Point a[];", "a: ManyP<Point, 258>"), ("PackedKinds", "packed Kind a[];", "a: ManyP<Kind, 300>"),
        ("PackedUnions", "packed Simple a[];", "a: ManyP<M<unions::Simple>, 130>"),
        ("Tag", "packed Tags a[];", "a: ManyP<M<large::Tags>, 1>"),
        ("Fixed", "int16 a[260];", "a: ManyF<I16, 260>")]
for n, f, m in LONG:
    block("struct", "Long" + n, [f, "uint8 z;"])
    r.append(f"model!(large::Long{n} {{ {m}, z: U8 }});")
block("struct", "LongCounted", ["uint16 n;", "Point a[n];", "uint8 z;"])
r.append("deep_model!(large::LongCounted [] (x i) { n: ty(Is<400>), a: ty(ManyF<Point, 400>), z: ty(U8) });")
r.append('''
macro_rules! many {
    ($n:ident, $put:expr) => {
        /// N equal elements but one
        pub struct $n<T, const N: usize>(std::marker::PhantomData<T>);
        impl<T: Ty, const N: usize> Ty for $n<T, N> {
            type R = Vec<T::R>;
            fn fresh() -> Self::R {
                let y = T::fresh();
                let x = if N == 1 { y.clone() } else { T::fresh() };
                (0..N).map(|i| if i == N / 2 { y.clone() } else { x.clone() }).collect()
            }
            fn put(v: &Self::R, b: &mut Bs) {
                let put: fn(&Self::R, &mut Bs) = $put;
                put(v, b)
            }
            fn same(a: &Self::R, b: &Self::R) -> bool {
                same_all::<T>(a, b)
            }
        }
    };
}
many!(Many, |v, b| {
    b.varsize(v.len() as u64);
    v.iter().for_each(|x| T::put(x, b))
});
many!(ManyP, |v, b| {
    b.varsize(v.len() as u64);
    put_packed_objects::<T>(v, b)
});
many!(ManyF, |v, b| v.iter().for_each(|x| T::put(x, b)));
macro_rules! one {
    ($n:ident, $r:ty, $v:expr, $t:ty $(, $c:ident)?) => {
        pub struct $n$(<const $c: u16>)?;
        impl$(<const $c: u16>)? Ty for $n$(<$c>)? {
            type R = $r;
            fn fresh() -> $r {
                $v
            }
            fn put(v: &$r, b: &mut Bs) {
                <$t>::put(v, b)
            }
            fn same(a: &$r, b: &$r) -> bool {
                a == b
            }
        }
    };
}
one!(One, base::Kind, base::Kind::Last, Kind);
one!(Text, String, "abc".to_string(), Str);
one!(Yes, bool, true, Bool);
one!(Less, i16, -259, I16);
one!(Low, i64, -1000, Int<11>);
one!(At, base::Point, base::Point { x: -2, y: 19 }, Point);
one!(Vu1, u16, 300, VU16);
one!(Is, u16, N, U16, N);''')
open(f"{V}/schemas/large.zs", "w").write("\n".join(z).rstrip() + "\n")
open(f"{V}/gc/src/large.rs", "w").write("\n".join(r) + "\n")
