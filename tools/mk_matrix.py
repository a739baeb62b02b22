#!/usr/bin/env python3
"""Writes schemas/matrix.zs and gc/src/h/matrix.rs: every operator on every pair of integer types."""
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# name, schema type, model type, rank, signed
T = [("ua", "uint8", "U8", 8, 0), ("ub", "uint16", "U16", 16, 0), ("uc", "uint32", "U32", 32, 0), ("ud", "uint64", "U64", 64, 0),
     ("ia", "int8", "I8", 8, 1), ("ib", "int16", "I16", 16, 1), ("ic", "int32", "I32", 32, 1), ("id", "int64", "I64", 64, 1),
     ("fa", "bit:5", "Bit<5>", 5, 0), ("fb", "bit:12", "Bit<12>", 12, 0), ("fc", "bit:40", "Bit<40>", 40, 0), ("ga", "int:5", "Int<5>", 5, 1),
     ("va", "varuint16", "VU16", 15, 0), ("vb", "varint16", "VI16", 15, 1), ("vc", "varuint", "VU", 64, 0), ("vd", "varsize", "VSize", 31, 0)]
OPS = [("add", "+"), ("sub", "-"), ("mul", "*"), ("div", "/"), ("rem", "%"), ("and", "&"), ("xor", "^"), ("lt", "<"), ("ge", ">="), ("eq", "=="), ("sel", "?")]
FEW = {t[1]: {"bit": "u64", "int": "i64", "varsize": "u32", "varuint": "u64", "varint": "i64"}.get(t[1].split(":")[0],
       t[1].replace("var", "").replace("uint", "u").replace("int", "i")) for t in T}
NARROW = ("mul", "div", "rem")
z = ["// made by tools/mk_matrix.py", "package matrix;", ""]
r = ["//! C18: every operator on every pair of integer types (made by tools/mk_matrix.py).", "use super::*;", ""]
names = []
for (ln, lt, lm, lr, ls) in T:
    f, arms, few = [], [], []
    for (rn, rt, rm, rr, rs) in T:
        for (op, sym) in OPS:
            signed = ls and rs
            rank = max(lr, rr)
            name = f"{op}{rn}"
            ret = "bool" if op in ("lt", "ge", "eq") else "int64" if signed else "uint64"
            e = f"l > 3 ? l : {rn}" if op == "sel" else f"l {sym} {rn}"
            f.append(f"    function {ret} {name}() {{ return {e}; }}")
            a, b = "l", f"x.{rn} as i128"
            lo, hi = (-(1 << (rank - 1)), (1 << (rank - 1)) - 1) if signed else (0, (1 << rank) - 1)
            call = f"x.{name}()"
            pre = f"[l, r] in {lo}..={hi}"
            if op in ("lt", "ge", "eq"):
                arms.append(f"({rn} {rm}, {call} == (l {sym} r), true)")
            else:
                res = {"sel": "if l > 3 { l } else { r }", "mul": "(l as i32).wrapping_mul(r as i32) as i128",
                       "div": "(l as i32).wrapping_div(r as i32) as i128", "rem": "(l as i32).wrapping_rem(r as i32) as i128"}.get(op, f"l {sym} r")
                cond = f"ok(l, {lo}, {hi}) && ok(r, {lo}, {hi})"
                if op in ("div", "rem"):
                    cond += " && r != 0"
                cond += f" && ok({res}, {lo}, {hi})" if op != "sel" else ""
                m = f"Few<{FEW[rt]}>" if op in NARROW else rm
                (few if op in NARROW else arms).append(f"({rn} {m}, {call} as i128 == {{ {res} }}, {cond})")
    fields = "".join(f"    {t[1]} {t[0]};\n" for t in T)
    S = "M" + ln
    z += [f"struct {S}", "{", f"    {lt} l;", fields.rstrip("\n"), ""] + f + ["};", ""]
    for (h, m, x) in ((f"h_c18_pairs_{ln}", lm, arms), (f"h_c18_products_{ln}", f"Few<{FEW[lt]}>", few)):
        names.append(h)
        r += ["pairs!(", f"    {h}, matrix::{S}, {m}, x l r;"] + ["    " + a + ";" for a in x] + [");"]
r += ["", "harnesses!(" + ", ".join(names) + ");", ""]
open(f"{V}/schemas/matrix.zs", "w").write("\n".join(z))
open(f"{V}/gc/src/h/c18/matrix.rs" if os.path.isdir(f"{V}/gc/src/h/c18") else f"{V}/gc/src/h/matrix.rs", "w").write("\n".join(r))
