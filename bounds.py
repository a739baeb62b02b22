"""Which harness groups decide a property, and within which bounds."""
GROUPS = {p: ["rt"] for p in "C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C24 C25 C26 C27".split()}
GROUPS.update({p: ["gc"] for p in "C12 C13 C14 C15 C16 C17 C18 C19 C20 C21 C22 C23 C28 C31 C32".split()})
GROUPS.update({p: ["rt", "gc"] for p in "C26 C27".split()})
_Q = dict(thorough=0, string=6, blob=8, extern=40, al_pos=40, al_max=40, size_pos=62, obj_bits=80, plain=3, plain_var=2,
          packed=3, packed_var=2, in_scalar=5, in_narrow=4, in_wide=9, in_var=4, alt_pos=8, pn=3, pw=2, po=2,
          obj_in=5, re_in=7, re_in_s=6, long=5, long_w=3)
_T = dict(_Q, thorough=1, string=10, blob=10, extern=64, al_pos=64, al_max=64, plain=4, plain_var=3, packed=4, packed_var=3,
          in_scalar=7, in_narrow=5, in_wide=11, in_var=5, pn=4, pw=3, po=3, obj_in=7, re_in=9, re_in_s=7, long=6, long_w=4)
_N = list(_Q)
OPTS = {"rt": {"quick": ",".join(str(_Q[k]) for k in _N), "thorough": ",".join(str(_T[k]) for k in _N)}}
OPTS["gc"] = {"quick": "0", "thorough": "1"}
# Keyed by property: what is symbolic, how far, and what lies outside. Numbers of the runtime harnesses are the options above
# (quick, thorough); _MSG applies to the checks over generated code.
_V = "every value of every number, enum item, bitmask and float pattern; strings and blobs up to 1 byte, arrays up to the lengths declared in gc/src/models.rs (0 to 3 elements)"
BOUNDS_TEXT = {
    "C01": "all widths 1..=64, all 8 bit offsets, all values and all surrounding bits",
    "C02": "all 10 variable-length types, all 8 bit offsets, every value of the Rust type (2^16..2^64)",
    "C03": "all 10 variable-length types, all 8 bit offsets, every byte sequence of every length up to one byte more than the longest encoding",
    "C04": "contents up to 6 (10) bytes for strings, 8 (10) for byte blobs, 40 (64) bits for bit blobs, all contents, all 8 bit offsets; headers of longer lengths by their number of bytes",
    "C05": "every bit pattern of every float, all 8 bit offsets",
    "C06": "inputs of every length up to 3..5 (4..7) bytes, 9 (11) for 64-bit elements, all contents, all start bits, plain and packed, fixed and length-prefixed; array reservation at its default and small values",
    "C07": "positions up to 2^62, every alignment up to 40 (64) for reader and writer, every alignment and position below 2^62 for the computations",
    "C08": "25 element types, up to 3 (4) elements (2 (3) for variable-length ones), all values, length-prefixed and fixed, aligned and not, two bit offsets; up to 5 (6) elements for selected types; 130, 258 or 300 elements of which one differs",
    "C09": "as C08 for the integer types with 2..4 elements (pn, pw); the reference is an independent implementation of the format",
    "C10": "25 element types, up to 3 (4) elements, all values, length-prefixed and fixed, aligned and not, all bit offsets",
    "C11": "as C08 and C10, every start position modulo 8",
    "C12": f"the structures of the corpus, up to 90 fields and 13 levels deep (large.zs), arrays of 130 to 400 elements with one element differing from the others: {_V}; start offsets 0 and 3 bits",
    "C13": f"optional and conditional fields of the corpus (optionals.zs, combos.zs, combos2): {_V}; all combinations of presence",
    "C14": f"choices of up to 80 cases by integer, bool, enum, bitmask, member, constant and expression: every selector for which a case or default exists; {_V}",
    "C15": f"all unions of the corpus, up to 140 members (two-byte tags); {_V}; every tag up to 2^31 when reading",
    "C16": "enums of up to 300 items over all base types (fixed, variable-length, bit fields): every item, every value of the base type when reading, two start offsets",
    "C17": "bitmasks over all base types, every value, every named value; isset over every value",
    "C18": "all operands for which operands, intermediate and final results are representable; every operator over every pair of the 16 integer types (products of the wide types: operands of up to 9 significant bits near the ends of the range)",
    "C19": f"parameters of every type: every value that the parameter's type holds (array lengths up to 3); nesting up to three levels; {_V}",
    "C20": f"every type of the corpus; {_V}; start positions 0..7 (objects) and three frames (packed arrays); value sampled one member at a time in packed arrays",
    "C21": "packed arrays of up to 2..3 (one more) objects; one member at a time takes every value (all elements at once) while the others keep fixed values, every such member is covered; members of variable-length types: values within 9 bits of both ends of their range (quick), every value (thorough, _deep harnesses)",
    "C22": "every constant, enum item and bitmask value of consts.zs and enums.zs: equality with the value the schema denotes for every value of the type",
    "C23": "every type of the corpus on every input of up to 3..8 bytes (per type, see gc/src/h/c23.rs); arrays with claimed lengths of up to 5 where the count is in the way",
    "C24": "objects of 0..80 bits, every content, also as extern; cut at every byte; up to 2 trailing bytes",
    "C25": "every u64 and every value of each integer type",
    "C26": "runtime types as C04/C08/C10; every type of the corpus with the values of C12..C21; cut after every number of bytes",
    "C27": "every input of up to 4..9 bytes (runtime) and 2..8 bytes (generated, per type)",
    "C28": f"instances of all templates of templates.zs and all subtypes; {_V}; against the model of the type written out",
    "C31": "as C21",
    "C32": f"structures, choices, unions and template instances of the corpus; new content: {_V}; old content: every decision for the most (present, longest, last member) or a fixed mixture",
}


def secs_for(name, tier):
    return 240 if tier == "quick" else 3600
