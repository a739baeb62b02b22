#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the long texts stay readable)."""
import json, os
Z='crates/zserio/src/'; T=Z+'ztype/'; A=T+'array_traits/'; B='crates/zserio-rs-build/src/internal/'; G=B+'generator/'
P=[]
def p(id,title,statement,over,quant,why,files,mech,observe=None,state=None):
    a={'files':files,'mechanism':[{'name':n,'where':w} for n,w in mech]}
    if state: a['state']=[{'name':n,'meaning':m,'where':w} for n,m,w in state]
    if observe: a['observe_at']=observe
    a['hook_needed']=None
    P.append({'id':id,'title':title,'statement':statement,'quantifier':{'over':over,'text':quant},'why_tests_cant':why,'anchors':a})

p('C01','Fixed-width integers and bit fields keep their value and big-endian layout',
 'Writing an integer or bit field of any width from 1 to 64 bits, signed or unsigned, at any bit position appends exactly that many bits, most significant first and in two\'s complement, and leaves the surrounding bits untouched. Reading the same width at that position returns the original value and consumes exactly that many bits.',
 ['inputs'],'every width 1..64 (and every standard width), every value of that width, every bit offset within a byte, every neighbouring bit pattern',
 'The tests round-trip a handful of constants, almost always from bit position 0; width x offset x value is about 2^70 combinations.',
 [T+'bits_encode.rs',T+'bits_decode.rs'],[('write/read_(un)signed_bits, (u)int8..64',T+'bits_encode.rs, '+T+'bits_decode.rs')],['zserio::ztype::{read,write}_*'])
p('C02','Variable-length integers round-trip in the specified wire format',
 'For every value in range of a variable-length integer type, encoding produces the shortest byte sequence the zserio specification prescribes for that value, at any bit position, the reported size equals the number of bits written, and decoding gives the value back consuming exactly those bytes. A value outside the type\'s range is reported as an error and never as a crash or as a different value.',
 ['inputs'],'all 2^16, 2^32 or 2^64 values of each of the nine variable-length types, at every bit offset within a byte',
 'Tests try a few values; each length boundary and the last-byte special case of each type is a separate code path, and the limits of each type are never written.',
 [T+'varuint_encode.rs',T+'varint_encode.rs',T+'varuint_decode.rs',T+'varint_decode.rs',T+'varuint_bitsize.rs',T+'varint_bitsize.rs'],
 [('length selection',T+'varuint_bitsize.rs, '+T+'varint_bitsize.rs'),('byte emission',T+'varuint_encode.rs, '+T+'varint_encode.rs')])
p('C03','Decoding a variable-length integer is total and exact on any bytes',
 'For any byte sequence at any bit position, decoding a variable-length integer either returns the value the wire format assigns to those bytes, consuming exactly the bytes that belong to it, or reports an error because the data ends early or denotes a value the type cannot hold. It never crashes and never returns a truncated value.',
 ['inputs'],'all byte strings up to one byte longer than the longest encoding, all truncation points, all bit offsets',
 'Tests decode a few well-formed byte strings; over-long, truncated and out-of-range encodings are not sampled.',
 [T+'varuint_decode.rs',T+'varint_decode.rs'],[('read_sized_uint / read_sized_int',T+'varuint_decode.rs, '+T+'varint_decode.rs')])
p('C04','Strings, byte blobs and external bit blobs round-trip in the specified format',
 'Writing a string, a byte blob or an external bit blob at any bit position produces its length as a variable-size integer followed by exactly its contents (for a bit blob exactly its bits, most significant first), and the reported size equals the bits written. Reading it back yields an equal value and leaves the stream directly behind it.',
 ['inputs'],'all contents up to the stated number of bytes/bits (every length including lengths that need a two-byte header), all bit offsets',
 'Tests use a few literal strings and blobs at aligned positions; partial last bytes and unaligned positions are hardly sampled.',
 [T+'string_encode.rs',T+'string_decode.rs',T+'bytes_type.rs',T+'extern_type.rs',T+'reader.rs',T+'writer.rs'],
 [('length header + payload',T+'string_encode.rs, '+T+'bytes_type.rs, '+T+'extern_type.rs'),('bulk read',T+'reader.rs')])
p('C05','Floating-point values keep their exact bit pattern',
 'Writing a 64- or 32-bit float at any bit position stores its IEEE 754 pattern big-endian and reading it returns the identical pattern, NaN payloads, infinities, subnormals and signed zero included. A 16-bit float is stored as the nearest half-precision pattern (ties to even), and every half-precision pattern read and written again is unchanged (NaNs stay NaNs).',
 ['inputs'],'all 2^64, 2^32 and 2^16 patterns, all bit offsets',
 'Tests use two or three ordinary numbers.',
 [T+'float_encode.rs',T+'float_decode.rs'],[('to/from_be_bytes',T+'float_encode.rs, '+T+'float_decode.rs')])
p('C06','Decoding untrusted bytes with the runtime never crashes nor over-allocates',
 'For every byte string and every bit position, each runtime decoder (scalars, strings, blobs, plain and packed arrays of every element type) returns either a value or an error: no crash, no arithmetic overflow, no out-of-bounds access. The memory it requests up front is bounded by the size of the input plus the configured array reservation, whatever length the input claims. (The elements of a packed array with delta width zero take no input; there the claimed length itself is what memory is proportional to.)',
 ['inputs','configurations'],'all byte strings up to the stated length, all bit offsets, all array-reservation settings up to the stated bound',
 'Malicious inputs are sampled in the tests by two hand-written arrays; a crash needs one specific claimed length, flag or truncation point.',
 [T+'array.rs',T+'reader.rs',T+'string_decode.rs',T+'extern_type.rs',T+'bytes_type.rs',A+'delta_context.rs'],
 [('remaining-bytes check',T+'reader.rs, '+T+'string_decode.rs'),('reservation cap',T+'array.rs'),('delta accumulation',A+'delta_context.rs')],
 ['largest allocation requested, panics, Result'],[('array reservation cap','largest number of elements reserved before data is seen',T+'array.rs')])
p('C07','Reader, writer and size computation agree on alignment',
 'For every bit position and every alignment, aligning a writer inserts the minimal number of zero bits that makes the position a multiple of the alignment, aligning a reader skips exactly as many, and the size computation adds exactly as many. Rounding a bit count up to an alignment returns the smallest multiple not below it, for every count including zero.',
 ['inputs'],'all alignments 1..=64 (8-bit alignments 1..=255 for rounding), all positions within the stated bound',
 'One alignment (8) is used from a handful of positions.',
 [T+'alignment.rs',T+'bit_alignment.rs'],[('align_reader/align_writer/align_bitsize',T+'alignment.rs'),('align_to',T+'bit_alignment.rs')])
p('C08','Packed arrays give back every element',
 'For every element type a packed array can have, every sequence of elements written as a packed array (length-prefixed or fixed length, at any bit position, byte-aligned elements or not) is read back as the same sequence, and the reader ends exactly where the writer ended. This holds whether or not the encoder decides that delta compression pays off, and also for the extreme values of the element type.',
 ['inputs'],'all element values for all array traits, lengths 0..bound, all bit offsets',
 'Tests pack a few ascending sequences; data loss depends on the pair of neighbouring values, the sign, the width and on the compression decision.',
 [A+'delta_context.rs',T+'array.rs',A],[('delta context',A+'delta_context.rs'),('element traits',A)])
p('C09','Packed arrays have the wire format of the zserio specification',
 'A packed integer array is written as: length (unless fixed), one flag bit, and if set a 6-bit delta width, then the first element in its ordinary encoding and every further element as a signed difference of width plus one bits (none at all when the width is zero), otherwise as ordinary elements. The flag is set exactly when there are at least two elements, the largest absolute difference needs at most 62 bits, and the packed form is strictly smaller than the unpacked form.',
 ['inputs'],'all element values for the integer traits, lengths up to the bound',
 'Comparison with the reference implementation is done for a few fixed files; the decision depends on all element values.',
 [A+'delta_context.rs',T+'array.rs','crates/zserio/src/numbits.rs'],[('init/finish_init/write',A+'delta_context.rs')])
p('C10','Plain arrays are laid out element by element, in order',
 'An array is written as its element count (only when it is not of fixed length) followed by the ordinary encoding of each element in order, each preceded by zero bits up to the next byte boundary if the array is offset-indexed. Reading yields the same elements in the same order and ends exactly where writing ended, including the empty array and element-wise reading.',
 ['inputs'],'all array traits, all element values, lengths 0..bound, all bit offsets, fixed/auto length, aligned/unaligned',
 'Tests cover one trait (32-bit unsigned) with one sequence plus a few generated types.',
 [T+'array.rs',A],[('Array::zserio_write/zserio_read/read_one_element',T+'array.rs')])
p('C11','The reported array size equals the bits actually written',
 'For every array of every element type, packed or plain, fixed or length-prefixed, byte-aligned elements or not, the size reported for a given start position equals the number of bits that writing it from that position produces.',
 ['inputs'],'all array traits, all element values (string/blob lengths included), lengths 0..bound, all start bit positions within a byte',
 'No test compares a size with what is written for most element types; a wrong size corrupts the offsets and lengths that are computed from it.',
 [T+'array.rs',A],[('Array::zserio_bitsize',T+'array.rs'),('bitsize_of(_packed)',A)])
p('C12','Generated structures are encoded field by field, in schema order',
 'For every value of a generated structure, serialising writes each field once, in schema order, in its schema type\'s wire format (integers, bit fields, variable-length integers, floats, bool, string, blobs, nested types, arrays, with the declared alignment), and deserialising those bytes restores an equal value. Offset fields align what they point at to a byte boundary for writer and reader alike.',
 ['inputs','programs'],'all field values within the stated bounds for every structure of the schema corpus, all start bit positions',
 'Tests round-trip one or two hand-made objects per schema; a wrong width, order or missing cast shows only for particular values.',
 [G+'encode.rs',G+'decode.rs',G+'zstruct.rs',G+'array.rs',G+'types.rs'],[('encode_field/decode_field',G+'encode.rs, '+G+'decode.rs')])
p('C13','Optional and conditional fields are present exactly when the schema says so',
 'An optional field is preceded by one presence bit equal to whether it has a value, and a field with a condition occupies bits exactly when its condition holds for the preceding fields. For every combination of presence and field values, encoding then decoding restores the same value with absent fields left absent, and no bit of an absent field is written.',
 ['inputs','programs'],'all presence combinations and field values for the corpus structures with optional/conditional members',
 'Tests exercise a few presence patterns out of 2^n and a few values of the condition\'s operands.',
 [G+'encode.rs',G+'decode.rs',G+'bitsize.rs'],[('optional clause',G+'encode.rs, '+G+'decode.rs')])
p('C14','A generated choice encodes exactly the branch its selector picks',
 'For every selector value, a choice writes and reads exactly the field of the case that lists that value, the default field if no case lists it and there is a default, and nothing for an empty branch; encode followed by decode with the same selector restores an equal value. Several values may share a case, and selectors may be integers, enums or expressions.',
 ['inputs','programs'],'all selector values and all branch payloads for the choice types of the corpus',
 'Tests try single selector values.',
 [G+'zchoice.rs'],[('match on selector',G+'zchoice.rs')])
p('C15','A generated union stores its tag and only the selected member',
 'A union is written as the zero-based index of the selected member as a variable-size integer, followed by that member\'s encoding, and reading restores the same selection and value, both standalone and inside packed arrays. Reading a tag that no member has reports an error.',
 ['inputs','programs'],'all tags, all payloads, all byte strings up to the bound for the unions of the corpus',
 'Tests try one member per union; invalid tags and packed unions are not covered.',
 [G+'zunion.rs'],[('tag write/read',G+'zunion.rs')])
p('C16','Generated enums accept exactly their declared values',
 'Each enum item is encoded as its declared value (explicit, implicit counting up from the previous item, or computed by a constant expression) in the enum\'s base type, at any bit position, and decodes back to the same item, also within packed arrays. Any other value of the base type is reported as an error, not as a crash and not as some item.',
 ['inputs','programs'],'all values of the base type for every enum of the corpus, all bit offsets',
 'Tests decode the declared items of a few enums, never the other values.',
 [G+'zenum.rs',B+'ast/zenum.rs'],[('enum value table',G+'zenum.rs')])
p('C17','Generated bitmasks keep every bit and assign free values correctly',
 'Each named bitmask value has the declared value, or the next free power of two when none is declared, and any combination of bits of the base type is encoded in the base type and decoded unchanged. A test whether a value is set holds exactly when the field has a bit of that value.',
 ['inputs','programs'],'all values of the base type for every bitmask of the corpus, all bit offsets',
 'Tests use a few single values.',
 [G+'zbitmask.rs',B+'ast/zbitmask.rs',G+'expression.rs'],[('auto values',B+'ast/zbitmask.rs'),('isset',G+'expression.rs')])
p('C18','Schema expressions compute what the schema language defines',
 'Functions and conditions generated from schema expressions return, for all operands for which every operand and intermediate result is representable in the common type of the operands, the mathematical result of the schema operators with the schema\'s precedence and associativity (arithmetic, comparison, logical, bitwise, shift, ternary, length, bit-count and enum/bitmask operators). Mixed operand types do not change the result.',
 ['inputs','programs'],'all operand values that do not overflow the operand types for every function of the corpus',
 'Tests evaluate a few functions at a few points.',
 [G+'expression.rs',G+'function.rs',B+'ast/expression.rs'],[('operator mapping and casts',G+'expression.rs')])
p('C19','Parameters reach every parameterised type unchanged',
 'A value passed as parameter to a parameterised structure, choice, array element or nested type is the value its conditions, array lengths, bit widths and functions see on reading, and the decoded object carries the same parameter; this holds through several levels of nesting and for per-element parameters taken from an indexed array.',
 ['inputs','programs'],'all parameter values within the bounds for the parameterised types of the corpus',
 'Tests pass one or two values at one level.',
 [G+'pass_parameters.rs',G+'decode.rs',G+'encode.rs'],[('zserio_read parameters',G+'pass_parameters.rs')])
p('C20','The size a generated object reports equals the bits it writes',
 'For every value of every generated structure, choice, union, enum and bitmask and every start bit position, the reported bit size equals the number of bits serialisation writes from that position.',
 ['inputs','programs'],'all field values within the bounds for every type of the corpus, all start positions within a byte (0..64 for aligned types)',
 'No test compares the two for most field kinds.',
 [G+'bitsize.rs',G+'zstruct.rs',G+'zchoice.rs',G+'zunion.rs'],[('bitsize_of_field',G+'bitsize.rs')])
p('C21','Packed arrays of generated objects restore every object',
 'For every sequence of generated objects (structures with integer, enum, bitmask, nested, optional, string and array members, choices and unions) written as a packed array, reading restores the same sequence and ends exactly where writing ended, and the reported packed size equals the bits written.',
 ['inputs','programs'],'all field values for arrays of up to the stated length, for the packed arrays of the corpus',
 'Tests pack a few objects; each member has its own delta state, so the failing input is a combination of values over several elements.',
 [G+'packed_contexts.rs',G+'encode.rs',G+'decode.rs',A+'object_array_trait.rs'],[('context tree',G+'packed_contexts.rs')])
p('C22','Constants and implicit values have the value the schema computes',
 'Every constant, enum item and bitmask value of a schema gets, in the generated code, exactly the number or string its schema expression denotes (decimal, hexadecimal, octal and binary literals, references to other constants, arithmetic, bitwise, shift, ternary and string concatenation), in a type that can hold it.',
 ['programs'],'the constant expressions of the corpus',
 'Tests compare a few constants.',
 [G+'zconst.rs',B+'ast/expression.rs',B+'ast/zconst.rs'],[('constant evaluation',B+'ast/expression.rs')])
p('C23','Generated decoders turn any input into a value or an error',
 'For every byte string, deserialising any generated type returns a value or an error: it never crashes, never overflows, and requests memory bounded by the input size plus the array reservation. (Array elements that take no input, such as empty structures, are outside: there the claimed length itself is what memory is proportional to.)',
 ['inputs','programs'],'all byte strings up to the stated length for every type of the corpus',
 'Malformed input is sampled once or twice; a crash needs one particular tag, enum value, length or truncation point.',
 [G+'decode.rs',G+'zenum.rs',G+'zunion.rs',G+'zchoice.rs'],[('generated zserio_read',G)])
p('C24','Serialisation entry points agree, pad with zero bits, ignore trailing data',
 'Serialising to a byte vector and to an output stream gives the same bytes: the object\'s bits followed by fewer than eight zero bits. Deserialising from a slice and from an input stream gives the same object, regardless of additional bytes behind the message, and fails when the message is cut short. An extern value made from an object holds exactly the object\'s bits.',
 ['inputs'],'all objects of 0..bound bits, all trailing bytes',
 'The documentation tests call each entry point once.',
 [Z+'lib.rs'],[('to_bytes/to_writer/from_bytes/from_reader',Z+'lib.rs'),('ExternType::from_object',T+'extern_type.rs')])
p('C25','Bit-count helpers are exact for every value',
 'The number of bits needed to represent a value is the position of its highest set bit (0 for 0), and the number of bits needed for n distinct values is the smallest b with 2^b >= n, at least 1 for n = 1 and 0 for n = 0, for every 64-bit value and every integer type.',
 ['inputs'],'all 2^64 values, and all values of the narrower integer types','Tests check a dozen values; a wrong table entry affects single byte values.',
 [Z+'numbits.rs'],[('table lookup',Z+'numbits.rs')])
p('C26','A truncated message is reported, never silently accepted',
 'If any non-empty number of trailing bytes is removed from the encoding of a value, decoding it reports an error; it neither crashes nor returns a value. This holds for every runtime type, for arrays, packed arrays and generated types.',
 ['inputs','programs','crash_points'],'all values within the bounds, all cut positions','Tests truncate a few messages at one position.',
 [T,G+'decode.rs'],[('end-of-data errors',T)])
p('C27','Re-encoding a decoded message preserves its meaning',
 'Whenever an arbitrary byte string decodes successfully as some type, encoding the decoded value succeeds and decoding that encoding gives an equal value. (Packed arrays: for element types that use every bit pattern of their Rust type. Deltas that lead outside a narrower element type are not rejected by the decoder, as in the reference implementation.)',
 ['inputs','programs'],'all byte strings up to the stated length for runtime types and the types of the corpus','Tests only decode bytes the library itself wrote.',
 [T,G],[('encoders/decoders',T+', '+G)])
p('C28','Templates and subtypes are transparent',
 'A field whose type is a subtype or an instantiated template (explicitly named or not, with type and value arguments, nested, used in arrays) is encoded exactly as if the underlying type had been written out, and different instantiations do not influence each other.',
 ['inputs','programs'],'all field values for the template instantiations and subtypes of the corpus','Tests instantiate a few templates and check one value each.',
 [B+'compiler/template_instantiation.rs',B+'compiler/resolve_types.rs',B+'compiler/symbol_scope.rs'],[('instantiation',B+'compiler/template_instantiation.rs')])
p('C29','The schema compiler accepts exactly the valid schema texts',
 'Every schema text that is valid in the schema language is accepted and every invalid one (syntax error, unresolved name, recursive type, wrong argument count) is rejected with a diagnostic.',
 ['programs'],'all schema texts','Tests compile a fixed set of valid schemas.',
 [B+'parser',B+'visitor.rs',B+'model.rs'],[('parser and visitor',B+'visitor.rs')])
p('C30','Code generation is deterministic and independent of file order',
 'Generating code twice from the same schemas, in any order of the input files, produces identical source files.',
 ['configurations','programs'],'all schema sets, all file enumeration orders and hash seeds','Tests generate once.',
 [G+'package.rs',G+'mod_file.rs',B+'model.rs'],[('iteration over maps',G+'mod_file.rs')])
p('C31','Packed arrays of generated objects have the zserio wire format',
 'The bytes written for a packed array of objects are those the packed format defines: the length (unless fixed), then the objects with one delta context per packable number (integer, enum value or bitmask at any depth of nesting, present in the object), whose first occurrence is preceded by a flag and, if packed, the 6-bit width of the largest difference, and whose later occurrences are the differences in that width or unpacked values; a context is packed exactly if that takes fewer bits. Other members are encoded as usual, arrays within the objects are packed on their own, and members that are absent or not selected have no influence.',
 ['inputs','programs'],'all field values, one member at a time and for small objects all at once, for arrays of up to the stated length, for the packed arrays of the corpus',
 'Tests only read back what they wrote; a wrong choice of context, width or packing decision needs particular differences between elements and round-trips anyway.',
 [G+'packed_contexts.rs',G+'encode.rs',G+'zchoice.rs',G+'zunion.rs','crates/zserio/src/ztype/array_traits/delta_context.rs'],[('context tree and delta contexts',G+'packed_contexts.rs')])
p('C32','Reading into a used object leaves nothing of its old content',
 'Reading a message into an object that holds any earlier content (and has the same parameters) gives the same as reading it into a new object: absent optional members become absent, arrays get the length and elements of the message, the selected member and every present member get the values of the message, and writing the object again gives the same bytes.',
 ['inputs','histories','programs'],'all messages of the types of the corpus, read into two earlier contents: everything present and longest, and a mixture',
 'Tests and convenience functions read into new objects only; a leftover shows only when an object is read into twice and the second message has less in it.',
 [G+'decode.rs',G+'zunion.rs',G+'zchoice.rs','crates/zserio/src/ztype/array.rs'],[('resetting of members while decoding',G+'decode.rs'),('clearing of arrays','crates/zserio/src/ztype/array.rs')])
open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'properties.jsonl'),'w').write(''.join(json.dumps(x)+'\n' for x in P))
for x in P:
    assert len(x['title'])<=80,(x['id'],len(x['title']))
    assert x['statement'].count('. ')<=2,x['id']
print(len(P))
