import json,subprocess,shutil,os
Z="crates/zserio/src/"
S=[]
def seed(i,p,edits,needs,breaks,main):
    S.append((i,p,edits,needs,breaks,main))
seed("align-size-pow2","C07",[[Z+"ztype/alignment.rs","""    let cur_alignment = bit_pos % u64_alignment_bits;
    (u64_alignment_bits - cur_alignment) % u64_alignment_bits
}""","""    // alignments are small, masking is cheaper than two divisions
    let mask = u64_alignment_bits - 1;
    (u64_alignment_bits - (bit_pos & mask)) & mask
}"""]],"an alignment that is not a power of two (legal in the schema language) and a position that is no multiple of it",
"The size computation pads to another position than writer and reader do: sizes of aligned fields are wrong for alignments such as 12 or 24.",
"""use rust_bitwriter::BitWriter;
fn main() {
    for a in 1..=40u64 {
        for pos in 0..100u64 {
            let mut w = BitWriter::new();
            for _ in 0..pos { w.write_bool(true).unwrap(); }
            zserio::ztype::align_writer(&mut w, a).unwrap();
            let s = zserio::ztype::align_bitsize(pos, a);
            assert_eq!(pos + s, w.bit_count(), "pos {pos} align {a}");
        }
    }
}
""")
seed("delta-limit","C09",[[Z+"ztype/array_traits/delta_context.rs","} else if self.max_bit_number <= MAX_BIT_NUMBER_LIMIT {","} else {"]],
"an array of varuint with at least three nine-byte elements of which two neighbours differ by 2^62 or more, followed by another element",
"The decision that an array is too wide for delta compression is forgotten with the next element: the array is packed with an illegal delta width.",
"""use bitreader::BitReader;
use rust_bitwriter::BitWriter;
use zserio::ztype::{array_traits::VarUintArrayTrait, Array};
fn main() {
    let mk = || Array::<u64> { array_trait: Box::new(VarUintArrayTrait {}), is_packed: true, fixed_size: None };
    for k in 58..64 {
        let b = 1u64 << 57;
        let mut v = vec![b];
        for i in 0..20 {
            v.push(b + (1 << k) - 1 + i);
        }
        let mut w = BitWriter::new();
        mk().zserio_write::<u32>(&mut w, &v, None).unwrap();
        w.close().unwrap();
        let d = w.data().clone();
        // bit 8 is the packing flag, the next six the delta width
        assert_eq!(d[1] >> 7 == 1, k <= 62, "{k}");
        let mut r = BitReader::new(&d);
        let n = mk().zserio_read_array_length(&mut r).unwrap();
        let mut o = vec![];
        mk().zserio_read::<u32>(&mut r, &mut o, n, None).unwrap();
        assert_eq!(o, v);
    }
}
""")
seed("array-size-offsets","C11",[[Z+"ztype/array.rs","if self.array_trait.is_bitsizeof_constant() && index_offsets.is_none() {","if self.array_trait.is_bitsizeof_constant() {"]],
"an offset-indexed array whose elements have a fixed size that is no multiple of 8 bits, or that starts between two bytes",
"The size reported for an array with indexed offsets omits the padding in front of its elements when they have constant size.",
"""use rust_bitwriter::BitWriter;
use zserio::ztype::{array_traits::UnsignedBitFieldArrayTrait, Array};
fn main() {
    for off in 0..8u64 {
        let mut w = BitWriter::new();
        for _ in 0..off { w.write_bool(true).unwrap(); }
        let mk = || Array::<u16> { array_trait: Box::new(UnsignedBitFieldArrayTrait { num_bits: 11 }), is_packed: false, fixed_size: None };
        let d = vec![1u16, 2, 3];
        mk().zserio_write(&mut w, &d, Some(&vec![0u32; 3])).unwrap();
        let s = mk().zserio_bitsize(&d, Some(&vec![0u32; 3]), off).unwrap();
        assert_eq!(off + s, w.bit_count());
    }
}
""")
seed("bitlen-256","C25",[[Z+"numbits.rs","if x >= 1 << 8 {","if x > 1 << 8 {"]],
"a value whose leading bits are exactly 256 at the last step: 256, 2^24, 2^40, 2^56",
"bit_length panics for exact powers of two such as 256; packed arrays with such a delta abort.",
"""fn main() {
    for k in 0..64u32 {
        assert_eq!(zserio::bit_length(1u64 << k) as u32, k + 1);
        assert_eq!(zserio::numbits(1u64 << k) as u32, if k == 0 { 1 } else { k });
    }
}
""")
seed("short-reads","C24",[[Z+"lib.rs","    reader.read_to_end(&mut buffer)?;","""    let mut chunk = [0u8; 4096];
    loop {
        let n = reader.read(&mut chunk)?;
        buffer.extend_from_slice(&chunk[..n]);
        if n < chunk.len() {
            break;
        }
    }"""]],"an input stream that returns fewer bytes than asked for before its end (pipe, socket, chained readers)",
"from_reader stops at the first short read, so a message arriving in pieces is reported as truncated.",
"""use bitreader::BitReader;
use rust_bitwriter::BitWriter;
use std::io::Read;
use zserio::ztype::array_traits::packing_context_node::PackingContextNode;
use zserio::ztype::*;
#[derive(Default, PartialEq, Debug)]
struct Obj {
    v: Vec<u8>,
}
impl ZserioPackableObject for Obj {
    fn zserio_read(&mut self, r: &mut BitReader) -> zserio::Result<()> {
        self.v = read_bytes_type(r)?.data_blob;
        Ok(())
    }
    fn zserio_write(&self, w: &mut BitWriter) -> zserio::Result<()> {
        write_bytes_type(w, &BytesType { byte_size: self.v.len() as u32, data_blob: self.v.clone() })
    }
    fn zserio_read_packed(&mut self, _: &mut PackingContextNode, r: &mut BitReader) -> zserio::Result<()> {
        self.zserio_read(r)
    }
    fn zserio_write_packed(&self, _: &mut PackingContextNode, w: &mut BitWriter) -> zserio::Result<()> {
        self.zserio_write(w)
    }
    fn zserio_bitsize(&self, _: u64) -> zserio::Result<u64> {
        Ok(0)
    }
    fn zserio_bitsize_packed(&self, _: &mut PackingContextNode, _: u64) -> zserio::Result<u64> {
        Ok(0)
    }
    fn zserio_create_packing_context(_: &mut PackingContextNode) {}
    fn zserio_init_packing_context(&self, _: &mut PackingContextNode) -> zserio::Result<()> {
        Ok(())
    }
}
struct OneByOne<'a>(&'a [u8]);
impl Read for OneByOne<'_> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let n = self.0.len().min(b.len()).min(1);
        b[..n].copy_from_slice(&self.0[..n]);
        self.0 = &self.0[n..];
        Ok(n)
    }
}
fn main() {
    let o = Obj { v: vec![1, 2, 3, 4] };
    let d = zserio::to_bytes(&o).unwrap();
    let a: Obj = zserio::from_bytes(&d).unwrap();
    let b: Obj = zserio::from_reader(OneByOne(&d)).unwrap();
    assert!(a == o && b == o);
}
""")
seed("extern-full-bytes","C04",[[Z+"ztype/extern_type.rs","""        let mut last_byte = bit_reader.read_u8(remaining_bits)?;
        let bit_shift = 8 - remaining_bits;
        last_byte <<= bit_shift;
        extern_bytes.push(last_byte);""","""        let last_byte = bit_reader.read_u8(remaining_bits)?;
        let bit_shift = if num_of_full_bytes > 0 {
            8 - remaining_bits
        } else {
            // a single partial byte is kept right-aligned
            0
        };
        extern_bytes.push(last_byte << bit_shift);"""]],
"an external bit blob shorter than one byte",
"Blobs of 1 to 7 bits are read back shifted, so reading and writing them again corrupts them.",
"""use bitreader::BitReader;
use rust_bitwriter::BitWriter;
use zserio::ztype::*;
fn main() {
    for n in 1..=24u32 {
        let bytes = vec![0b1011_0110u8; n.div_ceil(8) as usize];
        let mut blob = bytes.clone();
        if n % 8 != 0 { let l = blob.len() - 1; blob[l] &= 0xffu8 << (8 - n % 8); }
        let e = ExternType { bit_size: n, data_blob: blob };
        let mut w = BitWriter::new();
        write_extern_type(&mut w, &e).unwrap();
        w.close().unwrap();
        let d = w.data().clone();
        assert_eq!(read_extern_type(&mut BitReader::new(&d)).unwrap(), e, "{n} bits");
    }
}
""")
seed("blob-reserve","C06",[[Z+"ztype/reader.rs","""    let mut result = vec![0_u8; num_bytes as usize];
""","""    let mut result = vec![0_u8; (num_bytes as usize).next_multiple_of(8)];
    result.truncate(num_bytes as usize);
"""],[Z+"ztype/reader.rs","""    if reader.remaining() < (num_bytes as u64 * 8) {""","""    if reader.remaining() < (num_bytes as u64).wrapping_mul(8) & u32::MAX as u64 {"""]],
"a length of 2^29 bytes or more in a five-byte varsize in front of little data",
"The check that the claimed length is available works on 32 bits only: a few bytes of input make the reader allocate more than 512 MiB before it fails.",
"""use bitreader::BitReader;
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering};
struct A;
static MAX: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { MAX.fetch_max(l.size(), Ordering::Relaxed); System.alloc(l) }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 { MAX.fetch_max(l.size(), Ordering::Relaxed); System.alloc_zeroed(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
}
#[global_allocator]
static G: A = A;
fn main() {
    // varsize 0x2000_0000 and three bytes of data
    let d = [0x81u8, 0x80, 0x80, 0x80, 0x00, 1, 2, 3];
    let mut d = d.to_vec();
    d[0] = 0x81; // 1 << 29 = bits 29.. : 0x81 0x80 0x80 0x80 0x00
    let r = zserio::ztype::read_bytes_type(&mut BitReader::new(&d));
    assert!(r.is_err());
    assert!(MAX.load(Ordering::Relaxed) < 1 << 20, "allocated {}", MAX.load(Ordering::Relaxed));
}
""")
seed("varuint-short-form","C02",[[Z+"ztype/varuint_encode.rs","    let needs_complete_bit_range = needed_bytes == max_bytes;","    let needs_complete_bit_range = needed_bytes == max_bytes && v >> (7 * max_bytes as u32 - 7) > 1;"]],
"a value that needs the last byte but whose leading seven-bit group is 0 or 1, just above the largest value of one byte less",
"Values just above the largest shorter encoding are written with only seven bits in the last byte and come back as other values.",
"""use bitreader::BitReader;
use rust_bitwriter::BitWriter;
fn main() {
    for k in 0..64 {
        for d in [-1i64, 0, 1] {
            let v = (1u64 << k).wrapping_add(d as u64);
            let mut w = BitWriter::new();
            zserio::ztype::write_varuint(&mut w, v).unwrap();
            w.close().unwrap();
            let b = w.data().clone();
            assert_eq!(zserio::ztype::read_varuint(&mut BitReader::new(&b)).unwrap(), v);
        }
    }
}
""")
seed("delta-prev","C08",[[Z+"ztype/array_traits/delta_context.rs","""            if max_bit_number > self.max_bit_number {
                self.max_bit_number = max_bit_number;
                if self.max_bit_number > MAX_BIT_NUMBER_LIMIT {
                    self.is_packed = false;
                }
            }
            self.previous_element = array_trait.to_u64(element);""","""            if max_bit_number >= self.max_bit_number {
                self.max_bit_number = max_bit_number;
                if self.max_bit_number > MAX_BIT_NUMBER_LIMIT {
                    self.is_packed = false;
                }
                self.previous_element = array_trait.to_u64(element);
            }"""]],
"at least four elements so that a small step between two large ones moves the reference: the widest delta is then measured against the wrong element",
"The delta width of a packed array can come out too small for a later step, which is then cut off on writing: other elements are read back.",
"""use bitreader::BitReader;
use rust_bitwriter::BitWriter;
use zserio::ztype::{array_traits::UnsignedBitFieldArrayTrait, Array};
fn main() {
    let mk = || Array::<u32> { array_trait: Box::new(UnsignedBitFieldArrayTrait { num_bits: 32 }), is_packed: true, fixed_size: None };
    for v in [vec![0u32, 7, 4, 12, 16], vec![10, 17, 14, 22, 5, 9], vec![0, 100, 50, 170, 60]] {
        let mut w = BitWriter::new();
        mk().zserio_write::<u32>(&mut w, &v, None).unwrap();
        w.close().unwrap();
        let d = w.data().clone();
        let mut r = BitReader::new(&d);
        let n = mk().zserio_read_array_length(&mut r).unwrap();
        let mut o = vec![];
        mk().zserio_read::<u32>(&mut r, &mut o, n, None).unwrap();
        assert_eq!(o, v);
    }
}
""")
for i,p,e,n,b,m in S:
    subprocess.run(["python3","/verif/tools/seed.py","new",i,p],input=json.dumps(dict(edits=e,needs=n,breaks=b)),text=True,check=True)
    open(f"/verif/seeded/{i}/main.rs","w").write(m)
    shutil.copy("/verif/tools/demo_rt.sh",f"/verif/seeded/{i}/demo.sh")
    print(i)
