//! C24: entry points to_bytes / to_writer / from_bytes / from_reader.
use sup::*;
use zserio::ztype::array_traits::packing_context_node::PackingContextNode;
use zserio::ztype::*;
use zserio::ZserioPackableObject;

/// An object of any number of bits, written in chunks; the length is fixed per run.
static mut NBITS: u64 = 0;
#[derive(Default, Clone)]
struct Obj {
    v: Vec<u64>,
}
fn chunks() -> Vec<u32> {
    let mut n = unsafe { NBITS };
    let mut o = vec![];
    while n > 0 {
        let k = if n > 37 { 37 } else { n };
        o.push(k as u32);
        n -= k;
    }
    o
}
impl ZserioPackableObject for Obj {
    fn zserio_read(&mut self, r: &mut BitReader) -> zserio::Result<()> {
        self.v.clear();
        for n in chunks() {
            self.v.push(read_unsigned_bits(r, n as u8)?);
        }
        Ok(())
    }
    fn zserio_write(&self, w: &mut BitWriter) -> zserio::Result<()> {
        for (n, v) in chunks().iter().zip(&self.v) {
            write_unsigned_bits(w, *v, *n as u8)?;
        }
        Ok(())
    }
    fn zserio_read_packed(&mut self, _: &mut PackingContextNode, r: &mut BitReader) -> zserio::Result<()> {
        self.zserio_read(r)
    }
    fn zserio_write_packed(&self, _: &mut PackingContextNode, w: &mut BitWriter) -> zserio::Result<()> {
        self.zserio_write(w)
    }
    fn zserio_bitsize(&self, _: u64) -> zserio::Result<u64> {
        Ok(unsafe { NBITS })
    }
    fn zserio_bitsize_packed(&self, _: &mut PackingContextNode, _: u64) -> zserio::Result<u64> {
        Ok(unsafe { NBITS })
    }
    fn zserio_create_packing_context(_: &mut PackingContextNode) {}
    fn zserio_init_packing_context(&self, _: &mut PackingContextNode) -> zserio::Result<()> {
        Ok(())
    }
}
fn obj() -> (Obj, Bs) {
    let n = pick(opt(7) + 1);
    unsafe { NBITS = n };
    let mut b = Bs::new();
    let mut v = vec![];
    for k in chunks() {
        let x = bits(k);
        b.u(x, k);
        v.push(x);
    }
    (Obj { v }, b)
}
fn same(a: &[u64], b: &[u64]) -> bool {
    let mut d = (a.len() ^ b.len()) as u64;
    if d == 0 {
        for i in 0..a.len() {
            d |= a[i] ^ b[i];
        }
    }
    d == 0
}
fn h_c24_agree() {
    let (o, b) = obj();
    let d = must!(zserio::to_bytes(&o), "to_bytes fails");
    logb(&d);
    check!(eq(&d, &b.pack()), "bytes are not the object's bits padded with zero bits");
    let mut out: Vec<u8> = vec![];
    must!(zserio::to_writer(&mut out, &o), "to_writer fails");
    check!(eq(&d, &out), "to_writer and to_bytes differ");
    let extra = bytes(pick(3) as usize);
    let mut e = d.clone();
    e.extend_from_slice(&extra);
    let x: Obj = must!(zserio::from_bytes(&e), "from_bytes fails");
    check!(same(&x.v, &o.v), "from_bytes gives another object");
    let y: Obj = must!(zserio::from_reader(&e[..]), "from_reader fails");
    check!(same(&y.v, &o.v), "from_reader gives another object");
    reach!();
}
/// a stream that hands out its data in pieces of any size
struct Slow<'a> {
    d: &'a [u8],
    cuts: [u8; 3],
    i: usize,
}
impl<'a> std::io::Read for Slow<'a> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        let want = if self.i < 3 { self.cuts[self.i] as usize } else { self.d.len() };
        self.i += 1;
        let n = want.min(self.d.len()).min(buf.len());
        buf[..n].copy_from_slice(&self.d[..n]);
        self.d = &self.d[n..];
        Ok(n)
    }
}
/// a sink that accepts one byte at a time
struct Narrow(Vec<u8>);
impl std::io::Write for Narrow {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if b.is_empty() {
            return Ok(0);
        }
        self.0.push(b[0]);
        Ok(1)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
fn h_c24_pieces() {
    let n = 8 * pick(6) + pick(2) * 3;
    unsafe { NBITS = n };
    let mut v = vec![];
    for k in chunks() {
        v.push(bits(k));
    }
    let o = Obj { v };
    let d = must!(zserio::to_bytes(&o), "to_bytes fails");
    let mut s = Narrow(vec![]);
    must!(zserio::to_writer(&mut s, &o), "to_writer fails");
    check!(eq(&d, &s.0), "to_writer loses bytes on short writes");
    let cuts = [1 + pick(3) as u8, 1 + pick(3) as u8, 1];
    let y: Obj = must!(zserio::from_reader(Slow { d: &d, cuts, i: 0 }), "from_reader fails");
    check!(same(&y.v, &o.v), "from_reader gives another object on short reads");
    reach!();
}
fn h_c24_truncated() {
    let (o, _) = obj();
    let d = must!(zserio::to_bytes(&o), "to_bytes fails");
    if d.is_empty() {
        return;
    }
    let keep = pick(d.len() as u64) as usize;
    let x = zserio::from_bytes::<Obj>(&d[..keep]);
    check!(x.is_err(), "a truncated message is accepted");
    let y = zserio::from_reader::<_, Obj>(&d[..keep]);
    check!(y.is_err(), "a truncated stream is accepted");
    reach!();
}
/// An extern made from an object holds exactly its bits.
fn h_c24_extern() {
    let (o, b) = obj();
    let e = must!(ExternType::from_object(&o), "making an extern from an object fails");
    check!(e.bit_size as u64 == unsafe { NBITS }, "the extern has another number of bits than the object");
    check!(eq(&e.data_blob, &b.pack()), "the extern holds other bits than the object");
    let mut w = BitWriter::new();
    must!(write_extern_type(&mut w, &e), "writing the extern fails");
    let n = w.bit_count();
    w.close().unwrap();
    let d = w.data().clone();
    check!(n == bitsize_of_extern(&e), "the extern's size is wrong");
    let f = must!(read_extern_type(&mut BitReader::new(&d)), "reading the extern fails");
    check!(f.bit_size == e.bit_size, "the extern is read back with another size");
    let x: Obj = must!(zserio::from_bytes(&f.data_blob), "reading the object from the extern fails");
    check!(same(&x.v, &o.v), "the object in the extern is another one");
    reach!();
}
harnesses!(h_c24_extern, h_c24_agree, h_c24_pieces, h_c24_truncated);
