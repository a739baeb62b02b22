//! What is asked of every generated type.
use crate::types::*;
use sup::*;
use zserio::ZserioPackableObject;

/// Bytes as the schema prescribes, and back to the same value (at any bit position).
pub fn wire_at<X: Model>(f: Frame) {
    let v = X::any();
    let mut w = BitWriter::new();
    f.open(&mut w);
    must!(v.zserio_write(&mut w), "writing fails");
    let n = f.written(&w);
    let d = f.close(w);
    let mut b = f.open_ref();
    hint(&d);
    v.wire(&mut b);
    check!(n == b.len() - f.off as u64, "wrong number of bits written");
    check!(eq(&d, &f.close_ref(b)), "the bytes differ from the schema's wire format");
    let mut r = f.reader(&d);
    let mut x = v.blank();
    must!(x.zserio_read(&mut r), "reading back fails");
    check!(x.alike(&v), "read back a different value");
    check!(f.at_end(&mut r, n), "the reader does not end behind the object");
    reach!();
}
pub fn wire<X: Model>() {
    wire_at::<X>(frame())
}
pub fn wire2<X: Model>() {
    wire_at::<X>(frame2())
}
/// Round trip only (the bits themselves are decided elsewhere).
pub fn trip<X: Model>() {
    let f = frame2();
    let v = X::any();
    let mut w = BitWriter::new();
    f.open(&mut w);
    must!(v.zserio_write(&mut w), "writing fails");
    let n = f.written(&w);
    let d = f.close(w);
    let mut r = f.reader(&d);
    let mut x = v.blank();
    must!(x.zserio_read(&mut r), "reading back fails");
    check!(x.alike(&v), "read back a different value");
    check!(f.at_end(&mut r, n), "the reader does not end behind the object");
    reach!();
}
/// The reported size is the number of bits written from the same position.
pub fn size_at<X: Model>(f: Frame) {
    let v = X::any();
    let mut w = BitWriter::new();
    f.open(&mut w);
    must!(v.zserio_write(&mut w), "writing fails");
    let n = f.written(&w);
    let s = must!(v.zserio_bitsize(f.off as u64), "computing the size fails");
    check!(s == n, "the reported size is not the number of bits written");
    reach!();
}
pub fn size<X: Model>() {
    size_at::<X>(frame())
}
/// Message lengths: those of the quick tier, and a quarter more in the thorough tier.
fn depth(n: u64) -> usize {
    (n + opt(0) * ((n + 3) / 4)) as usize
}
/// Any bytes: a value or an error.
pub fn total<X: Model>(n: u64) {
    let d = bytes(depth(n));
    let off = pick(2) * 3;
    let mut r = BitReader::new(&d);
    r.skip(off).unwrap();
    let mut x = X::any_params();
    let ok = x.zserio_read(&mut r).is_ok();
    log(ok as u64);
    check!(heap_max() <= 1 << 20, "memory beyond input size and array reservation");
    reach!();
}
/// The same for the messages a condition admits.
pub fn total_if<X: Model>(n: u64, ok: fn(&[u8]) -> bool) {
    let d = bytes(depth(n));
    assume(ok(&d));
    let mut r = BitReader::new(&d);
    let mut x = X::any_params();
    let ok = x.zserio_read(&mut r).is_ok();
    log(ok as u64);
    check!(heap_max() <= 1 << 20, "memory beyond input size and array reservation");
    reach!();
}
/// The same for messages that begin with the length of an array (at byte `at`), of up to five elements.
pub fn total_array<X: Model>(n: u64, at: usize) {
    let mut d = bytes(depth(n));
    d[at] = pick(6) as u8;
    let mut r = BitReader::new(&d);
    let mut x = X::any_params();
    let ok = x.zserio_read(&mut r).is_ok();
    log(ok as u64);
    check!(heap_max() <= 1 << 20, "memory beyond input size and array reservation");
    reach!();
}
/// What decodes can be encoded again and decodes to the same value.
pub fn again<X: Model>(n: u64) {
    again_of::<X>(&bytes(depth(n)))
}
pub fn again_if<X: Model>(n: u64, ok: fn(&[u8]) -> bool) {
    let d = bytes(depth(n));
    assume(ok(&d));
    again_of::<X>(&d)
}
pub fn again_array<X: Model>(n: u64, at: usize) {
    let mut d = bytes(depth(n));
    d[at] = pick(6) as u8;
    again_of::<X>(&d)
}
fn again_of<X: Model>(d: &[u8]) {
    let mut r = BitReader::new(d);
    let mut x = X::any_params();
    if x.zserio_read(&mut r).is_ok() {
        let mut w = BitWriter::new();
        must!(x.zserio_write(&mut w), "encoding a decoded value fails");
        w.close().unwrap();
        let e = w.data().clone();
        logb(&e);
        let mut y = x.blank();
        let mut r = BitReader::new(&e);
        must!(y.zserio_read(&mut r), "decoding the encoding of a decoded value fails");
        check!(y.alike(&x), "decoding again gives another value");
        reach!();
    }
}
/// Reading into an object with other content: nothing of it stays.
pub fn reuse<X: Model>() {
    if pick(2) == 0 {
        focus(Some(u64::MAX - 1))
    } else {
        full()
    }
    let mut x = X::any();
    focus(None);
    let v = X::any();
    x.adopt(&v);
    let mut w = BitWriter::new();
    must!(v.zserio_write(&mut w), "writing fails");
    w.close().unwrap();
    let d = w.data().clone();
    let mut r = BitReader::new(&d);
    must!(x.zserio_read(&mut r), "reading into a used object fails");
    check!(x.alike(&v), "a used object is not what was read into it");
    let mut w = BitWriter::new();
    must!(x.zserio_write(&mut w), "writing what was read into a used object fails");
    w.close().unwrap();
    check!(eq(w.data(), &d), "a used object is written differently");
    reach!();
}
/// A cut message is an error.
pub fn cut<X: Model>() {
    let v = X::any();
    let mut w = BitWriter::new();
    must!(v.zserio_write(&mut w), "writing fails");
    w.close().unwrap();
    let d = w.data().clone();
    logb(&d);
    if !d.is_empty() {
        let keep = pick(d.len() as u64) as usize;
        let mut r = BitReader::new(&d[..keep]);
        let mut x = v.blank();
        check!(x.zserio_read(&mut r).is_err(), "a truncated message is read without an error");
    }
    reach!();
}

/// A union: tags that no member has are errors, the others select their member.
pub fn tags<X: Model>(members: u64, payload: usize) {
    let tag = bits(31);
    let mut b = Bs::new();
    b.varsize(tag);
    b.bytes(&bytes(payload));
    let d = b.pack();
    let mut r = BitReader::new(&d);
    let mut x = X::default();
    let res = x.zserio_read(&mut r);
    if tag >= members {
        check!(res.is_err(), "an unknown union tag is accepted");
    } else if res.is_ok() {
        let mut e = Bs::new();
        x.wire(&mut e);
        let mut t = Bs::new();
        t.varsize(tag);
        check!(e.len() >= t.len() && eq(&e.b[..t.len() as usize], &t.b), "another member is selected");
    }
    reach!();
}
/// Every value of the base type: an item exactly if the schema declares it.
pub fn enum_values<X: Enum>() {
    let f = frame();
    let v = X::B::fresh();
    let mut b = f.open_ref();
    X::B::put(&v, &mut b);
    let n = b.len() - f.off as u64;
    let d = f.close_ref(b);
    let mut r = f.reader(&d);
    let mut x = X::default();
    let res = x.zserio_read(&mut r);
    let mut known = false;
    for (item, num) in X::items() {
        if X::B::same(&num, &v) {
            known = true;
            check!(res.is_ok(), "a declared value is rejected");
            check!(x == item, "decoded as another item");
            check!(f.at_end(&mut r, n), "consumes other bits");
        }
    }
    if !known {
        check!(res.is_err(), "an undeclared value is accepted");
    }
    reach!();
}
/// Every value of the base type is kept.
pub fn mask_values<X: Mask>() {
    let f = frame();
    let v = X::B::fresh();
    let x = X::make(v.clone());
    check!(X::B::same(&x.get(), &v), "the bits change");
    let mut w = BitWriter::new();
    f.open(&mut w);
    must!(x.zserio_write(&mut w), "writing fails");
    let n = f.written(&w);
    let d = f.close(w);
    let mut b = f.open_ref();
    X::B::put(&v, &mut b);
    check!(n == b.len() - f.off as u64, "wrong number of bits written");
    check!(eq(&d, &f.close_ref(b)), "the bytes differ");
    let mut r = f.reader(&d);
    let mut y = X::default();
    must!(y.zserio_read(&mut r), "reading back fails");
    check!(X::B::same(&y.get(), &v), "read back other bits");
    check!(f.at_end(&mut r, n), "consumes other bits");
    reach!();
}

/// Like trip and size for a packed array of objects, one member of the objects at a time.
pub fn packed<X: Model>(members: u64) {
    focus(Some(pick(members)));
    let f = frame2();
    let v = X::any();
    let mut w = BitWriter::new();
    f.open(&mut w);
    must!(v.zserio_write(&mut w), "writing fails");
    let n = f.written(&w);
    let s = must!(v.zserio_bitsize(f.off as u64), "computing the size fails");
    check!(s == n, "the reported size is not the number of bits written");
    let d = f.close(w);
    let mut r = f.reader(&d);
    let mut x = v.blank();
    must!(x.zserio_read(&mut r), "reading back fails");
    check!(x.alike(&v), "read back a different value");
    check!(f.at_end(&mut r, n), "the reader does not end behind the object");
    check!(units() <= members, "some member was never varied");
    reach!();
}
/// The wire format of a packed array of objects, one member at a time.
pub fn packed_wire<X: Model>(members: u64) {
    focus(Some(pick(members)));
    wire_at::<X>(frame2())
}
/// The same with numbers close to both ends of their range.
pub fn packed_narrow<X: Model>(members: u64) {
    narrow(9);
    packed::<X>(members)
}
pub fn packed_wire_narrow<X: Model>(members: u64) {
    narrow(9);
    packed_wire::<X>(members)
}
/// The size of a packed array of objects, one member at a time.
pub fn packed_size<X: Model>(members: u64) {
    focus(Some(pick(members)));
    size_at::<X>(frame2());
    check!(units() <= members, "some member was never varied");
}
pub fn packed_size_narrow<X: Model>(members: u64) {
    narrow(9);
    packed_size::<X>(members)
}
pub fn packed_cut<X: Model>(members: u64) {
    focus(Some(pick(members)));
    cut::<X>()
}
pub fn packed_cut_narrow<X: Model>(members: u64) {
    narrow(9);
    packed_cut::<X>(members)
}
