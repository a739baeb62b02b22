//! C18: every operator on every pair of integer types (made by tools/mk_matrix.py).
use super::*;

pairs!(
    h_c18_pairs_ua, matrix::Mua, U8, x l r;
    (ua U8, x.addua() as i128 == { l + r }, ok(l, 0, 255) && ok(r, 0, 255) && ok(l + r, 0, 255));
    (ua U8, x.subua() as i128 == { l - r }, ok(l, 0, 255) && ok(r, 0, 255) && ok(l - r, 0, 255));
    (ua U8, x.andua() as i128 == { l & r }, ok(l, 0, 255) && ok(r, 0, 255) && ok(l & r, 0, 255));
    (ua U8, x.xorua() as i128 == { l ^ r }, ok(l, 0, 255) && ok(r, 0, 255) && ok(l ^ r, 0, 255));
    (ua U8, x.ltua() == (l < r), true);
    (ua U8, x.geua() == (l >= r), true);
    (ua U8, x.equa() == (l == r), true);
    (ua U8, x.selua() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 255) && ok(r, 0, 255));
    (ub U16, x.addub() as i128 == { l + r }, ok(l, 0, 65535) && ok(r, 0, 65535) && ok(l + r, 0, 65535));
    (ub U16, x.subub() as i128 == { l - r }, ok(l, 0, 65535) && ok(r, 0, 65535) && ok(l - r, 0, 65535));
    (ub U16, x.andub() as i128 == { l & r }, ok(l, 0, 65535) && ok(r, 0, 65535) && ok(l & r, 0, 65535));
    (ub U16, x.xorub() as i128 == { l ^ r }, ok(l, 0, 65535) && ok(r, 0, 65535) && ok(l ^ r, 0, 65535));
    (ub U16, x.ltub() == (l < r), true);
    (ub U16, x.geub() == (l >= r), true);
    (ub U16, x.equb() == (l == r), true);
    (ub U16, x.selub() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 65535) && ok(r, 0, 65535));
    (uc U32, x.adduc() as i128 == { l + r }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && ok(l + r, 0, 4294967295));
    (uc U32, x.subuc() as i128 == { l - r }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && ok(l - r, 0, 4294967295));
    (uc U32, x.anduc() as i128 == { l & r }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && ok(l & r, 0, 4294967295));
    (uc U32, x.xoruc() as i128 == { l ^ r }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && ok(l ^ r, 0, 4294967295));
    (uc U32, x.ltuc() == (l < r), true);
    (uc U32, x.geuc() == (l >= r), true);
    (uc U32, x.equc() == (l == r), true);
    (uc U32, x.seluc() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295));
    (ud U64, x.addud() as i128 == { l + r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l + r, 0, 18446744073709551615));
    (ud U64, x.subud() as i128 == { l - r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l - r, 0, 18446744073709551615));
    (ud U64, x.andud() as i128 == { l & r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l & r, 0, 18446744073709551615));
    (ud U64, x.xorud() as i128 == { l ^ r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l ^ r, 0, 18446744073709551615));
    (ud U64, x.ltud() == (l < r), true);
    (ud U64, x.geud() == (l >= r), true);
    (ud U64, x.equd() == (l == r), true);
    (ud U64, x.selud() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615));
    (ia I8, x.addia() as i128 == { l + r }, ok(l, 0, 255) && ok(r, 0, 255) && ok(l + r, 0, 255));
    (ia I8, x.subia() as i128 == { l - r }, ok(l, 0, 255) && ok(r, 0, 255) && ok(l - r, 0, 255));
    (ia I8, x.andia() as i128 == { l & r }, ok(l, 0, 255) && ok(r, 0, 255) && ok(l & r, 0, 255));
    (ia I8, x.xoria() as i128 == { l ^ r }, ok(l, 0, 255) && ok(r, 0, 255) && ok(l ^ r, 0, 255));
    (ia I8, x.ltia() == (l < r), true);
    (ia I8, x.geia() == (l >= r), true);
    (ia I8, x.eqia() == (l == r), true);
    (ia I8, x.selia() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 255) && ok(r, 0, 255));
    (ib I16, x.addib() as i128 == { l + r }, ok(l, 0, 65535) && ok(r, 0, 65535) && ok(l + r, 0, 65535));
    (ib I16, x.subib() as i128 == { l - r }, ok(l, 0, 65535) && ok(r, 0, 65535) && ok(l - r, 0, 65535));
    (ib I16, x.andib() as i128 == { l & r }, ok(l, 0, 65535) && ok(r, 0, 65535) && ok(l & r, 0, 65535));
    (ib I16, x.xorib() as i128 == { l ^ r }, ok(l, 0, 65535) && ok(r, 0, 65535) && ok(l ^ r, 0, 65535));
    (ib I16, x.ltib() == (l < r), true);
    (ib I16, x.geib() == (l >= r), true);
    (ib I16, x.eqib() == (l == r), true);
    (ib I16, x.selib() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 65535) && ok(r, 0, 65535));
    (ic I32, x.addic() as i128 == { l + r }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && ok(l + r, 0, 4294967295));
    (ic I32, x.subic() as i128 == { l - r }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && ok(l - r, 0, 4294967295));
    (ic I32, x.andic() as i128 == { l & r }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && ok(l & r, 0, 4294967295));
    (ic I32, x.xoric() as i128 == { l ^ r }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && ok(l ^ r, 0, 4294967295));
    (ic I32, x.ltic() == (l < r), true);
    (ic I32, x.geic() == (l >= r), true);
    (ic I32, x.eqic() == (l == r), true);
    (ic I32, x.selic() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295));
    (id I64, x.addid() as i128 == { l + r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l + r, 0, 18446744073709551615));
    (id I64, x.subid() as i128 == { l - r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l - r, 0, 18446744073709551615));
    (id I64, x.andid() as i128 == { l & r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l & r, 0, 18446744073709551615));
    (id I64, x.xorid() as i128 == { l ^ r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l ^ r, 0, 18446744073709551615));
    (id I64, x.ltid() == (l < r), true);
    (id I64, x.geid() == (l >= r), true);
    (id I64, x.eqid() == (l == r), true);
    (id I64, x.selid() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615));
    (fa Bit<5>, x.addfa() as i128 == { l + r }, ok(l, 0, 255) && ok(r, 0, 255) && ok(l + r, 0, 255));
    (fa Bit<5>, x.subfa() as i128 == { l - r }, ok(l, 0, 255) && ok(r, 0, 255) && ok(l - r, 0, 255));
    (fa Bit<5>, x.andfa() as i128 == { l & r }, ok(l, 0, 255) && ok(r, 0, 255) && ok(l & r, 0, 255));
    (fa Bit<5>, x.xorfa() as i128 == { l ^ r }, ok(l, 0, 255) && ok(r, 0, 255) && ok(l ^ r, 0, 255));
    (fa Bit<5>, x.ltfa() == (l < r), true);
    (fa Bit<5>, x.gefa() == (l >= r), true);
    (fa Bit<5>, x.eqfa() == (l == r), true);
    (fa Bit<5>, x.selfa() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 255) && ok(r, 0, 255));
    (fb Bit<12>, x.addfb() as i128 == { l + r }, ok(l, 0, 4095) && ok(r, 0, 4095) && ok(l + r, 0, 4095));
    (fb Bit<12>, x.subfb() as i128 == { l - r }, ok(l, 0, 4095) && ok(r, 0, 4095) && ok(l - r, 0, 4095));
    (fb Bit<12>, x.andfb() as i128 == { l & r }, ok(l, 0, 4095) && ok(r, 0, 4095) && ok(l & r, 0, 4095));
    (fb Bit<12>, x.xorfb() as i128 == { l ^ r }, ok(l, 0, 4095) && ok(r, 0, 4095) && ok(l ^ r, 0, 4095));
    (fb Bit<12>, x.ltfb() == (l < r), true);
    (fb Bit<12>, x.gefb() == (l >= r), true);
    (fb Bit<12>, x.eqfb() == (l == r), true);
    (fb Bit<12>, x.selfb() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 4095) && ok(r, 0, 4095));
    (fc Bit<40>, x.addfc() as i128 == { l + r }, ok(l, 0, 1099511627775) && ok(r, 0, 1099511627775) && ok(l + r, 0, 1099511627775));
    (fc Bit<40>, x.subfc() as i128 == { l - r }, ok(l, 0, 1099511627775) && ok(r, 0, 1099511627775) && ok(l - r, 0, 1099511627775));
    (fc Bit<40>, x.andfc() as i128 == { l & r }, ok(l, 0, 1099511627775) && ok(r, 0, 1099511627775) && ok(l & r, 0, 1099511627775));
    (fc Bit<40>, x.xorfc() as i128 == { l ^ r }, ok(l, 0, 1099511627775) && ok(r, 0, 1099511627775) && ok(l ^ r, 0, 1099511627775));
    (fc Bit<40>, x.ltfc() == (l < r), true);
    (fc Bit<40>, x.gefc() == (l >= r), true);
    (fc Bit<40>, x.eqfc() == (l == r), true);
    (fc Bit<40>, x.selfc() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 1099511627775) && ok(r, 0, 1099511627775));
    (ga Int<5>, x.addga() as i128 == { l + r }, ok(l, 0, 255) && ok(r, 0, 255) && ok(l + r, 0, 255));
    (ga Int<5>, x.subga() as i128 == { l - r }, ok(l, 0, 255) && ok(r, 0, 255) && ok(l - r, 0, 255));
    (ga Int<5>, x.andga() as i128 == { l & r }, ok(l, 0, 255) && ok(r, 0, 255) && ok(l & r, 0, 255));
    (ga Int<5>, x.xorga() as i128 == { l ^ r }, ok(l, 0, 255) && ok(r, 0, 255) && ok(l ^ r, 0, 255));
    (ga Int<5>, x.ltga() == (l < r), true);
    (ga Int<5>, x.gega() == (l >= r), true);
    (ga Int<5>, x.eqga() == (l == r), true);
    (ga Int<5>, x.selga() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 255) && ok(r, 0, 255));
    (va VU16, x.addva() as i128 == { l + r }, ok(l, 0, 32767) && ok(r, 0, 32767) && ok(l + r, 0, 32767));
    (va VU16, x.subva() as i128 == { l - r }, ok(l, 0, 32767) && ok(r, 0, 32767) && ok(l - r, 0, 32767));
    (va VU16, x.andva() as i128 == { l & r }, ok(l, 0, 32767) && ok(r, 0, 32767) && ok(l & r, 0, 32767));
    (va VU16, x.xorva() as i128 == { l ^ r }, ok(l, 0, 32767) && ok(r, 0, 32767) && ok(l ^ r, 0, 32767));
    (va VU16, x.ltva() == (l < r), true);
    (va VU16, x.geva() == (l >= r), true);
    (va VU16, x.eqva() == (l == r), true);
    (va VU16, x.selva() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 32767) && ok(r, 0, 32767));
    (vb VI16, x.addvb() as i128 == { l + r }, ok(l, 0, 32767) && ok(r, 0, 32767) && ok(l + r, 0, 32767));
    (vb VI16, x.subvb() as i128 == { l - r }, ok(l, 0, 32767) && ok(r, 0, 32767) && ok(l - r, 0, 32767));
    (vb VI16, x.andvb() as i128 == { l & r }, ok(l, 0, 32767) && ok(r, 0, 32767) && ok(l & r, 0, 32767));
    (vb VI16, x.xorvb() as i128 == { l ^ r }, ok(l, 0, 32767) && ok(r, 0, 32767) && ok(l ^ r, 0, 32767));
    (vb VI16, x.ltvb() == (l < r), true);
    (vb VI16, x.gevb() == (l >= r), true);
    (vb VI16, x.eqvb() == (l == r), true);
    (vb VI16, x.selvb() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 32767) && ok(r, 0, 32767));
    (vc VU, x.addvc() as i128 == { l + r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l + r, 0, 18446744073709551615));
    (vc VU, x.subvc() as i128 == { l - r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l - r, 0, 18446744073709551615));
    (vc VU, x.andvc() as i128 == { l & r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l & r, 0, 18446744073709551615));
    (vc VU, x.xorvc() as i128 == { l ^ r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l ^ r, 0, 18446744073709551615));
    (vc VU, x.ltvc() == (l < r), true);
    (vc VU, x.gevc() == (l >= r), true);
    (vc VU, x.eqvc() == (l == r), true);
    (vc VU, x.selvc() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615));
    (vd VSize, x.addvd() as i128 == { l + r }, ok(l, 0, 2147483647) && ok(r, 0, 2147483647) && ok(l + r, 0, 2147483647));
    (vd VSize, x.subvd() as i128 == { l - r }, ok(l, 0, 2147483647) && ok(r, 0, 2147483647) && ok(l - r, 0, 2147483647));
    (vd VSize, x.andvd() as i128 == { l & r }, ok(l, 0, 2147483647) && ok(r, 0, 2147483647) && ok(l & r, 0, 2147483647));
    (vd VSize, x.xorvd() as i128 == { l ^ r }, ok(l, 0, 2147483647) && ok(r, 0, 2147483647) && ok(l ^ r, 0, 2147483647));
    (vd VSize, x.ltvd() == (l < r), true);
    (vd VSize, x.gevd() == (l >= r), true);
    (vd VSize, x.eqvd() == (l == r), true);
    (vd VSize, x.selvd() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 2147483647) && ok(r, 0, 2147483647));
);
pairs!(
    h_c18_products_ua, matrix::Mua, Few<u8>, x l r;
    (ua Few<u8>, x.mulua() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 255) && ok(r, 0, 255) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 255));
    (ua Few<u8>, x.divua() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 255) && ok(r, 0, 255) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 255));
    (ua Few<u8>, x.remua() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 255) && ok(r, 0, 255) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 255));
    (ub Few<u16>, x.mulub() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 65535) && ok(r, 0, 65535) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 65535));
    (ub Few<u16>, x.divub() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 65535) && ok(r, 0, 65535) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 65535));
    (ub Few<u16>, x.remub() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 65535) && ok(r, 0, 65535) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 65535));
    (uc Few<u32>, x.muluc() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 4294967295));
    (uc Few<u32>, x.divuc() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 4294967295));
    (uc Few<u32>, x.remuc() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 4294967295));
    (ud Few<u64>, x.mulud() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 18446744073709551615));
    (ud Few<u64>, x.divud() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 18446744073709551615));
    (ud Few<u64>, x.remud() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 18446744073709551615));
    (ia Few<i8>, x.mulia() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 255) && ok(r, 0, 255) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 255));
    (ia Few<i8>, x.divia() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 255) && ok(r, 0, 255) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 255));
    (ia Few<i8>, x.remia() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 255) && ok(r, 0, 255) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 255));
    (ib Few<i16>, x.mulib() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 65535) && ok(r, 0, 65535) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 65535));
    (ib Few<i16>, x.divib() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 65535) && ok(r, 0, 65535) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 65535));
    (ib Few<i16>, x.remib() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 65535) && ok(r, 0, 65535) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 65535));
    (ic Few<i32>, x.mulic() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 4294967295));
    (ic Few<i32>, x.divic() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 4294967295));
    (ic Few<i32>, x.remic() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 4294967295));
    (id Few<i64>, x.mulid() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 18446744073709551615));
    (id Few<i64>, x.divid() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 18446744073709551615));
    (id Few<i64>, x.remid() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 18446744073709551615));
    (fa Few<u64>, x.mulfa() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 255) && ok(r, 0, 255) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 255));
    (fa Few<u64>, x.divfa() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 255) && ok(r, 0, 255) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 255));
    (fa Few<u64>, x.remfa() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 255) && ok(r, 0, 255) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 255));
    (fb Few<u64>, x.mulfb() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 4095) && ok(r, 0, 4095) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 4095));
    (fb Few<u64>, x.divfb() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 4095) && ok(r, 0, 4095) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 4095));
    (fb Few<u64>, x.remfb() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 4095) && ok(r, 0, 4095) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 4095));
    (fc Few<u64>, x.mulfc() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 1099511627775) && ok(r, 0, 1099511627775) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 1099511627775));
    (fc Few<u64>, x.divfc() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 1099511627775) && ok(r, 0, 1099511627775) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 1099511627775));
    (fc Few<u64>, x.remfc() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 1099511627775) && ok(r, 0, 1099511627775) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 1099511627775));
    (ga Few<i64>, x.mulga() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 255) && ok(r, 0, 255) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 255));
    (ga Few<i64>, x.divga() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 255) && ok(r, 0, 255) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 255));
    (ga Few<i64>, x.remga() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 255) && ok(r, 0, 255) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 255));
    (va Few<u16>, x.mulva() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 32767) && ok(r, 0, 32767) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 32767));
    (va Few<u16>, x.divva() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 32767) && ok(r, 0, 32767) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 32767));
    (va Few<u16>, x.remva() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 32767) && ok(r, 0, 32767) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 32767));
    (vb Few<i16>, x.mulvb() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 32767) && ok(r, 0, 32767) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 32767));
    (vb Few<i16>, x.divvb() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 32767) && ok(r, 0, 32767) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 32767));
    (vb Few<i16>, x.remvb() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 32767) && ok(r, 0, 32767) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 32767));
    (vc Few<u64>, x.mulvc() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 18446744073709551615));
    (vc Few<u64>, x.divvc() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 18446744073709551615));
    (vc Few<u64>, x.remvc() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 18446744073709551615));
    (vd Few<u32>, x.mulvd() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 2147483647) && ok(r, 0, 2147483647) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 2147483647));
    (vd Few<u32>, x.divvd() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 2147483647) && ok(r, 0, 2147483647) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 2147483647));
    (vd Few<u32>, x.remvd() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 2147483647) && ok(r, 0, 2147483647) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 2147483647));
);
pairs!(
    h_c18_pairs_ub, matrix::Mub, U16, x l r;
    (ua U8, x.addua() as i128 == { l + r }, ok(l, 0, 65535) && ok(r, 0, 65535) && ok(l + r, 0, 65535));
    (ua U8, x.subua() as i128 == { l - r }, ok(l, 0, 65535) && ok(r, 0, 65535) && ok(l - r, 0, 65535));
    (ua U8, x.andua() as i128 == { l & r }, ok(l, 0, 65535) && ok(r, 0, 65535) && ok(l & r, 0, 65535));
    (ua U8, x.xorua() as i128 == { l ^ r }, ok(l, 0, 65535) && ok(r, 0, 65535) && ok(l ^ r, 0, 65535));
    (ua U8, x.ltua() == (l < r), true);
    (ua U8, x.geua() == (l >= r), true);
    (ua U8, x.equa() == (l == r), true);
    (ua U8, x.selua() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 65535) && ok(r, 0, 65535));
    (ub U16, x.addub() as i128 == { l + r }, ok(l, 0, 65535) && ok(r, 0, 65535) && ok(l + r, 0, 65535));
    (ub U16, x.subub() as i128 == { l - r }, ok(l, 0, 65535) && ok(r, 0, 65535) && ok(l - r, 0, 65535));
    (ub U16, x.andub() as i128 == { l & r }, ok(l, 0, 65535) && ok(r, 0, 65535) && ok(l & r, 0, 65535));
    (ub U16, x.xorub() as i128 == { l ^ r }, ok(l, 0, 65535) && ok(r, 0, 65535) && ok(l ^ r, 0, 65535));
    (ub U16, x.ltub() == (l < r), true);
    (ub U16, x.geub() == (l >= r), true);
    (ub U16, x.equb() == (l == r), true);
    (ub U16, x.selub() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 65535) && ok(r, 0, 65535));
    (uc U32, x.adduc() as i128 == { l + r }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && ok(l + r, 0, 4294967295));
    (uc U32, x.subuc() as i128 == { l - r }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && ok(l - r, 0, 4294967295));
    (uc U32, x.anduc() as i128 == { l & r }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && ok(l & r, 0, 4294967295));
    (uc U32, x.xoruc() as i128 == { l ^ r }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && ok(l ^ r, 0, 4294967295));
    (uc U32, x.ltuc() == (l < r), true);
    (uc U32, x.geuc() == (l >= r), true);
    (uc U32, x.equc() == (l == r), true);
    (uc U32, x.seluc() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295));
    (ud U64, x.addud() as i128 == { l + r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l + r, 0, 18446744073709551615));
    (ud U64, x.subud() as i128 == { l - r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l - r, 0, 18446744073709551615));
    (ud U64, x.andud() as i128 == { l & r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l & r, 0, 18446744073709551615));
    (ud U64, x.xorud() as i128 == { l ^ r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l ^ r, 0, 18446744073709551615));
    (ud U64, x.ltud() == (l < r), true);
    (ud U64, x.geud() == (l >= r), true);
    (ud U64, x.equd() == (l == r), true);
    (ud U64, x.selud() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615));
    (ia I8, x.addia() as i128 == { l + r }, ok(l, 0, 65535) && ok(r, 0, 65535) && ok(l + r, 0, 65535));
    (ia I8, x.subia() as i128 == { l - r }, ok(l, 0, 65535) && ok(r, 0, 65535) && ok(l - r, 0, 65535));
    (ia I8, x.andia() as i128 == { l & r }, ok(l, 0, 65535) && ok(r, 0, 65535) && ok(l & r, 0, 65535));
    (ia I8, x.xoria() as i128 == { l ^ r }, ok(l, 0, 65535) && ok(r, 0, 65535) && ok(l ^ r, 0, 65535));
    (ia I8, x.ltia() == (l < r), true);
    (ia I8, x.geia() == (l >= r), true);
    (ia I8, x.eqia() == (l == r), true);
    (ia I8, x.selia() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 65535) && ok(r, 0, 65535));
    (ib I16, x.addib() as i128 == { l + r }, ok(l, 0, 65535) && ok(r, 0, 65535) && ok(l + r, 0, 65535));
    (ib I16, x.subib() as i128 == { l - r }, ok(l, 0, 65535) && ok(r, 0, 65535) && ok(l - r, 0, 65535));
    (ib I16, x.andib() as i128 == { l & r }, ok(l, 0, 65535) && ok(r, 0, 65535) && ok(l & r, 0, 65535));
    (ib I16, x.xorib() as i128 == { l ^ r }, ok(l, 0, 65535) && ok(r, 0, 65535) && ok(l ^ r, 0, 65535));
    (ib I16, x.ltib() == (l < r), true);
    (ib I16, x.geib() == (l >= r), true);
    (ib I16, x.eqib() == (l == r), true);
    (ib I16, x.selib() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 65535) && ok(r, 0, 65535));
    (ic I32, x.addic() as i128 == { l + r }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && ok(l + r, 0, 4294967295));
    (ic I32, x.subic() as i128 == { l - r }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && ok(l - r, 0, 4294967295));
    (ic I32, x.andic() as i128 == { l & r }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && ok(l & r, 0, 4294967295));
    (ic I32, x.xoric() as i128 == { l ^ r }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && ok(l ^ r, 0, 4294967295));
    (ic I32, x.ltic() == (l < r), true);
    (ic I32, x.geic() == (l >= r), true);
    (ic I32, x.eqic() == (l == r), true);
    (ic I32, x.selic() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295));
    (id I64, x.addid() as i128 == { l + r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l + r, 0, 18446744073709551615));
    (id I64, x.subid() as i128 == { l - r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l - r, 0, 18446744073709551615));
    (id I64, x.andid() as i128 == { l & r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l & r, 0, 18446744073709551615));
    (id I64, x.xorid() as i128 == { l ^ r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l ^ r, 0, 18446744073709551615));
    (id I64, x.ltid() == (l < r), true);
    (id I64, x.geid() == (l >= r), true);
    (id I64, x.eqid() == (l == r), true);
    (id I64, x.selid() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615));
    (fa Bit<5>, x.addfa() as i128 == { l + r }, ok(l, 0, 65535) && ok(r, 0, 65535) && ok(l + r, 0, 65535));
    (fa Bit<5>, x.subfa() as i128 == { l - r }, ok(l, 0, 65535) && ok(r, 0, 65535) && ok(l - r, 0, 65535));
    (fa Bit<5>, x.andfa() as i128 == { l & r }, ok(l, 0, 65535) && ok(r, 0, 65535) && ok(l & r, 0, 65535));
    (fa Bit<5>, x.xorfa() as i128 == { l ^ r }, ok(l, 0, 65535) && ok(r, 0, 65535) && ok(l ^ r, 0, 65535));
    (fa Bit<5>, x.ltfa() == (l < r), true);
    (fa Bit<5>, x.gefa() == (l >= r), true);
    (fa Bit<5>, x.eqfa() == (l == r), true);
    (fa Bit<5>, x.selfa() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 65535) && ok(r, 0, 65535));
    (fb Bit<12>, x.addfb() as i128 == { l + r }, ok(l, 0, 65535) && ok(r, 0, 65535) && ok(l + r, 0, 65535));
    (fb Bit<12>, x.subfb() as i128 == { l - r }, ok(l, 0, 65535) && ok(r, 0, 65535) && ok(l - r, 0, 65535));
    (fb Bit<12>, x.andfb() as i128 == { l & r }, ok(l, 0, 65535) && ok(r, 0, 65535) && ok(l & r, 0, 65535));
    (fb Bit<12>, x.xorfb() as i128 == { l ^ r }, ok(l, 0, 65535) && ok(r, 0, 65535) && ok(l ^ r, 0, 65535));
    (fb Bit<12>, x.ltfb() == (l < r), true);
    (fb Bit<12>, x.gefb() == (l >= r), true);
    (fb Bit<12>, x.eqfb() == (l == r), true);
    (fb Bit<12>, x.selfb() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 65535) && ok(r, 0, 65535));
    (fc Bit<40>, x.addfc() as i128 == { l + r }, ok(l, 0, 1099511627775) && ok(r, 0, 1099511627775) && ok(l + r, 0, 1099511627775));
    (fc Bit<40>, x.subfc() as i128 == { l - r }, ok(l, 0, 1099511627775) && ok(r, 0, 1099511627775) && ok(l - r, 0, 1099511627775));
    (fc Bit<40>, x.andfc() as i128 == { l & r }, ok(l, 0, 1099511627775) && ok(r, 0, 1099511627775) && ok(l & r, 0, 1099511627775));
    (fc Bit<40>, x.xorfc() as i128 == { l ^ r }, ok(l, 0, 1099511627775) && ok(r, 0, 1099511627775) && ok(l ^ r, 0, 1099511627775));
    (fc Bit<40>, x.ltfc() == (l < r), true);
    (fc Bit<40>, x.gefc() == (l >= r), true);
    (fc Bit<40>, x.eqfc() == (l == r), true);
    (fc Bit<40>, x.selfc() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 1099511627775) && ok(r, 0, 1099511627775));
    (ga Int<5>, x.addga() as i128 == { l + r }, ok(l, 0, 65535) && ok(r, 0, 65535) && ok(l + r, 0, 65535));
    (ga Int<5>, x.subga() as i128 == { l - r }, ok(l, 0, 65535) && ok(r, 0, 65535) && ok(l - r, 0, 65535));
    (ga Int<5>, x.andga() as i128 == { l & r }, ok(l, 0, 65535) && ok(r, 0, 65535) && ok(l & r, 0, 65535));
    (ga Int<5>, x.xorga() as i128 == { l ^ r }, ok(l, 0, 65535) && ok(r, 0, 65535) && ok(l ^ r, 0, 65535));
    (ga Int<5>, x.ltga() == (l < r), true);
    (ga Int<5>, x.gega() == (l >= r), true);
    (ga Int<5>, x.eqga() == (l == r), true);
    (ga Int<5>, x.selga() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 65535) && ok(r, 0, 65535));
    (va VU16, x.addva() as i128 == { l + r }, ok(l, 0, 65535) && ok(r, 0, 65535) && ok(l + r, 0, 65535));
    (va VU16, x.subva() as i128 == { l - r }, ok(l, 0, 65535) && ok(r, 0, 65535) && ok(l - r, 0, 65535));
    (va VU16, x.andva() as i128 == { l & r }, ok(l, 0, 65535) && ok(r, 0, 65535) && ok(l & r, 0, 65535));
    (va VU16, x.xorva() as i128 == { l ^ r }, ok(l, 0, 65535) && ok(r, 0, 65535) && ok(l ^ r, 0, 65535));
    (va VU16, x.ltva() == (l < r), true);
    (va VU16, x.geva() == (l >= r), true);
    (va VU16, x.eqva() == (l == r), true);
    (va VU16, x.selva() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 65535) && ok(r, 0, 65535));
    (vb VI16, x.addvb() as i128 == { l + r }, ok(l, 0, 65535) && ok(r, 0, 65535) && ok(l + r, 0, 65535));
    (vb VI16, x.subvb() as i128 == { l - r }, ok(l, 0, 65535) && ok(r, 0, 65535) && ok(l - r, 0, 65535));
    (vb VI16, x.andvb() as i128 == { l & r }, ok(l, 0, 65535) && ok(r, 0, 65535) && ok(l & r, 0, 65535));
    (vb VI16, x.xorvb() as i128 == { l ^ r }, ok(l, 0, 65535) && ok(r, 0, 65535) && ok(l ^ r, 0, 65535));
    (vb VI16, x.ltvb() == (l < r), true);
    (vb VI16, x.gevb() == (l >= r), true);
    (vb VI16, x.eqvb() == (l == r), true);
    (vb VI16, x.selvb() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 65535) && ok(r, 0, 65535));
    (vc VU, x.addvc() as i128 == { l + r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l + r, 0, 18446744073709551615));
    (vc VU, x.subvc() as i128 == { l - r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l - r, 0, 18446744073709551615));
    (vc VU, x.andvc() as i128 == { l & r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l & r, 0, 18446744073709551615));
    (vc VU, x.xorvc() as i128 == { l ^ r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l ^ r, 0, 18446744073709551615));
    (vc VU, x.ltvc() == (l < r), true);
    (vc VU, x.gevc() == (l >= r), true);
    (vc VU, x.eqvc() == (l == r), true);
    (vc VU, x.selvc() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615));
    (vd VSize, x.addvd() as i128 == { l + r }, ok(l, 0, 2147483647) && ok(r, 0, 2147483647) && ok(l + r, 0, 2147483647));
    (vd VSize, x.subvd() as i128 == { l - r }, ok(l, 0, 2147483647) && ok(r, 0, 2147483647) && ok(l - r, 0, 2147483647));
    (vd VSize, x.andvd() as i128 == { l & r }, ok(l, 0, 2147483647) && ok(r, 0, 2147483647) && ok(l & r, 0, 2147483647));
    (vd VSize, x.xorvd() as i128 == { l ^ r }, ok(l, 0, 2147483647) && ok(r, 0, 2147483647) && ok(l ^ r, 0, 2147483647));
    (vd VSize, x.ltvd() == (l < r), true);
    (vd VSize, x.gevd() == (l >= r), true);
    (vd VSize, x.eqvd() == (l == r), true);
    (vd VSize, x.selvd() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 2147483647) && ok(r, 0, 2147483647));
);
pairs!(
    h_c18_products_ub, matrix::Mub, Few<u16>, x l r;
    (ua Few<u8>, x.mulua() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 65535) && ok(r, 0, 65535) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 65535));
    (ua Few<u8>, x.divua() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 65535) && ok(r, 0, 65535) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 65535));
    (ua Few<u8>, x.remua() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 65535) && ok(r, 0, 65535) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 65535));
    (ub Few<u16>, x.mulub() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 65535) && ok(r, 0, 65535) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 65535));
    (ub Few<u16>, x.divub() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 65535) && ok(r, 0, 65535) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 65535));
    (ub Few<u16>, x.remub() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 65535) && ok(r, 0, 65535) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 65535));
    (uc Few<u32>, x.muluc() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 4294967295));
    (uc Few<u32>, x.divuc() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 4294967295));
    (uc Few<u32>, x.remuc() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 4294967295));
    (ud Few<u64>, x.mulud() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 18446744073709551615));
    (ud Few<u64>, x.divud() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 18446744073709551615));
    (ud Few<u64>, x.remud() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 18446744073709551615));
    (ia Few<i8>, x.mulia() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 65535) && ok(r, 0, 65535) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 65535));
    (ia Few<i8>, x.divia() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 65535) && ok(r, 0, 65535) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 65535));
    (ia Few<i8>, x.remia() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 65535) && ok(r, 0, 65535) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 65535));
    (ib Few<i16>, x.mulib() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 65535) && ok(r, 0, 65535) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 65535));
    (ib Few<i16>, x.divib() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 65535) && ok(r, 0, 65535) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 65535));
    (ib Few<i16>, x.remib() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 65535) && ok(r, 0, 65535) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 65535));
    (ic Few<i32>, x.mulic() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 4294967295));
    (ic Few<i32>, x.divic() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 4294967295));
    (ic Few<i32>, x.remic() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 4294967295));
    (id Few<i64>, x.mulid() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 18446744073709551615));
    (id Few<i64>, x.divid() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 18446744073709551615));
    (id Few<i64>, x.remid() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 18446744073709551615));
    (fa Few<u64>, x.mulfa() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 65535) && ok(r, 0, 65535) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 65535));
    (fa Few<u64>, x.divfa() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 65535) && ok(r, 0, 65535) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 65535));
    (fa Few<u64>, x.remfa() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 65535) && ok(r, 0, 65535) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 65535));
    (fb Few<u64>, x.mulfb() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 65535) && ok(r, 0, 65535) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 65535));
    (fb Few<u64>, x.divfb() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 65535) && ok(r, 0, 65535) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 65535));
    (fb Few<u64>, x.remfb() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 65535) && ok(r, 0, 65535) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 65535));
    (fc Few<u64>, x.mulfc() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 1099511627775) && ok(r, 0, 1099511627775) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 1099511627775));
    (fc Few<u64>, x.divfc() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 1099511627775) && ok(r, 0, 1099511627775) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 1099511627775));
    (fc Few<u64>, x.remfc() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 1099511627775) && ok(r, 0, 1099511627775) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 1099511627775));
    (ga Few<i64>, x.mulga() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 65535) && ok(r, 0, 65535) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 65535));
    (ga Few<i64>, x.divga() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 65535) && ok(r, 0, 65535) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 65535));
    (ga Few<i64>, x.remga() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 65535) && ok(r, 0, 65535) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 65535));
    (va Few<u16>, x.mulva() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 65535) && ok(r, 0, 65535) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 65535));
    (va Few<u16>, x.divva() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 65535) && ok(r, 0, 65535) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 65535));
    (va Few<u16>, x.remva() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 65535) && ok(r, 0, 65535) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 65535));
    (vb Few<i16>, x.mulvb() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 65535) && ok(r, 0, 65535) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 65535));
    (vb Few<i16>, x.divvb() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 65535) && ok(r, 0, 65535) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 65535));
    (vb Few<i16>, x.remvb() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 65535) && ok(r, 0, 65535) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 65535));
    (vc Few<u64>, x.mulvc() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 18446744073709551615));
    (vc Few<u64>, x.divvc() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 18446744073709551615));
    (vc Few<u64>, x.remvc() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 18446744073709551615));
    (vd Few<u32>, x.mulvd() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 2147483647) && ok(r, 0, 2147483647) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 2147483647));
    (vd Few<u32>, x.divvd() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 2147483647) && ok(r, 0, 2147483647) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 2147483647));
    (vd Few<u32>, x.remvd() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 2147483647) && ok(r, 0, 2147483647) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 2147483647));
);
pairs!(
    h_c18_pairs_uc, matrix::Muc, U32, x l r;
    (ua U8, x.addua() as i128 == { l + r }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && ok(l + r, 0, 4294967295));
    (ua U8, x.subua() as i128 == { l - r }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && ok(l - r, 0, 4294967295));
    (ua U8, x.andua() as i128 == { l & r }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && ok(l & r, 0, 4294967295));
    (ua U8, x.xorua() as i128 == { l ^ r }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && ok(l ^ r, 0, 4294967295));
    (ua U8, x.ltua() == (l < r), true);
    (ua U8, x.geua() == (l >= r), true);
    (ua U8, x.equa() == (l == r), true);
    (ua U8, x.selua() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295));
    (ub U16, x.addub() as i128 == { l + r }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && ok(l + r, 0, 4294967295));
    (ub U16, x.subub() as i128 == { l - r }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && ok(l - r, 0, 4294967295));
    (ub U16, x.andub() as i128 == { l & r }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && ok(l & r, 0, 4294967295));
    (ub U16, x.xorub() as i128 == { l ^ r }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && ok(l ^ r, 0, 4294967295));
    (ub U16, x.ltub() == (l < r), true);
    (ub U16, x.geub() == (l >= r), true);
    (ub U16, x.equb() == (l == r), true);
    (ub U16, x.selub() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295));
    (uc U32, x.adduc() as i128 == { l + r }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && ok(l + r, 0, 4294967295));
    (uc U32, x.subuc() as i128 == { l - r }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && ok(l - r, 0, 4294967295));
    (uc U32, x.anduc() as i128 == { l & r }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && ok(l & r, 0, 4294967295));
    (uc U32, x.xoruc() as i128 == { l ^ r }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && ok(l ^ r, 0, 4294967295));
    (uc U32, x.ltuc() == (l < r), true);
    (uc U32, x.geuc() == (l >= r), true);
    (uc U32, x.equc() == (l == r), true);
    (uc U32, x.seluc() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295));
    (ud U64, x.addud() as i128 == { l + r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l + r, 0, 18446744073709551615));
    (ud U64, x.subud() as i128 == { l - r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l - r, 0, 18446744073709551615));
    (ud U64, x.andud() as i128 == { l & r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l & r, 0, 18446744073709551615));
    (ud U64, x.xorud() as i128 == { l ^ r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l ^ r, 0, 18446744073709551615));
    (ud U64, x.ltud() == (l < r), true);
    (ud U64, x.geud() == (l >= r), true);
    (ud U64, x.equd() == (l == r), true);
    (ud U64, x.selud() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615));
    (ia I8, x.addia() as i128 == { l + r }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && ok(l + r, 0, 4294967295));
    (ia I8, x.subia() as i128 == { l - r }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && ok(l - r, 0, 4294967295));
    (ia I8, x.andia() as i128 == { l & r }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && ok(l & r, 0, 4294967295));
    (ia I8, x.xoria() as i128 == { l ^ r }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && ok(l ^ r, 0, 4294967295));
    (ia I8, x.ltia() == (l < r), true);
    (ia I8, x.geia() == (l >= r), true);
    (ia I8, x.eqia() == (l == r), true);
    (ia I8, x.selia() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295));
    (ib I16, x.addib() as i128 == { l + r }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && ok(l + r, 0, 4294967295));
    (ib I16, x.subib() as i128 == { l - r }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && ok(l - r, 0, 4294967295));
    (ib I16, x.andib() as i128 == { l & r }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && ok(l & r, 0, 4294967295));
    (ib I16, x.xorib() as i128 == { l ^ r }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && ok(l ^ r, 0, 4294967295));
    (ib I16, x.ltib() == (l < r), true);
    (ib I16, x.geib() == (l >= r), true);
    (ib I16, x.eqib() == (l == r), true);
    (ib I16, x.selib() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295));
    (ic I32, x.addic() as i128 == { l + r }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && ok(l + r, 0, 4294967295));
    (ic I32, x.subic() as i128 == { l - r }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && ok(l - r, 0, 4294967295));
    (ic I32, x.andic() as i128 == { l & r }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && ok(l & r, 0, 4294967295));
    (ic I32, x.xoric() as i128 == { l ^ r }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && ok(l ^ r, 0, 4294967295));
    (ic I32, x.ltic() == (l < r), true);
    (ic I32, x.geic() == (l >= r), true);
    (ic I32, x.eqic() == (l == r), true);
    (ic I32, x.selic() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295));
    (id I64, x.addid() as i128 == { l + r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l + r, 0, 18446744073709551615));
    (id I64, x.subid() as i128 == { l - r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l - r, 0, 18446744073709551615));
    (id I64, x.andid() as i128 == { l & r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l & r, 0, 18446744073709551615));
    (id I64, x.xorid() as i128 == { l ^ r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l ^ r, 0, 18446744073709551615));
    (id I64, x.ltid() == (l < r), true);
    (id I64, x.geid() == (l >= r), true);
    (id I64, x.eqid() == (l == r), true);
    (id I64, x.selid() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615));
    (fa Bit<5>, x.addfa() as i128 == { l + r }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && ok(l + r, 0, 4294967295));
    (fa Bit<5>, x.subfa() as i128 == { l - r }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && ok(l - r, 0, 4294967295));
    (fa Bit<5>, x.andfa() as i128 == { l & r }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && ok(l & r, 0, 4294967295));
    (fa Bit<5>, x.xorfa() as i128 == { l ^ r }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && ok(l ^ r, 0, 4294967295));
    (fa Bit<5>, x.ltfa() == (l < r), true);
    (fa Bit<5>, x.gefa() == (l >= r), true);
    (fa Bit<5>, x.eqfa() == (l == r), true);
    (fa Bit<5>, x.selfa() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295));
    (fb Bit<12>, x.addfb() as i128 == { l + r }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && ok(l + r, 0, 4294967295));
    (fb Bit<12>, x.subfb() as i128 == { l - r }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && ok(l - r, 0, 4294967295));
    (fb Bit<12>, x.andfb() as i128 == { l & r }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && ok(l & r, 0, 4294967295));
    (fb Bit<12>, x.xorfb() as i128 == { l ^ r }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && ok(l ^ r, 0, 4294967295));
    (fb Bit<12>, x.ltfb() == (l < r), true);
    (fb Bit<12>, x.gefb() == (l >= r), true);
    (fb Bit<12>, x.eqfb() == (l == r), true);
    (fb Bit<12>, x.selfb() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295));
    (fc Bit<40>, x.addfc() as i128 == { l + r }, ok(l, 0, 1099511627775) && ok(r, 0, 1099511627775) && ok(l + r, 0, 1099511627775));
    (fc Bit<40>, x.subfc() as i128 == { l - r }, ok(l, 0, 1099511627775) && ok(r, 0, 1099511627775) && ok(l - r, 0, 1099511627775));
    (fc Bit<40>, x.andfc() as i128 == { l & r }, ok(l, 0, 1099511627775) && ok(r, 0, 1099511627775) && ok(l & r, 0, 1099511627775));
    (fc Bit<40>, x.xorfc() as i128 == { l ^ r }, ok(l, 0, 1099511627775) && ok(r, 0, 1099511627775) && ok(l ^ r, 0, 1099511627775));
    (fc Bit<40>, x.ltfc() == (l < r), true);
    (fc Bit<40>, x.gefc() == (l >= r), true);
    (fc Bit<40>, x.eqfc() == (l == r), true);
    (fc Bit<40>, x.selfc() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 1099511627775) && ok(r, 0, 1099511627775));
    (ga Int<5>, x.addga() as i128 == { l + r }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && ok(l + r, 0, 4294967295));
    (ga Int<5>, x.subga() as i128 == { l - r }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && ok(l - r, 0, 4294967295));
    (ga Int<5>, x.andga() as i128 == { l & r }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && ok(l & r, 0, 4294967295));
    (ga Int<5>, x.xorga() as i128 == { l ^ r }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && ok(l ^ r, 0, 4294967295));
    (ga Int<5>, x.ltga() == (l < r), true);
    (ga Int<5>, x.gega() == (l >= r), true);
    (ga Int<5>, x.eqga() == (l == r), true);
    (ga Int<5>, x.selga() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295));
    (va VU16, x.addva() as i128 == { l + r }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && ok(l + r, 0, 4294967295));
    (va VU16, x.subva() as i128 == { l - r }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && ok(l - r, 0, 4294967295));
    (va VU16, x.andva() as i128 == { l & r }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && ok(l & r, 0, 4294967295));
    (va VU16, x.xorva() as i128 == { l ^ r }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && ok(l ^ r, 0, 4294967295));
    (va VU16, x.ltva() == (l < r), true);
    (va VU16, x.geva() == (l >= r), true);
    (va VU16, x.eqva() == (l == r), true);
    (va VU16, x.selva() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295));
    (vb VI16, x.addvb() as i128 == { l + r }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && ok(l + r, 0, 4294967295));
    (vb VI16, x.subvb() as i128 == { l - r }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && ok(l - r, 0, 4294967295));
    (vb VI16, x.andvb() as i128 == { l & r }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && ok(l & r, 0, 4294967295));
    (vb VI16, x.xorvb() as i128 == { l ^ r }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && ok(l ^ r, 0, 4294967295));
    (vb VI16, x.ltvb() == (l < r), true);
    (vb VI16, x.gevb() == (l >= r), true);
    (vb VI16, x.eqvb() == (l == r), true);
    (vb VI16, x.selvb() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295));
    (vc VU, x.addvc() as i128 == { l + r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l + r, 0, 18446744073709551615));
    (vc VU, x.subvc() as i128 == { l - r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l - r, 0, 18446744073709551615));
    (vc VU, x.andvc() as i128 == { l & r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l & r, 0, 18446744073709551615));
    (vc VU, x.xorvc() as i128 == { l ^ r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l ^ r, 0, 18446744073709551615));
    (vc VU, x.ltvc() == (l < r), true);
    (vc VU, x.gevc() == (l >= r), true);
    (vc VU, x.eqvc() == (l == r), true);
    (vc VU, x.selvc() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615));
    (vd VSize, x.addvd() as i128 == { l + r }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && ok(l + r, 0, 4294967295));
    (vd VSize, x.subvd() as i128 == { l - r }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && ok(l - r, 0, 4294967295));
    (vd VSize, x.andvd() as i128 == { l & r }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && ok(l & r, 0, 4294967295));
    (vd VSize, x.xorvd() as i128 == { l ^ r }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && ok(l ^ r, 0, 4294967295));
    (vd VSize, x.ltvd() == (l < r), true);
    (vd VSize, x.gevd() == (l >= r), true);
    (vd VSize, x.eqvd() == (l == r), true);
    (vd VSize, x.selvd() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295));
);
pairs!(
    h_c18_products_uc, matrix::Muc, Few<u32>, x l r;
    (ua Few<u8>, x.mulua() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 4294967295));
    (ua Few<u8>, x.divua() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 4294967295));
    (ua Few<u8>, x.remua() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 4294967295));
    (ub Few<u16>, x.mulub() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 4294967295));
    (ub Few<u16>, x.divub() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 4294967295));
    (ub Few<u16>, x.remub() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 4294967295));
    (uc Few<u32>, x.muluc() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 4294967295));
    (uc Few<u32>, x.divuc() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 4294967295));
    (uc Few<u32>, x.remuc() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 4294967295));
    (ud Few<u64>, x.mulud() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 18446744073709551615));
    (ud Few<u64>, x.divud() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 18446744073709551615));
    (ud Few<u64>, x.remud() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 18446744073709551615));
    (ia Few<i8>, x.mulia() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 4294967295));
    (ia Few<i8>, x.divia() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 4294967295));
    (ia Few<i8>, x.remia() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 4294967295));
    (ib Few<i16>, x.mulib() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 4294967295));
    (ib Few<i16>, x.divib() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 4294967295));
    (ib Few<i16>, x.remib() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 4294967295));
    (ic Few<i32>, x.mulic() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 4294967295));
    (ic Few<i32>, x.divic() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 4294967295));
    (ic Few<i32>, x.remic() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 4294967295));
    (id Few<i64>, x.mulid() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 18446744073709551615));
    (id Few<i64>, x.divid() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 18446744073709551615));
    (id Few<i64>, x.remid() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 18446744073709551615));
    (fa Few<u64>, x.mulfa() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 4294967295));
    (fa Few<u64>, x.divfa() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 4294967295));
    (fa Few<u64>, x.remfa() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 4294967295));
    (fb Few<u64>, x.mulfb() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 4294967295));
    (fb Few<u64>, x.divfb() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 4294967295));
    (fb Few<u64>, x.remfb() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 4294967295));
    (fc Few<u64>, x.mulfc() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 1099511627775) && ok(r, 0, 1099511627775) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 1099511627775));
    (fc Few<u64>, x.divfc() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 1099511627775) && ok(r, 0, 1099511627775) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 1099511627775));
    (fc Few<u64>, x.remfc() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 1099511627775) && ok(r, 0, 1099511627775) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 1099511627775));
    (ga Few<i64>, x.mulga() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 4294967295));
    (ga Few<i64>, x.divga() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 4294967295));
    (ga Few<i64>, x.remga() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 4294967295));
    (va Few<u16>, x.mulva() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 4294967295));
    (va Few<u16>, x.divva() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 4294967295));
    (va Few<u16>, x.remva() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 4294967295));
    (vb Few<i16>, x.mulvb() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 4294967295));
    (vb Few<i16>, x.divvb() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 4294967295));
    (vb Few<i16>, x.remvb() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 4294967295));
    (vc Few<u64>, x.mulvc() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 18446744073709551615));
    (vc Few<u64>, x.divvc() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 18446744073709551615));
    (vc Few<u64>, x.remvc() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 18446744073709551615));
    (vd Few<u32>, x.mulvd() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 4294967295));
    (vd Few<u32>, x.divvd() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 4294967295));
    (vd Few<u32>, x.remvd() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 4294967295));
);
pairs!(
    h_c18_pairs_ud, matrix::Mud, U64, x l r;
    (ua U8, x.addua() as i128 == { l + r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l + r, 0, 18446744073709551615));
    (ua U8, x.subua() as i128 == { l - r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l - r, 0, 18446744073709551615));
    (ua U8, x.andua() as i128 == { l & r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l & r, 0, 18446744073709551615));
    (ua U8, x.xorua() as i128 == { l ^ r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l ^ r, 0, 18446744073709551615));
    (ua U8, x.ltua() == (l < r), true);
    (ua U8, x.geua() == (l >= r), true);
    (ua U8, x.equa() == (l == r), true);
    (ua U8, x.selua() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615));
    (ub U16, x.addub() as i128 == { l + r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l + r, 0, 18446744073709551615));
    (ub U16, x.subub() as i128 == { l - r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l - r, 0, 18446744073709551615));
    (ub U16, x.andub() as i128 == { l & r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l & r, 0, 18446744073709551615));
    (ub U16, x.xorub() as i128 == { l ^ r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l ^ r, 0, 18446744073709551615));
    (ub U16, x.ltub() == (l < r), true);
    (ub U16, x.geub() == (l >= r), true);
    (ub U16, x.equb() == (l == r), true);
    (ub U16, x.selub() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615));
    (uc U32, x.adduc() as i128 == { l + r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l + r, 0, 18446744073709551615));
    (uc U32, x.subuc() as i128 == { l - r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l - r, 0, 18446744073709551615));
    (uc U32, x.anduc() as i128 == { l & r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l & r, 0, 18446744073709551615));
    (uc U32, x.xoruc() as i128 == { l ^ r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l ^ r, 0, 18446744073709551615));
    (uc U32, x.ltuc() == (l < r), true);
    (uc U32, x.geuc() == (l >= r), true);
    (uc U32, x.equc() == (l == r), true);
    (uc U32, x.seluc() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615));
    (ud U64, x.addud() as i128 == { l + r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l + r, 0, 18446744073709551615));
    (ud U64, x.subud() as i128 == { l - r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l - r, 0, 18446744073709551615));
    (ud U64, x.andud() as i128 == { l & r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l & r, 0, 18446744073709551615));
    (ud U64, x.xorud() as i128 == { l ^ r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l ^ r, 0, 18446744073709551615));
    (ud U64, x.ltud() == (l < r), true);
    (ud U64, x.geud() == (l >= r), true);
    (ud U64, x.equd() == (l == r), true);
    (ud U64, x.selud() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615));
    (ia I8, x.addia() as i128 == { l + r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l + r, 0, 18446744073709551615));
    (ia I8, x.subia() as i128 == { l - r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l - r, 0, 18446744073709551615));
    (ia I8, x.andia() as i128 == { l & r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l & r, 0, 18446744073709551615));
    (ia I8, x.xoria() as i128 == { l ^ r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l ^ r, 0, 18446744073709551615));
    (ia I8, x.ltia() == (l < r), true);
    (ia I8, x.geia() == (l >= r), true);
    (ia I8, x.eqia() == (l == r), true);
    (ia I8, x.selia() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615));
    (ib I16, x.addib() as i128 == { l + r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l + r, 0, 18446744073709551615));
    (ib I16, x.subib() as i128 == { l - r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l - r, 0, 18446744073709551615));
    (ib I16, x.andib() as i128 == { l & r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l & r, 0, 18446744073709551615));
    (ib I16, x.xorib() as i128 == { l ^ r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l ^ r, 0, 18446744073709551615));
    (ib I16, x.ltib() == (l < r), true);
    (ib I16, x.geib() == (l >= r), true);
    (ib I16, x.eqib() == (l == r), true);
    (ib I16, x.selib() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615));
    (ic I32, x.addic() as i128 == { l + r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l + r, 0, 18446744073709551615));
    (ic I32, x.subic() as i128 == { l - r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l - r, 0, 18446744073709551615));
    (ic I32, x.andic() as i128 == { l & r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l & r, 0, 18446744073709551615));
    (ic I32, x.xoric() as i128 == { l ^ r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l ^ r, 0, 18446744073709551615));
    (ic I32, x.ltic() == (l < r), true);
    (ic I32, x.geic() == (l >= r), true);
    (ic I32, x.eqic() == (l == r), true);
    (ic I32, x.selic() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615));
    (id I64, x.addid() as i128 == { l + r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l + r, 0, 18446744073709551615));
    (id I64, x.subid() as i128 == { l - r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l - r, 0, 18446744073709551615));
    (id I64, x.andid() as i128 == { l & r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l & r, 0, 18446744073709551615));
    (id I64, x.xorid() as i128 == { l ^ r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l ^ r, 0, 18446744073709551615));
    (id I64, x.ltid() == (l < r), true);
    (id I64, x.geid() == (l >= r), true);
    (id I64, x.eqid() == (l == r), true);
    (id I64, x.selid() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615));
    (fa Bit<5>, x.addfa() as i128 == { l + r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l + r, 0, 18446744073709551615));
    (fa Bit<5>, x.subfa() as i128 == { l - r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l - r, 0, 18446744073709551615));
    (fa Bit<5>, x.andfa() as i128 == { l & r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l & r, 0, 18446744073709551615));
    (fa Bit<5>, x.xorfa() as i128 == { l ^ r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l ^ r, 0, 18446744073709551615));
    (fa Bit<5>, x.ltfa() == (l < r), true);
    (fa Bit<5>, x.gefa() == (l >= r), true);
    (fa Bit<5>, x.eqfa() == (l == r), true);
    (fa Bit<5>, x.selfa() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615));
    (fb Bit<12>, x.addfb() as i128 == { l + r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l + r, 0, 18446744073709551615));
    (fb Bit<12>, x.subfb() as i128 == { l - r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l - r, 0, 18446744073709551615));
    (fb Bit<12>, x.andfb() as i128 == { l & r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l & r, 0, 18446744073709551615));
    (fb Bit<12>, x.xorfb() as i128 == { l ^ r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l ^ r, 0, 18446744073709551615));
    (fb Bit<12>, x.ltfb() == (l < r), true);
    (fb Bit<12>, x.gefb() == (l >= r), true);
    (fb Bit<12>, x.eqfb() == (l == r), true);
    (fb Bit<12>, x.selfb() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615));
    (fc Bit<40>, x.addfc() as i128 == { l + r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l + r, 0, 18446744073709551615));
    (fc Bit<40>, x.subfc() as i128 == { l - r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l - r, 0, 18446744073709551615));
    (fc Bit<40>, x.andfc() as i128 == { l & r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l & r, 0, 18446744073709551615));
    (fc Bit<40>, x.xorfc() as i128 == { l ^ r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l ^ r, 0, 18446744073709551615));
    (fc Bit<40>, x.ltfc() == (l < r), true);
    (fc Bit<40>, x.gefc() == (l >= r), true);
    (fc Bit<40>, x.eqfc() == (l == r), true);
    (fc Bit<40>, x.selfc() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615));
    (ga Int<5>, x.addga() as i128 == { l + r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l + r, 0, 18446744073709551615));
    (ga Int<5>, x.subga() as i128 == { l - r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l - r, 0, 18446744073709551615));
    (ga Int<5>, x.andga() as i128 == { l & r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l & r, 0, 18446744073709551615));
    (ga Int<5>, x.xorga() as i128 == { l ^ r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l ^ r, 0, 18446744073709551615));
    (ga Int<5>, x.ltga() == (l < r), true);
    (ga Int<5>, x.gega() == (l >= r), true);
    (ga Int<5>, x.eqga() == (l == r), true);
    (ga Int<5>, x.selga() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615));
    (va VU16, x.addva() as i128 == { l + r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l + r, 0, 18446744073709551615));
    (va VU16, x.subva() as i128 == { l - r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l - r, 0, 18446744073709551615));
    (va VU16, x.andva() as i128 == { l & r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l & r, 0, 18446744073709551615));
    (va VU16, x.xorva() as i128 == { l ^ r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l ^ r, 0, 18446744073709551615));
    (va VU16, x.ltva() == (l < r), true);
    (va VU16, x.geva() == (l >= r), true);
    (va VU16, x.eqva() == (l == r), true);
    (va VU16, x.selva() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615));
    (vb VI16, x.addvb() as i128 == { l + r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l + r, 0, 18446744073709551615));
    (vb VI16, x.subvb() as i128 == { l - r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l - r, 0, 18446744073709551615));
    (vb VI16, x.andvb() as i128 == { l & r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l & r, 0, 18446744073709551615));
    (vb VI16, x.xorvb() as i128 == { l ^ r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l ^ r, 0, 18446744073709551615));
    (vb VI16, x.ltvb() == (l < r), true);
    (vb VI16, x.gevb() == (l >= r), true);
    (vb VI16, x.eqvb() == (l == r), true);
    (vb VI16, x.selvb() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615));
    (vc VU, x.addvc() as i128 == { l + r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l + r, 0, 18446744073709551615));
    (vc VU, x.subvc() as i128 == { l - r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l - r, 0, 18446744073709551615));
    (vc VU, x.andvc() as i128 == { l & r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l & r, 0, 18446744073709551615));
    (vc VU, x.xorvc() as i128 == { l ^ r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l ^ r, 0, 18446744073709551615));
    (vc VU, x.ltvc() == (l < r), true);
    (vc VU, x.gevc() == (l >= r), true);
    (vc VU, x.eqvc() == (l == r), true);
    (vc VU, x.selvc() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615));
    (vd VSize, x.addvd() as i128 == { l + r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l + r, 0, 18446744073709551615));
    (vd VSize, x.subvd() as i128 == { l - r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l - r, 0, 18446744073709551615));
    (vd VSize, x.andvd() as i128 == { l & r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l & r, 0, 18446744073709551615));
    (vd VSize, x.xorvd() as i128 == { l ^ r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l ^ r, 0, 18446744073709551615));
    (vd VSize, x.ltvd() == (l < r), true);
    (vd VSize, x.gevd() == (l >= r), true);
    (vd VSize, x.eqvd() == (l == r), true);
    (vd VSize, x.selvd() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615));
);
pairs!(
    h_c18_products_ud, matrix::Mud, Few<u64>, x l r;
    (ua Few<u8>, x.mulua() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 18446744073709551615));
    (ua Few<u8>, x.divua() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 18446744073709551615));
    (ua Few<u8>, x.remua() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 18446744073709551615));
    (ub Few<u16>, x.mulub() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 18446744073709551615));
    (ub Few<u16>, x.divub() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 18446744073709551615));
    (ub Few<u16>, x.remub() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 18446744073709551615));
    (uc Few<u32>, x.muluc() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 18446744073709551615));
    (uc Few<u32>, x.divuc() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 18446744073709551615));
    (uc Few<u32>, x.remuc() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 18446744073709551615));
    (ud Few<u64>, x.mulud() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 18446744073709551615));
    (ud Few<u64>, x.divud() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 18446744073709551615));
    (ud Few<u64>, x.remud() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 18446744073709551615));
    (ia Few<i8>, x.mulia() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 18446744073709551615));
    (ia Few<i8>, x.divia() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 18446744073709551615));
    (ia Few<i8>, x.remia() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 18446744073709551615));
    (ib Few<i16>, x.mulib() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 18446744073709551615));
    (ib Few<i16>, x.divib() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 18446744073709551615));
    (ib Few<i16>, x.remib() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 18446744073709551615));
    (ic Few<i32>, x.mulic() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 18446744073709551615));
    (ic Few<i32>, x.divic() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 18446744073709551615));
    (ic Few<i32>, x.remic() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 18446744073709551615));
    (id Few<i64>, x.mulid() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 18446744073709551615));
    (id Few<i64>, x.divid() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 18446744073709551615));
    (id Few<i64>, x.remid() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 18446744073709551615));
    (fa Few<u64>, x.mulfa() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 18446744073709551615));
    (fa Few<u64>, x.divfa() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 18446744073709551615));
    (fa Few<u64>, x.remfa() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 18446744073709551615));
    (fb Few<u64>, x.mulfb() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 18446744073709551615));
    (fb Few<u64>, x.divfb() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 18446744073709551615));
    (fb Few<u64>, x.remfb() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 18446744073709551615));
    (fc Few<u64>, x.mulfc() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 18446744073709551615));
    (fc Few<u64>, x.divfc() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 18446744073709551615));
    (fc Few<u64>, x.remfc() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 18446744073709551615));
    (ga Few<i64>, x.mulga() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 18446744073709551615));
    (ga Few<i64>, x.divga() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 18446744073709551615));
    (ga Few<i64>, x.remga() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 18446744073709551615));
    (va Few<u16>, x.mulva() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 18446744073709551615));
    (va Few<u16>, x.divva() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 18446744073709551615));
    (va Few<u16>, x.remva() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 18446744073709551615));
    (vb Few<i16>, x.mulvb() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 18446744073709551615));
    (vb Few<i16>, x.divvb() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 18446744073709551615));
    (vb Few<i16>, x.remvb() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 18446744073709551615));
    (vc Few<u64>, x.mulvc() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 18446744073709551615));
    (vc Few<u64>, x.divvc() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 18446744073709551615));
    (vc Few<u64>, x.remvc() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 18446744073709551615));
    (vd Few<u32>, x.mulvd() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 18446744073709551615));
    (vd Few<u32>, x.divvd() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 18446744073709551615));
    (vd Few<u32>, x.remvd() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 18446744073709551615));
);
pairs!(
    h_c18_pairs_ia, matrix::Mia, I8, x l r;
    (ua U8, x.addua() as i128 == { l + r }, ok(l, 0, 255) && ok(r, 0, 255) && ok(l + r, 0, 255));
    (ua U8, x.subua() as i128 == { l - r }, ok(l, 0, 255) && ok(r, 0, 255) && ok(l - r, 0, 255));
    (ua U8, x.andua() as i128 == { l & r }, ok(l, 0, 255) && ok(r, 0, 255) && ok(l & r, 0, 255));
    (ua U8, x.xorua() as i128 == { l ^ r }, ok(l, 0, 255) && ok(r, 0, 255) && ok(l ^ r, 0, 255));
    (ua U8, x.ltua() == (l < r), true);
    (ua U8, x.geua() == (l >= r), true);
    (ua U8, x.equa() == (l == r), true);
    (ua U8, x.selua() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 255) && ok(r, 0, 255));
    (ub U16, x.addub() as i128 == { l + r }, ok(l, 0, 65535) && ok(r, 0, 65535) && ok(l + r, 0, 65535));
    (ub U16, x.subub() as i128 == { l - r }, ok(l, 0, 65535) && ok(r, 0, 65535) && ok(l - r, 0, 65535));
    (ub U16, x.andub() as i128 == { l & r }, ok(l, 0, 65535) && ok(r, 0, 65535) && ok(l & r, 0, 65535));
    (ub U16, x.xorub() as i128 == { l ^ r }, ok(l, 0, 65535) && ok(r, 0, 65535) && ok(l ^ r, 0, 65535));
    (ub U16, x.ltub() == (l < r), true);
    (ub U16, x.geub() == (l >= r), true);
    (ub U16, x.equb() == (l == r), true);
    (ub U16, x.selub() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 65535) && ok(r, 0, 65535));
    (uc U32, x.adduc() as i128 == { l + r }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && ok(l + r, 0, 4294967295));
    (uc U32, x.subuc() as i128 == { l - r }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && ok(l - r, 0, 4294967295));
    (uc U32, x.anduc() as i128 == { l & r }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && ok(l & r, 0, 4294967295));
    (uc U32, x.xoruc() as i128 == { l ^ r }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && ok(l ^ r, 0, 4294967295));
    (uc U32, x.ltuc() == (l < r), true);
    (uc U32, x.geuc() == (l >= r), true);
    (uc U32, x.equc() == (l == r), true);
    (uc U32, x.seluc() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295));
    (ud U64, x.addud() as i128 == { l + r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l + r, 0, 18446744073709551615));
    (ud U64, x.subud() as i128 == { l - r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l - r, 0, 18446744073709551615));
    (ud U64, x.andud() as i128 == { l & r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l & r, 0, 18446744073709551615));
    (ud U64, x.xorud() as i128 == { l ^ r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l ^ r, 0, 18446744073709551615));
    (ud U64, x.ltud() == (l < r), true);
    (ud U64, x.geud() == (l >= r), true);
    (ud U64, x.equd() == (l == r), true);
    (ud U64, x.selud() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615));
    (ia I8, x.addia() as i128 == { l + r }, ok(l, -128, 127) && ok(r, -128, 127) && ok(l + r, -128, 127));
    (ia I8, x.subia() as i128 == { l - r }, ok(l, -128, 127) && ok(r, -128, 127) && ok(l - r, -128, 127));
    (ia I8, x.andia() as i128 == { l & r }, ok(l, -128, 127) && ok(r, -128, 127) && ok(l & r, -128, 127));
    (ia I8, x.xoria() as i128 == { l ^ r }, ok(l, -128, 127) && ok(r, -128, 127) && ok(l ^ r, -128, 127));
    (ia I8, x.ltia() == (l < r), true);
    (ia I8, x.geia() == (l >= r), true);
    (ia I8, x.eqia() == (l == r), true);
    (ia I8, x.selia() as i128 == { if l > 3 { l } else { r } }, ok(l, -128, 127) && ok(r, -128, 127));
    (ib I16, x.addib() as i128 == { l + r }, ok(l, -32768, 32767) && ok(r, -32768, 32767) && ok(l + r, -32768, 32767));
    (ib I16, x.subib() as i128 == { l - r }, ok(l, -32768, 32767) && ok(r, -32768, 32767) && ok(l - r, -32768, 32767));
    (ib I16, x.andib() as i128 == { l & r }, ok(l, -32768, 32767) && ok(r, -32768, 32767) && ok(l & r, -32768, 32767));
    (ib I16, x.xorib() as i128 == { l ^ r }, ok(l, -32768, 32767) && ok(r, -32768, 32767) && ok(l ^ r, -32768, 32767));
    (ib I16, x.ltib() == (l < r), true);
    (ib I16, x.geib() == (l >= r), true);
    (ib I16, x.eqib() == (l == r), true);
    (ib I16, x.selib() as i128 == { if l > 3 { l } else { r } }, ok(l, -32768, 32767) && ok(r, -32768, 32767));
    (ic I32, x.addic() as i128 == { l + r }, ok(l, -2147483648, 2147483647) && ok(r, -2147483648, 2147483647) && ok(l + r, -2147483648, 2147483647));
    (ic I32, x.subic() as i128 == { l - r }, ok(l, -2147483648, 2147483647) && ok(r, -2147483648, 2147483647) && ok(l - r, -2147483648, 2147483647));
    (ic I32, x.andic() as i128 == { l & r }, ok(l, -2147483648, 2147483647) && ok(r, -2147483648, 2147483647) && ok(l & r, -2147483648, 2147483647));
    (ic I32, x.xoric() as i128 == { l ^ r }, ok(l, -2147483648, 2147483647) && ok(r, -2147483648, 2147483647) && ok(l ^ r, -2147483648, 2147483647));
    (ic I32, x.ltic() == (l < r), true);
    (ic I32, x.geic() == (l >= r), true);
    (ic I32, x.eqic() == (l == r), true);
    (ic I32, x.selic() as i128 == { if l > 3 { l } else { r } }, ok(l, -2147483648, 2147483647) && ok(r, -2147483648, 2147483647));
    (id I64, x.addid() as i128 == { l + r }, ok(l, -9223372036854775808, 9223372036854775807) && ok(r, -9223372036854775808, 9223372036854775807) && ok(l + r, -9223372036854775808, 9223372036854775807));
    (id I64, x.subid() as i128 == { l - r }, ok(l, -9223372036854775808, 9223372036854775807) && ok(r, -9223372036854775808, 9223372036854775807) && ok(l - r, -9223372036854775808, 9223372036854775807));
    (id I64, x.andid() as i128 == { l & r }, ok(l, -9223372036854775808, 9223372036854775807) && ok(r, -9223372036854775808, 9223372036854775807) && ok(l & r, -9223372036854775808, 9223372036854775807));
    (id I64, x.xorid() as i128 == { l ^ r }, ok(l, -9223372036854775808, 9223372036854775807) && ok(r, -9223372036854775808, 9223372036854775807) && ok(l ^ r, -9223372036854775808, 9223372036854775807));
    (id I64, x.ltid() == (l < r), true);
    (id I64, x.geid() == (l >= r), true);
    (id I64, x.eqid() == (l == r), true);
    (id I64, x.selid() as i128 == { if l > 3 { l } else { r } }, ok(l, -9223372036854775808, 9223372036854775807) && ok(r, -9223372036854775808, 9223372036854775807));
    (fa Bit<5>, x.addfa() as i128 == { l + r }, ok(l, 0, 255) && ok(r, 0, 255) && ok(l + r, 0, 255));
    (fa Bit<5>, x.subfa() as i128 == { l - r }, ok(l, 0, 255) && ok(r, 0, 255) && ok(l - r, 0, 255));
    (fa Bit<5>, x.andfa() as i128 == { l & r }, ok(l, 0, 255) && ok(r, 0, 255) && ok(l & r, 0, 255));
    (fa Bit<5>, x.xorfa() as i128 == { l ^ r }, ok(l, 0, 255) && ok(r, 0, 255) && ok(l ^ r, 0, 255));
    (fa Bit<5>, x.ltfa() == (l < r), true);
    (fa Bit<5>, x.gefa() == (l >= r), true);
    (fa Bit<5>, x.eqfa() == (l == r), true);
    (fa Bit<5>, x.selfa() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 255) && ok(r, 0, 255));
    (fb Bit<12>, x.addfb() as i128 == { l + r }, ok(l, 0, 4095) && ok(r, 0, 4095) && ok(l + r, 0, 4095));
    (fb Bit<12>, x.subfb() as i128 == { l - r }, ok(l, 0, 4095) && ok(r, 0, 4095) && ok(l - r, 0, 4095));
    (fb Bit<12>, x.andfb() as i128 == { l & r }, ok(l, 0, 4095) && ok(r, 0, 4095) && ok(l & r, 0, 4095));
    (fb Bit<12>, x.xorfb() as i128 == { l ^ r }, ok(l, 0, 4095) && ok(r, 0, 4095) && ok(l ^ r, 0, 4095));
    (fb Bit<12>, x.ltfb() == (l < r), true);
    (fb Bit<12>, x.gefb() == (l >= r), true);
    (fb Bit<12>, x.eqfb() == (l == r), true);
    (fb Bit<12>, x.selfb() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 4095) && ok(r, 0, 4095));
    (fc Bit<40>, x.addfc() as i128 == { l + r }, ok(l, 0, 1099511627775) && ok(r, 0, 1099511627775) && ok(l + r, 0, 1099511627775));
    (fc Bit<40>, x.subfc() as i128 == { l - r }, ok(l, 0, 1099511627775) && ok(r, 0, 1099511627775) && ok(l - r, 0, 1099511627775));
    (fc Bit<40>, x.andfc() as i128 == { l & r }, ok(l, 0, 1099511627775) && ok(r, 0, 1099511627775) && ok(l & r, 0, 1099511627775));
    (fc Bit<40>, x.xorfc() as i128 == { l ^ r }, ok(l, 0, 1099511627775) && ok(r, 0, 1099511627775) && ok(l ^ r, 0, 1099511627775));
    (fc Bit<40>, x.ltfc() == (l < r), true);
    (fc Bit<40>, x.gefc() == (l >= r), true);
    (fc Bit<40>, x.eqfc() == (l == r), true);
    (fc Bit<40>, x.selfc() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 1099511627775) && ok(r, 0, 1099511627775));
    (ga Int<5>, x.addga() as i128 == { l + r }, ok(l, -128, 127) && ok(r, -128, 127) && ok(l + r, -128, 127));
    (ga Int<5>, x.subga() as i128 == { l - r }, ok(l, -128, 127) && ok(r, -128, 127) && ok(l - r, -128, 127));
    (ga Int<5>, x.andga() as i128 == { l & r }, ok(l, -128, 127) && ok(r, -128, 127) && ok(l & r, -128, 127));
    (ga Int<5>, x.xorga() as i128 == { l ^ r }, ok(l, -128, 127) && ok(r, -128, 127) && ok(l ^ r, -128, 127));
    (ga Int<5>, x.ltga() == (l < r), true);
    (ga Int<5>, x.gega() == (l >= r), true);
    (ga Int<5>, x.eqga() == (l == r), true);
    (ga Int<5>, x.selga() as i128 == { if l > 3 { l } else { r } }, ok(l, -128, 127) && ok(r, -128, 127));
    (va VU16, x.addva() as i128 == { l + r }, ok(l, 0, 32767) && ok(r, 0, 32767) && ok(l + r, 0, 32767));
    (va VU16, x.subva() as i128 == { l - r }, ok(l, 0, 32767) && ok(r, 0, 32767) && ok(l - r, 0, 32767));
    (va VU16, x.andva() as i128 == { l & r }, ok(l, 0, 32767) && ok(r, 0, 32767) && ok(l & r, 0, 32767));
    (va VU16, x.xorva() as i128 == { l ^ r }, ok(l, 0, 32767) && ok(r, 0, 32767) && ok(l ^ r, 0, 32767));
    (va VU16, x.ltva() == (l < r), true);
    (va VU16, x.geva() == (l >= r), true);
    (va VU16, x.eqva() == (l == r), true);
    (va VU16, x.selva() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 32767) && ok(r, 0, 32767));
    (vb VI16, x.addvb() as i128 == { l + r }, ok(l, -16384, 16383) && ok(r, -16384, 16383) && ok(l + r, -16384, 16383));
    (vb VI16, x.subvb() as i128 == { l - r }, ok(l, -16384, 16383) && ok(r, -16384, 16383) && ok(l - r, -16384, 16383));
    (vb VI16, x.andvb() as i128 == { l & r }, ok(l, -16384, 16383) && ok(r, -16384, 16383) && ok(l & r, -16384, 16383));
    (vb VI16, x.xorvb() as i128 == { l ^ r }, ok(l, -16384, 16383) && ok(r, -16384, 16383) && ok(l ^ r, -16384, 16383));
    (vb VI16, x.ltvb() == (l < r), true);
    (vb VI16, x.gevb() == (l >= r), true);
    (vb VI16, x.eqvb() == (l == r), true);
    (vb VI16, x.selvb() as i128 == { if l > 3 { l } else { r } }, ok(l, -16384, 16383) && ok(r, -16384, 16383));
    (vc VU, x.addvc() as i128 == { l + r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l + r, 0, 18446744073709551615));
    (vc VU, x.subvc() as i128 == { l - r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l - r, 0, 18446744073709551615));
    (vc VU, x.andvc() as i128 == { l & r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l & r, 0, 18446744073709551615));
    (vc VU, x.xorvc() as i128 == { l ^ r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l ^ r, 0, 18446744073709551615));
    (vc VU, x.ltvc() == (l < r), true);
    (vc VU, x.gevc() == (l >= r), true);
    (vc VU, x.eqvc() == (l == r), true);
    (vc VU, x.selvc() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615));
    (vd VSize, x.addvd() as i128 == { l + r }, ok(l, 0, 2147483647) && ok(r, 0, 2147483647) && ok(l + r, 0, 2147483647));
    (vd VSize, x.subvd() as i128 == { l - r }, ok(l, 0, 2147483647) && ok(r, 0, 2147483647) && ok(l - r, 0, 2147483647));
    (vd VSize, x.andvd() as i128 == { l & r }, ok(l, 0, 2147483647) && ok(r, 0, 2147483647) && ok(l & r, 0, 2147483647));
    (vd VSize, x.xorvd() as i128 == { l ^ r }, ok(l, 0, 2147483647) && ok(r, 0, 2147483647) && ok(l ^ r, 0, 2147483647));
    (vd VSize, x.ltvd() == (l < r), true);
    (vd VSize, x.gevd() == (l >= r), true);
    (vd VSize, x.eqvd() == (l == r), true);
    (vd VSize, x.selvd() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 2147483647) && ok(r, 0, 2147483647));
);
pairs!(
    h_c18_products_ia, matrix::Mia, Few<i8>, x l r;
    (ua Few<u8>, x.mulua() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 255) && ok(r, 0, 255) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 255));
    (ua Few<u8>, x.divua() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 255) && ok(r, 0, 255) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 255));
    (ua Few<u8>, x.remua() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 255) && ok(r, 0, 255) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 255));
    (ub Few<u16>, x.mulub() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 65535) && ok(r, 0, 65535) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 65535));
    (ub Few<u16>, x.divub() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 65535) && ok(r, 0, 65535) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 65535));
    (ub Few<u16>, x.remub() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 65535) && ok(r, 0, 65535) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 65535));
    (uc Few<u32>, x.muluc() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 4294967295));
    (uc Few<u32>, x.divuc() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 4294967295));
    (uc Few<u32>, x.remuc() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 4294967295));
    (ud Few<u64>, x.mulud() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 18446744073709551615));
    (ud Few<u64>, x.divud() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 18446744073709551615));
    (ud Few<u64>, x.remud() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 18446744073709551615));
    (ia Few<i8>, x.mulia() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, -128, 127) && ok(r, -128, 127) && ok((l as i32).wrapping_mul(r as i32) as i128, -128, 127));
    (ia Few<i8>, x.divia() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, -128, 127) && ok(r, -128, 127) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, -128, 127));
    (ia Few<i8>, x.remia() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, -128, 127) && ok(r, -128, 127) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, -128, 127));
    (ib Few<i16>, x.mulib() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, -32768, 32767) && ok(r, -32768, 32767) && ok((l as i32).wrapping_mul(r as i32) as i128, -32768, 32767));
    (ib Few<i16>, x.divib() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, -32768, 32767) && ok(r, -32768, 32767) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, -32768, 32767));
    (ib Few<i16>, x.remib() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, -32768, 32767) && ok(r, -32768, 32767) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, -32768, 32767));
    (ic Few<i32>, x.mulic() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, -2147483648, 2147483647) && ok(r, -2147483648, 2147483647) && ok((l as i32).wrapping_mul(r as i32) as i128, -2147483648, 2147483647));
    (ic Few<i32>, x.divic() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, -2147483648, 2147483647) && ok(r, -2147483648, 2147483647) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, -2147483648, 2147483647));
    (ic Few<i32>, x.remic() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, -2147483648, 2147483647) && ok(r, -2147483648, 2147483647) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, -2147483648, 2147483647));
    (id Few<i64>, x.mulid() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, -9223372036854775808, 9223372036854775807) && ok(r, -9223372036854775808, 9223372036854775807) && ok((l as i32).wrapping_mul(r as i32) as i128, -9223372036854775808, 9223372036854775807));
    (id Few<i64>, x.divid() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, -9223372036854775808, 9223372036854775807) && ok(r, -9223372036854775808, 9223372036854775807) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, -9223372036854775808, 9223372036854775807));
    (id Few<i64>, x.remid() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, -9223372036854775808, 9223372036854775807) && ok(r, -9223372036854775808, 9223372036854775807) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, -9223372036854775808, 9223372036854775807));
    (fa Few<u64>, x.mulfa() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 255) && ok(r, 0, 255) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 255));
    (fa Few<u64>, x.divfa() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 255) && ok(r, 0, 255) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 255));
    (fa Few<u64>, x.remfa() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 255) && ok(r, 0, 255) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 255));
    (fb Few<u64>, x.mulfb() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 4095) && ok(r, 0, 4095) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 4095));
    (fb Few<u64>, x.divfb() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 4095) && ok(r, 0, 4095) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 4095));
    (fb Few<u64>, x.remfb() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 4095) && ok(r, 0, 4095) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 4095));
    (fc Few<u64>, x.mulfc() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 1099511627775) && ok(r, 0, 1099511627775) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 1099511627775));
    (fc Few<u64>, x.divfc() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 1099511627775) && ok(r, 0, 1099511627775) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 1099511627775));
    (fc Few<u64>, x.remfc() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 1099511627775) && ok(r, 0, 1099511627775) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 1099511627775));
    (ga Few<i64>, x.mulga() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, -128, 127) && ok(r, -128, 127) && ok((l as i32).wrapping_mul(r as i32) as i128, -128, 127));
    (ga Few<i64>, x.divga() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, -128, 127) && ok(r, -128, 127) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, -128, 127));
    (ga Few<i64>, x.remga() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, -128, 127) && ok(r, -128, 127) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, -128, 127));
    (va Few<u16>, x.mulva() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 32767) && ok(r, 0, 32767) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 32767));
    (va Few<u16>, x.divva() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 32767) && ok(r, 0, 32767) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 32767));
    (va Few<u16>, x.remva() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 32767) && ok(r, 0, 32767) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 32767));
    (vb Few<i16>, x.mulvb() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, -16384, 16383) && ok(r, -16384, 16383) && ok((l as i32).wrapping_mul(r as i32) as i128, -16384, 16383));
    (vb Few<i16>, x.divvb() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, -16384, 16383) && ok(r, -16384, 16383) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, -16384, 16383));
    (vb Few<i16>, x.remvb() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, -16384, 16383) && ok(r, -16384, 16383) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, -16384, 16383));
    (vc Few<u64>, x.mulvc() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 18446744073709551615));
    (vc Few<u64>, x.divvc() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 18446744073709551615));
    (vc Few<u64>, x.remvc() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 18446744073709551615));
    (vd Few<u32>, x.mulvd() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 2147483647) && ok(r, 0, 2147483647) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 2147483647));
    (vd Few<u32>, x.divvd() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 2147483647) && ok(r, 0, 2147483647) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 2147483647));
    (vd Few<u32>, x.remvd() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 2147483647) && ok(r, 0, 2147483647) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 2147483647));
);
pairs!(
    h_c18_pairs_ib, matrix::Mib, I16, x l r;
    (ua U8, x.addua() as i128 == { l + r }, ok(l, 0, 65535) && ok(r, 0, 65535) && ok(l + r, 0, 65535));
    (ua U8, x.subua() as i128 == { l - r }, ok(l, 0, 65535) && ok(r, 0, 65535) && ok(l - r, 0, 65535));
    (ua U8, x.andua() as i128 == { l & r }, ok(l, 0, 65535) && ok(r, 0, 65535) && ok(l & r, 0, 65535));
    (ua U8, x.xorua() as i128 == { l ^ r }, ok(l, 0, 65535) && ok(r, 0, 65535) && ok(l ^ r, 0, 65535));
    (ua U8, x.ltua() == (l < r), true);
    (ua U8, x.geua() == (l >= r), true);
    (ua U8, x.equa() == (l == r), true);
    (ua U8, x.selua() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 65535) && ok(r, 0, 65535));
    (ub U16, x.addub() as i128 == { l + r }, ok(l, 0, 65535) && ok(r, 0, 65535) && ok(l + r, 0, 65535));
    (ub U16, x.subub() as i128 == { l - r }, ok(l, 0, 65535) && ok(r, 0, 65535) && ok(l - r, 0, 65535));
    (ub U16, x.andub() as i128 == { l & r }, ok(l, 0, 65535) && ok(r, 0, 65535) && ok(l & r, 0, 65535));
    (ub U16, x.xorub() as i128 == { l ^ r }, ok(l, 0, 65535) && ok(r, 0, 65535) && ok(l ^ r, 0, 65535));
    (ub U16, x.ltub() == (l < r), true);
    (ub U16, x.geub() == (l >= r), true);
    (ub U16, x.equb() == (l == r), true);
    (ub U16, x.selub() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 65535) && ok(r, 0, 65535));
    (uc U32, x.adduc() as i128 == { l + r }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && ok(l + r, 0, 4294967295));
    (uc U32, x.subuc() as i128 == { l - r }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && ok(l - r, 0, 4294967295));
    (uc U32, x.anduc() as i128 == { l & r }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && ok(l & r, 0, 4294967295));
    (uc U32, x.xoruc() as i128 == { l ^ r }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && ok(l ^ r, 0, 4294967295));
    (uc U32, x.ltuc() == (l < r), true);
    (uc U32, x.geuc() == (l >= r), true);
    (uc U32, x.equc() == (l == r), true);
    (uc U32, x.seluc() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295));
    (ud U64, x.addud() as i128 == { l + r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l + r, 0, 18446744073709551615));
    (ud U64, x.subud() as i128 == { l - r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l - r, 0, 18446744073709551615));
    (ud U64, x.andud() as i128 == { l & r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l & r, 0, 18446744073709551615));
    (ud U64, x.xorud() as i128 == { l ^ r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l ^ r, 0, 18446744073709551615));
    (ud U64, x.ltud() == (l < r), true);
    (ud U64, x.geud() == (l >= r), true);
    (ud U64, x.equd() == (l == r), true);
    (ud U64, x.selud() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615));
    (ia I8, x.addia() as i128 == { l + r }, ok(l, -32768, 32767) && ok(r, -32768, 32767) && ok(l + r, -32768, 32767));
    (ia I8, x.subia() as i128 == { l - r }, ok(l, -32768, 32767) && ok(r, -32768, 32767) && ok(l - r, -32768, 32767));
    (ia I8, x.andia() as i128 == { l & r }, ok(l, -32768, 32767) && ok(r, -32768, 32767) && ok(l & r, -32768, 32767));
    (ia I8, x.xoria() as i128 == { l ^ r }, ok(l, -32768, 32767) && ok(r, -32768, 32767) && ok(l ^ r, -32768, 32767));
    (ia I8, x.ltia() == (l < r), true);
    (ia I8, x.geia() == (l >= r), true);
    (ia I8, x.eqia() == (l == r), true);
    (ia I8, x.selia() as i128 == { if l > 3 { l } else { r } }, ok(l, -32768, 32767) && ok(r, -32768, 32767));
    (ib I16, x.addib() as i128 == { l + r }, ok(l, -32768, 32767) && ok(r, -32768, 32767) && ok(l + r, -32768, 32767));
    (ib I16, x.subib() as i128 == { l - r }, ok(l, -32768, 32767) && ok(r, -32768, 32767) && ok(l - r, -32768, 32767));
    (ib I16, x.andib() as i128 == { l & r }, ok(l, -32768, 32767) && ok(r, -32768, 32767) && ok(l & r, -32768, 32767));
    (ib I16, x.xorib() as i128 == { l ^ r }, ok(l, -32768, 32767) && ok(r, -32768, 32767) && ok(l ^ r, -32768, 32767));
    (ib I16, x.ltib() == (l < r), true);
    (ib I16, x.geib() == (l >= r), true);
    (ib I16, x.eqib() == (l == r), true);
    (ib I16, x.selib() as i128 == { if l > 3 { l } else { r } }, ok(l, -32768, 32767) && ok(r, -32768, 32767));
    (ic I32, x.addic() as i128 == { l + r }, ok(l, -2147483648, 2147483647) && ok(r, -2147483648, 2147483647) && ok(l + r, -2147483648, 2147483647));
    (ic I32, x.subic() as i128 == { l - r }, ok(l, -2147483648, 2147483647) && ok(r, -2147483648, 2147483647) && ok(l - r, -2147483648, 2147483647));
    (ic I32, x.andic() as i128 == { l & r }, ok(l, -2147483648, 2147483647) && ok(r, -2147483648, 2147483647) && ok(l & r, -2147483648, 2147483647));
    (ic I32, x.xoric() as i128 == { l ^ r }, ok(l, -2147483648, 2147483647) && ok(r, -2147483648, 2147483647) && ok(l ^ r, -2147483648, 2147483647));
    (ic I32, x.ltic() == (l < r), true);
    (ic I32, x.geic() == (l >= r), true);
    (ic I32, x.eqic() == (l == r), true);
    (ic I32, x.selic() as i128 == { if l > 3 { l } else { r } }, ok(l, -2147483648, 2147483647) && ok(r, -2147483648, 2147483647));
    (id I64, x.addid() as i128 == { l + r }, ok(l, -9223372036854775808, 9223372036854775807) && ok(r, -9223372036854775808, 9223372036854775807) && ok(l + r, -9223372036854775808, 9223372036854775807));
    (id I64, x.subid() as i128 == { l - r }, ok(l, -9223372036854775808, 9223372036854775807) && ok(r, -9223372036854775808, 9223372036854775807) && ok(l - r, -9223372036854775808, 9223372036854775807));
    (id I64, x.andid() as i128 == { l & r }, ok(l, -9223372036854775808, 9223372036854775807) && ok(r, -9223372036854775808, 9223372036854775807) && ok(l & r, -9223372036854775808, 9223372036854775807));
    (id I64, x.xorid() as i128 == { l ^ r }, ok(l, -9223372036854775808, 9223372036854775807) && ok(r, -9223372036854775808, 9223372036854775807) && ok(l ^ r, -9223372036854775808, 9223372036854775807));
    (id I64, x.ltid() == (l < r), true);
    (id I64, x.geid() == (l >= r), true);
    (id I64, x.eqid() == (l == r), true);
    (id I64, x.selid() as i128 == { if l > 3 { l } else { r } }, ok(l, -9223372036854775808, 9223372036854775807) && ok(r, -9223372036854775808, 9223372036854775807));
    (fa Bit<5>, x.addfa() as i128 == { l + r }, ok(l, 0, 65535) && ok(r, 0, 65535) && ok(l + r, 0, 65535));
    (fa Bit<5>, x.subfa() as i128 == { l - r }, ok(l, 0, 65535) && ok(r, 0, 65535) && ok(l - r, 0, 65535));
    (fa Bit<5>, x.andfa() as i128 == { l & r }, ok(l, 0, 65535) && ok(r, 0, 65535) && ok(l & r, 0, 65535));
    (fa Bit<5>, x.xorfa() as i128 == { l ^ r }, ok(l, 0, 65535) && ok(r, 0, 65535) && ok(l ^ r, 0, 65535));
    (fa Bit<5>, x.ltfa() == (l < r), true);
    (fa Bit<5>, x.gefa() == (l >= r), true);
    (fa Bit<5>, x.eqfa() == (l == r), true);
    (fa Bit<5>, x.selfa() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 65535) && ok(r, 0, 65535));
    (fb Bit<12>, x.addfb() as i128 == { l + r }, ok(l, 0, 65535) && ok(r, 0, 65535) && ok(l + r, 0, 65535));
    (fb Bit<12>, x.subfb() as i128 == { l - r }, ok(l, 0, 65535) && ok(r, 0, 65535) && ok(l - r, 0, 65535));
    (fb Bit<12>, x.andfb() as i128 == { l & r }, ok(l, 0, 65535) && ok(r, 0, 65535) && ok(l & r, 0, 65535));
    (fb Bit<12>, x.xorfb() as i128 == { l ^ r }, ok(l, 0, 65535) && ok(r, 0, 65535) && ok(l ^ r, 0, 65535));
    (fb Bit<12>, x.ltfb() == (l < r), true);
    (fb Bit<12>, x.gefb() == (l >= r), true);
    (fb Bit<12>, x.eqfb() == (l == r), true);
    (fb Bit<12>, x.selfb() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 65535) && ok(r, 0, 65535));
    (fc Bit<40>, x.addfc() as i128 == { l + r }, ok(l, 0, 1099511627775) && ok(r, 0, 1099511627775) && ok(l + r, 0, 1099511627775));
    (fc Bit<40>, x.subfc() as i128 == { l - r }, ok(l, 0, 1099511627775) && ok(r, 0, 1099511627775) && ok(l - r, 0, 1099511627775));
    (fc Bit<40>, x.andfc() as i128 == { l & r }, ok(l, 0, 1099511627775) && ok(r, 0, 1099511627775) && ok(l & r, 0, 1099511627775));
    (fc Bit<40>, x.xorfc() as i128 == { l ^ r }, ok(l, 0, 1099511627775) && ok(r, 0, 1099511627775) && ok(l ^ r, 0, 1099511627775));
    (fc Bit<40>, x.ltfc() == (l < r), true);
    (fc Bit<40>, x.gefc() == (l >= r), true);
    (fc Bit<40>, x.eqfc() == (l == r), true);
    (fc Bit<40>, x.selfc() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 1099511627775) && ok(r, 0, 1099511627775));
    (ga Int<5>, x.addga() as i128 == { l + r }, ok(l, -32768, 32767) && ok(r, -32768, 32767) && ok(l + r, -32768, 32767));
    (ga Int<5>, x.subga() as i128 == { l - r }, ok(l, -32768, 32767) && ok(r, -32768, 32767) && ok(l - r, -32768, 32767));
    (ga Int<5>, x.andga() as i128 == { l & r }, ok(l, -32768, 32767) && ok(r, -32768, 32767) && ok(l & r, -32768, 32767));
    (ga Int<5>, x.xorga() as i128 == { l ^ r }, ok(l, -32768, 32767) && ok(r, -32768, 32767) && ok(l ^ r, -32768, 32767));
    (ga Int<5>, x.ltga() == (l < r), true);
    (ga Int<5>, x.gega() == (l >= r), true);
    (ga Int<5>, x.eqga() == (l == r), true);
    (ga Int<5>, x.selga() as i128 == { if l > 3 { l } else { r } }, ok(l, -32768, 32767) && ok(r, -32768, 32767));
    (va VU16, x.addva() as i128 == { l + r }, ok(l, 0, 65535) && ok(r, 0, 65535) && ok(l + r, 0, 65535));
    (va VU16, x.subva() as i128 == { l - r }, ok(l, 0, 65535) && ok(r, 0, 65535) && ok(l - r, 0, 65535));
    (va VU16, x.andva() as i128 == { l & r }, ok(l, 0, 65535) && ok(r, 0, 65535) && ok(l & r, 0, 65535));
    (va VU16, x.xorva() as i128 == { l ^ r }, ok(l, 0, 65535) && ok(r, 0, 65535) && ok(l ^ r, 0, 65535));
    (va VU16, x.ltva() == (l < r), true);
    (va VU16, x.geva() == (l >= r), true);
    (va VU16, x.eqva() == (l == r), true);
    (va VU16, x.selva() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 65535) && ok(r, 0, 65535));
    (vb VI16, x.addvb() as i128 == { l + r }, ok(l, -32768, 32767) && ok(r, -32768, 32767) && ok(l + r, -32768, 32767));
    (vb VI16, x.subvb() as i128 == { l - r }, ok(l, -32768, 32767) && ok(r, -32768, 32767) && ok(l - r, -32768, 32767));
    (vb VI16, x.andvb() as i128 == { l & r }, ok(l, -32768, 32767) && ok(r, -32768, 32767) && ok(l & r, -32768, 32767));
    (vb VI16, x.xorvb() as i128 == { l ^ r }, ok(l, -32768, 32767) && ok(r, -32768, 32767) && ok(l ^ r, -32768, 32767));
    (vb VI16, x.ltvb() == (l < r), true);
    (vb VI16, x.gevb() == (l >= r), true);
    (vb VI16, x.eqvb() == (l == r), true);
    (vb VI16, x.selvb() as i128 == { if l > 3 { l } else { r } }, ok(l, -32768, 32767) && ok(r, -32768, 32767));
    (vc VU, x.addvc() as i128 == { l + r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l + r, 0, 18446744073709551615));
    (vc VU, x.subvc() as i128 == { l - r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l - r, 0, 18446744073709551615));
    (vc VU, x.andvc() as i128 == { l & r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l & r, 0, 18446744073709551615));
    (vc VU, x.xorvc() as i128 == { l ^ r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l ^ r, 0, 18446744073709551615));
    (vc VU, x.ltvc() == (l < r), true);
    (vc VU, x.gevc() == (l >= r), true);
    (vc VU, x.eqvc() == (l == r), true);
    (vc VU, x.selvc() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615));
    (vd VSize, x.addvd() as i128 == { l + r }, ok(l, 0, 2147483647) && ok(r, 0, 2147483647) && ok(l + r, 0, 2147483647));
    (vd VSize, x.subvd() as i128 == { l - r }, ok(l, 0, 2147483647) && ok(r, 0, 2147483647) && ok(l - r, 0, 2147483647));
    (vd VSize, x.andvd() as i128 == { l & r }, ok(l, 0, 2147483647) && ok(r, 0, 2147483647) && ok(l & r, 0, 2147483647));
    (vd VSize, x.xorvd() as i128 == { l ^ r }, ok(l, 0, 2147483647) && ok(r, 0, 2147483647) && ok(l ^ r, 0, 2147483647));
    (vd VSize, x.ltvd() == (l < r), true);
    (vd VSize, x.gevd() == (l >= r), true);
    (vd VSize, x.eqvd() == (l == r), true);
    (vd VSize, x.selvd() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 2147483647) && ok(r, 0, 2147483647));
);
pairs!(
    h_c18_products_ib, matrix::Mib, Few<i16>, x l r;
    (ua Few<u8>, x.mulua() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 65535) && ok(r, 0, 65535) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 65535));
    (ua Few<u8>, x.divua() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 65535) && ok(r, 0, 65535) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 65535));
    (ua Few<u8>, x.remua() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 65535) && ok(r, 0, 65535) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 65535));
    (ub Few<u16>, x.mulub() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 65535) && ok(r, 0, 65535) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 65535));
    (ub Few<u16>, x.divub() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 65535) && ok(r, 0, 65535) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 65535));
    (ub Few<u16>, x.remub() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 65535) && ok(r, 0, 65535) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 65535));
    (uc Few<u32>, x.muluc() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 4294967295));
    (uc Few<u32>, x.divuc() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 4294967295));
    (uc Few<u32>, x.remuc() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 4294967295));
    (ud Few<u64>, x.mulud() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 18446744073709551615));
    (ud Few<u64>, x.divud() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 18446744073709551615));
    (ud Few<u64>, x.remud() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 18446744073709551615));
    (ia Few<i8>, x.mulia() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, -32768, 32767) && ok(r, -32768, 32767) && ok((l as i32).wrapping_mul(r as i32) as i128, -32768, 32767));
    (ia Few<i8>, x.divia() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, -32768, 32767) && ok(r, -32768, 32767) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, -32768, 32767));
    (ia Few<i8>, x.remia() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, -32768, 32767) && ok(r, -32768, 32767) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, -32768, 32767));
    (ib Few<i16>, x.mulib() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, -32768, 32767) && ok(r, -32768, 32767) && ok((l as i32).wrapping_mul(r as i32) as i128, -32768, 32767));
    (ib Few<i16>, x.divib() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, -32768, 32767) && ok(r, -32768, 32767) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, -32768, 32767));
    (ib Few<i16>, x.remib() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, -32768, 32767) && ok(r, -32768, 32767) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, -32768, 32767));
    (ic Few<i32>, x.mulic() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, -2147483648, 2147483647) && ok(r, -2147483648, 2147483647) && ok((l as i32).wrapping_mul(r as i32) as i128, -2147483648, 2147483647));
    (ic Few<i32>, x.divic() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, -2147483648, 2147483647) && ok(r, -2147483648, 2147483647) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, -2147483648, 2147483647));
    (ic Few<i32>, x.remic() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, -2147483648, 2147483647) && ok(r, -2147483648, 2147483647) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, -2147483648, 2147483647));
    (id Few<i64>, x.mulid() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, -9223372036854775808, 9223372036854775807) && ok(r, -9223372036854775808, 9223372036854775807) && ok((l as i32).wrapping_mul(r as i32) as i128, -9223372036854775808, 9223372036854775807));
    (id Few<i64>, x.divid() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, -9223372036854775808, 9223372036854775807) && ok(r, -9223372036854775808, 9223372036854775807) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, -9223372036854775808, 9223372036854775807));
    (id Few<i64>, x.remid() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, -9223372036854775808, 9223372036854775807) && ok(r, -9223372036854775808, 9223372036854775807) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, -9223372036854775808, 9223372036854775807));
    (fa Few<u64>, x.mulfa() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 65535) && ok(r, 0, 65535) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 65535));
    (fa Few<u64>, x.divfa() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 65535) && ok(r, 0, 65535) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 65535));
    (fa Few<u64>, x.remfa() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 65535) && ok(r, 0, 65535) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 65535));
    (fb Few<u64>, x.mulfb() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 65535) && ok(r, 0, 65535) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 65535));
    (fb Few<u64>, x.divfb() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 65535) && ok(r, 0, 65535) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 65535));
    (fb Few<u64>, x.remfb() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 65535) && ok(r, 0, 65535) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 65535));
    (fc Few<u64>, x.mulfc() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 1099511627775) && ok(r, 0, 1099511627775) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 1099511627775));
    (fc Few<u64>, x.divfc() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 1099511627775) && ok(r, 0, 1099511627775) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 1099511627775));
    (fc Few<u64>, x.remfc() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 1099511627775) && ok(r, 0, 1099511627775) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 1099511627775));
    (ga Few<i64>, x.mulga() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, -32768, 32767) && ok(r, -32768, 32767) && ok((l as i32).wrapping_mul(r as i32) as i128, -32768, 32767));
    (ga Few<i64>, x.divga() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, -32768, 32767) && ok(r, -32768, 32767) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, -32768, 32767));
    (ga Few<i64>, x.remga() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, -32768, 32767) && ok(r, -32768, 32767) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, -32768, 32767));
    (va Few<u16>, x.mulva() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 65535) && ok(r, 0, 65535) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 65535));
    (va Few<u16>, x.divva() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 65535) && ok(r, 0, 65535) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 65535));
    (va Few<u16>, x.remva() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 65535) && ok(r, 0, 65535) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 65535));
    (vb Few<i16>, x.mulvb() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, -32768, 32767) && ok(r, -32768, 32767) && ok((l as i32).wrapping_mul(r as i32) as i128, -32768, 32767));
    (vb Few<i16>, x.divvb() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, -32768, 32767) && ok(r, -32768, 32767) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, -32768, 32767));
    (vb Few<i16>, x.remvb() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, -32768, 32767) && ok(r, -32768, 32767) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, -32768, 32767));
    (vc Few<u64>, x.mulvc() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 18446744073709551615));
    (vc Few<u64>, x.divvc() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 18446744073709551615));
    (vc Few<u64>, x.remvc() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 18446744073709551615));
    (vd Few<u32>, x.mulvd() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 2147483647) && ok(r, 0, 2147483647) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 2147483647));
    (vd Few<u32>, x.divvd() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 2147483647) && ok(r, 0, 2147483647) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 2147483647));
    (vd Few<u32>, x.remvd() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 2147483647) && ok(r, 0, 2147483647) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 2147483647));
);
pairs!(
    h_c18_pairs_ic, matrix::Mic, I32, x l r;
    (ua U8, x.addua() as i128 == { l + r }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && ok(l + r, 0, 4294967295));
    (ua U8, x.subua() as i128 == { l - r }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && ok(l - r, 0, 4294967295));
    (ua U8, x.andua() as i128 == { l & r }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && ok(l & r, 0, 4294967295));
    (ua U8, x.xorua() as i128 == { l ^ r }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && ok(l ^ r, 0, 4294967295));
    (ua U8, x.ltua() == (l < r), true);
    (ua U8, x.geua() == (l >= r), true);
    (ua U8, x.equa() == (l == r), true);
    (ua U8, x.selua() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295));
    (ub U16, x.addub() as i128 == { l + r }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && ok(l + r, 0, 4294967295));
    (ub U16, x.subub() as i128 == { l - r }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && ok(l - r, 0, 4294967295));
    (ub U16, x.andub() as i128 == { l & r }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && ok(l & r, 0, 4294967295));
    (ub U16, x.xorub() as i128 == { l ^ r }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && ok(l ^ r, 0, 4294967295));
    (ub U16, x.ltub() == (l < r), true);
    (ub U16, x.geub() == (l >= r), true);
    (ub U16, x.equb() == (l == r), true);
    (ub U16, x.selub() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295));
    (uc U32, x.adduc() as i128 == { l + r }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && ok(l + r, 0, 4294967295));
    (uc U32, x.subuc() as i128 == { l - r }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && ok(l - r, 0, 4294967295));
    (uc U32, x.anduc() as i128 == { l & r }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && ok(l & r, 0, 4294967295));
    (uc U32, x.xoruc() as i128 == { l ^ r }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && ok(l ^ r, 0, 4294967295));
    (uc U32, x.ltuc() == (l < r), true);
    (uc U32, x.geuc() == (l >= r), true);
    (uc U32, x.equc() == (l == r), true);
    (uc U32, x.seluc() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295));
    (ud U64, x.addud() as i128 == { l + r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l + r, 0, 18446744073709551615));
    (ud U64, x.subud() as i128 == { l - r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l - r, 0, 18446744073709551615));
    (ud U64, x.andud() as i128 == { l & r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l & r, 0, 18446744073709551615));
    (ud U64, x.xorud() as i128 == { l ^ r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l ^ r, 0, 18446744073709551615));
    (ud U64, x.ltud() == (l < r), true);
    (ud U64, x.geud() == (l >= r), true);
    (ud U64, x.equd() == (l == r), true);
    (ud U64, x.selud() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615));
    (ia I8, x.addia() as i128 == { l + r }, ok(l, -2147483648, 2147483647) && ok(r, -2147483648, 2147483647) && ok(l + r, -2147483648, 2147483647));
    (ia I8, x.subia() as i128 == { l - r }, ok(l, -2147483648, 2147483647) && ok(r, -2147483648, 2147483647) && ok(l - r, -2147483648, 2147483647));
    (ia I8, x.andia() as i128 == { l & r }, ok(l, -2147483648, 2147483647) && ok(r, -2147483648, 2147483647) && ok(l & r, -2147483648, 2147483647));
    (ia I8, x.xoria() as i128 == { l ^ r }, ok(l, -2147483648, 2147483647) && ok(r, -2147483648, 2147483647) && ok(l ^ r, -2147483648, 2147483647));
    (ia I8, x.ltia() == (l < r), true);
    (ia I8, x.geia() == (l >= r), true);
    (ia I8, x.eqia() == (l == r), true);
    (ia I8, x.selia() as i128 == { if l > 3 { l } else { r } }, ok(l, -2147483648, 2147483647) && ok(r, -2147483648, 2147483647));
    (ib I16, x.addib() as i128 == { l + r }, ok(l, -2147483648, 2147483647) && ok(r, -2147483648, 2147483647) && ok(l + r, -2147483648, 2147483647));
    (ib I16, x.subib() as i128 == { l - r }, ok(l, -2147483648, 2147483647) && ok(r, -2147483648, 2147483647) && ok(l - r, -2147483648, 2147483647));
    (ib I16, x.andib() as i128 == { l & r }, ok(l, -2147483648, 2147483647) && ok(r, -2147483648, 2147483647) && ok(l & r, -2147483648, 2147483647));
    (ib I16, x.xorib() as i128 == { l ^ r }, ok(l, -2147483648, 2147483647) && ok(r, -2147483648, 2147483647) && ok(l ^ r, -2147483648, 2147483647));
    (ib I16, x.ltib() == (l < r), true);
    (ib I16, x.geib() == (l >= r), true);
    (ib I16, x.eqib() == (l == r), true);
    (ib I16, x.selib() as i128 == { if l > 3 { l } else { r } }, ok(l, -2147483648, 2147483647) && ok(r, -2147483648, 2147483647));
    (ic I32, x.addic() as i128 == { l + r }, ok(l, -2147483648, 2147483647) && ok(r, -2147483648, 2147483647) && ok(l + r, -2147483648, 2147483647));
    (ic I32, x.subic() as i128 == { l - r }, ok(l, -2147483648, 2147483647) && ok(r, -2147483648, 2147483647) && ok(l - r, -2147483648, 2147483647));
    (ic I32, x.andic() as i128 == { l & r }, ok(l, -2147483648, 2147483647) && ok(r, -2147483648, 2147483647) && ok(l & r, -2147483648, 2147483647));
    (ic I32, x.xoric() as i128 == { l ^ r }, ok(l, -2147483648, 2147483647) && ok(r, -2147483648, 2147483647) && ok(l ^ r, -2147483648, 2147483647));
    (ic I32, x.ltic() == (l < r), true);
    (ic I32, x.geic() == (l >= r), true);
    (ic I32, x.eqic() == (l == r), true);
    (ic I32, x.selic() as i128 == { if l > 3 { l } else { r } }, ok(l, -2147483648, 2147483647) && ok(r, -2147483648, 2147483647));
    (id I64, x.addid() as i128 == { l + r }, ok(l, -9223372036854775808, 9223372036854775807) && ok(r, -9223372036854775808, 9223372036854775807) && ok(l + r, -9223372036854775808, 9223372036854775807));
    (id I64, x.subid() as i128 == { l - r }, ok(l, -9223372036854775808, 9223372036854775807) && ok(r, -9223372036854775808, 9223372036854775807) && ok(l - r, -9223372036854775808, 9223372036854775807));
    (id I64, x.andid() as i128 == { l & r }, ok(l, -9223372036854775808, 9223372036854775807) && ok(r, -9223372036854775808, 9223372036854775807) && ok(l & r, -9223372036854775808, 9223372036854775807));
    (id I64, x.xorid() as i128 == { l ^ r }, ok(l, -9223372036854775808, 9223372036854775807) && ok(r, -9223372036854775808, 9223372036854775807) && ok(l ^ r, -9223372036854775808, 9223372036854775807));
    (id I64, x.ltid() == (l < r), true);
    (id I64, x.geid() == (l >= r), true);
    (id I64, x.eqid() == (l == r), true);
    (id I64, x.selid() as i128 == { if l > 3 { l } else { r } }, ok(l, -9223372036854775808, 9223372036854775807) && ok(r, -9223372036854775808, 9223372036854775807));
    (fa Bit<5>, x.addfa() as i128 == { l + r }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && ok(l + r, 0, 4294967295));
    (fa Bit<5>, x.subfa() as i128 == { l - r }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && ok(l - r, 0, 4294967295));
    (fa Bit<5>, x.andfa() as i128 == { l & r }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && ok(l & r, 0, 4294967295));
    (fa Bit<5>, x.xorfa() as i128 == { l ^ r }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && ok(l ^ r, 0, 4294967295));
    (fa Bit<5>, x.ltfa() == (l < r), true);
    (fa Bit<5>, x.gefa() == (l >= r), true);
    (fa Bit<5>, x.eqfa() == (l == r), true);
    (fa Bit<5>, x.selfa() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295));
    (fb Bit<12>, x.addfb() as i128 == { l + r }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && ok(l + r, 0, 4294967295));
    (fb Bit<12>, x.subfb() as i128 == { l - r }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && ok(l - r, 0, 4294967295));
    (fb Bit<12>, x.andfb() as i128 == { l & r }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && ok(l & r, 0, 4294967295));
    (fb Bit<12>, x.xorfb() as i128 == { l ^ r }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && ok(l ^ r, 0, 4294967295));
    (fb Bit<12>, x.ltfb() == (l < r), true);
    (fb Bit<12>, x.gefb() == (l >= r), true);
    (fb Bit<12>, x.eqfb() == (l == r), true);
    (fb Bit<12>, x.selfb() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295));
    (fc Bit<40>, x.addfc() as i128 == { l + r }, ok(l, 0, 1099511627775) && ok(r, 0, 1099511627775) && ok(l + r, 0, 1099511627775));
    (fc Bit<40>, x.subfc() as i128 == { l - r }, ok(l, 0, 1099511627775) && ok(r, 0, 1099511627775) && ok(l - r, 0, 1099511627775));
    (fc Bit<40>, x.andfc() as i128 == { l & r }, ok(l, 0, 1099511627775) && ok(r, 0, 1099511627775) && ok(l & r, 0, 1099511627775));
    (fc Bit<40>, x.xorfc() as i128 == { l ^ r }, ok(l, 0, 1099511627775) && ok(r, 0, 1099511627775) && ok(l ^ r, 0, 1099511627775));
    (fc Bit<40>, x.ltfc() == (l < r), true);
    (fc Bit<40>, x.gefc() == (l >= r), true);
    (fc Bit<40>, x.eqfc() == (l == r), true);
    (fc Bit<40>, x.selfc() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 1099511627775) && ok(r, 0, 1099511627775));
    (ga Int<5>, x.addga() as i128 == { l + r }, ok(l, -2147483648, 2147483647) && ok(r, -2147483648, 2147483647) && ok(l + r, -2147483648, 2147483647));
    (ga Int<5>, x.subga() as i128 == { l - r }, ok(l, -2147483648, 2147483647) && ok(r, -2147483648, 2147483647) && ok(l - r, -2147483648, 2147483647));
    (ga Int<5>, x.andga() as i128 == { l & r }, ok(l, -2147483648, 2147483647) && ok(r, -2147483648, 2147483647) && ok(l & r, -2147483648, 2147483647));
    (ga Int<5>, x.xorga() as i128 == { l ^ r }, ok(l, -2147483648, 2147483647) && ok(r, -2147483648, 2147483647) && ok(l ^ r, -2147483648, 2147483647));
    (ga Int<5>, x.ltga() == (l < r), true);
    (ga Int<5>, x.gega() == (l >= r), true);
    (ga Int<5>, x.eqga() == (l == r), true);
    (ga Int<5>, x.selga() as i128 == { if l > 3 { l } else { r } }, ok(l, -2147483648, 2147483647) && ok(r, -2147483648, 2147483647));
    (va VU16, x.addva() as i128 == { l + r }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && ok(l + r, 0, 4294967295));
    (va VU16, x.subva() as i128 == { l - r }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && ok(l - r, 0, 4294967295));
    (va VU16, x.andva() as i128 == { l & r }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && ok(l & r, 0, 4294967295));
    (va VU16, x.xorva() as i128 == { l ^ r }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && ok(l ^ r, 0, 4294967295));
    (va VU16, x.ltva() == (l < r), true);
    (va VU16, x.geva() == (l >= r), true);
    (va VU16, x.eqva() == (l == r), true);
    (va VU16, x.selva() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295));
    (vb VI16, x.addvb() as i128 == { l + r }, ok(l, -2147483648, 2147483647) && ok(r, -2147483648, 2147483647) && ok(l + r, -2147483648, 2147483647));
    (vb VI16, x.subvb() as i128 == { l - r }, ok(l, -2147483648, 2147483647) && ok(r, -2147483648, 2147483647) && ok(l - r, -2147483648, 2147483647));
    (vb VI16, x.andvb() as i128 == { l & r }, ok(l, -2147483648, 2147483647) && ok(r, -2147483648, 2147483647) && ok(l & r, -2147483648, 2147483647));
    (vb VI16, x.xorvb() as i128 == { l ^ r }, ok(l, -2147483648, 2147483647) && ok(r, -2147483648, 2147483647) && ok(l ^ r, -2147483648, 2147483647));
    (vb VI16, x.ltvb() == (l < r), true);
    (vb VI16, x.gevb() == (l >= r), true);
    (vb VI16, x.eqvb() == (l == r), true);
    (vb VI16, x.selvb() as i128 == { if l > 3 { l } else { r } }, ok(l, -2147483648, 2147483647) && ok(r, -2147483648, 2147483647));
    (vc VU, x.addvc() as i128 == { l + r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l + r, 0, 18446744073709551615));
    (vc VU, x.subvc() as i128 == { l - r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l - r, 0, 18446744073709551615));
    (vc VU, x.andvc() as i128 == { l & r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l & r, 0, 18446744073709551615));
    (vc VU, x.xorvc() as i128 == { l ^ r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l ^ r, 0, 18446744073709551615));
    (vc VU, x.ltvc() == (l < r), true);
    (vc VU, x.gevc() == (l >= r), true);
    (vc VU, x.eqvc() == (l == r), true);
    (vc VU, x.selvc() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615));
    (vd VSize, x.addvd() as i128 == { l + r }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && ok(l + r, 0, 4294967295));
    (vd VSize, x.subvd() as i128 == { l - r }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && ok(l - r, 0, 4294967295));
    (vd VSize, x.andvd() as i128 == { l & r }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && ok(l & r, 0, 4294967295));
    (vd VSize, x.xorvd() as i128 == { l ^ r }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && ok(l ^ r, 0, 4294967295));
    (vd VSize, x.ltvd() == (l < r), true);
    (vd VSize, x.gevd() == (l >= r), true);
    (vd VSize, x.eqvd() == (l == r), true);
    (vd VSize, x.selvd() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295));
);
pairs!(
    h_c18_products_ic, matrix::Mic, Few<i32>, x l r;
    (ua Few<u8>, x.mulua() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 4294967295));
    (ua Few<u8>, x.divua() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 4294967295));
    (ua Few<u8>, x.remua() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 4294967295));
    (ub Few<u16>, x.mulub() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 4294967295));
    (ub Few<u16>, x.divub() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 4294967295));
    (ub Few<u16>, x.remub() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 4294967295));
    (uc Few<u32>, x.muluc() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 4294967295));
    (uc Few<u32>, x.divuc() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 4294967295));
    (uc Few<u32>, x.remuc() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 4294967295));
    (ud Few<u64>, x.mulud() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 18446744073709551615));
    (ud Few<u64>, x.divud() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 18446744073709551615));
    (ud Few<u64>, x.remud() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 18446744073709551615));
    (ia Few<i8>, x.mulia() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, -2147483648, 2147483647) && ok(r, -2147483648, 2147483647) && ok((l as i32).wrapping_mul(r as i32) as i128, -2147483648, 2147483647));
    (ia Few<i8>, x.divia() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, -2147483648, 2147483647) && ok(r, -2147483648, 2147483647) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, -2147483648, 2147483647));
    (ia Few<i8>, x.remia() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, -2147483648, 2147483647) && ok(r, -2147483648, 2147483647) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, -2147483648, 2147483647));
    (ib Few<i16>, x.mulib() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, -2147483648, 2147483647) && ok(r, -2147483648, 2147483647) && ok((l as i32).wrapping_mul(r as i32) as i128, -2147483648, 2147483647));
    (ib Few<i16>, x.divib() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, -2147483648, 2147483647) && ok(r, -2147483648, 2147483647) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, -2147483648, 2147483647));
    (ib Few<i16>, x.remib() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, -2147483648, 2147483647) && ok(r, -2147483648, 2147483647) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, -2147483648, 2147483647));
    (ic Few<i32>, x.mulic() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, -2147483648, 2147483647) && ok(r, -2147483648, 2147483647) && ok((l as i32).wrapping_mul(r as i32) as i128, -2147483648, 2147483647));
    (ic Few<i32>, x.divic() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, -2147483648, 2147483647) && ok(r, -2147483648, 2147483647) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, -2147483648, 2147483647));
    (ic Few<i32>, x.remic() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, -2147483648, 2147483647) && ok(r, -2147483648, 2147483647) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, -2147483648, 2147483647));
    (id Few<i64>, x.mulid() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, -9223372036854775808, 9223372036854775807) && ok(r, -9223372036854775808, 9223372036854775807) && ok((l as i32).wrapping_mul(r as i32) as i128, -9223372036854775808, 9223372036854775807));
    (id Few<i64>, x.divid() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, -9223372036854775808, 9223372036854775807) && ok(r, -9223372036854775808, 9223372036854775807) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, -9223372036854775808, 9223372036854775807));
    (id Few<i64>, x.remid() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, -9223372036854775808, 9223372036854775807) && ok(r, -9223372036854775808, 9223372036854775807) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, -9223372036854775808, 9223372036854775807));
    (fa Few<u64>, x.mulfa() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 4294967295));
    (fa Few<u64>, x.divfa() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 4294967295));
    (fa Few<u64>, x.remfa() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 4294967295));
    (fb Few<u64>, x.mulfb() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 4294967295));
    (fb Few<u64>, x.divfb() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 4294967295));
    (fb Few<u64>, x.remfb() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 4294967295));
    (fc Few<u64>, x.mulfc() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 1099511627775) && ok(r, 0, 1099511627775) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 1099511627775));
    (fc Few<u64>, x.divfc() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 1099511627775) && ok(r, 0, 1099511627775) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 1099511627775));
    (fc Few<u64>, x.remfc() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 1099511627775) && ok(r, 0, 1099511627775) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 1099511627775));
    (ga Few<i64>, x.mulga() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, -2147483648, 2147483647) && ok(r, -2147483648, 2147483647) && ok((l as i32).wrapping_mul(r as i32) as i128, -2147483648, 2147483647));
    (ga Few<i64>, x.divga() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, -2147483648, 2147483647) && ok(r, -2147483648, 2147483647) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, -2147483648, 2147483647));
    (ga Few<i64>, x.remga() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, -2147483648, 2147483647) && ok(r, -2147483648, 2147483647) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, -2147483648, 2147483647));
    (va Few<u16>, x.mulva() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 4294967295));
    (va Few<u16>, x.divva() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 4294967295));
    (va Few<u16>, x.remva() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 4294967295));
    (vb Few<i16>, x.mulvb() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, -2147483648, 2147483647) && ok(r, -2147483648, 2147483647) && ok((l as i32).wrapping_mul(r as i32) as i128, -2147483648, 2147483647));
    (vb Few<i16>, x.divvb() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, -2147483648, 2147483647) && ok(r, -2147483648, 2147483647) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, -2147483648, 2147483647));
    (vb Few<i16>, x.remvb() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, -2147483648, 2147483647) && ok(r, -2147483648, 2147483647) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, -2147483648, 2147483647));
    (vc Few<u64>, x.mulvc() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 18446744073709551615));
    (vc Few<u64>, x.divvc() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 18446744073709551615));
    (vc Few<u64>, x.remvc() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 18446744073709551615));
    (vd Few<u32>, x.mulvd() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 4294967295));
    (vd Few<u32>, x.divvd() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 4294967295));
    (vd Few<u32>, x.remvd() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 4294967295));
);
pairs!(
    h_c18_pairs_id, matrix::Mid, I64, x l r;
    (ua U8, x.addua() as i128 == { l + r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l + r, 0, 18446744073709551615));
    (ua U8, x.subua() as i128 == { l - r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l - r, 0, 18446744073709551615));
    (ua U8, x.andua() as i128 == { l & r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l & r, 0, 18446744073709551615));
    (ua U8, x.xorua() as i128 == { l ^ r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l ^ r, 0, 18446744073709551615));
    (ua U8, x.ltua() == (l < r), true);
    (ua U8, x.geua() == (l >= r), true);
    (ua U8, x.equa() == (l == r), true);
    (ua U8, x.selua() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615));
    (ub U16, x.addub() as i128 == { l + r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l + r, 0, 18446744073709551615));
    (ub U16, x.subub() as i128 == { l - r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l - r, 0, 18446744073709551615));
    (ub U16, x.andub() as i128 == { l & r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l & r, 0, 18446744073709551615));
    (ub U16, x.xorub() as i128 == { l ^ r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l ^ r, 0, 18446744073709551615));
    (ub U16, x.ltub() == (l < r), true);
    (ub U16, x.geub() == (l >= r), true);
    (ub U16, x.equb() == (l == r), true);
    (ub U16, x.selub() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615));
    (uc U32, x.adduc() as i128 == { l + r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l + r, 0, 18446744073709551615));
    (uc U32, x.subuc() as i128 == { l - r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l - r, 0, 18446744073709551615));
    (uc U32, x.anduc() as i128 == { l & r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l & r, 0, 18446744073709551615));
    (uc U32, x.xoruc() as i128 == { l ^ r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l ^ r, 0, 18446744073709551615));
    (uc U32, x.ltuc() == (l < r), true);
    (uc U32, x.geuc() == (l >= r), true);
    (uc U32, x.equc() == (l == r), true);
    (uc U32, x.seluc() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615));
    (ud U64, x.addud() as i128 == { l + r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l + r, 0, 18446744073709551615));
    (ud U64, x.subud() as i128 == { l - r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l - r, 0, 18446744073709551615));
    (ud U64, x.andud() as i128 == { l & r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l & r, 0, 18446744073709551615));
    (ud U64, x.xorud() as i128 == { l ^ r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l ^ r, 0, 18446744073709551615));
    (ud U64, x.ltud() == (l < r), true);
    (ud U64, x.geud() == (l >= r), true);
    (ud U64, x.equd() == (l == r), true);
    (ud U64, x.selud() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615));
    (ia I8, x.addia() as i128 == { l + r }, ok(l, -9223372036854775808, 9223372036854775807) && ok(r, -9223372036854775808, 9223372036854775807) && ok(l + r, -9223372036854775808, 9223372036854775807));
    (ia I8, x.subia() as i128 == { l - r }, ok(l, -9223372036854775808, 9223372036854775807) && ok(r, -9223372036854775808, 9223372036854775807) && ok(l - r, -9223372036854775808, 9223372036854775807));
    (ia I8, x.andia() as i128 == { l & r }, ok(l, -9223372036854775808, 9223372036854775807) && ok(r, -9223372036854775808, 9223372036854775807) && ok(l & r, -9223372036854775808, 9223372036854775807));
    (ia I8, x.xoria() as i128 == { l ^ r }, ok(l, -9223372036854775808, 9223372036854775807) && ok(r, -9223372036854775808, 9223372036854775807) && ok(l ^ r, -9223372036854775808, 9223372036854775807));
    (ia I8, x.ltia() == (l < r), true);
    (ia I8, x.geia() == (l >= r), true);
    (ia I8, x.eqia() == (l == r), true);
    (ia I8, x.selia() as i128 == { if l > 3 { l } else { r } }, ok(l, -9223372036854775808, 9223372036854775807) && ok(r, -9223372036854775808, 9223372036854775807));
    (ib I16, x.addib() as i128 == { l + r }, ok(l, -9223372036854775808, 9223372036854775807) && ok(r, -9223372036854775808, 9223372036854775807) && ok(l + r, -9223372036854775808, 9223372036854775807));
    (ib I16, x.subib() as i128 == { l - r }, ok(l, -9223372036854775808, 9223372036854775807) && ok(r, -9223372036854775808, 9223372036854775807) && ok(l - r, -9223372036854775808, 9223372036854775807));
    (ib I16, x.andib() as i128 == { l & r }, ok(l, -9223372036854775808, 9223372036854775807) && ok(r, -9223372036854775808, 9223372036854775807) && ok(l & r, -9223372036854775808, 9223372036854775807));
    (ib I16, x.xorib() as i128 == { l ^ r }, ok(l, -9223372036854775808, 9223372036854775807) && ok(r, -9223372036854775808, 9223372036854775807) && ok(l ^ r, -9223372036854775808, 9223372036854775807));
    (ib I16, x.ltib() == (l < r), true);
    (ib I16, x.geib() == (l >= r), true);
    (ib I16, x.eqib() == (l == r), true);
    (ib I16, x.selib() as i128 == { if l > 3 { l } else { r } }, ok(l, -9223372036854775808, 9223372036854775807) && ok(r, -9223372036854775808, 9223372036854775807));
    (ic I32, x.addic() as i128 == { l + r }, ok(l, -9223372036854775808, 9223372036854775807) && ok(r, -9223372036854775808, 9223372036854775807) && ok(l + r, -9223372036854775808, 9223372036854775807));
    (ic I32, x.subic() as i128 == { l - r }, ok(l, -9223372036854775808, 9223372036854775807) && ok(r, -9223372036854775808, 9223372036854775807) && ok(l - r, -9223372036854775808, 9223372036854775807));
    (ic I32, x.andic() as i128 == { l & r }, ok(l, -9223372036854775808, 9223372036854775807) && ok(r, -9223372036854775808, 9223372036854775807) && ok(l & r, -9223372036854775808, 9223372036854775807));
    (ic I32, x.xoric() as i128 == { l ^ r }, ok(l, -9223372036854775808, 9223372036854775807) && ok(r, -9223372036854775808, 9223372036854775807) && ok(l ^ r, -9223372036854775808, 9223372036854775807));
    (ic I32, x.ltic() == (l < r), true);
    (ic I32, x.geic() == (l >= r), true);
    (ic I32, x.eqic() == (l == r), true);
    (ic I32, x.selic() as i128 == { if l > 3 { l } else { r } }, ok(l, -9223372036854775808, 9223372036854775807) && ok(r, -9223372036854775808, 9223372036854775807));
    (id I64, x.addid() as i128 == { l + r }, ok(l, -9223372036854775808, 9223372036854775807) && ok(r, -9223372036854775808, 9223372036854775807) && ok(l + r, -9223372036854775808, 9223372036854775807));
    (id I64, x.subid() as i128 == { l - r }, ok(l, -9223372036854775808, 9223372036854775807) && ok(r, -9223372036854775808, 9223372036854775807) && ok(l - r, -9223372036854775808, 9223372036854775807));
    (id I64, x.andid() as i128 == { l & r }, ok(l, -9223372036854775808, 9223372036854775807) && ok(r, -9223372036854775808, 9223372036854775807) && ok(l & r, -9223372036854775808, 9223372036854775807));
    (id I64, x.xorid() as i128 == { l ^ r }, ok(l, -9223372036854775808, 9223372036854775807) && ok(r, -9223372036854775808, 9223372036854775807) && ok(l ^ r, -9223372036854775808, 9223372036854775807));
    (id I64, x.ltid() == (l < r), true);
    (id I64, x.geid() == (l >= r), true);
    (id I64, x.eqid() == (l == r), true);
    (id I64, x.selid() as i128 == { if l > 3 { l } else { r } }, ok(l, -9223372036854775808, 9223372036854775807) && ok(r, -9223372036854775808, 9223372036854775807));
    (fa Bit<5>, x.addfa() as i128 == { l + r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l + r, 0, 18446744073709551615));
    (fa Bit<5>, x.subfa() as i128 == { l - r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l - r, 0, 18446744073709551615));
    (fa Bit<5>, x.andfa() as i128 == { l & r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l & r, 0, 18446744073709551615));
    (fa Bit<5>, x.xorfa() as i128 == { l ^ r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l ^ r, 0, 18446744073709551615));
    (fa Bit<5>, x.ltfa() == (l < r), true);
    (fa Bit<5>, x.gefa() == (l >= r), true);
    (fa Bit<5>, x.eqfa() == (l == r), true);
    (fa Bit<5>, x.selfa() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615));
    (fb Bit<12>, x.addfb() as i128 == { l + r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l + r, 0, 18446744073709551615));
    (fb Bit<12>, x.subfb() as i128 == { l - r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l - r, 0, 18446744073709551615));
    (fb Bit<12>, x.andfb() as i128 == { l & r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l & r, 0, 18446744073709551615));
    (fb Bit<12>, x.xorfb() as i128 == { l ^ r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l ^ r, 0, 18446744073709551615));
    (fb Bit<12>, x.ltfb() == (l < r), true);
    (fb Bit<12>, x.gefb() == (l >= r), true);
    (fb Bit<12>, x.eqfb() == (l == r), true);
    (fb Bit<12>, x.selfb() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615));
    (fc Bit<40>, x.addfc() as i128 == { l + r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l + r, 0, 18446744073709551615));
    (fc Bit<40>, x.subfc() as i128 == { l - r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l - r, 0, 18446744073709551615));
    (fc Bit<40>, x.andfc() as i128 == { l & r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l & r, 0, 18446744073709551615));
    (fc Bit<40>, x.xorfc() as i128 == { l ^ r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l ^ r, 0, 18446744073709551615));
    (fc Bit<40>, x.ltfc() == (l < r), true);
    (fc Bit<40>, x.gefc() == (l >= r), true);
    (fc Bit<40>, x.eqfc() == (l == r), true);
    (fc Bit<40>, x.selfc() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615));
    (ga Int<5>, x.addga() as i128 == { l + r }, ok(l, -9223372036854775808, 9223372036854775807) && ok(r, -9223372036854775808, 9223372036854775807) && ok(l + r, -9223372036854775808, 9223372036854775807));
    (ga Int<5>, x.subga() as i128 == { l - r }, ok(l, -9223372036854775808, 9223372036854775807) && ok(r, -9223372036854775808, 9223372036854775807) && ok(l - r, -9223372036854775808, 9223372036854775807));
    (ga Int<5>, x.andga() as i128 == { l & r }, ok(l, -9223372036854775808, 9223372036854775807) && ok(r, -9223372036854775808, 9223372036854775807) && ok(l & r, -9223372036854775808, 9223372036854775807));
    (ga Int<5>, x.xorga() as i128 == { l ^ r }, ok(l, -9223372036854775808, 9223372036854775807) && ok(r, -9223372036854775808, 9223372036854775807) && ok(l ^ r, -9223372036854775808, 9223372036854775807));
    (ga Int<5>, x.ltga() == (l < r), true);
    (ga Int<5>, x.gega() == (l >= r), true);
    (ga Int<5>, x.eqga() == (l == r), true);
    (ga Int<5>, x.selga() as i128 == { if l > 3 { l } else { r } }, ok(l, -9223372036854775808, 9223372036854775807) && ok(r, -9223372036854775808, 9223372036854775807));
    (va VU16, x.addva() as i128 == { l + r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l + r, 0, 18446744073709551615));
    (va VU16, x.subva() as i128 == { l - r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l - r, 0, 18446744073709551615));
    (va VU16, x.andva() as i128 == { l & r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l & r, 0, 18446744073709551615));
    (va VU16, x.xorva() as i128 == { l ^ r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l ^ r, 0, 18446744073709551615));
    (va VU16, x.ltva() == (l < r), true);
    (va VU16, x.geva() == (l >= r), true);
    (va VU16, x.eqva() == (l == r), true);
    (va VU16, x.selva() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615));
    (vb VI16, x.addvb() as i128 == { l + r }, ok(l, -9223372036854775808, 9223372036854775807) && ok(r, -9223372036854775808, 9223372036854775807) && ok(l + r, -9223372036854775808, 9223372036854775807));
    (vb VI16, x.subvb() as i128 == { l - r }, ok(l, -9223372036854775808, 9223372036854775807) && ok(r, -9223372036854775808, 9223372036854775807) && ok(l - r, -9223372036854775808, 9223372036854775807));
    (vb VI16, x.andvb() as i128 == { l & r }, ok(l, -9223372036854775808, 9223372036854775807) && ok(r, -9223372036854775808, 9223372036854775807) && ok(l & r, -9223372036854775808, 9223372036854775807));
    (vb VI16, x.xorvb() as i128 == { l ^ r }, ok(l, -9223372036854775808, 9223372036854775807) && ok(r, -9223372036854775808, 9223372036854775807) && ok(l ^ r, -9223372036854775808, 9223372036854775807));
    (vb VI16, x.ltvb() == (l < r), true);
    (vb VI16, x.gevb() == (l >= r), true);
    (vb VI16, x.eqvb() == (l == r), true);
    (vb VI16, x.selvb() as i128 == { if l > 3 { l } else { r } }, ok(l, -9223372036854775808, 9223372036854775807) && ok(r, -9223372036854775808, 9223372036854775807));
    (vc VU, x.addvc() as i128 == { l + r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l + r, 0, 18446744073709551615));
    (vc VU, x.subvc() as i128 == { l - r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l - r, 0, 18446744073709551615));
    (vc VU, x.andvc() as i128 == { l & r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l & r, 0, 18446744073709551615));
    (vc VU, x.xorvc() as i128 == { l ^ r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l ^ r, 0, 18446744073709551615));
    (vc VU, x.ltvc() == (l < r), true);
    (vc VU, x.gevc() == (l >= r), true);
    (vc VU, x.eqvc() == (l == r), true);
    (vc VU, x.selvc() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615));
    (vd VSize, x.addvd() as i128 == { l + r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l + r, 0, 18446744073709551615));
    (vd VSize, x.subvd() as i128 == { l - r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l - r, 0, 18446744073709551615));
    (vd VSize, x.andvd() as i128 == { l & r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l & r, 0, 18446744073709551615));
    (vd VSize, x.xorvd() as i128 == { l ^ r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l ^ r, 0, 18446744073709551615));
    (vd VSize, x.ltvd() == (l < r), true);
    (vd VSize, x.gevd() == (l >= r), true);
    (vd VSize, x.eqvd() == (l == r), true);
    (vd VSize, x.selvd() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615));
);
pairs!(
    h_c18_products_id, matrix::Mid, Few<i64>, x l r;
    (ua Few<u8>, x.mulua() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 18446744073709551615));
    (ua Few<u8>, x.divua() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 18446744073709551615));
    (ua Few<u8>, x.remua() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 18446744073709551615));
    (ub Few<u16>, x.mulub() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 18446744073709551615));
    (ub Few<u16>, x.divub() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 18446744073709551615));
    (ub Few<u16>, x.remub() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 18446744073709551615));
    (uc Few<u32>, x.muluc() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 18446744073709551615));
    (uc Few<u32>, x.divuc() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 18446744073709551615));
    (uc Few<u32>, x.remuc() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 18446744073709551615));
    (ud Few<u64>, x.mulud() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 18446744073709551615));
    (ud Few<u64>, x.divud() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 18446744073709551615));
    (ud Few<u64>, x.remud() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 18446744073709551615));
    (ia Few<i8>, x.mulia() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, -9223372036854775808, 9223372036854775807) && ok(r, -9223372036854775808, 9223372036854775807) && ok((l as i32).wrapping_mul(r as i32) as i128, -9223372036854775808, 9223372036854775807));
    (ia Few<i8>, x.divia() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, -9223372036854775808, 9223372036854775807) && ok(r, -9223372036854775808, 9223372036854775807) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, -9223372036854775808, 9223372036854775807));
    (ia Few<i8>, x.remia() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, -9223372036854775808, 9223372036854775807) && ok(r, -9223372036854775808, 9223372036854775807) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, -9223372036854775808, 9223372036854775807));
    (ib Few<i16>, x.mulib() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, -9223372036854775808, 9223372036854775807) && ok(r, -9223372036854775808, 9223372036854775807) && ok((l as i32).wrapping_mul(r as i32) as i128, -9223372036854775808, 9223372036854775807));
    (ib Few<i16>, x.divib() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, -9223372036854775808, 9223372036854775807) && ok(r, -9223372036854775808, 9223372036854775807) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, -9223372036854775808, 9223372036854775807));
    (ib Few<i16>, x.remib() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, -9223372036854775808, 9223372036854775807) && ok(r, -9223372036854775808, 9223372036854775807) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, -9223372036854775808, 9223372036854775807));
    (ic Few<i32>, x.mulic() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, -9223372036854775808, 9223372036854775807) && ok(r, -9223372036854775808, 9223372036854775807) && ok((l as i32).wrapping_mul(r as i32) as i128, -9223372036854775808, 9223372036854775807));
    (ic Few<i32>, x.divic() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, -9223372036854775808, 9223372036854775807) && ok(r, -9223372036854775808, 9223372036854775807) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, -9223372036854775808, 9223372036854775807));
    (ic Few<i32>, x.remic() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, -9223372036854775808, 9223372036854775807) && ok(r, -9223372036854775808, 9223372036854775807) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, -9223372036854775808, 9223372036854775807));
    (id Few<i64>, x.mulid() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, -9223372036854775808, 9223372036854775807) && ok(r, -9223372036854775808, 9223372036854775807) && ok((l as i32).wrapping_mul(r as i32) as i128, -9223372036854775808, 9223372036854775807));
    (id Few<i64>, x.divid() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, -9223372036854775808, 9223372036854775807) && ok(r, -9223372036854775808, 9223372036854775807) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, -9223372036854775808, 9223372036854775807));
    (id Few<i64>, x.remid() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, -9223372036854775808, 9223372036854775807) && ok(r, -9223372036854775808, 9223372036854775807) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, -9223372036854775808, 9223372036854775807));
    (fa Few<u64>, x.mulfa() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 18446744073709551615));
    (fa Few<u64>, x.divfa() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 18446744073709551615));
    (fa Few<u64>, x.remfa() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 18446744073709551615));
    (fb Few<u64>, x.mulfb() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 18446744073709551615));
    (fb Few<u64>, x.divfb() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 18446744073709551615));
    (fb Few<u64>, x.remfb() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 18446744073709551615));
    (fc Few<u64>, x.mulfc() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 18446744073709551615));
    (fc Few<u64>, x.divfc() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 18446744073709551615));
    (fc Few<u64>, x.remfc() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 18446744073709551615));
    (ga Few<i64>, x.mulga() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, -9223372036854775808, 9223372036854775807) && ok(r, -9223372036854775808, 9223372036854775807) && ok((l as i32).wrapping_mul(r as i32) as i128, -9223372036854775808, 9223372036854775807));
    (ga Few<i64>, x.divga() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, -9223372036854775808, 9223372036854775807) && ok(r, -9223372036854775808, 9223372036854775807) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, -9223372036854775808, 9223372036854775807));
    (ga Few<i64>, x.remga() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, -9223372036854775808, 9223372036854775807) && ok(r, -9223372036854775808, 9223372036854775807) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, -9223372036854775808, 9223372036854775807));
    (va Few<u16>, x.mulva() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 18446744073709551615));
    (va Few<u16>, x.divva() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 18446744073709551615));
    (va Few<u16>, x.remva() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 18446744073709551615));
    (vb Few<i16>, x.mulvb() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, -9223372036854775808, 9223372036854775807) && ok(r, -9223372036854775808, 9223372036854775807) && ok((l as i32).wrapping_mul(r as i32) as i128, -9223372036854775808, 9223372036854775807));
    (vb Few<i16>, x.divvb() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, -9223372036854775808, 9223372036854775807) && ok(r, -9223372036854775808, 9223372036854775807) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, -9223372036854775808, 9223372036854775807));
    (vb Few<i16>, x.remvb() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, -9223372036854775808, 9223372036854775807) && ok(r, -9223372036854775808, 9223372036854775807) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, -9223372036854775808, 9223372036854775807));
    (vc Few<u64>, x.mulvc() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 18446744073709551615));
    (vc Few<u64>, x.divvc() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 18446744073709551615));
    (vc Few<u64>, x.remvc() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 18446744073709551615));
    (vd Few<u32>, x.mulvd() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 18446744073709551615));
    (vd Few<u32>, x.divvd() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 18446744073709551615));
    (vd Few<u32>, x.remvd() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 18446744073709551615));
);
pairs!(
    h_c18_pairs_fa, matrix::Mfa, Bit<5>, x l r;
    (ua U8, x.addua() as i128 == { l + r }, ok(l, 0, 255) && ok(r, 0, 255) && ok(l + r, 0, 255));
    (ua U8, x.subua() as i128 == { l - r }, ok(l, 0, 255) && ok(r, 0, 255) && ok(l - r, 0, 255));
    (ua U8, x.andua() as i128 == { l & r }, ok(l, 0, 255) && ok(r, 0, 255) && ok(l & r, 0, 255));
    (ua U8, x.xorua() as i128 == { l ^ r }, ok(l, 0, 255) && ok(r, 0, 255) && ok(l ^ r, 0, 255));
    (ua U8, x.ltua() == (l < r), true);
    (ua U8, x.geua() == (l >= r), true);
    (ua U8, x.equa() == (l == r), true);
    (ua U8, x.selua() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 255) && ok(r, 0, 255));
    (ub U16, x.addub() as i128 == { l + r }, ok(l, 0, 65535) && ok(r, 0, 65535) && ok(l + r, 0, 65535));
    (ub U16, x.subub() as i128 == { l - r }, ok(l, 0, 65535) && ok(r, 0, 65535) && ok(l - r, 0, 65535));
    (ub U16, x.andub() as i128 == { l & r }, ok(l, 0, 65535) && ok(r, 0, 65535) && ok(l & r, 0, 65535));
    (ub U16, x.xorub() as i128 == { l ^ r }, ok(l, 0, 65535) && ok(r, 0, 65535) && ok(l ^ r, 0, 65535));
    (ub U16, x.ltub() == (l < r), true);
    (ub U16, x.geub() == (l >= r), true);
    (ub U16, x.equb() == (l == r), true);
    (ub U16, x.selub() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 65535) && ok(r, 0, 65535));
    (uc U32, x.adduc() as i128 == { l + r }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && ok(l + r, 0, 4294967295));
    (uc U32, x.subuc() as i128 == { l - r }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && ok(l - r, 0, 4294967295));
    (uc U32, x.anduc() as i128 == { l & r }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && ok(l & r, 0, 4294967295));
    (uc U32, x.xoruc() as i128 == { l ^ r }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && ok(l ^ r, 0, 4294967295));
    (uc U32, x.ltuc() == (l < r), true);
    (uc U32, x.geuc() == (l >= r), true);
    (uc U32, x.equc() == (l == r), true);
    (uc U32, x.seluc() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295));
    (ud U64, x.addud() as i128 == { l + r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l + r, 0, 18446744073709551615));
    (ud U64, x.subud() as i128 == { l - r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l - r, 0, 18446744073709551615));
    (ud U64, x.andud() as i128 == { l & r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l & r, 0, 18446744073709551615));
    (ud U64, x.xorud() as i128 == { l ^ r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l ^ r, 0, 18446744073709551615));
    (ud U64, x.ltud() == (l < r), true);
    (ud U64, x.geud() == (l >= r), true);
    (ud U64, x.equd() == (l == r), true);
    (ud U64, x.selud() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615));
    (ia I8, x.addia() as i128 == { l + r }, ok(l, 0, 255) && ok(r, 0, 255) && ok(l + r, 0, 255));
    (ia I8, x.subia() as i128 == { l - r }, ok(l, 0, 255) && ok(r, 0, 255) && ok(l - r, 0, 255));
    (ia I8, x.andia() as i128 == { l & r }, ok(l, 0, 255) && ok(r, 0, 255) && ok(l & r, 0, 255));
    (ia I8, x.xoria() as i128 == { l ^ r }, ok(l, 0, 255) && ok(r, 0, 255) && ok(l ^ r, 0, 255));
    (ia I8, x.ltia() == (l < r), true);
    (ia I8, x.geia() == (l >= r), true);
    (ia I8, x.eqia() == (l == r), true);
    (ia I8, x.selia() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 255) && ok(r, 0, 255));
    (ib I16, x.addib() as i128 == { l + r }, ok(l, 0, 65535) && ok(r, 0, 65535) && ok(l + r, 0, 65535));
    (ib I16, x.subib() as i128 == { l - r }, ok(l, 0, 65535) && ok(r, 0, 65535) && ok(l - r, 0, 65535));
    (ib I16, x.andib() as i128 == { l & r }, ok(l, 0, 65535) && ok(r, 0, 65535) && ok(l & r, 0, 65535));
    (ib I16, x.xorib() as i128 == { l ^ r }, ok(l, 0, 65535) && ok(r, 0, 65535) && ok(l ^ r, 0, 65535));
    (ib I16, x.ltib() == (l < r), true);
    (ib I16, x.geib() == (l >= r), true);
    (ib I16, x.eqib() == (l == r), true);
    (ib I16, x.selib() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 65535) && ok(r, 0, 65535));
    (ic I32, x.addic() as i128 == { l + r }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && ok(l + r, 0, 4294967295));
    (ic I32, x.subic() as i128 == { l - r }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && ok(l - r, 0, 4294967295));
    (ic I32, x.andic() as i128 == { l & r }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && ok(l & r, 0, 4294967295));
    (ic I32, x.xoric() as i128 == { l ^ r }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && ok(l ^ r, 0, 4294967295));
    (ic I32, x.ltic() == (l < r), true);
    (ic I32, x.geic() == (l >= r), true);
    (ic I32, x.eqic() == (l == r), true);
    (ic I32, x.selic() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295));
    (id I64, x.addid() as i128 == { l + r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l + r, 0, 18446744073709551615));
    (id I64, x.subid() as i128 == { l - r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l - r, 0, 18446744073709551615));
    (id I64, x.andid() as i128 == { l & r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l & r, 0, 18446744073709551615));
    (id I64, x.xorid() as i128 == { l ^ r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l ^ r, 0, 18446744073709551615));
    (id I64, x.ltid() == (l < r), true);
    (id I64, x.geid() == (l >= r), true);
    (id I64, x.eqid() == (l == r), true);
    (id I64, x.selid() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615));
    (fa Bit<5>, x.addfa() as i128 == { l + r }, ok(l, 0, 31) && ok(r, 0, 31) && ok(l + r, 0, 31));
    (fa Bit<5>, x.subfa() as i128 == { l - r }, ok(l, 0, 31) && ok(r, 0, 31) && ok(l - r, 0, 31));
    (fa Bit<5>, x.andfa() as i128 == { l & r }, ok(l, 0, 31) && ok(r, 0, 31) && ok(l & r, 0, 31));
    (fa Bit<5>, x.xorfa() as i128 == { l ^ r }, ok(l, 0, 31) && ok(r, 0, 31) && ok(l ^ r, 0, 31));
    (fa Bit<5>, x.ltfa() == (l < r), true);
    (fa Bit<5>, x.gefa() == (l >= r), true);
    (fa Bit<5>, x.eqfa() == (l == r), true);
    (fa Bit<5>, x.selfa() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 31) && ok(r, 0, 31));
    (fb Bit<12>, x.addfb() as i128 == { l + r }, ok(l, 0, 4095) && ok(r, 0, 4095) && ok(l + r, 0, 4095));
    (fb Bit<12>, x.subfb() as i128 == { l - r }, ok(l, 0, 4095) && ok(r, 0, 4095) && ok(l - r, 0, 4095));
    (fb Bit<12>, x.andfb() as i128 == { l & r }, ok(l, 0, 4095) && ok(r, 0, 4095) && ok(l & r, 0, 4095));
    (fb Bit<12>, x.xorfb() as i128 == { l ^ r }, ok(l, 0, 4095) && ok(r, 0, 4095) && ok(l ^ r, 0, 4095));
    (fb Bit<12>, x.ltfb() == (l < r), true);
    (fb Bit<12>, x.gefb() == (l >= r), true);
    (fb Bit<12>, x.eqfb() == (l == r), true);
    (fb Bit<12>, x.selfb() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 4095) && ok(r, 0, 4095));
    (fc Bit<40>, x.addfc() as i128 == { l + r }, ok(l, 0, 1099511627775) && ok(r, 0, 1099511627775) && ok(l + r, 0, 1099511627775));
    (fc Bit<40>, x.subfc() as i128 == { l - r }, ok(l, 0, 1099511627775) && ok(r, 0, 1099511627775) && ok(l - r, 0, 1099511627775));
    (fc Bit<40>, x.andfc() as i128 == { l & r }, ok(l, 0, 1099511627775) && ok(r, 0, 1099511627775) && ok(l & r, 0, 1099511627775));
    (fc Bit<40>, x.xorfc() as i128 == { l ^ r }, ok(l, 0, 1099511627775) && ok(r, 0, 1099511627775) && ok(l ^ r, 0, 1099511627775));
    (fc Bit<40>, x.ltfc() == (l < r), true);
    (fc Bit<40>, x.gefc() == (l >= r), true);
    (fc Bit<40>, x.eqfc() == (l == r), true);
    (fc Bit<40>, x.selfc() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 1099511627775) && ok(r, 0, 1099511627775));
    (ga Int<5>, x.addga() as i128 == { l + r }, ok(l, 0, 31) && ok(r, 0, 31) && ok(l + r, 0, 31));
    (ga Int<5>, x.subga() as i128 == { l - r }, ok(l, 0, 31) && ok(r, 0, 31) && ok(l - r, 0, 31));
    (ga Int<5>, x.andga() as i128 == { l & r }, ok(l, 0, 31) && ok(r, 0, 31) && ok(l & r, 0, 31));
    (ga Int<5>, x.xorga() as i128 == { l ^ r }, ok(l, 0, 31) && ok(r, 0, 31) && ok(l ^ r, 0, 31));
    (ga Int<5>, x.ltga() == (l < r), true);
    (ga Int<5>, x.gega() == (l >= r), true);
    (ga Int<5>, x.eqga() == (l == r), true);
    (ga Int<5>, x.selga() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 31) && ok(r, 0, 31));
    (va VU16, x.addva() as i128 == { l + r }, ok(l, 0, 32767) && ok(r, 0, 32767) && ok(l + r, 0, 32767));
    (va VU16, x.subva() as i128 == { l - r }, ok(l, 0, 32767) && ok(r, 0, 32767) && ok(l - r, 0, 32767));
    (va VU16, x.andva() as i128 == { l & r }, ok(l, 0, 32767) && ok(r, 0, 32767) && ok(l & r, 0, 32767));
    (va VU16, x.xorva() as i128 == { l ^ r }, ok(l, 0, 32767) && ok(r, 0, 32767) && ok(l ^ r, 0, 32767));
    (va VU16, x.ltva() == (l < r), true);
    (va VU16, x.geva() == (l >= r), true);
    (va VU16, x.eqva() == (l == r), true);
    (va VU16, x.selva() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 32767) && ok(r, 0, 32767));
    (vb VI16, x.addvb() as i128 == { l + r }, ok(l, 0, 32767) && ok(r, 0, 32767) && ok(l + r, 0, 32767));
    (vb VI16, x.subvb() as i128 == { l - r }, ok(l, 0, 32767) && ok(r, 0, 32767) && ok(l - r, 0, 32767));
    (vb VI16, x.andvb() as i128 == { l & r }, ok(l, 0, 32767) && ok(r, 0, 32767) && ok(l & r, 0, 32767));
    (vb VI16, x.xorvb() as i128 == { l ^ r }, ok(l, 0, 32767) && ok(r, 0, 32767) && ok(l ^ r, 0, 32767));
    (vb VI16, x.ltvb() == (l < r), true);
    (vb VI16, x.gevb() == (l >= r), true);
    (vb VI16, x.eqvb() == (l == r), true);
    (vb VI16, x.selvb() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 32767) && ok(r, 0, 32767));
    (vc VU, x.addvc() as i128 == { l + r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l + r, 0, 18446744073709551615));
    (vc VU, x.subvc() as i128 == { l - r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l - r, 0, 18446744073709551615));
    (vc VU, x.andvc() as i128 == { l & r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l & r, 0, 18446744073709551615));
    (vc VU, x.xorvc() as i128 == { l ^ r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l ^ r, 0, 18446744073709551615));
    (vc VU, x.ltvc() == (l < r), true);
    (vc VU, x.gevc() == (l >= r), true);
    (vc VU, x.eqvc() == (l == r), true);
    (vc VU, x.selvc() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615));
    (vd VSize, x.addvd() as i128 == { l + r }, ok(l, 0, 2147483647) && ok(r, 0, 2147483647) && ok(l + r, 0, 2147483647));
    (vd VSize, x.subvd() as i128 == { l - r }, ok(l, 0, 2147483647) && ok(r, 0, 2147483647) && ok(l - r, 0, 2147483647));
    (vd VSize, x.andvd() as i128 == { l & r }, ok(l, 0, 2147483647) && ok(r, 0, 2147483647) && ok(l & r, 0, 2147483647));
    (vd VSize, x.xorvd() as i128 == { l ^ r }, ok(l, 0, 2147483647) && ok(r, 0, 2147483647) && ok(l ^ r, 0, 2147483647));
    (vd VSize, x.ltvd() == (l < r), true);
    (vd VSize, x.gevd() == (l >= r), true);
    (vd VSize, x.eqvd() == (l == r), true);
    (vd VSize, x.selvd() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 2147483647) && ok(r, 0, 2147483647));
);
pairs!(
    h_c18_products_fa, matrix::Mfa, Few<u64>, x l r;
    (ua Few<u8>, x.mulua() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 255) && ok(r, 0, 255) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 255));
    (ua Few<u8>, x.divua() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 255) && ok(r, 0, 255) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 255));
    (ua Few<u8>, x.remua() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 255) && ok(r, 0, 255) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 255));
    (ub Few<u16>, x.mulub() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 65535) && ok(r, 0, 65535) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 65535));
    (ub Few<u16>, x.divub() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 65535) && ok(r, 0, 65535) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 65535));
    (ub Few<u16>, x.remub() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 65535) && ok(r, 0, 65535) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 65535));
    (uc Few<u32>, x.muluc() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 4294967295));
    (uc Few<u32>, x.divuc() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 4294967295));
    (uc Few<u32>, x.remuc() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 4294967295));
    (ud Few<u64>, x.mulud() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 18446744073709551615));
    (ud Few<u64>, x.divud() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 18446744073709551615));
    (ud Few<u64>, x.remud() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 18446744073709551615));
    (ia Few<i8>, x.mulia() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 255) && ok(r, 0, 255) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 255));
    (ia Few<i8>, x.divia() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 255) && ok(r, 0, 255) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 255));
    (ia Few<i8>, x.remia() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 255) && ok(r, 0, 255) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 255));
    (ib Few<i16>, x.mulib() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 65535) && ok(r, 0, 65535) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 65535));
    (ib Few<i16>, x.divib() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 65535) && ok(r, 0, 65535) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 65535));
    (ib Few<i16>, x.remib() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 65535) && ok(r, 0, 65535) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 65535));
    (ic Few<i32>, x.mulic() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 4294967295));
    (ic Few<i32>, x.divic() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 4294967295));
    (ic Few<i32>, x.remic() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 4294967295));
    (id Few<i64>, x.mulid() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 18446744073709551615));
    (id Few<i64>, x.divid() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 18446744073709551615));
    (id Few<i64>, x.remid() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 18446744073709551615));
    (fa Few<u64>, x.mulfa() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 31) && ok(r, 0, 31) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 31));
    (fa Few<u64>, x.divfa() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 31) && ok(r, 0, 31) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 31));
    (fa Few<u64>, x.remfa() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 31) && ok(r, 0, 31) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 31));
    (fb Few<u64>, x.mulfb() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 4095) && ok(r, 0, 4095) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 4095));
    (fb Few<u64>, x.divfb() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 4095) && ok(r, 0, 4095) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 4095));
    (fb Few<u64>, x.remfb() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 4095) && ok(r, 0, 4095) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 4095));
    (fc Few<u64>, x.mulfc() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 1099511627775) && ok(r, 0, 1099511627775) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 1099511627775));
    (fc Few<u64>, x.divfc() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 1099511627775) && ok(r, 0, 1099511627775) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 1099511627775));
    (fc Few<u64>, x.remfc() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 1099511627775) && ok(r, 0, 1099511627775) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 1099511627775));
    (ga Few<i64>, x.mulga() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 31) && ok(r, 0, 31) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 31));
    (ga Few<i64>, x.divga() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 31) && ok(r, 0, 31) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 31));
    (ga Few<i64>, x.remga() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 31) && ok(r, 0, 31) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 31));
    (va Few<u16>, x.mulva() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 32767) && ok(r, 0, 32767) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 32767));
    (va Few<u16>, x.divva() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 32767) && ok(r, 0, 32767) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 32767));
    (va Few<u16>, x.remva() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 32767) && ok(r, 0, 32767) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 32767));
    (vb Few<i16>, x.mulvb() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 32767) && ok(r, 0, 32767) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 32767));
    (vb Few<i16>, x.divvb() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 32767) && ok(r, 0, 32767) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 32767));
    (vb Few<i16>, x.remvb() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 32767) && ok(r, 0, 32767) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 32767));
    (vc Few<u64>, x.mulvc() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 18446744073709551615));
    (vc Few<u64>, x.divvc() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 18446744073709551615));
    (vc Few<u64>, x.remvc() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 18446744073709551615));
    (vd Few<u32>, x.mulvd() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 2147483647) && ok(r, 0, 2147483647) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 2147483647));
    (vd Few<u32>, x.divvd() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 2147483647) && ok(r, 0, 2147483647) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 2147483647));
    (vd Few<u32>, x.remvd() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 2147483647) && ok(r, 0, 2147483647) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 2147483647));
);
pairs!(
    h_c18_pairs_fb, matrix::Mfb, Bit<12>, x l r;
    (ua U8, x.addua() as i128 == { l + r }, ok(l, 0, 4095) && ok(r, 0, 4095) && ok(l + r, 0, 4095));
    (ua U8, x.subua() as i128 == { l - r }, ok(l, 0, 4095) && ok(r, 0, 4095) && ok(l - r, 0, 4095));
    (ua U8, x.andua() as i128 == { l & r }, ok(l, 0, 4095) && ok(r, 0, 4095) && ok(l & r, 0, 4095));
    (ua U8, x.xorua() as i128 == { l ^ r }, ok(l, 0, 4095) && ok(r, 0, 4095) && ok(l ^ r, 0, 4095));
    (ua U8, x.ltua() == (l < r), true);
    (ua U8, x.geua() == (l >= r), true);
    (ua U8, x.equa() == (l == r), true);
    (ua U8, x.selua() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 4095) && ok(r, 0, 4095));
    (ub U16, x.addub() as i128 == { l + r }, ok(l, 0, 65535) && ok(r, 0, 65535) && ok(l + r, 0, 65535));
    (ub U16, x.subub() as i128 == { l - r }, ok(l, 0, 65535) && ok(r, 0, 65535) && ok(l - r, 0, 65535));
    (ub U16, x.andub() as i128 == { l & r }, ok(l, 0, 65535) && ok(r, 0, 65535) && ok(l & r, 0, 65535));
    (ub U16, x.xorub() as i128 == { l ^ r }, ok(l, 0, 65535) && ok(r, 0, 65535) && ok(l ^ r, 0, 65535));
    (ub U16, x.ltub() == (l < r), true);
    (ub U16, x.geub() == (l >= r), true);
    (ub U16, x.equb() == (l == r), true);
    (ub U16, x.selub() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 65535) && ok(r, 0, 65535));
    (uc U32, x.adduc() as i128 == { l + r }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && ok(l + r, 0, 4294967295));
    (uc U32, x.subuc() as i128 == { l - r }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && ok(l - r, 0, 4294967295));
    (uc U32, x.anduc() as i128 == { l & r }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && ok(l & r, 0, 4294967295));
    (uc U32, x.xoruc() as i128 == { l ^ r }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && ok(l ^ r, 0, 4294967295));
    (uc U32, x.ltuc() == (l < r), true);
    (uc U32, x.geuc() == (l >= r), true);
    (uc U32, x.equc() == (l == r), true);
    (uc U32, x.seluc() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295));
    (ud U64, x.addud() as i128 == { l + r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l + r, 0, 18446744073709551615));
    (ud U64, x.subud() as i128 == { l - r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l - r, 0, 18446744073709551615));
    (ud U64, x.andud() as i128 == { l & r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l & r, 0, 18446744073709551615));
    (ud U64, x.xorud() as i128 == { l ^ r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l ^ r, 0, 18446744073709551615));
    (ud U64, x.ltud() == (l < r), true);
    (ud U64, x.geud() == (l >= r), true);
    (ud U64, x.equd() == (l == r), true);
    (ud U64, x.selud() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615));
    (ia I8, x.addia() as i128 == { l + r }, ok(l, 0, 4095) && ok(r, 0, 4095) && ok(l + r, 0, 4095));
    (ia I8, x.subia() as i128 == { l - r }, ok(l, 0, 4095) && ok(r, 0, 4095) && ok(l - r, 0, 4095));
    (ia I8, x.andia() as i128 == { l & r }, ok(l, 0, 4095) && ok(r, 0, 4095) && ok(l & r, 0, 4095));
    (ia I8, x.xoria() as i128 == { l ^ r }, ok(l, 0, 4095) && ok(r, 0, 4095) && ok(l ^ r, 0, 4095));
    (ia I8, x.ltia() == (l < r), true);
    (ia I8, x.geia() == (l >= r), true);
    (ia I8, x.eqia() == (l == r), true);
    (ia I8, x.selia() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 4095) && ok(r, 0, 4095));
    (ib I16, x.addib() as i128 == { l + r }, ok(l, 0, 65535) && ok(r, 0, 65535) && ok(l + r, 0, 65535));
    (ib I16, x.subib() as i128 == { l - r }, ok(l, 0, 65535) && ok(r, 0, 65535) && ok(l - r, 0, 65535));
    (ib I16, x.andib() as i128 == { l & r }, ok(l, 0, 65535) && ok(r, 0, 65535) && ok(l & r, 0, 65535));
    (ib I16, x.xorib() as i128 == { l ^ r }, ok(l, 0, 65535) && ok(r, 0, 65535) && ok(l ^ r, 0, 65535));
    (ib I16, x.ltib() == (l < r), true);
    (ib I16, x.geib() == (l >= r), true);
    (ib I16, x.eqib() == (l == r), true);
    (ib I16, x.selib() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 65535) && ok(r, 0, 65535));
    (ic I32, x.addic() as i128 == { l + r }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && ok(l + r, 0, 4294967295));
    (ic I32, x.subic() as i128 == { l - r }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && ok(l - r, 0, 4294967295));
    (ic I32, x.andic() as i128 == { l & r }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && ok(l & r, 0, 4294967295));
    (ic I32, x.xoric() as i128 == { l ^ r }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && ok(l ^ r, 0, 4294967295));
    (ic I32, x.ltic() == (l < r), true);
    (ic I32, x.geic() == (l >= r), true);
    (ic I32, x.eqic() == (l == r), true);
    (ic I32, x.selic() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295));
    (id I64, x.addid() as i128 == { l + r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l + r, 0, 18446744073709551615));
    (id I64, x.subid() as i128 == { l - r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l - r, 0, 18446744073709551615));
    (id I64, x.andid() as i128 == { l & r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l & r, 0, 18446744073709551615));
    (id I64, x.xorid() as i128 == { l ^ r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l ^ r, 0, 18446744073709551615));
    (id I64, x.ltid() == (l < r), true);
    (id I64, x.geid() == (l >= r), true);
    (id I64, x.eqid() == (l == r), true);
    (id I64, x.selid() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615));
    (fa Bit<5>, x.addfa() as i128 == { l + r }, ok(l, 0, 4095) && ok(r, 0, 4095) && ok(l + r, 0, 4095));
    (fa Bit<5>, x.subfa() as i128 == { l - r }, ok(l, 0, 4095) && ok(r, 0, 4095) && ok(l - r, 0, 4095));
    (fa Bit<5>, x.andfa() as i128 == { l & r }, ok(l, 0, 4095) && ok(r, 0, 4095) && ok(l & r, 0, 4095));
    (fa Bit<5>, x.xorfa() as i128 == { l ^ r }, ok(l, 0, 4095) && ok(r, 0, 4095) && ok(l ^ r, 0, 4095));
    (fa Bit<5>, x.ltfa() == (l < r), true);
    (fa Bit<5>, x.gefa() == (l >= r), true);
    (fa Bit<5>, x.eqfa() == (l == r), true);
    (fa Bit<5>, x.selfa() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 4095) && ok(r, 0, 4095));
    (fb Bit<12>, x.addfb() as i128 == { l + r }, ok(l, 0, 4095) && ok(r, 0, 4095) && ok(l + r, 0, 4095));
    (fb Bit<12>, x.subfb() as i128 == { l - r }, ok(l, 0, 4095) && ok(r, 0, 4095) && ok(l - r, 0, 4095));
    (fb Bit<12>, x.andfb() as i128 == { l & r }, ok(l, 0, 4095) && ok(r, 0, 4095) && ok(l & r, 0, 4095));
    (fb Bit<12>, x.xorfb() as i128 == { l ^ r }, ok(l, 0, 4095) && ok(r, 0, 4095) && ok(l ^ r, 0, 4095));
    (fb Bit<12>, x.ltfb() == (l < r), true);
    (fb Bit<12>, x.gefb() == (l >= r), true);
    (fb Bit<12>, x.eqfb() == (l == r), true);
    (fb Bit<12>, x.selfb() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 4095) && ok(r, 0, 4095));
    (fc Bit<40>, x.addfc() as i128 == { l + r }, ok(l, 0, 1099511627775) && ok(r, 0, 1099511627775) && ok(l + r, 0, 1099511627775));
    (fc Bit<40>, x.subfc() as i128 == { l - r }, ok(l, 0, 1099511627775) && ok(r, 0, 1099511627775) && ok(l - r, 0, 1099511627775));
    (fc Bit<40>, x.andfc() as i128 == { l & r }, ok(l, 0, 1099511627775) && ok(r, 0, 1099511627775) && ok(l & r, 0, 1099511627775));
    (fc Bit<40>, x.xorfc() as i128 == { l ^ r }, ok(l, 0, 1099511627775) && ok(r, 0, 1099511627775) && ok(l ^ r, 0, 1099511627775));
    (fc Bit<40>, x.ltfc() == (l < r), true);
    (fc Bit<40>, x.gefc() == (l >= r), true);
    (fc Bit<40>, x.eqfc() == (l == r), true);
    (fc Bit<40>, x.selfc() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 1099511627775) && ok(r, 0, 1099511627775));
    (ga Int<5>, x.addga() as i128 == { l + r }, ok(l, 0, 4095) && ok(r, 0, 4095) && ok(l + r, 0, 4095));
    (ga Int<5>, x.subga() as i128 == { l - r }, ok(l, 0, 4095) && ok(r, 0, 4095) && ok(l - r, 0, 4095));
    (ga Int<5>, x.andga() as i128 == { l & r }, ok(l, 0, 4095) && ok(r, 0, 4095) && ok(l & r, 0, 4095));
    (ga Int<5>, x.xorga() as i128 == { l ^ r }, ok(l, 0, 4095) && ok(r, 0, 4095) && ok(l ^ r, 0, 4095));
    (ga Int<5>, x.ltga() == (l < r), true);
    (ga Int<5>, x.gega() == (l >= r), true);
    (ga Int<5>, x.eqga() == (l == r), true);
    (ga Int<5>, x.selga() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 4095) && ok(r, 0, 4095));
    (va VU16, x.addva() as i128 == { l + r }, ok(l, 0, 32767) && ok(r, 0, 32767) && ok(l + r, 0, 32767));
    (va VU16, x.subva() as i128 == { l - r }, ok(l, 0, 32767) && ok(r, 0, 32767) && ok(l - r, 0, 32767));
    (va VU16, x.andva() as i128 == { l & r }, ok(l, 0, 32767) && ok(r, 0, 32767) && ok(l & r, 0, 32767));
    (va VU16, x.xorva() as i128 == { l ^ r }, ok(l, 0, 32767) && ok(r, 0, 32767) && ok(l ^ r, 0, 32767));
    (va VU16, x.ltva() == (l < r), true);
    (va VU16, x.geva() == (l >= r), true);
    (va VU16, x.eqva() == (l == r), true);
    (va VU16, x.selva() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 32767) && ok(r, 0, 32767));
    (vb VI16, x.addvb() as i128 == { l + r }, ok(l, 0, 32767) && ok(r, 0, 32767) && ok(l + r, 0, 32767));
    (vb VI16, x.subvb() as i128 == { l - r }, ok(l, 0, 32767) && ok(r, 0, 32767) && ok(l - r, 0, 32767));
    (vb VI16, x.andvb() as i128 == { l & r }, ok(l, 0, 32767) && ok(r, 0, 32767) && ok(l & r, 0, 32767));
    (vb VI16, x.xorvb() as i128 == { l ^ r }, ok(l, 0, 32767) && ok(r, 0, 32767) && ok(l ^ r, 0, 32767));
    (vb VI16, x.ltvb() == (l < r), true);
    (vb VI16, x.gevb() == (l >= r), true);
    (vb VI16, x.eqvb() == (l == r), true);
    (vb VI16, x.selvb() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 32767) && ok(r, 0, 32767));
    (vc VU, x.addvc() as i128 == { l + r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l + r, 0, 18446744073709551615));
    (vc VU, x.subvc() as i128 == { l - r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l - r, 0, 18446744073709551615));
    (vc VU, x.andvc() as i128 == { l & r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l & r, 0, 18446744073709551615));
    (vc VU, x.xorvc() as i128 == { l ^ r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l ^ r, 0, 18446744073709551615));
    (vc VU, x.ltvc() == (l < r), true);
    (vc VU, x.gevc() == (l >= r), true);
    (vc VU, x.eqvc() == (l == r), true);
    (vc VU, x.selvc() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615));
    (vd VSize, x.addvd() as i128 == { l + r }, ok(l, 0, 2147483647) && ok(r, 0, 2147483647) && ok(l + r, 0, 2147483647));
    (vd VSize, x.subvd() as i128 == { l - r }, ok(l, 0, 2147483647) && ok(r, 0, 2147483647) && ok(l - r, 0, 2147483647));
    (vd VSize, x.andvd() as i128 == { l & r }, ok(l, 0, 2147483647) && ok(r, 0, 2147483647) && ok(l & r, 0, 2147483647));
    (vd VSize, x.xorvd() as i128 == { l ^ r }, ok(l, 0, 2147483647) && ok(r, 0, 2147483647) && ok(l ^ r, 0, 2147483647));
    (vd VSize, x.ltvd() == (l < r), true);
    (vd VSize, x.gevd() == (l >= r), true);
    (vd VSize, x.eqvd() == (l == r), true);
    (vd VSize, x.selvd() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 2147483647) && ok(r, 0, 2147483647));
);
pairs!(
    h_c18_products_fb, matrix::Mfb, Few<u64>, x l r;
    (ua Few<u8>, x.mulua() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 4095) && ok(r, 0, 4095) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 4095));
    (ua Few<u8>, x.divua() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 4095) && ok(r, 0, 4095) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 4095));
    (ua Few<u8>, x.remua() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 4095) && ok(r, 0, 4095) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 4095));
    (ub Few<u16>, x.mulub() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 65535) && ok(r, 0, 65535) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 65535));
    (ub Few<u16>, x.divub() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 65535) && ok(r, 0, 65535) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 65535));
    (ub Few<u16>, x.remub() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 65535) && ok(r, 0, 65535) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 65535));
    (uc Few<u32>, x.muluc() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 4294967295));
    (uc Few<u32>, x.divuc() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 4294967295));
    (uc Few<u32>, x.remuc() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 4294967295));
    (ud Few<u64>, x.mulud() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 18446744073709551615));
    (ud Few<u64>, x.divud() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 18446744073709551615));
    (ud Few<u64>, x.remud() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 18446744073709551615));
    (ia Few<i8>, x.mulia() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 4095) && ok(r, 0, 4095) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 4095));
    (ia Few<i8>, x.divia() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 4095) && ok(r, 0, 4095) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 4095));
    (ia Few<i8>, x.remia() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 4095) && ok(r, 0, 4095) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 4095));
    (ib Few<i16>, x.mulib() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 65535) && ok(r, 0, 65535) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 65535));
    (ib Few<i16>, x.divib() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 65535) && ok(r, 0, 65535) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 65535));
    (ib Few<i16>, x.remib() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 65535) && ok(r, 0, 65535) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 65535));
    (ic Few<i32>, x.mulic() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 4294967295));
    (ic Few<i32>, x.divic() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 4294967295));
    (ic Few<i32>, x.remic() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 4294967295));
    (id Few<i64>, x.mulid() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 18446744073709551615));
    (id Few<i64>, x.divid() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 18446744073709551615));
    (id Few<i64>, x.remid() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 18446744073709551615));
    (fa Few<u64>, x.mulfa() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 4095) && ok(r, 0, 4095) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 4095));
    (fa Few<u64>, x.divfa() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 4095) && ok(r, 0, 4095) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 4095));
    (fa Few<u64>, x.remfa() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 4095) && ok(r, 0, 4095) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 4095));
    (fb Few<u64>, x.mulfb() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 4095) && ok(r, 0, 4095) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 4095));
    (fb Few<u64>, x.divfb() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 4095) && ok(r, 0, 4095) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 4095));
    (fb Few<u64>, x.remfb() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 4095) && ok(r, 0, 4095) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 4095));
    (fc Few<u64>, x.mulfc() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 1099511627775) && ok(r, 0, 1099511627775) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 1099511627775));
    (fc Few<u64>, x.divfc() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 1099511627775) && ok(r, 0, 1099511627775) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 1099511627775));
    (fc Few<u64>, x.remfc() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 1099511627775) && ok(r, 0, 1099511627775) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 1099511627775));
    (ga Few<i64>, x.mulga() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 4095) && ok(r, 0, 4095) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 4095));
    (ga Few<i64>, x.divga() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 4095) && ok(r, 0, 4095) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 4095));
    (ga Few<i64>, x.remga() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 4095) && ok(r, 0, 4095) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 4095));
    (va Few<u16>, x.mulva() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 32767) && ok(r, 0, 32767) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 32767));
    (va Few<u16>, x.divva() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 32767) && ok(r, 0, 32767) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 32767));
    (va Few<u16>, x.remva() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 32767) && ok(r, 0, 32767) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 32767));
    (vb Few<i16>, x.mulvb() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 32767) && ok(r, 0, 32767) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 32767));
    (vb Few<i16>, x.divvb() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 32767) && ok(r, 0, 32767) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 32767));
    (vb Few<i16>, x.remvb() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 32767) && ok(r, 0, 32767) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 32767));
    (vc Few<u64>, x.mulvc() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 18446744073709551615));
    (vc Few<u64>, x.divvc() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 18446744073709551615));
    (vc Few<u64>, x.remvc() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 18446744073709551615));
    (vd Few<u32>, x.mulvd() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 2147483647) && ok(r, 0, 2147483647) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 2147483647));
    (vd Few<u32>, x.divvd() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 2147483647) && ok(r, 0, 2147483647) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 2147483647));
    (vd Few<u32>, x.remvd() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 2147483647) && ok(r, 0, 2147483647) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 2147483647));
);
pairs!(
    h_c18_pairs_fc, matrix::Mfc, Bit<40>, x l r;
    (ua U8, x.addua() as i128 == { l + r }, ok(l, 0, 1099511627775) && ok(r, 0, 1099511627775) && ok(l + r, 0, 1099511627775));
    (ua U8, x.subua() as i128 == { l - r }, ok(l, 0, 1099511627775) && ok(r, 0, 1099511627775) && ok(l - r, 0, 1099511627775));
    (ua U8, x.andua() as i128 == { l & r }, ok(l, 0, 1099511627775) && ok(r, 0, 1099511627775) && ok(l & r, 0, 1099511627775));
    (ua U8, x.xorua() as i128 == { l ^ r }, ok(l, 0, 1099511627775) && ok(r, 0, 1099511627775) && ok(l ^ r, 0, 1099511627775));
    (ua U8, x.ltua() == (l < r), true);
    (ua U8, x.geua() == (l >= r), true);
    (ua U8, x.equa() == (l == r), true);
    (ua U8, x.selua() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 1099511627775) && ok(r, 0, 1099511627775));
    (ub U16, x.addub() as i128 == { l + r }, ok(l, 0, 1099511627775) && ok(r, 0, 1099511627775) && ok(l + r, 0, 1099511627775));
    (ub U16, x.subub() as i128 == { l - r }, ok(l, 0, 1099511627775) && ok(r, 0, 1099511627775) && ok(l - r, 0, 1099511627775));
    (ub U16, x.andub() as i128 == { l & r }, ok(l, 0, 1099511627775) && ok(r, 0, 1099511627775) && ok(l & r, 0, 1099511627775));
    (ub U16, x.xorub() as i128 == { l ^ r }, ok(l, 0, 1099511627775) && ok(r, 0, 1099511627775) && ok(l ^ r, 0, 1099511627775));
    (ub U16, x.ltub() == (l < r), true);
    (ub U16, x.geub() == (l >= r), true);
    (ub U16, x.equb() == (l == r), true);
    (ub U16, x.selub() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 1099511627775) && ok(r, 0, 1099511627775));
    (uc U32, x.adduc() as i128 == { l + r }, ok(l, 0, 1099511627775) && ok(r, 0, 1099511627775) && ok(l + r, 0, 1099511627775));
    (uc U32, x.subuc() as i128 == { l - r }, ok(l, 0, 1099511627775) && ok(r, 0, 1099511627775) && ok(l - r, 0, 1099511627775));
    (uc U32, x.anduc() as i128 == { l & r }, ok(l, 0, 1099511627775) && ok(r, 0, 1099511627775) && ok(l & r, 0, 1099511627775));
    (uc U32, x.xoruc() as i128 == { l ^ r }, ok(l, 0, 1099511627775) && ok(r, 0, 1099511627775) && ok(l ^ r, 0, 1099511627775));
    (uc U32, x.ltuc() == (l < r), true);
    (uc U32, x.geuc() == (l >= r), true);
    (uc U32, x.equc() == (l == r), true);
    (uc U32, x.seluc() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 1099511627775) && ok(r, 0, 1099511627775));
    (ud U64, x.addud() as i128 == { l + r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l + r, 0, 18446744073709551615));
    (ud U64, x.subud() as i128 == { l - r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l - r, 0, 18446744073709551615));
    (ud U64, x.andud() as i128 == { l & r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l & r, 0, 18446744073709551615));
    (ud U64, x.xorud() as i128 == { l ^ r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l ^ r, 0, 18446744073709551615));
    (ud U64, x.ltud() == (l < r), true);
    (ud U64, x.geud() == (l >= r), true);
    (ud U64, x.equd() == (l == r), true);
    (ud U64, x.selud() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615));
    (ia I8, x.addia() as i128 == { l + r }, ok(l, 0, 1099511627775) && ok(r, 0, 1099511627775) && ok(l + r, 0, 1099511627775));
    (ia I8, x.subia() as i128 == { l - r }, ok(l, 0, 1099511627775) && ok(r, 0, 1099511627775) && ok(l - r, 0, 1099511627775));
    (ia I8, x.andia() as i128 == { l & r }, ok(l, 0, 1099511627775) && ok(r, 0, 1099511627775) && ok(l & r, 0, 1099511627775));
    (ia I8, x.xoria() as i128 == { l ^ r }, ok(l, 0, 1099511627775) && ok(r, 0, 1099511627775) && ok(l ^ r, 0, 1099511627775));
    (ia I8, x.ltia() == (l < r), true);
    (ia I8, x.geia() == (l >= r), true);
    (ia I8, x.eqia() == (l == r), true);
    (ia I8, x.selia() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 1099511627775) && ok(r, 0, 1099511627775));
    (ib I16, x.addib() as i128 == { l + r }, ok(l, 0, 1099511627775) && ok(r, 0, 1099511627775) && ok(l + r, 0, 1099511627775));
    (ib I16, x.subib() as i128 == { l - r }, ok(l, 0, 1099511627775) && ok(r, 0, 1099511627775) && ok(l - r, 0, 1099511627775));
    (ib I16, x.andib() as i128 == { l & r }, ok(l, 0, 1099511627775) && ok(r, 0, 1099511627775) && ok(l & r, 0, 1099511627775));
    (ib I16, x.xorib() as i128 == { l ^ r }, ok(l, 0, 1099511627775) && ok(r, 0, 1099511627775) && ok(l ^ r, 0, 1099511627775));
    (ib I16, x.ltib() == (l < r), true);
    (ib I16, x.geib() == (l >= r), true);
    (ib I16, x.eqib() == (l == r), true);
    (ib I16, x.selib() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 1099511627775) && ok(r, 0, 1099511627775));
    (ic I32, x.addic() as i128 == { l + r }, ok(l, 0, 1099511627775) && ok(r, 0, 1099511627775) && ok(l + r, 0, 1099511627775));
    (ic I32, x.subic() as i128 == { l - r }, ok(l, 0, 1099511627775) && ok(r, 0, 1099511627775) && ok(l - r, 0, 1099511627775));
    (ic I32, x.andic() as i128 == { l & r }, ok(l, 0, 1099511627775) && ok(r, 0, 1099511627775) && ok(l & r, 0, 1099511627775));
    (ic I32, x.xoric() as i128 == { l ^ r }, ok(l, 0, 1099511627775) && ok(r, 0, 1099511627775) && ok(l ^ r, 0, 1099511627775));
    (ic I32, x.ltic() == (l < r), true);
    (ic I32, x.geic() == (l >= r), true);
    (ic I32, x.eqic() == (l == r), true);
    (ic I32, x.selic() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 1099511627775) && ok(r, 0, 1099511627775));
    (id I64, x.addid() as i128 == { l + r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l + r, 0, 18446744073709551615));
    (id I64, x.subid() as i128 == { l - r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l - r, 0, 18446744073709551615));
    (id I64, x.andid() as i128 == { l & r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l & r, 0, 18446744073709551615));
    (id I64, x.xorid() as i128 == { l ^ r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l ^ r, 0, 18446744073709551615));
    (id I64, x.ltid() == (l < r), true);
    (id I64, x.geid() == (l >= r), true);
    (id I64, x.eqid() == (l == r), true);
    (id I64, x.selid() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615));
    (fa Bit<5>, x.addfa() as i128 == { l + r }, ok(l, 0, 1099511627775) && ok(r, 0, 1099511627775) && ok(l + r, 0, 1099511627775));
    (fa Bit<5>, x.subfa() as i128 == { l - r }, ok(l, 0, 1099511627775) && ok(r, 0, 1099511627775) && ok(l - r, 0, 1099511627775));
    (fa Bit<5>, x.andfa() as i128 == { l & r }, ok(l, 0, 1099511627775) && ok(r, 0, 1099511627775) && ok(l & r, 0, 1099511627775));
    (fa Bit<5>, x.xorfa() as i128 == { l ^ r }, ok(l, 0, 1099511627775) && ok(r, 0, 1099511627775) && ok(l ^ r, 0, 1099511627775));
    (fa Bit<5>, x.ltfa() == (l < r), true);
    (fa Bit<5>, x.gefa() == (l >= r), true);
    (fa Bit<5>, x.eqfa() == (l == r), true);
    (fa Bit<5>, x.selfa() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 1099511627775) && ok(r, 0, 1099511627775));
    (fb Bit<12>, x.addfb() as i128 == { l + r }, ok(l, 0, 1099511627775) && ok(r, 0, 1099511627775) && ok(l + r, 0, 1099511627775));
    (fb Bit<12>, x.subfb() as i128 == { l - r }, ok(l, 0, 1099511627775) && ok(r, 0, 1099511627775) && ok(l - r, 0, 1099511627775));
    (fb Bit<12>, x.andfb() as i128 == { l & r }, ok(l, 0, 1099511627775) && ok(r, 0, 1099511627775) && ok(l & r, 0, 1099511627775));
    (fb Bit<12>, x.xorfb() as i128 == { l ^ r }, ok(l, 0, 1099511627775) && ok(r, 0, 1099511627775) && ok(l ^ r, 0, 1099511627775));
    (fb Bit<12>, x.ltfb() == (l < r), true);
    (fb Bit<12>, x.gefb() == (l >= r), true);
    (fb Bit<12>, x.eqfb() == (l == r), true);
    (fb Bit<12>, x.selfb() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 1099511627775) && ok(r, 0, 1099511627775));
    (fc Bit<40>, x.addfc() as i128 == { l + r }, ok(l, 0, 1099511627775) && ok(r, 0, 1099511627775) && ok(l + r, 0, 1099511627775));
    (fc Bit<40>, x.subfc() as i128 == { l - r }, ok(l, 0, 1099511627775) && ok(r, 0, 1099511627775) && ok(l - r, 0, 1099511627775));
    (fc Bit<40>, x.andfc() as i128 == { l & r }, ok(l, 0, 1099511627775) && ok(r, 0, 1099511627775) && ok(l & r, 0, 1099511627775));
    (fc Bit<40>, x.xorfc() as i128 == { l ^ r }, ok(l, 0, 1099511627775) && ok(r, 0, 1099511627775) && ok(l ^ r, 0, 1099511627775));
    (fc Bit<40>, x.ltfc() == (l < r), true);
    (fc Bit<40>, x.gefc() == (l >= r), true);
    (fc Bit<40>, x.eqfc() == (l == r), true);
    (fc Bit<40>, x.selfc() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 1099511627775) && ok(r, 0, 1099511627775));
    (ga Int<5>, x.addga() as i128 == { l + r }, ok(l, 0, 1099511627775) && ok(r, 0, 1099511627775) && ok(l + r, 0, 1099511627775));
    (ga Int<5>, x.subga() as i128 == { l - r }, ok(l, 0, 1099511627775) && ok(r, 0, 1099511627775) && ok(l - r, 0, 1099511627775));
    (ga Int<5>, x.andga() as i128 == { l & r }, ok(l, 0, 1099511627775) && ok(r, 0, 1099511627775) && ok(l & r, 0, 1099511627775));
    (ga Int<5>, x.xorga() as i128 == { l ^ r }, ok(l, 0, 1099511627775) && ok(r, 0, 1099511627775) && ok(l ^ r, 0, 1099511627775));
    (ga Int<5>, x.ltga() == (l < r), true);
    (ga Int<5>, x.gega() == (l >= r), true);
    (ga Int<5>, x.eqga() == (l == r), true);
    (ga Int<5>, x.selga() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 1099511627775) && ok(r, 0, 1099511627775));
    (va VU16, x.addva() as i128 == { l + r }, ok(l, 0, 1099511627775) && ok(r, 0, 1099511627775) && ok(l + r, 0, 1099511627775));
    (va VU16, x.subva() as i128 == { l - r }, ok(l, 0, 1099511627775) && ok(r, 0, 1099511627775) && ok(l - r, 0, 1099511627775));
    (va VU16, x.andva() as i128 == { l & r }, ok(l, 0, 1099511627775) && ok(r, 0, 1099511627775) && ok(l & r, 0, 1099511627775));
    (va VU16, x.xorva() as i128 == { l ^ r }, ok(l, 0, 1099511627775) && ok(r, 0, 1099511627775) && ok(l ^ r, 0, 1099511627775));
    (va VU16, x.ltva() == (l < r), true);
    (va VU16, x.geva() == (l >= r), true);
    (va VU16, x.eqva() == (l == r), true);
    (va VU16, x.selva() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 1099511627775) && ok(r, 0, 1099511627775));
    (vb VI16, x.addvb() as i128 == { l + r }, ok(l, 0, 1099511627775) && ok(r, 0, 1099511627775) && ok(l + r, 0, 1099511627775));
    (vb VI16, x.subvb() as i128 == { l - r }, ok(l, 0, 1099511627775) && ok(r, 0, 1099511627775) && ok(l - r, 0, 1099511627775));
    (vb VI16, x.andvb() as i128 == { l & r }, ok(l, 0, 1099511627775) && ok(r, 0, 1099511627775) && ok(l & r, 0, 1099511627775));
    (vb VI16, x.xorvb() as i128 == { l ^ r }, ok(l, 0, 1099511627775) && ok(r, 0, 1099511627775) && ok(l ^ r, 0, 1099511627775));
    (vb VI16, x.ltvb() == (l < r), true);
    (vb VI16, x.gevb() == (l >= r), true);
    (vb VI16, x.eqvb() == (l == r), true);
    (vb VI16, x.selvb() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 1099511627775) && ok(r, 0, 1099511627775));
    (vc VU, x.addvc() as i128 == { l + r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l + r, 0, 18446744073709551615));
    (vc VU, x.subvc() as i128 == { l - r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l - r, 0, 18446744073709551615));
    (vc VU, x.andvc() as i128 == { l & r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l & r, 0, 18446744073709551615));
    (vc VU, x.xorvc() as i128 == { l ^ r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l ^ r, 0, 18446744073709551615));
    (vc VU, x.ltvc() == (l < r), true);
    (vc VU, x.gevc() == (l >= r), true);
    (vc VU, x.eqvc() == (l == r), true);
    (vc VU, x.selvc() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615));
    (vd VSize, x.addvd() as i128 == { l + r }, ok(l, 0, 1099511627775) && ok(r, 0, 1099511627775) && ok(l + r, 0, 1099511627775));
    (vd VSize, x.subvd() as i128 == { l - r }, ok(l, 0, 1099511627775) && ok(r, 0, 1099511627775) && ok(l - r, 0, 1099511627775));
    (vd VSize, x.andvd() as i128 == { l & r }, ok(l, 0, 1099511627775) && ok(r, 0, 1099511627775) && ok(l & r, 0, 1099511627775));
    (vd VSize, x.xorvd() as i128 == { l ^ r }, ok(l, 0, 1099511627775) && ok(r, 0, 1099511627775) && ok(l ^ r, 0, 1099511627775));
    (vd VSize, x.ltvd() == (l < r), true);
    (vd VSize, x.gevd() == (l >= r), true);
    (vd VSize, x.eqvd() == (l == r), true);
    (vd VSize, x.selvd() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 1099511627775) && ok(r, 0, 1099511627775));
);
pairs!(
    h_c18_products_fc, matrix::Mfc, Few<u64>, x l r;
    (ua Few<u8>, x.mulua() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 1099511627775) && ok(r, 0, 1099511627775) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 1099511627775));
    (ua Few<u8>, x.divua() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 1099511627775) && ok(r, 0, 1099511627775) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 1099511627775));
    (ua Few<u8>, x.remua() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 1099511627775) && ok(r, 0, 1099511627775) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 1099511627775));
    (ub Few<u16>, x.mulub() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 1099511627775) && ok(r, 0, 1099511627775) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 1099511627775));
    (ub Few<u16>, x.divub() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 1099511627775) && ok(r, 0, 1099511627775) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 1099511627775));
    (ub Few<u16>, x.remub() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 1099511627775) && ok(r, 0, 1099511627775) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 1099511627775));
    (uc Few<u32>, x.muluc() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 1099511627775) && ok(r, 0, 1099511627775) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 1099511627775));
    (uc Few<u32>, x.divuc() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 1099511627775) && ok(r, 0, 1099511627775) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 1099511627775));
    (uc Few<u32>, x.remuc() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 1099511627775) && ok(r, 0, 1099511627775) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 1099511627775));
    (ud Few<u64>, x.mulud() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 18446744073709551615));
    (ud Few<u64>, x.divud() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 18446744073709551615));
    (ud Few<u64>, x.remud() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 18446744073709551615));
    (ia Few<i8>, x.mulia() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 1099511627775) && ok(r, 0, 1099511627775) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 1099511627775));
    (ia Few<i8>, x.divia() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 1099511627775) && ok(r, 0, 1099511627775) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 1099511627775));
    (ia Few<i8>, x.remia() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 1099511627775) && ok(r, 0, 1099511627775) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 1099511627775));
    (ib Few<i16>, x.mulib() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 1099511627775) && ok(r, 0, 1099511627775) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 1099511627775));
    (ib Few<i16>, x.divib() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 1099511627775) && ok(r, 0, 1099511627775) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 1099511627775));
    (ib Few<i16>, x.remib() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 1099511627775) && ok(r, 0, 1099511627775) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 1099511627775));
    (ic Few<i32>, x.mulic() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 1099511627775) && ok(r, 0, 1099511627775) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 1099511627775));
    (ic Few<i32>, x.divic() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 1099511627775) && ok(r, 0, 1099511627775) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 1099511627775));
    (ic Few<i32>, x.remic() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 1099511627775) && ok(r, 0, 1099511627775) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 1099511627775));
    (id Few<i64>, x.mulid() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 18446744073709551615));
    (id Few<i64>, x.divid() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 18446744073709551615));
    (id Few<i64>, x.remid() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 18446744073709551615));
    (fa Few<u64>, x.mulfa() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 1099511627775) && ok(r, 0, 1099511627775) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 1099511627775));
    (fa Few<u64>, x.divfa() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 1099511627775) && ok(r, 0, 1099511627775) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 1099511627775));
    (fa Few<u64>, x.remfa() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 1099511627775) && ok(r, 0, 1099511627775) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 1099511627775));
    (fb Few<u64>, x.mulfb() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 1099511627775) && ok(r, 0, 1099511627775) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 1099511627775));
    (fb Few<u64>, x.divfb() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 1099511627775) && ok(r, 0, 1099511627775) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 1099511627775));
    (fb Few<u64>, x.remfb() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 1099511627775) && ok(r, 0, 1099511627775) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 1099511627775));
    (fc Few<u64>, x.mulfc() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 1099511627775) && ok(r, 0, 1099511627775) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 1099511627775));
    (fc Few<u64>, x.divfc() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 1099511627775) && ok(r, 0, 1099511627775) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 1099511627775));
    (fc Few<u64>, x.remfc() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 1099511627775) && ok(r, 0, 1099511627775) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 1099511627775));
    (ga Few<i64>, x.mulga() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 1099511627775) && ok(r, 0, 1099511627775) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 1099511627775));
    (ga Few<i64>, x.divga() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 1099511627775) && ok(r, 0, 1099511627775) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 1099511627775));
    (ga Few<i64>, x.remga() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 1099511627775) && ok(r, 0, 1099511627775) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 1099511627775));
    (va Few<u16>, x.mulva() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 1099511627775) && ok(r, 0, 1099511627775) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 1099511627775));
    (va Few<u16>, x.divva() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 1099511627775) && ok(r, 0, 1099511627775) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 1099511627775));
    (va Few<u16>, x.remva() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 1099511627775) && ok(r, 0, 1099511627775) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 1099511627775));
    (vb Few<i16>, x.mulvb() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 1099511627775) && ok(r, 0, 1099511627775) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 1099511627775));
    (vb Few<i16>, x.divvb() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 1099511627775) && ok(r, 0, 1099511627775) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 1099511627775));
    (vb Few<i16>, x.remvb() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 1099511627775) && ok(r, 0, 1099511627775) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 1099511627775));
    (vc Few<u64>, x.mulvc() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 18446744073709551615));
    (vc Few<u64>, x.divvc() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 18446744073709551615));
    (vc Few<u64>, x.remvc() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 18446744073709551615));
    (vd Few<u32>, x.mulvd() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 1099511627775) && ok(r, 0, 1099511627775) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 1099511627775));
    (vd Few<u32>, x.divvd() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 1099511627775) && ok(r, 0, 1099511627775) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 1099511627775));
    (vd Few<u32>, x.remvd() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 1099511627775) && ok(r, 0, 1099511627775) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 1099511627775));
);
pairs!(
    h_c18_pairs_ga, matrix::Mga, Int<5>, x l r;
    (ua U8, x.addua() as i128 == { l + r }, ok(l, 0, 255) && ok(r, 0, 255) && ok(l + r, 0, 255));
    (ua U8, x.subua() as i128 == { l - r }, ok(l, 0, 255) && ok(r, 0, 255) && ok(l - r, 0, 255));
    (ua U8, x.andua() as i128 == { l & r }, ok(l, 0, 255) && ok(r, 0, 255) && ok(l & r, 0, 255));
    (ua U8, x.xorua() as i128 == { l ^ r }, ok(l, 0, 255) && ok(r, 0, 255) && ok(l ^ r, 0, 255));
    (ua U8, x.ltua() == (l < r), true);
    (ua U8, x.geua() == (l >= r), true);
    (ua U8, x.equa() == (l == r), true);
    (ua U8, x.selua() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 255) && ok(r, 0, 255));
    (ub U16, x.addub() as i128 == { l + r }, ok(l, 0, 65535) && ok(r, 0, 65535) && ok(l + r, 0, 65535));
    (ub U16, x.subub() as i128 == { l - r }, ok(l, 0, 65535) && ok(r, 0, 65535) && ok(l - r, 0, 65535));
    (ub U16, x.andub() as i128 == { l & r }, ok(l, 0, 65535) && ok(r, 0, 65535) && ok(l & r, 0, 65535));
    (ub U16, x.xorub() as i128 == { l ^ r }, ok(l, 0, 65535) && ok(r, 0, 65535) && ok(l ^ r, 0, 65535));
    (ub U16, x.ltub() == (l < r), true);
    (ub U16, x.geub() == (l >= r), true);
    (ub U16, x.equb() == (l == r), true);
    (ub U16, x.selub() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 65535) && ok(r, 0, 65535));
    (uc U32, x.adduc() as i128 == { l + r }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && ok(l + r, 0, 4294967295));
    (uc U32, x.subuc() as i128 == { l - r }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && ok(l - r, 0, 4294967295));
    (uc U32, x.anduc() as i128 == { l & r }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && ok(l & r, 0, 4294967295));
    (uc U32, x.xoruc() as i128 == { l ^ r }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && ok(l ^ r, 0, 4294967295));
    (uc U32, x.ltuc() == (l < r), true);
    (uc U32, x.geuc() == (l >= r), true);
    (uc U32, x.equc() == (l == r), true);
    (uc U32, x.seluc() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295));
    (ud U64, x.addud() as i128 == { l + r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l + r, 0, 18446744073709551615));
    (ud U64, x.subud() as i128 == { l - r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l - r, 0, 18446744073709551615));
    (ud U64, x.andud() as i128 == { l & r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l & r, 0, 18446744073709551615));
    (ud U64, x.xorud() as i128 == { l ^ r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l ^ r, 0, 18446744073709551615));
    (ud U64, x.ltud() == (l < r), true);
    (ud U64, x.geud() == (l >= r), true);
    (ud U64, x.equd() == (l == r), true);
    (ud U64, x.selud() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615));
    (ia I8, x.addia() as i128 == { l + r }, ok(l, -128, 127) && ok(r, -128, 127) && ok(l + r, -128, 127));
    (ia I8, x.subia() as i128 == { l - r }, ok(l, -128, 127) && ok(r, -128, 127) && ok(l - r, -128, 127));
    (ia I8, x.andia() as i128 == { l & r }, ok(l, -128, 127) && ok(r, -128, 127) && ok(l & r, -128, 127));
    (ia I8, x.xoria() as i128 == { l ^ r }, ok(l, -128, 127) && ok(r, -128, 127) && ok(l ^ r, -128, 127));
    (ia I8, x.ltia() == (l < r), true);
    (ia I8, x.geia() == (l >= r), true);
    (ia I8, x.eqia() == (l == r), true);
    (ia I8, x.selia() as i128 == { if l > 3 { l } else { r } }, ok(l, -128, 127) && ok(r, -128, 127));
    (ib I16, x.addib() as i128 == { l + r }, ok(l, -32768, 32767) && ok(r, -32768, 32767) && ok(l + r, -32768, 32767));
    (ib I16, x.subib() as i128 == { l - r }, ok(l, -32768, 32767) && ok(r, -32768, 32767) && ok(l - r, -32768, 32767));
    (ib I16, x.andib() as i128 == { l & r }, ok(l, -32768, 32767) && ok(r, -32768, 32767) && ok(l & r, -32768, 32767));
    (ib I16, x.xorib() as i128 == { l ^ r }, ok(l, -32768, 32767) && ok(r, -32768, 32767) && ok(l ^ r, -32768, 32767));
    (ib I16, x.ltib() == (l < r), true);
    (ib I16, x.geib() == (l >= r), true);
    (ib I16, x.eqib() == (l == r), true);
    (ib I16, x.selib() as i128 == { if l > 3 { l } else { r } }, ok(l, -32768, 32767) && ok(r, -32768, 32767));
    (ic I32, x.addic() as i128 == { l + r }, ok(l, -2147483648, 2147483647) && ok(r, -2147483648, 2147483647) && ok(l + r, -2147483648, 2147483647));
    (ic I32, x.subic() as i128 == { l - r }, ok(l, -2147483648, 2147483647) && ok(r, -2147483648, 2147483647) && ok(l - r, -2147483648, 2147483647));
    (ic I32, x.andic() as i128 == { l & r }, ok(l, -2147483648, 2147483647) && ok(r, -2147483648, 2147483647) && ok(l & r, -2147483648, 2147483647));
    (ic I32, x.xoric() as i128 == { l ^ r }, ok(l, -2147483648, 2147483647) && ok(r, -2147483648, 2147483647) && ok(l ^ r, -2147483648, 2147483647));
    (ic I32, x.ltic() == (l < r), true);
    (ic I32, x.geic() == (l >= r), true);
    (ic I32, x.eqic() == (l == r), true);
    (ic I32, x.selic() as i128 == { if l > 3 { l } else { r } }, ok(l, -2147483648, 2147483647) && ok(r, -2147483648, 2147483647));
    (id I64, x.addid() as i128 == { l + r }, ok(l, -9223372036854775808, 9223372036854775807) && ok(r, -9223372036854775808, 9223372036854775807) && ok(l + r, -9223372036854775808, 9223372036854775807));
    (id I64, x.subid() as i128 == { l - r }, ok(l, -9223372036854775808, 9223372036854775807) && ok(r, -9223372036854775808, 9223372036854775807) && ok(l - r, -9223372036854775808, 9223372036854775807));
    (id I64, x.andid() as i128 == { l & r }, ok(l, -9223372036854775808, 9223372036854775807) && ok(r, -9223372036854775808, 9223372036854775807) && ok(l & r, -9223372036854775808, 9223372036854775807));
    (id I64, x.xorid() as i128 == { l ^ r }, ok(l, -9223372036854775808, 9223372036854775807) && ok(r, -9223372036854775808, 9223372036854775807) && ok(l ^ r, -9223372036854775808, 9223372036854775807));
    (id I64, x.ltid() == (l < r), true);
    (id I64, x.geid() == (l >= r), true);
    (id I64, x.eqid() == (l == r), true);
    (id I64, x.selid() as i128 == { if l > 3 { l } else { r } }, ok(l, -9223372036854775808, 9223372036854775807) && ok(r, -9223372036854775808, 9223372036854775807));
    (fa Bit<5>, x.addfa() as i128 == { l + r }, ok(l, 0, 31) && ok(r, 0, 31) && ok(l + r, 0, 31));
    (fa Bit<5>, x.subfa() as i128 == { l - r }, ok(l, 0, 31) && ok(r, 0, 31) && ok(l - r, 0, 31));
    (fa Bit<5>, x.andfa() as i128 == { l & r }, ok(l, 0, 31) && ok(r, 0, 31) && ok(l & r, 0, 31));
    (fa Bit<5>, x.xorfa() as i128 == { l ^ r }, ok(l, 0, 31) && ok(r, 0, 31) && ok(l ^ r, 0, 31));
    (fa Bit<5>, x.ltfa() == (l < r), true);
    (fa Bit<5>, x.gefa() == (l >= r), true);
    (fa Bit<5>, x.eqfa() == (l == r), true);
    (fa Bit<5>, x.selfa() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 31) && ok(r, 0, 31));
    (fb Bit<12>, x.addfb() as i128 == { l + r }, ok(l, 0, 4095) && ok(r, 0, 4095) && ok(l + r, 0, 4095));
    (fb Bit<12>, x.subfb() as i128 == { l - r }, ok(l, 0, 4095) && ok(r, 0, 4095) && ok(l - r, 0, 4095));
    (fb Bit<12>, x.andfb() as i128 == { l & r }, ok(l, 0, 4095) && ok(r, 0, 4095) && ok(l & r, 0, 4095));
    (fb Bit<12>, x.xorfb() as i128 == { l ^ r }, ok(l, 0, 4095) && ok(r, 0, 4095) && ok(l ^ r, 0, 4095));
    (fb Bit<12>, x.ltfb() == (l < r), true);
    (fb Bit<12>, x.gefb() == (l >= r), true);
    (fb Bit<12>, x.eqfb() == (l == r), true);
    (fb Bit<12>, x.selfb() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 4095) && ok(r, 0, 4095));
    (fc Bit<40>, x.addfc() as i128 == { l + r }, ok(l, 0, 1099511627775) && ok(r, 0, 1099511627775) && ok(l + r, 0, 1099511627775));
    (fc Bit<40>, x.subfc() as i128 == { l - r }, ok(l, 0, 1099511627775) && ok(r, 0, 1099511627775) && ok(l - r, 0, 1099511627775));
    (fc Bit<40>, x.andfc() as i128 == { l & r }, ok(l, 0, 1099511627775) && ok(r, 0, 1099511627775) && ok(l & r, 0, 1099511627775));
    (fc Bit<40>, x.xorfc() as i128 == { l ^ r }, ok(l, 0, 1099511627775) && ok(r, 0, 1099511627775) && ok(l ^ r, 0, 1099511627775));
    (fc Bit<40>, x.ltfc() == (l < r), true);
    (fc Bit<40>, x.gefc() == (l >= r), true);
    (fc Bit<40>, x.eqfc() == (l == r), true);
    (fc Bit<40>, x.selfc() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 1099511627775) && ok(r, 0, 1099511627775));
    (ga Int<5>, x.addga() as i128 == { l + r }, ok(l, -16, 15) && ok(r, -16, 15) && ok(l + r, -16, 15));
    (ga Int<5>, x.subga() as i128 == { l - r }, ok(l, -16, 15) && ok(r, -16, 15) && ok(l - r, -16, 15));
    (ga Int<5>, x.andga() as i128 == { l & r }, ok(l, -16, 15) && ok(r, -16, 15) && ok(l & r, -16, 15));
    (ga Int<5>, x.xorga() as i128 == { l ^ r }, ok(l, -16, 15) && ok(r, -16, 15) && ok(l ^ r, -16, 15));
    (ga Int<5>, x.ltga() == (l < r), true);
    (ga Int<5>, x.gega() == (l >= r), true);
    (ga Int<5>, x.eqga() == (l == r), true);
    (ga Int<5>, x.selga() as i128 == { if l > 3 { l } else { r } }, ok(l, -16, 15) && ok(r, -16, 15));
    (va VU16, x.addva() as i128 == { l + r }, ok(l, 0, 32767) && ok(r, 0, 32767) && ok(l + r, 0, 32767));
    (va VU16, x.subva() as i128 == { l - r }, ok(l, 0, 32767) && ok(r, 0, 32767) && ok(l - r, 0, 32767));
    (va VU16, x.andva() as i128 == { l & r }, ok(l, 0, 32767) && ok(r, 0, 32767) && ok(l & r, 0, 32767));
    (va VU16, x.xorva() as i128 == { l ^ r }, ok(l, 0, 32767) && ok(r, 0, 32767) && ok(l ^ r, 0, 32767));
    (va VU16, x.ltva() == (l < r), true);
    (va VU16, x.geva() == (l >= r), true);
    (va VU16, x.eqva() == (l == r), true);
    (va VU16, x.selva() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 32767) && ok(r, 0, 32767));
    (vb VI16, x.addvb() as i128 == { l + r }, ok(l, -16384, 16383) && ok(r, -16384, 16383) && ok(l + r, -16384, 16383));
    (vb VI16, x.subvb() as i128 == { l - r }, ok(l, -16384, 16383) && ok(r, -16384, 16383) && ok(l - r, -16384, 16383));
    (vb VI16, x.andvb() as i128 == { l & r }, ok(l, -16384, 16383) && ok(r, -16384, 16383) && ok(l & r, -16384, 16383));
    (vb VI16, x.xorvb() as i128 == { l ^ r }, ok(l, -16384, 16383) && ok(r, -16384, 16383) && ok(l ^ r, -16384, 16383));
    (vb VI16, x.ltvb() == (l < r), true);
    (vb VI16, x.gevb() == (l >= r), true);
    (vb VI16, x.eqvb() == (l == r), true);
    (vb VI16, x.selvb() as i128 == { if l > 3 { l } else { r } }, ok(l, -16384, 16383) && ok(r, -16384, 16383));
    (vc VU, x.addvc() as i128 == { l + r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l + r, 0, 18446744073709551615));
    (vc VU, x.subvc() as i128 == { l - r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l - r, 0, 18446744073709551615));
    (vc VU, x.andvc() as i128 == { l & r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l & r, 0, 18446744073709551615));
    (vc VU, x.xorvc() as i128 == { l ^ r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l ^ r, 0, 18446744073709551615));
    (vc VU, x.ltvc() == (l < r), true);
    (vc VU, x.gevc() == (l >= r), true);
    (vc VU, x.eqvc() == (l == r), true);
    (vc VU, x.selvc() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615));
    (vd VSize, x.addvd() as i128 == { l + r }, ok(l, 0, 2147483647) && ok(r, 0, 2147483647) && ok(l + r, 0, 2147483647));
    (vd VSize, x.subvd() as i128 == { l - r }, ok(l, 0, 2147483647) && ok(r, 0, 2147483647) && ok(l - r, 0, 2147483647));
    (vd VSize, x.andvd() as i128 == { l & r }, ok(l, 0, 2147483647) && ok(r, 0, 2147483647) && ok(l & r, 0, 2147483647));
    (vd VSize, x.xorvd() as i128 == { l ^ r }, ok(l, 0, 2147483647) && ok(r, 0, 2147483647) && ok(l ^ r, 0, 2147483647));
    (vd VSize, x.ltvd() == (l < r), true);
    (vd VSize, x.gevd() == (l >= r), true);
    (vd VSize, x.eqvd() == (l == r), true);
    (vd VSize, x.selvd() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 2147483647) && ok(r, 0, 2147483647));
);
pairs!(
    h_c18_products_ga, matrix::Mga, Few<i64>, x l r;
    (ua Few<u8>, x.mulua() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 255) && ok(r, 0, 255) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 255));
    (ua Few<u8>, x.divua() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 255) && ok(r, 0, 255) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 255));
    (ua Few<u8>, x.remua() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 255) && ok(r, 0, 255) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 255));
    (ub Few<u16>, x.mulub() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 65535) && ok(r, 0, 65535) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 65535));
    (ub Few<u16>, x.divub() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 65535) && ok(r, 0, 65535) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 65535));
    (ub Few<u16>, x.remub() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 65535) && ok(r, 0, 65535) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 65535));
    (uc Few<u32>, x.muluc() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 4294967295));
    (uc Few<u32>, x.divuc() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 4294967295));
    (uc Few<u32>, x.remuc() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 4294967295));
    (ud Few<u64>, x.mulud() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 18446744073709551615));
    (ud Few<u64>, x.divud() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 18446744073709551615));
    (ud Few<u64>, x.remud() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 18446744073709551615));
    (ia Few<i8>, x.mulia() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, -128, 127) && ok(r, -128, 127) && ok((l as i32).wrapping_mul(r as i32) as i128, -128, 127));
    (ia Few<i8>, x.divia() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, -128, 127) && ok(r, -128, 127) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, -128, 127));
    (ia Few<i8>, x.remia() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, -128, 127) && ok(r, -128, 127) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, -128, 127));
    (ib Few<i16>, x.mulib() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, -32768, 32767) && ok(r, -32768, 32767) && ok((l as i32).wrapping_mul(r as i32) as i128, -32768, 32767));
    (ib Few<i16>, x.divib() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, -32768, 32767) && ok(r, -32768, 32767) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, -32768, 32767));
    (ib Few<i16>, x.remib() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, -32768, 32767) && ok(r, -32768, 32767) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, -32768, 32767));
    (ic Few<i32>, x.mulic() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, -2147483648, 2147483647) && ok(r, -2147483648, 2147483647) && ok((l as i32).wrapping_mul(r as i32) as i128, -2147483648, 2147483647));
    (ic Few<i32>, x.divic() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, -2147483648, 2147483647) && ok(r, -2147483648, 2147483647) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, -2147483648, 2147483647));
    (ic Few<i32>, x.remic() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, -2147483648, 2147483647) && ok(r, -2147483648, 2147483647) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, -2147483648, 2147483647));
    (id Few<i64>, x.mulid() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, -9223372036854775808, 9223372036854775807) && ok(r, -9223372036854775808, 9223372036854775807) && ok((l as i32).wrapping_mul(r as i32) as i128, -9223372036854775808, 9223372036854775807));
    (id Few<i64>, x.divid() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, -9223372036854775808, 9223372036854775807) && ok(r, -9223372036854775808, 9223372036854775807) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, -9223372036854775808, 9223372036854775807));
    (id Few<i64>, x.remid() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, -9223372036854775808, 9223372036854775807) && ok(r, -9223372036854775808, 9223372036854775807) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, -9223372036854775808, 9223372036854775807));
    (fa Few<u64>, x.mulfa() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 31) && ok(r, 0, 31) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 31));
    (fa Few<u64>, x.divfa() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 31) && ok(r, 0, 31) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 31));
    (fa Few<u64>, x.remfa() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 31) && ok(r, 0, 31) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 31));
    (fb Few<u64>, x.mulfb() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 4095) && ok(r, 0, 4095) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 4095));
    (fb Few<u64>, x.divfb() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 4095) && ok(r, 0, 4095) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 4095));
    (fb Few<u64>, x.remfb() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 4095) && ok(r, 0, 4095) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 4095));
    (fc Few<u64>, x.mulfc() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 1099511627775) && ok(r, 0, 1099511627775) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 1099511627775));
    (fc Few<u64>, x.divfc() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 1099511627775) && ok(r, 0, 1099511627775) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 1099511627775));
    (fc Few<u64>, x.remfc() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 1099511627775) && ok(r, 0, 1099511627775) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 1099511627775));
    (ga Few<i64>, x.mulga() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, -16, 15) && ok(r, -16, 15) && ok((l as i32).wrapping_mul(r as i32) as i128, -16, 15));
    (ga Few<i64>, x.divga() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, -16, 15) && ok(r, -16, 15) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, -16, 15));
    (ga Few<i64>, x.remga() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, -16, 15) && ok(r, -16, 15) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, -16, 15));
    (va Few<u16>, x.mulva() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 32767) && ok(r, 0, 32767) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 32767));
    (va Few<u16>, x.divva() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 32767) && ok(r, 0, 32767) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 32767));
    (va Few<u16>, x.remva() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 32767) && ok(r, 0, 32767) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 32767));
    (vb Few<i16>, x.mulvb() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, -16384, 16383) && ok(r, -16384, 16383) && ok((l as i32).wrapping_mul(r as i32) as i128, -16384, 16383));
    (vb Few<i16>, x.divvb() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, -16384, 16383) && ok(r, -16384, 16383) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, -16384, 16383));
    (vb Few<i16>, x.remvb() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, -16384, 16383) && ok(r, -16384, 16383) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, -16384, 16383));
    (vc Few<u64>, x.mulvc() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 18446744073709551615));
    (vc Few<u64>, x.divvc() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 18446744073709551615));
    (vc Few<u64>, x.remvc() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 18446744073709551615));
    (vd Few<u32>, x.mulvd() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 2147483647) && ok(r, 0, 2147483647) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 2147483647));
    (vd Few<u32>, x.divvd() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 2147483647) && ok(r, 0, 2147483647) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 2147483647));
    (vd Few<u32>, x.remvd() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 2147483647) && ok(r, 0, 2147483647) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 2147483647));
);
pairs!(
    h_c18_pairs_va, matrix::Mva, VU16, x l r;
    (ua U8, x.addua() as i128 == { l + r }, ok(l, 0, 32767) && ok(r, 0, 32767) && ok(l + r, 0, 32767));
    (ua U8, x.subua() as i128 == { l - r }, ok(l, 0, 32767) && ok(r, 0, 32767) && ok(l - r, 0, 32767));
    (ua U8, x.andua() as i128 == { l & r }, ok(l, 0, 32767) && ok(r, 0, 32767) && ok(l & r, 0, 32767));
    (ua U8, x.xorua() as i128 == { l ^ r }, ok(l, 0, 32767) && ok(r, 0, 32767) && ok(l ^ r, 0, 32767));
    (ua U8, x.ltua() == (l < r), true);
    (ua U8, x.geua() == (l >= r), true);
    (ua U8, x.equa() == (l == r), true);
    (ua U8, x.selua() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 32767) && ok(r, 0, 32767));
    (ub U16, x.addub() as i128 == { l + r }, ok(l, 0, 65535) && ok(r, 0, 65535) && ok(l + r, 0, 65535));
    (ub U16, x.subub() as i128 == { l - r }, ok(l, 0, 65535) && ok(r, 0, 65535) && ok(l - r, 0, 65535));
    (ub U16, x.andub() as i128 == { l & r }, ok(l, 0, 65535) && ok(r, 0, 65535) && ok(l & r, 0, 65535));
    (ub U16, x.xorub() as i128 == { l ^ r }, ok(l, 0, 65535) && ok(r, 0, 65535) && ok(l ^ r, 0, 65535));
    (ub U16, x.ltub() == (l < r), true);
    (ub U16, x.geub() == (l >= r), true);
    (ub U16, x.equb() == (l == r), true);
    (ub U16, x.selub() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 65535) && ok(r, 0, 65535));
    (uc U32, x.adduc() as i128 == { l + r }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && ok(l + r, 0, 4294967295));
    (uc U32, x.subuc() as i128 == { l - r }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && ok(l - r, 0, 4294967295));
    (uc U32, x.anduc() as i128 == { l & r }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && ok(l & r, 0, 4294967295));
    (uc U32, x.xoruc() as i128 == { l ^ r }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && ok(l ^ r, 0, 4294967295));
    (uc U32, x.ltuc() == (l < r), true);
    (uc U32, x.geuc() == (l >= r), true);
    (uc U32, x.equc() == (l == r), true);
    (uc U32, x.seluc() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295));
    (ud U64, x.addud() as i128 == { l + r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l + r, 0, 18446744073709551615));
    (ud U64, x.subud() as i128 == { l - r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l - r, 0, 18446744073709551615));
    (ud U64, x.andud() as i128 == { l & r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l & r, 0, 18446744073709551615));
    (ud U64, x.xorud() as i128 == { l ^ r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l ^ r, 0, 18446744073709551615));
    (ud U64, x.ltud() == (l < r), true);
    (ud U64, x.geud() == (l >= r), true);
    (ud U64, x.equd() == (l == r), true);
    (ud U64, x.selud() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615));
    (ia I8, x.addia() as i128 == { l + r }, ok(l, 0, 32767) && ok(r, 0, 32767) && ok(l + r, 0, 32767));
    (ia I8, x.subia() as i128 == { l - r }, ok(l, 0, 32767) && ok(r, 0, 32767) && ok(l - r, 0, 32767));
    (ia I8, x.andia() as i128 == { l & r }, ok(l, 0, 32767) && ok(r, 0, 32767) && ok(l & r, 0, 32767));
    (ia I8, x.xoria() as i128 == { l ^ r }, ok(l, 0, 32767) && ok(r, 0, 32767) && ok(l ^ r, 0, 32767));
    (ia I8, x.ltia() == (l < r), true);
    (ia I8, x.geia() == (l >= r), true);
    (ia I8, x.eqia() == (l == r), true);
    (ia I8, x.selia() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 32767) && ok(r, 0, 32767));
    (ib I16, x.addib() as i128 == { l + r }, ok(l, 0, 65535) && ok(r, 0, 65535) && ok(l + r, 0, 65535));
    (ib I16, x.subib() as i128 == { l - r }, ok(l, 0, 65535) && ok(r, 0, 65535) && ok(l - r, 0, 65535));
    (ib I16, x.andib() as i128 == { l & r }, ok(l, 0, 65535) && ok(r, 0, 65535) && ok(l & r, 0, 65535));
    (ib I16, x.xorib() as i128 == { l ^ r }, ok(l, 0, 65535) && ok(r, 0, 65535) && ok(l ^ r, 0, 65535));
    (ib I16, x.ltib() == (l < r), true);
    (ib I16, x.geib() == (l >= r), true);
    (ib I16, x.eqib() == (l == r), true);
    (ib I16, x.selib() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 65535) && ok(r, 0, 65535));
    (ic I32, x.addic() as i128 == { l + r }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && ok(l + r, 0, 4294967295));
    (ic I32, x.subic() as i128 == { l - r }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && ok(l - r, 0, 4294967295));
    (ic I32, x.andic() as i128 == { l & r }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && ok(l & r, 0, 4294967295));
    (ic I32, x.xoric() as i128 == { l ^ r }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && ok(l ^ r, 0, 4294967295));
    (ic I32, x.ltic() == (l < r), true);
    (ic I32, x.geic() == (l >= r), true);
    (ic I32, x.eqic() == (l == r), true);
    (ic I32, x.selic() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295));
    (id I64, x.addid() as i128 == { l + r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l + r, 0, 18446744073709551615));
    (id I64, x.subid() as i128 == { l - r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l - r, 0, 18446744073709551615));
    (id I64, x.andid() as i128 == { l & r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l & r, 0, 18446744073709551615));
    (id I64, x.xorid() as i128 == { l ^ r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l ^ r, 0, 18446744073709551615));
    (id I64, x.ltid() == (l < r), true);
    (id I64, x.geid() == (l >= r), true);
    (id I64, x.eqid() == (l == r), true);
    (id I64, x.selid() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615));
    (fa Bit<5>, x.addfa() as i128 == { l + r }, ok(l, 0, 32767) && ok(r, 0, 32767) && ok(l + r, 0, 32767));
    (fa Bit<5>, x.subfa() as i128 == { l - r }, ok(l, 0, 32767) && ok(r, 0, 32767) && ok(l - r, 0, 32767));
    (fa Bit<5>, x.andfa() as i128 == { l & r }, ok(l, 0, 32767) && ok(r, 0, 32767) && ok(l & r, 0, 32767));
    (fa Bit<5>, x.xorfa() as i128 == { l ^ r }, ok(l, 0, 32767) && ok(r, 0, 32767) && ok(l ^ r, 0, 32767));
    (fa Bit<5>, x.ltfa() == (l < r), true);
    (fa Bit<5>, x.gefa() == (l >= r), true);
    (fa Bit<5>, x.eqfa() == (l == r), true);
    (fa Bit<5>, x.selfa() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 32767) && ok(r, 0, 32767));
    (fb Bit<12>, x.addfb() as i128 == { l + r }, ok(l, 0, 32767) && ok(r, 0, 32767) && ok(l + r, 0, 32767));
    (fb Bit<12>, x.subfb() as i128 == { l - r }, ok(l, 0, 32767) && ok(r, 0, 32767) && ok(l - r, 0, 32767));
    (fb Bit<12>, x.andfb() as i128 == { l & r }, ok(l, 0, 32767) && ok(r, 0, 32767) && ok(l & r, 0, 32767));
    (fb Bit<12>, x.xorfb() as i128 == { l ^ r }, ok(l, 0, 32767) && ok(r, 0, 32767) && ok(l ^ r, 0, 32767));
    (fb Bit<12>, x.ltfb() == (l < r), true);
    (fb Bit<12>, x.gefb() == (l >= r), true);
    (fb Bit<12>, x.eqfb() == (l == r), true);
    (fb Bit<12>, x.selfb() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 32767) && ok(r, 0, 32767));
    (fc Bit<40>, x.addfc() as i128 == { l + r }, ok(l, 0, 1099511627775) && ok(r, 0, 1099511627775) && ok(l + r, 0, 1099511627775));
    (fc Bit<40>, x.subfc() as i128 == { l - r }, ok(l, 0, 1099511627775) && ok(r, 0, 1099511627775) && ok(l - r, 0, 1099511627775));
    (fc Bit<40>, x.andfc() as i128 == { l & r }, ok(l, 0, 1099511627775) && ok(r, 0, 1099511627775) && ok(l & r, 0, 1099511627775));
    (fc Bit<40>, x.xorfc() as i128 == { l ^ r }, ok(l, 0, 1099511627775) && ok(r, 0, 1099511627775) && ok(l ^ r, 0, 1099511627775));
    (fc Bit<40>, x.ltfc() == (l < r), true);
    (fc Bit<40>, x.gefc() == (l >= r), true);
    (fc Bit<40>, x.eqfc() == (l == r), true);
    (fc Bit<40>, x.selfc() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 1099511627775) && ok(r, 0, 1099511627775));
    (ga Int<5>, x.addga() as i128 == { l + r }, ok(l, 0, 32767) && ok(r, 0, 32767) && ok(l + r, 0, 32767));
    (ga Int<5>, x.subga() as i128 == { l - r }, ok(l, 0, 32767) && ok(r, 0, 32767) && ok(l - r, 0, 32767));
    (ga Int<5>, x.andga() as i128 == { l & r }, ok(l, 0, 32767) && ok(r, 0, 32767) && ok(l & r, 0, 32767));
    (ga Int<5>, x.xorga() as i128 == { l ^ r }, ok(l, 0, 32767) && ok(r, 0, 32767) && ok(l ^ r, 0, 32767));
    (ga Int<5>, x.ltga() == (l < r), true);
    (ga Int<5>, x.gega() == (l >= r), true);
    (ga Int<5>, x.eqga() == (l == r), true);
    (ga Int<5>, x.selga() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 32767) && ok(r, 0, 32767));
    (va VU16, x.addva() as i128 == { l + r }, ok(l, 0, 32767) && ok(r, 0, 32767) && ok(l + r, 0, 32767));
    (va VU16, x.subva() as i128 == { l - r }, ok(l, 0, 32767) && ok(r, 0, 32767) && ok(l - r, 0, 32767));
    (va VU16, x.andva() as i128 == { l & r }, ok(l, 0, 32767) && ok(r, 0, 32767) && ok(l & r, 0, 32767));
    (va VU16, x.xorva() as i128 == { l ^ r }, ok(l, 0, 32767) && ok(r, 0, 32767) && ok(l ^ r, 0, 32767));
    (va VU16, x.ltva() == (l < r), true);
    (va VU16, x.geva() == (l >= r), true);
    (va VU16, x.eqva() == (l == r), true);
    (va VU16, x.selva() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 32767) && ok(r, 0, 32767));
    (vb VI16, x.addvb() as i128 == { l + r }, ok(l, 0, 32767) && ok(r, 0, 32767) && ok(l + r, 0, 32767));
    (vb VI16, x.subvb() as i128 == { l - r }, ok(l, 0, 32767) && ok(r, 0, 32767) && ok(l - r, 0, 32767));
    (vb VI16, x.andvb() as i128 == { l & r }, ok(l, 0, 32767) && ok(r, 0, 32767) && ok(l & r, 0, 32767));
    (vb VI16, x.xorvb() as i128 == { l ^ r }, ok(l, 0, 32767) && ok(r, 0, 32767) && ok(l ^ r, 0, 32767));
    (vb VI16, x.ltvb() == (l < r), true);
    (vb VI16, x.gevb() == (l >= r), true);
    (vb VI16, x.eqvb() == (l == r), true);
    (vb VI16, x.selvb() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 32767) && ok(r, 0, 32767));
    (vc VU, x.addvc() as i128 == { l + r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l + r, 0, 18446744073709551615));
    (vc VU, x.subvc() as i128 == { l - r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l - r, 0, 18446744073709551615));
    (vc VU, x.andvc() as i128 == { l & r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l & r, 0, 18446744073709551615));
    (vc VU, x.xorvc() as i128 == { l ^ r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l ^ r, 0, 18446744073709551615));
    (vc VU, x.ltvc() == (l < r), true);
    (vc VU, x.gevc() == (l >= r), true);
    (vc VU, x.eqvc() == (l == r), true);
    (vc VU, x.selvc() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615));
    (vd VSize, x.addvd() as i128 == { l + r }, ok(l, 0, 2147483647) && ok(r, 0, 2147483647) && ok(l + r, 0, 2147483647));
    (vd VSize, x.subvd() as i128 == { l - r }, ok(l, 0, 2147483647) && ok(r, 0, 2147483647) && ok(l - r, 0, 2147483647));
    (vd VSize, x.andvd() as i128 == { l & r }, ok(l, 0, 2147483647) && ok(r, 0, 2147483647) && ok(l & r, 0, 2147483647));
    (vd VSize, x.xorvd() as i128 == { l ^ r }, ok(l, 0, 2147483647) && ok(r, 0, 2147483647) && ok(l ^ r, 0, 2147483647));
    (vd VSize, x.ltvd() == (l < r), true);
    (vd VSize, x.gevd() == (l >= r), true);
    (vd VSize, x.eqvd() == (l == r), true);
    (vd VSize, x.selvd() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 2147483647) && ok(r, 0, 2147483647));
);
pairs!(
    h_c18_products_va, matrix::Mva, Few<u16>, x l r;
    (ua Few<u8>, x.mulua() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 32767) && ok(r, 0, 32767) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 32767));
    (ua Few<u8>, x.divua() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 32767) && ok(r, 0, 32767) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 32767));
    (ua Few<u8>, x.remua() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 32767) && ok(r, 0, 32767) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 32767));
    (ub Few<u16>, x.mulub() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 65535) && ok(r, 0, 65535) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 65535));
    (ub Few<u16>, x.divub() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 65535) && ok(r, 0, 65535) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 65535));
    (ub Few<u16>, x.remub() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 65535) && ok(r, 0, 65535) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 65535));
    (uc Few<u32>, x.muluc() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 4294967295));
    (uc Few<u32>, x.divuc() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 4294967295));
    (uc Few<u32>, x.remuc() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 4294967295));
    (ud Few<u64>, x.mulud() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 18446744073709551615));
    (ud Few<u64>, x.divud() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 18446744073709551615));
    (ud Few<u64>, x.remud() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 18446744073709551615));
    (ia Few<i8>, x.mulia() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 32767) && ok(r, 0, 32767) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 32767));
    (ia Few<i8>, x.divia() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 32767) && ok(r, 0, 32767) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 32767));
    (ia Few<i8>, x.remia() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 32767) && ok(r, 0, 32767) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 32767));
    (ib Few<i16>, x.mulib() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 65535) && ok(r, 0, 65535) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 65535));
    (ib Few<i16>, x.divib() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 65535) && ok(r, 0, 65535) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 65535));
    (ib Few<i16>, x.remib() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 65535) && ok(r, 0, 65535) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 65535));
    (ic Few<i32>, x.mulic() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 4294967295));
    (ic Few<i32>, x.divic() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 4294967295));
    (ic Few<i32>, x.remic() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 4294967295));
    (id Few<i64>, x.mulid() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 18446744073709551615));
    (id Few<i64>, x.divid() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 18446744073709551615));
    (id Few<i64>, x.remid() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 18446744073709551615));
    (fa Few<u64>, x.mulfa() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 32767) && ok(r, 0, 32767) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 32767));
    (fa Few<u64>, x.divfa() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 32767) && ok(r, 0, 32767) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 32767));
    (fa Few<u64>, x.remfa() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 32767) && ok(r, 0, 32767) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 32767));
    (fb Few<u64>, x.mulfb() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 32767) && ok(r, 0, 32767) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 32767));
    (fb Few<u64>, x.divfb() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 32767) && ok(r, 0, 32767) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 32767));
    (fb Few<u64>, x.remfb() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 32767) && ok(r, 0, 32767) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 32767));
    (fc Few<u64>, x.mulfc() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 1099511627775) && ok(r, 0, 1099511627775) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 1099511627775));
    (fc Few<u64>, x.divfc() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 1099511627775) && ok(r, 0, 1099511627775) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 1099511627775));
    (fc Few<u64>, x.remfc() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 1099511627775) && ok(r, 0, 1099511627775) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 1099511627775));
    (ga Few<i64>, x.mulga() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 32767) && ok(r, 0, 32767) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 32767));
    (ga Few<i64>, x.divga() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 32767) && ok(r, 0, 32767) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 32767));
    (ga Few<i64>, x.remga() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 32767) && ok(r, 0, 32767) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 32767));
    (va Few<u16>, x.mulva() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 32767) && ok(r, 0, 32767) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 32767));
    (va Few<u16>, x.divva() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 32767) && ok(r, 0, 32767) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 32767));
    (va Few<u16>, x.remva() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 32767) && ok(r, 0, 32767) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 32767));
    (vb Few<i16>, x.mulvb() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 32767) && ok(r, 0, 32767) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 32767));
    (vb Few<i16>, x.divvb() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 32767) && ok(r, 0, 32767) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 32767));
    (vb Few<i16>, x.remvb() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 32767) && ok(r, 0, 32767) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 32767));
    (vc Few<u64>, x.mulvc() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 18446744073709551615));
    (vc Few<u64>, x.divvc() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 18446744073709551615));
    (vc Few<u64>, x.remvc() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 18446744073709551615));
    (vd Few<u32>, x.mulvd() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 2147483647) && ok(r, 0, 2147483647) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 2147483647));
    (vd Few<u32>, x.divvd() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 2147483647) && ok(r, 0, 2147483647) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 2147483647));
    (vd Few<u32>, x.remvd() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 2147483647) && ok(r, 0, 2147483647) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 2147483647));
);
pairs!(
    h_c18_pairs_vb, matrix::Mvb, VI16, x l r;
    (ua U8, x.addua() as i128 == { l + r }, ok(l, 0, 32767) && ok(r, 0, 32767) && ok(l + r, 0, 32767));
    (ua U8, x.subua() as i128 == { l - r }, ok(l, 0, 32767) && ok(r, 0, 32767) && ok(l - r, 0, 32767));
    (ua U8, x.andua() as i128 == { l & r }, ok(l, 0, 32767) && ok(r, 0, 32767) && ok(l & r, 0, 32767));
    (ua U8, x.xorua() as i128 == { l ^ r }, ok(l, 0, 32767) && ok(r, 0, 32767) && ok(l ^ r, 0, 32767));
    (ua U8, x.ltua() == (l < r), true);
    (ua U8, x.geua() == (l >= r), true);
    (ua U8, x.equa() == (l == r), true);
    (ua U8, x.selua() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 32767) && ok(r, 0, 32767));
    (ub U16, x.addub() as i128 == { l + r }, ok(l, 0, 65535) && ok(r, 0, 65535) && ok(l + r, 0, 65535));
    (ub U16, x.subub() as i128 == { l - r }, ok(l, 0, 65535) && ok(r, 0, 65535) && ok(l - r, 0, 65535));
    (ub U16, x.andub() as i128 == { l & r }, ok(l, 0, 65535) && ok(r, 0, 65535) && ok(l & r, 0, 65535));
    (ub U16, x.xorub() as i128 == { l ^ r }, ok(l, 0, 65535) && ok(r, 0, 65535) && ok(l ^ r, 0, 65535));
    (ub U16, x.ltub() == (l < r), true);
    (ub U16, x.geub() == (l >= r), true);
    (ub U16, x.equb() == (l == r), true);
    (ub U16, x.selub() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 65535) && ok(r, 0, 65535));
    (uc U32, x.adduc() as i128 == { l + r }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && ok(l + r, 0, 4294967295));
    (uc U32, x.subuc() as i128 == { l - r }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && ok(l - r, 0, 4294967295));
    (uc U32, x.anduc() as i128 == { l & r }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && ok(l & r, 0, 4294967295));
    (uc U32, x.xoruc() as i128 == { l ^ r }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && ok(l ^ r, 0, 4294967295));
    (uc U32, x.ltuc() == (l < r), true);
    (uc U32, x.geuc() == (l >= r), true);
    (uc U32, x.equc() == (l == r), true);
    (uc U32, x.seluc() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295));
    (ud U64, x.addud() as i128 == { l + r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l + r, 0, 18446744073709551615));
    (ud U64, x.subud() as i128 == { l - r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l - r, 0, 18446744073709551615));
    (ud U64, x.andud() as i128 == { l & r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l & r, 0, 18446744073709551615));
    (ud U64, x.xorud() as i128 == { l ^ r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l ^ r, 0, 18446744073709551615));
    (ud U64, x.ltud() == (l < r), true);
    (ud U64, x.geud() == (l >= r), true);
    (ud U64, x.equd() == (l == r), true);
    (ud U64, x.selud() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615));
    (ia I8, x.addia() as i128 == { l + r }, ok(l, -16384, 16383) && ok(r, -16384, 16383) && ok(l + r, -16384, 16383));
    (ia I8, x.subia() as i128 == { l - r }, ok(l, -16384, 16383) && ok(r, -16384, 16383) && ok(l - r, -16384, 16383));
    (ia I8, x.andia() as i128 == { l & r }, ok(l, -16384, 16383) && ok(r, -16384, 16383) && ok(l & r, -16384, 16383));
    (ia I8, x.xoria() as i128 == { l ^ r }, ok(l, -16384, 16383) && ok(r, -16384, 16383) && ok(l ^ r, -16384, 16383));
    (ia I8, x.ltia() == (l < r), true);
    (ia I8, x.geia() == (l >= r), true);
    (ia I8, x.eqia() == (l == r), true);
    (ia I8, x.selia() as i128 == { if l > 3 { l } else { r } }, ok(l, -16384, 16383) && ok(r, -16384, 16383));
    (ib I16, x.addib() as i128 == { l + r }, ok(l, -32768, 32767) && ok(r, -32768, 32767) && ok(l + r, -32768, 32767));
    (ib I16, x.subib() as i128 == { l - r }, ok(l, -32768, 32767) && ok(r, -32768, 32767) && ok(l - r, -32768, 32767));
    (ib I16, x.andib() as i128 == { l & r }, ok(l, -32768, 32767) && ok(r, -32768, 32767) && ok(l & r, -32768, 32767));
    (ib I16, x.xorib() as i128 == { l ^ r }, ok(l, -32768, 32767) && ok(r, -32768, 32767) && ok(l ^ r, -32768, 32767));
    (ib I16, x.ltib() == (l < r), true);
    (ib I16, x.geib() == (l >= r), true);
    (ib I16, x.eqib() == (l == r), true);
    (ib I16, x.selib() as i128 == { if l > 3 { l } else { r } }, ok(l, -32768, 32767) && ok(r, -32768, 32767));
    (ic I32, x.addic() as i128 == { l + r }, ok(l, -2147483648, 2147483647) && ok(r, -2147483648, 2147483647) && ok(l + r, -2147483648, 2147483647));
    (ic I32, x.subic() as i128 == { l - r }, ok(l, -2147483648, 2147483647) && ok(r, -2147483648, 2147483647) && ok(l - r, -2147483648, 2147483647));
    (ic I32, x.andic() as i128 == { l & r }, ok(l, -2147483648, 2147483647) && ok(r, -2147483648, 2147483647) && ok(l & r, -2147483648, 2147483647));
    (ic I32, x.xoric() as i128 == { l ^ r }, ok(l, -2147483648, 2147483647) && ok(r, -2147483648, 2147483647) && ok(l ^ r, -2147483648, 2147483647));
    (ic I32, x.ltic() == (l < r), true);
    (ic I32, x.geic() == (l >= r), true);
    (ic I32, x.eqic() == (l == r), true);
    (ic I32, x.selic() as i128 == { if l > 3 { l } else { r } }, ok(l, -2147483648, 2147483647) && ok(r, -2147483648, 2147483647));
    (id I64, x.addid() as i128 == { l + r }, ok(l, -9223372036854775808, 9223372036854775807) && ok(r, -9223372036854775808, 9223372036854775807) && ok(l + r, -9223372036854775808, 9223372036854775807));
    (id I64, x.subid() as i128 == { l - r }, ok(l, -9223372036854775808, 9223372036854775807) && ok(r, -9223372036854775808, 9223372036854775807) && ok(l - r, -9223372036854775808, 9223372036854775807));
    (id I64, x.andid() as i128 == { l & r }, ok(l, -9223372036854775808, 9223372036854775807) && ok(r, -9223372036854775808, 9223372036854775807) && ok(l & r, -9223372036854775808, 9223372036854775807));
    (id I64, x.xorid() as i128 == { l ^ r }, ok(l, -9223372036854775808, 9223372036854775807) && ok(r, -9223372036854775808, 9223372036854775807) && ok(l ^ r, -9223372036854775808, 9223372036854775807));
    (id I64, x.ltid() == (l < r), true);
    (id I64, x.geid() == (l >= r), true);
    (id I64, x.eqid() == (l == r), true);
    (id I64, x.selid() as i128 == { if l > 3 { l } else { r } }, ok(l, -9223372036854775808, 9223372036854775807) && ok(r, -9223372036854775808, 9223372036854775807));
    (fa Bit<5>, x.addfa() as i128 == { l + r }, ok(l, 0, 32767) && ok(r, 0, 32767) && ok(l + r, 0, 32767));
    (fa Bit<5>, x.subfa() as i128 == { l - r }, ok(l, 0, 32767) && ok(r, 0, 32767) && ok(l - r, 0, 32767));
    (fa Bit<5>, x.andfa() as i128 == { l & r }, ok(l, 0, 32767) && ok(r, 0, 32767) && ok(l & r, 0, 32767));
    (fa Bit<5>, x.xorfa() as i128 == { l ^ r }, ok(l, 0, 32767) && ok(r, 0, 32767) && ok(l ^ r, 0, 32767));
    (fa Bit<5>, x.ltfa() == (l < r), true);
    (fa Bit<5>, x.gefa() == (l >= r), true);
    (fa Bit<5>, x.eqfa() == (l == r), true);
    (fa Bit<5>, x.selfa() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 32767) && ok(r, 0, 32767));
    (fb Bit<12>, x.addfb() as i128 == { l + r }, ok(l, 0, 32767) && ok(r, 0, 32767) && ok(l + r, 0, 32767));
    (fb Bit<12>, x.subfb() as i128 == { l - r }, ok(l, 0, 32767) && ok(r, 0, 32767) && ok(l - r, 0, 32767));
    (fb Bit<12>, x.andfb() as i128 == { l & r }, ok(l, 0, 32767) && ok(r, 0, 32767) && ok(l & r, 0, 32767));
    (fb Bit<12>, x.xorfb() as i128 == { l ^ r }, ok(l, 0, 32767) && ok(r, 0, 32767) && ok(l ^ r, 0, 32767));
    (fb Bit<12>, x.ltfb() == (l < r), true);
    (fb Bit<12>, x.gefb() == (l >= r), true);
    (fb Bit<12>, x.eqfb() == (l == r), true);
    (fb Bit<12>, x.selfb() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 32767) && ok(r, 0, 32767));
    (fc Bit<40>, x.addfc() as i128 == { l + r }, ok(l, 0, 1099511627775) && ok(r, 0, 1099511627775) && ok(l + r, 0, 1099511627775));
    (fc Bit<40>, x.subfc() as i128 == { l - r }, ok(l, 0, 1099511627775) && ok(r, 0, 1099511627775) && ok(l - r, 0, 1099511627775));
    (fc Bit<40>, x.andfc() as i128 == { l & r }, ok(l, 0, 1099511627775) && ok(r, 0, 1099511627775) && ok(l & r, 0, 1099511627775));
    (fc Bit<40>, x.xorfc() as i128 == { l ^ r }, ok(l, 0, 1099511627775) && ok(r, 0, 1099511627775) && ok(l ^ r, 0, 1099511627775));
    (fc Bit<40>, x.ltfc() == (l < r), true);
    (fc Bit<40>, x.gefc() == (l >= r), true);
    (fc Bit<40>, x.eqfc() == (l == r), true);
    (fc Bit<40>, x.selfc() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 1099511627775) && ok(r, 0, 1099511627775));
    (ga Int<5>, x.addga() as i128 == { l + r }, ok(l, -16384, 16383) && ok(r, -16384, 16383) && ok(l + r, -16384, 16383));
    (ga Int<5>, x.subga() as i128 == { l - r }, ok(l, -16384, 16383) && ok(r, -16384, 16383) && ok(l - r, -16384, 16383));
    (ga Int<5>, x.andga() as i128 == { l & r }, ok(l, -16384, 16383) && ok(r, -16384, 16383) && ok(l & r, -16384, 16383));
    (ga Int<5>, x.xorga() as i128 == { l ^ r }, ok(l, -16384, 16383) && ok(r, -16384, 16383) && ok(l ^ r, -16384, 16383));
    (ga Int<5>, x.ltga() == (l < r), true);
    (ga Int<5>, x.gega() == (l >= r), true);
    (ga Int<5>, x.eqga() == (l == r), true);
    (ga Int<5>, x.selga() as i128 == { if l > 3 { l } else { r } }, ok(l, -16384, 16383) && ok(r, -16384, 16383));
    (va VU16, x.addva() as i128 == { l + r }, ok(l, 0, 32767) && ok(r, 0, 32767) && ok(l + r, 0, 32767));
    (va VU16, x.subva() as i128 == { l - r }, ok(l, 0, 32767) && ok(r, 0, 32767) && ok(l - r, 0, 32767));
    (va VU16, x.andva() as i128 == { l & r }, ok(l, 0, 32767) && ok(r, 0, 32767) && ok(l & r, 0, 32767));
    (va VU16, x.xorva() as i128 == { l ^ r }, ok(l, 0, 32767) && ok(r, 0, 32767) && ok(l ^ r, 0, 32767));
    (va VU16, x.ltva() == (l < r), true);
    (va VU16, x.geva() == (l >= r), true);
    (va VU16, x.eqva() == (l == r), true);
    (va VU16, x.selva() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 32767) && ok(r, 0, 32767));
    (vb VI16, x.addvb() as i128 == { l + r }, ok(l, -16384, 16383) && ok(r, -16384, 16383) && ok(l + r, -16384, 16383));
    (vb VI16, x.subvb() as i128 == { l - r }, ok(l, -16384, 16383) && ok(r, -16384, 16383) && ok(l - r, -16384, 16383));
    (vb VI16, x.andvb() as i128 == { l & r }, ok(l, -16384, 16383) && ok(r, -16384, 16383) && ok(l & r, -16384, 16383));
    (vb VI16, x.xorvb() as i128 == { l ^ r }, ok(l, -16384, 16383) && ok(r, -16384, 16383) && ok(l ^ r, -16384, 16383));
    (vb VI16, x.ltvb() == (l < r), true);
    (vb VI16, x.gevb() == (l >= r), true);
    (vb VI16, x.eqvb() == (l == r), true);
    (vb VI16, x.selvb() as i128 == { if l > 3 { l } else { r } }, ok(l, -16384, 16383) && ok(r, -16384, 16383));
    (vc VU, x.addvc() as i128 == { l + r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l + r, 0, 18446744073709551615));
    (vc VU, x.subvc() as i128 == { l - r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l - r, 0, 18446744073709551615));
    (vc VU, x.andvc() as i128 == { l & r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l & r, 0, 18446744073709551615));
    (vc VU, x.xorvc() as i128 == { l ^ r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l ^ r, 0, 18446744073709551615));
    (vc VU, x.ltvc() == (l < r), true);
    (vc VU, x.gevc() == (l >= r), true);
    (vc VU, x.eqvc() == (l == r), true);
    (vc VU, x.selvc() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615));
    (vd VSize, x.addvd() as i128 == { l + r }, ok(l, 0, 2147483647) && ok(r, 0, 2147483647) && ok(l + r, 0, 2147483647));
    (vd VSize, x.subvd() as i128 == { l - r }, ok(l, 0, 2147483647) && ok(r, 0, 2147483647) && ok(l - r, 0, 2147483647));
    (vd VSize, x.andvd() as i128 == { l & r }, ok(l, 0, 2147483647) && ok(r, 0, 2147483647) && ok(l & r, 0, 2147483647));
    (vd VSize, x.xorvd() as i128 == { l ^ r }, ok(l, 0, 2147483647) && ok(r, 0, 2147483647) && ok(l ^ r, 0, 2147483647));
    (vd VSize, x.ltvd() == (l < r), true);
    (vd VSize, x.gevd() == (l >= r), true);
    (vd VSize, x.eqvd() == (l == r), true);
    (vd VSize, x.selvd() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 2147483647) && ok(r, 0, 2147483647));
);
pairs!(
    h_c18_products_vb, matrix::Mvb, Few<i16>, x l r;
    (ua Few<u8>, x.mulua() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 32767) && ok(r, 0, 32767) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 32767));
    (ua Few<u8>, x.divua() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 32767) && ok(r, 0, 32767) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 32767));
    (ua Few<u8>, x.remua() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 32767) && ok(r, 0, 32767) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 32767));
    (ub Few<u16>, x.mulub() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 65535) && ok(r, 0, 65535) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 65535));
    (ub Few<u16>, x.divub() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 65535) && ok(r, 0, 65535) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 65535));
    (ub Few<u16>, x.remub() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 65535) && ok(r, 0, 65535) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 65535));
    (uc Few<u32>, x.muluc() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 4294967295));
    (uc Few<u32>, x.divuc() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 4294967295));
    (uc Few<u32>, x.remuc() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 4294967295));
    (ud Few<u64>, x.mulud() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 18446744073709551615));
    (ud Few<u64>, x.divud() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 18446744073709551615));
    (ud Few<u64>, x.remud() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 18446744073709551615));
    (ia Few<i8>, x.mulia() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, -16384, 16383) && ok(r, -16384, 16383) && ok((l as i32).wrapping_mul(r as i32) as i128, -16384, 16383));
    (ia Few<i8>, x.divia() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, -16384, 16383) && ok(r, -16384, 16383) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, -16384, 16383));
    (ia Few<i8>, x.remia() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, -16384, 16383) && ok(r, -16384, 16383) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, -16384, 16383));
    (ib Few<i16>, x.mulib() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, -32768, 32767) && ok(r, -32768, 32767) && ok((l as i32).wrapping_mul(r as i32) as i128, -32768, 32767));
    (ib Few<i16>, x.divib() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, -32768, 32767) && ok(r, -32768, 32767) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, -32768, 32767));
    (ib Few<i16>, x.remib() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, -32768, 32767) && ok(r, -32768, 32767) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, -32768, 32767));
    (ic Few<i32>, x.mulic() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, -2147483648, 2147483647) && ok(r, -2147483648, 2147483647) && ok((l as i32).wrapping_mul(r as i32) as i128, -2147483648, 2147483647));
    (ic Few<i32>, x.divic() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, -2147483648, 2147483647) && ok(r, -2147483648, 2147483647) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, -2147483648, 2147483647));
    (ic Few<i32>, x.remic() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, -2147483648, 2147483647) && ok(r, -2147483648, 2147483647) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, -2147483648, 2147483647));
    (id Few<i64>, x.mulid() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, -9223372036854775808, 9223372036854775807) && ok(r, -9223372036854775808, 9223372036854775807) && ok((l as i32).wrapping_mul(r as i32) as i128, -9223372036854775808, 9223372036854775807));
    (id Few<i64>, x.divid() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, -9223372036854775808, 9223372036854775807) && ok(r, -9223372036854775808, 9223372036854775807) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, -9223372036854775808, 9223372036854775807));
    (id Few<i64>, x.remid() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, -9223372036854775808, 9223372036854775807) && ok(r, -9223372036854775808, 9223372036854775807) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, -9223372036854775808, 9223372036854775807));
    (fa Few<u64>, x.mulfa() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 32767) && ok(r, 0, 32767) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 32767));
    (fa Few<u64>, x.divfa() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 32767) && ok(r, 0, 32767) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 32767));
    (fa Few<u64>, x.remfa() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 32767) && ok(r, 0, 32767) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 32767));
    (fb Few<u64>, x.mulfb() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 32767) && ok(r, 0, 32767) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 32767));
    (fb Few<u64>, x.divfb() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 32767) && ok(r, 0, 32767) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 32767));
    (fb Few<u64>, x.remfb() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 32767) && ok(r, 0, 32767) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 32767));
    (fc Few<u64>, x.mulfc() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 1099511627775) && ok(r, 0, 1099511627775) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 1099511627775));
    (fc Few<u64>, x.divfc() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 1099511627775) && ok(r, 0, 1099511627775) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 1099511627775));
    (fc Few<u64>, x.remfc() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 1099511627775) && ok(r, 0, 1099511627775) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 1099511627775));
    (ga Few<i64>, x.mulga() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, -16384, 16383) && ok(r, -16384, 16383) && ok((l as i32).wrapping_mul(r as i32) as i128, -16384, 16383));
    (ga Few<i64>, x.divga() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, -16384, 16383) && ok(r, -16384, 16383) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, -16384, 16383));
    (ga Few<i64>, x.remga() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, -16384, 16383) && ok(r, -16384, 16383) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, -16384, 16383));
    (va Few<u16>, x.mulva() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 32767) && ok(r, 0, 32767) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 32767));
    (va Few<u16>, x.divva() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 32767) && ok(r, 0, 32767) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 32767));
    (va Few<u16>, x.remva() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 32767) && ok(r, 0, 32767) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 32767));
    (vb Few<i16>, x.mulvb() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, -16384, 16383) && ok(r, -16384, 16383) && ok((l as i32).wrapping_mul(r as i32) as i128, -16384, 16383));
    (vb Few<i16>, x.divvb() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, -16384, 16383) && ok(r, -16384, 16383) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, -16384, 16383));
    (vb Few<i16>, x.remvb() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, -16384, 16383) && ok(r, -16384, 16383) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, -16384, 16383));
    (vc Few<u64>, x.mulvc() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 18446744073709551615));
    (vc Few<u64>, x.divvc() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 18446744073709551615));
    (vc Few<u64>, x.remvc() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 18446744073709551615));
    (vd Few<u32>, x.mulvd() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 2147483647) && ok(r, 0, 2147483647) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 2147483647));
    (vd Few<u32>, x.divvd() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 2147483647) && ok(r, 0, 2147483647) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 2147483647));
    (vd Few<u32>, x.remvd() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 2147483647) && ok(r, 0, 2147483647) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 2147483647));
);
pairs!(
    h_c18_pairs_vc, matrix::Mvc, VU, x l r;
    (ua U8, x.addua() as i128 == { l + r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l + r, 0, 18446744073709551615));
    (ua U8, x.subua() as i128 == { l - r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l - r, 0, 18446744073709551615));
    (ua U8, x.andua() as i128 == { l & r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l & r, 0, 18446744073709551615));
    (ua U8, x.xorua() as i128 == { l ^ r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l ^ r, 0, 18446744073709551615));
    (ua U8, x.ltua() == (l < r), true);
    (ua U8, x.geua() == (l >= r), true);
    (ua U8, x.equa() == (l == r), true);
    (ua U8, x.selua() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615));
    (ub U16, x.addub() as i128 == { l + r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l + r, 0, 18446744073709551615));
    (ub U16, x.subub() as i128 == { l - r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l - r, 0, 18446744073709551615));
    (ub U16, x.andub() as i128 == { l & r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l & r, 0, 18446744073709551615));
    (ub U16, x.xorub() as i128 == { l ^ r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l ^ r, 0, 18446744073709551615));
    (ub U16, x.ltub() == (l < r), true);
    (ub U16, x.geub() == (l >= r), true);
    (ub U16, x.equb() == (l == r), true);
    (ub U16, x.selub() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615));
    (uc U32, x.adduc() as i128 == { l + r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l + r, 0, 18446744073709551615));
    (uc U32, x.subuc() as i128 == { l - r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l - r, 0, 18446744073709551615));
    (uc U32, x.anduc() as i128 == { l & r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l & r, 0, 18446744073709551615));
    (uc U32, x.xoruc() as i128 == { l ^ r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l ^ r, 0, 18446744073709551615));
    (uc U32, x.ltuc() == (l < r), true);
    (uc U32, x.geuc() == (l >= r), true);
    (uc U32, x.equc() == (l == r), true);
    (uc U32, x.seluc() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615));
    (ud U64, x.addud() as i128 == { l + r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l + r, 0, 18446744073709551615));
    (ud U64, x.subud() as i128 == { l - r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l - r, 0, 18446744073709551615));
    (ud U64, x.andud() as i128 == { l & r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l & r, 0, 18446744073709551615));
    (ud U64, x.xorud() as i128 == { l ^ r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l ^ r, 0, 18446744073709551615));
    (ud U64, x.ltud() == (l < r), true);
    (ud U64, x.geud() == (l >= r), true);
    (ud U64, x.equd() == (l == r), true);
    (ud U64, x.selud() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615));
    (ia I8, x.addia() as i128 == { l + r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l + r, 0, 18446744073709551615));
    (ia I8, x.subia() as i128 == { l - r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l - r, 0, 18446744073709551615));
    (ia I8, x.andia() as i128 == { l & r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l & r, 0, 18446744073709551615));
    (ia I8, x.xoria() as i128 == { l ^ r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l ^ r, 0, 18446744073709551615));
    (ia I8, x.ltia() == (l < r), true);
    (ia I8, x.geia() == (l >= r), true);
    (ia I8, x.eqia() == (l == r), true);
    (ia I8, x.selia() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615));
    (ib I16, x.addib() as i128 == { l + r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l + r, 0, 18446744073709551615));
    (ib I16, x.subib() as i128 == { l - r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l - r, 0, 18446744073709551615));
    (ib I16, x.andib() as i128 == { l & r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l & r, 0, 18446744073709551615));
    (ib I16, x.xorib() as i128 == { l ^ r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l ^ r, 0, 18446744073709551615));
    (ib I16, x.ltib() == (l < r), true);
    (ib I16, x.geib() == (l >= r), true);
    (ib I16, x.eqib() == (l == r), true);
    (ib I16, x.selib() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615));
    (ic I32, x.addic() as i128 == { l + r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l + r, 0, 18446744073709551615));
    (ic I32, x.subic() as i128 == { l - r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l - r, 0, 18446744073709551615));
    (ic I32, x.andic() as i128 == { l & r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l & r, 0, 18446744073709551615));
    (ic I32, x.xoric() as i128 == { l ^ r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l ^ r, 0, 18446744073709551615));
    (ic I32, x.ltic() == (l < r), true);
    (ic I32, x.geic() == (l >= r), true);
    (ic I32, x.eqic() == (l == r), true);
    (ic I32, x.selic() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615));
    (id I64, x.addid() as i128 == { l + r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l + r, 0, 18446744073709551615));
    (id I64, x.subid() as i128 == { l - r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l - r, 0, 18446744073709551615));
    (id I64, x.andid() as i128 == { l & r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l & r, 0, 18446744073709551615));
    (id I64, x.xorid() as i128 == { l ^ r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l ^ r, 0, 18446744073709551615));
    (id I64, x.ltid() == (l < r), true);
    (id I64, x.geid() == (l >= r), true);
    (id I64, x.eqid() == (l == r), true);
    (id I64, x.selid() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615));
    (fa Bit<5>, x.addfa() as i128 == { l + r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l + r, 0, 18446744073709551615));
    (fa Bit<5>, x.subfa() as i128 == { l - r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l - r, 0, 18446744073709551615));
    (fa Bit<5>, x.andfa() as i128 == { l & r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l & r, 0, 18446744073709551615));
    (fa Bit<5>, x.xorfa() as i128 == { l ^ r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l ^ r, 0, 18446744073709551615));
    (fa Bit<5>, x.ltfa() == (l < r), true);
    (fa Bit<5>, x.gefa() == (l >= r), true);
    (fa Bit<5>, x.eqfa() == (l == r), true);
    (fa Bit<5>, x.selfa() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615));
    (fb Bit<12>, x.addfb() as i128 == { l + r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l + r, 0, 18446744073709551615));
    (fb Bit<12>, x.subfb() as i128 == { l - r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l - r, 0, 18446744073709551615));
    (fb Bit<12>, x.andfb() as i128 == { l & r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l & r, 0, 18446744073709551615));
    (fb Bit<12>, x.xorfb() as i128 == { l ^ r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l ^ r, 0, 18446744073709551615));
    (fb Bit<12>, x.ltfb() == (l < r), true);
    (fb Bit<12>, x.gefb() == (l >= r), true);
    (fb Bit<12>, x.eqfb() == (l == r), true);
    (fb Bit<12>, x.selfb() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615));
    (fc Bit<40>, x.addfc() as i128 == { l + r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l + r, 0, 18446744073709551615));
    (fc Bit<40>, x.subfc() as i128 == { l - r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l - r, 0, 18446744073709551615));
    (fc Bit<40>, x.andfc() as i128 == { l & r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l & r, 0, 18446744073709551615));
    (fc Bit<40>, x.xorfc() as i128 == { l ^ r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l ^ r, 0, 18446744073709551615));
    (fc Bit<40>, x.ltfc() == (l < r), true);
    (fc Bit<40>, x.gefc() == (l >= r), true);
    (fc Bit<40>, x.eqfc() == (l == r), true);
    (fc Bit<40>, x.selfc() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615));
    (ga Int<5>, x.addga() as i128 == { l + r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l + r, 0, 18446744073709551615));
    (ga Int<5>, x.subga() as i128 == { l - r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l - r, 0, 18446744073709551615));
    (ga Int<5>, x.andga() as i128 == { l & r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l & r, 0, 18446744073709551615));
    (ga Int<5>, x.xorga() as i128 == { l ^ r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l ^ r, 0, 18446744073709551615));
    (ga Int<5>, x.ltga() == (l < r), true);
    (ga Int<5>, x.gega() == (l >= r), true);
    (ga Int<5>, x.eqga() == (l == r), true);
    (ga Int<5>, x.selga() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615));
    (va VU16, x.addva() as i128 == { l + r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l + r, 0, 18446744073709551615));
    (va VU16, x.subva() as i128 == { l - r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l - r, 0, 18446744073709551615));
    (va VU16, x.andva() as i128 == { l & r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l & r, 0, 18446744073709551615));
    (va VU16, x.xorva() as i128 == { l ^ r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l ^ r, 0, 18446744073709551615));
    (va VU16, x.ltva() == (l < r), true);
    (va VU16, x.geva() == (l >= r), true);
    (va VU16, x.eqva() == (l == r), true);
    (va VU16, x.selva() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615));
    (vb VI16, x.addvb() as i128 == { l + r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l + r, 0, 18446744073709551615));
    (vb VI16, x.subvb() as i128 == { l - r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l - r, 0, 18446744073709551615));
    (vb VI16, x.andvb() as i128 == { l & r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l & r, 0, 18446744073709551615));
    (vb VI16, x.xorvb() as i128 == { l ^ r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l ^ r, 0, 18446744073709551615));
    (vb VI16, x.ltvb() == (l < r), true);
    (vb VI16, x.gevb() == (l >= r), true);
    (vb VI16, x.eqvb() == (l == r), true);
    (vb VI16, x.selvb() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615));
    (vc VU, x.addvc() as i128 == { l + r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l + r, 0, 18446744073709551615));
    (vc VU, x.subvc() as i128 == { l - r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l - r, 0, 18446744073709551615));
    (vc VU, x.andvc() as i128 == { l & r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l & r, 0, 18446744073709551615));
    (vc VU, x.xorvc() as i128 == { l ^ r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l ^ r, 0, 18446744073709551615));
    (vc VU, x.ltvc() == (l < r), true);
    (vc VU, x.gevc() == (l >= r), true);
    (vc VU, x.eqvc() == (l == r), true);
    (vc VU, x.selvc() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615));
    (vd VSize, x.addvd() as i128 == { l + r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l + r, 0, 18446744073709551615));
    (vd VSize, x.subvd() as i128 == { l - r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l - r, 0, 18446744073709551615));
    (vd VSize, x.andvd() as i128 == { l & r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l & r, 0, 18446744073709551615));
    (vd VSize, x.xorvd() as i128 == { l ^ r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l ^ r, 0, 18446744073709551615));
    (vd VSize, x.ltvd() == (l < r), true);
    (vd VSize, x.gevd() == (l >= r), true);
    (vd VSize, x.eqvd() == (l == r), true);
    (vd VSize, x.selvd() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615));
);
pairs!(
    h_c18_products_vc, matrix::Mvc, Few<u64>, x l r;
    (ua Few<u8>, x.mulua() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 18446744073709551615));
    (ua Few<u8>, x.divua() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 18446744073709551615));
    (ua Few<u8>, x.remua() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 18446744073709551615));
    (ub Few<u16>, x.mulub() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 18446744073709551615));
    (ub Few<u16>, x.divub() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 18446744073709551615));
    (ub Few<u16>, x.remub() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 18446744073709551615));
    (uc Few<u32>, x.muluc() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 18446744073709551615));
    (uc Few<u32>, x.divuc() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 18446744073709551615));
    (uc Few<u32>, x.remuc() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 18446744073709551615));
    (ud Few<u64>, x.mulud() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 18446744073709551615));
    (ud Few<u64>, x.divud() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 18446744073709551615));
    (ud Few<u64>, x.remud() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 18446744073709551615));
    (ia Few<i8>, x.mulia() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 18446744073709551615));
    (ia Few<i8>, x.divia() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 18446744073709551615));
    (ia Few<i8>, x.remia() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 18446744073709551615));
    (ib Few<i16>, x.mulib() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 18446744073709551615));
    (ib Few<i16>, x.divib() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 18446744073709551615));
    (ib Few<i16>, x.remib() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 18446744073709551615));
    (ic Few<i32>, x.mulic() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 18446744073709551615));
    (ic Few<i32>, x.divic() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 18446744073709551615));
    (ic Few<i32>, x.remic() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 18446744073709551615));
    (id Few<i64>, x.mulid() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 18446744073709551615));
    (id Few<i64>, x.divid() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 18446744073709551615));
    (id Few<i64>, x.remid() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 18446744073709551615));
    (fa Few<u64>, x.mulfa() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 18446744073709551615));
    (fa Few<u64>, x.divfa() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 18446744073709551615));
    (fa Few<u64>, x.remfa() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 18446744073709551615));
    (fb Few<u64>, x.mulfb() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 18446744073709551615));
    (fb Few<u64>, x.divfb() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 18446744073709551615));
    (fb Few<u64>, x.remfb() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 18446744073709551615));
    (fc Few<u64>, x.mulfc() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 18446744073709551615));
    (fc Few<u64>, x.divfc() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 18446744073709551615));
    (fc Few<u64>, x.remfc() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 18446744073709551615));
    (ga Few<i64>, x.mulga() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 18446744073709551615));
    (ga Few<i64>, x.divga() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 18446744073709551615));
    (ga Few<i64>, x.remga() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 18446744073709551615));
    (va Few<u16>, x.mulva() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 18446744073709551615));
    (va Few<u16>, x.divva() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 18446744073709551615));
    (va Few<u16>, x.remva() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 18446744073709551615));
    (vb Few<i16>, x.mulvb() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 18446744073709551615));
    (vb Few<i16>, x.divvb() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 18446744073709551615));
    (vb Few<i16>, x.remvb() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 18446744073709551615));
    (vc Few<u64>, x.mulvc() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 18446744073709551615));
    (vc Few<u64>, x.divvc() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 18446744073709551615));
    (vc Few<u64>, x.remvc() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 18446744073709551615));
    (vd Few<u32>, x.mulvd() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 18446744073709551615));
    (vd Few<u32>, x.divvd() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 18446744073709551615));
    (vd Few<u32>, x.remvd() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 18446744073709551615));
);
pairs!(
    h_c18_pairs_vd, matrix::Mvd, VSize, x l r;
    (ua U8, x.addua() as i128 == { l + r }, ok(l, 0, 2147483647) && ok(r, 0, 2147483647) && ok(l + r, 0, 2147483647));
    (ua U8, x.subua() as i128 == { l - r }, ok(l, 0, 2147483647) && ok(r, 0, 2147483647) && ok(l - r, 0, 2147483647));
    (ua U8, x.andua() as i128 == { l & r }, ok(l, 0, 2147483647) && ok(r, 0, 2147483647) && ok(l & r, 0, 2147483647));
    (ua U8, x.xorua() as i128 == { l ^ r }, ok(l, 0, 2147483647) && ok(r, 0, 2147483647) && ok(l ^ r, 0, 2147483647));
    (ua U8, x.ltua() == (l < r), true);
    (ua U8, x.geua() == (l >= r), true);
    (ua U8, x.equa() == (l == r), true);
    (ua U8, x.selua() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 2147483647) && ok(r, 0, 2147483647));
    (ub U16, x.addub() as i128 == { l + r }, ok(l, 0, 2147483647) && ok(r, 0, 2147483647) && ok(l + r, 0, 2147483647));
    (ub U16, x.subub() as i128 == { l - r }, ok(l, 0, 2147483647) && ok(r, 0, 2147483647) && ok(l - r, 0, 2147483647));
    (ub U16, x.andub() as i128 == { l & r }, ok(l, 0, 2147483647) && ok(r, 0, 2147483647) && ok(l & r, 0, 2147483647));
    (ub U16, x.xorub() as i128 == { l ^ r }, ok(l, 0, 2147483647) && ok(r, 0, 2147483647) && ok(l ^ r, 0, 2147483647));
    (ub U16, x.ltub() == (l < r), true);
    (ub U16, x.geub() == (l >= r), true);
    (ub U16, x.equb() == (l == r), true);
    (ub U16, x.selub() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 2147483647) && ok(r, 0, 2147483647));
    (uc U32, x.adduc() as i128 == { l + r }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && ok(l + r, 0, 4294967295));
    (uc U32, x.subuc() as i128 == { l - r }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && ok(l - r, 0, 4294967295));
    (uc U32, x.anduc() as i128 == { l & r }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && ok(l & r, 0, 4294967295));
    (uc U32, x.xoruc() as i128 == { l ^ r }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && ok(l ^ r, 0, 4294967295));
    (uc U32, x.ltuc() == (l < r), true);
    (uc U32, x.geuc() == (l >= r), true);
    (uc U32, x.equc() == (l == r), true);
    (uc U32, x.seluc() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295));
    (ud U64, x.addud() as i128 == { l + r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l + r, 0, 18446744073709551615));
    (ud U64, x.subud() as i128 == { l - r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l - r, 0, 18446744073709551615));
    (ud U64, x.andud() as i128 == { l & r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l & r, 0, 18446744073709551615));
    (ud U64, x.xorud() as i128 == { l ^ r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l ^ r, 0, 18446744073709551615));
    (ud U64, x.ltud() == (l < r), true);
    (ud U64, x.geud() == (l >= r), true);
    (ud U64, x.equd() == (l == r), true);
    (ud U64, x.selud() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615));
    (ia I8, x.addia() as i128 == { l + r }, ok(l, 0, 2147483647) && ok(r, 0, 2147483647) && ok(l + r, 0, 2147483647));
    (ia I8, x.subia() as i128 == { l - r }, ok(l, 0, 2147483647) && ok(r, 0, 2147483647) && ok(l - r, 0, 2147483647));
    (ia I8, x.andia() as i128 == { l & r }, ok(l, 0, 2147483647) && ok(r, 0, 2147483647) && ok(l & r, 0, 2147483647));
    (ia I8, x.xoria() as i128 == { l ^ r }, ok(l, 0, 2147483647) && ok(r, 0, 2147483647) && ok(l ^ r, 0, 2147483647));
    (ia I8, x.ltia() == (l < r), true);
    (ia I8, x.geia() == (l >= r), true);
    (ia I8, x.eqia() == (l == r), true);
    (ia I8, x.selia() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 2147483647) && ok(r, 0, 2147483647));
    (ib I16, x.addib() as i128 == { l + r }, ok(l, 0, 2147483647) && ok(r, 0, 2147483647) && ok(l + r, 0, 2147483647));
    (ib I16, x.subib() as i128 == { l - r }, ok(l, 0, 2147483647) && ok(r, 0, 2147483647) && ok(l - r, 0, 2147483647));
    (ib I16, x.andib() as i128 == { l & r }, ok(l, 0, 2147483647) && ok(r, 0, 2147483647) && ok(l & r, 0, 2147483647));
    (ib I16, x.xorib() as i128 == { l ^ r }, ok(l, 0, 2147483647) && ok(r, 0, 2147483647) && ok(l ^ r, 0, 2147483647));
    (ib I16, x.ltib() == (l < r), true);
    (ib I16, x.geib() == (l >= r), true);
    (ib I16, x.eqib() == (l == r), true);
    (ib I16, x.selib() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 2147483647) && ok(r, 0, 2147483647));
    (ic I32, x.addic() as i128 == { l + r }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && ok(l + r, 0, 4294967295));
    (ic I32, x.subic() as i128 == { l - r }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && ok(l - r, 0, 4294967295));
    (ic I32, x.andic() as i128 == { l & r }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && ok(l & r, 0, 4294967295));
    (ic I32, x.xoric() as i128 == { l ^ r }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && ok(l ^ r, 0, 4294967295));
    (ic I32, x.ltic() == (l < r), true);
    (ic I32, x.geic() == (l >= r), true);
    (ic I32, x.eqic() == (l == r), true);
    (ic I32, x.selic() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295));
    (id I64, x.addid() as i128 == { l + r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l + r, 0, 18446744073709551615));
    (id I64, x.subid() as i128 == { l - r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l - r, 0, 18446744073709551615));
    (id I64, x.andid() as i128 == { l & r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l & r, 0, 18446744073709551615));
    (id I64, x.xorid() as i128 == { l ^ r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l ^ r, 0, 18446744073709551615));
    (id I64, x.ltid() == (l < r), true);
    (id I64, x.geid() == (l >= r), true);
    (id I64, x.eqid() == (l == r), true);
    (id I64, x.selid() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615));
    (fa Bit<5>, x.addfa() as i128 == { l + r }, ok(l, 0, 2147483647) && ok(r, 0, 2147483647) && ok(l + r, 0, 2147483647));
    (fa Bit<5>, x.subfa() as i128 == { l - r }, ok(l, 0, 2147483647) && ok(r, 0, 2147483647) && ok(l - r, 0, 2147483647));
    (fa Bit<5>, x.andfa() as i128 == { l & r }, ok(l, 0, 2147483647) && ok(r, 0, 2147483647) && ok(l & r, 0, 2147483647));
    (fa Bit<5>, x.xorfa() as i128 == { l ^ r }, ok(l, 0, 2147483647) && ok(r, 0, 2147483647) && ok(l ^ r, 0, 2147483647));
    (fa Bit<5>, x.ltfa() == (l < r), true);
    (fa Bit<5>, x.gefa() == (l >= r), true);
    (fa Bit<5>, x.eqfa() == (l == r), true);
    (fa Bit<5>, x.selfa() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 2147483647) && ok(r, 0, 2147483647));
    (fb Bit<12>, x.addfb() as i128 == { l + r }, ok(l, 0, 2147483647) && ok(r, 0, 2147483647) && ok(l + r, 0, 2147483647));
    (fb Bit<12>, x.subfb() as i128 == { l - r }, ok(l, 0, 2147483647) && ok(r, 0, 2147483647) && ok(l - r, 0, 2147483647));
    (fb Bit<12>, x.andfb() as i128 == { l & r }, ok(l, 0, 2147483647) && ok(r, 0, 2147483647) && ok(l & r, 0, 2147483647));
    (fb Bit<12>, x.xorfb() as i128 == { l ^ r }, ok(l, 0, 2147483647) && ok(r, 0, 2147483647) && ok(l ^ r, 0, 2147483647));
    (fb Bit<12>, x.ltfb() == (l < r), true);
    (fb Bit<12>, x.gefb() == (l >= r), true);
    (fb Bit<12>, x.eqfb() == (l == r), true);
    (fb Bit<12>, x.selfb() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 2147483647) && ok(r, 0, 2147483647));
    (fc Bit<40>, x.addfc() as i128 == { l + r }, ok(l, 0, 1099511627775) && ok(r, 0, 1099511627775) && ok(l + r, 0, 1099511627775));
    (fc Bit<40>, x.subfc() as i128 == { l - r }, ok(l, 0, 1099511627775) && ok(r, 0, 1099511627775) && ok(l - r, 0, 1099511627775));
    (fc Bit<40>, x.andfc() as i128 == { l & r }, ok(l, 0, 1099511627775) && ok(r, 0, 1099511627775) && ok(l & r, 0, 1099511627775));
    (fc Bit<40>, x.xorfc() as i128 == { l ^ r }, ok(l, 0, 1099511627775) && ok(r, 0, 1099511627775) && ok(l ^ r, 0, 1099511627775));
    (fc Bit<40>, x.ltfc() == (l < r), true);
    (fc Bit<40>, x.gefc() == (l >= r), true);
    (fc Bit<40>, x.eqfc() == (l == r), true);
    (fc Bit<40>, x.selfc() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 1099511627775) && ok(r, 0, 1099511627775));
    (ga Int<5>, x.addga() as i128 == { l + r }, ok(l, 0, 2147483647) && ok(r, 0, 2147483647) && ok(l + r, 0, 2147483647));
    (ga Int<5>, x.subga() as i128 == { l - r }, ok(l, 0, 2147483647) && ok(r, 0, 2147483647) && ok(l - r, 0, 2147483647));
    (ga Int<5>, x.andga() as i128 == { l & r }, ok(l, 0, 2147483647) && ok(r, 0, 2147483647) && ok(l & r, 0, 2147483647));
    (ga Int<5>, x.xorga() as i128 == { l ^ r }, ok(l, 0, 2147483647) && ok(r, 0, 2147483647) && ok(l ^ r, 0, 2147483647));
    (ga Int<5>, x.ltga() == (l < r), true);
    (ga Int<5>, x.gega() == (l >= r), true);
    (ga Int<5>, x.eqga() == (l == r), true);
    (ga Int<5>, x.selga() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 2147483647) && ok(r, 0, 2147483647));
    (va VU16, x.addva() as i128 == { l + r }, ok(l, 0, 2147483647) && ok(r, 0, 2147483647) && ok(l + r, 0, 2147483647));
    (va VU16, x.subva() as i128 == { l - r }, ok(l, 0, 2147483647) && ok(r, 0, 2147483647) && ok(l - r, 0, 2147483647));
    (va VU16, x.andva() as i128 == { l & r }, ok(l, 0, 2147483647) && ok(r, 0, 2147483647) && ok(l & r, 0, 2147483647));
    (va VU16, x.xorva() as i128 == { l ^ r }, ok(l, 0, 2147483647) && ok(r, 0, 2147483647) && ok(l ^ r, 0, 2147483647));
    (va VU16, x.ltva() == (l < r), true);
    (va VU16, x.geva() == (l >= r), true);
    (va VU16, x.eqva() == (l == r), true);
    (va VU16, x.selva() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 2147483647) && ok(r, 0, 2147483647));
    (vb VI16, x.addvb() as i128 == { l + r }, ok(l, 0, 2147483647) && ok(r, 0, 2147483647) && ok(l + r, 0, 2147483647));
    (vb VI16, x.subvb() as i128 == { l - r }, ok(l, 0, 2147483647) && ok(r, 0, 2147483647) && ok(l - r, 0, 2147483647));
    (vb VI16, x.andvb() as i128 == { l & r }, ok(l, 0, 2147483647) && ok(r, 0, 2147483647) && ok(l & r, 0, 2147483647));
    (vb VI16, x.xorvb() as i128 == { l ^ r }, ok(l, 0, 2147483647) && ok(r, 0, 2147483647) && ok(l ^ r, 0, 2147483647));
    (vb VI16, x.ltvb() == (l < r), true);
    (vb VI16, x.gevb() == (l >= r), true);
    (vb VI16, x.eqvb() == (l == r), true);
    (vb VI16, x.selvb() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 2147483647) && ok(r, 0, 2147483647));
    (vc VU, x.addvc() as i128 == { l + r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l + r, 0, 18446744073709551615));
    (vc VU, x.subvc() as i128 == { l - r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l - r, 0, 18446744073709551615));
    (vc VU, x.andvc() as i128 == { l & r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l & r, 0, 18446744073709551615));
    (vc VU, x.xorvc() as i128 == { l ^ r }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok(l ^ r, 0, 18446744073709551615));
    (vc VU, x.ltvc() == (l < r), true);
    (vc VU, x.gevc() == (l >= r), true);
    (vc VU, x.eqvc() == (l == r), true);
    (vc VU, x.selvc() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615));
    (vd VSize, x.addvd() as i128 == { l + r }, ok(l, 0, 2147483647) && ok(r, 0, 2147483647) && ok(l + r, 0, 2147483647));
    (vd VSize, x.subvd() as i128 == { l - r }, ok(l, 0, 2147483647) && ok(r, 0, 2147483647) && ok(l - r, 0, 2147483647));
    (vd VSize, x.andvd() as i128 == { l & r }, ok(l, 0, 2147483647) && ok(r, 0, 2147483647) && ok(l & r, 0, 2147483647));
    (vd VSize, x.xorvd() as i128 == { l ^ r }, ok(l, 0, 2147483647) && ok(r, 0, 2147483647) && ok(l ^ r, 0, 2147483647));
    (vd VSize, x.ltvd() == (l < r), true);
    (vd VSize, x.gevd() == (l >= r), true);
    (vd VSize, x.eqvd() == (l == r), true);
    (vd VSize, x.selvd() as i128 == { if l > 3 { l } else { r } }, ok(l, 0, 2147483647) && ok(r, 0, 2147483647));
);
pairs!(
    h_c18_products_vd, matrix::Mvd, Few<u32>, x l r;
    (ua Few<u8>, x.mulua() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 2147483647) && ok(r, 0, 2147483647) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 2147483647));
    (ua Few<u8>, x.divua() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 2147483647) && ok(r, 0, 2147483647) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 2147483647));
    (ua Few<u8>, x.remua() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 2147483647) && ok(r, 0, 2147483647) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 2147483647));
    (ub Few<u16>, x.mulub() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 2147483647) && ok(r, 0, 2147483647) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 2147483647));
    (ub Few<u16>, x.divub() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 2147483647) && ok(r, 0, 2147483647) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 2147483647));
    (ub Few<u16>, x.remub() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 2147483647) && ok(r, 0, 2147483647) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 2147483647));
    (uc Few<u32>, x.muluc() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 4294967295));
    (uc Few<u32>, x.divuc() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 4294967295));
    (uc Few<u32>, x.remuc() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 4294967295));
    (ud Few<u64>, x.mulud() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 18446744073709551615));
    (ud Few<u64>, x.divud() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 18446744073709551615));
    (ud Few<u64>, x.remud() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 18446744073709551615));
    (ia Few<i8>, x.mulia() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 2147483647) && ok(r, 0, 2147483647) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 2147483647));
    (ia Few<i8>, x.divia() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 2147483647) && ok(r, 0, 2147483647) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 2147483647));
    (ia Few<i8>, x.remia() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 2147483647) && ok(r, 0, 2147483647) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 2147483647));
    (ib Few<i16>, x.mulib() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 2147483647) && ok(r, 0, 2147483647) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 2147483647));
    (ib Few<i16>, x.divib() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 2147483647) && ok(r, 0, 2147483647) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 2147483647));
    (ib Few<i16>, x.remib() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 2147483647) && ok(r, 0, 2147483647) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 2147483647));
    (ic Few<i32>, x.mulic() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 4294967295));
    (ic Few<i32>, x.divic() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 4294967295));
    (ic Few<i32>, x.remic() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 4294967295) && ok(r, 0, 4294967295) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 4294967295));
    (id Few<i64>, x.mulid() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 18446744073709551615));
    (id Few<i64>, x.divid() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 18446744073709551615));
    (id Few<i64>, x.remid() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 18446744073709551615));
    (fa Few<u64>, x.mulfa() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 2147483647) && ok(r, 0, 2147483647) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 2147483647));
    (fa Few<u64>, x.divfa() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 2147483647) && ok(r, 0, 2147483647) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 2147483647));
    (fa Few<u64>, x.remfa() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 2147483647) && ok(r, 0, 2147483647) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 2147483647));
    (fb Few<u64>, x.mulfb() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 2147483647) && ok(r, 0, 2147483647) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 2147483647));
    (fb Few<u64>, x.divfb() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 2147483647) && ok(r, 0, 2147483647) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 2147483647));
    (fb Few<u64>, x.remfb() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 2147483647) && ok(r, 0, 2147483647) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 2147483647));
    (fc Few<u64>, x.mulfc() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 1099511627775) && ok(r, 0, 1099511627775) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 1099511627775));
    (fc Few<u64>, x.divfc() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 1099511627775) && ok(r, 0, 1099511627775) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 1099511627775));
    (fc Few<u64>, x.remfc() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 1099511627775) && ok(r, 0, 1099511627775) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 1099511627775));
    (ga Few<i64>, x.mulga() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 2147483647) && ok(r, 0, 2147483647) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 2147483647));
    (ga Few<i64>, x.divga() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 2147483647) && ok(r, 0, 2147483647) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 2147483647));
    (ga Few<i64>, x.remga() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 2147483647) && ok(r, 0, 2147483647) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 2147483647));
    (va Few<u16>, x.mulva() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 2147483647) && ok(r, 0, 2147483647) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 2147483647));
    (va Few<u16>, x.divva() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 2147483647) && ok(r, 0, 2147483647) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 2147483647));
    (va Few<u16>, x.remva() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 2147483647) && ok(r, 0, 2147483647) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 2147483647));
    (vb Few<i16>, x.mulvb() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 2147483647) && ok(r, 0, 2147483647) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 2147483647));
    (vb Few<i16>, x.divvb() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 2147483647) && ok(r, 0, 2147483647) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 2147483647));
    (vb Few<i16>, x.remvb() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 2147483647) && ok(r, 0, 2147483647) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 2147483647));
    (vc Few<u64>, x.mulvc() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 18446744073709551615));
    (vc Few<u64>, x.divvc() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 18446744073709551615));
    (vc Few<u64>, x.remvc() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 18446744073709551615) && ok(r, 0, 18446744073709551615) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 18446744073709551615));
    (vd Few<u32>, x.mulvd() as i128 == { (l as i32).wrapping_mul(r as i32) as i128 }, ok(l, 0, 2147483647) && ok(r, 0, 2147483647) && ok((l as i32).wrapping_mul(r as i32) as i128, 0, 2147483647));
    (vd Few<u32>, x.divvd() as i128 == { (l as i32).wrapping_div(r as i32) as i128 }, ok(l, 0, 2147483647) && ok(r, 0, 2147483647) && r != 0 && ok((l as i32).wrapping_div(r as i32) as i128, 0, 2147483647));
    (vd Few<u32>, x.remvd() as i128 == { (l as i32).wrapping_rem(r as i32) as i128 }, ok(l, 0, 2147483647) && ok(r, 0, 2147483647) && r != 0 && ok((l as i32).wrapping_rem(r as i32) as i128, 0, 2147483647));
);

harnesses!(h_c18_pairs_ua, h_c18_products_ua, h_c18_pairs_ub, h_c18_products_ub, h_c18_pairs_uc, h_c18_products_uc, h_c18_pairs_ud, h_c18_products_ud, h_c18_pairs_ia, h_c18_products_ia, h_c18_pairs_ib, h_c18_products_ib, h_c18_pairs_ic, h_c18_products_ic, h_c18_pairs_id, h_c18_products_id, h_c18_pairs_fa, h_c18_products_fa, h_c18_pairs_fb, h_c18_products_fb, h_c18_pairs_fc, h_c18_products_fc, h_c18_pairs_ga, h_c18_products_ga, h_c18_pairs_va, h_c18_products_va, h_c18_pairs_vb, h_c18_products_vb, h_c18_pairs_vc, h_c18_products_vc, h_c18_pairs_vd, h_c18_products_vd);
