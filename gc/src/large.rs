//! Types beyond the sizes that ordinary schemas have (made by tools/mk_large.py).
use crate::models::*;
use crate::types::*;
use crate::{deep_model, enum_model, mask_model, model, cond_model};
use gcmodel::*;
use sup::*;

union_model!(large::Tags, large::TagsSelector { 0 Qaa qaa: Bool, 1 Qab qab: U8, 2 Qac qac: I16, 3 Qad qad: Bit<5>, 4 Qae qae: VU16, 5 Qaf qaf: Str, 6 Qag qag: Point, 7 Qah qah: Kind, 8 Qai qai: Int<11>, 9 Qaj qaj: U64, 10 Qak qak: Bool, 11 Qal qal: U8, 12 Qam qam: I16, 13 Qan qan: Bit<5>, 14 Qao qao: VU16, 15 Qap qap: Str, 16 Qaq qaq: Point, 17 Qar qar: Kind, 18 Qas qas: Int<11>, 19 Qat qat: U64, 20 Qau qau: Bool, 21 Qav qav: U8, 22 Qaw qaw: I16, 23 Qax qax: Bit<5>, 24 Qay qay: VU16, 25 Qaz qaz: Str, 26 Qba qba: Point, 27 Qbb qbb: Kind, 28 Qbc qbc: Int<11>, 29 Qbd qbd: U64, 30 Qbe qbe: Bool, 31 Qbf qbf: U8, 32 Qbg qbg: I16, 33 Qbh qbh: Bit<5>, 34 Qbi qbi: VU16, 35 Qbj qbj: Str, 36 Qbk qbk: Point, 37 Qbl qbl: Kind, 38 Qbm qbm: Int<11>, 39 Qbn qbn: U64, 40 Qbo qbo: Bool, 41 Qbp qbp: U8, 42 Qbq qbq: I16, 43 Qbr qbr: Bit<5>, 44 Qbs qbs: VU16, 45 Qbt qbt: Str, 46 Qbu qbu: Point, 47 Qbv qbv: Kind, 48 Qbw qbw: Int<11>, 49 Qbx qbx: U64, 50 Qby qby: Bool, 51 Qbz qbz: U8, 52 Qca qca: I16, 53 Qcb qcb: Bit<5>, 54 Qcc qcc: VU16, 55 Qcd qcd: Str, 56 Qce qce: Point, 57 Qcf qcf: Kind, 58 Qcg qcg: Int<11>, 59 Qch qch: U64, 60 Qci qci: Bool, 61 Qcj qcj: U8, 62 Qck qck: I16, 63 Qcl qcl: Bit<5>, 64 Qcm qcm: VU16, 65 Qcn qcn: Str, 66 Qco qco: Point, 67 Qcp qcp: Kind, 68 Qcq qcq: Int<11>, 69 Qcr qcr: U64, 70 Qcs qcs: Bool, 71 Qct qct: U8, 72 Qcu qcu: I16, 73 Qcv qcv: Bit<5>, 74 Qcw qcw: VU16, 75 Qcx qcx: Str, 76 Qcy qcy: Point, 77 Qcz qcz: Kind, 78 Qda qda: Int<11>, 79 Qdb qdb: U64, 80 Qdc qdc: Bool, 81 Qdd qdd: U8, 82 Qde qde: I16, 83 Qdf qdf: Bit<5>, 84 Qdg qdg: VU16, 85 Qdh qdh: Str, 86 Qdi qdi: Point, 87 Qdj qdj: Kind, 88 Qdk qdk: Int<11>, 89 Qdl qdl: U64, 90 Qdm qdm: Bool, 91 Qdn qdn: U8, 92 Qdo qdo: I16, 93 Qdp qdp: Bit<5>, 94 Qdq qdq: VU16, 95 Qdr qdr: Str, 96 Qds qds: Point, 97 Qdt qdt: Kind, 98 Qdu qdu: Int<11>, 99 Qdv qdv: U64, 100 Qdw qdw: Bool, 101 Qdx qdx: U8, 102 Qdy qdy: I16, 103 Qdz qdz: Bit<5>, 104 Qea qea: VU16, 105 Qeb qeb: Str, 106 Qec qec: Point, 107 Qed qed: Kind, 108 Qee qee: Int<11>, 109 Qef qef: U64, 110 Qeg qeg: Bool, 111 Qeh qeh: U8, 112 Qei qei: I16, 113 Qej qej: Bit<5>, 114 Qek qek: VU16, 115 Qel qel: Str, 116 Qem qem: Point, 117 Qen qen: Kind, 118 Qeo qeo: Int<11>, 119 Qep qep: U64, 120 Qeq qeq: Bool, 121 Qer qer: U8, 122 Qes qes: I16, 123 Qet qet: Bit<5>, 124 Qeu qeu: VU16, 125 Qev qev: Str, 126 Qew qew: Point, 127 Qex qex: Kind, 128 Qey qey: Int<11>, 129 Qez qez: U64, 130 Qfa qfa: Bool, 131 Qfb qfb: U8, 132 Qfc qfc: I16, 133 Qfd qfd: Bit<5>, 134 Qfe qfe: VU16, 135 Qff qff: Str, 136 Qfg qfg: Point, 137 Qfh qfh: Kind, 138 Qfi qfi: Int<11>, 139 Qfj qfj: U64 });
model!(large::Fields { qaa: Bool, qab: U8, qac: I16, qad: Bit<5>, qae: Vu1, qaf: Str, qag: Point, qah: Kind, qai: Low, qaj: U64, qak: Yes, qal: U8, qam: Less, qan: Bit<5>, qao: Vu1, qap: Text, qaq: At, qar: One, qas: Low, qat: U64, qau: Yes, qav: U8, qaw: Less, qax: Bit<5>, qay: Vu1, qaz: Text, qba: At, qbb: One, qbc: Low, qbd: U64, qbe: Yes, qbf: U8, qbg: Less, qbh: Bit<5>, qbi: Vu1, qbj: Text, qbk: At, qbl: One, qbm: Low, qbn: U64, qbo: Yes, qbp: U8, qbq: Less, qbr: Bit<5>, qbs: Vu1, qbt: Text, qbu: At, qbv: One, qbw: Low, qbx: U64, qby: Yes, qbz: U8, qca: Less, qcb: Bit<5>, qcc: Vu1, qcd: Text, qce: At, qcf: One, qcg: Low, qch: U64, qci: Yes, qcj: U8, qck: Less, qcl: Bit<5>, qcm: Vu1, qcn: Text, qco: At, qcp: One, qcq: Low, qcr: U64, qcs: Yes, qct: U8, qcu: Less, qcv: Bit<5>, qcw: Vu1, qcx: Text, qcy: At, qcz: One, qda: Low, qdb: U64, qdc: Yes, qdd: U8, qde: Less, qdf: Bit<5>, qdg: Vu1, qdh: Text, qdi: At, qdj: One, qdk: Low, qdl: U64 });
cond_model!(large::Cases [sel: U16] { qaa: Bool => |s| s.sel == 0 || s.sel == 40, qab: U8 => |s| s.sel == 1 || s.sel == 43, qac: I16 => |s| s.sel == 2 || s.sel == 46, qad: Bit<5> => |s| s.sel == 3 || s.sel == 49, qae: VU16 => |s| s.sel == 4 || s.sel == 52, qaf: Str => |s| s.sel == 5 || s.sel == 55, qag: Point => |s| s.sel == 6 || s.sel == 58, qah: Kind => |s| s.sel == 7 || s.sel == 61, qai: Int<11> => |s| s.sel == 8 || s.sel == 64, qaj: U64 => |s| s.sel == 9 || s.sel == 67, qak: Bool => |s| s.sel == 10 || s.sel == 70, qal: U8 => |s| s.sel == 11 || s.sel == 73, qam: I16 => |s| s.sel == 12 || s.sel == 76, qan: Bit<5> => |s| s.sel == 13 || s.sel == 79, qao: VU16 => |s| s.sel == 14 || s.sel == 82, qap: Str => |s| s.sel == 15 || s.sel == 85, qaq: Point => |s| s.sel == 16 || s.sel == 88, qar: Kind => |s| s.sel == 17 || s.sel == 91, qas: Int<11> => |s| s.sel == 18 || s.sel == 94, qat: U64 => |s| s.sel == 19 || s.sel == 97, qau: Bool => |s| s.sel == 20 || s.sel == 100, qav: U8 => |s| s.sel == 21 || s.sel == 103, qaw: I16 => |s| s.sel == 22 || s.sel == 106, qax: Bit<5> => |s| s.sel == 23 || s.sel == 109, qay: VU16 => |s| s.sel == 24 || s.sel == 112, qaz: Str => |s| s.sel == 25 || s.sel == 115, qba: Point => |s| s.sel == 26 || s.sel == 118, qbb: Kind => |s| s.sel == 27 || s.sel == 121, qbc: Int<11> => |s| s.sel == 28 || s.sel == 124, qbd: U64 => |s| s.sel == 29 || s.sel == 127, qbe: Bool => |s| s.sel == 30 || s.sel == 130, qbf: U8 => |s| s.sel == 31 || s.sel == 133, qbg: I16 => |s| s.sel == 32 || s.sel == 136, qbh: Bit<5> => |s| s.sel == 33 || s.sel == 139, qbi: VU16 => |s| s.sel == 34 || s.sel == 142, qbj: Str => |s| s.sel == 35 || s.sel == 145, qbk: Point => |s| s.sel == 36 || s.sel == 148, qbl: Kind => |s| s.sel == 37 || s.sel == 151, qbm: Int<11> => |s| s.sel == 38 || s.sel == 154, qbn: U64 => |s| s.sel == 39 || s.sel == 157, rest: U32 => |s| s.sel >= 40 && (s.sel > 157 || s.sel % 3 != 1) });
deep_model!(large::HasCases [] (x i) { n: ty(U16), c: obj(large::Cases, sel = x.n), z: ty(Bit<3>) });
enum_model!(large::Items : U16 { Iaa = 0, Iab = 1, Iac = 2, Iad = 3, Iae = 4, Iaf = 5, Iag = 6, Iah = 7, Iai = 8, Iaj = 9, Iak = 10, Ial = 11, Iam = 12, Ian = 13, Iao = 14, Iap = 15, Iaq = 16, Iar = 17, Ias = 18, Iat = 19, Iau = 140, Iav = 141, Iaw = 142, Iax = 143, Iay = 144, Iaz = 145, Iba = 146, Ibb = 147, Ibc = 148, Ibd = 149, Ibe = 150, Ibf = 151, Ibg = 152, Ibh = 153, Ibi = 154, Ibj = 155, Ibk = 156, Ibl = 157, Ibm = 158, Ibn = 159, Ibo = 280, Ibp = 281, Ibq = 282, Ibr = 283, Ibs = 284, Ibt = 285, Ibu = 286, Ibv = 287, Ibw = 288, Ibx = 289, Iby = 290, Ibz = 291, Ica = 292, Icb = 293, Icc = 294, Icd = 295, Ice = 296, Icf = 297, Icg = 298, Ich = 299, Ici = 420, Icj = 421, Ick = 422, Icl = 423, Icm = 424, Icn = 425, Ico = 426, Icp = 427, Icq = 428, Icr = 429, Ics = 430, Ict = 431, Icu = 432, Icv = 433, Icw = 434, Icx = 435, Icy = 436, Icz = 437, Ida = 438, Idb = 439, Idc = 560, Idd = 561, Ide = 562, Idf = 563, Idg = 564, Idh = 565, Idi = 566, Idj = 567, Idk = 568, Idl = 569, Idm = 570, Idn = 571, Ido = 572, Idp = 573, Idq = 574, Idr = 575, Ids = 576, Idt = 577, Idu = 578, Idv = 579, Idw = 700, Idx = 701, Idy = 702, Idz = 703, Iea = 704, Ieb = 705, Iec = 706, Ied = 707, Iee = 708, Ief = 709, Ieg = 710, Ieh = 711, Iei = 712, Iej = 713, Iek = 714, Iel = 715, Iem = 716, Ien = 717, Ieo = 718, Iep = 719, Ieq = 840, Ier = 841, Ies = 842, Iet = 843, Ieu = 844, Iev = 845, Iew = 846, Iex = 847, Iey = 848, Iez = 849, Ifa = 850, Ifb = 851, Ifc = 852, Ifd = 853, Ife = 854, Iff = 855, Ifg = 856, Ifh = 857, Ifi = 858, Ifj = 859, Ifk = 980, Ifl = 981, Ifm = 982, Ifn = 983, Ifo = 984, Ifp = 985, Ifq = 986, Ifr = 987, Ifs = 988, Ift = 989, Ifu = 990, Ifv = 991, Ifw = 992, Ifx = 993, Ify = 994, Ifz = 995, Iga = 996, Igb = 997, Igc = 998, Igd = 999, Ige = 1120, Igf = 1121, Igg = 1122, Igh = 1123, Igi = 1124, Igj = 1125, Igk = 1126, Igl = 1127, Igm = 1128, Ign = 1129, Igo = 1130, Igp = 1131, Igq = 1132, Igr = 1133, Igs = 1134, Igt = 1135, Igu = 1136, Igv = 1137, Igw = 1138, Igx = 1139, Igy = 1260, Igz = 1261, Iha = 1262, Ihb = 1263, Ihc = 1264, Ihd = 1265, Ihe = 1266, Ihf = 1267, Ihg = 1268, Ihh = 1269, Ihi = 1270, Ihj = 1271, Ihk = 1272, Ihl = 1273, Ihm = 1274, Ihn = 1275, Iho = 1276, Ihp = 1277, Ihq = 1278, Ihr = 1279, Ihs = 1400, Iht = 1401, Ihu = 1402, Ihv = 1403, Ihw = 1404, Ihx = 1405, Ihy = 1406, Ihz = 1407, Iia = 1408, Iib = 1409, Iic = 1410, Iid = 1411, Iie = 1412, Iif = 1413, Iig = 1414, Iih = 1415, Iii = 1416, Iij = 1417, Iik = 1418, Iil = 1419, Iim = 1540, Iin = 1541, Iio = 1542, Iip = 1543, Iiq = 1544, Iir = 1545, Iis = 1546, Iit = 1547, Iiu = 1548, Iiv = 1549, Iiw = 1550, Iix = 1551, Iiy = 1552, Iiz = 1553, Ija = 1554, Ijb = 1555, Ijc = 1556, Ijd = 1557, Ije = 1558, Ijf = 1559, Ijg = 1680, Ijh = 1681, Iji = 1682, Ijj = 1683, Ijk = 1684, Ijl = 1685, Ijm = 1686, Ijn = 1687, Ijo = 1688, Ijp = 1689, Ijq = 1690, Ijr = 1691, Ijs = 1692, Ijt = 1693, Iju = 1694, Ijv = 1695, Ijw = 1696, Ijx = 1697, Ijy = 1698, Ijz = 1699, Ika = 1820, Ikb = 1821, Ikc = 1822, Ikd = 1823, Ike = 1824, Ikf = 1825, Ikg = 1826, Ikh = 1827, Iki = 1828, Ikj = 1829, Ikk = 1830, Ikl = 1831, Ikm = 1832, Ikn = 1833, Iko = 1834, Ikp = 1835, Ikq = 1836, Ikr = 1837, Iks = 1838, Ikt = 1839, Iku = 1960, Ikv = 1961, Ikw = 1962, Ikx = 1963, Iky = 1964, Ikz = 1965, Ila = 1966, Ilb = 1967, Ilc = 1968, Ild = 1969, Ile = 1970, Ilf = 1971, Ilg = 1972, Ilh = 1973, Ili = 1974, Ilj = 1975, Ilk = 1976, Ill = 1977, Ilm = 1978, Iln = 1979 });
mask_model!(large::Bits: U64);
model!(large::Da { v: Bit<3> });
model!(large::Db { v: Bit<3>, d: M<large::Da> });
model!(large::Dc { v: Bit<3>, d: M<large::Db> });
model!(large::Dd { v: Bit<3>, d: M<large::Dc> });
model!(large::De { v: Bit<3>, d: M<large::Dd> });
model!(large::Df { v: Bit<3>, d: M<large::De> });
model!(large::Dg { v: Bit<3>, d: M<large::Df> });
model!(large::Dh { v: Bit<3>, d: M<large::Dg> });
model!(large::Di { v: Bit<3>, d: M<large::Dh> });
model!(large::Dj { v: Bit<3>, d: M<large::Di> });
model!(large::Dk { v: Bit<3>, d: M<large::Dj> });
model!(large::Dl { v: Bit<3>, d: M<large::Dk> });
model!(large::Dm { v: Bit<3>, d: M<large::Dl> });
deep_model!(large::Pa [p: U8] (x i) { v: ty(U8) if (x.p > 100), a: elems(Bit<4>, conc((x.p % 3) as u64)) });
deep_model!(large::Pb [p: U8] (x i) { d: obj(large::Pa, p = x.p), v: ty(Bit<3>) });
deep_model!(large::Pc [p: U8] (x i) { d: obj(large::Pb, p = x.p), v: ty(Bit<3>) });
deep_model!(large::Pd [p: U8] (x i) { d: obj(large::Pc, p = x.p), v: ty(Bit<3>) });
deep_model!(large::Pe [p: U8] (x i) { d: obj(large::Pd, p = x.p), v: ty(Bit<3>) });
deep_model!(large::Pf [p: U8] (x i) { d: obj(large::Pe, p = x.p), v: ty(Bit<3>) });
deep_model!(large::Pg [p: U8] (x i) { d: obj(large::Pf, p = x.p), v: ty(Bit<3>) });
deep_model!(large::HasP [] (x i) { n: ty(U8), d: obj(large::Pg, p = x.n) });
model!(large::LongPlain { a: Many<U16, 258>, z: U8 });
model!(large::LongBits3 { a: Many<Bit<3>, 300>, z: U8 });
model!(large::LongObjects { a: Many<Point, 260>, z: U8 });
model!(large::LongStrings { a: Many<Str, 130>, z: U8 });
model!(large::LongPacked { a: ManyP<U16, 258>, z: U8 });
model!(large::LongPackedObjects { a: ManyP<Point, 258>, z: U8 });
model!(large::LongPackedKinds { a: ManyP<Kind, 300>, z: U8 });
model!(large::LongPackedUnions { a: ManyP<M<unions::Simple>, 130>, z: U8 });
model!(large::LongTag { a: ManyP<M<large::Tags>, 1>, z: U8 });
model!(large::LongFixed { a: ManyF<I16, 260>, z: U8 });
deep_model!(large::LongCounted [] (x i) { n: ty(Is<400>), a: ty(ManyF<Point, 400>), z: ty(U8) });

macro_rules! many {
    ($n:ident, $put:expr) => {
        /// N equal elements but one
        pub struct $n<T, const N: usize>(std::marker::PhantomData<T>);
        impl<T: Ty, const N: usize> Ty for $n<T, N> {
            type R = Vec<T::R>;
            fn fresh() -> Self::R {
                let y = T::fresh();
                let x = if N == 1 { y.clone() } else { T::fresh() };
                (0..N).map(|i| if i == N / 2 { y.clone() } else { x.clone() }).collect()
            }
            fn put(v: &Self::R, b: &mut Bs) {
                let put: fn(&Self::R, &mut Bs) = $put;
                put(v, b)
            }
            fn same(a: &Self::R, b: &Self::R) -> bool {
                same_all::<T>(a, b)
            }
        }
    };
}
many!(Many, |v, b| {
    b.varsize(v.len() as u64);
    v.iter().for_each(|x| T::put(x, b))
});
many!(ManyP, |v, b| {
    b.varsize(v.len() as u64);
    put_packed_objects::<T>(v, b)
});
many!(ManyF, |v, b| v.iter().for_each(|x| T::put(x, b)));
macro_rules! one {
    ($n:ident, $r:ty, $v:expr, $t:ty $(, $c:ident)?) => {
        pub struct $n$(<const $c: u16>)?;
        impl$(<const $c: u16>)? Ty for $n$(<$c>)? {
            type R = $r;
            fn fresh() -> $r {
                $v
            }
            fn put(v: &$r, b: &mut Bs) {
                <$t>::put(v, b)
            }
            fn same(a: &$r, b: &$r) -> bool {
                a == b
            }
        }
    };
}
one!(One, base::Kind, base::Kind::Last, Kind);
one!(Text, String, "abc".to_string(), Str);
one!(Yes, bool, true, Bool);
one!(Less, i16, -259, I16);
one!(Low, i64, -1000, Int<11>);
one!(At, base::Point, base::Point { x: -2, y: 19 }, Point);
one!(Vu1, u16, 300, VU16);
one!(Is, u16, N, U16, N);
