//! C17: bitmasks.
use crate::models::*;
use crate::types::*;
use gcmodel::*;
use sup::*;

fn h_c17_named() {
    check!((masks::Auto::A0.bits(), masks::Auto::A1.bits(), masks::Auto::A2.bits(), masks::Auto::A3.bits()) == (1, 2, 4, 8), "free values");
    check!((base::Flags::FA.bits(), base::Flags::FB.bits(), base::Flags::FC.bits(), base::Flags::FD.bits()) == (1, 2, 16, 32), "free values behind a given one");
    check!((masks::Mixed::M0.bits(), masks::Mixed::M1.bits(), masks::Mixed::M8.bits()) == (1, 2, 0x100), "mixed values");
    check!((masks::Mixed::M9.bits(), masks::Mixed::MHigh.bits(), masks::Mixed::MTop.bits()) == (0x200, 0x4000_0000, 0x8000_0000), "mixed values");
    check!((masks::Ten::TNone.bits(), masks::Ten::TA.bits(), masks::Ten::TB.bits(), masks::Ten::TC.bits()) == (0, 1, 8, 16), "values behind zero");
    check!((masks::Big::B0.bits(), masks::Big::B1.bits()) == (1, 2), "values of a 64-bit mask");
    check!((combos::High::HiA.bits(), combos::High::HiB.bits(), combos::High::HiC.bits()) == (1 << 63, 1 << 62, 1 << 32), "given high values");
    check!((combos::High::HiD.bits(), combos::High::HiE.bits()) == (0x2_0000_0001, 1), "given values");
    check!((combos::ThirtyThree::TtA.bits(), combos::ThirtyThree::TtB.bits(), combos::ThirtyThree::TtC.bits()) == (1, 1 << 31, 1 << 32), "free value behind a high one");
    check!((combos::Overlap::OvA.bits(), combos::Overlap::OvB.bits(), combos::Overlap::OvC.bits(), combos::Overlap::OvD.bits()) == (3, 4, 0x30, 0x40), "free values behind values of several bits");
    check!((combos::VarMask::VmA.bits(), combos::VarMask::VmB.bits(), combos::VarMask::VmC.bits()) == (1, 0x2000, 0x4000), "values of a variable-length mask");
    check!(combos::OneBit::ObA.bits() == 1, "value of a one bit mask");
    reach!();
}
fn h_c17_tests() {
    let t = masks::Tests::any();
    let (a, p) = (t.a.bits(), t.p.bits());
    check!(t.has_a_1() == (a & 2 != 0), "isset of a single bit");
    check!(t.has_both() == (a & 10 != 0), "isset of two bits");
    check!(t.par_has() == (p & 1 != 0), "isset of a parameter");
    check!(t.value() == a, "valueof");
    reach!();
}
checks!(
    [h_c17_named, h_c17_tests]
    h_c17_base_flags = mask_values::<base::Flags>();
    h_c17_large_bits = mask_values::<large::Bits>();
    h_c17_masks_auto = mask_values::<masks::Auto>();
    h_c17_masks_mixed = mask_values::<masks::Mixed>();
    h_c17_masks_ten = mask_values::<masks::Ten>();
    h_c17_masks_big = mask_values::<masks::Big>();
    h_c17_all = wire::<masks::All>();
    h_c17_packed = trip::<packs::PFlags>();
    h_c17_combos_high = mask_values::<combos::High>();
    h_c17_combos_thirty_three = mask_values::<combos::ThirtyThree>();
    h_c17_combos_overlap = mask_values::<combos::Overlap>();
    h_c17_combos_var_mask = mask_values::<combos::VarMask>();
    h_c17_combos_one_bit = mask_values::<combos::OneBit>();
    h_c17_more = wire2::<combos::AllMasks>();
    h_c17_packed_high = trip::<packs::PHigh>();
);
pub fn table() -> Vec<(&'static str, fn())> {
    TABLE.to_vec()
}
