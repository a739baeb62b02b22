//! C16: enums.
use crate::models::*;
use crate::types::*;
use gcmodel::*;
use sup::*;

/// A packed array of raw numbers, read as a packed array of enums.
fn h_c16_packed_raw() {
    let raw = Arr::<U8, 3>::fresh();
    let mut b = Bs::new();
    put_packed_u(&raw, 8, None, &mut b);
    let d = b.pack();
    let mut r = BitReader::new(&d);
    let mut x = packs::PKind::default();
    let ok = zserio::ZserioPackableObject::zserio_read(&mut x, &mut r).is_ok();
    let known = |v: u8| v == 0 || v == 3 || v == 4 || v == 200;
    let mut all = true;
    for v in &raw {
        all &= known(*v);
    }
    check!(ok == all, "a packed enum array is accepted exactly if every number is an item");
    if ok {
        let mut back = Vec::new();
        for k in &x.items {
            back.push(match k { base::Kind::None => 0, base::Kind::First => 3, base::Kind::Second => 4, base::Kind::Last => 200u8 });
        }
        check!(eq(&back, &raw), "the items differ from the numbers");
    }
    reach!();
}
checks!(
    [h_c16_packed_raw]
    h_c16_base_kind = wire::<base::Kind>();
    h_c16_large_items = enum_values::<large::Items>();
    h_c16_enums_small = wire::<enums::Small>();
    h_c16_enums_signed = wire::<enums::Signed>();
    h_c16_enums_computed = wire::<enums::Computed>();
    h_c16_enums_wide = wire::<enums::Wide>();
    h_c16_enums_var = wire::<enums::Var>();
    h_c16_enums_long = wire::<enums::Long>();
    h_c16_all = wire2::<enums::All>();
    h_c16_values_base_kind = enum_values::<base::Kind>();
    h_c16_values_enums_small = enum_values::<enums::Small>();
    h_c16_values_enums_signed = enum_values::<enums::Signed>();
    h_c16_values_enums_computed = enum_values::<enums::Computed>();
    h_c16_values_enums_wide = enum_values::<enums::Wide>();
    h_c16_values_enums_var = enum_values::<enums::Var>();
    h_c16_values_enums_long = enum_values::<enums::Long>();
    h_c16_packed = trip::<packs::PKind>();
    h_c16_combos_down = wire::<combos::Down>();
    h_c16_combos_var_int = wire::<combos::VarInt>();
    h_c16_combos_var_u32 = wire::<combos::VarU32>();
    h_c16_combos_sizes = wire::<combos::Sizes>();
    h_c16_combos_huge = wire::<combos::Huge>();
    h_c16_combos_five = wire::<combos::Five>();
    h_c16_combos_seventeen = wire::<combos::Seventeen>();
    h_c16_combos_spread = wire::<combos::Spread>();
    h_c16_values_combos_down = enum_values::<combos::Down>();
    h_c16_values_combos_var_int = enum_values::<combos::VarInt>();
    h_c16_values_combos_var_u32 = enum_values::<combos::VarU32>();
    h_c16_values_combos_sizes = enum_values::<combos::Sizes>();
    h_c16_values_combos_huge = enum_values::<combos::Huge>();
    h_c16_values_combos_five = enum_values::<combos::Five>();
    h_c16_values_combos_seventeen = enum_values::<combos::Seventeen>();
    h_c16_values_combos_spread = enum_values::<combos::Spread>();
    h_c16_more = packed_wire::<combos::AllEnums>(9);
    h_c16_packed_huge = trip::<packs::PHuge>();
    h_c16_packed_down = trip::<packs::PDown>();
);
pub fn table() -> Vec<(&'static str, fn())> {
    TABLE.to_vec()
}
