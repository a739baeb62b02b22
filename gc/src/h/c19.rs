//! C19: parameters.
use crate::models::*;
use crate::types::*;
use gcmodel::*;
use rust_bitwriter::BitWriter;
use zserio::ZserioPackableObject;
use sup::*;
checks!(
    [h_c19_nan]
    h_c19_items = wire2::<params::Items>();
    h_c19_large_has_p = wire::<large::HasP>();
    h_c19_simple = wire2::<params::Simple>();
    h_c19_in_arrays = packed::<params::InArrays>(6);
    h_c19_indexed = wire2::<params::Indexed>();
    h_c19_inner = wire2::<params::Inner>();
    h_c19_middle = wire2::<params::Middle>();
    h_c19_outer = wire2::<params::Outer>();
    h_c19_heads = wire2::<params::Heads>();
    h_c19_cast = wire2::<params::Cast>();
    h_c19_casts = wire2::<params::Casts>();
    h_c19_kind_item = wire2::<params::KindItem>();
    h_c19_kinds = wire2::<params::Kinds>();
    h_c19_chosen = wire2::<params::Chosen>();
    h_c19_either = wire2::<params::Either>();
    h_c19_others = wire2::<params::Others>();
    h_c19_by_function = wire2::<params::ByFunction>();
    h_c19_by_optional = wire2::<params::ByOptional>();
    h_c19_size_items = size_at::<params::Items>(frame2());
    h_c19_size_simple = size_at::<params::Simple>(frame2());
    h_c19_size_indexed = size_at::<params::Indexed>(frame2());
    h_c19_size_inner = size_at::<params::Inner>(frame2());
    h_c19_size_middle = size_at::<params::Middle>(frame2());
    h_c19_size_outer = size_at::<params::Outer>(frame2());
    h_c19_size_heads = size_at::<params::Heads>(frame2());
    h_c19_size_cast = size_at::<params::Cast>(frame2());
    h_c19_size_casts = size_at::<params::Casts>(frame2());
    h_c19_size_kind_item = size_at::<params::KindItem>(frame2());
    h_c19_size_kinds = size_at::<params::Kinds>(frame2());
    h_c19_size_chosen = size_at::<params::Chosen>(frame2());
    h_c19_size_either = size_at::<params::Either>(frame2());
    h_c19_size_others = size_at::<params::Others>(frame2());
    h_c19_size_by_function = size_at::<params::ByFunction>(frame2());
    h_c19_size_by_optional = size_at::<params::ByOptional>(frame2());
    h_c19_combos_index_and_plain = wire2::<combos::IndexAndPlain>();
    h_c19_combos_index_and_plains = wire2::<combos::IndexAndPlains>();
    h_c19_index_forms = wire::<params::IndexForms>();
    h_c19_index_members = wire::<params::IndexMembers>();
    h_c19_combos_by_text = wire2::<combos::ByText>();
    h_c19_combos_by_arm = wire2::<combos::ByArm>();
    h_c19_combos_texts = wire2::<combos::Texts>();
    h_c19_size_combos_index_and_plain = size_at::<combos::IndexAndPlain>(frame2());
    h_c19_size_combos_index_and_plains = size_at::<combos::IndexAndPlains>(frame2());
    h_c19_size_combos_by_text = size_at::<combos::ByText>(frame2());
    h_c19_size_combos_by_arm = size_at::<combos::ByArm>(frame2());
    h_c19_size_combos_texts = size_at::<combos::Texts>(frame2());
);
/// a NaN as argument
fn h_c19_nan() {
    focus(Some(0));
    let mut v = combos::Texts::any();
    let f = f32::from_bits(0x7fc0_0000 | bits(22) as u32);
    v.f = f;
    v.two.f = f;
    let mut w = BitWriter::new();
    reach!();
    must!(v.zserio_write(&mut w), "writing fails");
}
pub fn table() -> Vec<(&'static str, fn())> {
    TABLE.to_vec()
}
