//! C12: structures.
use crate::models::*;
use crate::types::*;
use gcmodel::*;
use sup::*;
checks!(
    []
    h_c12_nest_holder = wire::<nest::Holder>();
    h_c12_structs_ints = wire::<structs::Ints>();
    h_c12_large_long_plain = wire::<large::LongPlain>();
    h_c12_large_long_bits3 = wire::<large::LongBits3>();
    h_c12_large_long_objects = wire::<large::LongObjects>();
    h_c12_large_long_strings = wire::<large::LongStrings>();
    h_c12_large_long_fixed = wire::<large::LongFixed>();
    h_c12_large_long_counted = wire::<large::LongCounted>();
    h_c12_large_fields = wire::<large::Fields>();
    h_c12_large_dm = wire::<large::Dm>();
    h_c12_structs_fields = wire::<structs::Fields>();
    h_c12_structs_vars = wire2::<structs::Vars>();
    h_c12_structs_vars2 = wire2::<structs::Vars2>();
    h_c12_structs_vars3 = wire2::<structs::Vars3>();
    h_c12_structs_vars4 = wire2::<structs::Vars4>();
    h_c12_structs_reals = wire::<structs::Reals>();
    h_c12_structs_halves = wire::<structs::Halves>();
    h_c12_structs_blobs = wire2::<structs::Blobs>();
    h_c12_structs_aligned = wire::<structs::Aligned>();
    h_c12_structs_nested = wire::<structs::Nested>();
    h_c12_structs_arrays = wire2::<structs::Arrays>();
    h_c12_structs_arrays2 = wire2::<structs::Arrays2>();
    h_c12_structs_packed_in = wire2::<structs::PackedIn>();
    h_c12_structs_dyn_bits = wire::<structs::DynBits>();
    h_c12_structs_dyn_wide = wire::<structs::DynWide>();
    h_c12_structs_dyn_arr = wire2::<structs::DynArr>();
    h_c12_structs_empty = wire::<structs::Empty>();
    h_c12_structs_has_empty = wire::<structs::HasEmpty>();
    h_c12_structs_names = wire2::<structs::Names>();
    h_c12_offsets_one = wire::<offsets::One>();
    h_c12_offsets_indexed = wire::<offsets::Indexed>();
    h_c12_offsets_indexed_obj = wire::<offsets::IndexedObj>();
    h_c12_combos_align_odd = wire2::<combos::AlignOdd>();
    h_c12_combos_off_arr = wire2::<combos::OffArr>();
    h_c12_combos_off_kinds = wire2::<combos::OffKinds>();
    h_c12_combos_align_off = wire2::<combos::AlignOff>();
    h_c12_combos_indexed_strings = wire2::<combos::IndexedStrings>();
    h_c12_combos_indexed_aligned = wire2::<combos::IndexedAligned>();
    h_c12_combos_indexed_items = wire2::<combos::IndexedItems>();
    h_c12_combos_indexed_packed = trip::<combos::IndexedPacked>();
);
pub fn table() -> Vec<(&'static str, fn())> {
    TABLE.to_vec()
}
