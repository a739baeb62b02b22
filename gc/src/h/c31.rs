//! C31: wire format of packed arrays of objects.
use crate::models::*;
use crate::types::*;
use gcmodel::*;
use sup::*;
checks!(
    []
    h_c31_p_point = packed_wire::<packs::PPoint>(2);
    h_c31_large_long_tag = wire::<large::LongTag>();
    h_c31_large_long_packed = wire::<large::LongPacked>();
    h_c31_large_long_packed_kinds = wire::<large::LongPackedKinds>();
    h_c31_p_fixed = packed_wire::<packs::PFixed>(2);
    h_c31_p_kind = packed_wire::<packs::PKind>(1);
    h_c31_p_flags = packed_wire::<packs::PFlags>(1);
    h_c31_p_ints = packed_wire::<packs::PInts>(8);
    h_c31_p_fields = packed_wire::<packs::PFields>(8);
    h_c31_p_nested = packed_wire::<packs::PNested>(7);
    h_c31_p_union = packed_wire::<packs::PUnion>(4);
    h_c31_p_union2 = packed_wire::<packs::PUnion2>(5);
    h_c31_p_opts = packed_wire::<packs::POpts>(10);
    h_c31_p_opts2 = packed_wire::<packs::POpts2>(16);
    h_c31_p_conds = packed_wire::<packs::PConds>(12);
    h_c31_p_choice = packed_wire::<packs::PChoice>(5);
    h_c31_p_holder_empty = packed_wire::<packs::PHolderEmpty>(7);
    h_c31_p_holder_defaults = packed_wire::<packs::PHolderDefaults>(14);
    h_c31_p_holder_member = packed_wire::<packs::PHolderMember>(10);
    h_c31_p_with_default = packed_wire::<packs::PWithDefault>(2);
    h_c31_p_empty_first = packed_wire::<packs::PEmptyFirst>(5);
    h_c31_p_reals = packed_wire::<packs::PReals>(4);
    h_c31_p_arrays = packed_wire::<packs::PArrays>(11);
    h_c31_p_blobs = packed_wire::<packs::PBlobs>(9);
    h_c31_p_aligned = packed_wire::<packs::PAligned>(10);
    h_c31_p_vars = packed_wire::<packs::PVars>(4);
    h_c31_p_vars2 = packed_wire_narrow::<packs::PVars2>(2);
    h_c31_p_vars2_deep = packed_wire::<packs::PVars2>(2);
    h_c31_p_vars3 = packed_wire_narrow::<packs::PVars3>(2);
    h_c31_p_vars3_deep = packed_wire::<packs::PVars3>(2);
    h_c31_p_vars4 = packed_wire_narrow::<packs::PVars4>(2);
    h_c31_p_vars4_deep = packed_wire::<packs::PVars4>(2);
    h_c31_p_halves = packed_wire::<packs::PHalves>(2);
    h_c31_p_dyn = packed_wire::<packs::PDyn>(5);
    h_c31_p_dyn_wide = packed_wire::<packs::PDynWide>(9);
    h_c31_p_packed_in = packed_wire::<packs::PPackedIn>(8);
    h_c31_p_enums = packed_wire::<packs::PEnums>(7);
    h_c31_p_masks = packed_wire::<packs::PMasks>(5);
    h_c31_p_offset = packed_wire::<packs::POffset>(7);
    h_c31_p_more_enums = packed_wire::<packs::PMoreEnums>(8);
    h_c31_p_more_masks = packed_wire::<packs::PMoreMasks>(6);
    h_c31_p_many = packed_wire::<packs::PMany>(12);
    h_c31_p_align_cond = packed_wire::<packs::PAlignCond>(7);
    h_c31_p_holder = packed_wire::<packs::PHolder>(12);
    h_c31_p_holder2 = packed_wire::<packs::PHolder2>(6);
    h_c31_p_arrays2 = packed_wire::<packs::PArrays2>(12);
    h_c31_p_empty = packed_wire::<packs::PEmpty>(2);
    h_c31_p_opts3 = packed_wire::<packs::POpts3>(16);
    h_c31_p_off_kinds = packed_wire::<packs::POffKinds>(12);
    h_c31_p_huge = packed_wire::<packs::PHuge>(1);
    h_c31_p_down = packed_wire::<packs::PDown>(1);
    h_c31_p_high = packed_wire_narrow::<packs::PHigh>(1);
    h_c31_p_high_deep = packed_wire::<packs::PHigh>(1);
    h_c31_all_kind = wire2::<packs::PKind>();
    h_c31_all_flags = wire2::<packs::PFlags>();
    h_c31_all_huge = wire2::<packs::PHuge>();
    h_c31_all_down = wire2::<packs::PDown>();
);
pub fn table() -> Vec<(&'static str, fn())> {
    TABLE.to_vec()
}
