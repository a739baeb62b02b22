//! C21: packed arrays of objects.
use crate::models::*;
use crate::types::*;
use gcmodel::*;
use sup::*;
checks!(
    []
    h_c21_p_point = packed::<packs::PPoint>(2);
    h_c21_large_long_tag = trip::<large::LongTag>();
    h_c21_large_long_packed = trip::<large::LongPacked>();
    h_c21_large_long_packed_kinds = trip::<large::LongPackedKinds>();
    h_c21_p_fixed = packed::<packs::PFixed>(2);
    h_c21_p_kind = packed::<packs::PKind>(1);
    h_c21_p_flags = packed::<packs::PFlags>(1);
    h_c21_p_ints = packed::<packs::PInts>(8);
    h_c21_p_fields = packed::<packs::PFields>(8);
    h_c21_p_nested = packed::<packs::PNested>(7);
    h_c21_p_union = packed::<packs::PUnion>(4);
    h_c21_p_union2 = packed::<packs::PUnion2>(5);
    h_c21_p_opts = packed::<packs::POpts>(10);
    h_c21_p_opts2 = packed::<packs::POpts2>(16);
    h_c21_p_conds = packed::<packs::PConds>(12);
    h_c21_p_choice = packed::<packs::PChoice>(5);
    h_c21_p_holder_empty = packed::<packs::PHolderEmpty>(7);
    h_c21_p_holder_defaults = packed::<packs::PHolderDefaults>(14);
    h_c21_p_holder_member = packed::<packs::PHolderMember>(10);
    h_c21_p_with_default = packed::<packs::PWithDefault>(2);
    h_c21_p_empty_first = packed::<packs::PEmptyFirst>(5);
    h_c21_p_reals = packed::<packs::PReals>(4);
    h_c21_p_arrays = packed::<packs::PArrays>(11);
    h_c21_p_blobs = packed::<packs::PBlobs>(9);
    h_c21_p_aligned = packed::<packs::PAligned>(10);
    h_c21_all_point = size::<packs::PFixed>();
    h_c21_all_kind = trip::<packs::PKind>();
    h_c21_all_flags = trip::<packs::PFlags>();
    h_c21_p_vars = packed::<packs::PVars>(4);
    h_c21_p_vars2 = packed_narrow::<packs::PVars2>(2);
    h_c21_p_vars2_deep = packed::<packs::PVars2>(2);
    h_c21_p_vars3 = packed_narrow::<packs::PVars3>(2);
    h_c21_p_vars3_deep = packed::<packs::PVars3>(2);
    h_c21_p_vars4 = packed_narrow::<packs::PVars4>(2);
    h_c21_p_vars4_deep = packed::<packs::PVars4>(2);
    h_c21_p_halves = packed::<packs::PHalves>(2);
    h_c21_p_dyn = packed::<packs::PDyn>(5);
    h_c21_p_dyn_wide = packed::<packs::PDynWide>(9);
    h_c21_p_packed_in = packed::<packs::PPackedIn>(8);
    h_c21_p_enums = packed::<packs::PEnums>(7);
    h_c21_p_masks = packed::<packs::PMasks>(5);
    h_c21_p_offset = packed::<packs::POffset>(7);
    h_c21_p_more_enums = packed::<packs::PMoreEnums>(8);
    h_c21_p_more_masks = packed::<packs::PMoreMasks>(6);
    h_c21_p_many = packed::<packs::PMany>(12);
    h_c21_p_align_cond = packed::<packs::PAlignCond>(7);
    h_c21_p_holder = packed::<packs::PHolder>(12);
    h_c21_p_holder2 = packed::<packs::PHolder2>(6);
    h_c21_p_arrays2 = packed::<packs::PArrays2>(12);
    h_c21_p_empty = packed::<packs::PEmpty>(2);
    h_c21_p_opts3 = packed::<packs::POpts3>(16);
    h_c21_p_off_kinds = packed::<packs::POffKinds>(12);
    h_c21_p_huge = packed::<packs::PHuge>(1);
    h_c21_p_down = packed::<packs::PDown>(1);
    h_c21_p_high = packed_narrow::<packs::PHigh>(1);
    h_c21_p_high_deep = packed::<packs::PHigh>(1);
);
pub fn table() -> Vec<(&'static str, fn())> {
    TABLE.to_vec()
}
