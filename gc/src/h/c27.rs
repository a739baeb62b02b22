//! C27: encoding what was decoded.
use crate::models::*;
use crate::types::*;
use gcmodel::*;
use sup::*;
checks!(
    []
    h_c27_nest_holder = again::<nest::Holder>(9);
    h_c27_holder_only = again::<choices::HolderOnly>(4);
    h_c27_enums_small = again::<enums::Small>(2);
    h_c27_large_tags = again::<large::Tags>(4);
    h_c27_large_has_cases = again::<large::HasCases>(4);
    h_c27_large_items = again::<large::Items>(4);
    h_c27_large_dm = again::<large::Dm>(6);
    h_c27_large_has_p = again::<large::HasP>(4);
    h_c27_enums_signed = again::<enums::Signed>(6);
    h_c27_enums_computed = again::<enums::Computed>(6);
    h_c27_enums_wide = again::<enums::Wide>(9);
    h_c27_enums_var = again::<enums::Var>(6);
    h_c27_enums_long = again::<enums::Long>(9);
    h_c27_masks_auto = again::<masks::Auto>(6);
    h_c27_masks_mixed = again::<masks::Mixed>(5);
    h_c27_masks_ten = again::<masks::Ten>(6);
    h_c27_masks_big = again::<masks::Big>(9);
    h_c27_structs_ints = again::<structs::Ints>(31);
    h_c27_structs_fields = again::<structs::Fields>(28);
    h_c27_structs_vars = again::<structs::Vars>(6);
    h_c27_structs_vars2 = again::<structs::Vars2>(6);
    h_c27_structs_vars3 = again::<structs::Vars3>(6);
    h_c27_structs_vars4 = again::<structs::Vars4>(6);
    h_c27_structs_reals = again::<structs::Reals>(14);
    h_c27_structs_halves = again::<structs::Halves>(6);
    h_c27_structs_blobs = again::<structs::Blobs>(6);
    h_c27_structs_aligned = again::<structs::Aligned>(12);
    h_c27_structs_nested = again::<structs::Nested>(8);
    h_c27_structs_arrays = again::<structs::Arrays>(6);
    h_c27_structs_dyn_bits = again::<structs::DynBits>(6);
    h_c27_structs_dyn_arr = again::<structs::DynArr>(3);
    h_c27_structs_empty = again::<structs::Empty>(6);
    h_c27_structs_has_empty = again::<structs::HasEmpty>(6);
    h_c27_structs_names = again::<structs::Names>(6);
    h_c27_offsets_one = again::<offsets::One>(10);
    h_c27_offsets_indexed = again::<offsets::Indexed>(6);
    h_c27_offsets_indexed_obj = again::<offsets::IndexedObj>(6);
    h_c27_optionals_opts = again::<optionals::Opts>(6);
    h_c27_optionals_opts2 = again::<optionals::Opts2>(6);
    h_c27_optionals_opts3 = again::<optionals::Opts3>(4);
    h_c27_optionals_conds = again::<optionals::Conds>(5);
    h_c27_optionals_cond_kind = again::<optionals::CondKind>(6);
    h_c27_optionals_cond_opt = again::<optionals::CondOpt>(6);
    h_c27_choices_by_int = again::<choices::ByInt>(6);
    h_c27_choices_empty_first = again::<choices::EmptyFirst>(6);
    h_c27_choices_holder_empty = again::<choices::HolderEmpty>(6);
    h_c27_choices_holder_defaults = again::<choices::HolderDefaults>(6);
    h_c27_choices_by_kind = again::<choices::ByKind>(6);
    h_c27_choices_by_bool = again::<choices::ByBool>(6);
    h_c27_choices_with_default = again::<choices::WithDefault>(6);
    h_c27_choices_default_empty = again::<choices::DefaultEmpty>(6);
    h_c27_choices_default_arr = again::<choices::DefaultArr>(6);
    h_c27_choices_holder = again::<choices::Holder>(6);
    h_c27_choices_holder_kind = again::<choices::HolderKind>(6);
    h_c27_unions_simple = again::<unions::Simple>(6);
    h_c27_unions_nested = again::<unions::Nested>(3);
    h_c27_unions_holder = again::<unions::Holder>(4);
    h_c27_enums_all = again::<enums::All>(22);
    h_c27_masks_all = again::<masks::All>(17);
    h_c27_masks_tests = again::<masks::Tests>(6);
    h_c27_packs_p_kind = again_array::<packs::PKind>(5, 0);
    h_c27_packs_p_flags = again_array::<packs::PFlags>(4, 0);
    h_c27_packs_p_ints = again_array::<packs::PInts>(18, 0);
    h_c27_packs_p_fields = again_array::<packs::PFields>(24, 0);
    h_c27_packs_p_reals = again_array::<packs::PReals>(15, 0);
    h_c27_packs_p_blobs = again_array::<packs::PBlobs>(7, 0);
    h_c27_packs_p_aligned = again_array::<packs::PAligned>(11, 0);
    h_c27_choices_by_member = again::<choices::ByMember>(6);
    h_c27_choices_by_const = again::<choices::ByConst>(6);
    h_c27_choices_by_level = again::<choices::ByLevel>(6);
    h_c27_choices_by_mask = again::<choices::ByMask>(6);
    h_c27_choices_by_alias = again::<choices::ByAlias>(6);
    h_c27_choices_holder_member = again::<choices::HolderMember>(6);
    h_c27_exprs_lengths = again::<exprs::Lengths>(6);
    h_c27_exprs_sel = again::<exprs::Sel>(6);
    h_c27_exprs_selects = again::<exprs::Selects>(6);
    h_c27_exprs_uni = again::<exprs::Uni>(6);
    h_c27_params_items = again::<params::Items>(6);
    h_c27_params_simple = again::<params::Simple>(8);
    h_c27_params_in_arrays = again_if::<params::InArrays>(3, |d| d[0] & 0xfe == 0 && d[1] & 0x3e == 0);
    h_c27_params_in_arrays1 = again_if::<params::InArrays>(8, |d| d[0] >> 6 == 1);
    h_c27_params_indexed = again::<params::Indexed>(6);
    h_c27_params_inner = again::<params::Inner>(6);
    h_c27_params_middle = again::<params::Middle>(13);
    h_c27_params_outer = again::<params::Outer>(14);
    h_c27_params_heads = again::<params::Heads>(6);
    h_c27_params_casts = again::<params::Casts>(6);
    h_c27_params_kind_item = again::<params::KindItem>(6);
    h_c27_params_kinds = again::<params::Kinds>(6);
    h_c27_params_chosen = again::<params::Chosen>(6);
    h_c27_params_either = again::<params::Either>(6);
    h_c27_params_others = again_if::<params::Others>(6, |d| d[0] >> 6 == 1 && d[0] >> 4 & 3 == 0);
    h_c27_params_by_function = again::<params::ByFunction>(6);
    h_c27_params_by_optional = again::<params::ByOptional>(6);
    h_c27_consts_from_const = again::<consts::FromConst>(6);
    h_c27_consts_from_negative = again::<consts::FromNegative>(6);
    h_c27_consts_mask_from_const = again::<consts::MaskFromConst>(6);
    h_c27_consts_uses = again::<consts::Uses>(18);
    h_c27_consts_returns = again::<consts::Returns>(6);
    h_c27_templates_pairuint8_int16 = again::<templates::Pairuint8Int16>(6);
    h_c27_templates_pairstring_point = again::<templates::PairstringPoint>(6);
    h_c27_templates_kind_flags = again::<templates::KindFlags>(6);
    h_c27_templates_pairint7_listbit9 = again::<templates::Pairint7Listbit9>(6);
    h_c27_templates_point_list = again::<templates::PointList>(6);
    h_c27_templates_packed_listuint8 = again_array::<templates::PackedListuint8>(4, 0);
    h_c27_templates_maybe_point = again::<templates::MaybePoint>(6);
    h_c27_templates_maybe_maybeuint8 = again::<templates::MaybeMaybeuint8>(6);
    h_c27_templates_counteduint16 = again::<templates::Counteduint16>(6);
    h_c27_templates_one_ofuint8_string = again::<templates::OneOfuint8String>(6);
    h_c27_templates_one_of_point_kind = again::<templates::OneOfPointKind>(6);
    h_c27_templates_selectbooluint16 = again::<templates::Selectbooluint16>(6);
    h_c27_templates_wrapperuint8 = again::<templates::Wrapperuint8>(6);
    h_c27_templates_with_param_sized = again::<templates::WithParamSized>(6);
    h_c27_templates_uses_pairs = again::<templates::UsesPairs>(13);
    h_c27_templates_uses_lists = again::<templates::UsesLists>(5);
    h_c27_templates_uses_many = again::<templates::UsesMany>(6);
    h_c27_templates_uses_nested = again::<templates::UsesNested>(14);
    h_c27_templates_sumsuint8 = again::<templates::Sumsuint8>(6);
    h_c27_templates_sumsuint16 = again::<templates::Sumsuint16>(6);
    h_c27_templates_sumsbit5 = again::<templates::Sumsbit5>(6);
    h_c27_templates_uses_sums = again::<templates::UsesSums>(6);
    h_c27_templates_by_typeuint16 = again::<templates::ByTypeuint16>(6);
    h_c27_templates_by_typeuint32 = again::<templates::ByTypeuint32>(6);
    h_c27_templates_on_kinduint8 = again::<templates::OnKinduint8>(6);
    h_c27_templates_on_kind_point = again::<templates::OnKindPoint>(6);
    h_c27_templates_uses_types = again::<templates::UsesTypes>(8);
    h_c27_templates_uses_widths = again::<templates::UsesWidths>(6);
    h_c27_templates_uses_deep = again::<templates::UsesDeep>(4);
    h_c27_combos_align_odd = again::<combos::AlignOdd>(18);
    h_c27_combos_off_arr = again::<combos::OffArr>(20);
    h_c27_combos_off_kinds = again::<combos::OffKinds>(16);
    h_c27_combos_align_off = again::<combos::AlignOff>(18);
    h_c27_combos_indexed_strings = again::<combos::IndexedStrings>(14);
    h_c27_combos_indexed_aligned = again::<combos::IndexedAligned>(11);
    h_c27_combos_indexed_items = again::<combos::IndexedItems>(11);
    h_c27_combos_align_cond = again::<combos::AlignCond>(6);
    h_c27_combos_off_cond = again::<combos::OffCond>(11);
    h_c27_combos_indexed_cond = again::<combos::IndexedCond>(11);
    h_c27_combos_cond_many = again::<combos::CondMany>(6);
    h_c27_combos_align_opt = again::<combos::AlignOpt>(6);
    h_c27_combos_off_opt = again::<combos::OffOpt>(11);
    h_c27_combos_indexed_opt = again::<combos::IndexedOpt>(11);
    h_c27_combos_indexed_packed = again::<combos::IndexedPacked>(11);
    h_c27_combos_index_and_plain = again::<combos::IndexAndPlain>(11);
    h_c27_combos_index_and_plains = again::<combos::IndexAndPlains>(10);
    h_c27_index_forms = again::<params::IndexForms>(8);
    h_c27_index_members = again::<params::IndexMembers>(5);
    h_c27_combos_by_text = again::<combos::ByText>(6);
    h_c27_combos_by_arm = again::<combos::ByArm>(6);
);
pub fn table() -> Vec<(&'static str, fn())> {
    TABLE.to_vec()
}
