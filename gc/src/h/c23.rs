//! C23: decoders on any bytes.
use crate::models::*;
use crate::types::*;
use gcmodel::*;
use sup::*;
checks!(
    []
    h_c23_nest_holder = total::<nest::Holder>(9);
    h_c23_holder_only = total::<choices::HolderOnly>(4);
    h_c23_enums_small = total::<enums::Small>(2);
    h_c23_large_tags = total::<large::Tags>(4);
    h_c23_large_fields = total::<large::Fields>(4);
    h_c23_large_has_cases = total::<large::HasCases>(4);
    h_c23_large_items = total::<large::Items>(4);
    h_c23_large_bits = total::<large::Bits>(4);
    h_c23_large_dm = total::<large::Dm>(4);
    h_c23_large_has_p = total::<large::HasP>(4);
    h_c23_large_long_fixed = total::<large::LongFixed>(4);
    h_c23_enums_signed = total::<enums::Signed>(6);
    h_c23_enums_computed = total::<enums::Computed>(6);
    h_c23_enums_wide = total::<enums::Wide>(9);
    h_c23_enums_var = total::<enums::Var>(6);
    h_c23_enums_long = total::<enums::Long>(9);
    h_c23_masks_auto = total::<masks::Auto>(6);
    h_c23_masks_mixed = total::<masks::Mixed>(5);
    h_c23_masks_ten = total::<masks::Ten>(6);
    h_c23_masks_big = total::<masks::Big>(9);
    h_c23_structs_ints = total::<structs::Ints>(31);
    h_c23_structs_fields = total::<structs::Fields>(28);
    h_c23_structs_vars = total::<structs::Vars>(6);
    h_c23_structs_vars2 = total::<structs::Vars2>(6);
    h_c23_structs_vars3 = total::<structs::Vars3>(6);
    h_c23_structs_vars4 = total::<structs::Vars4>(6);
    h_c23_structs_reals = total::<structs::Reals>(14);
    h_c23_structs_halves = total::<structs::Halves>(6);
    h_c23_structs_blobs = total::<structs::Blobs>(6);
    h_c23_structs_aligned = total::<structs::Aligned>(12);
    h_c23_structs_nested = total::<structs::Nested>(6);
    h_c23_structs_arrays = total::<structs::Arrays>(6);
    h_c23_structs_arrays2 = total::<structs::Arrays2>(4);
    h_c23_structs_packed_in = total::<structs::PackedIn>(4);
    h_c23_structs_dyn_bits = total::<structs::DynBits>(6);
    h_c23_structs_dyn_wide = total::<structs::DynWide>(4);
    h_c23_structs_dyn_arr = total::<structs::DynArr>(6);
    h_c23_structs_empty = total::<structs::Empty>(6);
    h_c23_structs_has_empty = total::<structs::HasEmpty>(6);
    h_c23_structs_names = total::<structs::Names>(6);
    h_c23_offsets_one = total::<offsets::One>(6);
    h_c23_offsets_indexed = total::<offsets::Indexed>(6);
    h_c23_offsets_indexed_obj = total::<offsets::IndexedObj>(6);
    h_c23_optionals_opts = total::<optionals::Opts>(6);
    h_c23_optionals_opts2 = total::<optionals::Opts2>(6);
    h_c23_optionals_opts3 = total::<optionals::Opts3>(4);
    h_c23_optionals_conds = total::<optionals::Conds>(5);
    h_c23_optionals_cond_sum = total::<optionals::CondSum>(6);
    h_c23_optionals_cond_kind = total::<optionals::CondKind>(6);
    h_c23_optionals_cond_opt = total::<optionals::CondOpt>(6);
    h_c23_choices_by_int = total::<choices::ByInt>(6);
    h_c23_choices_empty_first = total::<choices::EmptyFirst>(6);
    h_c23_choices_holder_empty = total::<choices::HolderEmpty>(6);
    h_c23_choices_holder_defaults = total::<choices::HolderDefaults>(6);
    h_c23_choices_by_kind = total::<choices::ByKind>(6);
    h_c23_choices_by_bool = total::<choices::ByBool>(6);
    h_c23_choices_with_default = total::<choices::WithDefault>(6);
    h_c23_choices_default_empty = total::<choices::DefaultEmpty>(6);
    h_c23_choices_default_arr = total::<choices::DefaultArr>(6);
    h_c23_choices_holder = total::<choices::Holder>(6);
    h_c23_choices_holder_kind = total::<choices::HolderKind>(6);
    h_c23_unions_simple = total::<unions::Simple>(6);
    h_c23_unions_nested = total::<unions::Nested>(3);
    h_c23_unions_holder = total::<unions::Holder>(4);
    h_c23_enums_all = total::<enums::All>(22);
    h_c23_masks_all = total::<masks::All>(17);
    h_c23_masks_tests = total::<masks::Tests>(6);
    h_c23_packs_p_point = total_array::<packs::PPoint>(7, 0);
    h_c23_packs_p_fixed = total::<packs::PFixed>(6);
    h_c23_packs_p_kind = total_array::<packs::PKind>(5, 0);
    h_c23_packs_p_flags = total_array::<packs::PFlags>(6, 0);
    h_c23_packs_p_ints = total_array::<packs::PInts>(18, 0);
    h_c23_packs_p_fields = total_array::<packs::PFields>(24, 0);
    h_c23_packs_p_nested = total_array::<packs::PNested>(10, 0);
    h_c23_packs_p_union = total_array::<packs::PUnion>(5, 0);
    h_c23_packs_p_union2 = total_array::<packs::PUnion2>(4, 0);
    h_c23_packs_p_opts = total_array::<packs::POpts>(5, 0);
    h_c23_packs_p_opts2 = total_array::<packs::POpts2>(4, 0);
    h_c23_packs_p_conds = total_array::<packs::PConds>(5, 0);
    h_c23_packs_p_choice = total_array::<packs::PChoice>(5, 1);
    h_c23_packs_p_holder_empty = total_array::<packs::PHolderEmpty>(4, 0);
    h_c23_packs_p_holder_defaults = total_array::<packs::PHolderDefaults>(4, 0);
    h_c23_packs_p_holder_member = total_array::<packs::PHolderMember>(4, 0);
    h_c23_packs_p_with_default = total_array::<packs::PWithDefault>(4, 1);
    h_c23_packs_p_empty_first = total_array::<packs::PEmptyFirst>(4, 1);
    h_c23_packs_p_reals = total_array::<packs::PReals>(15, 0);
    h_c23_packs_p_arrays = total_array::<packs::PArrays>(4, 0);
    h_c23_packs_p_blobs = total_array::<packs::PBlobs>(7, 0);
    h_c23_packs_p_aligned = total_array::<packs::PAligned>(11, 0);
    h_c23_choices_by_member = total::<choices::ByMember>(6);
    h_c23_choices_by_const = total::<choices::ByConst>(6);
    h_c23_choices_by_level = total::<choices::ByLevel>(6);
    h_c23_choices_by_mask = total::<choices::ByMask>(6);
    h_c23_choices_by_alias = total::<choices::ByAlias>(6);
    h_c23_choices_holder_member = total::<choices::HolderMember>(6);
    h_c23_exprs_lengths = total::<exprs::Lengths>(6);
    h_c23_exprs_sel = total::<exprs::Sel>(6);
    h_c23_exprs_selects = total::<exprs::Selects>(6);
    h_c23_exprs_uni = total::<exprs::Uni>(6);
    h_c23_params_items = total::<params::Items>(6);
    h_c23_params_simple = total::<params::Simple>(6);
    h_c23_params_in_arrays = total::<params::InArrays>(2);
    h_c23_params_indexed = total::<params::Indexed>(6);
    h_c23_params_inner = total::<params::Inner>(6);
    h_c23_params_middle = total::<params::Middle>(6);
    h_c23_params_outer = total::<params::Outer>(6);
    h_c23_params_heads = total::<params::Heads>(6);
    h_c23_params_casts = total::<params::Casts>(6);
    h_c23_params_kind_item = total::<params::KindItem>(6);
    h_c23_params_kinds = total::<params::Kinds>(6);
    h_c23_params_chosen = total::<params::Chosen>(6);
    h_c23_params_either = total::<params::Either>(6);
    h_c23_params_others = total_if::<params::Others>(5, |d| d[0] >> 6 != 3);
    h_c23_params_by_function = total::<params::ByFunction>(6);
    h_c23_params_by_optional = total::<params::ByOptional>(6);
    h_c23_consts_from_const = total::<consts::FromConst>(6);
    h_c23_consts_from_negative = total::<consts::FromNegative>(6);
    h_c23_consts_mask_from_const = total::<consts::MaskFromConst>(6);
    h_c23_consts_uses = total::<consts::Uses>(6);
    h_c23_consts_returns = total::<consts::Returns>(6);
    h_c23_templates_pairuint8_int16 = total::<templates::Pairuint8Int16>(6);
    h_c23_templates_pairstring_point = total::<templates::PairstringPoint>(6);
    h_c23_templates_kind_flags = total::<templates::KindFlags>(6);
    h_c23_templates_pairint7_listbit9 = total::<templates::Pairint7Listbit9>(6);
    h_c23_templates_point_list = total::<templates::PointList>(6);
    h_c23_templates_packed_listuint8 = total_array::<templates::PackedListuint8>(6, 0);
    h_c23_templates_maybe_point = total::<templates::MaybePoint>(6);
    h_c23_templates_maybe_maybeuint8 = total::<templates::MaybeMaybeuint8>(6);
    h_c23_templates_counteduint16 = total::<templates::Counteduint16>(6);
    h_c23_templates_one_ofuint8_string = total::<templates::OneOfuint8String>(6);
    h_c23_templates_one_of_point_kind = total::<templates::OneOfPointKind>(6);
    h_c23_templates_selectbooluint16 = total::<templates::Selectbooluint16>(6);
    h_c23_templates_wrapperuint8 = total::<templates::Wrapperuint8>(6);
    h_c23_templates_with_param_sized = total::<templates::WithParamSized>(6);
    h_c23_templates_uses_pairs = total::<templates::UsesPairs>(6);
    h_c23_templates_uses_lists = total::<templates::UsesLists>(5);
    h_c23_templates_uses_many = total::<templates::UsesMany>(6);
    h_c23_templates_uses_nested = total::<templates::UsesNested>(6);
    h_c23_templates_sumsuint8 = total::<templates::Sumsuint8>(6);
    h_c23_templates_sumsuint16 = total::<templates::Sumsuint16>(6);
    h_c23_templates_sumsbit5 = total::<templates::Sumsbit5>(6);
    h_c23_templates_uses_sums = total::<templates::UsesSums>(6);
    h_c23_templates_by_typeuint16 = total::<templates::ByTypeuint16>(6);
    h_c23_templates_by_typeuint32 = total::<templates::ByTypeuint32>(6);
    h_c23_templates_on_kinduint8 = total::<templates::OnKinduint8>(6);
    h_c23_templates_on_kind_point = total::<templates::OnKindPoint>(6);
    h_c23_templates_uses_types = total::<templates::UsesTypes>(6);
    h_c23_templates_uses_widths = total::<templates::UsesWidths>(6);
    h_c23_templates_uses_deep = total::<templates::UsesDeep>(4);
    h_c23_templates_otherwise_pairuint8 = total::<templates::OtherwisePairuint8>(4);
    h_c23_templates_arm_pairs = total::<templates::ArmPairs>(4);
    h_c23_templates_union_pairs = total::<templates::UnionPairs>(4);
    h_c23_templates_uses_arms = total::<templates::UsesArms>(4);
    h_c23_templates_otherwise_pointuint8 = total::<templates::OtherwisePointuint8>(5);
    h_c23_templates_otherwisestring_kind = total::<templates::OtherwisestringKind>(5);
    h_c23_templates_otherwise_listuint16 = total::<templates::OtherwiseListuint16>(5);
    h_c23_templates_otherwise_list_point = total::<templates::OtherwiseListPoint>(5);
    h_c23_templates_uses_otherwise = total::<templates::UsesOtherwise>(5);
    h_c23_templates_eitheruint8 = total::<templates::Eitheruint8>(5);
    h_c23_templates_either_point = total::<templates::EitherPoint>(5);
    h_c23_combos_align_odd = total::<combos::AlignOdd>(6);
    h_c23_combos_off_arr = total::<combos::OffArr>(11);
    h_c23_combos_off_kinds = total::<combos::OffKinds>(16);
    h_c23_combos_align_off = total::<combos::AlignOff>(6);
    h_c23_combos_indexed_strings = total::<combos::IndexedStrings>(11);
    h_c23_combos_indexed_aligned = total::<combos::IndexedAligned>(11);
    h_c23_combos_indexed_items = total::<combos::IndexedItems>(11);
    h_c23_combos_align_cond = total::<combos::AlignCond>(6);
    h_c23_combos_off_cond = total::<combos::OffCond>(11);
    h_c23_combos_indexed_cond = total::<combos::IndexedCond>(11);
    h_c23_combos_cond_packed = total::<combos::CondPacked>(4);
    h_c23_combos_opt_arrays = total::<combos::OptArrays>(6);
    h_c23_combos_cond_many = total::<combos::CondMany>(6);
    h_c23_combos_align_opt = total::<combos::AlignOpt>(6);
    h_c23_combos_off_opt = total::<combos::OffOpt>(11);
    h_c23_combos_indexed_opt = total::<combos::IndexedOpt>(11);
    h_c23_combos_indexed_packed = total::<combos::IndexedPacked>(11);
    h_c23_combos_index_and_plain = total::<combos::IndexAndPlain>(11);
    h_c23_combos_index_and_plains = total::<combos::IndexAndPlains>(10);
    h_c23_index_forms = total::<params::IndexForms>(2);
    h_c23_index_members = total::<params::IndexMembers>(3);
    h_c23_combos_by_text = total::<combos::ByText>(6);
    h_c23_combos_by_arm = total::<combos::ByArm>(6);
    h_c23_combos_texts = total::<combos::Texts>(6);
    h_c23_combos_all_enums = total::<combos::AllEnums>(10);
    h_c23_combos_all_masks = total::<combos::AllMasks>(18);
    h_c23_combos_down = total::<combos::Down>(9);
    h_c23_combos_var_int = total::<combos::VarInt>(9);
    h_c23_combos_var_u32 = total::<combos::VarU32>(9);
    h_c23_combos_sizes = total::<combos::Sizes>(9);
    h_c23_combos_huge = total::<combos::Huge>(9);
    h_c23_combos_five = total::<combos::Five>(9);
    h_c23_combos_seventeen = total::<combos::Seventeen>(9);
    h_c23_combos_spread = total::<combos::Spread>(9);
    h_c23_combos_high = total::<combos::High>(9);
    h_c23_combos_thirty_three = total::<combos::ThirtyThree>(9);
    h_c23_combos_overlap = total::<combos::Overlap>(9);
    h_c23_combos_var_mask = total::<combos::VarMask>(9);
    h_c23_combos_one_bit = total::<combos::OneBit>(9);
    h_c23_packs_p_vars = total_array::<packs::PVars>(5, 0);
    h_c23_packs_p_vars2 = total_array::<packs::PVars2>(5, 0);
    h_c23_packs_p_vars3 = total_array::<packs::PVars3>(5, 0);
    h_c23_packs_p_vars4 = total_array::<packs::PVars4>(5, 0);
    h_c23_packs_p_halves = total_array::<packs::PHalves>(5, 0);
    h_c23_packs_p_dyn = total_array::<packs::PDyn>(5, 0);
    h_c23_packs_p_packed_in = total_array::<packs::PPackedIn>(5, 0);
    h_c23_packs_p_enums = total_array::<packs::PEnums>(5, 0);
    h_c23_packs_p_masks = total_array::<packs::PMasks>(5, 0);
    h_c23_packs_p_offset = total_array::<packs::POffset>(5, 0);
    h_c23_packs_p_more_enums = total_array::<packs::PMoreEnums>(5, 0);
    h_c23_packs_p_more_masks = total_array::<packs::PMoreMasks>(5, 0);
    h_c23_packs_p_many = total_array::<packs::PMany>(4, 0);
    h_c23_packs_p_align_cond = total_array::<packs::PAlignCond>(5, 0);
    h_c23_packs_p_holder = total_array::<packs::PHolder>(4, 0);
    h_c23_packs_p_holder2 = total_array::<packs::PHolder2>(5, 0);
    h_c23_packs_p_arrays2 = total_array::<packs::PArrays2>(4, 0);
    h_c23_packs_p_empty = total_array::<packs::PEmpty>(5, 0);
    h_c23_packs_p_opts3 = total_array::<packs::POpts3>(4, 0);
    h_c23_packs_p_off_kinds = total_array::<packs::POffKinds>(4, 0);
    h_c23_packs_p_huge = total_array::<packs::PHuge>(5, 0);
    h_c23_packs_p_down = total_array::<packs::PDown>(5, 0);
    h_c23_packs_p_high = total_array::<packs::PHigh>(5, 0);
);
pub fn table() -> Vec<(&'static str, fn())> {
    TABLE.to_vec()
}
