//! C26: truncated messages.
use crate::models::*;
use crate::types::*;
use gcmodel::*;
use sup::*;
checks!(
    []
    h_c26_nest_holder = cut::<nest::Holder>();
    h_c26_holder_only = cut::<choices::HolderOnly>();
    h_c26_structs_ints = cut::<structs::Ints>();
    h_c26_large_long_tag = cut::<large::LongTag>();
    h_c26_large_tags = cut::<large::Tags>();
    h_c26_large_has_cases = cut::<large::HasCases>();
    h_c26_large_items = cut::<large::Items>();
    h_c26_large_bits = cut::<large::Bits>();
    h_c26_large_dm = cut::<large::Dm>();
    h_c26_large_has_p = cut::<large::HasP>();
    h_c26_structs_fields = cut::<structs::Fields>();
    h_c26_structs_vars = cut::<structs::Vars>();
    h_c26_structs_vars2 = cut::<structs::Vars2>();
    h_c26_structs_vars3 = cut::<structs::Vars3>();
    h_c26_structs_vars4 = cut::<structs::Vars4>();
    h_c26_structs_reals = cut::<structs::Reals>();
    h_c26_structs_halves = cut::<structs::Halves>();
    h_c26_structs_blobs = cut::<structs::Blobs>();
    h_c26_structs_aligned = cut::<structs::Aligned>();
    h_c26_structs_nested = cut::<structs::Nested>();
    h_c26_structs_arrays = cut::<structs::Arrays>();
    h_c26_structs_arrays2 = cut::<structs::Arrays2>();
    h_c26_structs_packed_in = cut::<structs::PackedIn>();
    h_c26_structs_dyn_bits = cut::<structs::DynBits>();
    h_c26_structs_dyn_wide = cut::<structs::DynWide>();
    h_c26_structs_dyn_arr = cut::<structs::DynArr>();
    h_c26_structs_empty = cut::<structs::Empty>();
    h_c26_structs_has_empty = cut::<structs::HasEmpty>();
    h_c26_structs_names = cut::<structs::Names>();
    h_c26_offsets_one = cut::<offsets::One>();
    h_c26_offsets_indexed = cut::<offsets::Indexed>();
    h_c26_offsets_indexed_obj = cut::<offsets::IndexedObj>();
    h_c26_optionals_opts = cut::<optionals::Opts>();
    h_c26_optionals_opts2 = cut::<optionals::Opts2>();
    h_c26_optionals_opts3 = cut::<optionals::Opts3>();
    h_c26_optionals_conds = cut::<optionals::Conds>();
    h_c26_optionals_cond_kind = cut::<optionals::CondKind>();
    h_c26_optionals_cond_opt = cut::<optionals::CondOpt>();
    h_c26_choices_by_int = cut::<choices::ByInt>();
    h_c26_choices_empty_first = cut::<choices::EmptyFirst>();
    h_c26_choices_holder_empty = cut::<choices::HolderEmpty>();
    h_c26_choices_holder_defaults = cut::<choices::HolderDefaults>();
    h_c26_choices_by_kind = cut::<choices::ByKind>();
    h_c26_choices_by_bool = cut::<choices::ByBool>();
    h_c26_choices_with_default = cut::<choices::WithDefault>();
    h_c26_choices_default_empty = cut::<choices::DefaultEmpty>();
    h_c26_choices_default_arr = cut::<choices::DefaultArr>();
    h_c26_choices_holder = cut::<choices::Holder>();
    h_c26_choices_holder_kind = cut::<choices::HolderKind>();
    h_c26_unions_simple = cut::<unions::Simple>();
    h_c26_unions_nested = cut::<unions::Nested>();
    h_c26_unions_holder = cut::<unions::Holder>();
    h_c26_enums_all = cut::<enums::All>();
    h_c26_masks_all = cut::<masks::All>();
    h_c26_masks_tests = cut::<masks::Tests>();
    h_c26_packs_p_point = packed_cut::<packs::PPoint>(2);
    h_c26_packs_p_fixed = packed_cut::<packs::PFixed>(2);
    h_c26_packs_p_kind = packed_cut::<packs::PKind>(1);
    h_c26_packs_p_flags = packed_cut::<packs::PFlags>(1);
    h_c26_packs_p_ints = packed_cut::<packs::PInts>(8);
    h_c26_packs_p_fields = packed_cut::<packs::PFields>(8);
    h_c26_packs_p_nested = packed_cut::<packs::PNested>(7);
    h_c26_packs_p_union = packed_cut::<packs::PUnion>(4);
    h_c26_packs_p_union2 = packed_cut::<packs::PUnion2>(5);
    h_c26_packs_p_opts = packed_cut::<packs::POpts>(10);
    h_c26_packs_p_opts2 = packed_cut::<packs::POpts2>(16);
    h_c26_packs_p_conds = packed_cut::<packs::PConds>(12);
    h_c26_packs_p_choice = packed_cut::<packs::PChoice>(5);
    h_c26_packs_p_holder_empty = packed_cut::<packs::PHolderEmpty>(7);
    h_c26_packs_p_holder_defaults = packed_cut::<packs::PHolderDefaults>(14);
    h_c26_packs_p_holder_member = packed_cut::<packs::PHolderMember>(10);
    h_c26_packs_p_with_default = packed_cut::<packs::PWithDefault>(2);
    h_c26_packs_p_empty_first = packed_cut::<packs::PEmptyFirst>(5);
    h_c26_packs_p_reals = packed_cut::<packs::PReals>(4);
    h_c26_packs_p_arrays = packed_cut::<packs::PArrays>(11);
    h_c26_packs_p_blobs = packed_cut::<packs::PBlobs>(9);
    h_c26_packs_p_aligned = packed_cut::<packs::PAligned>(10);
    h_c26_choices_by_member = cut::<choices::ByMember>();
    h_c26_choices_by_const = cut::<choices::ByConst>();
    h_c26_choices_by_level = cut::<choices::ByLevel>();
    h_c26_choices_by_mask = cut::<choices::ByMask>();
    h_c26_choices_by_alias = cut::<choices::ByAlias>();
    h_c26_choices_holder_member = cut::<choices::HolderMember>();
    h_c26_exprs_lengths = cut::<exprs::Lengths>();
    h_c26_exprs_sel = cut::<exprs::Sel>();
    h_c26_exprs_selects = cut::<exprs::Selects>();
    h_c26_exprs_uni = cut::<exprs::Uni>();
    h_c26_params_items = cut::<params::Items>();
    h_c26_params_simple = cut::<params::Simple>();
    h_c26_params_indexed = cut::<params::Indexed>();
    h_c26_params_inner = cut::<params::Inner>();
    h_c26_params_middle = cut::<params::Middle>();
    h_c26_params_outer = cut::<params::Outer>();
    h_c26_params_heads = cut::<params::Heads>();
    h_c26_params_casts = cut::<params::Casts>();
    h_c26_params_kind_item = cut::<params::KindItem>();
    h_c26_params_kinds = cut::<params::Kinds>();
    h_c26_params_chosen = cut::<params::Chosen>();
    h_c26_params_either = cut::<params::Either>();
    h_c26_params_others = cut::<params::Others>();
    h_c26_params_by_function = cut::<params::ByFunction>();
    h_c26_params_by_optional = cut::<params::ByOptional>();
    h_c26_consts_from_const = cut::<consts::FromConst>();
    h_c26_consts_from_negative = cut::<consts::FromNegative>();
    h_c26_consts_mask_from_const = cut::<consts::MaskFromConst>();
    h_c26_consts_uses = cut::<consts::Uses>();
    h_c26_consts_returns = cut::<consts::Returns>();
    h_c26_templates_pairuint8_int16 = cut::<templates::Pairuint8Int16>();
    h_c26_templates_pairstring_point = cut::<templates::PairstringPoint>();
    h_c26_templates_otherwise_pairuint8 = cut::<templates::OtherwisePairuint8>();
    h_c26_templates_arm_pairs = cut::<templates::ArmPairs>();
    h_c26_templates_union_pairs = cut::<templates::UnionPairs>();
    h_c26_templates_uses_arms = cut::<templates::UsesArms>();
    h_c26_templates_uses_packed_pairs = cut::<templates::UsesPackedPairs>();
    h_c26_templates_otherwise_pointuint8 = cut::<templates::OtherwisePointuint8>();
    h_c26_templates_otherwisestring_kind = cut::<templates::OtherwisestringKind>();
    h_c26_templates_otherwise_listuint16 = cut::<templates::OtherwiseListuint16>();
    h_c26_templates_otherwise_list_point = cut::<templates::OtherwiseListPoint>();
    h_c26_templates_uses_otherwise = cut::<templates::UsesOtherwise>();
    h_c26_templates_fieldsuint8_string = cut::<templates::Fieldsuint8String>();
    h_c26_templates_fieldsint16_point = cut::<templates::Fieldsint16Point>();
    h_c26_templates_eitheruint8 = cut::<templates::Eitheruint8>();
    h_c26_templates_either_point = cut::<templates::EitherPoint>();
    h_c26_templates_kind_flags = cut::<templates::KindFlags>();
    h_c26_templates_pairint7_listbit9 = cut::<templates::Pairint7Listbit9>();
    h_c26_templates_point_list = cut::<templates::PointList>();
    h_c26_templates_packed_listuint8 = cut::<templates::PackedListuint8>();
    h_c26_templates_maybe_point = cut::<templates::MaybePoint>();
    h_c26_templates_maybe_maybeuint8 = cut::<templates::MaybeMaybeuint8>();
    h_c26_templates_counteduint16 = cut::<templates::Counteduint16>();
    h_c26_templates_one_ofuint8_string = cut::<templates::OneOfuint8String>();
    h_c26_templates_one_of_point_kind = cut::<templates::OneOfPointKind>();
    h_c26_templates_selectbooluint16 = cut::<templates::Selectbooluint16>();
    h_c26_templates_wrapperuint8 = cut::<templates::Wrapperuint8>();
    h_c26_templates_with_param_sized = cut::<templates::WithParamSized>();
    h_c26_templates_uses_pairs = cut::<templates::UsesPairs>();
    h_c26_templates_uses_lists = cut::<templates::UsesLists>();
    h_c26_templates_uses_many = cut::<templates::UsesMany>();
    h_c26_templates_uses_nested = cut::<templates::UsesNested>();
    h_c26_templates_sumsuint8 = cut::<templates::Sumsuint8>();
    h_c26_templates_sumsuint16 = cut::<templates::Sumsuint16>();
    h_c26_templates_sumsbit5 = cut::<templates::Sumsbit5>();
    h_c26_templates_uses_sums = cut::<templates::UsesSums>();
    h_c26_templates_by_typeuint16 = cut::<templates::ByTypeuint16>();
    h_c26_templates_by_typeuint32 = cut::<templates::ByTypeuint32>();
    h_c26_templates_on_kinduint8 = cut::<templates::OnKinduint8>();
    h_c26_templates_on_kind_point = cut::<templates::OnKindPoint>();
    h_c26_templates_uses_types = cut::<templates::UsesTypes>();
    h_c26_templates_uses_widths = cut::<templates::UsesWidths>();
    h_c26_templates_uses_deep = cut::<templates::UsesDeep>();
    h_c26_combos_align_odd = cut::<combos::AlignOdd>();
    h_c26_combos_off_arr = cut::<combos::OffArr>();
    h_c26_combos_off_kinds = cut::<combos::OffKinds>();
    h_c26_combos_align_off = cut::<combos::AlignOff>();
    h_c26_combos_indexed_strings = cut::<combos::IndexedStrings>();
    h_c26_combos_indexed_aligned = cut::<combos::IndexedAligned>();
    h_c26_combos_indexed_items = cut::<combos::IndexedItems>();
    h_c26_combos_align_cond = cut::<combos::AlignCond>();
    h_c26_combos_off_cond = cut::<combos::OffCond>();
    h_c26_combos_indexed_cond = cut::<combos::IndexedCond>();
    h_c26_combos_cond_packed = packed_cut::<combos::CondPacked>(9);
    h_c26_combos_opt_arrays = packed_cut::<combos::OptArrays>(14);
    h_c26_combos_cond_many = cut::<combos::CondMany>();
    h_c26_combos_align_opt = cut::<combos::AlignOpt>();
    h_c26_combos_off_opt = cut::<combos::OffOpt>();
    h_c26_combos_indexed_opt = cut::<combos::IndexedOpt>();
    h_c26_combos_indexed_packed = cut::<combos::IndexedPacked>();
    h_c26_combos_all_enums = packed_cut::<combos::AllEnums>(9);
    h_c26_combos_all_masks = cut::<combos::AllMasks>();
    h_c26_combos_index_and_plain = cut::<combos::IndexAndPlain>();
    h_c26_combos_index_and_plains = cut::<combos::IndexAndPlains>();
    h_c26_index_forms = cut::<params::IndexForms>();
    h_c26_index_members = cut::<params::IndexMembers>();
    h_c26_combos_by_text = cut::<combos::ByText>();
    h_c26_combos_by_arm = cut::<combos::ByArm>();
    h_c26_combos_texts = packed_cut::<combos::Texts>(20);
    h_c26_packs_p_vars = packed_cut::<packs::PVars>(4);
    h_c26_packs_p_vars2 = packed_cut_narrow::<packs::PVars2>(2);
    h_c26_packs_p_vars3 = packed_cut_narrow::<packs::PVars3>(2);
    h_c26_packs_p_vars4 = packed_cut_narrow::<packs::PVars4>(2);
    h_c26_packs_p_halves = packed_cut::<packs::PHalves>(2);
    h_c26_packs_p_dyn = packed_cut::<packs::PDyn>(5);
    h_c26_packs_p_packed_in = packed_cut::<packs::PPackedIn>(8);
    h_c26_packs_p_enums = packed_cut::<packs::PEnums>(7);
    h_c26_packs_p_masks = packed_cut::<packs::PMasks>(5);
    h_c26_packs_p_offset = packed_cut::<packs::POffset>(7);
    h_c26_packs_p_more_enums = packed_cut::<packs::PMoreEnums>(8);
    h_c26_packs_p_more_masks = packed_cut::<packs::PMoreMasks>(6);
    h_c26_packs_p_many = packed_cut::<packs::PMany>(12);
    h_c26_packs_p_align_cond = packed_cut::<packs::PAlignCond>(7);
    h_c26_packs_p_holder = packed_cut::<packs::PHolder>(12);
    h_c26_packs_p_holder2 = packed_cut::<packs::PHolder2>(6);
    h_c26_packs_p_arrays2 = packed_cut::<packs::PArrays2>(12);
    h_c26_packs_p_empty = packed_cut::<packs::PEmpty>(2);
    h_c26_packs_p_opts3 = packed_cut::<packs::POpts3>(16);
    h_c26_packs_p_off_kinds = packed_cut::<packs::POffKinds>(12);
    h_c26_packs_p_huge = packed_cut::<packs::PHuge>(1);
    h_c26_packs_p_down = packed_cut::<packs::PDown>(1);
    h_c26_packs_p_high = packed_cut_narrow::<packs::PHigh>(1);
);
pub fn table() -> Vec<(&'static str, fn())> {
    TABLE.to_vec()
}
