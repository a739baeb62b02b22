//! C20: sizes.
use crate::models::*;
use crate::types::*;
use gcmodel::*;
use sup::*;
checks!(
    []
    h_c20_nest_holder = size::<nest::Holder>();
    h_c20_holder_only = size::<choices::HolderOnly>();
    h_c20_base_kind = size::<base::Kind>();
    h_c20_large_long_tag = size::<large::LongTag>();
    h_c20_large_long_plain = size::<large::LongPlain>();
    h_c20_large_long_bits3 = size::<large::LongBits3>();
    h_c20_large_long_objects = size::<large::LongObjects>();
    h_c20_large_long_strings = size::<large::LongStrings>();
    h_c20_large_long_fixed = size::<large::LongFixed>();
    h_c20_large_long_counted = size::<large::LongCounted>();
    h_c20_large_long_packed_kinds = size::<large::LongPackedKinds>();
    h_c20_large_tags = size::<large::Tags>();
    h_c20_index_forms = size_at::<params::IndexForms>(frame2());
    h_c20_index_members = size_at::<params::IndexMembers>(frame2());
    h_c20_large_fields = size::<large::Fields>();
    h_c20_large_has_cases = size::<large::HasCases>();
    h_c20_large_items = size::<large::Items>();
    h_c20_large_bits = size::<large::Bits>();
    h_c20_large_dm = size::<large::Dm>();
    h_c20_large_has_p = size::<large::HasP>();
    h_c20_base_flags = size::<base::Flags>();
    h_c20_structs_ints = size::<structs::Ints>();
    h_c20_structs_fields = size::<structs::Fields>();
    h_c20_structs_vars = size::<structs::Vars>();
    h_c20_structs_vars2 = size::<structs::Vars2>();
    h_c20_structs_vars3 = size::<structs::Vars3>();
    h_c20_structs_vars4 = size::<structs::Vars4>();
    h_c20_structs_reals = size::<structs::Reals>();
    h_c20_structs_halves = size::<structs::Halves>();
    h_c20_structs_blobs = size::<structs::Blobs>();
    h_c20_structs_aligned = size::<structs::Aligned>();
    h_c20_structs_nested = size::<structs::Nested>();
    h_c20_structs_arrays = size::<structs::Arrays>();
    h_c20_structs_arrays2 = size::<structs::Arrays2>();
    h_c20_structs_packed_in = packed_size::<structs::PackedIn>(8);
    h_c20_structs_dyn_bits = size::<structs::DynBits>();
    h_c20_structs_dyn_wide = size::<structs::DynWide>();
    h_c20_structs_dyn_arr = size::<structs::DynArr>();
    h_c20_structs_empty = size::<structs::Empty>();
    h_c20_structs_has_empty = size::<structs::HasEmpty>();
    h_c20_structs_names = size::<structs::Names>();
    h_c20_offsets_one = size::<offsets::One>();
    h_c20_offsets_indexed = size::<offsets::Indexed>();
    h_c20_offsets_indexed_obj = size::<offsets::IndexedObj>();
    h_c20_optionals_opts = size::<optionals::Opts>();
    h_c20_optionals_opts2 = size::<optionals::Opts2>();
    h_c20_optionals_opts3 = size::<optionals::Opts3>();
    h_c20_optionals_conds = size::<optionals::Conds>();
    h_c20_optionals_cond_kind = size::<optionals::CondKind>();
    h_c20_optionals_cond_opt = size::<optionals::CondOpt>();
    h_c20_choices_by_int = size::<choices::ByInt>();
    h_c20_choices_empty_first = size::<choices::EmptyFirst>();
    h_c20_choices_holder_empty = size::<choices::HolderEmpty>();
    h_c20_choices_holder_defaults = size::<choices::HolderDefaults>();
    h_c20_choices_by_kind = size::<choices::ByKind>();
    h_c20_choices_by_bool = size::<choices::ByBool>();
    h_c20_choices_with_default = size::<choices::WithDefault>();
    h_c20_choices_default_empty = size::<choices::DefaultEmpty>();
    h_c20_choices_default_arr = size::<choices::DefaultArr>();
    h_c20_choices_holder = size::<choices::Holder>();
    h_c20_choices_holder_kind = size::<choices::HolderKind>();
    h_c20_unions_simple = size::<unions::Simple>();
    h_c20_unions_nested = size::<unions::Nested>();
    h_c20_unions_holder = size::<unions::Holder>();
    h_c20_enums_all = size::<enums::All>();
    h_c20_masks_all = size::<masks::All>();
    h_c20_masks_tests = size::<masks::Tests>();
    h_c20_packs_p_point = packed_size::<packs::PPoint>(2);
    h_c20_packs_p_fixed = packed_size::<packs::PFixed>(2);
    h_c20_packs_p_kind = packed_size::<packs::PKind>(1);
    h_c20_packs_p_flags = packed_size::<packs::PFlags>(1);
    h_c20_packs_p_ints = packed_size::<packs::PInts>(8);
    h_c20_packs_p_fields = packed_size::<packs::PFields>(8);
    h_c20_packs_p_nested = packed_size::<packs::PNested>(7);
    h_c20_packs_p_union = packed_size::<packs::PUnion>(4);
    h_c20_packs_p_union2 = packed_size::<packs::PUnion2>(5);
    h_c20_packs_p_opts = packed_size::<packs::POpts>(10);
    h_c20_packs_p_opts2 = packed_size::<packs::POpts2>(16);
    h_c20_packs_p_conds = packed_size::<packs::PConds>(12);
    h_c20_packs_p_choice = packed_size::<packs::PChoice>(5);
    h_c20_packs_p_holder_empty = packed_size::<packs::PHolderEmpty>(7);
    h_c20_packs_p_holder_defaults = packed_size::<packs::PHolderDefaults>(14);
    h_c20_packs_p_holder_member = packed_size::<packs::PHolderMember>(10);
    h_c20_packs_p_with_default = packed_size::<packs::PWithDefault>(2);
    h_c20_packs_p_empty_first = packed_size::<packs::PEmptyFirst>(5);
    h_c20_packs_p_reals = packed_size::<packs::PReals>(4);
    h_c20_packs_p_arrays = packed_size::<packs::PArrays>(11);
    h_c20_packs_p_blobs = packed_size::<packs::PBlobs>(9);
    h_c20_packs_p_aligned = packed_size::<packs::PAligned>(10);
    h_c20_choices_by_member = size::<choices::ByMember>();
    h_c20_choices_by_const = size::<choices::ByConst>();
    h_c20_choices_by_level = size::<choices::ByLevel>();
    h_c20_choices_by_mask = size::<choices::ByMask>();
    h_c20_choices_by_alias = size::<choices::ByAlias>();
    h_c20_choices_holder_member = size::<choices::HolderMember>();
    h_c20_exprs_lengths = size::<exprs::Lengths>();
    h_c20_exprs_sel = size::<exprs::Sel>();
    h_c20_exprs_selects = size::<exprs::Selects>();
    h_c20_exprs_uni = size::<exprs::Uni>();
    h_c20_params_items = size::<params::Items>();
    h_c20_params_simple = size::<params::Simple>();
    h_c20_params_indexed = size::<params::Indexed>();
    h_c20_params_inner = size::<params::Inner>();
    h_c20_params_middle = size::<params::Middle>();
    h_c20_params_outer = size::<params::Outer>();
    h_c20_params_heads = size::<params::Heads>();
    h_c20_params_casts = size::<params::Casts>();
    h_c20_params_kind_item = size::<params::KindItem>();
    h_c20_params_kinds = size::<params::Kinds>();
    h_c20_params_chosen = size::<params::Chosen>();
    h_c20_params_either = size::<params::Either>();
    h_c20_params_others = size::<params::Others>();
    h_c20_params_by_function = size::<params::ByFunction>();
    h_c20_params_by_optional = size::<params::ByOptional>();
    h_c20_consts_from_const = size::<consts::FromConst>();
    h_c20_consts_from_negative = size::<consts::FromNegative>();
    h_c20_consts_mask_from_const = size::<consts::MaskFromConst>();
    h_c20_consts_uses = size::<consts::Uses>();
    h_c20_consts_returns = size::<consts::Returns>();
    h_c20_templates_pairuint8_int16 = size::<templates::Pairuint8Int16>();
    h_c20_templates_pairstring_point = size::<templates::PairstringPoint>();
    h_c20_templates_kind_flags = size::<templates::KindFlags>();
    h_c20_templates_pairint7_listbit9 = size::<templates::Pairint7Listbit9>();
    h_c20_templates_point_list = size::<templates::PointList>();
    h_c20_templates_packed_listuint8 = size::<templates::PackedListuint8>();
    h_c20_templates_maybe_point = size::<templates::MaybePoint>();
    h_c20_templates_maybe_maybeuint8 = size::<templates::MaybeMaybeuint8>();
    h_c20_templates_counteduint16 = size::<templates::Counteduint16>();
    h_c20_templates_one_ofuint8_string = size::<templates::OneOfuint8String>();
    h_c20_templates_one_of_point_kind = size::<templates::OneOfPointKind>();
    h_c20_templates_selectbooluint16 = size::<templates::Selectbooluint16>();
    h_c20_templates_wrapperuint8 = size::<templates::Wrapperuint8>();
    h_c20_templates_with_param_sized = size::<templates::WithParamSized>();
    h_c20_templates_uses_pairs = size::<templates::UsesPairs>();
    h_c20_templates_uses_lists = size::<templates::UsesLists>();
    h_c20_templates_uses_many = size::<templates::UsesMany>();
    h_c20_templates_uses_nested = size::<templates::UsesNested>();
    h_c20_templates_sumsuint8 = size::<templates::Sumsuint8>();
    h_c20_templates_sumsuint16 = size::<templates::Sumsuint16>();
    h_c20_templates_sumsbit5 = size::<templates::Sumsbit5>();
    h_c20_templates_uses_sums = size::<templates::UsesSums>();
    h_c20_templates_by_typeuint16 = size::<templates::ByTypeuint16>();
    h_c20_templates_by_typeuint32 = size::<templates::ByTypeuint32>();
    h_c20_templates_on_kinduint8 = size::<templates::OnKinduint8>();
    h_c20_templates_on_kind_point = size::<templates::OnKindPoint>();
    h_c20_templates_uses_types = size::<templates::UsesTypes>();
    h_c20_templates_uses_widths = size::<templates::UsesWidths>();
    h_c20_templates_uses_deep = size::<templates::UsesDeep>();
    h_c20_templates_otherwise_pairuint8 = size::<templates::OtherwisePairuint8>();
    h_c20_templates_arm_pairs = size::<templates::ArmPairs>();
    h_c20_templates_union_pairs = size::<templates::UnionPairs>();
    h_c20_templates_uses_arms = size::<templates::UsesArms>();
    h_c20_templates_uses_packed_pairs = size::<templates::UsesPackedPairs>();
    h_c20_templates_otherwise_pointuint8 = size::<templates::OtherwisePointuint8>();
    h_c20_templates_otherwisestring_kind = size::<templates::OtherwisestringKind>();
    h_c20_templates_otherwise_listuint16 = size::<templates::OtherwiseListuint16>();
    h_c20_templates_otherwise_list_point = size::<templates::OtherwiseListPoint>();
    h_c20_templates_uses_otherwise = size::<templates::UsesOtherwise>();
    h_c20_templates_fieldsuint8_string = size::<templates::Fieldsuint8String>();
    h_c20_templates_fieldsint16_point = size::<templates::Fieldsint16Point>();
    h_c20_templates_eitheruint8 = size::<templates::Eitheruint8>();
    h_c20_templates_either_point = size::<templates::EitherPoint>();
    h_c20_combos_align_odd = size::<combos::AlignOdd>();
    h_c20_combos_off_arr = size::<combos::OffArr>();
    h_c20_combos_off_kinds = size::<combos::OffKinds>();
    h_c20_combos_align_off = size::<combos::AlignOff>();
    h_c20_combos_indexed_strings = size::<combos::IndexedStrings>();
    h_c20_combos_indexed_aligned = size::<combos::IndexedAligned>();
    h_c20_combos_indexed_items = size::<combos::IndexedItems>();
    h_c20_combos_align_cond = size::<combos::AlignCond>();
    h_c20_combos_off_cond = size::<combos::OffCond>();
    h_c20_combos_indexed_cond = size::<combos::IndexedCond>();
    h_c20_combos_cond_packed = packed_size::<combos::CondPacked>(9);
    h_c20_combos_opt_arrays = packed_size::<combos::OptArrays>(14);
    h_c20_combos_cond_many = size::<combos::CondMany>();
    h_c20_combos_align_opt = size::<combos::AlignOpt>();
    h_c20_combos_off_opt = size::<combos::OffOpt>();
    h_c20_combos_indexed_opt = size::<combos::IndexedOpt>();
    h_c20_combos_indexed_packed = size::<combos::IndexedPacked>();
    h_c20_combos_all_enums = packed_size::<combos::AllEnums>(9);
    h_c20_combos_all_masks = size::<combos::AllMasks>();
    h_c20_packs_p_vars = packed_size::<packs::PVars>(4);
    h_c20_packs_p_vars2 = packed_size_narrow::<packs::PVars2>(2);
    h_c20_packs_p_vars2_deep = packed_size::<packs::PVars2>(2);
    h_c20_packs_p_vars3 = packed_size_narrow::<packs::PVars3>(2);
    h_c20_packs_p_vars3_deep = packed_size::<packs::PVars3>(2);
    h_c20_packs_p_vars4 = packed_size_narrow::<packs::PVars4>(2);
    h_c20_packs_p_vars4_deep = packed_size::<packs::PVars4>(2);
    h_c20_packs_p_halves = packed_size::<packs::PHalves>(2);
    h_c20_packs_p_dyn = packed_size::<packs::PDyn>(5);
    h_c20_packs_p_dyn_wide = packed_size::<packs::PDynWide>(9);
    h_c20_packs_p_packed_in = packed_size::<packs::PPackedIn>(8);
    h_c20_packs_p_enums = packed_size::<packs::PEnums>(7);
    h_c20_packs_p_masks = packed_size::<packs::PMasks>(5);
    h_c20_packs_p_offset = packed_size::<packs::POffset>(7);
    h_c20_packs_p_more_enums = packed_size::<packs::PMoreEnums>(8);
    h_c20_packs_p_more_masks = packed_size::<packs::PMoreMasks>(6);
    h_c20_packs_p_many = packed_size::<packs::PMany>(12);
    h_c20_packs_p_align_cond = packed_size::<packs::PAlignCond>(7);
    h_c20_packs_p_holder = packed_size::<packs::PHolder>(12);
    h_c20_packs_p_holder2 = packed_size::<packs::PHolder2>(6);
    h_c20_packs_p_arrays2 = packed_size::<packs::PArrays2>(12);
    h_c20_packs_p_empty = packed_size::<packs::PEmpty>(2);
    h_c20_packs_p_opts3 = packed_size::<packs::POpts3>(16);
    h_c20_packs_p_off_kinds = packed_size::<packs::POffKinds>(12);
    h_c20_packs_p_huge = packed_size::<packs::PHuge>(1);
    h_c20_packs_p_down = packed_size::<packs::PDown>(1);
    h_c20_packs_p_high = packed_size_narrow::<packs::PHigh>(1);
    h_c20_packs_p_high_deep = packed_size::<packs::PHigh>(1);
);
pub fn table() -> Vec<(&'static str, fn())> {
    TABLE.to_vec()
}
