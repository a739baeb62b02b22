//! C32: reading into an object that was used before.
use crate::models::*;
use crate::types::*;
use gcmodel::*;
use sup::*;
checks!(
    []
    h_c32_nest_holder = reuse::<nest::Holder>();
    h_c32_holder_only = reuse::<choices::HolderOnly>();
    h_c32_structs_ints = reuse::<structs::Ints>();
    h_c32_large_fields = reuse::<large::Fields>();
    h_c32_large_dm = reuse::<large::Dm>();
    h_c32_structs_fields = reuse::<structs::Fields>();
    h_c32_structs_vars = reuse::<structs::Vars>();
    h_c32_structs_vars2 = reuse::<structs::Vars2>();
    h_c32_structs_vars3 = reuse::<structs::Vars3>();
    h_c32_structs_vars4 = reuse::<structs::Vars4>();
    h_c32_structs_reals = reuse::<structs::Reals>();
    h_c32_structs_halves = reuse::<structs::Halves>();
    h_c32_structs_blobs = reuse::<structs::Blobs>();
    h_c32_structs_aligned = reuse::<structs::Aligned>();
    h_c32_structs_nested = reuse::<structs::Nested>();
    h_c32_structs_arrays = reuse::<structs::Arrays>();
    h_c32_structs_arrays2 = reuse::<structs::Arrays2>();
    h_c32_structs_packed_in = reuse::<structs::PackedIn>();
    h_c32_structs_dyn_bits = reuse::<structs::DynBits>();
    h_c32_structs_dyn_wide = reuse::<structs::DynWide>();
    h_c32_structs_dyn_arr = reuse::<structs::DynArr>();
    h_c32_structs_empty = reuse::<structs::Empty>();
    h_c32_structs_has_empty = reuse::<structs::HasEmpty>();
    h_c32_structs_names = reuse::<structs::Names>();
    h_c32_offsets_one = reuse::<offsets::One>();
    h_c32_offsets_indexed = reuse::<offsets::Indexed>();
    h_c32_offsets_indexed_obj = reuse::<offsets::IndexedObj>();
    h_c32_combos_align_odd = reuse::<combos::AlignOdd>();
    h_c32_combos_off_arr = reuse::<combos::OffArr>();
    h_c32_combos_off_kinds = reuse::<combos::OffKinds>();
    h_c32_combos_align_off = reuse::<combos::AlignOff>();
    h_c32_combos_indexed_strings = reuse::<combos::IndexedStrings>();
    h_c32_combos_indexed_aligned = reuse::<combos::IndexedAligned>();
    h_c32_combos_indexed_items = reuse::<combos::IndexedItems>();
    h_c32_optionals_opts = reuse::<optionals::Opts>();
    h_c32_optionals_opts2 = reuse::<optionals::Opts2>();
    h_c32_optionals_opts3 = reuse::<optionals::Opts3>();
    h_c32_optionals_conds = reuse::<optionals::Conds>();
    h_c32_optionals_cond_kind = reuse::<optionals::CondKind>();
    h_c32_optionals_cond_opt = reuse::<optionals::CondOpt>();
    h_c32_combos_align_cond = reuse::<combos::AlignCond>();
    h_c32_combos_off_cond = reuse::<combos::OffCond>();
    h_c32_combos_indexed_cond = reuse::<combos::IndexedCond>();
    h_c32_combos_cond_many = reuse::<combos::CondMany>();
    h_c32_choices_by_int = reuse::<choices::ByInt>();
    h_c32_large_cases = reuse::<large::Cases>();
    h_c32_large_has_cases = reuse::<large::HasCases>();
    h_c32_choices_empty_first = reuse::<choices::EmptyFirst>();
    h_c32_choices_holder_empty = reuse::<choices::HolderEmpty>();
    h_c32_choices_holder_defaults = reuse::<choices::HolderDefaults>();
    h_c32_choices_by_kind = reuse::<choices::ByKind>();
    h_c32_choices_by_bool = reuse::<choices::ByBool>();
    h_c32_choices_with_default = reuse::<choices::WithDefault>();
    h_c32_choices_default_empty = reuse::<choices::DefaultEmpty>();
    h_c32_choices_default_arr = reuse::<choices::DefaultArr>();
    h_c32_choices_holder = reuse::<choices::Holder>();
    h_c32_choices_holder_kind = reuse::<choices::HolderKind>();
    h_c32_choices_by_member = reuse::<choices::ByMember>();
    h_c32_choices_by_const = reuse::<choices::ByConst>();
    h_c32_choices_by_level = reuse::<choices::ByLevel>();
    h_c32_choices_by_mask = reuse::<choices::ByMask>();
    h_c32_choices_by_alias = reuse::<choices::ByAlias>();
    h_c32_choices_holder_member = reuse::<choices::HolderMember>();
    h_c32_exprs_sel = reuse::<exprs::Sel>();
    h_c32_params_chosen = reuse::<params::Chosen>();
    h_c32_unions_simple = reuse::<unions::Simple>();
    h_c32_large_tags = reuse::<large::Tags>();
    h_c32_unions_nested = reuse::<unions::Nested>();
    h_c32_unions_holder = reuse::<unions::Holder>();
    h_c32_items = reuse::<params::Items>();
    h_c32_large_has_p = reuse::<large::HasP>();
    h_c32_simple = reuse::<params::Simple>();
    h_c32_indexed = reuse::<params::Indexed>();
    h_c32_inner = reuse::<params::Inner>();
    h_c32_middle = reuse::<params::Middle>();
    h_c32_outer = reuse::<params::Outer>();
    h_c32_heads = reuse::<params::Heads>();
    h_c32_cast = reuse::<params::Cast>();
    h_c32_kind_item = reuse::<params::KindItem>();
    h_c32_kinds = reuse::<params::Kinds>();
    h_c32_others = reuse::<params::Others>();
    h_c32_by_function = reuse::<params::ByFunction>();
    h_c32_by_optional = reuse::<params::ByOptional>();
    h_c32_combos_index_and_plain = reuse::<combos::IndexAndPlain>();
    h_c32_combos_index_and_plains = reuse::<combos::IndexAndPlains>();
    h_c32_index_forms = reuse::<params::IndexForms>();
    h_c32_index_members = reuse::<params::IndexMembers>();
    h_c32_combos_by_text = reuse::<combos::ByText>();
    h_c32_combos_by_arm = reuse::<combos::ByArm>();
    h_c32_combos_texts = reuse::<combos::Texts>();
    h_c32_pairuint8int16 = reuse::<templates::Pairuint8Int16>();
    h_c32_pairstring_point = reuse::<templates::PairstringPoint>();
    h_c32_pairuint16bool = reuse::<templates::Pairuint16Bool>();
    h_c32_named_pair = reuse::<templates::NamedPair>();
    h_c32_kind_flags = reuse::<templates::KindFlags>();
    h_c32_pair_pairuint8bool_listuint8 = reuse::<templates::PairPairuint8BoolListuint8>();
    h_c32_pairint7listbit9 = reuse::<templates::Pairint7Listbit9>();
    h_c32_point_list = reuse::<templates::PointList>();
    h_c32_strings = reuse::<templates::Strings>();
    h_c32_packed_listuint8 = reuse::<templates::PackedListuint8>();
    h_c32_maybeuint32 = reuse::<templates::Maybeuint32>();
    h_c32_maybe_point = reuse::<templates::MaybePoint>();
    h_c32_maybe_maybeuint8 = reuse::<templates::MaybeMaybeuint8>();
    h_c32_counteduint16 = reuse::<templates::Counteduint16>();
    h_c32_one_ofuint8string = reuse::<templates::OneOfuint8String>();
    h_c32_one_of_point_kind = reuse::<templates::OneOfPointKind>();
    h_c32_selectbooluint16 = reuse::<templates::Selectbooluint16>();
    h_c32_wrapperuint8 = reuse::<templates::Wrapperuint8>();
    h_c32_with_param_sized = reuse::<templates::WithParamSized>();
    h_c32_uses_pairs = reuse::<templates::UsesPairs>();
    h_c32_uses_lists = reuse::<templates::UsesLists>();
    h_c32_uses_many = reuse::<templates::UsesMany>();
    h_c32_uses_nested = reuse::<templates::UsesNested>();
    h_c32_sumsuint8 = reuse::<templates::Sumsuint8>();
    h_c32_sumsuint16 = reuse::<templates::Sumsuint16>();
    h_c32_sumsbit5 = reuse::<templates::Sumsbit5>();
    h_c32_uses_sums = reuse::<templates::UsesSums>();
    h_c32_by_typeuint16 = reuse::<templates::ByTypeuint16>();
    h_c32_by_typeuint32 = reuse::<templates::ByTypeuint32>();
    h_c32_on_kinduint8 = reuse::<templates::OnKinduint8>();
    h_c32_on_kind_point = reuse::<templates::OnKindPoint>();
    h_c32_uses_types = reuse::<templates::UsesTypes>();
    h_c32_uses_widths = reuse::<templates::UsesWidths>();
    h_c32_deepuint8 = reuse::<templates::Deepuint8>();
    h_c32_deepbool = reuse::<templates::Deepbool>();
    h_c32_uses_deep = reuse::<templates::UsesDeep>();
    h_c32_otherwise_pairuint8 = reuse::<templates::OtherwisePairuint8>();
    h_c32_arm_pairs = reuse::<templates::ArmPairs>();
    h_c32_union_pairs = reuse::<templates::UnionPairs>();
    h_c32_uses_arms = reuse::<templates::UsesArms>();
    h_c32_uses_packed_pairs = reuse::<templates::UsesPackedPairs>();
    h_c32_otherwise_pointuint8 = reuse::<templates::OtherwisePointuint8>();
    h_c32_otherwisestring_kind = reuse::<templates::OtherwisestringKind>();
    h_c32_otherwise_listuint16 = reuse::<templates::OtherwiseListuint16>();
    h_c32_otherwise_list_point = reuse::<templates::OtherwiseListPoint>();
    h_c32_uses_otherwise = reuse::<templates::UsesOtherwise>();
    h_c32_fieldsuint8_string = reuse::<templates::Fieldsuint8String>();
    h_c32_fieldsint16_point = reuse::<templates::Fieldsint16Point>();
    h_c32_eitheruint8 = reuse::<templates::Eitheruint8>();
    h_c32_either_point = reuse::<templates::EitherPoint>();
);
pub fn table() -> Vec<(&'static str, fn())> {
    TABLE.to_vec()
}
