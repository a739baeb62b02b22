//! C14: choices.
use crate::models::*;
use crate::types::*;
use gcmodel::*;
use sup::*;
checks!(
    []
    h_c14_holder_only = wire::<choices::HolderOnly>();
    h_c14_only_case = wire::<choices::OnlyCase>();
    h_c14_nothing = wire::<choices::Nothing>();
    h_c14_nest_by_level = wire::<nest::deep::ByLevel>();
    h_c14_choices_by_int = wire::<choices::ByInt>();
    h_c14_large_cases = wire::<large::Cases>();
    h_c14_large_has_cases = wire::<large::HasCases>();
    h_c14_choices_empty_first = wire::<choices::EmptyFirst>();
    h_c14_choices_holder_empty = wire::<choices::HolderEmpty>();
    h_c14_choices_holder_defaults = wire::<choices::HolderDefaults>();
    h_c14_choices_by_kind = wire::<choices::ByKind>();
    h_c14_choices_by_bool = wire::<choices::ByBool>();
    h_c14_choices_with_default = wire::<choices::WithDefault>();
    h_c14_choices_default_empty = wire::<choices::DefaultEmpty>();
    h_c14_choices_default_arr = wire::<choices::DefaultArr>();
    h_c14_choices_holder = wire::<choices::Holder>();
    h_c14_choices_holder_kind = wire::<choices::HolderKind>();
    h_c14_choices_by_member = wire::<choices::ByMember>();
    h_c14_choices_by_const = wire::<choices::ByConst>();
    h_c14_choices_by_level = wire::<choices::ByLevel>();
    h_c14_choices_by_mask = wire::<choices::ByMask>();
    h_c14_choices_by_alias = wire::<choices::ByAlias>();
    h_c14_choices_holder_member = wire2::<choices::HolderMember>();
    h_c14_exprs_sel = wire::<exprs::Sel>();
    h_c14_params_chosen = wire::<params::Chosen>();
);
pub fn table() -> Vec<(&'static str, fn())> {
    TABLE.to_vec()
}
