//! C15: unions.
use crate::models::*;
use crate::types::*;
use gcmodel::*;
use sup::*;
checks!(
    []
    h_c15_unions_simple = wire::<unions::Simple>();
    h_c15_large_tags = wire::<large::Tags>();
    h_c15_tags_large = tags::<large::Tags>(140, 4);
    h_c15_unions_nested = wire::<unions::Nested>();
    h_c15_unions_holder = wire::<unions::Holder>();
    h_c15_tags_simple = tags::<unions::Simple>(7, 8);
    h_c15_tags_nested = tags::<unions::Nested>(3, 3);
    h_c15_packed = trip::<packs::PUnion>();
    h_c15_packed2 = trip::<packs::PUnion2>();
);
pub fn table() -> Vec<(&'static str, fn())> {
    TABLE.to_vec()
}
