//! C13: optional and conditional fields.
use crate::models::*;
use crate::types::*;
use gcmodel::*;
use sup::*;
checks!(
    []
    h_c13_optionals_opts = wire2::<optionals::Opts>();
    h_c13_optionals_opts2 = wire2::<optionals::Opts2>();
    h_c13_optionals_opts3 = wire2::<optionals::Opts3>();
    h_c13_optionals_conds = wire2::<optionals::Conds>();
    h_c13_optionals_cond_sum = wire2::<optionals::CondSum>();
    h_c13_optionals_cond_kind = wire2::<optionals::CondKind>();
    h_c13_optionals_cond_opt = wire2::<optionals::CondOpt>();
    h_c13_combos_align_cond = wire2::<combos::AlignCond>();
    h_c13_combos_off_cond = wire2::<combos::OffCond>();
    h_c13_combos_indexed_cond = wire2::<combos::IndexedCond>();
    h_c13_combos_cond_packed = packed_wire::<combos::CondPacked>(9);
    h_c13_combos_opt_arrays = packed_wire::<combos::OptArrays>(14);
    h_c13_combos_cond_many = wire2::<combos::CondMany>();
    h_c13_combos_align_opt = trip::<combos::AlignOpt>();
    h_c13_combos_off_opt = trip::<combos::OffOpt>();
    h_c13_combos_indexed_opt = trip::<combos::IndexedOpt>();
);
pub fn table() -> Vec<(&'static str, fn())> {
    TABLE.to_vec()
}
