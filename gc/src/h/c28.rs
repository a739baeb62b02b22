//! C28: templates and subtypes.
use crate::models::*;
use crate::types::*;
use gcmodel::*;
use sup::*;
mod calls {
    use super::*;
    calc!(
        h_c28_sum8 = templates::Sumsuint8 { a: U8 } |x| x.a < 255; x.sum() == x.a as u32 + 1;
        h_c28_sum16 = templates::Sumsuint16 { a: U16 } |x| x.a < u16::MAX; x.sum() == x.a as u32 + 1;
        h_c28_sum5 = templates::Sumsbit5 { a: Bit<5> } |x| true; x.sum() as u64 == x.a + 1;
    );
}
mod wires {
    use super::*;
    checks!(
        []
        h_c28_pairuint8int16 = wire2::<templates::Pairuint8Int16>();
        h_c28_pairstring_point = wire2::<templates::PairstringPoint>();
        h_c28_pairuint16bool = wire2::<templates::Pairuint16Bool>();
        h_c28_named_pair = wire2::<templates::NamedPair>();
        h_c28_kind_flags = wire2::<templates::KindFlags>();
        h_c28_pair_pairuint8bool_listuint8 = wire2::<templates::PairPairuint8BoolListuint8>();
        h_c28_pairint7listbit9 = wire2::<templates::Pairint7Listbit9>();
        h_c28_point_list = wire2::<templates::PointList>();
        h_c28_strings = wire2::<templates::Strings>();
        h_c28_packed_listuint8 = wire2::<templates::PackedListuint8>();
        h_c28_maybeuint32 = wire2::<templates::Maybeuint32>();
        h_c28_maybe_point = wire2::<templates::MaybePoint>();
        h_c28_maybe_maybeuint8 = wire2::<templates::MaybeMaybeuint8>();
        h_c28_counteduint16 = wire2::<templates::Counteduint16>();
        h_c28_one_ofuint8string = wire2::<templates::OneOfuint8String>();
        h_c28_one_of_point_kind = wire2::<templates::OneOfPointKind>();
        h_c28_selectbooluint16 = wire2::<templates::Selectbooluint16>();
        h_c28_wrapperuint8 = wire2::<templates::Wrapperuint8>();
        h_c28_with_param_sized = wire2::<templates::WithParamSized>();
        h_c28_uses_pairs = wire2::<templates::UsesPairs>();
        h_c28_uses_lists = wire2::<templates::UsesLists>();
        h_c28_uses_many = wire2::<templates::UsesMany>();
        h_c28_uses_nested = wire2::<templates::UsesNested>();
        h_c28_sumsuint8 = wire2::<templates::Sumsuint8>();
        h_c28_sumsuint16 = wire2::<templates::Sumsuint16>();
        h_c28_sumsbit5 = wire2::<templates::Sumsbit5>();
        h_c28_uses_sums = wire2::<templates::UsesSums>();
        h_c28_by_typeuint16 = wire2::<templates::ByTypeuint16>();
        h_c28_by_typeuint32 = wire2::<templates::ByTypeuint32>();
        h_c28_on_kinduint8 = wire2::<templates::OnKinduint8>();
        h_c28_on_kind_point = wire2::<templates::OnKindPoint>();
        h_c28_uses_types = wire2::<templates::UsesTypes>();
        h_c28_uses_widths = wire2::<templates::UsesWidths>();
        h_c28_deepuint8 = wire2::<templates::Deepuint8>();
        h_c28_deepbool = wire2::<templates::Deepbool>();
        h_c28_uses_deep = wire2::<templates::UsesDeep>();
        h_c28_otherwise_pairuint8 = wire2::<templates::OtherwisePairuint8>();
        h_c28_arm_pairs = wire2::<templates::ArmPairs>();
        h_c28_union_pairs = wire2::<templates::UnionPairs>();
        h_c28_uses_arms = wire2::<templates::UsesArms>();
        h_c28_uses_packed_pairs = wire2::<templates::UsesPackedPairs>();
        h_c28_otherwise_pointuint8 = wire2::<templates::OtherwisePointuint8>();
        h_c28_otherwisestring_kind = wire2::<templates::OtherwisestringKind>();
        h_c28_otherwise_listuint16 = wire2::<templates::OtherwiseListuint16>();
        h_c28_otherwise_list_point = wire2::<templates::OtherwiseListPoint>();
        h_c28_uses_otherwise = wire2::<templates::UsesOtherwise>();
        h_c28_fieldsuint8_string = wire2::<templates::Fieldsuint8String>();
        h_c28_fieldsint16_point = wire2::<templates::Fieldsint16Point>();
        h_c28_eitheruint8 = wire2::<templates::Eitheruint8>();
        h_c28_either_point = wire2::<templates::EitherPoint>();
    );
}
pub fn table() -> Vec<(&'static str, fn())> {
    [calls::TABLE, wires::TABLE].concat()
}
