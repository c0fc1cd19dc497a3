pub mod codec;
pub mod conv;
pub mod pace_props;
pub mod storage;
pub mod wire;

pub static PROPS: &[engine::Prop] = &[
    codec::B06,
    codec::D01,
    codec::D02,
    codec::D03,
    codec::D04,
    codec::D05,
    codec::D14,
    codec::D15,
    codec::D16,
    storage::D06,
    storage::D07,
    storage::D08,
    storage::D09,
    storage::D10,
    storage::D11,
    storage::D12,
    storage::D13,
    storage::D17,
    storage::D19,
    wire::D18,
    pace_props::D20,
    pace_props::D21,
];
