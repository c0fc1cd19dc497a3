pub mod bencode_props;
pub mod common_props;
pub mod error_props;
pub mod pace_props;
pub mod turns_props;

pub static PROPS: &[engine::Prop] = &[
    bencode_props::B01,
    bencode_props::B02,
    bencode_props::B03,
    bencode_props::B04,
    bencode_props::B05,
    bencode_props::B07,
    common_props::C01,
    common_props::C02,
    common_props::C03,
    common_props::C04,
    common_props::C05,
    common_props::C06,
    pace_props::B08,
    pace_props::C08,
    error_props::B09,
    turns_props::C07,
];
