pub mod error_props;
pub mod magnet;
pub mod metainfo;
pub mod pace_props;
pub mod text;
pub mod turns_props;

pub static PROPS: &[engine::Prop] = &[
    magnet::T01,
    magnet::T02,
    magnet::T03,
    magnet::T04,
    metainfo::T05,
    metainfo::T06,
    metainfo::T07,
    magnet::T08,
    metainfo::T09,
    turns_props::T10,
    text::S01,
    text::S02,
    text::S03,
    pace_props::T11,
    error_props::T12,
    pace_props::S04,
];
