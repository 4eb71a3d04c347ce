#![allow(clippy::all)]

pub mod zs;
pub mod jw;
pub mod gold;
pub mod img;
pub mod prog;
pub mod more;
pub mod ovf;
pub mod sys;
pub mod props;
pub fn entries() -> &'static [(&'static str, extern "C" fn())] { props::ENTRIES }
