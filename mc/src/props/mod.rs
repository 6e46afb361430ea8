//! The explored spaces, one module per property.
use crate::case::*;
use crate::engine::*;
use serde_json::{json};

mod c01;
mod c02;
mod c03;
mod c04;
mod c05;
mod c06;
mod c07;
mod c08;
mod c09;
mod c10;
mod c11;
mod c12;
mod c13;
mod c14;
mod c15;
mod c16;
mod c17;
mod c18;
mod c19;
mod c20;
mod c21;
mod c22;
mod c23;
mod c24;
mod c25;
mod c26;
mod scale;
mod words;

pub fn all() -> Vec<Prop> {
    vec![
        c01::prop(),
        c02::prop(),
        c03::prop(),
        c04::prop(),
        c05::prop(),
        c06::prop(),
        c07::prop(),
        c08::prop(),
        c09::prop(),
        c10::prop(),
        c11::prop(),
        c12::prop(),
        c13::prop(),
        c14::prop(),
        c15::prop(),
        c16::prop(),
        c17::prop(),
        c18::prop(),
        c19::prop(),
        c20::prop(),
        c21::prop(),
        c22::prop(),
        c23::prop(),
        c24::prop(),
        c25::prop(),
        c26::prop(),
    ]
}

pub fn get(id: &str) -> Option<Prop> {
    all().into_iter().find(|p| p.id == id)
}

pub const FS_MODEL: &str = "the in-memory file system answers stat/open/read/realpath like Linux; bound to the disk by the replays counted in replayed_on_real_file_system";
pub const ORACLE: &str = "the expected outcome of every run is computed by the independent reference model in mc/src/spec.rs";
