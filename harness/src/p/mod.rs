//! Properties of the tools, decided on simulated processes
use crate::run::Prop;

pub mod common;
mod c01;
mod c02;
mod c03;
mod c04;
mod c05;
mod c06;
mod c07;
mod c08;
mod c09;
mod c10;
mod c17;
mod c23;
mod c25;
mod ops;

pub fn prop(id: &str) -> Option<Prop> {
    Some(match id {
        "C01" => c01::PROP,
        "C02" => c02::PROP,
        "C03" => c03::PROP,
        "C04" => c04::PROP,
        "C05" => c05::PROP,
        "C06" => c06::PROP,
        "C07" => c07::PROP,
        "C08" => c08::PROP,
        "C09" => c09::PROP,
        "C10" => c10::PROP,
        "C17" => c17::PROP,
        "C23" => c23::PROP,
        "C25" => c25::PROP,
        _ => return None,
    })
}
