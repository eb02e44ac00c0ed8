//! Properties of the machine, decided on the real processor, memory, loader, emulated kernel and
//! disassembler with simulated memory, devices and environment
use crate::run::Prop;

mod asm;
mod c11;
mod c12;
mod c13;
mod c14;
mod c15;
mod c16;
mod c18;
mod c19;
mod c20;
mod c21;
mod c22;
mod c24;
mod code;
pub mod gen;
pub mod load;
pub mod lock;
pub mod model;
pub mod sim;

pub fn prop(id: &str) -> Option<Prop> {
    Some(match id {
        "C11" => c11::PROP,
        "C12" => c12::PROP,
        "C13" => c13::PROP,
        "C14" => c14::PROP,
        "C15" => c15::PROP,
        "C16" => c16::PROP,
        "C18" => c18::PROP,
        "C19" => c19::PROP,
        "C20" => c20::PROP,
        "C21" => c21::PROP,
        "C22" => c22::PROP,
        "C24" => c24::PROP,
        _ => return None,
    })
}

pub const REAL: &str = "processor (instruction handlers, address translation, trap entry), machine loop, physical memory, all from the crate built from /repo";
pub const STUB: &str = "I/O device (values chosen by the simulator, accesses recorded), everything that changes memory, page tables and registers between two steps";
