#![allow(dead_code)]
#[path = "p/common.rs"]
mod common;
mod conv;
mod m;
mod obj;
mod prog;
mod psim;
mod run;
mod src;

fn main() {
    run::main(&m::prop);
}
