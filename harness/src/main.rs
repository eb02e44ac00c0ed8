#![allow(dead_code)]
mod obj;
mod p;
mod prog;
mod psim;
mod run;
mod src;

fn main() {
    run::main(&p::prop);
}
