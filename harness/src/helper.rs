//! Small programs around the library under test that run as simulated processes of their own.
#![allow(dead_code)]
mod conv;
mod obj;
mod src;
use crate::{conv::{from_lib, to_lib}, obj::Obj};
use std::fs;
use telda2::{
    aalv::{obj::*, read_archive},
    blf4::Blf4,
    machine::Machine,
    mem::{LazyMain, PanickingIO},
};

fn run(cmd: &str, args: &[String]) -> i32 {
    match cmd {
        // write-obj <description> <object file>
        "write-obj" => {
            let d = fs::read_to_string(&args[0]).expect("HARNESS: description");
            match to_lib(&Obj::from_text(&d)).write_to_file(&args[1]) {
                Ok(()) => 0,
                Err(e) => {
                    eprintln!("{e}");
                    1
                }
            }
        }
        "read-obj" => match Object::from_file(&args[0]) {
            Ok(o) => {
                print!("{}", from_lib(&o).to_text());
                0
            }
            Err(e) => {
                eprintln!("{e}");
                1
            }
        },
        "read-ar" => {
            let mut it = match read_archive(&args[0]) {
                Ok(it) => it,
                Err(e) => {
                    eprintln!("{e}");
                    return 1;
                }
            };
            let mut i = 0;
            loop {
                match it.next(Object::from_aalv_reader) {
                    Ok(Some(o)) => {
                        println!("member {i}\n{}", from_lib(&o).to_text());
                        i += 1;
                    }
                    Ok(None) => return 0,
                    Err(e) => {
                        eprintln!("{e}");
                        return 1;
                    }
                }
            }
        }
        // prints everything that is the same at the start of every run of a program
        "init-state" => {
            let o = match Object::from_file(&args[0]) {
                Ok(o) => o,
                Err(e) => {
                    eprintln!("{e}");
                    return 1;
                }
            };
            let mut m = Machine::new(LazyMain::new(PanickingIO), Blf4::new());
            m.load_user_binary(&o);
            let c = &m.cpu;
            let st = |c: &Blf4| {
                format!("rs {:04x} rf {:04x} rl {:04x} rp {:04x} rh {:04x} pc {:04x} flags {:?}", c.stack, c.frame, c.link, c.page, c.trap_handler, c.program_counter, c.flags)
            };
            println!("{}", st(&m.cpu));
            // what the program finds in its memory, one way or the other
            for page in 0..512u32 {
                let at = (page * 128) as u16;
                let mut read = |i: u16| {
                    let mut x = m.cpu.context(&mut m.memory);
                    x.read(at + i).or_else(|_| {
                        x.cpu.program_counter = at + i;
                        x.fetch()
                    })
                };
                if read(0).is_ok() {
                    let b: Vec<u8> = (0..128).map(|i| read(i).unwrap_or(0)).collect();
                    println!("{at:04x} {}", crate::obj::hex(&b));
                }
            }
            0
        }
        _ => panic!("HARNESS: no helper {cmd}"),
    }
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    std::process::exit(run(&args[0], &args[1..]));
}
