//! C11: nothing but r1 to r10 is different from one start to the next
use super::code;
use crate::check;
use crate::common::{noise, ordinary};
use crate::obj::hex;
use crate::psim::text;
use crate::run::{Ctx, Prop, Res};
use crate::src::mix;

pub const PROP: Prop = Prop {
    id: "C11",
    run,
    quick: 20_000,
    thorough: 800_000,
    level: "exploration",
    rule: "a run generates a program that writes r1 to r10 before it reads them (random code; programs with calls, loops, memory and console; half of these begin with printing all flags, registers and parts of their memory), or a random object file, starts it several times under different process entropy and splits of transfers, and compares the state and memory at the start (through the library in a process of its own) and the output, final trap and exit status of the shipped emulator; non-trivial: the processes drew entropy",
    real: "the shipped t; loader, processor and memory of the library in processes of their own",
    stub: "the system calls, which an interposed library decides, among them the source of randomness",
    assumptions: &["a program that is started the same way reads the same input"],
    probes: &["entropy drawn", "random object", "program with input", "program that halts", "program that faults", "asked for more input than there is", "output", "much output"],
};

fn run(c: &mut Ctx) -> Res {
    let any = c.src.chance(1, 5);
    let code = if any {
        c.count("random object");
        code::Code { obj: super::load::gen_loadable(&mut c.src), ..Default::default() }
    } else {
        code::gen(&mut c.src, true)
    };
    let o = &code.obj;
    c.note(|| super::c12::describe(o));
    c.ps().put("prog", &o.encode(), 0o644);
    let n = c.src.range(2, 3);
    let mut first: Option<Vec<u8>> = None;
    for _ in 0..n {
        let plan = noise(&mut c.src);
        let r = c.run("dsth", &["init-state", "prog"], b"", &plan);
        ordinary("the loader", &r)?;
        check!(r.ok(), "loading", "the program cannot be loaded: {}", text(&r.stderr));
        if r.entropy_calls > 0 {
            c.nontrivial = true;
            c.count("entropy drawn");
        }
        let t = String::from_utf8_lossy(&r.stdout).into_owned();
        let head = t.lines().next().unwrap_or("").to_string();
        check!(head.starts_with("rs ffff rf ffff "), "start", "the program starts with {head}");
        if let Some((_, e)) = o.entry {
            check!(head.contains(&format!(" pc {e:04x} ")), "start", "the program starts with {head}, its entry point is {e:04x}");
        }
        match &first {
            None => first = Some(r.stdout),
            Some(f) => {
                if *f != r.stdout {
                    let f = String::from_utf8_lossy(f);
                    let (x, y) = f.lines().zip(t.lines()).find(|(x, y)| x != y).unwrap_or(("", "more or less memory"));
                    return crate::run::fail("start", format!("the program starts with {x} and another time with {y}"));
                }
            }
        }
    }
    if any {
        return Ok(());
    }
    let input = code.lines.concat();
    if !input.is_empty() {
        c.count("program with input");
    }
    // programs that do not end are stopped by the simulator
    let forever = {
        let mut w = super::load::load(o, None)?.w;
        w.dev.borrow_mut().console = Some(super::sim::Console { lines: code.lines.iter().cloned().collect(), ..Default::default() });
        let mut k = 0;
        loop {
            k += 1;
            let r = w.guarded(|m| m.execute_once())?;
            w.taken()?;
            if r.is_err() || w.dev.borrow().console.as_ref().unwrap().ended {
                break false;
            }
            if k > 6000 {
                break true;
            }
        }
    };
    c.shape(forever as u64);
    if forever {
        return Ok(());
    }
    let mut first = None;
    for _ in 0..n {
        let plan = noise(&mut c.src);
        let r = c.run("t", &["prog"], &input, &plan);
        if let Some(f) = r.crashed() {
            // panics when there is no more input
            check!(r.code == Some(101) && contains_input(&r.stderr), "crash", "t {f}");
        }
        if r.entropy_calls > 0 {
            c.nontrivial = true;
        }
        c.count(match r.code {
            Some(0) => "program that halts",
            Some(101) => "asked for more input than there is",
            _ => "program that faults",
        });
        if !r.stdout.is_empty() {
            c.count("output");
        }
        if r.stdout.len() > 300 {
            c.count("much output");
        }
        c.mark(mix(r.stdout.len() as u64));
        match &first {
            None => first = Some(r),
            Some(f) => {
                check!(f.stdout == r.stdout, "output", "the program prints {} and another time {}", hex(&f.stdout), hex(&r.stdout));
                check!(f.status() == r.status(), "status", "the program ends with {} and another time with {}", f.status(), r.status());
                check!(f.code == Some(101) || f.stderr == r.stderr, "status", "the program ends with {} and another time with {}", text(&f.stderr), text(&r.stderr));
            }
        }
    }
    Ok(())
}

fn contains_input(e: &[u8]) -> bool {
    crate::psim::contains(e, b"panicked")
}
