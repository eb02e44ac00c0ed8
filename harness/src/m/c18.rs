//! C18: system calls and the error handler of a loaded program
use super::gen;
use super::load;
use super::lock;
use super::model;
use super::sim::*;
use super::STUB;
use crate::check;
use crate::common::{noise, ordinary};
use crate::obj::*;
use crate::psim::{contains, text};
use crate::run::{Ctx, Prop, Res};
use crate::src::mix;

pub const PROP: Prop = Prop {
    id: "C18",
    run,
    quick: 120_000,
    thorough: 2_000_000,
    level: "exploration",
    rule: "nine of ten runs: a loaded program executes 10 to 200 steps of random code with system calls (console bytes, error handler set, set again and cleared) and faults under the emulated kernel, each system call and fault compared with its contract in every register, flag and console byte, until the run ends; one of ten: the shipped emulator runs a generated program of system calls and handled faults with split and interrupted transfers, and its output, exit status and message are compared with what the program is defined to do; non-trivial: at least one system call or handled fault",
    real: "loader, emulated kernel, processor, memory, from the crate built from /repo; in one of ten runs the shipped t binary",
    stub: STUB,
    assumptions: &["the debug system call 0 is only required to go on"],
    probes: &["syscall 3", "syscall 4", "syscall 15", "syscall 0", "syscall unknown", "halt", "fault: handled", "fault: not handled", "handler set again", "handler cleared", "t: halt", "t: fault", "t: unknown syscall", "t: handled fault", "after another program", "handled: ZeroDiv", "handled: Level1PageFault", "handled: Level2PageFault", "handled: IllegalOperation", "handled: IllegalRead", "handled: IllegalWrite", "handled: IllegalExecute", "handled: IllegalHandlerReturn", "handled: Invalid"],
};

fn run(c: &mut Ctx) -> Res {
    if c.src.chance(1, 10) {
        emulator(c)
    } else {
        machine(c)
    }
}

fn machine(c: &mut Ctx) -> Res {
    // always something to execute, and data next to it that may only be read or written
    let mut o = load::gen_loadable(&mut c.src);
    let n = c.src.range(100, 600) as usize;
    let at = c.src.below(0xf000) as u16;
    o.segs.retain(|s| s.0 != TEXT);
    o.segs.push((TEXT, at, c.src.bytes(n)));
    o.segs.sort_by_key(|s| s.0);
    o.entry = Some((TEXT, at));
    c.note(|| super::c12::describe(&o));
    let w = load::used(c, None)?;
    let mut l = load::load_into(w, &o)?;
    let g = l.grant.clone();
    let vpages: Vec<u16> = (0..512u16).filter(|&p| g.pages[p as usize].is_some()).map(|p| p << 7).collect();
    let text: Vec<u16> = (0..512u16).filter(|&p| g.pages[p as usize].is_some_and(|x| x & model::P_X != 0)).map(|p| p << 7).collect();
    let aim = gen::Aim { pages: vec![0x8000], vpages };
    let w = &mut l.w;
    w.dev.borrow_mut().seed = c.src.u16() as u64;
    let mut st = w.st();
    for i in 1..14 {
        if i != RS || c.src.chance(1, 2) {
            st.r[i] = gen::value(&mut c.src, &aim);
        }
    }
    w.set(&st);
    let mut handler = 0u16;
    let mut was_set = false;
    let steps = c.src.range(10, 200);
    for _ in 0..steps {
        let mut st = w.st();
        // where the program is, is a matter of chance
        let here = gen::translate(w, &st, st.pc).is_some() && text.contains(&(st.pc & 0xff80));
        if !here && c.src.chance(1, 2) || c.src.chance(1, 20) {
            st.pc = *c.src.pick(&text) + c.src.below(128) as u16;
            w.set(&st);
        }
        if c.src.chance(1, 12) {
            w.dev.borrow_mut().seed = c.src.u16() as u64;
            c.count("fault: device data changed");
        }
        let code = match c.src.below(8) {
            0..=2 => {
                st.r[1] = match c.src.below(40) {
                    0 => *c.src.pick(&[1, 2, 5, 14, 16, 0x0103, 0x0304, 0xff0f, 0xffff]),
                    1 => 0,
                    k if k < 14 => 3,
                    k if k < 26 => 4,
                    _ => 15,
                };
                if st.r[1] == 15 {
                    st.r[2] = match c.src.below(8) {
                        0 => 0,
                        1 => gen::value(&mut c.src, &aim),
                        _ => *c.src.pick(&text) + c.src.below(128) as u16,
                    };
                } else {
                    st.r[2] = gen::value(&mut c.src, &aim);
                }
                w.set(&st);
                vec![0x0c]
            }
            _ if handler == 0 && c.src.chance(3, 4) => {
                // nothing that would end the run at once
                vec![0x20]
            }
            k => {
                let ops: &[u8] = if k < 6 { &gen::ALL } else { &[0x10, 0x13, 0x0d, 0x51, 0x52, 0x28, 0x2c, 0x00, 0x99, 0x27, 0x2e] };
                let mut v = gen::instr(&mut c.src, ops, &aim);
                if matches!(v[0], 0x51 | 0x52) && c.src.chance(1, 2) {
                    v[2] &= 0xf0;
                }
                if v[0] == 0x0a && !c.src.chance(1, 8) {
                    v = vec![0x20];
                }
                v
            }
        };
        gen::place(w, &code);
        let (pre, s) = lock::model_step(w);
        let what = lock::describe(&pre, &s);
        let r = w.guarded(|m| m.execute_once())?;
        let log = w.taken()?;
        let post = w.st();
        c.note(|| format!("{what} ({}): {r:?} -> {post}", lock::names(&s.traps)));
        c.shape((s.op as u64) << 16 | (pre.r[1].min(16) as u64) << 8 | s.traps.first().map_or(0x40, |t| *t as u64));
        c.mark(mix((post.pc as u64) << 16 | post.r[1] as u64));
        if s.traps.is_empty() {
            check!(r.is_ok(), "trap", "{what} ends the run with {r:?} for no reason");
            continue;
        }
        if s.traps == [model::SYSCALL] {
            let what = format!("system call {} at {:04x}", pre.r[1], pre.pc);
            let mut want = pre.clone();
            want.pc = pre.pc.wrapping_add(1);
            let mut dev = Vec::new();
            match pre.r[1] {
                3 => {
                    let val = dev_value(w.dev_seed(), 1);
                    dev.push(DevAcc { addr: 1, write: false, val });
                    want.r[1] = (want.r[1] & 0xff00) | val as u16;
                }
                4 => dev.push(DevAcc { addr: 1, write: true, val: pre.r[2] as u8 }),
                15 => {
                    if was_set {
                        c.count(if pre.r[2] == 0 { "handler cleared" } else { "handler set again" });
                    }
                    handler = pre.r[2];
                    was_set = handler != 0;
                }
                0 => (),
                _ => {
                    c.count("syscall unknown");
                    check!(r.is_err_and(|t| t as u8 == model::SYSCALL), "unknown system call", "{what} does not end the run with SysCall but gives {r:?}");
                    return Ok(());
                }
            }
            c.count(&format!("syscall {}", pre.r[1]));
            c.nontrivial = true;
            check!(r.is_ok(), "system call", "{what} ends the run with {r:?}");
            let got: Vec<DevAcc> = log.iter().filter(|a| is_dev(a.addr)).map(|a| DevAcc { addr: a.addr as u8, write: a.write, val: a.val }).collect();
            check!(got == dev, "system call", "{what} makes the console accesses {got:x?} instead of {dev:x?}");
            lock::registers(&post, &want, &what)?;
            check!(!log.iter().any(|a| a.write && a.addr >= 0x8000 && w.before(a.addr) != w.mem.get(a.addr)), "memory", "{what} changes memory");
            continue;
        }
        if s.traps.contains(&model::HALT) {
            c.count("halt");
            check!(r.is_err_and(|t| t as u8 == model::HALT), "halt", "{what} does not end the run but gives {r:?}");
            return Ok(());
        }
        let names = lock::names(&s.traps);
        if handler == 0 {
            c.count("fault: not handled");
            match r {
                Ok(()) => return crate::run::fail("fault", format!("{what} ({names}) does not end the run, though there is no error handler")),
                Err(t) => check!(s.traps.contains(&(t as u8)), "fault", "{what} ({names}) ends the run with {t:?}"),
            }
            return Ok(());
        }
        c.count("fault: handled");
        c.nontrivial = true;
        check!(r.is_ok(), "fault", "{what} ({names}) ends the run with {r:?}, though the error handler {handler:04x} is set");
        check!(post.pc == handler, "fault", "{what} ({names}) goes on at {:04x} instead of the error handler {handler:04x}", post.pc);
        check!(post.r[1] < 256 && s.traps.contains(&(post.r[1] as u8)), "fault", "{what} ({names}) tells the error handler {:#x}", post.r[1]);
        c.count(&format!("handled: {}", lock::trap_name(post.r[1] as u8)));
        for i in 2..16 {
            check!(post.r[i] == pre.r[i] || s.may.contains(&(i, post.r[i])), "fault", "{what} ({names}) reaches the error handler with {:#x} in {}, which held {:#x}", post.r[i], reg_name(i), pre.r[i]);
        }
        check!(post.user(), "fault", "{what} ({names}) reaches the error handler in supervisor mode");
        lock::partial_flags(post.fl, pre.fl, &s, &what)?;
        lock::memory(w, &log, &s, false, &what)?;
    }
    Ok(())
}

/// A program for the shipped emulator
fn emulator(c: &mut Ctx) -> Res {
    c.nontrivial = true;
    let mut b: Vec<u8> = Vec::new();
    let base = c.src.below(0xc000) as u16;
    let (mut out, mut input) = (Vec::new(), Vec::new());
    let ldi = |b: &mut Vec<u8>, r: u8, x: u16| {
        b.extend([0x40, r << 4]);
        b.extend(x.to_le_bytes());
    };
    // kept over everything that follows
    let marks: Vec<u16> = (0..4).map(|_| c.src.u16()).collect();
    for (i, &m) in marks.iter().enumerate() {
        ldi(&mut b, 6 + i as u8, m);
    }
    let n = c.src.range(1, 30);
    let mut handler = false;
    for _ in 0..n {
        match c.src.below(7) {
            0 | 1 => {
                let x = c.src.u8();
                ldi(&mut b, 2, (c.src.u8() as u16) << 8 | x as u16);
                ldi(&mut b, 1, 4);
                b.push(0x0c);
                out.push(x);
            }
            2 => {
                // one byte in and out; the upper half of r1 stays zero, which is written as well
                let x = c.src.u8();
                ldi(&mut b, 1, 3);
                b.push(0x0c);
                b.extend([0x42, 0x21, 0x00]); // add r2, r1, r0
                ldi(&mut b, 1, 4);
                b.push(0x0c);
                b.extend([0x3f, 0x10, 4, 0x41, 0x34, 0x00]); // ldi r1l, 4; add r2l, r2h, r0b
                b.push(0x0c);
                input.push(x);
                out.extend([x, 0]);
            }
            3 => {
                // half of a kept register
                let i = c.src.usize(4);
                ldi(&mut b, 1, 4);
                b.extend([0x42, 0x20 | (6 + i as u8), 0x00]);
                b.push(0x0c);
                out.push(marks[i] as u8);
            }
            4 | 5 => {
                // a fault whose number the handler prints: the handler follows the faulting instruction
                let (ins, t): (Vec<u8>, u8) = match c.src.below(9) {
                    0 => (vec![0x52, 0x34, 0x50, 0], model::ZERODIV), // the fourth byte is never executed
                    1 => (vec![0x10], model::ILLEGAL_OP),
                    2 => (vec![0x0d], model::ILLEGAL_RETURN),
                    3 => (vec![*c.src.pick(&[0u8, 0x55, 0xff, 1])], model::INVALID),
                    // just below the stack's page table there is nothing
                    4 => (vec![0x2b, 0x30, 0x00, 0xf0], model::L2PF),
                    5 => (vec![0x2c, 0x30, 0x10, 0xe0], model::L1PF),
                    6 => (vec![0x28, 0x03, base as u8, (base >> 8) as u8], model::ILLEGAL_WRITE),
                    7 => (vec![0x2b, 0x30, base as u8, (base >> 8) as u8], model::ILLEGAL_READ),
                    _ => (vec![0x40, 0x01, 0x80, 0xff], model::ILLEGAL_EXEC),
                };
                c.count("t: handled fault");
                handler = true;
                ldi(&mut b, 1, 15);
                let at = b.len() + 4 + 1 + ins.len();
                ldi(&mut b, 2, base + at as u16);
                b.push(0x0c);
                b.extend(&ins);
                b.extend([0x42, 0x21, 0x00]); // add r2, r1, r0
                ldi(&mut b, 1, 4);
                b.push(0x0c);
                out.push(t);
            }
            _ => {
                // the debug call prints what it likes, so it is not made here
                ldi(&mut b, 1, 15);
                ldi(&mut b, 2, 0);
                b.push(0x0c);
                handler = false;
            }
        }
    }
    let mut name = "";
    match c.src.below(3) {
        0 => {
            b.push(0x0a);
            c.count("t: halt");
        }
        1 => {
            ldi(&mut b, 1, *c.src.pick(&[1, 2, 5, 16, 0x103, 0x30f, 0xffff]));
            b.push(0x0c);
            name = "SysCall";
            c.count("t: unknown syscall");
        }
        _ => {
            if handler {
                ldi(&mut b, 1, 15);
                ldi(&mut b, 2, 0);
                b.push(0x0c);
            }
            let (ins, t): (&[u8], u8) = *c.src.pick(&[
                (&[0x52, 0x34, 0x50][..], model::ZERODIV),
                (&[0x12][..], model::ILLEGAL_OP),
                (&[0x0d][..], model::ILLEGAL_RETURN),
                (&[0x00][..], model::INVALID),
                (&[0x2b, 0x30, 0x00, 0xf0][..], model::L2PF),
                (&[0x2c, 0x30, 0x10, 0xe0][..], model::L1PF),
                (&[0x40, 0x01, 0x80, 0xff][..], model::ILLEGAL_EXEC),
            ]);
            b.extend(ins);
            name = lock::trap_name(t);
            c.count("t: fault");
        }
    }
    let o = Obj { entry: Some((TEXT, base)), flags: c.src.chance(1, 4).then_some(false), segs: vec![(TEXT, base, b)], ..Obj::default() };
    c.ps().put("prog", &o.encode(), 0o644);
    let plan = noise(&mut c.src);
    if c.src.chance(1, 3) {
        let n = c.src.size(20, 9000) as usize;
        let more = c.src.bytes(n);
        input.extend(more);
    }
    let r = c.run("t", &["prog"], &input, &plan);
    ordinary("t", &r)?;
    check!(r.stdout == out, "output", "the program prints {} instead of {}", crate::obj::hex(&r.stdout), crate::obj::hex(&out));
    if name.is_empty() {
        check!(r.ok(), "status", "the program halts, and t ends with {} {}", r.status(), text(&r.stderr));
    } else {
        check!(!r.ok(), "status", "the program ends with {name}, and t ends with success");
        check!(contains(&r.stderr, name.as_bytes()), "status", "the program ends with {name}, and t says {}", text(&r.stderr));
    }
    Ok(())
}
