//! C19: every step against the architecture, with the environment changing things between the steps
use super::gen::{self, Aim};
use super::lock::{self, End};
use super::sim::*;
use super::{REAL, STUB};
use crate::run::{Ctx, Prop, Res};
use crate::src::hash_bytes;

pub const PROP: Prop = Prop {
    id: "C19",
    run,
    quick: 150_000,
    thorough: 3_000_000,
    level: "exploration",
    rule: "one run: a machine with random memory, page tables and registers, 8 to 120 steps of random instructions, each compared with the reference machine in every register, flag, byte of memory and device access; between the steps the environment changes memory, page tables, registers, devices; non-trivial: an instruction trapped or the environment changed something",
    real: REAL,
    stub: STUB,
    assumptions: &["a page table that lies in the devices' first 128 bytes is not described"],
    probes: &["step: done", "step: Invalid", "step: SysCall", "step: ZeroDiv", "step: Halt", "step: Level1PageFault", "step: Level2PageFault", "step: IllegalOperation", "step: IllegalRead", "step: IllegalWrite", "step: IllegalExecute", "step: IllegalHandlerReturn", "fault: memory byte changed", "fault: table entry changed", "fault: register changed", "fault: device data changed", "fault: read-only write ignored", "device access", "instruction crosses a page", "virtual user mode"],
};

/// Something other than the program changes the state of the machine
pub fn environment(c: &mut Ctx, w: &mut World, aim: &Aim, ptes: &[(u32, u32)], generous: bool) {
    let mut st = w.st();
    match c.src.below(8) {
        0 | 1 => {
            let p = *c.src.pick(&aim.pages);
            let n = c.src.range(1, 4);
            for _ in 0..n {
                let (a, v) = (p + c.src.below(128) as u32, c.src.u8());
                w.poke(a, v);
            }
            c.count("fault: memory byte changed");
        }
        2 | 3 if !ptes.is_empty() => {
            let (at, e) = *c.src.pick(ptes);
            match c.src.below(4) {
                0 => w.poke(at, gen::perms(&mut c.src, generous)),
                1 => {
                    let page = *c.src.pick(&aim.pages);
                    let e = gen::pte(&mut c.src, page, generous);
                    w.poke_n(at, &e.to_le_bytes());
                }
                2 => w.poke(at, e as u8 & 0xfe),
                // as it was before it was changed
                _ => w.poke_n(at, &e.to_le_bytes()),
            }
            c.count("fault: table entry changed");
        }
        4 => {
            let i = c.src.range(1, 13) as usize;
            st.r[i] = gen::value(&mut c.src, aim);
            w.set(&st);
            c.count("fault: register changed");
        }
        5 => {
            w.dev.borrow_mut().seed = c.src.u16() as u64;
            c.count("fault: device data changed");
        }
        6 => {
            st.fl = (st.fl & 0x0f) | c.src.u8() & 0xf0;
            w.set(&st);
            c.count("fault: flags changed");
        }
        _ => {
            st.pc = gen::code_address(&mut c.src, w, aim);
            w.set(&st);
            c.count("fault: jump");
        }
    }
}

pub fn fresh(c: &mut Ctx) -> (World, Aim) {
    let rom = if c.src.chance(2, 3) {
        let n = if c.src.chance(1, 3) { 0x7f80 } else { c.src.range(0, 0x7f80) as usize };
        Some(c.src.bytes(n))
    } else {
        None
    };
    let w = World::new(rom.as_deref());
    let aim = Aim { pages: gen::pages(&mut c.src, true), vpages: Vec::new() };
    (w, aim)
}
pub fn fill(c: &mut Ctx, w: &mut World, aim: &Aim) {
    for &p in &aim.pages {
        if c.src.chance(1, 2) {
            let b = c.src.bytes(128);
            w.poke_n(p, &b);
        }
    }
}

fn run(c: &mut Ctx) -> Res {
    let (mut w, mut aim) = fresh(c);
    fill(c, &mut w, &aim);
    let virt = c.src.chance(3, 4);
    let generous = !c.src.chance(1, 5);
    let mut ptes = Vec::new();
    let mut t1 = 0;
    if virt {
        ptes = gen::tables(&mut c.src, &mut w, &mut aim, generous);
        t1 = w.st().r[RP];
    } else {
        aim.vpages = aim.pages.iter().filter(|&&p| p < 0x1_0000).map(|&p| p as u16).collect();
    }
    w.dev.borrow_mut().seed = c.src.u16() as u64;
    let mut st = gen::random_state(&mut c.src, &aim);
    st.r[RP] = t1;
    let base = if virt { V } else { 0 };
    st.fl = base | c.src.u8() & (Z | O | S | C | T | if virt { U } else { 0 } | if c.src.chance(1, 16) { U | 4 } else { 0 });
    w.set(&st);
    st.pc = gen::code_address(&mut c.src, &w, &aim);
    w.set(&st);
    c.note(|| format!("{}\n{}", if virt { "page tables" } else { "no page tables" }, w.st()));
    let steps = c.src.range(8, 120);
    let env = *c.src.pick(&[0, 1, 3]);
    for _ in 0..steps {
        if c.src.chance(env, 8) {
            environment(c, &mut w, &aim, &ptes, generous);
            c.nontrivial = true;
        }
        if c.src.chance(7, 8) {
            let ops: &[u8] = if c.src.chance(1, 3) { &gen::MEMORY } else { &gen::ALL };
            let code = gen::instr(&mut c.src, ops, &aim);
            gen::place(&mut w, &code);
        }
        let (end, s, pre) = lock::step(&mut w)?;
        c.count("steps");
        c.shape((s.op as u64) << 16 | (s.traps.first().map_or(0x40, |t| *t as u64)) << 8 | (pre.fl & (V | U)) as u64);
        c.mark(hash_bytes(pre.pc as u64, format!("{}", w.st()).as_bytes()));
        if !s.dev.is_empty() {
            c.count("device access");
        }
        if s.touched.iter().any(|t| t.2 == super::model::Mode::Write && is_rom(t.1)) {
            c.count("fault: read-only write ignored");
        }
        if pre.pc & 0xff80 != s.next.pc & 0xff80 && s.traps.is_empty() {
            c.count("instruction crosses a page");
        }
        if pre.user() && pre.virt() {
            c.count("virtual user mode");
        }
        match end {
            End::Done => c.count("step: done"),
            End::Trap(t) => {
                c.nontrivial = true;
                c.count(&format!("step: {}", lock::trap_name(t)));
                c.note(|| format!("{}: {}", lock::describe(&pre, &s), lock::trap_name(t)));
                // whoever handles that goes on somewhere
                let mut st = w.st();
                if !c.src.chance(1, 8) {
                    st.fl &= !T;
                }
                if c.src.chance(1, 2) {
                    st.fl = (st.fl & !U) | pre.fl & U;
                }
                w.set(&st);
                if c.src.chance(3, 4) {
                    st.pc = gen::code_address(&mut c.src, &w, &aim);
                    w.set(&st);
                }
                continue;
            }
            End::Undefined => {
                c.count("step: undefined");
                return Ok(());
            }
            End::Handler(_) | End::Double => {
                // the program has installed a handler: what entering it does is judged elsewhere
                c.count("step: handler");
                let mut st = w.st();
                st.r[RH] = 0;
                st.fl &= !T;
                w.set(&st);
                if virt {
                    st.r[RP] = t1;
                    w.set(&st);
                }
            }
        }
        if c.noting() {
            let st = w.st();
            c.note(|| format!("{} -> {st}", lock::describe(&pre, &s)));
        }
        // the program may have left the tables
        let mut st = w.st();
        if virt && (st.r[RP] != t1 || !st.virt()) && c.src.chance(1, 2) {
            st.r[RP] = t1;
            st.fl |= V;
            w.set(&st);
        }
    }
    let full = c.src.chance(1, 16);
    w.whole(full)
}
