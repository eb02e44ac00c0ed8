//! C15: whatever memory, registers and object files hold, the machine goes on or traps
use super::c12::{describe, shapes};
use super::c19::environment;
use super::gen::{self, Aim};
use super::load;
use super::sim::*;
use super::STUB;
use crate::check;
use crate::conv::to_lib;
use crate::obj::{gen_obj, Obj, ObjSizes};
use crate::run::{fail, Ctx, Prop, Res};
use crate::src::mix;
use telda2::disassemble::disassemble_instruction;

pub const PROP: Prop = Prop {
    id: "C15",
    run,
    quick: 150_000,
    thorough: 5_000_000,
    level: "exploration",
    rule: "one run: either a machine with random memory (also page tables in read-only memory, devices and data), random registers of every kind and flags, or a loaded object file of random contents under the emulated kernel; 20 to 300 steps of random and of whatever instructions lie there, memory, tables, registers, program counter and devices being corrupted in between, with disassembly at arbitrary addresses; judged: no panic (overflow checks and debug assertions on), no step of more than 200 000 memory accesses, no endless loop; non-trivial: something trapped",
    real: "loader, emulated kernel, processor, address translation, physical memory, disassembler, all from the crate built from /repo",
    stub: STUB,
    assumptions: &["arithmetic overflow counts as a crash, as in a build with overflow checks"],
    probes: &["step: done", "step: trap", "object loaded", "disassembled", "disassembly: trap", "program counter at the end of memory", "stack pointer wraps", "page tables in read-only memory", "page tables in devices", "trap handler entered", "memory map printed"],
};

const ALLOWED: [u8; 11] = [0, 5, 8, 0xa, 0xe, 0xf, 0x10, 0x11, 0x12, 0x13, 0x1f];

fn run(c: &mut Ctx) -> Res {
    let (mut w, aim, ptes) = if c.src.chance(1, 3) { object(c)? } else { bare(c)? };
    let n = c.src.range(20, 300);
    let env = c.src.below(4);
    let mut ended = 0;
    for _ in 0..n {
        if c.src.chance(env, 12) {
            environment(c, &mut w, &aim, &ptes, c.sig & 1 == 0);
        }
        if c.src.chance(1, 24) {
            odd_registers(c, &mut w, &aim);
        }
        if c.src.chance(1, 2) {
            let code = gen::instr(&mut c.src, &gen::ALL, &aim);
            gen::place(&mut w, &code);
        }
        let st = w.st();
        if st.pc >= 0xfffd {
            c.count("program counter at the end of memory");
        }
        if st.virt() && is_dev(st.r[RP] as u32) {
            c.count("page tables in devices");
        }
        if st.virt() && is_rom(st.r[RP] as u32) {
            c.count("page tables in read-only memory");
        }
        if c.src.chance(1, 6) {
            disassemble(c, &mut w)?;
        }
        let r = w.guarded(|m| m.execute_once())?;
        let log = w.taken()?;
        c.count("steps");
        let post = w.st();
        if st.r[RS] >= 0xffe0 && post.r[RS] < 0x20 || st.r[RS] < 0x20 && post.r[RS] >= 0xffe0 {
            c.count("stack pointer wraps");
        }
        if !st.virt() && post.pc == st.r[RH] && post.r[RS] == st.r[RS].wrapping_sub(34) {
            c.count("trap handler entered");
        }
        if c.noting() {
            c.note(|| format!("{st}: {r:?}"));
        }
        match r {
            Ok(()) => c.count("step: done"),
            Err(t) => {
                let t = t as u8;
                check!(ALLOWED.contains(&t), "trap", "a step ends in the undefined trap {t:#x}");
                c.nontrivial = true;
                c.count("step: trap");
                c.shape(0x100 | t as u64);
                ended += 1;
                if c.src.chance(3, 4) {
                    let mut st = post.clone();
                    st.pc = gen::code_address(&mut c.src, &w, &aim);
                    if c.src.chance(1, 2) {
                        st.fl = st.fl & !(U | V) | (w_flags(c) & (U | V));
                    }
                    w.set(&st);
                }
            }
        }
        c.mark(mix((post.pc as u64) << 16 | log.len() as u64) ^ post.fl as u64);
    }
    c.shape(ended.min(20));
    Ok(())
}

fn w_flags(c: &mut Ctx) -> u8 {
    c.src.u8()
}

fn odd_registers(c: &mut Ctx, w: &mut World, aim: &Aim) {
    let mut st = w.st();
    match c.src.below(5) {
        0 => st.pc = *c.src.pick(&[0xffff, 0xfffe, 0xfffd, 0, 0x7f, 0x80, 0x7fff, 0x8000]),
        1 => st.r[RS] = *c.src.pick(&[0, 1, 2, 0xffff, 0xfffe, 33, 34, 0x8000, 0x8001]),
        2 => st.r[RP] = *c.src.pick(&[0, 0x40, 0x7e, 0x80, 0x7fc0, 0x7ffe, 0x8000, 0xffc0, 0xffff, 0xffc1]),
        3 => st.r[RH] = if c.src.chance(1, 2) { 0 } else { gen::value(&mut c.src, aim) },
        _ => st.fl = w_flags(c),
    }
    c.count("fault: odd register");
    w.set(&st);
}

type Start = Result<(World, Aim, Vec<(u32, u32)>), crate::run::Fail>;

fn bare(c: &mut Ctx) -> Start {
    let (mut w, mut aim) = super::c19::fresh(c);
    if c.src.chance(1, 4) {
        // only for the emulated kernel that comes with it
        w.guarded(|m| m.load_user_binary(&to_lib(&Obj::default())))?;
        w.taken()?;
        c.count("random state with emulated kernel");
    }
    super::c19::fill(c, &mut w, &aim);
    w.m.memory.limit = 200_000;
    let mut ptes = Vec::new();
    let fl = w_flags(c);
    let mut st = gen::random_state(&mut c.src, &aim);
    st.r[RP] = c.src.u16();
    if c.src.chance(3, 4) {
        let generous = c.src.chance(1, 2);
        ptes = gen::tables(&mut c.src, &mut w, &mut aim, generous);
        st.r[RP] = w.st().r[RP];
    } else {
        aim.vpages = aim.pages.iter().filter(|&&p| p < 0x1_0000).map(|&p| p as u16).collect();
    }
    st.r[RH] = if c.src.chance(1, 2) { gen::address(&mut c.src, &aim) } else { 0 };
    st.fl = fl;
    w.set(&st);
    st.pc = gen::code_address(&mut c.src, &w, &aim);
    w.set(&st);
    w.dev.borrow_mut().seed = c.src.u16() as u64;
    Ok((w, aim, ptes))
}

fn object(c: &mut Ctx) -> Start {
    let o = if c.src.chance(1, 2) { load::gen_loadable(&mut c.src) } else { gen_obj(&mut c.src, &ObjSizes { seg: 600, seg_max: 0xfff0, syms: 2, syms_max: 4 }) };
    c.note(|| describe(&o));
    shapes(c, &o);
    let mut w = World::new(None);
    w.m.memory.limit = 2_000_000;
    let lib = to_lib(&o);
    w.guarded(|m| m.load_user_binary(&lib))?;
    w.taken()?;
    w.m.memory.limit = 200_000;
    c.count("object loaded");
    let g = load::grant(&o);
    let mut vpages: Vec<u16> = (0..512u16).filter(|&p| g.pages[p as usize].is_some()).map(|p| p << 7).collect();
    if vpages.is_empty() {
        vpages.push(0);
    }
    let aim = Aim { pages: (0..40).map(|i| 0x8000 + i * 128).collect(), vpages };
    let root = w.st().r[RP] as u32;
    let mut ptes: Vec<(u32, u32)> = (0..16).map(|i| (root + 4 * i, w.mem.word(root + 4 * i))).filter(|e| e.1 & 1 != 0).collect();
    for (_, e) in ptes.clone() {
        let t = (e >> 15) << 7;
        ptes.extend((0..32).map(|i| (t + 4 * i, w.mem.word(t + 4 * i))));
    }
    let mut st = w.st();
    if c.src.chance(3, 4) {
        // an error handler, so that more than one fault is seen
        st.r[1] = 15;
        st.r[2] = *c.src.pick(&aim.vpages);
        w.set(&st);
        gen::place(&mut w, &[0x0c]);
    }
    Ok((w, aim, ptes))
}

fn disassemble(c: &mut Ctx, w: &mut World) -> Res {
    let st = w.st();
    let mut there = st.clone();
    there.pc = if c.src.chance(1, 2) { c.src.u16() } else { *c.src.pick(&[0xffff, 0xfffe, 0xfffd, 0, 0x7f, 0x7fff, 0xff7f]) };
    if c.src.chance(1, 3) {
        there.pc = st.pc;
    }
    w.set(&there);
    let named = c.src.chance(1, 2);
    let r = w.guarded(|m| disassemble_instruction(m, |a| (named && a & 1 == 0).then_some("label")))?;
    w.taken()?;
    c.count("disassembled");
    match r {
        Ok(_) => (),
        Err(t) => {
            c.count("disassembly: trap");
            if !ALLOWED.contains(&(t as u8)) {
                return fail("trap", "disassembling ends in an undefined trap");
            }
        }
    }
    w.set(&st);
    // the table of the mapping is printed by a debug system call
    if c.src.chance(1, 60) {
        w.guarded(|m| m.cpu.context(&mut m.memory).print_mmap())?;
        w.taken()?;
        c.count("memory map printed");
    }
    Ok(())
}
