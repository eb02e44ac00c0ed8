//! C13: every access against the page tables as they are at that moment
use super::c19::{environment, fill, fresh};
use super::gen;
use super::lock::{self, End};
use super::model::{Mode, X};
use super::sim::*;
use super::{REAL, STUB};
use crate::check;
use crate::run::{Ctx, Fail, Prop, Res};
use crate::src::mix;

pub const PROP: Prop = Prop {
    id: "C13",
    run,
    quick: 150_000,
    thorough: 6_000_000,
    level: "exploration",
    rule: "one run: one to three sets of two-level page tables with random, mostly strict entries over shared pages (tables among the pages they map), 10 to 150 accesses (fetch, byte and word reads and writes, loads, stores, pushes, pops, jumps), each compared in its result, trap, memory and device effects with an independent walk of the tables as they are then; between accesses entries and tables are changed by the environment and by the program itself, the tables are switched, modes changed; non-trivial: a trap or a change of tables between accesses",
    real: REAL,
    stub: STUB,
    assumptions: &["a page table that lies in the devices' first 128 bytes is not described", "with more than one reason to trap for one access any of them may be reported"],
    probes: &["access: reached", "access: Level1PageFault", "access: Level2PageFault", "access: IllegalOperation", "access: IllegalRead", "access: IllegalWrite", "access: IllegalExecute", "dirty flags set", "write to a table in use", "word over a page boundary", "fault: table entry changed", "fault: tables switched", "fault: mode changed", "entry used again after it was changed"],
};

fn run(c: &mut Ctx) -> Res {
    let (mut w, mut aim) = fresh(c);
    fill(c, &mut w, &aim);
    let sets = c.src.range(1, 3);
    let mut ptes = Vec::new();
    let mut roots = Vec::new();
    let mut vpages = Vec::new();
    let style = c.src.below(3);
    for _ in 0..sets {
        let generous = style == 0 || style == 1 && c.src.chance(1, 2);
        ptes.extend(gen::tables(&mut c.src, &mut w, &mut aim, generous));
        roots.push(w.st().r[RP]);
        vpages.append(&mut aim.vpages);
    }
    aim.vpages = vpages;
    // the tables themselves can be mapped as well
    if c.src.chance(1, 2) {
        for &(at, _) in ptes.iter().take(40) {
            aim.pages.push(at & !0x7f);
        }
        aim.pages.sort();
        aim.pages.dedup();
    }
    w.dev.borrow_mut().seed = c.src.u16() as u64;
    let mut st = gen::random_state(&mut c.src, &aim);
    st.r[RP] = *c.src.pick(&roots);
    st.fl = V | if c.src.chance(1, 2) { U } else { 0 };
    w.set(&st);
    st.pc = gen::code_address(&mut c.src, &w, &aim);
    w.set(&st);
    let n = c.src.range(10, 150);
    let env = *c.src.pick(&[1, 2, 4]);
    let mut changed: Vec<u32> = Vec::new();
    for _ in 0..n {
        if c.src.chance(env, 8) {
            let mut st = w.st();
            match c.src.below(6) {
                0 => {
                    st.r[RP] = *c.src.pick(&roots);
                    w.set(&st);
                    c.count("fault: tables switched");
                    c.note(|| format!("tables at {:04x}", st.r[RP]));
                }
                1 => {
                    st.fl ^= *c.src.pick(&[U, U, U, V]);
                    w.set(&st);
                    c.count("fault: mode changed");
                    c.note(|| format!("flags {}", flags(st.fl)));
                }
                2 | 3 => {
                    // a single bit, or all of the address, of an entry
                    let (at, _) = *c.src.pick(&ptes);
                    let e = w.mem.word(at);
                    let e2 = match c.src.below(3) {
                        0 => e ^ 1 << c.src.below(32),
                        1 => e ^ 1 << c.src.below(6),
                        _ => (e & 0x7fff) | *c.src.pick(&aim.pages) << 8,
                    };
                    w.poke_n(at, &e2.to_le_bytes());
                    c.count("fault: table entry changed");
                    changed.push(at);
                    c.note(|| format!("entry at {at:06x} is {e2:08x} instead of {e:08x}"));
                }
                _ => environment(c, &mut w, &aim, &ptes, style == 0),
            }
            c.nontrivial = true;
        }
        if c.src.chance(1, 2) {
            access(c, &mut w, &aim, &ptes, &changed)?;
        } else {
            instruction(c, &mut w, &aim, &ptes)?;
        }
        let st = w.st();
        if !st.virt() && c.src.chance(1, 2) || st.r[RH] != 0 {
            let st = St { r: { let mut r = st.r; r[RH] = 0; r }, fl: st.fl | V, ..st };
            w.set(&st);
        }
    }
    w.whole(false)
}

fn outcome(c: &mut Ctx, kind: u64, traps: &[u8], st: &St) {
    let name = traps.first().map_or("reached", |&t| lock::trap_name(t));
    c.count(&format!("access: {name}"));
    c.shape(kind << 16 | (traps.first().map_or(0x40, |t| *t as u64)) << 8 | (st.fl & (V | U)) as u64);
    if !traps.is_empty() {
        c.nontrivial = true;
    }
}

/// One access through the processor's own interface
fn access(c: &mut Ctx, w: &mut World, aim: &gen::Aim, ptes: &[(u32, u32)], changed: &[u32]) -> Res {
    let mut st = w.st();
    let va = gen::address(&mut c.src, aim);
    let kind = c.src.below(5);
    let val = c.src.u16();
    if kind == 4 {
        st.pc = va;
        w.set(&st);
    }
    let seed = w.dev_seed();
    let (want, s) = {
        let mem = w.mem.clone();
        let mut x = X::new(&mem, seed, &st);
        let want = match kind {
            0 => x.read(va).map(|v| v as u16),
            1 => x.read_word(va),
            2 => x.write(va, val as u8).map(|_| 0),
            3 => x.write_word(va, val).map(|_| 0),
            _ => x.fetch().map(|v| v as u16),
        };
        (want, x.finish())
    };
    let what = format!(
        "{} at {va:04x} in {} {} mode with tables at {:04x}",
        ["reading a byte", "reading a word", "writing a byte", "writing a word", "fetching"][kind as usize],
        if st.user() { "user" } else { "supervisor" },
        if st.virt() { "virtual" } else { "direct" },
        st.r[RP]
    );
    let got = w.guarded(|m| {
        let mut x = m.cpu.context(&mut m.memory);
        match kind {
            0 => x.read(va).map(|v| v as u16),
            1 => x.read_wide(va),
            2 => x.write(va, val as u8).map(|_| 0),
            3 => x.write_wide(va, val).map(|_| 0),
            _ => x.fetch().map(|v| v as u16),
        }
    })?;
    let log = w.taken()?;
    c.count("accesses");
    if s.undefined {
        c.count("access: undefined");
        return Ok(());
    }
    outcome(c, kind, &s.traps, &st);
    c.mark(mix((va as u64) << 16 | want.unwrap_or(1) as u64));
    c.note(|| format!("{what}: {}", if s.traps.is_empty() { format!("{:x?}", want) } else { lock::names(&s.traps) }));
    match (&got, s.traps.is_empty()) {
        (Ok(v), true) => check!(Some(*v) == want, "translation", "{what} gives {v:02x} instead of {:02x}", want.unwrap_or(0)),
        (Ok(_), false) => return Err(Fail { class: "trap".into(), msg: format!("{what} does not trap with {}", lock::names(&s.traps)) }),
        (Err(t), true) => return Err(Fail { class: "trap".into(), msg: format!("{what} traps with {t:?} for no reason") }),
        (Err(t), false) => check!(s.traps.contains(&(*t as u8)), "trap", "{what} traps with {t:?} instead of {}", lock::names(&s.traps)),
    }
    let after = w.st();
    let pc = if kind == 4 && s.traps.is_empty() { va.wrapping_add(1) } else { st.pc };
    check!(after == St { pc, ..st.clone() }, "registers", "{what} changes registers: {st} -> {after}");
    lock::memory(w, &log, &s, s.traps.is_empty(), &what)?;
    noticed(c, w, &s, ptes);
    if kind == 1 || kind == 3 {
        if va & 0x7f == 0x7f {
            c.count("word over a page boundary");
        }
    }
    // was one of the entries just used changed before?
    if st.virt() && changed.iter().any(|&at| at == st.r[RP] as u32 + 4 * (va >> 12) as u32) {
        c.count("entry used again after it was changed");
    }
    Ok(())
}

/// One instruction that fetches and accesses memory
fn instruction(c: &mut Ctx, w: &mut World, aim: &gen::Aim, ptes: &[(u32, u32)]) -> Res {
    let op = *c.src.pick(&[0x21, 0x22, 0x23, 0x24, 0x27, 0x28, 0x29, 0x2a, 0x2b, 0x2c, 0x2d, 0x2e, 0x20, 0x25, 0x40, 0x45]);
    let code = gen::instr(&mut c.src, &[op], aim);
    gen::place(w, &code);
    let (end, s, pre) = lock::step(w)?;
    c.count("accesses");
    match end {
        End::Undefined => {
            c.count("access: undefined");
            return Ok(());
        }
        End::Trap(t) => outcome(c, 0x100 + s.op as u64, &[t], &pre),
        _ => outcome(c, 0x100 + s.op as u64, &[], &pre),
    }
    noticed(c, w, &s, ptes);
    c.note(|| format!("{}: {}", lock::describe(&pre, &s), if s.traps.is_empty() { "done".into() } else { lock::names(&s.traps) }));
    let mut st = w.st();
    st.fl = (st.fl & !(U | T)) | pre.fl & U;
    w.set(&st);
    if !s.traps.is_empty() && c.src.chance(3, 4) {
        st.pc = gen::code_address(&mut c.src, w, aim);
        w.set(&st);
    }
    Ok(())
}

fn noticed(c: &mut Ctx, _w: &World, s: &super::model::Step, ptes: &[(u32, u32)]) {
    let data: Vec<u32> = s.touched.iter().filter(|t| t.2 == Mode::Write).map(|t| t.1).collect();
    if s.writes.iter().any(|x| !data.contains(&x.0)) {
        c.count("dirty flags set");
    }
    if data.iter().any(|a| ptes.iter().any(|p| p.0 == a & !3)) {
        c.count("write to a table in use");
    }
}
