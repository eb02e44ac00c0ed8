//! C12: hostile programs in what the loader built for them
use super::gen;
use super::load::{self, Loaded};
use super::lock;
use super::model;
use super::sim::*;
use super::STUB;
use crate::check;
use super::model::{P_R, P_W, P_X};
use crate::common::{noise, ordinary};
use crate::obj::{Obj, TEXT};
use crate::psim::text;
use crate::run::{fail, Ctx, Prop, Res};
use std::collections::BTreeMap;
use crate::src::hash_bytes;

pub const PROP: Prop = Prop {
    id: "C12",
    run,
    quick: 80_000,
    thorough: 2_000_000,
    level: "exploration",
    rule: "one run: an object file of random layout is loaded; all 512 pages are probed for reading, writing and execution and compared with what the file grants; then 20 to 300 steps of hostile code (all instructions, privileged ones preferred, system calls, returns from traps with forged stacks, faults with and without error handler) run under the emulated kernel, memory of the program being changed by the environment in between, with every physical access judged and mode and protected registers checked after every step; one run in sixteen: the shipped emulator runs a program of such a layout that asks for the map of its memory, and every line of it is compared with what the file grants; a third of the machines have been used before, by another program or in any other way; non-trivial: a map was shown,  or the program survived at least one trap or executed at least 20 instructions",
    real: "loader, emulated kernel, processor, address translation, physical memory, all from the crate built from /repo; the shipped t binary",
    stub: STUB,
    assumptions: &["a segment without bytes may or may not have its page mapped", "bytes claimed by two segments are not judged", "permissions of the zero segment and of segments of unknown type: everything"],
    probes: &["step: done", "step: continued by the kernel", "step: ended", "privileged instruction", "syscall 3", "syscall 4", "syscall 15", "syscall other", "reth", "write", "fault: memory byte changed", "pages shared by segments", "stack of 64 KiB", "no stack", "heap", "segment over the end of memory", "segment without bytes", "map shown", "after another program", "memory used before"],
};

pub fn describe(o: &Obj) -> String {
    let mut s = format!("entry {:x?} readable text {:?} stack {:x?} heap {:x?}", o.entry, o.flags, o.stack, o.heap);
    for (t, a, b) in &o.segs {
        s += &format!(" [{t:02x} at {a:04x}, {:x} bytes]", b.len());
    }
    s
}

pub fn shapes(c: &mut Ctx, o: &Obj) {
    let mut end = std::collections::BTreeMap::new();
    for (t, a, b) in &o.segs {
        c.shape((*t as u64) << 32 | (*a as u64 & 0x7f) << 8 | b.len().min(255) as u64);
        if b.is_empty() {
            c.count("segment without bytes");
            continue;
        }
        if *a as usize + b.len() > 0x1_0000 {
            c.count("segment over the end of memory");
        }
        if *t == crate::obj::HEAP {
            c.count("heap");
        }
        for p in *a as usize >> 7..=(*a as usize + b.len() - 1) >> 7 {
            if end.insert(p, *t).is_some() {
                c.count("pages shared by segments");
            }
        }
    }
    match o.stack {
        Some(0) => c.count("no stack"),
        Some(n) if n > 0xff80 => c.count("stack of 64 KiB"),
        _ => (),
    }
}

/// Instructions that try to get out
const HOSTILE: [u8; 24] = [0x0b, 0x0c, 0x0c, 0x0c, 0x0d, 0x10, 0x11, 0x12, 0x13, 0x14, 0x22, 0x24, 0x28, 0x27, 0x2c, 0x2a, 0x2e, 0x40, 0x42, 0x44, 0x52, 0x54, 0x0a, 0x26];

/// What the debug call of a program that has just been started says of its memory
fn shown_map(c: &mut Ctx) -> Res {
    let mut o = load::gen_loadable(&mut c.src);
    // three instructions: r1 becomes 0, system call, halt
    let code = [0x40, 0x10, 0, 0, 0x0c, 0x0a];
    let Some(at) = o.segs.iter().position(|x| x.0 == TEXT && x.2.len() >= code.len() && x.1 as usize + x.2.len() <= 0x1_0000) else {
        return Ok(());
    };
    let into = c.src.usize(o.segs[at].2.len() - code.len() + 1);
    let entry = o.segs[at].1 + into as u16;
    o.segs[at].2[into..into + code.len()].copy_from_slice(&code);
    o.entry = Some((TEXT, entry));
    let g = load::grant(&o);
    if (0..code.len() as u16).any(|i| g.bytes.get(&(entry + i)) != Some(&Some(code[i as usize]))) {
        return Ok(());
    }
    c.note(|| describe(&o));
    shapes(c, &o);
    c.ps().put("prog", &o.encode(), 0o644);
    let plan = noise(&mut c.src);
    let r = c.run("t", &["prog"], b"", &plan);
    ordinary("t", &r)?;
    check!(r.ok(), "map", "a program that makes the debug call and halts ends with {} {}", r.status(), text(&r.stderr));
    c.count("map shown");
    c.nontrivial = true;
    let mut at: BTreeMap<usize, usize> = BTreeMap::new();
    let mut places = BTreeMap::new();
    for l in String::from_utf8_lossy(&r.stdout).lines() {
        let line = (|| {
            let (page, rest) = l.split_once("_ => ")?;
            let (place, how) = rest.split_once("_ (")?;
            let va = usize::from_str_radix(page, 16).ok()? << 4;
            Some((va, usize::from_str_radix(place, 16).ok()? << 4, how.strip_suffix(')')?))
        })();
        let Some((va, pa, how)) = line else {
            return fail("map", format!("the debug call shows {l:?}"));
        };
        check!(va % 128 == 0 && va < 0x1_0000 && pa % 128 == 0 && pa < 0x100_0000, "map", "the debug call shows {l:?}");
        // what both tables allow is a capital letter without exclamation mark
        let may = |x: char| how.find(x).is_some_and(|i| !how[i + 1..].trim_start().starts_with('!'));
        let perms = [('R', P_R), ('W', P_W), ('X', P_X)].iter().fold(0, |a, x| if may(x.0) { a | x.1 } else { a });
        check!(at.insert(va, pa).is_none(), "map", "the debug call shows page {va:04x} twice");
        if let Some(want) = g.pages[va >> 7] {
            let more = g.maybe[va >> 7].unwrap_or(0);
            check!(may('U') && perms & !more == want & !more, "map", "the debug call shows {l:?}, and the object file grants {}", super::lock::perms(want));
        } else if let Some(more) = g.maybe[va >> 7] {
            check!(perms & !more == 0, "map", "the debug call shows {l:?}, and the object file grants at most {}", super::lock::perms(more));
        } else {
            check!(!may('U'), "map", "the debug call shows {l:?}, and the object file grants nothing there");
            continue;
        }
        check!(pa >= 0x8000, "map", "the debug call shows {l:?}, and there is no memory at {pa:06x}");
        if let Some(other) = places.insert(pa, va) {
            return fail("map", format!("the debug call shows pages {other:04x} and {va:04x} both at {pa:06x}"));
        }
    }
    for (i, p) in g.pages.iter().enumerate() {
        check!(p.is_none() || at.contains_key(&(i << 7)), "map", "the debug call does not show page {:04x}, which the object file grants", i << 7);
    }
    c.mark(hash_bytes(at.len() as u64, &r.stdout));
    Ok(())
}

fn run(c: &mut Ctx) -> Res {
    if c.src.chance(1, 16) {
        return shown_map(c);
    }
    let o = load::gen_loadable(&mut c.src);
    c.note(|| describe(&o));
    shapes(c, &o);
    let rom = c.src.chance(1, 4).then(|| c.src.bytes(600));
    let w = load::used(c, rom.as_deref())?;
    let mut l = load::load_into(w, &o)?;
    l.probe(true)?;
    let code = l.code_pages();
    if code.is_empty() {
        return Ok(());
    }
    let aim = l.aim();
    let start = l.entry;
    l.w.dev.borrow_mut().seed = c.src.u16() as u64;
    let mut st = l.w.st();
    for i in 1..14 {
        if c.src.chance(2, 3) {
            st.r[i] = gen::value(&mut c.src, &aim);
        }
    }
    st.pc = if c.src.chance(1, 4) { start } else { *c.src.pick(&code) };
    l.w.set(&st);
    let mut handler = 0u16;
    let n = c.src.range(20, 300);
    let mut done = 0;
    for _ in 0..n {
        if c.src.chance(1, 16) {
            let p = *c.src.pick(&aim.pages);
            let (off, v) = (c.src.below(128) as u32, c.src.u8());
            l.w.poke(p + off, v);
            c.count("fault: memory byte changed");
        }
        if c.src.chance(1, 40) {
            let mut st = l.w.st();
            st.pc = *c.src.pick(&code);
            l.w.set(&st);
        }
        // the next instruction, wherever the program is
        if c.src.chance(15, 16) {
            let mut ins = next(c, &mut l, &aim, &code);
            let known = matches!(l.w.st().r[1], 3 | 4 | 15);
            if handler == 0 && c.src.chance(7, 8) {
                let mut st = l.w.st();
                st.r[1] = 15;
                st.r[2] = *c.src.pick(&code) + c.src.below(100) as u16;
                l.w.set(&st);
                ins = vec![0x0c];
            } else if ins[0] == 0x0a && !c.src.chance(1, 16) {
                ins = vec![0x10];
            } else if ins[0] == 0x0c && !known && !c.src.chance(1, 8) {
                let mut st = l.w.st();
                st.r[1] = *c.src.pick(&[3, 4]);
                l.w.set(&st);
            }
            gen::place(&mut l.w, &ins);
        }
        let (pre, s) = lock::model_step(&l.w);
        let what = lock::describe(&pre, &s);
        let r = l.w.guarded(|m| m.execute_once())?;
        let log = l.w.taken()?;
        l.confined(&log, &what)?;
        c.shape((s.op as u64) << 8 | s.traps.first().map_or(0x40, |t| *t as u64));
        if c.noting() {
            let st = l.w.st();
            c.note(|| format!("{what}: {r:?} -> {st}"));
        }
        if matches!(s.op, 0x10..=0x14) {
            c.count("privileged instruction");
        }
        if s.op == 0x0d {
            c.count("reth");
        }
        if s.touched.iter().any(|t| t.2 == model::Mode::Write) {
            c.count("write");
        }
        if s.traps.contains(&model::SYSCALL) {
            match pre.r[1] {
                3 | 4 => c.count(&format!("syscall {}", pre.r[1])),
                15 => {
                    handler = pre.r[2];
                    c.count("syscall 15");
                }
                _ => c.count("syscall other"),
            }
        } else {
            // devices are reached through system calls only
            check!(!log.iter().any(|a| is_dev(a.addr)), "confinement", "{what} reaches a device");
        }
        match r {
            Ok(()) => {
                l.captive(&what)?;
                done += 1;
                c.count(if s.traps.is_empty() { "step: done" } else { "step: continued by the kernel" });
                c.mark(hash_bytes(l.w.st().pc as u64, &log.last().map_or([0; 4], |a| a.addr.to_le_bytes())));
                if !s.traps.is_empty() {
                    c.nontrivial = true;
                }
            }
            Err(_) => {
                c.count("step: ended");
                break;
            }
        }
        // where the error handler leads nowhere it would only be entered for ever
        let st = l.w.st();
        if st.pc == handler && !code.contains(&(handler & 0xff80)) {
            let mut st = st;
            st.pc = *c.src.pick(&code);
            l.w.set(&st);
        }
    }
    if done >= 20 {
        c.nontrivial = true;
    }
    l.w.whole(false)?;
    if c.src.chance(1, 8) {
        // its grants are the same as before
        l.probe(false)?;
    }
    Ok(())
}

fn next(c: &mut Ctx, l: &mut Loaded, aim: &gen::Aim, code: &[u16]) -> Vec<u8> {
    let mut st = l.w.st();
    match c.src.below(8) {
        0 => {
            // a system call that lets the program live on
            st.r[1] = *c.src.pick(&[15, 15, 4, 3, 0, 1, 2, 5, 0xffff]);
            if st.r[1] == 0 && !c.src.chance(1, 20) {
                st.r[1] = 15;
            }
            if st.r[1] == 15 {
                st.r[2] = if c.src.chance(3, 4) { *c.src.pick(code) + c.src.below(100) as u16 } else { gen::value(&mut c.src, aim) };
            }
            l.w.set(&st);
            vec![0x0c]
        }
        1 => {
            // a forged trap frame
            if c.src.chance(1, 2) {
                st.r[RS] = gen::address(&mut c.src, aim);
                l.w.set(&st);
            }
            let sp = st.r[RS];
            for i in 0..34 {
                if let Some(p) = gen::translate(&l.w, &st, sp.wrapping_add(i)) {
                    if aim.pages.contains(&(p & !0x7f)) && c.src.chance(1, 2) {
                        l.w.poke(p, *c.src.pick(&[0, 2, 8, 0xfe, 0x80]));
                    }
                }
            }
            vec![0x0d]
        }
        2 | 3 => {
            let mut v = gen::instr(&mut c.src, &HOSTILE, aim);
            // aimed at the protected registers
            if v.len() > 1 && c.src.chance(1, 3) {
                v[1] |= *c.src.pick(&[0xe0, 0xf0, 0x0e, 0x0f, 0xef]);
            }
            if v.len() > 2 && c.src.chance(1, 6) {
                v[2] |= *c.src.pick(&[0xe0, 0xf0]);
            }
            v
        }
        4 => {
            // somewhere near the end of a page it may use
            let p = *c.src.pick(&aim.vpages);
            let a = match c.src.below(3) {
                0 => p.wrapping_sub(1),
                1 => p.wrapping_add(127),
                _ => p.wrapping_add(128),
            };
            let [x, y] = a.to_le_bytes();
            vec![*c.src.pick(&[0x27, 0x28, 0x2b, 0x2c]), 0, x, y]
        }
        _ => gen::instr(&mut c.src, &gen::ALL, aim),
    }
}
