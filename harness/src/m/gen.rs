//! Registers, instructions and page tables
use super::sim::*;
use crate::src::Src;

/// What the generator aims at
#[derive(Default, Clone)]
pub struct Aim {
    /// physical pages in use
    pub pages: Vec<u32>,
    /// virtual (or direct) pages in use
    pub vpages: Vec<u16>,
}

pub fn value(s: &mut Src, a: &Aim) -> u16 {
    match s.below(6) {
        0 => *s.pick(&[0, 1, 2, 0x7f, 0x80, 0xff, 0x100, 0x7ffe, 0x7fff, 0x8000, 0x8001, 0xff80, 0xfffe, 0xffff]),
        1 => s.u8() as u16,
        2 | 3 => address(s, a),
        _ => s.u16(),
    }
}
pub fn address(s: &mut Src, a: &Aim) -> u16 {
    if a.vpages.is_empty() {
        return s.u16();
    }
    let p = *s.pick(&a.vpages);
    p.wrapping_add(match s.below(8) {
        0 => 0,
        1 => 0xffff,
        2 => 1,
        3 => 0x7f,
        4 => 0x7e,
        5 => 0x80,
        _ => s.below(128) as u16,
    })
}

/// Half of a byte that names a register; often one that was named before
fn reg(s: &mut Src) -> u8 {
    match s.below(12) {
        0 => 0,
        1 => 11,
        2 => 12 + s.below(2) as u8,
        3 => 14 + s.below(2) as u8,
        _ => 1 + s.below(10) as u8,
    }
}
fn breg(s: &mut Src) -> u8 {
    s.below(16) as u8
}
fn spare(s: &mut Src) -> u8 {
    if s.chance(1, 24) { s.below(16) as u8 } else { 0 }
}

pub const ALL: [u8; 58] = [
    0x0a, 0x0b, 0x0c, 0x0d, 0x10, 0x11, 0x12, 0x13, 0x14, 0x20, 0x21, 0x22, 0x23, 0x24, 0x25, 0x26, 0x27, 0x28, 0x29, 0x2a, 0x2b, 0x2c, 0x2d, 0x2e, 0x2f, 0x30, 0x31,
    0x32, 0x33, 0x34, 0x35, 0x36, 0x37, 0x38, 0x39, 0x3a, 0x3f, 0x40, 0x41, 0x42, 0x43, 0x44, 0x45, 0x46, 0x47, 0x48, 0x49, 0x4a, 0x4b, 0x4c, 0x4d, 0x4e, 0x4f, 0x50,
    0x51, 0x52, 0x53, 0x54,
];
/// Instructions that access memory
pub const MEMORY: [u8; 12] = [0x21, 0x22, 0x23, 0x24, 0x27, 0x28, 0x29, 0x2a, 0x2b, 0x2c, 0x2d, 0x2e];

/// An instruction, mostly well formed
pub fn instr(s: &mut Src, ops: &[u8], a: &Aim) -> Vec<u8> {
    let op = if s.chance(1, 40) { s.u8() } else { *s.pick(ops) };
    let mut v = vec![op];
    match op {
        0x21 | 0x23 => v.push(breg(s) << 4 | spare(s)),
        0x22 | 0x24 => v.push(reg(s) << 4 | spare(s)),
        0x25 | 0x2f..=0x3a => v.extend(address(s, a).to_le_bytes()),
        0x26 => v.push(s.u8()),
        0x13 => v.extend([breg(s) << 4 | reg(s), breg(s) << 4 | spare(s)]),
        0x14 => v.extend([breg(s) << 4 | breg(s), reg(s) << 4 | spare(s)]),
        0x27 | 0x2b => {
            let (w, b) = (reg(s), breg(s));
            v.push(if op == 0x27 { w << 4 | b } else { b << 4 | w });
            v.extend(offset(s, a).to_le_bytes());
        }
        0x28 | 0x2c => {
            v.push(reg(s) << 4 | reg(s));
            v.extend(offset(s, a).to_le_bytes());
        }
        0x29 => v.extend([reg(s) << 4 | reg(s), breg(s) << 4 | spare(s)]),
        0x2a | 0x2e => v.extend([reg(s) << 4 | reg(s), reg(s) << 4 | spare(s)]),
        0x2d => v.extend([breg(s) << 4 | reg(s), reg(s) << 4 | spare(s)]),
        0x3f => v.extend([breg(s) << 4 | spare(s), s.u8()]),
        0x40 => {
            let jump = s.chance(1, 3);
            v.push(reg(s) << 4 | if jump { 1 } else { spare(s) });
            v.extend(if jump { address(s, a) } else { value(s, a) }.to_le_bytes());
        }
        0x41..=0x50 if op & 1 == 1 => v.extend([breg(s) << 4 | breg(s), breg(s) << 4 | spare(s)]),
        0x41..=0x50 => v.extend([reg(s) << 4 | reg(s), reg(s) << 4 | spare(s)]),
        0x51 | 0x53 => v.extend([breg(s) << 4 | breg(s), breg(s) << 4 | breg(s)]),
        0x52 | 0x54 => v.extend([reg(s) << 4 | reg(s), reg(s) << 4 | reg(s)]),
        _ => (),
    }
    v
}
/// With the base in r0 or another register
fn offset(s: &mut Src, a: &Aim) -> u16 {
    match s.below(3) {
        0 => *s.pick(&[0, 1, 0xffff, 0x7f, 0x80, 2]),
        1 => address(s, a),
        _ => s.u16(),
    }
}

/// Physical pages to use: memory of the first block, of others, read-only memory, devices
pub fn pages(s: &mut Src, dev: bool) -> Vec<u32> {
    let n = s.range(4, 14);
    let mut v: Vec<u32> = (0..n)
        .map(|_| match s.below(8) {
            0 => 0x80 + (s.below(255) as u32) * 128,
            1 | 2 => (1 + s.below(255) as u32) << 16 | (s.below(512) as u32) << 7,
            3 => *s.pick(&[0x8000, 0xff80, 0x1_0000, 0xff_ff80, 0x7f80, 0x80, 0x1_ff80, 0x2_0000]),
            _ => 0x8000 + (s.below(256) as u32) * 128,
        })
        .collect();
    if dev {
        v.push(0);
    }
    v.sort();
    v.dedup();
    v
}

/// A permission byte
pub fn perms(s: &mut Src, generous: bool) -> u8 {
    if generous && !s.chance(1, 10) {
        0x2f | (s.below(2) as u8) << 4
    } else {
        s.u8()
    }
}
pub fn pte(s: &mut Src, page: u32, generous: bool) -> u32 {
    let spare = if s.chance(1, 3) { (s.below(128) as u32) << 8 } else { 0 };
    let mut p = perms(s, generous);
    if !s.chance(1, 8) {
        p |= 1;
    }
    (page << 8) | spare | p as u32
}

/// Puts two-level page tables into memory; returns where they are
pub fn tables(s: &mut Src, w: &mut World, a: &mut Aim, generous: bool) -> Vec<(u32, u32)> {
    let mut v = Vec::new();
    let mem: Vec<u32> = a.pages.iter().copied().filter(|&p| p >= 0x8000).collect();
    let first: Vec<u32> = mem.iter().copied().filter(|&p| p < 0x1_0000).collect();
    let t1 = if first.is_empty() { 0x8000 } else { *s.pick(&first) };
    let t1 = match s.below(8) {
        0 => t1 + 64,
        1 => t1 + s.below(128) as u32,
        _ => t1,
    };
    let n = s.range(1, 3);
    let t2: Vec<u32> = (0..n)
        .map(|_| if mem.is_empty() || s.chance(1, 2) { 0x8000 + (s.below(256) as u32) * 128 } else { *s.pick(&mem) })
        .collect();
    a.vpages.clear();
    let mut used = Vec::new();
    for i in 0..16u32 {
        if !s.chance(1, 2) {
            continue;
        }
        let page = *s.pick(&t2);
        let e = pte(s, page, generous);
        w.poke_n(t1 + 4 * i, &e.to_le_bytes());
        v.push((t1 + 4 * i, e));
        if e & 1 != 0 {
            used.push((i, page));
        }
    }
    for &t in &t2 {
        let few = s.chance(1, 3);
        for i in 0..32u32 {
            if few && !s.chance(1, 4) {
                continue;
            }
            let page = *s.pick(&a.pages);
            let e = pte(s, page, generous);
            w.poke_n(t + 4 * i, &e.to_le_bytes());
            v.push((t + 4 * i, e));
            if e & 1 != 0 {
                a.vpages.extend(used.iter().filter(|u| u.1 == t).map(|u| (u.0 << 12 | i << 7) as u16));
            }
        }
    }
    let mut st = w.st();
    st.r[RP] = t1 as u16;
    w.set(&st);
    if a.vpages.is_empty() {
        a.vpages.push(s.u16() & 0xff80);
    }
    v
}

/// Somewhere the next instruction could be
pub fn place(w: &mut World, code: &[u8]) {
    let st = w.st();
    // all addresses first: the code may overwrite the tables it is found through
    let at: Vec<_> = (0..code.len() as u16).map(|i| translate(w, &st, st.pc.wrapping_add(i))).collect();
    for (pa, &b) in at.into_iter().zip(code) {
        if let Some(pa) = pa {
            w.poke(pa, b);
        }
    }
}

/// Where a virtual address leads, permissions aside
pub fn translate(w: &World, st: &St, va: u16) -> Option<u32> {
    if !st.virt() {
        return Some(va as u32);
    }
    let e1 = w.mem.word(st.r[RP] as u32 + 4 * (va >> 12) as u32);
    if e1 & 1 == 0 {
        return None;
    }
    let e2 = w.mem.word(((e1 >> 15) << 7) + 4 * ((va >> 7) & 31) as u32);
    (e2 & 1 != 0).then_some(((e2 >> 15) << 7) | (va & 0x7f) as u32)
}

pub fn random_state(s: &mut Src, a: &Aim) -> St {
    let mut st = St::default();
    for i in 1..14 {
        st.r[i] = value(s, a);
    }
    st
}

/// An address where code can probably be put and executed
pub fn code_address(s: &mut Src, w: &World, a: &Aim) -> u16 {
    let mut pc = 0;
    for _ in 0..6 {
        pc = address(s, a);
        let mut st = w.st();
        st.pc = pc;
        let mut x = super::model::X::new(&w.mem, 0, &st);
        if let Some(pa) = x.walk(pc, super::model::Mode::Exec) {
            if pa >= 0x8000 {
                break;
            }
        }
    }
    pc
}
