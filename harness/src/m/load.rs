//! Loaded programs: what an object file grants, independently of the loader
use super::gen::Aim;
use super::model::{P_R, P_W, P_X};
use super::sim::*;
use crate::check;
use crate::conv::to_lib;
use crate::obj::*;
use crate::run::{Ctx, Fail};
use crate::src::Src;
use std::collections::BTreeMap;

/// What the object file says
#[derive(Clone)]
pub struct Grant {
    /// permissions of each virtual page; None: not mapped
    pub pages: Vec<Option<u8>>,
    /// pages that may be mapped or not: of segments without bytes
    pub maybe: Vec<Option<u8>>,
    /// bytes that are there at the beginning; None: claimed by several segments
    pub bytes: BTreeMap<u16, Option<u8>>,
}
pub fn grant(o: &Obj) -> Grant {
    let mut g = Grant { pages: vec![None; 512], maybe: vec![None; 512], bytes: BTreeMap::new() };
    let mut add = |from: usize, to: usize, p: u8| {
        for page in from >> 7..(to.min(0x1_0000) + 127) >> 7 {
            *g.pages[page].get_or_insert(0) |= p;
        }
    };
    for (t, at, b) in &o.segs {
        let p = match *t {
            DATA | HEAP => P_R | P_W,
            RODATA => P_R,
            TEXT => P_X | if o.flags == Some(true) { P_R } else { 0 },
            _ => P_R | P_W | P_X,
        };
        let at = *at as usize;
        if !b.is_empty() {
            add(at, at + b.len(), p);
        } else {
            *g.maybe[at >> 7].get_or_insert(0) |= p;
        }
        if *t == HEAP {
            let n = o.heap.unwrap_or(0x400) as usize;
            if n > 0 {
                add(at, at + n, p);
            }
        }
        for (i, &x) in b.iter().enumerate() {
            if at + i < 0x1_0000 {
                g.bytes.entry((at + i) as u16).and_modify(|e| *e = None).or_insert(Some(x));
            }
        }
    }
    let n = o.stack.unwrap_or(0x180) as usize;
    if n > 0 {
        add(0x1_0000 - n, 0x1_0000, P_R | P_W);
    }
    g
}

pub struct Loaded {
    pub w: World,
    pub grant: Grant,
    pub root: u32,
    /// where each page is
    pub phys: Vec<Option<u32>>,
    /// addresses of the entries of the page tables in use
    pub entries: Vec<u32>,
    pub entry: u16,
}

/// Objects with segments anywhere, next to each other, sharing pages, over the end of memory
pub fn gen_loadable(s: &mut Src) -> Obj {
    let mut o = Obj { entry: Some((TEXT, 0)), ..Obj::default() };
    if s.chance(1, 2) {
        o.flags = Some(s.chance(1, 2));
    }
    let size = |s: &mut Src| *s.pick(&[0u16, 1, 127, 128, 129, 0x180, 0x400, 0xfff, 0x1000, 0x8000, 0xff80, 0xff81, 0xffff]);
    if s.chance(1, 2) {
        o.stack = Some(if s.chance(1, 2) { size(s) } else { s.below(3000) as u16 });
    }
    if s.chance(1, 2) {
        o.heap = Some(if s.chance(1, 2) { size(s) } else { s.below(3000) as u16 });
    }
    let mut end = s.below(0x1000) as usize;
    for t in STYPES {
        if t != TEXT && !s.chance(1, 2) || t == UNKNOWN && !s.chance(1, 3) {
            continue;
        }
        let n = match s.below(8) {
            0 => 0,
            1 => *s.pick(&[1, 127, 128, 129, 256, 4096]),
            2 => s.below(9000) as usize,
            _ => s.range(1, 500) as usize,
        };
        let at = match s.below(8) {
            // right behind the one before
            0 | 1 => end,
            2 => (end + 127) & !127,
            3 => 0x1_0000 - s.range(1, 600) as usize,
            4 => 0,
            5 => s.below(512) as usize * 128,
            _ => s.u16() as usize,
        } & 0xffff;
        let b = s.bytes(n);
        o.segs.push((t, at as u16, b));
        end = at + n;
    }
    o.segs.sort_by_key(|x| x.0);
    // the entry point may be anywhere as well
    let text = o.seg(TEXT).cloned();
    o.entry = match s.below(8) {
        0 => None,
        1 => Some((TEXT, s.u16())),
        _ => text.map(|t| (TEXT, t.1)),
    };
    o
}

pub fn load(o: &Obj, rom: Option<&[u8]>) -> Result<Loaded, Fail> {
    load_into(World::new(rom), o)
}

/// A machine that may have done something before
pub fn used(c: &mut Ctx, rom: Option<&[u8]>) -> Result<World, Fail> {
    let mut w = World::new(rom);
    match c.src.below(6) {
        // another program was there, and went on until some trap
        0 => {
            let o = gen_loadable(&mut c.src);
            c.note(|| format!("before: {}", super::c12::describe(&o)));
            let l = load_into(w, &o)?;
            w = l.w;
            let may = |p: usize| l.grant.pages[p].is_some_and(|x| x & P_X != 0);
            let text: Vec<u16> = (0..512).filter(|&p| may(p)).map(|p| (p as u16) << 7).collect();
            let vpages = (0..512).filter(|&p| l.grant.pages[p].is_some()).map(|p| (p as u16) << 7).collect();
            let aim = Aim { pages: vec![0x8000], vpages };
            for i in 0..if text.is_empty() { 0 } else { c.src.below(20) } {
                let mut st = w.st();
                if i == 0 || c.src.chance(1, 4) {
                    st.pc = *c.src.pick(&text) + c.src.below(120) as u16;
                }
                let handler = c.src.chance(1, 3);
                if handler {
                    (st.r[1], st.r[2]) = (15, *c.src.pick(&text) + c.src.below(120) as u16);
                }
                w.set(&st);
                let code = if handler { vec![0x0c] } else { super::gen::instr(&mut c.src, &super::gen::ALL, &aim) };
                super::gen::place(&mut w, &code);
                let ended = w.guarded(|m| m.execute_once())?.is_err();
                w.taken()?;
                if ended {
                    break;
                }
            }
            c.count("after another program");
        }
        // memory has been used by no program
        1 => c.count("memory used before"),
        _ => return Ok(w),
    }
    let pages = c.src.size(40, 300) as u32;
    for p in 0..pages {
        for _ in 0..c.src.below(4) {
            let at = 0x8000 + p * 128 + c.src.below(32) as u32 * 4;
            // also what could be the entry of a page table
            let page = 0x8000 + c.src.below(pages as u64 + 40) as u32 * 128;
            let v = if c.src.chance(1, 2) { page << 8 | c.src.below(64) as u32 | 1 } else { c.src.u16() as u32 };
            w.poke_n(at, &v.to_le_bytes());
        }
    }
    let mut st = w.st();
    for i in 1..16 {
        if i != RH {
            st.r[i] = c.src.u16();
        }
    }
    st.pc = c.src.u16();
    if c.src.chance(1, 2) {
        // it ended with a trap
        st.fl = st.fl & !U | T;
    }
    if c.src.chance(1, 4) {
        // not under this kernel
        st.r[RH] = c.src.u16();
        st.fl = c.src.u8() & (Z | O | S | C | V | T | U);
    }
    w.set(&st);
    Ok(w)
}

/// Into a machine that may have done something before
pub fn load_into(mut w: World, o: &Obj) -> Result<Loaded, Fail> {
    let lib = to_lib(o);
    w.m.memory.limit = 2_000_000;
    w.guarded(|m| m.load_user_binary(&lib))?;
    w.taken()?;
    w.m.memory.limit = 200_000;
    let st = w.st();
    check!(st.user() && st.virt(), "loading", "the program is loaded and its mode is {}", flags(st.fl));
    check!(st.fl & T == 0, "loading", "the program is loaded and may return from a trap: {}", flags(st.fl));
    check!(st.r[RH] == 0, "loading", "the program is loaded with a trap handler at {:04x}", st.r[RH]);
    if let Some((_, e)) = o.entry {
        check!(st.pc == e, "loading", "the program starts at {:04x} instead of its entry point {e:04x}", st.pc);
    }
    Ok(Loaded { grant: grant(o), root: st.r[RP] as u32, phys: vec![None; 512], entries: Vec::new(), entry: st.pc, w })
}

impl Loaded {
    /// Every page is accessible in exactly the ways that were granted, and holds what it should;
    /// the pages are different ones, outside of the page tables
    pub fn probe(&mut self, fresh: bool) -> Result<(), Fail> {
        let st = self.w.st();
        for (&a, &x) in &self.grant.bytes {
            if let (Some(x), true) = (x, fresh) {
                let pa = super::gen::translate(&self.w, &st, a);
                let y = pa.map(|p| self.w.mem.get(p));
                check!(y == Some(x), "loading", "address {a:04x} holds {y:02x?} in the loaded program instead of {x:02x}");
            }
        }
        for page in 0..512usize {
            let want = self.grant.pages[page];
            let va = (page as u16) << 7;
            if want.is_some() && fresh {
                for a in va..=va + 127 {
                    if self.grant.bytes.contains_key(&a) {
                        continue;
                    }
                    let y = super::gen::translate(&self.w, &st, a).map(|p| self.w.mem.get(p));
                    check!(y.is_none_or(|y| y == 0), "loading", "address {a:04x} holds {y:02x?} in the loaded program, which nothing has put there");
                }
            }
            let mut at = None;
            for (kind, bit, name) in [(0, P_R, "read"), (1, P_W, "written"), (2, P_X, "executed")] {
                let a = va + if kind == 0 { 127 } else { 0 };
                // what is written is what is there
                let now = super::gen::translate(&self.w, &st, a).map_or(0, |p| self.w.mem.get(p));
                let got = self.w.guarded(|m| {
                    m.cpu.program_counter = a;
                    let mut x = m.cpu.context(&mut m.memory);
                    match kind {
                        0 => x.read(a).map(|_| ()),
                        1 => x.write(a, now),
                        _ => x.fetch().map(|_| ()),
                    }
                })?;
                let log = self.w.taken()?;
                let may = want.is_some_and(|p| p & bit != 0);
                let perhaps = self.grant.maybe[page].is_some_and(|p| p & bit != 0);
                match got {
                    Ok(()) => {
                        check!(may || perhaps, "grant", "page {va:04x} can be {name}, though nothing in the object file grants that");
                        let p = log.last().map_or(0, |l| l.addr & !0x7f);
                        check!(at.is_none_or(|x| x == p), "grant", "page {va:04x} is in two places, {p:06x} and {:06x}", at.unwrap_or(0));
                        at = Some(p);
                    }
                    Err(t) => check!(!may, "grant", "page {va:04x} cannot be {name} ({t:?}), though the object file grants that"),
                }
            }
            self.phys[page] = at;
        }
        self.w.set(&st);
        self.entries.clear();
        let mut tables = vec![self.root & !0x7f];
        for i in 0..16u32 {
            self.entries.push(self.root + 4 * i);
            let e = self.w.mem.word(self.root + 4 * i);
            if e & 1 != 0 {
                let t = (e >> 15) << 7;
                tables.push(t);
                self.entries.extend((0..32).map(|j| t + 4 * j));
            }
        }
        let mut seen: BTreeMap<u32, usize> = BTreeMap::new();
        for (page, at) in self.phys.iter().enumerate() {
            if let Some(a) = *at {
                check!(a >= 0x8000, "grant", "page {:04x} is at {a:06x}, which is no memory", page << 7);
                check!(!tables.contains(&a), "grant", "page {:04x} is at {a:06x}, where a page table is", page << 7);
                if let Some(other) = seen.insert(a, page) {
                    return crate::run::fail("grant", format!("pages {:04x} and {:04x} are both at {a:06x}", other << 7, page << 7));
                }
            }
        }
        Ok(())
    }
    pub fn perms(&self, page: usize) -> u8 {
        self.grant.pages[page].unwrap_or(0) | self.grant.maybe[page].unwrap_or(0)
    }
    pub fn aim(&self) -> Aim {
        let vpages: Vec<u16> = (0..512u16).filter(|&p| self.phys[p as usize].is_some()).map(|p| p << 7).collect();
        Aim { pages: self.phys.iter().flatten().copied().collect(), vpages }
    }
    pub fn code_pages(&self) -> Vec<u16> {
        (0..512u16).filter(|&p| self.phys[p as usize].is_some() && self.perms(p as usize) & P_X != 0).map(|p| p << 7).collect()
    }
    /// Whether these accesses stay within what the program may do
    pub fn confined(&self, log: &[Acc], what: &str) -> Result<(), Fail> {
        for a in log {
            if is_dev(a.addr) {
                check!(a.addr == 1, "confinement", "{what} makes the program access the device at {}", a.addr);
                continue;
            }
            let page = self.phys.iter().position(|&p| p == Some(a.addr & !0x7f));
            if a.write {
                let was = self.w.before(a.addr);
                let only_dirty = a.val == was | 0x10 && self.entries.contains(&a.addr);
                check!(
                    only_dirty || page.is_some_and(|p| self.perms(p) & P_W != 0) || a.val == was && self.entries.contains(&(a.addr & !3)),
                    "confinement",
                    "{what} lets the program write {:02x} to {:06x} ({})",
                    a.val,
                    a.addr,
                    page.map_or("not a page of its own".into(), |p| format!("its page {:04x}, which it may not write", p << 7))
                );
            } else {
                check!(
                    self.entries.contains(&(a.addr & !3)) || page.is_some_and(|p| self.perms(p) & (P_R | P_X) != 0),
                    "confinement",
                    "{what} lets the program read {:06x}, which is none of its pages",
                    a.addr
                );
            }
        }
        Ok(())
    }
    /// The mode and registers that are out of its reach
    pub fn captive(&self, what: &str) -> Result<(), Fail> {
        let st = self.w.st();
        check!(st.user(), "confinement", "after {what} the program is in supervisor mode");
        check!(st.virt(), "confinement", "after {what} the program is in direct mode");
        check!(st.r[RP] as u32 == self.root, "confinement", "{what} changes the page table register from {:04x} to {:04x}", self.root, st.r[RP]);
        check!(st.r[RH] == 0, "confinement", "{what} sets the trap handler register to {:04x}", st.r[RH]);
        Ok(())
    }
}
