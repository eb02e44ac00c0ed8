//! C22: an image for the read-only memory, booted by t -r, next to the model of the machine
use super::gen::{self, Aim};
use super::lock;
use super::model::{self, Mode, X};
use super::sim::*;
use crate::check;
use crate::common::{diff, noise};
use crate::psim::*;
use crate::run::{Ctx, Prop, Res};
use crate::src::{mix, Src};
use std::collections::{BTreeMap, VecDeque};

pub const PROP: Prop = Prop {
    id: "C22",
    run,
    quick: 35_000,
    thorough: 400_000,
    level: "exploration",
    rule: "a run writes an image for the read-only memory, instruction by instruction while the reference machine executes it (devices read, written, executed; page tables in ROM and RAM, handlers that dispatch, return, replace themselves, user mode, code copied to RAM, jumps), boots it with t -r while reads and writes are split, shortened, interrupted, the image cannot be read or the input ends, and compares all output, the trap and status it ends with and the point of termination; non-trivial: more than 20 instructions were executed; distinct by the instructions executed and the system calls made",
    real: "the shipped t with the whole machine below it, unmodified, built from /repo's working tree",
    stub: crate::common::STUB,
    assumptions: &["instructions for whose trap the architecture leaves several outcomes open, and traps while a handler is entered, are not generated", "a page table that lies in the devices' first 128 bytes is not described"],
    probes: &[
        "end: Halt", "end: Invalid", "end: SysCall", "end: ZeroDiv", "end: IllegalHandlerReturn", "end: page fault", "end: access denied", "end: input ended", "image unreadable", "image too big", "image of full size", "image of any size", "image of a few bytes", "virtual mode", "user mode", "handler entered", "handler entered from user mode", "handler returned", "code in RAM", "code from a device", "device read", "device written", "wide access to a device", "tables in ROM", "tables in RAM", "with -t", "store to ROM", "memory beyond 64 KiB",
    ],
};

/// What comes of one instruction
enum Out {
    Next(Box<model::Step>, Option<u8>),
    End(Vec<u8>, Vec<u16>),
    Starved,
    /// the architecture leaves it open
    Unclear,
}

#[derive(Clone)]
struct Mach {
    mem: Shadow,
    st: St,
}
impl Mach {
    fn phys(&self, va: u16) -> Option<u32> {
        if !self.st.virt() {
            return Some(va as u32);
        }
        let e1 = self.mem.word(self.st.r[RP] as u32 + 4 * (va >> 12) as u32);
        if e1 & 1 == 0 {
            return None;
        }
        let e2 = self.mem.word(((e1 >> 15) << 7) + 4 * ((va >> 7) & 31) as u32);
        (e2 & 1 != 0).then_some(((e2 >> 15) << 7) | (va & 0x7f) as u32)
    }
    fn executable(&self, va: u16) -> Option<u32> {
        X::new(&self.mem, 0, &self.st).walk(va, Mode::Exec)
    }
    fn judge(&self, feed: &[u8]) -> Out {
        let s = model::step_fed(&self.mem, feed, &self.st);
        if s.undefined {
            return Out::Unclear;
        }
        if s.starved {
            return if s.traps.is_empty() && s.dev.iter().all(|d| !d.write) { Out::Starved } else { Out::Unclear };
        }
        if s.traps.is_empty() {
            return Out::Next(Box::new(s), None);
        }
        // an instruction of one byte that came from a device
        let dev = s.dev.is_empty() || (s.dev.len() == 1 && !s.dev[0].write && model::length(s.op) == 1 && s.op != 0x0d);
        if !dev || s.may.iter().any(|m| m.0 == RH) {
            return Out::Unclear;
        }
        if self.st.r[RH] == 0 {
            let mut t = s.traps;
            t.sort();
            t.dedup();
            return Out::End(t, s.pcs);
        }
        let t = s.traps[0];
        if s.traps.iter().any(|x| *x != t) || s.pcs.len() != 1 || !s.may.is_empty() || !s.may_flags.is_empty() || !s.writes.is_empty() {
            return Out::Unclear;
        }
        let mut at = self.st.clone();
        at.pc = s.pcs[0];
        let mut e = model::enter(&self.mem, &at, t);
        if !e.traps.is_empty() || e.undefined {
            return Out::Unclear;
        }
        e.op = s.op;
        let mut d = s.dev;
        d.append(&mut e.dev);
        e.dev = d;
        Out::Next(Box::new(e), Some(t))
    }
    fn take(&mut self, s: &model::Step) {
        for &(a, v) in &s.writes {
            self.mem.set(a, v);
        }
        self.st = s.next.clone();
    }
}

#[derive(Clone)]
struct G {
    m: Mach,
    rom: Vec<u8>,
    /// bytes of the image that matter already
    fixed: Vec<bool>,
    feed: Vec<u8>,
    fed: usize,
    /// registers that still hold something random
    unset: usize,
    direct: Aim,
    virt: Aim,
    queue: VecDeque<Vec<u8>>,
    facts: BTreeMap<&'static str, u64>,
}

fn ldi(r: usize, v: u16) -> Vec<u8> {
    let [l, h] = v.to_le_bytes();
    vec![0x40, (r as u8) << 4, l, h]
}
fn stw(r: usize, at: u16) -> Vec<u8> {
    let [l, h] = at.to_le_bytes();
    vec![0x28, r as u8, l, h]
}
fn with(op: u8, to: u16) -> Vec<u8> {
    let [l, h] = to.to_le_bytes();
    vec![op, l, h]
}
fn jmp(to: u16) -> Vec<u8> {
    let [l, h] = to.to_le_bytes();
    vec![0x40, 0x01, l, h]
}

impl G {
    fn fact(&mut self, k: &'static str) {
        *self.facts.entry(k).or_default() += 1;
    }
    fn aim(&self) -> &Aim {
        if self.m.st.virt() { &self.virt } else { &self.direct }
    }
    /// where in the image an address leads, if that is not decided yet
    fn open(&self, va: u16) -> Option<usize> {
        let a = self.m.phys(va)?.checked_sub(0x80)? as usize;
        (a < self.rom.len() && !self.fixed[a]).then_some(a)
    }
    fn space(&self, va: u16) -> usize {
        (0..16u16).take_while(|&i| self.open(va.wrapping_add(i)).is_some()).count()
    }
    /// An address where code can still be put
    fn fresh(&self, s: &mut Src) -> Option<u16> {
        let pages: Vec<u16> = if self.m.st.virt() { self.virt.vpages.clone() } else { Vec::new() };
        for _ in 0..12 {
            let va = if !pages.is_empty() {
                s.pick(&pages).wrapping_add(s.below(128) as u16)
            } else {
                0x80 + s.below(self.rom.len().max(1) as u64) as u16
            };
            if self.m.executable(va).is_some() && self.space(va) >= 8 {
                return Some(va);
            }
        }
        None
    }
    fn set_rom(&mut self, at: usize, b: &[u8], fix: bool) {
        for (i, &x) in b.iter().enumerate() {
            self.rom[at + i] = x;
            self.fixed[at + i] |= fix;
            self.m.mem.set(0x80 + (at + i) as u32, x);
        }
    }
    fn ram(s: &mut Src) -> u16 {
        0x8000 + s.below(0x100) as u16 * 128
    }

    /// Page tables, and the instructions that turn them on
    fn go_virtual(&mut self, s: &mut Src) {
        let pc = self.m.st.pc;
        let rom_pages: Vec<u32> = (1..=self.rom.len() as u32 / 128).map(|p| p * 128).collect();
        if rom_pages.len() < 6 {
            return;
        }
        let in_rom = s.chance(1, 2);
        let open_page = |g: &G, s: &mut Src| {
            for _ in 0..20 {
                let p = *s.pick(&rom_pages);
                if (0..128).all(|i| !g.fixed[(p - 0x80) as usize + i]) && (p as u16).abs_diff(pc) > 512 {
                    return Some(p);
                }
            }
            None
        };
        let n2 = s.range(1, 2) as usize;
        let mut t = Vec::new();
        for _ in 0..=n2 {
            let p = if in_rom { open_page(self, s) } else { Some(Self::ram(s) as u32) };
            let Some(p) = p else { return };
            if t.contains(&p) {
                return;
            }
            t.push(p);
        }
        let t1 = t[0] + 64 * s.below(2) as u32;
        let mut first: BTreeMap<u16, u32> = BTreeMap::new();
        let mut second: BTreeMap<(u32, u16), u32> = BTreeMap::new();
        let perms = |s: &mut Src, page: u32, code: bool| {
            let p = if s.chance(1, 8) { s.u8() | if code { 0x09 } else { 1 } } else { 0x2f };
            let spare = if s.chance(1, 4) { (s.below(128) as u32) << 8 } else { 0 };
            page << 8 | spare | p as u32
        };
        // where the instructions go on, and the stack
        let mut vpages: Vec<(u16, u32)> = Vec::new();
        for i in 0..if in_rom { 2 } else { 7 } {
            let p = match open_page(self, s) {
                Some(p) => p,
                None => *s.pick(&rom_pages),
            };
            vpages.push(((pc & 0xff80).wrapping_add(128 * i), p));
        }
        let stack = s.u16() & 0xff80;
        vpages.push((stack, Self::ram(s) as u32));
        for _ in 0..s.range(2, if in_rom { 24 } else { 8 }) {
            let p = match s.below(8) {
                0 => 0,
                1 => 0x1_0000 + s.below(0x1fe00) as u32 * 128,
                2 | 3 => Self::ram(s) as u32,
                4 => *s.pick(&t),
                5 => *s.pick(&rom_pages),
                _ => open_page(self, s).unwrap_or(0x8000),
            };
            vpages.push((s.u16() & 0xff80, p));
        }
        for (i, &(v, p)) in vpages.iter().enumerate() {
            let t2 = *first.entry(v >> 12).or_insert(0);
            let page = t[1 + s.usize(n2)];
            let t2 = if t2 == 0 { perms(s, page, true) } else { t2 };
            first.insert(v >> 12, t2);
            let e = perms(s, p, i < 7);
            second.entry(((t2 >> 15) << 7, v >> 7 & 31)).or_insert(e);
        }
        let mut entries: Vec<(u32, u32)> = first.iter().map(|(i, e)| (t1 + 4 * *i as u32, *e)).collect();
        entries.extend(second.iter().map(|((t, i), e)| (t + 4 * *i as u32, *e)));
        self.virt.pages = vpages.iter().map(|v| v.1).collect();
        self.virt.vpages = first.iter().flat_map(|(i, e)| second.keys().filter(move |k| k.0 == (*e >> 15) << 7).map(move |k| i << 12 | k.1 << 7)).collect();
        if in_rom {
            for (a, e) in entries {
                if !is_rom(a) || a < 0x80 || (a - 0x80) as usize + 4 > self.rom.len() {
                    return;
                }
                self.set_rom((a - 0x80) as usize, &e.to_le_bytes(), true);
            }
            self.fact("tables in ROM");
        } else {
            let r = s.range(1, 10) as usize;
            for (a, e) in entries {
                for (k, v) in [(0, e as u16), (2, (e >> 16) as u16)] {
                    self.queue.push_back(ldi(r, v));
                    self.queue.push_back(stw(r, (a as u16).wrapping_add(k)));
                }
            }
            self.fact("tables in RAM");
        }
        self.queue.push_back(ldi(RP, t1 as u16));
        if s.chance(7, 8) {
            self.queue.push_back(ldi(RS, stack.wrapping_add(2 * s.range(24, 64) as u16)));
        }
        self.queue.push_back(vec![0x11]);
    }

    /// Instructions in memory that can be written
    fn to_ram(&mut self, s: &mut Src) {
        let Some(back) = self.fresh(s) else { return };
        let mut v = Vec::new();
        let near = Aim { pages: vec![0x8000], vpages: vec![Self::ram(s)] };
        for _ in 0..s.range(1, 6) {
            v.extend(match s.below(4) {
                0 => vec![0x27, s.u8() & 0x0f, s.u8() & 0x7f, 0],
                1 => ldi(s.range(1, 10) as usize, s.u16()),
                _ => gen::instr(s, &[0x20, 0x27, 0x28, 0x3f, 0x41, 0x42, 0x44, 0x49, 0x4e], &near),
            });
        }
        v.extend(jmp(back));
        if v.len() % 2 == 1 {
            v.push(0x20);
        }
        let at = 0x8000 + s.below(0x7f00) as u16;
        let r = s.range(1, 10) as usize;
        for (i, w) in v.chunks(2).enumerate() {
            self.queue.push_back(ldi(r, u16::from_le_bytes([w[0], w[1]])));
            self.queue.push_back(stw(r, at.wrapping_add(2 * i as u16)));
        }
        self.queue.push_back(jmp(at));
    }

    /// The beginning of a handler
    fn handler(&mut self, s: &mut Src) {
        self.queue.clear();
        if s.chance(1, 3) {
            if let Some(a) = self.fresh(s) {
                self.queue.push_back(ldi(RH, a));
            }
        }
        let mut numbers = vec![model::INVALID, model::SYSCALL, model::ZERODIV, model::HALT, model::ILLEGAL_OP, model::ILLEGAL_READ, model::ILLEGAL_WRITE, model::L2PF, model::L1PF, model::ILLEGAL_EXEC];
        s.shuffle(&mut numbers);
        for &n in &numbers[..s.below(4) as usize] {
            let (a, b) = (s.range(2, 10) as u8, s.range(2, 10) as u8);
            if let Some(to) = self.fresh(s) {
                self.queue.push_back(ldi(a as usize, n as u16));
                self.queue.push_back(vec![0x44, b << 4 | 1, a << 4]);
                self.queue.push_back(with(0x2f, to));
            }
        }
    }

    fn instruction(&mut self, s: &mut Src, ending: bool) -> Vec<u8> {
        let (user, rh, handling) = (self.m.st.user(), self.m.st.r[RH], self.m.st.fl & T != 0);
        let dev = s.below(0x80) as u16;
        if ending && s.chance(3, 4) {
            if rh != 0 && !user {
                return ldi(RH, 0);
            }
            let k = s.range(1, 15) as u8;
            return match s.below(6) {
                0 | 1 => vec![0x0a],
                2 => vec![0x0c],
                3 => vec![*s.pick(&[0, 0x15, 0x3b, 0x55, 0xff, 0x0e])],
                4 => vec![0x52, k << 4 | k, k << 4],
                _ => {
                    let anywhere = Aim { pages: vec![0x8000], vpages: vec![s.u16() & 0xff80] };
                    gen::instr(s, &[0x0d, 0x10, 0x11, 0x12, 0x13, 0x14, 0x25, 0x2b, 0x27, 0x40], &anywhere)
                }
            };
        }
        if handling && s.chance(1, 8) {
            return vec![0x0d];
        }
        match s.below(24) {
            0..=3 => vec![0x27, s.below(16) as u8, dev as u8, 0],
            4 => stw(s.below(14) as usize, dev & 0x7e),
            5 => vec![0x2b, (s.below(16) as u8) << 4, dev as u8, 0],
            6 => vec![0x2c, (s.below(13) as u8) << 4, dev as u8 & 0x7e, 0],
            7 => match self.fresh(s) {
                Some(a) => match s.below(3) {
                    0 => jmp(a),
                    1 => with(0x25, a),
                    _ => with(s.range(0x2f, 0x3a) as u8, a),
                },
                None => vec![0x20],
            },
            8 if !user => match self.fresh(s) {
                Some(a) => ldi(RH, a),
                None => vec![0x20],
            },
            9 if !user && !self.m.st.virt() => {
                if s.chance(1, 2) {
                    self.go_virtual(s);
                } else {
                    self.to_ram(s);
                }
                self.queue.pop_front().unwrap_or(vec![0x20])
            }
            10 if self.m.st.virt() && rh != 0 => vec![0x10],
            11 if rh != 0 => vec![*s.pick(&[0x0a, 0x0c, 0x0c, 0x15])],
            12 if rh != 0 => {
                let k = s.range(1, 10) as u8;
                vec![*s.pick(&[0x51, 0x52]), k << 4 | k, k << 4]
            }
            13 if !user => vec![*s.pick(&[0x13, 0x14]), s.u8(), (s.below(13) as u8) << 4],
            14..=16 => gen::instr(s, &gen::MEMORY, &self.aim().clone()),
            _ => gen::instr(s, &gen::ALL, &self.aim().clone()),
        }
    }

    /// It can probably go on from there: instructions can be put there, or there are some that do not only trap
    fn lives(&self, mut m: Mach) -> bool {
        let mut traps = 0;
        for _ in 0..60 {
            let pc = m.st.pc;
            if m.executable(pc).is_some_and(|a| is_dev(a) || (is_rom(a) && (a as usize - 0x80) < self.rom.len() && !self.fixed[a as usize - 0x80])) {
                return true;
            }
            match m.judge(&[0x20; 8]) {
                Out::Next(n, t) => {
                    traps += t.is_some() as u32;
                    m.take(&n);
                }
                _ => return false,
            }
            if traps > 2 {
                return false;
            }
        }
        false
    }

    /// Decides, if that is still open, what the next instruction is
    fn choose(&mut self, s: &mut Src, ending: bool) {
        let pc = self.m.st.pc;
        if self.m.phys(pc).is_some_and(is_dev) && self.m.executable(pc).is_some() {
            if self.fed == self.feed.len() {
                self.queue.clear();
                let code = self.instruction(s, ending);
                self.feed.extend(code);
            }
            return;
        }
        let space = self.space(pc);
        if space == 0 || self.m.executable(pc).is_none() {
            self.queue.clear();
            return;
        }
        for attempt in 0..8 {
            let queued = self.queue.front().is_some();
            let code = if attempt == 7 { vec![0x20] } else { self.queue.pop_front().unwrap_or_else(|| self.instruction(s, ending)) };
            if code.len() > space {
                self.queue.clear();
                continue;
            }
            let places: Vec<usize> = (0..code.len()).map(|i| self.open(pc.wrapping_add(i as u16)).unwrap()).collect();
            let old: Vec<u8> = places.iter().map(|&p| self.rom[p]).collect();
            for (&p, &b) in places.iter().zip(&code) {
                self.set_rom(p, &[b], false);
            }
            let feed: Vec<u8> = self.feed[self.fed..].iter().copied().chain([0; 8]).collect();
            if self.unset > 0 {
                self.unset -= 1;
                return;
            }
            let good = match self.m.judge(&feed) {
                Out::Unclear | Out::Starved => false,
                Out::End(..) => ending || queued || s.chance(1, 64),
                Out::Next(n, _) => {
                    let mut m = self.m.clone();
                    m.take(&n);
                    self.lives(m) || s.chance(1, 100)
                }
            };
            if good || (attempt == 7 && queued) {
                return;
            }
            for (&p, &b) in places.iter().zip(&old).rev() {
                self.set_rom(p, &[b], false);
            }
        }
    }

    /// Carries out the next instruction, whatever it is
    fn step(&mut self, s: &mut Src) -> Out {
        let pc = self.m.st.pc;
        // what is typed is decided when it is asked for
        let need = 12;
        let spare: Vec<u8> = s.bytes(need);
        let feed: Vec<u8> = self.feed[self.fed..].iter().copied().chain(spare).collect();
        let out = self.m.judge(&feed);
        let len = model::length(self.m.phys(pc).map_or(0, |a| self.m.mem.get(a)));
        for i in 0..len {
            if let Some(p) = self.open(pc.wrapping_add(i)) {
                self.fixed[p] = true;
            }
        }
        if let Out::Next(n, _) = &out {
            for &(_, a, _) in &n.touched {
                if is_rom(a) && ((a - 0x80) as usize) < self.rom.len() {
                    self.fixed[(a - 0x80) as usize] = true;
                }
            }
        }
        if let Out::Next(n, t) = &out {
            let k = n.dev.iter().filter(|d| !d.write).count();
            let have = self.feed.len() - self.fed;
            if k > have {
                self.feed.extend(&feed[have..k]);
            }
            self.fed += k;
            self.m.take(n);
            if t.is_some() {
                if self.space(self.m.st.pc) > 0 {
                    self.handler(s);
                } else {
                    self.queue.clear();
                }
            }
        }
        out
    }
}

/// What a booted machine does
#[derive(Default)]
struct Did {
    out: Vec<u8>,
    taken: usize,
    steps: u64,
    hash: u64,
    end: Option<(Vec<u8>, Vec<u16>)>,
    starved: bool,
}

fn boot(rom: &[u8]) -> Mach {
    let mut m = Mach { mem: Shadow::default(), st: St::default() };
    for (i, &b) in rom.iter().enumerate() {
        m.mem.set(0x80 + i as u32, b);
    }
    m.st.pc = 0x80;
    for i in 1..15 {
        m.st.r[i] = mix(i as u64) as u16;
    }
    m
}

const LIMIT: u64 = 700;

fn execute(rom: &[u8], input: &[u8], c: &mut Ctx) -> Option<Did> {
    let mut m = boot(rom);
    let mut d = Did::default();
    while d.steps < LIMIT {
        let pc = m.st.pc;
        let at = m.phys(pc);
        match m.judge(&input[d.taken..]) {
            Out::Unclear => return None,
            Out::Starved => {
                d.starved = true;
                return Some(d);
            }
            Out::End(t, pcs) => {
                d.end = Some((t, pcs));
                return Some(d);
            }
            Out::Next(n, t) => {
                d.steps += 1;
                d.hash = mix(d.hash ^ (n.op as u64) << 8 ^ m.st.fl as u64);
                for x in &n.dev {
                    if x.write {
                        d.out.push(x.val);
                    } else {
                        d.taken += 1;
                    }
                    c.count(if x.write { "device written" } else { "device read" });
                }
                if n.dev.len() == 2 {
                    c.count("wide access to a device");
                }
                if m.st.virt() {
                    c.count("virtual mode");
                }
                if m.st.user() {
                    c.count("user mode");
                }
                if let Some(a) = at {
                    if is_dev(a) {
                        c.count("code from a device");
                    } else if a >= 0x8000 {
                        c.count("code in RAM");
                    }
                }
                match t {
                    Some(_) => c.count(if m.st.user() { "handler entered from user mode" } else { "handler entered" }),
                    None if n.op == 0x0d => c.count("handler returned"),
                    None => {
                        for t in &n.touched {
                            if t.2 == Mode::Write && is_rom(t.1) {
                                c.count("store to ROM");
                            }
                            if t.1 >= 0x1_0000 {
                                c.count("memory beyond 64 KiB");
                            }
                        }
                    }
                }
                if c.noting() {
                    let st = m.st.clone();
                    let b: Vec<u8> = (0..model::length(n.op)).map(|i| m.phys(pc.wrapping_add(i)).map_or(0, |a| m.mem.get(a))).collect();
                    c.note(|| format!("{} [{}]{}", st, crate::obj::hex(&b), t.map_or("", lock::trap_name)));
                }
                m.take(&n);
            }
        }
    }
    None
}

fn run(c: &mut Ctx) -> Res {
    if c.src.chance(1, 60) {
        return too_big(c);
    }
    let s = &mut c.src;
    let full = s.chance(1, 3);
    let len = if full { 0x7f80 } else if s.chance(1, 10) { s.range(60, 300) as usize } else { s.range(300, 0x7f80) as usize };
    if s.chance(1, 20) {
        // hardly anything
        let mut rom = Vec::new();
        if s.chance(1, 3) {
            // what would mean something to somebody else
            let b: &[u8] = *s.pick(&[&b"#!/bin/env t\n"[..], b"#!\n", "álvur2\n".as_bytes(), "álvasavn\n".as_bytes(), b"\xef\xbb\xbf", b"\x7fELF", b"#!/bin/env t\n\xc3\xa1lvur2\n"]);
            rom.extend(b);
        }
        for _ in 0..s.below(6) {
            rom.extend(match s.below(3) {
                0 => vec![0x20],
                1 => vec![0x27, 0, s.below(0x80) as u8, 0],
                _ => vec![0x2b, 0, s.below(0x80) as u8, 0],
            });
        }
        if s.chance(1, 2) {
            rom.push(*s.pick(&[0x0a, 0x0c, 0x0d, 0x15, 0xff]));
        }
        c.count("image of a few bytes");
        let input = c.src.bytes(8);
        return compare(c, &rom, input);
    }
    let rom = if s.chance(1, 2) { s.bytes(len) } else { vec![*s.pick(&[0, 0x20, 0x0a]); len] };
    let mut g = G {
        m: boot(&rom),
        fixed: vec![false; len],
        rom,
        feed: Vec::new(),
        fed: 0,
        unset: 14,
        direct: Aim::default(),
        virt: Aim::default(),
        queue: VecDeque::new(),
        facts: BTreeMap::new(),
    };
    g.direct.vpages = (0..6).map(|_| G::ram(s)).collect();
    g.direct.vpages.extend([0, s.below(0x100) as u16 * 128]);
    g.direct.pages = g.direct.vpages.iter().map(|&p| p as u32).collect();
    // no register holds anything that can be relied on
    let mut regs: Vec<usize> = (1..=14).collect();
    s.shuffle(&mut regs);
    for r in regs {
        let v = if r == RS && s.chance(3, 4) { G::ram(s) + s.below(128) as u16 } else { gen::value(s, &g.direct) };
        g.queue.push_back(ldi(r, v));
    }
    let target = s.range(20, 200);
    let mut steps = 0;
    // the last place where the program could be brought to its end
    let mut saved: Option<(G, u64)> = None;
    let mut stuck = 0;
    let mut rescued = false;
    loop {
        let room = g.space(g.m.st.pc) >= 8 && g.m.executable(g.m.st.pc).is_some();
        stuck = if room { 0 } else { stuck + 1 };
        if room && g.unset == 0 && !g.m.st.user() && g.queue.is_empty() && !rescued && c.src.chance(1, 4) {
            saved = Some((g.clone(), steps));
        }
        g.choose(&mut c.src, steps >= target);
        let out = if stuck > 150 || steps > LIMIT { Out::Unclear } else { g.step(&mut c.src) };
        match out {
            Out::Next(..) => (),
            Out::End(..) | Out::Starved => break,
            Out::Unclear => {
                let Some((before, n)) = saved.take() else {
                    c.count("given up");
                    return Ok(());
                };
                (g, steps, rescued, stuck) = (before, n, true, 0);
                let last = *c.src.pick(&[0x0a, 0x0a, 0x0c, 0, 0x15]);
                g.queue = VecDeque::from([ldi(RH, 0), vec![last]]);
                c.count("brought to an end");
            }
        }
        steps += 1;
    }
    if g.unset > 0 {
        return Ok(());
    }
    for (k, n) in g.facts {
        c.add(k, n);
    }
    c.count(if full { "image of full size" } else { "image of any size" });
    compare(c, &g.rom, g.feed)
}

fn compare(c: &mut Ctx, rom: &[u8], mut input: Vec<u8>) -> Res {
    // what the whole of it does, from the beginning
    let ends = !input.is_empty() && c.src.chance(1, 8);
    if ends {
        let n = c.src.usize(input.len());
        input.truncate(n);
    } else if c.src.chance(1, 3) {
        let n = c.src.size(5, 9000) as usize;
        let b = c.src.bytes(n);
        input.extend(b);
    }
    let Some(d) = execute(rom, &input, c) else {
        c.count("given up at the end");
        return Ok(());
    };
    c.nontrivial = d.steps > 20;
    c.shape(d.hash);
    c.ps().put("image", rom, 0o644);
    let point = c.src.chance(1, 6);
    let args: &[&str] = if point { &["-r", "image", "-t"] } else { &["-r", "image"] };
    let mut plan = noise(&mut c.src);
    if c.src.chance(1, 10) {
        plan.faults.push(Fault { idx: c.src.below(12) as u32, kind: *c.src.pick(&[F_ERR, F_ERR_READS]), err: *c.src.pick(&[libc::EIO, libc::EACCES, libc::EISDIR]), arg: 0 });
    }
    let o = c.run("t", args, &input, &plan);
    check!(o.signal.is_none() && !o.over_budget, "crash", "t {}", o.crashed().unwrap_or(o.status()));
    let failed: Vec<&Event> = o.faults_fired().filter(|e| e.ret < 0 && e.err != libc::EINTR).collect();
    if failed.iter().any(|e| e.path > 2 && matches!(e.op, OP_OPEN | OP_READ)) {
        c.count("image unreadable");
        check!(!o.ok() && !o.stderr.is_empty(), "success", "the image could not be read, and t ends with {} {}", o.status(), text(&o.stderr));
        check!(o.stdout.is_empty(), "unreadable image", "the image could not be read, and t executes something: {:?}", text(&o.stdout));
        return Ok(());
    }
    if failed.iter().any(|e| e.path <= 2) {
        return Ok(());
    }
    if d.starved {
        c.count("end: input ended");
        check!(o.stdout == d.out, "output", "before its input ends, the machine writes something else: {}", diff(&o.stdout, &d.out));
        check!(!o.ok(), "status", "input ended when a byte was needed, and t ends with {}", o.status());
        return Ok(());
    }
    let (traps, pcs) = d.end.unwrap();
    c.count(match traps[0] {
        model::L1PF | model::L2PF => "end: page fault",
        model::ILLEGAL_OP | model::ILLEGAL_READ | model::ILLEGAL_WRITE | model::ILLEGAL_EXEC => "end: access denied",
        model::HALT => "end: Halt",
        model::INVALID => "end: Invalid",
        model::SYSCALL => "end: SysCall",
        model::ZERODIV => "end: ZeroDiv",
        _ => "end: IllegalHandlerReturn",
    });
    if let Some(x) = o.crashed() {
        check!(false, "crash", "t {x}");
    }
    let names: Vec<&str> = traps.iter().map(|&t| lock::trap_name(t)).collect();
    if point {
        c.count("with -t");
        check!(o.stdout.starts_with(&d.out), "output", "the machine writes something else: {}", diff(&o.stdout, &d.out));
        let rest = text(&o.stdout[d.out.len()..]);
        let good = names.iter().any(|n| pcs.iter().any(|p| rest.trim_end() == format!("Ended with {n} at <+{p:02X}>")));
        check!(good, "point of termination", "the machine ends with {names:?} at {pcs:04x?}, and t says {rest:?}");
    } else {
        check!(o.stdout == d.out, "output", "the machine writes something else: {}", diff(&o.stdout, &d.out));
        check!(o.ok() == (traps == [model::HALT]), "status", "the machine ends with {names:?}, and t with {} {}", o.status(), text(&o.stderr));
        if !o.ok() {
            check!(names.iter().any(|n| contains(&o.stderr, n.as_bytes())), "message", "the machine ends with {names:?}, and t says {}", text(&o.stderr));
        }
    }
    Ok(())
}

/// An image that does not fit is not executed
fn too_big(c: &mut Ctx) -> Res {
    c.count("image too big");
    c.nontrivial = true;
    let n = 0x7f80 + c.src.size(4, 0x9000) as usize + 1;
    // writes to the console and halts
    let mut b = vec![0x3f, 0x10, 0x41, 0x27, 0x01, 0, 0, 0x0a];
    let fill = c.src.u8();
    b.resize(n, fill);
    c.ps().put("image", &b, 0o644);
    let plan = noise(&mut c.src);
    let o = c.run("t", &["-r", "image"], b"", &plan);
    check!(o.crashed().is_none(), "crash", "t {}", o.crashed().unwrap_or_default());
    check!(!o.ok() && !o.stderr.is_empty(), "success", "the image of {n} bytes does not fit, and t ends with {} {}", o.status(), text(&o.stderr));
    check!(o.stdout.is_empty(), "too big", "the image of {n} bytes does not fit, and t executes it");
    Ok(())
}
