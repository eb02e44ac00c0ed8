//! The real machine on simulated memory and devices, watched at every access, and what the harness
//! knows about its memory.
use crate::check;
use crate::run::{guard, Fail, Res};
use crate::src::mix;
use std::{cell::RefCell, collections::BTreeMap, rc::Rc};
use telda2::{
    blf4::{Blf4, Blf4Flags, WideRegister},
    machine::Machine,
    mem::{Io, LazyMain, MainMemory},
    U4,
};

// ---- devices ----

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct DevAcc {
    pub addr: u8,
    pub write: bool,
    pub val: u8,
}
#[derive(Default)]
pub struct Dev {
    /// what the devices show changes with it
    pub seed: u64,
    pub log: Vec<DevAcc>,
    /// someone types at it instead
    pub console: Option<Console>,
}
/// A console where lines are typed when the program asks for input
#[derive(Default)]
pub struct Console {
    pub lines: std::collections::VecDeque<Vec<u8>>,
    pub buf: std::collections::VecDeque<u8>,
    /// the lines that were taken, in the order they were asked for
    pub taken: Vec<Vec<u8>>,
    /// more was asked for than there is
    pub ended: bool,
}
pub fn dev_value(seed: u64, addr: u8) -> u8 {
    (mix(seed ^ ((addr as u64) << 40)) >> 17) as u8
}
#[derive(Clone)]
pub struct SimIo(pub Rc<RefCell<Dev>>);
impl Io for SimIo {
    fn read(&mut self, addr: u8) -> u8 {
        let mut d = self.0.borrow_mut();
        let seed = d.seed;
        let val = match &mut d.console {
            None => dev_value(seed, addr),
            Some(c) => {
                if c.buf.is_empty() {
                    if let Some(l) = c.lines.pop_front() {
                        c.buf.extend(&l);
                        c.taken.push(l);
                    }
                }
                c.buf.pop_front().unwrap_or_else(|| {
                    c.ended = true;
                    0
                })
            }
        };
        d.log.push(DevAcc { addr, write: false, val });
        val
    }
    fn write(&mut self, addr: u8, val: u8) {
        self.0.borrow_mut().log.push(DevAcc { addr, write: true, val });
    }
}

// ---- memory ----

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Acc {
    pub addr: u32,
    pub write: bool,
    pub val: u8,
}
/// The real memory, with a record of what the processor does to it
#[derive(Clone)]
pub struct Traced {
    pub inner: Box<LazyMain<SimIo>>,
    pub log: Vec<Acc>,
    /// accesses after which the run is given up as not ending
    pub limit: usize,
}
impl MainMemory for Traced {
    fn read(&mut self, addr: u32) -> u8 {
        let val = self.inner.read(addr);
        self.push(Acc { addr, write: false, val });
        val
    }
    fn write(&mut self, addr: u32, val: u8) {
        self.inner.write(addr, val);
        self.push(Acc { addr, write: true, val });
    }
}
impl Traced {
    fn push(&mut self, a: Acc) {
        self.log.push(a);
        if self.log.len() > self.limit {
            panic!("one step makes over {} accesses to memory", self.limit);
        }
    }
}

pub const ROM: std::ops::Range<u32> = 0x80..0x8000;
pub fn is_dev(a: u32) -> bool {
    a < 0x80
}
pub fn is_rom(a: u32) -> bool {
    ROM.contains(&a)
}

/// What the memory holds, as the harness knows it
#[derive(Clone, Default)]
pub struct Shadow {
    pages: BTreeMap<u32, Box<[u8; 128]>>,
}
impl Shadow {
    pub fn get(&self, a: u32) -> u8 {
        self.pages.get(&(a >> 7)).map_or(0, |p| p[(a & 0x7f) as usize])
    }
    pub fn set(&mut self, a: u32, v: u8) {
        self.pages.entry(a >> 7).or_insert_with(|| Box::new([0; 128]))[(a & 0x7f) as usize] = v;
    }
    pub fn word(&self, a: u32) -> u32 {
        u32::from_le_bytes(std::array::from_fn(|i| self.get(a + i as u32)))
    }
    pub fn pages(&self) -> impl Iterator<Item = u32> + '_ {
        self.pages.keys().map(|p| p << 7)
    }
}

// ---- processor ----

pub const Z: u8 = 0x80;
pub const O: u8 = 0x40;
pub const S: u8 = 0x20;
pub const C: u8 = 0x10;
pub const V: u8 = 0x08;
pub const T: u8 = 0x02;
pub const U: u8 = 0x01;

pub const RS: usize = 11;
pub const RL: usize = 12;
pub const RF: usize = 13;
pub const RP: usize = 14;
pub const RH: usize = 15;

/// Everything a processor holds
#[derive(Clone, PartialEq, Eq, Debug, Default)]
pub struct St {
    pub r: [u16; 16],
    pub pc: u16,
    pub fl: u8,
}
impl St {
    pub fn of(c: &Blf4) -> St {
        let mut s = St { pc: c.program_counter, fl: u16::from(c.flags) as u8, ..St::default() };
        for i in 1..=10 {
            s.r[i] = c.read_wr(WideRegister(U4::new(i as u8))).expect("HARNESS: register");
        }
        s.r[RS] = c.stack;
        s.r[RL] = c.link;
        s.r[RF] = c.frame;
        s.r[RP] = c.page;
        s.r[RH] = c.trap_handler;
        s
    }
    pub fn put(&self, c: &mut Blf4) {
        for i in 1..=10 {
            c.write_wr(WideRegister(U4::new(i as u8)), self.r[i]).expect("HARNESS: register");
        }
        c.stack = self.r[RS];
        c.link = self.r[RL];
        c.frame = self.r[RF];
        c.page = self.r[RP];
        c.trap_handler = self.r[RH];
        c.program_counter = self.pc;
        c.flags = Blf4Flags::from(self.fl as u16);
    }
    pub fn br(&self, i: u8) -> u8 {
        match i {
            0 => 0,
            1..=10 => (self.r[(i as usize + 1) / 2] >> (if i % 2 == 0 { 8 } else { 0 })) as u8,
            _ => self.r[i as usize - 5] as u8,
        }
    }
    pub fn set_br(&mut self, i: u8, v: u8) {
        match i {
            0 => (),
            1..=10 => {
                let r = &mut self.r[(i as usize + 1) / 2];
                *r = if i % 2 == 0 { (*r & 0xff) | (v as u16) << 8 } else { (*r & 0xff00) | v as u16 };
            }
            _ => self.r[i as usize - 5] = v as u16,
        }
    }
    pub fn user(&self) -> bool {
        self.fl & U != 0
    }
    pub fn virt(&self) -> bool {
        self.fl & V != 0
    }
}
pub fn reg_name(i: usize) -> String {
    match i {
        RS => "rs".into(),
        RL => "rl".into(),
        RF => "rf".into(),
        RP => "rp".into(),
        RH => "rh".into(),
        n => format!("r{n}"),
    }
}
impl std::fmt::Display for St {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "pc={:04x} flags={}", self.pc, flags(self.fl))?;
        for i in 1..16 {
            write!(f, " {}={:x}", reg_name(i), self.r[i])?;
        }
        Ok(())
    }
}
pub fn flags(f: u8) -> String {
    "zoscvrtu".chars().enumerate().map(|(i, c)| if f & (0x80 >> i) != 0 { c } else { '-' }).collect()
}

pub type Mach = Machine<Traced, Blf4>;

/// The real machine and what the harness knows about it
pub struct World {
    pub m: Mach,
    pub dev: Rc<RefCell<Dev>>,
    pub mem: Shadow,
    /// what the last action overwrote, in order
    undo: Vec<(u32, u8)>,
}
impl World {
    pub fn new(rom: Option<&[u8]>) -> World {
        let dev = Rc::new(RefCell::new(Dev::default()));
        let mut inner = Box::new(LazyMain::new(SimIo(dev.clone())));
        let mut mem = Shadow::default();
        if let Some(b) = rom {
            inner = Box::new((*inner).with_rom(b));
            for (i, &x) in b.iter().enumerate() {
                mem.set(0x80 + i as u32, x);
            }
        }
        let mut cpu = Blf4::new();
        // a new processor leaves to chance what these hold; the simulator does not
        let mut st = St::of(&cpu);
        for i in (1..=10).chain([RS, RF, RP]) {
            st.r[i] = mix(i as u64) as u16;
        }
        st.put(&mut cpu);
        World { m: Machine::new(Traced { inner, log: Vec::new(), limit: 20_000 }, cpu), dev, mem, undo: Vec::new() }
    }
    /// The environment changes memory; read-only memory and devices stay as they are
    pub fn poke(&mut self, a: u32, v: u8) {
        if a >= 0x8000 {
            self.m.memory.inner.write(a, v);
            self.mem.set(a, v);
        }
    }
    pub fn poke_n(&mut self, a: u32, v: &[u8]) {
        for (i, &b) in v.iter().enumerate() {
            self.poke(a + i as u32, b);
        }
    }
    pub fn st(&self) -> St {
        St::of(&self.m.cpu)
    }
    pub fn set(&mut self, s: &St) {
        s.put(&mut self.m.cpu);
    }
    pub fn dev_seed(&self) -> u64 {
        self.dev.borrow().seed
    }
    /// What the memory really holds, past the record
    pub fn real(&mut self, a: u32) -> u8 {
        assert!(!is_dev(a), "HARNESS: device");
        self.m.memory.inner.read(a)
    }
    pub fn start(&mut self) {
        self.m.memory.log.clear();
        self.dev.borrow_mut().log.clear();
    }
    /// The record of one action, checked against the map of the memory: every read gives what was there,
    /// devices get exactly the accesses to their addresses
    pub fn taken(&mut self) -> Result<Vec<Acc>, Fail> {
        let log = std::mem::take(&mut self.m.memory.log);
        self.undo.clear();
        let dlog = std::mem::take(&mut self.dev.borrow_mut().log);
        let want: Vec<DevAcc> = log.iter().filter(|a| is_dev(a.addr)).map(|a| DevAcc { addr: a.addr as u8, write: a.write, val: a.val }).collect();
        check!(want == dlog, "memory map", "accesses to the first 128 bytes {want:x?} reach the devices as {dlog:x?}");
        for a in &log {
            if is_dev(a.addr) {
                continue;
            }
            if a.write {
                if !is_rom(a.addr) {
                    self.undo.push((a.addr, self.mem.get(a.addr)));
                    self.mem.set(a.addr, a.val);
                }
            } else {
                check!(a.val == self.mem.get(a.addr), "memory map", "reading {:06x} gives {:02x} where {:02x} was written", a.addr, a.val, self.mem.get(a.addr));
            }
        }
        Ok(log)
    }
    /// What was there before the last action
    pub fn before(&self, a: u32) -> u8 {
        self.undo.iter().find(|u| u.0 == a).map_or_else(|| self.mem.get(a), |u| u.1)
    }
    /// All memory that was ever used, and the whole of the first 64 KiB, holds what it should
    pub fn whole(&mut self, full: bool) -> Res {
        let mut pages: Vec<u32> = self.mem.pages().collect();
        if full {
            pages.extend((0x8000..0x1_0000).step_by(128));
        }
        for p in pages {
            // a read of read-only memory costs the real memory a copy of all of it
            let step = if !is_rom(p) { 1 } else if full { 61 } else { 128 };
            if is_rom(p) && !full && p & 0xf80 != 0 {
                continue;
            }
            for a in (p..p + 128).step_by(step) {
                let (x, y) = (self.real(a), self.mem.get(a));
                check!(x == y, "memory map", "{a:06x} holds {x:02x}, but {y:02x} was written there");
            }
        }
        Ok(())
    }
    pub fn guarded<T>(&mut self, f: impl FnOnce(&mut Mach) -> T) -> Result<T, Fail> {
        self.start();
        guard(|| f(&mut self.m))
    }
}
