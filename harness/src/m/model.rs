//! The architecture, written down a second time: what one instruction does, and which traps apply to it.
//! Nothing of the code under test is used here.
use super::sim::*;

pub const INVALID: u8 = 0;
pub const SYSCALL: u8 = 5;
pub const ZERODIV: u8 = 8;
pub const HALT: u8 = 0xa;
pub const L1PF: u8 = 0xe;
pub const L2PF: u8 = 0xf;
pub const ILLEGAL_OP: u8 = 0x10;
pub const ILLEGAL_READ: u8 = 0x11;
pub const ILLEGAL_WRITE: u8 = 0x12;
pub const ILLEGAL_EXEC: u8 = 0x13;
pub const ILLEGAL_RETURN: u8 = 0x1f;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Mode {
    Read,
    Write,
    Exec,
}
pub const P_U: u8 = 0x20;
pub const P_D: u8 = 0x10;
pub const P_X: u8 = 8;
pub const P_W: u8 = 4;
pub const P_R: u8 = 2;
pub const P_P: u8 = 1;

/// What an instruction does from a given state
#[derive(Debug, Default)]
pub struct Step {
    /// the traps that apply; with any, it traps with one of them
    pub traps: Vec<u8>,
    /// where the program counter may be left by a trap
    pub pcs: Vec<u16>,
    /// a page table lies in the devices: not described
    pub undefined: bool,
    /// the state afterwards; with traps, which new values registers and flags may have got
    pub next: St,
    pub may: Vec<(usize, u16)>,
    pub may_flags: Vec<u8>,
    /// memory written, in order; with traps, what may have been written
    pub writes: Vec<(u32, u8)>,
    /// accesses to devices, in order; with traps, which may have been made
    pub dev: Vec<DevAcc>,
    /// bytes reached through page tables or directly
    pub touched: Vec<(u16, u32, Mode)>,
    pub op: u8,
    /// devices were asked for more than there is
    pub starved: bool,
}

pub struct X<'a> {
    mem: &'a Shadow,
    dev_seed: u64,
    /// what the devices deliver, one byte after the other, whichever address is read
    feed: Option<&'a [u8]>,
    pub s: Step,
    privileged: bool,
    invalid: bool,
    fetch_fault: Option<u16>,
}

/// The length of an instruction
pub fn length(op: u8) -> u16 {
    match op {
        0x21..=0x24 | 0x26 => 2,
        0x13 | 0x14 | 0x25 | 0x29 | 0x2a | 0x2d..=0x3a | 0x3f | 0x41..=0x54 => 3,
        0x27 | 0x28 | 0x2b | 0x2c | 0x40 => 4,
        _ => 1,
    }
}
pub fn defined(op: u8) -> bool {
    matches!(op, 0x0a..=0x0d | 0x10..=0x14 | 0x20..=0x3a | 0x3f..=0x54)
}

impl<'a> X<'a> {
    pub fn new(mem: &'a Shadow, dev_seed: u64, st: &St) -> X<'a> {
        X { mem, dev_seed, feed: None, s: Step { next: st.clone(), ..Step::default() }, privileged: false, invalid: false, fetch_fault: None }
    }
    fn st(&mut self) -> &mut St {
        &mut self.s.next
    }
    fn peek(&self, a: u32) -> u8 {
        self.s.writes.iter().rev().find(|w| w.0 == a).map_or_else(|| self.mem.get(a), |w| w.1)
    }
    pub fn phys_read(&mut self, a: u32) -> u8 {
        if is_dev(a) {
            let val = match self.feed {
                None => dev_value(self.dev_seed, a as u8),
                Some(f) => {
                    let n = self.s.dev.iter().filter(|d| !d.write).count();
                    self.s.starved |= n >= f.len();
                    f.get(n).copied().unwrap_or(0)
                }
            };
            self.s.dev.push(DevAcc { addr: a as u8, write: false, val });
            val
        } else {
            self.peek(a)
        }
    }
    pub fn phys_write(&mut self, a: u32, val: u8) {
        if is_dev(a) {
            self.s.dev.push(DevAcc { addr: a as u8, write: true, val });
        } else if !is_rom(a) {
            self.s.writes.push((a, val));
        }
    }
    fn trap(&mut self, t: u8) {
        self.s.traps.push(t);
    }
    /// One entry; false if it is not there
    fn entry(&mut self, at: u32, mode: Mode, missing: u8) -> Option<u32> {
        if is_dev(at) {
            self.s.undefined = true;
            return None;
        }
        let e = u32::from_le_bytes(std::array::from_fn(|i| self.peek(at + i as u32)));
        let f = e as u8;
        if f & P_P == 0 {
            self.trap(missing);
            return None;
        }
        if self.s.next.user() && f & P_U == 0 {
            self.trap(ILLEGAL_OP);
        }
        match mode {
            Mode::Read if f & P_R == 0 => self.trap(ILLEGAL_READ),
            Mode::Write if f & P_W == 0 => self.trap(ILLEGAL_WRITE),
            Mode::Exec if f & P_X == 0 => self.trap(ILLEGAL_EXEC),
            _ => (),
        }
        Some(e)
    }
    /// Both levels of the page tables
    pub fn walk(&mut self, va: u16, mode: Mode) -> Option<u32> {
        if !self.s.next.virt() {
            self.s.touched.push((va, va as u32, mode));
            return Some(va as u32);
        }
        let n = self.s.traps.len();
        let at1 = self.s.next.r[RP] as u32 + 4 * (va >> 12) as u32;
        let e1 = self.entry(at1, mode, L1PF)?;
        let at2 = ((e1 >> 15) << 7) + 4 * ((va >> 7) & 31) as u32;
        let e2 = self.entry(at2, mode, L2PF)?;
        if self.s.traps.len() > n {
            return None;
        }
        if mode == Mode::Write {
            for (at, e) in [(at1, e1), (at2, e2)] {
                if e as u8 & P_D == 0 {
                    self.phys_write(at, e as u8 | P_D);
                }
            }
        }
        let pa = ((e2 >> 15) << 7) | (va & 0x7f) as u32;
        self.s.touched.push((va, pa, mode));
        Some(pa)
    }
    pub fn fetch(&mut self) -> Option<u8> {
        let pc = self.s.next.pc;
        match self.walk(pc, Mode::Exec) {
            Some(a) => {
                self.st().pc = pc.wrapping_add(1);
                Some(self.phys_read(a))
            }
            None => {
                self.fetch_fault = Some(pc);
                None
            }
        }
    }
    pub fn read(&mut self, va: u16) -> Option<u8> {
        let a = self.walk(va, Mode::Read);
        a.map(|a| self.phys_read(a))
    }
    pub fn write(&mut self, va: u16, v: u8) -> Option<()> {
        let a = self.walk(va, Mode::Write);
        a.map(|a| self.phys_write(a, v))
    }
    pub fn read_word(&mut self, va: u16) -> Option<u16> {
        let (l, h) = (self.read(va), self.read(va.wrapping_add(1)));
        Some(u16::from_le_bytes([l?, h?]))
    }
    pub fn write_word(&mut self, va: u16, v: u16) -> Option<()> {
        let [l, h] = v.to_le_bytes();
        let (x, y) = (self.write(va, l), self.write(va.wrapping_add(1), h));
        x.and(y)
    }
    fn wr(&mut self, i: u8) -> Option<u16> {
        if i >= 14 && self.s.next.user() {
            self.trap(ILLEGAL_OP);
            return None;
        }
        Some(self.s.next.r[i as usize])
    }
    fn set_wr(&mut self, i: u8, v: u16) -> Option<()> {
        if i >= 14 && self.s.next.user() {
            self.trap(ILLEGAL_OP);
            return None;
        }
        if i != 0 {
            self.s.may.push((i as usize, v));
            self.s.next.r[i as usize] = v;
        }
        Some(())
    }
    /// If the instruction traps anyway: that it may not write this register applies as well
    fn deny(&mut self, i: u8, trapped: bool) {
        if trapped && i >= 14 && self.s.next.user() {
            self.trap(ILLEGAL_OP);
        }
    }
    fn set_br(&mut self, i: u8, v: u8) {
        if i != 0 {
            self.st().set_br(i, v);
            let w = if i <= 10 { (i as usize + 1) / 2 } else { i as usize - 5 };
            let now = self.s.next.r[w];
            self.s.may.push((w, now));
        }
    }
    fn set_flags(&mut self, z: bool, o: bool, s: bool, c: bool) {
        let f = (self.s.next.fl & 0x0f) | (z as u8) << 7 | (o as u8) << 6 | (s as u8) << 5 | (c as u8) << 4;
        self.s.next.fl = f;
        self.s.may_flags.push(f);
    }
    fn pair(&mut self) -> Option<(u8, u8)> {
        let b = self.fetch()?;
        Some((b >> 4, b & 15))
    }
    fn imm(&mut self) -> Option<u16> {
        let l = self.fetch()?;
        let h = self.fetch()?;
        Some(u16::from_le_bytes([l, h]))
    }
    /// A half byte that must be zero
    fn zero(&mut self, z: u8) {
        if z != 0 {
            self.trap(INVALID);
            self.invalid = true;
        }
    }
    /// With a trap so far, the rest of the instruction is not carried out
    fn ok(&self) -> Option<()> {
        if self.s.traps.is_empty() { Some(()) } else { None }
    }
    fn push(&mut self, v: u16, n: u16) -> Option<()> {
        let sp = self.s.next.r[RS].wrapping_sub(n);
        self.s.next.r[RS] = sp;
        self.s.may.push((RS, sp));
        if n == 1 { self.write(sp, v as u8) } else { self.write_word(sp, v) }
    }
    /// The frame of a handler
    fn save(&mut self, st: &St) -> Option<()> {
        self.push(st.pc, 2)?;
        self.push(st.fl as u16, 2)?;
        for i in 1..16 {
            let v = self.s.next.r[i];
            self.push(v, 2)?;
        }
        Some(())
    }
    fn pop(&mut self, n: u16) -> Option<u16> {
        let sp = self.s.next.r[RS];
        let v = if n == 1 { self.read(sp)? as u16 } else { self.read_word(sp)? };
        let sp = sp.wrapping_add(n);
        self.s.next.r[RS] = sp;
        self.s.may.push((RS, sp));
        Some(v)
    }
    fn jump_if(&mut self, c: bool) -> Option<()> {
        let a = self.imm()?;
        if c {
            self.st().pc = a;
        }
        Some(())
    }
    fn body(&mut self) -> Option<()> {
        let op = self.fetch()?;
        self.s.op = op;
        let f = self.s.next.fl;
        let (z, o, s, c) = (f & Z != 0, f & O != 0, f & S != 0, f & C != 0);
        match op {
            0x0a => self.trap(HALT),
            0x0b => self.st().fl &= !T,
            0x0c => self.trap(SYSCALL),
            0x0d => {
                if f & T == 0 {
                    self.trap(ILLEGAL_RETURN);
                    return None;
                }
                for i in (1..16).rev() {
                    let v = self.pop(2)?;
                    self.set_wr(i, v)?;
                }
                let f = self.pop(2)? as u8;
                let pc = self.pop(2)?;
                self.st().pc = pc;
                self.st().fl = f & !T;
            }
            0x10..=0x14 => {
                if f & U != 0 {
                    self.trap(ILLEGAL_OP);
                    self.privileged = true;
                }
                match op {
                    0x10 => {
                        self.ok()?;
                        self.st().fl |= U;
                    }
                    0x11 => {
                        self.ok()?;
                        self.st().fl |= V;
                    }
                    0x12 => {
                        self.ok()?;
                        self.st().fl &= !V;
                    }
                    _ => {
                        let (a, b) = self.pair()?;
                        let (d, e) = self.pair()?;
                        self.zero(e);
                        self.ok()?;
                        if op == 0x13 {
                            let at = (self.s.next.br(a) as u32) << 16 | self.wr(b)? as u32;
                            let v = self.s.next.br(d);
                            self.phys_write(at, v);
                        } else {
                            let at = (self.s.next.br(b) as u32) << 16 | self.wr(d)? as u32;
                            let v = self.phys_read(at);
                            self.set_br(a, v);
                        }
                    }
                }
            }
            0x20 => (),
            0x21 | 0x22 => {
                let (r, e) = self.pair()?;
                self.zero(e);
                if op == 0x21 {
                    self.ok()?;
                    let v = self.s.next.br(r) as u16;
                    self.push(v, 1)?;
                } else {
                    let v = self.wr(r);
                    self.ok()?;
                    self.push(v?, 2)?;
                }
            }
            0x23 | 0x24 => {
                let (r, e) = self.pair()?;
                self.zero(e);
                self.ok()?;
                if op == 0x23 {
                    let v = self.pop(1)?;
                    self.set_br(r, v as u8);
                } else {
                    let v = self.pop(2);
                    self.deny(r, v.is_none());
                    let v = v?;
                    self.set_wr(r, v)?;
                }
            }
            0x25 => {
                let a = self.imm()?;
                let back = self.s.next.pc;
                self.set_wr(RL as u8, back)?;
                self.st().pc = a;
            }
            0x26 => {
                let b = self.fetch()?;
                let sp = self.s.next.r[RS].wrapping_add(b as u16);
                self.s.next.r[RS] = sp;
                self.st().pc = self.s.next.r[RL];
            }
            0x27 | 0x28 => {
                let (a, v) = self.pair()?;
                let off = self.imm()?;
                self.store(a, off, v, op == 0x28)?;
            }
            0x29 | 0x2a => {
                let (a, b) = self.pair()?;
                let (v, e) = self.pair()?;
                self.zero(e);
                let off = self.wr(b);
                self.wr(a);
                self.ok()?;
                self.store(a, off?, v, op == 0x2a)?;
            }
            0x2b | 0x2c => {
                let (d, a) = self.pair()?;
                let off = self.imm()?;
                self.load(d, a, off, op == 0x2c)?;
            }
            0x2d | 0x2e => {
                let (d, a) = self.pair()?;
                let (b, e) = self.pair()?;
                self.zero(e);
                let off = self.wr(b);
                self.wr(a);
                self.ok()?;
                self.load(d, a, off?, op == 0x2e)?;
            }
            0x2f => self.jump_if(z)?,
            0x30 => self.jump_if(s != o)?,
            0x31 => self.jump_if(s != o && z)?,
            0x32 => self.jump_if(s == o && !z)?,
            0x33 => self.jump_if(s == o)?,
            0x34 => self.jump_if(!z)?,
            0x35 => self.jump_if(o)?,
            0x36 => self.jump_if(!o)?,
            0x37 => self.jump_if(!c && !z)?,
            0x38 => self.jump_if(!c)?,
            0x39 => self.jump_if(c)?,
            0x3a => self.jump_if(c || z)?,
            0x3f => {
                let (r, e) = self.pair()?;
                self.zero(e);
                let b = self.fetch()?;
                self.ok()?;
                self.set_br(r, b);
            }
            0x40 => {
                let (r, e) = self.pair()?;
                if e > 1 {
                    self.zero(e);
                }
                let w = self.imm()?;
                self.ok()?;
                match (e, r) {
                    (0, _) => self.set_wr(r, w)?,
                    (_, 0) => self.st().pc = w,
                    _ => {
                        let a = self.wr(r)?;
                        self.st().pc = a;
                    }
                }
            }
            0x41..=0x50 => {
                let (d, a) = self.pair()?;
                let (b, e) = self.pair()?;
                self.zero(e);
                let kind = (op - 0x41) / 2;
                if op & 1 == 1 {
                    self.ok()?;
                    let (x, y) = (self.s.next.br(a), self.s.next.br(b));
                    let (r, o, c) = alu(kind, x as u16, y as u16, 8);
                    self.set_flags(r == 0, o, r & 0x80 != 0, c);
                    self.set_br(d, r as u8);
                } else {
                    let (x, y) = (self.wr(a), self.wr(b));
                    let trapped = !self.s.traps.is_empty();
                    self.deny(d, trapped);
                    if !trapped {
                        let (r, o, c) = alu(kind, x?, y?, 16);
                        self.set_flags(r == 0, o, r & 0x8000 != 0, c);
                        self.set_wr(d, r)?;
                    }
                }
            }
            0x51..=0x54 => {
                let (d1, d2) = self.pair()?;
                let (a, b) = self.pair()?;
                let wide = op & 1 == 0;
                let (x, y) = if wide {
                    let (x, y) = (self.wr(a), self.wr(b));
                    (x?, y?)
                } else {
                    (self.s.next.br(a) as u16, self.s.next.br(b) as u16)
                };
                let (v1, v2) = if op >= 0x53 {
                    let p = x as u32 * y as u32;
                    let (hi, lo, top) = if wide { ((p >> 16) as u16, p as u16, 0x8000) } else { ((p >> 8) as u16, p as u16 & 0xff, 0x80) };
                    self.set_flags(lo == 0, hi != 0, lo & top != 0, hi != 0);
                    (hi, lo)
                } else {
                    if y == 0 {
                        self.trap(ZERODIV);
                                    self.deny(d1.max(d2), wide);
                        return None;
                    }
                    (x / y, x % y)
                };
                if wide {
                    let r = self.set_wr(d1, v1);
                    self.set_wr(d2, v2)?;
                    r?;
                } else {
                    self.set_br(d1, v1 as u8);
                    self.set_br(d2, v2 as u8);
                }
            }
            _ => {
                self.trap(INVALID);
            }
        }
        Some(())
    }
    fn store(&mut self, a: u8, off: u16, v: u8, wide: bool) -> Option<()> {
        let base = self.wr(a);
        let val = if wide { self.wr(v) } else { Some(self.s.next.br(v) as u16) };
        let at = base?.wrapping_add(off);
        match val {
            Some(v) if wide => self.write_word(at, v),
            Some(v) => self.write(at, v as u8),
            None => {
                // that the address cannot be written applies as well, but nothing is written
                let (w, d) = (self.s.writes.len(), self.s.dev.len());
                self.write_word(at, 0);
                self.s.writes.truncate(w);
                self.s.dev.truncate(d);
                None
            }
        }
    }
    fn load(&mut self, d: u8, a: u8, off: u16, wide: bool) -> Option<()> {
        let at = self.wr(a)?.wrapping_add(off);
        if wide {
            let v = self.read_word(at);
            self.deny(d, v.is_none());
            self.set_wr(d, v?)?;
        } else {
            let v = self.read(at)?;
            self.set_br(d, v);
        }
        Some(())
    }
    pub fn finish(self) -> Step {
        self.s
    }
}

/// kind: add sub and or xor shl asr lsr; result, signed overflow, carry
fn alu(kind: u8, x: u16, y: u16, bits: u32) -> (u16, bool, bool) {
    let mask = (1u32 << bits) - 1;
    let top = 1u32 << (bits - 1);
    let (a, b) = (x as u32, y as u32);
    let sh = b & (bits - 1);
    let sext = |v: u32| if v & top != 0 { (v | !mask) as i32 } else { v as i32 };
    let (r, o, c) = match kind {
        0 => {
            let r = a + b;
            (r & mask, (a & top == b & top) && (r & top != a & top), r > mask)
        }
        1 => {
            let r = a.wrapping_sub(b) & mask;
            (r, (a & top != b & top) && (r & top != a & top), a < b)
        }
        2 => (a & b, false, false),
        3 => (a | b, false, false),
        4 => (a ^ b, false, false),
        5 => ((a << sh) & mask, false, false),
        6 => ((sext(a) >> sh) as u32 & mask, false, false),
        _ => (a >> sh, false, false),
    };
    (r as u16, o, c)
}

/// What the instruction at the program counter does
pub fn step(mem: &Shadow, dev_seed: u64, st: &St) -> Step {
    step_of(X::new(mem, dev_seed, st), st.pc)
}
/// The same with a stream of bytes behind the devices
pub fn step_fed(mem: &Shadow, feed: &[u8], st: &St) -> Step {
    let mut x = X::new(mem, 0, st);
    x.feed = Some(feed);
    step_of(x, st.pc)
}
/// What the entry of the handler does for a processor that has trapped; the trap is entered if it does not trap
/// itself
pub fn enter(mem: &Shadow, st: &St, trap: u8) -> Step {
    let mut x = X::new(mem, 0, st);
    x.st().fl = (st.fl | T) & !U;
    let handler = st.r[RH];
    let _ = x.save(st);
    x.st().pc = handler;
    x.st().r[1] = trap as u16;
    x.finish()
}
fn step_of(mut x: X, start: u16) -> Step {
    x.body();
    let len = length(x.s.op);
    let mut pcs = Vec::new();
    if !x.s.traps.is_empty() {
        if let Some(p) = x.fetch_fault {
            pcs.push(p);
        }
        if x.privileged || x.invalid {
            pcs.extend((1..=len).map(|i| start.wrapping_add(i)));
        } else if x.fetch_fault.is_none() {
            pcs.push(start.wrapping_add(len));
        }
    }
    x.s.pcs = pcs;
    x.finish()
}
