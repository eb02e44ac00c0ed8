//! Programs that write r1 to r10 before they read them
use super::gen::{self, Aim};
use crate::obj::*;
use crate::src::Src;

#[derive(Clone, Default)]
pub struct Code {
    pub obj: Obj,
    /// what can be typed when the program asks
    pub lines: Vec<Vec<u8>>,
    pub structured: bool,
}

/// A program being written
struct Asm<'a> {
    s: &'a mut Src,
    b: Vec<u8>,
    base: u16,
    /// where the functions are; 0: not there yet
    funs: Vec<u16>,
    calls: Vec<(usize, usize)>,
    data: u16,
    /// registers that a loop counts in
    counters: u8,
    depth: u32,
    handlers: bool,
}

impl Asm<'_> {
    fn here(&self) -> u16 {
        self.base.wrapping_add(self.b.len() as u16)
    }
    fn ldi(&mut self, r: u8, x: u16) {
        self.b.extend([0x40, r << 4]);
        self.b.extend(x.to_le_bytes());
    }
    fn op3(&mut self, op: u8, d: u8, a: u8, b: u8) {
        self.b.extend([op, d << 4 | a, b << 4]);
    }
    fn mem(&mut self, op: u8, a: u8, b: u8, off: u16) {
        self.b.extend([op, a << 4 | b]);
        self.b.extend(off.to_le_bytes());
    }
    /// a jump to be aimed later
    fn jump(&mut self, op: u8) -> usize {
        if op == 0x40 {
            self.b.extend([0x40, 0x01, 0, 0]);
        } else {
            self.b.extend([op, 0, 0]);
        }
        self.b.len() - 2
    }
    fn aim(&mut self, at: usize, to: u16) {
        self.b[at..at + 2].copy_from_slice(&to.to_le_bytes());
    }
    fn any(&mut self) -> u8 {
        self.s.range(3, 8) as u8
    }
    fn print(&mut self) {
        self.ldi(1, 4);
        self.b.push(0x0c);
    }
    fn stmt(&mut self, f: usize) {
        let k = self.s.weighted(&[6, 3, 3, 2, 3, 3, 2, 3, 2, 2, 2, 2, 2]);
        match k {
            // a character of a line of output
            0 => {
                let x = match self.s.below(8) {
                    0 | 1 => b'\n',
                    2 => self.s.u8(),
                    _ => b'a' + self.s.below(26) as u8,
                };
                self.ldi(2, x as u16);
                self.print();
            }
            1 => {
                let (d, a, b) = (self.any(), self.s.below(11) as u8, self.s.below(14) as u8);
                let op = 0x42 + 2 * self.s.below(8) as u8;
                self.op3(op, d, a, b);
            }
            2 => {
                let (d, a, b) = (self.s.range(1, 13) as u8, self.s.below(16) as u8, self.s.below(16) as u8);
                // bytes of r1 to r5, r6 to r8
                let op = 0x41 + 2 * self.s.below(8) as u8;
                self.op3(op, d, a, b);
            }
            3 => {
                self.ldi(1, 3);
                self.b.push(0x0c);
                if self.s.chance(3, 4) {
                    self.op3(0x41, 3, 1, 0);
                    self.print();
                }
            }
            // memory
            4 => {
                let (r, w) = (self.any(), self.s.chance(1, 2));
                let at = self.data + self.s.below(120) as u16;
                let store = self.s.chance(1, 2);
                match (store, w) {
                    (true, true) => self.mem(0x28, 0, r, at),
                    (true, false) => self.mem(0x27, 0, r, at),
                    (false, true) => self.mem(0x2c, r, 0, at),
                    (false, false) => self.mem(0x2b, r, 0, at),
                }
            }
            // of the stack and frame
            5 => {
                let r = self.any();
                let off = 0u16.wrapping_sub(self.s.range(2, 300) as u16);
                let a = 11 + 2 * self.s.below(2) as u8;
                let op = if self.s.chance(1, 2) { 0x28 } else { 0x2c };
                if op == 0x28 { self.mem(op, a, r, off) } else { self.mem(op, r, a, off) }
            }
            // what a register holds
            6 => {
                let r = self.s.range(3, 13) as u8;
                self.op3(0x42, 2, r, 0);
                if self.s.chance(1, 3) {
                    self.op3(0x41, 3, 4, 0);
                }
                self.print();
            }
            7 if f < self.funs.len() => self.call(f),
            8 if self.counters < 2 && self.depth < 3 => {
                self.counters += 1;
                self.depth += 1;
                let c = 8 + self.counters;
                let n = self.s.range(1, 5) as u16;
                self.b.extend([0x22, c << 4]);
                self.ldi(c, n);
                let top = self.here();
                self.block(f, 3);
                self.ldi(8, 1);
                self.op3(0x44, c, c, 8);
                let j = self.jump(0x34);
                self.aim(j, top);
                self.b.extend([0x24, c << 4]);
                self.counters -= 1;
                self.depth -= 1;
            }
            // on some condition, often one that nothing has set yet
            9 if self.depth < 4 => {
                self.depth += 1;
                if self.s.chance(1, 2) {
                    let (a, b) = (self.any(), self.any());
                    self.op3(0x44, 0, a, b);
                }
                let op = *self.s.pick(&[0x2f, 0x30, 0x31, 0x32, 0x33, 0x34, 0x35, 0x36, 0x37, 0x38, 0x39, 0x3a]);
                let j = self.jump(op);
                self.block(f, 2);
                let to = self.here();
                self.aim(j, to);
                self.depth -= 1;
            }
            10 => {
                let r = self.any();
                self.b.extend([0x22, r << 4]);
                self.block(f, 1);
                let r = self.any();
                self.b.extend([0x24, r << 4]);
            }
            // a fault whose handler follows it
            11 if self.handlers => {
                let ins: &[u8] = *self.s.pick(&[&[0x10u8][..], &[0x00], &[0x52, 0x34, 0x50, 0], &[0x2b, 0x30, 0x00, 0xf0], &[0x99]]);
                self.ldi(1, 15);
                let at = self.here().wrapping_add(5 + ins.len() as u16);
                self.ldi(2, at);
                self.b.push(0x0c);
                self.b.extend(ins);
                self.ldi(1, 15);
                self.ldi(2, 0);
                self.b.push(0x0c);
            }
            12 => {
                let r = self.any();
                let to = self.here().wrapping_add(8);
                self.ldi(r, to);
                self.b.extend([0x40, r << 4 | 1, 0, 0]);
            }
            _ if self.s.chance(1, 10) => {
                self.ldi(1, 0);
                self.b.push(0x0c);
            }
            _ => self.b.push(0x20),
        }
    }
    fn call(&mut self, f: usize) {
        let g = self.s.range(f as u64, self.funs.len() as u64 - 1) as usize;
        self.b.extend([0x25, 0, 0]);
        self.calls.push((self.b.len() - 2, g));
    }
    /// Prints what a program finds when it starts: flags, registers, memory
    fn probe(&mut self, data: u16) {
        for op in 0x2f..=0x3a {
            let j = self.jump(op);
            // flags stay as they are
            self.ldi(2, b'a' as u16 + op as u16 - 0x2f);
            self.print();
            let to = self.here();
            self.aim(j, to);
        }
        for r in [11, 12, 13] {
            self.op3(0x42, 2, r, 0);
            self.print();
            self.op3(0x41, 3, 4, 0);
            self.print();
        }
        for k in 0..3 {
            let n = self.s.range(1, 300) as u16;
            let at = match k {
                0 => 0u16.wrapping_sub(self.s.range(n as u64, 0x180) as u16),
                1 => 0xe800,
                _ => data,
            };
            self.ldi(9, at);
            self.ldi(10, n);
            self.ldi(8, 1);
            let top = self.here();
            self.op3(0x2d, 3, 9, 0);
            self.print();
            self.op3(0x42, 9, 9, 8);
            self.op3(0x44, 10, 10, 8);
            let j = self.jump(0x34);
            self.aim(j, top);
        }
    }
    fn block(&mut self, f: usize, most: u64) {
        let n = self.s.below(most + 1);
        for _ in 0..n {
            if self.b.len() < 3000 {
                self.stmt(f);
            }
        }
    }
}

fn preamble(s: &mut Src, b: &mut Vec<u8>, a: &Aim) {
    let mut order: Vec<u8> = (1..=10).collect();
    s.shuffle(&mut order);
    for r in order {
        b.extend([0x40, r << 4]);
        b.extend(gen::value(s, a).to_le_bytes());
    }
}

fn structured(s: &mut Src, probe: bool) -> Code {
    let base = s.below(0xb000) as u16;
    let data = 0xc000 + s.below(0x2000) as u16;
    let n = s.below(4) as usize;
    let handlers = s.chance(2, 3);
    let mut a = Asm { s, b: Vec::new(), base, funs: vec![0; n], calls: Vec::new(), data, counters: 0, depth: 0, handlers };
    let aim = Aim { pages: Vec::new(), vpages: vec![data & 0xff80] };
    let mut pre = Vec::new();
    preamble(a.s, &mut pre, &aim);
    a.b = pre;
    if probe {
        a.probe(data);
    }
    let more = a.s.range(1, 25);
    for i in 0..more {
        if n > 0 && i == more / 2 && a.s.chance(1, 2) {
            a.call(0);
        }
        a.stmt(0);
    }
    if !a.s.chance(1, 8) {
        // completes the line
        a.ldi(2, b'\n' as u16);
        a.print();
    }
    match a.s.below(6) {
        0 => {
            a.ldi(1, 77);
            a.b.push(0x0c);
        }
        1 => a.b.extend([0x52, 0x34, 0x50, 0]),
        2 => a.b.push(0x10),
        _ => a.b.push(0x0a),
    }
    let mut syms = vec![(b"main".to_vec(), base)];
    for f in 0..n {
        a.funs[f] = a.here();
        syms.push((format!("fun{f}").into_bytes(), a.funs[f]));
        let leaf = f + 1 == n || a.s.chance(1, 3);
        let frame = a.s.chance(1, 3);
        if frame {
            a.b.extend([0x22, 0xd0]);
            a.op3(0x42, 13, 11, 0);
        }
        if !leaf {
            a.b.extend([0x22, 0xc0]);
        }
        let depth = a.depth;
        a.counters = 0;
        a.block(if leaf { n } else { f + 1 }, 6);
        a.depth = depth;
        if !leaf {
            a.b.extend([0x24, 0xc0]);
        }
        if frame {
            a.b.extend([0x24, 0xd0]);
        }
        let pop = if a.s.chance(1, 6) { a.s.below(5) as u8 } else { 0 };
        a.b.extend([0x26, pop]);
    }
    for (at, g) in a.calls.clone() {
        let to = a.funs[g];
        a.aim(at, to);
    }
    let b = a.b;
    let mut o = Obj { entry: Some((TEXT, base)), segs: vec![(TEXT, base, b)], ..Obj::default() };
    if s.chance(3, 4) {
        let k = s.range(1, 400) as usize;
        o.segs.push((*s.pick(&[DATA, DATA, RODATA]), data, s.bytes(k)));
    }
    if s.chance(1, 2) {
        o.heap = Some(s.below(1000) as u16);
        o.segs.push((HEAP, 0xe800, Vec::new()));
    }
    if s.chance(1, 2) {
        o.stack = Some(s.range(0x100, 2000) as u16);
    }
    if s.chance(1, 2) {
        o.flags = Some(s.chance(1, 2));
    }
    for (i, (name, loc)) in syms.into_iter().enumerate() {
        if s.chance(4, 5) {
            o.syms.push(Sym { name, global: i == 0 || s.chance(1, 2), seg: TEXT, loc });
        }
    }
    o.segs.sort_by_key(|x| x.0);
    Code { obj: o, structured: true, lines: Vec::new() }
}

fn wild(s: &mut Src) -> Code {
    let base = s.below(0xf000) as u16;
    // not over the text
    let data = base.wrapping_add(0x1000 + s.below(0xd000) as u16);
    let aim = Aim { pages: Vec::new(), vpages: vec![base & 0xff80, (base & 0xff80).wrapping_add(128), data & 0xff80, 0xff80, 0xff00] };
    let mut b = Vec::new();
    preamble(s, &mut b, &aim);
    if s.chance(2, 3) {
        // something goes on after a fault
        let at = base.wrapping_add(s.range(40, 300) as u16);
        b.extend([0x40, 0x10, 15, 0, 0x40, 0x20]);
        b.extend(at.to_le_bytes());
        b.push(0x0c);
    }
    let n = s.range(5, 80);
    for _ in 0..n {
        match s.below(6) {
            0 => b.extend([0x40, 0x10, *s.pick(&[4u8, 4, 4, 3, 15, 0]), 0, 0x0c]),
            _ => {
                let v = gen::instr(s, &gen::ALL[5..], &aim);
                if v[0] != 0x0a || s.chance(1, 6) {
                    b.extend(v);
                }
            }
        }
    }
    b.push(0x0a);
    let mut o = Obj { entry: Some((TEXT, base)), segs: vec![(TEXT, base, b)], ..Obj::default() };
    if s.chance(3, 4) {
        let k = s.range(1, 400) as usize;
        o.segs.push((*s.pick(&[DATA, RODATA, ZERO]), data, s.bytes(k)));
    }
    if s.chance(1, 3) {
        o.stack = Some(s.below(2000) as u16);
    }
    if s.chance(1, 3) {
        o.flags = Some(s.chance(1, 2));
    }
    o.segs.sort_by_key(|x| x.0);
    Code { obj: o, structured: false, lines: Vec::new() }
}

/// `probe`: sometimes it begins with printing what it finds
pub fn gen(s: &mut Src, probe: bool) -> Code {
    let mut c = if s.chance(1, 3) {
        wild(s)
    } else {
        let probe = probe && s.chance(1, 2);
        structured(s, probe)
    };
    let n = s.below(7);
    for _ in 0..n {
        let k = s.size(6, 3000) as usize;
        let mut l: Vec<u8> = s.bytes(k).iter().map(|b| 0x20 + b % 95).collect();
        l.push(b'\n');
        c.lines.push(l);
    }
    if s.chance(1, 5) {
        // the end of the input is not the end of a line
        if let Some(l) = c.lines.last_mut() {
            l.pop();
            if l.is_empty() {
                c.lines.pop();
            }
        }
    }
    c
}
