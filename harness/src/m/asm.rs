//! The assembly language, written down a second time: what a line of source stands for. And a generator
//! of sources with all kinds of lines, in many spellings. Nothing of the code under test is used here.
use crate::obj::*;
use crate::src::Src;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum A {
    /// a byte register
    B,
    /// a wide register
    W,
    /// a wide register other than r0
    Wn,
    /// a wide immediate or label
    I,
    /// a byte immediate
    J,
    /// a byte immediate that may be left out
    K,
}
use A::*;

pub struct Shape {
    pub names: &'static [&'static str],
    pub op: u8,
    pub args: &'static [A],
    /// what the unused half of a register byte holds
    pub opt: u8,
}
const fn sh(names: &'static [&'static str], op: u8, args: &'static [A]) -> Shape {
    Shape { names, op, args, opt: 0 }
}
pub const SHAPES: [Shape; 59] = [
    sh(&["null"], 0, &[]),
    sh(&["halt"], 0x0a, &[]),
    sh(&["ctf"], 0x0b, &[]),
    sh(&["syscall"], 0x0c, &[]),
    sh(&["reth"], 0x0d, &[]),
    sh(&["nop"], 0x20, &[]),
    sh(&["push"], 0x21, &[B]),
    sh(&["push"], 0x22, &[W]),
    sh(&["pop"], 0x23, &[B]),
    sh(&["pop"], 0x24, &[W]),
    sh(&["call"], 0x25, &[I]),
    sh(&["ret"], 0x26, &[K]),
    sh(&["store", "str"], 0x27, &[W, I, B]),
    sh(&["store", "str"], 0x28, &[W, I, W]),
    sh(&["store", "str"], 0x29, &[W, W, B]),
    sh(&["store", "str"], 0x2a, &[W, W, W]),
    sh(&["load"], 0x2b, &[B, W, I]),
    sh(&["load"], 0x2c, &[W, W, I]),
    sh(&["load"], 0x2d, &[B, W, W]),
    sh(&["load"], 0x2e, &[W, W, W]),
    sh(&["jez"], 0x2f, &[I]),
    sh(&["jlt"], 0x30, &[I]),
    sh(&["jle"], 0x31, &[I]),
    sh(&["jgt"], 0x32, &[I]),
    sh(&["jge"], 0x33, &[I]),
    sh(&["jnz", "jne"], 0x34, &[I]),
    sh(&["jo"], 0x35, &[I]),
    sh(&["jno"], 0x36, &[I]),
    sh(&["ja"], 0x37, &[I]),
    sh(&["jae", "jnc"], 0x38, &[I]),
    sh(&["jb", "jc"], 0x39, &[I]),
    sh(&["jbe"], 0x3a, &[I]),
    sh(&["ldi"], 0x3f, &[B, J]),
    sh(&["ldi"], 0x40, &[W, I]),
    // the jumps of the load immediate instruction: see `encode`
    Shape { names: &["jmp", "jump"], op: 0x40, args: &[I], opt: 1 },
    Shape { names: &["jmp", "jump"], op: 0x40, args: &[Wn], opt: 1 },
    sh(&["add"], 0x41, &[B, B, B]),
    sh(&["add"], 0x42, &[W, W, W]),
    sh(&["sub"], 0x43, &[B, B, B]),
    sh(&["sub"], 0x44, &[W, W, W]),
    sh(&["and"], 0x45, &[B, B, B]),
    sh(&["and"], 0x46, &[W, W, W]),
    sh(&["or"], 0x47, &[B, B, B]),
    sh(&["or"], 0x48, &[W, W, W]),
    sh(&["xor"], 0x49, &[B, B, B]),
    sh(&["xor"], 0x4a, &[W, W, W]),
    sh(&["shl"], 0x4b, &[B, B, B]),
    sh(&["shl"], 0x4c, &[W, W, W]),
    sh(&["asr"], 0x4d, &[B, B, B]),
    sh(&["asr"], 0x4e, &[W, W, W]),
    sh(&["lsr"], 0x4f, &[B, B, B]),
    sh(&["lsr"], 0x50, &[W, W, W]),
    sh(&["div"], 0x51, &[B, B, B, B]),
    sh(&["div"], 0x52, &[W, W, W, W]),
    sh(&["mul"], 0x53, &[B, B, B, B]),
    sh(&["mul"], 0x54, &[W, W, W, W]),
    // the rest of this table is not known to the assembler
    sh(&[], 0x10, &[]),
    sh(&[], 0x11, &[]),
    sh(&[], 0x12, &[]),
];
pub const BREGS: [&str; 16] = ["r0b", "r1l", "r1h", "r2l", "r2h", "r3l", "r3h", "r4l", "r4h", "r5l", "r5h", "r6b", "r7b", "r8b", "r9b", "r10b"];
pub const WREGS: [&str; 16] = ["r0", "r1", "r2", "r3", "r4", "r5", "r6", "r7", "r8", "r9", "r10", "rs", "rl", "rf", "rp", "rh"];

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum V {
    Reg(u8),
    Num(u16),
    Label(String),
}

/// The bytes of an instruction, and where in them the address of a label belongs
pub fn encode(s: &Shape, v: &[V]) -> (Vec<u8>, Option<(usize, String)>) {
    let mut b = vec![s.op];
    let mut regs: Vec<u8> = v.iter().filter_map(|v| if let V::Reg(r) = v { Some(*r) } else { None }).collect();
    let mut wide = s.args.contains(&I);
    if s.opt == 1 {
        if regs.is_empty() {
            regs.push(0);
        }
        regs.push(1);
        wide = true;
    } else if regs.len() % 2 == 1 {
        regs.push(0);
    }
    for p in regs.chunks(2) {
        b.push(p[0] << 4 | p[1]);
    }
    let imm = v.iter().find(|v| !matches!(v, V::Reg(_)));
    let mut at = None;
    if wide {
        match imm {
            Some(V::Label(l)) => {
                at = Some((b.len(), l.clone()));
                b.extend([0, 0]);
            }
            Some(V::Num(n)) => b.extend(n.to_le_bytes()),
            _ => b.extend([0, 0]),
        }
    } else if s.args.iter().any(|a| matches!(a, J | K)) {
        match imm {
            Some(V::Num(n)) => b.push(*n as u8),
            _ => b.push(0),
        }
    }
    (b, at)
}

/// The shape of a name and operands
pub fn find(name: &str, v: &[V], byte_reg: impl Fn(usize) -> bool) -> Option<&'static Shape> {
    SHAPES.iter().find(|s| {
        s.names.contains(&name)
            && (s.args.len() == v.len() || v.is_empty() && s.args == [K])
            && v.iter().zip(s.args).enumerate().all(|(i, (v, a))| match (v, a) {
                (V::Reg(_), B) => byte_reg(i),
                (V::Reg(_), W) => !byte_reg(i),
                (V::Reg(r), Wn) => !byte_reg(i) && *r != 0,
                (V::Reg(_), _) => false,
                (V::Num(n), J | K) => *n < 256,
                (_, I) => true,
                _ => false,
            })
    })
}

fn hexish(s: &mut Src, t: String) -> String {
    if s.chance(1, 3) { t.to_uppercase().replacen("0X", "0x", 1) } else { t }
}

/// A number in one of the ways it can be written; `suffix`: what marks its size
fn number(s: &mut Src, n: i64, suffix: &str) -> String {
    let marked = s.chance(1, 5);
    // a sign goes between the base and the digits
    let sign = if n < 0 { "-" } else if s.chance(1, 12) { "+" } else { "" };
    let t = match s.below(6) {
        1 if n < 0 || !sign.is_empty() => {
            let t = hexish(s, format!("{:x}", n.abs()));
            format!("0x{sign}{t}")
        }
        2 if n < 0 || !sign.is_empty() => format!("0b{sign}{:b}", n.abs()),
        3 if n < 0 || !sign.is_empty() => format!("0o{sign}{:o}", n.abs()),
        4 if !sign.is_empty() => format!("{sign}{:03}", n.abs()),
        1 if n >= 0 => {
            let w = s.pick(&[0usize, 2, 4, 6]);
            hexish(s, format!("0x{n:00$x}", w))
        }
        2 if n >= 0 => format!("0b{n:b}"),
        3 if n >= 0 => format!("0o{n:o}"),
        4 if n >= 0 => format!("{n:04}"),
        _ => format!("{n}"),
    };
    // 0b is the beginning of a binary number
    if marked && !(t == "0" && suffix == "b") {
        return t + suffix;
    }
    // would be taken for the mark of a byte
    if t.ends_with('b') {
        return format!("{n}");
    }
    t
}
pub fn wide_text(s: &mut Src, n: u16) -> String {
    let v = if n >= 0x8000 && s.chance(1, 3) { n as i16 as i64 } else { n as i64 };
    number(s, v, "w")
}
fn char_text(s: &mut Src, b: u8, quote: bool) -> String {
    match b {
        b'\n' if s.chance(1, 2) => "\\n".into(),
        b'\r' if s.chance(1, 2) => "\\r".into(),
        b'\t' if s.chance(1, 2) => "\\t".into(),
        0 if s.chance(1, 2) => "\\0".into(),
        b'\\' if s.chance(1, 2) => "\\\\".into(),
        b'\'' if s.chance(1, 2) => "\\'".into(),
        b'"' if s.chance(1, 2) => "\\\"".into(),
        33..=126 if b != b'\\' && s.chance(7, 8) => (b as char).to_string(),
        b' ' if !quote => " ".into(),
        _ if s.chance(1, 3) => format!("\\x{b:02X}"),
        _ => format!("\\x{b:02x}"),
    }
}
pub fn byte_text(s: &mut Src, b: u8) -> String {
    if s.chance(1, 4) {
        return format!("'{}'", char_text(s, b, true));
    }
    let v = if b >= 0x80 && s.chance(1, 3) { b as i8 as i64 } else { b as i64 };
    number(s, v, "b")
}

pub fn ins_text(s: &mut Src, shape: &Shape, v: &[V]) -> String {
    let name = *s.pick(shape.names);
    if v.is_empty() {
        return name.to_string();
    }
    let sep = *s.pick(&[", ", ",", " , ", ",  "]);
    let gap = *s.pick(&[" ", "  ", " \t"]);
    let a: Vec<String> = v
        .iter()
        .zip(shape.args)
        .map(|(v, a)| match (v, a) {
            (V::Reg(r), B) => BREGS[*r as usize].into(),
            (V::Reg(r), _) => WREGS[*r as usize].into(),
            (V::Num(n), J | K) => byte_text(s, *n as u8),
            (V::Num(n), _) => wide_text(s, *n),
            (V::Label(l), _) => l.clone(),
        })
        .collect();
    format!("{name}{gap}{}", a.join(sep))
}

// ---- sources ----

#[derive(Clone, Debug, Default)]
pub struct Part {
    pub bytes: Vec<u8>,
    pub refs: Vec<(usize, String)>,
}
/// What a source stands for
#[derive(Clone, Debug, Default)]
pub struct Want {
    pub segs: BTreeMap<u8, Part>,
    pub labels: BTreeMap<String, (u8, usize)>,
    pub globals: BTreeSet<String>,
    pub undefined: BTreeSet<String>,
    pub entry: Option<(u8, usize)>,
}
impl Want {
    fn here(&self, seg: u8) -> usize {
        self.segs.get(&seg).map_or(0, |p| p.bytes.len())
    }
    pub fn total(&self) -> usize {
        self.segs.values().map(|p| p.bytes.len()).sum()
    }
}

#[derive(Clone, Debug, Default)]
pub struct File {
    /// where it is
    pub name: String,
    /// how it was named by what includes it
    pub shown: String,
    pub lines: Vec<String>,
}
impl File {
    pub fn text(&self, s: &mut Src) -> String {
        let end = if s.chance(1, 6) { "\r\n" } else { "\n" };
        let mut t = self.lines.join(end);
        if !s.chance(1, 6) {
            t += end;
        }
        t
    }
}

pub fn seg_name(t: u8) -> &'static str {
    match t {
        DATA => "data",
        RODATA => "rodata",
        TEXT => "text",
        _ => "heap",
    }
}

/// A source being written
pub struct Gen<'a> {
    pub s: &'a mut Src,
    pub w: Want,
    pub files: Vec<File>,
    /// open files: the innermost is written to
    open: Vec<(usize, u8)>,
    last: u8,
    names: BTreeSet<String>,
    indent: &'static str,
    pub items: Vec<(String, u8, usize)>,
    /// what goes where while a file without labels is written
    record: Option<Vec<Put>>,
    /// files without labels, which can be included again
    again: Vec<(usize, Vec<Put>)>,
}
type Put = (u8, Vec<u8>, Option<(usize, String)>);

const LABELS: [&str; 24] = [
    "a", "b", "w", "x1", "loop", "halt", "é", "r11", "r0l", "_", "a.b", "wide", "0xg", "add", "ключ", "L", "data", "r1b", "x_b", "end", "main", "0b2", "rpc", "f'",
];

impl<'a> Gen<'a> {
    pub fn new(s: &'a mut Src, name: &str) -> Gen<'a> {
        let indent = *s.pick(&["", "    ", "\t", " "]);
        Gen {
            s,
            w: Want::default(),
            files: vec![File { name: name.into(), shown: name.into(), lines: Vec::new() }],
            open: vec![(0, UNKNOWN)],
            last: UNKNOWN,
            names: BTreeSet::new(),
            indent,
            items: Vec::new(),
            record: None,
            again: Vec::new(),
        }
    }
    fn seg(&self) -> u8 {
        self.open.last().unwrap().1
    }
    pub fn here_seg(&self) -> u8 {
        self.seg()
    }
    pub fn here(&self) -> usize {
        self.w.here(self.seg())
    }
    pub fn files_len(&self) -> usize {
        self.files.len()
    }
    /// Whether a label or the entry point is in that segment
    pub fn used(&self, t: u8) -> bool {
        self.w.labels.values().any(|l| l.0 == t) || self.w.entry.is_some_and(|e| e.0 == t)
    }
    /// What is not defined is found elsewhere
    pub fn undefined(&mut self, n: &str) {
        self.w.undefined.insert(n.to_string());
        self.line(&format!(".global {n}"));
    }
    pub fn raw(&mut self, l: String) {
        let f = self.open.last().unwrap().0;
        self.files[f].lines.push(l);
    }
    fn line(&mut self, l: &str) {
        // what may be in between and around
        if self.s.chance(1, 12) {
            let c = (*self.s.pick(&["", "; a comment", "// .byte 3", "# .seg data", "  ;x:", "\t", "#!/bin/env t", ";.include nothing"])).to_string();
            self.raw(c);
        }
        let tail = if self.s.chance(1, 8) { *self.s.pick(&[" ", "\t", "  "]) } else { "" };
        let l = format!("{}{l}{tail}", self.indent);
        self.raw(l);
    }
    pub fn name(&mut self) -> String {
        let base = if self.s.chance(1, 2) { (*self.s.pick(&LABELS)).to_string() } else { format!("l{}", self.names.len()) };
        let mut n = base.clone();
        let mut k = 2;
        while BREGS.contains(&n.as_str()) || WREGS.contains(&n.as_str()) || !self.names.insert(n.clone()) {
            n = format!("{base}_{k}");
            k += 1;
        }
        n
    }
    pub fn segment(&mut self, t: u8) {
        if self.seg() != t || self.s.chance(1, 20) {
            self.line(&format!(".seg {}", seg_name(t)));
            self.open.last_mut().unwrap().1 = t;
            self.last = t;
        }
    }
    pub fn label(&mut self, n: &str) {
        let seg = self.seg();
        let at = self.w.here(seg);
        self.w.labels.insert(n.to_string(), (seg, at));
        let gap = "";
        self.line(&format!("{n}{gap}:"));
    }
    pub fn global(&mut self, n: &str) {
        self.w.globals.insert(n.to_string());
        let d = *self.s.pick(&["global", "globl"]);
        self.line(&format!(".{d} {n}"));
    }
    pub fn reference(&mut self, n: &str) {
        self.w.undefined.insert(n.to_string());
        let d = *self.s.pick(&["ref", "reference"]);
        self.line(&format!(".{d} {n}"));
    }
    pub fn entry(&mut self) {
        let seg = self.seg();
        self.w.entry = Some((seg, self.w.here(seg)));
        self.line(".entry");
    }
    fn put(&mut self, b: &[u8], at: Option<(usize, String)>) {
        let seg = self.seg();
        if let Some(r) = &mut self.record {
            r.push((seg, b.to_vec(), at.clone()));
        }
        self.put_in(seg, b, at);
    }
    fn put_in(&mut self, seg: u8, b: &[u8], at: Option<(usize, String)>) {
        let p = self.w.segs.entry(seg).or_default();
        if let Some((o, l)) = at {
            p.refs.push((p.bytes.len() + o, l));
        }
        p.bytes.extend(b);
    }
    pub fn ins(&mut self, name: &str, args: &'static [A], v: &[V]) {
        let shape = SHAPES.iter().find(|s| s.names.contains(&name) && s.args == args).expect("HARNESS: no such instruction");
        self.shaped(shape, v);
    }
    pub fn shaped(&mut self, shape: &Shape, v: &[V]) {
        let (b, at) = encode(shape, v);
        let t = ins_text(self.s, shape, v);
        self.line(&t);
        self.put(&b, at);
    }
    pub fn byte(&mut self, b: u8) {
        let t = byte_text(self.s, b);
        self.line(&format!(".byte {t}"));
        self.put(&[b], None);
    }
    pub fn wide(&mut self, v: V) {
        let d = *self.s.pick(&["wide", "word"]);
        match v {
            V::Num(n) => {
                let t = wide_text(self.s, n);
                self.line(&format!(".{d} {t}"));
                self.put(&n.to_le_bytes(), None);
            }
            V::Label(l) => {
                self.line(&format!(".{d} {l}"));
                self.put(&[0, 0], Some((0, l)));
            }
            V::Reg(_) => unreachable!(),
        }
    }
    pub fn string(&mut self, b: &[u8]) {
        let mut t = String::new();
        let mut out = Vec::new();
        for (i, &x) in b.iter().enumerate() {
            // spaces at the end do not belong to the line
            if x == b' ' && i + 1 == b.len() {
                t += "\\x20";
                out.push(x);
            } else if x >= 0xc0 && self.s.chance(1, 4) {
                let c = *self.s.pick(&["é", "Ω", "…", "🦀"]);
                t += c;
                out.extend(c.as_bytes());
            } else {
                t += &char_text(self.s, x, false);
                out.push(x);
            }
        }
        self.line(&format!(".string {t}"));
        self.put(&out, None);
    }
    /// What follows is in a file of its own, up to `leave`
    pub fn enter(&mut self) {
        let k = self.files.len();
        let name = format!("{}part{k}.telda", self.s.pick(&["", "", "inc/", "inc/deep/"]));
        let (by, rel) = self.path_to(&name);
        self.line(&format!(".include {rel}"));
        self.files.push(File { name, shown: format!("{by}{}", rel.trim_start_matches('/')), lines: Vec::new() });
        self.open.push((k, UNKNOWN));
    }
    /// (directory of the file that is written as it was named, path from it)
    fn path_to(&mut self, name: &str) -> (String, String) {
        let dir = |n: &str| n.rsplit_once('/').map_or(String::new(), |x| format!("{}/", x.0));
        if self.s.chance(1, 24) {
            // from the working directory
            return (String::new(), format!("/{name}"));
        }
        let parent = &self.files[self.open.last().unwrap().0];
        let from = dir(&parent.name);
        let rel = match name.strip_prefix(&from) {
            Some(r) => r.to_string(),
            None => format!("{}{name}", "../".repeat(from.matches('/').count())),
        };
        (dir(&parent.shown), rel)
    }
    /// A file of its own for something that defines no labels
    pub fn snippet(&mut self, f: impl FnOnce(&mut Self)) {
        let k = self.files.len();
        self.enter();
        self.record = Some(Vec::new());
        f(self);
        let r = self.record.take().unwrap();
        self.leave();
        self.again.push((k, r));
    }
    /// Includes such a file once more
    pub fn include_again(&mut self) -> bool {
        if self.again.is_empty() {
            return false;
        }
        let (k, puts) = self.s.pick(&self.again).clone();
        let name = self.files[k].name.clone();
        let (_, rel) = self.path_to(&name);
        self.line(&format!(".include {rel}"));
        for (seg, b, at) in puts {
            self.put_in(seg, &b, at);
        }
        true
    }
    pub fn leave(&mut self) {
        self.open.pop();
    }
    pub fn depth(&self) -> usize {
        self.open.len()
    }
}
