//! An independent description of object files and archives: encoder, decoder and generator.
//! Nothing in here uses the library under test.
use crate::src::Src;

pub const MAGIC: &[u8] = "álvur2\n".as_bytes();
pub const AR_MAGIC: &[u8] = "álvasavn\n".as_bytes();

pub const ZERO: u8 = 0;
pub const DATA: u8 = 0x10;
pub const RODATA: u8 = 0x18;
pub const TEXT: u8 = 0x20;
pub const HEAP: u8 = 0x70;
pub const UNKNOWN: u8 = 0xff;
pub const STYPES: [u8; 6] = [TEXT, DATA, RODATA, HEAP, ZERO, UNKNOWN];

#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct Sym {
    pub name: Vec<u8>,
    pub global: bool,
    pub seg: u8,
    pub loc: u16,
}

#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct Obj {
    pub offset: u64,
    pub entry: Option<(u8, u16)>,
    pub flags: Option<bool>,
    pub stack: Option<u16>,
    pub heap: Option<u16>,
    /// sorted by type
    pub segs: Vec<(u8, u16, Vec<u8>)>,
    pub syms: Vec<Sym>,
    pub relocs: Vec<(u8, u16, u16)>,
}

impl Obj {
    pub fn seg(&self, t: u8) -> Option<&(u8, u16, Vec<u8>)> {
        self.segs.iter().find(|s| s.0 == t)
    }
    pub fn sections(&self) -> Vec<(&'static str, Vec<u8>)> {
        let mut v = Vec::new();
        if let Some((s, a)) = self.entry {
            let a = a.to_le_bytes();
            v.push(("_entry", vec![s, a[0], a[1]]));
        }
        if let Some(r) = self.flags {
            v.push(("_flags", if r { b"R".to_vec() } else { vec![] }));
        }
        if let Some(s) = self.stack {
            v.push(("_stack_size", s.to_le_bytes().to_vec()));
        }
        if let Some(s) = self.heap {
            v.push(("_heap_size", s.to_le_bytes().to_vec()));
        }
        for (t, o, b) in &self.segs {
            let mut c = o.to_le_bytes().to_vec();
            c.push(*t);
            c.extend(b);
            v.push(("_seg", c));
        }
        if !self.syms.is_empty() {
            let mut c = Vec::new();
            for s in &self.syms {
                if !s.global {
                    c.push(b' ');
                }
                c.extend(&s.name);
                c.push(0);
                c.push(s.seg);
                c.extend(s.loc.to_le_bytes());
            }
            v.push(("_syms", c));
        }
        if !self.relocs.is_empty() {
            let mut c = Vec::new();
            for (s, l, i) in &self.relocs {
                c.push(*s);
                c.extend(l.to_le_bytes());
                c.extend(i.to_le_bytes());
            }
            v.push(("_reloc", c));
        }
        v
    }
    pub fn fits(&self) -> bool {
        self.sections().iter().all(|s| s.1.len() <= 0xffff) && self.names_fit()
    }
    /// a zero byte ends a name, and a space in front of it makes it internal
    pub fn names_fit(&self) -> bool {
        self.syms.iter().all(|s| !s.name.contains(&0) && !(s.global && s.name.first() == Some(&b' ')))
    }
    /// without leading text
    pub fn encode(&self) -> Vec<u8> {
        let mut v = MAGIC.to_vec();
        for (n, c) in self.sections() {
            v.extend(n.as_bytes());
            v.push(0);
            v.extend((c.len() as u16).to_le_bytes());
            v.extend(c);
        }
        v.push(0);
        v
    }
}

/// Decodes the object that begins at or after `at`; also returns where it ends
pub fn decode(b: &[u8], at: usize) -> Option<(Obj, usize)> {
    let m = (at..b.len()).find(|&i| b[i..].starts_with(MAGIC))?;
    let mut o = Obj { offset: m as u64, ..Obj::default() };
    let mut p = m + MAGIC.len();
    let (mut entry, mut flags, mut stack, mut heap, mut syms, mut relocs) = (0, 0, 0, 0, 0, 0);
    loop {
        let z = p + b[p..].iter().position(|&c| c == 0)?;
        let name = &b[p..z];
        p = z + 1;
        if name.is_empty() {
            break;
        }
        let len = u16::from_le_bytes([*b.get(p)?, *b.get(p + 1)?]) as usize;
        p += 2;
        let c = b.get(p..p + len)?;
        p += len;
        let w = |i: usize| -> Option<u16> { Some(u16::from_le_bytes([*c.get(i)?, *c.get(i + 1)?])) };
        match name {
            b"_entry" => {
                entry += 1;
                o.entry = Some((stype(*c.first()?)?, w(1)?));
            }
            b"_flags" => {
                flags += 1;
                if c.iter().any(|&x| x != b'R') {
                    return None;
                }
                o.flags = Some(!c.is_empty());
            }
            b"_stack_size" => {
                stack += 1;
                o.stack = Some(w(0)?);
            }
            b"_heap_size" => {
                heap += 1;
                o.heap = Some(w(0)?);
            }
            b"_seg" => {
                let s = (stype(*c.get(2)?)?, w(0)?, c[3..].to_vec());
                if o.segs.iter().any(|x| x.0 == s.0) {
                    return None;
                }
                o.segs.push(s);
            }
            b"_syms" => {
                syms += 1;
                let mut i = 0;
                while i < c.len() {
                    let z = i + c[i..].iter().position(|&x| x == 0)?;
                    let global = c[i] != b' ';
                    let name = c[if global { i } else { i + 1 }..z].to_vec();
                    o.syms.push(Sym { name, global, seg: stype(*c.get(z + 1)?)?, loc: w(z + 2)? });
                    i = z + 4;
                }
            }
            b"_reloc" => {
                relocs += 1;
                if c.len() % 5 != 0 {
                    return None;
                }
                for i in (0..c.len()).step_by(5) {
                    o.relocs.push((stype(c[i])?, w(i + 1)?, w(i + 3)?));
                }
            }
            n if n.first() == Some(&b'_') => return None,
            _ => (),
        }
    }
    if [entry, flags, stack, heap, syms, relocs].iter().any(|&n| n > 1) {
        return None;
    }
    o.segs.sort_by_key(|s| s.0);
    Some((o, p))
}

fn stype(b: u8) -> Option<u8> {
    STYPES.contains(&b).then_some(b)
}

/// The members of an archive that can be read, and whether it ends right after the last one
pub fn decode_archive(b: &[u8]) -> Option<(Vec<(Obj, Vec<u8>)>, bool)> {
    if !b.starts_with(AR_MAGIC) {
        return None;
    }
    let mut at = AR_MAGIC.len();
    let mut v = Vec::new();
    loop {
        match decode(b, at) {
            Some((o, end)) => {
                v.push((o, b[at..end].to_vec()));
                at = end;
                if at == b.len() {
                    return Some((v, true));
                }
            }
            None => return Some((v, false)),
        }
    }
}

// ---- line format understood by the helper (`dst write-obj`) and printed by `dst read-obj` ----

pub fn hex(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 2);
    for x in b {
        s.push(char::from_digit((x >> 4) as u32, 16).unwrap());
        s.push(char::from_digit((x & 15) as u32, 16).unwrap());
    }
    s
}
pub fn unhex(s: &str) -> Vec<u8> {
    let s = s.as_bytes();
    let d = |c: u8| (c as char).to_digit(16).expect("HARNESS: hex") as u8;
    s.chunks(2).map(|c| d(c[0]) << 4 | d(c[1])).collect()
}

impl Obj {
    pub fn to_text(&self) -> String {
        let mut s = format!("offset {}\n", self.offset);
        if let Some((t, a)) = self.entry {
            s += &format!("entry {t} {a}\n");
        }
        if let Some(r) = self.flags {
            s += &format!("flags {}\n", r as u8);
        }
        if let Some(n) = self.stack {
            s += &format!("stack {n}\n");
        }
        if let Some(n) = self.heap {
            s += &format!("heap {n}\n");
        }
        for (t, o, b) in &self.segs {
            s += &format!("seg {t} {o} {}\n", hex(b));
        }
        for y in &self.syms {
            s += &format!("sym {} {} {} {}\n", y.global as u8, y.seg, y.loc, hex(&y.name));
        }
        for (t, l, i) in &self.relocs {
            s += &format!("reloc {t} {l} {i}\n");
        }
        s
    }
    pub fn from_text(s: &str) -> Obj {
        let mut o = Obj::default();
        for l in s.lines() {
            let f: Vec<&str> = l.split(' ').collect();
            let n = |i: usize| f[i].parse::<u64>().expect("HARNESS: number");
            match f[0] {
                "offset" => o.offset = n(1),
                "entry" => o.entry = Some((n(1) as u8, n(2) as u16)),
                "flags" => o.flags = Some(n(1) != 0),
                "stack" => o.stack = Some(n(1) as u16),
                "heap" => o.heap = Some(n(1) as u16),
                "seg" => o.segs.push((n(1) as u8, n(2) as u16, unhex(f.get(3).unwrap_or(&"")))),
                "sym" => o.syms.push(Sym { global: n(1) != 0, seg: n(2) as u8, loc: n(3) as u16, name: unhex(f.get(4).unwrap_or(&"")) }),
                "reloc" => o.relocs.push((n(1) as u8, n(2) as u16, n(3) as u16)),
                "" => (),
                x => panic!("HARNESS: line {x}"),
            }
        }
        o
    }
}

// ---- generator ----

const NAMES: [&str; 14] = ["main", "f", "g", "_start", "print_string", "lbl1", "x", "ávöxtur", "buf", "a.b", "日本", "end", "q q", "álv"];

pub fn gen_name(s: &mut Src) -> Vec<u8> {
    match s.below(8) {
        0..=5 => s.pick(&NAMES).as_bytes().to_vec(),
        6 => format!("{}{}", s.pick(&NAMES), s.below(1000)).into_bytes(),
        _ => {
            let n = s.range(1, 300) as usize;
            let c = *s.pick(&[b'a', b'Z', b'~', b'_']);
            vec![c; n]
        }
    }
}

/// Leading text: never contains the whole magic, sometimes parts of it
pub fn gen_leading(s: &mut Src) -> Vec<u8> {
    let mut v = Vec::new();
    match s.below(5) {
        0 => (),
        1 => v = b"#!/bin/env t\n".to_vec(),
        2 => {
            let n = s.size(200, 20000) as usize;
            v = s.bytes(n);
            if v.windows(MAGIC.len()).any(|w| w == MAGIC) {
                v.clear();
            }
        }
        _ => {
            for _ in 0..s.range(1, 6) {
                match s.below(3) {
                    0 => v.extend(b"#! hello\n"),
                    1 => {
                        let n = s.range(1, MAGIC.len() as u64 - 1) as usize;
                        v.extend(&MAGIC[..n]);
                    }
                    _ => v.push(s.u8()),
                }
            }
            // joining the pieces cannot have made a whole magic, also not with what follows
            let mut t = v.clone();
            t.extend(MAGIC);
            if t.windows(MAGIC.len()).position(|w| w == MAGIC) != Some(v.len()) {
                v.clear();
            }
        }
    }
    v
}

pub struct ObjSizes {
    pub seg: u64,
    pub seg_max: u64,
    pub syms: u64,
    pub syms_max: u64,
}

pub fn gen_obj(s: &mut Src, z: &ObjSizes) -> Obj {
    let mut o = Obj::default();
    if s.chance(1, 2) {
        o.entry = Some((*s.pick(&STYPES), s.u16()));
    }
    if s.chance(1, 2) {
        o.flags = Some(s.chance(1, 2));
    }
    if s.chance(1, 2) {
        o.stack = Some(s.u16());
    }
    if s.chance(1, 2) {
        o.heap = Some(s.u16());
    }
    for t in STYPES {
        if s.chance(2, 5) {
            let off = if s.chance(1, 2) { s.u16() } else { s.below(64) as u16 * 128 };
            let n = s.size(z.seg, z.seg_max) as usize;
            let b = s.bytes(n);
            o.segs.push((t, off, b));
        }
    }
    o.segs.sort_by_key(|x| x.0);
    for _ in 0..s.size(z.syms, z.syms_max) {
        let global = s.chance(1, 2);
        let name = if !global && s.chance(1, 4) { vec![] } else { gen_name(s) };
        o.syms.push(Sym { name, global, seg: *s.pick(&STYPES), loc: s.u16() });
    }
    for _ in 0..s.size(z.syms, z.syms_max) {
        o.relocs.push((*s.pick(&STYPES), s.u16(), s.u16()));
    }
    o
}
