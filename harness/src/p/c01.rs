//! Saved object files read back unchanged
use super::common::*;
use crate::obj::*;
use crate::prog::{self, Prog};
use crate::run::{Ctx, Prop, Res};
use crate::check;

pub const PROP: Prop = Prop {
    id: "C01",
    run,
    quick: 60_000,
    thorough: 3_000_000,
    level: "exploration",
    rule: "a run writes one object file (a random object through the library in a process of its own, a random object through tstrip, or a generated program through tc and tl) while the system shortens and interrupts transfers, compares the bytes with what an independent decoder says and reads the file back in another process under other splits; non-trivial: at least one transfer was split or interrupted, or the object did not fit; distinct by the sequence of calls, faults and results",
    real: REAL,
    stub: STUB,
    assumptions: &["the independent encoder and decoder in harness/src/obj.rs describe the file format"],
    probes: &["refused: too long", "refused: name", "fault: noise: short transfer on write", "fault: noise: short transfer on read", "fault: noise: EINTR on write", "fault: noise: EINTR on read", "leading text", "several pages of file", "strange name"],
};

fn run(c: &mut Ctx) -> Res {
    match c.src.weighted(&[6, 3, 2]) {
        0 => through_library(c),
        1 => through_tstrip(c),
        _ => through_tools(c),
    }
}

fn sizes(c: &mut Ctx) -> ObjSizes {
    if c.src.chance(1, 10) {
        ObjSizes { seg: 2000, seg_max: 65_000, syms: 200, syms_max: 3000 }
    } else {
        ObjSizes { seg: 40, seg_max: 3000, syms: 4, syms_max: 40 }
    }
}

/// also objects that are just too long or just short enough
fn object(c: &mut Ctx) -> Obj {
    let z = sizes(c);
    let mut o = gen_obj(&mut c.src, &z);
    if !o.syms.is_empty() && c.src.chance(1, 8) {
        for _ in 0..c.src.range(1, 3) {
            let i = c.src.usize(o.syms.len());
            o.syms[i].name = strange_name(c);
            c.count("strange name");
        }
    }
    if c.src.chance(1, 12) {
        match c.src.below(3) {
            0 => {
                // a segment section has 3 bytes more than its content
                let n = 65_532 + c.src.below(4) as usize - c.src.below(2) as usize;
                let b = c.src.bytes(n);
                o.segs.retain(|s| s.0 != DATA);
                o.segs.push((DATA, c.src.u16(), b));
                o.segs.sort_by_key(|s| s.0);
            }
            1 => {
                let n = 13_105 + c.src.below(5);
                o.relocs = (0..n).map(|i| (TEXT, i as u16, (i * 7) as u16)).collect();
            }
            _ => {
                let n = 65_528 + c.src.below(6) as usize;
                o.syms = vec![Sym { name: vec![b'n'; n], global: c.src.chance(1, 2), seg: DATA, loc: 1 }];
            }
        }
    }
    o
}

/// long, with blanks and other characters that seldom are in names
fn strange_name(c: &mut Ctx) -> Vec<u8> {
    let s = &mut c.src;
    let n = if s.chance(1, 4) { s.range(200, 10_000) } else { s.range(1, 6) };
    let mut t = String::new();
    // the first character is no space, which a global name cannot begin with
    t.push(*s.pick(&['\t', '\n', '\u{a0}', '\u{feff}', 'a', '\u{301}', '\u{2003}', '_']));
    while t.chars().count() < n as usize {
        match s.below(4) {
            0 => t.push(*s.pick(&[' ', '\t', '\n', '\r', '\u{1}', '\u{7f}', '\u{80}', '\u{fffd}', '\u{feff}', '\u{10ffff}', '\\', '"', '%'])),
            1 => t.push(char::from_u32(s.below(0x11_0000) as u32).unwrap_or('?')),
            2 if n > 100 => (0..50).for_each(|_| t.push('x')),
            _ => t.push(s.range(33, 126) as u8 as char),
        }
    }
    // a zero byte ends a name
    t.replace('\0', "0").into_bytes()
}

/// a name such as none should have
fn odd_name(c: &mut Ctx, o: &mut Obj) {
    if o.syms.is_empty() {
        return;
    }
    let i = c.src.usize(o.syms.len());
    let n = &mut o.syms[i].name;
    let at = match c.src.below(4) {
        0 => 0,
        1 => n.len(),
        _ => (0..n.len()).filter(|&i| n[i] < 128).nth(c.src.usize(n.len().max(1))).unwrap_or(0),
    };
    n.insert(at, *c.src.pick(b"\0 "));
}

fn through_library(c: &mut Ctx) -> Res {
    let mut o = object(c);
    if c.src.chance(1, 10) {
        odd_name(c, &mut o);
    }
    let lead = gen_leading(&mut c.src);
    o.offset = lead.len() as u64;
    // whatever follows the leading text is replaced
    let mut before = lead.clone();
    if c.src.chance(1, 2) {
        let n = c.src.size(300, 80_000) as usize;
        let b = c.src.bytes(n);
        before.extend(b);
    }
    if !before.is_empty() {
        c.ps().put("o.to", &before, 0o644);
    }
    std::fs::write(c.ps().aux("desc"), o.to_text()).expect("HARNESS: description");
    let desc = c.ps().aux("desc").to_string_lossy().into_owned();
    let plan = noise(&mut c.src);
    c.note(|| format!("object of {} bytes behind {} bytes of text", o.encode().len(), lead.len()));
    let w = c.run("dsth", &["write-obj", &desc, "o.to"], b"", &plan);
    ordinary("writing an object", &w)?;
    c.nontrivial = w.faults_fired().next().is_some() || !o.fits();
    if !o.fits() {
        if !o.names_fit() {
            check!(!w.ok(), "altered", "an object with a symbol whose name cannot be stored was written without an error");
            c.count("refused: name");
            return Ok(());
        }
        check!(!w.ok(), "altered", "an object with a section of more than 65535 bytes was written without an error");
        c.count("refused: too long");
        return Ok(());
    }
    check!(w.ok(), "refused", "writing an object that fits the format failed: {}", crate::psim::text(&w.stderr));
    let b = c.ps().get("o.to").unwrap_or_default();
    if b.len() > 8192 {
        c.count("several pages of file");
    }
    if !lead.is_empty() {
        c.count("leading text");
    }
    check!(b.starts_with(&lead), "leading text", "leading text changed: {}", diff(&b, &lead));
    let d = decode(&b, 0);
    match &d {
        None => check!(false, "unreadable", "the file that was written is not an object file"),
        Some((d, end)) => {
            check!(*d == o, "altered", "the file holds another object: {}", first_difference(&o, d));
            check!(*end == b.len(), "altered", "{} bytes follow the object", b.len() - end);
        }
    }
    read_back(c, "o.to", &o)
}

fn read_back(c: &mut Ctx, file: &str, o: &Obj) -> Res {
    let plan = noise(&mut c.src);
    let r = c.run("dsth", &["read-obj", file], b"", &plan);
    must_succeed("reading the object", &r)?;
    let got = Obj::from_text(&String::from_utf8_lossy(&r.stdout));
    check!(got == *o, "read back", "reading gives another object: {}", first_difference(o, &got));
    Ok(())
}

fn first_difference(a: &Obj, b: &Obj) -> String {
    if a.offset != b.offset {
        return format!("offset {} and {}", a.offset, b.offset);
    }
    if a.entry != b.entry || a.flags != b.flags || a.stack != b.stack || a.heap != b.heap {
        return format!("entry, flags, stack, heap {:?} and {:?}", (a.entry, a.flags, a.stack, a.heap), (b.entry, b.flags, b.stack, b.heap));
    }
    if a.segs != b.segs {
        let f = |o: &Obj| o.segs.iter().map(|s| (s.0, s.1, s.2.len())).collect::<Vec<_>>();
        return format!("segments (type, address, length) {:?} and {:?}", f(a), f(b));
    }
    if a.syms != b.syms {
        let i = a.syms.iter().zip(&b.syms).position(|(x, y)| x != y);
        return format!("{} and {} symbols, first difference at {i:?}", a.syms.len(), b.syms.len());
    }
    let i = a.relocs.iter().zip(&b.relocs).position(|(x, y)| x != y);
    format!("{} and {} relocations, first difference at {i:?}", a.relocs.len(), b.relocs.len())
}

/// tstrip reads an object and writes it again without the names of internal symbols
fn through_tstrip(c: &mut Ctx) -> Res {
    let mut o = object(c);
    if !o.fits() {
        return Ok(());
    }
    let lead = gen_leading(&mut c.src);
    o.offset = lead.len() as u64;
    let mut b = lead.clone();
    b.extend(o.encode());
    c.ps().put("o.to", &b, 0o644);
    let plan = noise(&mut c.src);
    let w = c.run("tstrip", &["o.to"], b"", &plan);
    must_succeed("tstrip", &w)?;
    c.nontrivial = w.faults_fired().next().is_some();
    for s in &mut o.syms {
        if !s.global {
            s.name.clear();
        }
    }
    let got = c.ps().get("o.to").unwrap_or_default();
    check!(got.starts_with(&lead), "leading text", "leading text changed: {}", diff(&got, &lead));
    if !lead.is_empty() {
        c.count("leading text");
    }
    match decode(&got, 0) {
        None => check!(false, "unreadable", "tstrip left no object file"),
        Some((d, _)) => check!(d == o, "altered", "tstrip wrote another object: {}", first_difference(&o, &d)),
    }
    read_back(c, "o.to", &o)
}

/// every object the tools write can be read and says the same to the library and to the independent decoder
fn through_tools(c: &mut Ctx) -> Res {
    let big = c.src.chance(1, 3);
    let p: Prog = prog::gen(&mut c.src, &prog::Opts { big, ..Default::default() });
    put_prog(c, &p);
    let plan = noise(&mut c.src);
    let src = p.sources();
    let o = c.run("tc", &refs(&src), b"", &plan);
    must_succeed("tc", &o)?;
    c.nontrivial = o.faults_fired().next().is_some();
    let objs = p.objects();
    let mut args = refs(&objs);
    let exe = c.src.chance(1, 2);
    args.extend(["-o", "out.to"]);
    if exe {
        args.push("-e");
        if let Some(e) = &p.entry_sym {
            args.extend(["-E", e]);
        }
    }
    let o = c.run("tl", &args, b"", &plan);
    must_succeed("tl", &o)?;
    let mut files = p.objects();
    files.push("out.to".into());
    let k = c.src.usize(files.len());
    let f = files[files.len() - 1 - k].clone();
    let b = c.ps().get(&f).unwrap_or_default();
    match decode(&b, 0) {
        None => check!(false, "unreadable", "{f} is not an object file"),
        Some((d, end)) => {
            check!(end == b.len(), "altered", "{f}: {} bytes follow the object", b.len() - end);
            check!(d.offset == if exe && f == "out.to" { 13 } else { 0 }, "leading text", "{f}: object at offset {}", d.offset);
            read_back(c, &f, &d)?;
        }
    }
    Ok(())
}
