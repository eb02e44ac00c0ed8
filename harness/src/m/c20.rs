//! C20: from the source to what the program does
use super::asm::{self, Gen, Want, A::*, V};
use super::load;
use super::lock;
use super::model;
use super::sim::*;
use crate::check;
use crate::common::{must_succeed, noise, noisy, ordinary};
use crate::obj::*;
use crate::psim::{contains, text};
use crate::run::{fail, Ctx, Prop, Res};
use crate::src::{hash_bytes, Src};
use std::collections::{BTreeMap, VecDeque};

pub const PROP: Prop = Prop {
    id: "C20",
    run,
    quick: 40_000,
    thorough: 2_000_000,
    level: "exploration",
    rule: "a run generates a source file with included files out of all instructions, directives, ways to write numbers, characters and strings, and comments, and assembles it with the shipped tc while reads and writes are split, shortened and interrupted; the segments, symbols, references and entry point of the object file must be those an assembler written a second time gives; half of the sources are programs, which are linked with tl and run by t under the same noise and must print and end as the reference machine does on the independently assembled bytes; one in five sources gets lines that are wrong, and tc must refuse it and name the file and line of each; non-trivial: transfers were split or interrupted; distinct by the sequence of calls, faults and results",
    real: "the shipped tc, tl and t with the whole library below them, unmodified, built from /repo's working tree",
    stub: crate::common::STUB,
    assumptions: &["the assembler (harness/src/m/asm.rs) and the machine (harness/src/m/model.rs) written a second time are right"],
    probes: &["assembled", "included file", "included again", "undefined symbol", "program run", "program: halt", "program: trap", "program: input read", "program printed", "loop", "call", "jump through a register", "jump through a table", "data reached by label", "wrong source", "wrong: line named", "noise met", "CRLF", "odd alignment", "elsewhere", "included from the working directory"],
};

fn run(c: &mut Ctx) -> Res {
    let program = c.src.chance(1, 2);
    let (want, files, facts) = if program { generate_program(&mut c.src) } else { generate_any(&mut c.src) };
    for f in facts {
        c.count(f);
    }
    if c.src.chance(1, 5) {
        return wrong(c, files);
    }
    // where the source is and what it is called
    let rooted = files.iter().any(|f| f.lines.iter().any(|l| l.contains(" /") || l.contains("\t/")));
    if rooted {
        c.count("included from the working directory");
    }
    let (dir, source, object) = match c.src.below(3) {
        0 if !rooted => *c.src.pick(&PLACES),
        _ => PLACES[0],
    };
    if source != "s.telda" || !dir.is_empty() {
        c.count("elsewhere");
        if !dir.is_empty() {
            c.ps().mkdir(dir);
        }
    }
    put_at(c, &files, dir, source);
    let given = format!("{}{dir}{source}", if c.src.chance(1, 8) { "./" } else { "" });
    let object = format!("{dir}{object}");
    let before = c.ps().snapshot();
    let plan = noise(&mut c.src);
    met(c, &plan);
    let o = c.run("tc", &[&given], b"", &plan);
    must_succeed("tc", &o)?;
    only(c, "tc", &before, &object)?;
    let Some(b) = c.ps().get(&object) else { return fail("object", format!("tc of {given} succeeded and there is no {object}")) };
    let Some((obj, _)) = decode(&b, 0) else { return fail("object", format!("tc wrote something that is no object file: {}", hex(&b))) };
    c.count("assembled");
    compare(&want, &obj, "the object file")?;
    if program { behaves(c, &want, &object) } else { Ok(()) }
}

fn met(c: &mut Ctx, p: &crate::psim::Plan) {
    if noisy(p) {
        c.nontrivial = true;
        c.count("noise met");
    }
}

/// Directory, name of the source, and name of the object it becomes
const PLACES: [(&str, &str, &str); 10] = [
    ("", "s.telda", "s.to"),
    ("", "s", "s.to"),
    ("", "s.v1.telda", "s.v1.to"),
    ("", "s.to.telda", "s.to.to"),
    ("", "two words.telda", "two words.to"),
    ("", "þ.telda", "þ.to"),
    ("d/", "s.telda", "s.to"),
    ("d.x/", "s", "s.to"),
    ("d.x/e.y/", "s.asm", "s.to"),
    ("d.telda/", "telda", "telda.to"),
];

/// Nothing but this file is changed
fn only(c: &mut Ctx, tool: &str, before: &crate::psim::Snapshot, out: &str) -> Res {
    let after = c.ps().snapshot();
    for k in before.keys().chain(after.keys()) {
        check!(k == out || before.get(k) == after.get(k), "other files", "{tool} changes or leaves {k} besides {out}");
    }
    Ok(())
}

pub(super) fn put(c: &mut Ctx, files: &[asm::File]) {
    put_at(c, files, "", "s.telda");
}

/// With the source under another name in another directory
fn put_at(c: &mut Ctx, files: &[asm::File], dir: &str, source: &str) {
    let dirs = ["inc", "inc/deep"];
    for d in dirs {
        if files.iter().any(|f| f.name.starts_with(&format!("{d}/"))) {
            c.ps().mkdir(&format!("{dir}{d}"));
        }
    }
    for f in files {
        let t = f.text(&mut c.src);
        if t.contains("\r\n") {
            c.count("CRLF");
        }
        let name = format!("{dir}{}", if f.name == "s.telda" { source } else { &f.name });
        c.ps().put(&name, t.as_bytes(), 0o644);
        c.note(|| format!("file {name}:\n{t}"));
    }
}

/// What an object file says, against what the source stands for
fn compare(want: &Want, o: &Obj, what: &str) -> Res {
    let segs: Vec<u8> = o.segs.iter().filter(|s| !s.2.is_empty()).map(|s| s.0).collect();
    let expected: Vec<u8> = want.segs.iter().filter(|s| !s.1.bytes.is_empty()).map(|s| *s.0).collect();
    let mut sorted = segs.clone();
    sorted.sort();
    check!(sorted == expected, "segments", "{what} has the segments {segs:?} instead of {expected:?}");
    let base = |t: u8| o.seg(t).map_or(0, |s| s.1);
    for (t, p) in &want.segs {
        if p.bytes.is_empty() {
            continue;
        }
        let got = &o.seg(*t).unwrap().2;
        check!(got.len() == p.bytes.len(), "bytes", "segment {} of {what} has {} bytes instead of {}: {} and {}", asm::seg_name(*t), got.len(), p.bytes.len(), hex(got), hex(&p.bytes));
        for (i, (x, y)) in got.iter().zip(&p.bytes).enumerate() {
            let reference = p.refs.iter().any(|r| r.0 == i || r.0 + 1 == i);
            check!(x == y || reference, "bytes", "byte {i} of segment {} of {what} is {x:02x} instead of {y:02x}: {} and {}", asm::seg_name(*t), hex(got), hex(&p.bytes));
        }
    }
    let mut got: Vec<(String, bool, u8, u16)> =
        o.syms.iter().map(|s| (String::from_utf8_lossy(&s.name).into_owned(), s.global, s.seg, if s.seg == UNKNOWN { 0 } else { s.loc.wrapping_sub(base(s.seg)) })).collect();
    let mut exp: Vec<(String, bool, u8, u16)> = want.labels.iter().map(|(n, (t, at))| (n.clone(), want.globals.contains(n), *t, *at as u16)).collect();
    exp.extend(want.undefined.iter().map(|n| (n.clone(), true, UNKNOWN, 0)));
    got.sort();
    exp.sort();
    if got != exp {
        let (a, b) = (got.iter().find(|x| !exp.contains(x)), exp.iter().find(|x| !got.contains(x)));
        return fail("symbols", format!("{what} has the symbol {a:?} in place of {b:?} (name, global, segment, offset), {} of {}", got.len(), exp.len()));
    }
    let mut got: Vec<(u8, u16, String)> =
        o.relocs.iter().map(|r| (r.0, r.1.wrapping_sub(base(r.0)), o.syms.get(r.2 as usize).map_or("?".into(), |s| String::from_utf8_lossy(&s.name).into_owned()))).collect();
    let mut exp: Vec<(u8, u16, String)> = want.segs.iter().flat_map(|(t, p)| p.refs.iter().map(|r| (*t, r.0 as u16, r.1.clone()))).collect();
    got.sort();
    exp.sort();
    if got != exp {
        let (a, b) = (got.iter().find(|x| !exp.contains(x)), exp.iter().find(|x| !got.contains(x)));
        return fail("references", format!("{what} has the reference {a:?} in place of {b:?} (segment, offset, symbol), {} of {}", got.len(), exp.len()));
    }
    let entry = o.entry.map(|(t, at)| (t, at.wrapping_sub(base(t)) as usize));
    check!(entry == want.entry, "entry", "{what} has the entry point {entry:?} instead of {:?}", want.entry);
    Ok(())
}

fn behaves(c: &mut Ctx, want: &Want, object: &str) -> Res {
    let dir = match object.rsplit_once('/') {
        Some((d, _)) if c.src.chance(1, 2) => format!("{d}/"),
        _ => String::new(),
    };
    let prog = &*format!("{dir}{}", if c.src.chance(1, 8) { "pr.og.1" } else { "prog" });
    let mut args = vec![object, "-e", "-o", prog];
    let mut want = want.clone();
    let mut name = None;
    if want.entry.is_none() || c.src.chance(1, 4) {
        name = want.globals.iter().find(|g| g.starts_with("start")).cloned();
        if let Some(n) = &name {
            args.extend(["-E", n]);
            want.entry = Some(want.labels[n]);
        }
    }
    if c.src.chance(1, 3) {
        args.extend(["-A", *c.src.pick(&["1", "2", "16", "64", "128", "256", "1024"])]);
        c.count("odd alignment");
    }
    let plan = noise(&mut c.src);
    met(c, &plan);
    let before = c.ps().snapshot();
    let o = c.run("tl", &args, b"", &plan);
    must_succeed("tl", &o)?;
    only(c, "tl", &before, prog)?;
    drop(name);
    let Some(b) = c.ps().get(prog) else { return fail("object", "tl succeeded and there is no executable") };
    let at = b.iter().position(|&x| x == b'\n').map_or(0, |i| i + 1);
    let Some((exe, _)) = decode(&b, if b.starts_with(b"#!") { at } else { 0 }) else { return fail("object", "tl wrote something that is no executable") };
    compare(&want, &exe, "the executable")?;
    // what the program has to be in memory
    let base = |t: u8| exe.seg(t).map_or(0, |s| s.1);
    let mut want_exe = Obj { entry: want.entry.map(|(t, at)| (t, base(t).wrapping_add(at as u16))), flags: exe.flags, heap: exe.heap, stack: exe.stack, ..Obj::default() };
    for (&t, p) in &want.segs {
        let mut b = p.bytes.clone();
        for (i, l) in &p.refs {
            let (t, at) = want.labels[l];
            b[*i..*i + 2].copy_from_slice(&base(t).wrapping_add(at as u16).to_le_bytes());
        }
        if !b.is_empty() {
            check!(exe.seg(t).unwrap().2 == b, "references", "segment {} of the executable is {} instead of {}", asm::seg_name(t), hex(&exe.seg(t).unwrap().2), hex(&b));
        }
        want_exe.segs.push((t, base(t), b));
    }
    let n = c.src.size(40, 400) as usize;
    let input = c.src.bytes(n);
    let Some(e) = execute(&want_exe, &input) else {
        c.count("program not run");
        return Ok(());
    };
    if c.noting() {
        c.note(|| format!("input {}, output should be {}, end {:?} after {} steps", hex(&input), hex(&e.out), e.traps.iter().map(|t| lock::trap_name(*t)).collect::<Vec<_>>(), e.steps));
    }
    c.mark(hash_bytes(e.steps, &e.out));
    let plan = noise(&mut c.src);
    met(c, &plan);
    let o = c.run("t", &[prog], &input, &plan);
    c.count("program run");
    c.add("instructions of programs", e.steps);
    if e.read > 0 {
        c.count("program: input read");
    }
    if !e.out.is_empty() {
        c.count("program printed");
    }
    ordinary("t", &o)?;
    check!(o.stdout == e.out, "behaviour", "the program prints {} instead of {} ({} {})", hex(&o.stdout), hex(&e.out), o.status(), text(&o.stderr));
    if e.traps == [model::HALT] {
        c.count("program: halt");
        check!(o.ok(), "behaviour", "the program halts, and t ends with {} {}", o.status(), text(&o.stderr));
    } else {
        c.count("program: trap");
        c.count(&format!("program: {}", lock::trap_name(e.traps[0])));
        let names = lock::names(&e.traps);
        check!(!o.ok(), "behaviour", "the program ends with {names}, and t ends with success");
        check!(e.traps.iter().any(|&t| contains(&o.stderr, lock::trap_name(t).as_bytes())), "behaviour", "the program ends with {names}, and t says {}", text(&o.stderr));
    }
    Ok(())
}

pub(super) struct Exec {
    pub out: Vec<u8>,
    pub traps: Vec<u8>,
    steps: u64,
    read: usize,
    /// of the instruction it ends with
    pub pc: u16,
}
const ROOT: u32 = 0x9000;

/// The reference machine runs a program. None: it does not end, or wants something not described.
pub(super) fn execute(o: &Obj, input: &[u8]) -> Option<Exec> {
    let mut mem = Shadow::default();
    let g = load::grant(o);
    for p in 0..512u32 {
        let Some(perms) = g.pages[p as usize].or(g.maybe[p as usize]) else { continue };
        // every page is where its address says, above the tables
        let l2 = 0x2_0000 + (p >> 5) * 128;
        let all = (model::P_U | model::P_X | model::P_W | model::P_R | model::P_P) as u32;
        let set = |mem: &mut Shadow, at: u32, e: u32| e.to_le_bytes().iter().enumerate().for_each(|(i, b)| mem.set(at + i as u32, *b));
        set(&mut mem, ROOT + 4 * (p >> 5), l2 << 8 | all);
        set(&mut mem, l2 + 4 * (p & 31), (0x4_0000 + p * 128) << 8 | (perms | model::P_U | model::P_P) as u32);
    }
    for (&a, b) in &g.bytes {
        mem.set(0x4_0000 + a as u32, (*b)?);
    }
    let mut st = St { pc: o.entry?.1, fl: V | U, ..St::default() };
    st.r[RP] = ROOT as u16;
    st.r[RS] = 0xffff;
    st.r[RF] = 0xffff;
    let mut e = Exec { out: Vec::new(), traps: Vec::new(), steps: 0, read: 0, pc: 0 };
    let mut input: VecDeque<u8> = input.iter().copied().collect();
    while e.steps < 20_000 {
        let s = model::step(&mem, 0, &st);
        e.steps += 1;
        e.pc = st.pc;
        if s.undefined {
            return None;
        }
        if s.traps.is_empty() {
            for (a, v) in s.writes {
                mem.set(a, v);
            }
            st = s.next;
            continue;
        }
        if s.traps != [model::SYSCALL] {
            e.traps = s.traps;
            return Some(e);
        }
        match st.r[1] {
            3 => {
                let b = input.pop_front()?;
                e.read += 1;
                st.r[1] = st.r[1] & 0xff00 | b as u16;
            }
            4 => e.out.push(st.r[2] as u8),
            // prints what it likes, and handlers are looked at elsewhere
            0 | 15 => return None,
            _ => {
                e.traps = s.traps;
                return Some(e);
            }
        }
        st.pc = st.pc.wrapping_add(1);
        st.fl &= !T;
    }
    None
}

// ---- sources ----

/// Bytes, wides and strings at a label
fn item(g: &mut Gen, seg: u8, labels: &[String]) {
    g.segment(seg);
    let n = g.name();
    if g.s.chance(1, 6) {
        g.global(&n);
    }
    g.label(&n);
    let from = g.here();
    for _ in 0..g.s.range(1, 5) {
        match g.s.below(4) {
            0 => {
                let b = g.s.u8();
                g.byte(b);
            }
            1 => {
                let v = if !labels.is_empty() && g.s.chance(1, 3) { V::Label(g.s.pick(labels).clone()) } else { V::Num(g.s.u16()) };
                g.wide(v);
            }
            _ => {
                let k = g.s.range(1, 12) as usize;
                let b = g.s.bytes(k);
                g.string(&b);
            }
        }
    }
    let len = g.here() - from;
    g.items.push((n, seg, len));
}

/// Anything at all that can be assembled
pub(super) fn generate_any(s: &mut Src) -> (Want, Vec<asm::File>, Vec<&'static str>) {
    let mut facts = Vec::new();
    let mut g = Gen::new(s, "s.telda");
    let mut known: Vec<String> = Vec::new();
    let mut later: Vec<String> = (0..g.s.below(4)).map(|_| g.name()).collect();
    known.extend(later.iter().cloned());
    for _ in 0..g.s.below(3) {
        let n = g.name();
        if g.s.chance(1, 2) {
            g.reference(&n);
        } else {
            g.undefined(&n);
        }
        facts.push("undefined symbol");
        known.push(n);
    }
    let n = g.s.size(25, 120);
    let mut entry = false;
    let fresh = g.s.below(8) as u8;
    for _ in 0..n {
        if g.here_seg() == UNKNOWN || g.s.chance(1, 8) {
            let t = *g.s.pick(&[TEXT, TEXT, DATA, RODATA, HEAP]);
            g.segment(t);
        }
        match g.s.below(20) {
            0..=9 => {
                let shape = g.s.pick(&asm::SHAPES[..56]);
                let v: Vec<V> = shape
                    .args
                    .iter()
                    .map(|a| match a {
                        B | W => V::Reg(g.s.below(16) as u8),
                        Wn => V::Reg(g.s.range(1, 15) as u8),
                        J | K => V::Num(g.s.u8() as u16),
                        I if !known.is_empty() && g.s.chance(1, 2) => V::Label(g.s.pick(&known).clone()),
                        I => V::Num(number(g.s, fresh)),
                    })
                    .collect();
                // what may be left out is zero then
                let v = if shape.args == [K] && g.s.chance(1, 2) { Vec::new() } else { v };
                g.shaped(shape, &v);
            }
            10..=12 => {
                let n = g.name();
                if g.s.chance(1, 4) {
                    g.global(&n);
                }
                g.label(&n);
                known.push(n);
            }
            13 if !later.is_empty() => {
                let n = later.pop().unwrap();
                g.label(&n);
                if g.s.chance(1, 4) {
                    g.global(&n);
                }
            }
            14 if !entry => {
                entry = true;
                g.entry();
            }
            15 if g.s.chance(1, 3) => {
                if g.s.chance(1, 2) && g.include_again() {
                    facts.push("included again");
                } else if g.files_len() < 5 && g.depth() < 4 {
                    facts.push("included file");
                    let known = known.clone();
                    g.snippet(|g| {
                        for _ in 0..g.s.below(4) {
                            let t = *g.s.pick(&[TEXT, DATA, RODATA, HEAP]);
                            g.segment(t);
                            match g.s.below(4) {
                                0 => {
                                    let b = g.s.u8();
                                    g.byte(b);
                                }
                                1 => {
                                    let v = if !known.is_empty() && g.s.chance(1, 2) { V::Label(g.s.pick(&known).clone()) } else { V::Num(g.s.u16()) };
                                    g.wide(v);
                                }
                                2 => {
                                    let n = g.s.u16();
                                    let v = if known.is_empty() { V::Num(n) } else { V::Label(g.s.pick(&known).clone()) };
                                    g.ins("call", &[I], &[v]);
                                }
                                _ => {
                                    let k = g.s.below(20) as usize;
                                    let b = g.s.bytes(k);
                                    g.string(&b);
                                }
                            }
                        }
                    });
                }
            }
            15 if g.files_len() < 5 && g.depth() < 4 => {
                facts.push("included file");
                g.enter();
            }
            16 if g.depth() > 1 => g.leave(),
            17 => {
                let b = g.s.u8();
                g.byte(b);
            }
            18 => {
                let v = if !known.is_empty() && g.s.chance(1, 2) { V::Label(g.s.pick(&known).clone()) } else { V::Num(g.s.u16()) };
                g.wide(v);
            }
            _ => {
                let k = g.s.below(20) as usize;
                let b = g.s.bytes(k);
                g.string(&b);
            }
        }
    }
    if g.here_seg() == UNKNOWN {
        g.segment(TEXT);
    }
    for n in later {
        g.label(&n);
    }
    (finish(g), facts).flat()
}
trait Flat {
    fn flat(self) -> (Want, Vec<asm::File>, Vec<&'static str>);
}
impl Flat for ((Want, Vec<asm::File>), Vec<&'static str>) {
    fn flat(self) -> (Want, Vec<asm::File>, Vec<&'static str>) {
        (self.0 .0, self.0 .1, self.1)
    }
}
fn number(s: &mut Src, k: u8) -> u16 {
    match k {
        0 => s.below(256) as u16,
        _ if s.chance(1, 4) => *s.pick(&[0, 1, 0x7f, 0x80, 0xff, 0x100, 0x7fff, 0x8000, 0xffff, 10, 11]),
        _ => s.u16(),
    }
}
/// A label needs a segment it belongs to: one with bytes
fn finish(mut g: Gen) -> (Want, Vec<asm::File>) {
    let empty: Vec<u8> = [TEXT, DATA, RODATA, HEAP].into_iter().filter(|&t| g.used(t) && g.w.segs.get(&t).is_none_or(|p| p.bytes.is_empty())).collect();
    for t in empty {
        g.segment(t);
        g.byte(0);
    }
    (g.w, g.files)
}

struct Body {
    facts: Vec<&'static str>,
    funcs: Vec<String>,
    tables: Vec<(String, String)>,
    budget: u64,
}
const ALU: [&str; 8] = ["add", "sub", "and", "or", "xor", "shl", "asr", "lsr"];
const JUMPS: [&str; 15] = ["jez", "jlt", "jle", "jgt", "jge", "jnz", "jne", "jo", "jno", "ja", "jae", "jnc", "jb", "jc", "jbe"];

fn wide_to(g: &mut Gen, locked: &[u8]) -> u8 {
    loop {
        let r = *g.s.pick(&[1u8, 2, 3, 4, 5, 6, 7, 8, 9, 10, 0]);
        if !locked.contains(&r) {
            return r;
        }
    }
}
fn wide_from(g: &mut Gen) -> u8 {
    g.s.below(14) as u8
}
fn byte_to(g: &mut Gen, locked: &[u8]) -> u8 {
    loop {
        let r = g.s.below(16) as u8;
        let w = if r == 0 { 0 } else if r <= 10 { r.div_ceil(2) } else { r - 5 };
        if !locked.contains(&w) {
            return r;
        }
    }
}
fn print(g: &mut Gen) {
    if g.s.chance(1, 2) {
        g.ins("ldi", &[W, I], &[V::Reg(1), V::Num(4)]);
    } else {
        g.ins("ldi", &[B, J], &[V::Reg(2), V::Num(0)]);
        g.ins("ldi", &[B, J], &[V::Reg(1), V::Num(4)]);
    }
    g.ins("syscall", &[], &[]);
}

/// Some instructions that do something visible and go on behind them
fn body(g: &mut Gen, b: &mut Body, locked: &[u8], n: u64, depth: u32) {
    for _ in 0..n {
        if b.budget == 0 {
            return;
        }
        b.budget -= 1;
        match g.s.below(if depth > 3 { 9 } else { 17 }) {
            0 | 1 => {
                let name = *g.s.pick(&ALU);
                if g.s.chance(1, 2) {
                    let (d, x, y) = (wide_to(g, locked), wide_from(g), wide_from(g));
                    g.ins(name, &[W, W, W], &[V::Reg(d), V::Reg(x), V::Reg(y)]);
                } else {
                    let (d, x, y) = (byte_to(g, locked), g.s.below(16) as u8, g.s.below(16) as u8);
                    g.ins(name, &[B, B, B], &[V::Reg(d), V::Reg(x), V::Reg(y)]);
                }
            }
            2 => {
                if g.s.chance(1, 2) {
                    let d = wide_to(g, locked);
                    let v = number(g.s, 1);
                    g.ins("ldi", &[W, I], &[V::Reg(d), V::Num(v)]);
                } else {
                    let d = byte_to(g, locked);
                    let v = g.s.u8();
                    g.ins("ldi", &[B, J], &[V::Reg(d), V::Num(v as u16)]);
                }
            }
            3 => {
                let name = *g.s.pick(&["mul", "div"]);
                let args: [u8; 4] = if g.s.chance(1, 2) {
                    let x = wide_to(g, locked);
                    let y = if x == 0 { 1 } else { x };
                    if name == "div" && y > 0 && !locked.contains(&y) {
                        let v = g.s.range(1, 300) as u16;
                        g.ins("ldi", &[W, I], &[V::Reg(y), V::Num(v)]);
                    }
                    let a = [wide_to(g, locked), wide_to(g, locked), wide_from(g), y];
                    g.ins(name, &[W, W, W, W], &a.map(V::Reg));
                    a
                } else {
                    let y = byte_to(g, locked);
                    if name == "div" {
                        let v = g.s.range(1, 255) as u16;
                        g.ins("ldi", &[B, J], &[V::Reg(y), V::Num(v)]);
                    }
                    let a = [byte_to(g, locked), byte_to(g, locked), g.s.below(16) as u8, y];
                    g.ins(name, &[B, B, B, B], &a.map(V::Reg));
                    a
                };
                let _ = args;
            }
            4 | 5 => memory(g, b, locked),
            6 => {
                // there and back, in another size perhaps
                if g.s.chance(1, 2) {
                    let (x, y, z) = (wide_from(g), byte_to(g, locked), byte_to(g, locked));
                    g.ins("push", &[W], &[V::Reg(x)]);
                    g.ins("pop", &[B], &[V::Reg(y)]);
                    g.ins("pop", &[B], &[V::Reg(z)]);
                } else {
                    let (x, y, z) = (g.s.below(16) as u8, g.s.below(16) as u8, wide_to(g, locked));
                    g.ins("push", &[B], &[V::Reg(x)]);
                    g.ins("push", &[B], &[V::Reg(y)]);
                    g.ins("pop", &[W], &[V::Reg(z)]);
                }
            }
            7 => {
                if !locked.contains(&1) && !locked.contains(&2) {
                    let r = g.s.below(16) as u8;
                    g.ins("add", &[B, B, B], &[V::Reg(3), V::Reg(r), V::Reg(0)]);
                    print(g);
                }
            }
            8 => match g.s.below(8) {
                0 => g.ins("ctf", &[], &[]),
                1 if !locked.contains(&1) => {
                    g.ins("ldi", &[W, I], &[V::Reg(1), V::Num(3)]);
                    g.ins("syscall", &[], &[]);
                }
                _ => g.ins("nop", &[], &[]),
            },
            9 | 10 => {
                // over something, perhaps
                let l = g.name();
                let j = *g.s.pick(&JUMPS);
                let (x, y) = (wide_from(g), wide_from(g));
                let k = g.s.below(3);
                match k {
                    0 => g.ins("sub", &[W, W, W], &[V::Reg(0), V::Reg(x), V::Reg(y)]),
                    1 => g.ins("sub", &[B, B, B], &[V::Reg(0), V::Reg(x), V::Reg(y)]),
                    _ => (),
                }
                g.ins(j, &[I], &[V::Label(l.clone())]);
                let k = g.s.range(1, 3);
                body(g, b, locked, k, depth + 1);
                g.segment(TEXT);
                g.label(&l);
            }
            11 => {
                let l = g.name();
                let hole = g.s.bytes(3);
                match g.s.below(3) {
                    0 => g.ins("jmp", &[I], &[V::Label(l.clone())]),
                    1 => {
                        let r = wide_to(g, &[locked, &[0]].concat());
                        g.ins("ldi", &[W, I], &[V::Reg(r), V::Label(l.clone())]);
                        g.ins("jmp", &[Wn], &[V::Reg(r)]);
                        b.facts.push("jump through a register");
                    }
                    _ => {
                        let t = g.name();
                        let r = wide_to(g, &[locked, &[0]].concat());
                        g.ins("load", &[W, W, I], &[V::Reg(r), V::Reg(0), V::Label(t.clone())]);
                        g.ins("jmp", &[Wn], &[V::Reg(r)]);
                        b.tables.push((t, l.clone()));
                        b.facts.push("jump through a table");
                    }
                }
                if g.s.chance(1, 2) {
                    for x in hole {
                        g.byte(x);
                    }
                }
                g.label(&l);
            }
            12 if !b.funcs.is_empty() && depth < 90 => {
                let f = g.s.usize(b.funcs.len());
                let f = b.funcs[f].clone();
                call(g, &f);
                b.facts.push("call");
            }
            13 if depth == 0 || depth == 1 && locked.len() <= 2 => {
                let (count, one) = if locked.contains(&9) { (7, 8) } else { (9, 10) };
                if locked.contains(&count) {
                    continue;
                }
                let l = g.name();
                let k = g.s.range(1, 5);
                g.ins("ldi", &[W, I], &[V::Reg(count), V::Num(k as u16)]);
                g.ins("ldi", &[W, I], &[V::Reg(one), V::Num(1)]);
                g.label(&l);
                let k = g.s.range(1, 4);
                body(g, b, &[locked, &[count, one]].concat(), k, depth + 1);
                g.segment(TEXT);
                g.ins("sub", &[W, W, W], &[V::Reg(count), V::Reg(count), V::Reg(one)]);
                g.ins("jnz", &[I], &[V::Label(l)]);
                b.facts.push("loop");
            }
            14 if g.s.chance(1, 3) => {
                if g.s.chance(2, 3) && g.include_again() {
                    b.facts.push("included again");
                } else if g.depth() < 4 && g.files_len() < 5 {
                    b.facts.push("included file");
                    g.snippet(|g| {
                        g.segment(TEXT);
                        for _ in 0..g.s.below(3) {
                            let x = g.s.u8();
                            g.ins("ldi", &[B, J], &[V::Reg(3), V::Num(x as u16)]);
                            print(g);
                        }
                        if g.s.chance(1, 2) {
                            g.segment(DATA);
                            let b = g.s.u8();
                            g.byte(b);
                        }
                    });
                }
            }
            14 if g.depth() < 4 && g.files_len() < 5 => {
                b.facts.push("included file");
                g.enter();
                g.segment(TEXT);
                let k = g.s.range(1, 4);
                body(g, b, locked, k, depth + 1);
                g.leave();
            }
            15 => {
                let t = *g.s.pick(&[DATA, RODATA, HEAP]);
                item(g, t, &b.funcs.clone());
                g.segment(TEXT);
            }
            _ => print(g),
        }
    }
}
/// Arguments are removed by what is called
fn call(g: &mut Gen, f: &str) {
    if f.starts_with("two") {
        let r = wide_from(g);
        g.ins("push", &[W], &[V::Reg(r)]);
    }
    g.ins("call", &[I], &[V::Label(f.to_string())]);
}
fn memory(g: &mut Gen, b: &mut Body, locked: &[u8]) {
    let items: Vec<(String, u8, usize)> = g.items.iter().filter(|i| i.1 != TEXT && i.2 >= 2).cloned().collect();
    if items.is_empty() {
        return;
    }
    b.facts.push("data reached by label");
    let (l, seg, len) = g.s.pick(&items).clone();
    let wide = g.s.chance(1, 2);
    let off = g.s.below((len - wide as usize) as u64) as u16;
    // the address in three ways: the label as the offset, a register with an offset, two registers
    let way = g.s.below(3);
    let free = [locked, &[0]].concat();
    let base = wide_to(g, &free);
    let other = wide_to(g, &[&free[..], &[base]].concat());
    let store = seg != RODATA && g.s.chance(1, 2);
    match way {
        0 => g.ins("ldi", &[W, I], &[V::Reg(base), V::Num(off)]),
        1 => g.ins("ldi", &[W, I], &[V::Reg(base), V::Label(l.clone())]),
        _ => {
            g.ins("ldi", &[W, I], &[V::Reg(base), V::Label(l.clone())]);
            g.ins("ldi", &[W, I], &[V::Reg(other), V::Num(off)]);
        }
    }
    let imm = if way == 0 { V::Label(l) } else { V::Num(off) };
    let name = if store { *g.s.pick(&["store", "str"]) } else { "load" };
    match (store, wide, way) {
        (true, true, 2) => {
            let x = wide_from(g);
            g.ins(name, &[W, W, W], &[V::Reg(base), V::Reg(other), V::Reg(x)]);
        }
        (true, true, _) => {
            let x = wide_from(g);
            g.ins(name, &[W, I, W], &[V::Reg(base), imm, V::Reg(x)]);
        }
        (true, false, 2) => {
            let x = g.s.below(16) as u8;
            g.ins(name, &[W, W, B], &[V::Reg(base), V::Reg(other), V::Reg(x)]);
        }
        (true, false, _) => {
            let x = g.s.below(16) as u8;
            g.ins(name, &[W, I, B], &[V::Reg(base), imm, V::Reg(x)]);
        }
        (false, true, 2) => {
            let x = wide_to(g, locked);
            g.ins(name, &[W, W, W], &[V::Reg(x), V::Reg(base), V::Reg(other)]);
        }
        (false, true, _) => {
            let x = wide_to(g, locked);
            g.ins(name, &[W, W, I], &[V::Reg(x), V::Reg(base), imm]);
        }
        (false, false, 2) => {
            let x = byte_to(g, locked);
            g.ins(name, &[B, W, W], &[V::Reg(x), V::Reg(base), V::Reg(other)]);
        }
        (false, false, _) => {
            let x = byte_to(g, locked);
            g.ins(name, &[B, W, I], &[V::Reg(x), V::Reg(base), imm]);
        }
    }
}

/// A program that ends
pub(super) fn generate_program(s: &mut Src) -> (Want, Vec<asm::File>, Vec<&'static str>) {
    let mut g = Gen::new(s, "s.telda");
    let mut b = Body { facts: Vec::new(), funcs: Vec::new(), tables: Vec::new(), budget: 60 };
    for i in 0..g.s.below(4) {
        let n = format!("{}{i}", g.s.pick(&["f", "two"]));
        b.funcs.push(n);
    }
    for _ in 0..g.s.below(4) {
        let t = *g.s.pick(&[DATA, DATA, RODATA, HEAP]);
        item(&mut g, t, &b.funcs.clone());
    }
    g.segment(TEXT);
    if g.s.chance(1, 4) {
        // something in front of the beginning
        g.ins("null", &[], &[]);
    }
    let by_directive = g.s.chance(2, 3);
    if by_directive {
        g.entry();
    }
    if !by_directive || g.s.chance(1, 2) {
        g.label("start");
        g.global("start");
    }
    let mut regs: Vec<u8> = (1..=10).collect();
    g.s.shuffle(&mut regs);
    for r in regs {
        let v = number(g.s, 1);
        g.ins("ldi", &[W, I], &[V::Reg(r), V::Num(v)]);
    }
    g.ins("ldi", &[W, I], &[V::Reg(RL as u8), V::Num(0x1234)]);
    let n = g.s.size(12, 40);
    body(&mut g, &mut b, &[], n, 0);
    g.segment(TEXT);
    // everything it has come to
    let mut regs: Vec<u8> = (1..=10).collect();
    g.s.shuffle(&mut regs);
    for r in &regs {
        g.ins("push", &[W], &[V::Reg(*r)]);
    }
    for _ in 0..20 {
        g.ins("pop", &[B], &[V::Reg(3)]);
        g.ins("ldi", &[W, I], &[V::Reg(1), V::Num(4)]);
        g.ins("syscall", &[], &[]);
    }
    match g.s.below(12) {
        0 => g.ins("null", &[], &[]),
        1 => g.ins("div", &[W, W, W, W], &[V::Reg(1), V::Reg(2), V::Reg(3), V::Reg(0)]),
        2 => g.ins("reth", &[], &[]),
        3 => g.ins("push", &[W], &[V::Reg(15)]),
        4 => g.ins("load", &[W, W, I], &[V::Reg(1), V::Reg(0), V::Num(0xf000)]),
        5 => g.ins("jmp", &[I], &[V::Num(0xff80)]),
        6 => {
            g.ins("ldi", &[W, I], &[V::Reg(1), V::Num(99)]);
            g.ins("syscall", &[], &[]);
        }
        _ => g.ins("halt", &[], &[]),
    }
    let funcs = std::mem::take(&mut b.funcs);
    for (i, f) in funcs.iter().enumerate() {
        g.segment(TEXT);
        if g.s.chance(1, 4) {
            g.global(f);
        }
        g.label(f);
        // it may call those behind it
        b.funcs = funcs[i + 1..].to_vec();
        let saved = g.s.chance(1, 2);
        if saved {
            g.ins("push", &[W], &[V::Reg(RL as u8)]);
        } else {
            b.funcs.clear();
        }
        b.budget = b.budget.max(6);
        let n = g.s.range(1, 5);
        body(&mut g, &mut b, &[7, 8, 9, 10], n, 2);
        g.segment(TEXT);
        if saved {
            g.ins("pop", &[W], &[V::Reg(RL as u8)]);
        }
        if f.starts_with("two") {
            g.ins("ret", &[K], &[V::Num(2)]);
        } else if g.s.chance(1, 2) {
            g.ins("ret", &[K], &[]);
        } else {
            g.ins("ret", &[K], &[V::Num(0)]);
        }
    }
    for (t, l) in std::mem::take(&mut b.tables) {
        let seg = *g.s.pick(&[DATA, RODATA]);
        g.segment(seg);
        g.label(&t);
        g.wide(V::Label(l));
    }
    let (w, f) = finish(g);
    (w, f, b.facts)
}

// ---- sources with wrong lines ----

const WRONG: [&str; 62] = [
    "frobnicate r1", "frobnicate", "Add r1, r2, r3", "ldi", "ldi r1", "ldi 3, r1", "ldi r1l, 5w", "ldi r1, 5b", "ldi r1l, 'ab'", "ldi r1l, ''", "ldi r1l, '\\q'", "ldi r1l, r2l", "ldi r1, r2",
    ".bogus", ".bogus 3", ".Seg text", ".seg stack", ".seg", ".seg Text", ".string a\\q", ".string a\\", ".string \\x4", ".string \\xzz", ".byte zz", ".byte", ".byte 5w", ".wide 5b", ".wide 'a'",
    "add r1, r2", "add r1, r2, r3l", "add r1, r2, 3", "add", "sub r1l, r2, r3l", "xor r1", "push", "push r1, r2", "push 3", "pop 1", "pop", "halt r1", "nop 1", "syscall 4", "jmp r0", "jmp r1l", "jmp", "jump r1, r2",
    "call r1", "call", "call r1l", "jez", "jez r1", "jne r1l", "ret r1", "ret 1, 2", "ret 5w", "load r1, r2l, 3", "load r1", "store r1l, 0, r2", "store r1, 0", "mul r1, r2, r3", "div r1, r2, r3, r4l", "asr r1h, r2h, 1",
];

fn wrong(c: &mut Ctx, mut files: Vec<asm::File>) -> Res {
    // (file, line from 0) that must be named; text that must be in the message
    let mut marks: Vec<(usize, usize)> = Vec::new();
    let mut said: Vec<String> = Vec::new();
    let insert = |s: &mut Src, files: &mut Vec<asm::File>, marks: &mut Vec<(usize, usize)>, f: usize, from: usize, text: String, mark: bool| -> usize {
        let n = files[f].lines.len();
        let at = s.range(from.min(n) as u64, n as u64) as usize;
        files[f].lines.insert(at, text);
        marks.iter_mut().filter(|m| m.0 == f && m.1 >= at).for_each(|m| m.1 += 1);
        if mark {
            marks.push((f, at));
        }
        at
    };
    let n = c.src.range(1, 3);
    let mut kinds: BTreeMap<u64, ()> = BTreeMap::new();
    let mut no_segment = None;
    for k in 0..n {
        let f = c.src.usize(files.len());
        let s = &mut c.src;
        let kind = s.below(12);
        if kind < 6 && kinds.insert(kind, ()).is_some() {
            continue;
        }
        match kind {
            0 => {
                // the second of them is wrong
                let l = format!("twice{k}:");
                let at = insert(s, &mut files, &mut marks, f, 0, ".seg text".into(), false);
                let at = insert(s, &mut files, &mut marks, f, at + 1, l.clone(), false);
                insert(s, &mut files, &mut marks, f, at + 1, l, true);
            }
            1 => {
                let l = *s.pick(&["jmp nowhere", "call nowhere", ".wide nowhere", "ldi r4, nowhere", "store r1, nowhere, r2"]);
                let main = files[f].lines.len();
                insert(s, &mut files, &mut marks, f, main, l.into(), true);
            }
            2 => {
                let at = insert(s, &mut files, &mut marks, f, 0, ".seg text".into(), false);
                let at = insert(s, &mut files, &mut marks, f, at + 1, ".entry".into(), false);
                insert(s, &mut files, &mut marks, f, at + 1, ".entry".into(), true);
            }
            3 => no_segment = Some(*s.pick(&["nop", ".byte 1", "ldi r1, 2", ".string x", "early:", ".entry"])),
            4 => {
                insert(s, &mut files, &mut marks, f, 0, ".include missing.telda".into(), false);
                said.push("missing.telda: ".into());
            }
            5 => {
                let at = insert(s, &mut files, &mut marks, f, 0, ".seg text".into(), false);
                let at = insert(s, &mut files, &mut marks, f, at + 1, "defined_here:".into(), false);
                insert(s, &mut files, &mut marks, f, at, ".ref defined_here".into(), false);
                said.push("defined_here".into());
            }
            _ => {
                let l = (*s.pick(&WRONG)).to_string();
                insert(s, &mut files, &mut marks, f, 0, l, true);
            }
        }
    }
    if let Some(l) = no_segment {
        // in front of all others, as they can begin a segment
        files[0].lines.insert(0, l.into());
        marks.iter_mut().filter(|m| m.0 == 0).for_each(|m| m.1 += 1);
        marks.push((0, 0));
    }
    c.count("wrong source");
    put(c, &files);
    let plan = noise(&mut c.src);
    met(c, &plan);
    let o = c.run("tc", &["s.telda"], b"", &plan);
    ordinary("tc", &o)?;
    check!(!o.ok(), "accepted", "tc accepts a source with wrong lines: {}", marks.iter().map(|m| files[m.0].lines[m.1].clone()).collect::<Vec<_>>().join(" | "));
    check!(c.ps().get("s.to").is_none(), "accepted", "tc refuses the source and leaves an object file");
    for (f, l) in marks {
        let name = format!("{}:{}: ", files[f].shown, l + 1);
        check!(text_lines(&o.stderr).any(|x| x.starts_with(&name)), "message", "the message does not name {name}({}): {}", files[f].lines[l], String::from_utf8_lossy(&o.stderr));
        c.count("wrong: line named");
    }
    for x in said {
        check!(contains(&o.stderr, x.as_bytes()), "message", "the message does not name {x}: {}", String::from_utf8_lossy(&o.stderr));
    }
    Ok(())
}
fn text_lines(b: &[u8]) -> impl Iterator<Item = String> + '_ {
    b.split(|&x| x == b'\n').map(|l| String::from_utf8_lossy(l).into_owned())
}
