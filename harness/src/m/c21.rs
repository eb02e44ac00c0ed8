//! C21: what the tools that show programs show is what is there
use super::asm::{self, A::*};
use super::c20;
use super::load;
use super::lock;
use super::model::{P_R, P_U, P_W, P_X};
use crate::check;
use crate::common::{must_succeed, noise, noisy, ordinary, refs};
use crate::obj::*;
use crate::psim::text;
use crate::run::{fail, Ctx, Fail, Prop, Res};
use crate::src::{hash_bytes, Src};
use std::collections::{BTreeMap, BTreeSet};

pub const PROP: Prop = Prop {
    id: "C21",
    run,
    quick: 40_000,
    thorough: 2_000_000,
    level: "exploration",
    rule: "a run makes one to four object files or archives (assembled by tc from generated sources, linked by tl, stripped by tstrip, collected by tar, or written by the harness with segments and symbols anywhere, shared, overlapping, wrapping around), and shows them with tobjdump under random flags, with tdbg while stepping through, or has t -t name the point of termination or system call 0 list the pages of a program, while reads and writes are split, shortened and interrupted; every line shown is compared with the file as an independent reader reads it and an independent table of instructions decodes it: symbols, bytes, mnemonics, operands, names in place of addresses, relocations, pages and their rights; every instruction that can be reached from the entry point and the symbols asked for has to be shown; non-trivial: transfers were split or interrupted; distinct by the sequence of calls, faults and results and by what was shown",
    real: "the shipped tobjdump, tdbg, t, tc, tl, tar and tstrip with the whole library below them, unmodified, built from /repo's working tree",
    stub: crate::common::STUB,
    assumptions: &["the reader of files (harness/src/obj.rs) and the table of instructions (harness/src/m/asm.rs) written a second time are right"],
    probes: &[
        "instruction shown", "name in place of address", "number shown", "relocation shown", "symbol shown", "block: data", "block: unmapped", "block shown before", "nameless label", "entry label", "archive member", "several files", "from given symbols", "given symbol not there", "undefined opcode",
        "linked", "stripped", "debugger: instruction shown", "debugger: label shown", "debugger: entry given", "debugger: given symbol not there", "termination point", "termination: label", "noise met", "after the last page", "shown again", "map shown",
    ],
};

fn met(c: &mut Ctx, p: &crate::psim::Plan) {
    if noisy(p) {
        c.nontrivial = true;
        c.count("noise met");
    }
}

/// Runs a tool that has to succeed
fn tool(c: &mut Ctx, tool: &str, args: &[&str], stdin: &[u8]) -> Result<crate::psim::Outcome, Fail> {
    let plan = noise(&mut c.src);
    met(c, &plan);
    let o = c.run(tool, args, stdin, &plan);
    must_succeed(tool, &o)?;
    Ok(o)
}

fn run(c: &mut Ctx) -> Res {
    match c.src.below(9) {
        8 => mapped(c),
        0 | 1 => {
            let linked = c.src.chance(7, 8);
            program(c, linked)?;
            debugger(c)
        }
        2 => {
            program(c, true)?;
            termination(c)
        }
        _ => dump(c),
    }
}

fn object(c: &mut Ctx, name: &str) -> Result<Obj, Fail> {
    let Some(b) = c.ps().get(name) else { return fail("object", format!("{name} should have been made")) };
    match decode(&b, 0) {
        Some((o, _)) => Ok(o),
        None => fail("object", format!("{name} should be an object file: {}", hex(&b))),
    }
}

// ---- inputs ----

/// A program at prog
fn program(c: &mut Ctx, linked: bool) -> Res {
    let (want, files, _) = c20::generate_program(&mut c.src);
    c20::put(c, &files);
    tool(c, "tc", &["s.telda"], b"")?;
    if !linked {
        // something without an entry point cannot be started, but shown
        let b = c.ps().get("s.to").unwrap_or_default();
        c.ps().put("prog", &b, 0o644);
        return Ok(());
    }
    let mut args = vec!["s.to", "-e", "-o", "prog"];
    let name = want.globals.iter().find(|g| g.starts_with("start")).cloned().unwrap_or_default();
    if want.entry.is_none() || !name.is_empty() && c.src.chance(1, 4) {
        args.extend(["-E", &name]);
    }
    if c.src.chance(1, 3) {
        args.extend(["-A", *c.src.pick(&["1", "2", "16", "64", "128", "256", "1024"])]);
    }
    if c.src.chance(1, 4) {
        args.push("-S");
        c.count("stripped");
    }
    tool(c, "tl", &args, b"")?;
    if c.src.chance(1, 8) {
        tool(c, "tstrip", &["prog"], b"")?;
        c.count("stripped");
    }
    c.count("linked");
    Ok(())
}

/// An object with symbols anywhere
fn strange(s: &mut Src) -> Obj {
    let mut o = load::gen_loadable(s);
    if s.chance(1, 12) {
        // around the end of memory
        let n = s.range(1, 60) as usize;
        let m = s.range(1, 60) as usize;
        let text = s.bytes(n);
        let other = s.bytes(m);
        o.segs = vec![(TEXT, (0x1_0000 - n) as u16, text), (*s.pick(&[ZERO, UNKNOWN]), 0, other)];
        o.segs.sort_by_key(|x| x.0);
        o.entry = s.chance(1, 2).then_some((TEXT, (0x1_0000 - s.range(1, n as u64) as usize) as u16));
    }
    // more instructions than noise would be
    for g in o.segs.iter_mut() {
        if g.2.is_empty() || s.chance(1, 4) {
            continue;
        }
        let mut i = s.below(8) as usize;
        while i < g.2.len() && i < 600 {
            let shape = s.pick(&asm::SHAPES[..56]);
            let mut b = vec![shape.op];
            b.extend(s.bytes(length(shape.op) - 1));
            if shape.args.contains(&I) && s.chance(1, 2) {
                // in the neighbourhood
                let to = g.1.wrapping_add(s.below(g.2.len() as u64 + 4) as u16);
                let n = b.len();
                b[n - 2..].copy_from_slice(&to.to_le_bytes());
            }
            if shape.op == 0x40 && s.chance(7, 8) {
                b[1] = b[1] & 0xf0 | s.below(2) as u8;
            }
            for x in b {
                if i < g.2.len() {
                    g.2[i] = x;
                }
                i += 1;
            }
        }
    }
    let mut places: Vec<u16> = vec![0, 0x7f, 0x80, 0xff7f, 0xff80, 0xfffd, 0xffff];
    for g in &o.segs {
        for i in 0..g.2.len().min(700) {
            let at = g.1.wrapping_add(i as u16);
            places.push(at);
            if let Some(w) = g.2.get(i + 1..i + 3) {
                places.push(u16::from_le_bytes([w[0], w[1]]));
            }
        }
        places.push(g.1.wrapping_add(g.2.len() as u16));
        places.push(g.1.wrapping_add(g.2.len() as u16).wrapping_sub(2));
    }
    for _ in 0..s.size(8, 60) {
        let global = s.chance(1, 2);
        let name = match s.below(6) {
            0 if !global => vec![],
            _ => gen_name(s),
        };
        let loc = if s.chance(1, 8) { s.u16() } else { *s.pick(&places) };
        o.syms.push(Sym { name, global, seg: *s.pick(&STYPES), loc });
    }
    for _ in 0..s.size(6, 40) {
        let n = o.syms.len() as u64;
        let i = if s.chance(1, 10) { s.u16() } else { s.below(n + 1) as u16 };
        let at = *s.pick(&places);
        o.relocs.push((*s.pick(&STYPES), at, i));
        if s.chance(1, 4) {
            // several in one instruction
            for k in 1..=s.range(1, 3) as u16 {
                o.relocs.push((*s.pick(&STYPES), at.wrapping_add(k), s.below(n + 1) as u16));
            }
        }
    }
    o
}

/// Files to look at: name as the tool gives it, and what is in it
fn inputs(c: &mut Ctx) -> Result<(Vec<String>, Vec<(String, Obj)>), Fail> {
    let n = if c.src.chance(1, 2) { 1 } else { c.src.range(1, 4) };
    let mut args: Vec<String> = Vec::new();
    let mut all = Vec::new();
    for i in 0..n {
        let made = format!("{}{i}.to", c.src.pick(&["a", "obj", "x.y"]));
        match c.src.below(5) {
            0 => {
                let (_, files, _) = c20::generate_any(&mut c.src);
                c20::put(c, &files);
                tool(c, "tc", &["s.telda"], b"")?;
                let b = c.ps().get("s.to").unwrap_or_default();
                c.ps().put(&made, &b, 0o644);
            }
            1 => {
                let linked = c.src.chance(1, 2);
                program(c, linked)?;
                let b = c.ps().get("prog").unwrap_or_default();
                c.ps().put(&made, &b, 0o644);
            }
            _ => {
                let o = strange(&mut c.src);
                if !o.fits() {
                    continue;
                }
                let mut b = if c.src.chance(1, 4) { gen_leading(&mut c.src) } else { Vec::new() };
                b.extend(o.encode());
                c.ps().put(&made, &b, 0o644);
                if c.noting() {
                    c.note(|| format!("{made}: entry {:04x?}, segments {:04x?}, symbols {:?}", o.entry, o.segs.iter().map(|s| (s.0, s.1, s.2.len())).collect::<Vec<_>>(), o.syms.iter().map(|s| format!("{:04x} {}", s.loc, String::from_utf8_lossy(&s.name))).collect::<Vec<_>>()));
                }
            }
        }
        if !args.contains(&made) {
            args.push(made);
        }
    }
    if !args.is_empty() && c.src.chance(1, 4) {
        let k = c.src.range(1, args.len() as u64) as usize;
        let members: Vec<String> = args.drain(..k).collect();
        let mut a = vec!["-o".to_string(), "lib.a".into()];
        a.extend(members.iter().cloned());
        tool(c, "tar", &refs(&a), b"")?;
        for (i, m) in members.iter().enumerate() {
            all.push((format!("lib.a.{}", i + 1), object(c, m)?));
            c.count("archive member");
        }
        args.insert(0, "lib.a".into());
    }
    for a in &args {
        if a != "lib.a" {
            all.push((a.clone(), object(c, a)?));
        }
    }
    if args.len() > 1 {
        c.count("several files");
    }
    Ok((args, all))
}

// ---- what there is ----

/// How many bytes an instruction has
fn length(op: u8) -> usize {
    let Some(s) = asm::SHAPES.iter().find(|s| s.op == op) else { return 1 };
    // of the jumps and ldi, any will do
    let regs = s.args.iter().filter(|a| matches!(a, B | W | Wn)).count();
    1 + regs.div_ceil(2) + if s.args.contains(&I) { 2 } else { 0 } + s.args.iter().filter(|a| matches!(a, J | K)).count()
}

/// Does what follows it belong to something else?
fn ends(op: u8, b: &[u8]) -> bool {
    match op {
        0x40 => b[1] & 15 == 1,
        0 | 0x0a | 0x0d | 0x26 => true,
        _ => !asm::SHAPES.iter().any(|s| s.op == op && !s.names.is_empty()),
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Byte {
    /// can be executed
    Code(u8),
    /// is there, and cannot
    Data,
    Unmapped,
    /// the file does not say
    Unknown,
}

/// An object as it is in memory
struct Image<'a> {
    o: &'a Obj,
    g: load::Grant,
    names: BTreeMap<u16, Vec<String>>,
    nameless: bool,
    running: bool,
}
impl<'a> Image<'a> {
    /// `dump`: with the names tobjdump has for the entry point and nameless symbols
    fn new(o: &'a Obj, dump: bool) -> Self {
        let mut names: BTreeMap<u16, Vec<String>> = BTreeMap::new();
        for (i, s) in o.syms.iter().enumerate() {
            if !s.name.is_empty() {
                names.entry(s.loc).or_default().push(String::from_utf8_lossy(&s.name).into_owned());
            } else if dump {
                names.entry(s.loc).or_default().push(format!("@L{i}"));
            }
        }
        if dump {
            if let Some(e) = o.entry {
                names.entry(e.1).or_default().push(".entry".into());
            }
        }
        Image { g: load::grant(o), o, names, nameless: o.syms.iter().any(|s| s.name.is_empty()), running: !dump }
    }
    fn byte(&self, at: u16) -> Byte {
        let page = at as usize >> 7;
        let sure = self.g.pages[page];
        let maybe = self.g.maybe[page];
        match (sure, maybe) {
            (None, None) => Byte::Unmapped,
            (None, Some(_)) => Byte::Unknown,
            (Some(p), m) if p & P_X == 0 && m.is_none_or(|m| m & P_X == 0) => Byte::Data,
            (Some(p), _) if p & P_X == 0 => Byte::Unknown,
            // the program may have changed it
            (Some(p), m) if self.running && (p | m.unwrap_or(0)) & P_W != 0 => Byte::Unknown,
            _ => match self.g.bytes.get(&at) {
                None => Byte::Code(0),
                Some(Some(b)) => Byte::Code(*b),
                Some(None) => Byte::Unknown,
            },
        }
    }
    /// The instruction at an address; or why there is none
    fn fetch(&self, at: u16) -> Result<Vec<u8>, Byte> {
        let mut b = Vec::new();
        let mut n = 1;
        while b.len() < n {
            match self.byte(at.wrapping_add(b.len() as u16)) {
                Byte::Code(x) => b.push(x),
                other => return Err(other),
            }
            n = length(b[0]);
        }
        Ok(b)
    }
    /// The address of the operand that may be shown by name
    fn operand(&self, b: &[u8]) -> Option<u16> {
        let s = asm::SHAPES.iter().find(|s| s.op == b[0])?;
        if b[0] == 0x40 && (b[1] & 15 > 1 || b[1] & 15 == 1 && b[1] >> 4 != 0) {
            return None;
        }
        s.args.contains(&I).then(|| u16::from_le_bytes([b[b.len() - 2], b[b.len() - 1]]))
    }
    /// Everything that can be reached from here
    fn reachable(&self, from: impl Iterator<Item = u16>) -> BTreeSet<u16> {
        let mut seen = BTreeSet::new();
        let mut todo: Vec<u16> = from.collect();
        while let Some(at) = todo.pop() {
            let Ok(b) = self.fetch(at) else { continue };
            if !seen.insert(at) {
                continue;
            }
            if let Some(w) = self.operand(&b) {
                if self.names.contains_key(&w) {
                    todo.push(w);
                }
            }
            if !ends(b[0], &b) && at as usize + b.len() < 0x1_0000 {
                todo.push(at + b.len() as u16);
            }
        }
        seen
    }
    /// One line of disassembly; returns where it is and what is behind it
    fn line(&self, c: &mut Ctx, l: &str) -> Result<(u16, u16), Fail> {
        let Some((at, rest)) = address(l) else { return fail("listing", format!("not understood: {l:?}")) };
        let b = match self.fetch(at) {
            Ok(b) => b,
            // nobody knows
            Err(Byte::Unknown) => return Ok((at, at)),
            Err(what) => return fail("listing", format!("an instruction is shown where there is {what:?}: {l:?}")),
        };
        let mut t = rest.split_whitespace();
        for (i, x) in b.iter().enumerate() {
            let shown = t.next().unwrap_or("nothing");
            check!(shown.len() == 2 && u8::from_str_radix(shown, 16) == Ok(*x), "bytes", "at {at:04x} there is {}, byte {i} is shown as {shown}: {l:?}", hex(&b));
        }
        // no more than that
        let t: Vec<&str> = t.collect();
        let text = t.join(" ");
        self.text(c, at, &b, &text).map_err(|e| Fail { class: e.class, msg: format!("{}: {l:?}", e.msg) })?;
        Ok((at, at.wrapping_add(b.len() as u16)))
    }
    fn text(&self, c: &mut Ctx, at: u16, b: &[u8], text: &str) -> Res {
        let op = b[0];
        if op == 0x40 && b[1] & 15 > 1 {
            return Ok(());
        }
        let shape = asm::SHAPES.iter().find(|s| s.op == op && !s.names.is_empty() && (op != 0x40 || (s.opt == 1) == (b[1] & 15 == 1) && (s.opt == 0 || s.args.contains(&I) == (b[1] >> 4 == 0))));
        let Some(shape) = shape else {
            c.count("undefined opcode");
            check!(num(text) == Some(op as i64), "text", "the undefined opcode {op:02x} at {at:04x} is shown as {text:?}");
            return Ok(());
        };
        let (name, rest) = text.split_once(' ').unwrap_or((text, ""));
        check!(shape.names.contains(&name), "text", "{} at {at:04x} is {}, and shown as {text:?}", hex(b), shape.names[0]);
        let ops: Vec<&str> = if rest.is_empty() { Vec::new() } else { rest.split(',').map(|x| x.trim()).collect() };
        check!(ops.len() == shape.args.len(), "text", "{} at {at:04x} has {} operands, and is shown as {text:?}", hex(b), shape.args.len());
        let mut reg = (1..).flat_map(|i| [(i, 4), (i, 0)]);
        for (k, (a, o)) in shape.args.iter().zip(ops).enumerate() {
            match a {
                B | W | Wn => {
                    let (i, sh) = reg.next().unwrap();
                    let r = (b[i] >> sh & 15) as usize;
                    let want = if *a == B { asm::BREGS[r] } else { asm::WREGS[r] };
                    check!(o == want, "text", "operand {k} of {} at {at:04x} is {want}, and shown as {o:?}", hex(b));
                }
                J | K => {
                    let want = b[b.len() - 1];
                    check!(num(o).map(|n| n as u8) == Some(want) && num(o).is_some_and(|n| (-128..256).contains(&n)), "text", "operand {k} of {} at {at:04x} is {want:02x}, and shown as {o:?}", hex(b));
                }
                I => {
                    let want = u16::from_le_bytes([b[b.len() - 2], b[b.len() - 1]]);
                    match self.names.get(&want) {
                        Some(names) => {
                            check!(names.iter().any(|n| n == o), "text", "operand {k} of {} at {at:04x} is {want:04x}, where there is {names:?}, and shown as {o:?}", hex(b));
                            c.count("name in place of address");
                        }
                        None => {
                            check!(num(o).map(|n| n as u16) == Some(want) && num(o).is_some_and(|n| (-0x8000..0x1_0000).contains(&n)), "text", "operand {k} of {} at {at:04x} is {want:04x}, and shown as {o:?}", hex(b));
                            c.count("number shown");
                        }
                    }
                }
            }
        }
        Ok(())
    }
}

fn num(t: &str) -> Option<i64> {
    match t.strip_prefix("0x") {
        Some(h) => i64::from_str_radix(h, 16).ok(),
        None => t.parse().ok(),
    }
}

/// `  0080:  20 ...`
fn address(l: &str) -> Option<(u16, &str)> {
    let (a, rest) = l.strip_prefix("  ")?.split_once(':')?;
    if a.len() != 4 {
        return None;
    }
    Some((u16::from_str_radix(a, 16).ok()?, rest))
}

// ---- tobjdump ----

fn dump(c: &mut Ctx) -> Res {
    let (mut args, all) = inputs(c)?;
    if args.is_empty() {
        return Ok(());
    }
    let (syms, code) = *c.src.pick(&[(true, false), (false, true), (true, true), (false, true)]);
    let relocs = code && c.src.chance(1, 2);
    let mut from: Option<Vec<String>> = None;
    let mut lacking: Vec<bool> = Vec::new();
    if syms {
        args.push(c.src.pick(&["-t", "--syms"]).to_string());
    }
    if code {
        args.push(c.src.pick(&["-d", "--disassemble"]).to_string());
        if relocs {
            args.push(c.src.pick(&["-R", "--show-relocations"]).to_string());
        }
        if c.src.chance(1, 3) {
            // names every one of them has, once
            let once = |o: &Obj| -> BTreeSet<String> {
                let all: Vec<String> = o.syms.iter().map(|s| String::from_utf8_lossy(&s.name).into_owned()).collect();
                all.iter().filter(|n| !n.is_empty() && all.iter().filter(|m| m == n).count() == 1).cloned().collect()
            };
            let mut names: Vec<String> = all.iter().map(|(_, o)| once(o)).reduce(|a, b| &a & &b).unwrap_or_default().into_iter().collect();
            if !names.is_empty() {
                c.src.shuffle(&mut names);
                let k = c.src.range(1, names.len().min(4) as u64) as usize;
                names.truncate(k);
                args.push(format!("-D{}", names.join(*c.src.pick(&[",", ", "]))));
                from = Some(names);
                c.count("from given symbols");
            }
        } else if c.src.chance(1, 16) {
            // a name that some of them do not have
            let some = c.src.pick(&all).1.clone();
            let name = match some.syms.first() {
                Some(s) if c.src.chance(1, 2) => String::from_utf8_lossy(&s.name).into_owned(),
                _ => "of_none".to_string(),
            };
            let plain = !name.is_empty() && !name.contains(',') && name.trim() == name;
            // once in those that have it
            let at_most_once = all.iter().all(|(_, o)| o.syms.iter().filter(|s| s.name == name.as_bytes()).count() < 2);
            if plain && at_most_once {
                args.push(format!("-D{name}"));
                lacking = all.iter().map(|(_, o)| !o.syms.iter().any(|s| s.name == name.as_bytes())).collect();
                from = Some(vec![name]);
            }
        }
    }
    let refuses = lacking.contains(&true);
    let o = if refuses {
        c.count("given symbol not there");
        let plan = noise(&mut c.src);
        met(c, &plan);
        let o = c.run("tobjdump", &refs(&args), b"", &plan);
        ordinary("tobjdump", &o)?;
        let name = &from.as_ref().unwrap()[0];
        check!(!o.ok(), "start symbol", "tobjdump exits with success although there is no symbol {name:?}");
        check!(String::from_utf8_lossy(&o.stderr).contains(name.as_str()), "start symbol", "tobjdump does not say that there is no symbol {name:?}, but {:?}", String::from_utf8_lossy(&o.stderr));
        o
    } else {
        tool(c, "tobjdump", &refs(&args), b"")?
    };
    c.mark(hash_bytes(1, &o.stdout));
    if c.src.chance(1, 6) {
        let plan = noise(&mut c.src);
        met(c, &plan);
        let again = c.run("tobjdump", &refs(&args), b"", &plan);
        check!(again.code == o.code && again.stdout == o.stdout, "another listing", "tobjdump {} shows something else when asked again: {}", args.join(" "), crate::common::diff(&again.stdout, &o.stdout));
        c.count("shown again");
    }
    let Ok(out) = String::from_utf8(o.stdout.clone()) else { return fail("listing", "tobjdump prints something that is no UTF-8") };
    let mut lines = out.lines().peekable();
    for (i, (name, o)) in all.iter().enumerate() {
        let head = format!("{name}:");
        let l = lines.next();
        check!(l == Some(&head), "listing", "the listing of {name} begins with {l:?}");
        let next = all.get(i + 1).map(|x| format!("{}:", x.0));
        let mut mine = Vec::new();
        while let Some(l) = lines.peek() {
            if Some(*l) == next.as_deref() {
                break;
            }
            mine.push(lines.next().unwrap());
        }
        let mut mine = mine.into_iter().filter(|l| !l.is_empty()).collect::<Vec<_>>().into_iter().peekable();
        let within = |f: Fail| Fail { class: f.class, msg: format!("in the listing of {name}: {}", f.msg) };
        if syms {
            symbols(c, o, &mut mine).map_err(within)?;
        }
        if lacking.get(i) == Some(&true) {
            // nothing to begin with
            if mine.peek() == Some(&"disassembly:") {
                mine.next();
            }
        } else if code {
            let l = mine.next();
            check!(l == Some("disassembly:"), "listing", "the disassembly of {name} begins with {l:?}");
            listing(c, o, &mut mine, relocs, from.as_deref()).map_err(within)?;
        }
        let l = mine.next();
        check!(l.is_none(), "listing", "the listing of {name} goes on with {l:?}");
    }
    Ok(())
}

type Lines<'a> = std::iter::Peekable<std::vec::IntoIter<&'a str>>;

fn symbols(c: &mut Ctx, o: &Obj, lines: &mut Lines) -> Res {
    let mut want: Vec<(bool, String, u16, u8)> = o.syms.iter().map(|s| (s.global, String::from_utf8_lossy(&s.name).into_owned(), s.loc, s.seg)).collect();
    if want.is_empty() {
        if lines.peek() == Some(&"_syms:") {
            lines.next();
        }
        return Ok(());
    }
    let l = lines.next();
    check!(l == Some("_syms:"), "listing", "the symbols begin with {l:?}");
    let mut got = Vec::new();
    for _ in 0..want.len() {
        let Some(l) = lines.next() else { return fail("symbols", format!("{} of {} symbols are shown", got.len(), want.len())) };
        let (global, rest) = match (l.strip_prefix("  GLOBAL  "), l.strip_prefix("  local   ")) {
            (Some(r), _) => (true, r),
            (_, Some(r)) => (false, r),
            _ => return fail("symbols", format!("{} of {} symbols are shown, then {l:?}", got.len(), want.len())),
        };
        let parsed = rest.rsplit_once(" = ").and_then(|(name, v)| {
            let (loc, seg) = if let Some(v) = v.strip_prefix("UNDEFINED (") {
                (v.strip_suffix(')')?, UNKNOWN)
            } else {
                let (v, s) = v.split_once(" in ")?;
                let seg = match s {
                    "text" => TEXT,
                    "data" => DATA,
                    "rodata" => RODATA,
                    "heap" => HEAP,
                    "zero" => ZERO,
                    _ => return None,
                };
                (v, seg)
            };
            Some((global, name.trim_end().to_string(), num(loc)? as u16, seg))
        });
        let Some(p) = parsed else { return fail("symbols", format!("not understood: {l:?}")) };
        c.count("symbol shown");
        got.push(p);
    }
    want.sort();
    got.sort();
    if want != got {
        let (a, b) = (got.iter().find(|x| !want.contains(x)), want.iter().find(|x| !got.contains(x)));
        return fail("symbols", format!("the symbol {a:?} is shown in place of {b:?} (global, name, address, segment)"));
    }
    Ok(())
}

fn listing(c: &mut Ctx, o: &Obj, lines: &mut Lines, relocs: bool, from: Option<&[String]>) -> Res {
    let im = Image::new(o, true);
    // where the next line has to be, one of: known by the line before or by the name
    let mut label: Option<Vec<u16>> = None;
    let mut follows: Option<u16> = None;
    // the same, behind the end of memory
    let mut around: Option<u16> = None;
    // nobody knows what is behind it
    let mut lax = false;
    let mut shown = BTreeSet::new();
    let mut blocks = BTreeSet::new();
    let mut fixed: BTreeMap<u16, usize> = BTreeMap::new();
    for r in &o.relocs {
        *fixed.entry(r.1).or_default() += 1;
    }
    let name_of = |i: u16| match o.syms.get(i as usize) {
        Some(s) if !s.name.is_empty() => String::from_utf8_lossy(&s.name).into_owned(),
        _ if i as usize == o.syms.len() && o.entry.is_some() => ".entry".into(),
        _ => format!("@L{i}"),
    };
    let mut pending: Vec<(u16, String)> = Vec::new();
    for l in lines.by_ref() {
        if let Some(name) = l.strip_prefix('<').and_then(|l| l.strip_suffix(">:")) {
            let mut at: Vec<u16> = im.names.iter().filter(|(_, n)| n.iter().any(|n| n == name)).map(|x| *x.0).collect();
            check!(!at.is_empty(), "label", "there is no {name:?}: {l:?}");
            if name == ".entry" {
                c.count("entry label");
            }
            if im.nameless && name.starts_with("@L") {
                c.count("nameless label");
            }
            if let Some(f) = follows {
                if at.contains(&f) {
                    at = vec![f];
                }
                // otherwise a block of its own
            }
            blocks.extend(at.iter().copied());
            label = Some(at);
            follows = None;
            around = None;
            lax = false;
        } else if let Some(name) = l.strip_prefix('<').and_then(|l| l.strip_suffix("> ...")) {
            c.count("block shown before");
            let at = follows.or(around).unwrap_or_default();
            let known = im.names.values().any(|n| n.iter().any(|n| n == name));
            check!(lax && known || (follows.is_some() || around.is_some()) && im.names.get(&at).is_some_and(|n| n.iter().any(|n| n == name)), "label", "behind {at:04x} there is {:?}, and shown is {l:?}", im.names.get(&at));
            follows = None;
            label = None;
        } else if let Some(r) = l.strip_prefix("    RELOC: ") {
            let Some((name, at)) = r.rsplit_once(" @ ") else { return fail("relocation", format!("not understood: {l:?}")) };
            let at = num(at).unwrap_or(-1);
            let name = name.strip_suffix(" (no such symbol)").unwrap_or(name);
            let ok = o.relocs.iter().any(|r| r.1 as i64 == at && name_of(r.2) == name);
            check!(ok, "relocation", "there is no such relocation: {l:?}");
            pending.push((at as u16, name.into()));
        } else if matches!(l, "  data" | "  unmapped data" | "  ERROR!") {
            let at: Vec<u16> = follows.take().into_iter().chain(label.take().into_iter().flatten()).collect();
            c.count(if l == "  data" { "block: data" } else { "block: unmapped" });
            // which of them it is depends on the pages around it
            let ok = at.iter().any(|&a| im.fetch(a).is_err());
            check!(ok || lax, "listing", "{l:?} is shown for {}", at.iter().map(|&a| format!("{a:04x}: {:02x?}", im.fetch(a))).collect::<Vec<_>>().join(", "));
        } else {
            let (at, next) = im.line(c, l)?;
            c.count("instruction shown");
            if let Some(a) = label.take() {
                check!(a.contains(&at), "label", "the label is at {a:04x?}, and shown before {l:?}");
            }
            if let Some(f) = follows {
                check!(f == at, "listing", "{f:04x} should follow, and shown is {l:?}");
            }
            if relocs {
                for (&a, _) in fixed.iter().filter(|(a, n)| **n == 1 && **a >= at && **a < next) {
                    check!(pending.iter().any(|p| p.0 == a), "relocation", "the relocation at {a:04x} is not shown: {l:?}");
                    c.count("relocation shown");
                }
            }
            for p in pending.drain(..) {
                check!(at == next || next < at || p.0 >= at && p.0 < next, "relocation", "a relocation at {:04x} is shown before {l:?}", p.0);
            }
            if next < at {
                c.count("after the last page");
            }
            shown.insert(at);
            follows = (next > at && !im.fetch(at).is_ok_and(|b| ends(b[0], &b))).then_some(next);
            around = (next < at).then_some(next);
            lax |= next == at;
        }
    }
    // everything there is to see
    let starts: Vec<u16> = match from {
        None => o.entry.iter().map(|e| e.1).chain(o.syms.iter().filter(|s| s.global).map(|s| s.loc)).collect(),
        Some(names) => o.syms.iter().filter(|s| names.iter().any(|n| n.as_bytes() == s.name)).map(|s| s.loc).collect(),
    };
    for s in &starts {
        check!(blocks.contains(s), "label", "the disassembly from {s:04x} {:?} is not shown", im.names.get(s));
    }
    let must = im.reachable(starts.into_iter());
    if let Some(m) = must.iter().find(|m| !shown.contains(m)) {
        return fail("missing", format!("the instruction at {m:04x} ({}) can be reached and is not shown", im.fetch(*m).map_or("?".into(), |b| hex(&b))));
    }
    Ok(())
}

// ---- tdbg ----

fn debugger(c: &mut Ctx) -> Res {
    let o = object(c, "prog")?;
    let im = Image::new(&o, false);
    let mut args = vec!["prog".to_string()];
    let mut start = o.entry.map(|e| e.1);
    if c.src.chance(1, 4) || start.is_none() {
        let once: Vec<&Sym> = o.syms.iter().filter(|s| !s.name.is_empty() && !s.name.starts_with(b"0x") && s.seg == TEXT && o.syms.iter().filter(|t| t.name == s.name).count() == 1).collect();
        if !once.is_empty() {
            let s = *c.src.pick(&once);
            let n = if c.src.chance(1, 2) { format!("0x{:x}", s.loc) } else { String::from_utf8_lossy(&s.name).into_owned() };
            args.extend(["-E".into(), n]);
            start = Some(s.loc);
            c.count("debugger: entry given");
        }
    }
    if c.src.chance(1, 12) {
        let near = c.src.pick(&o.syms.iter().map(|s| String::from_utf8_lossy(&s.name).into_owned()).chain(["absent".into()]).collect::<Vec<_>>()).clone();
        let name = match c.src.below(4) {
            0 => near + "x",
            1 => near.chars().skip(1).collect(),
            2 => near.to_uppercase(),
            _ => "absent".into(),
        };
        if !name.is_empty() && !name.starts_with("0x") && !name.starts_with('-') && !o.syms.iter().any(|s| s.name == name.as_bytes()) {
            let plan = noise(&mut c.src);
            met(c, &plan);
            let flag = *c.src.pick(&["-E", "--entry"]);
            let out = c.run("tdbg", &["prog", flag, &name], b"si\nq\n", &plan);
            ordinary("tdbg", &out)?;
            check!(!out.ok() && !out.stderr.is_empty(), "given symbol", "there is no {name:?} to begin at, and tdbg ends with {} {}", out.status(), text(&out.stderr));
            check!(!String::from_utf8_lossy(&out.stdout).split('\n').any(|l| address(l).is_some()), "given symbol", "there is no {name:?} to begin at, and tdbg begins elsewhere: {}", text(&out.stdout));
            c.count("debugger: given symbol not there");
            return Ok(());
        }
    }
    let Some(start) = start else { return Ok(()) };
    let mut cmds = String::new();
    for _ in 0..c.src.size(30, 400) {
        // one instruction each, so that it ends
        cmds += c.src.pick(&["si\n", "stepin\n", "in\n"]);
    }
    let plan = noise(&mut c.src);
    met(c, &plan);
    let out = c.run("tdbg", &refs(&args), cmds.as_bytes(), &plan);
    ordinary("tdbg", &out)?;
    c.mark(hash_bytes(2, &out.stdout));
    let mut label: Option<String> = None;
    let mut first = true;
    for l in String::from_utf8_lossy(&out.stdout).split('\n') {
        let mut l = l;
        while let Some(x) = l.strip_prefix("+tdgb> ").or_else(|| l.strip_prefix("STDIN requested: ")) {
            l = x;
        }
        if let Some(n) = l.strip_prefix('<').and_then(|l| l.strip_suffix(">:")) {
            label = Some(n.into());
        } else if address(l).is_some() {
            let (at, rest) = address(l).unwrap();
            let at = if rest.contains("could not be fetched") {
                check!(!matches!(im.byte(at), Byte::Code(_)) || im.fetch(at).is_err(), "listing", "at {at:04x} there is {:02x?}, and tdbg shows {l:?}", im.fetch(at));
                at
            } else {
                im.line(c, l)?.0
            };
            c.count("debugger: instruction shown");
            if first {
                check!(at == start, "label", "tdbg begins at {at:04x} instead of {start:04x}");
            }
            first = false;
            match (label.take(), im.names.get(&at)) {
                (Some(n), names) => {
                    check!(names.is_some_and(|x| x.contains(&n)), "label", "at {at:04x} there is {names:?}, and tdbg shows <{n}>");
                    c.count("debugger: label shown");
                }
                (None, Some(names)) => return fail("label", format!("at {at:04x} there is {names:?}, and tdbg shows no name")),
                _ => (),
            }
        }
    }
    check!(!first, "listing", "tdbg shows no instruction: {} {}", out.status(), text(&out.stderr));
    Ok(())
}

// ---- t -t ----

fn termination(c: &mut Ctx) -> Res {
    let o = object(c, "prog")?;
    let n = c.src.size(40, 400) as usize;
    let input = c.src.bytes(n);
    let Some(e) = c20::execute(&o, &input) else { return Ok(()) };
    let flag = *c.src.pick(&["-t", "--termination-point"]);
    let out = tool(c, "t", &[flag, "prog"], &input)?;
    let Some(at) = out.stdout.windows(11).rposition(|w| w == b"Ended with ") else { return fail("termination", format!("t shows no point of termination: {}", text(&out.stdout))) };
    check!(out.stdout[..at] == e.out, "termination", "t prints {} instead of {}", hex(&out.stdout[..at]), hex(&e.out));
    let l = String::from_utf8_lossy(&out.stdout[at..]).trim_end().to_string();
    c.count("termination point");
    check!(e.traps.iter().any(|&t| l.contains(lock::trap_name(t))), "termination", "the program ends with {}, and t shows {l:?}", lock::names(&e.traps));
    let Some((name, off)) = l.split_once(" at <").and_then(|x| x.1.strip_suffix('>')).and_then(|x| x.rsplit_once('+')) else { return fail("termination", format!("not understood: {l:?}")) };
    let Ok(off) = u16::from_str_radix(off, 16) else { return fail("termination", format!("not understood: {l:?}")) };
    let named: Vec<(u16, String)> = o.syms.iter().filter(|s| !s.name.is_empty()).map(|s| (s.loc, String::from_utf8_lossy(&s.name).into_owned())).collect();
    // within or behind the instruction
    let near = |at: u16| at >= e.pc && at <= e.pc.saturating_add(4);
    let from: Vec<u16> = if name.is_empty() { vec![0] } else { named.iter().filter(|x| x.1 == name).map(|x| x.0).collect() };
    let Some(&from) = from.iter().find(|&&f| near(f.wrapping_add(off))) else { return fail("termination", format!("the program ends at {:04x}, {name:?} is at {from:04x?}, and t shows {l:?}", e.pc)) };
    let at = from.wrapping_add(off);
    if !name.is_empty() {
        c.count("termination: label");
    }
    if let Some(x) = named.iter().find(|x| x.0 <= at && x.0 > from) {
        return fail("termination", format!("the program ends at {at:04x}, right behind {:?}, and t shows {l:?}", x.1));
    }
    Ok(())
}

// ---- system call 0 ----

/// What a program has, as system call 0 lists it
fn mapped(c: &mut Ctx) -> Res {
    let mut code = Vec::new();
    let mut prints: Vec<Option<u8>> = Vec::new();
    let n = c.src.range(1, 4);
    for i in 0..n {
        if i + 1 == n && !prints.contains(&None) || c.src.chance(1, 2) {
            code.extend([0x40, 0x10, 0, 0, 0x0c]);
            prints.push(None);
        } else {
            let b = *c.src.pick(b"#*+\n>");
            code.extend([0x40, 0x10, 4, 0, 0x40, 0x20, b, 0, 0x0c]);
            prints.push(Some(b));
        }
    }
    code.push(0x0a);
    let mut found = None;
    for _ in 0..8 {
        let mut o = load::gen_loadable(&mut c.src);
        let Some(x) = o.segs.iter_mut().find(|x| x.0 == TEXT) else { continue };
        let front = if c.src.chance(1, 2) { 0 } else { c.src.below(200) as usize };
        let mut b = c.src.bytes(front);
        b.extend(&code);
        let more = c.src.size(8, 600) as usize;
        b.extend(c.src.bytes(more));
        x.2 = b;
        let at = x.1 as usize + front;
        o.entry = Some((TEXT, at as u16));
        let g = load::grant(&o);
        if code.iter().enumerate().all(|(i, b)| at + i < 0x1_0000 && g.bytes.get(&((at + i) as u16)) == Some(&Some(*b))) {
            found = Some((o, g));
            break;
        }
    }
    let Some((o, g)) = found else { return Ok(()) };
    c.ps().put("prog", &o.encode(), 0o644);
    let out = tool(c, "t", &["prog"], b"")?;
    c.mark(hash_bytes(3, &out.stdout));
    let mut rest: &[u8] = &out.stdout;
    for p in prints {
        if let Some(b) = p {
            check!(rest.first() == Some(&b), "output", "t prints {} where {b:02x} was written", hex(rest));
            rest = &rest[1..];
            continue;
        }
        c.count("map shown");
        let mut seen: BTreeMap<usize, u8> = BTreeMap::new();
        let mut frames = BTreeSet::new();
        while rest.first().is_some_and(|b| b.is_ascii_hexdigit()) {
            let n = rest.iter().position(|&b| b == b'\n').unwrap_or(rest.len());
            let l = String::from_utf8_lossy(&rest[..n]).into_owned();
            let line = || -> Option<(usize, u32, &str)> {
                let (page, x) = l.split_once("_ => ")?;
                let (frame, x) = x.split_once("_ (")?;
                Some((usize::from_str_radix(page, 16).ok()?, u32::from_str_radix(frame, 16).ok()?, x.strip_suffix(')')?))
            };
            let Some((page, frame, rights)) = line() else { return fail("map", format!("not understood: {l:?}")) };
            if seen.last_key_value().is_some_and(|x| page >> 3 <= *x.0) {
                // the next one begins
                break;
            }
            rest = &rest[(n + 1).min(rest.len())..];
            let mut p = 0;
            for r in rights.chars() {
                match r {
                    'U' => p |= P_U,
                    'X' => p |= P_X,
                    'W' => p |= P_W,
                    'R' => p |= P_R,
                    // what other pages nearby have
                    'x' | 'w' | 'r' | ' ' => (),
                    _ => return fail("map", format!("a program has all it is given, and {r:?} is shown: {l:?}")),
                }
            }
            check!(page % 8 == 0 && page < 0x1000, "map", "there is no page {page:03x}_: {l:?}");
            seen.insert(page >> 3, p);
            check!(frames.insert(frame) && frame % 8 == 0, "map", "page {page:03x}_ shares its place: {l:?}");
        }
        for page in 0..512 {
            let maybe = g.maybe[page].unwrap_or(0);
            match (g.pages[page], seen.get(&page)) {
                (None, None) => (),
                (None, Some(&p)) => check!(g.maybe[page].is_some() && p == maybe | P_U, "map", "page {:03x}_ is shown with {p:02x}, and the program was not given it", page << 3),
                (Some(w), None) => return fail("map", format!("page {:03x}_, which the program was given with {w:02x}, is not shown", page << 3)),
                (Some(w), Some(&p)) => check!(p & !maybe == (w | P_U) & !maybe && p & !(w | maybe | P_U) == 0, "map", "page {:03x}_, which the program was given with {w:02x}, is shown with {p:02x}", page << 3),
            }
        }
    }
    check!(rest.is_empty(), "output", "t prints {} that was not written", hex(rest));
    Ok(())
}
