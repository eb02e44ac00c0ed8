//! What a link makes of its inputs, compared with an independent linker
use super::common::*;
use super::ops;
use crate::check;
use crate::obj::*;
use crate::psim::*;
use crate::run::{fail, Ctx, Fail, Prop, Res};
use std::collections::{BTreeMap, BTreeSet};

pub const PROP: Prop = Prop {
    id: "C23",
    run,
    quick: 40_000,
    thorough: 3_000_000,
    level: "exploration",
    rule: "a run makes up to seven object files with segments of every type anywhere, symbols, references between them and entry points, and links them in one to four steps whose outputs are linked again, with random alignment, erasing, entry points and output names (also that of an input or of an earlier output), while transfers are split, shortened and interrupted and some steps meet an error or are killed and are repeated; every output is compared, as an independent reader reads it, with what an independent linker makes of the inputs; non-trivial: more than one input or more than one step; distinct by the sequence of calls, faults and results",
    real: REAL,
    stub: STUB,
    assumptions: &["where the segments are put is not judged as long as they are aligned and apart", "the two bytes of a reference that stays undefined may hold anything"],
    probes: &["linked", "linked again", "executable", "erased", "alignment", "entry named", "entry by number", "entry of a later input", "reference to an earlier input", "reference to a later input", "reference within", "stays undefined", "output over an input", "output over another file", "zero segment", "heap segment", "leading text", "step failed and repeated", "step killed and repeated", "refused: undefined", "refused: no entry", "refused: does not fit", "empty segment", "segment announced"],
};

/// Bytes that references are written to do not overlap
fn cells(c: &mut Ctx, o: &Obj, most: u64) -> Vec<(u8, u16)> {
    let mut used: BTreeSet<(u8, u16)> = BTreeSet::new();
    let mut v = Vec::new();
    let able: Vec<(u8, u16, usize)> = o.segs.iter().filter(|s| s.2.len() >= 2).map(|s| (s.0, s.1, s.2.len())).collect();
    if able.is_empty() {
        return v;
    }
    for _ in 0..c.src.below(most + 1) {
        let (t, at, n) = *c.src.pick(&able);
        let i = match c.src.below(4) {
            0 => 0,
            1 => n - 2,
            _ => c.src.usize(n - 1),
        };
        let a = at + i as u16;
        if used.contains(&(t, a)) || used.contains(&(t, a.wrapping_add(1))) {
            continue;
        }
        used.insert((t, a));
        used.insert((t, a.wrapping_add(1)));
        v.push((t, a));
    }
    v
}

fn make(c: &mut Ctx, defines: &[Vec<u8>], refers: &[Vec<u8>], zero: bool) -> Obj {
    let mut o = Obj::default();
    let big = c.src.chance(1, 20);
    for t in [ZERO, DATA, RODATA, TEXT, HEAP] {
        if t == ZERO && !(zero && c.src.chance(1, 2)) || t == HEAP && !c.src.chance(1, 4) || !c.src.chance(2, 3) {
            continue;
        }
        let n = match c.src.below(12) {
            0 => 0,
            1 => 1,
            2 => 2,
            3 => *c.src.pick(&[127, 128, 129, 255, 256, 512]),
            _ if big && c.src.chance(1, 6) => c.src.range(9000, 50_000) as usize,
            _ if big => c.src.range(1, 9000) as usize,
            _ => c.src.range(2, 60) as usize,
        };
        let at = match c.src.below(4) {
            0 => 0,
            1 => (0x1_0000 - n).min(0xffff),
            2 => (128 * c.src.below(300) as usize).min(0x1_0000 - n),
            _ => c.src.usize(0x1_0000 - n),
        };
        if n == 0 {
            c.count("empty segment");
        }
        match t {
            ZERO => c.count("zero segment"),
            HEAP => c.count("heap segment"),
            _ => (),
        }
        o.segs.push((t, at as u16, c.src.bytes(n)));
    }
    o.segs.sort_by_key(|s| s.0);
    let place = |c: &mut Ctx| -> Option<(u8, u16)> {
        if !zero && c.src.chance(1, 12) {
            // a number
            return Some((ZERO, c.src.u16()));
        }
        if o.segs.is_empty() {
            return None;
        }
        let s = c.src.pick(&o.segs);
        Some((s.0, match c.src.below(6) {
            0 => s.1,
            1 => s.1.wrapping_add(s.2.len() as u16),
            _ => s.1.wrapping_add(c.src.below(s.2.len() as u64 + 1) as u16),
        }))
    };
    let mut syms = Vec::new();
    for d in defines {
        let (seg, loc) = place(c).unwrap_or((UNKNOWN, 0));
        syms.push(Sym { name: d.clone(), global: true, seg, loc });
    }
    for r in refers {
        syms.push(Sym { name: r.clone(), global: true, seg: UNKNOWN, loc: *c.src.pick(&[0, 1, 0xfaff, 0x1234]) });
    }
    for _ in 0..c.src.below(5) {
        if let Some((seg, loc)) = place(c) {
            // an internal symbol can have the name of any other
            let name = match c.src.below(4) {
                0 => vec![],
                1 if !syms.is_empty() => c.src.pick::<Sym>(&syms).name.clone(),
                _ => gen_name(&mut c.src),
            };
            syms.push(Sym { name, global: false, seg, loc });
        }
    }
    c.src.shuffle(&mut syms);
    if !syms.is_empty() {
        for (t, a) in cells(c, &o, 12) {
            o.relocs.push((t, a, c.src.usize(syms.len()) as u16));
        }
    }
    if c.src.chance(1, 4) {
        o.entry = place(c);
    }
    if c.src.chance(1, 10) {
        o.flags = Some(true);
        o.stack = Some(c.src.u16());
        o.heap = Some(c.src.u16());
    }
    o.syms = syms;
    o
}

/// What a symbol is; where it is matters only if it is defined
type Known = (Vec<u8>, bool, u8, Option<u16>);
fn known(s: &Sym) -> Known {
    (s.name.clone(), s.global, s.seg, (s.seg != UNKNOWN).then_some(s.loc))
}
fn tell(k: &Known) -> String {
    let loc = k.3.map_or("nowhere".into(), |l| format!("at {l:04x} in {:02x}", k.2));
    format!("{} {:?} {loc}", if k.1 { "global" } else { "internal" }, text(&k.0))
}

struct Opts {
    align: u32,
    erase: bool,
    exe: bool,
    set: Option<Set>,
}
enum Set {
    Number(u16),
    Name(Vec<u8>),
}

/// Compares the output with what the inputs and options ask for
fn compare(c: &mut Ctx, ins: &[Obj], opt: &Opts, out: &Obj) -> Res {
    // segments
    let mut len: BTreeMap<u8, usize> = BTreeMap::new();
    for o in ins {
        for s in &o.segs {
            *len.entry(s.0).or_default() += s.2.len();
        }
    }
    let mut spans = Vec::new();
    for (t, n) in &len {
        let Some(s) = out.seg(*t) else {
            check!(*n == 0, "segments", "the output has no segment {t:02x}, of which the inputs have {n} bytes");
            continue;
        };
        check!(s.2.len() == *n, "segments", "segment {t:02x} has {} bytes, and those of the inputs {n}", s.2.len());
        check!(s.1 as u32 % opt.align == 0, "alignment", "segment {t:02x} begins at {:04x}, which is no multiple of {}", s.1, opt.align);
        let (a, b) = (s.1 as usize, s.1 as usize + n);
        check!(b <= 0x1_0000, "segments", "segment {t:02x} goes from {a:04x} to {b:04x}");
        if *n > 0 {
            for &(t2, a2, b2) in &spans {
                check!(b <= a2 || b2 <= a, "segments", "segments {t:02x} ({a:04x} to {b:04x}) and {t2:02x} ({a2:04x} to {b2:04x}) overlap");
            }
            spans.push((*t, a, b));
        }
    }
    for s in &out.segs {
        check!(len.contains_key(&s.0), "segments", "the output has a segment {:02x}, and no input has", s.0);
    }
    // where things have gone
    let mut begins: BTreeMap<u8, u16> = out.segs.iter().map(|s| (s.0, s.1)).collect();
    let mut moved: Vec<BTreeMap<u8, u16>> = Vec::new();
    for o in ins {
        let mut m = BTreeMap::new();
        for s in &o.segs {
            if let Some(b) = begins.get_mut(&s.0) {
                m.insert(s.0, b.wrapping_sub(s.1));
                *b = b.wrapping_add(s.2.len() as u16);
            } else {
                // nothing of it is there; an empty segment may be left out
                m.insert(s.0, 0);
            }
        }
        moved.push(m);
    }
    let go = |i: usize, seg: u8, loc: u16| loc.wrapping_add(moved[i].get(&seg).copied().unwrap_or(0));
    let mut globals: BTreeMap<Vec<u8>, Known> = BTreeMap::new();
    let mut from: BTreeMap<Vec<u8>, usize> = BTreeMap::new();
    for (i, o) in ins.iter().enumerate() {
        for s in o.syms.iter().filter(|s| s.global) {
            let e = globals.entry(s.name.clone()).or_insert((s.name.clone(), true, UNKNOWN, None));
            if s.seg != UNKNOWN {
                *e = (s.name.clone(), true, s.seg, Some(go(i, s.seg, s.loc)));
                from.insert(s.name.clone(), i);
            }
        }
    }
    let target = |i: usize, s: &Sym| -> Known {
        if s.global {
            globals[&s.name].clone()
        } else {
            (if opt.erase { vec![] } else { s.name.clone() }, false, s.seg, Some(go(i, s.seg, s.loc)))
        }
    };
    // symbols
    let mut want: Vec<Known> = globals.values().cloned().collect();
    for (i, o) in ins.iter().enumerate() {
        want.extend(o.syms.iter().filter(|s| !s.global).map(|s| target(i, s)));
    }
    let mut got: Vec<Known> = out.syms.iter().map(known).collect();
    want.sort();
    got.sort();
    if want != got {
        let less = want.iter().find(|k| want.iter().filter(|x| x == k).count() > got.iter().filter(|x| x == k).count());
        let more = got.iter().find(|k| got.iter().filter(|x| x == k).count() > want.iter().filter(|x| x == k).count());
        return fail("symbols", format!("the output has not the symbol {}, but {}", less.map_or("(none)".into(), tell), more.map_or("(none)".into(), tell)));
    }
    // references
    let mut refs: BTreeMap<(u8, u16), Known> = BTreeMap::new();
    for (i, o) in ins.iter().enumerate() {
        for &(t, at, n) in &o.relocs {
            let s = &o.syms[n as usize];
            let k = target(i, s);
            match (s.global, from.get(&s.name)) {
                (false, _) => c.count("reference within"),
                (true, None) => c.count("stays undefined"),
                (true, Some(&j)) => c.count(match j.cmp(&i) {
                    std::cmp::Ordering::Less => "reference to an earlier input",
                    std::cmp::Ordering::Equal => "reference within",
                    std::cmp::Ordering::Greater => "reference to a later input",
                }),
            }
            refs.insert((t, go(i, t, at)), k);
        }
    }
    let mut seen = BTreeMap::new();
    for &(t, at, n) in &out.relocs {
        let Some(s) = out.syms.get(n as usize) else {
            return fail("references", format!("the reference at {at:04x} in {t:02x} is to symbol {n} of {}", out.syms.len()));
        };
        check!(seen.insert((t, at), known(s)).is_none(), "references", "the reference at {at:04x} in {t:02x} is there twice");
    }
    for (&(t, at), k) in &refs {
        match seen.get(&(t, at)) {
            None => return fail("references", format!("the reference at {at:04x} in {t:02x} to {} has gone", tell(k))),
            Some(x) => check!(x == k, "references", "the reference at {at:04x} in {t:02x} is to {} instead of {}", tell(x), tell(k)),
        }
    }
    check!(seen.len() == refs.len(), "references", "the output has {} references, and the inputs {}", seen.len(), refs.len());
    // bytes
    for s in &out.segs {
        let mut b: Vec<u8> = ins.iter().filter_map(|o| o.seg(s.0)).flat_map(|x| x.2.iter().copied()).collect();
        let mut any = vec![false; b.len()];
        for (&(t, at), k) in &refs {
            if t == s.0 {
                let i = at.wrapping_sub(s.1) as usize;
                match k.3 {
                    Some(l) => b[i..i + 2].copy_from_slice(&l.to_le_bytes()),
                    None => any[i..i + 2].fill(true),
                }
            }
        }
        if let Some(i) = (0..b.len()).find(|&i| b[i] != s.2[i] && !any[i]) {
            let a = s.1.wrapping_add(i as u16);
            let what = refs.get(&(s.0, a)).or(refs.get(&(s.0, a.wrapping_sub(1)))).map_or("no reference".into(), |k| format!("a reference to {}", tell(k)));
            return fail("bytes", format!("at {a:04x} in {:02x} there is {:02x} instead of {:02x} ({what})", s.0, s.2[i], b[i]));
        }
    }
    // the entry point
    let first = ins.iter().enumerate().find_map(|(i, o)| o.entry.map(|e| (i, e.0, go(i, e.0, e.1))));
    let entry = match &opt.set {
        Some(Set::Number(n)) => Some(*n),
        Some(Set::Name(n)) => globals[n].3,
        None => first.map(|x| x.2),
    };
    if opt.set.is_none() && first.is_some_and(|x| x.0 > 0) {
        c.count("entry of a later input");
    }
    check!(out.entry.map(|e| e.1) == entry, "entry", "the entry point is {:04x?} instead of {entry:04x?}", out.entry.map(|e| e.1));
    if let (None, Some(f), Some(e)) = (&opt.set, first, out.entry) {
        check!(e.0 == f.1, "entry", "the entry point is in {:02x} instead of {:02x}", e.0, f.1);
    }
    Ok(())
}

/// What tl -v says of the segments
fn announced(c: &mut Ctx, r: &Outcome, out: &Obj) -> Res {
    let said = String::from_utf8_lossy(&r.stdout).into_owned();
    let mut got = BTreeMap::new();
    for l in said.lines() {
        let Some(x) = l.strip_prefix("segment ") else { continue };
        let parts = || -> Option<(&str, u16, usize)> {
            let (name, x) = x.split_once(" @ 0x")?;
            let (at, x) = x.split_once(" w/ ")?;
            Some((name, u16::from_str_radix(at, 16).ok()?, x.split(' ').next()?.parse().ok()?))
        };
        let Some((name, at, n)) = parts() else { return fail("messages", format!("not understood: {l:?}")) };
        check!(got.insert(name.to_string(), (at, n)).is_none(), "messages", "tl tells of segment {name} twice");
    }
    for (t, at, b) in &out.segs {
        let name = match *t {
            ZERO => "zero",
            DATA => "data",
            RODATA => "rodata",
            TEXT => "text",
            HEAP => "heap",
            _ => "unknown",
        };
        let said = got.remove(name);
        check!(said == Some((*at, b.len())), "messages", "tl says of segment {name} {said:04x?}, and it is at {at:04x} with {} bytes", b.len());
        c.count("segment announced");
    }
    check!(got.is_empty(), "messages", "tl tells of segments that the output does not have: {got:?}");
    Ok(())
}

/// Until the step has been taken without a fault; whether it succeeded
fn step(c: &mut Ctx, args: &[String], ins: &[(String, Obj)]) -> Result<Outcome, Fail> {
    let plan = noise(&mut c.src);
    let bytes: Vec<(String, Vec<u8>)> = ins.iter().map(|x| (x.0.clone(), c.ps().get(&x.0).unwrap_or_default())).collect();
    if !args.iter().any(|a| a == "-v") && c.src.chance(1, 5) {
        let mut bad = plan.clone();
        let idx = c.src.below(40 + 25 * ins.len() as u64) as u32;
        let (kind, err) = match c.src.below(5) {
            0 => (F_KILL_BEFORE, 0),
            1 => (F_KILL_AFTER, 0),
            2 => (F_KILL_MID, 0),
            3 => (F_ERR_WRITES, libc::ENOSPC),
            _ => (F_ERR, *c.src.pick(&[libc::EIO, libc::ENOSPC, libc::EACCES])),
        };
        bad.faults.push(Fault { idx, kind, err, arg: c.src.below(8) as u32 });
        let o = c.run("tl", &refs(args), b"", &bad);
        ordinary("tl", &o)?;
        if o.killed || o.faults_fired().any(|e| e.fault < 100) {
            c.count(if o.killed { "step killed and repeated" } else { "step failed and repeated" });
            // what it destroyed of its inputs is put back
            for (n, b) in &bytes {
                c.ps().put(n, b, 0o644);
            }
        } else {
            return Ok(o);
        }
    }
    let o = c.run("tl", &refs(args), b"", &plan);
    ordinary("tl", &o)?;
    Ok(o)
}

fn run(c: &mut Ctx) -> Res {
    let n = c.src.range(1, 7) as usize;
    let zero = c.src.chance(1, 6);
    let mut names: Vec<Vec<u8>> = Vec::new();
    for _ in 0..c.src.below(9) {
        let g = gen_name(&mut c.src);
        if !names.contains(&g) && !g.is_empty() {
            names.push(g);
        }
    }
    // who defines what; n: nobody
    let rare = *c.src.pick(&[1, 1, 4]);
    let defs: Vec<usize> = names.iter().map(|_| if c.src.chance(rare, 40) { n } else { c.src.usize(n) }).collect();
    let mut pool: Vec<(String, Obj)> = Vec::new();
    for i in 0..n {
        let d: Vec<Vec<u8>> = (0..names.len()).filter(|&k| defs[k] == i).map(|k| names[k].clone()).collect();
        let mut r = Vec::new();
        for k in 0..names.len() {
            if defs[k] != i && c.src.chance(1, 3) {
                r.push(names[k].clone());
            }
        }
        let o = make(c, &d, &r, zero);
        let lead = if c.src.chance(1, 5) { gen_leading(&mut c.src) } else { vec![] };
        if !lead.is_empty() {
            c.count("leading text");
        }
        let name = format!("o{i}.to");
        c.ps().put(&name, &[lead, o.encode()].concat(), 0o644);
        c.note(|| format!("{name}:\n{}", o.to_text()));
        pool.push((name, o));
    }
    let steps = c.src.range(1, 4);
    c.nontrivial = n > 1 || steps > 1;
    for s in 0..steps {
        c.src.shuffle(&mut pool);
        let k = if s + 1 == steps { pool.len() } else { c.src.range(1, pool.len() as u64) as usize };
        let ins: Vec<(String, Obj)> = pool.drain(..k).collect();
        let objs: Vec<Obj> = ins.iter().map(|x| x.1.clone()).collect();
        let globals: Vec<&Sym> = objs.iter().flat_map(|o| &o.syms).filter(|s| s.global).collect();
        let defined: Vec<Vec<u8>> = globals.iter().filter(|s| s.seg != UNKNOWN && !s.name.starts_with(b"0x")).map(|s| s.name.clone()).collect();
        let mut opt = Opts { align: 128, erase: c.src.chance(1, 4), exe: c.src.chance(if s + 1 == steps { 2 } else { 1 }, 5), set: None };
        let mut a: Vec<String> = ins.iter().map(|x| x.0.clone()).collect();
        if opt.erase {
            a.push(c.src.pick(&["-S", "--strip-internal"]).to_string());
            c.count("erased");
        }
        if c.src.chance(1, 2) {
            opt.align = 1 << match c.src.below(8) {
                0 => 15,
                1 => c.src.below(16),
                _ => c.src.below(11),
            };
            a.extend([c.src.pick(&["-A", "--alignment"]).to_string(), opt.align.to_string()]);
            c.count("alignment");
        }
        if opt.exe {
            a.push(c.src.pick(&["-e", "--executable"]).to_string());
            if c.src.chance(1, 2) {
                // where something occupies the zero segment, numbers are not told from places in it
                if !zero && (defined.is_empty() || c.src.chance(1, 4)) {
                    opt.set = Some(Set::Number(c.src.u16()));
                } else if !defined.is_empty() {
                    opt.set = Some(Set::Name(c.src.pick(&defined).clone()));
                }
            }
            match &opt.set {
                Some(Set::Number(x)) => {
                    let t = if c.src.chance(1, 2) { format!("0x{x:x}") } else { format!("0x{x:04X}") };
                    a.extend(["-E".into(), t]);
                    c.count("entry by number");
                }
                Some(Set::Name(x)) => {
                    a.extend([format!("--set-entry={}", String::from_utf8_lossy(x))]);
                    c.count("entry named");
                }
                None => (),
            }
        }
        if c.src.chance(1, 4) {
            a.push("-v".into());
        }
        let out = match c.src.below(6) {
            0 => {
                c.count("output over an input");
                c.src.pick(&ins).0.clone()
            }
            1 if ins.iter().chain(&pool).all(|x| x.0 != "out") => {
                let b = c.src.bytes(700);
                let mode = *c.src.pick(&[0o644, 0o600]);
                c.ps().put("out", &b, mode);
                c.count("output over another file");
                "out".into()
            }
            _ => format!("p{s}"),
        };
        // an output that an unused input has as its name would take that one away
        let out = if pool.iter().any(|x| x.0 == out) { format!("p{s}") } else { out };
        if c.src.chance(1, 2) {
            a.extend(["-o".into(), out.clone()]);
        } else {
            a.insert(0, format!("--out={out}"));
        }
        c.note(|| format!("tl {}", a.join(" ")));
        let r = step(c, &a, &ins)?;
        // what must not work, what need not
        let lost: BTreeSet<Vec<u8>> = objs.iter().flat_map(|o| o.relocs.iter().map(|r| &o.syms[r.2 as usize])).filter(|s| s.global && !globals.iter().any(|g| g.name == s.name && g.seg != UNKNOWN)).map(|s| s.name.clone()).collect();
        let no_entry = opt.set.is_none() && objs.iter().all(|o| o.entry.is_none());
        let types: BTreeSet<u8> = objs.iter().flat_map(|o| o.segs.iter().map(|s| s.0)).collect();
        let total: usize = objs.iter().flat_map(|o| o.segs.iter().map(|s| s.2.len())).sum();
        let roomy = total + 128 + (types.len() + 1) * opt.align as usize <= 0xffff;
        if opt.exe && (!lost.is_empty() || no_entry) {
            check!(!r.ok(), "bad executable", "tl -e exits with success, though {}", if no_entry { "there is no entry point".into() } else { format!("{:?} is undefined", text(lost.first().unwrap())) });
            c.count(if no_entry { "refused: no entry" } else { "refused: undefined" });
            if roomy {
                let said = String::from_utf8_lossy(&r.stderr).into_owned();
                for n in &lost {
                    let n = String::from_utf8_lossy(n);
                    check!(said.contains(&*n), "bad executable", "{n:?} is undefined, and tl does not say so: {}", text(&r.stderr));
                }
            }
            return Ok(());
        }
        if !r.ok() && !roomy {
            c.count("refused: does not fit");
            return Ok(());
        }
        if !r.ok() && opt.exe && globals.iter().any(|s| s.seg == UNKNOWN && !defined.contains(&s.name)) {
            // undefined, but nothing refers to it
            return Ok(());
        }
        must_succeed("tl", &r)?;
        c.count(if s > 0 { "linked again" } else { "linked" });
        let Some((mode, b)) = ops::now(c, &out) else { return fail("output", format!("there is no {out}")) };
        let Some((got, end)) = decode(&b, 0) else { return fail("output", format!("{out} is not an object file")) };
        check!(end == b.len(), "output", "{out} has {} bytes behind its end", b.len() - end);
        if opt.exe {
            c.count("executable");
            check!(b.starts_with(b"#!"), "output", "{out} does not begin with #!");
            check!(mode & 0o111 == 0o111, "output", "{out} has mode {mode:o}");
        }
        c.note(|| format!("{out}:\n{}", got.to_text()));
        c.mark(crate::src::hash_bytes(b.len() as u64, &b));
        compare(c, &objs, &opt, &got)?;
        if a.iter().any(|x| x == "-v") {
            announced(c, &r, &got)?;
        }
        pool.push((out, got));
    }
    Ok(())
}
