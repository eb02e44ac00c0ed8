//! Unusable inputs leave existing outputs untouched
use super::common::*;
use super::ops;
use crate::check;
use crate::obj::*;
use crate::prog;
use crate::psim::*;
use crate::run::{Ctx, Prop, Res};

pub const PROP: Prop = Prop {
    id: "C04",
    run,
    quick: 50_000,
    thorough: 2_000_000,
    level: "exploration",
    rule: "a run gives tc, tl, tar or tstrip an input that is missing, a directory, damaged, wrong in one of some twenty ways, or whose opening, reading or seeking fails at some call; the command must fail with a message, the outputs of the bad input must stay as they were (also absent), and all others must be what the command makes without the bad one; non-trivial: an error was injected or an output existed before; distinct by the sequence of calls, faults and results",
    real: REAL,
    stub: STUB,
    assumptions: &["a failing call that only inspects a file (stat) may be tolerated"],
    probes: &["tc: missing", "tc: missing include", "tc: wrong line", "tc: read error", "tc: too big", "tc: too many references", "tc: too many names", "tc: impossible name", "tl: too much for the format", "tl: missing", "tl: damaged", "tl: undefined", "tl: doubly defined", "tl: doubly defined by an archive", "tl: malformed relocation", "tl: too big", "tl: no entry", "tl: read error", "tl: archive", "tl: undefined entry", "tar: missing", "tar: read error", "tstrip: missing", "tstrip: damaged", "tstrip: no entry", "tstrip: read error", "fault: error on read", "fault: error on open"],
};

fn run(c: &mut Ctx) -> Res {
    match c.src.below(10) {
        0..3 => tc(c),
        3..6 => tl(c),
        6..9 => tstrip(c),
        _ => tar(c),
    }
}

fn sentinel(c: &mut Ctx, name: &str) -> Option<(u32, Vec<u8>)> {
    if c.src.chance(1, 4) {
        c.ps().remove(name);
        return None;
    }
    let n = c.src.size(80, 9000) as usize;
    let b = c.src.bytes(n);
    let mode = *c.src.pick(&[0o644, 0o600, 0o755]);
    c.ps().put(name, &b, mode);
    c.nontrivial = true;
    Some((mode, b))
}

fn show(x: &Option<(u32, Vec<u8>)>) -> String {
    match x {
        None => "absent".into(),
        Some((m, b)) => format!("{} bytes, mode {m:o}", b.len()),
    }
}

fn untouched(c: &mut Ctx, tool: &str, name: &str, before: &Option<(u32, Vec<u8>)>) -> Res {
    let n = ops::now(c, name);
    check!(n == *before, "output touched", "{tool} failed because of its input, but {name} was {} and is now {}", show(before), show(&n));
    Ok(())
}

fn failed(tool: &str, o: &Outcome) -> Res {
    ordinary(tool, o)?;
    check!(!o.ok(), "success with a bad input", "{tool} exits with success although an input could not be used");
    Ok(())
}

/// A failing seek that was of no use (it can be made to learn how long the file is) may be tolerated
/// if everything is as it would be without the failure
fn tolerated(c: &mut Ctx, tool: &str, args: &[String], plan: &Plan, seek: bool, before: &Snapshot, o: &Outcome) -> bool {
    if !seek || ordinary(tool, o).is_err() {
        return false;
    }
    let after = c.ps().snapshot();
    c.ps().restore(before);
    let mut plan = plan.clone();
    plan.faults.clear();
    let r = c.run(tool, &refs(args), b"", &plan);
    let same = r.ok() == o.ok() && c.ps().snapshot() == after;
    c.ps().restore(&after);
    if same {
        c.count("useless seek tolerated");
    }
    same
}

/// A call on one of these files whose failure means that the file cannot be read, and whether it is a seek
fn read_fault(c: &mut Ctx, clean: &Outcome, paths: &[&str]) -> Option<(Fault, bool)> {
    let evs: Vec<&Event> = clean
        .events
        .iter()
        .filter(|e| e.faultable() && e.path > 2)
        .filter(|e| match e.op {
            OP_OPEN => e.flags & 3 == 0 && paths.contains(&clean.path(e.path)),
            OP_READ | OP_LSEEK | OP_REALPATH => paths.contains(&clean.path(e.path)),
            OP_CFR | OP_SENDFILE => e.path2 >= 0 && paths.contains(&clean.path(e.path2)),
            _ => false,
        })
        .collect();
    if evs.is_empty() {
        return None;
    }
    let e = *c.src.pick(&evs);
    let err = if e.op == OP_OPEN { *c.src.pick(&[libc::EACCES, libc::EIO, libc::EMFILE, libc::ENOENT]) } else { libc::EIO };
    let kind = if c.src.chance(1, 4) { F_ERR_PATH } else { F_ERR };
    Some((Fault { idx: e.idx, kind, err, arg: 0 }, e.op == OP_LSEEK))
}

const WRONG: [&[u8]; 24] = [
    b"bogus r1, r2",
    b".seg nowhere",
    b"ldi r1",
    b".string abc\\x4",
    b".string \\",
    b".string \\q",
    b".byte zz",
    b".wide 'xyz'",
    b"add r1, r2l, r3",
    b"call not_defined_anywhere",
    b".wide not_defined_anywhere",
    b"twice:\ntwice:",
    b".entry\n.entry",
    b".unknown 1",
    b".ref declared\n.seg text\ndeclared:",
    b"; \xff\xfe not utf-8",
    b".byte 300w",
    b"jmp r0",
    b"push r1, r2",
    b"mul r1, r2, r3",
    b"ldi r1, 'ab'",
    b"ret r1",
    b"halt 3",
    b"store r1, r2",
];

fn tc(c: &mut Ctx) -> Res {
    let p = prog::gen(&mut c.src, &prog::Opts { modules: 4, ..Default::default() });
    put_prog(c, &p);
    let n = p.mods.len();
    let mut files: Vec<usize> = (0..n).collect();
    c.src.shuffle(&mut files);
    let src = |i: usize| format!("{}.telda", p.mods[i]);
    let dst = |i: usize| format!("{}.to", p.mods[i]);
    let names: Vec<String> = files.iter().map(|&i| src(i)).collect();
    let mut plan = noise(&mut c.src);
    // some are made bad, the first at least
    let mut bad = Vec::new();
    for (k, &i) in files.clone().iter().enumerate() {
        if !(k == 0 || c.src.chance(1, 4)) {
            continue;
        }
        let path = src(i);
        let text = c.ps().get(&path).unwrap_or_default();
        let kind = c.src.below(6);
        if kind == 5 {
            // only one: the indexes of the calls change with every other fault
            if !plan.faults.is_empty() {
                continue;
            }
            continue;
        }
        bad.push(i);
        match kind {
            0 => {
                c.ps().remove(&path);
                if c.src.chance(1, 3) {
                    c.ps().mkdir(&path);
                }
                c.count("tc: missing");
            }
            1 => {
                let mut t = text;
                let dir = *c.src.pick(&["\n.include not_there.telda\n", "\n.include sub/not_there.telda", "\n.include .\n"]);
                t.extend(dir.as_bytes());
                c.ps().put(&path, &t, 0o644);
                c.count("tc: missing include");
            }
            2 | 3 => {
                let mut lines: Vec<Vec<u8>> = text.split(|&b| b == b'\n').map(|l| l.to_vec()).collect();
                let at = lines.len() - c.src.usize(lines.len() + 1);
                let w = *c.src.pick(&WRONG);
                c.note(|| format!("{path}: line {at}: {:?}", String::from_utf8_lossy(w)));
                if w.starts_with(b".entry") || w.starts_with(b"twice") || w[0] != b'.' && w[0] != b';' {
                    lines.insert(at, b".seg text".to_vec());
                    lines.insert(at + 1, w.to_vec());
                    // nothing that follows may end up in another segment, but it fails anyway
                } else if w.starts_with(b".ref") || w.starts_with(b".wide") || w.starts_with(b".byte") || w.starts_with(b".string") {
                    lines.insert(at, b".seg data".to_vec());
                    lines.insert(at + 1, w.to_vec());
                } else {
                    lines.insert(at, w.to_vec());
                }
                c.ps().put(&path, &lines.join(&b'\n'), 0o644);
                c.count("tc: wrong line");
            }
            _ => {
                let mut t = text;
                match c.src.below(5) {
                    0 | 1 => {
                        t.extend(b"\n.seg data\n");
                        for _ in 0..70 {
                            t.extend(b".string ");
                            t.extend([b'x'; 1000]);
                            t.push(b'\n');
                        }
                    }
                    2 => {
                        // more references than an object file holds
                        t.extend(b"\n.seg data\n");
                        let n = 13_108 + c.src.below(2000);
                        let l: &[u8] = *c.src.pick(&[&b".wide here\n"[..], b".wide there\n"]);
                        t.extend(b".ref there\nhere:\n");
                        for _ in 0..n {
                            t.extend(l);
                        }
                        c.count("tc: too many references");
                    }
                    3 => {
                        t.extend(b"\n.seg data\n");
                        let n = 80 + c.src.below(100);
                        let kind = *c.src.pick(&["", ".ref "]);
                        for i in 0..n {
                            t.extend(format!("{kind}long_name_{i}{}{}\n", "x".repeat(900), if kind.is_empty() { ":" } else { "" }).as_bytes());
                        }
                        t.extend(b".byte 0\n");
                        c.count("tc: too many names");
                    }
                    _ => {
                        t.extend(*c.src.pick(&[&b"\n.seg data\nwith\0in:\n.byte 0\n"[..], b"\n.ref with\0in\n", b"\n.ref  with_two_spaces\n", b"\n.global  with_two_spaces\n", b"\n.seg text\n.ref and\0in\njmp and\0in\n"]));
                        c.count("tc: impossible name");
                    }
                }
                c.ps().put(&path, &t, 0o644);
                c.count("tc: too big");
            }
        }
    }
    let mut seek = false;
    if c.src.chance(1, 3) || bad.is_empty() {
        // a read error in one of the others
        let good: Vec<usize> = files.iter().copied().filter(|i| !bad.contains(i)).collect();
        if !good.is_empty() {
            let i = *c.src.pick(&good);
            let s = c.ps().snapshot();
            let clean = c.run("tc", &refs(&names), b"", &plan);
            ordinary("tc", &clean)?;
            c.ps().restore(&s);
            let mut paths = vec![src(i)];
            paths.extend(p.files.iter().map(|f| f.0.clone()).filter(|f| f.starts_with(&format!("{}_", p.mods[i]))));
            if let Some((f, s)) = read_fault(c, &clean, &refs(&paths)) {
                plan.faults.push(f);
                seek = s;
                bad.push(i);
                c.count("tc: read error");
                c.nontrivial = true;
            }
        }
    }
    if bad.is_empty() {
        return Ok(());
    }
    // what the others become without the bad ones
    let good: Vec<usize> = files.iter().copied().filter(|i| !bad.contains(i)).collect();
    let before: Vec<_> = (0..n).map(|i| sentinel(c, &dst(i))).collect();
    let s = c.ps().snapshot();
    let mut expected = Vec::new();
    if !good.is_empty() {
        let g: Vec<String> = good.iter().map(|&i| src(i)).collect();
        let o = c.run("tc", &refs(&g), b"", &Plan::default());
        must_succeed("tc", &o)?;
        for &i in &good {
            expected.push((i, ops::now(c, &dst(i))));
        }
        c.ps().restore(&s);
    }
    let s = c.ps().snapshot();
    let o = c.run("tc", &refs(&names), b"", &plan);
    if tolerated(c, "tc", &names, &plan, seek, &s, &o) {
        return Ok(());
    }
    failed("tc", &o)?;
    for i in bad {
        untouched(c, "tc", &dst(i), &before[i])?;
    }
    for (i, e) in expected {
        let n = ops::now(c, &dst(i));
        check!(n == e, "others not processed", "tc: {} is {} instead of {}, which it becomes without the bad files", dst(i), show(&n), show(&e));
    }
    Ok(())
}

fn damage(c: &mut Ctx, b: &[u8]) -> Vec<u8> {
    // only damage that certainly makes it unusable
    match c.src.below(3) {
        0 => b[..c.src.usize(b.len())].to_vec(),
        1 => {
            let n = c.src.size(50, 3000) as usize;
            c.src.bytes(n).iter().map(|x| x & 0x7f).collect()
        }
        _ => Vec::new(),
    }
}

fn tl(c: &mut Ctx) -> Res {
    let p = some_prog(c, &prog::Opts::default())?;
    let mut inputs = p.objects();
    c.src.shuffle(&mut inputs);
    let mut args: Vec<String> = vec![];
    let mut plan = noise(&mut c.src);
    let exe = c.src.chance(1, 2);
    let add = |c: &mut Ctx, inputs: &mut Vec<String>, name: &str, text: &str| -> Res {
        c.ps().put(&format!("{name}.telda"), text.as_bytes(), 0o644);
        let o = c.run("tc", &[&format!("{name}.telda")], b"", &Plan::default());
        must_succeed("tc", &o)?;
        let at = inputs.len() - c.src.usize(inputs.len() + 1);
        inputs.insert(at, format!("{name}.to"));
        Ok(())
    };
    let mut entry = p.entry_sym.clone();
    let mut e = exe;
    let mut fault = false;
    match c.src.below(10) {
        0 => {
            let k = c.src.usize(inputs.len());
            let path = inputs[k].clone();
            c.ps().remove(&path);
            if c.src.chance(1, 3) {
                c.ps().mkdir(&path);
            }
            c.count("tl: missing");
        }
        1 => {
            let k = c.src.usize(inputs.len());
            let b = c.ps().get(&inputs[k]).unwrap_or_default();
            let d = damage(c, &b);
            c.ps().put(&inputs[k], &d, 0o644);
            c.count("tl: damaged");
        }
        2 => {
            e = true;
            let t = *c.src.pick(&[
                ".ref nowhere\n.seg text\ncall nowhere\n",
                ".ref nowhere\n.seg data\n.wide nowhere\n",
                ".ref nowhere\n.seg rodata\n.byte 1\n.wide nowhere\n",
                ".ref nowhere\n.seg text\nldi r0, nowhere\n",
                ".ref nowhere\n.seg text\njez nowhere\nload r1, r2, nowhere\n",
            ]);
            add(c, &mut inputs, "extra", t)?;
            if c.src.chance(1, 3) {
                // that this one has it is of no use
                let t = *c.src.pick(&[".seg text\nnowhere:\nret\n", ".ref nowhere\n", ".seg data\n.byte 2\nnowhere:\n"]);
                add(c, &mut inputs, "other", t)?;
            }
            c.count("tl: undefined");
        }
        3 => {
            let def = |c: &mut Ctx, after: Option<bool>| {
                let seg = *c.src.pick(&["data", "rodata", "text"]);
                let before = after.unwrap_or(c.src.chance(1, 2));
                let (x, y) = if before { ("", "\n.byte 1") } else { ("\n.byte 1", "") };
                let y = if c.src.chance(1, 8) { "" } else { y };
                format!(".global dup\n.seg {seg}{x}\ndup:{y}\n")
            };
            let first = c.src.chance(1, 3).then_some(false);
            let (x, y) = (def(c, first), def(c, first.map(|f| !f)));
            match c.src.below(4) {
                0 => {
                    // the second comes along with what is needed
                    add(c, &mut inputs, "extra1", &format!("{x}.ref need\n.seg text\ncall need\n"))?;
                    let mut none = vec![];
                    add(c, &mut none, "extra2", &format!("{y}.global need\n.seg text\nneed:\nret\n"))?;
                    let o = c.run("tar", &["extra2.to", "-o", "dup.savn"], b"", &Plan::default());
                    must_succeed("tar", &o)?;
                    args.extend(["-l".into(), "dup.savn".into()]);
                    c.count("tl: doubly defined by an archive");
                }
                k => {
                    add(c, &mut inputs, "extra1", &x)?;
                    add(c, &mut inputs, "extra2", &y)?;
                    if k > 1 {
                        // next to each other
                        inputs.retain(|i| i != "extra2.to");
                        let at = inputs.iter().position(|i| i == "extra1.to").unwrap() + 1;
                        inputs.insert(at, "extra2.to".into());
                    }
                }
            }
            c.count("tl: doubly defined");
        }
        8 => {
            let mut o = Obj { segs: vec![(DATA, 0x100, vec![1, 2, 3, 4]), (TEXT, 0x200, vec![0x0a; 6])], ..Obj::default() };
            for i in 0..3 {
                o.syms.push(Sym { name: format!("odd{i}").into_bytes(), global: i == 0, seg: TEXT, loc: 0x200 + i });
            }
            o.relocs.push((DATA, 0x101, 1));
            let wrong = *c.src.pick(&[(DATA, 0x100, 3), (DATA, 0x100, 0xffff), (DATA, 0x103, 0), (TEXT, 0x1ff, 0), (TEXT, 0x206, 0), (DATA, 0xffff, 0), (RODATA, 0x100, 0), (HEAP, 0, 0), (DATA, 0, 1), (TEXT, 0, 2)]);
            let at = c.src.usize(o.relocs.len() + 1);
            o.relocs.insert(at, wrong);
            c.ps().put("odd.to", &o.encode(), 0o644);
            let at = inputs.len() - c.src.usize(inputs.len() + 1);
            inputs.insert(at, "odd.to".into());
            c.count("tl: malformed relocation");
        }
        9 => {
            if c.src.chance(1, 2) {
                return tl_too_much(c, inputs, plan, exe.then_some(entry));
            }
            let seg = *c.src.pick(&[TEXT, DATA, RODATA]);
            let n = c.src.range(2, 3);
            let other = *c.src.pick(&[TEXT, DATA, seg]);
            for i in 0..n {
                let len = if n == 2 { c.src.range(33_000, 65_000) } else { c.src.range(22_000, 60_000) } as usize;
                let o = Obj { segs: vec![(if i == 0 { other } else { seg }, 0, vec![0x20; len])], ..Obj::default() };
                c.ps().put(&format!("big{i}.to"), &o.encode(), 0o644);
                inputs.push(format!("big{i}.to"));
            }
            c.count("tl: too big");
        }
        4 => {
            e = true;
            inputs = vec![];
            add(c, &mut inputs, "extra", ".seg text\nf:\nhalt\n")?;
            entry = if c.src.chance(1, 2) { Some((*c.src.pick(&["f", "absent", "0xzz", "0x12345"])).into()) } else { None };
            if c.src.chance(1, 4) {
                // nothing refers to it, or something does
                let t = *c.src.pick(&[".ref u\n", ".ref u\n.seg text\nhalt\n", ".ref u\n.seg data\n.byte 1\n", ".ref u\n.seg text\ncall u\n"]);
                add(c, &mut inputs, "extra2", t)?;
                entry = Some("u".into());
                c.count("tl: undefined entry");
            }
            c.count("tl: no entry");
        }
        5 => {
            let bad = c.src.below(3);
            if bad == 0 {
                args.extend(["-l".into(), "absent.savn".into()]);
            } else {
                let n = c.src.below(40) as usize;
                let mut b = if bad == 1 { AR_MAGIC.to_vec() } else { vec![] };
                b.extend(c.src.bytes(n).iter().map(|x| x & 0x7f));
                c.ps().put("bad.savn", &b, 0o644);
                args.extend(["-l".into(), "bad.savn".into()]);
            }
            c.count("tl: archive");
        }
        _ => fault = true,
    }
    let mut all = inputs.clone();
    if fault && all.len() > 1 && c.src.chance(1, 3) && all.len() > 1 {
        // some of the inputs come from an archive
        let keep = c.src.range(1, all.len() as u64 - 1) as usize;
        let mut a: Vec<String> = all.drain(keep..).collect();
        a.extend(["-o".into(), "lib.savn".into()]);
        let o = c.run("tar", &refs(&a), b"", &Plan::default());
        must_succeed("tar", &o)?;
        args.extend(["-l".into(), "lib.savn".into()]);
        // what is missing now may be undefined
        e = false;
    }
    let ins: Vec<String> = all.iter().cloned().chain(["lib.savn".to_string()]).collect();
    all.extend(args);
    all.extend(["-o".into(), "out.x".into()]);
    if e {
        all.push("-e".into());
        if let Some(s) = &entry {
            all.extend(["-E".into(), s.clone()]);
        }
    }
    let before = sentinel(c, "out.x");
    let mut seek = false;
    if fault {
        let s = c.ps().snapshot();
        let clean = c.run("tl", &refs(&all), b"", &plan);
        must_succeed("tl", &clean)?;
        c.ps().restore(&s);
        match read_fault(c, &clean, &refs(&ins)) {
            Some((f, s)) => {
                plan.faults.push(f);
                seek = s;
            }
            None => return Ok(()),
        }
        c.count("tl: read error");
        c.nontrivial = true;
    }
    let s = c.ps().snapshot();
    let o = c.run("tl", &refs(&all), b"", &plan);
    if tolerated(c, "tl", &all, &plan, seek, &s, &o) {
        return Ok(());
    }
    failed("tl", &o)?;
    untouched(c, "tl", "out.x", &before)
}

/// Each of the inputs fits the format, but not all of them together
fn tl_too_much(c: &mut Ctx, mut inputs: Vec<String>, plan: Plan, entry: Option<Option<String>>) -> Res {
    c.count("tl: too much for the format");
    let names = c.src.chance(1, 2);
    let n = c.src.range(2, 3);
    for i in 0..n {
        let mut o = Obj::default();
        let len = (*c.src.pick(&[200, 2000, 20_000])).min(60_000 / n as usize);
        o.segs.push((DATA, 0, vec![0; len]));
        if names {
            for k in 0..40 {
                o.syms.push(Sym { name: format!("n{i}_{k}{}", "y".repeat(900)).into_bytes(), global: c.src.chance(1, 2), seg: DATA, loc: k });
            }
        } else {
            o.syms.push(Sym { name: b"here".to_vec(), global: false, seg: DATA, loc: 3 });
            o.relocs = (0..7000).map(|k| (DATA, (k % (len - 1)) as u16, 0)).collect();
        }
        c.ps().put(&format!("much{i}.to"), &o.encode(), 0o644);
        let at = inputs.len() - c.src.usize(inputs.len() + 1);
        inputs.insert(at, format!("much{i}.to"));
    }
    let mut all = inputs;
    all.extend(["-o".into(), "out.x".into()]);
    if let Some(e) = entry {
        all.push("-e".into());
        if let Some(s) = e {
            all.extend(["-E".into(), s]);
        }
    }
    let before = sentinel(c, "out.x");
    let o = c.run("tl", &refs(&all), b"", &plan);
    failed("tl", &o)?;
    untouched(c, "tl", "out.x", &before)
}

fn tstrip(c: &mut Ctx) -> Res {
    let n = c.src.range(1, 4) as usize;
    let mut names = Vec::new();
    for i in 0..n {
        let mut o = super::ops::small_object(c);
        o.entry.get_or_insert((TEXT, 128));
        let mut b = if c.src.chance(1, 3) { b"#!/bin/env t\n".to_vec() } else { vec![] };
        b.extend(o.encode());
        let mode = *c.src.pick(&[0o644, 0o755, 0o600]);
        let name = format!("f{i}.to");
        c.ps().put(&name, &b, mode);
        names.push(name);
    }
    c.nontrivial = true;
    let all = c.src.chance(1, 2);
    let mut plan = noise(&mut c.src);
    let mut bad = vec![c.src.usize(n)];
    for i in 0..n {
        if !bad.contains(&i) && c.src.chance(1, 4) {
            bad.push(i);
        }
    }
    let mut real_bad = Vec::new();
    let mut fault_in = None;
    for &i in &bad {
        let b = c.ps().get(&names[i]).unwrap_or_default();
        match c.src.below(4) {
            0 => {
                c.ps().remove(&names[i]);
                if c.src.chance(1, 3) {
                    c.ps().mkdir(&names[i]);
                }
                c.count("tstrip: missing");
                real_bad.push(i);
            }
            1 => {
                let d = damage(c, &b);
                c.ps().put(&names[i], &d, 0o644);
                c.count("tstrip: damaged");
                real_bad.push(i);
            }
            2 if all => {
                let mut o = super::ops::small_object(c);
                o.entry = None;
                c.ps().put(&names[i], &o.encode(), 0o644);
                c.count("tstrip: no entry");
                real_bad.push(i);
            }
            _ => fault_in = Some(i),
        }
    }
    let mut args = names.clone();
    if all {
        args.insert(0, "-a".into());
    }
    let mut seek = false;
    if let Some(i) = fault_in {
        let s = c.ps().snapshot();
        let clean = c.run("tstrip", &refs(&args), b"", &plan);
        ordinary("tstrip", &clean)?;
        c.ps().restore(&s);
        if let Some((f, s)) = read_fault(c, &clean, &[&names[i]]) {
            plan.faults.push(f);
            seek = s;
            real_bad.push(i);
            c.count("tstrip: read error");
        }
    }
    if real_bad.is_empty() {
        return Ok(());
    }
    let before: Vec<_> = (0..n).map(|i| ops::now(c, &names[i])).collect();
    let good: Vec<usize> = (0..n).filter(|i| !real_bad.contains(i)).collect();
    let s = c.ps().snapshot();
    let mut expected = Vec::new();
    if !good.is_empty() {
        let mut g: Vec<String> = good.iter().map(|&i| names[i].clone()).collect();
        if all {
            g.insert(0, "-a".into());
        }
        let o = c.run("tstrip", &refs(&g), b"", &Plan::default());
        must_succeed("tstrip", &o)?;
        for &i in &good {
            expected.push((i, ops::now(c, &names[i])));
        }
        c.ps().restore(&s);
    }
    let s = c.ps().snapshot();
    let o = c.run("tstrip", &refs(&args), b"", &plan);
    if tolerated(c, "tstrip", &args, &plan, seek, &s, &o) {
        return Ok(());
    }
    failed("tstrip", &o)?;
    for i in real_bad {
        untouched(c, "tstrip", &names[i], &before[i])?;
    }
    for (i, e) in expected {
        let n = ops::now(c, &names[i]);
        check!(n == e, "others not processed", "tstrip: {} is {} instead of {}, which it becomes without the bad files", names[i], show(&n), show(&e));
    }
    Ok(())
}

fn tar(c: &mut Ctx) -> Res {
    let n = c.src.range(1, 5) as usize;
    let mut names = Vec::new();
    for i in 0..n {
        let b = super::ops::small_object(c).encode();
        let name = format!("f{i}.to");
        c.ps().put(&name, &b, 0o644);
        names.push(name);
    }
    let k = c.src.usize(n);
    let mut args = names.clone();
    args.extend(["-o".into(), "out.savn".into()]);
    let mut plan = noise(&mut c.src);
    let fault = c.src.chance(1, 2);
    if !fault {
        c.ps().remove(&names[k]);
        if c.src.chance(1, 3) {
            c.ps().mkdir(&names[k]);
        }
        c.count("tar: missing");
    }
    let before = sentinel(c, "out.savn");
    let mut seek = false;
    if fault {
        let s = c.ps().snapshot();
        let clean = c.run("tar", &refs(&args), b"", &plan);
        must_succeed("tar", &clean)?;
        c.ps().restore(&s);
        match read_fault(c, &clean, &[&names[k]]) {
            Some((f, s)) => {
                plan.faults.push(f);
                seek = s;
            }
            None => return Ok(()),
        }
        c.count("tar: read error");
        c.nontrivial = true;
    }
    let s = c.ps().snapshot();
    let o = c.run("tar", &refs(&args), b"", &plan);
    if tolerated(c, "tar", &args, &plan, seek, &s, &o) {
        return Ok(());
    }
    failed("tar", &o)?;
    untouched(c, "tar", "out.savn", &before)
}
