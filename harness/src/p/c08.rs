//! Builds are reproducible
use super::common::*;
use super::ops::{self, Kind};
use crate::check;
use crate::obj::*;
use crate::prog;
use crate::psim::*;
use crate::run::{Ctx, Prop, Res};

pub const PROP: Prop = Prop {
    id: "C08",
    run,
    quick: 25_000,
    thorough: 2_000_000,
    level: "exploration",
    rule: "a run prepares one command (tc, tl, tl -e, tar, tstrip on generated programs; tl with and without -l on objects with many symbols; tobjdump on objects, executables and archives; also commands that fail) and runs it several times, each time with other process entropy, another splitting of transfers and another content of the output file before; output bytes, standard output and exit status must agree; non-trivial: at least one value of entropy was drawn by the process or a transfer was split; distinct by the sequence of calls, faults and results",
    real: REAL,
    stub: STUB,
    assumptions: &["the hash seeds come from getrandom, which the simulator answers"],
    probes: &["tool: tc", "tool: tl", "tool: tar", "tool: tstrip", "tool: tobjdump", "failing command", "processes that drew entropy", "other content before"],
};

fn run(c: &mut Ctx) -> Res {
    match c.src.weighted(&[5, 4, 4, 1]) {
        0 => {
            let op = ops::make(c, &[Kind::Tc, Kind::Tl, Kind::Tle, Kind::Tar, Kind::Tstrip])?;
            let outs: Vec<String> = op.outs.iter().map(|o| o.name.clone()).collect();
            repeat(c, op.tool, &op.args, &outs, op.kind != Kind::Tstrip)
        }
        1 => linking(c),
        2 => showing(c),
        _ => failing(c),
    }
}

fn repeat(c: &mut Ctx, tool: &str, args: &[String], outs: &[String], may_replace: bool) -> Res {
    c.count(&format!("tool: {tool}"));
    let before = c.ps().snapshot();
    let mut first: Option<(Option<i32>, Vec<u8>, Vec<Option<Vec<u8>>>)> = None;
    for k in 0..c.src.range(2, 4) {
        if k > 0 && may_replace {
            // whether a failing command touches the output is not decided here
            if first.as_ref().unwrap().0 == Some(0) {
                for o in outs {
                    match c.src.below(4) {
                        0 => (),
                        1 => c.ps().remove(o),
                        _ => {
                            let n = c.src.size(300, 20_000) as usize;
                            let b = if c.src.chance(1, 3) { ops::small_object(c).encode() } else { c.src.bytes(n) };
                            c.ps().put(o, &b, 0o644);
                            c.count("other content before");
                        }
                    }
                }
            }
        }
        let plan = noise(&mut c.src);
        let o = c.run(tool, &refs(args), b"", &plan);
        ordinary(tool, &o)?;
        if o.entropy_calls > 0 {
            c.count("processes that drew entropy");
            c.nontrivial = true;
        }
        c.nontrivial |= o.faults_fired().next().is_some();
        if !o.ok() {
            c.count("failing command");
        }
        let got = (o.code, o.stdout.clone(), outs.iter().map(|n| c.ps().get(n)).collect::<Vec<_>>());
        match &first {
            None => first = Some(got),
            Some(f) => {
                check!(f.0 == got.0, "exit status", "{tool} repeated ends with {:?} instead of {:?}", got.0, f.0);
                check!(f.1 == got.1, "standard output", "{tool} repeated prints something else: {}", diff(&got.1, &f.1));
                for (i, n) in outs.iter().enumerate() {
                    check!(f.2[i] == got.2[i], "output", "{tool} repeated writes another {n}: {}", diff(got.2[i].as_deref().unwrap_or_default(), f.2[i].as_deref().unwrap_or_default()));
                }
            }
        }
        c.ps().restore(&before);
    }
    Ok(())
}

/// Objects with many symbols, some of them undefined or doubly defined
fn linking(c: &mut Ctx) -> Res {
    let pool: Vec<String> = (0..c.src.range(2, 30)).map(|i| format!("s{i}")).collect();
    let n = c.src.range(1, 6) as usize;
    let double = c.src.chance(1, 8);
    let mut taken: Vec<String> = Vec::new();
    let mut names = Vec::new();
    for i in 0..n {
        let mut d = Vec::new();
        let mut r = Vec::new();
        for p in &pool {
            match c.src.below(6) {
                0 | 1 if double || !taken.contains(p) => d.push(p.clone()),
                2 => r.push(p.clone()),
                _ => (),
            }
        }
        taken.extend(d.iter().cloned());
        let local = c.src.chance(1, 2);
        let o = super::c07::object(c, &d, &r, local);
        let name = format!("o{i}.to");
        c.ps().put(&name, &o.encode(), 0o644);
        names.push(name);
    }
    c.note(|| format!("{n} objects, {} symbols", pool.len()));
    let mut args = vec![names[0].clone()];
    let mut libs: Vec<Vec<u8>> = Vec::new();
    for n in &names[1..] {
        let b = c.ps().get(n).unwrap();
        match c.src.below(3) {
            0 => args.push(n.clone()),
            k => {
                if libs.is_empty() || (k == 2 && libs.len() < 2) {
                    libs.push(AR_MAGIC.to_vec());
                }
                libs.last_mut().unwrap().extend(b);
            }
        }
    }
    for (i, l) in libs.iter().enumerate() {
        let name = format!("lib{i}.savn");
        c.ps().put(&name, l, 0o644);
        args.extend(["-l".into(), name]);
    }
    if c.src.chance(1, 2) {
        args.extend(["-e".into(), "-E".into(), c.src.pick(&["0x80", "s0", "s1"]).to_string()]);
    }
    if c.src.chance(1, 3) {
        args.push("-S".into());
    }
    args.extend(["-o".into(), "out.x".into()]);
    repeat(c, "tl", &args, &["out.x".into()], true)
}

fn showing(c: &mut Ctx) -> Res {
    let mut args: Vec<String> = Vec::new();
    let mut names = Vec::new();
    let mut bytes = Vec::new();
    if c.src.chance(1, 2) {
        let p = some_prog(c, &prog::Opts { modules: 3, ..Default::default() })?;
        let objs = p.objects();
        if c.src.chance(1, 2) {
            let mut a = refs(&objs);
            a.extend(["-o", "exe", "-e"]);
            if let Some(e) = &p.entry_sym {
                a.extend(["-E", e]);
            }
            let o = c.run("tl", &a, b"", &Plan::default());
            must_succeed("tl", &o)?;
            names.push("exe".to_string());
        } else {
            names.extend(objs);
        }
        for n in &names {
            bytes.push(c.ps().get(n).unwrap_or_default());
        }
    } else {
        for i in 0..c.src.range(1, 3) {
            let mut o = gen_obj(&mut c.src, &ObjSizes { seg: 100, seg_max: 3000, syms: 12, syms_max: 60 });
            // symbols that share a location, and inside of the segments
            if let Some(s) = o.segs.iter().find(|s| s.0 == TEXT && !s.2.is_empty()).cloned() {
                for y in &mut o.syms {
                    if y.loc & 3 != 0 {
                        y.loc = s.1.wrapping_add(y.loc % s.2.len() as u16);
                    }
                }
                for r in &mut o.relocs {
                    r.1 = s.1.wrapping_add(r.1 % s.2.len() as u16);
                }
            }
            let name = format!("o{i}.to");
            c.ps().put(&name, &o.encode(), 0o644);
            names.push(name);
            bytes.push(o.encode());
        }
    }
    if c.src.chance(1, 4) {
        let mut a = AR_MAGIC.to_vec();
        for b in &bytes {
            a.extend(&b[b.windows(MAGIC.len()).position(|w| w == MAGIC).unwrap_or(0)..]);
        }
        c.ps().put("x.savn", &a, 0o644);
        names = vec!["x.savn".into()];
    }
    args.push(c.src.pick(&["-t", "-d", "-dR", "-tdR"]).to_string());
    if args[0].contains('d') && c.src.chance(1, 6) && names.len() == 1 {
        // from one of its symbols on, if it has one with a name
        if let Some((o, _)) = decode(&bytes[0], 0) {
            let with_name: Vec<String> = o.syms.iter().filter_map(|s| String::from_utf8(s.name.clone()).ok()).filter(|n| !n.is_empty() && n.trim() == n && !n.contains(',')).collect();
            if !with_name.is_empty() && names[0] != "x.savn" {
                args.extend(["-D".into(), c.src.pick(&with_name).clone()]);
            }
        }
    }
    args.extend(names);
    repeat(c, "tobjdump", &args, &[], false)
}

/// Commands that fail fail every time
fn failing(c: &mut Ctx) -> Res {
    let p = prog::gen(&mut c.src, &prog::Opts { modules: 3, ..Default::default() });
    put_prog(c, &p);
    for f in &p.files {
        if c.src.chance(1, 2) {
            let mut t = f.1.clone().into_bytes();
            t.extend(c.src.pick(&[&b"\n.seg text\nbogus\n"[..], b"\n.seg text\njmp nowhere_at_all\n call nor_here\n", b"\n.include not_there.telda\n", b"\n.ref r\n.ref q\n.seg text\nr:\nq:\n"]).iter());
            c.ps().put(&f.0, &t, 0o644);
        }
    }
    let s = p.sources();
    repeat(c, "tc", &s, &p.objects(), false)
}
