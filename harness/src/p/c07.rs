//! Archives deliver their members intact and in order
use super::common::*;
use crate::check;
use crate::obj::*;
use crate::prog;
use crate::psim::*;
use crate::run::{Ctx, Prop, Res};
use std::collections::BTreeMap;

pub const PROP: Prop = Prop {
    id: "C07",
    run,
    quick: 25_000,
    thorough: 2_000_000,
    level: "exploration",
    rule: "a run makes an archive with tar under splitting and interruption of its calls, reads it back through the library in another process under other splits (and through tobjdump), cuts it and reads what is left; or links objects against archives with -l and compares with naming the members that a reference selection needs; non-trivial: several members, or members selected; distinct by the sequence of calls, faults and results",
    real: REAL,
    stub: STUB,
    assumptions: &[],
    probes: &["members read", "cut between members", "cut inside a member", "members selected", "members not selected", "selected because they leave undefined", "not selected as it defines what another member does", "several archives", "member announced", "fault: noise: short transfer on write"],
};

fn run(c: &mut Ctx) -> Res {
    match c.src.weighted(&[3, 4]) {
        0 => members(c),
        _ => libraries(c),
    }
}

fn members(c: &mut Ctx) -> Res {
    let n = c.src.range(1, 5) as usize;
    let mut objs = Vec::new();
    let mut names = Vec::new();
    for i in 0..n {
        let z = if c.src.chance(1, 12) { ObjSizes { seg: 3000, seg_max: 60_000, syms: 100, syms_max: 2000 } } else { ObjSizes { seg: 40, seg_max: 2000, syms: 4, syms_max: 40 } };
        let mut o = gen_obj(&mut c.src, &z);
        if !o.fits() {
            o.syms.clear();
        }
        let b = o.encode();
        let name = format!("o{i}.to");
        c.ps().put(&name, &b, 0o644);
        objs.push((o, b));
        names.push(name);
    }
    // the same file can be given twice
    let mut order: Vec<usize> = (0..n).collect();
    c.src.shuffle(&mut order);
    if c.src.chance(1, 6) {
        order.push(0);
    }
    let mut args: Vec<String> = order.iter().map(|&i| names[i].clone()).collect();
    args.extend(["-o".into(), "a.savn".into()]);
    if c.src.chance(1, 3) {
        let n = c.src.size(100, 9000) as usize;
        let b = c.src.bytes(n);
        c.ps().put("a.savn", &b, 0o644);
    }
    let plan = noise(&mut c.src);
    let o = c.run("tar", &refs(&args), b"", &plan);
    must_succeed("tar", &o)?;
    let mut expected = AR_MAGIC.to_vec();
    let mut ends = vec![expected.len()];
    for &i in &order {
        expected.extend(&objs[i].1);
        ends.push(expected.len());
    }
    let got = c.ps().get("a.savn").unwrap_or_default();
    check!(got == expected, "archive", "the archive does not hold the members: {}", diff(&got, &expected));
    c.nontrivial = order.len() > 1;

    let list: Vec<Obj> = order
        .iter()
        .enumerate()
        .map(|(k, &i)| Obj { offset: ends[k] as u64, ..objs[i].0.clone() })
        .collect();
    let (got, ok) = read_members(c, "a.savn")?;
    check!(ok, "refused", "reading a good archive fails");
    same(&got, &list)?;
    check!(got.len() == list.len(), "lost members", "{} of {} members are read", got.len(), list.len());
    c.add("members read", list.len() as u64);
    if c.src.chance(1, 3) {
        shown(c, order.iter().map(|&i| names[i].as_str()).collect())?;
    }

    for _ in 0..c.src.below(4) {
        let at = if c.src.chance(1, 3) { *c.src.pick(&ends) } else if c.src.chance(1, 3) { (*c.src.pick(&ends) + c.src.usize(12)).min(expected.len()) } else { c.src.usize(expected.len()) };
        c.note(|| format!("archive cut to {at} of {} bytes, members end at {ends:?}", expected.len()));
        c.ps().put("cut.savn", &expected[..at], 0o644);
        let intact = ends[1..].iter().filter(|&&e| e <= at).count();
        let between = ends[1..].contains(&at);
        let (got, ok) = read_members(c, "cut.savn")?;
        check!(got.len() <= intact, "torn member", "{} members are read although only {intact} are complete", got.len());
        same(&got, &list)?;
        if between {
            c.count("cut between members");
            check!(ok && got.len() == intact, "lost members", "{} of {intact} members are read from an archive cut between two members, then {}", got.len(), if ok { "the end" } else { "an error" });
        } else {
            c.count("cut inside a member");
            check!(!ok, "accepted", "an archive cut inside a member is read without an error");
            check!(got.len() == intact, "lost members", "{} of {intact} intact members are read", got.len());
            let plan = noise(&mut c.src);
            let (tool, args): (&str, &[&str]) = if c.src.chance(1, 2) { ("tobjdump", &["-t", "cut.savn"]) } else { ("tl", &["o0.to", "-l", "cut.savn", "-o", "x.to"]) };
            let o = c.run(tool, args, b"", &plan);
            ordinary(tool, &o)?;
            check!(!o.ok(), "accepted", "{tool} accepts an archive cut inside a member");
        }
    }
    Ok(())
}

fn same(got: &[Obj], list: &[Obj]) -> Res {
    for (k, (g, o)) in got.iter().zip(list).enumerate() {
        check!(g == o, "altered member", "member {k} is read as another object: {g:?} instead of {o:?}");
    }
    Ok(())
}

fn read_members(c: &mut Ctx, file: &str) -> Result<(Vec<Obj>, bool), crate::run::Fail> {
    let plan = noise(&mut c.src);
    let o = c.run("dsth", &["read-ar", file], b"", &plan);
    ordinary("reading an archive", &o)?;
    let t = String::from_utf8_lossy(&o.stdout).into_owned();
    let v = t.split("member ").skip(1).map(|m| Obj::from_text(m.split_once('\n').unwrap().1)).collect();
    Ok((v, o.ok()))
}

/// What tobjdump shows of the archive is what it shows of the members
fn shown(c: &mut Ctx, names: Vec<&str>) -> Res {
    let flag = *c.src.pick(&["-t", "-dR", "-td"]);
    let plan = noise(&mut c.src);
    let mut a = vec![flag];
    a.extend(&names);
    let x = c.run("tobjdump", &a, b"", &Plan::default());
    must_succeed("tobjdump", &x)?;
    let y = c.run("tobjdump", &[flag, "a.savn"], b"", &plan);
    must_succeed("tobjdump", &y)?;
    // the headings name the files
    let mut expected = String::from_utf8_lossy(&x.stdout).into_owned();
    let mut k = 0;
    let mut out = String::new();
    for l in expected.split_inclusive('\n') {
        if k < names.len() && l == format!("{}:\n", names[k]) {
            k += 1;
            out += &format!("a.savn.{k}:\n");
        } else {
            out += l;
        }
    }
    std::mem::swap(&mut expected, &mut out);
    let got = String::from_utf8_lossy(&y.stdout);
    check!(got == expected, "shown", "tobjdump shows the archive as\n{got}\nand its members as\n{expected}");
    Ok(())
}

/// An object that defines some names and refers to others
pub fn object(c: &mut Ctx, defines: &[String], refers: &[String], local: bool) -> Obj {
    let mut o = Obj::default();
    for t in [DATA, TEXT, RODATA] {
        if c.src.chance(2, 3) || (t == TEXT && o.segs.is_empty()) {
            let n = 4 + c.src.size(30, 300) as usize;
            let at = 128 * c.src.range(1, 20) as u16;
            let b = c.src.bytes(n);
            o.segs.push((t, at, b));
        }
    }
    o.segs.sort_by_key(|s| s.0);
    let mut syms = Vec::new();
    for d in defines {
        let s = c.src.pick(&o.segs).clone();
        syms.push(Sym { name: d.clone().into_bytes(), global: true, seg: s.0, loc: s.1 + c.src.below(s.2.len() as u64) as u16 });
    }
    for r in refers {
        syms.push(Sym { name: r.clone().into_bytes(), global: true, seg: UNKNOWN, loc: c.src.below(30) as u16 });
    }
    if local {
        let s = c.src.pick(&o.segs).clone();
        // an internal symbol can have the name of any global one
        syms.push(Sym { name: b"s1".to_vec(), global: false, seg: s.0, loc: s.1 });
    }
    c.src.shuffle(&mut syms);
    for i in 0..syms.len() {
        for _ in 0..c.src.below(3) {
            let s = c.src.pick(&o.segs).clone();
            o.relocs.push((s.0, s.1 + c.src.below(s.2.len() as u64 - 1) as u16, i as u16));
        }
    }
    o.syms = syms;
    if c.src.chance(1, 6) {
        o.entry = Some((o.segs[0].0, o.segs[0].1));
    }
    o
}

fn globals(o: &Obj) -> BTreeMap<Vec<u8>, bool> {
    let mut m = BTreeMap::new();
    for s in o.syms.iter().filter(|s| s.global) {
        *m.entry(s.name.clone()).or_insert(false) |= s.seg != UNKNOWN;
    }
    m
}

fn libraries(c: &mut Ctx) -> Res {
    let pool: Vec<String> = (0..c.src.range(2, 12)).map(|i| format!("s{i}")).collect();
    let n_in = c.src.range(1, 3) as usize;
    let n_lib = c.src.range(1, 6) as usize;
    // who defines what: each name one object, or two members
    let mut defs = vec![Vec::new(); n_in + n_lib];
    for p in &pool {
        let d = c.src.usize(n_in + n_lib + 1);
        if d < n_in + n_lib {
            defs[d].push(p.clone());
        }
        if d >= n_in && c.src.chance(1, 4) {
            let other = n_in + c.src.usize(n_lib);
            if other != d {
                defs[other].push(p.clone());
            }
        }
    }
    let mut objs = Vec::new();
    for d in &defs {
        let mut r = Vec::new();
        for p in &pool {
            if !d.contains(p) && c.src.chance(1, 5) {
                r.push(p.clone());
            }
        }
        let local = c.src.chance(1, 3);
        objs.push(object(c, d, &r, local));
    }
    for (i, o) in objs.iter().enumerate() {
        c.ps().put(&format!("o{i}.to"), &o.encode(), 0o644);
        c.note(|| format!("o{i}.to defines {:?} and refers to {:?}", defs[i], o.syms.iter().filter(|s| s.global && s.seg == UNKNOWN).map(|s| text(&s.name)).collect::<Vec<_>>()));
    }
    // archives
    let n_ar = 1 + c.src.weighted(&[4, 2, 1]);
    let mut order: Vec<usize> = (n_in..n_in + n_lib).collect();
    c.src.shuffle(&mut order);
    let mut ars: Vec<Vec<usize>> = vec![Vec::new(); n_ar];
    for &i in &order {
        let k = c.src.usize(n_ar);
        ars[k].push(i);
    }
    ars.retain(|a| !a.is_empty());
    if ars.len() > 1 {
        c.count("several archives");
    }
    let mut link: Vec<String> = (0..n_in).map(|i| format!("o{i}.to")).collect();
    let mut named = link.clone();
    for (k, a) in ars.iter().enumerate() {
        let mut args: Vec<String> = a.iter().map(|i| format!("o{i}.to")).collect();
        args.extend(["-o".into(), format!("lib{k}.savn")]);
        c.note(|| format!("lib{k}.savn holds {a:?}"));
        let o = c.run("tar", &refs(&args), b"", &Plan::default());
        must_succeed("tar", &o)?;
        link.extend(["-l".into(), format!("lib{k}.savn")]);
    }
    // the reference selection
    let mut left: Vec<usize> = ars.concat();
    let mut inputs: BTreeMap<Vec<u8>, bool> = BTreeMap::new();
    for o in &objs[..n_in] {
        for (n, d) in globals(o) {
            *inputs.entry(n).or_insert(false) |= d;
        }
    }
    // of input objects: defined or not; of members only what they leave undefined counts
    let mut undefined: Vec<Vec<u8>> = inputs.iter().filter(|x| !x.1).map(|x| x.0.clone()).collect();
    let defined: Vec<Vec<u8>> = inputs.iter().filter(|x| *x.1).map(|x| x.0.clone()).collect();
    let mut provided: Vec<Vec<u8>> = Vec::new();
    let mut selected = Vec::new();
    while let Some(k) = left.iter().position(|&i| globals(&objs[i]).iter().any(|(n, &d)| if d { undefined.contains(n) && !provided.contains(n) } else { defined.contains(n) })) {
        let i = left.remove(k);
        let g = globals(&objs[i]);
        if !g.iter().any(|(n, &d)| d && undefined.contains(n) && !provided.contains(n)) {
            c.count("selected because they leave undefined");
        }
        provided.extend(g.iter().filter(|x| *x.1).map(|x| x.0.clone()));
        undefined.extend(g.into_iter().filter(|(n, d)| !d && !defined.contains(n)).map(|x| x.0));
        selected.push(i);
    }
    c.nontrivial = !selected.is_empty();
    c.add("members selected", selected.len() as u64);
    c.add("members not selected", left.len() as u64);
    if left.iter().any(|&i| globals(&objs[i]).iter().any(|(n, &d)| d && undefined.contains(n))) {
        c.count("not selected as it defines what another member does");
    }
    c.note(|| format!("selected: {selected:?}"));
    named.extend(selected.iter().map(|i| format!("o{i}.to")));
    let mut opts: Vec<String> = Vec::new();
    if c.src.chance(1, 3) {
        opts.push("-S".into());
    }
    if c.src.chance(1, 3) {
        opts.extend(["-A".into(), c.src.pick(&["1", "16", "256"]).to_string()]);
    }
    if c.src.chance(1, 2) {
        opts.extend(["-e".into(), "-E".into(), "0x80".into()]);
    }
    let mut a = link.clone();
    a.extend(opts.iter().cloned());
    a.extend(["-o".into(), "a.out".into()]);
    let verbose = c.src.chance(1, 3);
    if verbose {
        a.push(c.src.pick(&["-v", "--verbose"]).to_string());
    }
    let mut b = named.clone();
    b.extend(opts);
    b.extend(["-o".into(), "b.out".into()]);
    let plan = noise(&mut c.src);
    let x = c.run("tl", &refs(&a), b"", &plan);
    ordinary("tl", &x)?;
    let y = c.run("tl", &refs(&b), b"", &Plan::default());
    ordinary("tl", &y)?;
    check!(x.ok() == y.ok(), "selection", "linking with -l {} and naming the members {selected:?} {}: {} {}", x.status(), y.status(), text(&x.stderr), text(&y.stderr));
    let (fa, fb) = (c.ps().get("a.out"), c.ps().get("b.out"));
    check!(fa == fb, "selection", "linking with -l gives another output than naming the members {selected:?} (counting from {n_in}): {}", diff(&fa.unwrap_or_default(), &fb.unwrap_or_default()));
    if verbose {
        // which it says it takes, and for the sake of what
        let said = String::from_utf8_lossy(&x.stdout).into_owned();
        let mut taken = said.lines().filter_map(|l| l.strip_prefix("including ").map(|l| l.split_once(" because ").unwrap_or((l, ""))));
        for &i in &selected {
            let (k, j) = ars.iter().enumerate().find_map(|(k, a)| Some((k, a.iter().position(|&x| x == i)?))).unwrap();
            let name = format!("lib{k}.savn.{}", j + 1);
            match taken.next() {
                Some((n, why)) if n == name => {
                    let sym = why.split(' ').next().unwrap_or("");
                    check!(globals(&objs[i]).contains_key(sym.as_bytes()), "messages", "tl takes {name} for the sake of {sym:?}, which it neither defines nor leaves undefined");
                    c.count("member announced");
                }
                n => return crate::run::fail("messages", format!("tl says it takes {n:?} where it takes {name}")),
            }
        }
        let more = taken.next();
        check!(more.is_none(), "messages", "tl says it takes {more:?}, and it does not");
    }
    // and a whole program whose other modules come from an archive
    if c.src.chance(1, 6) {
        whole_program(c)?;
    }
    Ok(())
}

fn whole_program(c: &mut Ctx) -> Res {
    let p = some_prog(c, &prog::Opts { modules: 4, ..Default::default() })?;
    let main = format!("{}.to", p.mods[p.main_module]);
    let mut rest: Vec<String> = p.objects().into_iter().filter(|o| *o != main).collect();
    if rest.is_empty() {
        return Ok(());
    }
    c.src.shuffle(&mut rest);
    let mut args = rest.clone();
    args.extend(["-o".into(), "rest.savn".into()]);
    let plan = noise(&mut c.src);
    let o = c.run("tar", &refs(&args), b"", &plan);
    must_succeed("tar", &o)?;
    let mut link = vec![main.as_str(), "-l", "rest.savn", "-e", "-o", "prog"];
    if let Some(e) = &p.entry_sym {
        link.extend(["-E", e]);
    }
    let o = c.run("tl", &link, b"", &plan);
    must_succeed("tl", &o)?;
    let o = c.run("t", &["prog"], &p.input, &Plan::default());
    check!(o.stdout == p.output, "program", "the program linked with an archive prints {:?} instead of {:?}", text(&o.stdout), text(&p.output));
    Ok(())
}
