//! How a build is divided into steps does not matter
use super::common::*;
use crate::check;
use crate::prog::{self, End, Prog};
use crate::psim::*;
use crate::run::{Ctx, Prop, Res};
use std::collections::BTreeSet;

pub const PROP: Prop = Prop {
    id: "C09",
    run,
    quick: 15_000,
    thorough: 1_500_000,
    level: "exploration",
    rule: "a run generates a program of up to six modules whose output is known from its construction and builds it twice along different random histories of tc, tl (partial links, -S, -A), tstrip, tar and tl with or without -e (-l, -E), whose steps may fail or be killed at some call and are then repeated; each executable must print exactly that output; non-trivial: more than one module or more than the two necessary steps; distinct by the sequence of calls, faults and results",
    real: REAL,
    stub: STUB,
    assumptions: &["the generator's own evaluation of the program it generates (harness/src/prog.rs) is right"],
    probes: &["partial link", "stripped on the way", "archive", "step failed and repeated", "step killed and repeated", "linked again", "symbols removed at the end", "complete without -e", "odd alignment"],
};

fn run(c: &mut Ctx) -> Res {
    let (big, echo) = (c.src.chance(1, 8), c.src.chance(1, 4));
    let p = prog::gen(&mut c.src, &prog::Opts { modules: 6, ends: true, echo, big, ..Default::default() });
    put_prog(c, &p);
    let start = c.ps().snapshot();
    for k in 0..2 {
        c.note(|| format!("history {}", k + 1));
        history(c, &p)?;
        c.ps().restore(&start);
    }
    Ok(())
}

struct Unit {
    file: String,
    mods: BTreeSet<usize>,
}

/// Runs a step, sometimes with a fault or a kill first, until it has succeeded
fn step(c: &mut Ctx, tool: &str, args: &[String]) -> Res {
    let plan = noise(&mut c.src);
    if c.src.chance(1, 4) {
        let mut bad = plan.clone();
        let idx = c.src.size(25, 300) as u32;
        let (kind, err) = match c.src.below(5) {
            0 => (F_KILL_BEFORE, 0),
            1 => (F_KILL_AFTER, 0),
            2 => (F_KILL_MID, 0),
            3 => (F_ERR_WRITES, libc::ENOSPC),
            _ => (F_ERR, *c.src.pick(&[libc::EIO, libc::ENOSPC, libc::EACCES])),
        };
        bad.faults.push(Fault { idx, kind, err, arg: c.src.below(8) as u32 });
        let o = c.run(tool, &refs(args), b"", &bad);
        ordinary(tool, &o)?;
        if o.killed {
            c.count("step killed and repeated");
        } else if !o.ok() {
            check!(o.faults_fired().any(|e| e.fault < 100), "refused", "{tool} failed on good input: {}", text(&o.stderr));
            c.count("step failed and repeated");
        } else {
            return Ok(());
        }
    }
    let o = c.run(tool, &refs(args), b"", &plan);
    must_succeed(tool, &o)
}

fn alignment(c: &mut Ctx, args: &mut Vec<String>) {
    if c.src.chance(1, 4) {
        args.extend(["-A".into(), c.src.pick(&["128", "1", "2", "4", "32", "64", "256", "512"]).to_string()]);
        c.count("odd alignment");
    }
}

fn history(c: &mut Ctx, p: &Prog) -> Res {
    let n = p.mods.len();
    let mut order: Vec<usize> = (0..n).collect();
    c.src.shuffle(&mut order);
    // compile, one or several at a time
    let mut i = 0;
    while i < n {
        let k = c.src.range(1, (n - i) as u64) as usize;
        let a: Vec<String> = order[i..i + k].iter().map(|&m| format!("{}.telda", p.mods[m])).collect();
        step(c, "tc", &a)?;
        i += k;
    }
    let mut units: Vec<Unit> = order.iter().map(|&m| Unit { file: format!("{}.to", p.mods[m]), mods: BTreeSet::from([m]) }).collect();
    c.nontrivial |= n > 1;
    // steps in between
    let mut made = 0;
    for _ in 0..c.src.below(4) {
        match c.src.below(3) {
            0 | 1 => {
                c.src.shuffle(&mut units);
                let k = c.src.range(1, units.len() as u64) as usize;
                let group: Vec<Unit> = units.drain(..k).collect();
                let mut a: Vec<String> = group.iter().map(|u| u.file.clone()).collect();
                let out = format!("part{made}.to");
                made += 1;
                if c.src.chance(1, 3) {
                    a.push("-S".into());
                }
                alignment(c, &mut a);
                a.extend(["-o".into(), out.clone()]);
                step(c, "tl", &a)?;
                c.count("partial link");
                units.push(Unit { file: out, mods: group.iter().flat_map(|u| u.mods.iter().copied()).collect() });
            }
            _ => {
                let k = c.src.range(1, units.len() as u64) as usize;
                let a: Vec<String> = units[..k].iter().map(|u| u.file.clone()).collect();
                step(c, "tstrip", &a)?;
                c.count("stripped on the way");
            }
        }
        c.nontrivial = true;
    }
    c.src.shuffle(&mut units);
    // some in archives
    let mut named = Vec::new();
    let mut libs: Vec<Vec<String>> = Vec::new();
    let archives = c.src.chance(1, 2);
    for u in units {
        if u.mods.contains(&p.main_module) || !archives || c.src.chance(1, 3) {
            named.push(u.file);
        } else {
            if libs.is_empty() || (libs.len() < 2 && c.src.chance(1, 4)) {
                libs.push(Vec::new());
            }
            libs.last_mut().unwrap().push(u.file);
        }
    }
    let mut a = named;
    for (k, l) in libs.iter().enumerate() {
        let name = format!("lib{k}.savn");
        let mut t = l.clone();
        t.extend(["-o".into(), name.clone()]);
        step(c, "tar", &t)?;
        c.count("archive");
        a.extend(["-l".into(), name]);
    }
    let entry = |a: &mut Vec<String>| {
        if let Some(e) = &p.entry_sym {
            a.extend(["-E".into(), e.clone()]);
        }
    };
    if c.src.chance(1, 4) {
        a.push("-S".into());
    }
    alignment(c, &mut a);
    if p.entry_sym.is_none() && c.src.chance(1, 4) {
        // t runs any object that has an entry point
        c.count("complete without -e");
    } else {
        a.push("-e".into());
    }
    a.extend(["-o".into(), "prog".into()]);
    entry(&mut a);
    step(c, "tl", &a)?;
    let mut exe = "prog";
    if c.src.chance(1, 6) {
        c.count("linked again");
        let mut a: Vec<String> = ["prog", "-o", "prog2"].map(String::from).to_vec();
        if !c.src.chance(1, 8) {
            a.push("-e".into());
        }
        alignment(c, &mut a);
        step(c, "tl", &a)?;
        exe = "prog2";
    }
    if c.src.chance(1, 4) {
        let mut a = vec![exe.to_string()];
        if c.src.chance(1, 2) {
            a.push("-a".into());
            c.count("symbols removed at the end");
        }
        step(c, "tstrip", &a)?;
    }
    behaves(c, p, exe)
}

pub fn behaves(c: &mut Ctx, p: &Prog, exe: &str) -> Res {
    let plan = noise(&mut c.src);
    let o = c.run("t", &[exe], &p.input, &plan);
    ordinary("t", &o)?;
    check!(o.stdout == p.output, "behaviour", "{exe} prints something else than its sources say: {} ({})", diff(&o.stdout, &p.output), text(&o.stderr));
    check!(o.ok() == (p.end == End::Halt), "behaviour", "{exe} ends with {} {}, but its sources end with {:?}", o.status(), text(&o.stderr), p.end);
    Ok(())
}
