//! Stripping in place is all-or-nothing
use super::common::*;
use super::ops::{self, Kind, Op};
use crate::check;
use crate::obj::*;
use crate::psim::*;
use crate::run::{Ctx, Prop, Res};

pub const PROP: Prop = Prop {
    id: "C05",
    run,
    quick: 30_000,
    thorough: 2_000_000,
    level: "fault_enumeration",
    rule: "a run strips one to three files (leading text, modes, symbolic links, a directory), checks by an independent decoder what stripping removed, and repeats it with a kill, an error of any call, a lasting error, or a full disk, and then sometimes once more after the interruption; each named file must be the original or the complete stripped object with the original's mode; non-trivial: a fault fired; distinct by the sequence of calls, faults and results",
    real: REAL,
    stub: STUB,
    assumptions: &["a killed process loses nothing it handed to the operating system"],
    probes: &["original kept", "stripped completely", "fault: kill inside the transfer on write", "fault: error on rename", "fault: error on read", "fault: error on write", "fault: disk full on write", "repeated after an interruption"],
};

fn run(c: &mut Ctx) -> Res {
    let op = ops::make(c, &[Kind::Tstrip])?;
    let all = op.args.iter().any(|a| a == "-a");
    for out in &op.outs {
        let b = &out.before.as_ref().expect("HARNESS: original").1;
        stripped_as_promised(&out.name, b, &out.after.1, all)?;
        let m = out.before.as_ref().unwrap().0;
        check!(out.after.0 == m, "permissions", "{} had mode {m:o} and has {:o} after stripping", out.name, out.after.0);
    }
    for _ in 0..c.src.range(1, 3) {
        faulty(c, &op)?;
        let before = op.before.clone();
        c.ps().restore(&before);
        c.ps().clear_temporaries(&before);
    }
    Ok(())
}

fn stripped_as_promised(name: &str, before: &[u8], after: &[u8], all: bool) -> Res {
    let Some((mut o, _)) = decode(before, 0) else { panic!("HARNESS: original") };
    let Some((s, end)) = decode(after, 0) else {
        return crate::run::fail("unreadable", format!("{name} is no object file any more"));
    };
    if all {
        o.syms.clear();
        o.relocs.clear();
    } else {
        for y in &mut o.syms {
            if !y.global {
                y.name.clear();
            }
        }
    }
    check!(s == o, "stripped wrongly", "stripping changed more in {name} than the names of internal symbols{}", if all { " and the tables" } else { "" });
    let at = o.offset as usize;
    check!(after[..at] == before[..at], "stripped wrongly", "stripping changed the leading text of {name}");
    check!(end == after.len(), "stripped wrongly", "{} bytes follow the object in {name}", after.len() - end);
    Ok(())
}

fn faulty(c: &mut Ctx, op: &Op) -> Res {
    let mut plan = op.plan.clone();
    let evs: Vec<Event> = op.clean.events.iter().filter(|e| e.faultable() && e.path > 2).cloned().collect();
    let writes: Vec<Event> = evs.iter().filter(|e| is_write_op(e.op)).cloned().collect();
    for _ in 0..(1 + c.src.weighted(&[5, 1])) {
        let e = if c.src.chance(2, 3) && !writes.is_empty() {
            let mut kinds: Vec<u16> = writes.iter().map(|e| e.op).collect();
            kinds.sort();
            kinds.dedup();
            let k = *c.src.pick(&kinds);
            let of: Vec<&Event> = writes.iter().filter(|e| e.op == k).collect();
            (*c.src.pick(&of)).clone()
        } else {
            c.src.pick(&evs).clone()
        };
        let err = *c.src.pick(&super::c02::HARD);
        let f = match c.src.weighted(&[4, 3, 2, 2, 1, 1, 1]) {
            0 => Fault { idx: e.idx, kind: F_ERR, err, arg: 0 },
            1 if matches!(e.op, OP_WRITE | OP_CFR | OP_SENDFILE) => Fault { idx: e.idx, kind: F_KILL_MID, err, arg: c.src.below(e.ret.max(1) as u64) as u32 },
            1 | 2 => Fault { idx: e.idx, kind: F_KILL_BEFORE, err, arg: 0 },
            3 => Fault { idx: e.idx, kind: F_KILL_AFTER, err, arg: 0 },
            4 => Fault { idx: e.idx, kind: F_ERR_WRITES, err, arg: 0 },
            5 => Fault { idx: e.idx, kind: F_ERR_PATH, err, arg: 0 },
            _ => {
                let total: usize = op.outs.iter().map(|o| o.after.1.len() + o.before.as_ref().map_or(0, |b| b.1.len())).sum();
                plan.disk = c.src.below(total as u64 + 1) as i64;
                continue;
            }
        };
        plan.faults.push(f);
    }
    let o = op.run(c, &plan);
    ordinary(op.tool, &o)?;
    let fired = o.faults_fired().any(|e| e.fault < 100 || e.fault == 102);
    c.nontrivial |= fired;
    let mut done = 0;
    for out in op.outs.clone() {
        let (m0, b0) = out.before.clone().unwrap();
        let Some((m, b)) = ops::now(c, &out.name) else {
            return crate::run::fail("lost", format!("{} is gone after tstrip was interrupted", out.name));
        };
        check!(m == m0, "permissions", "{} had mode {m0:o} and has {m:o} after tstrip was interrupted", out.name);
        if b == out.after.1 {
            c.count("stripped completely");
            done += 1;
        } else {
            check!(b == b0, "torn", "{} is neither the original nor the stripped object after tstrip was interrupted: {} (the original has {} bytes)", out.name, diff(&b, &out.after.1), b0.len());
            c.count("original kept");
        }
    }
    if o.ok() {
        check!(done == op.outs.len(), "success without stripping", "tstrip exits with success, but only {done} of {} files are stripped", op.outs.len());
    }
    if c.src.chance(1, 3) {
        c.count("repeated after an interruption");
        let again = op.run(c, &op.plan);
        must_succeed("tstrip", &again)?;
        for out in &op.outs {
            let n = ops::now(c, &out.name);
            check!(n.as_ref() == Some(&out.after), "repeated", "stripping {} again after an interruption gives something else", out.name);
        }
    }
    Ok(())
}
