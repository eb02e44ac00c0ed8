//! An interrupted write never passes for a good file
use super::common::*;
use super::ops::{self, Kind, Op};
use crate::check;
use crate::obj::*;
use crate::psim::*;
use crate::run::{Ctx, Prop, Res};

pub const PROP: Prop = Prop {
    id: "C03",
    run,
    quick: 25_000,
    thorough: 2_000_000,
    level: "fault_enumeration",
    rule: "a run prepares one tc, tl, tl -e, tar or tstrip command, kills it before, inside or after one of its calls, or makes its writes fail or the disk full from one call on; whatever is left under the output's name must be what was there before, the complete new file, or be refused by tobjdump, tl, tstrip and t (an archive: readable at most as intact first members); non-trivial: the file left is neither old nor complete; distinct by the sequence of calls, faults and results",
    real: REAL,
    stub: STUB,
    assumptions: &["a killed process loses nothing it handed to the operating system; loss of power is not simulated, since the tools promise nothing about it"],
    probes: &["torn object", "torn archive", "complete", "untouched", "fault: kill inside the transfer on write", "fault: kill before the call on write", "fault: kill after the call on write", "fault: disk full on write", "fault: lasting error of all writes on write"],
};

fn run(c: &mut Ctx) -> Res {
    let op = ops::make(c, &[Kind::Tc, Kind::Tl, Kind::Tle, Kind::Tar, Kind::Tstrip])?;
    for _ in 0..c.src.range(1, 2) {
        interrupted(c, &op)?;
        let before = op.before.clone();
        c.ps().restore(&before);
    }
    Ok(())
}

/// A kill, failing writes or a full disk somewhere in the command
pub fn interruption(c: &mut Ctx, op: &Op) -> Option<Plan> {
    let mut plan = op.plan.clone();
    let writes: Vec<Event> = op.clean.events.iter().filter(|e| e.faultable() && is_write_op(e.op) && e.path > 2).cloned().collect();
    let all: Vec<Event> = op.clean.events.iter().filter(|e| e.faultable()).cloned().collect();
    if all.is_empty() {
        return None;
    }
    let e = if !writes.is_empty() && c.src.chance(4, 5) { c.src.pick(&writes).clone() } else { c.src.pick(&all).clone() };
    let kind = match c.src.weighted(&[5, 2, 2, 2, 2]) {
        0 => F_KILL_MID,
        1 => F_KILL_BEFORE,
        2 => F_KILL_AFTER,
        3 => F_ERR_WRITES,
        _ => {
            let total: usize = op.outs.iter().map(|o| o.after.1.len()).sum();
            plan.disk = c.src.below(total as u64 + 1) as i64;
            return Some(plan);
        }
    };
    let arg = if kind == F_KILL_MID { c.src.below(e.ret.max(1) as u64) as u32 } else { 0 };
    let kind = if kind == F_KILL_MID && !matches!(e.op, OP_WRITE | OP_CFR | OP_SENDFILE | OP_READ) { F_KILL_BEFORE } else { kind };
    plan.faults.push(Fault { idx: e.idx, kind, err: *c.src.pick(&[libc::EIO, libc::ENOSPC]), arg });
    Some(plan)
}

fn interrupted(c: &mut Ctx, op: &Op) -> Res {
    let Some(plan) = interruption(c, op) else { return Ok(()) };
    let o = op.run(c, &plan);
    ordinary(op.tool, &o)?;
    for out in op.outs.clone() {
        let Some((_, b)) = ops::now(c, &out.name) else {
            c.count("untouched");
            continue;
        };
        if out.before.as_ref().is_some_and(|x| x.1 == b) {
            c.count("untouched");
            continue;
        }
        if b == out.after.1 {
            c.count("complete");
            continue;
        }
        c.nontrivial = true;
        c.note(|| format!("{} is left with {} of {} bytes", out.name, b.len(), out.after.1.len()));
        if op.kind == Kind::Tar {
            c.count("torn archive");
            torn_archive(c, &out, &b)?;
        } else {
            c.count("torn object");
            refused(c, &out.name, &b)?;
        }
    }
    Ok(())
}

fn refused(c: &mut Ctx, name: &str, b: &[u8]) -> Res {
    let snap = c.ps().snapshot();
    let tools: [(&str, Vec<&str>); 6] = [
        ("tobjdump", vec!["-t", name]),
        ("tobjdump", vec!["-d", name]),
        ("tl", vec![name, "-o", "linked"]),
        ("tl", vec![name, "-e", "-E", "0x80", "-o", "linked"]),
        ("tstrip", vec!["copy"]),
        ("t", vec![name]),
    ];
    c.ps().put("copy", b, 0o644);
    let plan = noise(&mut c.src);
    for (tool, args) in tools {
        let o = c.run(tool, &args, b"", &plan);
        ordinary(tool, &o)?;
        check!(!o.ok(), "torn file accepted", "{tool} {} accepts a file of which only a part was written", args.join(" "));
        check!(tool != "t" || o.stdout.is_empty(), "torn file accepted", "t runs a file of which only a part was written");
    }
    check!(c.ps().get("linked").is_none(), "torn file accepted", "tl wrote an output from a file of which only a part was written");
    c.ps().restore(&snap);
    Ok(())
}

fn torn_archive(c: &mut Ctx, out: &ops::Out, b: &[u8]) -> Res {
    let (members, _) = decode_archive(&out.after.1).unwrap_or_default();
    let plan = noise(&mut c.src);
    let o = c.run("dsth", &["read-ar", &out.name], b"", &plan);
    ordinary("reading the archive", &o)?;
    let got: Vec<Obj> = String::from_utf8_lossy(&o.stdout).split("member ").skip(1).map(|t| Obj::from_text(t.split_once('\n').map_or("", |x| x.1))).collect();
    check!(got.len() <= members.len(), "torn file accepted", "an archive of which a part was written has more members than the whole one");
    for (i, (g, (w, _))) in got.iter().zip(&members).enumerate() {
        check!(g == w, "torn file accepted", "member {i} of an archive of which a part was written is not the one of the whole archive");
    }
    if o.ok() {
        // it ends between two members
        let end: usize = AR_MAGIC.len() + members[..got.len()].iter().map(|m| m.1.len()).sum::<usize>();
        check!(b.len() == end && !got.is_empty(), "torn file accepted", "an archive cut inside a member is read without an error");
    }
    Ok(())
}
