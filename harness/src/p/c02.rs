//! Success is reported only when the output is complete
use super::common::*;
use super::ops::{self, Kind, Op};
use crate::check;
use crate::psim::*;
use crate::run::{Ctx, Prop, Res};

pub const PROP: Prop = Prop {
    id: "C02",
    run,
    quick: 40_000,
    thorough: 2_000_000,
    level: "fault_enumeration",
    rule: "a run prepares one tc, tl, tl -e, tar or tstrip command on a generated program, runs it without faults under some splitting of transfers, then again up to three times with a failing call on an output or temporary file, a lasting failure, or a full disk; success must mean exactly the fault-free output, and a failed call must mean failure with a message; non-trivial: a fault fired; distinct by the sequence of calls, faults and results",
    real: REAL,
    stub: STUB,
    assumptions: &["a failure of a call that only inspects a file may be tolerated, as long as success still means complete output"],
    probes: &["fault: error on open", "fault: error on write", "fault: error on lseek", "fault: error on ftruncate", "fault: error on fsync", "fault: error on rename", "fault: error on chmod", "fault: disk full on write", "fault: lasting error of all writes on write"],
};

pub const HARD: [i32; 8] = [libc::EIO, libc::ENOSPC, libc::EDQUOT, libc::EFBIG, libc::EACCES, libc::EROFS, libc::EAGAIN, libc::ENOMEM];

fn run(c: &mut Ctx) -> Res {
    let op = ops::make(c, &[Kind::Tc, Kind::Tl, Kind::Tle, Kind::Tar, Kind::Tstrip])?;
    for _ in 0..c.src.range(1, 3) {
        one_fault(c, &op)?;
        let before = op.before.clone();
        c.ps().restore(&before);
    }
    Ok(())
}

/// calls that produce the output, by index
fn producing(o: &Outcome) -> Vec<&Event> {
    let w = ops::written_paths(o);
    o.events
        .iter()
        .filter(|e| {
            e.faultable()
                && match e.op {
                    OP_OPEN => e.flags & 3 != 0,
                    OP_LSEEK => w.contains(&e.path),
                    OP_UNLINK | OP_STAT | OP_REALPATH | OP_READ => false,
                    op => is_write_op(op) && e.path > 2,
                }
        })
        .collect()
}

/// tstrip reads a file it later writes: only the handle it writes to counts
fn seeks_for_reading(e: &Event, o: &Outcome) -> bool {
    e.op == OP_LSEEK && !o.events.iter().take_while(|x| x.idx != e.idx).any(|x| x.path == e.path && x.op == OP_OPEN && x.flags & 3 != 0)
}

fn one_fault(c: &mut Ctx, op: &Op) -> Res {
    let cands: Vec<Event> = producing(&op.clean).into_iter().filter(|e| !seeks_for_reading(e, &op.clean)).cloned().collect();
    let mut plan = op.plan.clone();
    if cands.is_empty() {
        return Ok(());
    }
    // rare kinds of calls as often as frequent ones
    let mut kinds: Vec<u16> = cands.iter().map(|e| e.op).collect();
    kinds.sort();
    kinds.dedup();
    let k = *c.src.pick(&kinds);
    let of: Vec<&Event> = cands.iter().filter(|e| e.op == k).collect();
    let e = *c.src.pick(&of);
    let err = *c.src.pick(&HARD);
    match c.src.weighted(&[5, 2, 1, 2]) {
        0 => plan.faults.push(Fault { idx: e.idx, kind: F_ERR, err, arg: 0 }),
        1 => plan.faults.push(Fault { idx: e.idx, kind: F_ERR_WRITES, err, arg: 0 }),
        2 => plan.faults.push(Fault { idx: e.idx, kind: F_ERR_PATH, err, arg: 0 }),
        _ => {
            let total: usize = op.outs.iter().map(|o| o.after.1.len()).sum();
            plan.disk = c.src.below(total as u64 + 1) as i64;
        }
    }
    let o = op.run(c, &plan);
    ordinary(op.tool, &o)?;
    let fired: Vec<&Event> = o.faults_fired().filter(|e| e.fault < 100 || e.fault == 102).collect();
    c.nontrivial |= !fired.is_empty();
    if let Some(f) = fired.first() {
        check!(!o.ok(), "success after a failed call", "{} exits with success although {} of {} failed ({})", op.tool, op_name(f.op), o.path(f.path), fault_name(f.fault as u32));
    }
    if o.ok() {
        for out in &op.outs {
            let n = ops::now(c, &out.name);
            match n {
                None => check!(false, "missing output", "{} exits with success without {}", op.tool, out.name),
                Some((m, b)) => {
                    check!(b == out.after.1, "wrong output", "{} exits with success, but {} is not what a run without faults writes: {}", op.tool, out.name, diff(&b, &out.after.1));
                    check!(m == out.after.0, "wrong permissions", "{} exits with success, but {} has mode {m:o} instead of {:o}", op.tool, out.name, out.after.0);
                }
            }
        }
    }
    // and without the fault everything works again
    if c.src.chance(1, 3) {
        let again = op.run(c, &op.plan);
        must_succeed(op.tool, &again)?;
        for out in &op.outs {
            let n = ops::now(c, &out.name);
            // a file may have been stripped before the fault; stripping again changes nothing
            check!(n.as_ref().map(|x| &x.1) == Some(&out.after.1), "wrong output", "{} repeated after the fault gives another {}", op.tool, out.name);
        }
    }
    Ok(())
}
