//! One step of the real machine next to the model of it.
use super::model::{self, Step};
use super::sim::*;
use crate::check;
use crate::run::{Fail, Res};


pub enum End {
    /// the instruction was carried out
    Done,
    /// it trapped and nobody handled that
    Trap(u8),
    /// it trapped and the processor is at the beginning of its handler
    Handler(u8),
    /// it trapped, and saving the state trapped as well
    Double,
    /// not described: a page table lies in the devices
    Undefined,
}

pub fn describe(pre: &St, s: &Step) -> String {
    let name = if model::defined(s.op) { format!("instruction {:02x}", s.op) } else { format!("undefined instruction {:02x}", s.op) };
    format!("{name} at {:04x} in {} {} mode", pre.pc, if pre.user() { "user" } else { "supervisor" }, if pre.virt() { "virtual" } else { "direct" })
}
pub fn trap_name(t: u8) -> &'static str {
    match t {
        model::INVALID => "Invalid",
        model::SYSCALL => "SysCall",
        model::ZERODIV => "ZeroDiv",
        model::HALT => "Halt",
        model::L1PF => "Level1PageFault",
        model::L2PF => "Level2PageFault",
        model::ILLEGAL_OP => "IllegalOperation",
        model::ILLEGAL_READ => "IllegalRead",
        model::ILLEGAL_WRITE => "IllegalWrite",
        model::ILLEGAL_EXEC => "IllegalExecute",
        model::ILLEGAL_RETURN => "IllegalHandlerReturn",
        _ => "no trap of the architecture",
    }
}
pub fn names(t: &[u8]) -> String {
    let mut v: Vec<&str> = t.iter().map(|&t| trap_name(t)).collect();
    v.dedup();
    v.join(" or ")
}

/// The last value each byte gets
pub fn final_writes(w: &[(u32, u8)]) -> Vec<(u32, u8)> {
    let mut m = std::collections::BTreeMap::new();
    for &(a, v) in w {
        m.insert(a, v);
    }
    m.into_iter().collect()
}

/// The memory after the step, against that before it and what the step may do; `all`: has to do
pub fn memory(w: &World, log: &[Acc], s: &Step, all: bool, what: &str) -> Res {
    for a in log.iter().filter(|a| a.write && a.addr >= 0x8000) {
        let (was, now) = (w.before(a.addr), w.mem.get(a.addr));
        if was == now {
            continue;
        }
        check!(
            s.writes.iter().any(|&(x, v)| x == a.addr && v == now),
            "memory",
            "{what} changes {:06x} from {was:02x} to {now:02x}, which it has nothing to do with",
            a.addr
        );
    }
    if all {
        for (a, v) in final_writes(&s.writes) {
            let now = w.mem.get(a);
            check!(now == v, "memory", "{what} leaves {now:02x} at {a:06x}, where it writes {v:02x}");
        }
    }
    let dev: Vec<DevAcc> = log.iter().filter(|a| is_dev(a.addr)).map(|a| DevAcc { addr: a.addr as u8, write: a.write, val: a.val }).collect();
    if all {
        check!(dev == s.dev, "devices", "{what} makes the accesses {dev:x?} to devices instead of {:x?}", s.dev);
    } else {
        for d in dev {
            check!(s.dev.contains(&d), "devices", "{what} traps and makes the access {d:x?} to a device");
        }
    }
    Ok(())
}

pub fn registers(got: &St, want: &St, what: &str) -> Res {
    for i in 1..16 {
        check!(got.r[i] == want.r[i], "registers", "{what} leaves {:#x} in {} instead of {:#x}", got.r[i], reg_name(i), want.r[i]);
    }
    check!(got.fl == want.fl, "flags", "{what} leaves the flags {} instead of {}", flags(got.fl), flags(want.fl));
    check!(got.pc == want.pc, "program counter", "{what} goes on at {:04x} instead of {:04x}", got.pc, want.pc);
    Ok(())
}

/// The registers after a step that trapped
pub fn partial(got: &St, pre: &St, s: &Step, what: &str) -> Res {
    for i in 1..16 {
        check!(
            got.r[i] == pre.r[i] || s.may.contains(&(i, got.r[i])),
            "trap effects",
            "{what} traps and leaves {:#x} in {}, which held {:#x}",
            got.r[i],
            reg_name(i),
            pre.r[i]
        );
    }
    check!(s.pcs.contains(&got.pc), "program counter", "{what} traps and leaves {:04x} in the program counter instead of {:04x?}", got.pc, s.pcs);
    Ok(())
}
pub fn partial_flags(got: u8, pre: u8, s: &Step, what: &str) -> Res {
    let arith = Z | O | S | C;
    check!(got & arith == pre & arith || s.may_flags.iter().any(|f| f & arith == got & arith), "trap effects", "{what} traps and leaves the flags {}, which were {}", flags(got), flags(pre));
    check!(got & V == pre & V, "trap effects", "{what} traps and changes virtual mode");
    Ok(())
}

pub fn model_step(w: &World) -> (St, Step) {
    let pre = w.st();
    let s = model::step(&w.mem, w.dev_seed(), &pre);
    (pre, s)
}

/// Executes one instruction of a machine without an emulated kernel and compares everything.
/// Returns the record of the accesses as well.
pub fn step(w: &mut World) -> Result<(End, Step, St), Fail> {
    let (pre, s) = model_step(w);
    let what = describe(&pre, &s);
    let r = w.guarded(|m| m.execute_once())?;
    let log = w.taken()?;
    if s.undefined {
        return Ok((End::Undefined, s, pre));
    }
    let post = w.st();
    if s.traps.is_empty() {
        if let Err(t) = r {
            return Err(Fail { class: "trap".into(), msg: format!("{what} traps with {t:?} for no reason") });
        }
        registers(&post, &s.next, &what)?;
        memory(w, &log, &s, true, &what)?;
        return Ok((End::Done, s, pre));
    }
    // a return from a handler that restores the handler register and then traps
    let restored = s.may.iter().any(|m| m.0 == RH && m.1 != pre.r[RH]);
    if restored {
        return Ok((End::Double, s, pre));
    }
    if pre.r[RH] == 0 {
        let Err(t) = r else {
            return Err(Fail { class: "trap".into(), msg: format!("{what} does not trap with {}", names(&s.traps)) });
        };
        let t = t as u8;
        check!(s.traps.contains(&t), "trap", "{what} traps with {} instead of {}", trap_name(t), names(&s.traps));
        partial(&post, &pre, &s, &what)?;
        partial_flags(post.fl, pre.fl, &s, &what)?;
        memory(w, &log, &s, false, &what)?;
        return Ok((End::Trap(t), s, pre));
    }
    // a handler is installed: what was saved is looked at elsewhere
    match r {
        Err(_) => Ok((End::Double, s, pre)),
        Ok(()) => {
            check!(post.pc == pre.r[RH], "handler", "{what} traps with {}, and the handler at {:04x} is not entered but {:04x}", names(&s.traps), pre.r[RH], post.pc);
            Ok((End::Handler(post.r[1] as u8), s, pre))
        }
    }
}


pub fn perms(p: u8) -> String {
    [(model::P_X, 'X'), (model::P_W, 'W'), (model::P_R, 'R')].iter().filter(|x| p & x.0 != 0).map(|x| x.1).collect()
}
