use crate::prog::{self, Prog};
use crate::psim::*;
use crate::run::{fail, Ctx, Res};
use crate::src::Src;

pub const REAL: &str = "the shipped binaries (t, tar, tc, tdbg, tl, tobjdump, tstrip) and the library, unmodified, built from /repo's working tree";
pub const STUB: &str = "the system calls for files, console, randomness and process identity, which an interposed library decides (results, splits, errors, kills); the kernel's file system on a memory disk keeps the contents";

/// how the system splits, shortens and interrupts transfers
pub fn noise(s: &mut Src) -> Plan {
    let mut p = Plan { entropy: 1 + s.below(1 << 20), ..Plan::default() };
    if s.chance(3, 4) {
        p.seed = s.below(1 << 30);
        p.p_short = *s.pick(&[0, 100, 400, 900]);
        p.p_eintr = *s.pick(&[0, 40, 200]);
        p.cfr_mode = s.below(3) as u32;
    }
    p
}

pub fn noisy(p: &Plan) -> bool {
    p.p_short != 0 || p.p_eintr != 0
}

/// no crash, and a failure comes with a message
pub fn ordinary(tool: &str, o: &Outcome) -> Res {
    if let Some(c) = o.crashed() {
        return fail("crash", format!("{tool} {c}"));
    }
    if !o.ok() && !o.killed && o.stderr.is_empty() {
        return fail("silent failure", format!("{tool} failed ({}) without a message", o.status()));
    }
    Ok(())
}

pub fn must_succeed(tool: &str, o: &Outcome) -> Res {
    ordinary(tool, o)?;
    if !o.ok() {
        return fail("refused", format!("{tool} failed on good input: {} {}", o.status(), text(&o.stderr)));
    }
    Ok(())
}

pub fn put_prog(c: &mut Ctx, p: &Prog) {
    for (n, t) in &p.files {
        c.ps().put(n, t.as_bytes(), 0o644);
    }
    if c.noting() {
        for (n, t) in &p.files {
            if t.len() < 1500 {
                c.note(|| format!("file {n}:\n{t}"));
            }
        }
    }
}

/// Compiles all modules of a program without faults
pub fn compile(c: &mut Ctx, p: &Prog) -> Res {
    let s = p.sources();
    let a: Vec<&str> = s.iter().map(|s| s.as_str()).collect();
    let o = c.run("tc", &a, b"", &Plan::default());
    must_succeed("tc", &o)
}

/// A program in the scratch directory, compiled
pub fn some_prog(c: &mut Ctx, o: &prog::Opts) -> Result<Prog, crate::run::Fail> {
    let p = prog::gen(&mut c.src, o);
    put_prog(c, &p);
    compile(c, &p)?;
    Ok(p)
}

pub fn refs(v: &[String]) -> Vec<&str> {
    v.iter().map(|s| s.as_str()).collect()
}

pub fn diff(a: &[u8], b: &[u8]) -> String {
    let at = a.iter().zip(b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
    let show = |x: &[u8]| crate::obj::hex(&x[at.min(x.len())..(at + 16).min(x.len())]);
    format!("{} and {} bytes, different from byte {at} on: {} and {}", a.len(), b.len(), show(a), show(b))
}

pub fn is_write_op(op: u16) -> bool {
    matches!(op, OP_WRITE | OP_FTRUNC | OP_FSYNC | OP_RENAME | OP_UNLINK | OP_CHMOD | OP_CFR | OP_SENDFILE | OP_LINK | OP_SPLICE | OP_MKDIR)
}
