//! Every tool finishes after an input error or end of input
use super::common::*;
use crate::check;
use crate::prog::{self, Prog};
use crate::psim::*;
use crate::run::{Ctx, Fail, Prop, Res};

pub const PROP: Prop = Prop {
    id: "C17",
    run,
    quick: 30_000,
    thorough: 1_000_000,
    level: "fault_enumeration",
    rule: "a run prepares a command of one of the seven tools and its inputs, runs it without faults, and then several times with reading disturbed at a call of that run: an error once, an error of the file or of all inputs from there on, the file or all inputs ending there, an input that is a directory or a link to itself, and interruptions of nearly every call; non-trivial: a disturbance fired; distinct by the sequence of calls, faults and results",
    real: REAL,
    stub: STUB,
    assumptions: &["a bounded number of steps: three times the calls of the run without faults and 500 more"],
    probes: &["tc", "tl", "tar", "tstrip", "tobjdump", "t", "tdbg", "error once", "lasting error", "all reads fail", "file ends", "all inputs end", "object cut short by the end", "interrupted", "directory", "link to itself", "included file", "archive", "prompt disturbed"],
};

struct Case {
    tool: &'static str,
    args: Vec<String>,
    stdin: Vec<u8>,
    /// what it reads, in its role
    ins: Vec<String>,
    /// those of which every byte of an object file is needed
    objects: Vec<String>,
}

fn link(c: &mut Ctx, p: &Prog) -> Res {
    let mut a = p.objects();
    a.extend(["-e".into(), "-o".into(), "prog".into()]);
    if let Some(e) = &p.entry_sym {
        a.extend(["-E".into(), e.clone()]);
    }
    let o = c.run("tl", &refs(&a), b"", &Plan::default());
    must_succeed("tl", &o)
}

fn case(c: &mut Ctx) -> Result<Case, Fail> {
    let kind = c.src.below(8);
    let big = c.src.chance(1, 5);
    let echo = kind >= 5 && c.src.chance(2, 3);
    let p = prog::gen(&mut c.src, &prog::Opts { big, echo, modules: if kind >= 5 { 2 } else { 4 }, ..Default::default() });
    put_prog(c, &p);
    if kind != 0 {
        compile(c, &p)?;
    }
    let objs = p.objects();
    let k = |tool: &'static str, args: Vec<String>, ins: &[String], objects: &[String]| Case { tool, args, stdin: vec![], ins: ins.to_vec(), objects: objects.to_vec() };
    Ok(match kind {
        0 => {
            let files: Vec<String> = p.files.iter().map(|f| f.0.clone()).collect();
            if files.len() > p.sources().len() {
                c.count("included file");
            }
            k("tc", p.sources(), &files, &[])
        }
        1 => {
            let mut a = objs.clone();
            a.extend(["-o".into(), "out.x".into()]);
            if c.src.chance(1, 2) {
                a.push("-e".into());
                if let Some(e) = &p.entry_sym {
                    a.extend(["-E".into(), e.clone()]);
                }
            }
            k("tl", a, &objs, &objs)
        }
        2 => {
            // all but the main module from an archive
            let main = format!("{}.to", p.mods[p.main_module]);
            let rest: Vec<String> = objs.iter().filter(|o| **o != main).cloned().collect();
            if rest.is_empty() {
                return Ok(k("tstrip", objs.clone(), &objs, &objs));
            }
            c.count("archive");
            let mut a = rest;
            a.extend(["-o".into(), "lib.savn".into()]);
            let o = c.run("tar", &refs(&a), b"", &Plan::default());
            must_succeed("tar", &o)?;
            let a: Vec<String> = [&main, "-l", "lib.savn", "-o", "out.x"].map(String::from).to_vec();
            k("tl", a, &[main.clone(), "lib.savn".into()], &[main.clone()])
        }
        3 => {
            let mut a = objs.clone();
            a.extend(["-o".into(), "lib.savn".into()]);
            k("tar", a, &objs, &[])
        }
        4 => {
            if c.src.chance(1, 2) {
                k("tstrip", objs.clone(), &objs, &objs)
            } else {
                let mut a = objs.clone();
                a.extend(c.src.pick(&[&["-d"][..], &["-t"], &["-d", "-R"]]).iter().map(|x| x.to_string()));
                k("tobjdump", a, &objs, &objs)
            }
        }
        5 => {
            link(c, &p)?;
            let mut q = k("t", vec!["prog".into()], &["prog".into()], &["prog".into()]);
            q.stdin = p.input.clone();
            q
        }
        6 => {
            // a raw image: it goes on reading; ldi r1l, n; load r2l, r0, 0; store r0, 0, r2l; halt
            let n = c.src.below(4);
            let mut rom = Vec::new();
            for _ in 0..n {
                rom.extend([0x2b, 0x30, 0, 0, 0x27, 0x03, 0, 0]);
            }
            rom.push(0x0a);
            c.ps().put("image", &rom, 0o644);
            let mut q = k("t", vec!["-r".into(), "image".into()], &["image".into()], &[]);
            q.stdin = c.src.bytes(n as usize);
            q
        }
        _ => {
            link(c, &p)?;
            let mut q = k("tdbg", vec!["prog".into()], &["prog".into()], &["prog".into()]);
            for _ in 0..c.src.size(6, 60) {
                let w = *c.src.pick(&["n", "si", "so", "", "r1", "rs", "flags", "r 0xff00", "g 0", "what?", "q"]);
                if w == "q" && c.src.chance(1, 2) {
                    continue;
                }
                q.stdin.extend(w.as_bytes());
                q.stdin.push(b'\n');
            }
            q
        }
    })
}

fn is_read(o: &Outcome, e: &Event) -> bool {
    match e.op {
        OP_READ => true,
        OP_OPEN => e.flags & 3 == 0 && e.path >= 0 && !o.path(e.path).starts_with('<'),
        OP_CFR | OP_SENDFILE | OP_SPLICE | OP_LSEEK | OP_STAT | OP_REALPATH => true,
        _ => false,
    }
}

fn run(c: &mut Ctx) -> Res {
    let k = case(c)?;
    c.count(k.tool);
    let before = c.ps().snapshot();
    let plan = noise(&mut c.src);
    let clean = c.run(k.tool, &refs(&k.args), &k.stdin, &plan);
    let after = c.ps().snapshot();
    if k.tool != "tdbg" {
        must_succeed(k.tool, &clean)?;
    } else {
        check!(clean.crashed().is_none(), "crash", "tdbg {}", clean.crashed().unwrap_or_default());
    }
    for _ in 0..c.src.range(2, 5) {
        c.ps().restore(&before);
        if c.src.chance(1, 6) {
            interrupted(c, &k, &plan, &clean, &after)?;
        } else if c.src.chance(1, 5) {
            odd_input(c, &k, &plan)?;
            c.ps().clear();
        } else {
            disturbed(c, &k, &plan, &clean, &after)?;
        }
    }
    Ok(())
}

fn ends(k: &Case, o: &Outcome, console: bool) -> Res {
    check!(!o.over_budget, "does not end", "{} goes on after its input failed or ended: {} system calls", k.tool, o.n_calls);
    if let Some(s) = o.signal {
        check!(false, "crash", "{} ended by signal {s}", k.tool);
    }
    // errors of the console are reported by a panic
    check!(o.code != Some(101) || (console && matches!(k.tool, "t" | "tdbg")), "crash", "{} panicked: {}", k.tool, text(&o.stderr));
    if !o.ok() {
        check!(!o.stderr.is_empty(), "silent failure", "{} fails without a message", k.tool);
    }
    Ok(())
}

fn disturbed(c: &mut Ctx, k: &Case, plan: &Plan, clean: &Outcome, after: &Snapshot) -> Res {
    let all: Vec<&Event> = clean.events.iter().filter(|e| e.faultable() && is_read(clean, e)).collect();
    if all.is_empty() {
        return Ok(());
    }
    // each file the same chance, and the first and last calls on it
    let mut e = *c.src.pick(&all);
    if c.src.chance(1, 3) {
        let mut paths: Vec<i32> = all.iter().map(|e| e.path).collect();
        paths.sort();
        paths.dedup();
        let path = *c.src.pick(&paths);
        let of: Vec<&&Event> = all.iter().filter(|e| e.path == path).collect();
        e = if c.src.chance(1, 2) { of[of.len() - 1] } else { of[c.src.usize(of.len())] };
    }
    let (idx, op, ret, path) = (e.idx, e.op, e.ret, e.path);
    let transfer = matches!(op, OP_READ | OP_CFR | OP_SENDFILE | OP_SPLICE);
    let kind = if transfer { *c.src.pick(&[F_ERR, F_ERR_PATH, F_ERR_READS, F_EOF, F_EOF_READS]) } else { *c.src.pick(&[F_ERR, F_ERR_PATH]) };
    let err = if op == OP_OPEN { *c.src.pick(&[libc::EIO, libc::EACCES, libc::ENOENT, libc::EMFILE, libc::ELOOP, libc::EAGAIN]) } else { *c.src.pick(&[libc::EIO, libc::EISDIR, libc::ESTALE, libc::ENOMEM, libc::EAGAIN, libc::ETIMEDOUT]) };
    c.count(match kind {
        F_ERR => "error once",
        F_ERR_PATH => "lasting error",
        F_ERR_READS => "all reads fail",
        F_EOF => "file ends",
        _ => "all inputs end",
    });
    let mut p = plan.with(Fault { idx, kind, err, arg: 0 });
    p.budget = clean.n_calls * 3 + 500;
    let o = c.run(k.tool, &refs(&k.args), &k.stdin, &p);
    let name = clean.path(path).to_string();
    let console = path == 0 || (matches!(kind, F_ERR_READS | F_EOF_READS) && o.faults_fired().any(|e| e.path == 0 && matches!(e.fault as u32, F_ERR_READS | F_EOF_READS)));
    if path == 0 && k.tool == "tdbg" {
        c.count("prompt disturbed");
    }
    if !o.faults_fired().any(|e| (1..=10).contains(&e.fault)) {
        return ends(k, &o, console);
    }
    c.nontrivial = true;
    ends(k, &o, console)?;
    let same = || -> bool { o.code == clean.code && o.stdout == clean.stdout };
    // whatever it says about success is true
    let true_success = |c: &mut Ctx| -> bool { same() && c.ps().snapshot() == *after };
    let transferred = op == OP_READ && ret > 0;
    match kind {
        F_ERR_PATH | F_ERR_READS if transferred && !console => {
            check!(!o.ok(), "success", "{} of {name} failed and went on failing, and {} exits with success", op_name(op), k.tool);
        }
        F_ERR | F_ERR_PATH | F_ERR_READS if op == OP_READ || op == OP_OPEN => {
            if console && path == 0 && k.tool == "tdbg" {
                check!(!o.ok(), "success", "reading the commands failed and tdbg exits with success");
            } else {
                check!(!o.ok() || true_success(c), "success", "{} of {name} failed and {} exits with success, but its result is another one", op_name(op), k.tool);
            }
        }
        F_ERR | F_ERR_PATH | F_ERR_READS => {
            check!(!o.ok() || true_success(c), "success", "{} of {name} failed and {} exits with success, but its result is another one", op_name(op), k.tool);
        }
        _ => {
            // the object file had more to come
            if transferred && k.objects.contains(&name) {
                c.count("object cut short by the end");
                check!(!o.ok() || true_success(c), "success", "{name} ended before its end and {} exits with success", k.tool);
            }
        }
    }
    Ok(())
}

/// Nearly every call is interrupted
fn interrupted(c: &mut Ctx, k: &Case, plan: &Plan, clean: &Outcome, after: &Snapshot) -> Res {
    let mut p = plan.clone();
    p.p_eintr = *c.src.pick(&[300, 600, 900]);
    p.seed = c.src.below(1 << 30);
    p.budget = clean.n_calls.max(200) * 60;
    let o = c.run(k.tool, &refs(&k.args), &k.stdin, &p);
    c.count("interrupted");
    c.nontrivial = true;
    ends(k, &o, false)?;
    check!(o.code == clean.code, "interruption", "{} ends with {} {} when its calls are interrupted, otherwise with {}", k.tool, o.status(), text(&o.stderr), clean.status());
    check!(o.stdout == clean.stdout, "interruption", "{} prints something else when its calls are interrupted: {}", k.tool, diff(&o.stdout, &clean.stdout));
    let s = c.ps().snapshot();
    for (n, x) in after {
        check!(s.get(n) == Some(x), "interruption", "{n} is another when the calls of {} are interrupted", k.tool);
    }
    Ok(())
}

/// An input that opens but cannot be read, or leads to itself
fn odd_input(c: &mut Ctx, k: &Case, plan: &Plan) -> Res {
    let n = c.src.pick(&k.ins).clone();
    c.ps().remove(&n);
    let what = if c.src.chance(2, 3) {
        c.ps().mkdir(&n);
        "directory"
    } else {
        let target = n.rsplit('/').next().unwrap().to_string();
        c.ps().symlink(&target, &n);
        "link to itself"
    };
    c.count(what);
    c.note(|| format!("{n} is a {what}"));
    let mut p = plan.clone();
    p.budget = 20_000;
    let o = c.run(k.tool, &refs(&k.args), &k.stdin, &p);
    c.nontrivial = true;
    ends(k, &o, false)?;
    check!(!o.ok(), "success", "{n} is a {what} and {} exits with success", k.tool);
    Ok(())
}
