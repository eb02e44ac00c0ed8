//! Tools that run at the same time do not disturb each other
use super::common::*;
use crate::check;
use crate::prog::{self, Prog};
use crate::psim::*;
use crate::run::{fail, Ctx, Fail, Prop, Res};
use crate::src::{mix, Src};

pub const PROP: Prop = Prop {
    id: "C25",
    run,
    quick: 12_000,
    thorough: 1_500_000,
    level: "exploration",
    rule: "a run lets two to four tools work in one directory at the same time, one system call at a time in an order the simulator decides (switching at random, few preemptions at random places, or one tool held before a certain call while the others go on), under noise and sometimes with one of them killed; tools with outputs of their own must end and leave what they do alone, a command given several times at once must leave what it leaves alone, tools that read an object which tstrip is replacing must behave as with the original or the stripped one, and a tool whose inputs are just being rewritten must end ordinarily; non-trivial: some tool was preempted between its first and last call; distinct by the interleaving of calls",
    real: REAL,
    stub: STUB,
    assumptions: &["the tools are single threaded, and each system call on a file is atomic", "the processes have different process ids"],
    probes: &["case: independent", "case: same command", "case: read while stripped", "case: read while rewritten", "one of them killed", "reader saw the original", "reader saw a stripped object", "held before rename", "held before write", "held before open", "preempted", "with an archive"],
};

fn run(c: &mut Ctx) -> Res {
    match c.src.weighted(&[4, 3, 5, 1]) {
        0 => independent(c),
        1 => same(c),
        2 => stripping(c),
        _ => rewriting(c),
    }
}

// ---- schedules ----

enum Schedule {
    /// at each step another one with probability 1/n
    Random { state: u64, n: u64, cur: usize },
    /// goes on to another one at these steps
    Preempt { at: Vec<(u64, usize)>, cur: usize },
    /// `who` waits before its call number `before` until the others have made `steps` calls
    Hold { who: usize, before: u64, steps: u64, state: u64, cur: usize },
}

struct Chooser {
    kind: Schedule,
    step: u64,
    made: Vec<u64>,
}

impl Chooser {
    fn choose(&mut self, able: &[usize]) -> usize {
        let step = self.step;
        self.step += 1;
        let i = match &mut self.kind {
            Schedule::Random { state, n, cur } => {
                *state = mix(*state);
                if *state % *n == 0 || !able.contains(cur) {
                    *cur = able[(*state >> 32) as usize % able.len()];
                }
                *cur
            }
            Schedule::Preempt { at, cur } => {
                if let Some(&(_, to)) = at.iter().find(|(s, _)| *s == step) {
                    *cur = able[to % able.len()];
                }
                if !able.contains(cur) {
                    *cur = able[0];
                }
                *cur
            }
            Schedule::Hold { who, before, steps, state, cur } => {
                let others: Vec<usize> = able.iter().copied().filter(|i| i != who).collect();
                if able.contains(who) && (self.made[*who] < *before || *steps == 0 || others.is_empty()) {
                    *who
                } else {
                    *steps = steps.saturating_sub(1);
                    *state = mix(*state);
                    if *state % 8 == 0 || !others.contains(cur) {
                        *cur = others[(*state >> 32) as usize % others.len()];
                    }
                    *cur
                }
            }
        };
        self.made[i] += 1;
        i
    }
}

/// Those from `readers` on are rather held
fn schedule(c: &mut Ctx, alone: &[Outcome], readers: usize) -> Chooser {
    let n = alone.len();
    let total: u64 = alone.iter().map(|o| o.n_calls as u64).sum::<u64>().max(1);
    let kind = match c.src.weighted(&[2, 3, 5]) {
        0 => Schedule::Random { state: c.src.below(1 << 32), n: *c.src.pick(&[2, 5, 20]), cur: c.src.usize(n) },
        1 => {
            let d = c.src.range(1, 5);
            let at = (0..d).map(|_| (c.src.below(total), c.src.usize(n))).collect();
            Schedule::Preempt { at, cur: c.src.usize(n) }
        }
        _ => {
            let who = if readers < n && c.src.chance(1, 2) { readers + c.src.usize(n - readers) } else { c.src.usize(n) };
            let evs: Vec<&Event> = alone[who].events.iter().filter(|e| e.faultable()).collect();
            if evs.is_empty() {
                Schedule::Preempt { at: vec![(1, 1)], cur: 0 }
            } else {
                let mut kinds: Vec<(u16, bool)> = evs.iter().map(|e| (e.op, e.flags & 1 != 0)).collect();
                kinds.sort();
                kinds.dedup();
                let k = *c.src.pick(&kinds);
                let of: Vec<u32> = evs.iter().filter(|e| (e.op, e.flags & 1 != 0) == k).map(|e| e.idx).collect();
                let before = *c.src.pick(&of) as u64;
                c.count(&format!("held before {}", op_name(k.0)));
                let steps = if c.src.chance(1, 3) { c.src.range(1, total) } else { u64::MAX };
                Schedule::Hold { who, before, steps, state: c.src.below(1 << 32), cur: c.src.usize(n) }
            }
        }
    };
    Chooser { kind, step: 0, made: vec![0; n] }
}

fn together(c: &mut Ctx, jobs: &[Job], alone: &[Outcome], readers: usize) -> Vec<Outcome> {
    let mut s = schedule(c, alone, readers);
    let (os, steps) = c.run_together(jobs, &mut |able| s.choose(able));
    let mut seen = vec![0; jobs.len()];
    let mut preempted = false;
    for w in steps.windows(2) {
        seen[w[0] as usize] += 1;
        preempted |= w[0] != w[1] && seen[w[0] as usize] < os[w[0] as usize].n_calls;
    }
    if preempted {
        c.count("preempted");
        c.nontrivial = true;
    }
    os
}

// ---- commands ----

fn job(tool: &'static str, args: Vec<String>, plan: Plan) -> Job {
    Job { tool, args, stdin: Vec::new(), plan }
}

/// What a job does when it is alone: the files it changes (None: removed), and how it ends
struct Alone {
    out: Outcome,
    files: Vec<(String, Option<(u32, Vec<u8>)>)>,
}

fn changes(before: &Snapshot, after: &Snapshot) -> Vec<(String, Option<(u32, Vec<u8>)>)> {
    let mut v = Vec::new();
    for (k, x) in after {
        if before.get(k) != Some(x) {
            v.push((k.clone(), Some(x.clone())));
        }
    }
    for k in before.keys() {
        if !after.contains_key(k) {
            v.push((k.clone(), None));
        }
    }
    v
}

fn alone(c: &mut Ctx, j: &Job, before: &Snapshot) -> Result<Alone, Fail> {
    let out = c.run(j.tool, &refs(&j.args), &j.stdin, &j.plan);
    ordinary(j.tool, &out)?;
    let after = c.ps().snapshot();
    c.ps().restore(before);
    Ok(Alone { out, files: changes(before, &after) })
}

fn same_end(j: &Job, what: &str, o: &Outcome, want: &Outcome) -> Res {
    ordinary(j.tool, o)?;
    check!(o.code == want.code, "ends otherwise", "{} {} ends with {} {what}, and alone with {}: {}", j.tool, j.args.join(" "), o.status(), want.status(), text(&o.stderr));
    check!(o.stdout == want.stdout, "prints something else", "{} {} prints something else {what} than alone: {}", j.tool, j.args.join(" "), diff(&o.stdout, &want.stdout));
    check!(o.stderr == want.stderr, "prints something else", "{} {} gives another message {what} than alone: {}", j.tool, j.args.join(" "), text(&o.stderr));
    Ok(())
}

fn a_prog(c: &mut Ctx) -> Result<Prog, Fail> {
    let big = c.src.chance(1, 3);
    let echo = c.src.chance(1, 4);
    some_prog(c, &prog::Opts { big, echo, ..Default::default() })
}

/// copies of the compiled modules under other names
fn copies(c: &mut Ctx, p: &Prog, stem: &str) -> Vec<String> {
    let mut v = Vec::new();
    for (i, o) in p.objects().iter().enumerate() {
        let b = c.ps().get(o).expect("HARNESS: object");
        let n = format!("{stem}{i}.to");
        c.ps().put(&n, &b, 0o644);
        v.push(n);
    }
    v
}

fn link_args(s: &mut Src, p: &Prog, objs: &[String], out: &str, exe: bool) -> Vec<String> {
    let mut a = objs.to_vec();
    if s.chance(1, 3) {
        s.shuffle(&mut a);
    }
    if s.chance(1, 4) {
        a.push("-S".into());
    }
    if s.chance(1, 4) {
        a.extend(["-A".into(), "256".into()]);
    }
    if exe {
        a.push("-e".into());
        if let Some(e) = &p.entry_sym {
            a.extend(["-E".into(), e.clone()]);
        }
    }
    a.extend(["-o".into(), out.into()]);
    a
}

fn strip_args(s: &mut Src, files: &[String]) -> Vec<String> {
    let mut a = files.to_vec();
    if s.chance(1, 3) {
        a.extend(["-a".into(), "-f".into()]);
    }
    a
}

fn executable(c: &mut Ctx, p: &Prog, objs: &[String], name: &str) -> Res {
    let mut a = objs.to_vec();
    a.push("-e".into());
    if let Some(e) = &p.entry_sym {
        a.extend(["-E".into(), e.clone()]);
    }
    a.extend(["-o".into(), name.into()]);
    let o = c.run("tl", &refs(&a), b"", &Plan::default());
    must_succeed("tl", &o)
}

/// one of them is killed at some call
fn kill_one(c: &mut Ctx, jobs: &mut [Job], alone: &[Outcome]) -> usize {
    let i = c.src.usize(jobs.len());
    let n = alone[i].n_calls.max(1) as u64;
    let idx = c.src.below(n) as u32;
    let e = alone[i].events.iter().find(|e| e.idx == idx);
    let f = match c.src.below(3) {
        0 => Fault { idx, kind: F_KILL_BEFORE, err: 0, arg: 0 },
        1 => Fault { idx, kind: F_KILL_AFTER, err: 0, arg: 0 },
        _ => Fault { idx, kind: F_KILL_MID, err: 0, arg: c.src.below(e.map_or(1, |e| e.ret.clamp(1, 1 << 20) as u64)) as u32 },
    };
    jobs[i].plan.faults.push(f);
    c.count("one of them killed");
    i
}

// ---- cases ----

fn independent(c: &mut Ctx) -> Res {
    c.count("case: independent");
    let p = a_prog(c)?;
    let k = copies(c, &p, "k");
    executable(c, &p, &k, "prog")?;
    let old = c.src.chance(1, 2);
    let mut jobs: Vec<Job> = Vec::new();
    let n = c.src.range(2, 4) as usize;
    let mut sources = p.sources();
    for i in 0..n {
        let plan = noise(&mut c.src);
        let j = match c.src.weighted(&[4, 4, 2, 3, 1, 1, 1]) {
            0 if !sources.is_empty() => {
                let m = if c.src.chance(1, 2) { sources.len() } else { 1 + c.src.usize(sources.len()) };
                let mut args: Vec<String> = sources.drain(..m.min(if i == 0 && sources.len() > 1 { sources.len() - 1 } else { sources.len() })).collect();
                if c.src.chance(1, 8) {
                    c.ps().put(&format!("bad{i}.telda"), b".seg text\n  nonsense r1\n", 0o644);
                    args.push(format!("bad{i}.telda"));
                }
                job("tc", args, plan)
            }
            0 | 1 => {
                // also names that differ in the extension only
                let out = if c.src.chance(1, 2) { format!("x{i}") } else { format!("p.x{i}") };
                if old {
                    let n = c.src.size(200, 12_000) as usize;
                    let b = c.src.bytes(n);
                    c.ps().put(&out, &b, 0o644);
                }
                let exe = c.src.chance(1, 2);
                job("tl", link_args(&mut c.src, &p, &k, &out, exe), plan)
            }
            2 => {
                let mut a = k.clone();
                a.extend(["-o".into(), if c.src.chance(1, 2) { format!("lib{i}.savn") } else { format!("p.l{i}") }]);
                job("tar", a, plan)
            }
            3 => {
                let f = if c.src.chance(1, 2) { copies(c, &p, &format!("s{i}_")) } else { copies(c, &p, &format!("s.{i}")) };
                job("tstrip", strip_args(&mut c.src, &f), plan)
            }
            4 => Job { tool: "t", args: vec!["prog".into()], stdin: p.input.clone(), plan },
            5 => job("tobjdump", [vec!["-t".to_string(), "-d".into(), "-R".into()], k.clone()].concat(), plan),
            // something that is missing
            _ => {
                let mut a = k.clone();
                a.extend(["missing.to".into(), "-o".into(), format!("y{i}")]);
                job("tl", a, plan)
            }
        };
        jobs.push(j);
    }
    let before = c.ps().snapshot();
    let mut want: Vec<Alone> = Vec::new();
    for j in &jobs {
        want.push(alone(c, j, &before)?);
    }
    let outs: Vec<Outcome> = want.iter().map(|a| a.out.clone()).collect();
    let killed = if c.src.chance(1, 4) { Some(kill_one(c, &mut jobs, &outs)) } else { None };
    let os = together(c, &jobs, &outs, jobs.len());
    let after = c.ps().snapshot();
    let mut expected = before.clone();
    for (i, w) in want.iter().enumerate() {
        if Some(i) == killed {
            continue;
        }
        same_end(&jobs[i], "with others beside it", &os[i], &w.out)?;
        for (name, x) in &w.files {
            match x {
                Some(x) => expected.insert(name.clone(), x.clone()),
                None => expected.remove(name),
            };
        }
    }
    // what a killed tool was to write, or has touched, is its own affair
    let own = |name: &str| {
        killed.is_some_and(|i| {
            let writes = super::ops::written_paths(&want[i].out);
            writes.iter().any(|&w| want[i].out.path(w) == name) || os[i].paths.iter().any(|p| p == name) && !expected_by_others(&want, i, name) && !before.contains_key(name)
        })
    };
    for (name, _) in changes(&expected, &after) {
        if own(&name) {
            continue;
        }
        let (e, a) = (expected.get(&name), after.get(&name));
        return fail(
            "other files",
            match (e, a) {
                (None, Some(_)) => format!("{name} is left behind when {} run at the same time", names(&jobs)),
                (Some(_), None) => format!("{name} is missing after {} ran at the same time", names(&jobs)),
                (Some((m, b)), Some((n, d))) => format!("{name} is not what one command alone makes of it after {} ran at the same time: mode {m:o} and {n:o}, {}", names(&jobs), diff(b, d)),
                _ => unreachable!(),
            },
        );
    }
    Ok(())
}

fn expected_by_others(want: &[Alone], i: usize, name: &str) -> bool {
    want.iter().enumerate().any(|(k, w)| k != i && w.files.iter().any(|(n, _)| n == name))
}

fn names(jobs: &[Job]) -> String {
    jobs.iter().map(|j| j.tool).collect::<Vec<_>>().join(", ")
}

/// One command several times at once
fn same(c: &mut Ctx) -> Res {
    c.count("case: same command");
    let p = a_prog(c)?;
    let k = copies(c, &p, "k");
    let (tool, args, reads): (&'static str, Vec<String>, bool) = match c.src.weighted(&[2, 3, 1, 4]) {
        0 => ("tc", p.sources(), false),
        1 => {
            let exe = c.src.chance(2, 3);
            ("tl", link_args(&mut c.src, &p, &k, "x", exe), false)
        }
        2 => {
            let mut a = k.clone();
            a.extend(["-o".into(), "lib.savn".into()]);
            ("tar", a, false)
        }
        _ => {
            let mut f = k.clone();
            let m = 1 + c.src.usize(f.len());
            f.truncate(m);
            if c.src.chance(1, 3) {
                executable(c, &p, &k, "prog")?;
                f.push("prog".into());
            }
            ("tstrip", strip_args(&mut c.src, &f), true)
        }
    };
    if c.src.chance(1, 2) {
        let n = c.src.size(200, 12_000) as usize;
        let b = c.src.bytes(n);
        for f in ["x", "lib.savn"] {
            c.ps().put(f, &b, 0o644);
        }
    }
    let before = c.ps().snapshot();
    let n = c.src.range(2, 3) as usize;
    let mut jobs: Vec<Job> = (0..n).map(|_| job(tool, args.clone(), noise(&mut c.src))).collect();
    let want = alone(c, &jobs[0], &before)?;
    must_succeed(tool, &want.out)?;
    let outs = vec![want.out.clone(); n];
    let killed = if reads && c.src.chance(1, 3) { Some(kill_one(c, &mut jobs, &outs)) } else { None };
    let os = together(c, &jobs, &outs, jobs.len());
    for (i, o) in os.iter().enumerate() {
        if Some(i) != killed {
            same_end(&jobs[i], "with the same command beside it", o, &want.out)?;
        }
    }
    let after = c.ps().snapshot();
    let mut expected = before.clone();
    for (name, x) in &want.files {
        if let Some(x) = x {
            expected.insert(name.clone(), x.clone());
        }
    }
    for (name, _) in changes(&expected, &after) {
        if killed.is_some_and(|i| !expected.contains_key(&name) && os[i].paths.contains(&name)) {
            continue;
        }
        let (e, a) = (expected.get(&name), after.get(&name));
        return fail(
            "same command",
            format!(
                "{name} is not what {tool} alone makes of it after the same command ran {n} times at once: {}",
                match (e, a) {
                    (Some(e), Some(a)) => format!("mode {:o} and {:o}, {}", e.0, a.0, diff(&e.1, &a.1)),
                    (None, _) => "it should not be there".into(),
                    _ => "it is missing".into(),
                }
            ),
        );
    }
    Ok(())
}

/// Tools that read objects while tstrip replaces them
fn stripping(c: &mut Ctx) -> Res {
    c.count("case: read while stripped");
    let p = a_prog(c)?;
    let k = copies(c, &p, "k");
    executable(c, &p, &k, "prog")?;
    if c.src.chance(1, 3) {
        let mode = *c.src.pick(&[0o600, 0o755, 0o444]);
        let b = c.ps().get("k0.to").unwrap();
        c.ps().put("k0.to", &b, mode);
    }
    // some of the modules in an archive
    let apart = c.src.usize(k.len());
    let lib: Vec<String> = k.iter().enumerate().filter(|(i, _)| *i != apart && c.src.chance(1, 2)).map(|x| x.1.clone()).collect();
    if !lib.is_empty() {
        let o = c.run("tar", &refs(&[lib.clone(), vec!["-o".into(), "lib.savn".into()]].concat()), b"", &Plan::default());
        must_succeed("tar", &o)?;
    }
    let before = c.ps().snapshot();
    // what is stripped, and into what
    let reads_prog = c.src.chance(1, 3);
    let mut files: Vec<String> = if reads_prog { vec!["prog".into()] } else { k.clone() };
    c.src.shuffle(&mut files);
    files.truncate(2);
    let strippers = c.src.range(1, 2) as usize;
    let all: Vec<bool> = (0..strippers).map(|_| c.src.chance(1, 3)).collect();
    if all.iter().any(|&a| a != all[0]) {
        files.truncate(1);
    }
    let mut jobs: Vec<Job> = Vec::new();
    let mut alones: Vec<Outcome> = Vec::new();
    // versions[f]: content of the file at first and after stripping
    let mut versions: Vec<Vec<(u32, Vec<u8>)>> = files.iter().map(|f| vec![before[f].clone()]).collect();
    let mut stripped: Vec<Vec<(u32, Vec<u8>)>> = vec![Vec::new(); files.len()];
    for &a in &all {
        let mut args = files.clone();
        if a {
            args.extend(["-a".into(), "-f".into()]);
        }
        let j = job("tstrip", args, noise(&mut c.src));
        let w = alone(c, &j, &before)?;
        must_succeed("tstrip", &w.out)?;
        for (name, _) in &w.files {
            check!(files.contains(name), "other files", "tstrip of {} leaves {name} behind", files.join(" "));
        }
        for ((v, s), f) in versions.iter_mut().zip(&mut stripped).zip(&files) {
            let x = w.files.iter().find(|(n, _)| n == f).and_then(|(_, x)| x.clone()).unwrap_or_else(|| before[f].clone());
            if !v.contains(&x) {
                v.push(x.clone());
            }
            s.push(x);
        }
        jobs.push(j);
        alones.push(w.out);
    }
    let strip_jobs = jobs.len();
    // the readers
    let mut wanted: Vec<Vec<(Outcome, Vec<(String, Option<(u32, Vec<u8>)>)>)>> = Vec::new();
    for r in 0..c.src.range(1, 2) {
        let plan = noise(&mut c.src);
        let j = if reads_prog {
            match c.src.below(4) {
                0 => Job { tool: "t", args: vec!["prog".into()], stdin: p.input.clone(), plan },
                3 => Job { tool: "tdbg", args: vec!["prog".into()], stdin: b"si\nsi\nr\nsi\nq\n".to_vec(), plan },
                1 => job("tobjdump", vec!["-t".into(), "-d".into(), "prog".into()], plan),
                _ => job("tl", vec!["prog".into(), "-o".into(), format!("x{r}")], plan),
            }
        } else {
            match c.src.weighted(&[3, 1, 2, 1, 3]) {
                4 if !lib.is_empty() => {
                    c.count("with an archive");
                    let direct: Vec<String> = k.iter().filter(|f| !lib.contains(f)).cloned().collect();
                    let mut a = link_args(&mut c.src, &p, &direct, &format!("x{r}"), false);
                    a.extend(["-l".into(), "lib.savn".into()]);
                    job("tl", a, plan)
                }
                0 | 4 => {
                    let exe = c.src.chance(1, 2);
                    job("tl", link_args(&mut c.src, &p, &k, &format!("x{r}"), exe), plan)
                }
                1 => job("tobjdump", [vec!["-t".to_string(), "-d".into(), "-R".into()], k.clone()].concat(), plan),
                2 => job("tar", [k.clone(), vec!["-o".into(), format!("lib{r}.savn")]].concat(), plan),
                _ => {
                    let at = c.src.usize(k.len());
                    job("tl", vec![k[at].clone(), "-o".into(), format!("x{r}")], plan)
                }
            }
        };
        // with every combination of what the files may be
        let mut w = Vec::new();
        let total: usize = versions.iter().map(|v| v.len()).product();
        for mut i in 0..total {
            for (v, f) in versions.iter().zip(&files) {
                let (m, b) = v[i % v.len()].clone();
                i /= v.len();
                c.ps().put(f, &b, m);
            }
            let s = c.ps().snapshot();
            let a = alone(c, &j, &s)?;
            if w.is_empty() {
                alones.push(a.out.clone());
            }
            w.push((a.out, a.files));
            c.ps().restore(&before);
        }
        wanted.push(w);
        jobs.push(j);
    }
    let killed = if c.src.chance(1, 4) {
        let mut strippers: Vec<Job> = jobs[..strip_jobs].to_vec();
        let k = kill_one(c, &mut strippers, &alones[..strip_jobs]);
        jobs[k] = strippers[k].clone();
        Some(k)
    } else {
        None
    };
    let os = together(c, &jobs, &alones, strip_jobs);
    let after = c.ps().snapshot();
    let what = "while it is being stripped";
    for i in 0..strip_jobs {
        if Some(i) == killed {
            ordinary("tstrip", &os[i])?;
        } else {
            same_end(&jobs[i], "with others beside it", &os[i], &alones[i])?;
        }
    }
    let mut known: Vec<String> = before.keys().cloned().collect();
    for (r, w) in wanted.iter().enumerate() {
        let (j, o) = (&jobs[strip_jobs + r], &os[strip_jobs + r]);
        ordinary(j.tool, o)?;
        let fits = |x: &(Outcome, Vec<(String, Option<(u32, Vec<u8>)>)>)| {
            o.code == x.0.code && o.stdout == x.0.stdout && o.stderr == x.0.stderr && x.1.iter().all(|(n, f)| after.get(n) == f.as_ref())
        };
        match w.iter().position(fits) {
            Some(0) => c.count("reader saw the original"),
            Some(_) => c.count("reader saw a stripped object"),
            None => {
                return fail(
                    "neither",
                    format!(
                        "{} {} {what} ({}) does what it does with neither the original nor the stripped file{}: {} {}",
                        j.tool,
                        j.args.join(" "),
                        files.join(" "),
                        if files.len() > 1 { "s" } else { "" },
                        o.status(),
                        text(&o.stderr)
                    ),
                );
            }
        }
        known.extend(w.iter().flat_map(|x| x.1.iter().map(|f| f.0.clone())));
    }
    for ((v, s), f) in versions.iter().zip(&stripped).zip(&files) {
        let Some(x) = after.get(f) else {
            return fail("lost", format!("{f} is gone after tstrip ran beside others"));
        };
        let n = v.iter().position(|y| y == x);
        check!(n.is_some(), "torn", "{f} is neither the original nor a stripped object after {} ran at the same time (mode {:o}, {} bytes)", names(&jobs), x.0, x.1.len());
        check!(s.contains(x) || killed.is_some(), "not stripped", "{f} is not stripped although tstrip ended with success beside {}", names(&jobs));
    }
    for n in after.keys() {
        check!(known.contains(n) || killed.is_some_and(|i| os[i].paths.contains(n)), "other files", "{n} is left behind when {} run at the same time", names(&jobs));
    }
    Ok(())
}

/// Tools whose inputs are being rewritten in place: no promise what they make of it, but they end
fn rewriting(c: &mut Ctx) -> Res {
    c.count("case: read while rewritten");
    let p = a_prog(c)?;
    let k = copies(c, &p, "k");
    let o = p.objects();
    let a = c.run("tar", &refs(&[k.clone(), vec!["-o".to_string(), "lib.savn".into()]].concat()), b"", &Plan::default());
    must_succeed("tar", &a)?;
    let a = c.run("tl", &refs(&[k.clone(), vec!["-o".to_string(), "x".into()]].concat()), b"", &Plan::default());
    must_succeed("tl", &a)?;
    let before = c.ps().snapshot();
    let plan = noise(&mut c.src);
    let which = c.src.below(3);
    let (writer, written): (Job, Vec<String>) = match which {
        0 => (job("tc", p.sources(), plan), o.clone()),
        1 => (job("tl", link_args(&mut c.src, &p, &k, "x", false), plan), vec!["x".into()]),
        _ => (job("tar", [k.clone(), vec!["-o".into(), "lib.savn".into()]].concat(), plan), vec!["lib.savn".into()]),
    };
    let mut jobs = vec![writer];
    let mut strips = false;
    for r in 0..c.src.range(1, 2) {
        let plan = noise(&mut c.src);
        let out = vec!["-o".to_string(), format!("r{r}")];
        let j = match (which, c.src.below(4)) {
            (2, 0 | 1) => job("tobjdump", [vec!["-t".to_string(), "-d".into()], written.clone()].concat(), plan),
            (2, _) => job("tl", [vec![k[0].clone(), "-l".to_string()], written.clone(), out].concat(), plan),
            (_, 0) => job("tobjdump", [vec!["-t".to_string(), "-d".into(), "-R".into()], written.clone()].concat(), plan),
            (_, 1) => job("tar", [written.clone(), out].concat(), plan),
            (_, 2) => job("tl", [written.clone(), out].concat(), plan),
            _ => {
                strips = true;
                job("tstrip", written.clone(), plan)
            }
        };
        jobs.push(j);
    }
    let mut outs = Vec::new();
    for j in &jobs {
        outs.push(alone(c, j, &before)?);
    }
    let ends: Vec<Outcome> = outs.iter().map(|a| a.out.clone()).collect();
    let os = together(c, &jobs, &ends, 1);
    for (j, o) in jobs.iter().zip(&os) {
        ordinary(j.tool, o)?;
    }
    if !strips {
        same_end(&jobs[0], "while its output is read", &os[0], &ends[0])?;
        for f in &written {
            let n = c.ps().get(f);
            let want = outs[0].files.iter().find(|x| &x.0 == f).map_or_else(|| before[f].1.clone(), |x| x.1.as_ref().unwrap().1.clone());
            check!(n.as_ref() == Some(&want), "wrong output", "{} {} leaves another {f} when it is read at the same time", jobs[0].tool, jobs[0].args.join(" "));
        }
    }
    Ok(())
}
