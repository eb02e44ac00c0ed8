//! Console I/O is exact, ordered and error-checked
use super::common::*;
use crate::check;
use crate::prog::{self, End};
use crate::psim::*;
use crate::run::{Ctx, Prop, Res};

pub const PROP: Prop = Prop {
    id: "C10",
    run,
    quick: 20_000,
    thorough: 2_000_000,
    level: "fault_enumeration",
    rule: "a run makes a program whose output, and how much of it precedes each request for input, is known (assembled and linked, or a raw image using the device directly), and runs it with split and interrupted transfers, failing or lastingly failing reads and writes of the console, a full disk behind standard output, kills, and input that ends early; non-trivial: the program reads, or a fault fired; distinct by the sequence of calls, faults and results",
    real: REAL,
    stub: STUB,
    assumptions: &["the generator's own evaluation of the program it generates (harness/src/prog.rs) is right", "standard output closed before the start (EBADF) is not simulated: the runtime of the language hides it"],
    probes: &["requests for input", "input ended", "input failed", "output failed", "killed", "raw image", "program ends in a trap", "more than 8 KiB of output", "with -t"],
};

struct Case {
    args: Vec<&'static str>,
    input: Vec<u8>,
    output: Vec<u8>,
    /// length of the output before each request
    reads: Vec<usize>,
    good: bool,
    exact: bool,
}

fn run(c: &mut Ctx) -> Res {
    let case = if c.src.chance(1, 3) { raw(c) } else { program(c)? };
    if case.output.len() > 8192 {
        c.count("more than 8 KiB of output");
    }
    c.add("requests for input", case.reads.len() as u64);
    c.nontrivial = !case.reads.is_empty();
    let plan = noise(&mut c.src);
    let clean = undisturbed(c, &case, &plan)?;
    for _ in 0..c.src.range(1, 4) {
        disturbed(c, &case, &plan, &clean)?;
    }
    Ok(())
}

fn program(c: &mut Ctx) -> Result<Case, crate::run::Fail> {
    let long = c.src.chance(1, 4);
    let p = some_prog(c, &prog::Opts { modules: 2, echo: true, long, ends: true, big: long })?;
    let objs = p.objects();
    let mut a = refs(&objs);
    a.extend(["-e", "-o", "prog"]);
    if let Some(e) = &p.entry_sym {
        a.extend(["-E", e]);
    }
    let o = c.run("tl", &a, b"", &Plan::default());
    must_succeed("tl", &o)?;
    if p.end != End::Halt {
        c.count("program ends in a trap");
    }
    let t = c.src.chance(1, 6);
    if t {
        c.count("with -t");
    }
    Ok(Case {
        args: if t { vec!["-t", "prog"] } else { vec!["prog"] },
        good: t || p.end == End::Halt,
        exact: !t,
        input: p.input,
        output: p.output,
        reads: p.reads,
    })
}

/// An image for the ROM that uses the device at the first addresses
fn raw(c: &mut Ctx) -> Case {
    c.count("raw image");
    let mut k = Case { args: vec!["-r", "image"], input: vec![], output: vec![], reads: vec![], good: true, exact: true };
    let mut rom = Vec::new();
    let n = c.src.size(20, 1500);
    let put = |rom: &mut Vec<u8>, b: u8, out: &mut Vec<u8>, at: u8| {
        // ldi r2l, b; store r0, at, r2l
        rom.extend([0x3f, 0x30, b, 0x27, 0x03, at, 0]);
        out.push(b);
    };
    let mut seed = c.src.below(1 << 30);
    let reading = c.src.chance(3, 4);
    for _ in 0..n {
        seed = crate::src::mix(seed);
        let at = (seed >> 32) as u8 & 0x7f;
        match seed % 8 {
            0 if reading => {
                // load r2l, r0, at; store r0, at, r2l
                let b = (seed >> 40) as u8;
                k.reads.push(k.output.len());
                k.input.push(b);
                rom.extend([0x2b, 0x30, at, 0, 0x27, 0x03, at, 0]);
                k.output.push(b);
            }
            1 => {
                // a whole line
                put(&mut rom, b'\n', &mut k.output, at);
            }
            2 => {
                // two bytes at once: ldi r2, w; store r0, at, r2
                let (x, y) = ((seed >> 40) as u8, (seed >> 48) as u8);
                rom.extend([0x40, 0x20, x, y, 0x28, 0x02, at & 0x7e, 0]);
                k.output.extend([x, y]);
            }
            _ => put(&mut rom, (seed >> 40) as u8, &mut k.output, at),
        }
    }
    if c.src.chance(1, 40) {
        // ldi r2l, x; ldi r3, n; ldi r4, 1; loop: store r0, 1, r2l; add r2, r2, r4; sub r3, r3, r4; jnz loop
        let n = c.src.range(2000, 9000) as u16;
        let x = c.src.u8();
        rom.extend([0x3f, 0x30, x, 0x40, 0x30, n as u8, (n >> 8) as u8, 0x40, 0x40, 1, 0]);
        let at = (0x80 + rom.len()) as u16;
        rom.extend([0x27, 0x03, 1, 0, 0x42, 0x22, 0x40, 0x44, 0x33, 0x40, 0x34, at as u8, (at >> 8) as u8]);
        for i in 0..n {
            k.output.push(x.wrapping_add(i as u8));
        }
    }
    match c.src.below(4) {
        0 => {
            rom.push(0);
            k.good = false;
        }
        _ => rom.push(0x0a),
    }
    c.ps().put("image", &rom, 0o644);
    k
}

/// Output before each system call that asks for input
fn flushed(case: &Case, o: &Outcome) -> Res {
    let (mut out, mut inp) = (0usize, 0usize);
    for e in &o.events {
        if e.path == 1 && e.op == OP_WRITE && e.ret > 0 {
            out += e.ret as usize;
        }
        if e.path == 0 && e.op == OP_READ {
            let need = case.reads.get(inp).copied();
            if let Some(n) = need {
                check!(out >= n, "not handed over", "the emulator waits for byte {inp} of the input with {out} of {n} bytes of output handed over");
            }
            if e.ret > 0 {
                inp += e.ret as usize;
            }
        }
    }
    Ok(())
}

fn undisturbed(c: &mut Ctx, case: &Case, plan: &Plan) -> Result<Outcome, crate::run::Fail> {
    // more input than needed does no harm
    let mut input = case.input.clone();
    if c.src.chance(1, 3) {
        let n = c.src.size(5, 20_000) as usize;
        let b = c.src.bytes(n);
        input.extend(b);
    }
    let o = c.run("t", &case.args, &input, plan);
    ordinary("t", &o)?;
    if case.exact {
        check!(o.stdout == case.output, "output", "the program writes something else: {}", diff(&o.stdout, &case.output));
    } else {
        check!(o.stdout.starts_with(&case.output), "output", "the program writes something else: {}", diff(&o.stdout, &case.output));
        check!(o.stdout[case.output.len()..].starts_with(b"Ended with "), "output", "the program's output is followed by {:?}", text(&o.stdout[case.output.len()..]));
    }
    check!(o.ok() == case.good, "status", "the program ends with {} {}", o.status(), text(&o.stderr));
    flushed(case, &o)?;
    Ok(o)
}

fn disturbed(c: &mut Ctx, case: &Case, plan: &Plan, clean: &Outcome) -> Res {
    let mut plan = plan.clone();
    let mut input = case.input.clone();
    let writes: Vec<&Event> = clean.events.iter().filter(|e| e.faultable() && e.path == 1 && e.op == OP_WRITE).collect();
    let reads: Vec<&Event> = clean.events.iter().filter(|e| e.faultable() && e.path == 0 && e.op == OP_READ).collect();
    let mut ended = false;
    let kind = c.src.below(6);
    match kind {
        0 | 1 if !writes.is_empty() => {
            let e = *c.src.pick(&writes);
            let kind = *c.src.pick(&[F_ERR, F_ERR, F_ERR_PATH, F_ERR_WRITES]);
            plan.faults.push(Fault { idx: e.idx, kind, err: *c.src.pick(&[libc::EIO, libc::ENOSPC, libc::EPIPE, libc::EAGAIN, libc::EFBIG]), arg: 0 });
        }
        2 if !reads.is_empty() => {
            let e = *c.src.pick(&reads);
            let kind = *c.src.pick(&[F_ERR, F_ERR_PATH]);
            plan.faults.push(Fault { idx: e.idx, kind, err: *c.src.pick(&[libc::EIO, libc::EAGAIN, libc::ENXIO]), arg: 0 });
        }
        3 | 4 if !input.is_empty() => {
            if !reads.is_empty() && c.src.chance(1, 3) {
                // the input ends for the reader although there would be more
                let e = *c.src.pick(&reads);
                plan.faults.push(Fault { idx: e.idx, kind: F_EOF, err: 0, arg: 0 });
            } else {
                let n = c.src.usize(input.len());
                input.truncate(n);
            }
            ended = true;
        }
        _ => {
            let all: Vec<&Event> = clean.events.iter().filter(|e| e.faultable()).collect();
            let e = *c.src.pick(&all);
            let kind = *c.src.pick(&[F_KILL_BEFORE, F_KILL_AFTER, F_KILL_MID]);
            let kind = if kind == F_KILL_MID && e.op != OP_WRITE { F_KILL_BEFORE } else { kind };
            plan.faults.push(Fault { idx: e.idx, kind, err: 0, arg: if kind == F_KILL_MID { c.src.below(e.ret.max(1) as u64) as u32 } else { 0 } });
        }
    }
    let o = c.run("t", &case.args, &input, &plan);
    if let Some(x) = o.crashed() {
        // a panic about the console is how the emulator reports its errors
        check!(o.code == Some(101) && !o.over_budget, "crash", "t {x}");
    }
    if o.killed {
        c.count("killed");
    }
    flushed(case, &o)?;
    let failed_out = o.faults_fired().any(|e| e.path == 1 && e.ret < 0 && e.err != libc::EINTR);
    let failed_in = o.faults_fired().any(|e| e.path == 0 && e.ret < 0 && e.err != libc::EINTR);
    let delivered: usize = o.events.iter().filter(|e| e.path == 0 && e.op == OP_READ && e.ret > 0).map(|e| e.ret as usize).sum();
    // a byte that was needed did not come
    let short = delivered < case.input.len() && o.events.iter().any(|e| e.path == 0 && e.op == OP_READ && e.ret == 0);
    c.nontrivial |= failed_out || failed_in || short;
    let expected: &[u8] = &case.output;
    // the line that -t adds is no output of the program
    let got = if case.exact { &o.stdout[..] } else { &o.stdout[..o.stdout.len().min(expected.len())] };
    check!(expected.starts_with(got), "output", "what the program has written before the disturbance is not the beginning of its output: {}", diff(got, expected));
    if o.killed {
        return Ok(());
    }
    if failed_out {
        c.count("output failed");
        check!(!o.ok(), "success", "writing standard output failed and the emulator exits with success");
        check!(!o.stderr.is_empty(), "silent failure", "the emulator fails without a message");
        return Ok(());
    }
    if failed_in || short {
        c.count(if failed_in { "input failed" } else { "input ended" });
        check!(!o.ok(), "success", "standard input {} and the emulator exits with success", if failed_in { "failed" } else { "ended before the byte that is needed" });
        check!(!o.stderr.is_empty(), "silent failure", "the emulator fails without a message");
        // everything written before the failing request has been handed over
        let n = case.reads[delivered.min(case.reads.len() - 1)];
        check!(o.stdout.len() == n || !case.exact, "not handed over", "{} of {n} bytes were handed over when the emulator exited", o.stdout.len());
        return Ok(());
    }
    check!(!ended, "input", "the program got input that was not there");
    check!(got.len() == expected.len(), "output", "{} of {} bytes were handed over when the emulator exited", got.len(), expected.len());
    check!(o.ok() == case.good, "status", "the program ends with {} {}", o.status(), text(&o.stderr));
    Ok(())
}
