//! C16: a debugger session next to a run without it; disassembling
use super::code;
use super::gen;
use super::load;
use super::lock;
use super::model::{self, Mode};
use super::sim::*;
use crate::check;
use crate::common::{noise, ordinary};
use crate::psim::{contains, text};
use crate::run::{fail, Ctx, Fail, Prop, Res};
use crate::src::{hash_bytes, mix};

pub const PROP: Prop = Prop {
    id: "C16",
    run,
    quick: 50_000,
    thorough: 1_500_000,
    level: "exploration",
    rule: "seven of ten runs: the shipped debugger executes a generated program (calls, loops, memory, console, faults with and without error handler; or random code) in a random session of stepping, register, flag and memory commands and typing errors, with end of input at some point, split and interrupted transfers; its whole transcript is compared with the library's machine run in the same process without debugger, and the shipped emulator is run on the same input; three of ten: a machine with random memory, tables and registers is disassembled at random addresses and every register, flag, memory and device access is compared; non-trivial: a session of several commands, or something was disassembled",
    real: "the shipped tdbg and t binaries; loader, emulated kernel, processor, memory and disassembler of the library",
    stub: "the system calls of tdbg and t, which an interposed library decides; who sits at the debugger; everything that changes memory, page tables and registers between two disassemblies",
    assumptions: &["what is displayed of registers nobody has written is not judged", "the commands of a session are chosen while a second machine runs the program, so that it is known where each of them is read"],
    probes: &[
        "session: ended by halt", "session: ended by a fault", "session: ended by an unknown system call", "session: quit", "session: input ended at the prompt", "session: input ended while the program asked",
        "command: step", "command: next", "command: out", "command: register", "command: flags", "command: memory", "command: memory, no access", "command: go to", "command: typing error", "command: long typing error",
        "call stepped over", "call stepped into", "stopped after leaving a function", "line of input asked for", "line of output", "handled fault", "other entry point", "emulator run", "debug call", "disassembled", "disassembly: trap", "label shown",
    ],
};

fn run(c: &mut Ctx) -> Res {
    if c.src.chance(3, 10) {
        disassembly(c)
    } else {
        session(c)
    }
}

// ---- sessions ----

struct Line {
    w: World,
    out: Vec<u8>,
    line: Vec<u8>,
    steps: usize,
}
enum Went {
    On,
    Ended(telda2::blf4::TrapMode),
    NoInput,
}
impl Line {
    fn new(code: &code::Code, from: Option<u16>) -> Result<Line, Fail> {
        let mut w = load::load(&code.obj, None)?.w;
        w.dev.borrow_mut().console = Some(Console { lines: code.lines.iter().cloned().collect(), ..Console::default() });
        if let Some(a) = from {
            w.m.cpu.program_counter = a;
        }
        Ok(Line { w, out: Vec::new(), line: Vec::new(), steps: 0 })
    }
    fn pc(&self) -> u16 {
        self.w.m.cpu.program_counter
    }
    /// the bytes of the instruction at the program counter that can be fetched
    fn code(&self) -> Vec<u8> {
        let st = self.w.st();
        let mut x = model::X::new(&self.w.mem, 0, &st);
        let mut v = Vec::new();
        for i in 0..4u16 {
            match x.walk(st.pc.wrapping_add(i), Mode::Exec) {
                Some(pa) => v.push(self.w.mem.get(pa)),
                None => break,
            }
        }
        v
    }
    fn peek(&self, a: u16) -> Option<u8> {
        let st = self.w.st();
        let mut x = model::X::new(&self.w.mem, 0, &st);
        x.walk(a, Mode::Read).map(|pa| self.w.mem.get(pa))
    }
    fn debug_call(&self) -> bool {
        self.code().first() == Some(&0x0c) && self.w.st().r[1] == 0
    }
    /// One step; also what is printed meanwhile, and the line that is read
    fn step(&mut self, says: &mut Vec<u8>) -> Result<(Went, Option<Vec<u8>>), Fail> {
        let n = self.w.dev.borrow().console.as_ref().map_or(0, |c| c.taken.len());
        self.steps += 1;
        let r = self.w.guarded(|m| m.execute_once())?;
        let dev: Vec<DevAcc> = self.w.dev.borrow().log.clone();
        self.w.taken()?;
        let (asked, ended) = {
            let d = self.w.dev.borrow();
            let c = d.console.as_ref().unwrap();
            (c.taken.get(n).cloned(), c.ended)
        };
        if asked.is_some() || ended {
            says.extend(b"STDIN requested: ");
        }
        if ended {
            return Ok((Went::NoInput, None));
        }
        for d in dev.iter().filter(|d| d.write) {
            self.out.push(d.val);
            if d.val == b'\n' {
                says.extend(b"STDOUT line: ");
                says.append(&mut self.line);
                says.push(b'\n');
            } else {
                self.line.push(d.val);
            }
        }
        Ok((
            match r {
                Ok(()) => Went::On,
                Err(t) => Went::Ended(t),
            },
            asked,
        ))
    }
}

/// Whether the program ends soon
fn ends(a: &mut Line) -> Result<bool, Fail> {
    for _ in 0..4000 {
        if !matches!(a.step(&mut Vec::new())?.0, Went::On) {
            return Ok(true);
        }
    }
    Ok(false)
}

fn number(cmd: &str, a: u16, s: &mut crate::src::Src) -> String {
    match s.below(5) {
        0 => format!("{cmd} {a}"),
        1 => format!("{cmd} 0o{a:o}"),
        2 => format!("{cmd} 0b{a:b}"),
        3 => format!("{cmd}   0x{a:04X}"),
        _ => format!("{cmd} 0x{a:x}"),
    }
}

enum Piece {
    Exact(Vec<u8>, String),
    /// the instruction and the prompt
    Prompt { pc: u16, code: Vec<u8> },
    /// the name, the value, and perhaps more until the end of the line
    Value(Vec<u8>, String),
    /// the map of the memory that the debug call prints
    Map,
    /// which flags are set
    Flags(u8),
    End,
}

fn session(c: &mut Ctx) -> Res {
    let mut code = code::gen(&mut c.src, false);
    let start = code.obj.entry.map_or(0, |e| e.1);
    // begun somewhere else than the object file says
    let mut from = None;
    let mut args: Vec<String> = vec!["prog".into()];
    if c.src.chance(1, 8) {
        from = Some(start);
        code.obj.entry = Some((crate::obj::TEXT, c.src.u16()));
        let sym = code.obj.syms.iter().find(|s| s.loc == start).map(|s| String::from_utf8_lossy(&s.name).into_owned());
        let e = match sym {
            Some(n) if c.src.chance(1, 2) => n,
            _ => format!("0x{start:04x}"),
        };
        if c.src.chance(1, 2) {
            args.extend(["-E".into(), e]);
        } else {
            args.insert(0, format!("--entry={e}"));
        }
        c.count("other entry point");
    }
    let from = from;
    let whole = code.clone();
    c.note(|| format!("{}lines {:?}", super::c12::describe(&code.obj), code.lines.iter().map(|l| text(l)).collect::<Vec<_>>()));
    // how far the program goes
    let mut a = Line::new(&code, from)?;
    let mut limit = if ends(&mut a)? { None } else { Some(300) };
    let unending = limit.is_some();
    // where the session went on somewhere else
    let mut gone: Vec<(usize, u16)> = Vec::new();
    // the session
    let mut l = Line::new(&code, from)?;
    let labels: Vec<(u16, String)> = code.obj.syms.iter().map(|s| (s.loc, String::from_utf8_lossy(&s.name).into_owned())).collect();
    let mut typed: Vec<u8> = Vec::new();
    let mut pieces: Vec<Piece> = Vec::new();
    let (mut depth, mut target) = (0i32, 0i32);
    let mut closed = false;
    let mut starved = false;
    let mut prompts = 0;
    let eager = *c.src.pick(&[1u64, 4, 8]);
    let most = *c.src.pick(&[20, 60, 400]);
    // where instructions were
    let mut places: Vec<u16> = vec![start];
    let end = 'session: loop {
        let code = l.code();
        if places.len() < 100 {
            places.push(l.pc());
        }
        let diff = match code.first() {
            Some(0x25) if code.len() >= 3 => 1,
            Some(0x26) if code.len() >= 2 => -1,
            _ => 0,
        };
        if depth == target {
            let pc = l.pc();
            pieces.push(Piece::Prompt { pc, code: code.clone() });
            prompts += 1;
            if prompts > 1 && c.src.chance(1, 2) {
                c.nontrivial = true;
            }
            target = loop {
                if closed || c.src.chance(1, 150) {
                    c.count("session: input ended at the prompt");
                    break 'session None;
                }
                let info = c.src.chance(eager, 10);
                let stuck = limit.is_some_and(|n| l.steps + 1 >= n);
                let k = if stuck || prompts > most && !info {
                    if c.src.chance(1, 2) { 3 } else { 4 }
                } else if !info {
                    if limit.is_some() { 0 } else { c.src.weighted(&[6, 5, 1]) }
                } else {
                    5 + c.src.weighted(&[12, 2, 6, 2, if l.steps >= 10 && gone.len() < 6 { 1 } else { 0 }])
                };
                let mut word;
                let mut stay = true;
                let mut to = 0;
                match k {
                    0 => {
                        word = c.src.pick(&["si", "in", "stepin"]).to_string();
                        stay = false;
                        to = depth + diff;
                        c.count("command: step");
                        if diff > 0 {
                            c.count("call stepped into");
                        }
                        if diff < 0 {
                            c.count("stopped after leaving a function");
                        }
                    }
                    1 => {
                        word = c.src.pick(&["n", "next"]).to_string();
                        stay = false;
                        to = depth;
                        c.count("command: next");
                        if diff > 0 {
                            c.count("call stepped over");
                        }
                    }
                    2 => {
                        word = c.src.pick(&["so", "out", "stepout"]).to_string();
                        stay = false;
                        to = depth - 1;
                        c.count("command: out");
                    }
                    3 => {
                        typed.extend(c.src.pick(&["q\n", "quit\n", " q\n", "q"]).as_bytes());
                        c.count("session: quit");
                        break 'session Some(());
                    }
                    4 => {
                        c.count("session: input ended at the prompt");
                        break 'session None;
                    }
                    5 => {
                        let st = l.w.st();
                        let known = l.steps >= 10;
                        // registers hold anything before the program writes them
                        if known && c.src.chance(1, 3) {
                            let i = c.src.below(16) as u8;
                            let name = ["r0b", "r1l", "r1h", "r2l", "r2h", "r3l", "r3h", "r4l", "r4h", "r5l", "r5h", "r6b", "r7b", "r8b", "r9b", "r10b"][i as usize];
                            let v = st.br(i);
                            pieces.push(Piece::Value(format!("{name} = {v} 0x{v:02x}").into_bytes(), name.into()));
                            word = name.into();
                        } else {
                            let i = if known { c.src.below(17) } else { *c.src.pick(&[0, 11, 12, 13, 14, 15, 16]) } as usize;
                            let (name, shown, v) = match i {
                                16 => ("rpc".to_string(), "pc".to_string(), st.pc),
                                i => (reg_name(i), reg_name(i), st.r[i]),
                            };
                            pieces.push(Piece::Exact(format!("{shown} = {v} 0x{v:04x}\n").into_bytes(), format!("after {name}")));
                            word = name;
                        }
                        c.count("command: register");
                    }
                    6 => {
                        word = "flags".into();
                        pieces.push(Piece::Flags(l.w.st().fl));
                        c.count("command: flags");
                    }
                    7 => {
                        let st = l.w.st();
                        let a = match c.src.below(8) {
                            0 => c.src.u16(),
                            1 => st.r[RS].wrapping_add(c.src.below(8) as u16),
                            2 => st.r[1 + c.src.usize(10)],
                            3 => 0xffff,
                            4 => st.pc,
                            _ => match c.src.pick(&load_segs(&l, &labels, start)) {
                                &(at, n) => at.wrapping_add(c.src.below(n as u64 + 2) as u16),
                            },
                        };
                        let a = if l.steps >= 10 { a } else { c.src.u16() };
                        word = number("r", a, &mut c.src);
                        match (l.peek(a), l.peek(a.wrapping_add(1))) {
                            (Some(x), Some(y)) => pieces.push(Piece::Exact(format!(" = 0x{x:02x} 0x{y:02x} ...\n").into_bytes(), format!("after {word}"))),
                            (Some(x), None) => pieces.push(Piece::Exact(format!(" = 0x{x:02x} ...\n").into_bytes(), format!("after {word}"))),
                            _ => c.count("command: memory, no access"),
                        }
                        c.count("command: memory");
                    }
                    9 => {
                        let a = match c.src.below(8) {
                            0 => c.src.u16(),
                            1 => start,
                            2 => l.pc(),
                            3 | 4 if !labels.is_empty() => c.src.pick(&labels).0,
                            _ => c.src.pick(&places).to_owned(),
                        };
                        word = number("g", a, &mut c.src);
                        c.count("command: go to");
                        gone.push((l.steps, a));
                        // the same once more, to see whether it ends
                        let mut b = Line::new(&whole, from)?;
                        for &(n, a) in &gone {
                            while b.steps < n {
                                b.step(&mut Vec::new())?;
                            }
                            b.w.m.cpu.program_counter = a;
                        }
                        limit = if ends(&mut b)? { None } else { Some(l.steps + 200) };
                        l.w.m.cpu.program_counter = a;
                        typed.extend(word.as_bytes());
                        typed.push(b'\n');
                        c.shape(k as u64);
                        continue 'session;
                    }
                    _ => {
                        // nothing of this is a command
                        let long = c.src.chance(1, 10);
                        word = match c.src.below(8) {
                            0 => (*c.src.pick(&["", "g", "g zz", "g 0x", "g -1"])).into(),
                            1 => "r".into(),
                            2 => "r 0x".into(),
                            3 => "r 65536".into(),
                            4 => "g 0xfffff".into(),
                            5 => "r zz".into(),
                            6 => "r11".into(),
                            _ => format!("nn{}", "é?".repeat(c.src.usize(9))),
                        };
                        if long {
                            word = "x".repeat(c.src.range(100, 20_000) as usize);
                            c.count("command: long typing error");
                        }
                        c.count("command: typing error");
                    }
                }
                if c.src.chance(1, 10) {
                    word = format!(" {word}\t ");
                }
                typed.extend(word.as_bytes());
                typed.push(b'\n');
                if c.src.chance(1, 300) {
                    // carriage return and line feed
                    typed.pop();
                    typed.extend(b"\r\n");
                }
                c.shape(k as u64);
                if !stay {
                    break to;
                }
                pieces.push(Piece::Exact(b"+tdgb> ".to_vec(), format!("after {}", text(word.as_bytes()))));
            };
        }
        let mut says = Vec::new();
        let pre = l.w.st();
        if l.debug_call() {
            pieces.push(Piece::Map);
        }
        let (went, asked) = l.step(&mut says)?;
        if !says.is_empty() {
            if says.starts_with(b"STDOUT") {
                c.count("line of output");
            }
            pieces.push(Piece::Exact(says, format!("while {:04x} is executed", pre.pc)));
        }
        if let Some(line) = asked {
            c.count("line of input asked for");
            closed = line.last() != Some(&b'\n');
            typed.extend(line);
        }
        match went {
            Went::On => {
                if code.first() != Some(&0x0c) && l.w.st().r[1] < 12 && l.w.st().pc != pre.pc.wrapping_add(1) && model_traps(&pre, &l) {
                    c.count("handled fault");
                }
            }
            Went::NoInput => {
                c.count("session: input ended while the program asked");
                starved = true;
                break None;
            }
            Went::Ended(t) => {
                c.count(match t as u8 {
                    model::HALT => "session: ended by halt",
                    model::SYSCALL => "session: ended by an unknown system call",
                    _ => "session: ended by a fault",
                });
                pieces.push(Piece::Exact(format!("ended with {}\n", lock::trap_name(t as u8)).into_bytes(), "at the end".into()));
                break Some(());
            }
        }
        depth += diff;
    };
    pieces.push(Piece::End);
    c.shape(prompts);

    c.ps().put("prog", &code.obj.encode(), 0o644);
    let plan = noise(&mut c.src);
    let args: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    let r = c.run("tdbg", &args, &typed, &plan);
    ordinary("tdbg", &r)?;
    let mut maps = transcript(c, &r.stdout, &pieces, &labels, end.is_none())?.into_iter();
    if end.is_some() {
        check!(r.ok(), "status", "the session is over and tdbg ends with {} {}", r.status(), text(&r.stderr));
    }
    check!(!starved || !r.ok(), "status", "the program asks for input that has ended, and tdbg ends with {}", r.status());

    // the program without a debugger
    if !unending && from.is_none() && gone.is_empty() {
        let mut says = Vec::new();
        let mut a = Line::new(&code, None)?;
        // with what the debug calls printed
        let mut want = Vec::new();
        let mut shown_all = true;
        let went = loop {
            if a.debug_call() {
                c.count("debug call");
                want.append(&mut a.out);
                match maps.next() {
                    Some(m) => want.extend(m),
                    None => shown_all = false,
                }
            }
            match a.step(&mut says)?.0 {
                Went::On => (),
                w => break w,
            }
        };
        let input = code.lines.concat();
        let plan = noise(&mut c.src);
        let r = c.run("t", &["prog"], &input, &plan);
        c.count("emulator run");
        match went {
            Went::On => unreachable!(),
            Went::NoInput => check!(!r.ok(), "emulator", "the program asks for more input than there is, and t ends with success"),
            Went::Ended(t) => {
                ordinary("t", &r)?;
                want.append(&mut a.out);
                check!(!shown_all || r.stdout == want, "emulator", "t prints {} and the debugged program {}", crate::obj::hex(&r.stdout), crate::obj::hex(&want));
                if t as u8 == model::HALT {
                    check!(r.ok(), "emulator", "the debugged program halts, and t ends with {} {}", r.status(), text(&r.stderr));
                } else {
                    let n = lock::trap_name(t as u8);
                    check!(!r.ok() && contains(&r.stderr, n.as_bytes()), "emulator", "the debugged program ends with {n}, and t with {} {}", r.status(), text(&r.stderr));
                }
            }
        }
    }
    Ok(())
}

fn model_traps(pre: &St, l: &Line) -> bool {
    let s = model::step(&l.w.mem, 0, pre);
    !s.traps.is_empty()
}
/// Where something is, to look at
fn load_segs(l: &Line, labels: &[(u16, String)], start: u16) -> Vec<(u16, u16)> {
    let st = l.w.st();
    let mut v = vec![(start, 60), (st.r[RS], 6), (0xff80, 126), (0xc000, 0x2000)];
    v.extend(labels.iter().map(|x| (x.0, 10)));
    v
}

fn shown(b: &[u8]) -> String {
    text(&b[..b.len().min(160)])
}

/// What the debugger prints, piece by piece
fn transcript(c: &mut Ctx, out: &[u8], pieces: &[Piece], labels: &[(u16, String)], cut: bool) -> Result<Vec<Vec<u8>>, Fail> {
    let mut at = 0;
    let mut maps = Vec::new();
    for p in pieces {
        let rest = &out[at..];
        match p {
            Piece::Exact(b, what) => {
                check!(rest.starts_with(b), "transcript", "{what}, tdbg shows {:?} instead of {:?}", shown(rest), shown(b));
                at += b.len();
            }
            Piece::Value(b, name) => {
                let n = rest.iter().position(|&x| x == b'\n').unwrap_or(rest.len());
                let ok = rest.starts_with(b) && matches!(rest.get(b.len()), Some(b' ' | b'\n'));
                check!(ok, "transcript", "for {name}, tdbg shows {:?} instead of {:?}", shown(&rest[..n]), shown(b));
                at += n + 1;
            }
            Piece::Map => {
                let mut n = 0;
                let mut last = None;
                while let Some(k) = rest[n..].iter().position(|&x| x == b'\n') {
                    if !contains(&rest[n..n + k], b"_ => ") || !rest[..n + k].ends_with(b")") {
                        break;
                    }
                    // in ascending order; the next map begins again at the lowest page
                    let page = rest[n..].get(..3).map(|x| x.to_vec());
                    if last.is_some() && page <= last {
                        break;
                    }
                    last = page;
                    n += k + 1;
                }
                check!(n > 0, "transcript", "the debug call prints {:?}", shown(rest));
                maps.push(rest[..n].to_vec());
                at += n;
            }
            Piece::Flags(fl) => {
                let n = rest.iter().position(|&x| x == b'\n').unwrap_or(rest.len());
                let t = String::from_utf8_lossy(&rest[..n]).into_owned();
                let Some(names) = t.strip_prefix("flags = ") else {
                    return fail("transcript", format!("for flags, tdbg shows {t:?}"));
                };
                let got: Vec<&str> = names.split(" | ").filter(|x| *x != "0").collect();
                let want: Vec<&str> = [(Z, "zero"), (O, "overflow"), (S, "sign"), (C, "carry"), (V, "vm"), (U, "user")].iter().filter(|x| fl & x.0 != 0).map(|x| x.1).collect();
                // that it runs in user and virtual mode is not necessarily shown
                for w in [(Z, "zero"), (O, "overflow"), (S, "sign"), (C, "carry")] {
                    check!(got.contains(&w.1) == want.contains(&w.1), "transcript", "the flags are {}, and tdbg shows {t:?}", flags(*fl));
                }
                at += n + 1;
            }
            Piece::Prompt { pc, code } => {
                let p = b"+tdgb> ";
                let Some(n) = rest.windows(p.len()).position(|w| w == p) else {
                    return fail("transcript", format!("at {pc:04x}, tdbg does not ask for a command but shows {:?}", shown(rest)));
                };
                let gap = String::from_utf8_lossy(&rest[..n]).into_owned();
                let head = format!("  {pc:04x}: ");
                let Some(line) = gap.lines().find(|x| x.starts_with(&head)) else {
                    return fail("transcript", format!("tdbg does not stop at {pc:04x}: it shows {:?}", shown(&rest[..n])));
                };
                // the bytes of the instruction
                let mut k = 0;
                let b = &line.as_bytes()[head.len()..];
                while b.len() >= 3 * k + 3 && b[3 * k] == b' ' && b[3 * k + 1].is_ascii_hexdigit() && b[3 * k + 2].is_ascii_hexdigit() && k < 4 {
                    let x = u8::from_str_radix(std::str::from_utf8(&b[3 * k + 1..3 * k + 3]).unwrap_or("zz"), 16);
                    check!(x.ok() == code.get(k).copied(), "transcript", "at {pc:04x} there is {}, and tdbg shows {line:?}", crate::obj::hex(code));
                    k += 1;
                }
                for x in gap.lines() {
                    if let Some(name) = x.strip_prefix('<').and_then(|x| x.strip_suffix(">:")) {
                        c.count("label shown");
                        check!(labels.iter().any(|l| l.0 == *pc && l.1 == name), "transcript", "tdbg stops at {pc:04x} and calls it {name}");
                    }
                }
                at += n + p.len();
            }
            Piece::End => {
                let ok = if cut { rest.iter().all(|x| x.is_ascii_whitespace()) } else { rest.is_empty() };
                check!(ok, "transcript", "the session is over, and tdbg goes on with {:?}", shown(rest));
            }
        }
    }
    Ok(maps)
}

// ---- disassembly ----

fn disassembly(c: &mut Ctx) -> Res {
    let (mut w, mut aim) = super::c19::fresh(c);
    super::c19::fill(c, &mut w, &aim);
    let virt = c.src.chance(3, 4);
    let generous = !c.src.chance(1, 5);
    let mut ptes = Vec::new();
    let mut t1 = c.src.u16();
    if virt {
        ptes = gen::tables(&mut c.src, &mut w, &mut aim, generous);
        if !c.src.chance(1, 8) {
            t1 = w.st().r[RP];
        }
    } else {
        aim.vpages = aim.pages.iter().filter(|&&p| p < 0x1_0000).map(|&p| p as u16).collect();
    }
    let mut st = gen::random_state(&mut c.src, &aim);
    st.r[RP] = t1;
    st.r[RH] = if c.src.chance(1, 2) { gen::value(&mut c.src, &aim) } else { 0 };
    st.fl = c.src.u8() & 0xf3 & !0x04 | if virt { V } else { 0 };
    w.set(&st);
    c.nontrivial = true;
    let n = c.src.range(5, 80);
    for _ in 0..n {
        if c.src.chance(1, 6) {
            super::c19::environment(c, &mut w, &aim, &ptes, generous);
        }
        let mut st = w.st();
        st.pc = match c.src.below(4) {
            0 => c.src.u16(),
            1 => *c.src.pick(&[0, 0x7e, 0x7f, 0x80, 0xfffd, 0xfffe, 0xffff]),
            _ => gen::address(&mut c.src, &aim),
        };
        w.set(&st);
        if c.src.chance(1, 2) {
            let code = gen::instr(&mut c.src, &gen::ALL, &aim);
            gen::place(&mut w, &code);
        }
        let label = c.src.chance(1, 3);
        let r = w.guarded(|m| telda2::disassemble::disassemble_instruction(m, |_| if label { Some("somewhere") } else { None }))?;
        let writes: Vec<Acc> = w.m.memory.log.iter().filter(|a| a.write).copied().collect();
        let dev = w.dev.borrow().log.clone();
        w.taken()?;
        let what = format!("disassembling at {:04x}", st.pc);
        match &r {
            Ok(d) => {
                c.count("disassembled");
                c.mark(hash_bytes(d.next_instruction_location as u64, d.annotated_source.as_bytes()));
            }
            Err(t) => {
                c.count("disassembly: trap");
                c.mark(mix(*t as u8 as u64));
            }
        }
        c.note(|| format!("{what}: {}", r.as_ref().map_or_else(|t| format!("{t:?}"), |d| d.annotated_source.clone())));
        lock::registers(&w.st(), &st, &what)?;
        check!(writes.is_empty(), "memory", "{what} writes {:02x} to {:06x}", writes[0].val, writes[0].addr);
        check!(dev.is_empty(), "devices", "{what} accesses the device at {}", dev[0].addr);
        c.shape(r.is_ok() as u64);
    }
    w.whole(false)
}
