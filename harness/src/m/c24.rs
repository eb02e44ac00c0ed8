//! C24: whatever a source holds, tc ends, and says yes or no
use super::asm;
use super::c20;
use crate::check;
use crate::common::{noise, noisy, ordinary};
use crate::obj::*;
use crate::psim::*;
use crate::run::{fail, Ctx, Prop, Res};
use crate::src::Src;
use std::collections::{BTreeMap, BTreeSet};

pub const PROP: Prop = Prop {
    id: "C24",
    run,
    quick: 70_000,
    thorough: 1_500_000,
    level: "exploration",
    rule: "a run generates a source with included files, damages one or more of them (bits, bytes, ranges, cuts, splices, other tokens, odd lines, text that is no UTF-8, files that include themselves or each other, very long lines, very many lines) and gives it to the shipped tc while reads and writes are split, shortened and interrupted; tc must refuse it with messages that name files and lines there are, and leave the output, or write a well-formed object that tobjdump and tl take; the same source with empty lines, comments and blanks added must be judged, described and assembled the same, and other files in the command must be processed; non-trivial: the source is no longer what was generated; distinct by the sequence of calls, faults and results",
    real: "the shipped tc, tl and tobjdump with the library below them, unmodified, built from /repo's working tree",
    stub: crate::common::STUB,
    assumptions: &["stack of 8 MiB (the default)", "20 s of processor time for one command"],
    probes: &["accepted", "refused", "accepted after damage", "damage: bit", "damage: byte", "damage: cut", "damage: range removed", "damage: range repeated", "damage: splice", "damage: token", "damage: odd line", "damage: lines swapped", "damage: no UTF-8", "damage: includes itself", "damage: includes each other", "damage: long line", "damage: many lines", "damage: many wrong lines", "line named", "wrong line", "padded: refused", "padded: accepted", "beside a good one", "linked", "noise met"],
};

const TOKENS: [&str; 75] = [
    "ldi", "add", "load", "store", "str", "jmp", "jump", "call", "ret", "mul", "div", "push", "pop", "nop", "halt", "null", "ctf", "syscall", "reth", "jez", "sub", "xor", "shl", "asr", "lsr", "r0", "r1", "r10", "rs", "rl", "rf", "rp", "rh",
    "r0b", "r1l", "r1h", "r10b", "r5h", "r6b", "r6l", "r11", "0", "1", "-1", "255", "256", "-128", "-129", "65535", "65536", "0xffff", "0x10000", "2147483647", "2147483648", "-2147483648", "0x", "0b101", "0o17", "0b", "'a'", "'", "''", "'''", "'\\x41'", "12b", "12w", "-1b", "-1w",
    ":", ",", "é", "ldié", "'é'", "日本", "r1é",
];
const LINES: [&str; 70] = [
    ".", ":", "::", " ", ",", ".seg", ".seg text", ".seg data", ".seg heap", ".seg rodata", ".seg zero", ".string", ".string \\", ".string \\x", ".string \\x4", ".string \\x4g", ".string \\xé", ".string a\\xé", ".string \\x\u{2028}", ".string é日本\\n", ".byte", ".byte 'é'", ".byte '\\x4'", ".byte '\\'",
    ".byte -129", ".byte 99999999999", ".wide", ".wide ", ".wide x", ".wide  x", ".wide '", ".wide -32769", ".global", ".global x", ".global  y", ".ref", ".ref x", ".ref  y", ".reference z", ".entry", ".entry x", ".include", ".include ", ".include .", ".include ..", ".include /", ".include inc", ".include no",
    "x:", " x :", "x: nop", "a b c:", "-:", "0:", "r1:", "jmp", "jmp ,", "jmp ,,,,", "ldi r1,", "ldi ,r1", "ldi r1 , 'é'", "add r1,r2,r3,r4,r5", "halt ,", "store r1, x, r2", "é r1, r2", "日本 é", "é:", "haltåé r1", "\u{2028}", "nop\u{a0}",
];
/// Nothing of these means anything
const BLANK: [&str; 9] = ["", "  ", "\t", ";", "; comment:", "// .entry", "# .seg text", "   ; \\ '", "#"];

/// Returns what was done
fn damage(s: &mut Src, files: &mut BTreeMap<String, Vec<u8>>, name: &str) -> &'static str {
    let others: Vec<Vec<u8>> = files.values().cloned().collect();
    let names: Vec<String> = files.keys().cloned().collect();
    let b = files.get_mut(name).unwrap();
    let at = |s: &mut Src, b: &[u8]| s.usize(b.len() + 1);
    let mut lines: Vec<Vec<u8>> = b.split(|&x| x == b'\n').map(|l| l.to_vec()).collect();
    // the others can be included many times, in which case there is as much to say
    let alone = name == "s.telda";
    let what;
    match s.below(40) {
        0..=2 if !b.is_empty() => {
            let i = s.usize(b.len());
            b[i] ^= 1 << s.below(8);
            return "damage: bit";
        }
        3..=6 if !b.is_empty() => {
            let i = s.usize(b.len());
            b[i] = if s.chance(1, 3) { s.u8() } else { *s.pick(b"\0\xff\\'\":.,;/# \t\r\n0xbw-r\x80\xc3\x0b\x0c") };
            return "damage: byte";
        }
        7 | 8 => {
            let i = at(s, b);
            b.truncate(i);
            return "damage: cut";
        }
        9..=11 => {
            let i = at(s, b);
            let n = s.size(12, 400).min((b.len() - i) as u64) as usize;
            b.drain(i..i + n);
            return "damage: range removed";
        }
        12 | 13 => {
            let i = at(s, b);
            let n = s.size(20, 600).min((b.len() - i) as u64) as usize;
            let r = b[i..i + n].to_vec();
            let to = at(s, b);
            b.splice(to..to, r);
            return "damage: range repeated";
        }
        14 | 15 => {
            let o = s.pick(&others).clone();
            let i = at(s, &o);
            let n = s.size(60, 2000).min((o.len() - i) as u64) as usize;
            let to = at(s, b);
            let over = s.size(60, 2000).min((b.len() - to) as u64) as usize;
            b.splice(to..to + over, o[i..i + n].to_vec());
            return "damage: splice";
        }
        16..=22 => {
            // one word of a line
            let k = s.usize(lines.len());
            let l = String::from_utf8_lossy(&lines[k]).into_owned();
            let mut words: Vec<&str> = l.split_inclusive([' ', ',']).collect();
            let t = *s.pick(&TOKENS);
            let i = s.usize(words.len() + 1);
            let tail = words.get(i).filter(|w| w.ends_with([' ', ','])).map_or("", |w| &w[w.len() - 1..]);
            let t = format!("{t}{tail}");
            match s.below(3) {
                0 if i < words.len() => {
                    words.remove(i);
                }
                1 if i < words.len() => words[i] = &t,
                _ => words.insert(i, &t),
            }
            lines[k] = words.concat().into_bytes();
            what = "damage: token";
        }
        23..=28 => {
            let k = s.usize(lines.len() + 1);
            lines.insert(k, s.pick(&LINES).as_bytes().to_vec());
            what = "damage: odd line";
        }
        29 | 30 => {
            let (x, y) = (s.usize(lines.len()), s.usize(lines.len()));
            lines.swap(x, y);
            what = "damage: lines swapped";
        }
        31 | 32 => {
            let k = s.usize(lines.len());
            let junk: &[u8] = *s.pick(&[&b"\xff"[..], b"\xc3", b"\xe6\x97", b"\xed\xa0\x80", b"\xf5\x80\x80\x80", b"\xc0\x80"]);
            let i = s.usize(lines[k].len() + 1);
            lines[k].splice(i..i, junk.to_vec());
            what = "damage: no UTF-8";
        }
        33 | 34 => {
            let k = s.usize(lines.len() + 1);
            // seen from where the file is
            let base = name.rsplit('/').next().unwrap();
            let up = "../".repeat(name.matches('/').count());
            let l = match s.below(3) {
                0 => format!(".include {base}"),
                1 => format!(".include ./{base}"),
                _ => format!(".include {up}{name}"),
            };
            for _ in 0..s.range(1, 3) {
                lines.insert(k, l.clone().into_bytes());
            }
            what = "damage: includes itself";
        }
        35 | 36 => {
            // with most of them, a circle
            for n in &names {
                let up = "../".repeat(n.matches('/').count());
                let to = s.pick(&names).clone();
                let b = files.get_mut(n).unwrap();
                let mut l = format!(".include {up}{to}\n").into_bytes();
                if s.chance(1, 2) {
                    l.extend(l.clone());
                }
                let i = if s.chance(1, 2) { 0 } else { b.iter().position(|&x| x == b'\n').map_or(b.len(), |i| i + 1) };
                b.splice(i..i, l);
            }
            return "damage: includes each other";
        }
        37 => {
            let n = *s.pick(if alone { &[300, 5000, 70_000, 300_000] } else { &[300, 5000, 10_000, 70_000] });
            let unit = *s.pick(&["x", "\\n", "\\x41", ",", ", 1", "é", "'", "0", " 1", ":"]);
            let start = *s.pick(&["", ".string ", "ldi r1, ", "jmp ", ".byte ", ".wide ", ".global ", ".include ", ".seg ", "; ", "."]);
            let k = s.usize(lines.len() + 1);
            let end = if s.chance(1, 4) { ":" } else { "" };
            lines.insert(k, format!("{start}{}{end}", unit.repeat(n / unit.len())).into_bytes());
            what = "damage: long line";
        }
        38 if s.chance(1, 2) => {
            let n = *s.pick(if alone { &[100, 3000, 20_000] } else { &[100, 500, 3000] });
            let k = s.usize(lines.len() + 1);
            let l = *s.pick(&["nop", ".byte 1", ".wide x", "jmp x", ".entry", ".global x", ".string abc", ".seg data", "call nowhere", "ldi r2, 5"]);
            lines.splice(k..k, std::iter::repeat_n(l.as_bytes().to_vec(), n));
            what = "damage: many lines";
        }
        39 if s.chance(1, 3) => {
            let n = *s.pick(if alone { &[100, 2000, 30_000, 120_000] } else { &[100, 300, 1000, 2000] });
            let k = s.usize(lines.len() + 1);
            let l: &[u8] = *s.pick(&[&b"bogus"[..], b"\xff", b".byte", b"add r1", b".seg q", b"twice:"]);
            lines.splice(k..k, std::iter::repeat_n(l.to_vec(), n));
            what = "damage: many wrong lines";
        }
        _ => {
            let k = s.usize(lines.len());
            lines.remove(k);
            what = "damage: range removed";
        }
    }
    *b = lines.join(&b'\n');
    what
}

/// The main file with lines that mean nothing put in; also where every line has gone (both from 1)
fn padded(s: &mut Src, b: &[u8]) -> (Vec<u8>, Vec<usize>) {
    let mut out: Vec<Vec<u8>> = Vec::new();
    let mut map = vec![0];
    let lines: Vec<&[u8]> = b.split(|&x| x == b'\n').collect();
    let n = lines.len() as u64;
    let places: Vec<usize> = (0..s.range(1, 5)).map(|_| s.below(n) as usize).collect();
    let (front, behind) = (*s.pick(&["", " ", "\t ", "    "]), *s.pick(&["", " ", "\t", "  \t "]));
    // blanks within what is left of a line that is no text would change what it is
    let text = std::str::from_utf8(b).is_ok();
    for (i, l) in lines.iter().enumerate() {
        for _ in places.iter().filter(|&&p| p == i) {
            out.push(s.pick(&BLANK).as_bytes().to_vec());
        }
        let last = i + 1 == lines.len() && l.is_empty();
        let mut x = Vec::new();
        if text && !last {
            x.extend(front.as_bytes());
        }
        x.extend(*l);
        if text && !last {
            x.extend(behind.as_bytes());
        }
        out.push(x);
        map.push(out.len());
    }
    (out.join(&b'\n'), map)
}

/// Lines of a message that begin with the name of a file and a number, in their parts
fn parts<'a>(l: &'a str, name: &str) -> Option<(usize, &'a str)> {
    let r = l.strip_prefix(name)?.strip_prefix(':')?;
    let i = r.find(':')?;
    Some((r[..i].parse().ok()?, &r[i..]))
}

fn run(c: &mut Ctx) -> Res {
    let program = c.src.chance(1, 3);
    let (_, files, _) = if program { c20::generate_program(&mut c.src) } else { c20::generate_any(&mut c.src) };
    c20::put(c, &files);
    let shown: Vec<(String, String)> = files.iter().map(|f: &asm::File| (f.shown.clone(), f.name.clone())).collect();
    let mut all: BTreeMap<String, Vec<u8>> = files.iter().map(|f| (f.name.clone(), c.ps().get(&f.name).unwrap_or_default())).collect();
    let original = all.clone();
    for _ in 0..*c.src.pick(&[1, 1, 1, 2, 3]) {
        let name = if c.src.chance(1, 3) { c.src.pick(&all.keys().cloned().collect::<Vec<_>>()).clone() } else { "s.telda".into() };
        let what = damage(&mut c.src, &mut all, &name);
        c.count(what);
        c.note(|| format!("{what} in {name}"));
    }
    let damaged = all != original;
    c.nontrivial = damaged;
    // a line that is certainly wrong, and has to be found
    let mut wrong = None;
    if c.src.chance(1, 4) {
        let b = all.get_mut("s.telda").unwrap();
        let mut lines: Vec<&[u8]> = b.split(|&x| x == b'\n').collect();
        let k = c.src.usize(lines.len() + 1);
        lines.insert(k, b"unheardof r1");
        *b = lines.join(&b'\n');
        wrong = Some(format!("s.telda:{}: unknown instruction: unheardof", k + 1));
        c.count("wrong line");
    }
    for (n, b) in &all {
        c.ps().put(n, b, 0o644);
        if b.len() < 3000 {
            c.note(|| format!("file {n} is now:\n{}", String::from_utf8_lossy(b)));
        }
    }
    // others in the same command
    let beside = c.src.chance(1, 4);
    let mut args = vec!["s.telda"];
    let mut good = None;
    if beside {
        c.count("beside a good one");
        c.ps().put("good.telda", b".global good\n.seg text\ngood: \nret\n", 0o644);
        let o = c.run("tc", &["good.telda"], b"", &Plan::default());
        crate::common::must_succeed("tc", &o)?;
        good = c.ps().get("good.to");
        c.ps().remove("good.to");
        let at = c.src.usize(2);
        args.insert(at, "good.telda");
    }
    let old = c.src.chance(1, 2).then(|| b"what was there before".to_vec());
    if let Some(b) = &old {
        c.ps().put("s.to", b, 0o600);
    }
    let before = c.ps().snapshot();
    let mut plan = noise(&mut c.src);
    let big: usize = all.values().map(|b| b.len()).sum();
    if big > 30_000 {
        plan.p_short = plan.p_short.min(100);
    }
    // each message takes several calls, and files can be included more than once
    let lines: usize = all.values().map(|b| b.split(|&x| x == b'\n').count()).sum();
    let budget = 500_000 + big as u32 + 50 * lines as u32;
    plan.budget = budget;
    if noisy(&plan) {
        c.count("noise met");
    }
    let o = c.run("tc", &args, b"", &plan);
    ordinary("tc", &o)?;
    let after = c.ps().get("s.to");
    if let Some(g) = good {
        check!(c.ps().get("good.to") == Some(g), "others", "good.telda is not assembled as it is alone");
    }
    if o.ok() {
        c.count("accepted");
        if damaged {
            c.count("accepted after damage");
        }
        if let Some(l) = String::from_utf8_lossy(&o.stderr).lines().find(|l| !l.starts_with("warning: ")) {
            return fail("message", format!("tc succeeds and says: {l}"));
        }
        accepted(c, &after)?;
    } else {
        c.count("refused");
        check!(after == old, "output touched", "tc refuses the source and s.to is changed");
        messages(c, &o, &shown)?;
    }
    if let Some(w) = wrong {
        check!(contains(&o.stderr, w.as_bytes()), "message", "tc ends with {} and does not say {w}", o.status());
    }
    // the same once more, with what means nothing
    c.ps().restore(&before);
    let main = all["s.telda"].clone();
    if main.len() > 100_000 {
        return Ok(());
    }
    let (pad, map) = padded(&mut c.src, &main);
    c.ps().put("s.telda", &pad, 0o644);
    let mut plan = noise(&mut c.src);
    plan.p_short = plan.p_short.min(if big > 30_000 { 100 } else { 1024 });
    plan.budget = budget;
    let p = c.run("tc", &args, b"", &plan);
    ordinary("tc", &p)?;
    check!(p.code == o.code, "spacing", "with empty lines, comments and blanks added, tc ends with {} {} instead of {} {}", p.status(), text(&p.stderr), o.status(), text(&o.stderr));
    let again = c.ps().get("s.to");
    check!(again == after, "spacing", "with empty lines, comments and blanks added, another object is written");
    c.count(if o.ok() { "padded: accepted" } else { "padded: refused" });
    // the messages are the same, at the places where the lines have gone
    let place = |l: &str| match parts(l, "s.telda") {
        Some((n, rest)) => format!("s.telda:{}{rest}", map.get(n).copied().unwrap_or(0)),
        None => l.to_string(),
    };
    let (x, y) = (String::from_utf8_lossy(&o.stderr).into_owned(), String::from_utf8_lossy(&p.stderr).into_owned());
    // what is said about lines that mean nothing is said about every line
    let gone: BTreeSet<usize> = map[1..].iter().copied().collect();
    let every: BTreeSet<&str> = y.split('\n').filter_map(|l| parts(l, "s.telda")).filter(|(n, _)| !gone.contains(n)).map(|p| p.1).collect();
    let about = |l: &&str| parts(l, "s.telda").is_none_or(|p| !every.contains(&p.1));
    let mut x: Vec<String> = x.split('\n').filter(about).map(place).collect();
    let mut y: Vec<&str> = y.split('\n').filter(about).collect();
    x.sort();
    y.sort();
    if x != y {
        let d = x.iter().zip(&y).find(|(a, b)| a != b);
        return fail("spacing", format!("with empty lines, comments and blanks added, tc says other things: {d:?}"));
    }
    Ok(())
}

fn messages(c: &mut Ctx, o: &Outcome, shown: &[(String, String)]) -> Res {
    let said = String::from_utf8_lossy(&o.stderr).into_owned();
    let mut named = false;
    let mut lines_named = 0;
    // the name of a file that is not there can be empty, or begin like this
    let empty = c.ps().snapshot().values().any(|f| contains(&f.1, b".include /") || f.1.split(|&x| x == b'\n').any(|l| String::from_utf8_lossy(l).trim().strip_prefix(".include").is_some_and(|l| l.is_empty() || l.trim().starts_with(':'))));
    let shown: Vec<(String, &String, usize)> = shown.iter().map(|(s, name)| (format!("{s}:"), name, c.ps().get(name).unwrap_or_default().split(|&x| x == b'\n').count())).collect();
    for l in said.lines() {
        named |= l.starts_with("s.to") || l.starts_with("s.telda:") || shown.iter().any(|s| l.starts_with(&s.0));
        for (s, name, lines) in &shown {
            if let Some((n, _)) = parts(l, &s[..s.len() - 1]) {
                lines_named += 1;
                let lines = *lines;
                check!(n >= 1 && n <= lines, "message", "{name} has {lines} lines, and the message is about another: {l}");
            }
        }
        check!(empty || !l.starts_with(": "), "message", "the message does not say which file it is about: {l}");
    }
    if lines_named > 0 {
        c.count("line named");
    }
    // also files that could not be opened are named; they can have any name
    named |= said.lines().any(|l| l.contains(": "));
    check!(named, "message", "no file is named: {}", text(&o.stderr));
    Ok(())
}

fn accepted(c: &mut Ctx, after: &Option<Vec<u8>>) -> Res {
    let Some(b) = after else { return fail("object", "tc succeeded and there is no s.to") };
    let Some((obj, end)) = decode(b, 0) else { return fail("object", "tc succeeded and s.to is no object file") };
    check!(obj.offset == 0 && end == b.len(), "object", "something is in front of or behind the object");
    // segments side by side, at multiples of 128
    let mut last = 0u32;
    for (t, at, s) in &obj.segs {
        check!(at % 128 == 0, "object", "segment {} begins at {at:x}", asm::seg_name(*t));
        let _ = t;
        last = last.max(*at as u32 + s.len() as u32);
        check!(last <= 0x1_0000, "object", "segment {} reaches beyond the end of memory", asm::seg_name(*t));
    }
    for (i, x) in obj.segs.iter().enumerate() {
        for y in &obj.segs[..i] {
            let apart = x.1 as usize + x.2.len() <= y.1 as usize || y.1 as usize + y.2.len() <= x.1 as usize;
            check!(apart, "object", "two segments overlap");
        }
    }
    let within = |t: u8, a: u16| obj.seg(t).is_none_or(|s| a >= s.1 && (a - s.1) as usize <= s.2.len());
    for (t, at, i) in &obj.relocs {
        let inside = obj.seg(*t).is_some_and(|s| *at >= s.1 && (*at - s.1) as usize + 2 <= s.2.len());
        check!(inside, "object", "a reference at {at:x}, outside its segment");
        check!((*i as usize) < obj.syms.len(), "object", "a reference to symbol {i} of {}", obj.syms.len());
    }
    let mut names: Vec<&[u8]> = Vec::new();
    for s in &obj.syms {
        check!(s.seg == UNKNOWN || within(s.seg, s.loc), "object", "symbol {} at {:x} is outside its segment", String::from_utf8_lossy(&s.name), s.loc);
        check!(s.global || s.seg != UNKNOWN, "object", "symbol {} is neither global nor defined", String::from_utf8_lossy(&s.name));
        names.push(&s.name);
    }
    names.sort();
    check!(names.windows(2).all(|w| w[0] != w[1]), "object", "two symbols have the same name");
    if let Some((t, at)) = obj.entry {
        check!(t != UNKNOWN && within(t, at), "object", "the entry point {at:x} is outside its segment");
    }
    let o = c.run("tobjdump", &["-t", "-d", "s.to"], b"", &Plan::default());
    crate::common::must_succeed("tobjdump", &o)?;
    if c.src.chance(1, 2) {
        let o = c.run("tl", &["s.to", "-o", "partial"], b"", &Plan::default());
        ordinary("tl", &o)?;
        if o.ok() {
            c.count("linked");
            let b = c.ps().get("partial").unwrap_or_default();
            check!(decode(&b, 0).is_some(), "object", "the link of s.to is no object file");
        }
        c.ps().remove("partial");
    }
    Ok(())
}
