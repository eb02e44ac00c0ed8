//! Damaged files are refused, never crashed on
use super::common::*;
use super::ops;
use crate::check;
use crate::obj::*;
use crate::prog;
use crate::psim::*;
use crate::run::{Ctx, Prop, Res};

pub const PROP: Prop = Prop {
    id: "C06",
    run,
    quick: 30_000,
    thorough: 2_000_000,
    level: "exploration",
    rule: "a run damages an object file or an archive (assembled programs and random objects; cuts, altered, deleted, inserted, zeroed, exchanged and repeated parts, altered lengths) and gives it to tobjdump, tl, tstrip and tar under splitting of transfers; each must end normally, refuse what was cut short, and whatever it writes must be readable; non-trivial: the damage changed the file; distinct by the sequence of calls, results and the exit statuses",
    real: REAL,
    stub: STUB,
    assumptions: &["the independent decoder in harness/src/obj.rs says which files are objects"],
    probes: &["cut short", "still an object", "no object any more", "archive", "linked", "stripped", "shown", "refused"],
};

fn original(c: &mut Ctx) -> Result<Vec<u8>, crate::run::Fail> {
    if c.src.chance(1, 3) {
        let z = if c.src.chance(1, 8) { ObjSizes { seg: 500, seg_max: 65_000, syms: 20, syms_max: 600 } } else { ObjSizes { seg: 30, seg_max: 300, syms: 4, syms_max: 20 } };
        let mut o = gen_obj(&mut c.src, &z);
        let mut b = gen_leading(&mut c.src);
        if !o.fits() {
            o.segs.clear();
        }
        // often what refers to something refers to something that is there
        if !o.syms.is_empty() && c.src.chance(1, 2) {
            for r in &mut o.relocs {
                r.2 %= o.syms.len() as u16;
                if let Some(s) = o.segs.iter().find(|s| s.2.len() >= 2) {
                    r.0 = s.0;
                    r.1 = s.1.wrapping_add(r.1 % (s.2.len() as u16 - 1));
                }
            }
        }
        b.extend(o.encode());
        return Ok(b);
    }
    let p = some_prog(c, &prog::Opts { modules: 2, ..Default::default() })?;
    let objs = p.objects();
    if c.src.chance(1, 3) {
        let mut args = refs(&objs);
        args.extend(["-o", "orig", "-e"]);
        if let Some(e) = &p.entry_sym {
            args.extend(["-E", e]);
        }
        let o = c.run("tl", &args, b"", &Plan::default());
        must_succeed("tl", &o)?;
        return Ok(c.ps().get("orig").unwrap_or_default());
    }
    let n = c.src.pick(&objs).clone();
    Ok(c.ps().get(&n).unwrap_or_default())
}

/// Offsets at which something begins in an object file, as far as it can be followed
fn marks(b: &[u8]) -> Vec<usize> {
    let mut v = Vec::new();
    let Some(m) = (0..b.len()).find(|&i| b[i..].starts_with(MAGIC)) else { return vec![0] };
    v.push(m);
    let mut p = m + MAGIC.len();
    while p < b.len() {
        v.push(p);
        let Some(z) = b[p..].iter().position(|&x| x == 0) else { break };
        let q = p + z + 1;
        if z == 0 || q + 2 > b.len() {
            break;
        }
        v.push(q);
        v.push(q + 1);
        let n = u16::from_le_bytes([b[q], b[q + 1]]) as usize;
        v.push(q + 2);
        if n > 0 {
            v.push(q + 2 + (n - 1).min(2));
            v.push(q + 1 + n);
        }
        p = q + 2 + n;
    }
    v.retain(|&x| x < b.len());
    v
}

/// The bytes of one field altered to another value that the field can have
fn damage_field(c: &mut Ctx, b: &mut Vec<u8>) -> Option<String> {
    let (mut o, end) = decode(b, 0)?;
    let word = |c: &mut Ctx| if c.src.chance(1, 2) { *c.src.pick(&[0u16, 1, 0x7f, 0x80, 0x7fff, 0x8000, 0xff80, 0xfffe, 0xffff]) } else { c.src.u16() };
    let st = *c.src.pick(&STYPES);
    let w = word(c);
    let what;
    match c.src.below(8) {
        0 | 1 if !o.relocs.is_empty() => {
            let i = c.src.usize(o.relocs.len());
            match c.src.below(3) {
                0 => o.relocs[i].0 = st,
                1 => o.relocs[i].1 = w,
                _ => o.relocs[i].2 = if c.src.chance(1, 2) { o.syms.len() as u16 - c.src.below(2).min(o.syms.len() as u64) as u16 } else { w },
            }
            what = format!("relocation {i} altered to {:?}", o.relocs[i]);
        }
        2 | 3 if !o.syms.is_empty() => {
            let i = c.src.usize(o.syms.len());
            match c.src.below(4) {
                0 => o.syms[i].seg = st,
                1 => o.syms[i].loc = w,
                2 => o.syms[i].global ^= !o.syms[i].name.is_empty() && o.syms[i].name[0] != b' ',
                _ => {
                    let n = o.syms[c.src.usize(o.syms.len())].name.clone();
                    if !n.is_empty() {
                        o.syms[i].name = n;
                    }
                }
            }
            what = format!("symbol {i} altered");
        }
        4 | 5 if !o.segs.is_empty() => {
            let i = c.src.usize(o.segs.len());
            if c.src.chance(1, 3) && !o.segs.iter().any(|s| s.0 == st) {
                o.segs[i].0 = st;
            } else {
                o.segs[i].1 = w;
            }
            what = format!("segment {i} altered to type {:#x} at {:#x}", o.segs[i].0, o.segs[i].1);
        }
        6 => {
            o.entry = Some((st, w));
            what = format!("entry altered to {:?}", o.entry);
        }
        _ => {
            o.heap = Some(w);
            o.stack = Some(word(c));
            what = format!("sizes altered to {:?} {:?}", o.heap, o.stack);
        }
    }
    let mut n = b[..o.offset as usize].to_vec();
    n.extend(o.encode());
    n.extend(&b[end..]);
    *b = n;
    Some(what)
}

pub fn damage(c: &mut Ctx, b: &mut Vec<u8>) -> String {
    if b.is_empty() {
        return "nothing".into();
    }
    if c.src.chance(1, 3) {
        if let Some(s) = damage_field(c, b) {
            return s;
        }
    }
    let m = marks(b);
    // positions near where something begins are worth more than those inside long contents
    let pos = |c: &mut Ctx, b: &[u8]| -> usize {
        if c.src.chance(2, 3) {
            (*c.src.pick(&m) + c.src.usize(4)).min(b.len() - 1)
        } else {
            c.src.usize(b.len())
        }
    };
    let at = pos(c, b);
    match c.src.below(9) {
        0 => {
            let bit = 1 << c.src.below(8);
            b[at] ^= bit;
            format!("bit {bit:#x} of byte {at} flipped")
        }
        1 | 2 => {
            b[at] = match c.src.below(3) {
                0 => *c.src.pick(&[0xff, 0, 1, 0x7f, 0x80, 0x20, 0x10, b'_', b' ', b'R', 2, 3, 4, 5]),
                1 => b[at].wrapping_add(1),
                _ => c.src.u8(),
            };
            format!("byte {at} set to {:#x}", b[at])
        }
        3 => {
            let n = (1 + c.src.size(4, 600) as usize).min(b.len() - at);
            b.drain(at..at + n);
            format!("{n} bytes from {at} on deleted")
        }
        4 => {
            let n = 1 + c.src.size(4, 600) as usize;
            let x = c.src.bytes(n);
            b.splice(at..at, x);
            format!("{n} bytes inserted at {at}")
        }
        5 => {
            let n = (1 + c.src.size(8, 4096) as usize).min(b.len() - at);
            let v = *c.src.pick(&[0, 0xff, b'A']);
            b[at..at + n].fill(v);
            format!("{n} bytes from {at} on set to {v:#x}")
        }
        6 => {
            // a length or address
            let v = *c.src.pick(&[0u16, 1, 2, 3, 4, 0x7f, 0x80, 0xff, 0x7fff, 0x8000, 0xff80, 0xfffe, 0xffff]);
            if at + 2 <= b.len() {
                b[at..at + 2].copy_from_slice(&v.to_le_bytes());
            }
            format!("bytes {at} and {} set to {v:#x}", at + 1)
        }
        7 => {
            // a part repeated elsewhere
            let (x, y) = (pos(c, b), pos(c, b));
            let part = b[x.min(y)..x.max(y)].to_vec();
            if part.len() > 3000 {
                return "nothing".into();
            }
            b.splice(at..at, part.iter().copied());
            format!("bytes {} to {} repeated at {at}", x.min(y), x.max(y))
        }
        _ => {
            let (x, y) = (pos(c, b), pos(c, b));
            let (x, y) = (x.min(y), x.max(y));
            let n = (y - x).min(b.len() - y).min(64);
            for i in 0..n {
                b.swap(x + i, y + i);
            }
            format!("{n} bytes at {x} and {y} exchanged")
        }
    }
}

fn run(c: &mut Ctx) -> Res {
    let good = original(c)?;
    let (_, end) = decode(&good, 0).expect("HARNESS: original");
    let archive = c.src.chance(1, 4);
    let mut b = good.clone();
    let mut cut = false;
    if archive {
        c.count("archive");
        b = AR_MAGIC.to_vec();
        b.extend(&good);
        for _ in 0..c.src.below(3) {
            let o = ops::small_object(c);
            b.extend(o.encode());
        }
    }
    let whole = b.clone();
    if c.src.chance(1, 3) {
        let n = if c.src.chance(1, 2) { c.src.usize(b.len()) } else { (*c.src.pick(&marks(&b)) + c.src.usize(3)).min(b.len() - 1) };
        b.truncate(n);
        c.note(|| format!("cut short to {n} of {} bytes", whole.len()));
        c.count("cut short");
        cut = n < end;
    }
    if b.len() == whole.len() || c.src.chance(1, 6) {
        for _ in 0..1 + c.src.weighted(&[4, 2, 1, 1]) {
            let d = damage(c, &mut b);
            c.note(|| d);
            if !d_is_nothing(&b, &whole) {
                cut = false;
            }
        }
    }
    // only cut, not altered in another way
    cut &= whole.starts_with(&b);
    c.nontrivial = b != whole;
    let name = if archive { "d.savn" } else { "d.to" };
    c.ps().put(name, &b, 0o644);
    let o2 = ops::small_object(c);
    c.ps().put("other.to", &o2.encode(), 0o644);
    let decoded = if archive { None } else { decode(&b, 0) };
    if !archive {
        c.count(if decoded.is_some() { "still an object" } else { "no object any more" });
    }
    let refused_if_cut = cut && !archive;

    for _ in 0..c.src.range(1, 3) {
        let plan = noise(&mut c.src);
        let before = c.ps().get(name);
        match c.src.below(4) {
            0 => {
                let mut args = vec![name];
                args.extend(*c.src.pick(&[&["-t"][..], &["-d"], &["-d", "-R"], &["-t", "-d", "-R"]]));
                if c.src.chance(1, 4) {
                    args.insert(0, "other.to");
                }
                let o = c.run("tobjdump", &args, b"", &plan);
                verdict(c, "tobjdump", &o, refused_if_cut)?;
                if o.ok() {
                    c.count("shown");
                }
            }
            1 => {
                let mut args = if archive { vec!["other.to", "-l", name] } else { vec![name] };
                if c.src.chance(1, 3) {
                    args.insert(c.src.usize(2).min(args.len()), "other.to");
                }
                args.extend(["-o", "linked"]);
                if c.src.chance(1, 3) {
                    args.push("-S");
                }
                if c.src.chance(1, 3) {
                    args.extend(["-e", "-E", "0x100"]);
                }
                if c.src.chance(1, 3) {
                    args.extend(["-A", *c.src.pick(&["1", "2", "512", "4096", "32768"])]);
                }
                c.ps().remove("linked");
                let o = c.run("tl", &args, b"", &plan);
                verdict(c, "tl", &o, refused_if_cut)?;
                if o.ok() {
                    c.count("linked");
                    readable(c, "tl", "linked")?;
                }
            }
            2 => {
                if archive {
                    continue;
                }
                let args = [name, "-a", "-f"];
                let n = c.src.range(1, 3) as usize;
                let o = c.run("tstrip", &args[..n], b"", &plan);
                verdict(c, "tstrip", &o, refused_if_cut)?;
                let after = c.ps().get(name);
                if o.ok() {
                    c.count("stripped");
                    readable(c, "tstrip", name)?;
                } else {
                    check!(before == after, "damaged further", "tstrip refused the file and changed it");
                }
            }
            _ => {
                if archive {
                    continue;
                }
                let o = c.run("tar", &["other.to", name, "-o", "new.savn"], b"", &plan);
                ordinary("tar", &o)?;
                check!(o.ok(), "refused", "tar copies files as they are, but fails: {}", text(&o.stderr));
                // an empty file leaves no trace in an archive
                let refused = refused_if_cut && !b.is_empty();
                let x = c.run("tobjdump", &["new.savn", "-t"], b"", &plan);
                verdict(c, "tobjdump", &x, refused)?;
                let x = c.run("tl", &["other.to", "-l", "new.savn", "-o", "linked"], b"", &plan);
                verdict(c, "tl", &x, refused)?;
                if x.ok() {
                    readable(c, "tl", "linked")?;
                }
            }
        }
        if let Some(x) = before {
            c.ps().put(name, &x, 0o644);
        }
    }
    Ok(())
}

fn d_is_nothing(b: &[u8], whole: &[u8]) -> bool {
    whole.starts_with(b)
}

fn verdict(c: &mut Ctx, tool: &str, o: &Outcome, refused: bool) -> Res {
    ordinary(tool, o)?;
    if !o.ok() {
        c.count("refused");
    }
    check!(!(refused && o.ok()), "accepted", "{tool} accepts an object file that was cut short");
    Ok(())
}

fn readable(c: &mut Ctx, tool: &str, name: &str) -> Res {
    let b = c.ps().get(name);
    check!(b.is_some(), "no output", "{tool} succeeds without writing {name}");
    check!(decode(&b.unwrap(), 0).is_some(), "unreadable", "{tool} succeeds and writes a file that is no object");
    let x = c.run("tobjdump", &["-t", name], b"", &Plan::default());
    ordinary("tobjdump", &x)?;
    check!(x.ok(), "unreadable", "{tool} succeeds and writes a file that tobjdump refuses: {}", text(&x.stderr));
    Ok(())
}
