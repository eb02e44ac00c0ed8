//! One tool command that writes files, prepared in the scratch directory, together with what it writes
//! when nothing fails.
use super::common::*;
use crate::obj::*;
use crate::prog;
use crate::psim::*;
use crate::run::{fail, Ctx, Fail};
use std::collections::BTreeMap;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Tc,
    Tl,
    Tle,
    Tar,
    Tstrip,
}

pub struct Op {
    pub kind: Kind,
    pub tool: &'static str,
    pub args: Vec<String>,
    /// the files it writes, with content and mode before it and after it, when nothing fails
    pub outs: Vec<Out>,
    /// everything before it
    pub before: Snapshot,
    /// the run without faults
    pub clean: Outcome,
    pub plan: Plan,
}
#[derive(Clone, Debug)]
pub struct Out {
    pub name: String,
    pub before: Option<(u32, Vec<u8>)>,
    pub after: (u32, Vec<u8>),
}

impl Op {
    pub fn run(&self, c: &mut Ctx, plan: &Plan) -> Outcome {
        c.run(self.tool, &refs(&self.args), b"", plan)
    }
    pub fn out(&self, name: &str) -> Option<&Out> {
        self.outs.iter().find(|o| o.name == name)
    }
}

pub fn now(c: &mut Ctx, name: &str) -> Option<(u32, Vec<u8>)> {
    let b = c.ps().get(name)?;
    Some((c.ps().mode(name).unwrap_or(0), b))
}

/// Prepares a command of one of the kinds
pub fn make(c: &mut Ctx, kinds: &[Kind]) -> Result<Op, Fail> {
    let kind = *c.src.pick(kinds);
    let big = c.src.chance(1, 4);
    let p = prog::gen(&mut c.src, &prog::Opts { big, modules: if kind == Kind::Tc { 3 } else { 4 }, ..Default::default() });
    put_prog(c, &p);
    if kind != Kind::Tc {
        compile(c, &p)?;
    }
    let mut names: Vec<String> = Vec::new();
    let mut args: Vec<String> = Vec::new();
    let tool;
    match kind {
        Kind::Tc => {
            tool = "tc";
            args = p.sources();
            names = p.objects();
        }
        Kind::Tl | Kind::Tle => {
            tool = "tl";
            args = p.objects();
            c.src.shuffle(&mut args);
            args.extend(["-o".into(), "out.x".into()]);
            if c.src.chance(1, 4) {
                args.push("-S".into());
            }
            if kind == Kind::Tle {
                args.push("-e".into());
                if let Some(e) = &p.entry_sym {
                    args.extend(["-E".into(), e.clone()]);
                }
            }
            names.push("out.x".into());
        }
        Kind::Tar => {
            tool = "tar";
            args = p.objects();
            c.src.shuffle(&mut args);
            args.extend(["-o".into(), "lib.savn".into()]);
            names.push("lib.savn".into());
        }
        Kind::Tstrip => {
            tool = "tstrip";
            let n = c.src.range(1, 3) as usize;
            for (i, o) in p.objects().into_iter().take(n).enumerate() {
                let mut b = c.ps().get(&o).unwrap_or_default();
                // besides what tc writes: flags, sizes, entry points, odd tables
                match c.src.weighted(&[2, 1, 1]) {
                    0 => {}
                    1 => {
                        if let Some((mut d, _)) = decode(&b, 0) {
                            let r = small_object(c);
                            d.flags = r.flags;
                            d.stack = r.stack;
                            d.heap = r.heap;
                            d.entry = d.entry.or(r.entry);
                            b = d.encode();
                        }
                    }
                    _ => b = gen_obj(&mut c.src, &ObjSizes { seg: 200, seg_max: 3000, syms: 8, syms_max: 40 }).encode(),
                }
                let mut lead = gen_leading(&mut c.src);
                if lead.len() > 3000 && !c.src.chance(1, 4) {
                    lead.truncate(0);
                }
                let mode = *c.src.pick(&[0o644, 0o755, 0o600, 0o444, 0o750, 0o666]);
                lead.append(&mut b);
                let dir = if c.src.chance(1, 4) { "sub/" } else { "" };
                let name = format!("{dir}s{i}.to");
                c.ps().put(&name, &lead, mode);
                if c.src.chance(1, 4) {
                    let link = format!("link{i}");
                    c.ps().symlink(&name, &link);
                    args.push(link);
                } else {
                    args.push(name.clone());
                }
                names.push(name);
            }
            if c.src.chance(1, 3) {
                args.push("-a".into());
                args.push("-f".into());
            }
        }
    }
    // what was there before under the name of an output
    if kind != Kind::Tstrip {
        for n in &names {
            if c.src.chance(2, 3) {
                let old = match c.src.below(3) {
                    0 => small_object(c).encode(),
                    1 => {
                        let mut b = small_object(c).encode();
                        if kind == Kind::Tar {
                            let mut a = AR_MAGIC.to_vec();
                            a.extend(&b);
                            b = a;
                        } else {
                            let n = c.src.size(50, 9000) as usize;
                            b.extend(c.src.bytes(n));
                        }
                        b
                    }
                    _ => {
                        let n = c.src.size(100, 20_000) as usize;
                        let mut b = vec![b'#'];
                        b.extend(c.src.bytes(n).iter().map(|x| x % 90 + 32));
                        b
                    }
                };
                let mode = *c.src.pick(&[0o644, 0o755, 0o600]);
                c.ps().put(n, &old, mode);
            }
        }
    }
    let before = c.ps().snapshot();
    let plan = noise(&mut c.src);
    let clean = c.run(tool, &refs(&args), b"", &plan);
    must_succeed(tool, &clean)?;
    let mut outs = Vec::new();
    for n in names {
        let b = before.get(&n).cloned();
        match now(c, &n) {
            Some(after) => outs.push(Out { name: n, before: b, after }),
            None => return fail("no output", format!("{tool} succeeded without writing {n}")),
        }
    }
    c.ps().restore(&before);
    Ok(Op { kind, tool, args, outs, before, clean, plan })
}

pub fn small_object(c: &mut Ctx) -> Obj {
    gen_obj(&mut c.src, &ObjSizes { seg: 30, seg_max: 60, syms: 3, syms_max: 6 })
}

/// Events on files that the command created or changed, besides the console
pub fn written_paths(o: &Outcome) -> Vec<i32> {
    let mut v: BTreeMap<i32, ()> = BTreeMap::new();
    for e in &o.events {
        let w = is_write_op(e.op) || (e.op == OP_OPEN && e.flags & 3 != 0);
        if w && e.path >= 0 && !o.path(e.path).starts_with('<') {
            v.insert(e.path, ());
            if e.op == OP_RENAME && e.path2 >= 0 {
                v.insert(e.path2, ());
            }
        }
    }
    v.into_keys().collect()
}
