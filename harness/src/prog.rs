//! Generator of small multi-file programs together with what they print, computed here.
use crate::src::Src;
use std::collections::BTreeSet;
use std::fmt::Write;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Seg {
    Data,
    RoData,
    Heap,
}
impl Seg {
    fn name(self) -> &'static str {
        match self {
            Seg::Data => "data",
            Seg::RoData => "rodata",
            Seg::Heap => "heap",
        }
    }
}

#[derive(Clone, Debug)]
enum Body {
    Bytes(Vec<u8>),
    /// the addresses of other entities
    Ptr(Vec<Ent>),
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord)]
pub enum Ent {
    Item(usize),
    Fun(usize),
}

#[derive(Clone, Debug)]
struct Item {
    module: usize,
    seg: Seg,
    body: Body,
    global: bool,
    name: String,
}
#[derive(Clone, Debug)]
struct Fun {
    module: usize,
    stmts: Vec<Stmt>,
    global: bool,
    name: String,
}

#[derive(Clone, Debug)]
enum Stmt {
    Putc(u8),
    PutItem(usize, usize),
    PutVia(usize, usize),
    Store(usize, usize, u8),
    Call(usize),
    CallVia(usize, usize),
    Echo,
    EchoXor(u8),
    Arith(usize, usize, u8, u8),
    Loop(usize, usize),
    Cond(usize, usize, u8, u8),
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum End {
    Halt,
    /// writing to a page that may only be read
    Fault,
    /// a system call that does not exist
    BadCall,
}

pub struct Opts {
    pub modules: u64,
    pub echo: bool,
    pub big: bool,
    /// also programs that end in a trap
    pub ends: bool,
    pub long: bool,
}
impl Default for Opts {
    fn default() -> Self {
        Opts { modules: 4, echo: false, big: false, ends: false, long: false }
    }
}

#[derive(Clone, Debug)]
pub struct Prog {
    /// every file: sources and included parts
    pub files: Vec<(String, String)>,
    /// stems of the modules: m0 for m0.telda and m0.to
    pub mods: Vec<String>,
    pub input: Vec<u8>,
    pub output: Vec<u8>,
    /// length of the output before each byte of input is asked for
    pub reads: Vec<usize>,
    pub end: End,
    /// symbol for `tl -E`, if no module has an entry point of its own
    pub entry_sym: Option<String>,
    pub main_module: usize,
    /// which modules each module needs directly
    pub needs: Vec<BTreeSet<usize>>,
    pub steps: usize,
}

const FN_NAMES: [&str; 10] = ["print", "f", "g", "helper", "go", "run", "fn_1", "a.b", "út", "loop"];
const IT_NAMES: [&str; 10] = ["buf", "msg", "x", "tbl", "data", "hello", "y", "é", "count", "p"];

pub fn gen(s: &mut Src, o: &Opts) -> Prog {
    let nm = s.range(1, o.modules) as usize;
    let nf = s.range(1, 6) as usize;
    let ni = s.range(1, 6) as usize;
    // items
    let mut items = Vec::new();
    for i in 0..ni {
        let seg = *s.pick(&[Seg::Data, Seg::RoData, Seg::Heap]);
        let body = if s.chance(1, 3) {
            let n = s.range(1, 3) as usize;
            Body::Ptr(
                (0..n)
                    .map(|_| if s.chance(1, 2) { Ent::Item(s.usize(ni)) } else if nf > 1 { Ent::Fun(1 + s.usize(nf - 1)) } else { Ent::Item(s.usize(ni)) })
                    .collect(),
            )
        } else {
            let n = if o.big && seg != Seg::Heap && s.chance(1, 6) { s.range(400, 6000) } else { s.range(1, 12) } as usize;
            let mut b = s.bytes(n);
            if b.iter().all(|&x| x == 0) {
                b.iter_mut().enumerate().for_each(|(k, x)| *x = b'a' + ((k + i) % 26) as u8);
            }
            Body::Bytes(b)
        };
        items.push(Item { module: s.usize(nm), seg, body, global: s.chance(1, 2), name: String::new() });
    }
    let bytes_items: Vec<usize> = (0..ni).filter(|&i| matches!(items[i].body, Body::Bytes(_))).collect();
    let size = |i: usize| match &items[i].body {
        Body::Bytes(b) => b.len(),
        Body::Ptr(p) => p.len() * 2,
    };
    // pointers to bytes and to functions: (item, index)
    let mut ptr_bytes = Vec::new();
    let mut ptr_funs = Vec::new();
    for i in 0..ni {
        if let Body::Ptr(p) = &items[i].body {
            for (k, e) in p.iter().enumerate() {
                match *e {
                    Ent::Item(j) if bytes_items.contains(&j) => ptr_bytes.push((i, k)),
                    Ent::Fun(j) => ptr_funs.push((i, k, j)),
                    _ => (),
                }
            }
        }
    }
    // functions: calls go to later ones only
    let mut funs = Vec::new();
    for f in 0..nf {
        let n = if f == 0 { s.range(1, if o.long { 12 } else { 7 }) } else { s.range(0, 4) };
        let mut stmts = Vec::new();
        for _ in 0..n {
            let st = match s.below(if o.echo { 13 } else { 11 }) {
                0 => Stmt::Putc(s.range(33, 126) as u8),
                1 | 2 if !bytes_items.is_empty() => {
                    let i = *s.pick(&bytes_items);
                    Stmt::PutItem(i, s.usize(size(i)))
                }
                3 if !ptr_bytes.is_empty() => {
                    let (i, k) = *s.pick(&ptr_bytes);
                    Stmt::PutVia(i, k)
                }
                4 => {
                    let w: Vec<usize> = bytes_items.iter().copied().filter(|&i| items[i].seg != Seg::RoData).collect();
                    if w.is_empty() {
                        Stmt::Putc(b's')
                    } else {
                        let i = *s.pick(&w);
                        Stmt::Store(i, s.usize(size(i)), s.range(48, 122) as u8)
                    }
                }
                5 | 6 if f + 1 < nf => Stmt::Call(f + 1 + s.usize(nf - f - 1)),
                7 => {
                    let c: Vec<_> = ptr_funs.iter().filter(|p| p.2 > f).collect();
                    if c.is_empty() {
                        Stmt::Putc(b'v')
                    } else {
                        let p = s.pick(&c);
                        Stmt::CallVia(p.0, p.1)
                    }
                }
                8 if !bytes_items.is_empty() => {
                    let i = *s.pick(&bytes_items);
                    Stmt::Arith(i, s.usize(size(i)), s.below(5) as u8, s.u8())
                }
                9 if !bytes_items.is_empty() => {
                    let i = *s.pick(&bytes_items);
                    let max = if o.long { 3000 } else { 40 };
                    Stmt::Loop(i, size(i).min(max))
                }
                10 if !bytes_items.is_empty() => {
                    let i = *s.pick(&bytes_items);
                    let k = s.usize(size(i));
                    let c = if s.chance(1, 2) {
                        match &items[i].body {
                            Body::Bytes(b) => b[k],
                            _ => 0,
                        }
                    } else {
                        s.u8()
                    };
                    Stmt::Cond(i, k, c, s.range(33, 126) as u8)
                }
                11 => Stmt::Echo,
                12 => Stmt::EchoXor(s.u8()),
                _ => Stmt::Putc(s.range(33, 126) as u8),
            };
            stmts.push(st);
        }
        funs.push(Fun { module: s.usize(nm), stmts, global: s.chance(1, 2), name: String::new() });
    }
    let end = if o.ends { *s.pick(&[End::Halt, End::Halt, End::Fault, End::BadCall]) } else { End::Halt };
    let entry_directive = s.chance(2, 3);

    // which entities each module refers to
    let mut refs: Vec<BTreeSet<Ent>> = vec![BTreeSet::new(); nm];
    for it in &items {
        if let Body::Ptr(p) = &it.body {
            refs[it.module].extend(p.iter().copied());
        }
    }
    for f in &funs {
        for st in &f.stmts {
            match *st {
                Stmt::PutItem(i, _) | Stmt::PutVia(i, _) | Stmt::Store(i, ..) | Stmt::CallVia(i, _) | Stmt::Arith(i, ..) | Stmt::Loop(i, _) | Stmt::Cond(i, ..) => {
                    refs[f.module].insert(Ent::Item(i));
                }
                Stmt::Call(g) => {
                    refs[f.module].insert(Ent::Fun(g));
                }
                _ => (),
            }
        }
    }
    let home = |e: Ent, items: &Vec<Item>, funs: &Vec<Fun>| match e {
        Ent::Item(i) => items[i].module,
        Ent::Fun(i) => funs[i].module,
    };
    let mut needs = vec![BTreeSet::new(); nm];
    for m in 0..nm {
        for &e in &refs[m] {
            let h = home(e, &items, &funs);
            if h != m {
                needs[m].insert(h);
                match e {
                    Ent::Item(i) => items[i].global = true,
                    Ent::Fun(i) => funs[i].global = true,
                }
            }
        }
    }
    if !entry_directive {
        funs[0].global = true;
    }
    // names: globals first, all different
    let mut globals = BTreeSet::new();
    for i in 0..ni {
        if items[i].global {
            let base = *s.pick(&IT_NAMES);
            items[i].name = fresh(base, |n| globals.contains(n));
            globals.insert(items[i].name.clone());
        }
    }
    for i in 0..nf {
        if funs[i].global {
            let base = if i == 0 && s.chance(2, 3) { "main" } else { *s.pick(&FN_NAMES) };
            funs[i].name = fresh(base, |n| globals.contains(n));
            globals.insert(funs[i].name.clone());
        }
    }
    let glob_list: Vec<String> = globals.iter().cloned().collect();
    // internal names: may be those of globals of other modules that this one does not refer to
    for m in 0..nm {
        let mut taken: BTreeSet<String> = BTreeSet::new();
        for &e in &refs[m] {
            let (g, n) = match e {
                Ent::Item(i) => (items[i].global, &items[i].name),
                Ent::Fun(i) => (funs[i].global, &funs[i].name),
            };
            if g {
                taken.insert(n.clone());
            }
        }
        for it in items.iter().filter(|i| i.module == m && i.global) {
            taken.insert(it.name.clone());
        }
        for f in funs.iter().filter(|f| f.module == m && f.global) {
            taken.insert(f.name.clone());
        }
        let pick = |s: &mut Src, pool: &[&str]| -> String {
            if !glob_list.is_empty() && s.chance(1, 2) {
                s.pick(&glob_list).clone()
            } else {
                s.pick(pool).to_string()
            }
        };
        for it in items.iter_mut().filter(|i| i.module == m && !i.global) {
            it.name = fresh(&pick(s, &IT_NAMES), |n| taken.contains(n));
            taken.insert(it.name.clone());
        }
        for f in funs.iter_mut().filter(|f| f.module == m && !f.global) {
            f.name = fresh(&pick(s, &FN_NAMES), |n| taken.contains(n));
            taken.insert(f.name.clone());
        }
    }
    // what it prints
    let limit = if o.long { 60_000 } else { 8_000 };
    let st = loop {
        let mut st = State {
            mem: items
                .iter()
                .map(|i| match &i.body {
                    Body::Bytes(b) => b.clone(),
                    _ => vec![],
                })
                .collect(),
            out: Vec::new(),
            input: Vec::new(),
            reads: Vec::new(),
            steps: 0,
        };
        let mut inputs = Src::new(s.below(1 << 20));
        exec(&funs, &items, 0, &mut st, &mut inputs);
        if st.steps <= limit {
            break st;
        }
        funs[0].stmts.pop();
    };

    let name = |e: Ent| match e {
        Ent::Item(i) => items[i].name.as_str(),
        Ent::Fun(i) => funs[i].name.as_str(),
    };

    // text of the modules
    let mut files = Vec::new();
    let mods: Vec<String> = (0..nm).map(|m| format!("m{m}")).collect();
    let mut label = 0;
    for m in 0..nm {
        let mut head = String::new();
        let mut tail = String::new();
        for &e in &refs[m] {
            if home(e, &items, &funs) != m {
                let d = *s.pick(&[".ref", ".reference", ".global"]);
                let w = if s.chance(1, 2) { &mut head } else { &mut tail };
                let _ = writeln!(w, "{d} {}", name(e));
            }
        }
        let mut chunks: Vec<String> = Vec::new();
        for (i, it) in items.iter().enumerate().filter(|(_, it)| it.module == m) {
            let mut c = format!(".seg {}\n", it.seg.name());
            if it.global && s.chance(1, 2) {
                let _ = writeln!(c, ".global {}", name(Ent::Item(i)));
            } else if it.global {
                let w = if s.chance(1, 2) { &mut head } else { &mut tail };
                let _ = writeln!(w, ".globl {}", name(Ent::Item(i)));
            }
            if s.chance(1, 3) {
                c += ".byte 0xeeb\n";
            }
            let _ = writeln!(c, "{}:", name(Ent::Item(i)));
            match &it.body {
                Body::Bytes(b) => bytes_text(&mut c, b, s),
                Body::Ptr(p) => {
                    for &e in p {
                        let _ = writeln!(c, "{} {}", if s.chance(1, 2) { ".wide" } else { ".word" }, name(e));
                    }
                }
            }
            chunks.push(c);
        }
        for (i, f) in funs.iter().enumerate().filter(|(_, f)| f.module == m) {
            let mut c = String::from(".seg text\n");
            if f.global && s.chance(1, 2) {
                let _ = writeln!(c, ".global {}", f.name);
            } else if f.global {
                let w = if s.chance(1, 2) { &mut head } else { &mut tail };
                let _ = writeln!(w, ".globl {}", f.name);
            }
            if s.chance(1, 4) {
                c += "nop\n";
            }
            if i == 0 && entry_directive {
                c += ".entry\n";
            }
            let _ = writeln!(c, "{}:", f.name);
            if i != 0 {
                c += "    push rl\n";
            }
            for st in &f.stmts {
                emit(&mut c, st, &name, &mut label);
            }
            if i != 0 {
                c += "    pop rl\n    ret\n";
            } else {
                match end {
                    End::Halt => c += "    halt\n",
                    End::Fault => c += "    ldi r2l, 1\n    store r0, 0x7f, r2l\n    halt\n",
                    End::BadCall => c += "    ldi r1, 77\n    syscall\n    halt\n",
                }
            }
            chunks.push(c);
        }
        s.shuffle(&mut chunks);
        let mut text = String::new();
        if s.chance(1, 3) {
            text += "; a comment\n\n// another one\n";
        }
        text += &head;
        for (k, c) in chunks.into_iter().enumerate() {
            if s.chance(1, 6) {
                let part = format!("m{m}_part{k}.telda");
                // a trailing newline is not needed at the end of a file
                let c = if s.chance(1, 2) { c.trim_end().to_string() } else { c };
                let _ = writeln!(text, ".include {part}");
                files.push((part, c));
            } else {
                text += &c;
            }
        }
        text += &tail;
        files.push((format!("m{m}.telda"), text));
    }

    Prog {
        files,
        mods,
        input: st.input,
        output: st.out,
        reads: st.reads,
        end,
        entry_sym: (!entry_directive).then(|| funs[0].name.clone()),
        main_module: funs[0].module,
        needs,
        steps: st.steps,
    }
}

impl Prog {
    /// the modules reachable from the main one
    pub fn needed(&self) -> BTreeSet<usize> {
        let mut n = BTreeSet::from([self.main_module]);
        loop {
            let more: BTreeSet<usize> = n.iter().flat_map(|&m| self.needs[m].iter().copied()).filter(|m| !n.contains(m)).collect();
            if more.is_empty() {
                return n;
            }
            n.extend(more);
        }
    }
    pub fn sources(&self) -> Vec<String> {
        self.mods.iter().map(|m| format!("{m}.telda")).collect()
    }
    pub fn objects(&self) -> Vec<String> {
        self.mods.iter().map(|m| format!("{m}.to")).collect()
    }
}

fn fresh(base: &str, taken: impl Fn(&str) -> bool) -> String {
    if !taken(base) {
        return base.to_string();
    }
    (1..).map(|k| format!("{base}{k}")).find(|n| !taken(n)).unwrap()
}

fn bytes_text(c: &mut String, b: &[u8], s: &mut Src) {
    let strings = s.chance(1, 2) || b.len() > 50;
    let per = *s.pick(&[16usize, 3, 200, 1]);
    for ch in b.chunks(if strings { per.max(if b.len() > 50 { 16 } else { 1 }) } else { 1 }) {
        if strings {
            *c += ".string ";
            for (k, &x) in ch.iter().enumerate() {
                let edge = k == 0 || k + 1 == ch.len();
                if x == b'\\' {
                    *c += "\\\\";
                } else if x == b'\n' {
                    *c += "\\n";
                } else if (33..127).contains(&x) || (x == b' ' && !edge) {
                    c.push(x as char);
                } else {
                    let _ = write!(c, "\\x{x:02x}");
                }
            }
            c.push('\n');
        } else {
            let _ = writeln!(c, ".byte {}", ch[0]);
        }
    }
}

const PUT: &str = "    ldi r1, 4\n    syscall\n";

fn emit<'a>(c: &mut String, st: &Stmt, name: &dyn Fn(Ent) -> &'a str, label: &mut u32) {
    *label += 1;
    let l = *label;
    let item = |i: usize| name(Ent::Item(i));
    let _ = match *st {
        Stmt::Putc(b) => write!(c, "    ldi r2l, {b}\n{PUT}"),
        Stmt::PutItem(i, k) => write!(c, "    ldi r5, {k}\n    load r2l, r5, {}\n{PUT}", item(i)),
        Stmt::PutVia(i, k) => write!(c, "    ldi r5, {}\n    load r4, r5, {}\n    load r2l, r4, 0\n{PUT}", 2 * k, item(i)),
        Stmt::Store(i, k, v) => write!(c, "    ldi r2l, {v}\n    ldi r5, {k}\n    store r5, {}, r2l\n", item(i)),
        Stmt::Call(f) => write!(c, "    call {}\n", name(Ent::Fun(f))),
        Stmt::CallVia(i, k) => write!(c, "    ldi r4, {}\n    load r5, r4, {}\n    ldi rl, back__{l}\n    jmp r5\nback__{l}:\n", 2 * k, item(i)),
        Stmt::Echo => write!(c, "    ldi r1, 3\n    syscall\n    add r2l, r1l, r0b\n{PUT}"),
        Stmt::EchoXor(v) => write!(c, "    ldi r1, 3\n    syscall\n    ldi r3l, {v}\n    xor r2l, r1l, r3l\n{PUT}"),
        Stmt::Arith(i, k, op, v) => write!(
            c,
            "    ldi r5, {k}\n    load r2l, r5, {}\n    ldi r3l, {v}\n    {} r2l, r2l, r3l\n{PUT}",
            item(i),
            ["add", "sub", "xor", "and", "or"][op as usize]
        ),
        Stmt::Loop(i, n) => write!(
            c,
            "    ldi r5, 0\nloop__{l}:\n    load r2l, r5, {}\n{PUT}    ldi r4, 1\n    add r5, r5, r4\n    ldi r4, {n}\n    sub r0, r5, r4\n    jnz loop__{l}\n",
            item(i)
        ),
        Stmt::Cond(i, k, v, p) => write!(
            c,
            "    ldi r5, {k}\n    load r2l, r5, {}\n    ldi r3l, {v}\n    sub r0b, r2l, r3l\n    jez skip__{l}\n    ldi r2l, {p}\n{PUT}skip__{l}:\n",
            item(i)
        ),
    };
}

struct State {
    mem: Vec<Vec<u8>>,
    out: Vec<u8>,
    input: Vec<u8>,
    reads: Vec<usize>,
    steps: usize,
}

fn exec(funs: &[Fun], items: &[Item], f: usize, m: &mut State, s: &mut Src) {
    if m.steps > 1_000_000 {
        return;
    }
    for st in &funs[f].stmts {
        m.steps += 6;
        let target = |i: usize, k: usize| match &items[i].body {
            Body::Ptr(p) => p[k],
            _ => unreachable!(),
        };
        match *st {
            Stmt::Putc(b) => m.out.push(b),
            Stmt::PutItem(i, k) => m.out.push(m.mem[i][k]),
            Stmt::PutVia(i, k) => match target(i, k) {
                Ent::Item(j) => m.out.push(m.mem[j][0]),
                _ => unreachable!(),
            },
            Stmt::Store(i, k, v) => m.mem[i][k] = v,
            Stmt::Call(g) => exec(funs, items, g, m, s),
            Stmt::CallVia(i, k) => match target(i, k) {
                Ent::Fun(g) => exec(funs, items, g, m, s),
                _ => unreachable!(),
            },
            Stmt::Echo | Stmt::EchoXor(_) => {
                let b = s.u8();
                m.reads.push(m.out.len());
                m.input.push(b);
                m.out.push(if let Stmt::EchoXor(v) = *st { b ^ v } else { b });
            }
            Stmt::Arith(i, k, op, v) => {
                let a = m.mem[i][k];
                m.out.push(match op {
                    0 => a.wrapping_add(v),
                    1 => a.wrapping_sub(v),
                    2 => a ^ v,
                    3 => a & v,
                    _ => a | v,
                });
            }
            Stmt::Loop(i, n) => {
                m.steps += 8 * n;
                m.out.extend_from_slice(&m.mem[i][..n]);
            }
            Stmt::Cond(i, k, v, p) => {
                if m.mem[i][k] != v {
                    m.out.push(p);
                }
            }
        }
    }
}
