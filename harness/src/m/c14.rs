//! C14: trap, handler, return - and the interrupted program has not noticed
use super::c19::{environment, fill};
use super::gen::{self, Aim};
use super::lock;
use super::model::Step;
use super::sim::*;
use super::{REAL, STUB};
use crate::check;
use crate::run::{Ctx, Fail, Prop, Res};
use crate::src::mix;

pub const PROP: Prop = Prop {
    id: "C14",
    run,
    quick: 150_000,
    thorough: 4_000_000,
    level: "exploration",
    rule: "one run: a machine with a trap handler, in direct or virtual, user or supervisor mode, 10 to 60 steps of random instructions and changes of page tables, memory and registers by the environment; at every trap the entry is judged, a random handler body that overwrites registers, flags and stack is executed up to its reth, and the state afterwards is compared with the interrupted one; non-trivial: at least one trap was handled and returned from",
    real: REAL,
    stub: STUB,
    assumptions: &["the stack has room for the saved state and is mapped", "the trap flag itself and traps inside the handler are not described"],
    probes: &["trap: Invalid", "trap: SysCall", "trap: ZeroDiv", "trap: Halt", "trap: Level1PageFault", "trap: Level2PageFault", "trap: IllegalOperation", "trap: IllegalRead", "trap: IllegalWrite", "trap: IllegalExecute", "trap: IllegalHandlerReturn", "trap in user mode", "trap in virtual mode", "trap while fetching", "several traps in one run", "handler changes rp", "handler changes rh", "handler moves the stack pointer", "stack at the top of memory", "stack over a page boundary"],
};

struct Kit {
    virt: bool,
    root: u16,
    alias: u16,
    /// address of the handler's page, of the stack's two pages and of the scratch page
    hva: u16,
    sva: u16,
    dva: u16,
    /// and where they are
    hpa: u32,
    spa: [u32; 2],
    dpa: u32,
    /// physical pages of the second level that are reserved
    l2: Vec<u32>,
    /// permissions of the handler's and stack's pages
    user_kernel: u8,
}
impl Kit {
    fn force(&self, w: &mut World) {
        if !self.virt {
            return;
        }
        for (va, pa, p) in [
            (self.hva, self.hpa, 0x09 | self.user_kernel),
            (self.sva, self.spa[0], 0x07 | self.user_kernel),
            (self.sva.wrapping_add(128), self.spa[1], 0x07 | self.user_kernel),
            (self.dva, self.dpa, 0x07),
        ]
        {
            for root in [self.root, self.alias] {
                let at1 = root as u32 + 4 * (va >> 12) as u32;
                let e = w.mem.word(at1);
                // first-level entries that lead here use a table of their own
                let t = self.l2[(va >> 12) as usize];
                if (e >> 15) << 7 != t {
                    w.poke_n(at1, &(t << 8 | 0x2f).to_le_bytes());
                } else {
                    w.poke(at1, e as u8 | 0x2f);
                }
                let at2 = t + 4 * ((va >> 7) & 31) as u32;
                w.poke_n(at2, &(pa << 8 | p as u32).to_le_bytes());
            }
        }
    }
    /// Whether the handler, its stack or their mapping are at this address
    fn owns(&self, a: u32) -> bool {
        let p = a & !0x7f;
        let roots = self.virt && ((self.root as u32..self.root as u32 + 64).contains(&a) || (self.alias as u32..self.alias as u32 + 64).contains(&a));
        p == self.hpa || self.spa.contains(&p) || p == self.dpa || roots || self.virt && self.l2.contains(&p)
    }
    /// One byte of the stack
    fn stack(&self, va: u16) -> u32 {
        let off = va.wrapping_sub(self.sva);
        self.spa[(off >> 7) as usize & 1] + (off & 0x7f) as u32
    }
}

fn kit(c: &mut Ctx, w: &mut World, aim: &mut Aim) -> (Kit, Vec<(u32, u32)>) {
    let virt = c.src.chance(2, 3);
    let mut k = Kit { virt, root: 0, alias: 0, hva: 0, sva: 0, dva: 0, hpa: 0, spa: [0; 2], dpa: 0, l2: Vec::new(), user_kernel: if c.src.chance(1, 2) { P_USER } else { 0 } };
    let top = c.src.chance(1, 4);
    let mut ptes = Vec::new();
    if !virt {
        // four pages of the directly addressed memory
        let sp = if top { 254 } else { c.src.below(254) as u32 };
        let other = |c: &mut Ctx, not: &[u32]| {
            let p = c.src.below(256) as u32;
            (0..256).map(|i| (p + i) % 256).find(|&p| p != sp && p != sp + 1 && !not.contains(&p)).unwrap()
        };
        let h = other(c, &[]);
        let d = other(c, &[h]);
        let at = |p: u32| 0x8000 + p * 128;
        k.spa = [at(sp), at(sp + 1)];
        (k.hpa, k.dpa) = (at(h), at(d));
        (k.sva, k.hva, k.dva) = (at(sp) as u16, at(h) as u16, at(d) as u16);
        aim.vpages = aim.pages.iter().filter(|&&p| p < 0x1_0000).map(|&p| p as u16).collect();
        aim.vpages.push(0x9000);
    } else {
        // reserved: 0xc000 to 0xd000 of physical memory and one other block
        aim.pages.retain(|p| !(0xc000..0xd000).contains(p) && !(0x77_0000..0x78_0000).contains(p));
        if aim.pages.is_empty() {
            aim.pages.push(0x9000);
        }
        ptes = gen::tables(&mut c.src, w, aim, true);
        let made = w.st().r[RP];
        // the tables are moved to a place of their own
        k.root = 0xc000;
        k.alias = 0xc080;
        for i in 0..64 {
            let b = w.mem.get(made as u32 + i);
            w.poke(k.root as u32 + i, b);
            w.poke(k.alias as u32 + i, b);
        }
        ptes.retain(|p| !(made as u32..made as u32 + 64).contains(&p.0));
        k.l2 = (0..16).map(|i| 0xc800 + i * 128).collect();
        let far = c.src.chance(1, 2);
        let at = |n: u32| if far { 0x77_0000 + n * 128 } else { 0xc100 + n * 128 };
        k.hpa = at(0);
        k.spa = if c.src.chance(1, 2) { [at(3), at(1)] } else { [at(1), at(2)] };
        k.dpa = at(5);
        k.sva = if top { 0xff00 } else { c.src.below(510) as u16 * 128 };
        let (s, far) = (k.sva, c.src.chance(1, 2));
        let other = |c: &mut Ctx, not: u16| {
            let p = if far { c.src.below(512) as u16 * 128 } else { (s & 0xf000) + c.src.below(32) as u16 * 128 };
            (0..512u16).map(|i| p.wrapping_add(i * 128)).find(|&p| p != s && p != s.wrapping_add(128) && p != not && p != 0).unwrap()
        };
        k.hva = other(c, s);
        k.dva = other(c, k.hva);
        let mut st = w.st();
        st.r[RP] = k.root;
        w.set(&st);
    }
    k.force(w);
    (k, ptes)
}
const P_USER: u8 = 0x20;

/// A handler: code, and how deep it uses the stack
fn body(c: &mut Ctx, k: &Kit) -> Vec<u8> {
    let mut v: Vec<u8> = Vec::new();
    let n = c.src.range(0, 14);
    let mut pushed = 0;
    let mut moved = false;
    let reg = |c: &mut Ctx| *c.src.pick(&[1u8, 2, 3, 4, 5, 6, 7, 8, 9, 12, 13]);
    let ldi = |v: &mut Vec<u8>, r: u8, x: u16| {
        v.extend([0x40, r << 4]);
        v.extend(x.to_le_bytes());
    };
    for _ in 0..n {
        if v.len() > 90 {
            break;
        }
        match c.src.below(10) {
            0 | 1 => {
                let (r, x) = (reg(c), c.src.u16());
                ldi(&mut v, r, x);
            }
            2 => v.extend([*c.src.pick(&[0x42, 0x44, 0x46, 0x48, 0x4a, 0x4c, 0x4e, 0x50]), reg(c) << 4 | reg(c), reg(c) << 4]),
            3 => v.extend([0x3f, (c.src.range(1, 14) as u8) << 4, c.src.u8()]),
            4 => {
                if pushed < 5 && !moved {
                    v.extend([0x22, reg(c) << 4]);
                    pushed += 1;
                }
            }
            5 => {
                if pushed > 0 && !moved {
                    v.extend([0x24, reg(c) << 4]);
                    pushed -= 1;
                }
            }
            6 => {
                // something kept for later
                let a = k.dva.wrapping_add(c.src.below(127) as u16);
                v.extend([0x28, reg(c)]);
                v.extend(a.to_le_bytes());
            }
            7 => {
                let x = c.src.u16();
                if k.virt {
                    ldi(&mut v, 14, k.alias);
                } else {
                    ldi(&mut v, 14, x);
                }
                c.count("handler changes rp");
            }
            8 => {
                let x = c.src.u16();
                ldi(&mut v, 15, x);
                c.count("handler changes rh");
            }
            _ => {
                // r10 is kept for the stack pointer
                if !moved {
                    v.extend([0x42, 10 << 4 | 11, 0]);
                    let x = c.src.u16();
                    ldi(&mut v, 11, x);
                    moved = true;
                    c.count("handler moves the stack pointer");
                } else {
                    v.extend([0x42, 11 << 4 | 10, 0]);
                    moved = false;
                }
            }
        }
    }
    if moved {
        v.extend([0x42, 11 << 4 | 10, 0]);
    }
    while pushed > 0 {
        v.extend([0x24, reg(c) << 4]);
        pushed -= 1;
    }
    v.push(0x0d);
    v
}

fn run(c: &mut Ctx) -> Res {
    let mut w = World::new(if c.src.chance(1, 3) { Some(&[0x0c, 0x20, 0xee]) } else { None });
    let mut aim = Aim { pages: gen::pages(&mut c.src, true), vpages: Vec::new() };
    fill(c, &mut w, &aim);
    let (k, ptes) = kit(c, &mut w, &mut aim);
    w.dev.borrow_mut().seed = c.src.u16() as u64;
    let mut st = gen::random_state(&mut c.src, &aim);
    st.r[RP] = if k.virt { k.root } else { c.src.u16() };
    st.r[RH] = k.hva;
    st.fl = if k.virt { V } else { 0 } | c.src.u8() & (Z | O | S | C) | if c.src.chance(1, 2) { U } else { 0 };
    w.set(&st);
    st.pc = gen::code_address(&mut c.src, &w, &aim);
    w.set(&st);
    c.note(|| format!("handler at {:04x}, stack at {:04x}, {st}", k.hva, k.sva));
    let n = c.src.range(10, 60);
    let env = *c.src.pick(&[1, 2, 4]);
    let mut handled = 0;
    for _ in 0..n {
        if c.src.chance(env, 8) {
            environment(c, &mut w, &aim, &ptes, true);
        }
        // keep what the property takes for granted
        let mut st = w.st();
        st.r[RP] = if k.virt { k.root } else { st.r[RP] };
        st.r[RH] = k.hva;
        st.fl &= !(T | 4);
        st.fl = (st.fl & !V) | if k.virt { V } else { 0 };
        let off = match c.src.below(4) {
            0 => 256,
            1 => 128 + c.src.below(34) as u16,
            _ => c.src.range(100, 256) as u16,
        };
        st.r[RS] = k.sva.wrapping_add(off);
        if k.sva == 0xff00 {
            c.count("stack at the top of memory");
        }
        w.set(&st);
        k.force(&mut w);
        if c.src.chance(1, 2) {
            let va = gen::code_address(&mut c.src, &w, &aim);
            let mut st = w.st();
            st.pc = va;
            w.set(&st);
        }
        let st = w.st();
        let mut clash = false;
        if c.src.chance(7, 8) {
            let mut code = gen::instr(&mut c.src, &gen::ALL, &aim);
            // the handler register itself is not an operand here, and the program does not change its tables
            for b in code.iter_mut().skip(1) {
                if *b & 0x0f >= 14 {
                    *b &= 0xf7;
                }
                if *b >> 4 >= 14 {
                    *b &= 0x7f;
                }
            }
            for i in 0..code.len() as u16 {
                if gen::translate(&w, &st, st.pc.wrapping_add(i)).is_some_and(|a| k.owns(a)) {
                    clash = true;
                }
            }
            if !clash {
                gen::place(&mut w, &code);
            }
        }
        let h = body(c, &k);
        w.poke_n(k.hpa, &h);
        if one(c, &mut w, &k)? {
            handled += 1;
        }
    }
    if handled > 1 {
        c.count("several traps in one run");
    }
    c.nontrivial = handled > 0;
    w.whole(false)
}

/// One step of the program, with the handler if it traps; true if it did
fn one(c: &mut Ctx, w: &mut World, k: &Kit) -> Result<bool, Fail> {
    let (pre, s) = lock::model_step(w);
    // an instruction that changes the handler or what it needs is another story
    let elsewhere = s.may.iter().any(|m| m.0 == RS && !(98..=256).contains(&m.1.wrapping_sub(k.sva)));
    if s.undefined || !s.traps.is_empty() && elsewhere || s.writes.iter().any(|x| k.owns(x.0) && (x.0 & !0x7f == k.hpa || !dirty(w, *x))) || s.op == 0x0d && s.traps.is_empty() {
        c.count("left out");
        let mut st = w.st();
        st.pc = st.pc.wrapping_add(c.src.range(1, 300) as u16);
        w.set(&st);
        return Ok(false);
    }
    if s.traps.is_empty() {
        // what an instruction that does not trap does is judged elsewhere
        let _ = w.guarded(|m| m.execute_once())?;
        w.taken()?;
        c.count("steps without a trap");
        return Ok(false);
    }
    let what = lock::describe(&pre, &s);
    let before = w.mem.clone();
    let r = w.guarded(|m| m.execute_once())?;
    w.taken()?;
    if let Err(t) = r {
        return Err(Fail { class: "handler".into(), msg: format!("{what} traps with {}, and instead of entering the handler the machine stops with {t:?}", lock::names(&s.traps)) });
    }
    let h = w.st();
    check!(h.pc == k.hva, "handler", "{what} traps with {}, and the machine is at {:04x} instead of the handler at {:04x}", lock::names(&s.traps), h.pc, k.hva);
    check!(!h.user(), "handler", "{what} traps with {}, and the handler is entered in user mode", lock::names(&s.traps));
    check!(h.r[1] < 256 && s.traps.contains(&(h.r[1] as u8)), "handler", "{what} traps with {}, and the handler is told {:#x}", lock::names(&s.traps), h.r[1]);
    check!(h.virt() == pre.virt(), "handler", "{what} traps, and the handler is not in the program's address space");
    let t = h.r[1] as u8;
    c.count(&format!("trap: {}", lock::trap_name(t)));
    if pre.user() {
        c.count("trap in user mode");
    }
    if pre.virt() {
        c.count("trap in virtual mode");
    }
    if s.pcs.contains(&pre.pc) {
        c.count("trap while fetching");
    }
    saved(c, w, k, &pre, &h, &s, &what)?;
    c.shape((s.op as u64) << 16 | (t as u64) << 8 | (pre.fl & (U | V)) as u64);

    // the handler, up to and with its return
    let mut steps = 0;
    loop {
        let st = w.st();
        let at = gen::translate(w, &st, st.pc);
        let op = at.map(|a| w.mem.get(a));
        let in_page = st.pc & 0xff80 == k.hva;
        check!(in_page && steps < 60, "handler", "the handler at {:04x} leaves its code at {:04x} without having returned", k.hva, st.pc);
        let r = w.guarded(|m| m.execute_once())?;
        w.taken()?;
        if let Err(t) = r {
            return Err(Fail { class: "handler".into(), msg: format!("the handler after {what} ({}) stops at {:04x} with {t:?}", lock::trap_name(h.r[1] as u8), st.pc) });
        }
        steps += 1;
        if op == Some(0x0d) {
            break;
        }
        check!(!w.st().user(), "handler", "the handler finds itself in user mode at {:04x}", st.pc);
    }
    c.add("handler steps", steps);

    let post = w.st();
    c.mark(mix((post.pc as u64) << 32 | (post.r[RS] as u64) << 16 | post.fl as u64));
    let what = format!("{what} traps with {}; after the handler returned, the program", lock::trap_name(t));
    c.note(|| format!("{what}: {post}"));
    for i in 1..16 {
        check!(
            post.r[i] == pre.r[i] || s.may.contains(&(i, post.r[i])),
            "return",
            "{what} has {:#x} in {}, which held {:#x}",
            post.r[i],
            reg_name(i),
            pre.r[i]
        );
    }
    check!(s.pcs.contains(&post.pc), "return", "{what} goes on at {:04x} instead of {:04x?}", post.pc, s.pcs);
    let arith = Z | O | S | C;
    check!(post.fl & arith == pre.fl & arith || s.may_flags.iter().any(|f| f & arith == post.fl & arith), "return", "{what} has the flags {}, which were {}", flags(post.fl), flags(pre.fl));
    check!(post.fl & (U | V) == pre.fl & (U | V), "return", "{what} is in another mode: flags {}, which were {}", flags(post.fl), flags(pre.fl));

    // its memory, apart from what lies below its stack pointer and what the handler kept elsewhere
    let pages: Vec<u32> = w.mem.pages().collect();
    for p in pages {
        if p == k.hpa || p == k.dpa {
            continue;
        }
        for a in p..p + 128 {
            let (x, y) = (before.get(a), w.mem.get(a));
            if x == y || s.writes.contains(&(a, y)) {
                continue;
            }
            if pre.virt() && (x | 0x10) == y && a & 3 == 0 {
                continue; // a dirty flag
            }
            let below = (1..=60u16).any(|i| k.stack(pre.r[RS].wrapping_sub(i)) == a || s.may.iter().any(|m| m.0 == RS && k.stack(m.1.wrapping_sub(i)) == a));
            check!(below, "return", "{what} finds {y:02x} at {a:06x}, where {x:02x} was");
        }
    }
    Ok(true)
}

/// Whether this only sets a dirty flag
fn dirty(w: &World, x: (u32, u8)) -> bool {
    x.0 & 3 == 0 && w.mem.get(x.0) | 0x10 == x.1
}

/// What is to be found below the interrupted program's stack pointer: all it needs to go on
fn saved(c: &mut Ctx, w: &World, k: &Kit, pre: &St, h: &St, s: &Step, what: &str) -> Res {
    let mut tops = vec![pre.r[RS]];
    tops.extend(s.may.iter().filter(|m| m.0 == RS).map(|m| m.1));
    let mut last = Ok(());
    for top in tops {
        let size = top.wrapping_sub(h.r[RS]);
        if size > 60 {
            last = crate::run::fail("handler", format!("{what} traps, and the stack pointer goes from {top:04x} to {:04x}", h.r[RS]));
            continue;
        }
        if k.stack(h.r[RS]) & !0x7f != k.stack(top.wrapping_sub(1)) & !0x7f {
            c.count("stack over a page boundary");
        }
        let words: Vec<u16> = (0..size / 2).map(|i| u16::from_le_bytes([w.mem.get(k.stack(top.wrapping_sub(2 * i + 2))), w.mem.get(k.stack(top.wrapping_sub(2 * i + 1)))])).collect();
        let mut wanted: Vec<(String, Vec<usize>)> = Vec::new();
        let mut want = |name: String, of: &dyn Fn(u16) -> bool| wanted.push((name, (0..words.len()).filter(|&i| of(words[i])).collect()));
        for i in (1..16).filter(|&i| i != RS) {
            want(format!("{} ({:04x})", reg_name(i), pre.r[i]), &|x| x == pre.r[i] || s.may.contains(&(i, x)));
        }
        want(format!("the flags ({:02x})", pre.fl), &|x| x < 256 && (x as u8 & !T == pre.fl & !T || s.may_flags.iter().any(|m| m & !T == x as u8 & !T)));
        want(format!("the program counter ({:04x?})", s.pcs), &|x| s.pcs.contains(&x));
        let mut owner = vec![None; words.len()];
        last = Ok(());
        for i in 0..wanted.len() {
            if !place(i, &wanted, &mut owner, &mut vec![false; words.len()]) {
                last = crate::run::fail("handler", format!("{what} traps, and {} is not among the words saved on the stack: {words:04x?}", wanted[i].0));
                break;
            }
        }
        if last.is_ok() {
            break;
        }
    }
    last
}

/// Finds a word for everything wanted
fn place(i: usize, wanted: &[(String, Vec<usize>)], owner: &mut [Option<usize>], tried: &mut Vec<bool>) -> bool {
    for &x in &wanted[i].1 {
        if !std::mem::replace(&mut tried[x], true) && owner[x].is_none_or(|o| place(o, wanted, owner, tried)) {
            owner[x] = Some(i);
            return true;
        }
    }
    false
}
