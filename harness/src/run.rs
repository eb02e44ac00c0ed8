//! The runner: worker processes that execute seeded runs, and a supervisor that gives them out,
//! watches them, minimises the first violation and writes the evidence.
use crate::psim::{fault_name, op_name, Job, Outcome, PSim, Plan};
use crate::src::{hash_bytes, mix, Src};
use std::{
    cell::Cell,
    collections::{BTreeMap, HashSet},
    fmt::Write as _,
    fs,
    io::{BufRead, BufReader, Write as _},
    os::{fd::FromRawFd, unix::process::{CommandExt, ExitStatusExt}},
    panic::{catch_unwind, AssertUnwindSafe},
    path::{Path, PathBuf},
    process::{Child, Command, Stdio},
    sync::{mpsc, Mutex},
    time::{Duration, Instant},
};

#[derive(Clone, Debug)]
pub struct Fail {
    pub class: String,
    pub msg: String,
}
pub type Res = Result<(), Fail>;
pub fn fail<T>(class: &str, msg: impl Into<String>) -> Result<T, Fail> {
    Err(Fail { class: class.into(), msg: msg.into() })
}
#[macro_export]
macro_rules! check {
    ($cond:expr, $class:expr, $($arg:tt)*) => {
        if !$cond {
            return Err($crate::run::Fail { class: $class.into(), msg: format!($($arg)*) });
        }
    };
}

pub struct Prop {
    pub id: &'static str,
    pub run: fn(&mut Ctx) -> Res,
    /// number of runs of the quick check and of the thorough one
    pub quick: u64,
    pub thorough: u64,
    pub level: &'static str,
    /// what a run is and what makes one non-trivial
    pub rule: &'static str,
    pub real: &'static str,
    pub stub: &'static str,
    pub assumptions: &'static [&'static str],
    /// counters that must not stay at zero in a check of at least this many runs
    pub probes: &'static [&'static str],
}

pub struct Ctx {
    pub src: Src,
    pub st: BTreeMap<String, u64>,
    pub sig: u64,
    pub shape: u64,
    pub nontrivial: bool,
    notes: Option<Vec<String>>,
    base: PathBuf,
    ps: Option<PSim>,
}

impl Ctx {
    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if let Some(n) = &mut self.notes {
            n.push(f());
        }
    }
    pub fn noting(&self) -> bool {
        self.notes.is_some()
    }
    pub fn count(&mut self, key: &str) {
        self.add(key, 1);
    }
    pub fn add(&mut self, key: &str, n: u64) {
        if n > 0 {
            match self.st.get_mut(key) {
                Some(v) => *v += n,
                None => {
                    self.st.insert(key.into(), n);
                }
            }
        }
    }
    pub fn mark(&mut self, v: u64) {
        self.sig = mix(self.sig ^ v);
    }
    pub fn shape(&mut self, v: u64) {
        self.shape = mix(self.shape ^ v);
        self.mark(v);
    }
    pub fn ps(&mut self) -> &mut PSim {
        let base = self.base.clone();
        self.ps.get_or_insert_with(|| PSim::new(&base, &build_dir()))
    }
    pub fn run(&mut self, tool: &str, args: &[&str], stdin: &[u8], plan: &Plan) -> Outcome {
        let o = self.ps().run(tool, args, stdin, plan);
        self.add("processes", 1);
        self.add("system calls", o.n_calls as u64);
        for e in &o.events {
            if e.fault != 0 {
                let k = format!("fault: {} on {}", fault_name(e.fault as u32), op_name(e.op));
                self.add(&k, 1);
            }
        }
        self.sig = mix(self.sig ^ o.hash());
        self.shape = mix(self.shape ^ o.shape());
        self.note(|| {
            let mut s = format!("$ {tool} {}    [{}]", args.join(" "), plan.describe());
            if !stdin.is_empty() {
                let _ = write!(s, " stdin {:?}", String::from_utf8_lossy(&stdin[..stdin.len().min(200)]));
            }
            s.push('\n');
            s + &o.log()
        });
        o
    }
}

impl Ctx {
    /// Several tools at the same time; `choose` is told which of them wait and says which goes on
    pub fn run_together(&mut self, jobs: &[Job], choose: &mut dyn FnMut(&[usize]) -> usize) -> (Vec<Outcome>, Vec<u8>) {
        let (os, steps) = self.ps().run_together(jobs, choose);
        self.add("processes", jobs.len() as u64);
        self.add("processes run together", jobs.len() as u64);
        self.add("switches", steps.windows(2).filter(|w| w[0] != w[1]).count() as u64);
        let mut at = vec![0; jobs.len()];
        let mut line = String::new();
        for &i in &steps {
            let o = &os[i as usize];
            let k = at[i as usize];
            at[i as usize] += 1;
            let e = o.events.iter().find(|e| e.idx == k);
            self.sig = mix(self.sig ^ ((i as u64) << 8));
            if let Some(e) = e {
                self.shape = mix(self.shape ^ ((i as u64) << 8) ^ e.op as u64 ^ ((e.fault as u64) << 16) ^ ((e.path as u64) << 32));
                if self.notes.is_some() {
                    let _ = writeln!(
                        line,
                        "      {i}: {}({}{}, {}) = {}{}",
                        op_name(e.op),
                        o.path(e.path),
                        if e.path2 >= 0 { format!(" <- {}", o.path(e.path2)) } else { String::new() },
                        e.arg,
                        if e.ret < 0 { format!("errno {}", e.err) } else { e.ret.to_string() },
                        if e.fault != 0 { format!("   <== {}", fault_name(e.fault as u32)) } else { String::new() }
                    );
                }
            }
        }
        for o in &os {
            self.add("system calls", o.n_calls as u64);
            for e in &o.events {
                if e.fault != 0 {
                    let k = format!("fault: {} on {}", fault_name(e.fault as u32), op_name(e.op));
                    self.add(&k, 1);
                }
            }
            self.sig = mix(self.sig ^ o.hash());
        }
        self.note(|| {
            let mut s = String::from("at the same time:\n");
            for (i, j) in jobs.iter().enumerate() {
                let _ = writeln!(s, "  {i} $ {} {}    [{}]", j.tool, j.args.join(" "), j.plan.describe());
            }
            let l: Vec<&str> = line.lines().collect();
            if l.len() > 240 {
                let _ = writeln!(s, "{}\n      ... {} more calls ...\n{}", l[..120].join("\n"), l.len() - 240, l[l.len() - 120..].join("\n"));
            } else {
                s += &line;
            }
            for (i, o) in os.iter().enumerate() {
                let _ = writeln!(s, "  {i} => {}{}", o.status(), if o.stderr.is_empty() { String::new() } else { format!(", stderr: {}", crate::psim::text(&o.stderr)) });
            }
            s
        });
        (os, steps)
    }
}

pub fn verif_dir() -> PathBuf {
    PathBuf::from(std::env::var_os("DST_VERIF").unwrap_or_else(|| "/verif".into()))
}
pub fn build_dir() -> PathBuf {
    verif_dir().join(".build")
}

thread_local! {
    static GUARDED: Cell<bool> = const { Cell::new(false) };
    static PANIC: Cell<Option<String>> = const { Cell::new(None) };
}

/// Calls into the code under test; a panic in there is its behaviour, a panic elsewhere is ours
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, Fail> {
    let was = GUARDED.replace(true);
    let r = catch_unwind(AssertUnwindSafe(f));
    GUARDED.set(was);
    r.map_err(|_| {
        let m = PANIC.take().unwrap_or_default();
        if m.contains("HARNESS:") {
            panic!("{m}");
        }
        Fail { class: "crash".into(), msg: format!("panicked: {m}") }
    })
}

fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let m = i.payload().downcast_ref::<String>().cloned().or_else(|| i.payload().downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
        let at = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC.set(Some(format!("{m} ({at})")));
    }));
}

const CPU_LIMIT_S: i64 = 30;
fn cpu_timer() {
    let t = libc::timeval { tv_sec: CPU_LIMIT_S, tv_usec: 0 };
    let v = libc::itimerval { it_interval: libc::timeval { tv_sec: 0, tv_usec: 0 }, it_value: t };
    unsafe {
        libc::setitimer(libc::ITIMER_PROF, &v, std::ptr::null_mut());
    }
}

struct RunEnd {
    res: Result<Res, String>,
    ctx: Ctx,
}

fn one_run(p: &Prop, src: Src, base: &Path, ps: Option<PSim>, notes: bool) -> RunEnd {
    cpu_timer();
    let mut ctx = Ctx { src, st: BTreeMap::new(), sig: 0, shape: 0, nontrivial: false, notes: notes.then(Vec::new), base: base.to_owned(), ps };
    if let Some(ps) = &ctx.ps {
        ps.clear();
    }
    GUARDED.set(false);
    let r = catch_unwind(AssertUnwindSafe(|| (p.run)(&mut ctx)));
    let res = match r {
        Ok(r) => Ok(r),
        Err(_) => Err(PANIC.take().unwrap_or_else(|| "?".into())),
    };
    RunEnd { res, ctx }
}

fn run_seed(seed: u64, id: &str, index: u64) -> u64 {
    hash_bytes(mix(seed) ^ mix(index).rotate_left(17), id.as_bytes())
}

// ---- known findings ----

struct Known {
    property: String,
    class: String,
    matching: String,
    what: String,
}
/// lines `known: property=<id> class=<class> match=<text in the message> :: <what fails>`
fn known_findings() -> Vec<Known> {
    let t = fs::read_to_string(verif_dir().join("known_findings.txt")).unwrap_or_default();
    t.lines()
        .filter_map(|l| {
            let l = l.strip_prefix("known: property=")?;
            let (property, l) = l.split_once(" class=")?;
            let (class, l) = l.split_once(" match=")?;
            let (matching, what) = l.split_once(" :: ")?;
            Some(Known { property: property.into(), class: class.into(), matching: matching.into(), what: what.into() })
        })
        .collect()
}

// ---- one run in a process of its own ----

/// `exec <property> <base dir> seed <seed> <index>` or `... choices <file>`; the result goes to <base dir>/result
fn exec(p: &Prop, args: &[String]) -> i32 {
    let base = PathBuf::from(&args[0]);
    fs::create_dir_all(&base).expect("HARNESS: base");
    let src = match args[1].as_str() {
        "seed" => Src::new(run_seed(args[2].parse().unwrap(), p.id, args[3].parse().unwrap())),
        _ => Src::replay(parse_list(&fs::read_to_string(&args[2]).expect("HARNESS: choices"))),
    };
    silence_stdout();
    let mut src = src;
    src.log = fs::File::create(base.join("draws")).ok();
    let e = one_run(p, src, &base, None, true);
    let mut out = String::new();
    let (kind, class, msg) = match &e.res {
        Ok(Ok(())) => ("ok", String::new(), String::new()),
        Ok(Err(f)) => ("fail", f.class.clone(), f.msg.clone()),
        Err(m) => ("harness", String::new(), m.clone()),
    };
    let _ = writeln!(out, "{kind}\n{}\n{}\n{}\n{:x} {:x} {}", esc(&class), esc(&msg), list(&e.ctx.src.rec), e.ctx.sig, e.ctx.shape, e.ctx.nontrivial as u8);
    for n in e.ctx.notes.unwrap_or_default() {
        let _ = writeln!(out, "{}", esc(&n));
    }
    fs::write(base.join("result"), out).expect("HARNESS: result");
    0
}

#[derive(Clone, Debug, Default)]
struct ExecResult {
    kind: String,
    class: String,
    msg: String,
    choices: Vec<u64>,
    sig: String,
    notes: Vec<String>,
}

fn spawn_exec(id: &str, base: &Path, how: &[String]) -> Child {
    let _ = fs::remove_file(base.join("result"));
    let _ = fs::remove_file(base.join("draws"));
    unsafe {
        Command::new(std::env::current_exe().unwrap())
            .arg("exec")
            .arg(id)
            .arg(base)
            .args(how)
            .stdin(Stdio::null())
            .stdout(Stdio::null())
            .stderr(Stdio::null())
            .pre_exec(|| {
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                Ok(())
            })
            .spawn()
            .expect("HARNESS: spawn")
    }
}

fn finish_exec(mut c: Child, base: &Path, deadline: Instant) -> ExecResult {
    let status = loop {
        match c.try_wait().expect("HARNESS: wait") {
            Some(s) => break Some(s),
            None if Instant::now() > deadline => {
                let _ = c.kill();
                let _ = c.wait();
                break None;
            }
            None => std::thread::sleep(Duration::from_millis(2)),
        }
    };
    let dead = |class: &str, msg: String| ExecResult {
        kind: "fail".into(),
        class: class.into(),
        msg,
        choices: parse_list(&fs::read_to_string(base.join("draws")).unwrap_or_default()),
        ..Default::default()
    };
    match status {
        None => dead("hang", "a run does not end".into()),
        Some(s) if s.signal() == Some(libc::SIGPROF) => dead("hang", format!("a run does not end within {CPU_LIMIT_S} s of processor time")),
        Some(s) if s.signal().is_some() => dead("crash", format!("ended by signal {}", s.signal().unwrap())),
        Some(_) => {
            let Ok(t) = fs::read_to_string(base.join("result")) else {
                return ExecResult { kind: "harness".into(), msg: "no result".into(), ..Default::default() };
            };
            let l: Vec<&str> = t.lines().collect();
            ExecResult {
                kind: l[0].into(),
                class: unesc(l[1]),
                msg: unesc(l[2]),
                choices: parse_list(l[3]),
                sig: l[4].into(),
                notes: l[5..].iter().map(|s| unesc(s)).collect(),
            }
        }
    }
}

fn esc(s: &str) -> String {
    s.replace('\\', "\\\\").replace('\n', "\\n").replace('\r', "\\r")
}
fn unesc(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\\' {
            match it.next() {
                Some('n') => o.push('\n'),
                Some('r') => o.push('\r'),
                Some(c) => o.push(c),
                None => (),
            }
        } else {
            o.push(c)
        }
    }
    o
}
fn list(v: &[u64]) -> String {
    v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" ")
}
fn parse_list(s: &str) -> Vec<u64> {
    s.split_whitespace().filter_map(|x| x.parse().ok()).collect()
}
fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            c if (c as u32) < 0x20 || c == '\u{7f}' => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o + "\""
}

// ---- worker ----

fn silence_stdout() -> i32 {
    unsafe {
        let fd = libc::dup(1);
        libc::fcntl(fd, libc::F_SETFD, libc::FD_CLOEXEC);
        let null = libc::open(c"/dev/null".as_ptr(), libc::O_RDWR);
        libc::dup2(null, 1);
        libc::close(null);
        fd
    }
}

/// worker <property> <base> <seed> <first> <step> <runs>
fn worker(p: &Prop, args: &[String]) -> i32 {
    let base = PathBuf::from(&args[0]);
    let n: Vec<u64> = args[1..5].iter().map(|s| s.parse().unwrap()).collect();
    let mut out = unsafe { fs::File::from_raw_fd(silence_stdout()) };
    fs::create_dir_all(&base).expect("HARNESS: base");
    let known: Vec<Known> = known_findings().into_iter().filter(|k| k.property == p.id).collect();
    let mut ps = None;
    let mut stats: BTreeMap<String, u64> = BTreeMap::new();
    let mut buf = String::new();
    let mut i = n[1];
    let mut last = Instant::now();
    let mut first = true;
    while i < n[3] {
        // the begin line must be out before the run, results may wait
        if first || last.elapsed() > Duration::from_millis(200) || buf.len() > 30_000 {
            let _ = writeln!(buf, "S {i}");
            if out.write_all(buf.as_bytes()).is_err() {
                return 0;
            }
            buf.clear();
            last = Instant::now();
            first = false;
        }
        let e = one_run(p, Src::new(run_seed(n[0], p.id, i)), &base, ps.take(), false);
        ps = e.ctx.ps;
        for (k, v) in e.ctx.st {
            *stats.entry(k).or_default() += v;
        }
        match e.res {
            Ok(Ok(())) => {
                let _ = writeln!(buf, "D {i} {:x} {:x} {}", e.ctx.sig, e.ctx.shape, e.ctx.nontrivial as u8);
            }
            Ok(Err(f)) => {
                if let Some(k) = known.iter().find(|k| k.class == f.class && f.msg.contains(&k.matching)) {
                    *stats.entry(format!("known finding met: {}", k.what)).or_default() += 1;
                    let _ = writeln!(buf, "D {i} {:x} {:x} 0", e.ctx.sig, e.ctx.shape);
                } else {
                    let _ = writeln!(buf, "V {i} {}\t{}", esc(&f.class), esc(&f.msg));
                    let _ = out.write_all(buf.as_bytes());
                    return 0;
                }
            }
            Err(m) => {
                let _ = writeln!(buf, "H {i} {}", esc(&m));
                let _ = out.write_all(buf.as_bytes());
                return 0;
            }
        }
        i += n[2];
    }
    for (k, v) in stats {
        let _ = writeln!(buf, "C {v} {k}");
    }
    let _ = writeln!(buf, "E");
    let _ = out.write_all(buf.as_bytes());
    0
}

// ---- supervisor ----

static SCRATCH: Mutex<Option<PathBuf>> = Mutex::new(None);

fn scratch() -> PathBuf {
    for d in ["/dev/shm", "/tmp"] {
        let p = Path::new(d).join(format!("tsim-{}", std::process::id()));
        if fs::create_dir(&p).is_ok() {
            *SCRATCH.lock().unwrap() = Some(p.clone());
            return p;
        }
    }
    panic!("HARNESS: no scratch directory");
}
fn remove_scratch() {
    if let Some(p) = SCRATCH.lock().unwrap().take() {
        // modes set by a run may forbid listing
        let _ = fs::remove_dir_all(&p);
    }
}

struct Batch {
    done: u64,
    sigs: BTreeMap<u64, u64>,
    shapes: HashSet<u64>,
    nontrivial: u64,
    stats: BTreeMap<String, u64>,
    violation: Option<(u64, String, String)>,
    harness: Option<String>,
    wall: f64,
    capped: bool,
}

fn batch(p: &Prop, dir: &Path, seed: u64, runs: u64, workers: u64, wall_cap: Duration, keep_sigs: bool) -> Batch {
    let t0 = Instant::now();
    enum Msg {
        Line(usize, String),
        End(usize),
    }
    let (tx, rx) = mpsc::channel();
    let mut children = Vec::new();
    for w in 0..workers {
        let mut c = unsafe {
            Command::new(std::env::current_exe().unwrap())
                .arg("worker")
                .arg(p.id)
                .arg(dir.join(format!("w{w}")))
                .args([seed, w, workers, runs].map(|x| x.to_string()))
                .stdin(Stdio::null())
                .stdout(Stdio::piped())
                .pre_exec(|| {
                    libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                    Ok(())
                })
                .spawn()
                .expect("HARNESS: spawn")
        };
        let o = c.stdout.take().unwrap();
        let tx = tx.clone();
        std::thread::spawn(move || {
            for l in BufReader::new(o).lines() {
                let Ok(l) = l else { break };
                if tx.send(Msg::Line(w as usize, l)).is_err() {
                    return;
                }
            }
            let _ = tx.send(Msg::End(w as usize));
        });
        children.push(c);
    }
    let mut b = Batch { done: 0, sigs: BTreeMap::new(), shapes: HashSet::new(), nontrivial: 0, stats: BTreeMap::new(), violation: None, harness: None, wall: 0.0, capped: false };
    let n = workers as usize;
    let mut alive = vec![true; n];
    let mut ended = vec![false; n];
    let mut next: Vec<u64> = (0..workers).collect();
    let mut progress = vec![Instant::now(); n];
    // runs to be repeated alone because their worker died or was stuck in them
    let mut suspects: Vec<u64> = Vec::new();
    while alive.iter().any(|&a| a) {
        match rx.recv_timeout(Duration::from_millis(200)) {
            Ok(Msg::Line(w, l)) => {
                progress[w] = Instant::now();
                let (k, rest) = l.split_once(' ').unwrap_or((&l, ""));
                match k {
                    "D" => {
                        let f: Vec<&str> = rest.split(' ').collect();
                        let i: u64 = f[0].parse().unwrap();
                        next[w] = i + workers;
                        b.done += 1;
                        if keep_sigs {
                            b.sigs.insert(i, u64::from_str_radix(f[1], 16).unwrap());
                        }
                        if f[3] == "1" {
                            b.nontrivial += 1;
                            b.shapes.insert(u64::from_str_radix(f[2], 16).unwrap());
                        }
                    }
                    "V" => {
                        let (i, m) = rest.split_once(' ').unwrap();
                        let (c, m) = m.split_once('\t').unwrap();
                        let i: u64 = i.parse().unwrap();
                        ended[w] = true;
                        if b.violation.as_ref().map_or(true, |v| i < v.0) {
                            b.violation = Some((i, unesc(c), unesc(m)));
                        }
                    }
                    "H" => {
                        ended[w] = true;
                        b.harness.get_or_insert(format!("run {}", unesc(rest)));
                    }
                    "C" => {
                        let (v, k) = rest.split_once(' ').unwrap();
                        *b.stats.entry(k.into()).or_default() += v.parse::<u64>().unwrap();
                    }
                    "E" => ended[w] = true,
                    _ => (),
                }
            }
            Ok(Msg::End(w)) => {
                alive[w] = false;
                let _ = children[w].wait();
                if !ended[w] {
                    ended[w] = true;
                    // results are sent in groups: any run after the last one reported may be the culprit
                    let mut i = next[w];
                    for _ in 0..2000 {
                        if i < runs {
                            suspects.push(i);
                        }
                        i += workers;
                    }
                }
            }
            Err(_) => (),
        }
        for w in 0..n {
            if alive[w] && !ended[w] {
                if b.harness.is_some() || b.violation.as_ref().is_some_and(|v| v.0 < next[w]) {
                    ended[w] = true;
                    let _ = children[w].kill();
                } else if progress[w].elapsed() > Duration::from_secs(150) {
                    let _ = children[w].kill();
                } else if t0.elapsed() > wall_cap {
                    b.capped = true;
                    ended[w] = true;
                    let _ = children[w].kill();
                }
            }
        }
    }
    suspects.sort();
    let t1 = Instant::now();
    for i in suspects {
        if b.violation.as_ref().is_some_and(|v| v.0 < i) || b.harness.is_some() {
            break;
        }
        if t1.elapsed() > Duration::from_secs(240) {
            b.harness = Some("a worker process died, but no run that explains it was found in time".into());
            break;
        }
        let base = dir.join("x0");
        let c = spawn_exec(p.id, &base, &["seed".into(), seed.to_string(), i.to_string()]);
        let r = finish_exec(c, &base, Instant::now() + Duration::from_secs(120));
        match r.kind.as_str() {
            "fail" => b.violation = Some((i, r.class, r.msg)),
            "harness" => b.harness = Some(r.msg),
            _ => (),
        }
    }
    b.wall = t0.elapsed().as_secs_f64();
    b
}

fn shrink(id: &str, dir: &Path, start: ExecResult, limit: Duration) -> (ExecResult, u64) {
    let t0 = Instant::now();
    let mut best = start;
    let mut tried = 0;
    let mut try_wave = |cands: Vec<Vec<u64>>, best: &ExecResult| -> Option<(usize, ExecResult)> {
        tried += cands.len() as u64;
        let kids: Vec<(PathBuf, Child)> = cands
            .iter()
            .enumerate()
            .map(|(k, c)| {
                let base = dir.join(format!("x{k}"));
                fs::create_dir_all(&base).expect("HARNESS: base");
                let f = base.join("choices");
                fs::write(&f, list(c)).expect("HARNESS: choices");
                let kid = spawn_exec(id, &base, &["choices".into(), f.to_string_lossy().into_owned()]);
                (base, kid)
            })
            .collect();
        let mut found = None;
        for (k, (base, kid)) in kids.into_iter().enumerate() {
            let r = finish_exec(kid, &base, Instant::now() + Duration::from_secs(40));
            if found.is_none() && r.kind == "fail" && r.class == best.class {
                let mut r = r;
                if r.choices.is_empty() {
                    r.choices = cands[k].clone();
                }
                if (r.choices.len(), r.choices.iter().sum::<u64>()) < (best.choices.len(), best.choices.iter().sum::<u64>()) {
                    found = Some((k, r));
                }
            }
        }
        found
    };
    // delete, then zero, then lower
    'outer: loop {
        let before = best.choices.clone();
        for phase in 0..3 {
            let mut size = if phase == 2 { 1 } else { best.choices.len() };
            loop {
                let mut at = 0;
                while at < best.choices.len() {
                    if t0.elapsed() > limit {
                        break 'outer;
                    }
                    let mut cands = Vec::new();
                    let mut ats = Vec::new();
                    let mut a = at;
                    while a < best.choices.len() && cands.len() < 8 {
                        let end = (a + size).min(best.choices.len());
                        match phase {
                            0 => {
                                let mut c = best.choices.clone();
                                c.drain(a..end);
                                cands.push(c);
                                ats.push(a);
                            }
                            1 => {
                                if best.choices[a..end].iter().any(|&x| x != 0) {
                                    let mut c = best.choices.clone();
                                    c[a..end].fill(0);
                                    cands.push(c);
                                    ats.push(a);
                                }
                            }
                            _ => {
                                let v = best.choices[a];
                                for x in [v / 2, v.saturating_sub(1)] {
                                    if x < v {
                                        let mut c = best.choices.clone();
                                        c[a] = x;
                                        cands.push(c);
                                        ats.push(a);
                                    }
                                }
                            }
                        }
                        a = end;
                    }
                    let next = a;
                    match try_wave(cands, &best) {
                        Some((k, r)) => {
                            at = ats[k];
                            best = r;
                            if phase == 1 {
                                at += 1;
                            }
                        }
                        None => at = next,
                    }
                }
                if size <= 1 {
                    break;
                }
                size /= 2;
            }
        }
        if best.choices == before {
            break;
        }
    }
    (best, tried)
}

fn env_u64(k: &str, d: u64) -> u64 {
    std::env::var(k).ok().and_then(|s| s.parse().ok()).unwrap_or(d)
}

fn check_cmd(p: &Prop, args: &[String]) -> i32 {
    let opt = |k: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).and_then(|s| s.parse::<u64>().ok());
    let thorough = std::env::var("VERIF_TIER").is_ok_and(|t| t == "thorough") || args.iter().any(|a| a == "--thorough");
    let tier = if thorough { "thorough" } else { "quick" };
    let seed = opt("--seed").unwrap_or_else(|| env_u64("VERIF_SEED", 1));
    let runs = opt("--runs").unwrap_or(if thorough { p.thorough } else { p.quick });
    let workers = opt("--workers").unwrap_or_else(|| std::thread::available_parallelism().map_or(4, |n| n.get() as u64).min(8)).min(runs).max(1);
    let cap = Duration::from_secs(opt("--wall").unwrap_or(if thorough { 3 * 3600 } else { 300 }));
    println!("{}: {tier} check, VERIF_SEED {seed}, {runs} runs on {workers} workers", p.id);
    let dir = scratch();
    for k in known_findings().iter().filter(|k| k.property == p.id) {
        println!("KNOWN-FINDING: property={} {}", p.id, k.what);
    }
    let t0 = Instant::now();
    let b = batch(p, &dir, seed, runs, workers, cap, false);
    if let (Some(h), None) = (&b.harness, &b.violation) {
        eprintln!("{}: error of the check itself: {h}", p.id);
        return 2;
    }
    let ev_dir = verif_dir().join("evidence");
    fs::create_dir_all(&ev_dir).expect("HARNESS: evidence");
    let mut code = 0;
    let mut first = String::new();
    if let Some((i, class, msg)) = &b.violation {
        let base = dir.join("x0");
        let c = spawn_exec(p.id, &base, &["seed".into(), seed.to_string(), i.to_string()]);
        let mut r = finish_exec(c, &base, Instant::now() + Duration::from_secs(150));
        if r.kind != "fail" || r.class != *class {
            eprintln!("{}: error of the check itself: run {i} failed with {class}: {msg}, but repeated alone it gave {} {} {}", p.id, r.kind, r.class, r.msg);
            return 2;
        }
        if r.choices.is_empty() {
            // the process died: collect the choices from the generator up to that point
            r.choices = Vec::new();
        }
        let whole = r.clone();
        let (small, tried) = if r.choices.is_empty() { (r, 0) } else { shrink(p.id, &dir, r, Duration::from_secs(60)) };
        let rdir = ev_dir.join("replays");
        fs::create_dir_all(&rdir).expect("HARNESS: replays");
        let path = rdir.join(format!("{}-{:016x}.json", p.id, hash_bytes(seed, format!("{class}{:?}", small.choices).as_bytes())));
        let trace = small.notes.iter().map(|n| format!("    {}", js(n))).collect::<Vec<_>>().join(",\n");
        let text = format!(
            "{{\n  \"property\": {},\n  \"seed\": {seed},\n  \"run\": {i},\n  \"class\": {},\n  \"message\": {},\n  \"choices\": [{}],\n  \"choices_before_minimising\": {},\n  \"runs_of_the_minimiser\": {tried},\n  \"trace\": [\n{trace}\n  ]\n}}\n",
            js(p.id),
            js(&small.class),
            js(&small.msg),
            small.choices.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","),
            whole.choices.len(),
        );
        fs::write(&path, text).expect("HARNESS: replay");
        println!("VIOLATION property={} replay={}", p.id, path.display());
        println!("  run {i} of seed {seed}: {}: {}", small.class, small.msg);
        println!("  {} decisions, minimised from {} in {tried} runs", small.choices.len(), whole.choices.len());
        for n in small.notes.iter().take(40) {
            for l in n.lines() {
                println!("    {l}");
            }
        }
        first = format!("{}: {}", small.class, small.msg);
        code = 1;
    }
    // evidence
    let mut missing: Vec<&str> = Vec::new();
    if code == 0 && b.done == runs && runs >= p.quick {
        missing = p.probes.iter().filter(|k| !b.stats.keys().any(|s| s.starts_with(**k))).copied().collect();
    }
    let mut samples = Vec::new();
    for k in 0..3u64 {
        let i = k * (runs / 3).max(1);
        if i < runs && code == 0 {
            let base = dir.join("x0");
            let c = spawn_exec(p.id, &base, &["seed".into(), seed.to_string(), i.to_string()]);
            let r = finish_exec(c, &base, Instant::now() + Duration::from_secs(100));
            let mut s = format!("run {i}: {}\n", r.kind) + &r.notes.join("\n");
            if s.len() > 2500 {
                let mut e = 2500;
                while !s.is_char_boundary(e) {
                    e -= 1;
                }
                s.truncate(e);
                s += " ...";
            }
            samples.push(format!("      {}", js(&s)));
        }
    }
    let wall = t0.elapsed().as_secs_f64();
    let per_hour = b.done as f64 / b.wall.max(0.001) * 3600.0;
    let (faults, rest): (Vec<_>, Vec<_>) = b.stats.iter().partition(|(k, _)| k.starts_with("fault: "));
    let obj = |v: &[(&String, &u64)], cut: usize| v.iter().map(|(k, n)| format!("      {}: {n}", js(&k[cut..]))).collect::<Vec<_>>().join(",\n");
    let mut e = String::from("{\n");
    let _ = writeln!(e, "  \"property\": {},\n  \"tier\": {},\n  \"seed\": {seed},\n  \"level\": {},", js(p.id), js(tier), js(p.level));
    let _ = writeln!(e, "  \"coverage\": {{");
    let _ = writeln!(e, "    \"evaluations\": {},\n    \"distinct_nontrivial\": {},", b.done, b.shapes.len());
    let _ = writeln!(e, "    \"rule\": {},", js(p.rule));
    let _ = writeln!(e, "    \"nontrivial_runs\": {},", b.nontrivial);
    let _ = writeln!(e, "    \"runs_requested\": {runs},\n    \"stopped_by_wall_limit\": {},", b.capped);
    let _ = writeln!(e, "    \"seeds\": {},\n    \"runs_per_hour\": {per_hour:.0},\n    \"workers\": {workers},", b.done);
    let _ = writeln!(e, "    \"simulated_time\": {},", js("the code has no clock; simulated time is counted in system calls and machine steps, see counters"));
    let _ = writeln!(e, "    \"faults_injected\": {{\n{}\n    }},", obj(&faults, 7));
    let _ = writeln!(e, "    \"counters\": {{\n{}\n    }},", obj(&rest, 0));
    let _ = writeln!(e, "    \"probes_not_reached\": [{}],", missing.iter().map(|s| js(s)).collect::<Vec<_>>().join(", "));
    let _ = writeln!(e, "    \"ran_real_code\": {},\n    \"ran_stub\": {},", js(p.real), js(p.stub));
    if !first.is_empty() {
        let _ = writeln!(e, "    \"first_violation\": {},", js(&first));
    }
    let _ = writeln!(e, "    \"samples\": [\n{}\n    ]\n  }},", samples.join(",\n"));
    let _ = writeln!(e, "  \"assumptions\": [{}],", p.assumptions.iter().map(|s| js(s)).collect::<Vec<_>>().join(", "));
    let _ = writeln!(e, "  \"wall_s\": {wall:.1},\n  \"violations\": {}\n}}", code);
    fs::write(ev_dir.join(format!("{}.json", p.id)), e).expect("HARNESS: evidence");
    println!("{}: {} runs, {} distinct non-trivial, {:.1} s, {}", p.id, b.done, b.shapes.len(), wall, if code == 0 { "no violation" } else { "VIOLATED" });
    if args.iter().any(|a| a == "--stats") {
        for (k, v) in &b.stats {
            println!("  {v:>10} {k}");
        }
    }
    if !missing.is_empty() {
        println!("{}: conditions never reached: {missing:?}", p.id);
    }
    code
}

fn replay_cmd(prop: &dyn Fn(&str) -> Option<Prop>, path: &str) -> i32 {
    let t = fs::read_to_string(path).expect("HARNESS: replay file");
    let field = |k: &str| -> String {
        let at = t.find(&format!("\"{k}\": ")).expect("HARNESS: field") + k.len() + 4;
        t[at..].lines().next().unwrap().trim_end_matches(',').to_string()
    };
    let id = field("property").trim_matches('"').to_string();
    let p = prop(&id).expect("HARNESS: property");
    let dir = scratch();
    let base = dir.join("x0");
    fs::create_dir_all(&base).expect("HARNESS: base");
    let choices: Vec<u64> = field("choices").trim_matches(|c| c == '[' || c == ']').split(',').filter_map(|x| x.trim().parse().ok()).collect();
    let how = if choices.is_empty() && field("choices_before_minimising") == "0" {
        vec!["seed".to_string(), field("seed"), field("run")]
    } else {
        let f = base.join("choices");
        fs::write(&f, list(&choices)).expect("HARNESS: choices");
        vec!["choices".to_string(), f.to_string_lossy().into_owned()]
    };
    let r = finish_exec(spawn_exec(p.id, &base, &how), &base, Instant::now() + Duration::from_secs(150));
    for n in &r.notes {
        println!("{n}");
    }
    println!("=> {} {}: {}", r.kind, r.class, r.msg);
    if r.kind == "fail" && js(&r.class) == field("class") && js(&r.msg) == field("message") {
        println!("the same violation as recorded");
        println!("VIOLATION property={} replay={path}", p.id);
        1
    } else if r.kind == "fail" {
        println!("a different violation than recorded");
        println!("VIOLATION property={} replay={path}", p.id);
        1
    } else if r.kind == "ok" {
        0
    } else {
        2
    }
}

/// Runs every seed several times with different numbers of workers and compares the event logs
fn determinism_cmd(p: &Prop, args: &[String]) -> i32 {
    let runs: u64 = args.first().and_then(|s| s.parse().ok()).unwrap_or(400);
    let dir = scratch();
    let mut bad = 0;
    for seed in 1..=3 {
        let a = batch(p, &dir, seed, runs, 8, Duration::from_secs(600), true);
        let b = batch(p, &dir, seed, runs, 3, Duration::from_secs(600), true);
        let c = batch(p, &dir, seed, runs, 8, Duration::from_secs(600), true);
        for x in [&a, &b, &c] {
            if let Some(h) = &x.harness {
                eprintln!("{h}");
                return 2;
            }
        }
        if a.violation.is_some() {
            println!("{}: {:?}", p.id, a.violation);
        }
        for (i, s) in &a.sigs {
            if b.sigs.get(i) != Some(s) || c.sigs.get(i) != Some(s) {
                bad += 1;
                if bad < 5 {
                    println!("{} seed {seed} run {i} differs: {:?} {:?} {:?}", p.id, s, b.sigs.get(i), c.sigs.get(i));
                }
            }
        }
        println!("{} seed {seed}: {} runs three times (8, 3 and 8 workers), {bad} differ", p.id, a.sigs.len());
    }
    (bad > 0) as i32
}

pub fn main(prop: &dyn Fn(&str) -> Option<Prop>) {
    install_hook();
    let args: Vec<String> = std::env::args().skip(1).collect();
    let usage = "usage: check|determinism|show <property> [options] | replay <file>";
    let a = |i: usize| -> &str { args.get(i).map_or_else(|| panic!("{usage}"), |s| s) };
    let r = catch_unwind(AssertUnwindSafe(|| {
        let get = |id: &str| prop(id).unwrap_or_else(|| panic!("HARNESS: no property {id}"));
        match a(0) {
            "check" => check_cmd(&get(a(1)), &args[2..]),
            "worker" => worker(&get(a(1)), &args[2..]),
            "exec" => exec(&get(a(1)), &args[2..]),
            "replay" => replay_cmd(prop, a(1)),
            "determinism" => determinism_cmd(&get(a(1)), &args[2..]),
            "show" => {
                let dir = scratch();
                let base = dir.join("x0");
                let c = spawn_exec(get(a(1)).id, &base, &["seed".into(), a(2).into(), a(3).into()]);
                let r = finish_exec(c, &base, Instant::now() + Duration::from_secs(150));
                for n in &r.notes {
                    println!("{n}");
                }
                println!("=> {} {}: {}", r.kind, r.class, r.msg);
                0
            }
            _ => panic!("{usage}"),
        }
    }));
    remove_scratch();
    std::process::exit(match r {
        Ok(c) => c,
        Err(_) => {
            eprintln!("error of the check itself: {}", PANIC.take().unwrap_or_default());
            2
        }
    });
}
