//! Process simulator: the real tools on a simulated operating system (see shim/tsim.c).
use crate::src::{hash_bytes, mix};
use std::{
    collections::BTreeMap,
    fs,
    io::{ErrorKind, Read, Write},
    os::{
        fd::{AsRawFd, FromRawFd, OwnedFd},
        unix::{
            ffi::OsStrExt,
            fs::PermissionsExt,
            process::{CommandExt, ExitStatusExt},
        },
    },
    path::{Path, PathBuf},
    process::{Child, Command, ExitStatus, Stdio},
};

pub const MAX_FAULTS: usize = 16;
const MAX_EVENTS: usize = 65536;
const MAX_PATHS: usize = 128;
const PATH_LEN: usize = 160;
const MAGIC: u32 = 0x7453_494d;

pub const OP_OPEN: u16 = 1;
pub const OP_READ: u16 = 2;
pub const OP_WRITE: u16 = 3;
pub const OP_LSEEK: u16 = 4;
pub const OP_FTRUNC: u16 = 5;
pub const OP_FSYNC: u16 = 6;
pub const OP_RENAME: u16 = 7;
pub const OP_UNLINK: u16 = 8;
pub const OP_CHMOD: u16 = 9;
pub const OP_STAT: u16 = 10;
pub const OP_CFR: u16 = 11;
pub const OP_SENDFILE: u16 = 12;
pub const OP_REALPATH: u16 = 13;
pub const OP_LINK: u16 = 14;
pub const OP_CLOSE: u16 = 15;
pub const OP_SPLICE: u16 = 16;
pub const OP_MKDIR: u16 = 17;

pub fn op_name(op: u16) -> &'static str {
    [
        "?", "open", "read", "write", "lseek", "ftruncate", "fsync", "rename", "unlink", "chmod", "stat",
        "copy_file_range", "sendfile", "realpath", "link", "close", "splice", "mkdir",
    ]
    .get(op as usize)
    .copied()
    .unwrap_or("?")
}

pub const F_ERR: u32 = 1;
pub const F_SHORT: u32 = 2;
pub const F_EOF: u32 = 3;
pub const F_KILL_BEFORE: u32 = 4;
pub const F_KILL_MID: u32 = 5;
pub const F_KILL_AFTER: u32 = 6;
pub const F_ERR_PATH: u32 = 7;
pub const F_ERR_WRITES: u32 = 8;
pub const F_ERR_READS: u32 = 9;
pub const F_EOF_READS: u32 = 10;

pub fn fault_name(f: u32) -> &'static str {
    match f {
        0 => "none",
        F_ERR => "error",
        F_SHORT => "short transfer",
        F_EOF => "premature end of file",
        F_KILL_BEFORE => "kill before the call",
        F_KILL_MID => "kill inside the transfer",
        F_KILL_AFTER => "kill after the call",
        F_ERR_PATH => "lasting error on the file",
        F_ERR_WRITES => "lasting error of all writes",
        F_ERR_READS => "lasting error of all reads",
        F_EOF_READS => "lasting end of all inputs",
        100 => "noise: short transfer",
        101 => "noise: EINTR",
        102 => "disk full",
        103 => "noise: no in-kernel copy",
        _ => "?",
    }
}

#[repr(C)]
#[derive(Clone, Copy)]
struct CFault {
    idx: u32,
    kind: u32,
    err: i32,
    arg: u32,
    fired: u32,
    pad: u32,
}

#[repr(C)]
#[derive(Clone, Copy)]
struct CEvent {
    idx: u32,
    op: u16,
    fault: u16,
    path: i32,
    path2: i32,
    arg: i64,
    ret: i64,
    err: i32,
    flags: u32,
}

#[repr(C)]
struct Shm {
    magic: u32,
    p_short: u32,
    p_eintr: u32,
    cfr_mode: u32,
    seed: u64,
    entropy: u64,
    disk_capacity: i64,
    call_budget: u32,
    cpu_limit_s: u32,
    n_faults: u32,
    umask: u32,
    sched: u32,
    pid: u32,
    faults: [CFault; MAX_FAULTS],
    scratch: [u8; PATH_LEN],
    n_calls: u32,
    n_events: u32,
    n_paths: u32,
    over_budget: u32,
    entropy_calls: u64,
    killed: u32,
    cfr_seen: u32,
    events_lost: u32,
    disk_full_hits: u32,
    disk_used: u64,
    eof_path: [u8; MAX_PATHS],
    paths: [[u8; PATH_LEN]; MAX_PATHS],
    ev: [CEvent; MAX_EVENTS],
}

#[derive(Clone, Debug)]
pub struct Fault {
    pub idx: u32,
    pub kind: u32,
    pub err: i32,
    pub arg: u32,
}

#[derive(Clone, Debug)]
pub struct Plan {
    pub p_short: u32,
    pub p_eintr: u32,
    pub cfr_mode: u32,
    pub seed: u64,
    pub entropy: u64,
    pub disk: i64,
    pub budget: u32,
    pub umask: u32,
    pub faults: Vec<Fault>,
}

impl Default for Plan {
    fn default() -> Self {
        Plan { p_short: 0, p_eintr: 0, cfr_mode: 0, seed: 0, entropy: 1, disk: -1, budget: 100_000, umask: 0o022, faults: Vec::new() }
    }
}

impl Plan {
    pub fn with(&self, f: Fault) -> Plan {
        let mut p = self.clone();
        p.faults.push(f);
        p
    }
    pub fn describe(&self) -> String {
        let mut s = format!("noise(short {}/1024, eintr {}/1024, copy mode {}, seed {:x}) entropy {:x}", self.p_short, self.p_eintr, self.cfr_mode, self.seed, self.entropy);
        if self.disk >= 0 {
            s += &format!(" disk of {} bytes", self.disk);
        }
        for f in &self.faults {
            s += &format!(" [call {}: {} errno {} arg {}]", f.idx, fault_name(f.kind), f.err, f.arg);
        }
        s
    }
}

#[derive(Clone, Debug)]
pub struct Event {
    pub idx: u32,
    pub op: u16,
    pub fault: u16,
    pub path: i32,
    pub path2: i32,
    pub arg: i64,
    pub ret: i64,
    pub err: i32,
    pub flags: u32,
}

impl Event {
    pub fn faultable(&self) -> bool {
        self.idx != u32::MAX
    }
}

#[derive(Clone, Debug)]
pub struct Outcome {
    pub code: Option<i32>,
    pub signal: Option<i32>,
    pub stdout: Vec<u8>,
    pub stderr: Vec<u8>,
    pub events: Vec<Event>,
    pub paths: Vec<String>,
    pub n_calls: u32,
    pub killed: bool,
    pub over_budget: bool,
    pub disk_full_hits: u32,
    pub entropy_calls: u64,
}

impl Outcome {
    pub fn ok(&self) -> bool {
        self.code == Some(0)
    }
    /// an ordinary exit with a failure status and a message
    pub fn failed_cleanly(&self) -> bool {
        matches!(self.code, Some(c) if c != 0) && !self.stderr.is_empty()
    }
    /// died from a signal the simulator did not send, panicked, or would not end
    pub fn crashed(&self) -> Option<String> {
        if self.over_budget {
            return Some(format!("does not end: over {} system calls", self.n_calls));
        }
        if let Some(s) = self.signal {
            if !self.killed {
                return Some(format!("ended by signal {s}"));
            }
        }
        if self.code == Some(101) && contains(&self.stderr, b"panicked at") {
            return Some(format!("panicked: {}", text(&self.stderr)));
        }
        None
    }
    pub fn path(&self, id: i32) -> &str {
        if id < 0 {
            "-"
        } else {
            &self.paths[id as usize]
        }
    }
    pub fn faults_fired(&self) -> impl Iterator<Item = &Event> {
        self.events.iter().filter(|e| e.fault != 0)
    }
    pub fn status(&self) -> String {
        match (self.code, self.signal) {
            (Some(c), _) => format!("exit {c}"),
            (_, Some(s)) => format!("signal {s}{}", if self.killed { " (by the simulator)" } else { "" }),
            _ => "?".into(),
        }
    }
    pub fn hash(&self) -> u64 {
        let mut h = mix(self.code.unwrap_or(1000) as u64 ^ ((self.signal.unwrap_or(0) as u64) << 32));
        h = hash_bytes(h, &self.stdout);
        h = hash_bytes(h, &self.stderr);
        for e in &self.events {
            h = mix(h ^ e.idx as u64 ^ ((e.op as u64) << 32) ^ ((e.fault as u64) << 48));
            h = hash_bytes(h, self.path(e.path).as_bytes());
            h = mix(h ^ e.ret as u64 ^ ((e.err as u64) << 40));
        }
        h
    }
    /// hash of what happened without the contents: the sequence of calls, results and faults
    pub fn shape(&self) -> u64 {
        let mut h = mix(self.code.unwrap_or(1000) as u64);
        for e in &self.events {
            h = mix(h ^ e.op as u64 ^ ((e.fault as u64) << 16) ^ ((e.path as u64) << 32) ^ ((e.err as u64) << 44) ^ ((e.ret.min(2) as u64) << 60));
        }
        h
    }
    pub fn log(&self) -> String {
        let mut s = String::new();
        let n = self.events.len();
        for (i, e) in self.events.iter().enumerate() {
            if n > 60 && i == 30 {
                s += &format!("      ... {} more calls ...\n", n - 60);
            }
            if n > 60 && i >= 30 && i < n - 30 && e.fault == 0 {
                continue;
            }
            s += &format!(
                "      {:>4} {}({}{}, {}) = {}{}\n",
                if e.faultable() { e.idx.to_string() } else { "-".into() },
                op_name(e.op),
                self.path(e.path),
                if e.path2 >= 0 { format!(" <- {}", self.path(e.path2)) } else { String::new() },
                e.arg,
                if e.ret < 0 { format!("errno {}", e.err) } else { e.ret.to_string() },
                if e.fault != 0 { format!("   <== {}", fault_name(e.fault as u32)) } else { String::new() },
            );
        }
        s += &format!("      => {}", self.status());
        if !self.stderr.is_empty() {
            s += &format!(", stderr: {}", text(&self.stderr));
        }
        s
    }
}

pub fn contains(hay: &[u8], needle: &[u8]) -> bool {
    hay.windows(needle.len()).any(|w| w == needle)
}
pub fn text(b: &[u8]) -> String {
    let s = String::from_utf8_lossy(&b[..b.len().min(400)]).into_owned();
    s.trim_end().replace('\n', " / ")
}

pub type Snapshot = BTreeMap<String, (u32, Vec<u8>)>;

/// One of several tools that run at the same time
#[derive(Clone, Debug)]
pub struct Job {
    pub tool: &'static str,
    pub args: Vec<String>,
    pub stdin: Vec<u8>,
    pub plan: Plan,
}

pub struct PSim {
    pub scratch: PathBuf,
    aux: PathBuf,
    shm: Vec<*mut Shm>,
    shim: PathBuf,
    tools: PathBuf,
    pub execs: u64,
    pub calls: u64,
}

impl PSim {
    pub fn new(base: &Path, build: &Path) -> Self {
        let scratch = base.join("s");
        let aux = base.join("aux");
        fs::create_dir_all(&scratch).expect("HARNESS: cannot make scratch directory");
        fs::create_dir_all(&aux).expect("HARNESS: cannot make scratch directory");
        clear_dir(&scratch);
        PSim { scratch, aux, shm: Vec::new(), shim: build.join("libtsim.so"), tools: build.join("tools/debug"), execs: 0, calls: 0 }
    }

    pub fn aux(&self, name: &str) -> PathBuf {
        self.aux.join(name)
    }

    fn slot_file(&self, name: &str, slot: usize) -> PathBuf {
        self.aux.join(if slot == 0 { name.to_string() } else { format!("{name}{slot}") })
    }

    fn prepare(&mut self, slot: usize, plan: &Plan, sched: bool) {
        while self.shm.len() <= slot {
            let f = fs::File::options()
                .create(true)
                .truncate(false)
                .read(true)
                .write(true)
                .open(self.slot_file("shm", self.shm.len()))
                .expect("HARNESS: shm");
            f.set_len(std::mem::size_of::<Shm>() as u64).expect("HARNESS: shm");
            self.shm.push(unsafe {
                use std::os::fd::AsRawFd;
                let p = libc::mmap(std::ptr::null_mut(), std::mem::size_of::<Shm>(), libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0);
                assert!(p != libc::MAP_FAILED, "HARNESS: mmap");
                p as *mut Shm
            });
        }
        unsafe {
            let s = &mut *self.shm[slot];
            s.magic = MAGIC;
            s.p_short = plan.p_short;
            s.p_eintr = plan.p_eintr;
            s.cfr_mode = plan.cfr_mode;
            s.seed = plan.seed;
            s.entropy = plan.entropy;
            s.disk_capacity = plan.disk;
            s.call_budget = plan.budget;
            s.cpu_limit_s = 20;
            s.umask = plan.umask;
            s.sched = sched as u32;
            s.pid = 4242 + slot as u32;
            s.n_faults = plan.faults.len() as u32;
            assert!(plan.faults.len() <= MAX_FAULTS);
            for (i, f) in plan.faults.iter().enumerate() {
                s.faults[i] = CFault { idx: f.idx, kind: f.kind, err: f.err, arg: f.arg, fired: 0, pad: 0 };
            }
            let b = self.scratch.as_os_str().as_bytes();
            s.scratch = [0; PATH_LEN];
            s.scratch[..b.len()].copy_from_slice(b);
            s.n_calls = 0;
            s.n_events = 0;
            s.n_paths = 0;
            s.over_budget = 0;
            s.entropy_calls = 0;
            s.killed = 0;
            s.cfr_seen = 0;
            s.events_lost = 0;
            s.disk_full_hits = 0;
            s.disk_used = 0;
            s.eof_path = [0; MAX_PATHS];
        }
    }

    fn command(&self, slot: usize, tool: &str, args: &[&str], stdin: &[u8]) -> Command {
        let exe = if tool == "dsth" { std::env::current_exe().unwrap().with_file_name("dsth") } else { self.tools.join(tool) };
        let fin = self.slot_file("in", slot);
        fs::write(&fin, stdin).expect("HARNESS: stdin");
        let mut c = Command::new(&exe);
        c.args(args)
            .current_dir(&self.scratch)
            .env_clear()
            .env("LD_PRELOAD", &self.shim)
            .env("TSIM_SHM", self.slot_file("shm", slot))
            .stdin(Stdio::from(fs::File::open(&fin).expect("HARNESS: stdin")))
            .stdout(Stdio::from(fs::File::create(self.slot_file("out", slot)).expect("HARNESS: stdout")))
            .stderr(Stdio::from(fs::File::create(self.slot_file("err", slot)).expect("HARNESS: stderr")));
        c
    }

    fn outcome(&mut self, slot: usize, tool: &str, status: ExitStatus) -> Outcome {
        let s = unsafe { &*self.shm[slot] };
        // the name of the scratch directory is not part of what happened
        let name = self.scratch.as_os_str().as_bytes();
        let clean = |b: Vec<u8>| -> Vec<u8> {
            if !contains(&b, name) {
                return b;
            }
            let mut v = Vec::new();
            let mut i = 0;
            while i < b.len() {
                if b[i..].starts_with(name) {
                    v.extend(b"<scratch>");
                    i += name.len();
                } else {
                    v.push(b[i]);
                    i += 1;
                }
            }
            v
        };
        assert!(s.n_paths >= 3, "HARNESS: the shim was not loaded into {tool}");
        let (fout, ferr) = (self.slot_file("out", slot), self.slot_file("err", slot));
        if tool == "dsth" {
            let e = fs::read(&ferr).expect("HARNESS: stderr");
            assert!(!contains(&e, b"HARNESS:"), "HARNESS: helper: {}", text(&e));
        }
        self.execs += 1;
        self.calls += s.n_calls as u64;
        Outcome {
            code: status.code(),
            signal: status.signal(),
            stdout: clean(fs::read(&fout).expect("HARNESS: stdout")),
            stderr: clean(fs::read(&ferr).expect("HARNESS: stderr")),
            events: s.ev[..s.n_events as usize]
                .iter()
                .map(|e| Event { idx: e.idx, op: e.op, fault: e.fault, path: e.path, path2: e.path2, arg: e.arg, ret: e.ret, err: e.err, flags: e.flags })
                .collect(),
            paths: s.paths[..s.n_paths as usize]
                .iter()
                .map(|p| String::from_utf8_lossy(&p[..p.iter().position(|&b| b == 0).unwrap_or(PATH_LEN)]).into_owned())
                .collect(),
            n_calls: s.n_calls,
            killed: s.killed != 0,
            over_budget: s.over_budget != 0,
            disk_full_hits: s.disk_full_hits,
            entropy_calls: s.entropy_calls,
        }
    }

    /// Runs a tool in the scratch directory; "dst" is this program's helper mode
    pub fn run(&mut self, tool: &str, args: &[&str], stdin: &[u8], plan: &Plan) -> Outcome {
        self.prepare(0, plan, false);
        let status = self.command(0, tool, args, stdin).status().unwrap_or_else(|e| panic!("HARNESS: cannot run {tool}: {e}"));
        self.outcome(0, tool, status)
    }

    /// Runs several tools at the same time. Each of them waits before every call; `choose` says which of
    /// those that wait makes its call next. Returns what happened to each, and who went on at each step.
    pub fn run_together(&mut self, jobs: &[Job], choose: &mut dyn FnMut(&[usize]) -> usize) -> (Vec<Outcome>, Vec<u8>) {
        struct Running {
            child: Child,
            go: fs::File,
            here: fs::File,
            ended: bool,
        }
        impl Running {
            /// until it is at its next call or has ended
            fn wait(&mut self) {
                let mut b = [0];
                loop {
                    match (&self.here).read(&mut b) {
                        Ok(1) => return,
                        Ok(_) => break,
                        Err(e) if e.kind() == ErrorKind::Interrupted => (),
                        Err(e) => panic!("HARNESS: pipe: {e}"),
                    }
                }
                self.ended = true;
            }
        }
        let pipe = || -> (fs::File, OwnedFd) {
            let mut p = [0; 2];
            assert_eq!(unsafe { libc::pipe2(p.as_mut_ptr(), libc::O_CLOEXEC) }, 0, "HARNESS: pipe");
            unsafe { (fs::File::from_raw_fd(p[0]), OwnedFd::from_raw_fd(p[1])) }
        };
        let mut running = Vec::new();
        for (i, j) in jobs.iter().enumerate() {
            self.prepare(i, &j.plan, true);
            let (go_r, go_w) = pipe();
            let (here_r, here_w) = pipe();
            let args: Vec<&str> = j.args.iter().map(|a| a.as_str()).collect();
            let mut c = self.command(i, j.tool, &args, &j.stdin);
            let (r, w) = (go_r.as_raw_fd(), here_w.as_raw_fd());
            unsafe {
                c.pre_exec(move || {
                    if libc::dup2(r, 198) < 0 || libc::dup2(w, 199) < 0 {
                        return Err(std::io::Error::last_os_error());
                    }
                    Ok(())
                });
            }
            let child = c.spawn().unwrap_or_else(|e| panic!("HARNESS: cannot run {}: {e}", j.tool));
            drop(here_w);
            drop(go_r);
            let mut r = Running { child, go: go_w.into(), here: here_r, ended: false };
            r.wait();
            running.push(r);
        }
        let mut steps = Vec::new();
        loop {
            let able: Vec<usize> = (0..running.len()).filter(|&i| !running[i].ended).collect();
            if able.is_empty() {
                break;
            }
            let i = choose(&able);
            assert!(able.contains(&i), "HARNESS: schedule");
            steps.push(i as u8);
            (&running[i].go).write_all(&[0]).expect("HARNESS: go");
            running[i].wait();
        }
        let mut v = Vec::new();
        for (i, mut r) in running.into_iter().enumerate() {
            let status = r.child.wait().expect("HARNESS: wait");
            v.push(self.outcome(i, jobs[i].tool, status));
        }
        (v, steps)
    }

    pub fn put(&self, name: &str, bytes: &[u8], mode: u32) {
        let p = self.scratch.join(name);
        if let Some(d) = p.parent() {
            let _ = fs::create_dir_all(d);
        }
        let _ = fs::remove_file(&p);
        fs::write(&p, bytes).expect("HARNESS: put");
        fs::set_permissions(&p, fs::Permissions::from_mode(mode)).expect("HARNESS: mode");
    }
    pub fn mkdir(&self, name: &str) {
        fs::create_dir_all(self.scratch.join(name)).expect("HARNESS: mkdir");
    }
    pub fn symlink(&self, to: &str, name: &str) {
        let p = self.scratch.join(name);
        let _ = fs::remove_file(&p);
        std::os::unix::fs::symlink(to, p).expect("HARNESS: symlink");
    }
    pub fn get(&self, name: &str) -> Option<Vec<u8>> {
        fs::read(self.scratch.join(name)).ok()
    }
    pub fn mode(&self, name: &str) -> Option<u32> {
        fs::metadata(self.scratch.join(name)).ok().map(|m| m.permissions().mode() & 0o7777)
    }
    pub fn remove(&self, name: &str) {
        let _ = fs::remove_file(self.scratch.join(name));
    }
    pub fn clear(&self) {
        clear_dir(&self.scratch);
    }
    pub fn snapshot(&self) -> Snapshot {
        let mut s = Snapshot::new();
        snap(&self.scratch, "", &mut s);
        s
    }
    /// nothing but what the snapshot has, also no leftovers of an interrupted tool
    pub fn clear_temporaries(&self, s: &Snapshot) {
        let now = self.snapshot();
        for k in now.keys() {
            if !s.contains_key(k) {
                self.remove(k);
            }
        }
    }
    pub fn restore(&self, s: &Snapshot) {
        let now = self.snapshot();
        for k in now.keys() {
            if !s.contains_key(k) {
                self.remove(k);
            }
        }
        for (k, (m, b)) in s {
            if now.get(k) != Some(&(*m, b.clone())) {
                self.put(k, b, *m);
            }
        }
    }
}

fn clear_dir(d: &Path) {
    for e in fs::read_dir(d).expect("HARNESS: read_dir").flatten() {
        let p = e.path();
        if e.file_type().map(|t| t.is_dir()).unwrap_or(false) {
            clear_dir(&p);
            let _ = fs::remove_dir(&p);
        } else {
            let _ = fs::remove_file(&p);
        }
    }
}

fn snap(d: &Path, prefix: &str, s: &mut Snapshot) {
    for e in fs::read_dir(d).expect("HARNESS: read_dir").flatten() {
        let name = format!("{prefix}{}", e.file_name().to_string_lossy());
        let t = e.file_type().expect("HARNESS: file_type");
        if t.is_dir() {
            snap(&e.path(), &format!("{name}/"), s);
        } else if t.is_file() {
            let m = e.metadata().expect("HARNESS: metadata").permissions().mode() & 0o7777;
            s.insert(name, (m, fs::read(e.path()).expect("HARNESS: read")));
        }
    }
}
