//! Simulator for the circuit price generator: the real generator binary runs with every
//! file-system call stopped before and after; this driver decides which instance moves, which
//! call fails how, when a process is killed and when power is lost.
#[path = "../../sim/src/common.rs"]
mod common;
use common::{derive, fnv, jstr, Rng};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::os::fd::AsRawFd;
use std::os::unix::fs::MetadataExt;
use std::os::unix::process::CommandExt;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::time::Instant;

const TARGET: &str = "src/circuit_prices.rs";
macro_rules! prices {($($n:ident),* $(,)?) => {
    /// the constants as compiled into the library
    fn library() -> BTreeMap<String, u64> {
        let mut m = BTreeMap::new();
        $( m.insert(stringify!($n).to_string(), zkevm_opcode_defs::circuit_prices::$n as u64); )*
        m
    }
}}
prices!(
    VM_CYCLE_COST_IN_ERGS,
    RAM_PERMUTATION_COST_IN_ERGS,
    CODE_DECOMMITMENT_COST_PER_WORD_IN_ERGS,
    STORAGE_APPLICATION_COST_IN_ERGS,
    CODE_DECOMMITTER_SORTER_COST_IN_ERGS,
    LOG_DEMUXER_COST_IN_ERGS,
    STORAGE_SORTER_COST_IN_ERGS,
    EVENTS_OR_L1_MESSAGES_SORTER_COST_IN_ERGS,
    INITIAL_WRITES_PUBDATA_HASHER_COST_IN_ERGS,
    REPEATED_WRITES_PUBDATA_HASHER_COST_IN_ERGS,
    CODE_DECOMMITMENT_SORTER_COST_IN_ERGS,
    L1_MESSAGE_MIN_COST_IN_ERGS,
    INITIAL_WRITES_PUBDATA_HASHER_MIN_COST_IN_ERGS,
    REPEATED_WRITES_PUBDATA_HASHER_MIN_COST_IN_ERGS,
    STORAGE_WRITE_HASHER_MIN_COST_IN_ERGS,
    KECCAK256_CIRCUIT_COST_IN_ERGS,
    SHA256_CIRCUIT_COST_IN_ERGS,
    ECRECOVER_CIRCUIT_COST_IN_ERGS,
);
/// constants a price file declares; None if it is not a well-formed price file
fn parse(text: &[u8]) -> Option<BTreeMap<String, u64>> {
    let t = std::str::from_utf8(text).ok()?;
    if !t.ends_with('\n') {
        return None;
    }
    let mut m = BTreeMap::new();
    for l in t.lines() {
        let l = l.trim();
        if l.is_empty() || l.starts_with("//") {
            continue;
        }
        let l = l.strip_prefix("pub const ")?.strip_suffix(';')?;
        let (n, v) = l.split_once('=')?;
        let (n, ty) = n.split_once(':')?;
        if ty.trim() != "u32" {
            return None;
        }
        let v: u64 = v.trim().replace('_', "").parse().ok()?;
        if m.insert(n.trim().to_string(), v).is_some() {
            return None;
        }
    }
    Some(m)
}

// ------------------------------------------------------------------ plans
#[derive(Clone, Debug, PartialEq)]
struct Fault {
    op: u32,
    nth: u32,
    kind: u32,
    x: u64,
    sticky: u32,
}
#[derive(Clone, Debug, PartialEq)]
struct Proc {
    pid: u32,
    rnd: u64,
    faults: Vec<Fault>,
}
#[derive(Clone, Debug, PartialEq)]
struct Ep {
    power_at: u64, // 0: never, n: at the n-th event
    tear: u64,
    sched: u64,
    p_switch: u64,
    picks: Option<Vec<u32>>,
    procs: Vec<Proc>,
}
#[derive(Clone, Debug, PartialEq)]
struct Plan {
    property: String,
    seed: u64,
    run: u64,
    init: u64,
    init_seed: u64,
    eps: Vec<Ep>,
}
const OPS: [&str; 11] =
    ["any", "open", "write", "read", "fsync", "rename", "unlink", "truncate", "link", "close", "other"];
const KINDS: [&str; 15] = [
    "eintr", "short", "enospc", "eio", "eacces", "emfile", "zero_write", "kill_before", "kill_after",
    "kill_mid_write", "erofs", "edquot", "exdev", "ebusy", "file_appears",
];
const INITS: [&str; 9] =
    ["old", "missing", "empty", "current", "longer", "truncated", "garbage", "no_src_directory", "near"];
impl Plan {
    fn size(&self) -> usize {
        (self.init != 0) as usize
            + self
                .eps
                .iter()
                .map(|e| {
                    3 + (e.power_at != 0) as usize * 2
                        + e.picks.as_ref().map(|p| p.len()).unwrap_or(0)
                        + e.procs.iter().map(|p| 2 + 2 * p.faults.len()).sum::<usize>()
                })
                .sum::<usize>()
    }
    fn to_text(&self, note: &str) -> String {
        let mut o = String::from("simfs-plan 1\n");
        for l in note.lines() {
            o += &format!("# {}\n", l);
        }
        o += &format!("property {}\nseed {}\nrun {}\ninit {} {}\n", self.property, self.seed, self.run, INITS[self.init as usize], self.init_seed);
        for e in &self.eps {
            o += &format!("episode power_at={} tear={} sched={} p_switch={}\n", e.power_at, e.tear, e.sched, e.p_switch);
            if let Some(p) = &e.picks {
                o += "picks";
                for x in p {
                    o += &format!(" {}", x);
                }
                o += "\n";
            }
            for p in &e.procs {
                o += &format!("process pid={} rnd={}\n", p.pid, p.rnd);
                for f in &p.faults {
                    o += &format!("fault {} of {} number {} x={} sticky={}\n", KINDS[f.kind as usize], OPS[f.op as usize], f.nth, f.x, f.sticky);
                }
            }
        }
        o
    }
    fn from_text(t: &str) -> Option<Plan> {
        let mut p = Plan { property: String::new(), seed: 0, run: 0, init: 0, init_seed: 0, eps: vec![] };
        let mut lines = t.lines();
        if lines.next()? != "simfs-plan 1" {
            return None;
        }
        let kv = |s: &str| s.split_once('=').and_then(|x| x.1.parse::<u64>().ok());
        for l in lines {
            if l.starts_with('#') || l.trim().is_empty() {
                continue;
            }
            let w: Vec<&str> = l.split_whitespace().collect();
            match w[0] {
                "property" => p.property = w.get(1)?.to_string(),
                "seed" => p.seed = w.get(1)?.parse().ok()?,
                "run" => p.run = w.get(1)?.parse().ok()?,
                "init" => {
                    p.init = INITS.iter().position(|x| Some(x) == w.get(1))? as u64;
                    p.init_seed = w.get(2)?.parse().ok()?;
                }
                "episode" => p.eps.push(Ep {
                    power_at: kv(w.get(1)?)?,
                    tear: kv(w.get(2)?)?,
                    sched: kv(w.get(3)?)?,
                    p_switch: kv(w.get(4)?)?,
                    picks: None,
                    procs: vec![],
                }),
                "picks" => {
                    let v: Option<Vec<u32>> = w[1..].iter().map(|x| x.parse().ok()).collect();
                    p.eps.last_mut()?.picks = Some(v?);
                }
                "process" => p.eps.last_mut()?.procs.push(Proc { pid: kv(w.get(1)?)? as u32, rnd: kv(w.get(2)?)?, faults: vec![] }),
                "fault" => p.eps.last_mut()?.procs.last_mut()?.faults.push(Fault {
                    kind: KINDS.iter().position(|x| Some(x) == w.get(1))? as u32,
                    op: OPS.iter().position(|x| Some(x) == w.get(3))? as u32,
                    nth: w.get(5)?.parse().ok()?,
                    x: kv(w.get(6)?)?,
                    sticky: kv(w.get(7)?)? as u32,
                }),
                _ => return None,
            }
        }
        Some(p)
    }
}
fn gen_fault(r: &mut Rng, prop: &str) -> Fault {
    let kill = match prop {
        "C08" => 5,
        _ => 40,
    };
    let kind = if r.chance(kill, 100) { *r.pick(&[7u32, 8, 9, 9]) } else { *r.pick(&[0u32, 0, 1, 1, 1, 2, 2, 3, 3, 4, 5, 6, 10, 11, 12, 13, 14, 14]) };
    let op = match kind {
        0 => *r.pick(&[0u32, 1, 2, 2, 4]),
        1 | 6 | 9 => 2,
        2 | 11 => *r.pick(&[0u32, 1, 2, 2, 4, 5]),
        3 => *r.pick(&[0u32, 2, 2, 3, 4, 5]),
        4 | 10 => *r.pick(&[1u32, 1, 5]),
        5 => 1,
        12 => 5,
        14 => *r.pick(&[1u32, 1, 1, 5, 8]),
        13 => *r.pick(&[1u32, 5, 5, 6]),
        _ => *r.pick(&[0u32, 0, 0, 1, 2, 4, 5, 6, 9]),
    };
    let nth = if r.chance(3, 4) { r.below(3) } else { r.below(12) } as u32;
    let sticky = if [2, 3, 4, 5, 6, 10, 11, 12, 13].contains(&kind) { r.below(2) as u32 } else if (kind <= 1 || kind == 14) && r.chance(1, 3) { 1 + r.below(30) as u32 } else { 0 };
    Fault { op, nth, kind, x: r.next(), sticky }
}
fn gen_plan(prop: &str, seed: u64, run: u64) -> Plan {
    let mut h = 0;
    for b in prop.bytes() {
        h = fnv(h, b as u64);
    }
    let mut r = Rng::new(derive(seed, h, run));
    let init = match r.below(15) {
        12..=14 => 8,
        0..=3 => 0,
        4 => 1,
        5 => 2,
        6 => 3,
        7 | 8 => 4,
        9 => 5,
        10 => 6,
        _ => {
            if prop == "C08" {
                7
            } else {
                0
            }
        }
    };
    let n = match prop {
        "C08" => r.range(1, 2),
        "C09" => *r.pick(&[1u64, 1, 1, 2, 3]),
        _ => r.below(4),
    };
    let pids = [1000 + r.below(60000) as u32, 1000 + r.below(60000) as u32, 7];
    let mut eps = vec![];
    for _ in 0..n {
        let procs_n = if prop == "C08" { 1 } else { *r.pick(&[1usize, 1, 1, 2, 2, 3]) };
        let base = r.below(3) as usize;
        let mut procs = vec![];
        for i in 0..procs_n {
            let nf = *r.pick(&[0u64, 1, 1, 1, 2, 3, 5]);
            let faults = (0..nf).map(|_| gen_fault(&mut r, prop)).collect();
            procs.push(Proc { pid: pids[(base + i) % 3], rnd: r.next(), faults });
        }
        let span = if r.chance(1, 2) { 14 } else { 40 };
        let power_at = if prop != "C08" && r.chance(40, 100) { 1 + r.below(span) } else { 0 };
        eps.push(Ep {
            power_at,
            tear: r.next(),
            sched: r.next(),
            p_switch: *r.pick(&[0u64, 32, 128, 255]),
            picks: None,
            procs,
        });
    }
    Plan { property: prop.into(), seed, run, init, init_seed: r.next(), eps }
}

// ------------------------------------------------------------------ one simulated machine
struct Env {
    gen: PathBuf,
    shim: PathBuf,
    root: PathBuf,
    new: Vec<u8>,
}
#[repr(C)]
#[derive(Clone, Copy)]
struct Req {
    stage: u32,
    op: u32,
    flags: u32,
    err: u32,
    len: i64,
    res: i64,
    ino: u64,
    a: [u8; 200],
    b: [u8; 200],
}
#[repr(C)]
#[derive(Clone, Copy, Default)]
struct Rsp {
    act: u32,
    err: u32,
    n: i64,
}
struct Obj {
    versions: Vec<Vec<u8>>,
    synced: usize,
    /// a write-back of this file failed: what it held then is gone from the disk's point of view,
    /// and stays so until it is all written again (a later fsync only covers later writes)
    lost: bool,
    rewritten: u64,
    _keep: Option<std::fs::File>,
}
#[derive(Default)]
struct Machine {
    objs: HashMap<u64, Obj>,
    dirs: Vec<BTreeMap<String, u64>>,
    dir_synced: usize,
    early: HashSet<u64>,
    dir_inos: HashSet<u64>,
}
fn list(root: &Path, rel: &str, out: &mut BTreeMap<String, u64>, dirs: &mut HashSet<u64>) {
    let d = root.join(rel);
    if let Ok(m) = std::fs::metadata(&d) {
        dirs.insert(m.ino());
    }
    let Ok(rd) = std::fs::read_dir(&d) else { return };
    for e in rd.flatten() {
        let n = e.file_name().to_string_lossy().to_string();
        let p = if rel.is_empty() { n } else { format!("{}/{}", rel, n) };
        let Ok(m) = e.metadata() else { continue };
        if m.is_dir() {
            list(root, &p, out, dirs);
        } else {
            out.insert(p, m.ino());
        }
    }
}
impl Machine {
    /// a freshly booted machine: everything on disk is durable
    fn boot(root: &Path) -> Machine {
        let mut m = Machine::default();
        m.observe(root);
        m.dirs = vec![m.dirs.last().unwrap().clone()];
        for o in m.objs.values_mut() {
            o.versions = vec![o.versions.last().unwrap().clone()];
            o.synced = 0;
            o.lost = false;
        }
        m
    }
    fn observe(&mut self, root: &Path) {
        let mut d = BTreeMap::new();
        list(root, "", &mut d, &mut self.dir_inos);
        for (p, ino) in &d {
            let c = std::fs::read(root.join(p)).unwrap_or_default();
            match self.objs.get_mut(ino) {
                Some(o) => {
                    if *o.versions.last().unwrap() != c {
                        o.versions.push(c);
                    }
                }
                None => {
                    // holding it open keeps the inode number from being reused
                    let keep = std::fs::File::open(root.join(p)).ok();
                    let versions = if self.early.contains(ino) || c.is_empty() { vec![c] } else { vec![vec![], c] };
                    self.objs.insert(*ino, Obj { versions, synced: 0, lost: false, rewritten: 0, _keep: keep });
                }
            }
        }
        if self.dirs.last() != Some(&d) {
            self.dirs.push(d);
        }
    }
    fn fsynced(&mut self, ino: u64) {
        if self.dir_inos.contains(&ino) {
            self.dir_synced = self.dirs.len() - 1;
        } else if let Some(o) = self.objs.get_mut(&ino) {
            if !o.lost || o.rewritten >= o.versions.last().unwrap().len() as u64 {
                o.lost = false;
                o.synced = o.versions.len() - 1;
            }
        } else {
            self.early.insert(ino);
        }
    }
    fn wrote(&mut self, ino: u64, n: u64) {
        if let Some(o) = self.objs.get_mut(&ino) {
            o.rewritten += n;
        }
    }
    fn write_back_failed(&mut self, ino: u64) {
        if let Some(o) = self.objs.get_mut(&ino) {
            if o.synced + 1 < o.versions.len() {
                o.lost = true;
                o.rewritten = 0;
            }
        }
    }
    fn lost(&self, path: &str) -> bool {
        self.dirs.last().and_then(|d| d.get(path)).and_then(|i| self.objs.get(i)).map_or(false, |o| o.lost)
    }
    /// what the disk may hold after power is lost now
    fn power_cut(&self, seed: u64, st: &mut Stats) -> BTreeMap<String, Vec<u8>> {
        let mut r = Rng::new(seed);
        let last = self.dirs.len() - 1;
        let k = if r.chance(1, 2) { last } else { r.range(self.dir_synced as u64, last as u64) as usize };
        if k < last {
            st.add("power.directory_update_lost");
        }
        let mut out = BTreeMap::new();
        for (p, ino) in &self.dirs[k] {
            let o = &self.objs[ino];
            let hi = o.versions.len() - 1;
            let c = if o.synced == hi {
                o.versions[hi].clone()
            } else {
                match r.below(10) {
                    0..=2 => o.versions[hi].clone(),
                    3..=5 => {
                        st.add("power.unsynced_data_lost");
                        o.versions[o.synced].clone()
                    }
                    6 => o.versions[r.range(o.synced as u64, hi as u64) as usize].clone(),
                    7 | 8 => {
                        st.add("power.torn_data");
                        let v = &o.versions[hi];
                        v[..r.below(v.len() as u64 + 1) as usize].to_vec()
                    }
                    _ => {
                        st.add("power.unwritten_blocks");
                        vec![0; o.versions[hi].len()]
                    }
                }
            };
            out.insert(p.clone(), c);
        }
        out
    }
}
#[derive(Default, Clone)]
struct Stats {
    n: BTreeMap<String, u64>,
}
impl Stats {
    fn add(&mut self, k: &str) {
        *self.n.entry(k.to_string()).or_insert(0) += 1;
    }
}
struct Live {
    child: Child,
    rq: i32,
    rs: i32,
    pending: Option<Req>,
    calls: u64,
    seen: [u32; 16],
    fired: Vec<u32>,
    kill_after: bool,
    exit: Option<i32>, // exit status, 256+signal, or -1: killed by the simulator
}
impl Drop for Live {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
        unsafe {
            libc::close(self.rq);
            libc::close(self.rs);
        }
    }
}
enum Stop {
    Msg,
    Exit,
    Hang,
}
fn spawn(env: &Env, p: &Proc) -> Live {
    let (mut a, mut b) = ([0i32; 2], [0i32; 2]);
    unsafe {
        assert!(libc::pipe2(a.as_mut_ptr(), libc::O_CLOEXEC) == 0 && libc::pipe2(b.as_mut_ptr(), libc::O_CLOEXEC) == 0);
    }
    let (w, r) = (a[1], b[0]);
    let mut c = Command::new(&env.gen);
    c.current_dir(&env.root)
        .env_clear()
        .env("LD_PRELOAD", &env.shim)
        .env("SIMFS", format!("200,201,{},{},{}/", p.pid, p.rnd, env.root.display()))
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(Stdio::null());
    unsafe {
        c.pre_exec(move || {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            let lim = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &lim);
            if libc::dup2(w, 200) < 0 || libc::dup2(r, 201) < 0 {
                return Err(std::io::Error::last_os_error());
            }
            Ok(())
        });
    }
    let child = c.spawn().unwrap_or_else(|e| fail(&format!("cannot run the generator: {}", e)));
    unsafe {
        libc::close(w);
        libc::close(r);
    }
    Live { child, rq: a[0], rs: b[1], pending: None, calls: 0, seen: [0; 16], fired: vec![0; p.faults.len()], kill_after: false, exit: None }
}
impl Live {
    /// until the next stop
    fn wait(&mut self) -> Stop {
        let mut q = unsafe { std::mem::zeroed::<Req>() };
        let n = std::mem::size_of::<Req>();
        let mut got = 0;
        while got < n {
            let mut pf = libc::pollfd { fd: self.rq, events: libc::POLLIN, revents: 0 };
            let r = unsafe { libc::poll(&mut pf, 1, 60_000) };
            if r == 0 {
                return Stop::Hang;
            }
            if r < 0 {
                continue;
            }
            let p = &mut q as *mut Req as *mut u8;
            let k = unsafe { libc::read(self.rq, p.add(got) as *mut _, n - got) };
            if k == 0 {
                use std::os::unix::process::ExitStatusExt;
                let s = self.child.wait().unwrap_or_else(|_| fail("wait"));
                self.exit = Some(s.code().unwrap_or_else(|| 256 + s.signal().unwrap_or(0)));
                self.pending = None;
                return Stop::Exit;
            }
            if k > 0 {
                got += k as usize;
            }
        }
        self.pending = Some(q);
        Stop::Msg
    }
    fn answer(&mut self, r: Rsp) {
        let b = unsafe { std::slice::from_raw_parts(&r as *const Rsp as *const u8, std::mem::size_of::<Rsp>()) };
        unsafe { libc::write(self.rs, b.as_ptr() as *const _, b.len()) };
    }
    fn kill(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
        self.exit = Some(-1);
        self.pending = None;
    }
}
fn cstr(b: &[u8], root: &str) -> String {
    let n = b.iter().position(|x| *x == 0).unwrap_or(b.len());
    String::from_utf8_lossy(&b[..n]).replace(root, "/")
}
/// how a fault of this kind answers this call; None: it does not apply
fn apply(f: &Fault, q: &Req) -> Option<Rsp> {
    let fail = |e: i32| Some(Rsp { act: 1, err: e as u32, n: 0 });
    let creates = q.op == 1 && q.flags as i32 & libc::O_CREAT != 0;
    let writes = q.op == 1 && q.flags as i32 & libc::O_ACCMODE != libc::O_RDONLY;
    match f.kind {
        0 if matches!(q.op, 1..=4) => fail(libc::EINTR),
        1 if matches!(q.op, 2 | 3) && q.len > 1 => Some(Rsp { act: 2, err: 0, n: 1 + (f.x % (q.len as u64 - 1)) as i64 }),
        2 if q.op == 2 || q.op == 4 || q.op == 5 || q.op == 8 || creates => fail(libc::ENOSPC),
        3 if q.op != 9 && q.op != 10 => fail(libc::EIO),
        4 if writes || matches!(q.op, 5 | 6 | 8) => fail(libc::EACCES),
        5 if q.op == 1 => fail(libc::EMFILE),
        6 if q.op == 2 && q.len > 0 => Some(Rsp { act: 3, err: 0, n: 0 }),
        10 if writes || matches!(q.op, 5 | 6 | 8) => fail(libc::EROFS),
        11 if q.op == 2 || creates => fail(libc::EDQUOT),
        12 if matches!(q.op, 5 | 8) => fail(libc::EXDEV),
        13 if matches!(q.op, 5 | 6) || writes => fail(libc::EBUSY),
        _ => None,
    }
}
struct RunRes {
    bad: Option<String>,
    st: Stats,
    hash: u64,
    nontrivial: bool,
    events: u64,
    procs: u64,
    log: Vec<String>,
    picks: Vec<Vec<u32>>,
}
fn class(t: &str) -> &str {
    t.split(':').next().unwrap_or("")
}
fn wipe(root: &Path) {
    let _ = std::fs::remove_dir_all(root);
    std::fs::create_dir_all(root).unwrap_or_else(|e| fail(&format!("{}: {}", root.display(), e)));
}
fn old_text(new: &[u8], seed: u64) -> Vec<u8> {
    let mut r = Rng::new(seed);
    let mut v = new.to_vec();
    for b in v.iter_mut() {
        if b.is_ascii_digit() && r.chance(1, 3) {
            *b = b'0' + r.below(10) as u8;
        }
    }
    if r.chance(1, 2) {
        v.extend_from_slice(b"pub const OLD_PRICE: u32 = 1;\n");
    }
    v
}
/// the new text with one small difference
fn near_text(new: &[u8], r: &mut Rng) -> Vec<u8> {
    let mut v = new.to_vec();
    let at = r.below(v.len() as u64) as usize;
    let lines: Vec<&[u8]> = new.split_inclusive(|b| *b == b'\n').collect();
    let l = r.below(lines.len() as u64) as usize;
    match r.below(10) {
        0 => v[at] ^= 1 << r.below(8),
        1 | 2 => {
            let d: Vec<usize> = (0..v.len()).filter(|i| v[*i].is_ascii_digit()).collect();
            if !d.is_empty() {
                let i = *r.pick(&d);
                v[i] = b'0' + (v[i] - b'0' + 1 + r.below(9) as u8) % 10;
            }
        }
        3 => {
            v.remove(at);
        }
        4 => v.insert(at, *r.pick(b" \n0a/\t")),
        5 => v = lines.iter().enumerate().filter(|(i, _)| *i != l).flat_map(|(_, x)| x.to_vec()).collect(),
        6 => v = lines.iter().enumerate().flat_map(|(i, x)| x.repeat(1 + (i == l) as usize)).collect(),
        7 => {
            v.pop();
        }
        8 => v = new.iter().flat_map(|b| if *b == b'\n' { vec![b'\r', b'\n'] } else { vec![*b] }).collect(),
        _ => {
            let k = r.below(lines.len() as u64) as usize;
            let mut o = lines.clone();
            o.swap(l, k);
            v = o.concat();
        }
    }
    v
}
/// sizes around the powers of two up to half a megabyte
fn size(r: &mut Rng) -> u64 {
    let b = 1u64 << r.range(10, 19);
    match r.below(3) {
        0 => b,
        1 => b + 1,
        _ => b + r.below(b),
    }
}
fn initial(kind: u64, seed: u64, new: &[u8]) -> Option<Vec<u8>> {
    let mut r = Rng::new(seed);
    match kind {
        0 => Some(old_text(new, seed)),
        1 | 7 => None,
        2 => Some(vec![]),
        3 => Some(new.to_vec()),
        4 => {
            let mut v = if r.chance(1, 2) { new.to_vec() } else { old_text(new, seed) };
            let n = if r.chance(1, 5) { size(&mut r) } else { r.range(1, 20000) };
            let mut x = r.next();
            for _ in 0..n {
                x = x.wrapping_mul(0x5851_F42D_4C95_7F2D).wrapping_add(1);
                v.push(b' ' + (x >> 32) as u8 % 90);
            }
            Some(v)
        }
        5 => Some(new[..r.below(new.len() as u64) as usize].to_vec()),
        8 => Some(near_text(new, &mut r)),
        _ => Some((0..if r.chance(1, 5) { size(&mut r) } else { r.below(9000) }).map(|_| r.next() as u8).collect()),
    }
}
const DECOYS: [&str; 7] = [
    "Cargo.toml",
    "circuit_prices.rs",
    "src/lib.rs",
    "src/system_params.rs",
    "src/circuit_prices.rs.bak",
    "src/circuit_prices.rs.tmp",
    "src/circuit_prices.tmp",
];
fn decoy(i: usize) -> Vec<u8> {
    format!("// decoy {} {}\n", i, DECOYS[i]).into_bytes()
}
fn appeared(rel: &str) -> Vec<u8> {
    format!("// somebody else's {}\n", rel).into_bytes()
}
fn target(env: &Env) -> Option<Vec<u8>> {
    std::fs::read(env.root.join(TARGET)).ok()
}
fn show(c: &Option<Vec<u8>>, old: &Option<Vec<u8>>, new: &[u8]) -> String {
    match c {
        None => "missing".into(),
        Some(v) if v == new => "the complete new text".into(),
        x if x == old => "the old text".into(),
        Some(v) if v.is_empty() => "empty".into(),
        Some(v) if new.starts_with(v) => format!("cut after {} of {} bytes", v.len(), new.len()),
        Some(v) if v.starts_with(new) => format!("the new text followed by {} other bytes", v.len() - new.len()),
        Some(v) => format!("{} bytes that are neither old nor new", v.len()),
    }
}
const MAX_CALLS: u64 = 3000;

struct Sim<'a> {
    env: &'a Env,
    res: RunRes,
    base: Option<Vec<u8>>,
    keep_log: bool,
    appeared: HashSet<String>,
}
impl Sim<'_> {
    fn bad(&mut self, t: String) {
        if self.res.bad.is_none() {
            self.res.bad = Some(t);
        }
    }
    fn note(&mut self, t: String) {
        for b in t.bytes() {
            self.res.hash = fnv(self.res.hash, b as u64);
        }
        if self.keep_log {
            self.res.log.push(t);
        }
    }
    fn whole(&mut self, when: &str) {
        let c = target(self.env);
        if c != self.base && c.as_deref() != Some(&self.env.new[..]) {
            self.bad(format!("torn: the price file is {} {}", show(&c, &self.base, &self.env.new), when));
        }
    }
    fn power_cut(&mut self, m: &Machine, e: &Ep, prop: &str, ev: u64) {
        let env = self.env;
        self.res.st.add("power.cut");
        self.res.nontrivial = true;
        let files = m.power_cut(e.tear, &mut self.res.st);
        wipe(&env.root);
        if prop_has_src(&files, m) {
            let _ = std::fs::create_dir_all(env.root.join("src"));
        }
        for (p, c) in &files {
            let f = env.root.join(p);
            if let Some(d) = f.parent() {
                let _ = std::fs::create_dir_all(d);
            }
            let _ = std::fs::write(f, c);
        }
        self.note(format!("power cut at event {}: {}", ev, show(&target(env), &self.base, &env.new)));
        if prop == "C09" {
            self.whole(&format!("after a power cut at event {}", ev));
        }
    }
    /// runs one episode; returns the exit statuses
    fn episode(&mut self, e: &Ep, prop: &str, limit: u64) -> Vec<i32> {
        let env = self.env;
        let rootn = format!("{}/", env.root.display());
        let mut m = Machine::boot(&env.root);
        let mut rng = Rng::new(e.sched);
        let mut picks = vec![];
        let mut ps: Vec<Live> = vec![];
        for p in &e.procs {
            let mut l = spawn(env, p);
            if let Stop::Hang = l.wait() {
                self.bad("hang: the generator did nothing for 60 s".into());
            }
            self.res.procs += 1;
            ps.push(l);
        }
        let mut cur = 0usize;
        let mut ev = 0u64;
        while self.res.bad.is_none() {
            let alive: Vec<usize> = (0..ps.len()).filter(|i| ps[*i].exit.is_none()).collect();
            if alive.is_empty() {
                break;
            }
            ev += 1;
            self.res.events += 1;
            if e.power_at != 0 && ev >= e.power_at {
                for i in alive {
                    ps[i].kill();
                }
                drop(ps);
                self.power_cut(&m, e, prop, ev);
                self.res.picks.push(picks);
                return vec![];
            }
            // who moves
            let can_stay = alive.contains(&cur);
            let pick = match &e.picks {
                Some(v) => v.get(ev as usize - 1).copied().unwrap_or_else(|| alive.iter().position(|x| *x == cur).unwrap_or(0) as u32),
                None => {
                    if alive.len() > 1 && (!can_stay || rng.below(256) < e.p_switch) {
                        rng.below(alive.len() as u64) as u32
                    } else {
                        alive.iter().position(|x| *x == cur).unwrap_or(0) as u32
                    }
                }
            };
            let mut i = alive[pick as usize % alive.len()];
            let waits = |k: &usize| matches!(&ps[*k].pending, Some(q) if q.op == 10 && q.stage == 1 && q.flags == 1);
            if waits(&i) {
                // it waits for a lock: whoever can move moves
                let can: Vec<usize> = alive.iter().copied().filter(|k| !waits(k)).collect();
                if !can.is_empty() {
                    i = can[ev as usize % can.len()];
                }
            }
            picks.push(pick);
            if i != cur && can_stay {
                self.res.st.add("schedule.switched_between_instances");
                self.res.nontrivial = true;
            }
            cur = i;
            let q = ps[i].pending.unwrap();
            let (a, b) = (cstr(&q.a, &rootn), cstr(&q.b, &rootn));
            let opn = OPS[q.op as usize % OPS.len()];
            let mut rsp = Rsp::default();
            if q.stage == 0 {
                ps[i].calls += 1;
                if ps[i].calls > limit {
                    self.bad(format!("no-progress: a generator instance made {} file-system calls without finishing (last: {} {})", limit, opn, a));
                    break;
                }
                let mut kill_before = false;
                let mut mid = false;
                let (s_any, s_op) = (ps[i].seen[0], ps[i].seen[q.op as usize % 16]);
                ps[i].seen[0] += 1;
                ps[i].seen[q.op as usize % 16] += 1;
                let pr = &e.procs[i];
                for (k, f) in pr.faults.iter().enumerate() {
                    if f.op != 0 && f.op != q.op {
                        continue;
                    }
                    let n = if f.op == 0 { s_any } else { s_op };
                    let left = match f.kind {
                        0 | 1 | 14 => n >= f.nth && ps[i].fired[k] <= f.sticky,
                        7..=9 => n == f.nth,
                        _ => n == f.nth || f.sticky > 0 && n >= f.nth,
                    };
                    if !left {
                        continue;
                    }
                    match f.kind {
                        7 => kill_before = true,
                        8 => ps[i].kill_after = true,
                        9 => {
                            if q.op == 2 && q.len > 1 {
                                mid = true;
                                rsp = Rsp { act: 2, err: 0, n: (f.x % q.len as u64) as i64 };
                                ps[i].kill_after = true;
                            } else {
                                continue;
                            }
                        }
                        14 => {
                            // somebody else's file with exactly the name the generator is about to use
                            let path = if q.op == 1 { &a } else { &b };
                            let rel = path.trim_start_matches('/').to_string();
                            let f = env.root.join(&rel);
                            let creates = q.op == 1 && q.flags as i32 & libc::O_CREAT != 0 || matches!(q.op, 5 | 8);
                            if !creates || rel == TARGET || f.exists() || std::fs::write(&f, appeared(&rel)).is_err() {
                                continue;
                            }
                            self.appeared.insert(rel);
                        }
                        _ => match apply(f, &q) {
                            Some(r) if rsp.act == 0 => rsp = r,
                            _ => continue,
                        },
                    }
                    ps[i].fired[k] += 1;
                    self.res.st.add(&format!("{}.{}", opn, KINDS[f.kind as usize]));
                    self.res.nontrivial = true;
                }
                let _ = mid;
                self.note(format!("p{} {} {} {} len={} -> act={} err={} n={}{}", i, opn, a, b, q.len, rsp.act, rsp.err, rsp.n, if kill_before { " killed" } else { "" }));
                if kill_before {
                    ps[i].kill();
                    continue;
                }
            } else {
                // the call is over: this is an instant a reader could look
                m.observe(&env.root);
                if q.op == 4 && q.res == 0 {
                    m.fsynced(q.ino);
                }
                if q.op == 4 && matches!(q.err as i32, libc::EIO | libc::ENOSPC | libc::EDQUOT) && q.res < 0 {
                    m.write_back_failed(q.ino);
                }
                if q.op == 2 && q.res > 0 {
                    m.wrote(q.ino, q.res as u64);
                }
                if prop == "C09" {
                    self.whole(&format!("after {} {}{}{} (result {}, errno {})", opn, a, if b.is_empty() { "" } else { " -> " }, b, q.res, q.err));
                }
                self.note(format!("p{} {} done {} {}", i, opn, q.res, q.err));
                if ps[i].kill_after {
                    ps[i].kill();
                    self.note(format!("p{} killed", i));
                    continue;
                }
            }
            ps[i].answer(rsp);
            match ps[i].wait() {
                Stop::Msg => {}
                Stop::Hang => self.bad("hang: a generator instance did nothing for 60 s".into()),
                Stop::Exit => {
                    let x = ps[i].exit.unwrap();
                    m.observe(&env.root);
                    self.note(format!("p{} exit {}", i, x));
                    if x == 99 || x == 98 {
                        fail("the shim lost its driver");
                    }
                    if prop == "C08" && x == 0 {
                        let c = target(env);
                        if c.as_deref() != Some(&env.new[..]) {
                            self.bad(format!("false-success: the generator exited successfully but the price file is {}", show(&c, &self.base, &env.new)));
                        } else if m.lost(TARGET) {
                            self.bad("false-success: the generator exited successfully although the system had reported that the price file's data could not be written to the disk".into());
                        }
                    }
                }
            }
        }
        self.res.picks.push(picks);
        if e.power_at != 0 && self.res.bad.is_none() {
            // everybody is done, and then power fails
            drop(ps);
            self.power_cut(&m, e, prop, ev + 1);
            return vec![];
        }
        ps.iter().map(|p| p.exit.unwrap_or(-1)).collect()
    }
}
fn prop_has_src(files: &BTreeMap<String, Vec<u8>>, m: &Machine) -> bool {
    files.keys().any(|k| k.starts_with("src/")) || m.dirs[0].keys().any(|k| k.starts_with("src/")) || m.dir_inos.len() > 1
}
fn run_plan(env: &Env, p: &Plan, keep_log: bool) -> RunRes {
    wipe(&env.root);
    if p.init != 7 {
        std::fs::create_dir_all(env.root.join("src")).unwrap();
    }
    let init = initial(p.init, p.init_seed, &env.new);
    if let Some(c) = &init {
        std::fs::write(env.root.join(TARGET), c).unwrap();
    }
    let decoys = p.property == "C08";
    if decoys {
        for (i, d) in DECOYS.iter().enumerate() {
            if p.init != 7 || !d.starts_with("src/") {
                std::fs::write(env.root.join(d), decoy(i)).unwrap();
            }
        }
    }
    let mut s = Sim {
        env,
        res: RunRes { bad: None, st: Stats::default(), hash: 1, nontrivial: false, events: 0, procs: 0, log: vec![], picks: vec![] },
        base: init,
        keep_log,
        appeared: HashSet::new(),
    };
    for e in &p.eps {
        s.episode(e, &p.property, MAX_CALLS);
        if s.res.bad.is_some() {
            return s.res;
        }
        s.base = target(env);
        if decoys {
            let mut names: Vec<String> = s.appeared.iter().cloned().collect();
            names.sort();
            for n in names {
                if std::fs::read(env.root.join(&n)).ok() != Some(appeared(&n)) {
                    s.bad(format!("clobbered: the generator changed or removed {}, which was there before it wanted that name", n));
                    return s.res;
                }
            }
            for (i, d) in DECOYS.iter().enumerate() {
                if p.init != 7 || !d.starts_with("src/") {
                    let c = std::fs::read(env.root.join(d)).ok();
                    if c != Some(decoy(i)) {
                        s.bad(format!("clobbered: the generator changed or removed {}", d));
                        return s.res;
                    }
                }
            }
        }
    }
    if p.property == "C10" {
        let mut r = Rng::new(p.init_seed ^ 5);
        let mut first: Option<Vec<u8>> = None;
        for k in 0..2 {
            let clean = Ep {
                power_at: 0,
                tear: 0,
                sched: 0,
                p_switch: 0,
                picks: Some(vec![]),
                procs: vec![Proc {
                    pid: p.eps.first().and_then(|e| e.procs.first()).map(|x| x.pid).filter(|_| r.chance(1, 2)).unwrap_or(4242),
                    rnd: r.next(),
                    faults: vec![],
                }],
            };
            let x = s.episode(&clean, &p.property, 300);
            if s.res.bad.is_some() {
                return s.res;
            }
            let c = target(env);
            if x != [0] {
                s.bad(format!("no-convergence: an undisturbed run fails with status {:?}", x));
            } else if c.is_none() || parse(c.as_ref().unwrap()).is_none() {
                s.bad(format!("no-convergence: after an undisturbed run the price file is {}", show(&c, &s.base, &env.new)));
            } else {
                let got = parse(c.as_ref().unwrap()).unwrap();
                let want = library();
                if got != want {
                    let d: Vec<String> = want
                        .keys()
                        .chain(got.keys())
                        .filter(|k| got.get(*k) != want.get(*k))
                        .map(|k| format!("{} generated {:?} compiled {:?}", k, got.get(k), want.get(k)))
                        .collect();
                    s.bad(format!("prices: the regenerated prices differ from the compiled ones: {}", d.join("; ")));
                }
                if k == 1 && c != first {
                    s.bad("no-convergence: running the generator again changed the price file".into());
                }
            }
            first = c;
            if s.res.bad.is_some() {
                return s.res;
            }
        }
    }
    s.res
}

// ------------------------------------------------------------------ minimisation
fn shrink(env: &Env, p: &Plan, text: &str) -> (Plan, String, u64) {
    let cl = class(text).to_string();
    let mut best = p.clone();
    let mut txt = text.to_string();
    let mut tries = 0u64;
    let start = Instant::now();
    let mut attempt = |q: &Plan, best: &mut Plan, txt: &mut String| -> bool {
        if tries >= 1500 || start.elapsed().as_secs() > 90 || q == best {
            return false;
        }
        tries += 1;
        let r = run_plan(env, q, false);
        match r.bad {
            Some(t) if class(&t) == cl => {
                *best = q.clone();
                *txt = t;
                true
            }
            _ => false,
        }
    };
    let r = run_plan(env, p, false);
    let mut q = p.clone();
    for (e, k) in q.eps.iter_mut().zip(r.picks.iter()) {
        e.picks = Some(k.clone());
    }
    attempt(&q, &mut best, &mut txt);
    loop {
        let before = best.clone();
        let mut i = 0;
        while i < best.eps.len() {
            let mut q = best.clone();
            q.eps.remove(i);
            if !attempt(&q, &mut best, &mut txt) {
                i += 1
            }
        }
        for i in 0..best.eps.len() {
            let mut k = 0;
            while k < best.eps[i].procs.len() {
                let mut q = best.clone();
                q.eps[i].procs.remove(k);
                if q.eps[i].procs.is_empty() || !attempt(&q, &mut best, &mut txt) {
                    k += 1
                }
            }
            let mut q = best.clone();
            q.eps[i].picks = Some(vec![]);
            if !attempt(&q, &mut best, &mut txt) {
                loop {
                    let mut q = best.clone();
                    let Some(v) = q.eps[i].picks.as_mut() else { break };
                    let n = v.len();
                    if n == 0 {
                        break;
                    }
                    v.truncate(n * 3 / 4);
                    if !attempt(&q, &mut best, &mut txt) {
                        break;
                    }
                }
            }
            let mut q = best.clone();
            q.eps[i].power_at = 0;
            if !attempt(&q, &mut best, &mut txt) {
                for d in [2, 1] {
                    let mut q = best.clone();
                    if q.eps[i].power_at > d {
                        q.eps[i].power_at -= d;
                        attempt(&q, &mut best, &mut txt);
                    }
                }
            }
            for k in 0..best.eps[i].procs.len() {
                let mut f = 0;
                while f < best.eps[i].procs[k].faults.len() {
                    let mut q = best.clone();
                    q.eps[i].procs[k].faults.remove(f);
                    if !attempt(&q, &mut best, &mut txt) {
                        let mut q = best.clone();
                        q.eps[i].procs[k].faults[f].sticky = 0;
                        attempt(&q, &mut best, &mut txt);
                        let mut q = best.clone();
                        q.eps[i].procs[k].faults[f].nth = 0;
                        attempt(&q, &mut best, &mut txt);
                        let mut q = best.clone();
                        q.eps[i].procs[k].faults[f].x = 0;
                        attempt(&q, &mut best, &mut txt);
                        f += 1
                    }
                }
            }
        }
        let mut q = best.clone();
        q.init = 0;
        attempt(&q, &mut best, &mut txt);
        if best == before {
            break;
        }
    }
    (best, txt, tries)
}

// ------------------------------------------------------------------ driver
fn fail(t: &str) -> ! {
    eprintln!("simfs: {}", t);
    std::process::exit(2)
}
struct Args(Vec<String>);
impl Args {
    fn get(&self, k: &str) -> Option<&str> {
        self.0.iter().position(|x| x == k).and_then(|i| self.0.get(i + 1)).map(|s| s.as_str())
    }
    fn need(&self, k: &str) -> &str {
        self.get(k).unwrap_or_else(|| fail(&format!("{} is missing", k)))
    }
    fn num(&self, k: &str, d: u64) -> u64 {
        self.get(k).map(|x| x.parse().unwrap_or_else(|_| fail(k))).unwrap_or(d)
    }
}
fn env_for(a: &Args, w: u64) -> Env {
    Env {
        gen: PathBuf::from(a.need("--gen")),
        shim: PathBuf::from(a.need("--shim")),
        root: PathBuf::from(format!("{}/w{}/root", a.need("--scratch"), w)),
        new: vec![],
    }
}
/// what an undisturbed generator writes; this is "the complete generated text"
fn reference(env: &mut Env, prop: &str) -> Option<String> {
    let p = Plan { property: "ref".into(), seed: 0, run: 0, init: 1, init_seed: 0, eps: vec![] };
    run_plan(env, &p, false);
    let clean = Ep { power_at: 0, tear: 0, sched: 0, p_switch: 0, picks: Some(vec![]), procs: vec![Proc { pid: 4242, rnd: 1, faults: vec![] }] };
    let mut s = Sim {
        env,
        res: RunRes { bad: None, st: Stats::default(), hash: 1, nontrivial: false, events: 0, procs: 0, log: vec![], picks: vec![] },
        base: None,
        keep_log: false,
        appeared: HashSet::new(),
    };
    let x = s.episode(&clean, "ref", MAX_CALLS);
    let bad = s.res.bad.take();
    let c = target(env);
    if let Some(t) = bad {
        return Some(t);
    }
    let names: Vec<String> = library().keys().cloned().collect();
    let complete = c.as_ref().and_then(|c| parse(c)).map(|m| names.iter().all(|n| m.contains_key(n))).unwrap_or(false);
    env.new = c.clone().unwrap_or_default();
    if x == [0] && !complete && prop == "C08" {
        return Some("false-success: an undisturbed run exited successfully but the price file is missing, malformed or lacks constants".to_string());
    }
    if x != [0] && prop == "C10" {
        return Some(format!("no-convergence: an undisturbed run of the generator fails with status {:?}", x));
    }
    if c.is_none() || env.new.is_empty() || x != [0] {
        // no text to judge by: take the one the library was compiled with
        env.new = std::fs::read("/repo/src/circuit_prices.rs").unwrap_or_default();
    }
    None
}
#[repr(C)]
struct Ctl {
    min_fail: AtomicU64,
}
fn main() {
    let a = Args(std::env::args().skip(1).collect());
    unsafe { libc::signal(libc::SIGPIPE, libc::SIG_IGN) };
    match a.0.first().map(|s| s.as_str()) {
        Some("check") => check(&a),
        Some("replay") => {
            let f = a.0.get(1).unwrap_or_else(|| fail("replay FILE"));
            let t = std::fs::read_to_string(f).unwrap_or_else(|e| fail(&e.to_string()));
            let p = Plan::from_text(&t).unwrap_or_else(|| fail("not a simfs plan"));
            let mut env = env_for(&a, 0);
            let bad0 = reference(&mut env, &p.property);
            let r = run_plan(&env, &p, true);
            for l in &r.log {
                println!("  {}", l);
            }
            println!("history {:016x}", r.hash);
            let bad = bad0.or(r.bad);
            match bad {
                Some(t) => {
                    println!("{}", t);
                    println!("VIOLATION property={} replay={}", p.property, f);
                    std::process::exit(1)
                }
                None => println!("no violation"),
            }
        }
        Some("trace") => {
            let mut env = env_for(&a, a.num("--worker", 0));
            let p = a.need("--property").to_string();
            reference(&mut env, &p);
            for i in a.num("--from", 0)..a.num("--to", 100) {
                let r = run_plan(&env, &gen_plan(&p, a.num("--seed", 1), i), false);
                println!("{} {:016x} events={} bad={:?}", i, r.hash, r.events, r.bad);
            }
        }
        _ => fail("usage: simfs check|replay|trace"),
    }
}
fn check(a: &Args) {
    let prop = a.need("--property").to_string();
    let tier = a.get("--tier").unwrap_or("quick").to_string();
    let (seed, runs, cap) = (a.num("--seed", 1), a.num("--runs", 1000), a.num("--cap", 120));
    let workers = a.num("--workers", 8).clamp(1, 32);
    let start = Instant::now();
    let scratch = a.need("--scratch").to_string();
    let mut env0 = env_for(a, 99);
    println!("simfs: property {} seed {} runs {} workers {}", prop, seed, runs, workers);
    let bad0 = reference(&mut env0, &prop);
    let ctl: &'static Ctl = unsafe {
        let p = libc::mmap(std::ptr::null_mut(), 4096, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0);
        if p == libc::MAP_FAILED {
            fail("mmap");
        }
        &*(p as *const Ctl)
    };
    ctl.min_fail.store(u64::MAX, SeqCst);
    let mut pids = vec![];
    if bad0.is_none() {
        for w in 0..workers {
            let pid = unsafe { libc::fork() };
            if pid < 0 {
                fail("fork");
            }
            if pid == 0 {
                unsafe { libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL) };
                let mut env = env_for(a, w);
                env.new = env0.new.clone();
                let (mut st, mut runs_done, mut events, mut procs) = (Stats::default(), 0u64, 0u64, 0u64);
                let mut hashes = vec![];
                let mut i = w;
                while i < runs && start.elapsed().as_secs() < cap && i < ctl.min_fail.load(SeqCst) {
                    let p = gen_plan(&prop, seed, i);
                    let mut r = run_plan(&env, &p, false);
                    if r.bad.as_deref().map(class) == Some("hang") {
                        r = run_plan(&env, &p, false);
                    }
                    runs_done += 1;
                    events += r.events;
                    procs += r.procs;
                    for (k, n) in &r.st.n {
                        *st.n.entry(k.clone()).or_insert(0) += n;
                    }
                    if r.nontrivial {
                        hashes.push(r.hash);
                    }
                    if let Some(t) = &r.bad {
                        std::fs::write(format!("{}/bad{}", scratch, i), t).ok();
                        ctl.min_fail.fetch_min(i, SeqCst);
                        break;
                    }
                    i += workers;
                }
                let mut o = format!("runs {}\nevents {}\nprocs {}\n", runs_done, events, procs);
                for (k, n) in &st.n {
                    o += &format!("f:{} {}\n", k, n);
                }
                for h in &hashes {
                    o += &format!("h {}\n", h);
                }
                let ok = std::fs::write(format!("{}/result{}", scratch, w), o).is_ok();
                std::process::exit(if ok { 0 } else { 3 });
            }
            pids.push(pid);
        }
    }
    for pid in pids {
        let mut st = 0;
        unsafe { libc::waitpid(pid, &mut st, 0) };
        if !libc::WIFEXITED(st) || libc::WEXITSTATUS(st) != 0 {
            fail(&format!("a worker ended with status {:#x}", st));
        }
    }
    let search_s = start.elapsed().as_secs_f64();
    let (mut tot, mut faults, mut hashes) = (HashMap::<String, u64>::new(), BTreeMap::<String, u64>::new(), HashSet::new());
    for w in 0..workers {
        let t = std::fs::read_to_string(format!("{}/result{}", scratch, w)).unwrap_or_default();
        for l in t.lines() {
            let Some((k, v)) = l.split_once(' ') else { continue };
            let v: u64 = v.parse().unwrap_or(0);
            if k == "h" {
                hashes.insert(v);
            } else if let Some(f) = k.strip_prefix("f:") {
                *faults.entry(f.to_string()).or_insert(0) += v;
            } else {
                *tot.entry(k.to_string()).or_insert(0) += v;
            }
        }
    }
    let g = |k: &str| tot.get(k).copied().unwrap_or(0);
    let failed = ctl.min_fail.load(SeqCst);
    let mut violation: Option<String> = None;
    let path = format!("{}/{}-seed{}-run{}.plan", a.need("--replays"), prop, seed, if bad0.is_some() { 0 } else { failed });
    if let Some(t) = bad0 {
        let p = Plan { property: prop.clone(), seed, run: 0, init: 1, init_seed: 0, eps: vec![] };
        std::fs::write(&path, p.to_text(&format!("violation: {}\nthe undisturbed reference run already shows it", t))).unwrap_or_else(|_| fail("replay file"));
        println!("{}", t);
        violation = Some(path);
    } else if failed != u64::MAX {
        let p = gen_plan(&prop, seed, failed);
        let seen = std::fs::read_to_string(format!("{}/bad{}", scratch, failed)).unwrap_or_default();
        let again = (0..3).find_map(|_| run_plan(&env0, &p, false).bad);
        let steady = again.is_some();
        if !steady && (seen.is_empty() || class(&seen) == "hang") {
            fail(&format!("run {} failed once and not again: {}", failed, seen));
        }
        let t = again.unwrap_or(seen);
        let (best, txt, tries) = if steady { shrink(&env0, &p, &t) } else { (p.clone(), t.clone(), 0) };
        if !steady {
            println!("note: not seen again in three repetitions of the run: it depends on something that is not simulated");
        }
        let log = run_plan(&env0, &best, true).log;
        let note = format!(
            "violation: {}\nfound by: property {} seed {} run {} ({} size units, minimised to {} in {} tries)\nevents:\n{}",
            txt, prop, seed, failed, p.size(), best.size(), tries, log.join("\n")
        );
        std::fs::write(&path, best.to_text(&note)).unwrap_or_else(|_| fail("replay file"));
        let o = Command::new("/proc/self/exe")
            .args(["replay", &path, "--gen", a.need("--gen"), "--shim", a.need("--shim"), "--scratch", &scratch])
            .output();
        if !o.map(|o| String::from_utf8_lossy(&o.stdout).contains(&txt)).unwrap_or(false) {
            std::fs::write(&path, p.to_text(&format!("violation: {}", t))).ok();
        }
        println!("{}", txt);
        println!("found in run {} of seed {}; minimised {} -> {} size units", failed, seed, p.size(), best.size());
        violation = Some(path);
    }
    let mut samples = vec![];
    if violation.is_none() {
        for i in 0..3 {
            let p = gen_plan(&prop, seed, i);
            let r = run_plan(&env0, &p, true);
            let lg: Vec<String> = r.log.iter().take(24).map(|l| jstr(l)).collect();
            samples.push(format!("{{\"run\":{},\"initial_file\":{},\"plan\":{},\"events\":[{}]}}", i, jstr(INITS[p.init as usize]), jstr(&p.to_text("")), lg.join(",")));
        }
    }
    let wall = start.elapsed().as_secs_f64();
    let ph = |x: u64| (x as f64 / search_s.max(1e-9) * 3600.0) as u64;
    let fo: Vec<String> = faults.iter().map(|(k, n)| format!("{}:{}", jstr(k), n)).collect();
    let rule = "A case is one simulated run: an initial price file, 0-4 episodes of 1-3 generator instances with seeded faults, kills, power cuts and interleaving of their file-system calls. Non-trivial: at least one fault, kill, power cut or switch between instances happened. Distinct: different hash of the full event log (every call, its arguments, its result, who made it).";
    let ev = format!(
        "{{\"property\":{},\"tier\":{},\"seed\":{},\"level\":\"exploration\",\"coverage\":{{\"evaluations\":{},\"distinct_nontrivial\":{},\"rule\":{},\"samples\":[{}],\"simulated_runs_per_hour\":{},\"seeds_per_hour\":{},\"simulated_events\":{},\"simulated_time\":{},\"generator_processes\":{},\"faults_injected\":{{{}}},\"workers\":{},\"components\":{{\"real\":[\"the circuit price generator binary built from /repo\",\"zkevm_opcode_defs constants\",\"Rust std file I/O\"],\"stub\":[\"system calls on files (stopped and answered by the driver; passed to a scratch directory when not faulted)\",\"durability (fsync and power loss are modelled)\",\"process id, clock, randomness\"]}}}},\"assumptions\":[\"directory operations reach the disk in order, each file's data independently of them unless fsynced\",\"reads by a concurrent build are atomic with respect to one file-system call\"],\"wall_s\":{:.3},\"violations\":{}}}\n",
        jstr(&prop), jstr(&tier), seed, g("runs"), hashes.len(), jstr(rule), samples.join(","), ph(g("runs")), ph(g("runs")), g("events"),
        jstr(&format!("{} stops at file-system call boundaries; no timers in the generator", g("events"))), g("procs"), fo.join(","), workers, wall, violation.is_some() as u8
    );
    std::fs::write(a.need("--evidence"), ev).unwrap_or_else(|_| fail("evidence"));
    println!("simfs: {} runs, {} processes, {} events, {} distinct histories, {:.1} s", g("runs"), g("procs"), g("events"), hashes.len(), wall);
    if let Some(p) = violation {
        println!("VIOLATION property={} replay={}", prop, p);
        std::process::exit(1);
    }
    let _ = std::io::stdout().as_raw_fd();
}
