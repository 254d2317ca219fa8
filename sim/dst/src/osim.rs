//! Runs real prover processes under a controller that decides every file operation: order, success,
//! errno, short and torn transfers, death before or after it, and what survives a power loss.

use crate::core::*;
use crate::tx::*;
use serde_json::{json, Value as J};
use std::collections::{BTreeMap, BTreeSet};
use std::io::{BufRead, BufReader, Read, Write};
use std::os::unix::io::{AsRawFd, FromRawFd};
use std::os::unix::net::UnixStream;
use std::os::unix::process::CommandExt;
use std::path::{Path, PathBuf};
use std::process::Child;
use std::sync::Mutex;
use std::time::Duration;

extern "C" {
    fn socketpair(domain: i32, ty: i32, proto: i32, sv: *mut i32) -> i32;
    fn fcntl(fd: i32, cmd: i32, arg: i32) -> i32;
    fn poll(fds: *mut [i32; 2], n: u64, ms: i32) -> i32;
}

pub const ENOENT: i32 = 2;
pub const EINTR: i32 = 4;
pub const EIO: i32 = 5;
pub const EACCES: i32 = 13;
pub const EMFILE: i32 = 24;
pub const ENOSPC: i32 = 28;
pub const EROFS: i32 = 30;
const O_CREAT: i64 = 0o100;
const O_TRUNC: i64 = 0o1000;

#[derive(Clone, Debug)]
pub struct Op {
    pub name: String,
    pub fd: i64,
    pub a: i64,
    pub b: i64,
    pub path: String,
    pub path2: String,
    pub data: Vec<u8>,
    /// processor time since the previous operation, in ms
    pub cpu: i64,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Exit {
    Code(i32),
    Signal(i32),
}

pub enum Ev {
    Op(Op),
    Gap,
    Exit(Exit),
    Timeout,
}

/// What happens to an operation.
#[derive(Clone, Debug, PartialEq)]
pub enum Act {
    Go,
    Errno(i32),
    Short(usize),
    /// part of a write happens, then the process dies
    Torn(usize),
    KillBefore,
    KillAfter,
}

#[derive(Clone, Debug, Default)]
struct FdState {
    path: String,
    flags: i64,
    roll: u64,
    wrote: u64,
    synced: bool,
    ino: Option<usize>,
}

pub struct Proc {
    r: BufReader<UnixStream>,
    w: UnixStream,
    child: Option<Child>,
    pub pid: u64,
    pub req: usize,
    pub ops: usize,
    fds: BTreeMap<i64, FdState>,
    digest: Vec<String>,
    pub pending: Option<Op>,
    pub exit: Option<Exit>,
    pub hung: bool,
    late: bool,
    last: String,
    /// state before the long computation, to be remembered if the run ends well
    cand: Option<(u64, String)>,
}

fn pair() -> (UnixStream, i32) {
    let mut sv = [0i32; 2];
    unsafe {
        assert_eq!(socketpair(1, 1 | 0o2000000, 0, sv.as_mut_ptr()), 0);
        (UnixStream::from_raw_fd(sv[0]), sv[1])
    }
}

pub struct Launch<'a> {
    pub bin: PathBuf,
    pub shim: PathBuf,
    pub dir: &'a Path,
    pub pid: u64,
    pub rand: u64,
    pub serve: Option<PathBuf>,
    pub env: Vec<(String, String)>,
}

pub fn prog_name(ri: usize) -> String {
    format!("p{}.bf", ri)
}

/// A working directory in which every request can be made.
pub fn prepare(dir: &Path, reqs: &[Req], binary: &[u8]) {
    std::fs::create_dir_all(dir.join("res")).unwrap();
    std::fs::create_dir_all(dir.join(BINARY).parent().unwrap()).unwrap();
    std::fs::write(dir.join(BINARY), binary).unwrap();
    for (i, r) in reqs.iter().enumerate() {
        std::fs::write(dir.join(prog_name(i)), &r.src).unwrap();
    }
}

pub fn spawn(l: &Launch, ri: usize, r: &Req, timeout: u64) -> Proc {
    let (mine, theirs) = pair();
    let mut c = prover_cmd(&l.bin, l.dir, &prog_name(ri), r);
    c.env("LD_PRELOAD", &l.shim)
        .env("DST_FD", theirs.to_string())
        .env("DST_DIR", l.dir)
        .env("DST_PID", l.pid.to_string())
        .env("DST_RAND", l.rand.to_string());
    if let Some(s) = &l.serve {
        c.env("DST_SERVE", s).env("DST_GAP_MS", "1500");
    }
    for (k, v) in &l.env {
        c.env(k, v);
    }
    unsafe {
        c.pre_exec(move || {
            fcntl(theirs, 2, 0); // F_SETFD: inherit
            Ok(())
        });
    }
    let child = c.spawn().expect("spawn prover");
    unsafe {
        drop(UnixStream::from_raw_fd(theirs));
    }
    mine.set_read_timeout(Some(Duration::from_secs(timeout))).unwrap();
    Proc {
        r: BufReader::new(mine.try_clone().unwrap()),
        w: mine,
        child: Some(child),
        pid: l.pid,
        req: ri,
        ops: 0,
        fds: BTreeMap::new(),
        digest: vec![],
        pending: None,
        exit: None,
        hung: false,
        late: false,
        last: String::new(),
        cand: None,
    }
}

impl Proc {
    fn line(&mut self) -> std::io::Result<Option<String>> {
        let mut s = String::new();
        match self.r.read_line(&mut s) {
            Ok(0) => Ok(None),
            Ok(_) => Ok(Some(s.trim_end().to_string())),
            Err(e) if e.kind() == std::io::ErrorKind::ConnectionReset => Ok(None),
            Err(e) => Err(e),
        }
    }
    fn reap(&mut self) -> Exit {
        use std::os::unix::process::ExitStatusExt;
        match self.child.take() {
            Some(mut c) => match c.wait() {
                Ok(s) => match s.code() {
                    Some(c) => Exit::Code(c),
                    None => Exit::Signal(s.signal().unwrap_or(0)),
                },
                Err(_) => Exit::Signal(-1),
            },
            None => Exit::Signal(-2),
        }
    }
    fn status(l: &str) -> Exit {
        let st: i32 = l[2..].trim().parse().unwrap_or(-1);
        if st & 0x7f == 0 {
            Exit::Code((st >> 8) & 0xff)
        } else {
            Exit::Signal(st & 0x7f)
        }
    }
    /// Has the process something to say within this time?
    fn ready(&self, ms: i32) -> bool {
        if !self.r.buffer().is_empty() {
            return true;
        }
        let mut p = [self.w.as_raw_fd(), 1];
        unsafe { poll(&mut p, 1, ms) > 0 }
    }
    /// Waits for the next thing the process does.
    pub fn next(&mut self) -> Ev {
        let l = match self.line() {
            Err(_) => return Ev::Timeout,
            Ok(None) => return Ev::Exit(self.reap()),
            Ok(Some(l)) => l,
        };
        if l.starts_with("GAP") {
            return Ev::Gap;
        }
        if l.starts_with("X ") {
            return Ev::Exit(Self::status(&l));
        }
        let f: Vec<&str> = l.split(' ').collect();
        if f.len() != 9 || f[0] != "O" {
            return Ev::Timeout;
        }
        let n = |i: usize| f[i].parse::<i64>().unwrap_or(-1);
        let mut p = vec![0u8; n(6).max(0) as usize];
        let mut d = vec![0u8; n(7).max(0) as usize];
        if self.r.read_exact(&mut p).is_err() || self.r.read_exact(&mut d).is_err() {
            return Ev::Timeout;
        }
        let s = String::from_utf8_lossy(&p).to_string();
        let (a, b) = s.split_once('\0').map(|(a, b)| (a.to_string(), b.to_string())).unwrap_or((s.clone(), String::new()));
        Ev::Op(Op { name: f[2].to_string(), fd: n(3), a: n(4), b: n(5), path: a, path2: b, data: d, cpu: n(8) })
    }
    /// Lets the announced operation happen as decided; None if the process died before it.
    pub fn answer(&mut self, act: &Act) -> Option<(i64, i32, u64)> {
        let s = match act {
            Act::Go => "G\n".to_string(),
            Act::Errno(e) => format!("E{}\n", e),
            Act::Short(n) => format!("S{}\n", n),
            Act::Torn(n) => format!("T{}\n", n),
            Act::KillBefore => "K\n".to_string(),
            Act::KillAfter => "D\n".to_string(),
        };
        let _ = self.w.write_all(s.as_bytes());
        if *act == Act::KillBefore {
            return None;
        }
        let l = self.line().ok().flatten()?;
        let f: Vec<&str> = l.split(' ').collect();
        if f.len() != 4 {
            return None;
        }
        let r = (f[1].parse().ok()?, f[2].parse().ok()?, u64::from_str_radix(f[3], 16).ok()?);
        if matches!(act, Act::Torn(_) | Act::KillAfter) {
            let _ = self.w.write_all(b"\n");
        }
        Some(r)
    }
    pub fn kill(&mut self) {
        if let Some(c) = self.child.as_mut() {
            let _ = c.kill();
            let _ = c.wait();
        }
        self.child = None;
        let _ = self.w.shutdown(std::net::Shutdown::Both);
    }
    fn norm(&self, p: &str) -> String {
        p.replace(&self.pid.to_string(), "PID")
    }
    /// Everything the process has learnt from and done to its files so far.
    fn key(&self) -> u64 {
        let mut h = Hash::new();
        for d in &self.digest {
            h.add(d.as_bytes());
        }
        for s in self.fds.values() {
            h.add(self.norm(&s.path).as_bytes()).num(s.flags as u64).num(s.roll).num(s.wrote).num(s.synced as u64);
        }
        h.0
    }
    fn note(&mut self, op: &Op, ret: i64, err: i32, roll: u64) {
        if ret < 0 && err == EINTR {
            return;
        }
        match op.name.as_str() {
            "open" if ret >= 0 => {
                let mut s = FdState { path: op.path.clone(), flags: op.a, ..Default::default() };
                s.roll = 0xcbf2_9ce4_8422_2325;
                s.wrote = 0xcbf2_9ce4_8422_2325;
                self.fds.insert(ret, s);
            }
            "read" if ret >= 0 => {
                if let Some(s) = self.fds.get_mut(&op.fd) {
                    s.roll = roll;
                }
            }
            "write" if ret >= 0 => {
                if let Some(s) = self.fds.get_mut(&op.fd) {
                    for b in &op.data[..(ret as usize).min(op.data.len())] {
                        s.wrote = (s.wrote ^ *b as u64).wrapping_mul(0x0000_0100_0000_01B3);
                    }
                }
            }
            "fsync" if ret >= 0 => {
                if let Some(s) = self.fds.get_mut(&op.fd) {
                    s.synced = true;
                }
            }
            "close" => {
                if let Some(s) = self.fds.remove(&op.fd) {
                    let p = self.norm(&s.path);
                    self.digest.push(format!("file {} {} {:x} {:x} {}", p, s.flags, s.roll, s.wrote, s.synced));
                }
            }
            _ => {
                let (p, q) = (self.norm(&op.path), self.norm(&op.path2));
                if op.name == "rename" && ret >= 0 {
                    // what it saw of a file it has now replaced no longer matters
                    let (a, b, c) = (format!("file {} ", q), format!("open {} ", q), format!("read {} ", q));
                    self.digest.retain(|d| !d.starts_with(&a) && !d.starts_with(&b) && !d.starts_with(&c));
                }
                self.digest.push(format!("{} {} {} {} {} {}", op.name, p, q, op.a, ret.min(0), err));
            }
        }
    }
}

impl Drop for Proc {
    fn drop(&mut self) {
        self.kill();
    }
}

// ---------------------------------------------------------------- durability model

#[derive(Clone, Debug)]
enum Pend {
    Write(usize, Vec<u8>),
    Trunc(usize),
}
#[derive(Clone, Debug, Default)]
struct Inode {
    durable: Vec<u8>,
    pend: Vec<Pend>,
}
#[derive(Clone, Debug)]
enum Meta {
    Link(String, usize),
    Rename(String, String),
    Unlink(String),
}

/// Which effects of the recorded operations are on the medium.
#[derive(Clone, Debug, Default)]
pub struct Disk {
    inodes: Vec<Inode>,
    names: BTreeMap<String, usize>,
    durable: BTreeMap<String, usize>,
    meta: Vec<Meta>,
}

pub fn list(dir: &Path) -> BTreeMap<String, Vec<u8>> {
    fn go(base: &Path, d: &Path, out: &mut BTreeMap<String, Vec<u8>>) {
        if let Ok(rd) = std::fs::read_dir(d) {
            for e in rd.flatten() {
                let p = e.path();
                if p.is_dir() {
                    go(base, &p, out);
                } else if let Ok(b) = std::fs::read(&p) {
                    out.insert(p.strip_prefix(base).unwrap().to_string_lossy().to_string(), b);
                }
            }
        }
    }
    let mut m = BTreeMap::new();
    go(dir, dir, &mut m);
    m
}

impl Disk {
    pub fn new(dir: &Path) -> Disk {
        let mut d = Disk::default();
        for (p, b) in list(dir) {
            d.inodes.push(Inode { durable: b, pend: vec![] });
            d.names.insert(p.clone(), d.inodes.len() - 1);
            d.durable.insert(p, d.inodes.len() - 1);
        }
        d
    }
    fn step(&mut self, p: &mut Proc, op: &Op, ret: i64) {
        if ret < 0 {
            return;
        }
        match op.name.as_str() {
            "open" => {
                let mut ino = self.names.get(&op.path).copied();
                if ino.is_none() && op.a & O_CREAT != 0 {
                    self.inodes.push(Inode::default());
                    ino = Some(self.inodes.len() - 1);
                    self.names.insert(op.path.clone(), ino.unwrap());
                    self.meta.push(Meta::Link(op.path.clone(), ino.unwrap()));
                }
                if let Some(i) = ino {
                    if op.a & O_TRUNC != 0 {
                        self.inodes[i].pend.push(Pend::Trunc(0));
                    }
                }
                if let Some(s) = p.fds.get_mut(&ret) {
                    s.ino = ino;
                }
            }
            "write" => {
                if let Some(i) = p.fds.get(&op.fd).and_then(|s| s.ino) {
                    self.inodes[i].pend.push(Pend::Write(op.b.max(0) as usize, op.data[..(ret as usize).min(op.data.len())].to_vec()));
                }
            }
            "truncate" => {
                if let Some(i) = p.fds.get(&op.fd).and_then(|s| s.ino) {
                    self.inodes[i].pend.push(Pend::Trunc(op.a as usize));
                }
            }
            "truncatepath" => {
                if let Some(i) = self.names.get(&op.path) {
                    self.inodes[*i].pend.push(Pend::Trunc(op.a as usize));
                }
            }
            "fsync" => match p.fds.get(&op.fd).and_then(|s| s.ino) {
                Some(i) => {
                    let n = &mut self.inodes[i];
                    let v = std::mem::take(&mut n.pend);
                    for x in v {
                        apply(&mut n.durable, &x);
                    }
                }
                None => self.commit(usize::MAX),
            },
            "rename" => {
                if let Some(i) = self.names.remove(&op.path) {
                    self.names.insert(op.path2.clone(), i);
                }
                self.meta.push(Meta::Rename(op.path.clone(), op.path2.clone()));
            }
            "link" => {
                if let Some(i) = self.names.get(&op.path).copied() {
                    self.names.insert(op.path2.clone(), i);
                    self.meta.push(Meta::Link(op.path2.clone(), i));
                }
            }
            "unlink" => {
                self.names.remove(&op.path);
                self.meta.push(Meta::Unlink(op.path.clone()));
            }
            _ => {}
        }
    }
    fn commit(&mut self, n: usize) {
        let n = n.min(self.meta.len());
        let v: Vec<Meta> = self.meta.drain(..n).collect();
        for m in v {
            match m {
                Meta::Link(p, i) => {
                    self.durable.insert(p, i);
                }
                Meta::Rename(a, b) => {
                    if let Some(i) = self.durable.remove(&a) {
                        self.durable.insert(b, i);
                    }
                }
                Meta::Unlink(p) => {
                    self.durable.remove(&p);
                }
            }
        }
    }
    /// What is on the medium after a power loss now.
    pub fn power_loss(&mut self, rng: &mut Rng) -> (BTreeMap<String, Vec<u8>>, String) {
        let total = self.meta.len();
        // the most recent metadata is the most interesting
        let n = match rng.below(3) {
            0 => total,
            1 => 0,
            _ => rng.below(total + 1),
        };
        self.commit(n);
        let mut what = format!("{} of {} directory changes persist", n, total);
        let mut out = BTreeMap::new();
        let mode = rng.below(4);
        let durable = self.durable.clone();
        for (p, i) in durable {
            let ino = &self.inodes[i];
            let mut c = ino.durable.clone();
            if !ino.pend.is_empty() {
                for x in &ino.pend {
                    let m = if mode == 3 { rng.below(4) } else { mode };
                    match (m, x) {
                        (0, _) => {} // lost
                        (1, _) => apply(&mut c, x),
                        (2, Pend::Write(off, d)) => {
                            let k = rng.below(d.len() + 1);
                            apply(&mut c, &Pend::Write(*off, d[..k].to_vec()));
                        }
                        (3, Pend::Write(off, d)) => apply(&mut c, &Pend::Write(*off, vec![0; d.len()])),
                        _ => apply(&mut c, x),
                    }
                }
                what += &format!(", {}: {} unsynced changes {}", p, ino.pend.len(), ["lost", "applied", "torn", "mixed"][mode]);
            }
            out.insert(p, c);
        }
        (out, what)
    }
}

fn apply(c: &mut Vec<u8>, p: &Pend) {
    match p {
        Pend::Write(off, d) => {
            if c.len() < off + d.len() {
                c.resize(off + d.len(), 0);
            }
            c[*off..off + d.len()].copy_from_slice(d);
        }
        Pend::Trunc(n) => c.resize(*n, 0),
    }
}

pub fn materialise(dir: &Path, files: &BTreeMap<String, Vec<u8>>) {
    for p in list(dir).keys() {
        let _ = std::fs::remove_file(dir.join(p));
    }
    for (p, b) in files {
        let q = dir.join(p);
        let _ = std::fs::create_dir_all(q.parent().unwrap());
        std::fs::write(q, b).unwrap();
    }
}

// ---------------------------------------------------------------- setup shared by C06, C07, C08, C15

pub struct Base {
    pub reqs: Vec<Req>,
    pub tx: Vec<Vec<u8>>,
    pub parsed: Vec<Tx>,
    /// (name, bytes) of the cache files a clean run leaves behind, per request
    pub cache: Vec<BTreeMap<String, Vec<u8>>>,
    pub ops_cold: Vec<usize>,
    pub ops_warm: Vec<usize>,
    pub fork_ok: Vec<bool>,
}

pub const BIN: &[u8] = b"\x7fELF verifier";
static KEEP: Mutex<Vec<Proc>> = Mutex::new(vec![]);

/// Two inputs for one program, another program, and possibly one that needs a larger domain.
pub fn os_requests(seed: u64, big: bool) -> Vec<Req> {
    let mut rng = Rng::new(seed ^ 0x05);
    loop {
        let a = gen_req(&mut rng, 60, true);
        if a.src.len() < 8 {
            continue;
        }
        let mut b = a.clone();
        b.input[0] = if b.input[0] > 1 { b.input[0] - 1 } else { 2 };
        let p = crate::bf::Program::parse(&b.src).unwrap();
        let r = crate::bf::reference(&p, &b.input, 8, 300);
        if r.end != crate::bf::End::Halt || r.consumed != b.input.len() {
            continue;
        }
        let c = gen_req(&mut rng, 200, false);
        if c.src.len() < 20 {
            continue;
        }
        let mut v = vec![a, b, c];
        if big {
            v.push(Req { src: [vec![b'+'; 300], b".".to_vec()].concat(), input: vec![] });
        }
        return v;
    }
}

fn info_path(ctx: &Ctx) -> PathBuf {
    ctx.scratch.join("osim.json")
}

pub struct Driven {
    pub ops: Vec<Op>,
    pub exit: Option<Exit>,
    pub gap: bool,
    /// state and last operation before the first long computation
    pub at_gap: Option<(u64, String)>,
}

/// Drives one process with no faults to its end (or to the gap if it serves). `idle` is called once,
/// when the process seems to have started its long computation.
pub fn drive(p: &mut Proc, mut idle: Option<&mut dyn FnMut()>) -> Driven {
    let mut d = Driven { ops: vec![], exit: None, gap: false, at_gap: None };
    loop {
        if idle.is_some() && !p.ready(1500) {
            (idle.take().unwrap())();
        }
        match p.next() {
            Ev::Op(op) => {
                p.ops += 1;
                if op.cpu > 1500 && d.at_gap.is_none() {
                    d.at_gap = Some((p.key(), d.ops.last().map(|o: &Op| format!("{} {}", o.name, p.norm(&o.path))).unwrap_or_default()));
                }
                match p.answer(&Act::Go) {
                    Some((ret, err, roll)) => {
                        p.note(&op, ret, err, roll);
                        d.ops.push(op);
                    }
                    None => {
                        d.exit = Some(p.reap());
                        return d;
                    }
                }
            }
            Ev::Gap => {
                d.gap = true;
                d.at_gap = Some((p.key(), d.ops.last().map(|o: &Op| format!("{} {}", o.name, p.norm(&o.path))).unwrap_or_default()));
                return d;
            }
            Ev::Exit(e) => {
                d.exit = Some(e);
                return d;
            }
            Ev::Timeout => return d,
        }
    }
}

pub fn new_files(dir: &Path, before: &BTreeMap<String, Vec<u8>>) -> BTreeMap<String, Vec<u8>> {
    let mut after = list(dir);
    after.retain(|k, _| !before.contains_key(k) && k != "res/tx.json");
    after
}

/// Class is "harness" only for faults of the harness itself.
pub fn os_setup(ctx: &Ctx, reqs: &[Req]) -> Result<(), (String, String)> {
    struct One {
        tx: Option<Vec<u8>>,
        cache: BTreeMap<String, Vec<u8>>,
        cold: Driven,
        warm: Option<(Proc, Driven)>,
        warm_cache: BTreeMap<String, Vec<u8>>,
    }
    let bin = ctx.bin("prover");
    let shim = ctx.bin("shim.so");
    // cold: one full run from a clean directory; warm: a fork server from a directory with its cache
    let mut all: Vec<One> = std::thread::scope(|s| {
        let hs: Vec<_> = reqs
            .iter()
            .enumerate()
            .map(|(i, r)| {
                let (bin, shim) = (bin.clone(), shim.clone());
                let dir = ctx.scratch.join(format!("cold{}", i));
                let wdir = ctx.scratch.join(format!("warm{}", i));
                let sock = ctx.scratch.join(format!("s{}", i));
                s.spawn(move || {
                    prepare(&dir, reqs, BIN);
                    prepare(&wdir, reqs, BIN);
                    let before = list(&dir);
                    let l = Launch { bin: bin.clone(), shim: shim.clone(), dir: &dir, pid: 70101, rand: 1, serve: None, env: vec![] };
                    let mut p = spawn(&l, i, r, 240);
                    std::thread::scope(|s2| {
                        let mut h = None;
                        let mut warm_cache = BTreeMap::new();
                        let mut idle = || {
                            warm_cache = new_files(&dir, &before);
                            for (p, b) in &warm_cache {
                                let _ = std::fs::write(wdir.join(p), b);
                            }
                            let wl = Launch { bin: bin.clone(), shim: shim.clone(), dir: &wdir, pid: 70102, rand: 1, serve: Some(sock.clone()), env: vec![] };
                            let mut w = spawn(&wl, i, r, 240);
                            h = Some(s2.spawn(move || {
                                let d = drive(&mut w, None);
                                (w, d)
                            }));
                        };
                        let cold = drive(&mut p, Some(&mut idle));
                        drop(idle);
                        let warm = h.map(|h| h.join().unwrap());
                        let tx = std::fs::read(dir.join("res/tx.json")).ok();
                        One { tx, cache: new_files(&dir, &before), cold, warm, warm_cache }
                    })
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    for (i, c) in all.iter().enumerate() {
        let t = c.tx.as_ref().and_then(|b| parse_tx(b));
        let ok = c.cold.exit == Some(Exit::Code(0))
            && t.as_ref().map_or(false, |t| serves(t, &reqs[i], BIN).is_ok() && accepts(&t.wit) == Ok(true));
        if !ok {
            return Err((
                "clean-run".into(),
                format!("an undisturbed run of {} from a clean directory ended with {:?} and left {}", reqs[i].show(), c.cold.exit,
                    match t { None => "no transaction".to_string(), Some(t) => format!("{:?}, accepted {:?}", serves(&t, &reqs[i], BIN), accepts(&t.wit)) }),
            ));
        }
    }
    std::fs::create_dir_all(ctx.scratch.join("memo")).unwrap();
    let mut info = vec![];
    for (i, c) in all.iter_mut().enumerate() {
        let r = &reqs[i];
        // Do continued processes behave as whole ones? Otherwise runs of this request are done in full.
        let mut fork_ok = false;
        let mut warm_ops = c.cold.ops.len();
        if let Some((w, d)) = c.warm.as_mut() {
            if d.gap && c.warm_cache == c.cache {
                let dir = ctx.scratch.join(format!("try{}", i));
                prepare(&dir, reqs, b"another binary");
                let sock = ctx.scratch.join(format!("s{}", i));
                let pre: BTreeSet<i64> = w.fds.keys().copied().collect();
                if let Some(mut p) = attach(&sock, &dir, 70103, i, 60) {
                    let e = drive(&mut p, None);
                    let t = std::fs::read(dir.join("res/tx.json")).ok().and_then(|b| parse_tx(&b));
                    let want = parse_tx(c.tx.as_ref().unwrap()).unwrap();
                    let same = t.map_or(false, |t| t.wit == want.wit && t.binary == b"another binary" && serves(&t, r, b"another binary").is_ok());
                    let early_fd = e.ops.iter().any(|o| pre.contains(&o.fd) && o.name != "close");
                    fork_ok = e.exit == Some(Exit::Code(0)) && same && !early_fd && e.at_gap.is_none();
                    warm_ops = d.ops.len() + e.ops.len();
                }
                let _ = std::fs::remove_dir_all(&dir);
            }
        }
        if fork_ok {
            for g in [&c.cold.at_gap, &c.warm.as_ref().unwrap().1.at_gap] {
                if let Some((k, last)) = g {
                    std::fs::write(ctx.scratch.join("memo").join(format!("{}-{:016x}", i, k)), last).unwrap();
                }
            }
        }
        std::fs::write(ctx.scratch.join(format!("os_tx{}", i)), c.tx.as_ref().unwrap()).unwrap();
        let d = ctx.scratch.join(format!("os_cache{}", i));
        std::fs::create_dir_all(&d).unwrap();
        for (p, b) in &c.cache {
            let q = d.join(p);
            std::fs::create_dir_all(q.parent().unwrap()).unwrap();
            std::fs::write(q, b).unwrap();
        }
        info.push(json!({"src": String::from_utf8_lossy(&r.src), "input": hex(&r.input), "cold": c.cold.ops.len(),
                         "warm": warm_ops, "fork_ok": fork_ok}));
        let _ = std::fs::remove_dir_all(ctx.scratch.join(format!("cold{}", i)));
    }
    if std::env::var("DST_DEBUG").is_ok() {
        println!("{}", json!(info));
    }
    std::fs::write(info_path(ctx), json!({ "reqs": info }).to_string()).unwrap();
    let mut keep = KEEP.lock().unwrap();
    for c in all {
        if let Some((p, _)) = c.warm {
            keep.push(p);
        }
    }
    Ok(())
}

/// Ends the fork servers of this process.
pub fn os_teardown() {
    KEEP.lock().unwrap().clear();
}

pub fn base(ctx: &Ctx) -> Base {
    let j: J = serde_json::from_str(&std::fs::read_to_string(info_path(ctx)).unwrap()).unwrap();
    let a = j["reqs"].as_array().unwrap();
    let reqs: Vec<Req> =
        a.iter().map(|r| Req { src: r["src"].as_str().unwrap().as_bytes().to_vec(), input: unhex(r["input"].as_str().unwrap()) }).collect();
    let tx: Vec<Vec<u8>> = (0..reqs.len()).map(|i| std::fs::read(ctx.scratch.join(format!("os_tx{}", i))).unwrap()).collect();
    Base {
        parsed: tx.iter().map(|t| parse_tx(t).unwrap()).collect(),
        cache: (0..reqs.len()).map(|i| list(&ctx.scratch.join(format!("os_cache{}", i)))).collect(),
        ops_cold: a.iter().map(|r| r["cold"].as_u64().unwrap() as usize).collect(),
        ops_warm: a.iter().map(|r| r["warm"].as_u64().unwrap() as usize).collect(),
        fork_ok: a.iter().map(|r| r["fork_ok"] == true).collect(),
        reqs,
        tx,
    }
}

/// A process that continues from the fork server's state in this directory.
fn attach(sock: &Path, dir: &Path, pid: u64, ri: usize, timeout: u64) -> Option<Proc> {
    let mut s = UnixStream::connect(sock).ok()?;
    s.set_read_timeout(Some(Duration::from_secs(timeout))).ok()?;
    s.write_all(format!("RUN {} {}\n", pid, dir.display()).as_bytes()).ok()?;
    let _ = s.as_raw_fd();
    Some(Proc {
        r: BufReader::new(s.try_clone().ok()?),
        w: s,
        child: None,
        pid,
        req: ri,
        ops: 0,
        fds: BTreeMap::new(),
        digest: vec![],
        pending: None,
        exit: None,
        hung: false,
        late: true,
        last: String::new(),
        cand: None,
    })
}

// ---------------------------------------------------------------- the world

/// One simulated machine: a directory, its medium, and the processes running in it.
pub struct World<'a> {
    pub ctx: &'a Ctx,
    pub b: &'a Base,
    pub dir: PathBuf,
    pub disk: Disk,
    /// no shortcuts: every process runs from start to end
    pub full: bool,
    pub log: Vec<String>,
    pub steps: u64,
    pub forks: u64,
    pub fulls: u64,
    pub whole: u64,
}

impl<'a> World<'a> {
    pub fn new(ctx: &'a Ctx, b: &'a Base, full: bool) -> World<'a> {
        let dir = ctx.own.join("run");
        let _ = std::fs::remove_dir_all(&dir);
        std::fs::create_dir_all(&dir).unwrap();
        World { ctx, b, disk: Disk::default(), dir, full, log: vec![], steps: 0, forks: 0, fulls: 0, whole: 0 }
    }
    pub fn file(&self, p: &str) -> Option<Vec<u8>> {
        std::fs::read(self.dir.join(p)).ok()
    }
    /// To be called when the directory has been prepared or replaced.
    pub fn mount(&mut self) {
        self.disk = Disk::new(&self.dir);
    }
    /// Starts a prover for a request (its program file has to be in the directory) and brings it to its
    /// first operation.
    pub fn start(&mut self, ri: usize, r: &Req, pid: u64, rand: u64) -> Proc {
        let l = Launch { bin: self.ctx.bin("prover"), shim: self.ctx.bin("shim.so"), dir: &self.dir, pid, rand, serve: None, env: vec![] };
        let mut p = spawn(&l, ri, r, 240);
        self.advance(&mut p);
        p
    }
    /// Fetches the next operation (or the end) of a process.
    pub fn advance(&mut self, p: &mut Proc) {
        p.pending = None;
        match p.next() {
            Ev::Op(o) => {
                if o.cpu > 1500 && p.cand.is_none() && !p.late {
                    p.cand = Some((p.key(), p.last.clone()));
                }
                p.pending = Some(o)
            }
            Ev::Exit(e) => {
                if !p.late {
                    self.fulls += 1;
                    if p.cand.is_some() {
                        self.whole += 1;
                    }
                    if let (Some((k, last)), true, true) = (&p.cand, e == Exit::Code(0), p.req < self.b.reqs.len()) {
                        let ok = self.file("res/tx.json").and_then(|b| parse_tx(&b)).map_or(false, |t| t.wit == self.b.parsed[p.req].wit);
                        if ok {
                            let _ = std::fs::write(self.ctx.scratch.join("memo").join(format!("{}-{:016x}", p.req, k)), last);
                        }
                    }
                }
                p.exit = Some(e)
            }
            Ev::Gap => {}
            Ev::Timeout => {
                p.hung = true;
                p.kill();
                p.exit = Some(Exit::Signal(-3));
            }
        }
    }
    /// Performs the pending operation of a process as decided, then brings it to its next one.
    pub fn perform(&mut self, p: &mut Proc, act: &Act, who: &str) -> bool {
        let op = match p.pending.take() {
            Some(o) => o,
            None => return false,
        };
        p.ops += 1;
        self.steps += 1;
        let r = p.answer(act);
        let shown = match &r {
            Some((ret, _, _)) if *ret >= 0 && op.name == "open" => "ok".into(),
            Some((ret, err, _)) => format!("{}{}", ret, if *ret < 0 { format!(" errno {}", err) } else { String::new() }),
            None => "died".into(),
        };
        self.log.push(format!(
            "{} #{} {} {}{}{} {:?} -> {}",
            who,
            p.ops,
            op.name,
            op.path,
            if op.path2.is_empty() { String::new() } else { format!(" -> {}", op.path2) },
            if op.name == "write" { format!(" ({} bytes at {})", op.a, op.b) } else { String::new() },
            act,
            shown
        ));
        if let Some((ret, err, roll)) = r {
            p.last = format!("{} {}", op.name, p.norm(&op.path));
            p.note(&op, ret, err, roll);
            self.disk.step(p, &op, ret);
        }
        if r.is_some() && !p.late && !self.full && p.req < self.b.reqs.len() && self.b.fork_ok[p.req] && !matches!(act, Act::Torn(_) | Act::KillAfter) {
            let m = self.ctx.scratch.join("memo").join(format!("{}-{:016x}", p.req, p.key()));
            if let Ok(last) = std::fs::read_to_string(&m) {
                if last == format!("{} {}", op.name, p.norm(&op.path)) {
                    let sock = self.ctx.scratch.join(format!("s{}", p.req));
                    if let Some(q) = attach(&sock, &self.dir, p.pid, p.req, 240) {
                        let ops = p.ops;
                        *p = q;
                        p.ops = ops;
                        self.forks += 1;
                    }
                }
            }
        }
        self.advance(p);
        true
    }
    /// Runs a process to its end without faults.
    pub fn finish(&mut self, p: &mut Proc, who: &str) {
        let mut n = 0;
        while p.exit.is_none() {
            if n > 5000 {
                p.hung = true;
                p.kill();
                p.exit = Some(Exit::Signal(-3));
                break;
            }
            self.perform(p, &Act::Go, who);
            n += 1;
        }
    }
    pub fn power_loss(&mut self, seed: u64) {
        let mut rng = Rng::new(seed);
        let (files, what) = self.disk.power_loss(&mut rng);
        self.log.push(format!("power loss: {}", what));
        materialise(&self.dir, &files);
        self.mount();
    }
}

/// A placeholder while a process is taken out of its slot.
pub fn dummy() -> Proc {
    let (a, b) = UnixStream::pair().unwrap();
    drop(b);
    Proc {
        r: BufReader::new(a.try_clone().unwrap()),
        w: a,
        child: None,
        pid: 0,
        req: usize::MAX,
        ops: 0,
        fds: BTreeMap::new(),
        digest: vec![],
        pending: None,
        exit: None,
        hung: false,
        late: true,
        last: String::new(),
        cand: None,
    }
}
