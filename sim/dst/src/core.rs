//! Seeds, plans, outcomes, and the runner that searches over seeded plans.

use serde_json::{json, Value as J};
use std::collections::{BTreeMap, BTreeSet};
use std::io::{BufRead, BufReader, Write};
use std::path::{Path, PathBuf};
use std::process::{Child, ChildStdin, Command, Stdio};
use std::sync::mpsc::{channel, Receiver, RecvTimeoutError};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

// ---------------------------------------------------------------- PRNG

/// SplitMix64: every choice of a run comes from one of these.
#[derive(Clone, Debug)]
pub struct Rng(pub u64);

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed ^ 0x9E37_79B9_7F4A_7C15);
        r.u64();
        r
    }
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    /// Uniform in 0..n (n > 0).
    pub fn below(&mut self, n: usize) -> usize {
        if n <= 1 {
            return 0;
        }
        ((self.u64() as u128 * n as u128) >> 64) as usize
    }
    pub fn range(&mut self, lo: usize, hi_incl: usize) -> usize {
        lo + self.below(hi_incl - lo + 1)
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.u64() as u8).collect()
    }
}

impl rand_core::RngCore for Rng {
    fn next_u32(&mut self) -> u32 {
        self.u64() as u32
    }
    fn next_u64(&mut self) -> u64 {
        self.u64()
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        for c in dest.chunks_mut(8) {
            let b = self.u64().to_le_bytes();
            c.copy_from_slice(&b[..c.len()]);
        }
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), rand_core::Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}
impl rand_core::CryptoRng for Rng {}

/// FNV-1a, for state keys and event-log hashes.
#[derive(Clone, Copy)]
pub struct Hash(pub u64);
impl Hash {
    pub fn new() -> Self {
        Hash(0xcbf2_9ce4_8422_2325)
    }
    pub fn add(&mut self, b: &[u8]) -> &mut Self {
        for x in b {
            self.0 = (self.0 ^ *x as u64).wrapping_mul(0x0000_0100_0000_01B3);
        }
        self.0 = (self.0 ^ 0x1ff).wrapping_mul(0x0000_0100_0000_01B3);
        self
    }
    pub fn num(&mut self, n: u64) -> &mut Self {
        self.add(&n.to_le_bytes())
    }
}
pub fn hash_bytes(b: &[u8]) -> u64 {
    Hash::new().add(b).0
}

pub fn run_seed(seed: u64, prop: &str, idx: u64) -> u64 {
    let mut h = Hash::new();
    h.num(seed).add(prop.as_bytes()).num(idx);
    Rng::new(h.0).u64()
}

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}
pub fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

// ---------------------------------------------------------------- plans and outcomes

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

#[derive(Clone, Debug, Default)]
pub struct Outcome {
    /// (class, detail)
    pub violation: Option<(String, String)>,
    /// The run could not decide anything (counted, never an alarm).
    pub inconclusive: Option<String>,
    /// Fault kinds fired, probes hit, runs of sub-cases.
    pub stats: BTreeMap<String, u64>,
    /// Keys of distinct states / interleavings / cases reached.
    pub keys: BTreeSet<u64>,
    /// How many cases (simulated executions) this run evaluated.
    pub cases: u64,
    /// Simulated steps (events, system calls, trace rows) covered.
    pub steps: u64,
    /// Event log of the run, hashed (for determinism checks) and for the replay file.
    pub log: Vec<String>,
    pub log_hash: Option<u64>,
    pub sample: Option<J>,
}

impl Outcome {
    pub fn count(&mut self, k: &str, n: u64) {
        if n > 0 {
            *self.stats.entry(k.to_string()).or_insert(0) += n;
        }
    }
    pub fn fault(&mut self, k: &str) {
        self.count(&format!("fault:{}", k), 1);
    }
    pub fn probe(&mut self, k: &str) {
        self.count(&format!("probe:{}", k), 1);
    }
    pub fn fail(&mut self, class: &str, detail: String) {
        if self.violation.is_none() {
            self.log.push(format!("VIOLATION {}: {}", class, detail));
            self.violation = Some((class.to_string(), detail));
        }
    }
    pub fn ev(&mut self, s: String) {
        self.log.push(s);
    }
    pub fn to_json(&self) -> J {
        let mut h = Hash::new();
        for l in &self.log {
            h.add(l.as_bytes());
        }
        let keep = if self.violation.is_some() { self.log.clone() } else { vec![] };
        json!({
            "violation": self.violation.as_ref().map(|(a, b)| json!([a, b])),
            "inconclusive": self.inconclusive,
            "stats": self.stats,
            "keys": self.keys.iter().map(|k| format!("{:x}", k)).collect::<Vec<_>>(),
            "cases": self.cases,
            "steps": self.steps,
            "log_hash": format!("{:016x}", self.log_hash.unwrap_or(h.0)),
            "log": keep,
            "sample": self.sample,
        })
    }
    pub fn from_json(j: &J) -> Outcome {
        let mut o = Outcome::default();
        if let Some(v) = j["violation"].as_array() {
            o.violation = Some((v[0].as_str().unwrap_or("").into(), v[1].as_str().unwrap_or("").into()));
        }
        o.inconclusive = j["inconclusive"].as_str().map(|s| s.to_string());
        if let Some(m) = j["stats"].as_object() {
            for (k, v) in m {
                o.stats.insert(k.clone(), v.as_u64().unwrap_or(0));
            }
        }
        if let Some(a) = j["keys"].as_array() {
            for k in a {
                o.keys.insert(u64::from_str_radix(k.as_str().unwrap_or("0"), 16).unwrap_or(0));
            }
        }
        o.cases = j["cases"].as_u64().unwrap_or(0);
        o.steps = j["steps"].as_u64().unwrap_or(0);
        o.log_hash = u64::from_str_radix(j["log_hash"].as_str().unwrap_or("0"), 16).ok();
        if let Some(a) = j["log"].as_array() {
            o.log = a.iter().map(|x| x.as_str().unwrap_or("").to_string()).collect();
        }
        if !j["sample"].is_null() {
            o.sample = Some(j["sample"].clone());
        }
        o
    }
}

pub struct Budget {
    pub runs: u64,
    pub secs: u64,
    pub workers: usize,
    /// Wall-clock limit of one run (generous: exceeded means it hangs).
    pub timeout: u64,
    /// Address-space limit of a worker, MB.
    pub mem_mb: u64,
}

#[derive(Clone)]
pub struct Ctx {
    /// Directory of this check run; created by the parent, removed at the end.
    pub scratch: PathBuf,
    /// Private directory of this worker.
    pub own: PathBuf,
    pub seed: u64,
    pub tier: Tier,
}

impl Ctx {
    pub fn bin(&self, name: &str) -> PathBuf {
        let exe = std::env::current_exe().unwrap();
        exe.parent().unwrap().join(name)
    }
}

pub trait Prop: Sync {
    fn id(&self) -> &'static str;
    fn budget(&self, tier: Tier) -> Budget;
    /// Prepares shared artefacts below ctx.scratch (parent process, once). Err: a violation found
    /// while preparing (class, detail, plan).
    fn setup(&self, _ctx: &Ctx) -> Result<(), (String, String)> {
        Ok(())
    }
    fn gen(&self, ctx: &Ctx, idx: u64) -> J;
    fn exec(&self, ctx: &Ctx, plan: &J) -> Outcome;
    fn shrink(&self, _plan: &J) -> Vec<J> {
        vec![]
    }
    /// Is a panic escaping from the code under test a violation of this property?
    fn panic_is_violation(&self) -> bool {
        true
    }
    fn rule(&self) -> String;
    fn components(&self) -> J;
    fn assumptions(&self) -> Vec<String>;
}

/// Runs f, turning a panic into Err(message).
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|e| {
        if let Some(s) = e.downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = e.downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        }
    })
}

extern "C" {
    fn dst_hash_seed(v: u64);
}

pub fn exec_guarded(p: &dyn Prop, ctx: &Ctx, plan: &J) -> Outcome {
    unsafe { dst_hash_seed(hash_bytes(plan.to_string().as_bytes())) };
    match catch(|| p.exec(ctx, plan)) {
        Ok(o) => o,
        Err(m) => {
            let mut o = Outcome { cases: 1, ..Default::default() };
            if p.panic_is_violation() {
                o.fail("panic", format!("unexpected panic: {}", m));
            } else {
                o.inconclusive = Some(format!("panic: {}", m));
            }
            o
        }
    }
}

// ---------------------------------------------------------------- worker side

pub fn worker_main(p: &dyn Prop, ctx: Ctx) {
    std::panic::set_hook(Box::new(|_| {}));
    let stdin = std::io::stdin();
    let out = std::io::stdout();
    for line in stdin.lock().lines() {
        let line = match line {
            Ok(l) => l,
            Err(_) => break,
        };
        let (cmd, rest) = line.split_once(' ').unwrap_or((&line, ""));
        let reply = match cmd {
            "idx" => {
                let plan = p.gen(&ctx, rest.parse().unwrap());
                exec_guarded(p, &ctx, &plan).to_json()
            }
            "gen" => p.gen(&ctx, rest.parse().unwrap()),
            "plan" => {
                let plan: J = serde_json::from_str(rest).unwrap();
                exec_guarded(p, &ctx, &plan).to_json()
            }
            "shrink" => {
                let plan: J = serde_json::from_str(rest).unwrap();
                J::Array(p.shrink(&plan))
            }
            _ => break,
        };
        let mut o = out.lock();
        let _ = writeln!(o, "\u{1}{}", reply);
        let _ = o.flush();
    }
}

// ---------------------------------------------------------------- parent side

pub struct Worker {
    child: Child,
    stdin: ChildStdin,
    rx: Receiver<String>,
}

#[derive(Debug)]
pub enum CallErr {
    Timeout,
    Died(String),
}

extern "C" {
    fn setrlimit(resource: i32, rlim: *const [u64; 2]) -> i32;
}

impl Worker {
    pub fn spawn(p: &dyn Prop, ctx: &Ctx, n: usize, mem_mb: u64) -> Worker {
        use std::os::unix::process::CommandExt;
        let own = ctx.scratch.join(format!("w{}", n));
        std::fs::create_dir_all(&own).unwrap();
        let mut c = Command::new(std::env::current_exe().unwrap());
        c.arg("worker")
            .arg(p.id())
            .arg(&ctx.scratch)
            .arg(&own)
            .arg(ctx.seed.to_string())
            .arg(if ctx.tier == Tier::Quick { "quick" } else { "thorough" })
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null());
        unsafe {
            c.pre_exec(move || {
                let l = [mem_mb << 20, mem_mb << 20];
                setrlimit(9, &l); // RLIMIT_AS
                let z = [0u64, 0];
                setrlimit(4, &z); // RLIMIT_CORE
                Ok(())
            });
        }
        let mut child = c.spawn().expect("spawn worker");
        let stdin = child.stdin.take().unwrap();
        let stdout = child.stdout.take().unwrap();
        let (tx, rx) = channel();
        std::thread::spawn(move || {
            for line in BufReader::new(stdout).lines() {
                match line {
                    Ok(l) => {
                        // Anything the code under test prints is ignored.
                        if let Some(p) = l.find('\u{1}') {
                            if tx.send(l[p + 1..].to_string()).is_err() {
                                break;
                            }
                        }
                    }
                    Err(_) => break,
                }
            }
        });
        Worker { child, stdin, rx }
    }
    pub fn call(&mut self, msg: &str, timeout: Duration) -> Result<J, CallErr> {
        if writeln!(self.stdin, "{}", msg).and_then(|_| self.stdin.flush()).is_err() {
            return Err(CallErr::Died(self.status()));
        }
        match self.rx.recv_timeout(timeout) {
            Ok(l) => serde_json::from_str(&l).map_err(|e| CallErr::Died(format!("bad reply: {}", e))),
            Err(RecvTimeoutError::Timeout) => {
                let _ = self.child.kill();
                let _ = self.child.wait();
                Err(CallErr::Timeout)
            }
            Err(RecvTimeoutError::Disconnected) => Err(CallErr::Died(self.status())),
        }
    }
    fn status(&mut self) -> String {
        match self.child.wait() {
            Ok(s) => format!("{}", s),
            Err(e) => format!("{}", e),
        }
    }
    pub fn stop(mut self) {
        drop(self.stdin);
        let _ = self.child.wait();
    }
}

fn outcome_of(p: &dyn Prop, r: Result<J, CallErr>) -> (Outcome, bool) {
    match r {
        Ok(j) => (Outcome::from_json(&j), true),
        Err(e) => {
            let mut o = Outcome { cases: 1, ..Default::default() };
            match e {
                CallErr::Timeout => o.fail("hang", "the run did not end in bounded time".into()),
                CallErr::Died(s) => {
                    if p.panic_is_violation() {
                        o.fail("abort", format!("the process died: {}", s))
                    } else {
                        o.inconclusive = Some(format!("process died: {}", s))
                    }
                }
            }
            (o, false)
        }
    }
}

pub struct Report {
    pub code: i32,
}

fn known_findings(root: &Path, prop: &str) -> Vec<(String, String)> {
    // lines: "known: property=<id> class=<class> match=<substring of the detail>"
    let mut v = vec![];
    if let Ok(s) = std::fs::read_to_string(root.join("KNOWN_FINDINGS.txt")) {
        for l in s.lines() {
            if let Some(rest) = l.strip_prefix(&format!("known: property={} class=", prop)) {
                if let Some((class, m)) = rest.split_once(" match=") {
                    v.push((class.to_string(), m.to_string()));
                }
            }
        }
    }
    v
}

pub fn run_check(p: &dyn Prop, seed: u64, tier: Tier, root: &Path) -> Report {
    let t0 = Instant::now();
    let b = p.budget(tier);
    let scratch = std::env::temp_dir().join(format!("dst-{}-{}", p.id(), std::process::id()));
    let _ = std::fs::remove_dir_all(&scratch);
    std::fs::create_dir_all(&scratch).unwrap();
    let ctx = Ctx { scratch: scratch.clone(), own: scratch.clone(), seed, tier };
    println!("{}: seed={} tier={:?} runs<={} secs<={}", p.id(), seed, tier, b.runs, b.secs);
    let known = known_findings(root, p.id());

    let mut total = Outcome::default();
    let mut samples: Vec<J> = vec![];
    let mut inconclusive: BTreeMap<String, u64> = BTreeMap::new();
    let mut runs = 0u64;
    let mut unreproduced = 0u64;
    let mut hashes = Hash::new();
    let mut violation: Option<(u64, J, Outcome)> = None;
    let mut known_hits: BTreeSet<String> = BTreeSet::new();

    let setup = match catch(|| p.setup(&ctx)) {
        Ok(r) => r,
        Err(m) => Err(("harness".to_string(), m)),
    };
    match setup {
        Err((class, detail)) => {
            if class == "harness" {
                println!("harness error in setup: {}", detail);
                let _ = std::fs::remove_dir_all(&scratch);
                return Report { code: 2 };
            }
            let mut o = Outcome::default();
            o.fail(&class, detail);
            violation = Some((u64::MAX, json!({"setup": true}), o));
        }
        Ok(()) => {
            let t1 = Instant::now();
            let next = Arc::new(Mutex::new(0u64));
            let stop = Arc::new(Mutex::new(false));
            let (tx, rx) = channel::<(u64, Outcome)>();
            let limit = Duration::from_secs(b.secs);
            std::thread::scope(|s| {
                for n in 0..b.workers {
                    let (next, stop, tx, ctx) = (next.clone(), stop.clone(), tx.clone(), ctx.clone());
                    let b = &b;
                    s.spawn(move || {
                        let mut w = Worker::spawn(p, &ctx, n, b.mem_mb);
                        loop {
                            if *stop.lock().unwrap() || t1.elapsed() > limit {
                                break;
                            }
                            let idx = {
                                let mut g = next.lock().unwrap();
                                if *g >= b.runs {
                                    break;
                                }
                                *g += 1;
                                *g - 1
                            };
                            let (o, alive) =
                                outcome_of(p, w.call(&format!("idx {}", idx), Duration::from_secs(b.timeout)));
                            if !alive {
                                w = Worker::spawn(p, &ctx, n, b.mem_mb);
                            }
                            if tx.send((idx, o)).is_err() {
                                break;
                            }
                        }
                        w.stop();
                    });
                }
                drop(tx);
                let mut results: BTreeMap<u64, u64> = BTreeMap::new();
                while let Ok((idx, o)) = rx.recv() {
                    runs += 1;
                    total.cases += o.cases;
                    total.steps += o.steps;
                    for (k, v) in &o.stats {
                        *total.stats.entry(k.clone()).or_insert(0) += v;
                    }
                    total.keys.extend(o.keys.iter());
                    results.insert(idx, o.log_hash.unwrap_or(0));
                    if let Some(m) = &o.inconclusive {
                        *inconclusive.entry(m.clone()).or_insert(0) += 1;
                    }
                    if samples.len() < 5 {
                        if let Some(sm) = o.sample.clone() {
                            samples.push(sm);
                        }
                    }
                    if let Some((class, detail)) = o.violation.clone() {
                        if let Some((c, m)) = known.iter().find(|(c, m)| *c == class && detail.contains(m.as_str())) {
                            known_hits.insert(format!("{} {}", c, m));
                            continue;
                        }
                        *stop.lock().unwrap() = true;
                        if violation.as_ref().map_or(true, |(i, _, _)| idx < *i) {
                            violation = Some((idx, J::Null, o));
                        }
                    }
                }
                for (i, h) in results {
                    hashes.num(i).num(h);
                }
            });
        }
    }

    let mut code = 0;
    let mut nviol = 0;
    if let Some((idx, _, first)) = violation {
        let mut report: Option<(J, Outcome)> = None;
        if idx == u64::MAX {
            report = Some((json!({"setup": true}), first.clone()));
        } else {
            let mut w = Worker::spawn(p, &ctx, 90, b.mem_mb);
            let plan = w.call(&format!("gen {}", idx), Duration::from_secs(b.timeout)).ok();
            if let Some(plan) = plan {
                let class = first.violation.as_ref().unwrap().0.clone();
                let mut confirmed = None;
                for _ in 0..2 {
                    let (o, alive) =
                        outcome_of(p, w.call(&format!("plan {}", plan), Duration::from_secs(2 * b.timeout)));
                    if !alive {
                        w = Worker::spawn(p, &ctx, 90, b.mem_mb);
                    }
                    if o.violation.is_some() {
                        confirmed = Some(o);
                        break;
                    }
                }
                match confirmed {
                    None => {
                        unreproduced += 1;
                        println!("{}", printable(&format!("run {} failed once ({:?}) and did not reproduce", idx, first.violation)));
                    }
                    Some(o) => {
                        let _ = &class;
                        let (min, mo) = minimise(p, &ctx, &mut w, plan, o, &b);
                        report = Some((min, mo));
                    }
                }
            }
            w.stop();
        }
        if let Some((plan, o)) = report {
            let dir = root.join("replays");
            let _ = std::fs::create_dir_all(&dir);
            let path = dir.join(format!("{}-{}-{}.json", p.id(), seed, if idx == u64::MAX { 0 } else { idx }));
            let (class, detail) = o.violation.clone().unwrap();
            let doc = json!({
                "property": p.id(), "seed": seed, "tier": if tier == Tier::Quick {"quick"} else {"thorough"},
                "run": if idx == u64::MAX { J::Null } else { json!(idx) },
                "class": class, "detail": detail, "plan": plan, "trace": o.log,
            });
            std::fs::write(&path, serde_json::to_string_pretty(&doc).unwrap()).unwrap();
            println!("{}: {}", class, printable(&detail));
            println!("VIOLATION property={} replay={}", p.id(), path.display());
            code = 1;
            nviol = 1;
        }
    }
    for k in &known_hits {
        println!("KNOWN-FINDING: property={} {}", p.id(), k);
    }
    let wall = t0.elapsed().as_secs_f64();
    let faults: BTreeMap<String, u64> = total
        .stats
        .iter()
        .filter_map(|(k, v)| k.strip_prefix("fault:").map(|s| (s.to_string(), *v)))
        .collect();
    let probes: BTreeMap<String, u64> = total
        .stats
        .iter()
        .filter_map(|(k, v)| k.strip_prefix("probe:").map(|s| (s.to_string(), *v)))
        .collect();
    let other: BTreeMap<String, u64> = total
        .stats
        .iter()
        .filter(|(k, _)| !k.contains(':'))
        .map(|(k, v)| (k.clone(), *v))
        .collect();
    let nondec: u64 = inconclusive.values().sum();
    let ev = json!({
        "property": p.id(),
        "tier": if tier == Tier::Quick {"quick"} else {"thorough"},
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": total.cases,
            "distinct_nontrivial": total.keys.len(),
            "rule": p.rule(),
            "samples": samples,
            "exhaustive": false,
            "simulated_runs": runs,
            "seeds_per_hour": (runs as f64 * 3600.0 / wall.max(0.001)).round(),
            "cases_per_hour": (total.cases as f64 * 3600.0 / wall.max(0.001)).round(),
            "simulated_time_steps": total.steps,
            "faults_injected": faults,
            "probes_hit": probes,
            "counters": other,
            "inconclusive": inconclusive,
            "unreproduced": unreproduced,
            "event_log_digest": format!("{:016x}", hashes.0),
            "components": p.components(),
        },
        "assumptions": p.assumptions(),
        "wall_s": wall,
        "violations": nviol,
    });
    let edir = root.join("evidence");
    let _ = std::fs::create_dir_all(&edir);
    std::fs::write(edir.join(format!("{}.json", p.id())), serde_json::to_string_pretty(&ev).unwrap()).unwrap();
    let _ = std::fs::remove_dir_all(&scratch);
    println!(
        "{}: {} runs, {} cases, {} distinct, {} inconclusive, {} faults of {} kinds, {:.1}s, digest {:016x}",
        p.id(), runs, total.cases, total.keys.len(), nondec, faults.values().sum::<u64>(), faults.len(), wall, hashes.0
    );
    if code == 0 && runs > 0 && nondec == runs {
        println!("no run was conclusive: {:?}", inconclusive);
        code = 3;
    }
    Report { code }
}

/// Greedy shrinking: takes the first smaller plan that still fails in the same class, then replays the
/// result in a fresh process.
/// One line of plain text, whatever bytes a program or input had.
fn printable(s: &str) -> String {
    s.chars().map(|c| if (' '..='~').contains(&c) { c } else { '?' }).collect()
}

fn minimise(p: &dyn Prop, ctx: &Ctx, w: &mut Worker, plan: J, o: Outcome, b: &Budget) -> (J, Outcome) {
    let t = Instant::now();
    let class = o.violation.as_ref().unwrap().0.clone();
    let (mut best, mut bo) = (plan, o);
    let cap = Duration::from_secs(60);
    'outer: while t.elapsed() < cap {
        let cands = match w.call(&format!("shrink {}", best), Duration::from_secs(b.timeout)) {
            Ok(J::Array(a)) => a,
            _ => break,
        };
        for c in cands {
            if t.elapsed() > cap {
                break 'outer;
            }
            let left = cap.saturating_sub(t.elapsed()).as_secs() + 20;
            let lim = if class == "hang" { b.timeout } else { left.min(b.timeout) };
            let (o, alive) = outcome_of(p, w.call(&format!("plan {}", c), Duration::from_secs(lim)));
            if !alive {
                *w = Worker::spawn(p, ctx, 90, b.mem_mb);
            }
            if o.violation.as_ref().map_or(false, |(k, _)| *k == class) {
                best = c;
                bo = o;
                continue 'outer;
            }
        }
        break;
    }
    if class == "hang" && t.elapsed() > cap {
        return (best, bo);
    }
    let mut fresh = Worker::spawn(p, ctx, 91, b.mem_mb);
    let (o, _) = outcome_of(p, fresh.call(&format!("plan {}", best), Duration::from_secs(2 * b.timeout)));
    if o.violation.is_some() {
        bo = o;
    } else {
        println!("note: the minimised plan did not fail again in a fresh process");
    }
    (best, bo)
}

/// Re-executes a replay file in a fresh worker process.
pub fn replay(p: &dyn Prop, file: &Path) -> i32 {
    let doc: J = serde_json::from_str(&std::fs::read_to_string(file).expect("replay file")).expect("json");
    let seed = doc["seed"].as_u64().unwrap_or(1);
    let tier = if doc["tier"] == "thorough" { Tier::Thorough } else { Tier::Quick };
    let scratch = std::env::temp_dir().join(format!("dst-replay-{}-{}", p.id(), std::process::id()));
    std::fs::create_dir_all(&scratch).unwrap();
    let ctx = Ctx { scratch: scratch.clone(), own: scratch.clone(), seed, tier };
    let b = p.budget(tier);
    let r = p.setup(&ctx);
    let o = match r {
        Err((c, d)) => {
            let mut o = Outcome::default();
            o.fail(&c, d);
            o
        }
        Ok(()) if doc["plan"]["setup"] == true => Outcome::default(),
        Ok(()) => {
            let mut w = Worker::spawn(p, &ctx, 0, b.mem_mb);
            let (o, _) = outcome_of(p, w.call(&format!("plan {}", doc["plan"]), Duration::from_secs(2 * b.timeout)));
            w.stop();
            o
        }
    };
    let _ = std::fs::remove_dir_all(&scratch);
    for l in &o.log {
        println!("  {}", l);
    }
    match o.violation {
        Some((c, d)) => {
            println!("{}: {}", c, d);
            println!("VIOLATION property={} replay={}", p.id(), file.display());
            1
        }
        None => {
            println!("no violation{}", o.inconclusive.map(|i| format!(" (inconclusive: {})", i)).unwrap_or_default());
            0
        }
    }
}

/// Runs the first n plans with two worker counts and diffs the event-log hashes.
pub fn determinism(p: &dyn Prop, seed: u64, n: u64, workers: usize) -> Vec<(u64, u64)> {
    let scratch = std::env::temp_dir().join(format!("dst-det-{}-{}", p.id(), std::process::id()));
    std::fs::create_dir_all(&scratch).unwrap();
    let ctx = Ctx { scratch: scratch.clone(), own: scratch.clone(), seed, tier: Tier::Quick };
    let b = p.budget(Tier::Quick);
    p.setup(&ctx).unwrap();
    let next = Arc::new(Mutex::new(0u64));
    let out = Arc::new(Mutex::new(vec![]));
    std::thread::scope(|s| {
        for i in 0..workers {
            let (next, out, ctx, b) = (next.clone(), out.clone(), ctx.clone(), &b);
            s.spawn(move || {
                let mut w = Worker::spawn(p, &ctx, i, b.mem_mb);
                loop {
                    let idx = {
                        let mut g = next.lock().unwrap();
                        if *g >= n {
                            break;
                        }
                        *g += 1;
                        *g - 1
                    };
                    let (o, alive) = outcome_of(p, w.call(&format!("idx {}", idx), Duration::from_secs(b.timeout)));
                    if !alive {
                        w = Worker::spawn(p, &ctx, i, b.mem_mb);
                    }
                    let mut h = Hash::new();
                    h.num(o.log_hash.unwrap_or(0)).num(o.cases).num(o.steps);
                    for k in &o.keys {
                        h.num(*k);
                    }
                    for (k, v) in o.stats.iter().filter(|(k, _)| !k.starts_with("perf_")) {
                        h.add(k.as_bytes()).num(*v);
                    }
                    out.lock().unwrap().push((idx, h.0));
                }
                w.stop();
            });
        }
    });
    let _ = std::fs::remove_dir_all(&scratch);
    crate::osim::os_teardown();
    let mut v = out.lock().unwrap().clone();
    v.sort();
    v
}
