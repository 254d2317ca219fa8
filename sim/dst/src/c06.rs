//! C06 (crashes), C07 (failing operations), C08 (several provers): the real prover on a simulated system.

use crate::bf::{gen_invalid, reference, End, Program};
use crate::core::*;
use crate::osim::*;
use crate::tx::*;
use serde_json::{json, Value as J};

pub struct C06;
pub struct C07;
pub struct C08;

fn us(j: &J) -> usize {
    j.as_u64().unwrap_or(0) as usize
}

/// Puts the parameter cache and the previous transaction of a plan in place.
fn prepare_world(w: &mut World, plan: &J, binary: &[u8]) {
    prepare(&w.dir, &w.b.reqs, binary);
    let c = &plan["cache"];
    if let Some(i) = c["req"].as_u64() {
        for (p, b) in &w.b.cache[i as usize % w.b.cache.len()] {
            std::fs::write(w.dir.join(p), damage(b, &c["damage"])).unwrap();
        }
    }
    match plan["prev"].as_str() {
        Some("junk") => std::fs::write(w.dir.join("res/tx.json"), b"previous contents, not to be touched\n").unwrap(),
        Some(s) => {
            if let Ok(i) = s.parse::<usize>() {
                std::fs::write(w.dir.join("res/tx.json"), &w.b.tx[i % w.b.tx.len()]).unwrap();
            }
        }
        None => {}
    }
    w.mount();
}

/// A cache file as an interrupted writer or a failing medium leaves it.
pub fn damage(b: &[u8], d: &J) -> Vec<u8> {
    let a = us(&d["a"]);
    let mut v = b.to_vec();
    match d["kind"].as_str() {
        Some("cut") => v.truncate(a % (b.len() + 1)),
        Some("empty") => v.clear(),
        Some("tail0") => {
            let i = a % (b.len() + 1);
            for x in v[i..].iter_mut() {
                *x = 0;
            }
        }
        Some("flip") => v[a % b.len()] ^= 1 << (us(&d["b"]) % 8),
        Some("extend") => v.extend(vec![0; 100]),
        Some("block") => {
            // another part of the file in place of this one
            let n = b.len() / 512;
            if n > 1 {
                let (i, j) = (a % n, us(&d["b"]) % n);
                let t = b[512 * i..512 * i + 512].to_vec();
                v[512 * j..512 * j + 512].copy_from_slice(&t);
            }
        }
        _ => {}
    }
    v
}

pub fn binary_of(plan: &J) -> Vec<u8> {
    match plan["binary"].as_u64() {
        Some(s) => {
            let mut r = Rng::new(s);
            let n = *r.pick(&[0usize, 1, 100, 4096, 70000]);
            let n = n + r.below(10);
            r.bytes(n)
        }
        None => BIN.to_vec(),
    }
}

fn act_of(f: &J) -> Act {
    let n = us(&f["n"]);
    match f["act"].as_str().unwrap_or("") {
        "K" => Act::KillBefore,
        "D" => Act::KillAfter,
        "T" => Act::Torn(n),
        "E" => Act::Errno(n as i32),
        "S" => Act::Short(n.max(1)),
        _ => Act::Go,
    }
}

/// Is this a complete transaction for the request that the verifier accepts?
pub fn complete(b: &Base, ri: usize, r: &Req, binary: &[u8], bytes: &[u8]) -> Result<(), String> {
    let t = parse_tx(bytes).ok_or("it is not a complete transaction")?;
    serves(&t, r, binary)?;
    if ri < b.reqs.len() && t.wit == b.parsed[ri].wit {
        return Ok(());
    }
    match accepts(&t.wit) {
        Ok(true) => Ok(()),
        x => Err(format!("the verifier does not accept it ({:?})", x)),
    }
}

/// The same transaction as from a clean directory?
fn same_as_clean(b: &Base, ri: usize, binary: &[u8], bytes: &[u8]) -> bool {
    if binary == BIN {
        return bytes == b.tx[ri].as_slice();
    }
    let mut want = b.parsed[ri].clone();
    want.binary = binary.to_vec();
    want.code_hash = ckb_hash::blake2b_256(binary).to_vec();
    parse_tx(bytes) == Some(want)
}

fn brief(b: &Option<Vec<u8>>) -> String {
    match b {
        None => "no file".into(),
        Some(b) => format!("{} bytes {:016x}", b.len(), hash_bytes(b)),
    }
}

/// Reports a violation only if it also happens without any shortcut of the simulator.
fn confirmed(ctx: &Ctx, plan: &J, f: fn(&Ctx, &J, bool, &mut Outcome)) -> Outcome {
    let full = plan["full"] == true;
    let mut o = Outcome::default();
    f(ctx, plan, full, &mut o);
    if o.violation.is_some() && !full {
        let mut p = Outcome::default();
        f(ctx, plan, true, &mut p);
        if p.violation.is_some() {
            return p;
        }
        o.count("unconfirmed", 1);
        o.ev(format!("not confirmed without shortcuts: {:?}", o.violation));
        o.violation = None;
    }
    o
}

fn close_world(w: World, o: &mut Outcome) {
    o.steps += w.steps;
    o.log.splice(0..0, w.log.iter().cloned());
    o.count("perf_continued_from_fork_server", w.forks);
    o.count("perf_direct_processes", w.fulls);
    o.count("perf_full_processes", w.whole);
    let mut h = Hash::new();
    for l in &w.log {
        h.add(l.as_bytes());
    }
    o.keys.insert(h.0);
    let _ = std::fs::remove_dir_all(&w.dir);
}

fn gen_cache(rng: &mut Rng, n: usize) -> J {
    match rng.below(10) {
        0..=4 => J::Null,
        5..=7 => json!({ "req": rng.below(n) }),
        _ => json!({"req": rng.below(n), "damage": gen_damage(rng)}),
    }
}

/// Damage of the kinds a crash leaves behind.
fn gen_damage(rng: &mut Rng) -> J {
    json!({"kind": *rng.pick(&["cut", "cut", "empty", "extend"]), "a": rng.u64() >> 16})
}

fn gen_prev(rng: &mut Rng, n: usize) -> J {
    match rng.below(4) {
        0 => J::Null,
        1 => json!("junk"),
        _ => json!(rng.below(n).to_string()),
    }
}

fn components() -> J {
    json!({"real": ["prover binary (whole process: interpreter, setup, keygen, proof, transaction, all file handling)", "verifier script (judging the transactions)", "kernel file system (scratch directory) behind the interposed calls"],
           "stub_or_model": ["libc file calls, getpid and getrandom are interposed; the controller decides each one", "durability of unsynced data after a power loss is a model (ordered metadata prefix, lost/applied/torn/mixed data)", "long computations are shared between runs by a fork server when everything the process has read and done so far is the same as in a run already seen; violations are confirmed without it"]})
}

// ---------------------------------------------------------------- C06

fn c06(ctx: &Ctx, plan: &J, full: bool, o: &mut Outcome) {
    let b = base(ctx);
    let mut w = World::new(ctx, &b, full);
    prepare_world(&mut w, plan, BIN);
    let empty = vec![];
    for (i, run) in plan["runs"].as_array().unwrap_or(&empty).iter().enumerate() {
        let ri = us(&run["req"]) % b.reqs.len();
        let before = w.file("res/tx.json");
        let mut p = w.start(ri, &b.reqs[ri], run["pid"].as_u64().unwrap_or(4000), run["rand"].as_u64().unwrap_or(1));
        let who = format!("run{}", i);
        let mut n = 0;
        let mut crashed = false;
        while p.exit.is_none() {
            let at = us(&run["op"]);
            let act = if !run["act"].is_null() && p.ops == at {
                let mut a = act_of(run);
                if let (Act::Torn(_), Some(op)) = (&a, &p.pending) {
                    a = if op.name == "write" && op.a > 0 { Act::Torn(us(&run["n"]) % op.a as usize) } else { Act::KillBefore };
                }
                crashed = true;
                let nm = p.pending.as_ref().map(|x| x.name.clone()).unwrap_or_default();
                o.fault(&format!("{}@{}", match a { Act::KillBefore => "kill-before", Act::KillAfter => "kill-after", _ => "torn" }, nm));
                a
            } else {
                Act::Go
            };
            w.perform(&mut p, &act, &who);
            n += 1;
            if n > 5000 {
                p.kill();
                break;
            }
        }
        let exit = p.exit.clone();
        drop(p);
        w.log.push(format!("{} of {} ended: {:?}", who, b.reqs[ri].show(), exit));
        if let Some(s) = run["power"].as_u64() {
            w.power_loss(s);
            o.fault("power-loss");
        } else {
            w.mount();
        }
        let after = w.file("res/tx.json");
        o.cases += 1;
        w.log.push(format!("tx.json: {}", brief(&after)));
        if !crashed && run["power"].is_null() {
            if exit != Some(Exit::Code(0)) || !after.as_ref().map_or(false, |x| same_as_clean(&b, ri, BIN, x)) {
                o.fail("not-recovered", format!("undisturbed run {} of {} ended with {:?} and left {}", i, b.reqs[ri].show(), exit, brief(&after)));
                break;
            }
            continue;
        }
        if after != before {
            let verdict = match &after {
                None => Err("it is gone".to_string()),
                Some(x) => complete(&b, ri, &b.reqs[ri], BIN, x),
            };
            match verdict {
                Ok(()) => o.probe("new-transaction-after-crash"),
                Err(why) => {
                    o.fail("broken-tx", format!("after the crash of run {} the transaction file is neither what it was ({}) nor a valid one ({}): {}", i, brief(&before), brief(&after), why));
                    break;
                }
            }
        } else {
            o.probe("old-transaction-after-crash");
        }
    }
    if o.violation.is_none() {
        for (i, f) in plan["final"].as_array().unwrap_or(&empty).iter().enumerate() {
            let ri = us(&f["req"]) % b.reqs.len();
            let mut p = w.start(ri, &b.reqs[ri], f["pid"].as_u64().unwrap_or(5000), 1);
            w.finish(&mut p, &format!("final{}", i));
            let exit = p.exit.clone();
            drop(p);
            w.mount();
            let after = w.file("res/tx.json");
            w.log.push(format!("final{} of {} ended: {:?}, tx.json: {}", i, b.reqs[ri].show(), exit, brief(&after)));
            o.cases += 1;
            if exit != Some(Exit::Code(0)) || !after.as_ref().map_or(false, |x| same_as_clean(&b, ri, BIN, x)) {
                o.fail("not-recovered", format!("the undisturbed run of {} after the crashes ended with {:?} and left {}", b.reqs[ri].show(), exit, brief(&after)));
                break;
            }
            o.probe("recovered");
        }
    }
    close_world(w, o);
}

impl Prop for C06 {
    fn id(&self) -> &'static str {
        "C06"
    }
    fn budget(&self, tier: Tier) -> Budget {
        match tier {
            Tier::Quick => Budget { runs: 100000, secs: 22, workers: 8, timeout: 400, mem_mb: 6000 },
            Tier::Thorough => Budget { runs: 10_000_000, secs: 700, workers: 8, timeout: 400, mem_mb: 6000 },
        }
    }
    fn setup(&self, ctx: &Ctx) -> Result<(), (String, String)> {
        os_setup(ctx, &os_requests(ctx.seed, ctx.tier == Tier::Thorough))
    }
    fn gen(&self, ctx: &Ctx, idx: u64) -> J {
        let b = base(ctx);
        let n = b.reqs.len();
        let mut rng = Rng::new(run_seed(ctx.seed, "C06", idx));
        let cache = gen_cache(&mut rng, n);
        let mut cold = cache.is_null() || !cache["damage"].is_null();
        let mut runs = vec![];
        let pid = 40000 + rng.below(20000);
        for i in 0..*rng.pick(&[1usize, 1, 1, 2, 3]) {
            let ri = rng.below(n);
            let total = if cold { b.ops_cold[ri] } else { b.ops_warm[ri] };
            let op = rng.below(total + 1);
            // early operations are the cheap ones; spread evenly
            let act = *rng.pick(&["K", "D", "T", "T"]);
            let mut r = json!({"req": ri, "pid": if rng.chance(1, 2) { pid } else { pid + 1 + i }, "op": op, "act": act,
                               "n": match rng.below(3) { 0 => rng.below(64), 1 => rng.below(70000), _ => rng.below(20000) }, "rand": 1 + rng.below(1000)});
            if rng.chance(1, 2) {
                r["power"] = json!(rng.u64() >> 16);
            }
            runs.push(r);
            if rng.chance(1, 2) {
                cold = false;
            }
        }
        let mut fin = vec![json!({"req": rng.below(n), "pid": if rng.chance(1, 2) { pid } else { 61000 }})];
        if rng.chance(1, 3) {
            fin.push(json!({"req": rng.below(n), "pid": 61001}));
        }
        json!({"cache": cache, "prev": gen_prev(&mut rng, n), "runs": runs, "final": fin, "full": rng.chance(1, 150)})
    }
    fn exec(&self, ctx: &Ctx, plan: &J) -> Outcome {
        confirmed(ctx, plan, c06)
    }
    fn shrink(&self, plan: &J) -> Vec<J> {
        let mut out = vec![];
        let runs = plan["runs"].as_array().cloned().unwrap_or_default();
        for i in 0..runs.len() {
            let mut r = runs.clone();
            r.remove(i);
            let mut p = plan.clone();
            p["runs"] = J::Array(r);
            out.push(p);
        }
        let fin = plan["final"].as_array().cloned().unwrap_or_default();
        if fin.len() > 1 {
            for f in &fin {
                let mut p = plan.clone();
                p["final"] = json!([f]);
                out.push(p);
            }
        }
        for k in ["cache", "prev"] {
            if !plan[k].is_null() {
                let mut p = plan.clone();
                p[k] = J::Null;
                out.push(p);
            }
        }
        for (i, r) in runs.iter().enumerate() {
            if !r["power"].is_null() {
                let mut p = plan.clone();
                p["runs"][i]["power"] = J::Null;
                out.push(p);
            }
        }
        out
    }
    fn panic_is_violation(&self) -> bool {
        false
    }
    fn rule(&self) -> String {
        "distinct histories of file operations with their faults and results".into()
    }
    fn components(&self) -> J {
        components()
    }
    fn assumptions(&self) -> Vec<String> {
        vec![
            "a power loss keeps a prefix of the directory changes since the process started and all synced data; unsynced data may be lost, torn or zero".into(),
            "data of a process that has ended reaches the medium before the next process starts".into(),
        ]
    }
}

// ---------------------------------------------------------------- C07

fn c07(ctx: &Ctx, plan: &J, full: bool, o: &mut Outcome) {
    let b = base(ctx);
    let mut w = World::new(ctx, &b, full);
    let binary = binary_of(plan);
    prepare_world(&mut w, plan, &binary);
    let empty = vec![];
    let invalid = !plan["invalid"].is_null();
    let (ri, req) = if invalid {
        let r = Req { src: plan["invalid"]["src"].as_str().unwrap_or("").as_bytes().to_vec(), input: unhex(plan["invalid"]["input"].as_str().unwrap_or("")) };
        std::fs::write(w.dir.join(prog_name(90)), &r.src).unwrap();
        (90, r)
    } else {
        let ri = us(&plan["req"]) % b.reqs.len();
        (ri, b.reqs[ri].clone())
    };
    let mut hard = invalid;
    for m in plan["missing"].as_array().unwrap_or(&empty) {
        let p = match m.as_str().unwrap_or("") {
            "program" => prog_name(ri),
            "binary" => BINARY.to_string(),
            _ => "res".to_string(),
        };
        let q = w.dir.join(&p);
        if q.is_dir() {
            let _ = std::fs::remove_dir_all(&q);
        } else {
            let _ = std::fs::remove_file(&q);
        }
        hard = true;
        o.fault(&format!("missing-{}", m.as_str().unwrap_or("")));
    }
    w.mount();
    let before = w.file("res/tx.json");
    let faults = plan["faults"].as_array().unwrap_or(&empty);
    let mut p = w.start(ri, &req, plan["pid"].as_u64().unwrap_or(4000), plan["rand"].as_u64().unwrap_or(1));
    let mut sticky: Vec<(String, i32)> = vec![];
    let mut streak = 0;
    let mut n = 0;
    while p.exit.is_none() && n < 5000 {
        n += 1;
        let mut act = Act::Go;
        if let Some(op) = &p.pending {
            if let Some((_, e)) = sticky.iter().find(|(nm, _)| *nm == op.name) {
                act = Act::Errno(*e);
            }
            for f in faults {
                if us(&f["op"]) == p.ops && act == Act::Go {
                    let a = act_of(f);
                    let transient = match &a {
                        Act::Errno(e) => *e == EINTR,
                        Act::Short(_) => true,
                        _ => false,
                    };
                    let applies = match &a {
                        Act::Errno(e) if *e == EINTR => ["open", "read", "write", "fsync"].contains(&op.name.as_str()),
                        Act::Short(_) => ["read", "write"].contains(&op.name.as_str()) && op.a > 1,
                        _ => true,
                    };
                    if !applies {
                        continue;
                    }
                    let a = if let Act::Short(k) = a { Act::Short(1 + k % (op.a as usize - 1).max(1)) } else { a };
                    if !transient {
                        hard = true;
                        if f["sticky"] == true {
                            if let Act::Errno(e) = &a {
                                sticky.push((op.name.clone(), *e));
                            }
                        }
                    }
                    o.fault(&match &a {
                        Act::Errno(e) => format!("errno{}@{}{}", e, op.name, if f["sticky"] == true { "-sticky" } else { "" }),
                        _ => format!("short@{}", op.name),
                    });
                    act = a;
                }
            }
        }
        if act == Act::Go {
            streak = 0;
        } else {
            streak += 1;
        }
        let _ = streak;
        w.perform(&mut p, &act, "run");
    }
    let exit = p.exit.clone();
    let hung = p.hung || p.exit.is_none();
    drop(p);
    w.mount();
    let after = w.file("res/tx.json");
    w.log.push(format!("run of {} ended: {:?}, tx.json: {}", req.show(), exit, brief(&after)));
    o.cases += 1;
    let ok = exit == Some(Exit::Code(0));
    if hung {
        o.fail("hang", "the prover does not end".into());
    } else if ok {
        o.probe("success");
        if invalid {
            o.fail("success-invalid", format!("the prover reports success for an invalid run: {}", req.show()));
        } else {
            match after.as_ref().ok_or("there is none".to_string()).and_then(|x| complete(&b, ri, &req, &binary, x)) {
                Err(why) => o.fail("false-success", format!("the prover reports success, but the transaction file ({}) is not valid for {}: {}", brief(&after), req.show(), why)),
                Ok(()) => {
                    if !hard && !after.as_ref().map_or(false, |x| same_as_clean(&b, ri, &binary, x)) {
                        o.fail("changed", format!("interrupted or partial transfers changed the transaction of {}", req.show()));
                    }
                }
            }
        }
    } else {
        o.probe("failure");
        if !hard {
            o.fail("needless-failure", format!("the prover fails ({:?}) although operations were only interrupted or cut short", exit));
        } else if after != before {
            let v = match &after {
                None => Err("it is gone".to_string()),
                Some(x) if !invalid => complete(&b, ri, &req, &binary, x),
                Some(_) => Err("the run is invalid".to_string()),
            };
            if let Err(why) = v {
                o.fail("damaged-tx", format!("the prover failed and the previous transaction file ({}) became {}: {}", brief(&before), brief(&after), why));
            }
        }
    }
    // A later undisturbed run
    if o.violation.is_none() && !plan["later"].is_null() {
        let lj = us(&plan["later"]) % b.reqs.len();
        let _ = std::fs::create_dir_all(w.dir.join("res"));
        prepare(&w.dir, &b.reqs, &binary);
        w.mount();
        let mut p = w.start(lj, &b.reqs[lj], 61000, 1);
        w.finish(&mut p, "later");
        let exit = p.exit.clone();
        drop(p);
        let after = w.file("res/tx.json");
        w.log.push(format!("later run of {} ended: {:?}, tx.json: {}", b.reqs[lj].show(), exit, brief(&after)));
        if exit != Some(Exit::Code(0)) || !after.as_ref().map_or(false, |x| same_as_clean(&b, lj, &binary, x)) {
            o.fail("later-run", format!("the undisturbed run of {} after the failed one ended with {:?} and left {}", b.reqs[lj].show(), exit, brief(&after)));
        }
    }
    close_world(w, o);
}

fn gen_invalid_req(rng: &mut Rng) -> Req {
    loop {
        let (src, input) = gen_invalid(rng, 8, 60);
        let input: Vec<u8> = input.iter().map(|x| x % 127 + 1).collect();
        let p = Program::parse(&src).unwrap();
        let r = reference(&p, &input, 8, 3000);
        // one that ends: out of input, off the tape, or with input left over
        match r.end {
            End::Halt if r.consumed == input.len() => continue,
            End::Halt => {}
            End::StepLimit => continue,
            _ => {}
        }
        return Req { src, input };
    }
}

impl Prop for C07 {
    fn id(&self) -> &'static str {
        "C07"
    }
    fn budget(&self, tier: Tier) -> Budget {
        match tier {
            Tier::Quick => Budget { runs: 100000, secs: 22, workers: 8, timeout: 400, mem_mb: 6000 },
            Tier::Thorough => Budget { runs: 10_000_000, secs: 700, workers: 8, timeout: 400, mem_mb: 6000 },
        }
    }
    fn setup(&self, ctx: &Ctx) -> Result<(), (String, String)> {
        os_setup(ctx, &os_requests(ctx.seed, ctx.tier == Tier::Thorough))
    }
    fn gen(&self, ctx: &Ctx, idx: u64) -> J {
        let b = base(ctx);
        let n = b.reqs.len();
        let mut rng = Rng::new(run_seed(ctx.seed, "C07", idx));
        let cache = gen_cache(&mut rng, n);
        let ri = rng.below(n);
        let total = if cache.is_null() || !cache["damage"].is_null() { b.ops_cold[ri] } else { b.ops_warm[ri] };
        let mut plan = json!({"req": ri, "pid": 40000 + rng.below(20000), "rand": 1 + rng.below(1000), "cache": cache,
                              "prev": gen_prev(&mut rng, n), "later": rng.below(n), "full": rng.chance(1, 150)});
        if rng.chance(2, 3) {
            plan["binary"] = json!(rng.u64() >> 16);
        }
        let mode = rng.below(16);
        if mode == 0 || idx % 8 == 3 && idx < 24 {
            let r = gen_invalid_req(&mut rng);
            plan["invalid"] = json!({"src": String::from_utf8_lossy(&r.src), "input": hex(&r.input)});
            return plan;
        }
        if mode == 1 {
            plan["missing"] = json!([*rng.pick(&["program", "binary", "res"])]);
            return plan;
        }
        let mut faults = vec![];
        if mode < 7 {
            // only interruptions and partial transfers
            for _ in 0..rng.range(1, 6) {
                faults.push(if rng.chance(1, 2) {
                    json!({"op": rng.below(total + 1), "act": "E", "n": EINTR})
                } else {
                    json!({"op": rng.below(total + 1), "act": "S", "n": match rng.below(3) { 0 => rng.below(4), 1 => rng.below(100), _ => rng.below(60000) }})
                });
            }
        } else {
            for _ in 0..*rng.pick(&[1usize, 1, 1, 2]) {
                faults.push(json!({"op": rng.below(total + 1), "act": "E",
                    "n": *rng.pick(&[EIO, ENOSPC, EACCES, EMFILE, ENOENT, EROFS]), "sticky": rng.chance(1, 2)}));
            }
            if rng.chance(1, 3) {
                faults.push(json!({"op": rng.below(total + 1), "act": "S", "n": rng.below(3000)}));
            }
        }
        plan["faults"] = J::Array(faults);
        plan
    }
    fn exec(&self, ctx: &Ctx, plan: &J) -> Outcome {
        confirmed(ctx, plan, c07)
    }
    fn shrink(&self, plan: &J) -> Vec<J> {
        let mut out = vec![];
        let f = plan["faults"].as_array().cloned().unwrap_or_default();
        for i in 0..f.len() {
            let mut r = f.clone();
            r.remove(i);
            let mut p = plan.clone();
            p["faults"] = J::Array(r);
            out.push(p);
        }
        for k in ["cache", "prev", "binary", "later"] {
            if !plan[k].is_null() {
                let mut p = plan.clone();
                p[k] = J::Null;
                out.push(p);
            }
        }
        for (i, x) in f.iter().enumerate() {
            if x["sticky"] == true {
                let mut p = plan.clone();
                p["faults"][i]["sticky"] = json!(false);
                out.push(p);
            }
        }
        out
    }
    fn panic_is_violation(&self) -> bool {
        false
    }
    fn rule(&self) -> String {
        "distinct histories of file operations with their faults and results".into()
    }
    fn components(&self) -> J {
        components()
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["interruption (EINTR) is injected where the operating system may report it: open, read, write, fsync".into()]
    }
}

// ---------------------------------------------------------------- C08

fn c08(ctx: &Ctx, plan: &J, full: bool, o: &mut Outcome) {
    let b = base(ctx);
    let mut w = World::new(ctx, &b, full);
    prepare_world(&mut w, plan, BIN);
    let empty = vec![];
    let pj = plan["procs"].as_array().unwrap_or(&empty);
    let order = plan["order"].as_array().unwrap_or(&empty);
    let mut procs: Vec<Proc> = pj
        .iter()
        .map(|p| {
            let ri = us(&p["req"]) % b.reqs.len();
            w.start(ri, &b.reqs[ri], p["pid"].as_u64().unwrap_or(1), p["rand"].as_u64().unwrap_or(1))
        })
        .collect();
    let kill = &plan["kill"];
    let mut killed = vec![false; procs.len()];
    let mut ended = vec![false; procs.len()];
    let mut step = 0usize;
    let prev = w.file("res/tx.json");
    let mut switches = 0u64;
    let mut last = usize::MAX;
    loop {
        // ends
        for i in 0..procs.len() {
            if let (Some(e), false) = (procs[i].exit.clone(), ended[i]) {
                ended[i] = true;
                let tx = w.file("res/tx.json");
                w.log.push(format!("p{} of {} ended: {:?}, tx.json: {}", i, b.reqs[procs[i].req].show(), e, brief(&tx)));
                o.cases += 1;
                if killed[i] {
                    continue;
                }
                if procs[i].hung {
                    o.fail("hang", format!("prover {} does not end", i));
                } else if e != Exit::Code(0) {
                    o.fail("disturbed", format!("prover {} ({}) fails with {:?} next to the others", i, b.reqs[procs[i].req].show(), e));
                } else {
                    let good = tx.as_ref().map_or(false, |t| {
                        procs.iter().any(|p| *t == b.tx[p.req]) || procs.iter().any(|p| complete(&b, p.req, &b.reqs[p.req], BIN, t).is_ok())
                    });
                    if !good {
                        o.fail("mixed-tx", format!("after prover {} finished, the transaction file ({}; before: {}) is not a valid transaction of any request", i, brief(&tx), brief(&prev)));
                    } else {
                        o.probe("finished-among-others");
                    }
                }
            }
        }
        if o.violation.is_some() {
            break;
        }
        let live: Vec<usize> = (0..procs.len()).filter(|i| procs[*i].exit.is_none()).collect();
        if live.is_empty() {
            break;
        }
        let pick = match order.get(step) {
            Some(x) => live[us(x) % live.len()],
            None => live[0],
        };
        step += 1;
        if step > 8000 {
            o.fail("hang", "the provers do not end".into());
            break;
        }
        if pick != last {
            switches += 1;
            last = pick;
        }
        let mut act = Act::Go;
        if !kill.is_null() && us(&kill["proc"]) % procs.len() == pick && procs[pick].ops == us(&kill["op"]) && !killed[pick] {
            act = act_of(kill);
            if let (Act::Torn(_), Some(op)) = (&act, &procs[pick].pending) {
                act = if op.name == "write" && op.a > 0 { Act::Torn(us(&kill["n"]) % op.a as usize) } else { Act::KillBefore };
            }
            killed[pick] = true;
            o.fault(&format!("kill@{}", procs[pick].pending.as_ref().map(|x| x.name.clone()).unwrap_or_default()));
        }
        let who = format!("p{}", pick);
        let mut p = std::mem::replace(&mut procs[pick], dummy());
        w.perform(&mut p, &act, &who);
        procs[pick] = p;
    }
    o.count("fault:context-switch", switches);
    let any_ok = (0..procs.len()).any(|i| procs[i].exit == Some(Exit::Code(0)));
    let reqs: Vec<usize> = procs.iter().map(|p| p.req).collect();
    drop(procs);
    if o.violation.is_none() && any_ok {
        let tx = w.file("res/tx.json");
        if !tx.as_ref().map_or(false, |t| reqs.iter().any(|r| *t == b.tx[*r])) {
            o.fail("mixed-tx", format!("at the end the transaction file ({}) is none of those the provers write alone", brief(&tx)));
        }
    }
    if o.violation.is_none() {
        w.mount();
        let lj = us(&plan["later"]) % b.reqs.len();
        let mut p = w.start(lj, &b.reqs[lj], 61000, 1);
        w.finish(&mut p, "later");
        let exit = p.exit.clone();
        drop(p);
        let after = w.file("res/tx.json");
        w.log.push(format!("later run of {} ended: {:?}, tx.json: {}", b.reqs[lj].show(), exit, brief(&after)));
        if exit != Some(Exit::Code(0)) || !after.as_ref().map_or(false, |x| same_as_clean(&b, lj, BIN, x)) {
            o.fail("later-run", format!("the undisturbed run of {} afterwards ended with {:?} and left {}", b.reqs[lj].show(), exit, brief(&after)));
        }
    }
    close_world(w, o);
}

impl Prop for C08 {
    fn id(&self) -> &'static str {
        "C08"
    }
    fn budget(&self, tier: Tier) -> Budget {
        match tier {
            Tier::Quick => Budget { runs: 100000, secs: 22, workers: 8, timeout: 600, mem_mb: 6000 },
            Tier::Thorough => Budget { runs: 10_000_000, secs: 700, workers: 8, timeout: 600, mem_mb: 6000 },
        }
    }
    fn setup(&self, ctx: &Ctx) -> Result<(), (String, String)> {
        os_setup(ctx, &os_requests(ctx.seed, ctx.tier == Tier::Thorough))
    }
    fn gen(&self, ctx: &Ctx, idx: u64) -> J {
        let b = base(ctx);
        let n = b.reqs.len();
        let mut rng = Rng::new(run_seed(ctx.seed, "C08", idx));
        let np = *rng.pick(&[2usize, 2, 2, 3]);
        let pid = 40000 + rng.below(10000);
        let same = rng.chance(1, 4);
        let first = rng.below(n);
        let procs: Vec<J> = (0..np)
            .map(|i| json!({"req": if same { first } else { rng.below(n) }, "pid": pid + 50 * i + rng.below(50), "rand": 1 + rng.below(1000)}))
            .collect();
        let mut order = vec![];
        let bursty = rng.chance(1, 2);
        while order.len() < 90 * np {
            let w = rng.below(np * 7);
            let k = if bursty { 1 + rng.below(12) } else { 1 + rng.below(2) };
            for _ in 0..k {
                order.push(json!(w));
            }
        }
        let cache = gen_cache(&mut rng, n);
        let kill = if rng.chance(1, 4) {
            let ri = us(&procs[0]["req"]);
            json!({"proc": rng.below(np), "op": rng.below(b.ops_cold[ri] + 1), "act": *rng.pick(&["K", "D", "T"]), "n": rng.below(60000)})
        } else {
            J::Null
        };
        json!({"procs": procs, "order": order, "cache": cache, "prev": gen_prev(&mut rng, n), "kill": kill, "later": rng.below(n), "full": rng.chance(1, 150)})
    }
    fn exec(&self, ctx: &Ctx, plan: &J) -> Outcome {
        confirmed(ctx, plan, c08)
    }
    fn shrink(&self, plan: &J) -> Vec<J> {
        let mut out = vec![];
        let procs = plan["procs"].as_array().cloned().unwrap_or_default();
        if procs.len() > 2 {
            for i in 0..procs.len() {
                let mut r = procs.clone();
                r.remove(i);
                let mut p = plan.clone();
                p["procs"] = J::Array(r);
                out.push(p);
            }
        }
        for k in ["cache", "prev", "kill"] {
            if !plan[k].is_null() {
                let mut p = plan.clone();
                p[k] = J::Null;
                out.push(p);
            }
        }
        // fewer context switches: remove or level out stretches of the schedule
        let ord = plan["order"].as_array().cloned().unwrap_or_default();
        let mut size = ord.len() / 2;
        while size >= 4 && out.len() < 40 {
            let mut i = 0;
            while i + size <= ord.len() {
                let mut r = ord.clone();
                r.drain(i..i + size);
                let mut p = plan.clone();
                p["order"] = J::Array(r);
                out.push(p);
                i += size;
            }
            size /= 2;
        }
        out
    }
    fn panic_is_violation(&self) -> bool {
        false
    }
    fn rule(&self) -> String {
        "distinct interleavings of file operations with their results".into()
    }
    fn components(&self) -> J {
        components()
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["provers that run at the same time have different process ids".into(), "one file operation happens at a time".into()]
    }
}
