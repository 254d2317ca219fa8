//! C02 (deviating provers) and C03 (corrupted witness cells).

use crate::bf::*;
use crate::core::*;
use crate::evil::*;
use crate::rec;
use ff::Field;
use halo2_proofs::halo2curves::bn256::Fr;
use serde_json::{json, Value as J};
use std::collections::{BTreeMap, BTreeSet};

pub struct C02;
pub struct C03;

fn second_phase<const R: usize>(sh: &Shape<R>) -> BTreeSet<usize> {
    (0..sh.sys.n_advice).filter(|c| sh.sys.phase[*c] > 0).collect()
}

pub fn program_of(plan: &J) -> (Vec<u8>, Vec<u8>) {
    (plan["src"].as_str().unwrap_or("").as_bytes().to_vec(), unhex(plan["input"].as_str().unwrap_or("")))
}

/// One instruction less (with its partner), or a shorter input.
pub fn shrink_program(plan: &J, bits: u32) -> Vec<J> {
    let (src, input) = program_of(plan);
    let mut out = vec![];
    let p = match Program::parse(&src) {
        Some(p) => p,
        None => return out,
    };
    let mut seen = BTreeSet::new();
    for i in 0..p.ops.len() {
        let mut cut = vec![i];
        if p.ops[i] == b'[' {
            cut.push(p.jump[i]);
        } else if p.ops[i] == b']' {
            continue;
        }
        let s: Vec<u8> = (0..p.ops.len()).filter(|j| !cut.contains(j)).map(|j| p.ops[j]).collect();
        if s.is_empty() || !seen.insert(s.clone()) {
            continue;
        }
        let q = Program::parse(&s).unwrap();
        let mut inp = input.clone();
        inp.extend([1, 0, 2, 3]);
        let r = reference(&q, &inp, bits, 3000);
        if r.end != End::Halt || r.consumed > input.len() {
            continue;
        }
        let mut j = plan.clone();
        j["src"] = json!(String::from_utf8(s).unwrap());
        j["input"] = json!(hex(&inp[..r.consumed]));
        out.push(j);
    }
    out
}

enum Verdict {
    NotForged,
    Unsat,
    /// all constraints satisfied, and the real verifier accepted
    Accepted(String),
    /// satisfied in the evaluator, but the real prover or verifier did not go along
    Unconfirmed(String),
    Skip(String),
}

/// Which constraints a forged witness broke: the state key of an attack.
fn broken_key<const R: usize>(sh: &Shape<R>, b: &[rec::Broken]) -> String {
    let mut v: BTreeSet<String> = BTreeSet::new();
    for x in b {
        v.insert(match x {
            rec::Broken::Gate(g, _) => sh.sys.gates[*g].0.clone(),
            rec::Broken::Lookup(l, _) => format!("lookup{}", l),
            rec::Broken::Copy(_) => "copy".into(),
        });
    }
    v.into_iter().collect::<Vec<_>>().join("|")
}

/// The witness of a forged claim, and the cells in which it deviates from what the circuit itself would
/// assign for the public statement.
fn forged_trace<const R: usize>(
    sh: &Shape<R>,
    f: &Forged,
    k: u32,
    seed: u64,
) -> Result<(rec::Trace<Fr>, BTreeMap<(usize, usize), Fr>), String> {
    let base = record(sh, &f.m, k, &f.inst, seed).map_err(|e| format!("{:?}", e))?;
    let mut cells = BTreeMap::new();
    let mut tr = match &f.own {
        // copies of the statement follow the public one
        None => base.clone(),
        // copies of the statement are the prover's own
        Some(own) => {
            let mut t = record(sh, &f.m, k, own, seed).map_err(|e| format!("{:?}", e))?;
            t.instance = base.instance.clone();
            t
        }
    };
    if f.own.is_none() {
        for (a, b) in base.copies.iter() {
            for (x, y) in [(a, b), (b, a)] {
                if x.kind == rec::Kind::Advice && y.kind == rec::Kind::Instance && base.cell(*x) != base.cell(*y) {
                    tr.advice[x.col][x.row] = Some(base.cell(*y));
                }
            }
        }
    }
    for c in 0..sh.sys.n_advice {
        if sh.sys.phase[c] == 0 {
            for r in 0..tr.usable {
                if tr.advice[c][r] != base.advice[c][r] {
                    cells.insert((c, r), tr.advice[c][r].unwrap_or(Fr::zero()));
                }
            }
        }
    }
    Ok((tr, cells))
}

fn attempt<const R: usize>(
    sh: &Shape<R>,
    kind: &str,
    seed: u64,
    src: &[u8],
    input: &[u8],
    bits: u32,
    force_real: bool,
    real_limit: u32,
    o: &mut Outcome,
) -> Verdict {
    let f = match forge(kind, seed, src, input, bits) {
        None => return Verdict::NotForged,
        Some(f) => f,
    };
    if f.m.processor_matrix.is_empty() || f.m.instruction_matrix.is_empty() || f.m.memory_matrix.is_empty() {
        return Verdict::NotForged;
    }
    o.fault(kind);
    o.steps += f.m.processor_matrix.len() as u64;
    let k = min_k(sh, &f.m, &f.inst).max(f.own.as_ref().map_or(0, |i| min_k(sh, &f.m, i)));
    let (tr, cells) = match catch(|| forged_trace(sh, &f, k, seed)) {
        Err(e) => return Verdict::Skip(e),
        Ok(Err(e)) => return Verdict::Skip(e),
        Ok(Ok(t)) => t,
    };
    // The second round as the circuit computes it, and the best second round there is.
    let mut solved = tr.clone();
    let ok = rec::solve(&sh.sys, &mut solved, &second_phase(sh), &Default::default());
    let b1 = if ok { rec::check(&sh.sys, &solved, 1) } else { vec![] };
    let b0 = rec::check(&sh.sys, &tr, 40);
    let key = broken_key(sh, &b0);
    let mut h = Hash::new();
    h.add(kind.as_bytes()).add(key.as_bytes());
    o.keys.insert(h.0);
    let sat = b0.is_empty() || (ok && b1.is_empty());
    if !sat && !force_real {
        return Verdict::Unsat;
    }
    if k > if sat { 12 } else { real_limit } {
        return if sat { Verdict::Accepted(format!("{} (evaluator only, k={})", f.what, k)) } else { Verdict::Unsat };
    }
    let tamper = if b0.is_empty() && cells.is_empty() {
        None
    } else {
        Some(Tampering { sys: sh.sys.clone(), k, cells, solve: true, instance: f.inst.clone() })
    };
    o.count("real_proofs", 1);
    match real_run::<R>(&f.m, k, &f.inst, tamper, seed ^ 1) {
        Real::Accepted => Verdict::Accepted(f.what),
        Real::Rejected if sat => Verdict::Unconfirmed("rejected".into()),
        Real::NoProof(e) if sat => Verdict::Unconfirmed(e),
        _ => Verdict::Unsat,
    }
}

impl Prop for C02 {
    fn id(&self) -> &'static str {
        "C02"
    }
    fn budget(&self, tier: Tier) -> Budget {
        match tier {
            Tier::Quick => Budget { runs: 100_000, secs: 45, workers: 8, timeout: 120, mem_mb: 6000 },
            Tier::Thorough => Budget { runs: 10_000_000, secs: 1500, workers: 8, timeout: 240, mem_mb: 6000 },
        }
    }
    fn gen(&self, ctx: &Ctx, idx: u64) -> J {
        let mut rng = Rng::new(run_seed(ctx.seed, "C02", idx));
        let wide = rng.chance(1, 12);
        let budget = if wide { rng.range(20, 220) } else { *rng.pick(&[8, 14, 20, 30, 44]) };
        let bits = if wide { 8 } else { 4 };
        let invalid = !wide && rng.chance(1, 4);
        let (src, input) = if invalid { gen_invalid(&mut rng, bits, budget) } else { gen_case(&mut rng, bits, budget) };
        let n = 60;
        let attacks: Vec<J> = (0..n)
            .map(|_| {
                let k = *rng.pick(KINDS);
                json!([k, rng.u64().to_string(), false])
            })
            .collect();
        let mut attacks = attacks;
        if !wide {
            // one of them goes through the real prover and verifier whatever the evaluator says
            let i = rng.below(n);
            attacks[i][2] = json!(true);
        }
        json!({"src": String::from_utf8(src).unwrap(), "input": hex(&input), "wide": wide, "attacks": attacks, "honest": !invalid && rng.chance(1, 8)})
    }
    fn exec(&self, _ctx: &Ctx, plan: &J) -> Outcome {
        let mut o = Outcome::default();
        if plan["wide"] == true {
            run02::<256>(plan, 8, 0, &mut o);
        } else {
            run02::<16>(plan, 4, 9, &mut o);
        }
        o
    }
    fn shrink(&self, plan: &J) -> Vec<J> {
        let mut out = vec![];
        let a = plan["attacks"].as_array().unwrap();
        if a.len() > 1 {
            let half = a.len() / 2;
            for part in [&a[..half], &a[half..]] {
                let mut j = plan.clone();
                j["attacks"] = json!(part);
                out.push(j);
            }
            return out;
        }
        out.extend(shrink_program(plan, if plan["wide"] == true { 8 } else { 4 }));
        out
    }
    fn panic_is_violation(&self) -> bool {
        false
    }
    fn rule(&self) -> String {
        "A run draws a halting program and input and up to 60 deviations of the prover (kind and seed): each is executed as a deviating trace, carried through all tables, completed by the best possible second round (linear solving under the verifier's challenges), and judged by the constraint evaluator; any satisfied forgery, and one further per run, is proved and verified by the real code. Distinct = (kind of deviation, set of constraints that stopped it); only claims that differ from the run of the reference machine count.".into()
    }
    fn components(&self) -> J {
        json!({"real": ["ckb_bf_base circuit (configure and synthesize)", "halo2_proofs keygen, prover, verifier, transcript, KZG/SHPLONK", "halo2curves"],
               "stub_or_model": ["deviating machine instead of ckb_bf_vm's interpreter", "constraint evaluator and second-round solver (decide which forgeries go to the real verifier)", "cell range 16 instead of 256 in 11 of 12 runs; range 256 evaluated without the real prover"]})
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["parameters and keys come from the honest setup and from the shape of the claimed trace".into(), "polynomial commitments are binding".into(), "a forgery the linear second-round solver cannot complete is treated as rejected unless it was proved for real".into()]
    }
}

fn run02<const R: usize>(plan: &J, bits: u32, real_limit: u32, o: &mut Outcome) {
    let (src, input) = program_of(plan);
    let sh = shape::<R>();
    o.ev(format!("program {} input {} cells of {} bits", plan["src"], plan["input"], bits));
    for a in plan["attacks"].as_array().unwrap() {
        let kind = a[0].as_str().unwrap();
        let seed: u64 = a[1].as_str().unwrap().parse().unwrap();
        let v = attempt::<R>(&sh, kind, seed, &src, &input, bits, a[2] == true, real_limit, o);
        let s = match &v {
            Verdict::NotForged => {
                continue;
            }
            Verdict::Unsat => "rejected".to_string(),
            Verdict::Accepted(w) => format!("ACCEPTED ({})", w),
            Verdict::Unconfirmed(e) => format!("satisfied but not accepted: {}", e),
            Verdict::Skip(e) => format!("cannot be assigned: {}", e),
        };
        o.cases += 1;
        o.ev(format!("deviation {} seed {}: {}", kind, seed, s));
        match v {
            Verdict::Accepted(w) => {
                o.sample = Some(json!({"program": plan["src"], "input": plan["input"], "deviation": w}));
                o.fail(
                    "forged-execution-accepted",
                    format!("deviation {} ({}) on program {} input {} is accepted", kind, w, plan["src"], plan["input"]),
                );
                return;
            }
            Verdict::Unconfirmed(_) => o.count("unconfirmed", 1),
            Verdict::Skip(_) => o.count("unassignable", 1),
            _ => {}
        }
        if o.sample.is_none() {
            o.sample = Some(json!({"program": plan["src"], "input": plan["input"], "deviation": kind, "seed": seed.to_string(), "verdict": s}));
        }
    }
    // The same machinery accepts the honest claim.
    if plan["honest"] == true {
        let m = honest_by_model(&src, &input, bits);
        let inst = instances(&Program::parse(&src).unwrap().words(), &input);
        let k = min_k(&sh, &m, &inst);
        let good = match record(&sh, &m, k, &inst, 3) {
            Ok(tr) => rec::check(&sh.sys, &tr, 1).is_empty(),
            Err(_) => false,
        };
        o.count(if good { "honest_satisfied" } else { "honest_unsatisfied" }, 1);
    }
}

// ---------------------------------------------------------------- C03

fn corrupt_value(rng: &mut Rng, cur: Fr, tr: &rec::Trace<Fr>, col: usize) -> Fr {
    loop {
        let v = match rng.below(8) {
            0 => cur + Fr::one(),
            1 => cur - Fr::one(),
            2 => Fr::zero(),
            3 => -cur,
            4 => cur.double(),
            5 => {
                // the value of another row of the column
                let r = rng.below(tr.usable);
                tr.get(rec::Kind::Advice, col, r)
            }
            6 => {
                // a flipped bit
                let b = rng.below(12);
                cur + fr(1i64 << b)
            }
            _ => Fr::random(&mut *rng),
        };
        if v != cur {
            return v;
        }
    }
}

fn queried<const R: usize>(sh: &Shape<R>, tr: &rec::Trace<Fr>) -> BTreeSet<usize> {
    fn walk(e: &rec::E<Fr>, s: &mut BTreeSet<usize>) {
        match e {
            rec::E::Cell(rec::Kind::Advice, c, _) => {
                s.insert(*c);
            }
            rec::E::Neg(a) | rec::E::Scaled(a, _) => walk(a, s),
            rec::E::Sum(a, b) | rec::E::Prod(a, b) => {
                walk(a, s);
                walk(b, s);
            }
            _ => {}
        }
    }
    let mut s = BTreeSet::new();
    for (_, g) in &sh.sys.gates {
        walk(g, &mut s);
    }
    for (a, b) in &sh.sys.lookups {
        for e in a.iter().chain(b) {
            walk(e, &mut s);
        }
    }
    for (a, b) in &tr.copies {
        for c in [a, b] {
            if c.kind == rec::Kind::Advice {
                s.insert(c.col);
            }
        }
    }
    s
}

fn run03<const R: usize>(plan: &J, bits: u32, real_limit: u32, o: &mut Outcome) {
    let (src, input) = program_of(plan);
    let sh = shape::<R>();
    let m = honest_matrix(&src, &input, bits);
    let inst = instances(&Program::parse(&src).unwrap().words(), &input);
    let k = min_k(&sh, &m, &inst);
    let mut rng = Rng::new(plan["seed"].as_str().unwrap().parse().unwrap());
    o.ev(format!("program {} input {} k {}", plan["src"], plan["input"], k));
    let tr = match record(&sh, &m, k, &inst, rng.u64()) {
        Ok(t) => t,
        Err(e) => {
            o.fail("honest-rejected", format!("the honest trace of {} cannot be assigned: {:?}", plan["src"], e));
            return;
        }
    };
    let b = rec::check(&sh.sys, &tr, 3);
    if !b.is_empty() {
        o.fail("honest-rejected", format!("the honest trace of {} input {} violates {}", plan["src"], plan["input"], broken_key(&sh, &b)));
        return;
    }
    if plan["honest"] == true && k <= real_limit {
        o.count("real_proofs", 1);
        match real_run::<R>(&m, k, &inst, None, rng.u64()) {
            Real::Accepted => {}
            Real::Rejected => {
                o.fail("honest-rejected", format!("the honest proof of {} input {} is rejected", plan["src"], plan["input"]));
                return;
            }
            Real::NoProof(e) => {
                o.fail("honest-rejected", format!("no proof for {} input {}: {}", plan["src"], plan["input"], e));
                return;
            }
        }
    }
    let q = queried(&sh, &tr);
    let cells: Vec<(usize, usize)> = tr.order.iter().copied().filter(|(c, _)| q.contains(c)).collect();
    let second = second_phase(&sh);
    let only = plan["only"].as_u64();
    let rounds = plan["rounds"].as_u64().unwrap();
    for n in 0..rounds {
        // Every round draws from its own stream, so a single one can be replayed.
        let mut r = Rng::new(hash_bytes(format!("{} {}", plan["seed"], n).as_bytes()));
        if let Some(x) = only {
            if x != n {
                continue;
            }
        }
        let mut over: BTreeMap<(usize, usize), Fr> = BTreeMap::new();
        let kind;
        match r.below(10) {
            0..=5 => {
                kind = "single";
                let (c, w) = cells[r.below(cells.len())];
                let v = corrupt_value(&mut r, tr.get(rec::Kind::Advice, c, w), &tr, c);
                over.insert((c, w), v);
            }
            6 => {
                kind = "several";
                for _ in 0..r.range(2, 5) {
                    let (c, w) = cells[r.below(cells.len())];
                    let v = corrupt_value(&mut r, tr.get(rec::Kind::Advice, c, w), &tr, c);
                    over.insert((c, w), v);
                }
            }
            7 => {
                kind = "equal-values";
                // every cell that holds the same value as one cell, in all columns or in its row
                let (c, w) = cells[r.below(cells.len())];
                let cur = tr.get(rec::Kind::Advice, c, w);
                let v = corrupt_value(&mut r, cur, &tr, c);
                let same_row = r.chance(1, 2);
                for (c2, w2) in &cells {
                    if tr.get(rec::Kind::Advice, *c2, *w2) == cur && (!same_row || *w2 == w) && r.chance(3, 4) {
                        over.insert((*c2, *w2), v);
                    }
                }
                over.insert((c, w), v);
            }
            8 => {
                kind = "column-shift";
                let (c, w) = cells[r.below(cells.len())];
                let d = if r.chance(1, 2) { Fr::one() } else { Fr::random(&mut r) };
                for (c2, w2) in &cells {
                    if *c2 == c && *w2 >= w {
                        over.insert((c, *w2), tr.get(rec::Kind::Advice, c, *w2) + d);
                    }
                }
            }
            _ => {
                kind = "swap-rows";
                let (c, w) = cells[r.below(cells.len())];
                let (_, w2) = cells[r.below(cells.len())];
                let (a, b) = (tr.get(rec::Kind::Advice, c, w), tr.get(rec::Kind::Advice, c, w2));
                if a == b || !cells.contains(&(c, w2)) {
                    continue;
                }
                over.insert((c, w), b);
                over.insert((c, w2), a);
            }
        }
        o.cases += 1;
        o.fault(kind);
        let mut t = tr.clone();
        for ((c, w), v) in &over {
            t.advice[*c][*w] = Some(*v);
        }
        let adaptive = r.chance(1, 2);
        let fixed: BTreeSet<(usize, usize)> = over.keys().copied().collect();
        if adaptive {
            o.fault("adaptive-second-round");
            rec::solve(&sh.sys, &mut t, &second, &fixed);
        }
        let b = rec::check(&sh.sys, &t, 30);
        let mut h = Hash::new();
        h.add(kind.as_bytes()).add(broken_key(&sh, &b).as_bytes());
        for (c, _) in over.keys() {
            h.num(*c as u64);
        }
        o.keys.insert(h.0);
        o.steps += 1;
        let real = b.is_empty() && k <= 12 || plan["real"].as_u64() == Some(n) && k <= real_limit;
        let list: Vec<String> = over.iter().take(4).map(|((c, w), v)| format!("advice[{}][{}]={:?}", c, w, v)).collect();
        let what = format!("{} {}{}", kind, list.join(" "), if adaptive { ", second round adapted" } else { "" });
        o.ev(format!("round {}: {} -> {}", n, what, broken_key(&sh, &b)));
        if o.sample.is_none() {
            o.sample = Some(json!({"program": plan["src"], "corruption": what, "stopped_by": broken_key(&sh, &b)}));
        }
        if real {
            o.count("real_proofs", 1);
            let tamper = Tampering { sys: sh.sys.clone(), k, cells: over, solve: adaptive, instance: inst.clone() };
            match real_run::<R>(&m, k, &inst, Some(tamper), n) {
                Real::Accepted => {
                    o.fail(
                        "corrupted-witness-accepted",
                        format!("program {} input {}: {} is accepted (broken constraints: {})", plan["src"], plan["input"], what, broken_key(&sh, &b)),
                    );
                    return;
                }
                _ if b.is_empty() => o.count("unconfirmed", 1),
                _ => {}
            }
        } else if b.is_empty() {
            o.fail("corrupted-witness-accepted", format!("program {} input {}: {} satisfies every constraint", plan["src"], plan["input"], what));
            return;
        }
    }
}

impl Prop for C03 {
    fn id(&self) -> &'static str {
        "C03"
    }
    fn budget(&self, tier: Tier) -> Budget {
        match tier {
            Tier::Quick => Budget { runs: 100_000, secs: 45, workers: 8, timeout: 120, mem_mb: 6000 },
            Tier::Thorough => Budget { runs: 10_000_000, secs: 1500, workers: 8, timeout: 240, mem_mb: 6000 },
        }
    }
    fn gen(&self, ctx: &Ctx, idx: u64) -> J {
        let mut rng = Rng::new(run_seed(ctx.seed, "C03", idx));
        let wide = rng.chance(1, 12);
        let budget = if wide { rng.range(20, 220) } else { *rng.pick(&[6, 10, 16, 24, 40]) };
        let (src, input) = gen_case(&mut rng, if wide { 8 } else { 4 }, budget);
        let rounds = 150;
        json!({"src": String::from_utf8(src).unwrap(), "input": hex(&input), "wide": wide, "seed": rng.u64().to_string(),
               "rounds": rounds, "honest": rng.chance(1, 2), "real": if wide { -1 } else { rng.below(rounds) as i64 }})
    }
    fn exec(&self, _ctx: &Ctx, plan: &J) -> Outcome {
        let mut o = Outcome::default();
        if plan["wide"] == true {
            run03::<256>(plan, 8, 0, &mut o);
        } else {
            run03::<16>(plan, 4, 9, &mut o);
        }
        o
    }
    fn shrink(&self, plan: &J) -> Vec<J> {
        let mut out = vec![];
        if plan["only"].is_null() {
            // binary search over the prefix, then keep one round
            let n = plan["rounds"].as_u64().unwrap();
            if n > 1 {
                for m in [n / 2, n - 1] {
                    let mut j = plan.clone();
                    j["rounds"] = json!(m);
                    out.push(j);
                }
            }
            let mut j = plan.clone();
            j["only"] = json!(n - 1);
            out.push(j);
            return out;
        }
        out.extend(shrink_program(plan, if plan["wide"] == true { 8 } else { 4 }));
        out
    }
    fn rule(&self) -> String {
        "A run draws a halting program and input and 150 corruptions of the committed witness (single cells of any table and row, several cells, equal values replaced together, shifted columns, swapped rows; half of them with the second round adapted to the corruption). Each is judged by the constraint evaluator; a satisfied one, one further per run and the unaltered witness go through the real prover and verifier. Distinct = (kind, corrupted columns, set of constraints that noticed); every corrupted cell differs from the honest value.".into()
    }
    fn components(&self) -> J {
        json!({"real": ["ckb_bf_vm interpreter", "ckb_bf_base circuit", "halo2_proofs keygen, prover, verifier, KZG/SHPLONK", "halo2curves"],
               "stub_or_model": ["witness memory fault injector (floor planner wrapper)", "constraint evaluator and second-round solver", "cell range 16 instead of 256 in 11 of 12 runs; range 256 evaluated without the real prover"]})
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["columns that no constraint mentions are not part of the execution".into(), "the key is made for the shape of the honest trace".into()]
    }
}

/// Adequacy of the deviations: with each constraint left out in turn, some deviation has to get through
/// (evaluator only). Prints the constraints for which none did.
pub fn kill_matrix(seed: u64, tries: usize) {
    const R: usize = 16;
    let full = shape::<R>();
    let ngates = full.sys.gates.len();
    let nlook = full.sys.lookups.len();
    let second = second_phase(&full);
    // pool of forged traces
    let mut alive: BTreeMap<String, (usize, String)> = BTreeMap::new();
    let mut names: BTreeSet<String> = BTreeSet::new();
    for (n, _) in &full.sys.gates {
        names.insert(format!("gate {}", n));
    }
    for l in 0..nlook {
        names.insert(format!("lookup {}", l));
    }
    let mut rng = Rng::new(seed);
    for _ in 0..tries {
        let b = *rng.pick(&[8usize, 14, 20, 30, 44]);
        let (src, input) = if rng.chance(1, 4) { gen_invalid(&mut rng, 4, b) } else { gen_case(&mut rng, 4, b) };
        for _ in 0..60 {
            let kind = *rng.pick(KINDS);
            let s = rng.u64();
            let f = match forge(kind, s, &src, &input, 4) {
                Some(f) => f,
                None => continue,
            };
            if f.m.processor_matrix.is_empty() || f.m.memory_matrix.is_empty() {
                continue;
            }
            let k = min_k(&full, &f.m, &f.inst);
            let k = k.max(f.own.as_ref().map_or(0, |i| min_k(&full, &f.m, i)));
            let tr = match catch(|| forged_trace(&full, &f, k, s)) {
                Ok(Ok(t)) => t.0,
                _ => continue,
            };
            // groups of copies by the pair of columns (and constants by row)
            let group = |i: usize| {
                let (a, b) = tr.copies[i];
                format!("copy {:?}{}-{:?}{}", a.kind, a.col, b.kind, b.col)
            };
            for i in 0..tr.copies.len() {
                names.insert(group(i));
            }
            // first-round constraints that fail
            let mut failing: BTreeSet<String> = BTreeSet::new();
            let b0 = rec::check(&full.sys, &tr, 2000);
            for x in &b0 {
                match x {
                    rec::Broken::Gate(g, _) => {
                        failing.insert(format!("gate {}", full.sys.gates[*g].0));
                    }
                    rec::Broken::Lookup(l, _) => {
                        failing.insert(format!("lookup {}", l));
                    }
                    rec::Broken::Copy(c) => {
                        failing.insert(group(*c));
                    }
                }
            }
            let copies_only = failing.iter().all(|n| n.starts_with("copy"));
            if copies_only && !failing.is_empty() {
                for (g, e) in &full.sys.gates {
                    if rec::mentions(e, &second) {
                        failing.insert(format!("gate {}", g));
                    }
                }
                for i in 0..tr.copies.len() {
                    if group(i).contains("Fixed") {
                        failing.insert(group(i));
                    }
                }
            }
            if failing.len() == 1 {
                let n = failing.into_iter().next().unwrap();
                let e = alive.entry(n).or_insert((0, format!("{} on {} / {:?}", f.what, String::from_utf8_lossy(&src), input)));
                e.0 += 1;
            } else if copies_only || failing.len() <= 4 {
                // leave one out and solve the second round again
                for n in failing.clone() {
                    if alive.get(&n).map_or(false, |x| x.0 > 5) {
                        continue;
                    }
                    let mut sh = full.sys.clone();
                    let mut t = tr.clone();
                    if let Some(g) = n.strip_prefix("gate ") {
                        sh.gates.retain(|x| x.0 != g);
                    } else if let Some(l) = n.strip_prefix("lookup ") {
                        let l: usize = l.parse().unwrap();
                        sh.lookups.remove(l);
                    } else {
                        let keep: Vec<bool> = (0..t.copies.len()).map(|i| group(i) != n).collect();
                        let mut it = keep.iter();
                        t.copies.retain(|_| *it.next().unwrap());
                    }
                    let mut x = t.clone();
                    if rec::solve(&sh, &mut x, &second, &Default::default()) && rec::check(&sh, &x, 1).is_empty() {
                        let e = alive.entry(n).or_insert((0, format!("{} on {} / {:?} (solved)", f.what, String::from_utf8_lossy(&src), input)));
                        e.0 += 1;
                    }
                }
            }
        }
    }
    let _ = ngates;
    for n in &names {
        match alive.get(n) {
            Some((c, w)) => println!("{:5} {}   e.g. {}", c, n, w),
            None => println!(" NONE {}", n),
        }
    }
}
