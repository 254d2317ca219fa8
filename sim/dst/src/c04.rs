//! C04 and C05: the verifier script behind a faulty channel and failing witness loads.

use crate::core::*;
use crate::tx::*;
use ckb_bf_base::main_config::MyCircuit;
use ckb_bf_base::utils::{read_verifier_params, DOMAIN};
use ckb_bf_base::SHRINK_K;
use ckb_std::error::SysError;
use ckb_std::sim::Answer;
use halo2_proofs::halo2curves::bn256::{Bn256, Fr, G1Affine};
use halo2_proofs::plonk::VerifyingKey;
use halo2_proofs::poly::commitment::{Params, ParamsProver};
use halo2_proofs::poly::kzg::commitment::{ParamsKZG, ParamsVerifierKZG};
use halo2_proofs::SerdeFormat;
use serde_json::{json, Value as J};

pub struct C04;
pub struct C05;

const NAMES: [&str; 5] = ["params", "vk", "proof", "program", "input"];

fn requests(seed: u64, tier: Tier) -> Vec<Req> {
    let mut rng = Rng::new(seed ^ 0xC04);
    let mut v: Vec<Req> = vec![
        // same program, different inputs; program without input; nearly the same program
        Req { src: b",.".to_vec(), input: b"a".to_vec() },
        Req { src: b",.".to_vec(), input: b"b".to_vec() },
        Req { src: b"++>+[-].".to_vec(), input: vec![] },
        Req { src: b"++>+[-],".to_vec(), input: vec![1] },
    ];
    v.push(gen_req(&mut rng, 60, true));
    v.push(gen_req(&mut rng, 160, false));
    v.push(gen_req(&mut rng, 300, true));
    if tier == Tier::Thorough {
        for i in 0..9 {
            v.push(gen_req(&mut rng, 40 + 40 * i, i % 2 == 0));
        }
    }
    v
}

/// Honest transactions made by the real prover, stored as tx<i>.json below the scratch directory.
fn setup(ctx: &Ctx) -> Result<(), (String, String)> {
    let reqs = requests(ctx.seed, ctx.tier);
    let binary = b"verifier binary".to_vec();
    let jobs: Vec<_> = reqs.iter().map(|r| (r.clone(), binary.clone())).collect();
    let out = prove_all(&ctx.bin("prover"), &ctx.scratch.join("mk"), &jobs);
    let mut n = 0;
    let mut bad = vec![];
    for (r, b) in reqs.iter().zip(out) {
        match b.as_ref().and_then(|b| parse_tx(b)) {
            Some(t) => {
                if accepts(&t.wit) != Ok(true) {
                    return Err(("honest-rejected".into(), format!("the original transaction of {} is rejected", r.show())));
                }
                std::fs::write(ctx.scratch.join(format!("tx{}.json", n)), b.unwrap()).unwrap();
                n += 1;
            }
            None => bad.push(r.show()),
        }
    }
    if n < 2 {
        return Err(("no-original".into(), format!("no original transaction could be made and accepted: {:?}", bad)));
    }
    Ok(())
}

fn load(ctx: &Ctx) -> Vec<Tx> {
    let mut v = vec![];
    while let Ok(b) = std::fs::read(ctx.scratch.join(format!("tx{}.json", v.len()))) {
        v.push(parse_tx(&b).unwrap());
    }
    v
}

/// Verifier parameters of another setup.
fn foreign_params(s: u64) -> Vec<u8> {
    let p = ParamsKZG::<Bn256>::unsafe_setup_with_s(2, Fr::from(s));
    let mut v: ParamsVerifierKZG<Bn256> = p.verifier_params().clone();
    v.shrink(SHRINK_K);
    let mut b = vec![];
    v.write(&mut b).unwrap();
    b
}

/// A description of the verifying key these bytes mean, None if they mean none.
fn key_of(b: &[u8]) -> Option<String> {
    catch(|| {
        let mut r = b;
        VerifyingKey::<G1Affine>::read::<&[u8], MyCircuit<Fr, DOMAIN>>(&mut r, SerdeFormat::RawBytes)
            .ok()
            .map(|k| format!("{:?}", k.pinned()))
    })
    .ok()
    .flatten()
}

fn params_of(b: &[u8]) -> Option<Vec<u8>> {
    catch(|| {
        let mut r = b;
        let p: ParamsVerifierKZG<Bn256> = read_verifier_params(&mut r).ok()?;
        let mut out = vec![];
        p.write(&mut out).ok()?;
        Some(out)
    })
    .ok()
    .flatten()
}

/// Is a rejection of these witnesses required, given the originals? None: undecided by this oracle.
/// Sound in one direction only: `must_reject` is claimed only where acceptance would break the property.
fn must_reject(w: &[Vec<u8>], all: &[Tx]) -> Result<(), String> {
    // Which original does the proof belong to? (the reader stops at the end of the proof)
    let cands: Vec<&Tx> = all.iter().filter(|t| w[2].starts_with(&t.wit[2])).collect();
    if cands.is_empty() {
        return Err("no original has this proof".into());
    }
    let mut why = String::new();
    for t in cands {
        if w[3] != t.wit[3] {
            why = "the proof is for another program".into();
            continue;
        }
        if w[4] != t.wit[4] {
            why = "the proof is for another input".into();
            continue;
        }
        if w[1] != t.wit[1] && key_of(&w[1]) != key_of(&t.wit[1]) {
            why = "the verifying key is another one".into();
            continue;
        }
        if w[0] != t.wit[0] && params_of(&w[0]) != params_of(&t.wit[0]) {
            // only what the check uses has to agree: a changed second generator has no effect
            let (a, b) = (w[0].clone(), t.wit[0].clone());
            if essential(&a) != essential(&b) {
                why = "the parameters are other ones".into();
                continue;
            }
        }
        return Ok(());
    }
    Err(why)
}

/// The parts of the parameters the verification equation uses: g[0], g2 and s*g2.
fn essential(b: &[u8]) -> Option<(Vec<u8>, Vec<u8>, Vec<u8>)> {
    catch(|| {
        let mut r = b;
        let p: ParamsVerifierKZG<Bn256> = read_verifier_params(&mut r).ok()?;
        Some((
            format!("{:?}", p.get_g()[0]).into_bytes(),
            format!("{:?}", p.g2()).into_bytes(),
            format!("{:?}", p.s_g2()).into_bytes(),
        ))
    })
    .ok()
    .flatten()
}

// ---------------------------------------------------------------- mutations

/// Applies one mutation to the five witnesses.
fn mutate(m: &J, w: &mut Vec<Vec<u8>>, all: &[Tx]) {
    let f = m["w"].as_u64().unwrap_or(0) as usize;
    let a = m["a"].as_u64().unwrap_or(0) as usize;
    let b = m["b"].as_u64().unwrap_or(0) as usize;
    let len = w[f].len();
    match m["op"].as_str().unwrap_or("") {
        "flip" if len > 0 => w[f][a % len] ^= 1 << (b % 8),
        "set" if len > 0 => w[f][a % len] = b as u8,
        "add" if len > 0 => w[f][a % len] = w[f][a % len].wrapping_add(1 + (b % 255) as u8),
        "cut" => w[f].truncate(a % (len + 1)),
        "clear" => w[f].clear(),
        "drop" if len > 0 => {
            let i = a % len;
            let n = (1 + b % 4).min(len - i);
            w[f].drain(i..i + n);
        }
        "insert" => {
            let i = a % (len + 1);
            let x = if b % 3 == 0 { vec![0] } else if b % 3 == 1 { vec![0, 0] } else { vec![(b / 3) as u8] };
            w[f].splice(i..i, x);
        }
        "extend" => {
            let n = 1 + a % 40;
            let z = if b % 2 == 0 { 0 } else { (b / 2) as u8 };
            w[f].extend(vec![z; n]);
        }
        "overlong" => {
            let cap = [1024usize, 4096, 8192, 2048, 1024][f];
            let z = if b % 2 == 0 { 0 } else { (b / 2) as u8 };
            w[f].resize(cap.max(len) + 1 + a % 70, z);
        }
        "swapbytes" if len > 1 => {
            let (i, j) = (a % len, b % len);
            w[f].swap(i, j);
        }
        "swapwords" if len >= 4 => {
            let n = len / 2;
            let (i, j) = (a % n, b % n);
            for k in 0..2 {
                w[f].swap(2 * i + k, 2 * j + k);
            }
        }
        "swapelems" if len >= 64 => {
            // two transcript elements / curve points change places
            let size = if f == 2 { 32 } else { 64 };
            let off = if f == 1 { 8 } else if f == 0 { 4 } else { 0 };
            if len >= off + 2 * size {
                let n = (len - off) / size;
                let (i, j) = (a % n, b % n);
                for k in 0..size {
                    w[f].swap(off + size * i + k, off + size * j + k);
                }
            }
        }
        "copyelem" if len >= 64 => {
            let size = 32;
            let n = len / size;
            let (i, j) = (a % n, b % n);
            let e = w[f][size * i..size * (i + 1)].to_vec();
            w[f][size * j..size * (j + 1)].copy_from_slice(&e);
        }
        "zeroelem" if len >= 32 => {
            let n = len / 32;
            let i = a % n;
            for x in w[f][32 * i..32 * (i + 1)].iter_mut() {
                *x = 0;
            }
        }
        "addmod" if len >= 32 => {
            // the same element in a non-canonical encoding: plus the field modulus (Fr or Fq)
            let i = a % (len / 32);
            let q: [u64; 4] = if b % 2 == 0 {
                [0x43e1f593f0000001, 0x2833e84879b97091, 0xb85045b68181585d, 0x30644e72e131a029]
            } else {
                [0x3c208c16d87cfd47, 0x97816a916871ca8d, 0xb85045b68181585d, 0x30644e72e131a029]
            };
            let s = &mut w[f][32 * i..32 * (i + 1)];
            let mut c = 0u128;
            for k in 0..4 {
                let v = u64::from_le_bytes(s[8 * k..8 * k + 8].try_into().unwrap());
                let t = v as u128 + q[k] as u128 + c;
                s[8 * k..8 * k + 8].copy_from_slice(&(t as u64).to_le_bytes());
                c = t >> 64;
            }
        }
        "fromother" => w[f] = all[a % all.len()].wit[f].clone(),
        "both" => {
            // program and input of another transaction
            let t = &all[a % all.len()];
            w[3] = t.wit[3].clone();
            w[4] = t.wit[4].clone();
        }
        "exchange" => {
            let g = a % 5;
            w.swap(f, g);
        }
        "foreign" => w[0] = foreign_params(2 + (b % 40) as u64),
        "random" => {
            let mut r = Rng::new(b as u64);
            let n = r.below(len + 50);
            w[f] = r.bytes(n);
        }
        "splice" => {
            // the tail of the same witness of another transaction
            let t = &all[a % all.len()].wit[f];
            let i = b % (len + 1);
            w[f].truncate(i);
            if i < t.len() {
                w[f].extend_from_slice(&t[i..]);
            }
        }
        "header" if len >= 4 => {
            // counts and sizes at the head of params and vk
            let i = a % 8.min(len);
            w[f][i] = b as u8;
        }
        _ => {}
    }
}

fn gen_mut(rng: &mut Rng, c05: bool) -> J {
    let ops4: &[&str] = &[
        "flip", "flip", "flip", "add", "cut", "drop", "insert", "extend", "swapbytes", "swapwords", "swapelems", "copyelem",
        "zeroelem", "addmod", "fromother", "both", "splice", "foreign", "clear",
    ];
    let ops5: &[&str] = &[
        "flip", "set", "cut", "clear", "drop", "insert", "extend", "overlong", "exchange", "random", "splice", "header",
        "header", "addmod", "fromother", "foreign", "zeroelem", "swapelems",
    ];
    let op = *rng.pick(if c05 { ops5 } else { ops4 });
    let f = match op {
        "swapwords" => 3,
        "header" => rng.below(2),
        "extend" | "insert" if !c05 => rng.range(3, 4),
        "addmod" => rng.below(3),
        _ if c05 => rng.below(5),
        _ => *rng.pick(&[2usize, 2, 2, 3, 3, 4, 4, 1, 0]),
    };
    json!({"op": op, "w": f, "a": rng.u64() >> 16, "b": rng.u64() >> 16})
}

// ---------------------------------------------------------------- one delivery

/// How the loads of one script run behave.
fn deliver(wit: &[Vec<u8>], loads: &J) -> (Result<i8, String>, Vec<usize>) {
    let w = wit.to_vec();
    let faults: Vec<(usize, String, usize)> = loads
        .as_array()
        .map(|a| {
            a.iter()
                .map(|x| {
                    (x["w"].as_u64().unwrap_or(0) as usize, x["kind"].as_str().unwrap_or("").to_string(), x["n"].as_u64().unwrap_or(0) as usize)
                })
                .collect()
        })
        .unwrap_or_default();
    run_script_loads(Box::new(move |i| {
        for (f, kind, n) in &faults {
            if *f == i {
                match kind.as_str() {
                    "index" => return Answer::Fail(SysError::IndexOutOfBound),
                    "missing" => return Answer::Fail(SysError::ItemMissing),
                    "short" => return Answer::Fail(SysError::LengthNotEnough(*n)),
                    "encoding" => return Answer::Fail(SysError::Encoding),
                    "unknown" => return Answer::Fail(SysError::Unknown(*n as u64)),
                    _ => {}
                }
            }
        }
        match w.get(i) {
            Some(b) => Answer::Bytes(b.clone()),
            None => Answer::Fail(SysError::IndexOutOfBound),
        }
    }))
}

fn exec(ctx: &Ctx, plan: &J) -> Outcome {
    let mut o = Outcome::default();
    let all = load(ctx);
    let empty = vec![];
    for (i, d) in plan["deliveries"].as_array().unwrap_or(&empty).iter().enumerate() {
        let t = &all[d["tx"].as_u64().unwrap_or(0) as usize % all.len()];
        let mut w = t.wit.clone();
        for m in d["mut"].as_array().unwrap_or(&empty) {
            mutate(m, &mut w, &all);
            o.fault(&format!("{}({})", m["op"].as_str().unwrap_or(""), NAMES[m["w"].as_u64().unwrap_or(0) as usize]));
        }
        if !d["loads"].is_null() {
            for l in d["loads"].as_array().unwrap_or(&empty) {
                o.fault(&format!("load-{}({})", l["kind"].as_str().unwrap_or(""), NAMES[l["w"].as_u64().unwrap_or(0) as usize]));
            }
        }
        let (r, failed) = deliver(&w, &d["loads"]);
        o.cases += 1;
        o.steps += 5;
        let verdict = match &r {
            Ok(0) => "accepted".to_string(),
            Ok(n) => format!("rejected({})", n),
            Err(m) => format!("stopped by a panic: {}", m),
        };
        let what = format!("delivery {}: tx {} with {} and {}: {}", i, d["tx"], d["mut"], d["loads"], verdict);
        o.ev(what.clone());
        let mut h = Hash::new();
        for m in d["mut"].as_array().unwrap_or(&empty) {
            h.add(m["op"].as_str().unwrap_or("").as_bytes()).num(m["w"].as_u64().unwrap_or(0));
            h.num(m["a"].as_u64().unwrap_or(0) % (t.wit[m["w"].as_u64().unwrap_or(0) as usize].len() as u64 + 1));
        }
        h.add(d["loads"].to_string().as_bytes()).num(d["tx"].as_u64().unwrap_or(0)).add(verdict.as_bytes());
        o.keys.insert(h.0);
        let accepted = r == Ok(0);
        if accepted {
            o.probe("accepted");
            if let Some(i) = failed.first() {
                o.fail("accepted-failed-load", format!("accepted although the {} could not be loaded completely; {}", NAMES[*i % 5], what));
                break;
            }
            if let Err(why) = must_reject(&w, &all) {
                o.fail("accepted-invalid", format!("{}; {}", why, what));
                break;
            }
        } else {
            o.probe("rejected");
            if failed.is_empty() && all.iter().any(|t| t.wit == w) {
                o.fail("rejected-original", format!("an original transaction is rejected; {}", what));
                break;
            }
        }
    }
    o
}

fn shrink(plan: &J) -> Vec<J> {
    let mut out = vec![];
    let d = plan["deliveries"].as_array().cloned().unwrap_or_default();
    if d.len() > 1 {
        for i in (0..d.len()).rev() {
            out.push(json!({"deliveries": [d[i]]}));
        }
        out.push(json!({"deliveries": d[..d.len() / 2]}));
        out.push(json!({"deliveries": d[d.len() / 2..]}));
        for i in 0..d.len() {
            let mut e = d.clone();
            e.remove(i);
            out.push(json!({ "deliveries": e }));
        }
    } else if d.len() == 1 {
        for key in ["mut", "loads"] {
            let m = d[0][key].as_array().cloned().unwrap_or_default();
            for i in 0..m.len() {
                let mut e = m.clone();
                e.remove(i);
                let mut x = d[0].clone();
                x[key] = J::Array(e);
                out.push(json!({"deliveries": [x]}));
            }
        }
    }
    out
}

impl Prop for C04 {
    fn id(&self) -> &'static str {
        "C04"
    }
    fn budget(&self, tier: Tier) -> Budget {
        match tier {
            Tier::Quick => Budget { runs: 100000, secs: 28, workers: 8, timeout: 120, mem_mb: 4096 },
            Tier::Thorough => Budget { runs: 10_000_000, secs: 700, workers: 8, timeout: 120, mem_mb: 4096 },
        }
    }
    fn setup(&self, ctx: &Ctx) -> Result<(), (String, String)> {
        setup(ctx)
    }
    fn gen(&self, ctx: &Ctx, idx: u64) -> J {
        let mut rng = Rng::new(run_seed(ctx.seed, "C04", idx));
        let n = load(ctx).len();
        let mut v = vec![];
        for _ in 0..rng.range(8, 24) {
            let muts: Vec<J> = match rng.below(10) {
                0 => vec![],
                1 => (0..2).map(|_| gen_mut(&mut rng, false)).collect(),
                _ => vec![gen_mut(&mut rng, false)],
            };
            let d = json!({"tx": rng.below(n), "mut": muts});
            v.push(d.clone());
            if rng.chance(1, 12) {
                v.push(d); // delivered twice
            }
        }
        // delivery order is part of the schedule
        for i in (1..v.len()).rev() {
            let j = rng.below(i + 1);
            v.swap(i, j);
        }
        json!({ "deliveries": v })
    }
    fn exec(&self, ctx: &Ctx, plan: &J) -> Outcome {
        exec(ctx, plan)
    }
    fn shrink(&self, plan: &J) -> Vec<J> {
        shrink(plan)
    }
    fn panic_is_violation(&self) -> bool {
        false
    }
    fn rule(&self) -> String {
        "distinct (transaction, mutation kind, witness, position, verdict) combinations".into()
    }
    fn components(&self) -> J {
        json!({"real": ["prover binary (all honest transactions)", "verifier script program_entry with halo2_proofs verifier, key and parameter decoding"],
               "stub_or_model": ["CKB runtime: load_witness, debug (deterministic in-process stand-in)", "channel between prover and chain (seeded loss, flips, truncation, swaps, duplication, reordering)"]})
    }
    fn assumptions(&self) -> Vec<String> {
        vec![
            "bytes after the end of a complete proof are not part of it".into(),
            "a script that panics counts as rejecting (the CKB runtime ends it with a non-zero status)".into(),
        ]
    }
}

impl Prop for C05 {
    fn id(&self) -> &'static str {
        "C05"
    }
    fn budget(&self, tier: Tier) -> Budget {
        match tier {
            Tier::Quick => Budget { runs: 100000, secs: 28, workers: 8, timeout: 120, mem_mb: 4096 },
            Tier::Thorough => Budget { runs: 10_000_000, secs: 700, workers: 8, timeout: 120, mem_mb: 4096 },
        }
    }
    fn setup(&self, ctx: &Ctx) -> Result<(), (String, String)> {
        setup(ctx)
    }
    fn gen(&self, ctx: &Ctx, idx: u64) -> J {
        let mut rng = Rng::new(run_seed(ctx.seed, "C05", idx));
        let n = load(ctx).len();
        let mut v = vec![];
        for _ in 0..rng.range(8, 24) {
            let muts: Vec<J> = match rng.below(6) {
                0 | 1 => vec![],
                2 => (0..rng.range(2, 4)).map(|_| gen_mut(&mut rng, true)).collect(),
                _ => vec![gen_mut(&mut rng, true)],
            };
            let loads: Vec<J> = if rng.chance(1, 3) {
                (0..rng.range(1, 2))
                    .map(|_| {
                        json!({"w": rng.below(5), "kind": *rng.pick(&["index", "missing", "short", "encoding", "unknown"]),
                               "n": rng.below(9000)})
                    })
                    .collect()
            } else {
                vec![]
            };
            v.push(json!({"tx": rng.below(n), "mut": muts, "loads": loads}));
        }
        json!({ "deliveries": v })
    }
    fn exec(&self, ctx: &Ctx, plan: &J) -> Outcome {
        exec(ctx, plan)
    }
    fn shrink(&self, plan: &J) -> Vec<J> {
        shrink(plan)
    }
    fn panic_is_violation(&self) -> bool {
        false
    }
    fn rule(&self) -> String {
        "distinct (transaction, mutation kind, witness, position, failing load, verdict) combinations".into()
    }
    fn components(&self) -> J {
        C04.components()
    }
    fn assumptions(&self) -> Vec<String> {
        vec![
            "a script that panics or runs out of memory counts as stopped with a non-zero status".into(),
            "bounded work is judged by a generous limit per run (120 s for at most 24 deliveries)".into(),
        ]
    }
}
