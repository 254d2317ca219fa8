//! C01: honest executions, from the interpreter through the circuit to the prover program and the on-chain script.

use crate::bf::{self, *};
use crate::core::*;
use crate::osim;
use crate::rec;
use crate::tx::*;
use ckb_bf_base::utils::DOMAIN;
use serde_json::{json, Value as J};

fn source(rng: &mut Rng, ops: &[u8]) -> Vec<u8> {
    // comments between the instructions
    let mut v = vec![];
    for o in ops {
        if rng.chance(1, 6) {
            let n = rng.below(5);
            for _ in 0..n {
                v.push(*rng.pick(b" \n\tabcXYZ019()#!/\xc3\xa9\x00\xff"));
            }
        }
        v.push(*o);
    }
    v
}

/// Shapes that random programs rarely have.
fn shape_case(rng: &mut Rng, bits: u32, budget: usize) -> (Vec<u8>, Vec<u8>) {
    let top = ((1u32 << bits) - 1) as u8;
    let any = |r: &mut Rng| (r.u64() as u8) & top;
    loop {
        let (s, i): (Vec<u8>, Vec<u8>) = match rng.below(13) {
            0 => (vec![*rng.pick(b"+->.")], vec![]),
            1 => (b",".to_vec(), vec![any(rng)]),
            2 => {
                let n = rng.range(1, 6);
                let v: Vec<u8> = (0..n).map(|_| any(rng)).collect();
                (b",".repeat(n), v)
            }
            // read until zero and echo
            3 => {
                let n = rng.range(0, 6);
                let mut v: Vec<u8> = (0..n).map(|_| any(rng).max(1)).collect();
                v.push(0);
                (b",[.,]".to_vec(), v)
            }
            // copy loops, multiply
            4 => ([b"+".repeat(rng.range(1, 4)), b"[->".to_vec(), b"+".repeat(rng.range(1, 3)), b"<]>.".to_vec()].concat(), vec![]),
            // loop never entered, nested
            5 => (b"[[+]>]".to_vec(), vec![]),
            6 => (b"[,.]+".to_vec(), vec![]),
            // wrap around both ways
            7 => (b"-.+.".to_vec(), vec![]),
            8 if bits == 4 => (b"+".repeat(17), vec![]),
            // far right and back, old cells seen again
            9 => {
                let n = rng.range(1, 9);
                ([b"++".to_vec(), b">".repeat(n), b"+".to_vec(), b"<".repeat(n), b"-.".to_vec()].concat(), vec![])
            }
            // ends inside the last bracket
            10 => ([b"+".repeat(rng.range(1, 3)), b"[-]".to_vec()].concat(), vec![]),
            // jump targets and pointers beyond one byte
            11 if budget >= 300 => {
                let n = rng.range(250, budget - 30);
                let body: Vec<u8> = (0..n).map(|_| *rng.pick(b"+-.><+-.><+-.><,")).collect();
                let lead = rng.below(4);
                (["+-".repeat(lead).into_bytes(), b"[".to_vec(), body, b"]".to_vec(), rng.pick(&[&b"+."[..], b"++[-]", b"+[>+[-]<-]", b">+<[[+]-]"]).to_vec()].concat(), vec![])
            }
            _ => gen_case(rng, bits, budget),
        };
        let p = Program::parse(&s).unwrap();
        let r = reference(&p, &i, bits, budget);
        if r.end == End::Halt && r.consumed == i.len() && p.words().len() + r.steps <= budget {
            return (s, i);
        }
    }
}

fn show(src: &[u8], input: &[u8]) -> String {
    format!("{:?} on {:?}", String::from_utf8_lossy(src), input)
}

/// The interpreter's trace against the language.
fn vm(o: &mut Outcome, src: &[u8], input: &[u8], bits: u32) -> Option<ckb_bf_vm::matrix::Matrix> {
    let p = Program::parse(src).unwrap();
    let r = reference(&p, input, bits, 1 << 20);
    let m = match catch(|| honest_matrix(src, input, bits)) {
        Ok(m) => m,
        Err(e) => {
            o.fail("vm", format!("the interpreter panics on {}: {}", show(src, input), e));
            return None;
        }
    };
    o.steps += r.steps as u64;
    let words: Vec<i64> = p.words().iter().map(|x| *x as i64).collect();
    let got: Vec<i64> = m.program.iter().map(|x| small(*x)).collect();
    if got != words {
        o.fail("vm", format!("program of {} is {:?}, not {:?}", show(src, input), got, words));
        return None;
    }
    let out: Vec<i64> = m.output_matrix.iter().map(|x| small(*x)).collect();
    let want: Vec<i64> = r.output.iter().map(|x| *x as i64).collect();
    if out != want {
        o.fail("vm", format!("{} prints {:?}, the interpreter's trace has {:?}", show(src, input), want, out));
        return None;
    }
    let inp: Vec<i64> = m.input_matrix.iter().map(|x| small(*x)).collect();
    if inp != input.iter().map(|x| *x as i64).collect::<Vec<_>>() {
        o.fail("vm", format!("{} reads {:?} in the interpreter's trace", show(src, input), inp));
        return None;
    }
    for (i, s) in r.states.iter().enumerate() {
        let g = m.processor_matrix.get(i).map(|x| (small(x.instruction_pointer), small(x.memory_pointer), small(x.memory_value)));
        // whether the state after the last step has a row is the interpreter's business
        if g != Some((s.0 as i64, s.1 as i64, s.2 as i64)) && (i < r.steps || g.is_some()) {
            o.fail("vm", format!("step {} of {} starts in (ip, mp, value) {:?}, the interpreter has {:?}", i, show(src, input), s, g));
            return None;
        }
    }
    Some(m)
}

/// Every constraint of the circuit on the honest trace, for several second-round challenges.
fn eval<const R: usize>(o: &mut Outcome, sh: &Shape<R>, m: &ckb_bf_vm::matrix::Matrix, src: &[u8], input: &[u8], cs: u64) {
    let inst = instances(&Program::parse(src).unwrap().words(), input);
    let mut k = min_k::<R>(sh, m, &inst);
    let t = loop {
        match catch(|| record::<R>(sh, m, k, &inst, cs)) {
            Ok(Ok(t)) => break t,
            Ok(Err(e)) if format!("{:?}", e).contains("NotEnoughRows") && k < 13 => k += 1,
            Ok(Err(e)) => {
                o.fail("honest", format!("the trace of {} cannot be assigned: {:?}", show(src, input), e));
                return;
            }
            Err(e) => {
                o.fail("honest", format!("assigning the trace of {} panics: {}", show(src, input), e));
                return;
            }
        }
    };
    let b = rec::check(&sh.sys, &t, 3);
    if let Some(x) = b.first() {
        o.fail("honest", format!("the honest trace of {} (k={}) violates {:?}", show(src, input), k, x));
    }
    o.keys.insert(hash_bytes(format!("{} {} {} {}", R, m.processor_matrix.len(), m.output_matrix.len(), input.len()).as_bytes()));
}

thread_local! {
    static SMALL: Shape<16> = bf::shape::<16>();
    static WIDE: Shape<DOMAIN> = bf::shape::<DOMAIN>();
}

fn batch(o: &mut Outcome, plan: &J) {
    let wide = plan["wide"] == true;
    let bits = if wide { 8 } else { 4 };
    let cases: Vec<(Vec<u8>, Vec<u8>)> = match plan["case"].as_object() {
        Some(c) => vec![(unhex(c["src"].as_str().unwrap()), unhex(c["input"].as_str().unwrap()))],
        None => {
            let mut r = Rng::new(plan["s"].as_u64().unwrap());
            (0..plan["n"].as_u64().unwrap())
                .map(|_| {
                    let b = if wide { *r.pick(&[30, 120, 400]) } else { *r.pick(&[14, 40, 100]) };
                    let (ops, i) = shape_case(&mut r, bits, b);
                    (source(&mut r, &ops), i)
                })
                .collect()
        }
    };
    for (src, input) in cases {
        o.cases += 1;
        if let Some(m) = vm(o, &src, &input, bits) {
            let cs = hash_bytes(&src) ^ plan["s"].as_u64().unwrap_or(0);
            if wide {
                WIDE.with(|s| eval::<DOMAIN>(o, s, &m, &src, &input, cs));
            } else {
                SMALL.with(|s| eval::<16>(o, s, &m, &src, &input, cs));
            }
        }
        if o.violation.is_some() {
            o.ev(json!({"src": hex(&src), "input": hex(&input)}).to_string());
            return;
        }
    }
}

/// Keys, proof and verification of the circuit with 4-bit cells.
fn real(o: &mut Outcome, plan: &J) {
    let mut r = Rng::new(plan["s"].as_u64().unwrap());
    let (ops, input) = shape_case(&mut r, 4, *Rng::new(plan["s"].as_u64().unwrap() ^ 1).pick(&[14, 40, 90]));
    let src = source(&mut r, &ops);
    o.cases += 1;
    if let Some(m) = vm(o, &src, &input, 4) {
        let inst = instances(&Program::parse(&src).unwrap().words(), &input);
        let k0 = SMALL.with(|s| min_k::<16>(s, &m, &inst));
        for k in k0..k0 + 2 {
            match real_run::<16>(&m, k, &inst, None, r.u64()) {
                Real::Accepted => {
                    o.count("real proofs accepted", 1);
                    return;
                }
                Real::Rejected => {
                    o.fail("rejected", format!("the honest proof of {} (k={}) is rejected", show(&src, &input), k));
                    return;
                }
                Real::NoProof(e) => {
                    if k > k0 || !e.contains("NotEnoughRows") {
                        o.fail("no-proof", format!("no proof of {} (k={}): {}", show(&src, &input), k, e));
                        return;
                    }
                }
            }
        }
    }
}

// ---------------------------------------------------------------- the prover program and the script

fn text_input(rng: &mut Rng, n: usize) -> Vec<u8> {
    let mut v: Vec<u8> = vec![];
    while v.len() < n {
        let left = n - v.len();
        if left >= 3 && rng.chance(1, 6) {
            v.extend("€".as_bytes());
        } else if left >= 2 && rng.chance(1, 4) {
            let c = char::from_u32(0x80 + rng.below(0x700) as u32).unwrap_or('é');
            let mut b = [0; 4];
            v.extend(c.encode_utf8(&mut b).as_bytes());
        } else {
            v.push(1 + rng.below(127) as u8);
        }
    }
    v
}

/// A request whose instruction table has exactly this many rows (program words and executed steps).
fn exact(rng: &mut Rng, rows: usize) -> Req {
    loop {
        let n_in = if rng.chance(1, 2) { rng.range(1, 4) } else { 0 };
        let input = text_input(rng, n_in);
        let mut s: Vec<u8> = b",".repeat(input.len());
        let (mid, _) = gen_case(rng, 8, 40);
        if !mid.contains(&b',') {
            s.extend(b">");
            s.extend(&mid);
        }
        s.extend(b">");
        let count = |s: &[u8]| {
            let p = Program::parse(s).unwrap();
            let r = reference(&p, &input, 8, 2000);
            if r.end == End::Halt && r.consumed == input.len() {
                Some(p.words().len() + r.steps)
            } else {
                None
            }
        };
        let c = match count(&s) {
            Some(c) if c + 6 < rows => c,
            _ => continue,
        };
        if (rows - c) % 2 == 1 {
            // a loop that is not entered: four words, one step; the cell is fresh
            let keep = s.clone();
            s.extend(b">[]");
            match count(&s) {
                Some(c2) if (rows.wrapping_sub(c2)) % 2 == 0 => {}
                _ => {
                    s = keep;
                    s.extend(b">>>>>>[]");
                }
            }
        }
        let c = match count(&s) {
            Some(c) if c <= rows && (rows - c) % 2 == 0 => c,
            _ => continue,
        };
        for _ in 0..(rows - c) / 2 {
            s.push(*rng.pick(b"+-.>"));
        }
        if count(&s) == Some(rows) {
            return Req { src: source(rng, &s), input };
        }
    }
}

fn cli_req(rng: &mut Rng, j: &J) -> Req {
    if let Some(rows) = j["rows"].as_u64() {
        return exact(rng, rows as usize);
    }
    if let Some(n) = j["skip"].as_u64() {
        // many words, few steps: the body is never entered
        let body: Vec<u8> = (0..n as usize - 5).map(|_| *rng.pick(b"+-.><,+-.><")).collect();
        return Req { src: source(rng, &[&b"["[..], &body, b"]+"].concat()), input: vec![] };
    }
    if let Some(n) = j["long"].as_u64() {
        // a long input, every byte of it read
        let input = text_input(rng, n as usize);
        return Req { src: source(rng, &b",".repeat(input.len())), input };
    }
    if j["words"].as_u64().is_some() {
        // the largest program the script takes
        let n = j["words"].as_u64().unwrap() as usize;
        return Req { src: (0..n).map(|i| if i < 4 { b'+' } else { *rng.pick(b"+-.") }).collect(), input: vec![] };
    }
    loop {
        let budget = *rng.pick(&[20, 100, 350]);
        let (ops, i) = shape_case(rng, 8, budget);
        let input = if i.is_empty() { i } else { text_input(rng, i.len()) };
        let p = Program::parse(&ops).unwrap();
        let r = reference(&p, &input, 8, 440 - p.words().len().min(400));
        if r.end == End::Halt && r.consumed == input.len() {
            return Req { src: source(rng, &ops), input };
        }
    }
}

fn cli(o: &mut Outcome, ctx: &Ctx, plan: &J) {
    let mut rng = Rng::new(plan["s"].as_u64().unwrap());
    let dir = ctx.own.join("c01");
    let _ = std::fs::remove_dir_all(&dir);
    let mut reqs: Vec<Req> = plan["reqs"].as_array().unwrap().iter().map(|j| cli_req(&mut Rng::new(j["s"].as_u64().unwrap()), j)).collect();
    let again = plan["again"].as_u64();
    if let Some(_) = again {
        let r = reqs[0].clone();
        reqs.push(r);
    }
    osim::prepare(&dir, &reqs, osim::BIN);
    if let Some(c) = plan["cache"].as_str() {
        // parameter files as other runs, other sizes and accidents leave them
        use halo2_proofs::poly::commitment::Params;
        let d = json!({"kind": c, "a": rng.u64() >> 1, "b": rng.u64() >> 1});
        o.fault(match c {
            "valid" => "valid cache present",
            "other-k" => "cache of another size",
            "cut" | "empty" => "cache cut off",
            _ => "other cache damage",
        });
        let only = plan["ck"].as_u64().unwrap_or(2) as u32;
        for name in [9u32, 10] {
            if only < 2 && name != 9 + only {
                continue;
            }
            let mut b = vec![];
            bf::params(if c == "other-k" { 19 - name } else { name }).write(&mut b).unwrap();
            let b = if c == "valid" || c == "other-k" { b } else { crate::c06::damage(&b, &d) };
            std::fs::write(dir.join(format!("res/params_{}.bin", name)), &b).unwrap();
        }
    }
    for (i, r) in reqs.iter().enumerate() {
        let l = osim::Launch {
            bin: ctx.bin("prover"),
            shim: ctx.bin("shim.so"),
            dir: &dir,
            pid: 5000 + i as u64,
            rand: rng.u64(),
            serve: None,
            env: vec![("DST_HASH".into(), (rng.u64() >> 1).to_string())],
        };
        let mut p = osim::spawn(&l, i, r, 280);
        let d = osim::drive(&mut p, None);
        o.cases += 1;
        o.steps += d.ops.len() as u64;
        if i > 0 {
            o.fault("directory used by an earlier request");
        }
        let what = format!("request {} ({} words) of {}", r.show(), r.words().len() / 2, plan);
        let tx = std::fs::read(dir.join("res/tx.json")).ok().and_then(|b| parse_tx(&b));
        let verdict = match (&d.exit, &tx) {
            (Some(osim::Exit::Code(0)), Some(t)) => match serves(t, r, osim::BIN) {
                Ok(()) => match accepts(&t.wit) {
                    Ok(true) => None,
                    x => Some(format!("the script does not accept the transaction ({:?}; witnesses of {:?} bytes)", x, t.wit.iter().map(|w| w.len()).collect::<Vec<_>>())),
                },
                Err(e) => Some(format!("the transaction does not serve the request: {}", e)),
            },
            (Some(osim::Exit::Code(0)), None) => Some("no transaction was written".into()),
            (e, _) => Some(format!("the prover ended with {:?}", e)),
        };
        if let Some(v) = verdict {
            o.fail("cli", format!("{}: {}", v, what));
            break;
        }
        o.count("transactions accepted", 1);
        o.keys.insert(hash_bytes(&r.src));
    }
    let _ = std::fs::remove_dir_all(&dir);
}

pub struct C01;
impl Prop for C01 {
    fn id(&self) -> &'static str {
        "C01"
    }
    fn budget(&self, tier: Tier) -> Budget {
        match tier {
            Tier::Quick => Budget { runs: 1_000_000, secs: 35, workers: 8, timeout: 600, mem_mb: 8000 },
            Tier::Thorough => Budget { runs: 100_000_000, secs: 900, workers: 8, timeout: 900, mem_mb: 12000 },
        }
    }
    fn gen(&self, ctx: &Ctx, idx: u64) -> J {
        let mut r = Rng::new(run_seed(ctx.seed, "C01", idx));
        let s = |r: &mut Rng| r.u64() >> 1;
        let thorough = ctx.tier == Tier::Thorough;
        let cli = if idx < 50 && idx % 5 == 0 { Some(idx / 5) } else if idx % if thorough { 60 } else { 400 } == 0 { Some(idx) } else { None };
        if let Some(idx) = cli {
            // blinding rows: the shape knows; the boundary is at 2^9 rows
            let unusable = WIDE.with(|w| w.sys.unusable);
            let edge = (1usize << 9) - unusable - 1;
            let mut reqs = vec![];
            if idx < 3 {
                // just below, at and above the last row; which of the three is drawn differs with idx
                let at = [edge - 1, edge, edge + 1][idx as usize];
                reqs.push(json!({"s": s(&mut r), "rows": at}));
            } else if idx == 3 {
                reqs.push(json!({"s": s(&mut r), "rows": edge - 1 - r.below(6)}));
            } else if idx == 4 {
                reqs.push(json!({"s": s(&mut r), "skip": r.range(520, 1000)}));
            } else if idx == 5 {
                reqs.push(json!({"s": s(&mut r), "long": r.range(257, 490)}));
            } else if thorough && r.chance(1, 12) {
                let kind = *r.pick(&["skip", "long"]);
                reqs.push(if kind == "skip" { json!({"s": s(&mut r), "skip": r.range(300, 1000)}) } else { json!({"s": s(&mut r), "long": r.range(100, 1000)}) });
            } else if thorough && r.chance(1, 12) {
                reqs.push(json!({"s": s(&mut r), "words": *r.pick(&[1023, 1024])}));
            } else if thorough && r.chance(1, 5) {
                let e = (1usize << 10) - unusable - 1;
                reqs.push(json!({"s": s(&mut r), "rows": e - 2 + r.below(5)}));
            } else {
                for _ in 0..*r.pick(&[1, 1, 2]) {
                    reqs.push(json!({"s": s(&mut r)}));
                }
            }
            let cache = match r.below(9) {
                0 | 1 => J::Null,
                2 => json!("valid"),
                3 | 4 => json!("other-k"),
                5 => json!("empty"),
                6 => json!("flip"),
                7 => json!("extend"),
                _ => json!("cut"),
            };
            return json!({"t": "cli", "s": s(&mut r), "reqs": reqs, "cache": cache, "ck": r.below(4), "again": if idx >= 6 && reqs.len() == 1 && r.chance(1, 5) { json!(1) } else { J::Null }});
        }
        if r.chance(1, 6) {
            return json!({"t": "real", "s": s(&mut r)});
        }
        let wide = r.chance(1, 3);
        json!({"t": "batch", "s": s(&mut r), "n": if wide { 6 } else { 24 }, "wide": wide})
    }
    fn exec(&self, ctx: &Ctx, plan: &J) -> Outcome {
        let mut o = Outcome::default();
        match plan["t"].as_str().unwrap() {
            "cli" => cli(&mut o, ctx, plan),
            "real" => real(&mut o, plan),
            _ => batch(&mut o, plan),
        }
        o.count(&format!("runs: {}", plan["t"].as_str().unwrap()), 1);
        o
    }
    fn shrink(&self, plan: &J) -> Vec<J> {
        let mut v = vec![];
        if plan["t"] == "cli" {
            let a = plan["reqs"].as_array().unwrap();
            if a.len() > 1 {
                for i in 0..a.len() {
                    let mut p = plan.clone();
                    p["reqs"].as_array_mut().unwrap().remove(i);
                    v.push(p);
                }
            }
            for k in ["cache", "again"] {
                if !plan[k].is_null() {
                    let mut p = plan.clone();
                    p[k] = J::Null;
                    v.push(p);
                }
            }
        } else if plan["t"] == "batch" {
            if plan["case"].is_null() {
                let mut r = Rng::new(plan["s"].as_u64().unwrap());
                let wide = plan["wide"] == true;
                for _ in 0..plan["n"].as_u64().unwrap() {
                    let b = if wide { *r.pick(&[30, 120, 400]) } else { *r.pick(&[14, 40, 100]) };
                    let (ops, i) = shape_case(&mut r, if wide { 8 } else { 4 }, b);
                    let src = source(&mut r, &ops);
                    let mut p = plan.clone();
                    p["case"] = json!({"src": hex(&src), "input": hex(&i)});
                    v.push(p);
                }
            } else {
                // drop pieces of the program as long as the run stays a valid one
                let src = unhex(plan["case"]["src"].as_str().unwrap());
                let input = unhex(plan["case"]["input"].as_str().unwrap());
                let bits = if plan["wide"] == true { 8 } else { 4 };
                let mut n = src.len() / 2;
                while n >= 1 {
                    for i in (0..src.len()).step_by(n) {
                        let s: Vec<u8> = [&src[..i], &src[(i + n).min(src.len())..]].concat();
                        for inp in [input.clone(), input[..input.len().saturating_sub(1)].to_vec()] {
                            if let Some(p) = Program::parse(&s) {
                                if p.ops.is_empty() {
                                    continue;
                                }
                                let r = reference(&p, &inp, bits, 2000);
                                if r.end == End::Halt && r.consumed == inp.len() {
                                    let mut q = plan.clone();
                                    q["case"] = json!({"src": hex(&s), "input": hex(&inp)});
                                    v.push(q);
                                }
                            }
                        }
                    }
                    n /= 2;
                }
            }
        }
        v
    }
    fn rule(&self) -> String {
        "distinct trace shapes evaluated, and distinct programs whose transaction the script accepted".into()
    }
    fn components(&self) -> J {
        json!({"real": ["ckb_bf_prover binary on a simulated system", "ckb_bf_verifier program_entry", "ckb_bf_vm compiler and interpreter", "ckb_bf_base circuit", "halo2_proofs"],
               "stub": ["CKB syscalls (ckb-std stand-in)", "file system operations pass the simulator", "reference interpreter and constraint evaluator (oracles)"]})
    }
    fn assumptions(&self) -> Vec<String> {
        vec![
            "programs have at least one instruction; inputs are UTF-8 text without NUL, as the command line takes them".into(),
            "traces up to 2^10 rows (quick: 2^9, and the first sizes beyond it)".into(),
        ]
    }
}
