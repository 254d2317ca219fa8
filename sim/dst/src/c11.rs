//! C11: opening proofs, made by provers that lie about evaluations and carried over a faulty channel.

use crate::c10::scalar;
use crate::core::*;
use crate::open::*;
use ff::Field;
use halo2curves::FieldExt;
use serde_json::{json, Value as J};

/// Are the claims true for what was committed to?
fn claims_true<F: FieldExt>(s: &St<F>, d: &Doings<F>) -> bool {
    let mut x = s.clone();
    x.polys = d.committed.clone();
    x.evals() == d.evals
}

/// All polynomials behind the queries have full degree, so that a proof says something about each query.
fn generic<F: FieldExt>(s: &St<F>) -> bool {
    s.queries.iter().all(|(t, _)| !bool::from(s.target(*t).last().unwrap().is_zero()))
        && (0..s.queries.len()).all(|i| (0..i).all(|j| s.queries[i] != s.queries[j]))
        && (1usize << s.k) > s.points.len()
}

fn blocks(n: usize) -> usize {
    (n + 31) / 32
}

fn damage(r: &mut Rng, b: &[u8], other: &[u8], kind: &str) -> Vec<u8> {
    let mut v = b.to_vec();
    let nb = blocks(v.len());
    match kind {
        "flip" => {
            let i = r.below(v.len());
            v[i] ^= 1 << r.below(8);
        }
        "top" => {
            // the last byte of a block holds the flags of a point and the top of a scalar
            let i = r.below(nb) * 32 + 31;
            v[i] ^= 1 << r.below(8);
        }
        "cut" => v.truncate(r.below(v.len())),
        "swap" => {
            let (i, j) = (r.below(nb), r.below(nb));
            for k in 0..32 {
                v.swap(i * 32 + k, j * 32 + k);
            }
        }
        "zero" => {
            let i = r.below(nb);
            v[i * 32..i * 32 + 32].iter_mut().for_each(|x| *x = 0);
        }
        "lost" => {
            let i = r.below(nb);
            v.drain(i * 32..i * 32 + 32);
        }
        "twice" => {
            let i = r.below(nb);
            let x = v[i * 32..i * 32 + 32].to_vec();
            for (k, y) in x.into_iter().enumerate() {
                v.insert(i * 32 + k, y);
            }
            v.truncate(b.len());
        }
        _ => {
            let i = r.below(nb) * 32;
            let j = (i + 32 * r.range(1, 4)).min(v.len()).min(other.len());
            if i < j {
                v[i..j].copy_from_slice(&other[i..j]);
            }
        }
    }
    v
}

fn session<O: Open>(o: &mut Outcome, plan: &J) {
    let mut s: St<O::F> = make_st(&plan["st"]);
    if O::NAME == "kzg-gwc" {
        // its verifier draws a last challenge that its prover does not need, so nothing can follow
        s.cut = 0;
    }
    let s = s;
    let f0 = O::F::zero();
    let h = Doings::honest(&s);
    let label = format!("{} k={} polys={} targets={} points={} queries={:?} cut={}", O::NAME, s.k, s.polys.len(), s.targets.len(), s.points.len(), s.queries, s.cut);
    o.steps += s.queries.len() as u64;
    o.cases += 1;
    o.count("honest proofs", 1);
    let n_sets = {
        let mut v: Vec<Vec<usize>> = (0..s.targets.len())
            .map(|t| {
                let mut a: Vec<usize> = s.queries.iter().filter(|q| q.0 == t).map(|q| q.1).collect();
                a.sort();
                a.dedup();
                a
            })
            .collect();
        v.sort();
        v.dedup();
        v.len()
    };
    let shape = {
        let mut h = Hash::new();
        h.add(O::NAME.as_bytes()).num(s.k as u64).num(s.points.len() as u64).num(s.targets.len() as u64).num(n_sets as u64).num((s.cut > 0) as u64);
        h.0
    };
    let proof = match catch(|| O::prove(&s, &h)) {
        Ok(Ok(p)) => p,
        Ok(Err(e)) => return o.fail("honest", format!("no opening proof: {} ({})", e, label)),
        Err(e) => return o.fail("honest", format!("the prover panics: {} ({})", e, label)),
    };
    let run = |s: &St<O::F>, p: &[u8], f: &VFault<O::F>| -> Result<Result<(), String>, String> { catch(|| O::single(s, p, f)) };
    match run(&s, &proof, &VFault::None) {
        Ok(Ok(())) => {}
        Ok(Err(e)) => return o.fail("honest", format!("the honest opening is rejected: {} ({})", e, label)),
        Err(e) => return o.fail("honest", format!("the verifier panics: {} ({})", e, label)),
    }
    o.ev(format!("honest {:016x}", hash_bytes(&proof)));

    for c in plan["cases"].as_array().unwrap() {
        let t = c["t"].as_str().unwrap();
        let mut r = Rng::new(c["s"].as_u64().unwrap());
        let mut st = s.clone();
        let mut d = h.clone();
        let mut vf = VFault::None;
        let mut bytes: Option<Vec<u8>> = None;
        let mut must = true;
        let delta = scalar::<O::F>(if r.chance(1, 3) { r.range(1, 3) as u64 } else { 100 + (r.u64() >> 8) });
        let nq = s.queries.len();
        let what: String = match t {
            "false" => {
                let q = r.below(nq);
                let (g, z) = s.queries[q];
                // every query of the same target and point makes the same claim
                for i in 0..nq {
                    if s.queries[i] == (g, z) {
                        d.evals[i] += delta;
                    }
                }
                let forge = r.chance(2, 3);
                if forge {
                    let xs = s.points_of(g);
                    let ys: Vec<O::F> = xs.iter().map(|x| if *x == s.points[z] { delta } else { f0 }).collect();
                    let e = interpolate(&xs, &ys, 1 << s.k);
                    for (a, b) in d.opened[g].iter_mut().zip(e) {
                        *a += b;
                    }
                }
                format!("false evaluation of query {}{}", q, if forge { ", opened consistently" } else { "" })
            }
            "cancel" | "cross" => {
                // two false evaluations whose errors have a fixed ratio
                let mut pairs = vec![];
                for i in 0..nq {
                    for j in 0..nq {
                        if s.queries[i].0 != s.queries[j].0 && (t == "cross" || s.queries[i].1 == s.queries[j].1)
                            || t == "cross" && s.queries[i].1 != s.queries[j].1
                        {
                            pairs.push((i, j));
                        }
                    }
                }
                if pairs.is_empty() {
                    continue;
                }
                let (i, j) = *r.pick(&pairs);
                let w = |q: usize| {
                    let z = s.points[s.queries[q].1];
                    s.points_of(s.queries[q].0).iter().filter(|x| **x != z).fold(O::F::one(), |a, x| a * (z - x))
                };
                let weighted = r.chance(1, 2);
                let (wi, wj) = if weighted { (w(i), w(j)) } else { (O::F::one(), O::F::one()) };
                let errs = [(i, delta * wi), (j, -(delta * wj))];
                let forge = r.chance(3, 4);
                for (q, e) in errs {
                    let (g, z) = s.queries[q];
                    for x in 0..nq {
                        if s.queries[x] == (g, z) {
                            d.evals[x] += e;
                        }
                    }
                    if forge {
                        let xs = s.points_of(g);
                        let ys: Vec<O::F> = xs.iter().map(|x| if *x == s.points[z] { e } else { f0 }).collect();
                        let e = interpolate(&xs, &ys, 1 << s.k);
                        for (a, b) in d.opened[g].iter_mut().zip(e) {
                            *a += b;
                        }
                    }
                }
                format!("opposite errors at queries {} and {}, weighted {}, opened consistently {}", i, j, weighted, forge)
            }
            "shift" => {
                let mut ts: Vec<usize> = s.queries.iter().map(|q| q.0).collect();
                ts.sort();
                ts.dedup();
                if ts.len() < 2 {
                    continue;
                }
                let a = *r.pick(&ts);
                let b = *r.pick(&ts);
                if a == b {
                    continue;
                }
                let deg = r.below(1 << s.k);
                let dp: Vec<O::F> = (0..=deg).map(|_| scalar::<O::F>(100 + (r.u64() >> 8))).collect();
                for (g, sg) in [(a, O::F::one()), (b, -O::F::one())] {
                    for (x, y) in d.opened[g].iter_mut().zip(&dp) {
                        *x += sg * y;
                    }
                    for i in 0..nq {
                        if s.queries[i].0 == g {
                            d.evals[i] += sg * eval(&dp, s.points[s.queries[i].1]);
                        }
                    }
                }
                format!("opposite shifts of targets {} and {} by a polynomial of degree {}", a, b, deg)
            }
            "swap" => {
                let (i, j) = (r.below(nq), r.below(nq));
                d.evals.swap(i, j);
                format!("evaluations {} and {} swapped", i, j)
            }
            "dup" => {
                // the same query twice with different claims
                let q = r.below(nq);
                let at = if r.chance(1, 2) { nq } else { r.below(nq + 1) };
                st.queries.insert(at, s.queries[q]);
                let e = d.evals[q];
                d.evals.insert(at, e + delta);
                if r.chance(1, 2) {
                    // the prover answers for one of the two claims
                    let (g, z) = s.queries[q];
                    let xs = s.points_of(g);
                    let ys: Vec<O::F> = xs.iter().map(|x| if *x == s.points[z] { delta } else { f0 }).collect();
                    let e = interpolate(&xs, &ys, 1 << s.k);
                    for (a, b) in d.opened[g].iter_mut().zip(e) {
                        *a += b;
                    }
                }
                format!("query {} repeated at {} with another claim", q, at)
            }
            "commit" => {
                let p = r.below(s.polys.len());
                let i = r.below(1 << s.k);
                d.committed[p][i] += delta;
                format!("commitment {} is to another polynomial (coefficient {})", p, i)
            }
            "veval" => {
                vf = VFault::Eval(r.below(nq), delta);
                format!("evaluation altered on the verifier's side: {:?}", vf)
            }
            "vpoint" => {
                let q = r.below(nq);
                let z = if r.chance(1, 2) { *r.pick(&s.points) } else { s.points[s.queries[q].1] + delta };
                vf = VFault::Point(q, z);
                must = eval(&s.target(s.queries[q].0), z) != h.evals[q];
                format!("query {} at another point", q)
            }
            "vcom" => {
                let q = r.below(nq);
                let g = r.below(s.targets.len());
                vf = VFault::Com(q, g);
                must = eval(&s.target(g), s.points[s.queries[q].1]) != h.evals[q];
                format!("query {} for target {}", q, g)
            }
            "vdrop" => {
                if nq < 2 || !generic(&s) || O::NAME == "kzg-gwc" {
                    continue;
                }
                // with a single round, or the round keeps a query
                let q = r.below(nq);
                vf = VFault::Drop(q);
                format!("query {} is not asked", q)
            }
            _ => {
                let kind = *r.pick(&["flip", "flip", "top", "cut", "swap", "zero", "lost", "twice", "splice"]);
                let mut s2 = s.clone();
                s2.rng ^= 1;
                s2.blinds.iter_mut().for_each(|b| *b += O::F::one());
                for p in s2.polys.iter_mut() {
                    p[0] += O::F::one();
                }
                let other = if kind == "splice" { O::prove(&s2, &Doings::honest(&s2)).unwrap_or_default() } else { vec![] };
                let v = damage(&mut r, &proof, &other, kind);
                if v == proof {
                    continue;
                }
                // damage that leaves the opening itself alone may turn one true statement into another
                let head = 32 * s.polys.len();
                if s.cut == 0 && v.len() == proof.len() && v[head + 32 * nq..] == proof[head + 32 * nq..] {
                    let mut known: Vec<(&[u8], &Vec<O::F>)> = (0..s.polys.len()).map(|i| (&proof[32 * i..32 * i + 32], &s.polys[i])).collect();
                    if !other.is_empty() {
                        known.extend((0..s.polys.len()).map(|i| (&other[32 * i..32 * i + 32], &s2.polys[i])));
                    }
                    let mut x = s.clone();
                    let mut all = true;
                    for i in 0..s.polys.len() {
                        match known.iter().find(|k| k.0 == &v[32 * i..32 * i + 32]) {
                            Some(p) => x.polys[i] = p.1.clone(),
                            None => {
                                let asked = s.queries.iter().any(|(t, _)| s.targets[*t].iter().any(|(c, p)| *p == i && *c != f0));
                                all &= !asked
                            }
                        }
                    }
                    must = !all || x.evals().iter().enumerate().any(|(i, e)| crate::plonk::fb(e) != v[head + 32 * i..head + 32 * i + 32]);
                } else if v == other {
                    continue;
                } else if !generic(&s) {
                    // trivial openings (constant polynomials) may coincide
                    must = v.len() < proof.len();
                }
                bytes = Some(v);
                o.fault(&format!("proof bytes: {}", kind));
                format!("proof bytes damaged ({})", kind)
            }
        };
        if bytes.is_none() {
            o.fault(t);
        }
        if bytes.is_none() && vf == VFault::None {
            if claims_true(&st, &d) {
                o.count("deviation without effect", 1);
                continue;
            }
            match catch(|| O::prove(&st, &d)) {
                Ok(Ok(p)) => bytes = Some(p),
                Ok(Err(_)) | Err(_) => {
                    o.count("no proof from the deviating prover", 1);
                    continue;
                }
            }
        }
        o.cases += 1;
        let b = bytes.as_deref().unwrap_or(&proof);
        let v = run(&st, b, &vf);
        let mut k = Hash::new();
        k.num(shape).add(t.as_bytes()).add(what.split(' ').next().unwrap().as_bytes());
        o.keys.insert(k.0);
        o.ev(format!("{} {:?}", t, v));
        match v {
            Err(e) => o.fail("panic", format!("the verifier panics on {}: {} ({})", what, e, label)),
            Ok(Ok(())) if must => o.fail("unsound", format!("accepted: {} ({})", what, label)),
            Ok(Ok(())) => o.count("not judged, accepted", 1),
            Ok(Err(_)) => o.count("rejected", 1),
        }
        if o.violation.is_some() {
            return;
        }
    }
}

pub struct C11;
impl Prop for C11 {
    fn id(&self) -> &'static str {
        "C11"
    }
    fn budget(&self, tier: Tier) -> Budget {
        match tier {
            Tier::Quick => Budget { runs: 1_000_000, secs: 25, workers: 8, timeout: 120, mem_mb: 6000 },
            Tier::Thorough => Budget { runs: 100_000_000, secs: 600, workers: 8, timeout: 120, mem_mb: 6000 },
        }
    }
    fn gen(&self, ctx: &Ctx, idx: u64) -> J {
        let mut r = Rng::new(run_seed(ctx.seed, "C11", idx));
        let sys = *r.pick(&["shplonk", "shplonk", "gwc", "ipa"]);
        let small = r.chance(1, 2);
        let st = gen_st(&mut r, small);
        let cases: Vec<J> = (0..r.range(4, 14))
            .map(|_| {
                let t = *r.pick(&["false", "false", "cancel", "cancel", "cross", "shift", "swap", "dup", "commit", "veval", "vpoint", "vcom", "vdrop", "bytes", "bytes", "bytes"]);
                json!({"t": t, "s": r.u64() >> 12})
            })
            .collect();
        json!({"sys": sys, "st": st, "cases": cases})
    }
    fn exec(&self, _: &Ctx, plan: &J) -> Outcome {
        let mut o = Outcome::default();
        match plan["sys"].as_str().unwrap() {
            "gwc" => session::<OGwc>(&mut o, plan),
            "ipa" => session::<OIpa>(&mut o, plan),
            _ => session::<OShplonk>(&mut o, plan),
        }
        o
    }
    fn shrink(&self, plan: &J) -> Vec<J> {
        let mut v = vec![];
        let a = plan["cases"].as_array().unwrap();
        for i in 0..a.len() {
            let mut p = plan.clone();
            p["cases"].as_array_mut().unwrap().remove(i);
            v.push(p);
        }
        for s in shrink_st(&plan["st"]) {
            let mut p = plan.clone();
            p["st"] = s;
            v.push(p);
        }
        v
    }
    fn rule(&self) -> String {
        "distinct (scheme, size, number of points, targets, point sets, rounds, deviation) combinations".into()
    }
    fn components(&self) -> J {
        json!({"real": ["SHPLONK, GWC and IPA opening provers and verifiers", "commitment parameters, multi-scalar sums, transcripts, curves and pairing"],
               "stub": ["statements (polynomials, points, claims)", "deviating prover: opens polynomials of its own for the claims it makes", "channel between prover and verifier", "prover randomness"]})
    }
    fn assumptions(&self) -> Vec<String> {
        vec![
            "a false claim is accepted by chance with negligible probability".into(),
            "changes that turn a true statement into another true one (possible with constant polynomials), and a verifier that asks fewer questions under GWC, are not judged".into(),
        ]
    }
}
