//! C12: batches of proofs, some of them invalid, some with errors chosen to cancel out.

use crate::c10::scalar;
use crate::c13::size_of;
use crate::circ::*;
use crate::core::*;
use crate::open::*;
use crate::plonk::*;
use ff::Field;
use group::{prime::PrimeCurveAffine, Curve, GroupEncoding};
use halo2_proofs::circuit::floor_planner::V1;
use halo2_proofs::circuit::SimpleFloorPlanner;
use halo2_proofs::dst::{self, Site};
use halo2_proofs::plonk::{Circuit, FloorPlanner, VerifyingKey};
use halo2curves::{CurveAffine, FieldExt};
use rand_core::SeedableRng;
use serde_json::{json, Value as J};
use std::cell::RefCell;
use std::rc::Rc;

#[derive(Clone)]
enum Stmt<O: Open> {
    Open(Rc<St<O::F>>),
    Plonk(Rc<VerifyingKey<O::C>>, Inst<O::F>),
}

#[derive(Clone)]
struct Member<O: Open> {
    st: Stmt<O>,
    proof: Vec<u8>,
    /// known to be valid or invalid
    valid: bool,
    name: String,
}

impl<O: Open> Member<O> {
    fn single(&self, k: u32) -> Result<(), String> {
        catch(|| match &self.st {
            Stmt::Open(s) => O::single(s, &self.proof, &VFault::None),
            Stmt::Plonk(vk, i) => O::S::verify(O::S::params(k), vk, i, &self.proof),
        })
        .and_then(|x| x)
    }
    fn add(&self, a: O::Acc, k: u32) -> Result<O::Acc, String> {
        catch(|| match &self.st {
            Stmt::Open(s) => O::acc_add(a, s, &self.proof),
            Stmt::Plonk(vk, i) => O::S::acc_add(a, O::S::params(k), vk, i, &self.proof),
        })
        .and_then(|x| x)
    }
}

/// The verdict of a batch, and the factor by which each addition multiplied what was there.
fn batch<O: Open>(ms: &[&Member<O>], k: u32) -> (bool, Vec<O::F>) {
    let cur: Rc<RefCell<O::F>> = Rc::new(RefCell::new(O::F::one()));
    let c2 = cur.clone();
    dst::set(Some(Box::new(move |s| {
        if let Site::Scaled(f) = s {
            if let Some(f) = f.downcast_ref::<O::F>() {
                *c2.borrow_mut() *= *f;
            }
        }
        None
    })));
    let mut acc = O::acc_new(k);
    let mut fs = vec![];
    let mut ok = true;
    let mut rest = Some(());
    for m in ms {
        *cur.borrow_mut() = O::F::one();
        match m.add(acc, k) {
            Ok(a) => {
                acc = a;
                let f = *cur.borrow();
                fs.push(f);
            }
            Err(_) => {
                ok = false;
                rest = None;
                // the batch is lost with the member
                acc = O::acc_new(k);
                break;
            }
        }
    }
    dst::set(None);
    if rest.is_some() {
        ok = O::acc_fin(acc);
    }
    (ok, fs)
}

fn last_squeeze<F: FieldExt>(ev: &[Ev]) -> Option<F> {
    ev.iter().rev().find_map(|e| if let Ev::Squeeze(b) = e { Some(unfb(b)) } else { None })
}

fn last_block(b: &[u8]) -> &[u8] {
    &b[b.len() - 32..]
}

fn add_point<C: CurveAffine>(proof: &[u8], d: C::CurveExt) -> Vec<u8> {
    let mut v = proof.to_vec();
    let n = v.len();
    let mut r = <C as GroupEncoding>::Repr::default();
    r.as_mut().copy_from_slice(last_block(proof));
    let p: C = Option::from(C::from_bytes(&r)).expect("last point");
    let q = (d + p.to_curve()).to_affine();
    v[n - 32..].copy_from_slice(q.to_bytes().as_ref());
    v
}

fn add_scalar<F: FieldExt>(proof: &[u8], d: F) -> Vec<u8> {
    let mut v = proof.to_vec();
    let n = v.len();
    let s: F = unfb::<F>(last_block(proof)) + d;
    v[n - 32..].copy_from_slice(&fb(&s));
    v
}

/// What an attacker knows about the last element of a proof: how an error in it shows in the final check.
#[derive(Clone, Copy)]
enum Lever<F> {
    /// error (s - root) * change, times a factor that may depend on the change
    Root(F),
    /// error of -change
    Scalar,
}

fn lever<O: Open>(m: &Member<O>, k: u32) -> Option<Lever<O::F>> {
    match O::NAME {
        "ipa" => Some(Lever::Scalar),
        "kzg-shplonk" => {
            m.single(k).ok()?;
            last_squeeze(&take_tap()).map(Lever::Root)
        }
        _ => match &m.st {
            // one point: the factor is one
            Stmt::Open(s) if s.queries.iter().all(|q| q.1 == s.queries[0].1) => Some(Lever::Root(s.points[s.queries[0].1])),
            _ => None,
        },
    }
}

/// The pair of members with errors e and -e * r (r: what the first error is multiplied with).
fn bend<O: Open>(a: &Member<O>, b: &Member<O>, la: Lever<O::F>, lb: Lever<O::F>, k: u32, e: O::F, r: O::F, split: bool) -> (Member<O>, Member<O>) {
    // either the second error is scaled by r or the first by its inverse
    let (ea, eb) = if split { (e * r.invert().unwrap_or_else(O::F::one), -e) } else { (e, -(e * r)) };
    let mut x = a.clone();
    let mut y = b.clone();
    x.valid = false;
    y.valid = false;
    match (la, lb) {
        (Lever::Root(ra), Lever::Root(rb)) => {
            let g = O::gens(k);
            x.proof = add_point::<O::C>(&a.proof, (g[1].to_curve() - g[0].to_curve() * rb) * ea);
            y.proof = add_point::<O::C>(&b.proof, (g[1].to_curve() - g[0].to_curve() * ra) * eb);
        }
        _ => {
            x.proof = add_scalar(&a.proof, ea);
            y.proof = add_scalar(&b.proof, eb);
        }
    }
    (x, y)
}

fn plonk_member<O: Open, P>(spec: &Rc<Spec>, pl: &Place, w: u64) -> Result<Member<O>, String>
where
    P: FloorPlanner,
    Circ<O::F, P>: Circuit<O::F, Config = Cfg>,
{
    let p = O::S::params(pl.k);
    let inst: Inst<O::F> = vec![instance::<O::F>(spec, pl, w)];
    set_spec(spec);
    let c = circuit::<O::F, P>(spec, pl, w, &inst[0], &[]);
    let (vk, pk) = O::S::keygen(p, &c.without_witnesses())?;
    set_spec(spec);
    let proof = O::S::prove(p, &pk, &[c], &inst, w)?;
    Ok(Member { st: Stmt::Plonk(Rc::new(vk), inst), proof, valid: true, name: "circuit".into() })
}

fn session<O: Open>(o: &mut Outcome, plan: &J) {
    let mut k = plan["k"].as_u64().unwrap() as u32;
    let mut ms: Vec<Member<O>> = vec![];
    if let Some(seed) = plan["spec"].as_u64() {
        match build::<O::F>(seed, size_of(&json!({"gates": 2, "regions": 2, "looks": 1}))) {
            Err(e) => {
                o.inconclusive = Some(e);
                return;
            }
            Ok((spec, pl)) => {
                k = pl.k;
                let r = catch(|| {
                    if spec.v1 {
                        plonk_member::<O, V1>(&spec, &pl, plan["w"].as_u64().unwrap())
                    } else {
                        plonk_member::<O, SimpleFloorPlanner>(&spec, &pl, plan["w"].as_u64().unwrap())
                    }
                })
                .and_then(|x| x);
                match r {
                    Ok(m) => ms.push(m),
                    Err(e) => {
                        o.inconclusive = Some(format!("no circuit member: {}", e));
                        return;
                    }
                }
            }
        }
    }
    for j in plan["members"].as_array().unwrap() {
        let mut j = j.clone();
        j["k"] = json!(k);
        j["cut"] = json!(0);
        let s: St<O::F> = make_st(&j);
        match catch(|| O::prove(&s, &Doings::honest(&s))).and_then(|x| x) {
            Ok(proof) => ms.push(Member { name: format!("opening of {} queries", s.queries.len()), st: Stmt::Open(Rc::new(s)), proof, valid: true }),
            Err(e) => {
                o.inconclusive = Some(format!("no opening: {}", e));
                return;
            }
        }
    }
    let label = format!("{} k={} members=[{}]", O::NAME, k, ms.iter().map(|m| m.name.clone()).collect::<Vec<_>>().join(", "));
    o.steps += ms.len() as u64;
    for m in &ms {
        if let Err(e) = m.single(k) {
            // judged by C11 and C13
            o.inconclusive = Some(format!("a member is rejected alone: {}", e));
            return;
        }
    }
    let judge = |o: &mut Outcome, v: &[&Member<O>], what: &str| -> Vec<O::F> {
        let want = v.iter().all(|m| m.valid);
        let (got, fs) = batch::<O>(v, k);
        o.cases += 1;
        o.ev(format!("{} {} {}", what, want, got));
        let mut h = Hash::new();
        h.add(O::NAME.as_bytes()).num(v.len() as u64).add(what.split(':').next().unwrap().as_bytes());
        for m in v {
            h.num(m.valid as u64).num(matches!(m.st, Stmt::Plonk(..)) as u64);
        }
        o.keys.insert(h.0);
        if got && !want {
            let bad: Vec<usize> = (0..v.len()).filter(|i| !v[*i].valid).collect();
            o.fail("unsound", format!("a batch of {} with invalid members {:?} is accepted: {} ({})", v.len(), bad, what, label));
        }
        if !got && want {
            o.fail("incomplete", format!("a batch of {} valid members is rejected: {} ({})", v.len(), what, label));
        }
        fs
    };
    for c in plan["cases"].as_array().unwrap() {
        let mut r = Rng::new(c["s"].as_u64().unwrap());
        let mut order: Vec<usize> = (0..ms.len()).collect();
        for i in (1..order.len()).rev() {
            let j = r.below(i + 1);
            order.swap(i, j);
        }
        if r.chance(1, 3) {
            order.truncate(r.range(1, order.len()));
        }
        if r.chance(1, 4) {
            let x = *r.pick(&order);
            order.insert(r.below(order.len() + 1), x);
        }
        let pick: Vec<&Member<O>> = order.iter().map(|i| &ms[*i]).collect();
        match c["t"].as_str().unwrap() {
            "honest" => {
                let pick = if r.chance(1, 12) { &[][..] } else { &pick[..] };
                judge(o, pick, "all valid");
            }
            "bad" => {
                let mut bad: Vec<(usize, Member<O>)> = vec![];
                for _ in 0..r.range(1, 3) {
                    let i = if r.chance(1, 3) { 0 } else if r.chance(1, 2) { pick.len() - 1 } else { r.below(pick.len()) };
                    let mut m = pick[i].clone();
                    m.valid = false;
                    let kind = *r.pick(&["flip", "tail", "tail", "false", "false", "cut", "exchange"]);
                    match kind {
                        "flip" => {
                            let x = r.below(m.proof.len());
                            m.proof[x] ^= 1 << r.below(8);
                        }
                        "tail" => {
                            let d = scalar::<O::F>(100 + (r.u64() >> 8));
                            m.proof = if O::NAME == "ipa" { add_scalar(&m.proof, d) } else { add_point::<O::C>(&m.proof, O::gens(k)[0].to_curve() * d) };
                        }
                        "cut" => {
                            let n = r.below(m.proof.len());
                            m.proof.truncate(n);
                        }
                        "exchange" => {
                            // the proof of another member
                            m.proof = pick[r.below(pick.len())].proof.clone();
                        }
                        _ => match &m.st {
                            Stmt::Open(s) => {
                                let mut d = Doings::honest(s);
                                let q = r.below(d.evals.len());
                                let e = d.evals[q] + scalar::<O::F>(100 + (r.u64() >> 8));
                                for i in 0..d.evals.len() {
                                    if s.queries[i] == s.queries[q] {
                                        d.evals[i] = e;
                                    }
                                }
                                match O::prove(s, &d) {
                                    Ok(p) => m.proof = p,
                                    Err(_) => continue,
                                }
                            }
                            Stmt::Plonk(vk, inst) => {
                                let mut inst = inst.clone();
                                let n: usize = inst[0].iter().map(|x| x.len()).sum();
                                if n == 0 {
                                    continue;
                                }
                                let mut x = r.below(n);
                                for col in inst[0].iter_mut() {
                                    if x < col.len() {
                                        col[x] += O::F::one();
                                        break;
                                    }
                                    x -= col.len();
                                }
                                m.st = Stmt::Plonk(vk.clone(), inst);
                            }
                        },
                    }
                    // what it is worth alone
                    m.valid = m.single(k).is_ok();
                    if !m.valid {
                        o.fault(&format!("invalid member: {}", kind));
                    }
                    bad.push((i, m));
                }
                let mut v = pick.clone();
                for (i, m) in &bad {
                    v[*i] = m;
                }
                judge(o, &v, "with invalid members");
            }
            _ => {
                if pick.len() < 2 {
                    continue;
                }
                let i = r.below(pick.len() - 1);
                let j = r.range(i + 1, pick.len() - 1);
                let (la, lb) = match (lever::<O>(pick[i], k), lever::<O>(pick[j], k)) {
                    (Some(a), Some(b)) => (a, b),
                    _ => continue,
                };
                let e = if r.chance(1, 2) { O::F::one() } else { scalar::<O::F>(100 + (r.u64() >> 8)) };
                let prod = |fs: &[O::F]| fs[i + 1..=j].iter().fold(O::F::one(), |a, b| a * b);
                let go = |o: &mut Outcome, rf: O::F, split: bool, what: &str| -> Vec<O::F> {
                    o.fault("cancelling errors");
                    let (x, y) = bend::<O>(pick[i], pick[j], la, lb, k, e, rf, split);
                    let mut v = pick.clone();
                    v[i] = &x;
                    v[j] = &y;
                    judge(o, &v, &format!("cancelling errors ({}) at {} and {}", what, i, j))
                };
                let mut cc = rand_chacha::ChaCha20Rng::seed_from_u64(42);
                let guess = <O::F as Field>::random(&mut cc);
                for (c, n) in [(O::F::one(), "factor 1"), (O::F::from(42), "factor 42"), (guess, "fixed random factor"), (-O::F::one(), "factor -1")] {
                    go(o, c.pow_vartime([(j - i) as u64]), false, n);
                }
                // the factor seen with valid members
                let (_, fs) = batch::<O>(&pick, k);
                if fs.len() != pick.len() {
                    continue;
                }
                let seen = prod(&fs);
                let mut last = go(o, seen, false, "factor of the valid batch");
                // the factor seen with the error of one of them
                for (fixed, split) in [(i, false), (j, true)] {
                    let (x, y) = bend::<O>(pick[i], pick[j], la, lb, k, e, O::F::one(), split);
                    let mut v = pick.clone();
                    if fixed == i {
                        v[i] = &x;
                    } else {
                        v[j] = &y;
                    }
                    let (_, fs) = batch::<O>(&v, k);
                    if fs.len() == pick.len() {
                        last = go(o, prod(&fs), split, if split { "factor of the second" } else { "factor of the first" });
                    }
                }
                // and the one seen with both
                for _ in 0..2 {
                    if last.len() == pick.len() {
                        last = go(o, prod(&last), false, "factor of the last try");
                    }
                }
            }
        }
        if o.violation.is_some() {
            return;
        }
    }
}

pub struct C12;
impl Prop for C12 {
    fn id(&self) -> &'static str {
        "C12"
    }
    fn budget(&self, tier: Tier) -> Budget {
        match tier {
            Tier::Quick => Budget { runs: 1_000_000, secs: 25, workers: 8, timeout: 120, mem_mb: 6000 },
            Tier::Thorough => Budget { runs: 100_000_000, secs: 600, workers: 8, timeout: 120, mem_mb: 6000 },
        }
    }
    fn gen(&self, ctx: &Ctx, idx: u64) -> J {
        let mut r = Rng::new(run_seed(ctx.seed, "C12", idx));
        let sys = *r.pick(&["shplonk", "shplonk", "gwc", "ipa", "ipa"]);
        let members: Vec<J> = (0..r.range(1, 5))
            .map(|_| {
                let mut s = gen_st(&mut r, true);
                if r.chance(1, 2) {
                    // one point
                    for q in s["queries"].as_array_mut().unwrap() {
                        q[1] = json!(0);
                    }
                    let mut seen = vec![];
                    s["queries"].as_array_mut().unwrap().retain(|q| {
                        let new = !seen.contains(q);
                        seen.push(q.clone());
                        new
                    });
                }
                s
            })
            .collect();
        let cases: Vec<J> = (0..r.range(3, 7)).map(|_| json!({"t": *r.pick(&["honest", "bad", "bad", "bad", "cancel", "cancel"]), "s": r.u64() >> 12})).collect();
        json!({"sys": sys, "k": r.range(2, 4), "spec": if r.chance(1, 4) { json!(r.u64() >> 1) } else { J::Null }, "w": r.u64() >> 1, "members": members, "cases": cases})
    }
    fn exec(&self, _: &Ctx, plan: &J) -> Outcome {
        let mut o = Outcome::default();
        match plan["sys"].as_str().unwrap() {
            "gwc" => session::<OGwc>(&mut o, plan),
            "ipa" => session::<OIpa>(&mut o, plan),
            _ => session::<OShplonk>(&mut o, plan),
        }
        o
    }
    fn shrink(&self, plan: &J) -> Vec<J> {
        let mut v = vec![];
        for key in ["cases", "members"] {
            let a = plan[key].as_array().unwrap();
            for i in 0..a.len() {
                if a.len() == 1 {
                    continue;
                }
                let mut p = plan.clone();
                p[key].as_array_mut().unwrap().remove(i);
                v.push(p);
            }
        }
        if !plan["spec"].is_null() {
            let mut p = plan.clone();
            p["spec"] = J::Null;
            v.push(p);
        }
        v
    }
    fn rule(&self) -> String {
        "distinct (scheme, batch length, place and kind of the members, place of the invalid ones) combinations".into()
    }
    fn components(&self) -> J {
        json!({"real": ["accumulation strategies of both schemes", "SHPLONK, GWC and IPA verifiers", "the proof system for members that are circuit proofs", "multi-scalar sums, pairing"],
               "stub": ["members and the order in which they arrive", "attacker that bends the last element of two proofs so that their errors cancel for a guessed or observed factor"]})
    }
    fn assumptions(&self) -> Vec<String> {
        vec![
            "two unrelated errors cancel with negligible probability".into(),
            "the feature-gated BatchVerifier type is not covered: it does not compile at this commit".into(),
        ]
    }
}
