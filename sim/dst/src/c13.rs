//! C13: prover and verifier of random circuits, with corrupted witnesses and instances, deviating provers
//! and a tapped channel.

use crate::circ::*;
use crate::core::*;
use crate::plonk::*;
use ff::{Field, PrimeField};
use halo2_proofs::circuit::floor_planner::V1;
use halo2_proofs::circuit::SimpleFloorPlanner;
use halo2_proofs::plonk::*;
use halo2_proofs::SerdeFormat;
use halo2curves::FieldExt;
use serde_json::{json, Value as J};
use std::collections::BTreeMap;
use std::rc::Rc;

pub fn size_of(j: &J) -> Size {
    let n = |k: &str, d: usize| j[k].as_u64().map_or(d, |x| x as usize);
    let b = |k: &str, d: bool| j[k].as_bool().unwrap_or(d);
    let f = Size::FULL;
    Size {
        gates: n("gates", f.gates),
        looks: n("looks", f.looks),
        regions: n("regions", f.regions),
        chal: b("chal", f.chal),
        inst: b("inst", f.inst),
        copies: b("copies", f.copies),
        tidy: b("tidy", f.tidy),
        fill: b("fill", f.fill),
        low: j["low"].as_bool().unwrap_or(false),
    }
}

pub fn shrink_size(plan: &J) -> Vec<J> {
    let mut v = vec![];
    let s = size_of(&plan["size"]);
    let mut put = |k: &str, x: J| {
        let mut p = plan.clone();
        if !p["size"].is_object() {
            p["size"] = json!({});
        }
        p["size"][k] = x;
        v.push(p);
    };
    for (k, on) in [("chal", s.chal), ("inst", s.inst), ("copies", s.copies), ("fill", s.fill)] {
        if on {
            put(k, json!(false));
        }
    }
    if s.looks > 0 {
        put("looks", json!(0));
        put("looks", json!(s.looks - 1));
    }
    if s.gates > 0 {
        put("gates", json!(0));
        put("gates", json!(s.gates - 1));
    }
    if s.regions > 1 {
        put("regions", json!(1));
        put("regions", json!(s.regions - 1));
    }
    v
}

/// A change of one or two cells.
pub fn gen_tamper(r: &mut Rng, s: &Spec, pool: &[usize]) -> Vec<Tamper> {
    let n = if r.chance(1, 4) { 2 } else { 1 };
    (0..n)
        .map(|_| {
            let cell = if pool.is_empty() { r.below(s.n_cells) } else { *r.pick(pool) };
            let v = match r.below(6) {
                0 | 1 => TVal::Add(1 + r.below(3) as u64),
                2 => TVal::Add(r.u64() | 8),
                3 => TVal::Set(r.below(4) as u64),
                4 => TVal::CellOf(r.below(s.n_cells)),
                _ => TVal::Other(r.u64()),
            };
            Tamper { cell, v, early: r.chance(1, 2) }
        })
        .collect()
}

struct World<S: Sys, P> {
    spec: Rc<Spec>,
    pl: Place,
    params: &'static S::P,
    vk: VerifyingKey<S::C>,
    pk: ProvingKey<S::C>,
    ws: Vec<u64>,
    inst: Inst<S::F>,
    seed: u64,
    _p: std::marker::PhantomData<P>,
}

pub fn bad_names(b: &[Bad]) -> String {
    b.iter().take(4).map(|x| format!("{:?}", x)).collect::<Vec<_>>().join(" ")
}

impl<S: Sys, P> World<S, P>
where
    P: FloorPlanner,
    Circ<S::F, P>: Circuit<S::F, Config = Cfg>,
{
    fn circuits(&self, tampered: Option<(usize, &[Tamper])>) -> Vec<Circ<S::F, P>> {
        (0..self.ws.len())
            .map(|i| {
                let t: &[Tamper] = match tampered {
                    Some((j, t)) if i == j => t,
                    _ => &[],
                };
                circuit::<S::F, P>(&self.spec, &self.pl, self.ws[i], &self.inst[i], t)
            })
            .collect()
    }
    fn verify(&self, inst: &Inst<S::F>, proof: &[u8]) -> Result<(), String> {
        set_spec(&self.spec);
        catch(|| S::verify(self.params, &self.vk, inst, proof)).and_then(|x| x)
    }
    fn truth_of(&self, i: usize, c: &Circ<S::F, P>, inst: &[Vec<S::F>], t: &[Tamper]) -> Vec<Bad> {
        let seen = c.seen.borrow().clone();
        truth::<S::F>(&self.spec, &self.pl, self.ws[i], &self.inst[i], inst, &seen, t).bad
    }
    /// Proves (with a deviation) and compares the verdict with the truth.
    #[allow(clippy::too_many_arguments)]
    fn judge(&self, o: &mut Outcome, what: &str, i: usize, t: &[Tamper], inst: &Inst<S::F>, dev: &Dev, pass: Option<&Seen<S::F>>, must: bool) -> Seen<S::F> {
        set_spec(&self.spec);
        let cs = self.circuits(Some((i, t)));
        let (r, seen) =
            prove_dev::<S, _>(self.params, &self.pk, &cs, inst, self.seed, self.pl.usable, self.spec.looks.len().max(1), dev, pass);
        o.cases += 1;
        let bad = self.truth_of(i, &cs[i], &inst[i], t);
        let honest = matches!(dev, Dev::None);
        match r {
            Err(e) => {
                if bad.is_empty() && honest && must {
                    o.fail("incomplete", format!("{}: no proof of a satisfied statement: {}", what, e));
                }
                o.ev(format!("{} no proof", what));
                o.probe("no proof was produced");
            }
            Ok(proof) => {
                let v = self.verify(inst, &proof);
                o.ev(format!("{} {} {}", what, bad.len(), v.is_ok()));
                match (bad.is_empty(), &v) {
                    (true, Err(e)) if honest && must => {
                        o.fail("incomplete", format!("{}: the proof of a satisfied statement is rejected: {}", what, e))
                    }
                    (false, Ok(())) => o.fail(
                        "unsound",
                        format!("{}: accepted although these constraints are broken: {} (change {:?}, {:?})", what, bad_names(&bad), t, dev),
                    ),
                    (false, Err(_)) => o.probe("broken statement rejected"),
                    _ => o.probe("satisfied statement accepted"),
                }
            }
        }
        let mut h = Hash::new();
        h.add(what.as_bytes()).num(bad.len() as u64).num(self.pl.k as u64);
        for b in bad.iter().take(3) {
            let (x, y, z) = match b {
                Bad::Gate(a, b, c) => (1, *a * 10 + *b, *c),
                Bad::Look(a, b) => (2, *a, *b),
                Bad::Copy(a) => (3, *a, 0),
            };
            h.num(x).num(y as u64).num(z as u64);
        }
        o.keys.insert(h.0);
        seen
    }

    fn changed_instance(&self, r: &mut Rng) -> Option<(usize, Inst<S::F>)> {
        let i = r.below(self.ws.len());
        if self.spec.n_inst == 0 {
            return None;
        }
        let mut inst = self.inst.clone();
        let c = r.below(self.spec.n_inst);
        match r.below(8) {
            0 if inst[i][c].len() < self.pl.usable => inst[i][c].push(<S::F as Field>::random(&mut *r)),
            1 => {
                inst[i][c].pop();
            }
            2 if self.ws.len() > 1 => {
                let j = (i + 1) % self.ws.len();
                inst.swap(i, j);
            }
            3 if self.spec.n_inst > 1 => {
                let d = (c + 1) % self.spec.n_inst;
                inst[i].swap(c, d);
            }
            _ => {
                let row = r.below(inst[i][c].len());
                inst[i][c][row] += if r.chance(1, 2) { S::F::from(1 + r.below(3) as u64) } else { <S::F as Field>::random(&mut *r) };
            }
        }
        Some((i, inst))
    }

    /// Statements: what the challenges of a proof must depend on, in which order things are sent, and
    /// which of them the verifier has opened.
    fn channel(&self, o: &mut Outcome, sent: &[Ev], proof: &[u8]) {
        let s = &*self.spec;
        let m = self.ws.len();
        // points sent before each challenge
        let mut pts = 0;
        let mut squeezes: Vec<(usize, usize, Vec<u8>)> = vec![];
        let mut scal = 0;
        for e in sent {
            match e {
                Ev::Point(_) => pts += 1,
                Ev::Scalar(_) => scal += 1,
                Ev::Squeeze(v) => squeezes.push((pts, scal, v.clone())),
                _ => {}
            }
        }
        let nc = s.chal_phase.len();
        if squeezes.len() < nc + 5 {
            o.fail("few-challenges", format!("only {} challenges are drawn", squeezes.len()));
            return;
        }
        for (i, ph) in s.chal_phase.iter().enumerate() {
            let need = m * s.adv_phase.iter().filter(|p| *p <= ph).count();
            // user challenges come in order of phase
            let pos = s.chal_phase.iter().enumerate().filter(|(j, q)| (*q, j) < (&ph, &i)).count();
            if squeezes[pos].0 < need {
                o.fail("early-challenge", format!("challenge {} is drawn after {} of {} commitments of its phases", i, squeezes[pos].0, need));
            }
        }
        let adv = m * s.adv_phase.len();
        let look = m * s.looks.len();
        let perm = if s.eq_order.is_empty() { 0 } else { m };
        for (j, need, name) in [
            (nc, adv, "theta"),
            (nc + 1, adv + 2 * look, "beta"),
            (nc + 2, adv + 2 * look, "gamma"),
            (nc + 3, adv + 3 * look + perm, "y"),
            (nc + 4, adv + 3 * look + perm + 1, "x"),
        ] {
            if squeezes[j].0 < need {
                o.fail("early-challenge", format!("{} is drawn after {} of at least {} commitments", name, squeezes[j].0, need));
            }
        }
        let x = squeezes[nc + 4].2.clone();
        // the verifier sees the same
        let v = self.verify(&self.inst, proof);
        let got = take_tap();
        if v.is_ok() {
            let strip = |l: &[Ev]| l.iter().filter(|e| **e != Ev::Open).cloned().collect::<Vec<_>>();
            let (a, b) = (strip(sent), strip(&got));
            // the verifier need not draw a final challenge
            let k = a.len().min(b.len());
            if a[..k] != b[..k] {
                o.fail("views", "prover and verifier absorb different things and still agree".into());
            }
        }
        if S::QUERIES && v.is_ok() {
            let q = take_queries();
            let mut want: BTreeMap<Vec<u8>, i64> = BTreeMap::new();
            let mut points: Vec<Vec<u8>> = vec![];
            let mut sq = 0;
            for e in &got {
                match e {
                    Ev::Open => break,
                    Ev::Squeeze(_) => sq += 1,
                    Ev::Scalar(b) => *want.entry(b.clone()).or_insert(0) += 1,
                    Ev::Point(b) if sq < nc + 4 => points.push(b.clone()),
                    _ => {}
                }
            }
            for x in &q {
                if let Some(n) = want.get_mut(&x.eval) {
                    *n -= 1;
                }
            }
            if let Some((_, n)) = want.iter().find(|(_, n)| **n > 0) {
                o.fail("unopened", format!("{} claimed evaluations are not opened", n));
            }
            let coms: std::collections::BTreeSet<&Vec<u8>> = q.iter().filter_map(|x| x.com.as_ref()).collect();
            // an advice column that no constraint reads is not opened
            let mut used = vec![false; s.adv_phase.len()];
            let mut reads: Vec<(usize, i32)> = vec![];
            let mut cells = vec![];
            for p in s.gates.iter().flat_map(|g| &g.polys) {
                reads.push((p.col, p.rot));
                p.ex.cells(&mut cells);
            }
            for l in &s.looks {
                for p in &l.ins {
                    reads.push((p.col, p.rot));
                    if l.sw != Switch::On {
                        p.ex.cells(&mut cells);
                    }
                }
                if let Tab::Any(t) = &l.tab {
                    t.iter().for_each(|e| e.cells(&mut cells));
                }
            }
            for (k, c, r) in cells {
                if k == crate::rec::Kind::Advice {
                    reads.push((c, r));
                }
            }
            for (c, on) in s.adv_eq.iter().enumerate() {
                if *on && s.eq_order.contains(&c) {
                    reads.push((c, 0));
                }
            }
            // commitments of the advice columns, in the order they are sent
            let mut com: Vec<Vec<usize>> = vec![vec![0; s.adv_phase.len()]; m];
            let mut k = 0;
            let phases = s.adv_phase.iter().copied().max().unwrap_or(0);
            for ph in 0..=phases {
                for c in com.iter_mut() {
                    for (col, p) in s.adv_phase.iter().enumerate() {
                        if *p == ph {
                            c[col] = k;
                            k += 1;
                        }
                    }
                }
            }
            let xf: S::F = unfb(&x);
            let omega = self.omega();
            for (c, r) in &reads {
                used[*c] = true;
                let w = if *r >= 0 { omega.pow_vartime([*r as u64]) } else { omega.invert().unwrap().pow_vartime([(-*r) as u64]) };
                let pt = fb(&(xf * w));
                for (i, ci) in com.iter().enumerate() {
                    let cb = &points[ci[*c]];
                    if !q.iter().any(|z| z.com.as_ref() == Some(cb) && z.point == pt) {
                        o.fail("unopened", format!("column {} of circuit {} is not opened at rotation {}", c, i, r));
                    }
                }
            }
            for (j, p) in points.iter().enumerate() {
                if j >= adv && !coms.contains(p) {
                    o.fail("unopened", format!("commitment {} of the proof is never opened", j));
                }
            }
            o.probe("openings checked");
        }
        // challenges depend on the key and the instances
        let first = |w: &VerifyingKey<S::C>, spec: &Rc<Spec>, inst: &Inst<S::F>| -> Option<Vec<u8>> {
            set_spec(spec);
            let _ = catch(|| S::verify(self.params, w, inst, &proof[..proof.len().min(32 * squeezes[0].0)]));
            take_tap().into_iter().find_map(|e| if let Ev::Squeeze(v) = e { Some(v) } else { None })
        };
        let base = first(&self.vk, &self.spec, &self.inst);
        for i in 0..m {
            for c in 0..s.n_inst {
                for row in 0..self.inst[i][c].len() {
                    let mut inst = self.inst.clone();
                    inst[i][c][row] += S::F::one();
                    if first(&self.vk, &self.spec, &inst) == base {
                        o.fail("unbound", format!("instance {} of column {} of circuit {} does not affect the challenges", row, c, i));
                    }
                }
            }
        }
        let mut r = Rng::new(self.seed ^ 0xFEED);
        for _ in 0..2 {
            if let Some((sp, what)) = other_spec(&mut r, &self.spec) {
                let sp = Rc::new(sp);
                if let Probe::Ok(pl) = place::<S::F>(&sp, self.pl.k) {
                    let c = circuit::<S::F, P>(&sp, &pl, self.ws[0], &self.inst[0], &[]);
                    set_spec(&sp);
                    if let Ok(Ok((vk, _))) = catch(|| S::keygen(self.params, &c)) {
                        o.fault("proof checked with another key");
                        if first(&vk, &sp, &self.inst) == base {
                            o.fail("unbound", format!("a key with {} gives the same challenges", what));
                        }
                        set_spec(&sp);
                        // without any opened column, nothing in the proof depends on the challenges
                        let opened = !s.gates.is_empty() || !s.looks.is_empty() || s.eq_order.iter().any(|c| *c < s.adv_phase.len());
                        if opened && catch(|| S::verify(self.params, &vk, &self.inst, proof)).and_then(|x| x).is_ok() {
                            o.fail("foreign-key", format!("the proof is accepted with a key with {}", what));
                        }
                    }
                }
            }
        }
        take_tap();
        take_queries();
    }
    fn omega(&self) -> S::F {
        let mut w = <S::F as PrimeField>::root_of_unity();
        for _ in self.pl.k..S::F::S {
            w = w.square();
        }
        w
    }
}

/// The same circuit with one constraint or constant changed.
pub fn other_spec(r: &mut Rng, s: &Spec) -> Option<(Spec, &'static str)> {
    let mut t = s.clone();
    for _ in 0..12 {
        match r.below(5) {
            0 => {
                let v: Vec<(usize, usize)> = s
                    .regions
                    .iter()
                    .enumerate()
                    .flat_map(|(i, ops)| ops.iter().enumerate().filter(|(_, o)| matches!(o, Op::Fix { .. })).map(move |(j, _)| (i, j)))
                    .collect();
                if v.is_empty() {
                    continue;
                }
                let (i, j) = *r.pick(&v);
                if let Op::Fix { v, .. } = &mut t.regions[i][j] {
                    *v = v.wrapping_add(1) | 8;
                }
                return Some((t, "another fixed value"));
            }
            1 => {
                let v: Vec<(usize, usize)> = s
                    .regions
                    .iter()
                    .enumerate()
                    .flat_map(|(i, ops)| {
                        ops.iter().enumerate().filter(|(_, o)| matches!(o, Op::Adv { src: Src::Const { .. }, .. })).map(move |(j, _)| (i, j))
                    })
                    .collect();
                if v.is_empty() {
                    continue;
                }
                let (i, j) = *r.pick(&v);
                if let Op::Adv { src: Src::Const { v, .. }, .. } = &mut t.regions[i][j] {
                    *v = v.wrapping_add(1) | 8;
                }
                return Some((t, "another constant"));
            }
            2 => {
                if s.tables.is_empty() {
                    continue;
                }
                let i = r.below(s.tables.len());
                let n = t.tables[i].rows.len();
                let x = &mut t.tables[i].rows[r.below(n)][0];
                *x = x.wrapping_add(1) | 8;
                return Some((t, "another table entry"));
            }
            3 => {
                if s.gates.is_empty() {
                    continue;
                }
                let i = r.below(s.gates.len());
                let p = &mut t.gates[i].polys[0];
                p.ex = Ex::Add(Box::new(p.ex.clone()), Box::new(Ex::Const(1 + r.below(4) as u64)));
                return Some((t, "another gate"));
            }
            _ => {
                let v: Vec<(usize, usize)> = s
                    .regions
                    .iter()
                    .enumerate()
                    .flat_map(|(i, ops)| {
                        ops.iter().enumerate().filter(|(_, o)| matches!(o, Op::Adv { src: Src::Copy { .. }, .. })).map(move |(j, _)| (i, j))
                    })
                    .collect();
                if v.is_empty() {
                    continue;
                }
                let (i, j) = *r.pick(&v);
                let set = |t: &Spec| classes(t).into_iter().collect::<std::collections::BTreeSet<_>>();
                let before = set(&t);
                if let Op::Adv { src, .. } = &mut t.regions[i][j] {
                    *src = Src::Free;
                }
                if set(&t) == before {
                    // still bound by another constraint
                    t = s.clone();
                    continue;
                }
                return Some((t, "one copy constraint less"));
            }
        }
    }
    None
}

fn session<S: Sys, P>(o: &mut Outcome, plan: &J, spec: Rc<Spec>, pl: Place)
where
    P: FloorPlanner,
    Circ<S::F, P>: Circuit<S::F, Config = Cfg>,
{
    let m = plan["m"].as_u64().unwrap() as usize;
    let w = plan["w"].as_u64().unwrap();
    let ws: Vec<u64> = (0..m).map(|i| w.wrapping_add(i as u64 * 0x1234_5677)).collect();
    let inst: Inst<S::F> = ws.iter().map(|w| instance::<S::F>(&spec, &pl, *w)).collect();
    let params = S::params(pl.k);
    let label = format!("{} m={} {}", S::NAME, m, describe(&spec, &pl));
    o.ev(label.clone());
    o.sample = Some(json!({"circuit": label, "cases": plan["cases"]}));
    set_spec(&spec);
    let c0 = circuit::<S::F, P>(&spec, &pl, ws[0], &inst[0], &[]);
    let (vk, pk) = match catch(|| S::keygen(params, &c0.without_witnesses())).and_then(|x| x) {
        Ok(x) => x,
        Err(e) => {
            o.fail("incomplete", format!("keygen fails: {} ({})", e, label));
            return;
        }
    };
    // keys do not depend on the witness
    set_spec(&spec);
    match catch(|| S::keygen(params, &c0)).and_then(|x| x) {
        Ok((v2, _)) => {
            if format!("{:?}", v2.pinned()) != format!("{:?}", vk.pinned()) {
                o.fail("key", format!("the key depends on the witness ({})", label));
            }
        }
        Err(e) => o.fail("incomplete", format!("keygen fails with a witness: {} ({})", e, label)),
    }
    let wd = World::<S, P> { spec: spec.clone(), pl, params, vk, pk, ws, inst, seed: w ^ 0x51, _p: Default::default() };
    // the honest proof
    set_spec(&spec);
    let cs = wd.circuits(None);
    let base = catch(|| S::prove(params, &wd.pk, &cs, &wd.inst, wd.seed)).and_then(|x| x);
    let sent = take_tap();
    o.cases += 1;
    o.steps += sent.len() as u64;
    for i in 0..m {
        let b = wd.truth_of(i, &cs[i], &wd.inst[i], &[]);
        if !b.is_empty() {
            // cannot happen: the witness is built from the constraints
            o.inconclusive = Some(format!("witness generator: {} ({})", bad_names(&b), label));
            return;
        }
    }
    let proof = match base {
        Ok(p) => p,
        Err(e) => {
            o.fail("incomplete", format!("no proof of a satisfied statement: {} ({})", e, label));
            return;
        }
    };
    if let Err(e) = wd.verify(&wd.inst, &proof) {
        o.fail("incomplete", format!("the proof of a satisfied statement is rejected: {} ({})", e, label));
        return;
    }
    o.probe("honest proof accepted");
    o.ev(format!("proof {:x}", hash_bytes(&proof)));
    if o.violation.is_some() {
        return;
    }
    for case in plan["cases"].as_array().unwrap() {
        let t = case["t"].as_str().unwrap();
        let mut r = Rng::new(case["s"].as_u64().unwrap());
        let i = r.below(m);
        match t {
            "tamper" => {
                let tm = gen_tamper(&mut r, &spec, &[]);
                o.fault("witness cell altered");
                wd.judge(o, "tamper", i, &tm, &wd.inst, &Dev::None, None, true);
            }
            "pinst" => {
                if let Some((i, inst)) = wd.changed_instance(&mut r) {
                    if inst.iter().enumerate().any(|(j, x)| j != i && *x != wd.inst[j]) {
                        continue;
                    }
                    o.fault("proof for another instance");
                    // a change by nothing keeps the cells as they are; reads of the instance beyond its
                    // length are errors of the caller
                    let nop = [Tamper { cell: 0, v: TVal::Add(0), early: false }];
                    wd.judge(o, "pinst", i, &nop, &inst, &Dev::None, None, inst[i].iter().zip(&wd.inst[i]).all(|(a, b)| a.len() >= b.len()));
                }
            }
            "vinst" => {
                if let Some((_, inst)) = wd.changed_instance(&mut r) {
                    o.fault("instance altered for the verifier");
                    o.cases += 1;
                    let ok = wd.verify(&inst, &proof).is_ok();
                    o.ev(format!("vinst {}", ok));
                    if ok {
                        let bad: Vec<Bad> = (0..m).flat_map(|j| wd.truth_of(j, &cs[j], &inst[j], &[])).collect();
                        if !bad.is_empty() {
                            o.fail("unsound", format!("the proof is accepted for another instance: {} ({})", bad_names(&bad), label));
                        }
                    }
                }
            }
            "perm" => {
                let pool: Vec<usize> =
                    classes(&spec).into_iter().filter(|(c, k, x)| c.len() + k.len() + x.len() > 1).flat_map(|c| c.0).collect();
                if pool.is_empty() {
                    continue;
                }
                let mut pick = None;
                let none = BTreeMap::new();
                for _ in 0..12 {
                    let mut tm = gen_tamper(&mut r, &spec, &pool);
                    tm.truncate(1);
                    let b = truth::<S::F>(&spec, &wd.pl, wd.ws[i], &wd.inst[i], &wd.inst[i], &none, &tm).bad;
                    if !b.is_empty() && b.iter().all(|x| matches!(x, Bad::Copy(_))) {
                        pick = Some(tm);
                        break;
                    }
                }
                let tm = match pick {
                    Some(t) => t,
                    None => continue,
                };
                let first = wd.judge(o, "copy broken", i, &tm, &wd.inst, &Dev::Perm { circuit: i, bend: None }, None, true);
                if first.perm.is_empty() || first.perm.len() % m != 0 {
                    continue;
                }
                let chunks = first.perm.len() / m;
                let u = wd.pl.usable;
                for j in 0..4 {
                    let chunk = if j == 0 { chunks - 1 } else { r.below(chunks) };
                    let row = match j {
                        0 | 1 => 0,
                        2 => *r.pick(&[1, u]),
                        _ => r.range(1, u),
                    };
                    let b = Bend { chunk, row, zero: r.chance(1, 3) };
                    o.fault(if row == 0 && chunk > 0 { "product restarted between column sets" } else if row == 0 { "product starts off one" } else { "product bent at a row" });
                    wd.judge(o, "copy broken, bent product", i, &tm, &wd.inst, &Dev::Perm { circuit: i, bend: Some(b) }, Some(&first), true);
                }
            }
            "look" => {
                if spec.looks.is_empty() {
                    continue;
                }
                let cols: Vec<usize> = spec.looks.iter().flat_map(|l| l.ins.iter().map(|p| p.col)).collect();
                let pool: Vec<usize> = (0..spec.n_cells).filter(|c| cols.contains(&wd.pl.cell[*c].0)).collect();
                let mut pick = None;
                let none = BTreeMap::new();
                for _ in 0..12 {
                    let mut tm = gen_tamper(&mut r, &spec, &pool);
                    tm.truncate(1);
                    let b = truth::<S::F>(&spec, &wd.pl, wd.ws[i], &wd.inst[i], &wd.inst[i], &none, &tm).bad;
                    if !b.is_empty() && b.iter().all(|x| matches!(x, Bad::Look(..))) {
                        pick = Some(tm);
                        break;
                    }
                }
                let tm = match pick {
                    Some(t) => t,
                    None => continue,
                };
                for at in [0, 1 + r.below(3), wd.pl.usable] {
                    o.fault("permuted lookup column with a foreign value");
                    wd.judge(o, "foreign lookup value", i, &tm, &wd.inst, &Dev::LookRow { circuit: i, at, wrap: at == 0 }, None, true);
                }
                let first = wd.judge(o, "unrelated permuted lookup", i, &tm, &wd.inst, &Dev::LookProduct { circuit: i, bend: None }, None, true);
                if first.look.is_empty() {
                    continue;
                }
                let u = wd.pl.usable;
                for row in [0, 1, u, r.range(1, u)] {
                    let b = Bend { chunk: 0, row, zero: r.chance(1, 3) };
                    o.fault("lookup product bent");
                    wd.judge(o, "unrelated permuted lookup, bent product", i, &tm, &wd.inst, &Dev::LookProduct { circuit: i, bend: Some(b) }, Some(&first), true);
                }
            }
            "channel" => {
                o.cases += 1;
                wd.channel(o, &sent, &proof);
            }
            _ => {}
        }
        if o.violation.is_some() {
            o.ev(label.clone());
            return;
        }
    }
}

fn with<S: Sys>(o: &mut Outcome, plan: &J) {
    let seed = plan["spec"].as_u64().unwrap();
    match build::<S::F>(seed, size_of(&plan["size"])) {
        Err(e) if e == "no size fits" => o.inconclusive = Some(e),
        Err(e) => o.fail("layout", e),
        Ok((spec, pl)) => {
            if spec.v1 {
                session::<S, V1>(o, plan, spec, pl)
            } else {
                session::<S, SimpleFloorPlanner>(o, plan, spec, pl)
            }
        }
    }
}

pub struct C13;
impl Prop for C13 {
    fn id(&self) -> &'static str {
        "C13"
    }
    fn budget(&self, tier: Tier) -> Budget {
        match tier {
            Tier::Quick => Budget { runs: 1_000_000, secs: 40, workers: 8, timeout: 120, mem_mb: 6000 },
            Tier::Thorough => Budget { runs: 100_000_000, secs: 900, workers: 8, timeout: 120, mem_mb: 6000 },
        }
    }
    fn gen(&self, ctx: &Ctx, idx: u64) -> J {
        let mut r = Rng::new(run_seed(ctx.seed, "C13", idx));
        let sys = *r.pick(&["shplonk", "shplonk", "gwc", "ipa", "keccak"]);
        let mut cases = vec![];
        if r.chance(1, 3) {
            cases.push("channel");
        }
        for _ in 0..r.range(2, 5) {
            cases.push(*r.pick(&["tamper", "tamper", "tamper", "pinst", "vinst", "perm", "look", "look"]));
        }
        let cases: Vec<J> = cases.into_iter().map(|t| json!({"t": t, "s": r.u64()})).collect();
        json!({"sys": sys, "spec": r.u64(), "size": if r.chance(1, 3) { json!({"gates": 2, "regions": 3, "looks": 1}) } else { json!({}) }, "m": *r.pick(&[1, 1, 1, 2, 2, 3]), "w": r.u64(), "cases": cases})
    }
    fn exec(&self, _: &Ctx, plan: &J) -> Outcome {
        let mut o = Outcome::default();
        match plan["sys"].as_str().unwrap() {
            "gwc" => with::<Gwc>(&mut o, plan),
            "ipa" => with::<Ipa>(&mut o, plan),
            "keccak" => with::<ShplonkK>(&mut o, plan),
            _ => with::<Shplonk>(&mut o, plan),
        }
        o
    }
    fn shrink(&self, plan: &J) -> Vec<J> {
        let mut v = vec![];
        let a = plan["cases"].as_array().unwrap();
        for i in 0..a.len() {
            let mut p = plan.clone();
            p["cases"].as_array_mut().unwrap().remove(i);
            v.push(p);
        }
        if plan["m"].as_u64().unwrap() > 1 {
            let mut p = plan.clone();
            p["m"] = json!(plan["m"].as_u64().unwrap() - 1);
            v.push(p);
        }
        v.extend(shrink_size(plan));
        v
    }
    fn rule(&self) -> String {
        "distinct (case kind, size, number and place of the broken constraints) combinations".into()
    }
    fn components(&self) -> J {
        json!({"real": ["halo2_proofs key generation, prover, verifier, floor planners, transcripts, commitment schemes", "halo2curves"],
               "stub": ["the circuits and their meaning", "prover randomness", "deviations of a cheating prover (through the guarded hooks)"]})
    }
    fn assumptions(&self) -> Vec<String> {
        vec![
            "a false statement is accepted by chance with negligible probability".into(),
            "where regions are placed and how many rows are usable is taken from the code under test; that regions are whole and do not overlap is checked".into(),
        ]
    }
}
