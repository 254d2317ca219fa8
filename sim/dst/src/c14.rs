//! C14: the mock prover on random circuits, with faults in the witness, the instance, the fixed values,
//! the selectors and the tables, against a direct evaluation of the constraints.

use crate::c13::{bad_names, gen_tamper, other_spec, shrink_size, size_of};
use crate::circ::*;
use crate::core::*;
use crate::rec::Kind;
use halo2_proofs::circuit::floor_planner::V1;
use halo2_proofs::circuit::SimpleFloorPlanner;
use halo2_proofs::dev::{metadata, FailureLocation, MockProver, VerifyFailure};
use halo2_proofs::plonk::*;
use halo2curves::{bn256, pasta, FieldExt};
use serde_json::{json, Value as J};
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

/// What the mock prover should report.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
enum Rep {
    /// gate, poly, row
    Gate(usize, usize, usize),
    Look(usize, usize),
    /// gate, region, column, row
    Unassigned(usize, usize, Kind, usize, usize),
    /// gate, poly: active where the cells are not the circuit's
    Poisoned(usize, usize),
}

struct Seen {
    reps: BTreeSet<Rep>,
    /// broken copies: cells as (column kind, column, row)
    perm: BTreeSet<(Kind, usize, usize)>,
    odd: Vec<String>,
    list: Vec<String>,
}

fn region_name(r: &metadata::Region) -> Option<usize> {
    let s = format!("{}", r);
    let a = s.rfind("('r")? + 3;
    let b = s[a..].find('\'')? + a;
    s[a..b].parse().ok()
}

struct Judge<'a> {
    spec: &'a Spec,
    pl: &'a Place,
    cfg: &'a Cfg,
    /// first assigned row of each region
    top: Vec<usize>,
}

impl<'a> Judge<'a> {
    fn new(spec: &'a Spec, pl: &'a Place, cfg: &'a Cfg) -> Self {
        let top = spec
            .regions
            .iter()
            .enumerate()
            .map(|(i, ops)| {
                ops.iter()
                    .filter_map(|o| match o {
                        Op::Adv { off, .. } | Op::Fix { off, .. } => Some(pl.start[i] + off),
                        _ => None,
                    })
                    .min()
                    .unwrap_or(pl.start[i])
            })
            .collect();
        Judge { spec, pl, cfg, top }
    }
    fn row(&self, l: &FailureLocation) -> Option<usize> {
        match l {
            FailureLocation::InRegion { region, offset } => Some(self.top.get(region_name(region)?)? + offset),
            FailureLocation::OutsideRegion { row } => Some(*row),
        }
    }
    fn column(&self, c: Column<Any>) -> Option<(Kind, usize)> {
        if let Some(i) = self.cfg.adv.iter().position(|x| Column::<Any>::from(*x) == c) {
            return Some((Kind::Advice, i));
        }
        if let Some(i) = self.cfg.fix.iter().position(|x| Column::<Any>::from(*x) == c) {
            return Some((Kind::Fixed, i));
        }
        self.cfg.inst.iter().position(|x| Column::<Any>::from(*x) == c).map(|i| (Kind::Instance, i))
    }
    fn meta_column(&self, c: &metadata::Column) -> Option<(Kind, usize)> {
        let all = self
            .cfg
            .adv
            .iter()
            .map(|x| Column::<Any>::from(*x))
            .chain(self.cfg.fix.iter().map(|x| Column::<Any>::from(*x)))
            .chain(self.cfg.inst.iter().map(|x| Column::<Any>::from(*x)));
        for x in all {
            if metadata::Column::from(x) == *c {
                return self.column(x);
            }
        }
        None
    }
    fn gate(&self, g: &metadata::Gate) -> Option<usize> {
        (0..self.spec.gates.len()).find(|i| *g == metadata::Gate::from((*i, if self.spec.gates[*i].with { "with" } else { "gate" })))
    }
    fn constraint(&self, c: &metadata::Constraint) -> Option<(usize, usize)> {
        for (i, g) in self.spec.gates.iter().enumerate() {
            for j in 0..g.polys.len() {
                let m: metadata::Gate = (i, if g.with { "with" } else { "gate" }).into();
                if *c == metadata::Constraint::from((m, j, if g.with { "poly" } else { "" })) {
                    return Some((i, j));
                }
            }
        }
        None
    }
    fn read(&self, r: Result<(), Vec<VerifyFailure>>) -> Seen {
        let mut s = Seen { reps: Default::default(), perm: Default::default(), odd: vec![], list: vec![] };
        let errs = match r {
            Ok(()) => return s,
            Err(e) => e,
        };
        if errs.is_empty() {
            s.odd.push("failure without a reason".into());
        }
        for e in &errs {
            // printing a failure must work, too
            let text = format!("{} {:?}", e, e);
            let mut put = |s: &mut Seen, x: Option<Rep>| match x {
                Some(x) => {
                    s.reps.insert(x);
                }
                None => s.odd.push(text.clone()),
            };
            match e {
                VerifyFailure::CellNotAssigned { gate, region, column, offset, .. } => {
                    let x = (|| {
                        let g = self.gate(gate)?;
                        let r = region_name(region)?;
                        let (k, c) = self.column(*column)?;
                        Some(Rep::Unassigned(g, r, k, c, (*self.top.get(r)? as isize + offset) as usize))
                    })();
                    put(&mut s, x)
                }
                VerifyFailure::ConstraintNotSatisfied { constraint, location, .. } => {
                    let x = (|| {
                        let (g, p) = self.constraint(constraint)?;
                        Some(Rep::Gate(g, p, self.row(location)?))
                    })();
                    put(&mut s, x)
                }
                VerifyFailure::Lookup { lookup_index, location, .. } => {
                    let x = self.row(location).map(|r| Rep::Look(*lookup_index, r));
                    put(&mut s, x)
                }
                VerifyFailure::Permutation { column, location } => {
                    match (self.meta_column(column), self.row(location)) {
                        (Some((k, c)), Some(r)) => {
                            s.perm.insert((k, c, r));
                        }
                        _ => s.odd.push(text.clone()),
                    }
                }
                VerifyFailure::ConstraintPoisoned { constraint } => {
                    let x = self.constraint(constraint).map(|(g, p)| Rep::Poisoned(g, p));
                    put(&mut s, x)
                }
            }
            s.list.push(format!("{}", e));
        }
        s
    }
    /// Does an active gate or lookup read a row outside the usable ones? (Only where it reads cells that its
    /// region does not assign; what is there is up to the prover.)
    fn edge(&self) -> bool {
        self.spec.regions.iter().enumerate().any(|(ri, ops)| {
            ops.iter().any(|o| {
                let (sw, off) = match o {
                    Op::Sel { sel, off } => (Switch::Sel(*sel), *off),
                    Op::Fix { col, off, .. } => (Switch::Fix(*col), *off),
                    _ => return false,
                };
                let at = (self.pl.start[ri] + off) as i64;
                let mut cells: Vec<(Kind, usize, i32)> = vec![];
                let gates = self.spec.gates.iter().filter(|g| g.sw == sw).flat_map(|g| &g.polys);
                let looks = self.spec.looks.iter().filter(|g| g.sw == sw).flat_map(|g| &g.ins);
                for p in gates.chain(looks) {
                    cells.push((Kind::Advice, p.col, p.rot));
                    p.ex.cells(&mut cells);
                }
                cells.iter().any(|c| c.0 == Kind::Advice && (at + (c.2 as i64) < 0 || at + c.2 as i64 >= self.pl.usable as i64))
            })
        })
    }
    /// Cells that an active gate reads and that its region does not assign.
    fn unassigned(&self) -> BTreeSet<Rep> {
        let mut out = BTreeSet::new();
        for (ri, ops) in self.spec.regions.iter().enumerate() {
            let st = self.pl.start[ri];
            let mut have: BTreeSet<(Kind, usize, usize)> = BTreeSet::new();
            for o in ops {
                match o {
                    Op::Adv { col, off, .. } => {
                        have.insert((Kind::Advice, *col, st + off));
                    }
                    Op::Fix { col, off, .. } => {
                        have.insert((Kind::Fixed, *col, st + off));
                    }
                    _ => {}
                }
            }
            for o in ops {
                if let Op::Sel { sel, off } = o {
                    for (gi, g) in self.spec.gates.iter().enumerate().filter(|(_, g)| g.sw == Switch::Sel(*sel)) {
                        let mut cells = vec![];
                        for p in &g.polys {
                            cells.push((Kind::Advice, p.col, p.rot));
                            p.ex.cells(&mut cells);
                        }
                        for (k, c, r) in cells {
                            let row = (st + off) as i64 + r as i64;
                            // public inputs are not assigned in a region
                            if k != Kind::Instance && !have.contains(&(k, c, row as usize)) {
                                out.insert(Rep::Unassigned(gi, ri, k, c, row as usize));
                            }
                        }
                    }
                }
            }
        }
        out
    }
}

/// The same circuit with a gate that is active on every row, also the unusable ones, and holds on the usable ones.
fn always(r: &mut Rng, s: &Spec, pl: &Place) -> Spec {
    let mut t = s.clone();
    let col = s.adv_phase.len();
    for e in t.eq_order.iter_mut() {
        if *e >= col {
            *e += 1;
        }
    }
    t.adv_phase.push(0);
    t.adv_eq.push(false);
    let ex = Ex::Const(r.below(3) as u64);
    t.gates.push(GateSpec { sw: Switch::On, polys: vec![Poly { col, rot: 0, ex, form: r.below(4) }], with: r.chance(1, 2) });
    let mut ops = vec![];
    for off in 0..pl.usable {
        ops.push(Op::Adv { id: t.n_cells, col, off, src: Src::Slack });
        t.n_cells += 1;
    }
    t.regions.push(ops);
    t
}

/// The same circuit with a selector switched off or moved to another row.
fn other_selector<F: FieldExt>(r: &mut Rng, s: &Rc<Spec>, pl: &Place) -> Option<(Spec, &'static str)> {
    let v: Vec<(usize, usize)> = s
        .regions
        .iter()
        .enumerate()
        .flat_map(|(i, ops)| ops.iter().enumerate().filter(|(_, o)| matches!(o, Op::Sel { .. })).map(move |(j, _)| (i, j)))
        .collect();
    if v.is_empty() {
        return None;
    }
    let (i, j) = *r.pick(&v);
    let mut t = (**s).clone();
    if r.chance(1, 2) {
        t.regions[i].remove(j);
        return Some((t, "a selector switched off"));
    }
    for _ in 0..8 {
        let to = r.below(10);
        let sel = match s.regions[i][j] {
            Op::Sel { sel, .. } => sel,
            _ => return None,
        };
        if s.regions[i].iter().any(|o| matches!(o, Op::Sel { sel: x, off } if *x == sel && *off == to)) {
            continue;
        }
        let mut cells: Vec<(Kind, usize, i32)> = vec![];
        for p in s
            .gates
            .iter()
            .filter(|g| g.sw == Switch::Sel(sel))
            .flat_map(|g| &g.polys)
            .chain(s.looks.iter().filter(|g| g.sw == Switch::Sel(sel)).flat_map(|g| &g.ins))
        {
            cells.push((Kind::Advice, p.col, p.rot));
            p.ex.cells(&mut cells);
        }
        let at = (pl.start[i] + to) as i64;
        if at >= pl.usable as i64 || cells.iter().any(|c| at + (c.2 as i64) < 0 || at + c.2 as i64 >= pl.usable as i64) {
            continue;
        }
        if let Op::Sel { off, .. } = &mut t.regions[i][j] {
            *off = to;
        }
        return Some((t, "a selector moved"));
    }
    None
}

fn session<F: FieldExt + Ord, P>(o: &mut Outcome, plan: &J, honest: Rc<Spec>, pl: Place)
where
    P: FloorPlanner,
    Circ<F, P>: Circuit<F, Config = Cfg>,
{
    let w = plan["w"].as_u64().unwrap();
    let base = instance::<F>(&honest, &pl, w);
    let label = describe(&honest, &pl);
    o.ev(label.clone());
    o.sample = Some(json!({"circuit": label, "cases": plan["cases"]}));
    for case in plan["cases"].as_array().unwrap() {
        let t = case["t"].as_str().unwrap();
        let mut r = Rng::new(case["s"].as_u64().unwrap());
        let mut spec = honest.clone();
        let mut inst = base.clone();
        let mut tamper: Vec<Tamper> = vec![];
        let mut place_ = pl.clone();
        match t {
            "honest" => {}
            "tamper" => {
                tamper = gen_tamper(&mut r, &spec, &[]);
                o.fault("witness cell altered");
            }
            "inst" => {
                if spec.n_inst == 0 {
                    continue;
                }
                let c = r.below(spec.n_inst);
                match r.below(4) {
                    0 if inst[c].len() < pl.usable => inst[c].push(F::random(&mut r)),
                    1 => {
                        inst[c].pop();
                    }
                    _ => {
                        let i = r.below(inst[c].len());
                        inst[c][i] += F::from(1 + r.below(3) as u64);
                    }
                }
                tamper = vec![Tamper { cell: 0, v: TVal::Add(0), early: false }];
                o.fault("instance altered");
            }
            "always" => {
                let s2 = Rc::new(always(&mut r, &spec, &pl));
                match place::<F>(&s2, pl.k) {
                    Probe::Ok(p) if p.cell[..pl.cell.len()] == pl.cell[..] && p.usable == pl.usable => place_ = p,
                    _ => continue,
                }
                spec = s2;
                o.fault("a gate without a switch");
            }
            "spec" => {
                let x = if r.chance(1, 2) { other_spec(&mut r, &spec) } else { other_selector::<F>(&mut r, &spec, &pl) };
                let (s2, what) = match x {
                    Some(x) => x,
                    None => continue,
                };
                let s2 = Rc::new(s2);
                match place::<F>(&s2, pl.k) {
                    Probe::Ok(p) if p.cell == pl.cell && p.usable == pl.usable && p.start == pl.start => place_ = p,
                    _ => continue,
                }
                spec = s2;
                o.fault(what);
                if r.chance(1, 3) {
                    tamper = gen_tamper(&mut r, &spec, &[]);
                    o.fault("witness cell altered");
                }
            }
            _ => continue,
        }
        set_spec(&spec);
        let mut cs = ConstraintSystem::<F>::default();
        let cfg = <Circ<F, P> as Circuit<F>>::configure(&mut cs);
        let mut c = circuit::<F, P>(&spec, &place_, w, &base, &tamper);
        let wspec = if t == "always" { spec.clone() } else { honest.clone() };
        if !Rc::ptr_eq(&spec, &wspec) {
            c.wspec = Some(honest.clone());
        }
        o.cases += 1;
        let mock = match catch(|| MockProver::run(pl.k, &c, inst.clone())) {
            Ok(Ok(m)) => m,
            Ok(Err(e)) => {
                o.fail("no-run", format!("{}: the mock prover gives no verdict: {:?} ({})", t, e, label));
                return;
            }
            Err(e) => {
                o.fail("no-run", format!("{}: the mock prover dies: {} ({})", t, e, label));
                return;
            }
        };
        let seen = c.seen.borrow().clone();
        let bad = truth_of::<F>(&wspec, &spec, &place_, w, &base, &inst, &seen, &tamper).bad;
        let j = Judge::new(&spec, &place_, &cfg);
        if j.edge() {
            o.probe("reads outside the usable rows: not judged");
            continue;
        }
        let mut want: BTreeSet<Rep> = j.unassigned();
        let n_un = want.len();
        if t == "always" {
            want.insert(Rep::Poisoned(spec.gates.len() - 1, 0));
        }
        let mut copies = BTreeSet::new();
        for b in &bad {
            match b {
                Bad::Gate(g, p, r) => {
                    want.insert(Rep::Gate(*g, *p, *r));
                }
                Bad::Look(l, r) => {
                    want.insert(Rep::Look(*l, *r));
                }
                Bad::Copy(c) => {
                    copies.insert(*c);
                }
            }
        }
        // cells of each copy class
        let mut class_of: BTreeMap<(Kind, usize, usize), usize> = BTreeMap::new();
        for (i, (cells, _, ins)) in classes(&spec).iter().enumerate() {
            for c in cells {
                let (col, row) = place_.cell[*c];
                class_of.insert((Kind::Advice, col, row), i);
            }
            for (c, r) in ins {
                class_of.insert((Kind::Instance, *c, *r), i);
            }
        }
        let rows: BTreeSet<usize> = (0..pl.usable).filter(|_| r.chance(1, 2)).collect();
        let runs: Vec<(&str, Result<Seen, String>)> = vec![
            ("verify", catch(|| j.read(mock.verify()))),
            ("verify_par", catch(|| j.read(mock.verify_par()))),
            ("verify_at_rows", catch(|| j.read(mock.verify_at_rows(rows.iter().copied(), rows.iter().copied())))),
            ("verify_at_rows_par", catch(|| j.read(mock.verify_at_rows_par(rows.iter().copied(), rows.iter().copied())))),
        ];
        for (name, got) in runs {
            let got = match got {
                Ok(g) => g,
                Err(e) => {
                    o.fail("no-verdict", format!("{} {}: {} ({})", t, name, e, label));
                    return;
                }
            };
            let part = name.starts_with("verify_at");
            let want: BTreeSet<Rep> = want
                .iter()
                .filter(|w| match w {
                    Rep::Gate(_, _, r) | Rep::Look(_, r) => !part || rows.contains(r),
                    _ => true,
                })
                .cloned()
                .collect();
            let miss: Vec<&Rep> = want.difference(&got.reps).take(3).collect();
            let extra: Vec<&Rep> = got.reps.difference(&want).take(3).collect();
            if !miss.is_empty() {
                o.fail("missed", format!("{} {}: not reported: {:?} (broken: {})", t, name, miss, bad_names(&bad)));
            }
            if !extra.is_empty() {
                o.fail("false-report", format!("{} {}: reported although satisfied: {:?} (broken: {})", t, name, extra, bad_names(&bad)));
            }
            if !got.odd.is_empty() {
                o.fail("false-report", format!("{} {}: {}", t, name, got.odd[0]));
            }
            let fixed = got.perm.iter().any(|(k, _, _)| *k == Kind::Fixed);
            let hit: BTreeSet<usize> = got.perm.iter().filter_map(|c| class_of.get(c).copied()).collect();
            for c in &copies {
                if !hit.contains(c) && !fixed {
                    o.fail("missed", format!("{} {}: broken copy class {} is not reported", t, name, c));
                }
            }
            for c in &got.perm {
                if c.0 == Kind::Fixed {
                    if copies.is_empty() {
                        o.fail("false-report", format!("{} {}: broken copy of a constant reported, but all copies hold", t, name));
                    }
                    continue;
                }
                match class_of.get(c) {
                    Some(i) if copies.contains(i) => {}
                    _ => o.fail("false-report", format!("{} {}: broken copy reported at {:?}, but it holds", t, name, c)),
                }
            }
            if o.violation.is_some() {
                o.ev(label.clone());
                return;
            }
        }
        o.steps += 4 * (pl.usable as u64) * (spec.gates.len() + spec.looks.len()) as u64;
        o.probe(if bad.is_empty() { "satisfied" } else { "broken" });
        if n_un > 0 {
            o.probe("cells left unassigned");
        }
        o.ev(format!("{} {} {} {}", t, bad.len(), n_un, copies.len()));
        let mut h = Hash::new();
        h.add(t.as_bytes()).num(bad.len() as u64).num(n_un as u64).num(pl.k as u64).num(spec.v1 as u64);
        for b in bad.iter().take(3) {
            h.add(format!("{:?}", b).as_bytes());
        }
        o.keys.insert(h.0);
    }
}

fn with<F: FieldExt + Ord>(o: &mut Outcome, plan: &J) {
    match build::<F>(plan["spec"].as_u64().unwrap(), size_of(&plan["size"])) {
        Err(e) if e == "no size fits" => o.inconclusive = Some(e),
        Err(e) => o.fail("layout", e),
        Ok((spec, pl)) => {
            if spec.v1 {
                session::<F, V1>(o, plan, spec, pl)
            } else {
                session::<F, SimpleFloorPlanner>(o, plan, spec, pl)
            }
        }
    }
}

pub struct C14;
impl Prop for C14 {
    fn id(&self) -> &'static str {
        "C14"
    }
    fn budget(&self, tier: Tier) -> Budget {
        match tier {
            Tier::Quick => Budget { runs: 1_000_000, secs: 20, workers: 8, timeout: 120, mem_mb: 6000 },
            Tier::Thorough => Budget { runs: 100_000_000, secs: 900, workers: 8, timeout: 120, mem_mb: 6000 },
        }
    }
    fn gen(&self, ctx: &Ctx, idx: u64) -> J {
        let mut r = Rng::new(run_seed(ctx.seed, "C14", idx));
        let mut cases = vec!["honest"];
        for _ in 0..r.range(3, 8) {
            cases.push(*r.pick(&["tamper", "tamper", "tamper", "inst", "spec", "spec", "always"]));
        }
        let cases: Vec<J> = cases.into_iter().map(|t| json!({"t": t, "s": r.u64()})).collect();
        json!({"field": *r.pick(&["bn256", "pallas"]), "spec": r.u64(), "size": if r.chance(1, 3) { json!({"gates": 2, "regions": 3, "looks": 2}) } else { json!({}) }, "w": r.u64(), "cases": cases})
    }
    fn exec(&self, _: &Ctx, plan: &J) -> Outcome {
        let mut o = Outcome::default();
        match plan["field"].as_str().unwrap() {
            "pallas" => with::<pasta::Fp>(&mut o, plan),
            _ => with::<bn256::Fr>(&mut o, plan),
        }
        o
    }
    fn shrink(&self, plan: &J) -> Vec<J> {
        let mut v = vec![];
        let a = plan["cases"].as_array().unwrap();
        for i in 0..a.len() {
            let mut p = plan.clone();
            p["cases"].as_array_mut().unwrap().remove(i);
            v.push(p);
        }
        v.extend(shrink_size(plan));
        v
    }
    fn rule(&self) -> String {
        "distinct (fault kind, size, planner, number and place of the broken constraints, unassigned cells) combinations".into()
    }
    fn components(&self) -> J {
        json!({"real": ["halo2_proofs mock prover, floor planners, constraint system"],
               "stub": ["the circuits and their meaning"]})
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["where regions are placed and how many rows are usable is taken from the code under test; that regions are whole and do not overlap is checked".into()]
    }
}
