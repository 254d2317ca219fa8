//! Random circuits with an independent meaning.
//!
//! A `Spec` describes columns, gates, lookups, regions and copies. The same description is used in two
//! ways: as a `Circuit` for the code under test, and, without it, to compute the witness and to decide
//! which constraints a witness breaks. All that is taken from the code under test is where its floor
//! planner put each region and how many rows are usable.

use crate::c10::scalar;
use crate::core::*;
use crate::rec;
use halo2_proofs::circuit::{floor_planner::V1, AssignedCell, Cell as HCell, Layouter, Region, SimpleFloorPlanner, Value};
use halo2_proofs::plonk::*;
use halo2_proofs::poly::Rotation;
use halo2curves::FieldExt;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::marker::PhantomData;
use std::rc::Rc;

// ---------------------------------------------------------------- description

/// Expressions. Columns are indices into the spec's lists.
#[derive(Clone, Debug)]
pub enum Ex {
    Const(u64),
    Adv(usize, i32),
    Fix(usize, i32),
    Inst(usize, i32),
    Chal(usize),
    Neg(Box<Ex>),
    Add(Box<Ex>, Box<Ex>),
    Sub(Box<Ex>, Box<Ex>),
    Mul(Box<Ex>, Box<Ex>),
    Scale(Box<Ex>, u64),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Switch {
    /// simple or complex selector
    Sel(usize),
    /// a fixed column
    Fix(usize),
    /// always on (lookups only)
    On,
}

#[derive(Clone, Debug)]
pub struct Poly {
    /// column and rotation of the cell that the constraint determines
    pub col: usize,
    pub rot: i32,
    pub ex: Ex,
    /// shape of the constraint
    pub form: usize,
}

#[derive(Clone, Debug)]
pub struct GateSpec {
    pub sw: Switch,
    pub polys: Vec<Poly>,
    /// use Constraints::with_selector
    pub with: bool,
}

#[derive(Clone, Debug)]
pub enum Tab {
    /// index of a loaded table
    Table(usize),
    Any(Vec<Ex>),
}

#[derive(Clone, Debug)]
pub struct LookSpec {
    pub sw: Switch,
    pub ins: Vec<Poly>,
    pub tab: Tab,
}

#[derive(Clone, Debug)]
pub enum Src {
    Free,
    /// value given by a gate or lookup on this column where one is active
    Slack,
    Copy { of: usize, api: bool },
    Const { v: u64, api: bool },
    Inst { col: usize, row: usize, api: bool },
}

#[derive(Clone, Debug)]
pub enum Op {
    Adv { id: usize, col: usize, off: usize, src: Src },
    Fix { col: usize, off: usize, v: u64 },
    Sel { sel: usize, off: usize },
    Equal { a: usize, b: usize },
}

#[derive(Clone, Debug)]
pub struct TableSpec {
    pub cols: usize,
    pub first: usize,
    pub rows: Vec<Vec<u64>>,
}

#[derive(Clone, Debug)]
pub struct Spec {
    pub v1: bool,
    pub adv_phase: Vec<u8>,
    pub adv_eq: Vec<bool>,
    pub n_fix: usize,
    /// fixed columns consts.len()..n_plain may be read by expressions
    pub n_plain: usize,
    pub fix_eq: Vec<bool>,
    /// constants columns, by index into the fixed columns
    pub consts: Vec<usize>,
    pub n_inst: usize,
    /// columns 0..n_in carry inputs, the others take outputs
    pub n_in: usize,
    pub inst_len: Vec<usize>,
    pub inst_eq: Vec<bool>,
    pub chal_phase: Vec<u8>,
    /// simple?
    pub sels: Vec<bool>,
    pub gates: Vec<GateSpec>,
    pub looks: Vec<LookSpec>,
    pub tables: Vec<TableSpec>,
    pub n_table_cols: usize,
    pub regions: Vec<Vec<Op>>,
    /// (cell, instance column, row)
    pub outs: Vec<(usize, usize, usize)>,
    pub eq_order: Vec<usize>,
    pub min_degree: Option<usize>,
    pub n_cells: usize,
    /// when tables are loaded: before or after the regions
    pub tables_last: bool,
    pub namespaced: bool,
}

fn val<F: FieldExt>(v: u64) -> F {
    scalar::<F>(v)
}

impl Ex {
    /// Advice is read in the current row only: a table must not depend on what is in unusable rows.
    fn unrotated(self) -> Ex {
        match self {
            Ex::Adv(c, _) => Ex::Adv(c, 0),
            Ex::Neg(a) => Ex::Neg(Box::new(a.unrotated())),
            Ex::Scale(a, v) => Ex::Scale(Box::new(a.unrotated()), v),
            Ex::Add(a, b) => Ex::Add(Box::new(a.unrotated()), Box::new(b.unrotated())),
            Ex::Sub(a, b) => Ex::Sub(Box::new(a.unrotated()), Box::new(b.unrotated())),
            Ex::Mul(a, b) => Ex::Mul(Box::new(a.unrotated()), Box::new(b.unrotated())),
            x => x,
        }
    }
    fn max_phase(&self, s: &Spec) -> u8 {
        match self {
            Ex::Adv(c, _) => s.adv_phase[*c],
            Ex::Chal(c) => s.chal_phase[*c] + 1,
            Ex::Neg(a) | Ex::Scale(a, _) => a.max_phase(s),
            Ex::Add(a, b) | Ex::Sub(a, b) | Ex::Mul(a, b) => a.max_phase(s).max(b.max_phase(s)),
            _ => 0,
        }
    }
    pub fn cells(&self, out: &mut Vec<(rec::Kind, usize, i32)>) {
        match self {
            Ex::Adv(c, r) => out.push((rec::Kind::Advice, *c, *r)),
            Ex::Fix(c, r) => out.push((rec::Kind::Fixed, *c, *r)),
            Ex::Inst(c, r) => out.push((rec::Kind::Instance, *c, *r)),
            Ex::Neg(a) | Ex::Scale(a, _) => a.cells(out),
            Ex::Add(a, b) | Ex::Sub(a, b) | Ex::Mul(a, b) => {
                a.cells(out);
                b.cells(out);
            }
            _ => {}
        }
    }
    fn to_e<F: FieldExt>(&self) -> rec::E<F> {
        use rec::E;
        match self {
            Ex::Const(v) => E::Const(val(*v)),
            Ex::Adv(c, r) => E::Cell(rec::Kind::Advice, *c, *r),
            Ex::Fix(c, r) => E::Cell(rec::Kind::Fixed, *c, *r),
            Ex::Inst(c, r) => E::Cell(rec::Kind::Instance, *c, *r),
            Ex::Chal(c) => E::Chal(*c),
            Ex::Neg(a) => E::Neg(Box::new(a.to_e())),
            Ex::Add(a, b) => E::Sum(Box::new(a.to_e()), Box::new(b.to_e())),
            Ex::Sub(a, b) => E::Sum(Box::new(a.to_e()), Box::new(E::Neg(Box::new(b.to_e())))),
            Ex::Mul(a, b) => E::Prod(Box::new(a.to_e()), Box::new(b.to_e())),
            Ex::Scale(a, v) => E::Scaled(Box::new(a.to_e()), val(*v)),
        }
    }
    fn to_halo<F: FieldExt>(&self, m: &mut VirtualCells<'_, F>, c: &Cfg) -> Expression<F> {
        match self {
            Ex::Const(v) => Expression::Constant(val(*v)),
            Ex::Adv(i, r) => m.query_advice(c.adv[*i], Rotation(*r)),
            Ex::Fix(i, r) => m.query_fixed(c.fix[*i], Rotation(*r)),
            Ex::Inst(i, r) => m.query_instance(c.inst[*i], Rotation(*r)),
            Ex::Chal(i) => m.query_challenge(c.chal[*i]),
            Ex::Neg(a) => -a.to_halo(m, c),
            Ex::Add(a, b) => a.to_halo(m, c) + b.to_halo(m, c),
            Ex::Sub(a, b) => a.to_halo(m, c) - b.to_halo(m, c),
            Ex::Mul(a, b) => {
                let x = a.to_halo(m, c);
                let y = b.to_halo(m, c);
                x * y
            }
            Ex::Scale(a, v) => a.to_halo(m, c) * val::<F>(*v),
        }
    }
}

fn gen_ex(r: &mut Rng, s: &Spec, upto: usize, phase: u8, depth: usize, deg: usize) -> Ex {
    let leaf = depth == 0 || r.chance(1, 4);
    if leaf {
        for _ in 0..8 {
            match r.below(10) {
                0 => return Ex::Const(if r.chance(1, 2) { r.below(8) as u64 } else { r.u64() | 8 }),
                1 if s.n_in > 0 && deg > 0 => {
                    return Ex::Inst(r.below(s.n_in), *r.pick(&[0, 0, 0, 0, 1, -1]));
                }
                2 | 3 if s.n_plain > s.consts.len() && deg > 0 => {
                    // queried fixed columns come after the constants columns
                    let c = s.consts.len() + r.below(s.n_plain - s.consts.len());
                    return Ex::Fix(c, *r.pick(&[0, 0, 0, 1, -1]));
                }
                4 => {
                    let ok: Vec<usize> = (0..s.chal_phase.len()).filter(|c| s.chal_phase[*c] < phase).collect();
                    if !ok.is_empty() {
                        return Ex::Chal(*r.pick(&ok));
                    }
                }
                _ => {
                    let ok: Vec<usize> = (0..upto).filter(|c| s.adv_phase[*c] <= phase).collect();
                    if !ok.is_empty() && deg > 0 {
                        return Ex::Adv(*r.pick(&ok), *r.pick(&[0, 0, 0, 0, 1, -1, 2, -2, 3]));
                    }
                }
            }
        }
        return Ex::Const(r.below(8) as u64);
    }
    match r.below(7) {
        0 => Ex::Neg(Box::new(gen_ex(r, s, upto, phase, depth - 1, deg))),
        1 | 2 => Ex::Add(
            Box::new(gen_ex(r, s, upto, phase, depth - 1, deg)),
            Box::new(gen_ex(r, s, upto, phase, depth - 1, deg)),
        ),
        3 => Ex::Sub(
            Box::new(gen_ex(r, s, upto, phase, depth - 1, deg)),
            Box::new(gen_ex(r, s, upto, phase, depth - 1, deg)),
        ),
        4 => Ex::Scale(Box::new(gen_ex(r, s, upto, phase, depth - 1, deg)), r.below(12) as u64),
        _ => {
            if deg < 2 {
                return gen_ex(r, s, upto, phase, depth - 1, deg);
            }
            let d = 1 + r.below(deg - 1);
            Ex::Mul(
                Box::new(gen_ex(r, s, upto, phase, depth - 1, d)),
                Box::new(gen_ex(r, s, upto, phase, depth - 1, deg - d)),
            )
        }
    }
}

/// Which kinds of parts a spec may have (for shrinking).
#[derive(Clone, Copy, Debug)]
pub struct Size {
    pub gates: usize,
    pub looks: usize,
    pub regions: usize,
    pub chal: bool,
    pub inst: bool,
    pub copies: bool,
    /// all cells a gate reads are assigned in its region
    pub tidy: bool,
    pub fill: bool,
    /// many regions of one or two rows
    pub low: bool,
}

impl Size {
    pub const FULL: Size = Size { gates: 4, looks: 2, regions: 5, chal: true, inst: true, copies: true, tidy: false, fill: true, low: false };
}

pub fn gen_spec(seed: u64, sz: Size) -> Spec {
    let mut rng = Rng::new(seed);
    let r = &mut rng;
    let mut s = Spec {
        v1: r.chance(1, 2),
        adv_phase: vec![],
        adv_eq: vec![],
        n_fix: 0,
        n_plain: 0,
        fix_eq: vec![],
        consts: vec![],
        n_inst: 0,
        n_in: 0,
        inst_len: vec![],
        inst_eq: vec![],
        chal_phase: vec![],
        sels: vec![],
        gates: vec![],
        looks: vec![],
        tables: vec![],
        n_table_cols: 0,
        regions: vec![],
        outs: vec![],
        eq_order: vec![],
        min_degree: None,
        n_cells: 0,
        tables_last: r.chance(1, 2),
        namespaced: r.chance(1, 3),
    };
    let eq_bias = *r.pick(&[2usize, 6, 9, 10]);
    // fixed columns: constants first
    let n_const = *r.pick(&[0usize, 1, 1, 2]);
    s.consts = (0..n_const).collect();
    s.n_fix = n_const + r.below(3);
    s.n_plain = s.n_fix;
    s.fix_eq = (0..s.n_fix).map(|i| i < n_const || r.chance(eq_bias, 20)).collect();
    if sz.inst {
        s.n_in = r.below(3);
        s.n_inst = s.n_in + r.below(2);
        for _ in 0..s.n_inst {
            s.inst_len.push(1 + r.below(5));
            s.inst_eq.push(r.chance(eq_bias, 10));
        }
    }
    let phases = if sz.chal && r.chance(1, 3) { 2 + r.below(2) as u8 } else { 1 };
    for p in 0..phases - 1 {
        for _ in 0..1 + r.below(2) {
            s.chal_phase.push(p);
        }
    }
    let phase_of = |r: &mut Rng, s: &Spec, min: u8| -> u8 {
        // every phase below must already have a column
        let have = s.adv_phase.iter().copied().max().map_or(0, |m| (m + 1).min(phases - 1));
        let lo = min.min(have);
        lo + r.below((have - lo) as usize + 1) as u8
    };
    // columns in level order: free ones first, then alternating
    let add_free = |r: &mut Rng, s: &mut Spec| {
        let p = phase_of(r, s, 0);
        s.adv_phase.push(p);
        s.adv_eq.push(r.chance(eq_bias, 10));
        s.adv_phase.len() - 1
    };
    let mut free = vec![];
    s.adv_phase.push(0);
    s.adv_eq.push(r.chance(eq_bias, 10));
    free.push(0);
    for _ in 0..r.below(4) {
        free.push(add_free(r, &mut s));
    }
    // all phases need a column before a challenge of them can be used
    for p in 1..phases {
        if !s.adv_phase.contains(&p) {
            s.adv_phase.push(p);
            s.adv_eq.push(r.chance(eq_bias, 10));
            free.push(s.adv_phase.len() - 1);
        }
    }
    let new_switch = |r: &mut Rng, s: &mut Spec, look: bool| -> Switch {
        if r.chance(1, 5) {
            let c = s.n_fix;
            s.n_fix += 1;
            s.fix_eq.push(false);
            return Switch::Fix(c);
        }
        let same: Vec<usize> = (0..s.sels.len()).filter(|i| !look || !s.sels[*i]).collect();
        if !same.is_empty() && r.chance(1, 6) {
            return Switch::Sel(*r.pick(&same));
        }
        s.sels.push(!look && r.chance(2, 3));
        Switch::Sel(s.sels.len() - 1)
    };
    let max_deg = *r.pick(&[1usize, 2, 2, 3, 4]);
    let ng = r.below(sz.gates + 1);
    let nl = if r.chance(1, 2) { r.below(sz.looks + 1) } else { 0 };
    let mut order: Vec<bool> = (0..ng).map(|_| true).chain((0..nl).map(|_| false)).collect();
    for i in (1..order.len()).rev() {
        order.swap(i, r.below(i + 1));
    }
    for is_gate in order {
        if r.chance(1, 6) {
            free.push(add_free(r, &mut s));
        }
        let upto = s.adv_phase.len();
        if is_gate {
            let sw = new_switch(r, &mut s, false);
            let mut polys = vec![];
            for _ in 0..1 + r.below(2) {
                let phase = phase_of(r, &s, 0);
                let depth = 1 + r.below(3);
                let ex = gen_ex(r, &s, upto, phase, depth, max_deg);
                let col = s.adv_phase.len();
                s.adv_phase.push(phase.max(ex.max_phase(&s)));
                s.adv_eq.push(r.chance(eq_bias, 10));
                polys.push(Poly { col, rot: *r.pick(&[0, 0, 0, 1, -1]), ex, form: r.below(4) });
            }
            s.gates.push(GateSpec { sw, polys, with: r.chance(1, 3) });
        } else {
            let width = 1 + r.below(3);
            let sw = if r.chance(1, 6) { Switch::On } else { new_switch(r, &mut s, true) };
            let tab = if sw == Switch::On || r.chance(1, 2) {
                // sometimes reuse a table of the same width
                let old: Vec<usize> = (0..s.tables.len()).filter(|t| s.tables[*t].cols == width).collect();
                if !old.is_empty() && r.chance(1, 2) {
                    Tab::Table(*r.pick(&old))
                } else {
                    let rows = *r.pick(&[1usize, 2, 5, 9]);
                    let mut v = vec![vec![0u64; width]];
                    for _ in 1..rows {
                        v.push((0..width).map(|_| if r.chance(1, 2) { r.below(8) as u64 } else { r.u64() | 8 }).collect());
                    }
                    s.tables.push(TableSpec { cols: width, first: s.n_table_cols, rows: v });
                    s.n_table_cols += width;
                    Tab::Table(s.tables.len() - 1)
                }
            } else {
                let phase = phases - 1;
                Tab::Any(
                    (0..width)
                        .map(|_| {
                            let depth = if r.chance(2, 3) { 0 } else { 1 };
                            gen_ex(r, &s, upto, phase, depth, 1).unrotated()
                        })
                        .collect(),
                )
            };
            let tphase = match &tab {
                Tab::Any(v) => v.iter().map(|e| e.max_phase(&s)).max().unwrap_or(0),
                _ => 0,
            };
            let mut ins = vec![];
            for _ in 0..width {
                let phase = phase_of(r, &s, 0);
                let d = if r.chance(1, 2) { 0 } else { 1 + r.below(2) };
                let depth = r.below(2);
                let ex = if d == 0 || sw == Switch::On { Ex::Const(0) } else { gen_ex(r, &s, upto, phase, depth, d) };
                let p = phase.max(ex.max_phase(&s)).max(tphase);
                ins.push(Poly { col: s.adv_phase.len() + ins.len(), rot: if sw == Switch::On { 0 } else { *r.pick(&[0, 0, 1, -1]) }, ex, form: r.below(2) });
                // pushed after the loop so that expressions do not see the columns of this lookup
                ins.last_mut().unwrap().form += 4 * p as usize;
            }
            for i in ins.iter_mut() {
                s.adv_phase.push((i.form / 4) as u8);
                s.adv_eq.push(r.chance(eq_bias, 10));
                i.form %= 4;
            }
            s.looks.push(LookSpec { sw, ins, tab });
        }
    }
    if r.chance(1, 4) {
        free.push(add_free(r, &mut s));
    }
    let slack: BTreeSet<usize> = s
        .gates
        .iter()
        .flat_map(|g| g.polys.iter().map(|p| p.col))
        .chain(s.looks.iter().flat_map(|l| l.ins.iter().map(|p| p.col)))
        .collect();

    // regions
    let n_adv = s.adv_phase.len();
    let mut cells: Vec<(usize, usize)> = vec![]; // (column, region)
    let mut out_used: BTreeMap<(usize, usize), ()> = BTreeMap::new();
    let n_regions = 1 + r.below(sz.regions);
    // switches that meet in one row only, or not at all
    let sparse = r.chance(1, 5);
    for ri in 0..n_regions {
        let h = 1 + r.below(if sz.low { 2 } else { 8 });
        let mut sels: BTreeSet<(usize, usize)> = BTreeSet::new();
        let mut fixes: BTreeMap<(usize, usize), u64> = BTreeMap::new();
        let mut advs: BTreeSet<(usize, usize)> = BTreeSet::new();
        let tidy = sz.tidy || r.chance(4, 5);
        // activations
        let items: Vec<(Switch, Vec<Poly>, bool)> = s
            .gates
            .iter()
            .map(|g| (g.sw, g.polys.clone(), true))
            .chain(s.looks.iter().map(|l| (l.sw, l.ins.clone(), false)))
            .collect();
        let mut want: Vec<(Switch, usize)> = vec![];
        for (sw, _, _) in &items {
            if sparse {
                if *sw != Switch::On && r.chance(1, 2) {
                    want.push((*sw, if r.chance(1, 2) { 0 } else { r.below(h) }));
                }
            } else if r.chance(1, 2) && *sw != Switch::On {
                for _ in 0..1 + r.below(4) {
                    want.push((*sw, r.below(h)));
                }
            }
        }
        for (sw, off) in want {
            // every item on this switch becomes active there: all of its cells must fit the region
            let on: Vec<&(Switch, Vec<Poly>, bool)> = items.iter().filter(|i| i.0 == sw).collect();
            let mut need: Vec<(rec::Kind, usize, i32)> = vec![];
            let mut must: Vec<(usize, i32)> = vec![];
            for (_, polys, _) in &on {
                for p in polys {
                    must.push((p.col, p.rot));
                    p.ex.cells(&mut need);
                }
            }
            let fits = |x: i32| off as i32 + x >= 0 && off as i32 + x < h as i32;
            if !must.iter().all(|(_, x)| fits(*x)) || !need.iter().all(|(_, _, x)| fits(*x)) {
                continue;
            }
            match sw {
                Switch::Sel(i) => {
                    sels.insert((i, off));
                }
                Switch::Fix(c) => {
                    let look = on.iter().any(|i| !i.2);
                    fixes.insert((c, off), if look || r.chance(1, 2) { 1 } else { r.u64() | 8 });
                }
                Switch::On => {}
            }
            for (c, x) in must {
                advs.insert((c, (off as i32 + x) as usize));
            }
            for (k, c, x) in need {
                if tidy || r.chance(2, 3) {
                    let o = (off as i32 + x) as usize;
                    match k {
                        rec::Kind::Advice => {
                            advs.insert((c, o));
                        }
                        rec::Kind::Fixed => {
                            fixes.entry((c, o)).or_insert_with(|| if r.chance(1, 3) { r.below(4) as u64 } else { r.u64() | 8 });
                        }
                        _ => {}
                    }
                }
            }
        }
        // extra cells
        for _ in 0..r.below(8) {
            advs.insert((r.below(n_adv), r.below(h)));
        }
        let switches: BTreeSet<usize> = items.iter().filter_map(|i| if let Switch::Fix(c) = i.0 { Some(c) } else { None }).collect();
        for _ in 0..r.below(3) {
            if s.n_fix > 0 {
                let c = r.below(s.n_fix);
                if !switches.contains(&c) {
                    let o = r.below(h);
                    fixes.entry((c, o)).or_insert_with(|| r.u64() | 8);
                }
            }
        }
        if advs.is_empty() {
            advs.insert((0, r.below(h)));
        }
        let mut ops: Vec<Op> = vec![];
        let mut here: Vec<usize> = vec![];
        let mut list: Vec<(usize, usize)> = advs.into_iter().collect();
        // column order keeps values computable; rows in any order
        for i in (1..list.len()).rev() {
            let j = r.below(i + 1);
            if list[i].0 == list[j].0 {
                list.swap(i, j);
            }
        }
        for (col, off) in list {
            let id = s.n_cells;
            s.n_cells += 1;
            let mut src = if slack.contains(&col) { Src::Slack } else { Src::Free };
            if matches!(src, Src::Free) && s.adv_eq[col] && sz.copies {
                match r.below(8) {
                    0 | 1 | 2 => {
                        let ok: Vec<usize> = (0..cells.len())
                            .filter(|i| s.adv_eq[cells[*i].0] && cells[*i].0 <= col && s.adv_phase[cells[*i].0] <= s.adv_phase[col])
                            .collect();
                        if !ok.is_empty() {
                            src = Src::Copy { of: *r.pick(&ok), api: r.chance(1, 2) };
                        }
                    }
                    3 if !s.consts.is_empty() => {
                        src = Src::Const { v: if r.chance(1, 2) { r.below(8) as u64 } else { r.u64() | 8 }, api: r.chance(1, 2) };
                    }
                    4 | 5 => {
                        let ok: Vec<usize> = (0..s.n_in).filter(|i| s.inst_eq[*i]).collect();
                        if !ok.is_empty() {
                            let ic = *r.pick(&ok);
                            src = Src::Inst { col: ic, row: r.below(s.inst_len[ic]), api: r.chance(1, 2) };
                        }
                    }
                    _ => {}
                }
            }
            cells.push((col, ri));
            here.push(id);
            ops.push(Op::Adv { id, col, off, src });
        }
        for ((c, o), v) in fixes {
            ops.push(Op::Fix { col: c, off: o, v });
        }
        for (i, o) in sels {
            ops.push(Op::Sel { sel: i, off: o });
        }
        // shuffle non-dependent ops a little: selectors and fixed cells anywhere
        for i in (1..ops.len()).rev() {
            if matches!(ops[i], Op::Sel { .. } | Op::Fix { .. }) {
                let j = r.below(i + 1);
                let x = ops.remove(i);
                ops.insert(j, x);
            }
        }
        if sz.copies {
            for _ in 0..r.below(2) {
                // a redundant constraint between two members of one copy chain is added later, when
                // classes are known; here: a cell with itself
                let id = *r.pick(&here);
                if s.adv_eq[cells[id].0] {
                    ops.push(Op::Equal { a: id, b: id });
                }
            }
        }
        s.regions.push(ops);
    }
    // redundant equalities between cells of the same class, in the last region
    if sz.copies {
        let root = |mut i: usize, s: &Spec| -> usize {
            loop {
                let op = s.regions.iter().flatten().find_map(|o| match o {
                    Op::Adv { id, src: Src::Copy { of, .. }, .. } if *id == i => Some(*of),
                    _ => None,
                });
                match op {
                    Some(of) => i = of,
                    None => return i,
                }
            }
        };
        let roots: Vec<usize> = (0..s.n_cells).map(|i| root(i, &s)).collect();
        let pairs: Vec<(usize, usize)> = (0..s.n_cells)
            .flat_map(|a| (0..s.n_cells).map(move |b| (a, b)))
            .filter(|(a, b)| a != b && roots[*a] == roots[*b])
            .collect();
        if !pairs.is_empty() {
            for _ in 0..r.below(4) {
                let (a, b) = *r.pick(&pairs);
                s.regions.last_mut().unwrap().push(Op::Equal { a, b });
            }
        }
        // outputs
        for ic in s.n_in..s.n_inst {
            if !s.inst_eq[ic] {
                continue;
            }
            for row in 0..s.inst_len[ic] {
                let ok: Vec<usize> = (0..cells.len()).filter(|i| s.adv_eq[cells[*i].0] && s.adv_phase[cells[*i].0] == 0).collect();
                if !ok.is_empty() && r.chance(2, 3) && out_used.insert((ic, row), ()).is_none() {
                    s.outs.push((*r.pick(&ok), ic, row));
                }
            }
        }
    }
    // order in which columns are enabled for equality: advice, fixed, instance indices
    let mut eqs: Vec<usize> = (0..n_adv)
        .filter(|i| s.adv_eq[*i])
        .chain((0..s.n_fix).filter(|i| s.fix_eq[*i]).map(|i| n_adv + i))
        .chain((0..s.n_inst).filter(|i| s.inst_eq[*i]).map(|i| n_adv + s.n_fix + i))
        .collect();
    for i in (1..eqs.len()).rev() {
        eqs.swap(i, r.below(i + 1));
    }
    s.eq_order = eqs;
    if r.chance(1, 8) {
        s.min_degree = Some(3 + r.below(5));
    }
    // make the rows fit exactly
    s
}

// ---------------------------------------------------------------- as a circuit

thread_local! {
    static SPEC: RefCell<Option<Rc<Spec>>> = RefCell::new(None);
}

/// `Circuit::configure` has no receiver: the spec it builds is the current one of this thread.
pub fn set_spec(s: &Rc<Spec>) {
    SPEC.with(|x| *x.borrow_mut() = Some(s.clone()));
}

#[derive(Clone)]
pub struct Cfg {
    pub adv: Vec<Column<Advice>>,
    pub fix: Vec<Column<Fixed>>,
    pub inst: Vec<Column<Instance>>,
    sel: Vec<Selector>,
    tab: Vec<TableColumn>,
    chal: Vec<Challenge>,
}

#[derive(Clone, Debug, Default)]
pub struct Tamper {
    pub cell: usize,
    pub v: TVal,
    /// later values are computed from the altered one
    pub early: bool,
}
#[derive(Clone, Debug)]
pub enum TVal {
    Add(u64),
    Set(u64),
    CellOf(usize),
    /// what the cell would hold in another witness
    Other(u64),
}
impl Default for TVal {
    fn default() -> Self {
        TVal::Add(1)
    }
}

pub struct Circ<F: FieldExt, P> {
    pub spec: Rc<Spec>,
    pub wseed: u64,
    pub known: bool,
    pub probe: bool,
    /// the description that the witness is computed from, if not `spec`
    pub wspec: Option<Rc<Spec>>,
    /// where the cells and regions are, from a probe
    pub place: Option<Rc<Place>>,
    pub inst: Vec<Vec<F>>,
    pub tamper: Vec<Tamper>,
    /// challenge values seen while synthesising
    pub seen: Rc<RefCell<BTreeMap<usize, F>>>,
    pub _p: PhantomData<P>,
}

impl<F: FieldExt, P> Clone for Circ<F, P> {
    fn clone(&self) -> Self {
        Circ {
            spec: self.spec.clone(),
            wseed: self.wseed,
            known: self.known,
            probe: self.probe,
            wspec: self.wspec.clone(),
            place: self.place.clone(),
            inst: self.inst.clone(),
            tamper: self.tamper.clone(),
            seen: self.seen.clone(),
            _p: PhantomData,
        }
    }
}

/// Layout found by a probe.
#[derive(Clone, Debug)]
pub struct Place {
    pub k: u32,
    pub usable: usize,
    /// (column, row) of each advice cell
    pub cell: Vec<(usize, usize)>,
    pub start: Vec<usize>,
}

fn with_poly<F: FieldExt>(p: &Poly, m: &mut VirtualCells<'_, F>, c: &Cfg) -> Expression<F> {
    let cell = |m: &mut VirtualCells<'_, F>| m.query_advice(c.adv[p.col], Rotation(p.rot));
    match p.form {
        0 => cell(m) - p.ex.to_halo(m, c),
        1 => {
            let e = p.ex.to_halo(m, c);
            e - cell(m)
        }
        2 => (cell(m) - p.ex.to_halo(m, c)) * val::<F>(3),
        _ => -(cell(m) + (-p.ex.to_halo(m, c))),
    }
}

fn sw_expr<F: FieldExt>(sw: Switch, m: &mut VirtualCells<'_, F>, c: &Cfg) -> Expression<F> {
    match sw {
        Switch::Sel(i) => m.query_selector(c.sel[i]),
        Switch::Fix(i) => m.query_fixed(c.fix[i], Rotation::cur()),
        Switch::On => Expression::Constant(F::one()),
    }
}

pub fn configure<F: FieldExt>(m: &mut ConstraintSystem<F>) -> Cfg {
    let s = SPEC.with(|x| x.borrow().clone()).expect("spec");
    let mut c = Cfg { adv: vec![], fix: vec![], inst: vec![], sel: vec![], tab: vec![], chal: vec![] };
    for _ in 0..s.n_fix {
        c.fix.push(m.fixed_column());
    }
    for p in &s.adv_phase {
        c.adv.push(match p {
            0 => m.advice_column(),
            1 => m.advice_column_in(SecondPhase),
            _ => m.advice_column_in(ThirdPhase),
        });
    }
    for _ in 0..s.n_inst {
        c.inst.push(m.instance_column());
    }
    for p in &s.chal_phase {
        c.chal.push(match p {
            0 => m.challenge_usable_after(FirstPhase),
            1 => m.challenge_usable_after(SecondPhase),
            _ => m.challenge_usable_after(ThirdPhase),
        });
    }
    for simple in &s.sels {
        c.sel.push(if *simple { m.selector() } else { m.complex_selector() });
    }
    for _ in 0..s.n_table_cols {
        c.tab.push(m.lookup_table_column());
    }
    for i in &s.consts {
        m.enable_constant(c.fix[*i]);
    }
    let n_adv = c.adv.len();
    for i in &s.eq_order {
        if *i < n_adv {
            m.enable_equality(c.adv[*i]);
        } else if *i < n_adv + s.n_fix {
            m.enable_equality(c.fix[*i - n_adv]);
        } else {
            m.enable_equality(c.inst[*i - n_adv - s.n_fix]);
        }
    }
    for g in &s.gates {
        if g.with {
            m.create_gate("with", |m| {
                let q = sw_expr(g.sw, m, &c);
                let v: Vec<(&'static str, Expression<F>)> = g.polys.iter().map(|p| ("poly", with_poly(p, m, &c))).collect();
                Constraints::with_selector(q, v)
            });
        } else {
            m.create_gate("gate", |m| {
                let mut v = vec![];
                for p in &g.polys {
                    let q = sw_expr(g.sw, m, &c);
                    let e = with_poly(p, m, &c);
                    v.push(if p.form % 2 == 0 { q * e } else { e * q });
                }
                v
            });
        }
    }
    for l in &s.looks {
        let inputs = |m: &mut VirtualCells<'_, F>| -> Vec<Expression<F>> {
            l.ins
                .iter()
                .enumerate()
                .map(|(j, p)| {
                    let cell = m.query_advice(c.adv[p.col], Rotation(p.rot));
                    if l.sw == Switch::On {
                        return cell;
                    }
                    let e = p.ex.to_halo(m, &c);
                    let q = sw_expr(l.sw, m, &c);
                    match &l.tab {
                        Tab::Table(_) => q * (cell - e),
                        Tab::Any(t) => {
                            let d = t[j].to_halo(m, &c);
                            q.clone() * (cell - e) + (Expression::Constant(F::one()) - q) * d
                        }
                    }
                })
                .collect()
        };
        match &l.tab {
            Tab::Table(t) => {
                let t = &s.tables[*t];
                m.lookup("table", |m| inputs(m).into_iter().zip((0..t.cols).map(|j| c.tab[t.first + j])).collect());
            }
            Tab::Any(t) => {
                m.lookup_any("any", |m| {
                    let i = inputs(m);
                    let t: Vec<Expression<F>> = t.iter().map(|e| e.to_halo(m, &c)).collect();
                    i.into_iter().zip(t).collect()
                });
            }
        }
    }
    if let Some(d) = s.min_degree {
        m.set_minimum_degree(d);
    }
    c
}

impl<F: FieldExt, P: FloorPlanner> Circ<F, P> {
    fn synth(&self, c: Cfg, mut l: impl Layouter<F>) -> Result<(), Error> {
        let s = self.spec.clone();
        let mut chal: Vec<Option<F>> = vec![];
        for ch in &c.chal {
            let mut v = None;
            l.get_challenge(*ch).map(|x| v = Some(x));
            if let Some(x) = v {
                self.seen.borrow_mut().insert(ch.index(), x);
            }
            chal.push(v);
        }
        let values: Vec<Option<F>> = if self.probe {
            (0..s.n_cells).map(|i| Some(F::from(i as u64 + 1))).collect()
        } else if !self.known {
            vec![None; s.n_cells]
        } else {
            let place = self.place.as_ref().expect("placed");
            values(self.wspec.as_ref().unwrap_or(&s), place, self.wseed, &self.inst, &chal, &self.tamper).0
        };
        if !s.tables_last {
            self.tables(&c, &mut l)?;
        }
        let cells: RefCell<HashMap<usize, Handle<F>>> = RefCell::new(HashMap::new());
        let plain = self.probe || !self.tamper.is_empty() || self.wspec.is_some();
        for (ri, ops) in s.regions.iter().enumerate() {
            let body = |mut region: Region<'_, F>| -> Result<(), Error> {
                for op in ops {
                    match op {
                        Op::Adv { id, col, off, src } => {
                            let v = values[*id];
                            let av = rational(v, self.wseed, *id);
                            let a = match src {
                                Src::Copy { of, api: true } if !plain => {
                                    let from = cells.borrow().get(of).cloned();
                                    match from {
                                        Some(Handle::A(f)) => Handle::A(f.copy_advice(|| "copy", &mut region, c.adv[*col], *off)?),
                                        Some(Handle::F(f)) => Handle::F(f.copy_advice(|| "copy", &mut region, c.adv[*col], *off)?),
                                        None => return Err(Error::Synthesis),
                                    }
                                }
                                Src::Const { v, api: true } if !plain => {
                                    Handle::F(region.assign_advice_from_constant(|| "const", c.adv[*col], *off, val::<F>(*v))?)
                                }
                                Src::Inst { col: ic, row, api: true } if !plain => {
                                    Handle::F(region.assign_advice_from_instance(|| "inst", c.inst[*ic], *row, c.adv[*col], *off)?)
                                }
                                _ => Handle::A(region.assign_advice(|| "adv", c.adv[*col], *off, || match av {
                                    Some(x) => Value::known(x),
                                    None => Value::unknown(),
                                })?),
                            };
                            let cell = a.cell();
                            match src {
                                Src::Copy { of, api } if plain || !api => {
                                    let f = cells.borrow().get(of).map(|x| x.cell()).ok_or(Error::Synthesis)?;
                                    if id % 2 == 0 {
                                        region.constrain_equal(f, cell)?;
                                    } else {
                                        region.constrain_equal(cell, f)?;
                                    }
                                }
                                Src::Const { v, api } if plain || !api => {
                                    region.constrain_constant(cell, val::<F>(*v))?;
                                }
                                _ => {}
                            }
                            cells.borrow_mut().insert(*id, a);
                        }
                        Op::Fix { col, off, v } => {
                            region.assign_fixed(|| "fix", c.fix[*col], *off, || Value::known(val::<F>(*v)))?;
                        }
                        Op::Sel { sel, off } => c.sel[*sel].enable(&mut region, *off)?,
                        Op::Equal { a, b } => {
                            let m = cells.borrow();
                            if let (Some(x), Some(y)) = (m.get(a), m.get(b)) {
                                region.constrain_equal(x.cell(), y.cell())?;
                            }
                        }
                    }
                }
                Ok(())
            };
            if s.namespaced {
                l.namespace(|| "ns").assign_region(|| format!("r{}", ri), body)?;
            } else {
                l.assign_region(|| format!("r{}", ri), body)?;
            }
            // instance constraints of this region's cells
            for op in ops {
                if let Op::Adv { id, src: Src::Inst { col: ic, row, api }, .. } = op {
                    if plain || !api {
                        let cell = cells.borrow()[id].cell();
                        l.constrain_instance(cell, c.inst[*ic], *row)?;
                    }
                }
            }
        }
        if s.tables_last {
            self.tables(&c, &mut l)?;
        }
        for (id, ic, row) in &s.outs {
            let cell = cells.borrow()[id].cell();
            l.constrain_instance(cell, c.inst[*ic], *row)?;
        }
        Ok(())
    }
    fn tables(&self, c: &Cfg, l: &mut impl Layouter<F>) -> Result<(), Error> {
        for t in &self.spec.tables {
            l.assign_table(
                || "table",
                |mut tab| {
                    for (i, row) in t.rows.iter().enumerate() {
                        for (j, v) in row.iter().enumerate() {
                            tab.assign_cell(|| "cell", c.tab[t.first + j], i, || Value::known(val::<F>(*v)))?;
                        }
                    }
                    Ok(())
                },
            )?;
        }
        Ok(())
    }
}

#[derive(Clone)]
enum Handle<F: FieldExt> {
    A(AssignedCell<Assigned<F>, F>),
    F(AssignedCell<F, F>),
}
impl<F: FieldExt> Handle<F> {
    fn cell(&self) -> HCell {
        match self {
            Handle::A(a) => a.cell(),
            Handle::F(a) => a.cell(),
        }
    }
}

fn rational<F: FieldExt>(v: Option<F>, wseed: u64, id: usize) -> Option<Assigned<F>> {
    let v = v?;
    let mut r = Rng::new(wseed ^ (id as u64).wrapping_mul(0x9E37_79B9));
    Some(match r.below(6) {
        0 => {
            let d = F::random(&mut r);
            if bool::from(d.is_zero()) {
                Assigned::Trivial(v)
            } else {
                Assigned::Rational(v * d, d)
            }
        }
        1 if bool::from(v.is_zero()) => {
            if r.chance(1, 2) {
                Assigned::Rational(F::random(&mut r), F::zero())
            } else {
                Assigned::Zero
            }
        }
        2 => Assigned::Rational(v, F::one()),
        _ => Assigned::Trivial(v),
    })
}

macro_rules! circuit {
    ($p:ty) => {
        impl<F: FieldExt> Circuit<F> for Circ<F, $p> {
            type Config = Cfg;
            type FloorPlanner = $p;
            fn without_witnesses(&self) -> Self {
                let mut c = self.clone();
                c.known = false;
                c
            }
            fn configure(meta: &mut ConstraintSystem<F>) -> Cfg {
                configure(meta)
            }
            fn synthesize(&self, config: Cfg, layouter: impl Layouter<F>) -> Result<(), Error> {
                self.synth(config, layouter)
            }
        }
    };
}
circuit!(SimpleFloorPlanner);
circuit!(V1);

// ---------------------------------------------------------------- meaning

fn eval_opt<F: FieldExt>(
    e: &Ex,
    row: usize,
    n: usize,
    adv: &[Vec<Option<F>>],
    fix: &[Vec<F>],
    inst: &[Vec<F>],
    chal: &[Option<F>],
) -> Option<F> {
    let at = |rot: i32| (row as i64 + rot as i64).rem_euclid(n as i64) as usize;
    Some(match e {
        Ex::Const(v) => val(*v),
        Ex::Adv(c, r) => adv[*c][at(*r)]?,
        Ex::Fix(c, r) => fix[*c][at(*r)],
        Ex::Inst(c, r) => inst[*c].get(at(*r)).copied().unwrap_or_else(F::zero),
        Ex::Chal(c) => chal[*c]?,
        Ex::Neg(a) => -eval_opt(a, row, n, adv, fix, inst, chal)?,
        Ex::Add(a, b) => eval_opt(a, row, n, adv, fix, inst, chal)? + eval_opt(b, row, n, adv, fix, inst, chal)?,
        Ex::Sub(a, b) => eval_opt(a, row, n, adv, fix, inst, chal)? - eval_opt(b, row, n, adv, fix, inst, chal)?,
        Ex::Mul(a, b) => eval_opt(a, row, n, adv, fix, inst, chal)? * eval_opt(b, row, n, adv, fix, inst, chal)?,
        Ex::Scale(a, v) => eval_opt(a, row, n, adv, fix, inst, chal)? * val::<F>(*v),
    })
}

pub fn inputs<F: FieldExt>(s: &Spec, wseed: u64) -> Vec<Vec<F>> {
    let mut r = Rng::new(wseed ^ 0x1457);
    (0..s.n_inst)
        .map(|c| {
            (0..s.inst_len[c])
                .map(|_| val(if r.chance(1, 3) { r.below(8) as u64 } else { r.u64() | 8 }))
                .collect()
        })
        .collect()
}

fn fixed_grid<F: FieldExt>(s: &Spec, pl: &Place) -> (Vec<Vec<F>>, Vec<Vec<bool>>) {
    let n = 1usize << pl.k;
    let mut fix = vec![vec![F::zero(); n]; s.n_fix];
    let mut sel = vec![vec![false; n]; s.sels.len()];
    for (ri, ops) in s.regions.iter().enumerate() {
        for op in ops {
            match op {
                Op::Fix { col, off, v } => fix[*col][pl.start[ri] + off] = val(*v),
                Op::Sel { sel: i, off } => sel[*i][pl.start[ri] + off] = true,
                _ => {}
            }
        }
    }
    (fix, sel)
}

/// Values of all cells (None: depends on an unknown challenge), and the grid.
pub fn values<F: FieldExt>(
    s: &Spec,
    pl: &Place,
    wseed: u64,
    inst: &[Vec<F>],
    chal: &[Option<F>],
    tamper: &[Tamper],
) -> (Vec<Option<F>>, Vec<Vec<Option<F>>>) {
    let n = 1usize << pl.k;
    let (fix, sel) = fixed_grid::<F>(s, pl);
    let mut adv: Vec<Vec<Option<F>>> = vec![vec![Some(F::zero()); n]; s.adv_phase.len()];
    let mut out: Vec<Option<F>> = vec![None; s.n_cells];
    let mut by_col: Vec<Vec<(usize, Src)>> = vec![vec![]; s.adv_phase.len()];
    for op in s.regions.iter().flatten() {
        if let Op::Adv { id, col, src, .. } = op {
            by_col[*col].push((*id, src.clone()));
        }
    }
    let on = |sw: Switch, row: i64| -> bool {
        if row < 0 || row >= n as i64 {
            return false;
        }
        match sw {
            Switch::Sel(i) => sel[i][row as usize],
            Switch::Fix(c) => !bool::from(fix[c][row as usize].is_zero()),
            Switch::On => (row as usize) < pl.usable,
        }
    };
    let alter = |id: usize, v: Option<F>, early: bool, out: &[Option<F>]| -> Option<F> {
        let mut v = v;
        for t in tamper.iter().filter(|t| t.cell == id && t.early == early) {
            v = match t.v {
                TVal::Add(d) => v.map(|x| x + val::<F>(d)),
                TVal::Set(d) => Some(val(d)),
                // a cell of a later phase is not known yet when this one is assigned
                TVal::CellOf(o) if s.adv_phase[pl.cell[o].0] > s.adv_phase[pl.cell[id].0] => v,
                TVal::CellOf(o) => out[o].or(v),
                TVal::Other(d) => v.map(|x| x + F::random(&mut Rng::new(d))),
            };
        }
        v
    };
    for (col, cells) in by_col.iter().enumerate() {
        let gate = s.gates.iter().find_map(|g| g.polys.iter().find(|p| p.col == col).map(|p| (g.sw, p)));
        let look = s.looks.iter().enumerate().find_map(|(i, l)| l.ins.iter().position(|p| p.col == col).map(|j| (i, l, j)));
        for (id, src) in cells {
            let (_, row) = pl.cell[*id];
            let mut rng = Rng::new(wseed ^ (*id as u64 + 77).wrapping_mul(0xD1B5_4A32_D192_ED03));
            let free = val::<F>(if rng.chance(1, 3) { rng.below(4) as u64 } else { rng.u64() | 8 });
            let v = match src {
                Src::Free => Some(free),
                Src::Copy { of, .. } => out[*of],
                Src::Const { v, .. } => Some(val(*v)),
                Src::Inst { col, row, .. } => Some(inst[*col].get(*row).copied().unwrap_or_else(F::zero)),
                Src::Slack => {
                    if let Some((sw, p)) = gate {
                        let at = row as i64 - p.rot as i64;
                        if on(sw, at) {
                            eval_opt(&p.ex, at as usize, n, &adv, &fix, inst, chal)
                        } else {
                            Some(free)
                        }
                    } else if let Some((li, l, j)) = look {
                        let p = &l.ins[j];
                        let at = row as i64 - p.rot as i64;
                        if on(l.sw, at) {
                            let mut h = Rng::new(wseed ^ (li as u64) << 32 ^ at as u64 ^ 0x7AB1E);
                            let t = match &l.tab {
                                Tab::Table(t) => {
                                    let t = &s.tables[*t];
                                    Some(val::<F>(t.rows[h.below(t.rows.len())][j]))
                                }
                                Tab::Any(v) => eval_opt(&v[j], h.below(pl.usable), n, &adv, &fix, inst, chal),
                            };
                            match (t, eval_opt(&p.ex, at as usize, n, &adv, &fix, inst, chal)) {
                                (Some(t), Some(e)) => Some(t + e),
                                _ => None,
                            }
                        } else {
                            Some(free)
                        }
                    } else {
                        Some(free)
                    }
                }
            };
            let v = alter(*id, v, true, &out);
            out[*id] = v;
            adv[col][row] = v;
        }
    }
    let snap = out.clone();
    for id in 0..s.n_cells {
        let v = alter(id, out[id], false, &snap);
        out[id] = v;
        let (c, r) = pl.cell[id];
        adv[c][r] = v;
    }
    (out, adv)
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Bad {
    /// gate, poly, row
    Gate(usize, usize, usize),
    /// lookup, row
    Look(usize, usize),
    /// class representative
    Copy(usize),
}

pub struct Truth<F: FieldExt> {
    pub bad: Vec<Bad>,
    pub trace: rec::Trace<F>,
}

/// The copy classes: (cells, constants, instance cells).
pub fn classes(s: &Spec) -> Vec<(Vec<usize>, Vec<u64>, Vec<(usize, usize)>)> {
    let mut parent: Vec<usize> = (0..s.n_cells).collect();
    fn find(p: &mut Vec<usize>, i: usize) -> usize {
        if p[i] != i {
            let r = find(p, p[i]);
            p[i] = r;
        }
        p[i]
    }
    let mut ins: BTreeMap<(usize, usize), Vec<usize>> = BTreeMap::new();
    let mut cons: Vec<(usize, u64)> = vec![];
    for op in s.regions.iter().flatten() {
        match op {
            Op::Adv { id, src: Src::Copy { of, .. }, .. } | Op::Equal { a: id, b: of } => {
                let (a, b) = (find(&mut parent, *id), find(&mut parent, *of));
                parent[a] = b;
            }
            Op::Adv { id, src: Src::Const { v, .. }, .. } => cons.push((*id, *v)),
            Op::Adv { id, src: Src::Inst { col, row, .. }, .. } => ins.entry((*col, *row)).or_default().push(*id),
            _ => {}
        }
    }
    for (id, c, r) in &s.outs {
        ins.entry((*c, *r)).or_default().push(*id);
    }
    for ids in ins.values() {
        for w in ids.windows(2) {
            let (a, b) = (find(&mut parent, w[0]), find(&mut parent, w[1]));
            parent[a] = b;
        }
    }
    let mut m: BTreeMap<usize, (Vec<usize>, Vec<u64>, Vec<(usize, usize)>)> = BTreeMap::new();
    for i in 0..s.n_cells {
        let r = find(&mut parent, i);
        m.entry(r).or_default().0.push(i);
    }
    for (i, v) in cons {
        let r = find(&mut parent, i);
        m.get_mut(&r).unwrap().1.push(v);
    }
    for (k, ids) in &ins {
        let r = find(&mut parent, ids[0]);
        m.get_mut(&r).unwrap().2.push(*k);
    }
    m.into_values().collect()
}

/// Which constraints does this witness break?
pub fn truth<F: FieldExt>(
    s: &Spec,
    pl: &Place,
    wseed: u64,
    prove_inst: &[Vec<F>],
    inst: &[Vec<F>],
    chal: &BTreeMap<usize, F>,
    tamper: &[Tamper],
) -> Truth<F> {
    truth_of(s, s, pl, wseed, prove_inst, inst, chal, tamper)
}

/// The same with a witness computed for another description of the same cells.
#[allow(clippy::too_many_arguments)]
pub fn truth_of<F: FieldExt>(
    ws: &Spec,
    s: &Spec,
    pl: &Place,
    wseed: u64,
    prove_inst: &[Vec<F>],
    inst: &[Vec<F>],
    chal: &BTreeMap<usize, F>,
    tamper: &[Tamper],
) -> Truth<F> {
    let n = 1usize << pl.k;
    let ch: Vec<Option<F>> = (0..s.chal_phase.len()).map(|i| Some(chal.get(&i).copied().unwrap_or_else(F::zero))).collect();
    let (vals, adv) = values(ws, pl, wseed, prove_inst, &ch, tamper);
    let (mut fix, sel) = fixed_grid::<F>(s, pl);
    let first_tab = fix.len();
    for t in &s.tables {
        for j in 0..t.cols {
            let mut col = vec![F::zero(); n];
            for (r, c) in col.iter_mut().enumerate().take(pl.usable) {
                *c = val(t.rows.get(r).unwrap_or(&t.rows[0])[j]);
            }
            fix.push(col);
        }
    }
    let trace = rec::Trace {
        n,
        usable: pl.usable,
        advice: adv,
        fixed: fix.into_iter().map(|c| c.into_iter().map(Some).collect()).collect(),
        selectors: sel,
        copies: vec![],
        instance: inst.to_vec(),
        challenges: chal.clone(),
        order: vec![],
    };
    let mut bad = vec![];
    let swe = |sw: Switch| -> rec::E<F> {
        match sw {
            Switch::Sel(i) => rec::E::Sel(i),
            Switch::Fix(c) => rec::E::Cell(rec::Kind::Fixed, c, 0),
            Switch::On => rec::E::Const(F::one()),
        }
    };
    let zero = |x: F| bool::from(x.is_zero());
    for (gi, g) in s.gates.iter().enumerate() {
        for (pi, p) in g.polys.iter().enumerate() {
            let q = swe(g.sw);
            let cell = rec::E::Cell(rec::Kind::Advice, p.col, p.rot);
            let ex = p.ex.to_e();
            for row in 0..pl.usable {
                if !zero(rec::eval(&q, &trace, row)) && rec::eval(&cell, &trace, row) != rec::eval(&ex, &trace, row) {
                    bad.push(Bad::Gate(gi, pi, row));
                }
            }
        }
    }
    for (li, l) in s.looks.iter().enumerate() {
        let tab: Vec<rec::E<F>> = match &l.tab {
            Tab::Table(t) => {
                let t = &s.tables[*t];
                (0..t.cols).map(|j| rec::E::Cell(rec::Kind::Fixed, first_tab + t.first + j, 0)).collect()
            }
            Tab::Any(v) => v.iter().map(|e| e.to_e()).collect(),
        };
        let set: BTreeSet<Vec<F>> = (0..pl.usable).map(|r| tab.iter().map(|e| rec::eval(e, &trace, r)).collect()).collect();
        let q = swe(l.sw);
        for row in 0..pl.usable {
            let qv = rec::eval(&q, &trace, row);
            let tuple: Vec<F> = l
                .ins
                .iter()
                .enumerate()
                .map(|(j, p)| {
                    let cell = rec::eval(&rec::E::Cell(rec::Kind::Advice, p.col, p.rot), &trace, row);
                    if l.sw == Switch::On {
                        return cell;
                    }
                    let e = rec::eval(&p.ex.to_e(), &trace, row);
                    let x = qv * (cell - e);
                    match &l.tab {
                        Tab::Table(_) => x,
                        Tab::Any(_) => x + (F::one() - qv) * rec::eval(&tab[j], &trace, row),
                    }
                })
                .collect();
            if !set.contains(&tuple) {
                bad.push(Bad::Look(li, row));
            }
        }
    }
    for (ci, (cells, cons, ins)) in classes(s).iter().enumerate() {
        let all: Vec<F> = cells
            .iter()
            .map(|i| vals[*i].unwrap_or_else(F::zero))
            .chain(cons.iter().map(|v| val(*v)))
            .chain(ins.iter().map(|(c, r)| inst[*c].get(*r).copied().unwrap_or_else(F::zero)))
            .collect();
        if all.windows(2).any(|w| w[0] != w[1]) {
            bad.push(Bad::Copy(ci));
        }
    }
    Truth { bad, trace }
}

/// Instances of a witness: the inputs, and the outputs computed from the cells.
pub fn instance<F: FieldExt>(s: &Spec, pl: &Place, wseed: u64) -> Vec<Vec<F>> {
    let mut inst = inputs::<F>(s, wseed);
    let none: Vec<Option<F>> = vec![None; s.chal_phase.len()];
    // one class may have several outputs and inputs: outputs follow the cells
    let (vals, _) = values(s, pl, wseed, &inst, &none, &[]);
    for (id, c, r) in &s.outs {
        if let Some(v) = vals[*id] {
            inst[*c][*r] = v;
        }
    }
    inst
}

// ---------------------------------------------------------------- placement

pub enum Probe {
    Ok(Place),
    TooSmall,
    Bad(String),
}

/// Lays the circuit out once, with the number of each cell as its value.
pub fn probe<F: FieldExt, P: FloorPlanner>(spec: &Rc<Spec>, k: u32) -> Probe
where
    Circ<F, P>: Circuit<F, Config = Cfg>,
{
    set_spec(spec);
    let mut cs = ConstraintSystem::<F>::default();
    let cfg = <Circ<F, P> as Circuit<F>>::configure(&mut cs);
    let n = 1usize << k;
    if n < cs.minimum_rows() {
        return Probe::TooSmall;
    }
    let sys = rec::system(&cs);
    let inst: Vec<Vec<F>> = inputs(spec, 0);
    let c = Circ::<F, P> {
        spec: spec.clone(),
        wseed: 0,
        known: true,
        probe: true,
        wspec: None,
        place: None,
        inst: inst.clone(),
        tamper: vec![],
        seen: Default::default(),
        _p: PhantomData,
    };
    let oracle = |_: Challenge| Value::unknown();
    let mut r = rec::Rec::new(&sys, k, inst, &oracle);
    if <Circ<F, P> as Circuit<F>>::FloorPlanner::synthesize(&mut r, &c, cfg, cs.constants().clone()).is_err() {
        return Probe::TooSmall;
    }
    let t = r.done();
    if spec.tables.iter().any(|x| x.rows.len() >= t.usable) || spec.inst_len.iter().any(|l| *l > t.usable) {
        return Probe::TooSmall;
    }
    let mut cell = vec![(usize::MAX, 0); spec.n_cells];
    for (ci, col) in t.advice.iter().enumerate() {
        for (ri, v) in col.iter().enumerate() {
            if let Some(v) = v {
                let id = v.get_lower_128() as usize - 1;
                if id >= spec.n_cells || cell[id].0 != usize::MAX {
                    return Probe::Bad(format!("cell {} is placed twice", id));
                }
                cell[id] = (ci, ri);
            }
        }
    }
    let mut start = vec![];
    for (i, ops) in spec.regions.iter().enumerate() {
        let mut st = None;
        for op in ops {
            if let Op::Adv { id, col, off, .. } = op {
                let (c, row) = cell[*id];
                if c == usize::MAX {
                    return Probe::Bad(format!("cell {} of region {} was overwritten by another cell", id, i));
                }
                if c != *col || row < *off {
                    return Probe::Bad(format!("cell {} of region {} is in column {} row {}", id, i, c, row));
                }
                let x = row - off;
                if st.map_or(false, |y| y != x) {
                    return Probe::Bad(format!("region {} is torn apart", i));
                }
                st = Some(x);
            }
        }
        start.push(st.unwrap_or(0));
    }
    Probe::Ok(Place { k, usable: t.usable, cell, start })
}

pub fn place<F: FieldExt>(spec: &Rc<Spec>, k: u32) -> Probe {
    if spec.v1 {
        probe::<F, V1>(spec, k)
    } else {
        probe::<F, SimpleFloorPlanner>(spec, k)
    }
}

/// A spec with its layout at the smallest possible size, with the rows filled up if asked for.
pub fn build<F: FieldExt>(seed: u64, sz: Size) -> Result<(Rc<Spec>, Place), String> {
    let mut spec = Rc::new(gen_spec(seed, sz));
    let mut got = None;
    for k in 3..9 {
        match place::<F>(&spec, k) {
            Probe::Ok(p) => {
                got = Some(p);
                break;
            }
            Probe::TooSmall => {}
            Probe::Bad(m) => return Err(m),
        }
    }
    let mut pl = got.ok_or("no size fits")?;
    let mut r = Rng::new(seed ^ 0xF111);
    if sz.fill && r.chance(1, 2) {
        // lengthen a region as far as this size allows
        let ri = r.below(spec.regions.len());
        let col = r.below(spec.adv_phase.len());
        let slack = spec.gates.iter().any(|g| g.polys.iter().any(|p| p.col == col))
            || spec.looks.iter().any(|g| g.ins.iter().any(|p| p.col == col));
        let (mut lo, mut hi) = (0usize, 1usize << pl.k);
        let mut best = None;
        while lo < hi {
            let off = (lo + hi) / 2;
            let mut s = (*spec).clone();
            let taken = s.regions[ri].iter().any(|o| matches!(o, Op::Adv { col: c, off: o, .. } if *c == col && *o == off));
            if taken {
                lo = off + 1;
                continue;
            }
            let id = s.n_cells;
            s.n_cells += 1;
            s.regions[ri].push(Op::Adv { id, col, off, src: if slack { Src::Slack } else { Src::Free } });
            let s = Rc::new(s);
            match place::<F>(&s, pl.k) {
                Probe::Ok(p) => {
                    best = Some((s, p));
                    lo = off + 1;
                }
                Probe::TooSmall => hi = off,
                Probe::Bad(m) => return Err(m),
            }
        }
        if let Some((s, p)) = best {
            spec = s;
            pl = p;
        }
    } else if r.chance(1, 6) {
        if let Probe::Ok(p) = place::<F>(&spec, pl.k + 1) {
            pl = p;
        }
    }
    Ok((spec, pl))
}

pub fn circuit<F: FieldExt, P>(spec: &Rc<Spec>, pl: &Place, wseed: u64, inst: &[Vec<F>], tamper: &[Tamper]) -> Circ<F, P> {
    Circ {
        spec: spec.clone(),
        wseed,
        known: true,
        probe: false,
        wspec: None,
        place: Some(Rc::new(pl.clone())),
        inst: inst.to_vec(),
        tamper: tamper.to_vec(),
        seen: Default::default(),
        _p: PhantomData,
    }
}

pub fn describe(s: &Spec, pl: &Place) -> String {
    format!(
        "k={} usable={} planner={} advice={:?} fixed={} consts={} inst={:?} chal={:?} sels={} gates={} lookups={} tables={} regions={} cells={} outs={}",
        pl.k,
        pl.usable,
        if s.v1 { "v1" } else { "simple" },
        s.adv_phase,
        s.n_fix,
        s.consts.len(),
        s.inst_len,
        s.chal_phase,
        s.sels.len(),
        s.gates.len(),
        s.looks.len(),
        s.tables.len(),
        s.regions.len(),
        s.n_cells,
        s.outs.len()
    )
}
