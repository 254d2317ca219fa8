//! A recorded assignment which a deviating prover may alter: it changes cells, repairs what that
//! breaks by solving the constraints around it, and wins if everything holds in the end.

use crate::core::*;
use crate::rec::*;
use ff::PrimeField;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub enum At {
    Gate(usize, usize),
    Lookup(usize, usize),
}

pub struct Board<F: PrimeField> {
    pub sys: System<F>,
    pub t: Trace<F>,
    /// class of an advice or instance cell
    class: HashMap<Cell, usize>,
    pub members: Vec<Vec<Cell>>,
    /// class holding a fixed cell: the value it must have
    konst: Vec<Option<F>>,
    /// position at which a class was first assigned
    pub born: Vec<usize>,
    uses: HashMap<(Kind, usize), Vec<(bool, usize, i32)>>,
    factors: Vec<Vec<E<F>>>,
    cells_of_gate: Vec<Vec<(Kind, usize, i32)>>,
    cells_of_lookup: Vec<Vec<(Kind, usize, i32)>>,
    tables: Vec<Vec<Vec<F>>>,
    table_sets: Vec<HashSet<Vec<[u8; 32]>>>,
    /// rows of the table by the value of one column
    by_col: Vec<Vec<HashMap<[u8; 32], Vec<u32>>>>,
    pub broken: BTreeSet<At>,
    log: Vec<(Cell, F)>,
}

fn queries<F>(e: &E<F>, out: &mut BTreeSet<(Kind, usize, i32)>) {
    match e {
        E::Cell(k, c, r) => {
            out.insert((*k, *c, *r));
        }
        E::Neg(a) | E::Scaled(a, _) => queries(a, out),
        E::Sum(a, b) | E::Prod(a, b) => {
            queries(a, out);
            queries(b, out);
        }
        _ => {}
    }
}

fn split<F: Clone>(e: &E<F>, out: &mut Vec<E<F>>) {
    match e {
        E::Prod(a, b) => {
            split(a, out);
            split(b, out);
        }
        E::Neg(a) | E::Scaled(a, _) => split(a, out),
        E::Const(_) | E::Sel(_) => {}
        _ => out.push(e.clone()),
    }
}

impl<F: PrimeField> Board<F> {
    pub fn new(sys: System<F>, t: Trace<F>) -> Self {
        // classes over the copied cells
        let mut parent: Vec<usize> = vec![];
        let mut id: HashMap<Cell, usize> = HashMap::new();
        fn find(p: &mut Vec<usize>, mut x: usize) -> usize {
            while p[x] != x {
                p[x] = p[p[x]];
                x = p[x];
            }
            x
        }
        let mut list: Vec<Cell> = vec![];
        for (a, b) in &t.copies {
            let mut g = |c: &Cell| {
                *id.entry(*c).or_insert_with(|| {
                    parent.push(parent.len());
                    list.push(*c);
                    parent.len() - 1
                })
            };
            let (x, y) = (g(a), g(b));
            let (x, y) = (find(&mut parent, x), find(&mut parent, y));
            if x != y {
                parent[x.max(y)] = x.min(y);
            }
        }
        let mut class: HashMap<Cell, usize> = HashMap::new();
        let mut members: Vec<Vec<Cell>> = vec![];
        let mut konst: Vec<Option<F>> = vec![];
        let mut root: HashMap<usize, usize> = HashMap::new();
        for (i, c) in list.iter().enumerate() {
            let r = find(&mut parent, i);
            let k = *root.entry(r).or_insert_with(|| {
                members.push(vec![]);
                konst.push(None);
                members.len() - 1
            });
            class.insert(*c, k);
            if c.kind == Kind::Fixed {
                konst[k] = Some(t.cell(*c));
            } else {
                members[k].push(*c);
            }
        }
        let mut born = vec![usize::MAX; members.len()];
        for (i, (c, r)) in t.order.iter().enumerate() {
            let cell = Cell { kind: Kind::Advice, col: *c, row: *r };
            let k = *class.entry(cell).or_insert_with(|| {
                members.push(vec![cell]);
                konst.push(None);
                born.push(usize::MAX);
                members.len() - 1
            });
            born[k] = born[k].min(i);
        }
        let mut uses: HashMap<(Kind, usize), Vec<(bool, usize, i32)>> = HashMap::new();
        let mut cells_of_gate = vec![];
        let mut factors = vec![];
        for (i, (_, g)) in sys.gates.iter().enumerate() {
            let mut q = BTreeSet::new();
            queries(g, &mut q);
            for (k, c, r) in &q {
                uses.entry((*k, *c)).or_default().push((false, i, *r));
            }
            cells_of_gate.push(q.into_iter().collect());
            let mut f = vec![];
            split(g, &mut f);
            factors.push(f);
        }
        let mut cells_of_lookup = vec![];
        let mut tables = vec![];
        let mut table_sets = vec![];
        for (i, (ins, tab)) in sys.lookups.iter().enumerate() {
            let mut q = BTreeSet::new();
            for e in ins {
                queries(e, &mut q);
            }
            for (k, c, r) in &q {
                uses.entry((*k, *c)).or_default().push((true, i, *r));
            }
            cells_of_lookup.push(q.into_iter().collect());
            let set: HashSet<Vec<[u8; 32]>> = (0..t.usable).map(|r| tab.iter().map(|e| key(&eval(e, &t, r))).collect()).collect();
            let mut rows: Vec<Vec<F>> = vec![];
            let mut seen = HashSet::new();
            for r in 0..t.usable {
                let v: Vec<F> = tab.iter().map(|e| eval(e, &t, r)).collect();
                if seen.insert(v.iter().map(key).collect::<Vec<_>>()) {
                    rows.push(v);
                }
            }
            tables.push(rows);
            table_sets.push(set);
        }
        let by_col = tables
            .iter()
            .map(|rows: &Vec<Vec<F>>| {
                let w = rows.first().map(|r| r.len()).unwrap_or(0);
                (0..w)
                    .map(|j| {
                        let mut m: HashMap<[u8; 32], Vec<u32>> = HashMap::new();
                        for (i, r) in rows.iter().enumerate() {
                            m.entry(key(&r[j])).or_default().push(i as u32);
                        }
                        m
                    })
                    .collect()
            })
            .collect();
        let mut b = Board {
            sys,
            t,
            class,
            members,
            konst,
            born,
            uses,
            factors,
            cells_of_gate,
            cells_of_lookup,
            tables,
            table_sets,
            by_col,
            broken: BTreeSet::new(),
            log: vec![],
        };
        for g in 0..b.sys.gates.len() {
            for r in 0..b.t.n {
                b.test(At::Gate(g, r));
            }
        }
        for l in 0..b.sys.lookups.len() {
            for r in 0..b.t.usable {
                b.test(At::Lookup(l, r));
            }
        }
        b
    }

    fn holds(&self, a: At) -> bool {
        match a {
            At::Gate(g, r) => bool::from(eval(&self.sys.gates[g].1, &self.t, r).is_zero()),
            At::Lookup(l, r) => {
                let v: Vec<[u8; 32]> = self.sys.lookups[l].0.iter().map(|e| key(&eval(e, &self.t, r))).collect();
                self.table_sets[l].contains(&v)
            }
        }
    }
    fn test(&mut self, a: At) {
        if self.holds(a) {
            self.broken.remove(&a);
        } else {
            self.broken.insert(a);
        }
    }

    pub fn name(&self, a: At) -> String {
        match a {
            At::Gate(g, r) => format!("gate {} at row {}", self.sys.gates[g].0, r),
            At::Lookup(l, r) => format!("lookup {} at row {}", l, r),
        }
    }

    /// The class of a cell, made for it if it has none yet.
    pub fn class_of(&mut self, c: Cell) -> usize {
        if let Some(k) = self.class.get(&c) {
            return *k;
        }
        self.members.push(vec![c]);
        self.konst.push(None);
        self.born.push(0);
        self.class.insert(c, self.members.len() - 1);
        self.members.len() - 1
    }
    pub fn constant(&self, k: usize) -> bool {
        self.konst[k].is_some()
    }
    pub fn value(&self, k: usize) -> F {
        self.members[k].first().map(|c| self.t.cell(*c)).unwrap_or_else(F::zero)
    }

    fn put(&mut self, c: Cell, v: F) {
        match c.kind {
            Kind::Advice => self.t.advice[c.col][c.row] = Some(v),
            Kind::Instance => {
                let col = &mut self.t.instance[c.col];
                if col.len() <= c.row {
                    col.resize(c.row + 1, F::zero());
                }
                col[c.row] = v;
            }
            Kind::Fixed => unreachable!(),
        }
        let n = self.t.n as i64;
        let us = self.uses.get(&(c.kind, c.col)).cloned().unwrap_or_default();
        for (lookup, i, rot) in us {
            let row = (c.row as i64 - rot as i64).rem_euclid(n) as usize;
            if lookup {
                if row < self.t.usable {
                    self.test(At::Lookup(i, row));
                }
            } else {
                self.test(At::Gate(i, row));
            }
        }
    }

    /// Gives all cells of a class one value. Classes with a constant cannot be altered.
    pub fn set(&mut self, k: usize, v: F) -> bool {
        if self.konst[k].is_some() {
            return false;
        }
        for c in self.members[k].clone() {
            let old = self.t.cell(c);
            if old != v {
                self.log.push((c, old));
                self.put(c, v);
            }
        }
        true
    }

    /// Makes every class uniform (constants win); false if nothing had to change.
    pub fn unify(&mut self) -> bool {
        let mut any = false;
        for k in 0..self.members.len() {
            let Some(first) = self.members[k].first().copied() else { continue };
            let v = self.konst[k].unwrap_or_else(|| {
                // the value as first assigned
                let adv = self.members[k].iter().find(|c| c.kind == Kind::Advice).copied().unwrap_or(first);
                self.t.cell(adv)
            });
            for c in self.members[k].clone() {
                if self.t.cell(c) != v {
                    any = true;
                    let old = self.t.cell(c);
                    self.log.push((c, old));
                    self.put(c, v);
                }
            }
        }
        any
    }

    pub fn undo(&mut self) {
        while let Some((c, v)) = self.log.pop() {
            self.put(c, v);
        }
    }
    pub fn keep(&mut self) {
        self.log.clear();
    }
    pub fn changed(&self) -> usize {
        self.log.len()
    }

    fn classes_at(&mut self, a: At) -> BTreeSet<usize> {
        let (q, row) = match a {
            At::Gate(g, r) => (self.cells_of_gate[g].clone(), r),
            At::Lookup(l, r) => (self.cells_of_lookup[l].clone(), r),
        };
        let n = self.t.n as i64;
        let mut out = BTreeSet::new();
        for (k, c, rot) in q {
            if k == Kind::Fixed {
                continue;
            }
            let row = (row as i64 + rot as i64).rem_euclid(n) as usize;
            if row >= self.t.usable {
                continue;
            }
            out.insert(self.class_of(Cell { kind: k, col: c, row }));
        }
        out
    }

    fn var_map(&self, ks: &[usize]) -> HashMap<(usize, usize), usize> {
        let mut m = HashMap::new();
        for (i, k) in ks.iter().enumerate() {
            for c in &self.members[*k] {
                if c.kind == Kind::Advice {
                    m.insert((c.col, c.row), i);
                }
            }
        }
        m
    }

    /// Solves the equations for the classes; None if some equation is not affine or they have no
    /// single solution.
    fn solve(&self, eqs: &[(E<F>, usize, F)], ks: &[usize]) -> Option<Vec<F>> {
        let free = self.var_map(ks);
        let mut rows: Vec<Vec<F>> = vec![];
        for (e, r, want) in eqs {
            let a = eval_aff(e, &self.t, *r, &free)?;
            let mut v = vec![F::zero(); ks.len() + 1];
            for (i, x) in a.v {
                v[i] = v[i] + x;
            }
            v[ks.len()] = *want - a.c;
            rows.push(v);
        }
        let m = ks.len();
        let mut p = 0;
        let mut lead = vec![];
        for c in 0..m {
            let Some(i) = (p..rows.len()).find(|i| !bool::from(rows[*i][c].is_zero())) else { continue };
            rows.swap(p, i);
            let inv = rows[p][c].invert().unwrap();
            for x in rows[p].iter_mut() {
                *x = *x * inv;
            }
            for j in 0..rows.len() {
                if j != p && !bool::from(rows[j][c].is_zero()) {
                    let f = rows[j][c];
                    for k in 0..=m {
                        let d = rows[p][k] * f;
                        rows[j][k] = rows[j][k] - d;
                    }
                }
            }
            lead.push(c);
            p += 1;
        }
        if rows[p..].iter().any(|r| !bool::from(r[m].is_zero())) {
            return None;
        }
        let mut out: Vec<F> = ks.iter().map(|k| self.value(*k)).collect();
        for (i, c) in lead.iter().enumerate() {
            // free variables keep their value
            let mut v = rows[i][m];
            for k in 0..m {
                if k != *c && !lead.contains(&k) {
                    v = v - rows[i][k] * out[k];
                }
            }
            out[*c] = v;
        }
        Some(out)
    }

    /// Repairs what is broken without touching the settled classes. True if nothing is broken in
    /// the end.
    pub fn repair(&mut self, r: &mut Rng, settled: &mut BTreeSet<usize>, steps: usize) -> bool {
        for _ in 0..steps {
            if self.broken.is_empty() {
                return true;
            }
            // the broken row whose cells were assigned first
            let sample: Vec<At> = self.broken.iter().take(64).copied().collect();
            let mut rows: BTreeMap<usize, Vec<At>> = BTreeMap::new();
            for a in sample {
                let row = match a {
                    At::Gate(_, r) | At::Lookup(_, r) => r,
                };
                rows.entry(row).or_default().push(a);
            }
            let mut keyed: Vec<(usize, usize)> = vec![];
            for (row, at) in &rows {
                let mut key = 0;
                for a in at {
                    for k in self.classes_at(*a) {
                        if self.born[k] != usize::MAX {
                            key = key.max(self.born[k]);
                        }
                    }
                }
                keyed.push((key, *row));
            }
            keyed.sort();
            let row = if r.chance(1, 12) { keyed[r.below(keyed.len())].1 } else { keyed[0].1 };
            let at = rows[&row].clone();
            let mut free: BTreeSet<usize> = BTreeSet::new();
            let mut per: Vec<(At, Vec<usize>)> = vec![];
            for a in &at {
                let mut ks: Vec<usize> = self.classes_at(*a).into_iter().filter(|k| !settled.contains(k) && self.konst[*k].is_none()).collect();
                ks.sort_by_key(|k| std::cmp::Reverse(self.born[*k]));
                free.extend(&ks);
                per.push((*a, ks));
            }
            if per.iter().any(|(_, ks)| ks.is_empty()) {
                return false;
            }
            if !self.joint(r, &at, &free, settled) && !self.single(r, &per, settled) {
                return false;
            }
        }
        self.broken.is_empty()
    }

    fn equations(&self, r: &mut Rng, a: At, ks: &[usize]) -> Option<Vec<(E<F>, usize, F)>> {
        match a {
            At::Gate(g, row) => {
                // a factor which the classes decide
                let free = self.var_map(ks);
                let fs: Vec<&E<F>> = self.factors[g]
                    .iter()
                    .filter(|f| matches!(eval_aff(f, &self.t, row, &free), Some(a) if !a.v.is_empty()))
                    .collect();
                if fs.is_empty() {
                    return None;
                }
                let f = fs[r.below(fs.len())];
                Some(vec![(f.clone(), row, F::zero())])
            }
            At::Lookup(l, row) => {
                let free = self.var_map(ks);
                let ins = self.sys.lookups[l].0.clone();
                let mut cand: Option<Vec<u32>> = None;
                let mut fixed = vec![];
                for (j, e) in ins.iter().enumerate() {
                    let a = eval_aff(e, &self.t, row, &free)?;
                    if a.v.is_empty() {
                        fixed.push((j, a.c));
                    }
                }
                for (j, v) in &fixed {
                    let hit = self.by_col[l][*j].get(&key(v))?;
                    cand = Some(match cand {
                        None => hit.clone(),
                        Some(c) => {
                            let h: HashSet<u32> = hit.iter().copied().collect();
                            c.into_iter().filter(|x| h.contains(x)).collect()
                        }
                    });
                }
                let pick = match &cand {
                    None => r.below(self.tables[l].len()),
                    Some(c) if c.is_empty() => return None,
                    Some(c) => c[r.below(c.len())] as usize,
                };
                let v = &self.tables[l][pick];
                Some(
                    ins.iter()
                        .enumerate()
                        .filter(|(j, _)| !fixed.iter().any(|f| f.0 == *j))
                        .map(|(j, e)| (e.clone(), row, v[j]))
                        .collect(),
                )
            }
        }
    }

    fn apply(&mut self, ks: &[usize], v: Vec<F>, settled: &mut BTreeSet<usize>) {
        for (k, x) in ks.iter().zip(v) {
            self.set(*k, x);
            settled.insert(*k);
        }
    }

    fn joint(&mut self, r: &mut Rng, at: &[At], free: &BTreeSet<usize>, settled: &mut BTreeSet<usize>) -> bool {
        let mut ks: Vec<usize> = free.iter().copied().collect();
        ks.sort_by_key(|k| std::cmp::Reverse(self.born[*k]));
        let mut eqs = vec![];
        ks.truncate(at.len().min(8));
        for a in at {
            match self.equations(r, *a, &ks) {
                Some(e) => eqs.extend(e),
                None => return false,
            }
        }
        match self.solve(&eqs, &ks) {
            Some(v) => {
                self.apply(&ks, v, settled);
                at.iter().all(|a| !self.broken.contains(a))
            }
            None => false,
        }
    }

    fn single(&mut self, r: &mut Rng, per: &[(At, Vec<usize>)], settled: &mut BTreeSet<usize>) -> bool {
        let mut order: Vec<usize> = (0..per.len()).collect();
        // the constraint whose latest class is earliest
        order.sort_by_key(|i| per[*i].1.iter().map(|k| self.born[*k]).max());
        for i in order {
            let (a, ks) = &per[i];
            for k in ks {
                let Some(eqs) = self.equations(r, *a, &[*k]) else { continue };
                if let Some(v) = self.solve(&eqs, &[*k]) {
                    self.apply(&[*k], v, settled);
                    if !self.broken.contains(a) {
                        return true;
                    }
                }
            }
        }
        false
    }
}
