//! An independent view of what a circuit commits to and of the constraints on it: a recording
//! `Assignment`, a direct evaluator of the constraint system, and a linear solver which plays the
//! strongest possible second round for a deviating prover.

use ff::Field;
use halo2_proofs::circuit::Value;
use halo2_proofs::plonk::*;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum Kind {
    Advice,
    Fixed,
    Instance,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub struct Cell {
    pub kind: Kind,
    pub col: usize,
    pub row: usize,
}

/// Constraint expression with plain indices.
#[derive(Clone, Debug)]
pub enum E<F> {
    Const(F),
    Sel(usize),
    Cell(Kind, usize, i32),
    Chal(usize),
    Neg(Box<E<F>>),
    Sum(Box<E<F>>, Box<E<F>>),
    Prod(Box<E<F>>, Box<E<F>>),
    Scaled(Box<E<F>>, F),
}

pub fn selector_index(s: &Selector) -> usize {
    // Selector's fields are private; its Debug form is `Selector(index, simple)`.
    let d = format!("{:?}", s);
    let digits: String = d.chars().skip_while(|c| !c.is_ascii_digit()).take_while(|c| c.is_ascii_digit()).collect();
    digits.parse().expect("selector index")
}

pub fn compile<F: Field>(e: &Expression<F>) -> E<F> {
    match e {
        Expression::Constant(c) => E::Const(*c),
        Expression::Selector(s) => E::Sel(selector_index(s)),
        Expression::Fixed(q) => E::Cell(Kind::Fixed, q.column_index(), q.rotation().0),
        Expression::Advice(q) => E::Cell(Kind::Advice, q.column_index(), q.rotation().0),
        Expression::Instance(q) => E::Cell(Kind::Instance, q.column_index(), q.rotation().0),
        Expression::Challenge(c) => E::Chal(c.index()),
        Expression::Negated(a) => E::Neg(Box::new(compile(a))),
        Expression::Sum(a, b) => E::Sum(Box::new(compile(a)), Box::new(compile(b))),
        Expression::Product(a, b) => E::Prod(Box::new(compile(a)), Box::new(compile(b))),
        Expression::Scaled(a, f) => E::Scaled(Box::new(compile(a)), *f),
    }
}

fn is_zero<F: Field>(f: &F) -> bool {
    bool::from(f.is_zero())
}

/// The static part of a constraint system.
#[derive(Clone)]
pub struct System<F> {
    pub gates: Vec<(String, E<F>)>,
    pub lookups: Vec<(Vec<E<F>>, Vec<E<F>>)>,
    pub n_advice: usize,
    pub n_fixed: usize,
    pub n_instance: usize,
    pub n_selectors: usize,
    /// Highest phase of each advice column: 0 or more.
    pub phase: Vec<u8>,
    pub unusable: usize,
}

pub fn system<F: Field>(cs: &ConstraintSystem<F>) -> System<F> {
    let mut gates = vec![];
    for g in cs.gates.iter() {
        for (i, p) in g.polys.iter().enumerate() {
            let d = format!("{:?}", g);
            let name = d.split('"').nth(1).unwrap_or("gate").to_string();
            gates.push((format!("{}#{}", name, i), compile(p)));
        }
    }
    let lookups = cs
        .lookups
        .iter()
        .map(|l| {
            (
                l.input_expressions.iter().map(compile).collect::<Vec<_>>(),
                l.table_expressions.iter().map(compile).collect::<Vec<_>>(),
            )
        })
        .collect();
    let phase = cs
        .advice_column_phase
        .iter()
        .map(|p| {
            let d = format!("{:?}", p);
            let digits: String = d.chars().filter(|c| c.is_ascii_digit()).collect();
            digits.parse().unwrap_or(0)
        })
        .collect();
    System {
        gates,
        lookups,
        n_advice: cs.num_advice_columns,
        n_fixed: cs.num_fixed_columns,
        n_instance: cs.num_instance_columns,
        n_selectors: cs.num_selectors,
        phase,
        unusable: cs.blinding_factors() + 1,
    }
}

/// Everything a synthesis assigned.
#[derive(Clone)]
pub struct Trace<F> {
    pub n: usize,
    pub usable: usize,
    pub advice: Vec<Vec<Option<F>>>,
    pub fixed: Vec<Vec<Option<F>>>,
    pub selectors: Vec<Vec<bool>>,
    pub copies: Vec<(Cell, Cell)>,
    pub instance: Vec<Vec<F>>,
    pub challenges: BTreeMap<usize, F>,
    /// Order in which advice cells were first assigned.
    pub order: Vec<(usize, usize)>,
}

impl<F: Field> Trace<F> {
    pub fn get(&self, kind: Kind, col: usize, row: usize) -> F {
        match kind {
            Kind::Advice => self.advice[col][row].unwrap_or_else(F::zero),
            Kind::Fixed => self.fixed[col][row].unwrap_or_else(F::zero),
            Kind::Instance => self.instance[col].get(row).copied().unwrap_or_else(F::zero),
        }
    }
    pub fn cell(&self, c: Cell) -> F {
        self.get(c.kind, c.col, c.row)
    }
}

/// Where challenges and instances come from while recording.
pub trait Oracle<F> {
    fn challenge(&self, c: Challenge) -> Value<F>;
}

pub struct Rec<'a, F: Field> {
    pub t: Trace<F>,
    pub oracle: &'a dyn Fn(Challenge) -> Value<F>,
    pub seen: std::cell::RefCell<BTreeMap<usize, F>>,
    /// None: instance unknown (as during key generation).
    pub know_instance: bool,
}

impl<'a, F: Field> Rec<'a, F> {
    pub fn new(s: &System<F>, k: u32, instance: Vec<Vec<F>>, oracle: &'a dyn Fn(Challenge) -> Value<F>) -> Self {
        let n = 1usize << k;
        Rec {
            t: Trace {
                n,
                usable: n - s.unusable,
                advice: vec![vec![None; n]; s.n_advice],
                fixed: vec![vec![None; n]; s.n_fixed],
                selectors: vec![vec![false; n]; s.n_selectors],
                copies: vec![],
                instance,
                challenges: BTreeMap::new(),
                order: vec![],
            },
            oracle,
            seen: Default::default(),
            know_instance: true,
        }
    }
    pub fn done(mut self) -> Trace<F> {
        self.t.challenges = self.seen.borrow().clone();
        self.t
    }
}

fn value_of<F: Field, VR: Into<Assigned<F>>>(v: Value<VR>) -> Option<F> {
    let mut out = None;
    v.map(|x| {
        let a: Assigned<F> = x.into();
        out = Some(a.evaluate());
    });
    out
}

pub fn any_cell(c: Column<Any>, row: usize) -> Cell {
    let kind = match c.column_type() {
        Any::Advice(_) => Kind::Advice,
        Any::Fixed => Kind::Fixed,
        Any::Instance => Kind::Instance,
    };
    Cell { kind, col: c.index(), row }
}

impl<'a, F: Field> Assignment<F> for Rec<'a, F> {
    fn enter_region<NR, N>(&mut self, _: N)
    where
        NR: Into<String>,
        N: FnOnce() -> NR,
    {
    }
    fn annotate_column<A, AR>(&mut self, _: A, _: Column<Any>)
    where
        A: FnOnce() -> AR,
        AR: Into<String>,
    {
    }
    fn exit_region(&mut self) {}
    fn enable_selector<A, AR>(&mut self, _: A, s: &Selector, row: usize) -> Result<(), Error>
    where
        A: FnOnce() -> AR,
        AR: Into<String>,
    {
        if row >= self.t.usable {
            return Err(Error::BoundsFailure);
        }
        self.t.selectors[selector_index(s)][row] = true;
        Ok(())
    }
    fn query_instance(&self, column: Column<Instance>, row: usize) -> Result<Value<F>, Error> {
        if row >= self.t.usable {
            return Err(Error::BoundsFailure);
        }
        if !self.know_instance {
            return Ok(Value::unknown());
        }
        Ok(Value::known(self.t.get(Kind::Instance, column.index(), row)))
    }
    fn assign_advice<V, VR, A, AR>(&mut self, _: A, column: Column<Advice>, row: usize, to: V) -> Result<(), Error>
    where
        V: FnOnce() -> Value<VR>,
        VR: Into<Assigned<F>>,
        A: FnOnce() -> AR,
        AR: Into<String>,
    {
        if row >= self.t.usable {
            return Err(Error::BoundsFailure);
        }
        let v = value_of::<F, VR>(to());
        let slot = &mut self.t.advice[column.index()][row];
        if slot.is_none() {
            self.t.order.push((column.index(), row));
        }
        *slot = Some(v.unwrap_or_else(F::zero));
        Ok(())
    }
    fn assign_fixed<V, VR, A, AR>(&mut self, _: A, column: Column<Fixed>, row: usize, to: V) -> Result<(), Error>
    where
        V: FnOnce() -> Value<VR>,
        VR: Into<Assigned<F>>,
        A: FnOnce() -> AR,
        AR: Into<String>,
    {
        if row >= self.t.usable {
            return Err(Error::BoundsFailure);
        }
        self.t.fixed[column.index()][row] = Some(value_of::<F, VR>(to()).unwrap_or_else(F::zero));
        Ok(())
    }
    fn copy(&mut self, lc: Column<Any>, lr: usize, rc: Column<Any>, rr: usize) -> Result<(), Error> {
        self.t.copies.push((any_cell(lc, lr), any_cell(rc, rr)));
        Ok(())
    }
    fn fill_from_row(&mut self, column: Column<Fixed>, row: usize, to: Value<Assigned<F>>) -> Result<(), Error> {
        let v = value_of::<F, Assigned<F>>(to).unwrap_or_else(F::zero);
        for r in row..self.t.usable {
            self.t.fixed[column.index()][r] = Some(v);
        }
        Ok(())
    }
    fn get_challenge(&self, c: Challenge) -> Value<F> {
        let v = (self.oracle)(c);
        v.as_ref().map(|x| {
            self.seen.borrow_mut().insert(c.index(), *x);
        });
        v
    }
    fn push_namespace<NR, N>(&mut self, _: N)
    where
        NR: Into<String>,
        N: FnOnce() -> NR,
    {
    }
    fn pop_namespace(&mut self, _: Option<String>) {}
}

// ---------------------------------------------------------------- evaluation

pub fn eval<F: Field>(e: &E<F>, t: &Trace<F>, row: usize) -> F {
    match e {
        E::Const(c) => *c,
        E::Sel(s) => {
            if t.selectors[*s][row] {
                F::one()
            } else {
                F::zero()
            }
        }
        E::Cell(k, c, rot) => {
            let r = ((row as i64 + *rot as i64).rem_euclid(t.n as i64)) as usize;
            t.get(*k, *c, r)
        }
        E::Chal(i) => t.challenges.get(i).copied().unwrap_or_else(F::zero),
        E::Neg(a) => -eval(a, t, row),
        E::Sum(a, b) => eval(a, t, row) + eval(b, t, row),
        E::Prod(a, b) => {
            let x = eval(a, t, row);
            if is_zero(&x) {
                return x;
            }
            x * eval(b, t, row)
        }
        E::Scaled(a, f) => eval(a, t, row) * *f,
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Broken {
    Gate(usize, usize),
    Lookup(usize, usize),
    Copy(usize),
}

/// All violated constraints on the usable rows (up to `limit`).
/// A hashable form of an element.
pub fn key<F: ff::PrimeField>(f: &F) -> [u8; 32] {
    let r = f.to_repr();
    let mut k = [0; 32];
    k.copy_from_slice(&r.as_ref()[..32]);
    k
}

pub fn check<F: ff::PrimeField>(s: &System<F>, t: &Trace<F>, limit: usize) -> Vec<Broken> {
    let mut out = vec![];
    for (gi, (_, g)) in s.gates.iter().enumerate() {
        for row in 0..t.usable {
            if !is_zero(&eval(g, t, row)) {
                out.push(Broken::Gate(gi, row));
                if out.len() >= limit {
                    return out;
                }
            }
        }
    }
    for (i, (a, b)) in t.copies.iter().enumerate() {
        if t.cell(*a) != t.cell(*b) {
            out.push(Broken::Copy(i));
            if out.len() >= limit {
                return out;
            }
        }
    }
    for (li, (ins, tabs)) in s.lookups.iter().enumerate() {
        let table: HashSet<Vec<[u8; 32]>> =
            (0..t.usable).map(|r| tabs.iter().map(|e| key(&eval(e, t, r))).collect::<Vec<_>>()).collect();
        for row in 0..t.usable {
            let v: Vec<[u8; 32]> = ins.iter().map(|e| key(&eval(e, t, row))).collect();
            if !table.contains(&v) {
                out.push(Broken::Lookup(li, row));
                if out.len() >= limit {
                    return out;
                }
            }
        }
    }
    out
}

// ---------------------------------------------------------------- linear solving

#[derive(Clone, Debug)]
pub struct Aff<F> {
    pub c: F,
    pub v: Vec<(usize, F)>, // sorted by variable
}

fn aff_add<F: Field>(a: Aff<F>, b: Aff<F>) -> Aff<F> {
    if b.v.is_empty() {
        return Aff { c: a.c + b.c, v: a.v };
    }
    if a.v.is_empty() {
        return Aff { c: a.c + b.c, v: b.v };
    }
    let mut m: BTreeMap<usize, F> = a.v.into_iter().collect();
    for (i, x) in b.v {
        let e = m.entry(i).or_insert_with(F::zero);
        *e = *e + x;
    }
    Aff { c: a.c + b.c, v: m.into_iter().filter(|(_, x)| !is_zero(x)).collect() }
}
fn aff_scale<F: Field>(a: Aff<F>, f: F) -> Aff<F> {
    if is_zero(&f) {
        return Aff { c: F::zero(), v: vec![] };
    }
    Aff { c: a.c * f, v: a.v.into_iter().map(|(i, x)| (i, x * f)).collect() }
}

/// Unknown cells: advice cells in `free`, mapped to variables.
pub fn eval_aff<F: Field>(e: &E<F>, t: &Trace<F>, row: usize, free: &HashMap<(usize, usize), usize>) -> Option<Aff<F>> {
    let k = |c: F| Some(Aff { c, v: vec![] });
    match e {
        E::Const(c) => k(*c),
        E::Sel(s) => k(if t.selectors[*s][row] { F::one() } else { F::zero() }),
        E::Cell(kind, c, rot) => {
            let r = ((row as i64 + *rot as i64).rem_euclid(t.n as i64)) as usize;
            if *kind == Kind::Advice {
                if let Some(v) = free.get(&(*c, r)) {
                    return Some(Aff { c: F::zero(), v: vec![(*v, F::one())] });
                }
            }
            k(t.get(*kind, *c, r))
        }
        E::Chal(i) => k(t.challenges.get(i).copied().unwrap_or_else(F::zero)),
        E::Neg(a) => eval_aff(a, t, row, free).map(|x| aff_scale(x, -F::one())),
        E::Sum(a, b) => Some(aff_add(eval_aff(a, t, row, free)?, eval_aff(b, t, row, free)?)),
        E::Prod(a, b) => {
            let x = eval_aff(a, t, row, free)?;
            if x.v.is_empty() && is_zero(&x.c) {
                return Some(x);
            }
            let y = eval_aff(b, t, row, free)?;
            if x.v.is_empty() {
                Some(aff_scale(y, x.c))
            } else if y.v.is_empty() {
                Some(aff_scale(x, y.c))
            } else {
                None
            }
        }
        E::Scaled(a, f) => eval_aff(a, t, row, free).map(|x| aff_scale(x, *f)),
    }
}

/// Recomputes the cells of `cols` (all usable rows, except those in `fixed`) so that all gates and
/// copies hold if that is possible. Free cells keep their value in `t` where they can. Returns false
/// if the linear part has no solution (t is then left with a best effort).
pub fn solve<F: Field>(
    s: &System<F>,
    t: &mut Trace<F>,
    cols: &BTreeSet<usize>,
    fixed: &BTreeSet<(usize, usize)>,
) -> bool {
    // variables: representatives of copy classes among the free cells
    let mut free: HashMap<(usize, usize), usize> = HashMap::new();
    let mut cells: Vec<(usize, usize)> = vec![];
    for &c in cols {
        for r in 0..t.usable {
            if !fixed.contains(&(c, r)) {
                free.insert((c, r), cells.len());
                cells.push((c, r));
            }
        }
    }
    let mut eqs: Vec<Aff<F>> = vec![];
    for (_, g) in s.gates.iter() {
        if !mentions(g, cols) {
            continue;
        }
        for row in 0..t.usable {
            if let Some(a) = eval_aff(g, t, row, &free) {
                if !a.v.is_empty() {
                    eqs.push(a);
                } else if !is_zero(&a.c) {
                    return false;
                }
            }
        }
    }
    for (a, b) in t.copies.iter() {
        let f = |c: &Cell| -> Aff<F> {
            if c.kind == Kind::Advice {
                if let Some(v) = free.get(&(c.col, c.row)) {
                    return Aff { c: F::zero(), v: vec![(*v, F::one())] };
                }
            }
            Aff { c: t.cell(*c), v: vec![] }
        };
        let d = aff_add(f(a), aff_scale(f(b), -F::one()));
        if !d.v.is_empty() {
            eqs.push(d);
        }
    }
    // Elimination. pivot[v] = affine expression of v in terms of others.
    let mut pivot: BTreeMap<usize, Aff<F>> = BTreeMap::new();
    let mut ok = true;
    for eq in eqs {
        let mut eq = eq;
        // substitute known pivots, highest variable first
        loop {
            let hit = eq.v.iter().rev().find(|(i, _)| pivot.contains_key(i)).cloned();
            match hit {
                None => break,
                Some((i, x)) => {
                    let mut rest = eq.clone();
                    rest.v.retain(|(j, _)| *j != i);
                    let sub = aff_scale(pivot[&i].clone(), x);
                    eq = aff_add(rest, sub);
                }
            }
        }
        match eq.v.last().cloned() {
            None => {
                if !is_zero(&eq.c) {
                    ok = false;
                }
            }
            Some((i, x)) => {
                let inv = -x.invert().unwrap();
                let mut rest = eq;
                rest.v.retain(|(j, _)| *j != i);
                pivot.insert(i, aff_scale(rest, inv));
            }
        }
    }
    // Back substitution in increasing order: a pivot refers only to lower variables, some of which
    // may be pivots found later.
    let mut val: HashMap<usize, F> = HashMap::new();
    fn value<F: Field>(
        i: usize,
        pivot: &BTreeMap<usize, Aff<F>>,
        val: &mut HashMap<usize, F>,
        default: &dyn Fn(usize) -> F,
    ) -> F {
        if let Some(v) = val.get(&i) {
            return *v;
        }
        let v = match pivot.get(&i) {
            None => default(i),
            Some(a) => {
                let mut s = a.c;
                for (j, x) in a.v.clone() {
                    s = s + x * value(j, pivot, val, default);
                }
                s
            }
        };
        val.insert(i, v);
        v
    }
    let snapshot: Vec<F> = cells.iter().map(|(c, r)| t.get(Kind::Advice, *c, *r)).collect();
    let default = |i: usize| snapshot[i];
    for i in 0..cells.len() {
        if pivot.contains_key(&i) {
            let v = value(i, &pivot, &mut val, &default);
            let (c, r) = cells[i];
            t.advice[c][r] = Some(v);
        }
    }
    ok
}

pub fn mentions<F>(e: &E<F>, cols: &BTreeSet<usize>) -> bool {
    match e {
        E::Cell(Kind::Advice, c, _) => cols.contains(c),
        E::Neg(a) | E::Scaled(a, _) => mentions(a, cols),
        E::Sum(a, b) | E::Prod(a, b) => mentions(a, cols) || mentions(b, cols),
        _ => false,
    }
}
