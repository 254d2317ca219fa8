//! C17: circuits made of gadgets; a prover that alters cells and repairs the constraints around
//! them never gets inputs and results accepted which the gadgets' definitions do not relate.

use crate::board::Board;
use crate::c16::ref_constant;
use crate::core::*;
use crate::pos::Ref;
use crate::rec::*;
use ff::{Field, PrimeField, PrimeFieldBits};
use halo2_gadgets::poseidon::primitives::{Absorbing, ConstantLength, P128Pow5T3, Spec};
use halo2_gadgets::poseidon::{Hash as PHash, PaddedWord, PoseidonInstructions, Pow5Chip, Pow5Config, Sponge};
use halo2_gadgets::utilities::cond_swap::{CondSwapChip, CondSwapConfig, CondSwapInstructions};
use halo2_gadgets::utilities::decompose_running_sum::RunningSumConfig;
use halo2_gadgets::utilities::lookup_range_check::LookupRangeCheckConfig;
use halo2_gadgets::utilities::RangeConstrained;
use halo2_proofs::circuit::{floor_planner, AssignedCell, Layouter, SimpleFloorPlanner, Value};
use halo2_proofs::dev::MockProver;
use halo2_proofs::plonk::*;
use halo2curves::pasta::{Fp, Fq};
use halo2curves::FieldExt;
use serde_json::{json, Value as J};
use std::cell::RefCell;
use std::collections::BTreeSet;
use std::marker::PhantomData;
use std::rc::Rc;

type Var<F> = AssignedCell<F, F>;

/// A permutation with few rounds.
#[derive(Debug, Clone)]
pub struct Short<const RF: usize, const RP: usize>;
impl<F: FieldExt, const T: usize, const R: usize, const RF: usize, const RP: usize> Spec<F, T, R> for Short<RF, RP> {
    fn full_rounds() -> usize {
        RF
    }
    fn partial_rounds() -> usize {
        RP
    }
    fn sbox(v: F) -> F {
        v.pow_vartime([5])
    }
    fn secure_mds() -> usize {
        0
    }
}

pub trait GF: FieldExt + PrimeFieldBits + Ord {}
impl GF for Fp {}
impl GF for Fq {}

/// Little-endian integer value.
pub fn int<F: PrimeField>(x: &F) -> num_bigint::BigUint {
    num_bigint::BigUint::from_bytes_le(x.to_repr().as_ref())
}
pub fn fits<F: PrimeField>(x: &F, bits: usize) -> bool {
    int(x).bits() <= bits as u64
}

pub fn value<F: FieldExt>(j: &J) -> F {
    let bits = j[0].as_u64().unwrap() as u32;
    let mut r = Rng::new(j[1].as_u64().unwrap());
    let two = F::from(2);
    let pow = |b: u32| two.pow_vartime([b as u64]);
    match j[2].as_u64().unwrap_or(0) {
        1 => pow(bits) - F::one(),
        2 => pow(bits),
        3 => -F::one(),
        4 => pow(bits.saturating_sub(1)),
        5 => F::zero(),
        6 => -F::from(1 + r.below(9) as u64),
        _ => {
            // uniform below 2^bits (or anything)
            if bits >= F::NUM_BITS {
                let mut b = [0u8; 64];
                b.copy_from_slice(&r.bytes(64));
                return F::from_bytes_wide(&b);
            }
            (0..bits).fold(F::zero(), |a, _| a + a + F::from(r.u64() & 1))
        }
    }
}

#[derive(Clone, Debug)]
enum Rel {
    Hash(Vec<usize>, usize),
    /// words absorbed (a variable, or a constant), results
    Sponge(Vec<(Option<usize>, u64)>, usize, Vec<usize>),
    Perm(Vec<usize>, Vec<usize>),
    /// window, all sums, last is zero
    Sums(usize, Vec<usize>, bool),
    Short(usize, usize),
    Swap(usize, usize, usize),
    Same(usize, usize),
}

#[derive(Default)]
struct Log<F> {
    x: Vec<Option<F>>,
    rel: Vec<Rel>,
    /// values the honest prover cannot have
    bad: bool,
    names: Vec<String>,
}

struct Gad<F: GF, S, const W: usize, const R: usize, const K: usize, P> {
    ops: Rc<Vec<J>>,
    known: bool,
    log: Rc<RefCell<Log<F>>>,
    _m: PhantomData<(S, P)>,
}

impl<F: GF, S, const W: usize, const R: usize, const K: usize, P> Clone for Gad<F, S, W, R, K, P> {
    fn clone(&self) -> Self {
        Gad { ops: self.ops.clone(), known: self.known, log: self.log.clone(), _m: PhantomData }
    }
}

#[derive(Clone, Debug)]
struct Cfg<F: GF, const W: usize, const R: usize, const K: usize> {
    input: Column<Advice>,
    pos: Pow5Config<F, W, R>,
    rs1: RunningSumConfig<F, 1>,
    rs2: RunningSumConfig<F, 2>,
    rs3: RunningSumConfig<F, 3>,
    lk: LookupRangeCheckConfig<F, K>,
    table: TableColumn,
    swap: CondSwapConfig,
    inst: Column<Instance>,
}

thread_local! { static LAYOUT: RefCell<Vec<usize>> = RefCell::new(vec![]); }

impl<F: GF, S: Spec<F, W, R>, const W: usize, const R: usize, const K: usize, P: FloorPlanner> Circuit<F>
    for Gad<F, S, W, R, K, P>
{
    type Config = Cfg<F, W, R, K>;
    type FloorPlanner = P;
    fn without_witnesses(&self) -> Self {
        Gad { known: false, ..self.clone() }
    }
    fn configure(meta: &mut ConstraintSystem<F>) -> Self::Config {
        let lay = LAYOUT.with(|l| l.borrow().clone());
        let n = W.max(5) + 1 + lay[0] % 4;
        let adv: Vec<_> = (0..n).map(|_| meta.advice_column()).collect();
        let at = |i: usize| adv[i % n];
        let fixed: Vec<_> = (0..2 * W).map(|_| meta.fixed_column()).collect();
        // a column of constants: shared with the scratch constants of the hash, or its own
        if lay[1] % 2 == 0 {
            meta.enable_constant(fixed[W]);
        } else {
            let c = meta.fixed_column();
            meta.enable_constant(c);
        }
        let inst = meta.instance_column();
        meta.enable_equality(inst);
        for c in &adv {
            meta.enable_equality(*c);
        }
        let table = meta.lookup_table_column();
        let state: [_; W] = (0..W).map(|i| at(lay[2] + i)).collect::<Vec<_>>().try_into().unwrap();
        let pos = Pow5Chip::configure::<S>(
            meta,
            state,
            at(lay[2] + W),
            fixed[..W].to_vec().try_into().unwrap(),
            fixed[W..].to_vec().try_into().unwrap(),
        );
        let (q1, q2, q3) = (meta.selector(), meta.selector(), meta.selector());
        let rs1 = RunningSumConfig::configure(meta, q1, at(lay[3]));
        let rs2 = RunningSumConfig::configure(meta, q2, at(lay[3] + lay[4]));
        let rs3 = RunningSumConfig::configure(meta, q3, at(lay[3] + 2 * lay[4]));
        let lk = LookupRangeCheckConfig::configure(meta, at(lay[5]), table);
        let swap = CondSwapChip::configure(meta, [at(lay[6]), at(lay[6] + 1), at(lay[6] + 2), at(lay[6] + 3), at(lay[6] + 4)]);
        Cfg { input: at(lay[7]), pos, rs1, rs2, rs3, lk, table, swap, inst }
    }
    fn synthesize(&self, c: Self::Config, mut l: impl Layouter<F>) -> Result<(), Error> {
        let known = self.known;
        let w = |x: F| if known { Value::known(x) } else { Value::unknown() };
        let mut log = Log { x: vec![], rel: vec![], bad: false, names: vec![] };
        l.assign_table(
            || "table",
            |mut t| {
                for i in 0..(1usize << K) {
                    t.assign_cell(|| "t", c.table, i, || Value::known(F::from(i as u64)))?;
                }
                Ok(())
            },
        )?;
        let mut vars: Vec<Var<F>> = vec![];
        for op in self.ops.iter() {
            let t = op["t"].as_str().unwrap();
            let pick = |vars: &Vec<Var<F>>, i: u64| (i as usize) % vars.len();
            let first = vars.len();
            macro_rules! out {
                ($v:expr, $n:expr) => {{
                    let v: Var<F> = $v;
                    let mut val = None;
                    v.value().map(|x| val = Some(*x));
                    log.x.push(val);
                    log.names.push($n.to_string());
                    l.constrain_instance(v.cell(), c.inst, vars.len())?;
                    vars.push(v);
                    vars.len() - 1
                }};
            }
            match t {
                "in" => {
                    let x = value::<F>(&op["v"]);
                    let v = l.assign_region(|| "in", |mut r| r.assign_advice(|| "in", c.input, 0, || w(x)))?;
                    out!(v, "input");
                }
                _ if vars.is_empty() => continue,
                "hash" => {
                    let a: Vec<usize> = op["a"].as_array().unwrap().iter().map(|i| pick(&vars, i.as_u64().unwrap())).collect();
                    let m: Vec<Var<F>> = a.iter().map(|i| vars[*i].clone()).collect();
                    let chip = Pow5Chip::construct(c.pos.clone());
                    macro_rules! h {
                        ($($n:literal),*) => {
                            match m.len() {
                                $($n => PHash::<F, _, S, ConstantLength<$n>, W, R>::init(chip, l.namespace(|| "init"))?
                                    .hash(l.namespace(|| "hash"), m.try_into().unwrap())?,)*
                                _ => continue,
                            }
                        };
                    }
                    let v = h!(1, 2, 3, 4, 5, 6, 7);
                    let o = out!(v, "digest");
                    log.rel.push(Rel::Hash(a, o));
                }
                "perm" => {
                    let a: Vec<usize> = (0..W).map(|i| pick(&vars, op["a"][i].as_u64().unwrap())).collect();
                    let chip = Pow5Chip::construct(c.pos.clone());
                    let s: Vec<_> = a.iter().map(|i| vars[*i].clone().into()).collect();
                    let s: [_; W] = s.try_into().unwrap();
                    let s = <Pow5Chip<F, W, R> as PoseidonInstructions<F, S, W, R>>::permute(&chip, &mut l, &s)?;
                    let mut o = vec![];
                    for x in s {
                        o.push(out!(x.into(), "state"));
                    }
                    log.rel.push(Rel::Perm(a, o));
                }
                "sponge" => {
                    let chip = Pow5Chip::construct(c.pos.clone());
                    let mut s: Sponge<F, _, S, Absorbing<PaddedWord<F>, R>, ConstantLength<3>, W, R> = Sponge::new(chip, l.namespace(|| "new"))?;
                    let mut a = vec![];
                    for x in op["a"].as_array().unwrap() {
                        let i = x.as_u64().unwrap();
                        if i % 3 == 0 {
                            let k = (i >> 8) & 0xff;
                            a.push((None, k));
                            s.absorb(l.namespace(|| "pad"), PaddedWord::Padding(F::from(k)))?;
                        } else {
                            let v = pick(&vars, i);
                            a.push((Some(v), 0));
                            s.absorb(l.namespace(|| "word"), PaddedWord::Message(vars[v].clone()))?;
                        }
                    }
                    while a.len() % R != 0 || a.is_empty() {
                        a.push((None, 1));
                        s.absorb(l.namespace(|| "pad"), PaddedWord::Padding(F::one()))?;
                    }
                    let mut s = s.finish_absorbing(l.namespace(|| "finish"))?;
                    let mut o = vec![];
                    for _ in 0..op["n"].as_u64().unwrap() {
                        let v = s.squeeze(l.namespace(|| "squeeze"))?;
                        o.push(out!(v, "squeezed"));
                    }
                    log.rel.push(Rel::Sponge(a, 3, o));
                }
                "rs" => {
                    let k = op["k"].as_u64().unwrap() as usize;
                    let bits = op["bits"].as_u64().unwrap() as usize;
                    let win = op["w"].as_u64().unwrap() as usize;
                    let strict = op["strict"].as_bool().unwrap();
                    let off = op["off"].as_u64().unwrap() as usize;
                    let copy = op["copy"].as_bool().unwrap();
                    let a = pick(&vars, op["a"].as_u64().unwrap());
                    let x = if copy { log.x[a] } else { Some(value::<F>(&op["v"])).filter(|_| known) };
                    macro_rules! go {
                        ($cfg:expr) => {
                            l.assign_region(
                                || "rs",
                                |mut r| {
                                    let z = if copy {
                                        $cfg.copy_decompose(&mut r, off, vars[a].clone(), strict, bits, win)?
                                    } else {
                                        $cfg.witness_decompose(&mut r, off, x.map(Value::known).unwrap_or(Value::unknown()), strict, bits, win)?
                                    };
                                    Ok(z.to_vec())
                                },
                            )?
                        };
                    }
                    let z = match k {
                        1 => go!(c.rs1),
                        2 => go!(c.rs2),
                        _ => go!(c.rs3),
                    };
                    let o: Vec<usize> = {
                        let mut o = vec![];
                        for v in z {
                            o.push(out!(v, "sum"));
                        }
                        o
                    };
                    if copy {
                        log.rel.push(Rel::Same(a, o[0]));
                    }
                    if strict && x.map(|x| !fits(&x, bits.min(k * win))).unwrap_or(false) {
                        log.bad = true;
                    }
                    log.rel.push(Rel::Sums(k, o, strict));
                }
                "lk" => {
                    let words = op["w"].as_u64().unwrap() as usize;
                    let strict = op["strict"].as_bool().unwrap();
                    let copy = op["copy"].as_bool().unwrap();
                    let a = pick(&vars, op["a"].as_u64().unwrap());
                    let x = if copy { log.x[a] } else { Some(value::<F>(&op["v"])).filter(|_| known) };
                    let z = if copy {
                        c.lk.copy_check(l.namespace(|| "lk"), vars[a].clone(), words, strict)?
                    } else {
                        c.lk.witness_check(l.namespace(|| "lk"), x.map(Value::known).unwrap_or(Value::unknown()), words, strict)?
                    };
                    let mut o = vec![];
                    for v in z.iter() {
                        o.push(out!(v.clone(), "sum"));
                    }
                    if copy {
                        log.rel.push(Rel::Same(a, o[0]));
                    }
                    if strict && x.map(|x| !fits(&x, K * words)).unwrap_or(false) {
                        log.bad = true;
                    }
                    log.rel.push(Rel::Sums(K, o, strict));
                }
                "short" => {
                    let bits = (op["bits"].as_u64().unwrap() as usize).min(K);
                    let how = op["how"].as_u64().unwrap();
                    let a = pick(&vars, op["a"].as_u64().unwrap());
                    let x = value::<F>(&op["v"]);
                    match how % 3 {
                        0 if bits < K => {
                            c.lk.copy_short_check(l.namespace(|| "short"), vars[a].clone(), bits)?;
                            if log.x[a].map(|x| !fits(&x, bits)).unwrap_or(false) {
                                log.bad = true;
                            }
                            log.rel.push(Rel::Short(a, bits));
                        }
                        1 if bits < K => {
                            let start = op["start"].as_u64().unwrap() as usize;
                            let v = RangeConstrained::<F, Var<F>>::witness_short(&c.lk, l.namespace(|| "short"), w(x).as_ref(), start..start + bits)?;
                            let i = out!(v.inner().clone(), "subset");
                            log.rel.push(Rel::Short(i, bits));
                            // the honest value is the chosen bits
                            if known {
                                let want = (int(&x) >> start) % (num_bigint::BigUint::from(1u8) << bits);
                                if log.x[i].map(|y| int(&y) != want).unwrap_or(true) {
                                    log.names[i] = format!("subset wrong: bits {}..{}", start, start + bits);
                                    log.rel.push(Rel::Short(i, 0));
                                }
                            }
                        }
                        _ => {
                            let v = c.lk.witness_short_check(l.namespace(|| "short"), w(x), bits)?;
                            if known && !fits(&x, bits) {
                                log.bad = true;
                            }
                            let i = out!(v, "short");
                            log.rel.push(Rel::Short(i, bits));
                        }
                    }
                }
                "swap" => {
                    let a = pick(&vars, op["a"].as_u64().unwrap());
                    let b = value::<F>(&op["v"]);
                    let s = op["s"].as_bool().unwrap();
                    let chip = CondSwapChip::construct(c.swap.clone());
                    let (p, q) = chip.swap(l.namespace(|| "swap"), (vars[a].clone(), w(b)), if known { Value::known(s) } else { Value::unknown() })?;
                    let (i, j) = (out!(p, "left"), out!(q, "right"));
                    log.rel.push(Rel::Swap(a, i, j));
                    if known {
                        let x = log.x[a].unwrap();
                        let want = if s { (b, x) } else { (x, b) };
                        if (log.x[i], log.x[j]) != (Some(want.0), Some(want.1)) {
                            log.names[i] = "swapped wrongly".into();
                            log.rel.push(Rel::Short(i, 0));
                        }
                    }
                }
                _ => {}
            }
            let _ = first;
        }
        *self.log.borrow_mut() = log;
        Ok(())
    }
}

fn related<F: GF>(rels: &[Rel], x: &[F], r: &Ref<F>) -> Option<String> {
    for rel in rels {
        match rel {
            Rel::Hash(a, o) => {
                let m: Vec<F> = a.iter().map(|i| x[*i]).collect();
                if ref_constant(r, &m) != x[*o] {
                    return Some(format!("digest of {} words", a.len()));
                }
            }
            Rel::Perm(a, o) => {
                let mut s: Vec<F> = a.iter().map(|i| x[*i]).collect();
                r.permute(&mut s);
                if o.iter().zip(&s).any(|(i, y)| x[*i] != *y) {
                    return Some("permutation".into());
                }
            }
            Rel::Sponge(a, cap, o) => {
                let rate = r.t - 1;
                let mut s = vec![F::zero(); r.t];
                s[rate] = F::from_u128((*cap as u128) << 64);
                for b in a.chunks(rate) {
                    for (i, (v, k)) in b.iter().enumerate() {
                        s[i] += v.map(|v| x[v]).unwrap_or_else(|| F::from(*k));
                    }
                    r.permute(&mut s);
                }
                for (n, i) in o.iter().enumerate() {
                    if n > 0 && n % rate == 0 {
                        r.permute(&mut s);
                    }
                    if x[*i] != s[n % rate] {
                        return Some(format!("result {} of a sponge that took {} words", n, a.len()));
                    }
                }
            }
            Rel::Sums(k, o, strict) => {
                for (n, p) in o.windows(2).enumerate() {
                    let word = x[p[0]] - x[p[1]] * F::from(1 << k);
                    if !fits(&word, *k) {
                        return Some(format!("word {} of {} bits in a running sum of {}", n, k, o.len() - 1));
                    }
                }
                if *strict && !bool::from(x[*o.last().unwrap()].is_zero()) {
                    return Some(format!("last of a strict running sum of {} {}-bit words", o.len() - 1, k));
                }
            }
            Rel::Short(i, b) => {
                if !fits(&x[*i], *b) {
                    return Some(format!("short check of {} bits", b));
                }
            }
            Rel::Swap(a, p, q) => {
                if x[*p] != x[*a] && x[*q] != x[*a] {
                    return Some("conditional swap".into());
                }
            }
            Rel::Same(a, b) => {
                if x[*a] != x[*b] {
                    return Some("copied input".into());
                }
            }
        }
    }
    None
}

/// A value for a cell that the deviating prover changes.
pub fn lie<F: FieldExt>(r: &mut Rng, old: F, others: &[F]) -> F {
    let pow = |b: u64| F::from(2).pow_vartime([b]);
    match r.below(10) {
        0 => old + F::one(),
        1 => old - F::one(),
        2 => F::from(r.below(20) as u64),
        3 => old + pow(r.below(12) as u64),
        4 => old + pow(r.below(255) as u64),
        5 => others[r.below(others.len())],
        6 => -old,
        7 => old * pow(1 + r.below(10) as u64),
        8 => old * pow(1 + r.below(10) as u64).invert().unwrap(),
        _ => {
            let mut b = [0u8; 64];
            b.copy_from_slice(&r.bytes(64));
            F::from_bytes_wide(&b)
        }
    }
}

/// What an attack does to an assignment; true if it ends up accepted.
pub fn attack<F: FieldExt>(b: &mut Board<F>, r: &mut Rng, o: &mut Outcome, rows: usize) -> bool {
    let mut settled: BTreeSet<usize> = BTreeSet::new();
    let n = if r.chance(1, 4) { r.range(2, 3) } else { 1 };
    let cells = b.t.order.len();
    let mut at = r.below(cells);
    // sometimes the statement itself is wanted to change
    for i in 0..n {
        if i > 0 {
            at = if r.chance(1, 2) { (at + r.range(1, 5)) % cells } else { r.below(cells) };
        }
        let cell = if r.chance(1, 20) {
            Cell { kind: Kind::Advice, col: r.below(b.sys.n_advice), row: r.below(rows.min(b.t.usable)) }
        } else {
            let (c, row) = b.t.order[at];
            Cell { kind: Kind::Advice, col: c, row }
        };
        let k = b.class_of(cell);
        if b.constant(k) {
            o.fault("constant altered");
            continue;
        }
        let old = b.value(k);
        let others: Vec<F> = (0..4)
            .map(|_| {
                let (c, row) = b.t.order[r.below(cells)];
                b.t.get(Kind::Advice, c, row)
            })
            .collect();
        let v = lie(r, old, &others);
        b.set(k, v);
        settled.insert(k);
        o.fault("altered cell");
    }
    if settled.is_empty() || b.changed() == 0 {
        return false;
    }
    // results or inputs that must stay as they are
    if r.chance(1, 4) {
        let m = b.t.instance[0].len();
        if m > 0 {
            for _ in 0..r.range(1, 3) {
                let k = b.class_of(Cell { kind: Kind::Instance, col: 0, row: r.below(m) });
                settled.insert(k);
            }
            o.fault("held value");
        }
    }
    let steps = if r.chance(1, 6) { 0 } else { 1500 };
    b.repair(r, &mut settled, steps)
}

/// The same operations with one input changed, or nothing if there is none to change.
pub fn vary(ops: &[J], r: &mut Rng) -> Option<Vec<J>> {
    let at: Vec<usize> = (0..ops.len()).filter(|i| ops[*i]["v"].is_array() || ops[*i]["pieces"].is_array()).collect();
    if at.is_empty() {
        return None;
    }
    let mut ops = ops.to_vec();
    let op = &mut ops[*r.pick(&at)];
    let n = op["pieces"].as_array().map_or(0, |p| p.len());
    let v = if n > 0 && r.chance(3, 4) { &mut op["pieces"][r.below(n)] } else { &mut op["v"] };
    if r.chance(2, 3) {
        v[2] = json!(0);
    } else {
        v[2] = json!(*r.pick(&[0usize, 1, 4, 5]));
    }
    v[1] = json!(r.u64() >> 12);
    Some(ops)
}

/// An assignment put together from two honest runs on different inputs.
pub struct Splice<F> {
    /// classes in the order they came up, with their value in the second run
    second: Vec<(usize, F)>,
    /// where they came up
    at: Vec<(usize, usize)>,
    /// places where the runs carry on a value of theirs without a copy
    loose: Vec<usize>,
    /// places where the runs begin or cease to differ
    edges: Vec<usize>,
}
impl<F: FieldExt> Splice<F> {
    pub fn new(b: &mut Board<F>, t2: &Trace<F>) -> Option<Splice<F>> {
        if t2.order != b.t.order || t2.copies != b.t.copies || t2.fixed != b.t.fixed || t2.selectors != b.t.selectors {
            return None;
        }
        let mut second = vec![];
        let mut at = vec![];
        let mut seen = std::collections::HashSet::new();
        let mut pairs = std::collections::HashSet::new();
        let mut loose = vec![];
        let mut edges = vec![];
        let mut differ = false;
        for (col, row) in b.t.order.clone() {
            let k = b.class_of(Cell { kind: Kind::Advice, col, row });
            if !seen.insert(k) || b.constant(k) {
                continue;
            }
            let (v1, v2) = (b.value(k), t2.get(Kind::Advice, col, row));
            if (v1 != v2) != differ {
                differ = !differ;
                edges.push(second.len());
            }
            if v1 != v2 && !pairs.insert((int(&v1), int(&v2))) {
                loose.push(second.len());
            }
            second.push((k, v2));
            at.push((col, row));
        }
        edges.extend(&loose);
        edges.push(second.len());
        Some(Splice { second, at, loose, edges })
    }
    /// All of the second run.
    pub fn take(&self, b: &mut Board<F>) {
        for (k, v) in &self.second {
            if b.value(*k) != *v {
                b.set(*k, *v);
            }
        }
    }
    /// All of the second run, but for a column (or its lower part).
    pub fn take_without(&self, b: &mut Board<F>, r: &mut Rng) {
        let differ: Vec<usize> = (0..self.second.len()).filter(|i| b.value(self.second[*i].0) != self.second[*i].1).collect();
        if differ.is_empty() {
            return;
        }
        let mut cols: Vec<usize> = differ.iter().map(|i| self.at[*i].0).collect();
        cols.sort();
        cols.dedup();
        let col = *r.pick(&cols);
        let mut from = 0;
        if r.chance(1, 4) {
            from = self.at[*r.pick(&differ)].1;
        }
        for i in differ {
            if self.at[i].0 != col || self.at[i].1 < from {
                b.set(self.second[i].0, self.second[i].1);
            }
        }
    }
    /// Everything from some place on (or up to it) is taken from the second run.
    pub fn attack(&self, b: &mut Board<F>, r: &mut Rng, o: &mut Outcome) -> bool {
        if self.second.is_empty() {
            return false;
        }
        let cut = if self.loose.is_empty() || r.chance(1, 4) { r.below(self.second.len()) } else { *r.pick(&self.loose) };
        let tail = r.chance(3, 4);
        let to = if tail {
            if r.chance(1, 4) { cut + r.below(self.second.len() - cut) + 1 } else { self.second.len() }
        } else {
            cut
        };
        let from = if tail { cut } else { 0 };
        // or everything between two places
        let (from, to) = if r.chance(1, 3) {
            let (a, b) = (*r.pick(&self.edges), *r.pick(&self.edges));
            (a.min(b), a.max(b))
        } else {
            (from, to)
        };
        let mut settled = BTreeSet::new();
        for (k, v) in &self.second[from..to] {
            if b.value(*k) != *v {
                b.set(*k, *v);
                settled.insert(*k);
            }
        }
        if settled.is_empty() {
            return false;
        }
        o.fault("spliced runs");
        if b.broken.is_empty() {
            return true;
        }
        if b.broken.len() > 12 || r.chance(1, 2) {
            return false;
        }
        if r.chance(1, 2) {
            settled.clear();
        }
        b.repair(r, &mut settled, 300)
    }
}

fn session<F: GF, S: Spec<F, W, R>, const W: usize, const R: usize, const K: usize, P: FloorPlanner>(o: &mut Outcome, plan: &J) {
    LAYOUT.with(|l| *l.borrow_mut() = plan["lay"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).collect());
    let circuit: Gad<F, S, W, R, K, P> = Gad {
        ops: Rc::new(plan["ops"].as_array().unwrap().clone()),
        known: true,
        log: Rc::new(RefCell::new(Log { x: vec![], rel: vec![], bad: false, names: vec![] })),
        _m: PhantomData,
    };
    let mut cs = ConstraintSystem::<F>::default();
    let cfg = Gad::<F, S, W, R, K, P>::configure(&mut cs);
    let constants = cs.constants().clone();
    let sys = system(&cs);
    let orc = |_: Challenge| Value::unknown();
    // the smallest size it fits in
    let mut found = None;
    for k in (K as u32 + 1)..14 {
        if (1usize << k) <= sys.unusable + 2 {
            continue;
        }
        let mut rec = Rec::new(&sys, k, vec![vec![]], &orc);
        match P::synthesize(&mut rec, &circuit, cfg.clone(), constants.clone()) {
            Ok(()) if circuit.log.borrow().x.len() > rec.t.usable => continue,
            Ok(()) => {
                found = Some((k, rec.done()));
                break;
            }
            Err(Error::NotEnoughRowsAvailable { .. }) | Err(Error::BoundsFailure) => continue,
            Err(Error::NotEnoughColumnsForConstants) => {
                // the planner puts constants only beside the regions, and says so
                o.inconclusive = Some("no room for the constants".into());
                return;
            }
            Err(e) => {
                o.fail("synthesis", format!("{:?}", e));
                return;
            }
        }
    }
    let Some((k, mut t)) = found else {
        o.fail("synthesis", "fits in no circuit".into());
        return;
    };
    let log = std::mem::replace(&mut *circuit.log.borrow_mut(), Log { x: vec![], rel: vec![], bad: false, names: vec![] });
    let x: Vec<F> = log.x.iter().map(|x| x.unwrap()).collect();
    t.instance = vec![x.clone()];
    let r = Ref::<F>::new(W, S::full_rounds(), S::partial_rounds());
    o.steps += log.rel.len() as u64;
    o.cases += 1;
    for op in circuit.ops.iter() {
        o.probe(op["t"].as_str().unwrap());
    }
    // the layout does not depend on the witness
    {
        let mut rec = Rec::new(&sys, k, vec![vec![]], &orc);
        rec.know_instance = false;
        let blind = circuit.without_witnesses();
        match P::synthesize(&mut rec, &blind, cfg.clone(), constants) {
            Ok(()) => {
                let u = rec.done();
                if u.fixed != t.fixed || u.selectors != t.selectors || u.copies != t.copies {
                    o.fail("layout", "the layout without witnesses differs from the one with them".into());
                }
            }
            Err(e) => o.fail("layout", format!("synthesis without witnesses: {:?}", e)),
        }
    }
    let rows = t.order.iter().map(|c| c.1).max().unwrap_or(0) + 3;
    let mut b = Board::new(sys, t);
    let mixed = b.unify();
    o.ev(format!("k {} broken {} mixed {}", k, b.broken.len(), mixed));
    let ok = b.broken.is_empty() && !mixed;
    if !log.bad && !ok {
        let first = b.broken.iter().next().map(|a| b.name(*a)).unwrap_or_else(|| "copies".into());
        o.fail("honest rejected", format!("{} ops: {}", circuit.ops.len(), first));
        return;
    }
    if ok {
        if let Some(e) = related(&log.rel, &x, &r) {
            o.fail("wrong result", format!("honest assignment accepted: {}", e));
            return;
        }
    }
    if plan["mock"].as_bool().unwrap_or(false) && k <= 10 {
        o.probe("mock prover");
        let c2 = circuit.clone();
        let v = MockProver::run(k, &c2, vec![x.clone()]).map(|p| p.verify().is_ok());
        if v.as_ref().map(|v| *v).unwrap_or(false) != ok {
            o.fail("verdict", format!("mock prover says {:?}, constraints are {}", v, if ok { "satisfied" } else { "broken" }));
        }
    }
    b.keep();
    let mut splice = None;
    if ok {
        let mut r2 = Rng::new(plan["attacks"][0].as_u64().unwrap_or(0) ^ 0x5b);
        if let Some(ops) = vary(&circuit.ops, &mut r2) {
            let other = Gad { ops: Rc::new(ops), ..circuit.clone() };
            let mut rec = Rec::new(&b.sys, k, vec![vec![]], &orc);
            if let Ok(()) = P::synthesize(&mut rec, &other, cfg.clone(), cs.constants().clone()) {
                let t2 = rec.done();
                splice = Splice::new(&mut b, &t2);
            }
            *circuit.log.borrow_mut() = Log { x: vec![], rel: vec![], bad: false, names: vec![] };
        }
    }
    let mut won = 0;
    for a in plan["attacks"].as_array().unwrap() {
        let mut r2 = Rng::new(a.as_u64().unwrap());
        o.cases += 1;
        if ok {
            let splice = if r2.chance(1, 4) { splice.as_ref() } else { None };
            let got = match splice {
                Some(s) => s.attack(&mut b, &mut r2, o),
                None => attack(&mut b, &mut r2, o, rows),
            };
            if got {
                won += 1;
                let x = b.t.instance[0].clone();
                if let Some(e) = related(&log.rel, &x, &r) {
                    // judge again from nothing
                    let bad = check(&b.sys, &b.t, 1);
                    if bad.is_empty() {
                        o.fail("forged", format!("{} cells altered, every constraint holds, but not: {}", b.changed(), e));
                    }
                } else {
                    o.count("other true statement", 1);
                }
            }
        } else {
            // an impossible statement: hold the inputs, repair the rest
            let mut settled = BTreeSet::new();
            for i in 0..x.len() {
                if log.names[i] == "input" || r2.chance(1, 8) {
                    settled.insert(b.class_of(Cell { kind: Kind::Instance, col: 0, row: i }));
                }
            }
            o.fault("impossible statement");
            if b.repair(&mut r2, &mut settled, 800) {
                won += 1;
                let x = b.t.instance[0].clone();
                if let Some(e) = related(&log.rel, &x, &r) {
                    if check(&b.sys, &b.t, 1).is_empty() {
                        o.fail("forged", format!("{} cells repaired, every constraint holds, but not: {}", b.changed(), e));
                    }
                }
            }
        }
        let mut h = Hash::new();
        h.num(b.changed() as u64).num(b.broken.len() as u64).num(k as u64);
        o.keys.insert(h.0);
        b.undo();
        if !o.violation.is_none() {
            return;
        }
    }
    o.ev(format!("won {}", won));
    o.count("attack ended in an accepted assignment", won);
}

fn dispatch(o: &mut Outcome, plan: &J) {
    let spec = plan["spec"].as_u64().unwrap();
    let v1 = plan["v1"].as_bool().unwrap();
    macro_rules! go {
        ($f:ty, $s:ty, $w:literal, $r:literal, $k:literal) => {
            if v1 {
                session::<$f, $s, $w, $r, $k, floor_planner::V1>(o, plan)
            } else {
                session::<$f, $s, $w, $r, $k, SimpleFloorPlanner>(o, plan)
            }
        };
    }
    match spec {
        0 => go!(Fp, P128Pow5T3, 3, 2, 4),
        1 => go!(Fq, P128Pow5T3, 3, 2, 6),
        2 => go!(Fp, Short<4, 2>, 3, 2, 3),
        3 => go!(Fq, Short<4, 2>, 2, 1, 4),
        4 => go!(Fp, Short<6, 4>, 5, 4, 5),
        5 => go!(Fp, Short<2, 2>, 4, 3, 4),
        _ => go!(Fp, Short<4, 4>, 3, 2, 10),
    }
}

const KS: [usize; 7] = [4, 6, 3, 4, 5, 4, 10];
const WS: [usize; 7] = [3, 3, 3, 2, 5, 4, 3];

pub struct C17;
impl Prop for C17 {
    fn id(&self) -> &'static str {
        "C17"
    }
    fn budget(&self, tier: Tier) -> Budget {
        match tier {
            Tier::Quick => Budget { runs: 1_000_000, secs: 25, workers: 8, timeout: 120, mem_mb: 4000 },
            Tier::Thorough => Budget { runs: 100_000_000, secs: 700, workers: 8, timeout: 120, mem_mb: 4000 },
        }
    }
    fn gen(&self, ctx: &Ctx, idx: u64) -> J {
        let mut r = Rng::new(run_seed(ctx.seed, "C17", idx));
        let spec = *r.pick(&[0usize, 1, 2, 2, 3, 3, 4, 5, 5, 6]);
        let (k, w) = (KS[spec], WS[spec]);
        let lay: Vec<usize> = (0..8).map(|i| if i == 4 { r.below(2) } else { r.below(12) }).collect();
        // a share of the runs wants values that do not fit
        let misfit = r.chance(1, 5);
        let val = |r: &mut Rng, bits: usize| -> J {
            let b = if bits >= 255 { 255 } else { bits };
            let how = if misfit && r.chance(1, 3) { r.range(1, 6) } else if b < 255 { *r.pick(&[0usize, 0, 0, 1, 4, 5]) } else { *r.pick(&[0usize, 0, 3, 5, 6]) };
            // 2^0 / 2 does not fit in no bits
            let how = if how == 4 && b == 0 { 5 } else { how };
            json!([b, r.u64() >> 12, how])
        };
        let mut ops = vec![];
        let only = if r.chance(1, 2) { Some(r.below(6)) } else { None };
        let count = r.range(1, 6);
        for _ in 0..r.range(1, 3) {
            let bits = *r.pick(&[1usize, k, 2 * k, 8, 64, 254, 255]);
            ops.push(json!({"t": "in", "v": val(&mut r, bits)}));
        }
        let mut vars = ops.len();
        for _ in 0..count {
            let any = r.u64() >> 20;
            match only.unwrap_or_else(|| r.below(6)) {
                0 => {
                    let n = r.range(1, 7);
                    ops.push(json!({"t": "hash", "a": (0..n).map(|_| r.u64() >> 20).collect::<Vec<_>>()}));
                    vars += 1;
                }
                1 if r.chance(1, 2) => {
                    ops.push(json!({"t": "perm", "a": (0..w).map(|_| r.u64() >> 20).collect::<Vec<_>>()}));
                    vars += w;
                }
                1 => {
                    let n = r.range(0, 7);
                    let m = r.range(1, 2 * w);
                    ops.push(json!({"t": "sponge", "n": m, "a": (0..n).map(|_| r.u64() >> 20).collect::<Vec<_>>()}));
                    vars += m;
                }
                2 | 3 => {
                    let look = r.chance(1, 2);
                    let kk = if look { k } else { r.range(1, 3) };
                    let strict = r.chance(2, 3);
                    let copy = r.chance(1, 2);
                    let max = if look { 254 / kk } else { 255 / kk };
                    let win = match r.below(5) {
                        0 => max,
                        1 => r.range(1, max),
                        _ => r.range(if look { 0 } else { 1 }, 8),
                    };
                    // no empty windows: kk * win < bits + kk
                    let bits = if r.chance(1, 2) { kk * win } else { kk * win - r.below(kk.min((kk * win).max(1))) };
                    let fit = if strict { bits } else { 255 };
                    // a copied value must fit: make one
                    let mut a = any;
                    if copy && strict {
                        ops.push(json!({"t": "in", "v": val(&mut r, fit)}));
                        a = vars as u64;
                        vars += 1;
                    }
                    let v = val(&mut r, fit);
                    if look {
                        ops.push(json!({"t": "lk", "w": win, "strict": strict, "copy": copy, "a": a, "v": v}));
                    } else {
                        ops.push(json!({"t": "rs", "k": kk, "bits": bits, "w": win, "strict": strict, "copy": copy, "a": a, "v": v, "off": r.below(3)}));
                    }
                    vars += win + 1;
                }
                4 => {
                    let bits = r.range(0, k);
                    let how = r.below(3) as u64;
                    let mut a = any;
                    if how == 0 && bits < k {
                        ops.push(json!({"t": "in", "v": val(&mut r, bits)}));
                        a = vars as u64;
                        vars += 1;
                    }
                    let v = if how == 1 && bits < k { val(&mut r, 255) } else { val(&mut r, bits) };
                    ops.push(json!({"t": "short", "bits": bits, "how": how, "a": a, "v": v, "start": r.below(255 - bits)}));
                    if !(how == 0 && bits < k) {
                        vars += 1;
                    }
                }
                _ => {
                    ops.push(json!({"t": "swap", "a": any, "v": val(&mut r, 255), "s": r.chance(1, 2)}));
                    vars += 2;
                }
            }
        }
        json!({"spec": spec, "lay": lay, "v1": r.chance(1, 3), "ops": ops, "mock": r.chance(1, 6),
               "attacks": (0..r.range(20, 80)).map(|_| r.u64() >> 12).collect::<Vec<_>>()})
    }
    fn exec(&self, _: &Ctx, plan: &J) -> Outcome {
        let mut o = Outcome::default();
        dispatch(&mut o, plan);
        o.sample = Some(json!({"spec": plan["spec"], "ops": plan["ops"].as_array().unwrap().iter().map(|x| x["t"].clone()).collect::<Vec<_>>()}));
        o
    }
    fn shrink(&self, plan: &J) -> Vec<J> {
        let mut v = vec![];
        let a = plan["attacks"].as_array().unwrap();
        if a.len() > 1 {
            for h in [&a[..a.len() / 2], &a[a.len() / 2..]] {
                let mut p = plan.clone();
                p["attacks"] = json!(h);
                v.push(p);
            }
        } else if a.len() == 1 {
            let mut p = plan.clone();
            p["attacks"] = json!([]);
            v.push(p);
        }
        let n = plan["ops"].as_array().unwrap().len();
        for i in (0..n).rev() {
            let mut p = plan.clone();
            p["ops"].as_array_mut().unwrap().remove(i);
            v.push(p);
        }
        if plan["v1"] == json!(true) {
            let mut p = plan.clone();
            p["v1"] = json!(false);
            v.push(p);
        }
        v
    }
    fn rule(&self) -> String {
        "distinct (cells changed, constraints left broken, circuit size) outcomes of an attack".into()
    }
    fn components(&self) -> J {
        json!({"real": ["halo2_gadgets poseidon (Pow5Chip, Sponge, Hash), decompose_running_sum, lookup_range_check, cond_swap", "constraint system, layouters and floor planners of halo2_proofs", "MockProver for a share"],
               "stub": ["the verdict on altered assignments comes from a direct evaluator of the constraint system (its agreement with the real prover and verifier is decided by C13, with the mock prover by C14)"]})
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["the deviating prover explores alterations by seeded search with local repair, not all assignments".into()]
    }
}
