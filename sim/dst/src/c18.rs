//! C18: circuits made of curve, Sinsemilla and Merkle gadgets; a prover that alters cells and repairs
//! the constraints around them never gets points accepted which the definitions do not relate.

use crate::board::Board;
use crate::c17::{vary, Splice, attack, fits, value};
use crate::core::*;
use crate::rec::*;
use ff::{Field, PrimeField};
use group::{Curve, Group};
use halo2_gadgets::dst::Lie;
use halo2_gadgets::ecc::chip::{
    compute_lagrange_coeffs, BaseFieldElem, EccChip, EccConfig, FixedPoint as FixedPointT, FullScalar, ShortScalar, H, NUM_WINDOWS,
    NUM_WINDOWS_SHORT,
};
use halo2_gadgets::ecc::{
    FixedPoint, FixedPointBaseField, FixedPointShort, FixedPoints, NonIdentityPoint, Point, ScalarFixed, ScalarFixedShort, ScalarVar,
};
use halo2_gadgets::sinsemilla::chip::{SinsemillaChip, SinsemillaConfig};
use halo2_gadgets::sinsemilla::merkle::chip::{MerkleChip, MerkleConfig};
use halo2_gadgets::sinsemilla::merkle::MerkleInstructions;
use halo2_gadgets::sinsemilla::primitives as native;
use halo2_gadgets::sinsemilla::{CommitDomain, CommitDomains, HashDomain, HashDomains, Message, MessagePiece};
use halo2_gadgets::utilities::lookup_range_check::LookupRangeCheckConfig;
use halo2_proofs::circuit::{floor_planner, AssignedCell, Layouter, SimpleFloorPlanner, Value};
use halo2_proofs::dev::MockProver;
use halo2_proofs::plonk::*;
use halo2curves::pasta::{pallas, Fp, Fq};
use halo2curves::{CurveAffine, CurveExt};
use serde_json::{json, Value as J};
use std::cell::RefCell;
use std::collections::{BTreeSet, HashMap};
use std::marker::PhantomData;
use std::rc::Rc;

type Aff = pallas::Affine;
type Var = AssignedCell<Fp, Fp>;

// ---------------------------------------------------------------- fixed bases and domains

const DOMAINS: [&str; 2] = ["dst-domain", "MerkleCRH"];

type Table = &'static [(u64, [Fp; H])];
thread_local! {
    static TABLES: RefCell<HashMap<(u8, usize), Table>> = RefCell::new(HashMap::new());
    static LAGRANGE: RefCell<HashMap<(u8, usize), Vec<[Fp; H]>>> = RefCell::new(HashMap::new());
    static HASHED: RefCell<HashMap<(u8, u8), Aff>> = RefCell::new(HashMap::new());
    static S: RefCell<HashMap<u32, pallas::Point>> = RefCell::new(HashMap::new());
}

/// Base 0 is the generator of the group, base 1 blinds the commitments of domain 0.
fn base(i: u8) -> Aff {
    match i {
        0 => pallas::Point::generator().to_affine(),
        _ => HASHED.with(|h| {
            *h.borrow_mut()
                .entry((0, i))
                .or_insert_with(|| pallas::Point::hash_to_curve(&format!("{}-r", DOMAINS[i as usize - 1]))(&[]).to_affine())
        }),
    }
}

/// The eight points of a window.
fn window(b: &Aff, w: usize, windows: usize) -> [pallas::Point; H] {
    let h = Fq::from(H as u64);
    let hw = h.pow_vartime(&[w as u64]);
    let offset = if w + 1 < windows {
        hw * Fq::from(2)
    } else {
        -(0..w).fold(Fq::zero(), |a, j| a + Fq::from(2) * h.pow_vartime(&[j as u64]))
    };
    std::array::from_fn(|k| *b * (hw * Fq::from(k as u64) + offset))
}

/// The smallest z of every window is looked up in zs.txt: the search takes minutes.
pub fn print_zs() {
    for i in 0..2u8 {
        let b = base(i);
        for windows in [NUM_WINDOWS, NUM_WINDOWS_SHORT] {
            let zs: Vec<String> = (0..windows)
                .map(|w| std::thread::spawn(move || {
                    let ys = window(&b, w, windows).map(|p| coords(&p)[1]);
                    let e: num_bigint::BigUint = crate::c17::int(&-Fp::one()) >> 1u32;
                    let e = e.to_u64_digits();
                    let square = |x: Fp| x.pow_vartime(&e) == Fp::one();
                    (0u64..).find(|z| ys.iter().all(|y| square(*y + Fp::from(*z)) && !square(Fp::from(*z) - y))).unwrap().to_string()
                }))
                .collect::<Vec<_>>()
                .into_iter()
                .map(|h| h.join().unwrap())
                .collect();
            println!("{} {} {}", i, windows, zs.join(" "));
        }
    }
}

fn table(i: u8, windows: usize) -> Table {
    TABLES.with(|t| {
        *t.borrow_mut().entry((i, windows)).or_insert_with(|| {
            let line = include_str!("zs.txt").lines().find(|l| l.starts_with(&format!("{} {} ", i, windows))).unwrap();
            let b = base(i);
            let t: Vec<_> = line
                .split(' ')
                .skip(2)
                .enumerate()
                .map(|(w, z)| {
                    let z: u64 = z.parse().unwrap();
                    (z, window(&b, w, windows).map(|p| Option::<Fp>::from((coords(&p)[1] + Fp::from(z)).sqrt()).unwrap()))
                })
                .collect();
            Box::leak(t.into_boxed_slice())
        })
    })
}

macro_rules! fixed {
    ($n:ident, $k:ty, $w:expr) => {
        #[derive(Debug, Clone, PartialEq, Eq)]
        struct $n(u8);
        impl FixedPointT<Aff> for $n {
            type FixedScalarKind = $k;
            fn generator(&self) -> Aff {
                base(self.0)
            }
            fn u(&self) -> Vec<[[u8; 32]; H]> {
                table(self.0, $w).iter().map(|(_, u)| u.map(|x| x.to_repr())).collect()
            }
            fn z(&self) -> Vec<u64> {
                table(self.0, $w).iter().map(|(z, _)| *z).collect()
            }
            // worked out once per process
            fn lagrange_coeffs(&self) -> Vec<[Fp; H]> {
                LAGRANGE.with(|t| t.borrow_mut().entry((self.0, $w)).or_insert_with(|| compute_lagrange_coeffs(base(self.0), $w)).clone())
            }
        }
    };
}
fixed!(Full, FullScalar, NUM_WINDOWS);
fixed!(Elem, BaseFieldElem, NUM_WINDOWS);
fixed!(Short, ShortScalar, NUM_WINDOWS_SHORT);

#[derive(Debug, Clone, PartialEq, Eq)]
struct Bases;
impl FixedPoints<Aff> for Bases {
    type FullScalar = Full;
    type ShortScalar = Short;
    type Base = Elem;
}

#[derive(Debug, Clone, PartialEq, Eq)]
struct HDom(u8);
#[allow(non_snake_case)]
impl HashDomains<Aff> for HDom {
    fn Q(&self) -> Aff {
        HASHED.with(|h| {
            *h.borrow_mut().entry((1, self.0)).or_insert_with(|| {
                pallas::Point::hash_to_curve(native::Q_PERSONALIZATION)(format!("{}-M", DOMAINS[self.0 as usize]).as_bytes()).to_affine()
            })
        })
    }
}
#[derive(Debug, Clone, PartialEq, Eq)]
struct CDom(u8);
impl CommitDomains<Aff, Bases, HDom> for CDom {
    fn r(&self) -> Full {
        Full(1 + self.0)
    }
    fn hash_domain(&self) -> HDom {
        HDom(self.0)
    }
}

/// The plain definition: generators by hashing to the curve, complete additions.
fn sinsemilla(dom: u8, bits: &[bool]) -> pallas::Point {
    let mut acc: pallas::Point = HDom(dom).Q().into();
    let mut bits = bits.to_vec();
    while bits.len() % 10 != 0 {
        bits.push(false);
    }
    for w in bits.chunks(10) {
        let m = w.iter().rev().fold(0u32, |a, b| 2 * a + *b as u32);
        let s = S.with(|s| *s.borrow_mut().entry(m).or_insert_with(|| pallas::Point::hash_to_curve(native::S_PERSONALIZATION)(&m.to_le_bytes())));
        acc = (acc + s) + acc;
    }
    acc
}

fn bits_of(x: &num_bigint::BigUint, n: usize) -> Vec<bool> {
    (0..n).map(|i| x.bit(i as u64)).collect()
}

/// All 255-bit encodings of a field element.
fn encodings(x: &Fp) -> Vec<num_bigint::BigUint> {
    let p = crate::c17::int(&-Fp::one()) + 1u32;
    let v = crate::c17::int(x);
    let w = &v + p;
    if w.bits() <= 255 {
        vec![v, w]
    } else {
        vec![v]
    }
}

fn scalar(x: &Fp) -> Fq {
    Fq::from_repr(x.to_repr()).unwrap()
}

/// A pair of coordinates as a point, (0, 0) being the identity.
fn point(x: &[Fp], i: usize) -> Option<pallas::Point> {
    if bool::from(x[i].is_zero() & x[i + 1].is_zero()) {
        return Some(pallas::Point::identity());
    }
    Option::<Aff>::from(Aff::from_xy(x[i], x[i + 1])).map(|p| p.into())
}

fn coords(p: &pallas::Point) -> [Fp; 2] {
    let c = p.to_affine().coordinates();
    if bool::from(c.is_some()) {
        let c = c.unwrap();
        [*c.x(), *c.y()]
    } else {
        [Fp::zero(), Fp::zero()]
    }
}

// ---------------------------------------------------------------- the circuit

#[derive(Clone, Debug)]
enum Rel {
    NonId(usize),
    OnCurve(usize),
    Inc(usize, usize, usize),
    Add(usize, usize, usize),
    Mul(usize, usize, usize),
    Elem(u8, usize, usize),
    Short(u8, usize, usize, usize),
    /// domain, pieces (variable, words), point
    Hash(u8, Vec<(usize, usize)>, usize),
    Pieces(Vec<(usize, usize)>),
    /// domain, l, left, right, result
    Layer(u8, usize, usize, usize, usize),
}

#[derive(Default, Clone)]
struct Log {
    x: Vec<Option<Fp>>,
    /// what the definitions say
    want: Vec<Fp>,
    rel: Vec<Rel>,
    names: Vec<&'static str>,
}

struct Gad<P> {
    ops: Rc<Vec<J>>,
    known: bool,
    log: Rc<RefCell<Log>>,
    _m: PhantomData<P>,
}
impl<P> Clone for Gad<P> {
    fn clone(&self) -> Self {
        Gad { ops: self.ops.clone(), known: self.known, log: self.log.clone(), _m: PhantomData }
    }
}

#[derive(Clone, Debug)]
struct Cfg {
    input: Column<Advice>,
    inst: Column<Instance>,
    ecc: EccConfig<Bases>,
    sin: [SinsemillaConfig<HDom, CDom, Bases>; 2],
    mer: [MerkleConfig<HDom, CDom, Bases>; 2],
}

type Chip = EccChip<Bases>;
#[derive(Clone)]
enum PV {
    N(NonIdentityPoint<Aff, Chip>),
    A(Point<Aff, Chip>),
}
impl PV {
    fn any(&self) -> Point<Aff, Chip> {
        match self {
            PV::N(p) => p.clone().into(),
            PV::A(p) => p.clone(),
        }
    }
}

impl<P: FloorPlanner> Circuit<Fp> for Gad<P> {
    type Config = Cfg;
    type FloorPlanner = P;
    fn without_witnesses(&self) -> Self {
        Gad { known: false, ..self.clone() }
    }
    fn configure(meta: &mut ConstraintSystem<Fp>) -> Cfg {
        let adv: [Column<Advice>; 10] = (0..10).map(|_| meta.advice_column()).collect::<Vec<_>>().try_into().unwrap();
        let inst = meta.instance_column();
        meta.enable_equality(inst);
        for c in &adv {
            meta.enable_equality(*c);
        }
        let constants = meta.fixed_column();
        meta.enable_constant(constants);
        let idx = meta.lookup_table_column();
        let lag: [Column<Fixed>; 8] = (0..8).map(|_| meta.fixed_column()).collect::<Vec<_>>().try_into().unwrap();
        let lookup = (idx, meta.lookup_table_column(), meta.lookup_table_column());
        let range = LookupRangeCheckConfig::configure(meta, adv[9], idx);
        let ecc = EccChip::<Bases>::configure(meta, adv, lag, range);
        let s1 = SinsemillaChip::configure(meta, adv[..5].try_into().unwrap(), adv[2], lag[0], lookup, range);
        let m1 = MerkleChip::configure(meta, s1.clone());
        let s2 = SinsemillaChip::configure(meta, adv[5..].try_into().unwrap(), adv[7], lag[1], lookup, range);
        let m2 = MerkleChip::configure(meta, s2.clone());
        Cfg { input: adv[0], inst, ecc, sin: [s1, s2], mer: [m1, m2] }
    }
    fn synthesize(&self, c: Cfg, mut l: impl Layouter<Fp>) -> Result<(), Error> {
        let known = self.known;
        let w = |x: Fp| if known { Value::known(x) } else { Value::unknown() };
        let mut log = Log::default();
        let ecc = EccChip::construct(c.ecc.clone());
        SinsemillaChip::<HDom, CDom, Bases>::load(c.sin[0].clone(), &mut l)?;
        let mut fes: Vec<(Var, usize)> = vec![];
        let mut pts: Vec<(PV, usize)> = vec![];
        for op in self.ops.iter() {
            let n = |k: &str| op[k].as_u64().unwrap() as usize;
            macro_rules! out {
                ($v:expr, $want:expr, $n:expr) => {{
                    let v: Var = $v;
                    let mut val = None;
                    v.value().map(|x| val = Some(*x));
                    log.x.push(val);
                    log.want.push($want);
                    log.names.push($n);
                    l.constrain_instance(v.cell(), c.inst, log.x.len() - 1)?;
                    log.x.len() - 1
                }};
            }
            macro_rules! out_point {
                ($p:expr, $want:expr, $n:expr) => {{
                    let p: PV = $p;
                    let [wx, wy] = coords(&$want);
                    let (x, y) = match &p {
                        PV::N(p) => (p.inner().x(), p.inner().y()),
                        PV::A(p) => (p.inner().x(), p.inner().y()),
                    };
                    let i = out!(x, wx, $n);
                    out!(y, wy, $n);
                    pts.push((p, i));
                    i
                }};
            }
            macro_rules! input {
                ($x:expr, $n:expr) => {{
                    let x: Fp = $x;
                    let v = l.assign_region(|| "in", |mut r| r.assign_advice(|| "in", c.input, 0, || w(x)))?;
                    let i = out!(v.clone(), x, $n);
                    (v, i)
                }};
            }
            let want = |log: &Log, i: usize| point(&log.want, i).unwrap();
            match op["t"].as_str().unwrap() {
                "fe" => {
                    let f = input!(value::<Fp>(&op["v"]), "input");
                    fes.push(f);
                }
                "pt" => {
                    let mut p = pallas::Point::generator() * value::<Fq>(&op["v"]);
                    if !pts.is_empty() {
                        let q = want(&log, pts[n("a") % pts.len()].1);
                        match n("how") {
                            1 => p = q,
                            2 => p = -q,
                            3 => p = q + q,
                            4 => p = -(q + q),
                            _ => {}
                        }
                    }
                    let any = op["any"].as_bool().unwrap();
                    if bool::from(p.is_identity()) && !any {
                        p = pallas::Point::generator();
                    }
                    let v = if known { Value::known(p.to_affine()) } else { Value::unknown() };
                    let pv = if any {
                        PV::A(Point::new(ecc.clone(), l.namespace(|| "pt"), v)?)
                    } else {
                        PV::N(NonIdentityPoint::new(ecc.clone(), l.namespace(|| "pt"), v)?)
                    };
                    let i = out_point!(pv, p, "input");
                    log.rel.push(if any { Rel::OnCurve(i) } else { Rel::NonId(i) });
                }
                "inc" | "add" if pts.len() > 0 => {
                    let (p, a) = pts[n("a") % pts.len()].clone();
                    let (q, b) = pts[n("b") % pts.len()].clone();
                    let (pw, qw) = (want(&log, a), want(&log, b));
                    match (op["t"].as_str().unwrap(), p, q) {
                        ("inc", PV::N(p), PV::N(q)) => {
                            if log.want[a] == log.want[b] {
                                continue;
                            }
                            let r = p.add_incomplete(l.namespace(|| "inc"), &q)?;
                            let i = out_point!(PV::N(r), pw + qw, "sum");
                            log.rel.push(Rel::Inc(a, b, i));
                        }
                        (_, p, q) => {
                            let r = p.any().add(l.namespace(|| "add"), &q.any())?;
                            let i = out_point!(PV::A(r), pw + qw, "sum");
                            log.rel.push(Rel::Add(a, b, i));
                        }
                    }
                }
                "mul" if !fes.is_empty() => {
                    let non: Vec<_> = pts.iter().filter(|p| matches!(p.0, PV::N(_))).cloned().collect();
                    if non.is_empty() {
                        continue;
                    }
                    let (p, a) = non[n("a") % non.len()].clone();
                    let (f, b) = fes[n("b") % fes.len()].clone();
                    let PV::N(p) = p else { unreachable!() };
                    let by = ScalarVar::from_base(ecc.clone(), l.namespace(|| "scalar"), &f)?;
                    let want = want(&log, a) * scalar(&log.want[b]);
                    let (r, _) = p.mul(l.namespace(|| "mul"), by)?;
                    let i = out_point!(PV::A(r), want, "product");
                    log.rel.push(Rel::Mul(b, a, i));
                }
                "elem" if !fes.is_empty() => {
                    let (f, b) = fes[n("b") % fes.len()].clone();
                    let g = (n("base") % 2) as u8;
                    let want = base(g) * scalar(&log.want[b]);
                    let r = FixedPointBaseField::from_inner(ecc.clone(), Elem(g)).mul(l.namespace(|| "elem"), f)?;
                    let i = out_point!(PV::A(r), want, "product");
                    log.rel.push(Rel::Elem(g, b, i));
                }
                "short" => {
                    let (m, a) = input!(value::<Fp>(&op["v"]), "input");
                    let neg = op["neg"].as_bool().unwrap();
                    let (s, b) = input!(if neg { -Fp::one() } else { Fp::one() }, "input");
                    let g = (n("base") % 2) as u8;
                    let k = scalar(&log.want[a]);
                    let want = base(g) * if neg { -k } else { k };
                    let by = ScalarFixedShort::new(ecc.clone(), l.namespace(|| "short"), (m, s))?;
                    let (r, _) = FixedPointShort::from_inner(ecc.clone(), Short(g)).mul(l.namespace(|| "short"), by)?;
                    let i = out_point!(PV::A(r), want, "product");
                    log.rel.push(Rel::Short(g, a, b, i));
                }
                "full" => {
                    let k = value::<Fq>(&op["v"]);
                    let g = (n("base") % 2) as u8;
                    let by = ScalarFixed::new(ecc.clone(), l.namespace(|| "full"), if known { Value::known(k) } else { Value::unknown() })?;
                    let (r, _) = FixedPoint::from_inner(ecc.clone(), Full(g)).mul(l.namespace(|| "full"), by)?;
                    let i = out_point!(PV::A(r), base(g) * k, "product");
                    log.rel.push(Rel::OnCurve(i));
                }
                t @ "hash" | t @ "commit" => {
                    let d = if t == "commit" { 0 } else { (n("dom") % 2) as u8 };
                    let chip = SinsemillaChip::construct(c.sin[n("chip") % 2].clone());
                    let mut pieces = vec![];
                    let mut rel = vec![];
                    let mut bits = vec![];
                    for p in op["pieces"].as_array().unwrap() {
                        let words = p[3].as_u64().unwrap() as usize;
                        let v = value::<Fp>(p);
                        let m = MessagePiece::from_field_elem(chip.clone(), l.namespace(|| "piece"), w(v), words)?;
                        let i = out!(m.inner().cell_value(), v, "input");
                        bits.extend(bits_of(&crate::c17::int(&v), 10 * words));
                        rel.push((i, words));
                        pieces.push(m);
                    }
                    let m = Message::from_pieces(chip.clone(), pieces);
                    let h = sinsemilla(d, &bits);
                    if t == "hash" {
                        let (r, _) = HashDomain::new(chip, ecc.clone(), &HDom(d)).hash_to_point(l.namespace(|| "hash"), m)?;
                        let i = out_point!(PV::N(r), h, "digest");
                        log.rel.push(Rel::Hash(d, rel, i));
                    } else {
                        let k = value::<Fq>(&op["v"]);
                        let by = ScalarFixed::new(ecc.clone(), l.namespace(|| "r"), if known { Value::known(k) } else { Value::unknown() })?;
                        let (r, _) = CommitDomain::new(chip, ecc.clone(), &CDom(d)).commit(l.namespace(|| "commit"), m, by)?;
                        let i = out_point!(PV::A(r), h + base(1 + d) * k, "digest");
                        log.rel.push(Rel::Pieces(rel));
                        log.rel.push(Rel::OnCurve(i));
                    }
                }
                "layer" if !fes.is_empty() => {
                    let d = (n("dom") % 2) as u8;
                    let lev = n("l") % 1024;
                    let (x, a) = fes[n("a") % fes.len()].clone();
                    let (y, b) = fes[n("b") % fes.len()].clone();
                    let chip = MerkleChip::construct(c.mer[n("chip") % 2].clone());
                    let v = <MerkleChip<HDom, CDom, Bases> as MerkleInstructions<Aff, 32, { native::K }, { native::C }>>::hash_layer(
                        &chip,
                        l.namespace(|| "layer"),
                        HDom(d).Q(),
                        lev,
                        x,
                        y,
                    )?;
                    let want = layer(d, lev, &crate::c17::int(&log.want[a]), &crate::c17::int(&log.want[b]));
                    let i = out!(v.clone(), want, "node");
                    log.rel.push(Rel::Layer(d, lev, a, b, i));
                    fes.push((v, i));
                }
                _ => continue,
            }
        }
        *self.log.borrow_mut() = log;
        Ok(())
    }
}

fn layer(d: u8, l: usize, a: &num_bigint::BigUint, b: &num_bigint::BigUint) -> Fp {
    let mut bits = bits_of(&num_bigint::BigUint::from(l), 10);
    bits.extend(bits_of(a, 255));
    bits.extend(bits_of(b, 255));
    coords(&sinsemilla(d, &bits))[0]
}

fn related(rels: &[Rel], x: &[Fp]) -> Option<String> {
    for rel in rels {
        match rel {
            Rel::NonId(i) => {
                if point(x, *i).map_or(true, |p| bool::from(p.is_identity())) {
                    return Some("a point on the curve other than the identity".into());
                }
            }
            Rel::OnCurve(i) => {
                if point(x, *i).is_none() {
                    return Some("a point on the curve".into());
                }
            }
            Rel::Inc(a, b, i) => {
                // nothing is promised for points with the same abscissa
                if x[*a] != x[*b] {
                    let (Some(p), Some(q)) = (point(x, *a), point(x, *b)) else { return Some("summands on the curve".into()) };
                    if coords(&(p + q)) != [x[*i], x[*i + 1]] {
                        return Some("incomplete addition".into());
                    }
                }
            }
            Rel::Add(a, b, i) => {
                let (Some(p), Some(q)) = (point(x, *a), point(x, *b)) else { return Some("summands on the curve".into()) };
                if coords(&(p + q)) != [x[*i], x[*i + 1]] {
                    return Some("complete addition".into());
                }
            }
            Rel::Mul(f, a, i) => {
                let Some(p) = point(x, *a) else { return Some("a base on the curve".into()) };
                if coords(&(p * scalar(&x[*f]))) != [x[*i], x[*i + 1]] {
                    return Some("variable-base multiplication".into());
                }
            }
            Rel::Elem(g, f, i) => {
                if coords(&(base(*g) * scalar(&x[*f]))) != [x[*i], x[*i + 1]] {
                    return Some("multiplication of a fixed base by a field element".into());
                }
            }
            Rel::Short(g, m, s, i) => {
                if !fits(&x[*m], 64) {
                    return Some("magnitude of 64 bits".into());
                }
                let k = scalar(&x[*m]);
                let k = if x[*s] == Fp::one() {
                    k
                } else if x[*s] == -Fp::one() {
                    -k
                } else {
                    return Some("sign".into());
                };
                if coords(&(base(*g) * k)) != [x[*i], x[*i + 1]] {
                    return Some("multiplication of a fixed base by a short scalar".into());
                }
            }
            Rel::Hash(d, pieces, i) => {
                let mut bits = vec![];
                for (v, words) in pieces {
                    if !fits(&x[*v], 10 * words) {
                        return Some(format!("message piece of {} words", words));
                    }
                    bits.extend(bits_of(&crate::c17::int(&x[*v]), 10 * words));
                }
                if coords(&sinsemilla(*d, &bits)) != [x[*i], x[*i + 1]] {
                    return Some(format!("digest of {} words", bits.len() / 10));
                }
            }
            Rel::Pieces(pieces) => {
                if let Some((_, words)) = pieces.iter().find(|(v, words)| !fits(&x[*v], 10 * words)) {
                    return Some(format!("message piece of {} words", words));
                }
            }
            Rel::Layer(d, l, a, b, i) => {
                // either encoding of a node will do
                let ok = encodings(&x[*a]).iter().any(|p| encodings(&x[*b]).iter().any(|q| layer(*d, *l, p, q) == x[*i]));
                if !ok {
                    return Some("a node of a Merkle tree".into());
                }
            }
        }
    }
    None
}

/// Coordinates of a point, or nearly.
fn point_like(r: &mut Rng, x: &[Fp]) -> [Fp; 2] {
    let i = r.below(x.len());
    if r.chance(1, 3) && i + 1 < x.len() {
        return [x[i], x[i + 1]];
    }
    coords(&(pallas::Point::generator() * Fq::from(r.u64())))
}

fn session<P: FloorPlanner>(o: &mut Outcome, plan: &J) {
    let circuit: Gad<P> =
        Gad { ops: Rc::new(plan["ops"].as_array().unwrap().clone()), known: true, log: Default::default(), _m: PhantomData };
    let mut cs = ConstraintSystem::<Fp>::default();
    let cfg = Gad::<P>::configure(&mut cs);
    let constants = cs.constants().clone();
    let sys = system(&cs);
    let orc = |_: Challenge| Value::unknown();
    let mut found = None;
    for k in 11u32..14 {
        let mut rec = Rec::new(&sys, k, vec![vec![]], &orc);
        halo2_gadgets::dst::plan_lies(vec![]);
        match P::synthesize(&mut rec, &circuit, cfg.clone(), constants.clone()) {
            Ok(()) if circuit.log.borrow().x.len() > rec.t.usable => continue,
            Ok(()) => {
                found = Some((k, rec.done()));
                break;
            }
            Err(Error::NotEnoughRowsAvailable { .. }) | Err(Error::BoundsFailure) => continue,
            Err(Error::NotEnoughColumnsForConstants) => {
                o.inconclusive = Some("no room for the constants".into());
                return;
            }
            Err(e) => {
                o.fail("synthesis", format!("{:?}", e));
                return;
            }
        }
    }
    let Some((k, mut t)) = found else {
        o.fail("synthesis", "fits in no circuit".into());
        return;
    };
    // (synthesised once: the count is that of the last attempt)
    let values = halo2_gadgets::dst::plan_lies(vec![]);
    let log = circuit.log.borrow().clone();
    let x: Vec<Fp> = log.x.iter().map(|x| x.unwrap()).collect();
    t.instance = vec![x.clone()];
    o.steps += log.rel.len() as u64;
    o.cases += 1;
    for op in circuit.ops.iter() {
        o.probe(op["t"].as_str().unwrap());
    }
    // a magnitude or piece that is too long: no assignment will do
    let bad = log.rel.iter().any(|r| match r {
        Rel::Short(_, m, _, _) => !fits(&log.want[*m], 64),
        Rel::Hash(_, pieces, _) | Rel::Pieces(pieces) => pieces.iter().any(|(v, words)| !fits(&log.want[*v], 10 * words)),
        _ => false,
    });
    if let Some(i) = (0..x.len()).find(|i| !bad && x[*i] != log.want[*i]) {
        o.fail("wrong result", format!("value {} ({}) is {:?} instead of {:?}", i, log.names[i], x[i], log.want[i]));
        return;
    }
    if plan["blind"].as_bool().unwrap_or(false) {
        let mut rec = Rec::new(&sys, k, vec![vec![]], &orc);
        rec.know_instance = false;
        let blind = circuit.without_witnesses();
        match P::synthesize(&mut rec, &blind, cfg.clone(), constants) {
            Ok(()) => {
                let u = rec.done();
                if u.fixed != t.fixed || u.selectors != t.selectors || u.copies != t.copies {
                    o.fail("layout", "the layout without witnesses differs from the one with them".into());
                }
            }
            Err(e) => o.fail("layout", format!("synthesis without witnesses: {:?}", e)),
        }
    }
    let rows = t.order.iter().map(|c| c.1).max().unwrap_or(0) + 3;
    let mut b = Board::new(sys, t);
    let mixed = b.unify();
    o.ev(format!("k {} broken {} mixed {}", k, b.broken.len(), mixed));
    if !bad && (!b.broken.is_empty() || mixed) {
        let first = b.broken.iter().next().map(|a| b.name(*a)).unwrap_or_else(|| "copies".into());
        o.fail("honest rejected", format!("{} ops: {}", circuit.ops.len(), first));
        return;
    }
    if b.broken.is_empty() && !mixed {
        if let Some(e) = related(&log.rel, &x) {
            o.fail("wrong result", format!("honest assignment accepted: {}", e));
            return;
        }
    }
    if plan["mock"].as_bool().unwrap_or(false) && !bad {
        o.probe("mock prover");
        let v = MockProver::run(k, &circuit.clone(), vec![x.clone()]).map(|p| p.verify().is_ok());
        if !matches!(v, Ok(true)) {
            o.fail("verdict", format!("mock prover says {:?}, constraints are satisfied", v));
        }
    }
    b.keep();
    // the same run with the other encodings of its numbers
    if plan["other"].as_bool().unwrap_or(false) {
        let other = Gad { log: Default::default(), ..circuit.clone() };
        let mut rec = Rec::new(&b.sys, k, vec![vec![]], &orc);
        halo2_gadgets::dst::other_encodings(true);
        let done = P::synthesize(&mut rec, &other, cfg.clone(), cs.constants().clone());
        halo2_gadgets::dst::other_encodings(false);
        if done.is_ok() {
            let mut t2 = rec.done();
            let log2 = other.log.borrow().clone();
            t2.instance = vec![log2.x.iter().map(|x| x.unwrap()).collect()];
            let mut b2 = Board::new(b.sys.clone(), t2);
            let mixed = b2.unify();
            o.ev(format!("other encodings: broken {} mixed {}", b2.broken.len(), mixed));
            o.fault("other encoding");
            o.cases += 1;
            b2.keep();
            let n = if b2.broken.is_empty() { 1 } else { 12 };
            for i in 0..n {
                let mut r2 = Rng::new(plan["attacks"][0].as_u64().unwrap_or(0) ^ (0x77 + i));
                let mut settled = BTreeSet::new();
                if b2.broken.is_empty() || b2.repair(&mut r2, &mut settled, 200) {
                    let x = b2.t.instance[0].clone();
                    if let Some(e) = related(&log.rel, &x) {
                        if check(&b2.sys, &b2.t, 1).is_empty() {
                            o.fail("forged", format!("other encoding of a number accepted, but not: {}", e));
                            return;
                        }
                    }
                    o.count("other encoding accepted, statement true", 1);
                }
                b2.undo();
            }
        }
    }
    if bad {
        for a in plan["attacks"].as_array().unwrap().iter().take(24) {
            let mut r2 = Rng::new(a.as_u64().unwrap());
            let mut settled = BTreeSet::new();
            for i in 0..x.len() {
                if log.names[i] == "input" || r2.chance(1, 8) {
                    settled.insert(b.class_of(Cell { kind: Kind::Instance, col: 0, row: i }));
                }
            }
            o.cases += 1;
            o.fault("impossible statement");
            if b.repair(&mut r2, &mut settled, 800) {
                let x = b.t.instance[0].clone();
                if let Some(e) = related(&log.rel, &x) {
                    if check(&b.sys, &b.t, 1).is_empty() {
                        o.fail("forged", format!("{} cells repaired, every constraint holds, but not: {}", b.changed(), e));
                        return;
                    }
                }
            }
            b.undo();
        }
        return;
    }
    // a witness generator that goes on from a wrong value
    let mut r3 = Rng::new(plan["attacks"][0].as_u64().unwrap_or(0) ^ 0x11e);
    for _ in 0..plan["lies"].as_u64().unwrap_or(0) {
        if values.is_empty() {
            break;
        }
        let d = match r3.below(3) {
            0 => Fp::from(r3.range(1, 2) as u64),
            1 => -Fp::from(r3.range(1, 2) as u64),
            _ => Fp::from(r3.u64()) * Fp::from(r3.u64()) * Fp::from(r3.u64()) * Fp::from(r3.u64()),
        };
        let mut kinds: Vec<&str> = vec![];
        for k in &values {
            if !kinds.contains(k) {
                kinds.push(k);
            }
        }
        let kind = *r3.pick(&kinds);
        let places: Vec<usize> = (0..values.len()).filter(|i| values[*i] == kind).collect();
        let i = if r3.chance(1, 4) { places[r3.below(places.len().min(3))] } else { *r3.pick(&places) };
        let lie = |r: &mut Rng, d: Fp| match r.below(3) {
            0 => Lie::Plus(d),
            1 => Lie::Minus,
            _ => Lie::Be(if r.chance(1, 2) { Fp::zero() } else { x[r.below(x.len())] }),
        };
        let mut lies = vec![(i, lie(&mut r3, d))];
        match if kind == "digit" { *r3.pick(&[1, 7]) } else { r3.below(6) } {
            // a point turned into another point
            0 => {
                let v = point_like(&mut r3, &x);
                lies = vec![(i, Lie::Be(v[0])), (i + 1, Lie::Be(v[1]))];
            }
            // digits borrowing from one another
            1 => lies = vec![(i, Lie::Plus(d)), (i + 4, Lie::Plus(-d - d))],
            2 => lies.push((i + r3.range(1, 5), lie(&mut r3, d))),
            // another digit
            7 => lies = vec![(i, Lie::Plus(if r3.chance(1, 2) { Fp::one() } else { -Fp::one() }))],
            _ => {}
        }
        // the two halves of a variable-base multiplication share columns: 125 rows of 4 values
        if r3.chance(1, 3) {
            let more: Vec<_> = lies.iter().map(|(i, l)| (i + 500, l.clone())).collect();
            lies.extend(more);
        }
        let other = Gad { log: Default::default(), ..circuit.clone() };
        let mut rec = Rec::new(&b.sys, k, vec![vec![]], &orc);
        halo2_gadgets::dst::plan_lies(lies);
        let done = P::synthesize(&mut rec, &other, cfg.clone(), cs.constants().clone());
        halo2_gadgets::dst::plan_lies(vec![]);
        o.cases += 1;
        if done.is_err() {
            continue;
        }
        o.fault("wrong intermediate value");
        let t2 = rec.done();
        if let Some(s) = Splice::new(&mut b, &t2) {
            for part in 0..3 {
                if part == 0 {
                    s.take(&mut b);
                } else {
                    s.take_without(&mut b, &mut r3);
                }
                let broken = b.broken.len();
                o.keys.insert(Hash::new().num(broken as u64).num(i as u64).0);
                let mut settled = BTreeSet::new();
                if b.changed() > 0 && (b.broken.is_empty() || broken < 8 && part == 0 && b.repair(&mut r3, &mut settled, 200)) {
                    let x = b.t.instance[0].clone();
                    if let Some(e) = related(&log.rel, &x) {
                        if check(&b.sys, &b.t, 1).is_empty() {
                            o.fail("forged", format!("{} cells altered after a wrong intermediate value, every constraint holds, but not: {}", b.changed(), e));
                            return;
                        }
                    }
                    o.count("wrong intermediate value accepted, statement true", 1);
                }
                b.undo();
            }
        }
    }
    let mut splice = None;
    {
        let mut r2 = Rng::new(plan["attacks"][0].as_u64().unwrap_or(0) ^ 0x5b);
        if let Some(ops) = vary(&circuit.ops, &mut r2) {
            let other = Gad { ops: Rc::new(ops), log: Default::default(), ..circuit.clone() };
            let mut rec = Rec::new(&b.sys, k, vec![vec![]], &orc);
            if let Ok(()) = P::synthesize(&mut rec, &other, cfg.clone(), cs.constants().clone()) {
                let t2 = rec.done();
                splice = Splice::new(&mut b, &t2);
            }
        }
    }
    let mut won = 0;
    for a in plan["attacks"].as_array().unwrap() {
        let mut r2 = Rng::new(a.as_u64().unwrap());
        o.cases += 1;
        let splice = if r2.chance(1, 4) { splice.as_ref() } else { None };
        let got = match splice {
            Some(s) => s.attack(&mut b, &mut r2, o),
            None => attack(&mut b, &mut r2, o, rows),
        };
        if got {
            won += 1;
            let x = b.t.instance[0].clone();
            if let Some(e) = related(&log.rel, &x) {
                let bad = check(&b.sys, &b.t, 1);
                if bad.is_empty() {
                    o.fail("forged", format!("{} cells altered, every constraint holds, but not: {}", b.changed(), e));
                }
            } else {
                o.count("other true statement", 1);
            }
        }
        let mut h = Hash::new();
        h.num(b.changed() as u64).num(b.broken.len() as u64).num(k as u64);
        o.keys.insert(h.0);
        b.undo();
        if !o.violation.is_none() {
            return;
        }
    }
    o.ev(format!("won {}", won));
    o.count("attack ended in an accepted assignment", won);
}

pub struct C18;
impl Prop for C18 {
    fn id(&self) -> &'static str {
        "C18"
    }
    fn budget(&self, tier: Tier) -> Budget {
        match tier {
            Tier::Quick => Budget { runs: 1_000_000, secs: 45, workers: 8, timeout: 200, mem_mb: 4000 },
            Tier::Thorough => Budget { runs: 100_000_000, secs: 700, workers: 8, timeout: 200, mem_mb: 4000 },
        }
    }
    fn gen(&self, ctx: &Ctx, idx: u64) -> J {
        let mut r = Rng::new(run_seed(ctx.seed, "C18", idx));
        let val = |r: &mut Rng, bits: usize| -> J {
            let b = bits.min(255);
            let how = if b < 255 { *r.pick(&[0usize, 0, 0, 0, 1, 4, 5]) } else { *r.pick(&[0usize, 0, 0, 3, 5, 6]) };
            json!([b, r.u64() >> 12, how])
        };
        let mut ops = vec![];
        // a share of the runs wants numbers that are too long
        let misfit = r.chance(1, 8);
        let only = if misfit { Some(*r.pick(&[4, 6])) } else if r.chance(2, 3) { Some(r.below(8)) } else { None };
        let bits = *r.pick(&[1usize, 3, 64, 130, 254, 255, 255]);
        let v = val(&mut r, bits);
        ops.push(json!({"t": "fe", "v": v}));
        for _ in 0..2 {
            let v = val(&mut r, 255);
            ops.push(json!({"t": "pt", "v": v, "any": r.chance(1, 3), "how": r.below(6), "a": r.u64() >> 40}));
        }
        let mut heavy = 0;
        for _ in 0..r.range(1, 5) {
            let mut what = only.unwrap_or_else(|| r.below(8));
            if what >= 2 && what != 6 && what != 7 {
                heavy += 1;
                if heavy > 2 {
                    what = r.below(2);
                }
            }
            let (a, b) = (r.u64() >> 40, r.u64() >> 40);
            let g = r.below(2);
            match what {
                0 => ops.push(json!({"t": "inc", "a": a, "b": b})),
                1 => ops.push(json!({"t": "add", "a": a, "b": b})),
                2 => ops.push(json!({"t": "mul", "a": a, "b": b})),
                3 => ops.push(json!({"t": "elem", "b": b, "base": g})),
                4 => {
                    let bits = if misfit { *r.pick(&[65, 66, 67, 254]) } else { 64 };
                    let v = val(&mut r, bits);
                    ops.push(json!({"t": "short", "base": g, "v": v, "neg": r.chance(1, 2)}))
                }
                5 => {
                    let v = val(&mut r, 255);
                    ops.push(json!({"t": "full", "base": g, "v": v}))
                }
                6 => {
                    let pieces: Vec<J> = (0..r.range(1, 3))
                        .map(|_| {
                            let words = *r.pick(&[1usize, 1, 2, 3, 5, 25]);
                            let extra = if misfit && r.chance(1, 2) { *r.pick(&[1, 10, 20]) } else { 0 };
                            let mut v = val(&mut r, (10 * words + extra).min(254));
                            v.as_array_mut().unwrap().push(json!(words));
                            v
                        })
                        .collect();
                    let v = val(&mut r, 255);
                    let commit = heavy < 2 && r.chance(1, 4);
                    heavy += commit as usize;
                    ops.push(json!({"t": if commit { "commit" } else { "hash" }, "dom": r.below(2), "chip": r.below(2), "pieces": pieces, "v": v}))
                }
                _ => ops.push(json!({"t": "layer", "dom": r.below(2), "chip": r.below(2), "l": if r.chance(1, 4) { *r.pick(&[0, 1, 1023]) } else { r.below(1024) }, "a": a, "b": b})),
            }
            if r.chance(1, 3) {
                let any = r.chance(1, 3);
                let v = val(&mut r, 255);
                ops.push(json!({"t": "pt", "v": v, "any": any, "how": r.below(6), "a": a}));
            }
            if r.chance(1, 3) {
                let bits = *r.pick(&[1usize, 3, 64, 130, 254, 255, 255]);
                let v = val(&mut r, bits);
                ops.push(json!({"t": "fe", "v": v}));
            }
        }
        json!({"v1": r.chance(1, 3), "ops": ops, "mock": r.chance(1, 12), "blind": r.chance(1, 4), "other": misfit || r.chance(1, 2), "lies": r.below(10),
               "attacks": (0..r.range(40, 160)).map(|_| r.u64() >> 12).collect::<Vec<_>>()})
    }
    fn exec(&self, _: &Ctx, plan: &J) -> Outcome {
        let mut o = Outcome::default();
        if plan["v1"].as_bool().unwrap() {
            session::<floor_planner::V1>(&mut o, plan)
        } else {
            session::<SimpleFloorPlanner>(&mut o, plan)
        }
        o.sample = Some(json!({"ops": plan["ops"].as_array().unwrap().iter().map(|x| x["t"].clone()).collect::<Vec<_>>()}));
        o
    }
    fn shrink(&self, plan: &J) -> Vec<J> {
        crate::c17::C17.shrink(plan)
    }
    fn rule(&self) -> String {
        "distinct (cells changed, constraints left broken, circuit size) outcomes of an attack".into()
    }
    fn components(&self) -> J {
        json!({"real": ["halo2_gadgets ecc (witnessed points, additions, variable- and fixed-base multiplications), sinsemilla (hash, commitment), merkle (one layer), lookup range check", "constraint system, layouters and floor planners of halo2_proofs", "MockProver for a share"],
               "stub": ["fixed bases and domains of the simulator", "plain Sinsemilla and curve arithmetic as reference", "the verdict on altered assignments comes from a direct evaluator of the constraint system (its agreement with the real prover and verifier is decided by C13, with the mock prover by C14)"]})
    }
    fn assumptions(&self) -> Vec<String> {
        vec![
            "the deviating prover explores alterations by seeded search with local repair, not all assignments".into(),
            "incomplete addition promises nothing for points with the same abscissa; a Merkle node may be encoded in either of its 255-bit forms; full-width scalars are private, so only the honest product is judged there".into(),
        ]
    }
}
