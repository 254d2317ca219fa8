//! The opening schemes under one interface: commitments, opening proofs, single and accumulated checks.

use crate::c10::scalar;
use crate::core::*;
use crate::plonk::*;
use group::Curve;
use halo2_proofs::dst;
use halo2_proofs::plonk::Error as PError;
use halo2_proofs::poly::commitment::{Blind, Params, ParamsProver, Prover, Verifier, MSM};
use halo2_proofs::poly::ipa::commitment::IPACommitmentScheme;
use halo2_proofs::poly::ipa::multiopen::{ProverIPA, VerifierIPA};
use halo2_proofs::poly::ipa::strategy::{AccumulatorStrategy as AccIPA, SingleStrategy as SingleIPA};
use halo2_proofs::poly::kzg::commitment::KZGCommitmentScheme;
use halo2_proofs::poly::kzg::multiopen::{ProverGWC, ProverSHPLONK, VerifierGWC, VerifierSHPLONK};
use halo2_proofs::poly::kzg::strategy::{AccumulatorStrategy as AccKZG, SingleStrategy as SingleKZG};
use halo2_proofs::poly::{Coeff, EvaluationDomain, Polynomial, VerificationStrategy, VerifierQuery};
use halo2_proofs::transcript::*;
use halo2curves::bn256::{Bn256, Fr, G1Affine};
use halo2curves::pasta::{EqAffine, Fp};
use halo2curves::{CurveAffine, FieldExt};
use serde_json::{json, Value as J};

pub fn eval<F: FieldExt>(p: &[F], x: F) -> F {
    p.iter().rev().fold(F::zero(), |a, c| a * x + c)
}

/// Polynomial through the given points (distinct x), padded to n coefficients.
pub fn interpolate<F: FieldExt>(xs: &[F], ys: &[F], n: usize) -> Vec<F> {
    let mut out = vec![F::zero(); n.max(xs.len())];
    for i in 0..xs.len() {
        let mut b = vec![F::one()];
        let mut d = F::one();
        for j in 0..xs.len() {
            if i != j {
                d *= xs[i] - xs[j];
                let mut c = vec![F::zero(); b.len() + 1];
                for (k, v) in b.iter().enumerate() {
                    c[k + 1] += *v;
                    c[k] -= *v * xs[j];
                }
                b = c;
            }
        }
        let f = ys[i] * d.invert().unwrap();
        for (k, v) in b.iter().enumerate() {
            out[k] += *v * f;
        }
    }
    out
}

/// What is claimed: committed polynomials, targets (linear combinations of them), queries.
#[derive(Clone)]
pub struct St<F> {
    pub k: u32,
    pub polys: Vec<Vec<F>>,
    pub blinds: Vec<F>,
    /// (coefficient, polynomial); a target with one entry of coefficient one is the commitment itself
    pub targets: Vec<Vec<(F, usize)>>,
    pub points: Vec<F>,
    pub queries: Vec<(usize, usize)>,
    pub keccak: bool,
    /// opened in two rounds on one transcript, the first `cut` queries first
    pub cut: usize,
    pub rng: u64,
}

impl<F: FieldExt> St<F> {
    pub fn target(&self, t: usize) -> Vec<F> {
        let mut v = vec![F::zero(); 1 << self.k];
        for (c, p) in &self.targets[t] {
            for (a, b) in v.iter_mut().zip(&self.polys[*p]) {
                *a += *c * b;
            }
        }
        v
    }
    pub fn plain(&self, t: usize) -> bool {
        let is = |t: usize| self.targets[t].len() == 1 && self.targets[t][0].0 == F::one();
        // (the prover has one polynomial per target, and both sides tell targets apart by identity)
        is(t) && (0..t).all(|u| !is(u) || self.targets[u][0].1 != self.targets[t][0].1)
    }
    pub fn blind(&self, t: usize) -> F {
        self.targets[t].iter().map(|(c, p)| *c * self.blinds[*p]).fold(F::zero(), |a, b| a + b)
    }
    pub fn evals(&self) -> Vec<F> {
        self.queries.iter().map(|(t, z)| eval(&self.target(*t), self.points[*z])).collect()
    }
    pub fn rounds(&self) -> Vec<std::ops::Range<usize>> {
        if self.cut > 0 && self.cut < self.queries.len() {
            vec![0..self.cut, self.cut..self.queries.len()]
        } else {
            vec![0..self.queries.len()]
        }
    }
    /// Points at which a target is queried.
    pub fn points_of(&self, t: usize) -> Vec<F> {
        let mut v: Vec<F> = vec![];
        for (u, z) in &self.queries {
            if *u == t && !v.contains(&self.points[*z]) {
                v.push(self.points[*z]);
            }
        }
        v
    }
}

/// What the prover does.
#[derive(Clone)]
pub struct Doings<F> {
    /// claimed evaluations
    pub evals: Vec<F>,
    /// polynomials it opens, per target
    pub opened: Vec<Vec<F>>,
    pub blinds: Vec<F>,
    /// polynomials it commits to
    pub committed: Vec<Vec<F>>,
}
impl<F: FieldExt> Doings<F> {
    pub fn honest(s: &St<F>) -> Self {
        Doings {
            evals: s.evals(),
            opened: (0..s.targets.len()).map(|t| s.target(t)).collect(),
            blinds: (0..s.targets.len()).map(|t| s.blind(t)).collect(),
            committed: s.polys.clone(),
        }
    }
}

/// What goes wrong on the verifier's side after reading.
#[derive(Clone, Debug, PartialEq)]
pub enum VFault<F> {
    None,
    Eval(usize, F),
    Point(usize, F),
    Com(usize, usize),
    Drop(usize),
}

pub trait Open: Clone {
    type F: FieldExt;
    type C: CurveAffine<ScalarExt = Self::F>;
    type S: Sys<F = Self::F, C = Self::C, Acc = Self::Acc>;
    type Acc;
    const NAME: &'static str;
    fn commit(k: u32, p: &[Self::F], blind: Self::F) -> Self::C;
    fn prove(s: &St<Self::F>, d: &Doings<Self::F>) -> Result<Vec<u8>, String>;
    fn single(s: &St<Self::F>, proof: &[u8], f: &VFault<Self::F>) -> Result<(), String>;
    fn acc_new(k: u32) -> Self::Acc;
    fn acc_add(a: Self::Acc, s: &St<Self::F>, proof: &[u8]) -> Result<Self::Acc, String>;
    fn acc_fin(a: Self::Acc) -> bool;
    /// [1] and [s] of the setup (pairing schemes)
    fn gens(k: u32) -> Vec<Self::C>;
}

macro_rules! open {
    ($name:ident, $sys:ty, $label:expr, $curve:ty, $f:ty, $scheme:ty, $prover:ty, $verifier:ty, $single:ty, $acc:ty) => {
        #[derive(Clone)]
        pub struct $name;
        impl $name {
            fn poly(k: u32, v: &[$f]) -> Polynomial<$f, Coeff> {
                EvaluationDomain::<$f>::new(1, k).coeff_from_vec(v.to_vec())
            }
            fn write<T: TranscriptWriterBuffer<Vec<u8>, $curve, Challenge255<$curve>>>(
                s: &St<$f>,
                d: &Doings<$f>,
            ) -> Result<Vec<u8>, String> {
                let p = <$sys as Sys>::params(s.k);
                let e = |x: &dyn std::fmt::Debug| format!("{:?}", x);
                let mut t = T::init(vec![]);
                for (v, b) in d.committed.iter().zip(&s.blinds) {
                    let c = Self::commit(s.k, v, *b);
                    t.write_point(c).map_err(|x| e(&x))?;
                }
                for z in &s.points {
                    t.common_scalar(*z).map_err(|x| e(&x))?;
                }
                let polys: Vec<_> = d.opened.iter().map(|v| Self::poly(s.k, v)).collect();
                for rd in s.rounds() {
                    for i in rd.clone() {
                        t.write_scalar(d.evals[i]).map_err(|x| e(&x))?;
                    }
                    let q: Vec<_> = s.queries[rd.clone()]
                        .iter()
                        .map(|(g, z)| dst::prover_query::<$curve>(s.points[*z], &polys[*g], Blind(d.blinds[*g])))
                        .collect();
                    let pr = <$prover as Prover<$scheme>>::new(p);
                    pr.create_proof(Rng::new(s.rng ^ rd.start as u64), &mut t, q).map_err(|x| e(&x))?;
                }
                Ok(t.finalize())
            }
            fn check<'a, T, S>(mut st: Vec<S>, s: &St<$f>, proof: &'a [u8], f: &VFault<$f>) -> Result<Vec<S::Output>, String>
            where
                T: TranscriptReadBuffer<&'a [u8], $curve, Challenge255<$curve>>,
                S: VerificationStrategy<'static, $scheme, $verifier>,
            {
                take_tap();
                let p = <$sys as Sys>::params(s.k);
                let e = |x: &dyn std::fmt::Debug| format!("{:?}", x);
                let mut t = Tap(T::init(proof));
                let mut com = vec![];
                for _ in &s.polys {
                    com.push(t.read_point().map_err(|x| e(&x))?);
                }
                for z in &s.points {
                    t.common_scalar(*z).map_err(|x| e(&x))?;
                }
                let msms: Vec<_> = s
                    .targets
                    .iter()
                    .map(|g| {
                        let mut m = p.empty_msm();
                        for (c, i) in g {
                            m.append_term(*c, com[*i].into());
                        }
                        m
                    })
                    .collect();
                let mut out = vec![];
                for rd in s.rounds() {
                    let mut q = vec![];
                    for i in rd.clone() {
                        let (mut g, z) = s.queries[i];
                        let mut z = s.points[z];
                        let mut v = t.read_scalar().map_err(|x| e(&x))?;
                        match f {
                            VFault::Eval(j, d) if *j == i => v += *d,
                            VFault::Point(j, d) if *j == i => z = *d,
                            VFault::Com(j, d) if *j == i => g = *d,
                            VFault::Drop(j) if *j == i => continue,
                            _ => {}
                        }
                        q.push(if s.plain(g) {
                            VerifierQuery::new_commitment(&com[s.targets[g][0].1], z, v)
                        } else {
                            VerifierQuery::new_msm(&msms[g], z, v)
                        });
                    }
                    if q.is_empty() {
                        return Err("nothing to verify".into());
                    }
                    let r = st
                        .remove(0)
                        .process(|m| {
                            <$verifier as Verifier<'static, $scheme>>::new(p).verify_proof(&mut t, q, m).map_err(|_| PError::Opening)
                        })
                        .map_err(|x| e(&x))?;
                    out.push(r);
                }
                Ok(out)
            }
        }
        impl Open for $name {
            type F = $f;
            type C = $curve;
            type S = $sys;
            type Acc = $acc;
            const NAME: &'static str = $label;
            fn commit(k: u32, v: &[$f], blind: $f) -> $curve {
                <$sys as Sys>::params(k).commit(&Self::poly(k, v), Blind(blind)).to_affine()
            }
            fn prove(s: &St<$f>, d: &Doings<$f>) -> Result<Vec<u8>, String> {
                if s.keccak {
                    Self::write::<Keccak256Write<Vec<u8>, $curve, Challenge255<$curve>>>(s, d)
                } else {
                    Self::write::<Blake2bWrite<Vec<u8>, $curve, Challenge255<$curve>>>(s, d)
                }
            }
            fn single(s: &St<$f>, proof: &[u8], f: &VFault<$f>) -> Result<(), String> {
                let p = <$sys as Sys>::params(s.k);
                let st: Vec<$single> = s.rounds().iter().map(|_| <$single as VerificationStrategy<'static, $scheme, $verifier>>::new(p)).collect();
                if s.keccak {
                    Self::check::<Keccak256Read<&[u8], $curve, Challenge255<$curve>>, _>(st, s, proof, f).map(|_| ())
                } else {
                    Self::check::<Blake2bRead<&[u8], $curve, Challenge255<$curve>>, _>(st, s, proof, f).map(|_| ())
                }
            }
            fn acc_new(k: u32) -> $acc {
                <$acc as VerificationStrategy<'static, $scheme, $verifier>>::new(<$sys as Sys>::params(k))
            }
            fn acc_add(a: $acc, s: &St<$f>, proof: &[u8]) -> Result<$acc, String> {
                let n = VFault::None;
                let mut v = if s.keccak {
                    Self::check::<Keccak256Read<&[u8], $curve, Challenge255<$curve>>, $acc>(vec![a], s, proof, &n)?
                } else {
                    Self::check::<Blake2bRead<&[u8], $curve, Challenge255<$curve>>, $acc>(vec![a], s, proof, &n)?
                };
                Ok(v.remove(0))
            }
            fn acc_fin(a: $acc) -> bool {
                <$acc as VerificationStrategy<'static, $scheme, $verifier>>::finalize(a)
            }
            fn gens(k: u32) -> Vec<$curve> {
                <$sys as Sys>::params(k).get_g()[..2].to_vec()
            }
        }
    };
}

type KZ = KZGCommitmentScheme<Bn256>;
type IP = IPACommitmentScheme<EqAffine>;
open!(OShplonk, Shplonk, "kzg-shplonk", G1Affine, Fr, KZ, ProverSHPLONK<Bn256>, VerifierSHPLONK<'static, Bn256>, SingleKZG<'static, Bn256>, AccKZG<'static, Bn256>);
open!(OGwc, Gwc, "kzg-gwc", G1Affine, Fr, KZ, ProverGWC<Bn256>, VerifierGWC<'static, Bn256>, SingleKZG<'static, Bn256>, AccKZG<'static, Bn256>);
open!(OIpa, Ipa, "ipa", EqAffine, Fp, IP, ProverIPA<EqAffine>, VerifierIPA<'static, EqAffine>, SingleIPA<'static, EqAffine>, AccIPA<'static, EqAffine>);

// ---------------------------------------------------------------- statements from plans

/// Plan of a statement.
pub fn gen_st(r: &mut Rng, small: bool) -> J {
    let k = if small { r.range(1, 3) } else { r.range(1, 6) };
    let n = 1usize << k;
    let np = r.range(1, if small { 3 } else { 6 });
    let polys: Vec<J> = (0..np).map(|_| json!([*r.pick(&["r", "r", "r", "r", "lin", "const", "zero", "one", "mono", "copy"]), r.u64() >> 12])).collect();
    let mut targets: Vec<J> = (0..np).map(|p| json!([[1, p]])).collect();
    if r.chance(1, 2) {
        for _ in 0..r.range(1, 2) {
            let m = r.range(1, np.min(3));
            targets.push(J::Array((0..m).map(|_| json!([*r.pick(&[0, 2, 3, 1, 4, 99]) + r.below(2) as u64 * (r.u64() >> 20), r.below(np)])).collect()));
        }
    }
    let nz = r.range(1, n.min(4));
    let points: Vec<J> = (0..nz).map(|_| json!([*r.pick(&["r", "r", "r", "zero", "one", "root", "rot"]), r.u64() >> 12])).collect();
    let nt = targets.len();
    let mut queries: Vec<(usize, usize)> = vec![];
    let shared = r.chance(1, 3);
    for t in 0..nt {
        if r.chance(1, 6) && t > 0 {
            continue;
        }
        for z in 0..nz {
            if shared || r.chance(1, 2) || (z == nz - 1 && queries.iter().all(|q| q.0 != t)) {
                queries.push((t, z));
            }
        }
    }
    if r.chance(1, 2) {
        for i in (1..queries.len()).rev() {
            let j = r.below(i + 1);
            queries.swap(i, j);
        }
    }
    if r.chance(1, 6) {
        let q = *r.pick(&queries);
        queries.push(q);
    }
    let cut = if !small && r.chance(1, 5) { r.below(queries.len()) } else { 0 };
    json!({"k": k, "polys": polys, "targets": targets, "points": points, "queries": queries, "keccak": r.chance(1, 4), "cut": cut, "blind": r.u64() >> 12, "rng": r.u64() >> 12})
}

pub fn make_st<F: FieldExt>(j: &J) -> St<F> {
    let k = j["k"].as_u64().unwrap() as u32;
    let n = 1usize << k;
    let mut polys: Vec<Vec<F>> = vec![];
    for p in j["polys"].as_array().unwrap() {
        let s = p[1].as_u64().unwrap();
        let mut r = Rng::new(s);
        let mut rnd = || scalar::<F>(100 + (r.u64() >> 8));
        let mut v = vec![F::zero(); n];
        match p[0].as_str().unwrap() {
            "r" => v.iter_mut().for_each(|x| *x = rnd()),
            "lin" => v.iter_mut().take(2).for_each(|x| *x = rnd()),
            "const" => v[0] = rnd(),
            "one" => v[0] = F::one(),
            "mono" => v[(s % n as u64) as usize] = rnd(),
            "copy" => {
                if let Some(q) = polys.last() {
                    v = q.clone()
                }
            }
            _ => {}
        }
        polys.push(v);
    }
    let np = polys.len();
    let targets: Vec<Vec<(F, usize)>> = j["targets"]
        .as_array()
        .unwrap()
        .iter()
        .map(|t| t.as_array().unwrap().iter().map(|e| (scalar::<F>(e[0].as_u64().unwrap()), e[1].as_u64().unwrap() as usize % np)).collect())
        .collect();
    let w = F::root_of_unity().pow_vartime([1u64 << (F::S - k)]);
    let mut points: Vec<F> = vec![];
    for p in j["points"].as_array().unwrap() {
        let s = p[1].as_u64().unwrap();
        let mut z = match p[0].as_str().unwrap() {
            "zero" => F::zero(),
            "one" => F::one(),
            "root" => w.pow_vartime([s]),
            "rot" if !points.is_empty() => points[0] * w.pow_vartime([s]),
            _ => scalar::<F>(100 + s),
        };
        while points.contains(&z) {
            z += F::from(7);
        }
        points.push(z);
    }
    let nz = points.len();
    let nt = targets.len();
    let queries: Vec<(usize, usize)> = j["queries"]
        .as_array()
        .unwrap()
        .iter()
        .map(|q| (q[0].as_u64().unwrap() as usize % nt, q[1].as_u64().unwrap() as usize % nz))
        .collect();
    let b = j["blind"].as_u64().unwrap();
    let mut r = Rng::new(b);
    St {
        k,
        blinds: (0..np).map(|_| scalar::<F>(100 + (r.u64() >> 8))).collect(),
        polys,
        targets,
        points,
        queries,
        keccak: j["keccak"].as_bool().unwrap(),
        cut: j["cut"].as_u64().unwrap() as usize,
        rng: j["rng"].as_u64().unwrap(),
    }
}

/// Smaller statements.
pub fn shrink_st(j: &J) -> Vec<J> {
    let mut v = vec![];
    for key in ["queries", "points", "targets", "polys"] {
        let a = j[key].as_array().unwrap();
        if a.len() > 1 {
            for i in 0..a.len() {
                let mut p = j.clone();
                p[key].as_array_mut().unwrap().remove(i);
                v.push(p);
            }
        }
    }
    if j["cut"].as_u64().unwrap() > 0 {
        let mut p = j.clone();
        p["cut"] = json!(0);
        v.push(p);
    }
    if j["keccak"] == json!(true) {
        let mut p = j.clone();
        p["keccak"] = json!(false);
        v.push(p);
    }
    v
}
