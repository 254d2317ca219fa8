//! The proof system under test behind one interface, with taps on what prover and verifier exchange.

use crate::core::*;
use ff::{Field, PrimeField};
use group::GroupEncoding;
use halo2_proofs::dst::{self, Site};
use halo2_proofs::plonk::*;
use halo2_proofs::poly::commitment::{CommitmentScheme, Params, ParamsProver, Verifier};
use halo2_proofs::poly::ipa::commitment::{IPACommitmentScheme, ParamsIPA};
use halo2_proofs::poly::ipa::multiopen::{ProverIPA, VerifierIPA};
use halo2_proofs::poly::ipa::strategy::{AccumulatorStrategy as AccIPA, SingleStrategy as SingleIPA};
use halo2_proofs::poly::kzg::commitment::{KZGCommitmentScheme, ParamsKZG};
use halo2_proofs::poly::kzg::msm::DualMSM;
use halo2_proofs::poly::kzg::multiopen::{ProverGWC, ProverSHPLONK, VerifierGWC, VerifierSHPLONK};
use halo2_proofs::poly::kzg::strategy::{AccumulatorStrategy as AccKZG, GuardKZG, SingleStrategy as SingleKZG};
use halo2_proofs::poly::{VerificationStrategy, VerifierQuery};
use halo2_proofs::transcript::*;
use halo2curves::bn256::{Bn256, Fr, G1Affine};
use halo2curves::io::Result as IoResult;
use halo2curves::pasta::{EqAffine, Fp};
use halo2curves::{CurveAffine, FieldExt};
use std::cell::RefCell;
use std::collections::HashMap;

// ---------------------------------------------------------------- taps

#[derive(Clone, Debug, PartialEq)]
pub enum Ev {
    Squeeze(Vec<u8>),
    CommonPoint(Vec<u8>),
    CommonScalar(Vec<u8>),
    Point(Vec<u8>),
    Scalar(Vec<u8>),
    Open,
}

#[derive(Clone, Debug)]
pub struct Query {
    pub point: Vec<u8>,
    pub eval: Vec<u8>,
    pub com: Option<Vec<u8>>,
}

thread_local! {
    static TAP: RefCell<Vec<Ev>> = RefCell::new(vec![]);
    static QUERIES: RefCell<Vec<Query>> = RefCell::new(vec![]);
}

fn tap(e: Ev) {
    TAP.with(|t| t.borrow_mut().push(e));
}
pub fn take_tap() -> Vec<Ev> {
    TAP.with(|t| std::mem::take(&mut *t.borrow_mut()))
}
pub fn take_queries() -> Vec<Query> {
    QUERIES.with(|t| std::mem::take(&mut *t.borrow_mut()))
}
pub fn fb<F: PrimeField>(f: &F) -> Vec<u8> {
    f.to_repr().as_ref().to_vec()
}
pub fn unfb<F: PrimeField>(b: &[u8]) -> F {
    let mut r = F::Repr::default();
    r.as_mut().copy_from_slice(b);
    F::from_repr(r).unwrap()
}
pub fn pb<C: CurveAffine>(c: &C) -> Vec<u8> {
    GroupEncoding::to_bytes(c).as_ref().to_vec()
}

pub struct Tap<T>(pub T);
impl<C: CurveAffine, E: EncodedChallenge<C>, T: Transcript<C, E>> Transcript<C, E> for Tap<T> {
    fn squeeze_challenge(&mut self) -> E {
        let c = self.0.squeeze_challenge();
        tap(Ev::Squeeze(fb(&c.get_scalar())));
        c
    }
    fn common_point(&mut self, p: C) -> IoResult<()> {
        tap(Ev::CommonPoint(pb(&p)));
        self.0.common_point(p)
    }
    fn common_scalar(&mut self, s: C::Scalar) -> IoResult<()> {
        tap(Ev::CommonScalar(fb(&s)));
        self.0.common_scalar(s)
    }
}
impl<C: CurveAffine, E: EncodedChallenge<C>, T: TranscriptRead<C, E>> TranscriptRead<C, E> for Tap<T> {
    fn read_point(&mut self) -> IoResult<C> {
        let p = self.0.read_point()?;
        tap(Ev::Point(pb(&p)));
        Ok(p)
    }
    fn read_scalar(&mut self) -> IoResult<C::Scalar> {
        let s = self.0.read_scalar()?;
        tap(Ev::Scalar(fb(&s)));
        Ok(s)
    }
}
impl<C: CurveAffine, E: EncodedChallenge<C>, T: TranscriptWrite<C, E>> TranscriptWrite<C, E> for Tap<T> {
    fn write_point(&mut self, p: C) -> IoResult<()> {
        tap(Ev::Point(pb(&p)));
        self.0.write_point(p)
    }
    fn write_scalar(&mut self, s: C::Scalar) -> IoResult<()> {
        tap(Ev::Scalar(fb(&s)));
        self.0.write_scalar(s)
    }
}

/// Notes which openings the verifier asks for.
pub struct RecV<V>(V);
impl<'p, V> Verifier<'p, KZGCommitmentScheme<Bn256>> for RecV<V>
where
    V: Verifier<'p, KZGCommitmentScheme<Bn256>, Guard = GuardKZG<'p, Bn256>, MSMAccumulator = DualMSM<'p, Bn256>>,
{
    type Guard = V::Guard;
    type MSMAccumulator = V::MSMAccumulator;
    const QUERY_INSTANCE: bool = V::QUERY_INSTANCE;
    fn new(params: &'p ParamsKZG<Bn256>) -> Self {
        RecV(V::new(params))
    }
    fn verify_proof<'com, E: EncodedChallenge<G1Affine>, T: TranscriptRead<G1Affine, E>, I>(
        &self,
        transcript: &mut T,
        queries: I,
        msm: Self::MSMAccumulator,
    ) -> Result<Self::Guard, halo2_proofs::poly::Error>
    where
        'p: 'com,
        I: IntoIterator<Item = VerifierQuery<'com, G1Affine, <ParamsKZG<Bn256> as Params<'p, G1Affine>>::MSM>> + Clone,
    {
        tap(Ev::Open);
        for q in queries.clone() {
            let (p, e, c) = dst::verifier_query(&q);
            QUERIES.with(|v| v.borrow_mut().push(Query { point: fb(&p), eval: fb(&e), com: c.map(|c| pb(&c)) }));
        }
        self.0.verify_proof(transcript, queries, msm)
    }
}

// ---------------------------------------------------------------- systems

pub type Inst<F> = Vec<Vec<Vec<F>>>;

pub trait Sys {
    type F: FieldExt;
    type C: CurveAffine<ScalarExt = Self::F>;
    type P: 'static;
    type Acc;
    const NAME: &'static str;
    /// instances are absorbed as scalars
    const SCALARS: bool;
    /// queries are recorded
    const QUERIES: bool;
    fn params(k: u32) -> &'static Self::P;
    fn keygen<Ci: Circuit<Self::F>>(p: &'static Self::P, c: &Ci) -> Result<(VerifyingKey<Self::C>, ProvingKey<Self::C>), String>;
    fn prove<Ci: Circuit<Self::F>>(
        p: &'static Self::P,
        pk: &ProvingKey<Self::C>,
        c: &[Ci],
        inst: &Inst<Self::F>,
        seed: u64,
    ) -> Result<Vec<u8>, String>;
    fn verify(p: &'static Self::P, vk: &VerifyingKey<Self::C>, inst: &Inst<Self::F>, proof: &[u8]) -> Result<(), String>;
    /// Adds a proof to a batch.
    fn acc_add(a: Self::Acc, p: &'static Self::P, vk: &VerifyingKey<Self::C>, inst: &Inst<Self::F>, proof: &[u8]) -> Result<Self::Acc, String>;
}

fn refs<F>(i: &Inst<F>) -> Vec<Vec<&[F]>> {
    i.iter().map(|a| a.iter().map(|b| b.as_slice()).collect()).collect()
}

macro_rules! sys {
    ($name:ident, $label:expr, $curve:ty, $f:ty, $scheme:ty, $params:ty, $prover:ty, $verifier:ty, $strategy:expr, $acc:ty, $w:ty, $r:ty, $scal:expr, $que:expr) => {
        pub struct $name;
        impl Sys for $name {
            type F = $f;
            type C = $curve;
            type P = $params;
            type Acc = $acc;
            const NAME: &'static str = $label;
            const SCALARS: bool = $scal;
            const QUERIES: bool = $que;
            fn params(k: u32) -> &'static $params {
                thread_local! { static CACHE: RefCell<HashMap<u32, &'static $params>> = RefCell::new(HashMap::new()); }
                CACHE.with(|c| *c.borrow_mut().entry(k).or_insert_with(|| Box::leak(Box::new(<$params>::new(k)))))
            }
            fn keygen<Ci: Circuit<$f>>(p: &'static $params, c: &Ci) -> Result<(VerifyingKey<$curve>, ProvingKey<$curve>), String> {
                let vk = keygen_vk(p, c).map_err(|e| format!("keygen_vk: {:?}", e))?;
                let pk = keygen_pk(p, vk.clone(), c).map_err(|e| format!("keygen_pk: {:?}", e))?;
                Ok((vk, pk))
            }
            fn prove<Ci: Circuit<$f>>(
                p: &'static $params,
                pk: &ProvingKey<$curve>,
                c: &[Ci],
                inst: &Inst<$f>,
                seed: u64,
            ) -> Result<Vec<u8>, String> {
                take_tap();
                let a = refs(inst);
                let b: Vec<&[&[$f]]> = a.iter().map(|x| x.as_slice()).collect();
                let mut t: Tap<$w> = Tap(<$w>::init(vec![]));
                create_proof::<$scheme, $prover, _, _, _, _>(p, pk, c, &b, Rng::new(seed), &mut t).map_err(|e| format!("{:?}", e))?;
                Ok(t.0.finalize())
            }
            fn verify(p: &'static $params, vk: &VerifyingKey<$curve>, inst: &Inst<$f>, proof: &[u8]) -> Result<(), String> {
                take_tap();
                take_queries();
                let a = refs(inst);
                let b: Vec<&[&[$f]]> = a.iter().map(|x| x.as_slice()).collect();
                let src: &[u8] = proof;
                let mut t = Tap(<$r>::init(src));
                let st = $strategy;
                verify_proof::<$scheme, $verifier, _, _, _>(p, vk, st(p), &b, &mut t).map_err(|e| format!("{:?}", e))
            }
            fn acc_add(acc: $acc, p: &'static $params, vk: &VerifyingKey<$curve>, inst: &Inst<$f>, proof: &[u8]) -> Result<$acc, String> {
                take_tap();
                take_queries();
                let a = refs(inst);
                let b: Vec<&[&[$f]]> = a.iter().map(|x| x.as_slice()).collect();
                let src: &[u8] = proof;
                let mut t = Tap(<$r>::init(src));
                verify_proof::<$scheme, $verifier, _, _, _>(p, vk, acc, &b, &mut t).map_err(|e| format!("{:?}", e))
            }
        }
    };
}

type Bw<C> = Blake2bWrite<Vec<u8>, C, Challenge255<C>>;
type Br<'a, C> = Blake2bRead<&'a [u8], C, Challenge255<C>>;
type Kw<C> = Keccak256Write<Vec<u8>, C, Challenge255<C>>;
type Kr<'a, C> = Keccak256Read<&'a [u8], C, Challenge255<C>>;

sys!(Shplonk, "kzg-shplonk", G1Affine, Fr, KZGCommitmentScheme<Bn256>, ParamsKZG<Bn256>, ProverSHPLONK<_>, RecV<VerifierSHPLONK<_>>, SingleKZG::new, AccKZG<'static, Bn256>, Bw<G1Affine>, Br<G1Affine>, true, true);
sys!(ShplonkK, "kzg-shplonk-keccak", G1Affine, Fr, KZGCommitmentScheme<Bn256>, ParamsKZG<Bn256>, ProverSHPLONK<_>, RecV<VerifierSHPLONK<_>>, SingleKZG::new, AccKZG<'static, Bn256>, Kw<G1Affine>, Kr<G1Affine>, true, true);
sys!(Gwc, "kzg-gwc", G1Affine, Fr, KZGCommitmentScheme<Bn256>, ParamsKZG<Bn256>, ProverGWC<_>, RecV<VerifierGWC<_>>, SingleKZG::new, AccKZG<'static, Bn256>, Bw<G1Affine>, Br<G1Affine>, true, true);
sys!(Ipa, "ipa", EqAffine, Fp, IPACommitmentScheme<EqAffine>, ParamsIPA<EqAffine>, ProverIPA<_>, VerifierIPA<_>, SingleIPA::new, AccIPA<'static, EqAffine>, Bw<EqAffine>, Br<EqAffine>, false, false);

// ---------------------------------------------------------------- deviating prover

/// Where the running product is bent so that it ends as a valid one does.
#[derive(Clone, Copy, Debug)]
pub struct Bend {
    pub chunk: usize,
    pub row: usize,
    pub zero: bool,
}

#[derive(Clone, Debug)]
pub enum Dev {
    /// follow the protocol
    None,
    /// bend the permutation product of this circuit
    Perm { circuit: usize, bend: Option<Bend> },
    /// take values that are not in the table, starting at row `at` of the permuted column; `wrap` sets
    /// the last (unusable) row to the value as well
    LookRow { circuit: usize, at: usize, wrap: bool },
    /// permuted columns that belong to other inputs, and a bent product
    LookProduct { circuit: usize, bend: Option<Bend> },
}

fn bend<F: FieldExt>(z: &mut [F], usable: usize, b: Bend, last: F) {
    let c = if b.zero { F::zero() } else { last.invert().unwrap_or_else(F::zero) };
    for v in &mut z[b.row.min(usable)..=usable] {
        *v *= c;
    }
}

/// Aligned columns for inputs that are all in the table (None: they are not).
fn align<F: FieldExt>(input: &[F], table: &[F]) -> Option<Vec<(F, F)>> {
    let mut a = input.to_vec();
    a.sort();
    let mut rest = table.to_vec();
    rest.sort();
    let mut s: Vec<Option<F>> = vec![None; a.len()];
    for i in 0..a.len() {
        if i == 0 || a[i] != a[i - 1] {
            let p = rest.binary_search(&a[i]).ok()?;
            rest.remove(p);
            s[i] = Some(a[i]);
        }
    }
    let mut it = rest.into_iter();
    Some(a.into_iter().zip(s).map(|(x, y)| (x, y.unwrap_or_else(|| it.next().unwrap()))).collect())
}

/// Like `align`, but values outside the table are let through, the first block of them at row `at`.
fn misalign<F: FieldExt>(input: &[F], table: &[F], at: usize) -> Option<(Vec<(F, F)>, F)> {
    let good: Vec<F> = input.iter().copied().filter(|x| table.contains(x)).collect();
    let bad: Vec<F> = {
        let mut b: Vec<F> = input.iter().copied().filter(|x| !table.contains(x)).collect();
        b.sort();
        b
    };
    if bad.is_empty() {
        return None;
    }
    let mut a = good.clone();
    a.sort();
    // blocks of equal values
    let mut blocks: Vec<(F, usize)> = vec![];
    for x in a {
        match blocks.last_mut() {
            Some(b) if b.0 == x => b.1 += 1,
            _ => blocks.push((x, 1)),
        }
    }
    let mut bb: Vec<(F, usize)> = vec![];
    for x in bad {
        match bb.last_mut() {
            Some(b) if b.0 == x => b.1 += 1,
            _ => bb.push((x, 1)),
        }
    }
    let first = bb[0].0;
    let at = at.min(blocks.len());
    for (i, b) in bb.into_iter().enumerate() {
        blocks.insert(at + i, b);
    }
    let mut rest = table.to_vec();
    let mut out: Vec<(F, Option<F>)> = vec![];
    for (v, n) in blocks {
        for j in 0..n {
            let s = if j == 0 {
                rest.iter().position(|x| *x == v).map(|p| rest.remove(p))
            } else {
                None
            };
            out.push((v, s));
        }
    }
    let mut it = rest.into_iter();
    Some((out.into_iter().map(|(v, s)| (v, s.unwrap_or_else(|| it.next().unwrap()))).collect(), first))
}

/// What the hook saw: ends of the products.
#[derive(Clone, Debug, Default)]
pub struct Seen<F> {
    pub perm: Vec<Vec<F>>,
    pub look: Vec<Vec<F>>,
    pub bad_lookups: usize,
    pub calls: usize,
}

/// Proves with a deviation. `pass` is what an earlier run without bends saw.
#[allow(clippy::too_many_arguments)]
pub fn prove_dev<S: Sys, Ci: Circuit<S::F>>(
    p: &'static S::P,
    pk: &ProvingKey<S::C>,
    c: &[Ci],
    inst: &Inst<S::F>,
    seed: u64,
    usable: usize,
    n_look: usize,
    dev: &Dev,
    pass: Option<&Seen<S::F>>,
) -> (Result<Vec<u8>, String>, Seen<S::F>)
where
    S::F: 'static,
{
    use std::rc::Rc;
    let m = c.len();
    let seen: Rc<RefCell<Seen<S::F>>> = Rc::new(RefCell::new(Seen::default()));
    let s2 = seen.clone();
    let d = dev.clone();
    let earlier = pass.cloned();
    let mut i_permuted = 0usize;
    let hook = move |site: Site<'_>| -> Option<Box<dyn std::any::Any>> {
        let mut s = s2.borrow_mut();
        s.calls += 1;
        match site {
            Site::PermutationProduct(z) => {
                let z = z.downcast_mut::<Vec<S::F>>()?;
                if let (Dev::Perm { circuit, bend: Some(b) }, Some(e)) = (&d, &earlier) {
                    let chunks = e.perm.len() / m;
                    if s.perm.len() == circuit * chunks + b.chunk.min(chunks - 1) {
                        let last = e.perm[circuit * chunks + chunks - 1][usable];
                        bend(z, usable, *b, last);
                    }
                }
                s.perm.push(z.clone());
                None
            }
            Site::LookupProduct(z) => {
                let z = z.downcast_mut::<Vec<S::F>>()?;
                if let (Dev::LookProduct { circuit, bend: Some(b) }, Some(e)) = (&d, &earlier) {
                    let i = s.look.len();
                    if i / n_look == *circuit && e.look[i][usable] != S::F::one() {
                        bend(z, usable, *b, e.look[i][usable]);
                    }
                }
                s.look.push(z.clone());
                None
            }
            Site::Scaled(_) => None,
            Site::LookupPermuted(a, t, u) => {
                let a = &a.downcast_ref::<Vec<S::F>>()?[..u];
                let t = &t.downcast_ref::<Vec<S::F>>()?[..u];
                let i = i_permuted;
                i_permuted += 1;
                match &d {
                    Dev::LookRow { circuit, at, wrap } if i / n_look == *circuit => {
                        let (mut v, first) = misalign(a, t, *at)?;
                        s.bad_lookups += 1;
                        if *wrap {
                            // the row before row 0 is the last one of the domain
                            let mut r = Rng::new(seed ^ 0x77);
                            let n = 1usize << (usize::BITS - u.leading_zeros());
                            while v.len() < n - 1 {
                                v.push((<S::F as ff::Field>::random(&mut r), <S::F as ff::Field>::random(&mut r)));
                            }
                            v.push((first, first));
                        }
                        Some(Box::new(v))
                    }
                    Dev::LookProduct { circuit, .. } if i / n_look == *circuit => {
                        if a.iter().all(|x| t.contains(x)) {
                            return None;
                        }
                        s.bad_lookups += 1;
                        let fixed: Vec<S::F> = a.iter().map(|x| if t.contains(x) { *x } else { t[0] }).collect();
                        Some(Box::new(align(&fixed, t)?))
                    }
                    _ => None,
                }
            }
        }
    };
    dst::set(Some(Box::new(hook)));
    let r = catch(|| S::prove(p, pk, c, inst, seed)).and_then(|x| x);
    dst::set(None);
    let s = seen.borrow().clone();
    (r, s)
}
