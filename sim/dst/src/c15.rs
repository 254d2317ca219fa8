//! C15: the same request in different processes, memory layouts, hash orders and histories.

use crate::bf;
use crate::c13::{shrink_size, size_of};
use crate::circ;
use crate::core::*;
use crate::osim;
use crate::plonk::*;
use crate::tx::*;
use ckb_bf_base::main_config::MyCircuit;
use ckb_bf_base::utils::DOMAIN;
use halo2_proofs::circuit::floor_planner::V1;
use halo2_proofs::circuit::SimpleFloorPlanner;
use halo2_proofs::plonk::*;
use halo2_proofs::poly::commitment::{Params, ParamsProver};
use halo2_proofs::poly::ipa::commitment::ParamsIPA;
use halo2_proofs::poly::kzg::commitment::ParamsKZG;
use halo2_proofs::SerdeFormat;
use halo2curves::bn256::{Bn256, Fr, G1Affine};
use halo2curves::pasta::EqAffine;
use serde_json::{json, Value as J};
use std::collections::BTreeMap;

extern "C" {
    fn mallopt(param: i32, value: i32) -> i32;
    fn dst_hash_seed(v: u64);
}
const M_PERTURB: i32 = -6;

/// Storage and repetition of the set-up.
trait Store: Sys {
    fn fresh(k: u32) -> Self::P;
    fn pbytes(p: &Self::P) -> Vec<u8>;
    fn preread(b: &[u8]) -> Self::P;
    fn vk_bytes(vk: &VerifyingKey<Self::C>) -> Vec<u8>;
    fn pk_bytes(pk: &ProvingKey<Self::C>) -> Vec<u8>;
    fn reread<Ci: Circuit<Self::F>>(
        vk: &VerifyingKey<Self::C>,
        pk: &ProvingKey<Self::C>,
        f: SerdeFormat,
    ) -> Option<(VerifyingKey<Self::C>, ProvingKey<Self::C>)>;
}

macro_rules! store_kzg {
    ($n:ty) => {
        impl Store for $n {
            fn fresh(k: u32) -> ParamsKZG<Bn256> {
                ParamsKZG::<Bn256>::unsafe_setup_with_s(k, Fr::from(42))
            }
            fn pbytes(p: &ParamsKZG<Bn256>) -> Vec<u8> {
                let mut v = vec![];
                p.write(&mut v).expect("params are written");
                v
            }
            fn preread(b: &[u8]) -> ParamsKZG<Bn256> {
                ParamsKZG::<Bn256>::read(&mut &b[..]).expect("params are read")
            }
            fn vk_bytes(vk: &VerifyingKey<G1Affine>) -> Vec<u8> {
                [vk.to_bytes(SerdeFormat::RawBytes), format!("{:?}", vk.pinned()).into_bytes()].concat()
            }
            fn pk_bytes(pk: &ProvingKey<G1Affine>) -> Vec<u8> {
                pk.to_bytes(SerdeFormat::RawBytes)
            }
            fn reread<Ci: Circuit<Fr>>(
                vk: &VerifyingKey<G1Affine>,
                pk: &ProvingKey<G1Affine>,
                f: SerdeFormat,
            ) -> Option<(VerifyingKey<G1Affine>, ProvingKey<G1Affine>)> {
                let v = VerifyingKey::<G1Affine>::read::<_, Ci>(&mut &vk.to_bytes(f)[..], f).expect("vk is read");
                let p = ProvingKey::<G1Affine>::read::<_, Ci>(&mut &pk.to_bytes(f)[..], f).expect("pk is read");
                Some((v, p))
            }
        }
    };
}
store_kzg!(Shplonk);
store_kzg!(ShplonkK);
store_kzg!(Gwc);
impl Store for Ipa {
    fn fresh(k: u32) -> ParamsIPA<EqAffine> {
        ParamsIPA::<EqAffine>::new(k)
    }
    fn pbytes(p: &ParamsIPA<EqAffine>) -> Vec<u8> {
        let mut v = vec![];
        p.write(&mut v).expect("params are written");
        v
    }
    fn preread(b: &[u8]) -> ParamsIPA<EqAffine> {
        ParamsIPA::<EqAffine>::read(&mut &b[..]).expect("params are read")
    }
    fn vk_bytes(vk: &VerifyingKey<EqAffine>) -> Vec<u8> {
        format!("{:?}", vk.pinned()).into_bytes()
    }
    fn pk_bytes(pk: &ProvingKey<EqAffine>) -> Vec<u8> {
        Self::vk_bytes(pk.get_vk())
    }
    fn reread<Ci: Circuit<halo2curves::pasta::Fp>>(
        _: &VerifyingKey<EqAffine>,
        _: &ProvingKey<EqAffine>,
        _: SerdeFormat,
    ) -> Option<(VerifyingKey<EqAffine>, ProvingKey<EqAffine>)> {
        None
    }
}

/// Runs f with the stack lowered by some frames.
#[inline(never)]
fn deeper<T>(n: usize, f: &mut dyn FnMut() -> T) -> T {
    let pad = [n as u8; 1031];
    let r = if n == 0 { f() } else { deeper(n - 1, f) };
    std::hint::black_box(&pad);
    r
}

/// The machine a computation runs on: keys of hash maps, contents of fresh memory, heap and stack shape.
fn on_machine<T>(t: &J, f: &mut dyn FnMut() -> T) -> T {
    let mut r = Rng::new(t["heap"].as_u64().unwrap_or(0));
    let mut keep: Vec<Vec<u8>> = vec![];
    if t["heap"].as_u64().is_some() {
        let mut v: Vec<Vec<u8>> = (0..200).map(|_| { let e = r.range(3, 13); let n = 1 + r.below(1 << e); r.bytes(n) }).collect();
        while v.len() > 90 {
            let i = r.below(v.len());
            v.swap_remove(i);
        }
        keep = v;
    }
    unsafe {
        mallopt(M_PERTURB, t["fill"].as_u64().unwrap_or(0) as i32);
        dst_hash_seed(t["hash"].as_u64().unwrap_or(77));
    }
    let x = deeper(t["stack"].as_u64().unwrap_or(0) as usize, f);
    unsafe {
        mallopt(M_PERTURB, 0);
    }
    drop(keep);
    x
}

struct Made {
    parts: BTreeMap<&'static str, Vec<u8>>,
    tap: Vec<Ev>,
}

/// Set-up, keys and proof on one machine.
fn make<S: Store, Ci: Circuit<S::F>>(t: &J, k: u32, circuits: &mut dyn FnMut() -> Vec<Ci>, inst: &Inst<S::F>, pseed: u64) -> Result<Made, String> {
    on_machine(t, &mut || {
        let mut parts = BTreeMap::new();
        let shared = S::params(k);
        let p: &'static S::P = match t["params"].as_str().unwrap_or("same") {
            "fresh" => Box::leak(Box::new(S::fresh(k))),
            "stored" => Box::leak(Box::new(S::preread(&S::pbytes(&S::fresh(k))))),
            _ => {
                let _ = shared;
                base_params::<S>(k)
            }
        };
        parts.insert("parameters", S::pbytes(p));
        let cs = circuits();
        let (vk, pk) = S::keygen(p, &cs[0])?;
        parts.insert("verifying key", S::vk_bytes(&vk));
        parts.insert("proving key", S::pk_bytes(&pk));
        let (vk, pk) = match t["keys"].as_str() {
            Some("raw") => S::reread::<Ci>(&vk, &pk, SerdeFormat::RawBytes).unwrap_or((vk, pk)),
            Some("processed") => S::reread::<Ci>(&vk, &pk, SerdeFormat::Processed).unwrap_or((vk, pk)),
            _ => (vk, pk),
        };
        let cs = circuits();
        let proof = S::prove(p, &pk, &cs, inst, pseed)?;
        let tap = take_tap();
        S::verify(base_params::<S>(k), &vk, inst, &proof)?;
        parts.insert("proof", proof);
        Ok(Made { parts, tap })
    })
}

fn base_params<S: Store>(k: u32) -> &'static S::P {
    use std::any::TypeId;
    use std::cell::RefCell;
    thread_local! { static C: RefCell<BTreeMap<(bool, u32), &'static dyn std::any::Any>> = RefCell::new(BTreeMap::new()); }
    let ipa = TypeId::of::<S::P>() == TypeId::of::<ParamsIPA<EqAffine>>();
    let a = C.with(|c| {
        *c.borrow_mut().entry((ipa, k)).or_insert_with(|| {
            let b: Box<S::P> = Box::new(S::fresh(k));
            let r: &'static S::P = Box::leak(b);
            r as &'static dyn std::any::Any
        })
    });
    a.downcast_ref::<S::P>().unwrap()
}

fn compare<S: Store, Ci: Circuit<S::F>>(
    o: &mut Outcome,
    plan: &J,
    label: &str,
    k: u32,
    circuits: &mut dyn FnMut() -> Vec<Ci>,
    between: &mut dyn FnMut(u64),
    inst: &Inst<S::F>,
) {
    let pseed = plan["pseed"].as_u64().unwrap();
    let mut first: Option<Made> = None;
    for (i, t) in plan["trials"].as_array().unwrap().iter().enumerate() {
        if let Some(s) = t["between"].as_u64() {
            o.fault("another request served before");
            between(s);
        }
        let r = catch(|| make::<S, Ci>(t, k, circuits, inst, pseed)).and_then(|x| x);
        o.cases += 1;
        for key in ["hash", "fill", "heap", "stack"] {
            if !t[key].is_null() {
                o.fault(match key {
                    "hash" => "other hash map keys",
                    "fill" => "other contents of fresh memory",
                    "heap" => "other heap shape",
                    _ => "other stack position",
                });
            }
        }
        for (key, v) in [("params", "stored"), ("params", "fresh"), ("keys", "raw"), ("keys", "processed")] {
            if t[key] == v {
                o.fault(match v {
                    "stored" => "parameters from storage",
                    "fresh" => "parameters set up again",
                    _ => "keys from storage",
                });
            }
        }
        let m = match r {
            Ok(m) => m,
            Err(e) => {
                match &first {
                    // a statement the repository cannot prove is the business of other properties
                    None => o.inconclusive = Some(format!("{}: {}", label, e)),
                    Some(_) => o.fail("differs", format!("{}: the first attempt succeeded, attempt {} on another machine did not: {}", label, i, e)),
                }
                return;
            }
        };
        match &first {
            None => {
                o.keys.insert(hash_bytes(&m.parts["verifying key"]));
                first = Some(m)
            }
            Some(f) => {
                for (what, b) in &f.parts {
                    if *b != m.parts[what] {
                        let at = b.iter().zip(&m.parts[what]).position(|(x, y)| x != y).unwrap_or(b.len().min(m.parts[what].len()));
                        o.fail("differs", format!("{}: the {} of attempt {} differs from byte {} on ({} and {} bytes; {})", label, what, i, at, b.len(), m.parts[what].len(), t));
                        return;
                    }
                }
                if f.tap != m.tap {
                    o.fail("differs", format!("{}: attempt {} spoke differently to its transcript", label, i));
                    return;
                }
            }
        }
    }
}

fn lib_session<S: Store, P>(o: &mut Outcome, plan: &J, spec: std::rc::Rc<circ::Spec>, pl: circ::Place)
where
    P: FloorPlanner,
    circ::Circ<S::F, P>: Circuit<S::F, Config = circ::Cfg>,
{
    circ::set_spec(&spec);
    let m = plan["m"].as_u64().unwrap() as usize;
    let mut r = Rng::new(plan["w"].as_u64().unwrap());
    let ws: Vec<u64> = (0..m).map(|_| r.u64()).collect();
    let inst: Inst<S::F> = ws.iter().map(|w| circ::instance::<S::F>(&spec, &pl, *w)).collect();
    let label = format!("{} x{} {}", S::NAME, m, circ::describe(&spec, &pl));
    let (spec2, pl2, inst2) = (spec.clone(), pl.clone(), inst.clone());
    let mut circuits = || {
        circ::set_spec(&spec2);
        (0..m).map(|i| circ::circuit::<S::F, P>(&spec2, &pl2, ws[i], &inst2[i], &[])).collect::<Vec<_>>()
    };
    let mut between = |s: u64| {
        // an unrelated circuit goes through key generation and proving
        if let Ok((spec, pl)) = circ::build::<S::F>(s, size_of(&json!({"gates": 1, "regions": 2, "looks": 1}))) {
            if !spec.v1 {
                circ::set_spec(&spec);
                let i = circ::instance::<S::F>(&spec, &pl, s);
                let c = || circ::circuit::<S::F, SimpleFloorPlanner>(&spec, &pl, s, &i, &[]);
                let p = base_params::<S>(pl.k);
                let _ = catch(|| {
                    let (_, pk) = S::keygen(p, &c())?;
                    S::prove(p, &pk, &[c()], &vec![i.clone()], s)
                });
            }
        }
    };
    compare::<S, _>(o, plan, &label, pl.k, &mut circuits, &mut between, &inst);
}

fn lib<S: Store>(o: &mut Outcome, plan: &J) {
    match circ::build::<S::F>(plan["spec"].as_u64().unwrap(), size_of(&plan["size"])) {
        Err(e) => o.inconclusive = Some(e),
        Ok((spec, pl)) => {
            if spec.v1 {
                lib_session::<S, V1>(o, plan, spec, pl)
            } else {
                lib_session::<S, SimpleFloorPlanner>(o, plan, spec, pl)
            }
        }
    }
}

/// The Brainfuck circuit with 4-bit cells.
fn small_bf(o: &mut Outcome, plan: &J) {
    let mut r = Rng::new(plan["spec"].as_u64().unwrap());
    let (src, input) = loop {
        let (s, i) = bf::gen_case(&mut r, 4, 40);
        let rf = bf::reference(&bf::Program::parse(&s).unwrap(), &i, 4, 60);
        if rf.end == bf::End::Halt && rf.consumed == i.len() {
            break (s, i);
        }
    };
    let label = format!("program {:?} on {:?}", String::from_utf8_lossy(&src), input);
    let inst = bf::instances(&bf::Program::parse(&src).unwrap().words(), &input);
    let m0 = bf::honest_matrix(&src, &input, 4);
    thread_local! { static SH: bf::Shape<16> = bf::shape::<16>(); }
    let k = SH.with(|s| bf::min_k::<16>(s, &m0, &inst));
    let mut circuits = || vec![MyCircuit::<Fr, 16>::new(bf::honest_matrix(&src, &input, 4))];
    let mut between = |s: u64| {
        let (a, b) = bf::gen_case(&mut Rng::new(s), 4, 30);
        let _ = catch(|| bf::honest_matrix(&a, &b, 4).instruction_matrix.len());
    };
    compare::<Shplonk, _>(o, plan, &label, k, &mut circuits, &mut between, &vec![inst]);
}

// ---------------------------------------------------------------- the prover program

fn cli(o: &mut Outcome, ctx: &Ctx, plan: &J) {
    let b = osim_base(ctx);
    let ri = plan["ri"].as_u64().unwrap() as usize % b.len();
    let (req, want_tx, want_cache) = &b[ri];
    let reqs: Vec<Req> = b.iter().map(|x| x.0.clone()).collect();
    let dir = ctx.own.join(format!("d{}", "x".repeat(plan["pad"].as_u64().unwrap_or(0) as usize % 90)));
    let _ = std::fs::remove_dir_all(&dir);
    osim::prepare(&dir, &reqs, osim::BIN);
    let before = osim::list(&dir);
    if let Some(c) = plan["cache"]["req"].as_u64() {
        o.fault(if plan["cache"]["damage"].is_null() { "cache of an earlier run" } else { "unreadable cache" });
        for (p, v) in &b[c as usize % b.len()].2 {
            let v = if plan["cache"]["damage"].is_null() { v.clone() } else { crate::c06::damage(v, &plan["cache"]["damage"]) };
            std::fs::write(dir.join(p), v).unwrap();
        }
    }
    if let Some(i) = plan["prev"].as_u64() {
        o.fault("transaction of another request in place");
        std::fs::write(dir.join("res/tx.json"), &b[i as usize % b.len()].1).unwrap();
    }
    let mut env: Vec<(String, String)> = vec![("DST_HASH".into(), plan["hash"].to_string())];
    if let Some(f) = plan["fill"].as_u64() {
        env.push(("MALLOC_PERTURB_".into(), f.to_string()));
        o.fault("other contents of fresh memory");
    }
    if let Some(f) = plan["envpad"].as_u64() {
        env.push(("PADDING".into(), "y".repeat(f as usize)));
        o.fault("other environment");
    }
    if let Some(l) = plan["log"].as_str() {
        env.push(("RUST_LOG".into(), l.into()));
        o.fault("other environment");
    }
    for (k, v) in [("LANG", "tr_TR.UTF-8"), ("TZ", "Asia/Kathmandu"), ("HOME", "/nonexistent"), ("USER", "nobody"), ("RAYON_NUM_THREADS", "1")] {
        if plan["world"].as_u64().unwrap_or(0) & 1 == 1 {
            env.push((k.into(), v.into()));
        }
    }
    o.fault("other random numbers, process id and hash map keys");
    let l = osim::Launch {
        bin: ctx.bin("prover"),
        shim: ctx.bin("shim.so"),
        dir: &dir,
        pid: plan["pid"].as_u64().unwrap(),
        rand: plan["rand"].as_u64().unwrap(),
        serve: None,
        env,
    };
    let mut p = osim::spawn(&l, ri, req, 240);
    let d = osim::drive(&mut p, None);
    o.cases += 1;
    o.steps += d.ops.len() as u64;
    let tx = std::fs::read(dir.join("res/tx.json")).ok();
    let left = osim::new_files(&dir, &before);
    let _ = std::fs::remove_dir_all(&dir);
    let what = format!("{} ({})", req.show(), plan);
    if d.exit != Some(osim::Exit::Code(0)) {
        o.fail("differs", format!("the prover succeeded for this request before, but ended with {:?}: {}", d.exit, what));
        return;
    }
    if tx.as_ref() != Some(want_tx) {
        let t = tx.unwrap_or_default();
        let at = t.iter().zip(want_tx).position(|(x, y)| x != y).unwrap_or(t.len().min(want_tx.len()));
        o.fail("differs", format!("the transaction differs from that of the first run from byte {} on ({} and {} bytes): {}", at, want_tx.len(), t.len(), what));
        return;
    }
    for (p, v) in want_cache {
        if left.get(p) != Some(v) {
            o.fail("differs", format!("{} differs from what the first run left: {}", p, what));
            return;
        }
    }
    o.keys.insert(hash_bytes(plan.to_string().as_bytes()));
}

/// Repeats the set-up from the published program and input and compares with the published bytes.
fn setup_again(o: &mut Outcome, ctx: &Ctx, plan: &J) {
    let b = osim_base(ctx);
    let (req, tx, cache) = &b[plan["ri"].as_u64().unwrap() as usize % b.len()];
    let t = parse_tx(tx).unwrap();
    let k = u32::from_le_bytes([t.wit[0][0], t.wit[0][1], t.wit[0][2], t.wit[0][3]]);
    o.cases += 1;
    o.fault("set-up repeated by someone else");
    let (params, pb, vk) = on_machine(plan, &mut || {
        let params = ParamsKZG::<Bn256>::unsafe_setup_with_s(k, Fr::from_u128(ckb_bf_base::GOD_PRIVATE_KEY));
        let m = bf::honest_matrix(&req.src, &req.input, 8);
        let vk = keygen_vk(&params, &MyCircuit::<Fr, DOMAIN>::new(m)).expect("keygen_vk");
        let mut vp = params.verifier_params().clone();
        vp.shrink(ckb_bf_base::SHRINK_K);
        let mut pb = vec![];
        vp.write(&mut pb).unwrap();
        let mut full = vec![];
        params.write(&mut full).unwrap();
        (full, pb, vk.to_bytes(SerdeFormat::RawBytes))
    });
    if pb != t.wit[0] {
        o.fail("setup", format!("the published parameters are not those of the set-up for {} (k={})", req.show(), k));
    } else if vk != t.wit[1] {
        o.fail("setup", format!("the published verifying key is not that of the set-up for {} (k={})", req.show(), k));
    } else if cache.values().all(|v| *v != params) && !cache.is_empty() {
        o.fail("setup", format!("the parameter cache left behind for {} is not the set-up's", req.show()));
    }
}

use halo2curves::FieldExt;

fn base_file(ctx: &Ctx) -> std::path::PathBuf {
    ctx.scratch.join("c15.json")
}

type Base = Vec<(Req, Vec<u8>, BTreeMap<String, Vec<u8>>)>;

fn osim_base(ctx: &Ctx) -> Base {
    let j: J = serde_json::from_str(&std::fs::read_to_string(base_file(ctx)).unwrap()).unwrap();
    j.as_array()
        .unwrap()
        .iter()
        .map(|x| {
            (
                Req { src: unhex(x["src"].as_str().unwrap()), input: unhex(x["input"].as_str().unwrap()) },
                unhex(x["tx"].as_str().unwrap()),
                x["cache"].as_object().unwrap().iter().map(|(k, v)| (k.clone(), unhex(v.as_str().unwrap()))).collect(),
            )
        })
        .collect()
}

pub struct C15;
impl Prop for C15 {
    fn id(&self) -> &'static str {
        "C15"
    }
    fn budget(&self, tier: Tier) -> Budget {
        match tier {
            Tier::Quick => Budget { runs: 1_000_000, secs: 30, workers: 8, timeout: 300, mem_mb: 6000 },
            Tier::Thorough => Budget { runs: 100_000_000, secs: 900, workers: 8, timeout: 300, mem_mb: 6000 },
        }
    }
    fn setup(&self, ctx: &Ctx) -> Result<(), (String, String)> {
        let reqs = osim::os_requests(ctx.seed, false);
        let reqs: Vec<Req> = match ctx.tier {
            Tier::Quick => vec![reqs[0].clone(), reqs[2].clone()],
            Tier::Thorough => reqs,
        };
        let out: Vec<(Option<osim::Exit>, Option<Vec<u8>>, BTreeMap<String, Vec<u8>>)> = std::thread::scope(|s| {
            let hs: Vec<_> = reqs
                .iter()
                .enumerate()
                .map(|(i, r)| {
                    let reqs = &reqs;
                    s.spawn(move || {
                        let dir = ctx.scratch.join(format!("first{}", i));
                        osim::prepare(&dir, reqs, osim::BIN);
                        let before = osim::list(&dir);
                        let l = osim::Launch {
                            bin: ctx.bin("prover"),
                            shim: ctx.bin("shim.so"),
                            dir: &dir,
                            pid: 4711,
                            rand: 1,
                            serve: None,
                            env: vec![("DST_HASH".into(), "5".into())],
                        };
                        let mut p = osim::spawn(&l, i, r, 240);
                        let d = osim::drive(&mut p, None);
                        let tx = std::fs::read(dir.join("res/tx.json")).ok();
                        let c = osim::new_files(&dir, &before);
                        let _ = std::fs::remove_dir_all(&dir);
                        (d.exit, tx, c)
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap()).collect()
        });
        let mut v = vec![];
        for (r, (e, tx, c)) in reqs.iter().zip(out) {
            let ok = e == Some(osim::Exit::Code(0)) && tx.as_ref().map_or(false, |t| parse_tx(t).map_or(false, |t| serves(&t, r, osim::BIN).is_ok()));
            if !ok {
                return Err(("clean-run".into(), format!("an undisturbed run of {} ended with {:?}", r.show(), e)));
            }
            let c: serde_json::Map<String, J> = c.iter().map(|(k, v)| (k.clone(), json!(hex(v)))).collect();
            v.push(json!({"src": hex(&r.src), "input": hex(&r.input), "tx": hex(&tx.unwrap()), "cache": c}));
        }
        std::fs::write(base_file(ctx), json!(v).to_string()).unwrap();
        Ok(())
    }
    fn gen(&self, ctx: &Ctx, idx: u64) -> J {
        let mut r = Rng::new(run_seed(ctx.seed, "C15", idx));
        let s = |r: &mut Rng| r.u64() >> 1;
        let cli = if idx < 50 && idx % 5 == 0 { Some(idx / 5) } else if idx % 200 == 0 { Some(idx) } else { None };
        if let Some(idx) = cli {
            if idx < 2 {
                return json!({"t": "setup", "ri": idx, "hash": s(&mut r), "fill": r.range(1, 255), "heap": s(&mut r)});
            }
            let cache = match r.below(4) {
                0 => J::Null,
                1 | 2 => json!({"req": r.below(2)}),
                _ => json!({"req": r.below(2), "damage": {"kind": *r.pick(&["cut", "empty"]), "a": 5 + r.below(20000), "b": 0}}),
            };
            return json!({"t": "cli", "ri": r.below(3), "cache": cache, "hash": s(&mut r), "rand": s(&mut r), "pid": r.range(2, 4_000_000),
                "fill": if r.chance(2, 3) { json!(r.range(1, 255)) } else { J::Null }, "pad": r.below(80),
                "envpad": if r.chance(1, 2) { json!(r.below(5000)) } else { J::Null }, "log": if r.chance(1, 4) { json!("debug") } else { J::Null },
                "prev": if r.chance(1, 3) { json!(r.below(2)) } else { J::Null }, "world": r.below(2)});
        }
        let mut trials = vec![json!({"hash": s(&mut r), "params": "same"})];
        for _ in 0..r.range(2, 3) {
            let mut t = json!({"hash": s(&mut r)});
            t["params"] = json!(*r.pick(&["same", "fresh", "stored"]));
            t["keys"] = json!(*r.pick(&["fresh", "fresh", "raw", "processed"]));
            if r.chance(1, 2) {
                t["fill"] = json!(r.range(1, 255));
            }
            if r.chance(1, 2) {
                t["heap"] = json!(s(&mut r));
            }
            if r.chance(1, 2) {
                t["stack"] = json!(r.below(60));
            }
            if r.chance(1, 3) {
                t["between"] = json!(s(&mut r));
            }
            trials.push(t);
        }
        let kind = if r.chance(1, 12) { "bf" } else { "lib" };
        json!({"t": kind, "sys": *r.pick(&["shplonk", "shplonk", "gwc", "ipa", "keccak"]), "spec": s(&mut r), "w": s(&mut r), "pseed": s(&mut r),
               "m": *r.pick(&[1, 1, 2]), "size": match r.below(4) { 0 | 1 => json!({"gates": 2, "regions": 3, "looks": 2}), 2 => json!({"regions": 12, "low": true}), _ => json!({}) }, "trials": trials})
    }
    fn exec(&self, ctx: &Ctx, plan: &J) -> Outcome {
        let mut o = Outcome::default();
        match plan["t"].as_str().unwrap() {
            "cli" => cli(&mut o, ctx, plan),
            "setup" => setup_again(&mut o, ctx, plan),
            "bf" => small_bf(&mut o, plan),
            _ => match plan["sys"].as_str().unwrap() {
                "gwc" => lib::<Gwc>(&mut o, plan),
                "ipa" => lib::<Ipa>(&mut o, plan),
                "keccak" => lib::<ShplonkK>(&mut o, plan),
                _ => lib::<Shplonk>(&mut o, plan),
            },
        }
        o.count(&format!("runs: {}", plan["t"].as_str().unwrap()), 1);
        o
    }
    fn shrink(&self, plan: &J) -> Vec<J> {
        let mut v = vec![];
        if let Some(a) = plan["trials"].as_array() {
            for i in 0..a.len() {
                if a.len() > 2 {
                    let mut p = plan.clone();
                    p["trials"].as_array_mut().unwrap().remove(i);
                    v.push(p);
                }
                for k in ["fill", "heap", "stack", "between", "keys", "params"] {
                    if !a[i][k].is_null() {
                        let mut p = plan.clone();
                        p["trials"][i].as_object_mut().unwrap().remove(k);
                        v.push(p);
                    }
                }
            }
            if plan["m"].as_u64().unwrap() > 1 {
                let mut p = plan.clone();
                p["m"] = json!(1);
                v.push(p);
            }
            if plan["t"] == "lib" {
                v.extend(shrink_size(plan));
            }
        } else if plan["t"] == "cli" {
            for k in ["fill", "envpad", "log", "prev", "cache"] {
                if !plan[k].is_null() {
                    let mut p = plan.clone();
                    p[k] = J::Null;
                    v.push(p);
                }
            }
        }
        v
    }
    fn rule(&self) -> String {
        "distinct verifying keys compared across machines, and distinct situations the prover program ran in".into()
    }
    fn components(&self) -> J {
        json!({"real": ["ckb_bf_prover binary on a simulated system", "ckb_bf_vm, ckb_bf_base", "halo2_proofs set-up, key generation and prover (all commitment schemes)", "serialization"],
               "stub": ["random circuits", "keys of hash maps (ahash with its keys from the simulator)", "random numbers, process ids, contents of fresh memory"]})
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["address-space layout below the seams above (ASLR of libraries) varies between runs of the prover program without being controlled".into()]
    }
}
