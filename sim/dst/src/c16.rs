//! C16: several sponges fed in pieces, copied and emptied in any order.

use crate::c10::scalar;
use crate::core::*;
use crate::pos::Ref;
use halo2_gadgets::poseidon::primitives::{ConstantLength, Hash as GHash, P128Pow5T3};
use halo2curves::bn256::{Fq as BnFq, Fr};
use halo2curves::pasta::{Fp, Fq};
use halo2curves::FieldExt;
use poseidon::Poseidon;
use serde_json::{json, Value as J};
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

trait Sponge<F> {
    fn update(&mut self, x: &[F]);
    fn squeeze(&mut self) -> F;
    fn copy(&self) -> Box<dyn Sponge<F>>;
}
impl<F: FieldExt, const T: usize, const R: usize> Sponge<F> for Poseidon<F, T, R> {
    fn update(&mut self, x: &[F]) {
        Poseidon::update(self, x)
    }
    fn squeeze(&mut self) -> F {
        Poseidon::squeeze(self)
    }
    fn copy(&self) -> Box<dyn Sponge<F>> {
        Box::new(self.clone())
    }
}

fn fresh<F: FieldExt>(t: usize, rf: usize, rp: usize) -> Box<dyn Sponge<F>> {
    match t {
        2 => Box::new(Poseidon::<F, 2, 1>::new(rf, rp)),
        3 => Box::new(Poseidon::<F, 3, 2>::new(rf, rp)),
        4 => Box::new(Poseidon::<F, 4, 3>::new(rf, rp)),
        5 => Box::new(Poseidon::<F, 5, 4>::new(rf, rp)),
        6 => Box::new(Poseidon::<F, 6, 5>::new(rf, rp)),
        _ => Box::new(Poseidon::<F, 9, 8>::new(rf, rp)),
    }
}

const SHAPES: [(usize, usize, usize); 14] = [
    (2, 8, 56),
    (3, 8, 57),
    (4, 8, 57),
    (5, 8, 57),
    (5, 8, 60),
    (6, 8, 57),
    (9, 8, 57),
    (2, 4, 3),
    (3, 4, 1),
    (3, 6, 5),
    (4, 4, 2),
    (5, 4, 7),
    (6, 6, 1),
    (9, 4, 2),
];

/// What a sponge has been through, and the state of the plain one.
#[derive(Clone)]
struct Model<F> {
    state: Vec<F>,
    buf: Vec<F>,
    /// everything since the start, if nothing was taken out yet
    all: Option<Vec<F>>,
}

impl<F: FieldExt> Model<F> {
    fn new(t: usize) -> Self {
        let mut state = vec![F::zero(); t];
        state[0] = F::from_u128(1 << 64);
        Model { state, buf: vec![], all: Some(vec![]) }
    }
    fn squeeze(&mut self, r: &Ref<F>) -> F {
        let rate = r.t - 1;
        let mut m = std::mem::take(&mut self.buf);
        m.push(F::one());
        while m.len() % rate != 0 {
            m.push(F::zero());
        }
        // a message that fills its blocks gets one for the padding alone; here it is always at the end
        for b in m.chunks(rate) {
            for (i, x) in b.iter().enumerate() {
                self.state[i + 1] += *x;
            }
            r.permute(&mut self.state);
        }
        self.all = None;
        self.state[1]
    }
}

fn session<F: FieldExt>(o: &mut Outcome, plan: &J) {
    thread_local! { static CACHE: RefCell<HashMap<(std::any::TypeId, usize), Rc<dyn std::any::Any>>> = RefCell::new(HashMap::new()); }
    let mut live: Vec<(usize, Box<dyn Sponge<F>>, Model<F>)> = vec![];
    let mut seen: HashMap<Vec<u8>, (usize, Vec<F>)> = HashMap::new();
    let base = |shape: usize| -> Rc<(Box<dyn Sponge<F>>, Ref<F>)> {
        let (t, rf, rp) = SHAPES[shape];
        CACHE
            .with(|c| {
                let k = (std::any::TypeId::of::<F>(), shape);
                if let Some(x) = c.borrow().get(&k) {
                    return x.clone();
                }
                let v: Rc<dyn std::any::Any> = Rc::new((fresh::<F>(t, rf, rp), Ref::<F>::new(t, rf, rp)));
                c.borrow_mut().insert(k, v.clone());
                v
            })
            .downcast()
            .unwrap()
    };
    for (i, op) in plan["ops"].as_array().unwrap().iter().enumerate() {
        let n = op["n"].as_u64().unwrap() as usize;
        o.steps += 1;
        match op["t"].as_str().unwrap() {
            "open" => {
                let shape = n % SHAPES.len();
                let b = base(shape);
                live.push((shape, b.0.copy(), Model::new(b.1.t)));
            }
            _ if live.is_empty() => continue,
            "feed" => {
                let x: Vec<F> = op["v"].as_array().unwrap().iter().map(|v| scalar::<F>(v.as_u64().unwrap())).collect();
                let l = live.len();
                let s = &mut live[n % l];
                s.1.update(&x);
                s.2.buf.extend(&x);
                if let Some(a) = &mut s.2.all {
                    a.extend(&x);
                }
                o.fault(if x.is_empty() { "empty piece" } else { "piece" });
            }
            "copy" => {
                let l = live.len();
                let s = &live[n % l];
                let c = (s.0, s.1.copy(), s.2.clone());
                live.push(c);
                o.fault("copied sponge");
            }
            "drop" => {
                let l = live.len();
                live.remove(n % l);
                o.fault("dropped sponge");
            }
            "take" => {
                let l = live.len();
                let s = &mut live[n % l];
                let r = base(s.0);
                let all = s.2.all.clone();
                let len = s.2.buf.len();
                let want = s.2.squeeze(&r.1);
                let got = s.1.squeeze();
                o.cases += 1;
                o.ev(hex(got.to_repr().as_ref()));
                let mut h = Hash::new();
                h.num(s.0 as u64).num(len as u64).num(all.is_some() as u64).num(l as u64);
                o.keys.insert(h.0);
                if got != want {
                    o.fail("digest", format!("step {}: {:?} sponge with {} elements since it was last emptied: {:?} instead of {:?}", i, SHAPES[s.0], len, got, want));
                }
                if let Some(a) = all {
                    let mut key = got.to_repr().as_ref().to_vec();
                    key.push(s.0 as u8);
                    if let Some((_, b)) = seen.get(&key) {
                        if *b != a {
                            o.fail("collision", format!("step {}: {:?} sponge: {} and {} elements have one digest", i, SHAPES[s.0], a.len(), b.len()));
                        }
                    }
                    seen.insert(key, (s.0, a));
                }
            }
            _ => {}
        }
    }
}

/// The hash of the gadget library, several at once.
fn constant<F: FieldExt>(o: &mut Outcome, plan: &J)
where
    P128Pow5T3: halo2_gadgets::poseidon::primitives::Spec<F, 3, 2>,
{
    thread_local! { static CACHE: RefCell<HashMap<std::any::TypeId, Rc<dyn std::any::Any>>> = RefCell::new(HashMap::new()); }
    let r: Rc<Ref<F>> = CACHE
        .with(|c| c.borrow_mut().entry(std::any::TypeId::of::<F>()).or_insert_with(|| Rc::new(Ref::<F>::new(3, 8, 56)) as Rc<dyn std::any::Any>).clone())
        .downcast()
        .unwrap();
    let mut seen: HashMap<Vec<u8>, Vec<F>> = HashMap::new();
    for (i, op) in plan["ops"].as_array().unwrap().iter().enumerate() {
        let Some(v) = op["v"].as_array() else { continue };
        let x: Vec<F> = v.iter().map(|v| scalar::<F>(v.as_u64().unwrap())).collect();
        macro_rules! h {
            ($($l:literal),*) => {
                match x.len() {
                    $($l => GHash::<F, P128Pow5T3, ConstantLength<$l>, 3, 2>::init().hash(x.clone().try_into().unwrap()),)*
                    _ => continue,
                }
            };
        }
        let got: F = h!(1, 2, 3, 4, 5, 6, 7, 8, 9);
        let want = ref_constant(&r, &x);
        o.cases += 1;
        o.steps += 1;
        o.ev(hex(got.to_repr().as_ref()));
        o.keys.insert(Hash::new().num(99).num(x.len() as u64).0);
        if got != want {
            o.fail("digest", format!("step {}: constant-length hash of {} elements: {:?} instead of {:?}", i, x.len(), got, want));
        }
        if let Some(b) = seen.get(got.to_repr().as_ref()) {
            if *b != x {
                o.fail("collision", format!("step {}: constant-length hash: {} and {} elements have one digest", i, x.len(), b.len()));
            }
        }
        seen.insert(got.to_repr().as_ref().to_vec(), x);
    }
}

/// Constant-length hashing over a width of three.
pub fn ref_constant<F: FieldExt>(r: &Ref<F>, x: &[F]) -> F {
    let rate = r.t - 1;
    let mut s = vec![F::zero(); r.t];
    s[rate] = F::from_u128((x.len() as u128) << 64);
    for b in x.chunks(rate) {
        for (i, v) in b.iter().enumerate() {
            s[i] += *v;
        }
        r.permute(&mut s);
    }
    s[0]
}

pub struct C16;
impl Prop for C16 {
    fn id(&self) -> &'static str {
        "C16"
    }
    fn budget(&self, tier: Tier) -> Budget {
        match tier {
            Tier::Quick => Budget { runs: 1_000_000, secs: 15, workers: 8, timeout: 60, mem_mb: 4000 },
            Tier::Thorough => Budget { runs: 100_000_000, secs: 400, workers: 8, timeout: 60, mem_mb: 4000 },
        }
    }
    fn gen(&self, ctx: &Ctx, idx: u64) -> J {
        let mut r = Rng::new(run_seed(ctx.seed, "C16", idx));
        let field = *r.pick(&["bn", "bn", "bn", "bn-base", "fp", "fq", "const-fp", "const-fq"]);
        // few shapes per run, so that their sponges meet
        let shapes: Vec<usize> = (0..r.range(1, 3)).map(|_| r.below(SHAPES.len())).collect();
        let mut ops: Vec<J> = vec![json!({"t": "open", "n": r.pick(&shapes)})];
        for _ in 0..r.range(4, 40) {
            let n = r.below(1 << 16);
            let small = r.chance(2, 3);
            let val = |r: &mut Rng| if small { r.below(3) as u64 } else if r.chance(1, 4) { r.below(8) as u64 } else { r.u64() >> 20 };
            ops.push(match r.below(16) {
                0 | 1 => json!({"t": "open", "n": r.pick(&shapes)}),
                2 => json!({"t": "copy", "n": n}),
                3 if r.chance(1, 3) => json!({"t": "drop", "n": n}),
                3..=6 => json!({"t": "take", "n": n}),
                _ => {
                    let len = match r.below(6) {
                        0 => 0,
                        1 | 2 => 1,
                        3 => r.range(2, 4),
                        4 => r.range(4, 9),
                        _ => r.range(0, 20),
                    };
                    json!({"t": "feed", "n": n, "v": (0..len).map(|_| val(&mut r)).collect::<Vec<_>>()})
                }
            });
        }
        // every sponge is read in the end
        for i in 0..8 {
            ops.push(json!({"t": "take", "n": i}));
        }
        json!({"field": field, "ops": ops})
    }
    fn exec(&self, _: &Ctx, plan: &J) -> Outcome {
        let mut o = Outcome::default();
        match plan["field"].as_str().unwrap() {
            "bn" => session::<Fr>(&mut o, plan),
            "bn-base" => session::<BnFq>(&mut o, plan),
            "fp" => session::<Fp>(&mut o, plan),
            "fq" => session::<Fq>(&mut o, plan),
            "const-fp" => constant::<Fp>(&mut o, plan),
            _ => constant::<Fq>(&mut o, plan),
        }
        o.sample = Some(json!({"field": plan["field"], "ops": plan["ops"].as_array().unwrap().len()}));
        o
    }
    fn shrink(&self, plan: &J) -> Vec<J> {
        let mut v = vec![];
        let a = plan["ops"].as_array().unwrap();
        for i in 0..a.len() {
            let mut p = plan.clone();
            p["ops"].as_array_mut().unwrap().remove(i);
            v.push(p);
        }
        for i in 0..a.len() {
            if let Some(x) = a[i]["v"].as_array() {
                for j in 0..x.len() {
                    let mut p = plan.clone();
                    p["ops"][i]["v"].as_array_mut().unwrap().remove(j);
                    v.push(p);
                }
                for j in 0..x.len() {
                    if x[j] != json!(0) {
                        let mut p = plan.clone();
                        p["ops"][i]["v"][j] = json!(0);
                        v.push(p);
                    }
                }
            }
        }
        v
    }
    fn rule(&self) -> String {
        "distinct (shape of sponge, elements since last emptied, first or later digest, sponges alive) combinations".into()
    }
    fn components(&self) -> J {
        json!({"real": ["poseidon::Poseidon (constants, optimised permutation, absorption)", "halo2_gadgets::poseidon::primitives::Hash"],
               "stub": ["the parties that feed and empty the sponges"]})
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["two different messages having one digest by chance has negligible probability".into()]
    }
}
