//! C10: transcripts as two parties with a faulty stream between them and a tampered common view.

use crate::core::*;
use ff::{Field, PrimeField};
use group::{Curve, Group, GroupEncoding};
use halo2_proofs::transcript::*;
use halo2curves::io::{Read, Result as IoResult, Write};
use halo2curves::{CurveAffine, FieldExt};
use serde_json::{json, Value as J};
use std::cell::RefCell;
use std::rc::Rc;

// ---------------------------------------------------------------- devices

#[derive(Default)]
pub struct WState {
    pub buf: Vec<u8>,
    pub room: Option<usize>,
}
#[derive(Clone, Default)]
pub struct WDev(pub Rc<RefCell<WState>>);
impl WDev {
    pub fn new(room: Option<usize>) -> Self {
        WDev(Rc::new(RefCell::new(WState { buf: vec![], room })))
    }
    pub fn bytes(&self) -> Vec<u8> {
        self.0.borrow().buf.clone()
    }
}
impl Write for WDev {
    fn write(&mut self, data: &[u8]) -> IoResult<usize> {
        let mut b = self.0.borrow_mut();
        if let Some(r) = b.room {
            let left = r.saturating_sub(b.buf.len());
            if left < data.len() {
                b.buf.extend_from_slice(&data[..left]);
                return if left == 0 { Err("device full") } else { Ok(left) };
            }
        }
        b.buf.extend_from_slice(data);
        Ok(data.len())
    }
    fn write_all(&mut self, data: &[u8]) -> IoResult<()> {
        if self.write(data)? == data.len() {
            Ok(())
        } else {
            Err("device full")
        }
    }
}

#[derive(Default)]
pub struct RState {
    pub data: Vec<u8>,
    pub pos: usize,
    /// Every read that would touch this offset fails.
    pub bad: Option<usize>,
}
#[derive(Clone, Default)]
pub struct RDev(pub Rc<RefCell<RState>>);
impl RDev {
    pub fn new(data: Vec<u8>, bad: Option<usize>) -> Self {
        RDev(Rc::new(RefCell::new(RState { data, pos: 0, bad })))
    }
    pub fn pos(&self) -> usize {
        self.0.borrow().pos
    }
}
impl Read for RDev {
    fn read_exact(&mut self, buf: &mut [u8]) -> IoResult<()> {
        let mut s = self.0.borrow_mut();
        let end = s.pos + buf.len();
        if let Some(b) = s.bad {
            if b >= s.pos && b < end {
                return Err("device error");
            }
        }
        if end > s.data.len() {
            return Err("end of stream");
        }
        buf.copy_from_slice(&s.data[s.pos..end]);
        s.pos = end;
        Ok(())
    }
}

// ---------------------------------------------------------------- values

pub fn scalar<F: FieldExt>(seed: u64) -> F {
    match seed {
        0 => F::zero(),
        1 => F::one(),
        2 => -F::one(),
        3 => F::from(2),
        4 => F::from_u128(1 << 64),
        5 => F::from_u128(u128::MAX),
        6 => -F::from(2),
        7 => F::from(256),
        _ => {
            let mut r = Rng::new(seed);
            let mut b = [0u8; 64];
            for c in b.iter_mut() {
                *c = r.u64() as u8;
            }
            F::from_bytes_wide(&b)
        }
    }
}

pub fn point<C: CurveAffine>(seed: u64) -> C {
    if seed == 0 {
        return C::identity();
    }
    (C::CurveExt::generator() * scalar::<C::ScalarExt>(seed)).to_affine()
}

#[derive(Clone, Debug, PartialEq)]
enum Item {
    Point(Vec<u8>),
    Scalar(Vec<u8>),
    Squeeze,
}

/// What a party has absorbed so far and the challenges it drew: the reference model is that two
/// parties draw the same t-th challenge exactly if they absorbed the same items before it.
#[derive(Clone, Default, Debug)]
struct View {
    items: Vec<Item>,
    at: Vec<usize>,
    chal: Vec<Vec<u8>>,
}
impl View {
    fn point<C: CurveAffine>(&mut self, p: &C) {
        let z = C::Base::zero();
        let (x, y) = Option::from(p.coordinates()).map(|c: halo2curves::Coordinates<C>| (*c.x(), *c.y())).unwrap_or((z, z));
        let mut b = x.to_repr().as_ref().to_vec();
        b.extend_from_slice(y.to_repr().as_ref());
        self.items.push(Item::Point(b));
    }
    fn scalar<F: PrimeField>(&mut self, s: &F) {
        self.items.push(Item::Scalar(s.to_repr().as_ref().to_vec()));
    }
    fn squeeze<C: CurveAffine, E: EncodedChallenge<C>>(&mut self, c: E) {
        self.at.push(self.items.len());
        self.items.push(Item::Squeeze);
        self.chal.push(c.get_scalar().to_repr().as_ref().to_vec());
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    CommonScalar(u64),
    CommonPoint(u64),
    SendScalar(u64),
    SendPoint(u64),
    Squeeze,
}
fn op_json(o: &Op) -> J {
    match o {
        Op::CommonScalar(v) => json!(["cs", v]),
        Op::CommonPoint(v) => json!(["cp", v]),
        Op::SendScalar(v) => json!(["ss", v]),
        Op::SendPoint(v) => json!(["sp", v]),
        Op::Squeeze => json!(["q", 0]),
    }
}
fn op_of(j: &J) -> Op {
    let v = j[1].as_u64().unwrap_or(0);
    match j[0].as_str().unwrap_or("") {
        "cs" => Op::CommonScalar(v),
        "cp" => Op::CommonPoint(v),
        "ss" => Op::SendScalar(v),
        "sp" => Op::SendPoint(v),
        _ => Op::Squeeze,
    }
}

/// A value with a small change: its negation, one byte changed, plus one.
fn tweak_scalar<F: FieldExt>(s: F, mode: u64) -> F {
    match mode % 40 {
        0 => -s,
        1 => s + F::one(),
        2 => F::zero(),
        3 => s.double(),
        m => s + F::from(256).pow(&[(m - 4) % 31, 0, 0, 0]),
    }
}
fn tweak_point<C: CurveAffine>(p: C, mode: u64) -> C {
    match mode % 3 {
        0 => -p,
        1 => (p.to_curve() + C::CurveExt::generator()).to_affine(),
        _ => point(mode | 64),
    }
}

fn wstep<C: CurveAffine, E: EncodedChallenge<C>, T: TranscriptWrite<C, E>>(t: &mut T, o: Op, v: &mut View) -> IoResult<()>
where
    C::ScalarExt: FieldExt,
{
    match o {
        Op::CommonScalar(s) => {
            let s = scalar::<C::ScalarExt>(s);
            t.common_scalar(s)?;
            v.scalar(&s);
        }
        Op::CommonPoint(p) => {
            let p = point::<C>(p);
            t.common_point(p)?;
            v.point(&p);
        }
        Op::SendScalar(s) => {
            let s = scalar::<C::ScalarExt>(s);
            t.write_scalar(s)?;
            v.scalar(&s);
        }
        Op::SendPoint(p) => {
            let p = point::<C>(p);
            t.write_point(p)?;
            v.point(&p);
        }
        Op::Squeeze => v.squeeze::<C, E>(t.squeeze_challenge()),
    }
    Ok(())
}

/// An operation of the reader: as agreed, but common values may come from a different view.
fn rstep<C: CurveAffine, E: EncodedChallenge<C>, T: TranscriptRead<C, E>>(
    t: &mut T,
    o: Op,
    tweak: Option<u64>,
    v: &mut View,
) -> IoResult<()>
where
    C::ScalarExt: FieldExt,
{
    match o {
        Op::CommonScalar(s) => {
            let mut s = scalar::<C::ScalarExt>(s);
            if let Some(m) = tweak {
                s = tweak_scalar(s, m);
            }
            t.common_scalar(s)?;
            v.scalar(&s);
        }
        Op::CommonPoint(p) => {
            let mut p = point::<C>(p);
            if let Some(m) = tweak {
                p = tweak_point(p, m);
            }
            t.common_point(p)?;
            v.point(&p);
        }
        Op::SendScalar(_) => {
            let s = t.read_scalar()?;
            v.scalar(&s);
        }
        Op::SendPoint(_) => {
            let p = t.read_point()?;
            if !bool::from(p.is_on_curve()) {
                return Err("unusable point"); // reported by the caller through the view
            }
            v.point(&p);
        }
        Op::Squeeze => v.squeeze::<C, E>(t.squeeze_challenge()),
    }
    Ok(())
}

trait Kind {
    type C: CurveAffine;
    type W: TranscriptWrite<Self::C, Challenge255<Self::C>> + Clone + 'static;
    type R: TranscriptRead<Self::C, Challenge255<Self::C>> + Clone + 'static;
    /// Points are absorbed as their coordinates, without a tag.
    const FLAT: bool;
    fn init_w(d: WDev) -> Self::W;
    fn init_r(d: RDev) -> Self::R;
    fn fin(w: Self::W) -> WDev;
    fn pool() -> &'static std::thread::LocalKey<RefCell<Pool<Self::W, Self::R>>>;
    /// A fresh writer. Setting up Poseidon is slow, so writers are copies of one made per device.
    fn w(room: Option<usize>, slot: usize) -> Self::W {
        Self::pool().with(|p| {
            let mut p = p.borrow_mut();
            while p.0.len() <= slot {
                let d = WDev::default();
                let t = Self::init_w(d.clone());
                p.0.push((d, t));
            }
            *p.0[slot].0 .0.borrow_mut() = WState { buf: vec![], room };
            p.0[slot].1.clone()
        })
    }
    fn r(data: Vec<u8>, bad: Option<usize>) -> Self::R {
        Self::pool().with(|p| {
            let mut p = p.borrow_mut();
            if p.1.is_none() {
                let d = RDev::default();
                let t = Self::init_r(d.clone());
                p.1 = Some((d, t));
            }
            let (d, t) = p.1.as_ref().unwrap();
            *d.0.borrow_mut() = RState { data, pos: 0, bad };
            t.clone()
        })
    }
}
struct Pool<W, R>(Vec<(WDev, W)>, Option<(RDev, R)>);
macro_rules! kind {
    ($n:ident, $c:ty, $w:ident, $r:ident, $flat:expr) => {
        struct $n;
        impl Kind for $n {
            type C = $c;
            type W = $w<WDev, $c, Challenge255<$c>>;
            type R = $r<RDev, $c, Challenge255<$c>>;
            const FLAT: bool = $flat;
            fn init_w(d: WDev) -> Self::W {
                $w::init(d)
            }
            fn init_r(d: RDev) -> Self::R {
                $r::init(d)
            }
            fn fin(w: Self::W) -> WDev {
                w.finalize()
            }
            fn pool() -> &'static std::thread::LocalKey<RefCell<Pool<Self::W, Self::R>>> {
                thread_local! {
                    static P: RefCell<Pool<<$n as Kind>::W, <$n as Kind>::R>> = RefCell::new(Pool(vec![], None));
                }
                &P
            }
        }
    };
}
use halo2curves::bn256::G1Affine;
use halo2curves::pasta::{EpAffine, EqAffine};
use halo2curves::secp256k1::Secp256k1Affine;
kind!(Bb, G1Affine, Blake2bWrite, Blake2bRead, false);
kind!(Be, EqAffine, Blake2bWrite, Blake2bRead, false);
kind!(Bp, EpAffine, Blake2bWrite, Blake2bRead, false);
kind!(Bs, Secp256k1Affine, Blake2bWrite, Blake2bRead, false);
kind!(Kb, G1Affine, Keccak256Write, Keccak256Read, false);
kind!(Ke, EqAffine, Keccak256Write, Keccak256Read, false);
kind!(Kp, EpAffine, Keccak256Write, Keccak256Read, false);
kind!(Pb, G1Affine, PoseidonWrite, PoseidonRead, true);
kind!(Pe, EqAffine, PoseidonWrite, PoseidonRead, true);

fn same_prefix(a: &View, b: &View, t: usize, flat: bool) -> Option<bool> {
    let (x, y) = (&a.items[..a.at[t]], &b.items[..b.at[t]]);
    if x == y {
        return Some(true);
    }
    if flat {
        // without tags, a point and its two coordinates are the same message
        let f = |v: &[Item]| -> Vec<Option<Vec<u8>>> {
            v.iter()
                .flat_map(|i| match i {
                    Item::Point(b) => vec![Some(b[..b.len() / 2].to_vec()), Some(b[b.len() / 2..].to_vec())],
                    Item::Scalar(b) => vec![Some(b.clone())],
                    Item::Squeeze => vec![None],
                })
                .collect()
        };
        if f(x) == f(y) {
            return None;
        }
    }
    Some(false)
}

fn judge(o: &mut Outcome, w: &View, r: &View, flat: bool, what: &str) {
    for t in 0..w.chal.len().min(r.chal.len()) {
        match same_prefix(w, r, t, flat) {
            Some(true) => {
                if w.chal[t] != r.chal[t] {
                    o.fail("disagreement", format!("{}: same messages, but challenge {} differs", what, t));
                }
            }
            Some(false) => {
                if w.chal[t] == r.chal[t] {
                    o.fail("unbound", format!("{}: different messages, but challenge {} is the same", what, t));
                }
            }
            None => {}
        }
    }
}

fn session<K: Kind>(o: &mut Outcome, plan: &J)
where
    <K::C as CurveAffine>::ScalarExt: FieldExt,
{
    let name = plan["kind"].as_str().unwrap_or("").to_string();
    let ops: Vec<Op> = plan["ops"].as_array().unwrap().iter().map(op_of).collect();
    // the writer
    let mut w = K::w(None, 0);
    let mut wv = View::default();
    let mut sizes: Vec<usize> = vec![];
    for (i, op) in ops.iter().enumerate() {
        o.steps += 1;
        let r = wstep::<K::C, _, _>(&mut w, *op, &mut wv);
        let inf = matches!(op, Op::CommonPoint(0) | Op::SendPoint(0));
        if let Err(e) = r {
            if !inf {
                o.fail("writer-error", format!("{}: operation {} ({:?}) fails: {}", name, i, op, e));
            }
            o.probe("identity refused");
            // such a session ends here for both
            let mut rd = K::r(K::fin(w).bytes(), None);
            let mut rv = View::default();
            for (j, op) in ops[..=i].iter().enumerate() {
                let e = rstep::<K::C, _, _>(&mut rd, *op, None, &mut rv);
                if e.is_err() != (j == i) {
                    o.fail("disagreement", format!("{}: the reader's operation {} {:?}", name, j, e));
                    return;
                }
            }
            judge(o, &wv, &rv, K::FLAT, "up to the refused point");
            return;
        }
        match op {
            Op::SendPoint(_) => sizes.push(<K::C as GroupEncoding>::Repr::default().as_ref().len()),
            Op::SendScalar(_) => {
                sizes.push(<<K::C as CurveAffine>::ScalarExt as PrimeField>::Repr::default().as_ref().len())
            }
            _ => {}
        }
    }
    let bytes = K::fin(w).bytes();
    o.ev(format!("{} {} ops, {} bytes, log {:x}", name, ops.len(), bytes.len(), {
        let mut h = Hash::new();
        h.add(&bytes);
        for c in &wv.chal {
            h.add(c);
        }
        h.0
    }));
    for a in 0..wv.chal.len() {
        for b in 0..a {
            if wv.chal[a] == wv.chal[b] {
                o.fail("unbound", format!("{}: challenges {} and {} of one session are the same", name, b, a));
            }
        }
    }
    // the honest reader
    {
        let mut rd = K::r(bytes.clone(), None);
        let mut rv = View::default();
        for (i, op) in ops.iter().enumerate() {
            if let Err(e) = rstep::<K::C, _, _>(&mut rd, *op, None, &mut rv) {
                o.fail("disagreement", format!("{}: honest reading fails at {}: {}", name, i, e));
                return;
            }
        }
        if rv.items != wv.items {
            o.fail("disagreement", format!("{}: the reader recovers other values", name));
        }
        judge(o, &wv, &rv, K::FLAT, &name);
        if rd.read_scalar().is_ok() || rd.read_point().is_ok() {
            o.fail("stray-bytes", format!("{}: bytes are left over that no sent value accounts for", name));
        }
        o.cases += 1;
    }
    // a second party interleaved, and clones
    if let Some(sched) = plan["interleave"].as_str() {
        let sched = unhex(sched);
        let mut a = K::w(None, 0);
        let mut b = K::w(None, 1);
        let (mut av, mut bv) = (View::default(), View::default());
        let (mut i, mut j) = (0, 0);
        let mut k = 0;
        let mut spare: Option<K::W> = None;
        let rev: Vec<Op> = ops.iter().rev().cloned().collect();
        while i < ops.len() || j < rev.len() {
            let c = sched[k % sched.len()];
            k += 1;
            o.steps += 1;
            if c & 0x30 == 0x30 && spare.is_none() {
                let mut s = a.clone();
                let mut tmp = View::default();
                let _ = wstep::<K::C, _, _>(&mut s, rev[0], &mut tmp);
                spare = Some(s);
                o.probe("clone");
            }
            if (c & 1 == 0 && i < ops.len()) || j >= rev.len() {
                let _ = wstep::<K::C, _, _>(&mut a, ops[i], &mut av);
                i += 1;
            } else {
                let _ = wstep::<K::C, _, _>(&mut b, rev[j], &mut bv);
                j += 1;
            }
        }
        if av.chal != wv.chal || K::fin(a).bytes() != bytes {
            // the clone writes to the same device, so only compare bytes without one
            if av.chal != wv.chal || spare.is_none() {
                o.fail("mixed", format!("{}: a session differs when interleaved with another", name));
            }
        }
        o.cases += 1;
        o.probe("interleaved");
    }
    // faults
    for t in plan["faults"].as_array().unwrap() {
        o.cases += 1;
        let kind = t["t"].as_str().unwrap();
        o.fault(kind);
        let n = t["n"].as_u64().unwrap() as usize;
        let m = t["m"].as_u64().unwrap_or(0);
        let what = format!("{} {}", name, t);
        let mut h = Hash::new();
        h.add(name.as_bytes()).add(kind.as_bytes()).num((n % 97) as u64).num(ops.len() as u64).num(m % 41);
        o.keys.insert(h.0);
        if kind == "wfail" {
            if bytes.is_empty() {
                continue;
            }
            let room = n % bytes.len();
            let mut w = K::w(Some(room), 0);
            let mut v = View::default();
            let ok = ops.iter().all(|op| wstep::<K::C, _, _>(&mut w, *op, &mut v).is_ok());
            if ok {
                o.fail("lost-write", format!("{}: the device failed after {} bytes and no error was reported", what, room));
            }
            continue;
        }
        let mut data = bytes.clone();
        let mut bad = None;
        let mut seq: Vec<(Op, Option<u64>)> = ops.iter().map(|x| (*x, None)).collect();
        let commons: Vec<usize> =
            (0..ops.len()).filter(|i| matches!(ops[*i], Op::CommonPoint(_) | Op::CommonScalar(_))).collect();
        // offsets of the sent values
        let mut offs = vec![0];
        for s in &sizes {
            offs.push(offs.last().unwrap() + s);
        }
        let mut must_err = false;
        match kind {
            "rfail" | "trunc" | "flip" | "set" if data.is_empty() => continue,
            "val" | "drop" if commons.is_empty() => continue,
            "blkswap" | "blkdrop" | "blkdup" | "order" | "zero" | "ones" if sizes.is_empty() => continue,
            "rfail" => {
                bad = Some(n % data.len());
                must_err = true;
            }
            "trunc" => {
                data.truncate(n % data.len());
                must_err = true;
            }
            "flip" => {
                let p = n % (data.len() * 8);
                data[p / 8] ^= 1 << (p % 8);
            }
            "set" => {
                let p = n % data.len();
                data[p] = m as u8;
            }
            "extend" => data.extend_from_slice(&Rng::new(m).bytes(n % 70)),
            "blkswap" => {
                let (a, b) = (n % sizes.len(), m as usize % sizes.len());
                let mut parts: Vec<Vec<u8>> = (0..sizes.len()).map(|i| data[offs[i]..offs[i + 1]].to_vec()).collect();
                parts.swap(a, b);
                data = parts.concat();
            }
            "blkdrop" => {
                let a = n % sizes.len();
                data.drain(offs[a]..offs[a + 1]);
                must_err = true;
            }
            "blkdup" => {
                let a = n % sizes.len();
                let p = data[offs[a]..offs[a + 1]].to_vec();
                data.splice(offs[a]..offs[a], p);
            }
            // a non-canonical form of the same value: the modulus added to it
            "order" => {
                let a = n % sizes.len();
                let modulus = -<K::C as CurveAffine>::ScalarExt::one();
                let mut carry = 1u16;
                for (i, b) in modulus.to_repr().as_ref().iter().enumerate() {
                    let s = data[offs[a] + i] as u16 + *b as u16 + carry;
                    data[offs[a] + i] = s as u8;
                    carry = s >> 8;
                }
            }
            "zero" | "ones" => {
                let a = n % sizes.len();
                for b in &mut data[offs[a]..offs[a + 1]] {
                    *b = if kind == "zero" { 0 } else { 255 };
                }
            }
            "val" => seq[commons[n % commons.len()]].1 = Some(m),
            "drop" => {
                seq.remove(commons[n % commons.len()]);
            }
            "ins" => {
                let new = if m % 2 == 0 { Op::CommonScalar(m / 2 % 9) } else { Op::CommonPoint(m / 2 % 9 + 1) };
                seq.insert(n % (seq.len() + 1), (new, None));
            }
            "cswap" => {
                if commons.len() < 2 {
                    continue;
                }
                seq.swap(commons[n % commons.len()], commons[m as usize % commons.len()]);
            }
            _ => continue,
        }
        let mut rd = K::r(data.clone(), bad);
        let mut rv = View::default();
        let mut err = false;
        for (op, tw) in &seq {
            o.steps += 1;
            match rstep::<K::C, _, _>(&mut rd, *op, *tw, &mut rv) {
                Ok(()) => {}
                Err(e) => {
                    if e == "unusable point" {
                        o.fail("bad-point", format!("{}: a point that is not on the curve is read", what));
                    }
                    err = true;
                    break;
                }
            }
        }
        if must_err && !err {
            o.fail("silent", format!("{}: no error was returned", what));
        }
        o.probe(if err { "error returned" } else { "read to the end" });
        judge(o, &wv, &rv, K::FLAT, &what);
        // damage to the read part of the stream that changes neither a value nor gives an error
        let used: usize = sizes.iter().sum();
        if !err && data.len() >= used && data[..used] != bytes[..] && rv.items == wv.items {
            o.fail("malleable", format!("{}: a different stream is read as the same values", what));
        }
    }
}

const KINDS: [&str; 9] =
    ["blake-bn", "blake-eq", "blake-ep", "blake-secp", "keccak-bn", "keccak-eq", "keccak-ep", "poseidon-bn", "poseidon-eq"];
const FAULTS: [&str; 17] = [
    "wfail", "rfail", "trunc", "flip", "flip", "set", "extend", "blkswap", "blkdrop", "blkdup", "order", "zero", "ones", "val",
    "val", "drop", "cswap",
];

pub struct C10;
impl Prop for C10 {
    fn id(&self) -> &'static str {
        "C10"
    }
    fn budget(&self, tier: Tier) -> Budget {
        match tier {
            Tier::Quick => Budget { runs: 1_000_000, secs: 30, workers: 8, timeout: 60, mem_mb: 4000 },
            Tier::Thorough => Budget { runs: 100_000_000, secs: 600, workers: 8, timeout: 60, mem_mb: 4000 },
        }
    }
    fn gen(&self, ctx: &Ctx, idx: u64) -> J {
        let mut r = Rng::new(run_seed(ctx.seed, "C10", idx));
        let kind = *r.pick(&KINDS);
        let n = if r.chance(1, 4) { r.range(1, 3) } else { r.range(3, 24) };
        let val = |r: &mut Rng| if r.chance(1, 3) { r.below(8) as u64 } else { 8 + r.below(1 << 30) as u64 };
        let mut ops = vec![];
        for _ in 0..n {
            let q = r.below(10);
            // the identity is tried now and then
            let p = |r: &mut Rng| if r.chance(1, 40) { 0 } else { val(r).max(1) };
            ops.push(match q {
                0 | 1 => Op::CommonScalar(val(&mut r)),
                2 => Op::CommonPoint(p(&mut r)),
                3 | 4 => Op::SendScalar(val(&mut r)),
                5 | 6 => Op::SendPoint(p(&mut r)),
                _ => Op::Squeeze,
            });
        }
        ops.push(Op::Squeeze);
        if r.chance(1, 3) {
            ops.push(Op::Squeeze);
        }
        let nf = r.range(4, 12);
        let faults: Vec<J> = (0..nf)
            .map(|_| {
                let k = if r.chance(1, 10) { "ins" } else { *r.pick(&FAULTS) };
                json!({"t": k, "n": r.below(1 << 20), "m": r.below(1 << 16)})
            })
            .collect();
        let il = if r.chance(1, 3) { json!(hex(&r.bytes(32))) } else { J::Null };
        json!({"kind": kind, "ops": ops.iter().map(op_json).collect::<Vec<_>>(), "faults": faults, "interleave": il})
    }
    fn exec(&self, _: &Ctx, plan: &J) -> Outcome {
        let mut o = Outcome::default();
        match plan["kind"].as_str().unwrap() {
            "blake-bn" => session::<Bb>(&mut o, plan),
            "blake-eq" => session::<Be>(&mut o, plan),
            "blake-ep" => session::<Bp>(&mut o, plan),
            "blake-secp" => session::<Bs>(&mut o, plan),
            "keccak-bn" => session::<Kb>(&mut o, plan),
            "keccak-eq" => session::<Ke>(&mut o, plan),
            "keccak-ep" => session::<Kp>(&mut o, plan),
            "poseidon-bn" => session::<Pb>(&mut o, plan),
            _ => session::<Pe>(&mut o, plan),
        }
        o.sample = Some(json!({"kind": plan["kind"], "ops": plan["ops"].as_array().unwrap().len(), "faults": plan["faults"]}));
        o
    }
    fn shrink(&self, plan: &J) -> Vec<J> {
        let mut v = vec![];
        for key in ["faults", "ops"] {
            let a = plan[key].as_array().unwrap();
            for i in 0..a.len() {
                let mut p = plan.clone();
                p[key].as_array_mut().unwrap().remove(i);
                v.push(p);
            }
        }
        if !plan["interleave"].is_null() {
            let mut p = plan.clone();
            p["interleave"] = J::Null;
            v.push(p);
        }
        v
    }
    fn rule(&self) -> String {
        "distinct (transcript and curve, fault kind, fault position mod 97, session length, change) combinations".into()
    }
    fn components(&self) -> J {
        json!({"real": ["halo2_proofs::transcript writers and readers", "halo2curves", "poseidon"],
               "stub": ["byte devices under the transcripts", "the parties' common view"]})
    }
    fn assumptions(&self) -> Vec<String> {
        vec![
            "two different messages giving the same challenge by chance has negligible probability".into(),
            "the Poseidon transcript absorbs a point as its two coordinates without a tag, by design".into(),
        ]
    }
}
