//! C09: keys and parameters written to and read from devices that fail, stop short or damage data.

use crate::c10::{point, scalar, RDev, WDev};
use crate::c13::size_of;
use crate::circ::*;
use crate::core::*;
use crate::plonk::*;
use ff::PrimeField;
use group::{prime::PrimeCurveAffine, Curve, GroupEncoding};
use halo2_proofs::circuit::floor_planner::V1;
use halo2_proofs::circuit::SimpleFloorPlanner;
use halo2_proofs::plonk::{Circuit, FloorPlanner, ProvingKey, VerifyingKey};
use halo2_proofs::poly::commitment::{Params, ParamsProver};
use halo2_proofs::poly::ipa::commitment::ParamsIPA;
use halo2_proofs::poly::kzg::commitment::ParamsKZG;
use halo2_proofs::SerdeFormat;
use halo2curves::bn256::{Bn256, Fq, Fr, G1Affine, G2Affine, G1, G2};
use halo2curves::io::Result as IoResult;
use halo2curves::pasta::{EpAffine, EqAffine};
use halo2curves::secp256k1::Secp256k1Affine;
use halo2curves::serde::SerdeObject;
use halo2curves::{CurveAffine, FieldExt};
use num_bigint::BigUint;
use serde_json::{json, Value as J};
use std::any::Any;
use std::rc::Rc;

const FORMATS: [(&str, SerdeFormat); 3] =
    [("processed", SerdeFormat::Processed), ("raw", SerdeFormat::RawBytes), ("unchecked", SerdeFormat::RawBytesUnchecked)];

fn format(s: &str) -> SerdeFormat {
    FORMATS.iter().find(|x| x.0 == s).unwrap().1
}

// ---------------------------------------------------------------- own arithmetic

fn modulus<F: FieldExt>() -> BigUint {
    let m = -F::one();
    BigUint::from_bytes_le(m.to_repr().as_ref()) + 1u32
}

struct Own {
    p: BigUint,
    r: BigUint,
    /// b of the twist, as computed from 3 / (9 + u)
    b2: (BigUint, BigUint),
}

thread_local! { static OWN: Own = own(); }

fn own() -> Own {
    let p = BigUint::parse_bytes(b"30644e72e131a029b85045b68181585d97816a916871ca8d3c208c16d87cfd47", 16).unwrap();
    let r = BigUint::parse_bytes(b"30644e72e131a029b85045b68181585d2833e84879b9709143e1f593f0000001", 16).unwrap();
    // 3 / (9 + u) = 3 (9 - u) / 82
    let inv = BigUint::from(82u32).modpow(&(&p - 2u32), &p);
    let b2 = (&inv * 27u32 % &p, (&p - 3u32) * &inv % &p);
    Own { p, r, b2 }
}

/// A 32-byte Montgomery representation below the modulus, as a number.
fn mont(b: &[u8], m: &BigUint) -> Result<BigUint, String> {
    let v = BigUint::from_bytes_le(b);
    if &v >= m {
        return Err("a field element is not below the modulus".into());
    }
    let rinv = (BigUint::from(1u32) << 256usize).modpow(&(m - 2u32), m);
    Ok(v * rinv % m)
}

fn g1_ok(p: &G1Affine) -> Result<(), String> {
    let b = p.to_raw_bytes();
    OWN.with(|o| {
        let x = mont(&b[..32], &o.p)?;
        let y = mont(&b[32..], &o.p)?;
        let zero = BigUint::from(0u32);
        if x == zero && y == zero {
            return Ok(());
        }
        if &y * &y % &o.p != (&x * &x % &o.p * &x + 3u32) % &o.p {
            return Err("a point is not on the curve".into());
        }
        Ok(())
    })
}

fn g2_ok(q: &G2Affine) -> Result<(), String> {
    let b = q.to_raw_bytes();
    OWN.with(|o| {
        let p = &o.p;
        let e = |i: usize| mont(&b[32 * i..32 * i + 32], p);
        let (x, y) = ((e(0)?, e(1)?), (e(2)?, e(3)?));
        let zero = BigUint::from(0u32);
        if [&x.0, &x.1, &y.0, &y.1].iter().all(|v| **v == zero) {
            return Ok(());
        }
        type P2 = (BigUint, BigUint);
        let mul = |a: &P2, b: &P2| -> P2 { ((&a.0 * &b.0 + (p * p - &a.1 * &b.1)) % p, (&a.0 * &b.1 + &a.1 * &b.0) % p) };
        let x3 = mul(&mul(&x, &x), &x);
        let rhs = ((&x3.0 + &o.b2.0) % p, (&x3.1 + &o.b2.1) % p);
        if mul(&y, &y) != rhs {
            return Err("a point is not on the twist".into());
        }
        Ok(())
    })
}

/// Points of other curves: the equation in the curve's own field.
fn generic_ok<C: CurveAffine>(p: &C) -> Result<(), String> {
    if bool::from(p.is_identity()) {
        return Ok(());
    }
    let c = p.coordinates();
    if bool::from(c.is_none()) {
        return Err("a point without coordinates".into());
    }
    let c = c.unwrap();
    let m = modulus::<C::Base>();
    let n = |f: &C::Base| BigUint::from_bytes_le(f.to_repr().as_ref());
    let (x, y) = (n(c.x()), n(c.y()));
    if &y * &y % &m != (&x * &x % &m * &x + n(&C::a()) * &x + n(&C::b())) % &m {
        return Err("a point is not on the curve".into());
    }
    Ok(())
}

// ---------------------------------------------------------------- objects

/// Something that was read.
trait Back {
    /// the same format again
    fn ser(&self) -> Vec<u8>;
    fn valid(&self) -> Result<(), String>;
    /// stands in for the original in use, although it differs from this byte on
    fn usable(&self, _: usize) -> bool;
    fn any(&self) -> &dyn Any;
}

type Read = Box<dyn Fn(&mut RDev) -> IoResult<Box<dyn Back>>>;

struct Obj {
    name: String,
    bytes: Vec<u8>,
    checked: bool,
    write: Box<dyn Fn(&mut WDev) -> IoResult<()>>,
    read: Read,
    /// offsets and widths of the fields that hold sizes; big endian
    sizes: Vec<(usize, bool)>,
    /// the unit of its elements
    unit: usize,
}

struct Kzg(ParamsKZG<Bn256>, SerdeFormat, bool);
impl Back for Kzg {
    fn ser(&self) -> Vec<u8> {
        let mut w = WDev::new(None);
        self.0.write_custom(&mut w, self.1).unwrap();
        w.bytes()
    }
    fn valid(&self) -> Result<(), String> {
        let p = &self.0;
        if !self.2 && (p.k > 28 || p.n != 1u64 << p.k || p.g.len() as u64 != p.n || p.g_lagrange.len() as u64 != p.n) {
            return Err(format!("k={} n={} but {} and {} points", p.k, p.n, p.g.len(), p.g_lagrange.len()));
        }
        for g in p.g.iter().chain(&p.g_lagrange) {
            g1_ok(g)?;
        }
        g2_ok(&p.g2)?;
        g2_ok(&p.s_g2)
    }
    fn usable(&self, _: usize) -> bool {
        false
    }
    fn any(&self) -> &dyn Any {
        &self.0
    }
}

struct IpaP<C: CurveAffine>(ParamsIPA<C>);
impl<C: CurveAffine> Back for IpaP<C> {
    fn ser(&self) -> Vec<u8> {
        let mut w = WDev::new(None);
        self.0.write(&mut w).unwrap();
        w.bytes()
    }
    fn valid(&self) -> Result<(), String> {
        let g = self.0.get_g();
        if self.0.k() > 32 || self.0.n() != 1u64 << self.0.k() || g.len() as u64 != self.0.n() {
            return Err(format!("k={} n={} but {} points", self.0.k(), self.0.n(), g.len()));
        }
        g.iter().try_for_each(generic_ok)
    }
    fn usable(&self, _: usize) -> bool {
        false
    }
    fn any(&self) -> &dyn Any {
        &self.0
    }
}

struct Vk(VerifyingKey<G1Affine>, SerdeFormat, Rc<dyn Fn(&VerifyingKey<G1Affine>, usize) -> bool>);
impl Back for Vk {
    fn ser(&self) -> Vec<u8> {
        self.0.to_bytes(self.1)
    }
    fn valid(&self) -> Result<(), String> {
        for p in self.0.fixed_commitments().iter().chain(self.0.permutation().commitments()) {
            g1_ok(p)?;
        }
        Ok(())
    }
    fn usable(&self, first: usize) -> bool {
        (self.2)(&self.0, first)
    }
    fn any(&self) -> &dyn Any {
        &self.0
    }
}

struct Pk(ProvingKey<G1Affine>, SerdeFormat);
impl Back for Pk {
    fn ser(&self) -> Vec<u8> {
        self.0.to_bytes(self.1)
    }
    fn valid(&self) -> Result<(), String> {
        let vk = self.0.get_vk();
        for p in vk.fixed_commitments().iter().chain(vk.permutation().commitments()) {
            g1_ok(p)?;
        }
        let raw = self.0.to_bytes(SerdeFormat::RawBytes);
        let mut at = vk.to_bytes(SerdeFormat::RawBytes).len();
        let num = |at: &mut usize| {
            let v = u32::from_be_bytes(raw[*at..*at + 4].try_into().unwrap()) as usize;
            *at += 4;
            v
        };
        OWN.with(|o| {
            let mut poly = |at: &mut usize| -> Result<(), String> {
                let n = num(at);
                for _ in 0..n {
                    if BigUint::from_bytes_le(&raw[*at..*at + 32]) >= o.r {
                        return Err("a field element is not below the modulus".into());
                    }
                    *at += 32;
                }
                Ok(())
            };
            for _ in 0..3 {
                poly(&mut at)?;
            }
            for _ in 0..4 {
                let n = u32::from_be_bytes(raw[at..at + 4].try_into().unwrap()) as usize;
                at += 4;
                for _ in 0..n {
                    poly(&mut at)?;
                }
            }
            Ok(())
        })
    }
    fn usable(&self, _: usize) -> bool {
        false
    }
    fn any(&self) -> &dyn Any {
        &self.0
    }
}

/// Single elements, in their compressed or raw form.
struct El<T>(T, fn(&T) -> Vec<u8>, fn(&T) -> Result<(), String>);
impl<T: 'static> Back for El<T> {
    fn ser(&self) -> Vec<u8> {
        (self.1)(&self.0)
    }
    fn valid(&self) -> Result<(), String> {
        (self.2)(&self.0)
    }
    fn usable(&self, _: usize) -> bool {
        false
    }
    fn any(&self) -> &dyn Any {
        &self.0
    }
}

fn kzg_obj(p: Rc<ParamsKZG<Bn256>>, fname: &str) -> Obj {
    let f = format(fname);
    let q = p.clone();
    let k = Kzg((*p).clone(), f, false);
    Obj {
        name: format!("kzg parameters k={} {}", p.k, fname),
        bytes: k.ser(),
        checked: fname != "unchecked",
        write: Box::new(move |w| q.write_custom(w, f)),
        read: Box::new(move |r| Ok(Box::new(Kzg(ParamsKZG::read_custom(r, f)?, f, false)))),
        sizes: vec![(0, false)],
        unit: if fname == "processed" { 32 } else { 64 },
    }
}

fn shrunk_obj(p: &ParamsKZG<Bn256>) -> Obj {
    let mut s = p.clone();
    s.shrink(ckb_bf_base::SHRINK_K);
    let s = Rc::new(s);
    let f = SerdeFormat::RawBytes;
    Obj {
        name: format!("verifier parameters k={}", p.k),
        bytes: Kzg((*s).clone(), f, true).ser(),
        checked: true,
        write: Box::new(move |w| s.write(w)),
        read: Box::new(move |r| Ok(Box::new(Kzg(ckb_bf_base::utils::read_verifier_params(r)?, f, true)))),
        sizes: vec![(0, false)],
        unit: 64,
    }
}

fn ipa_obj<C: CurveAffine + 'static>(p: Rc<ParamsIPA<C>>, curve: &str) -> Obj
where
    IpaP<C>: Back,
{
    Obj {
        name: format!("ipa parameters on {} k={}", curve, p.k()),
        bytes: IpaP((*p).clone()).ser(),
        checked: true,
        write: {
            let p = p.clone();
            Box::new(move |w| p.write(w))
        },
        read: Box::new(move |r| Ok(Box::new(IpaP(ParamsIPA::<C>::read(r)?)))),
        sizes: vec![(0, false)],
        unit: 32,
    }
}

fn vk_obj<P: FloorPlanner + 'static>(vk: Rc<VerifyingKey<G1Affine>>, spec: Rc<Spec>, fname: &str, judge: Rc<dyn Fn(&VerifyingKey<G1Affine>, usize) -> bool>) -> Obj
where
    Circ<Fr, P>: Circuit<Fr, Config = Cfg>,
{
    let f = format(fname);
    let bytes = vk.to_bytes(f);
    let unit = if fname == "processed" { 32 } else { 64 };
    let points = vk.fixed_commitments().len() + vk.permutation().commitments().len();
    Obj {
        name: format!("verifying key {}", fname),
        sizes: vec![(0, true), (4, true), (8 + points * unit, true)],
        bytes,
        checked: fname != "unchecked",
        write: {
            let vk = vk.clone();
            Box::new(move |w| vk.write(w, f))
        },
        read: Box::new(move |r| {
            set_spec(&spec);
            Ok(Box::new(Vk(VerifyingKey::<G1Affine>::read::<_, Circ<Fr, P>>(r, f)?, f, judge.clone())))
        }),
        unit,
    }
}

fn pk_obj<P: FloorPlanner + 'static>(pk: Rc<ProvingKey<G1Affine>>, spec: Rc<Spec>, fname: &str) -> Obj
where
    Circ<Fr, P>: Circuit<Fr, Config = Cfg>,
{
    let f = format(fname);
    let bytes = pk.to_bytes(f);
    let v = pk.get_vk().to_bytes(f).len();
    let n = pk.get_vk().get_domain().k();
    let poly = 4 + (32usize << n);
    Obj {
        name: format!("proving key {}", fname),
        sizes: vec![(0, true), (4, true), (v, true), (v + poly, true), (v + 2 * poly, true), (v + 3 * poly, true), (v + 3 * poly + 4, true)],
        bytes,
        checked: fname != "unchecked",
        write: {
            let pk = pk.clone();
            Box::new(move |w| pk.write(w, f))
        },
        read: Box::new(move |r| {
            set_spec(&spec);
            Ok(Box::new(Pk(ProvingKey::<G1Affine>::read::<_, Circ<Fr, P>>(r, f)?, f)))
        }),
        unit: 32,
    }
}

fn read_repr<T: GroupEncoding>(r: &mut RDev) -> IoResult<T> {
    use halo2curves::io::Read as _;
    let mut b = T::Repr::default();
    r.read_exact(b.as_mut())?;
    Option::from(T::from_bytes(&b)).ok_or("invalid point")
}

fn el<T: Clone + 'static>(name: &str, v: T, ser: fn(&T) -> Vec<u8>, ok: fn(&T) -> Result<(), String>, read: fn(&mut RDev) -> IoResult<T>) -> Obj {
    use halo2curves::io::Write as _;
    let bytes = ser(&v);
    let unit = bytes.len();
    Obj {
        name: name.to_string(),
        bytes,
        checked: true,
        write: Box::new(move |w| w.write_all(&ser(&v))),
        read: Box::new(move |r| Ok(Box::new(El(read(r)?, ser, ok)))),
        sizes: vec![],
        unit,
    }
}

fn elements(r: &mut Rng) -> Vec<Obj> {
    let mut v = vec![];
    // the identity and small multiples come up often
    let mut s = |r: &mut Rng| r.below(14) as u64 * if r.chance(1, 2) { 1 } else { 0x1234567 };
    fn gp<T: GroupEncoding>(x: &T) -> Vec<u8> {
        x.to_bytes().as_ref().to_vec()
    }
    fn ok<T>(_: &T) -> Result<(), String> {
        Ok(())
    }
    let g1 = (G1Affine::generator() * scalar::<Fr>(s(r))).to_affine();
    let g2 = (G2Affine::generator() * scalar::<Fr>(s(r))).to_affine();
    v.push(el("g1 compressed", g1, gp, g1_ok, read_repr));
    v.push(el("g1 raw", g1, |x| x.to_raw_bytes(), g1_ok, |r| SerdeObject::read_raw(r)));
    v.push(el("g2 compressed", g2, gp, g2_ok, read_repr));
    v.push(el("g2 raw", g2, |x| x.to_raw_bytes(), g2_ok, |r| SerdeObject::read_raw(r)));
    v.push(el("g1 projective compressed", g1.to_curve(), gp, |x: &G1| g1_ok(&x.to_affine()), read_repr));
    v.push(el("g1 projective raw", g1.to_curve(), |x| x.to_raw_bytes(), |x: &G1| g1_ok(&x.to_affine()), |r| SerdeObject::read_raw(r)));
    v.push(el("g2 projective raw", g2.to_curve(), |x| x.to_raw_bytes(), |x: &G2| g2_ok(&x.to_affine()), |r| SerdeObject::read_raw(r)));
    v.push(el("eq compressed", point::<EqAffine>(s(r)), gp, generic_ok, read_repr));
    v.push(el("ep compressed", point::<EpAffine>(s(r)), gp, generic_ok, read_repr));
    v.push(el("secp256k1 compressed", point::<Secp256k1Affine>(s(r)), gp, generic_ok, read_repr));
    v.push(el(
        "secp256k1 raw",
        point::<Secp256k1Affine>(s(r)),
        |x| x.to_raw_bytes(),
        generic_ok,
        |r| SerdeObject::read_raw(r),
    ));
    v.push(el("fr raw", scalar::<Fr>(s(r)), |x| x.to_raw_bytes(), |x: &Fr| OWN.with(|o| mont(&x.to_raw_bytes(), &o.r).map(|_| ())), |r| SerdeObject::read_raw(r)));
    v.push(el("fq raw", scalar::<Fq>(s(r)), |x| x.to_raw_bytes(), |x: &Fq| OWN.with(|o| mont(&x.to_raw_bytes(), &o.p).map(|_| ())), |r| SerdeObject::read_raw(r)));
    let _ = ok::<u8>;
    v
}

// ---------------------------------------------------------------- faults

fn damage(b: &[u8], f: &J, o: &Obj) -> Option<Vec<u8>> {
    let mut v = b.to_vec();
    let n = f["n"].as_u64().unwrap() as usize;
    let m = f["m"].as_u64().unwrap() as usize;
    if v.is_empty() {
        return None;
    }
    let at = n % v.len();
    let u = o.unit;
    // blocks lie on the boundaries of elements, or of what a disk would lose
    let block = |x: usize| -> (usize, usize) {
        let off = o.sizes.first().map_or(0, |_| if o.sizes[0].1 { 8 } else { 4 });
        let c = (v.len().saturating_sub(off) / u).max(1);
        let s = (off + (x % c) * u).min(v.len());
        (s, (s + u).min(v.len()))
    };
    match f["t"].as_str().unwrap() {
        "flip" => v[at] ^= 1 << (m % 8),
        "byte" => v[at] = m as u8,
        "top" => {
            // the most significant bytes of an element, where flags and overflows live
            let (_, e) = block(n);
            v[e - 1] = match m % 6 {
                0 => 0xff,
                1 => v[e - 1] ^ 0x80,
                2 => v[e - 1] ^ 0x40,
                3 => v[e - 1] | 0x3f,
                4 => v[e - 1] ^ 0xc0,
                _ => m as u8,
            };
        }
        "zero" => {
            let (s, e) = block(n);
            v[s..e].iter_mut().for_each(|x| *x = 0);
        }
        "ones" => {
            let (s, e) = block(n);
            v[s..e].iter_mut().for_each(|x| *x = 0xff);
        }
        "modulus" => {
            // an element that is a modulus, or just above one
            let (s, e) = block(n);
            let p = OWN.with(|w| [w.p.clone(), w.r.clone()][m % 2].clone()) + (m / 2 % 3) as u32;
            let b = p.to_bytes_le();
            if e - s < 32 {
                return None;
            }
            let h = if m / 8 % 2 == 0 { s } else { e - 32 };
            v[h..h + 32].copy_from_slice(&b);
        }
        "swap" => {
            let (a, b) = (block(n), block(m));
            if a.1 - a.0 != b.1 - b.0 {
                return None;
            }
            for i in 0..a.1 - a.0 {
                v.swap(a.0 + i, b.0 + i);
            }
        }
        "copy" => {
            let (a, b) = (block(n), block(m));
            if a.1 - a.0 != b.1 - b.0 {
                return None;
            }
            v.copy_within(a.0..a.1, b.0);
        }
        "lose" => {
            let (s, e) = block(n);
            v.drain(s..e);
        }
        "dup" => {
            let (s, e) = block(n);
            let x = v[s..e].to_vec();
            let at = s;
            v.splice(at..at, x);
        }
        // without checks, a size is believed
        "size" if !o.checked => return None,
        "size" => {
            let (off, be) = *o.sizes.get(n % o.sizes.len().max(1))?;
            let s: [u8; 4] = v.get(off..off + 4)?.try_into().unwrap();
            let old = if be { u32::from_be_bytes(s) } else { u32::from_le_bytes(s) };
            let new = match m % 12 {
                0 => 0,
                1 => old.wrapping_add(1),
                2 => old.wrapping_sub(1),
                3 => 31,
                4 => 32,
                5 => 33,
                6 => old | 64,
                7 => old | 0x8000_0000,
                8 => u32::MAX,
                9 => 20 + (m / 12 % 12) as u32,
                10 => 1 << (m / 12 % 32),
                _ => old.swap_bytes(),
            };
            v[off..off + 4].copy_from_slice(&if be { new.to_be_bytes() } else { new.to_le_bytes() });
        }
        _ => return None,
    }
    if v == b {
        None
    } else {
        Some(v)
    }
}

const FAULTS: [&str; 15] =
    ["flip", "flip", "byte", "top", "zero", "ones", "modulus", "swap", "copy", "lose", "dup", "size", "cut", "full", "eio"];

fn faults(o: &mut Outcome, ob: &Obj, list: &[J]) {
    for f in list {
        let t = f["t"].as_str().unwrap();
        let n = f["n"].as_u64().unwrap() as usize;
        let len = ob.bytes.len();
        if len == 0 {
            continue;
        }
        o.cases += 1;
        o.steps += 1;
        let mut h = Hash::new();
        h.add(ob.name.as_bytes()).add(t.as_bytes()).num((n % len) as u64 % 97);
        match t {
            "cut" | "eio" => {
                let at = n % len;
                o.fault(if t == "cut" { "truncated stream" } else { "read error" });
                let mut d = if t == "cut" { RDev::new(ob.bytes[..at].to_vec(), None) } else { RDev::new(ob.bytes.clone(), Some(at)) };
                match catch(|| (ob.read)(&mut d).map(|_| ())) {
                    Ok(Ok(())) => o.fail("unnoticed", format!("{}: read although the stream {} at byte {} of {}", ob.name, if t == "cut" { "ends" } else { "fails" }, at, len)),
                    Ok(Err(_)) => {
                        h.num(1);
                    }
                    Err(e) if ob.checked => o.fail("panic", format!("{}: the stream {} at byte {} of {}: {}", ob.name, if t == "cut" { "ends" } else { "fails" }, at, len, e)),
                    Err(_) => {
                        h.num(2);
                    }
                }
            }
            "full" => {
                let at = n % len;
                o.fault("device full");
                let mut w = WDev::new(Some(at));
                match catch(|| (ob.write)(&mut w)) {
                    Ok(Ok(())) => o.fail("lost write", format!("{}: reported as written to a device with room for {} of {} bytes", ob.name, at, len)),
                    Ok(Err(_)) => {}
                    Err(e) => o.fail("panic", format!("{}: device full after {} of {} bytes: {}", ob.name, at, len, e)),
                }
            }
            _ => {
                let Some(b) = damage(&ob.bytes, f, ob) else { continue };
                o.fault(&format!("damage: {}", t));
                let first = b.iter().zip(&ob.bytes).position(|(x, y)| x != y).unwrap_or(b.len().min(len));
                let mut d = RDev::new(b, None);
                match catch(|| (ob.read)(&mut d)) {
                    Ok(Err(_)) => {
                        h.num(1);
                    }
                    Ok(Ok(x)) => {
                        h.num(3);
                        if !ob.checked {
                            o.keys.insert(h.0);
                            continue;
                        }
                        if d.pos() <= first {
                            // the damage lies behind the object
                            if d.pos() != len {
                                o.fail("unread", format!("{}: {} of {} bytes read", ob.name, d.pos(), len));
                            }
                            continue;
                        }
                        match catch(|| x.valid()).and_then(|x| x) {
                            Err(e) => o.fail("invalid", format!("{}: damage ({}) at byte {}: {}", ob.name, f, first, e)),
                            Ok(()) => {
                                if catch(|| x.ser()).map_or(true, |s| s == ob.bytes) {
                                    o.fail("taken for the original", format!("{}: damage ({}) at byte {}", ob.name, f, first));
                                }
                                if catch(|| x.usable(first)).unwrap_or(false) {
                                    o.fail("serves as the original", format!("{}: damage ({}) at byte {}: accepts the original's proof", ob.name, f, first));
                                }
                            }
                        }
                    }
                    Err(e) if ob.checked => o.fail("panic", format!("{}: damage ({}) at byte {} of {}: {}", ob.name, f, first, len, e)),
                    Err(_) => {
                        h.num(2);
                    }
                }
            }
        }
        o.keys.insert(h.0);
    }
}

/// Several objects in one stream: each reader takes its own bytes.
fn streams(o: &mut Outcome, obs: &[Obj], order: &[usize]) -> Vec<Option<Box<dyn Back>>> {
    let mut w = WDev::new(None);
    let mut out: Vec<Option<Box<dyn Back>>> = obs.iter().map(|_| None).collect();
    for i in order {
        let ob = &obs[*i];
        let before = w.bytes().len();
        match catch(|| (ob.write)(&mut w)) {
            Ok(Ok(())) => {}
            e => {
                o.fail("write", format!("{}: {:?}", ob.name, e));
                return out;
            }
        }
        if w.bytes()[before..] != ob.bytes[..] {
            o.fail("unstable", format!("{}: written twice, two results", ob.name));
        }
    }
    let all = w.bytes();
    let mut d = RDev::new(all, None);
    let mut at = 0;
    for i in order {
        let ob = &obs[*i];
        o.cases += 1;
        o.steps += 1;
        match catch(|| (ob.read)(&mut d)) {
            Ok(Ok(x)) => {
                at += ob.bytes.len();
                if d.pos() != at {
                    o.fail("consumption", format!("{}: reader at {} instead of {}", ob.name, d.pos(), at));
                    return out;
                }
                if catch(|| x.ser()).map_or(true, |s| s != ob.bytes) {
                    o.fail("round trip", format!("{}: the copy differs from the original", ob.name));
                }
                if let Err(e) = catch(|| x.valid()).and_then(|x| x) {
                    o.fail("invalid", format!("{}: {}", ob.name, e));
                }
                out[*i] = Some(x);
            }
            e => {
                o.fail("round trip", format!("{}: {:?}", ob.name, e.map(|x| x.map(|_| ()))));
                return out;
            }
        }
    }
    out
}

fn leak<T>(x: T) -> &'static T {
    Box::leak(Box::new(x))
}

// ---------------------------------------------------------------- sessions

fn keys<P: FloorPlanner + 'static>(o: &mut Outcome, plan: &J, spec: Rc<Spec>, pl: Place)
where
    Circ<Fr, P>: Circuit<Fr, Config = Cfg>,
{
    let w = plan["w"].as_u64().unwrap();
    let p = Shplonk::params(pl.k);
    let inst: Inst<Fr> = vec![instance::<Fr>(&spec, &pl, w)];
    set_spec(&spec);
    let c = circuit::<Fr, P>(&spec, &pl, w, &inst[0], &[]);
    let r = catch(|| {
        set_spec(&spec);
        let (vk, pk) = Shplonk::keygen(p, &c.without_witnesses())?;
        set_spec(&spec);
        let proof = Shplonk::prove(p, &pk, &[c.clone()], &inst, w)?;
        Shplonk::verify(p, &vk, &inst, &proof)?;
        Ok::<_, String>((vk, pk, proof))
    })
    .and_then(|x| x);
    let (vk, pk, proof) = match r {
        Ok(x) => x,
        Err(e) => {
            o.inconclusive = Some(format!("no proof: {}", e));
            return;
        }
    };
    let pinned = format!("{:?}", vk.pinned());
    let (vk, pk) = (Rc::new(vk), Rc::new(pk));
    let judge: Rc<dyn Fn(&VerifyingKey<G1Affine>, usize) -> bool> = {
        let (proof, inst, pinned) = (proof.clone(), inst.clone(), pinned.clone());
        // a circuit without constraints accepts anything
        let bare = ["gates: []", "lookups: []", "columns: []"].iter().all(|x| pinned.contains(x));
        // what replaces a selector that no gate uses does not matter
        let points = vk.fixed_commitments().len() + vk.permutation().commitments().len();
        Rc::new(move |v, first| !bare && (first < 8 + 32 * points || format!("{:?}", v.pinned()) != pinned) && catch(|| Shplonk::verify(p, v, &inst, &proof)).map_or(false, |x| x.is_ok()))
    };
    let mut obs = vec![];
    for (f, _) in FORMATS {
        obs.push(vk_obj::<P>(vk.clone(), spec.clone(), f, judge.clone()));
        obs.push(pk_obj::<P>(pk.clone(), spec.clone(), f));
    }
    let par = Rc::new(p.clone());
    obs.push(kzg_obj(par.clone(), FORMATS[(w % 3) as usize].0));
    obs.push(shrunk_obj(p));
    let mut r = Rng::new(plan["order"].as_u64().unwrap());
    let order: Vec<usize> = (0..r.range(4, 10)).map(|_| r.below(obs.len())).collect();
    let backs = streams(o, &obs, &order);
    // the copies in use
    let copy_p: &'static ParamsKZG<Bn256> = match &backs[6] {
        Some(b) => leak(b.any().downcast_ref::<ParamsKZG<Bn256>>().unwrap().clone()),
        None => p,
    };
    for (i, b) in backs.iter().enumerate().take(6) {
        let Some(b) = b else { continue };
        o.cases += 1;
        if let Some(v) = b.any().downcast_ref::<VerifyingKey<G1Affine>>() {
            if format!("{:?}", v.pinned()) != pinned {
                o.fail("round trip", format!("{}: the copy describes another circuit", obs[i].name));
            }
            for (_, f) in FORMATS {
                if v.to_bytes(f) != vk.to_bytes(f) {
                    o.fail("round trip", format!("{}: the copy differs when written as {:?}", obs[i].name, f));
                }
            }
            if let Err(e) = catch(|| Shplonk::verify(copy_p, v, &inst, &proof)).and_then(|x| x) {
                o.fail("not interchangeable", format!("{}: the copy rejects the original's proof: {} ({})", obs[i].name, e, describe(&spec, &pl)));
            }
            // and nothing else
            let mut bad = proof.clone();
            let x = r.below(bad.len());
            bad[x] ^= 1 << r.below(8);
            let a = catch(|| Shplonk::verify(p, &vk, &inst, &bad)).and_then(|x| x).is_ok();
            let b = catch(|| Shplonk::verify(copy_p, v, &inst, &bad)).and_then(|x| x).is_ok();
            if a != b {
                o.fail("not interchangeable", format!("{}: original and copy disagree on a damaged proof", obs[i].name));
            }
        }
        if let Some(q) = b.any().downcast_ref::<ProvingKey<G1Affine>>() {
            for (_, f) in FORMATS {
                if q.to_bytes(f) != pk.to_bytes(f) {
                    o.fail("round trip", format!("{}: the copy differs when written as {:?}", obs[i].name, f));
                }
            }
            set_spec(&spec);
            match catch(|| Shplonk::prove(copy_p, q, &[c.clone()], &inst, w)).and_then(|x| x) {
                Ok(x) if x == proof => {}
                Ok(x) => {
                    let v = Shplonk::verify(p, &vk, &inst, &x).is_ok();
                    o.fail("not interchangeable", format!("{}: the copy makes another proof from the same witness and randomness (accepted: {}; {})", obs[i].name, v, describe(&spec, &pl)));
                }
                Err(e) => o.fail("not interchangeable", format!("{}: the copy makes no proof: {} ({})", obs[i].name, e, describe(&spec, &pl))),
            }
        }
    }
    if let Some(b) = &backs[7] {
        let v = leak(b.any().downcast_ref::<ParamsKZG<Bn256>>().unwrap().clone());
        o.cases += 1;
        if let Err(e) = catch(|| Shplonk::verify(v, &vk, &inst, &proof)).and_then(|x| x) {
            o.fail("not interchangeable", format!("{}: the copy rejects the original's proof: {} ({})", obs[7].name, e, describe(&spec, &pl)));
        }
    }
    let i = plan["target"].as_u64().unwrap() as usize % obs.len();
    faults(o, &obs[i], plan["faults"].as_array().unwrap());
}

fn params(o: &mut Outcome, plan: &J) {
    let mut r = Rng::new(plan["order"].as_u64().unwrap());
    let k = plan["k"].as_u64().unwrap() as u32;
    let seed = plan["w"].as_u64().unwrap();
    let big = k + plan["more"].as_u64().unwrap() as u32;
    let mut obs = vec![];
    match plan["kind"].as_str().unwrap() {
        "kzg" => {
            let p = ParamsKZG::<Bn256>::setup(k, Rng::new(seed));
            // parameters cut down to a size are those of that size
            let mut q = ParamsKZG::<Bn256>::setup(big, Rng::new(seed));
            q.downsize(k);
            o.cases += 1;
            if Kzg(q, SerdeFormat::RawBytes, false).ser() != Kzg(p.clone(), SerdeFormat::RawBytes, false).ser() {
                o.fail("cut down", format!("kzg parameters for k={} cut down to k={} differ from those made for it", big, k));
            }
            let p = Rc::new(p);
            for (f, _) in FORMATS {
                obs.push(kzg_obj(p.clone(), f));
            }
            if k >= ckb_bf_base::SHRINK_K {
                obs.push(shrunk_obj(&p));
            }
        }
        "ipa-eq" => ipa::<EqAffine>(o, &mut obs, k, big, "eq"),
        "ipa-ep" => ipa::<EpAffine>(o, &mut obs, k, big, "ep"),
        _ => obs = elements(&mut Rng::new(seed)),
    }
    let order: Vec<usize> = (0..r.range(1, 6)).map(|_| r.below(obs.len())).collect();
    let backs = streams(o, &obs, &order);
    for (i, b) in backs.iter().enumerate() {
        if let Some(q) = b.as_ref().and_then(|b| b.any().downcast_ref::<ParamsKZG<Bn256>>()) {
            // the copy in every format
            for ob in &obs {
                if ob.name.starts_with("kzg") && obs[i].name.starts_with("kzg") {
                    let f = format(ob.name.rsplit(' ').next().unwrap());
                    if Kzg(q.clone(), f, false).ser() != ob.bytes {
                        o.fail("round trip", format!("{}: the copy differs when written as {:?}", obs[i].name, f));
                    }
                }
            }
        }
    }
    let t = plan["target"].as_u64().unwrap() as usize;
    let fs = plan["faults"].as_array().unwrap();
    for (j, f) in fs.iter().enumerate() {
        faults(o, &obs[(t + j) % obs.len()], &[f.clone()]);
    }
}

fn ipa<C: CurveAffine + 'static>(o: &mut Outcome, obs: &mut Vec<Obj>, k: u32, big: u32, name: &str) {
    let p = ParamsIPA::<C>::new(k);
    let mut q = ParamsIPA::<C>::new(big);
    q.downsize(k);
    o.cases += 1;
    if IpaP(q).ser() != IpaP(p.clone()).ser() {
        o.fail("cut down", format!("ipa parameters for k={} cut down to k={} differ from those made for it", big, k));
    }
    obs.push(ipa_obj(Rc::new(p), name));
}

pub struct C09;
impl Prop for C09 {
    fn id(&self) -> &'static str {
        "C09"
    }
    fn budget(&self, tier: Tier) -> Budget {
        match tier {
            Tier::Quick => Budget { runs: 1_000_000, secs: 25, workers: 8, timeout: 120, mem_mb: 6000 },
            Tier::Thorough => Budget { runs: 100_000_000, secs: 600, workers: 8, timeout: 120, mem_mb: 12000 },
        }
    }
    fn gen(&self, ctx: &Ctx, idx: u64) -> J {
        let mut r = Rng::new(run_seed(ctx.seed, "C09", idx));
        let kind = *r.pick(&["keys", "keys", "keys", "keys", "kzg", "kzg", "ipa-eq", "ipa-ep", "elements", "elements"]);
        let nf = if kind == "elements" { 40 } else { 20 };
        let fs: Vec<J> = (0..nf).map(|_| json!({"t": r.pick(&FAULTS), "n": r.below(1 << 24), "m": r.below(1 << 20)})).collect();
        json!({"kind": kind, "spec": r.u64() >> 12, "w": r.u64() >> 12, "order": r.u64() >> 12, "k": r.range(0, 5), "more": r.below(3),
               "target": r.below(1 << 20), "faults": fs})
    }
    fn exec(&self, _: &Ctx, plan: &J) -> Outcome {
        let mut o = Outcome::default();
        if plan["kind"] == "keys" {
            match build::<Fr>(plan["spec"].as_u64().unwrap(), size_of(&plan["size"])) {
                Err(e) => o.inconclusive = Some(e),
                Ok((spec, pl)) => {
                    if spec.v1 {
                        keys::<V1>(&mut o, plan, spec, pl)
                    } else {
                        keys::<SimpleFloorPlanner>(&mut o, plan, spec, pl)
                    }
                }
            }
        } else {
            params(&mut o, plan);
        }
        o.sample = Some(json!({"kind": plan["kind"], "faults": plan["faults"].as_array().unwrap().len()}));
        o
    }
    fn shrink(&self, plan: &J) -> Vec<J> {
        let mut v = vec![];
        let a = plan["faults"].as_array().unwrap();
        if a.len() > 1 {
            for half in [a[..a.len() / 2].to_vec(), a[a.len() / 2..].to_vec()] {
                let mut p = plan.clone();
                p["faults"] = json!(half);
                v.push(p);
            }
        }
        for i in 0..a.len() {
            let mut p = plan.clone();
            p["faults"].as_array_mut().unwrap().remove(i);
            v.push(p);
        }
        if plan["kind"] == "keys" {
            v.extend(crate::c13::shrink_size(plan));
        } else {
            for (f, lo) in [("k", 0), ("more", 0)] {
                let x = plan[f].as_u64().unwrap();
                if x > lo {
                    let mut p = plan.clone();
                    p[f] = json!(x - 1);
                    v.push(p);
                }
            }
        }
        v
    }
    fn rule(&self) -> String {
        "distinct (object and format, fault kind, fault position mod 97, result) combinations".into()
    }
    fn components(&self) -> J {
        json!({"real": ["write and read of ParamsKZG, ParamsIPA, VerifyingKey, ProvingKey and of curve and field elements", "read_verifier_params", "prover and verifier using the copies"],
               "stub": ["the storage under the readers and writers", "the circuits (random)"]})
    }
    fn assumptions(&self) -> Vec<String> {
        vec![
            "membership of points in the prime-order subgroup of the twist is not judged".into(),
            "keys on the pasta curves have no storage format, only their parameters do".into(),
            "the unchecked format may panic on a bad stream".into(),
        ]
    }
}
