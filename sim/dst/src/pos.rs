//! A plain Poseidon: constants from the Grain generator, rounds as defined, no shortcuts.

use halo2curves::FieldExt;
use std::collections::VecDeque;

pub struct Grain(VecDeque<bool>);

impl Grain {
    pub fn new(field_bits: u32, t: usize, rf: usize, rp: usize) -> Self {
        let mut s = VecDeque::new();
        for (width, v) in [(2, 1u64), (4, 0), (12, field_bits as u64), (12, t as u64), (10, rf as u64), (10, rp as u64), (30, (1 << 30) - 1)] {
            for i in (0..width).rev() {
                s.push_back(v >> i & 1 == 1);
            }
        }
        let mut g = Grain(s);
        for _ in 0..160 {
            g.step();
        }
        g
    }
    fn step(&mut self) -> bool {
        let b = [62, 51, 38, 23, 13, 0].iter().fold(false, |a, i| a ^ self.0[*i]);
        self.0.pop_front();
        self.0.push_back(b);
        b
    }
    fn bit(&mut self) -> bool {
        loop {
            let keep = self.step();
            let b = self.step();
            if keep {
                return b;
            }
        }
    }
    fn bytes(&mut self, n: u32) -> [u8; 64] {
        let mut v = [0u8; 64];
        for i in (0..n as usize).rev() {
            if self.bit() {
                v[i / 8] |= 1 << (i % 8);
            }
        }
        v
    }
    pub fn element<F: FieldExt>(&mut self) -> F {
        loop {
            let b = self.bytes(F::NUM_BITS);
            let mut r = F::Repr::default();
            let n = r.as_ref().len();
            r.as_mut().copy_from_slice(&b[..n]);
            if let Some(x) = Option::from(F::from_repr(r)) {
                return x;
            }
        }
    }
    pub fn reduced<F: FieldExt>(&mut self) -> F {
        let b = self.bytes(F::NUM_BITS);
        // horner over bytes
        b.iter().rev().fold(F::zero(), |a, x| a * F::from(256) + F::from(*x as u64))
    }
}

#[derive(Clone)]
pub struct Ref<F> {
    pub t: usize,
    pub rf: usize,
    pub rp: usize,
    pub rc: Vec<Vec<F>>,
    pub mds: Vec<Vec<F>>,
}

impl<F: FieldExt> Ref<F> {
    pub fn new(t: usize, rf: usize, rp: usize) -> Self {
        let mut g = Grain::new(F::NUM_BITS, t, rf, rp);
        let rc = (0..rf + rp).map(|_| (0..t).map(|_| g.element()).collect()).collect();
        let xs: Vec<F> = (0..t).map(|_| g.reduced()).collect();
        let ys: Vec<F> = (0..t).map(|_| g.reduced()).collect();
        let mds = xs.iter().map(|x| ys.iter().map(|y| (*x + *y).invert().unwrap()).collect()).collect();
        Ref { t, rf, rp, rc, mds }
    }
    pub fn permute(&self, s: &mut Vec<F>) {
        for (i, rc) in self.rc.iter().enumerate() {
            for (w, c) in s.iter_mut().zip(rc) {
                *w += *c;
            }
            let full = i < self.rf / 2 || i >= self.rf / 2 + self.rp;
            for w in s.iter_mut().take(if full { self.t } else { 1 }) {
                *w = w.pow_vartime([5]);
            }
            *s = self.mds.iter().map(|r| r.iter().zip(s.iter()).fold(F::zero(), |a, (m, w)| a + *m * *w)).collect();
        }
    }
}
