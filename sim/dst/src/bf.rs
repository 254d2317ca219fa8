//! The Brainfuck side: reference model, program generator, honest and deviating traces, circuits.

use crate::core::{Hash, Rng};
use crate::rec::*;
use ckb_bf_base::main_config::MyCircuit;
use ckb_bf_vm::interpreter::Interpreter;
use ckb_bf_vm::matrix::{InstructionMatrixRow, Matrix, MemoryMatrixRow};
use ff::Field;
use halo2_proofs::circuit::{Layouter, Value};
use halo2_proofs::halo2curves::bn256::{Bn256, Fr, G1Affine};
use halo2_proofs::plonk::*;
use halo2_proofs::poly::commitment::ParamsProver;
use halo2_proofs::poly::kzg::commitment::{KZGCommitmentScheme, ParamsKZG};
use halo2_proofs::poly::kzg::multiopen::{ProverSHPLONK, VerifierSHPLONK};
use halo2_proofs::poly::kzg::strategy::SingleStrategy;
use halo2_proofs::transcript::{Blake2bRead, Blake2bWrite, Challenge255, TranscriptReadBuffer, TranscriptWriterBuffer};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};

// ---------------------------------------------------------------- reference model

/// Source text with brackets matched, independent of the repository's compiler.
#[derive(Clone, Debug)]
pub struct Program {
    pub ops: Vec<u8>,
    pub jump: Vec<usize>,
}

impl Program {
    pub fn parse(src: &[u8]) -> Option<Program> {
        let ops: Vec<u8> = src.iter().copied().filter(|c| b"<>+-,.[]".contains(c)).collect();
        let mut jump = vec![0; ops.len()];
        let mut stack = vec![];
        for (i, o) in ops.iter().enumerate() {
            if *o == b'[' {
                stack.push(i);
            } else if *o == b']' {
                let j = stack.pop()?;
                jump[i] = j;
                jump[j] = i;
            }
        }
        if stack.is_empty() {
            Some(Program { ops, jump })
        } else {
            None
        }
    }
    /// The linked form: one word per instruction, brackets followed by the address after the partner's
    /// operand. This is the public program of a transaction.
    pub fn words(&self) -> Vec<u64> {
        let mut addr = vec![];
        let mut a = 0u64;
        for o in &self.ops {
            addr.push(a);
            a += if *o == b'[' || *o == b']' { 2 } else { 1 };
        }
        let mut out = vec![];
        for (i, o) in self.ops.iter().enumerate() {
            out.push(*o as u64);
            if *o == b'[' || *o == b']' {
                out.push(addr[self.jump[i]] + 2);
            }
        }
        out
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum End {
    Halt,
    InputExhausted,
    Underflow,
    StepLimit,
}

#[derive(Clone, Debug)]
pub struct Ref {
    pub end: End,
    pub steps: usize,
    pub output: Vec<u64>,
    pub consumed: usize,
    /// (word address, cell index, cell value) before each step and after the last
    pub states: Vec<(u64, u64, u64)>,
    pub max_mp: usize,
    pub wrapped: bool,
}

pub fn reference(p: &Program, input: &[u8], bits: u32, cap: usize) -> Ref {
    let m = 1u64 << bits;
    let mut mem = vec![0u64];
    let (mut pc, mut mp, mut inp) = (0usize, 0usize, 0usize);
    let words_at: Vec<u64> = {
        let mut v = vec![];
        let mut a = 0;
        for o in &p.ops {
            v.push(a);
            a += if *o == b'[' || *o == b']' { 2 } else { 1 };
        }
        v.push(a);
        v
    };
    let mut r = Ref { end: End::Halt, steps: 0, output: vec![], consumed: 0, states: vec![], max_mp: 0, wrapped: false };
    loop {
        r.states.push((words_at[pc], mp as u64, mem[mp]));
        r.max_mp = r.max_mp.max(mp);
        if pc >= p.ops.len() {
            break;
        }
        if r.steps >= cap {
            r.end = End::StepLimit;
            break;
        }
        match p.ops[pc] {
            b'>' => {
                mp += 1;
                if mp == mem.len() {
                    mem.push(0);
                }
                pc += 1;
            }
            b'<' => {
                if mp == 0 {
                    r.end = End::Underflow;
                    break;
                }
                mp -= 1;
                pc += 1;
            }
            b'+' => {
                r.wrapped |= mem[mp] == m - 1;
                mem[mp] = (mem[mp] + 1) % m;
                pc += 1;
            }
            b'-' => {
                r.wrapped |= mem[mp] == 0;
                mem[mp] = (mem[mp] + m - 1) % m;
                pc += 1;
            }
            b'.' => {
                r.output.push(mem[mp]);
                pc += 1;
            }
            b',' => {
                if inp >= input.len() {
                    r.end = End::InputExhausted;
                    break;
                }
                mem[mp] = input[inp] as u64;
                inp += 1;
                pc += 1;
            }
            b'[' => pc = if mem[mp] == 0 { p.jump[pc] + 1 } else { pc + 1 },
            _ => pc = if mem[mp] != 0 { p.jump[pc] + 1 } else { pc + 1 },
        }
        r.steps += 1;
    }
    r.consumed = inp;
    r
}

// ---------------------------------------------------------------- program generator

fn gen_block(rng: &mut Rng, depth: usize, len: usize, weights: &[usize; 8], out: &mut Vec<u8>) {
    let total: usize = weights.iter().sum();
    let mut i = 0;
    while i < len {
        let mut x = rng.below(total);
        let mut k = 0;
        while x >= weights[k] {
            x -= weights[k];
            k += 1;
        }
        match k {
            6 | 7 => {
                if depth > 0 {
                    out.push(b'[');
                    let l = rng.below(4);
                    if rng.chance(1, 2) {
                        // counting loop: ends
                        out.push(b'-');
                        let start = out.len();
                        gen_block(rng, depth - 1, l, weights, out);
                        // balance pointer moves
                        let d: i64 = out[start..]
                            .iter()
                            .map(|c| match c {
                                b'>' => 1,
                                b'<' => -1,
                                _ => 0,
                            })
                            .sum();
                        for _ in 0..d.abs() {
                            out.push(if d > 0 { b'<' } else { b'>' });
                        }
                    } else {
                        gen_block(rng, depth - 1, l, weights, out);
                    }
                    out.push(b']');
                }
            }
            _ => out.push(b"<>+-,."[k]),
        }
        i += 1;
    }
}

/// A program and an input on which it halts having read all of it, with
/// code words + steps <= budget. Retries from the same stream until one fits.
pub fn gen_case(rng: &mut Rng, bits: u32, budget: usize) -> (Vec<u8>, Vec<u8>) {
    loop {
        let mut w = [3usize, 4, 6, 3, 2, 2, 2, 2];
        for x in w.iter_mut() {
            // swarm: some instructions are rare or absent in a run
            if rng.chance(1, 4) {
                *x = if rng.chance(1, 2) { 0 } else { *x * 3 };
            }
        }
        if w[2] + w[1] + w[3] + w[4] == 0 {
            w[2] = 3;
        }
        let len = 1 + rng.below(budget / 3 + 1);
        let mut src = vec![];
        gen_block(rng, 2, len, &w, &mut src);
        if src.is_empty() {
            continue;
        }
        let p = match Program::parse(&src) {
            Some(p) => p,
            None => continue,
        };
        let words = p.words().len();
        if words + 3 > budget {
            continue;
        }
        let pool: Vec<u8> = (0..64)
            .map(|_| match rng.below(5) {
                0 => 0,
                1 => 1,
                2 => ((1u32 << bits) - 1) as u8,
                _ => (rng.u64() as u32 & ((1u32 << bits) - 1)) as u8,
            })
            .collect();
        let r = reference(&p, &pool, bits, budget - words);
        if r.end != End::Halt || words + r.steps > budget {
            continue;
        }
        return (src, pool[..r.consumed].to_vec());
    }
}

/// A program and an input whose run is not a valid one: it leaves the tape, lacks input, leaves input
/// unread or does not end. No claim about it may be accepted.
pub fn gen_invalid(rng: &mut Rng, bits: u32, budget: usize) -> (Vec<u8>, Vec<u8>) {
    loop {
        let (src, mut input) = gen_case(rng, bits, budget);
        let mut s = src.clone();
        match rng.below(5) {
            0 => {
                // leave the tape
                let i = rng.below(s.len() + 1);
                if Program::parse(&s[..i]).is_some() {
                    let n = 1 + rng.below(2);
                    for _ in 0..n {
                        s.insert(i, b'<');
                    }
                    if rng.chance(2, 3) {
                        for _ in 0..n {
                            s.push(b'>');
                        }
                    }
                } else {
                    continue;
                }
            }
            1 => {
                let i = rng.below(s.len() + 1);
                s.insert(i, b',');
            }
            2 => {
                let extra = rng.below(1 << bits) as u8;
                let i = rng.below(input.len() + 1);
                input.insert(i, if rng.chance(1, 2) { 0 } else { extra });
            }
            3 => {
                let i = rng.below(s.len() + 1);
                s.splice(i..i, *b"+[]");
            }
            _ => {
                if input.is_empty() {
                    continue;
                }
                input.pop();
            }
        }
        let p = match Program::parse(&s) {
            Some(p) => p,
            None => continue,
        };
        let r = reference(&p, &input, bits, 300);
        if r.end == End::Halt && r.consumed == input.len() {
            continue;
        }
        return (s, input);
    }
}

// ---------------------------------------------------------------- matrices

/// Runs the repository's interpreter.
pub fn honest_matrix(src: &[u8], input: &[u8], bits: u32) -> Matrix {
    let mut vm = Interpreter::new();
    vm.set_bits(bits as u64);
    vm.set_code(ckb_bf_vm::code::compile(src.to_vec()));
    vm.set_input(input.iter().map(|x| Fr::from(*x as u64)).collect());
    vm.run();
    vm.matrix
}

pub fn instances(words: &[u64], input: &[u8]) -> Vec<Vec<Fr>> {
    let mut a = vec![Fr::from(words.len() as u64)];
    a.extend(words.iter().map(|x| Fr::from(*x)));
    let mut b = vec![Fr::from(input.len() as u64)];
    b.extend(input.iter().map(|x| Fr::from(*x as u64)));
    vec![a, b]
}

pub fn clone_matrix(m: &Matrix) -> Matrix {
    Matrix {
        processor_matrix: m.processor_matrix.clone(),
        instruction_matrix: m
            .instruction_matrix
            .iter()
            .map(|r| InstructionMatrixRow {
                instruction_pointer: r.instruction_pointer,
                current_instruction: r.current_instruction,
                next_instruction: r.next_instruction,
            })
            .collect(),
        memory_matrix: m
            .memory_matrix
            .iter()
            .map(|r| MemoryMatrixRow {
                cycle: r.cycle,
                memory_pointer: r.memory_pointer,
                memory_value: r.memory_value,
                interweave_indicator: r.interweave_indicator,
            })
            .collect(),
        input_matrix: m.input_matrix.clone(),
        output_matrix: m.output_matrix.clone(),
        program: m.program.clone(),
    }
}

/// A canonical dump: registers as (clk, ip, ci, ni, mp, mv, mvi), tables, lengths.
pub fn dump_matrix(m: &Matrix) -> Vec<Vec<Fr>> {
    let mut v = vec![];
    for r in &m.processor_matrix {
        v.push(vec![
            r.cycle,
            r.instruction_pointer,
            r.current_instruction,
            r.next_instruction,
            r.memory_pointer,
            r.memory_value,
            r.memory_value_inverse,
        ]);
    }
    for r in &m.memory_matrix {
        v.push(vec![Fr::from(1001), r.cycle, r.memory_pointer, r.memory_value]);
    }
    for r in &m.instruction_matrix {
        v.push(vec![Fr::from(1002), r.instruction_pointer, r.current_instruction, r.next_instruction]);
    }
    v.push(m.output_matrix.clone());
    v.push(vec![Fr::from(m.input_matrix.len() as u64), Fr::from(m.program.len() as u64)]);
    v
}

pub fn small(f: Fr) -> i64 {
    // readable form of a small (possibly negative) field element
    use halo2_proofs::arithmetic::FieldExt;
    let a = f.get_lower_128();
    let b = (-f).get_lower_128();
    if f == Fr::from_u128(a) && a < 1 << 40 {
        a as i64
    } else if -f == Fr::from_u128(b) && b < 1 << 40 {
        -(b as i64)
    } else {
        i64::MAX
    }
}

pub fn fr(i: i64) -> Fr {
    if i >= 0 {
        Fr::from(i as u64)
    } else {
        -Fr::from((-i) as u64)
    }
}

// ---------------------------------------------------------------- circuits and proofs

#[derive(Default)]
pub struct Evil<const R: usize>(pub MyCircuit<Fr, R>);

impl<const R: usize> Circuit<Fr> for Evil<R> {
    type Config = <MyCircuit<Fr, R> as Circuit<Fr>>::Config;
    type FloorPlanner = EvilPlanner;
    fn without_witnesses(&self) -> Self {
        Evil(self.0.without_witnesses())
    }
    fn configure(meta: &mut ConstraintSystem<Fr>) -> Self::Config {
        MyCircuit::<Fr, R>::configure(meta)
    }
    fn synthesize(&self, config: Self::Config, layouter: impl Layouter<Fr>) -> Result<(), Error> {
        self.0.synthesize(config, layouter)
    }
}

/// What the deviating prover does to the witness while the real prover runs.
#[derive(Clone)]
pub struct Tampering {
    pub sys: System<Fr>,
    pub k: u32,
    pub cells: BTreeMap<(usize, usize), Fr>,
    pub solve: bool,
    pub instance: Vec<Vec<Fr>>,
}

thread_local! {
    static TAMPER: RefCell<Option<Tampering>> = RefCell::new(None);
    static CONSTANTS: RefCell<Option<Vec<Column<Fixed>>>> = RefCell::new(None);
}

#[derive(Debug)]
pub struct EvilPlanner;

type RealPlanner = <MyCircuit<Fr, 16> as Circuit<Fr>>::FloorPlanner;

fn cast<A: 'static + Copy, B: 'static + Copy>(a: A) -> B {
    assert_eq!(std::any::TypeId::of::<A>(), std::any::TypeId::of::<B>());
    unsafe { std::mem::transmute_copy::<A, B>(&a) }
}

impl FloorPlanner for EvilPlanner {
    fn synthesize<F: Field, CS: Assignment<F>, C: Circuit<F>>(
        cs: &mut CS,
        circuit: &C,
        config: C::Config,
        constants: Vec<Column<Fixed>>,
    ) -> Result<(), Error> {
        CONSTANTS.with(|c| *c.borrow_mut() = Some(constants.clone()));
        let tamper = TAMPER.with(|t| t.borrow().clone());
        let tamper = match tamper {
            None => return RealPlanner::synthesize(cs, circuit, config, constants),
            Some(t) => t,
        };
        // What would the circuit assign, given what is known in this round?
        let unknown = std::cell::Cell::new(false);
        let mut over: BTreeMap<(usize, usize), F> = BTreeMap::new();
        for (c, v) in &tamper.cells {
            over.insert(*c, cast::<Fr, F>(*v));
        }
        {
            let cs_ref: &CS = cs;
            let oracle = |c: Challenge| {
                let v = cs_ref.get_challenge(c);
                if v.is_none() {
                    unknown.set(true);
                }
                // Fr only: the harness never uses this planner for another field.
                let mut out = Value::unknown();
                v.map(|x| out = Value::known(cast::<F, Fr>(x)));
                out
            };
            let oracle2 = |c: Challenge| -> Value<F> {
                let mut out = Value::unknown();
                oracle(c).map(|x: Fr| out = Value::known(cast::<Fr, F>(x)));
                out
            };
            let inst: Vec<Vec<F>> =
                tamper.instance.iter().map(|c| c.iter().map(|x| cast::<Fr, F>(*x)).collect()).collect();
            // System<F> from System<Fr>: same type in disguise.
            let sys: &System<F> = unsafe { &*(&tamper.sys as *const System<Fr> as *const System<F>) };
            let mut rec = Rec::<F>::new(sys, tamper.k, inst, &oracle2);
            RealPlanner::synthesize(&mut rec, circuit, config.clone(), constants.clone())?;
            let mut t = rec.done();
            if tamper.solve && !unknown.get() {
                for ((c, r), v) in &over {
                    t.advice[*c][*r] = Some(*v);
                }
                let cols: BTreeSet<usize> = (0..sys.n_advice).filter(|c| sys.phase[*c] > 0).collect();
                let fixed: BTreeSet<(usize, usize)> = over.keys().copied().collect();
                let before = t.clone();
                solve(sys, &mut t, &cols, &fixed);
                for c in cols {
                    for r in 0..t.usable {
                        if t.advice[c][r] != before.advice[c][r] {
                            if let Some(v) = t.advice[c][r] {
                                over.insert((c, r), v);
                            }
                        }
                    }
                }
            }
        }
        let mut w = Wrap { inner: cs, over, done: BTreeSet::new(), cols: BTreeMap::new() };
        RealPlanner::synthesize(&mut w, circuit, config, constants)?;
        let Wrap { inner, over, done, cols } = w;
        for (cell, v) in over {
            if !done.contains(&cell) {
                if let Some(col) = cols.get(&cell.0) {
                    inner.assign_advice(|| "tampered", *col, cell.1, || Value::known(v))?;
                }
            }
        }
        Ok(())
    }
}

struct Wrap<'a, F: Field, CS: Assignment<F>> {
    inner: &'a mut CS,
    over: BTreeMap<(usize, usize), F>,
    done: BTreeSet<(usize, usize)>,
    cols: BTreeMap<usize, Column<Advice>>,
}

impl<'a, F: Field, CS: Assignment<F>> Assignment<F> for Wrap<'a, F, CS> {
    fn enter_region<NR, N>(&mut self, n: N)
    where
        NR: Into<String>,
        N: FnOnce() -> NR,
    {
        self.inner.enter_region(n)
    }
    fn annotate_column<A, AR>(&mut self, a: A, c: Column<Any>)
    where
        A: FnOnce() -> AR,
        AR: Into<String>,
    {
        self.inner.annotate_column(a, c)
    }
    fn exit_region(&mut self) {
        self.inner.exit_region()
    }
    fn enable_selector<A, AR>(&mut self, a: A, s: &Selector, row: usize) -> Result<(), Error>
    where
        A: FnOnce() -> AR,
        AR: Into<String>,
    {
        self.inner.enable_selector(a, s, row)
    }
    fn query_instance(&self, column: Column<Instance>, row: usize) -> Result<Value<F>, Error> {
        self.inner.query_instance(column, row)
    }
    fn assign_advice<V, VR, A, AR>(&mut self, a: A, column: Column<Advice>, row: usize, to: V) -> Result<(), Error>
    where
        V: FnOnce() -> Value<VR>,
        VR: Into<Assigned<F>>,
        A: FnOnce() -> AR,
        AR: Into<String>,
    {
        self.cols.insert(column.index(), column);
        match self.over.get(&(column.index(), row)) {
            Some(v) => {
                let v = *v;
                self.done.insert((column.index(), row));
                self.inner.assign_advice(a, column, row, || Value::known(v))
            }
            None => self.inner.assign_advice(a, column, row, to),
        }
    }
    fn assign_fixed<V, VR, A, AR>(&mut self, a: A, column: Column<Fixed>, row: usize, to: V) -> Result<(), Error>
    where
        V: FnOnce() -> Value<VR>,
        VR: Into<Assigned<F>>,
        A: FnOnce() -> AR,
        AR: Into<String>,
    {
        self.inner.assign_fixed(a, column, row, to)
    }
    fn copy(&mut self, lc: Column<Any>, lr: usize, rc: Column<Any>, rr: usize) -> Result<(), Error> {
        self.inner.copy(lc, lr, rc, rr)
    }
    fn fill_from_row(&mut self, column: Column<Fixed>, row: usize, to: Value<Assigned<F>>) -> Result<(), Error> {
        self.inner.fill_from_row(column, row, to)
    }
    fn get_challenge(&self, c: Challenge) -> Value<F> {
        self.inner.get_challenge(c)
    }
    fn push_namespace<NR, N>(&mut self, n: N)
    where
        NR: Into<String>,
        N: FnOnce() -> NR,
    {
        self.inner.push_namespace(n)
    }
    fn pop_namespace(&mut self, n: Option<String>) {
        self.inner.pop_namespace(n)
    }
}

/// Fixed columns the circuit uses for constants (private to the constraint system): caught from a
/// synthesis run by the mock prover.
pub fn constants<const R: usize>(m: Matrix, k: u32, inst: Vec<Vec<Fr>>) -> Vec<Column<Fixed>> {
    if let Some(c) = CONSTANTS.with(|c| c.borrow().clone()) {
        return c;
    }
    let params = params(k);
    let _ = inst;
    let _ = keygen_vk(&params, &Evil::<R>(MyCircuit::new(m)));
    CONSTANTS.with(|c| c.borrow().clone()).expect("constants")
}

pub struct Shape<const R: usize> {
    pub sys: System<Fr>,
    pub config: <MyCircuit<Fr, R> as Circuit<Fr>>::Config,
}

pub fn shape<const R: usize>() -> Shape<R> {
    let mut cs = ConstraintSystem::default();
    let config = MyCircuit::<Fr, R>::configure(&mut cs);
    Shape { sys: system(&cs), config }
}

/// Records what the circuit commits to for a matrix and statement, under given challenges.
pub fn record<const R: usize>(
    sh: &Shape<R>,
    m: &Matrix,
    k: u32,
    inst: &[Vec<Fr>],
    chal_seed: u64,
) -> Result<Trace<Fr>, Error> {
    let consts = constants::<R>(clone_matrix(m), k, inst.to_vec());
    let oracle = move |c: Challenge| Value::known(challenge_value(chal_seed, c.index()));
    let mut rec = Rec::new(&sh.sys, k, inst.to_vec(), &oracle);
    let circuit = Evil::<R>(MyCircuit::new(clone_matrix(m)));
    RealPlanner::synthesize(&mut rec, &circuit, sh.config.clone(), consts)?;
    Ok(rec.done())
}

pub fn challenge_value(seed: u64, i: usize) -> Fr {
    let mut h = Hash::new();
    h.num(seed).num(i as u64);
    Fr::random(Rng::new(h.0))
}

pub fn params(k: u32) -> ParamsKZG<Bn256> {
    thread_local! {
        static P: RefCell<BTreeMap<u32, ParamsKZG<Bn256>>> = RefCell::new(BTreeMap::new());
    }
    P.with(|p| p.borrow_mut().entry(k).or_insert_with(|| ParamsKZG::<Bn256>::unsafe_setup_with_s(k, Fr::from(42))).clone())
}

pub fn prove<C: Circuit<Fr>>(
    params: &ParamsKZG<Bn256>,
    pk: &ProvingKey<G1Affine>,
    circuit: C,
    inst: &[Vec<Fr>],
    rng: Rng,
) -> Result<Vec<u8>, Error> {
    let refs: Vec<&[Fr]> = inst.iter().map(|v| &v[..]).collect();
    let mut tr = Blake2bWrite::<_, G1Affine, Challenge255<_>>::init(vec![]);
    create_proof::<
        KZGCommitmentScheme<Bn256>,
        ProverSHPLONK<'_, Bn256>,
        Challenge255<G1Affine>,
        _,
        Blake2bWrite<Vec<u8>, G1Affine, Challenge255<G1Affine>>,
        C,
    >(params, pk, &[circuit], &[&refs], rng, &mut tr)?;
    Ok(tr.finalize())
}

pub fn verify(params: &ParamsKZG<Bn256>, vk: &VerifyingKey<G1Affine>, inst: &[Vec<Fr>], proof: &[u8]) -> bool {
    let refs: Vec<&[Fr]> = inst.iter().map(|v| &v[..]).collect();
    let mut tr = Blake2bRead::<_, G1Affine, Challenge255<_>>::init(proof);
    crate::core::catch(|| {
        verify_proof::<
            KZGCommitmentScheme<Bn256>,
            VerifierSHPLONK<'_, Bn256>,
            Challenge255<G1Affine>,
            Blake2bRead<&[u8], G1Affine, Challenge255<G1Affine>>,
            SingleStrategy<'_, Bn256>,
        >(params.verifier_params(), vk, SingleStrategy::new(params.verifier_params()), &[&refs], &mut tr)
        .is_ok()
    })
    .unwrap_or(false)
}

pub enum Real {
    Accepted,
    Rejected,
    NoProof(String),
}

/// Key generation, proof and verification by the real code, with the witness tampered on the way.
pub fn real_run<const R: usize>(
    m: &Matrix,
    k: u32,
    inst: &[Vec<Fr>],
    tamper: Option<Tampering>,
    rng_seed: u64,
) -> Real {
    let params = params(k);
    TAMPER.with(|t| *t.borrow_mut() = None);
    let r = crate::core::catch(|| {
        let vk = keygen_vk(&params, &Evil::<R>(MyCircuit::new(clone_matrix(m)))).map_err(|e| format!("keygen {:?}", e))?;
        let pk = keygen_pk(&params, vk, &Evil::<R>(MyCircuit::new(clone_matrix(m)))).map_err(|e| format!("keygen {:?}", e))?;
        TAMPER.with(|t| *t.borrow_mut() = tamper);
        let p = prove(&params, &pk, Evil::<R>(MyCircuit::new(clone_matrix(m))), inst, Rng::new(rng_seed));
        TAMPER.with(|t| *t.borrow_mut() = None);
        let p = p.map_err(|e| format!("create_proof {:?}", e))?;
        Ok::<bool, String>(verify(&params, pk.get_vk(), inst, &p))
    });
    TAMPER.with(|t| *t.borrow_mut() = None);
    match r {
        Ok(Ok(true)) => Real::Accepted,
        Ok(Ok(false)) => Real::Rejected,
        Ok(Err(e)) => Real::NoProof(e),
        Err(e) => Real::NoProof(format!("panic {}", e)),
    }
}

/// Smallest k whose domain holds the tables of a trace.
pub fn min_k<const R: usize>(sh: &Shape<R>, m: &Matrix, inst: &[Vec<Fr>]) -> u32 {
    let longest = [
        m.instruction_matrix.len() + 1,
        m.processor_matrix.len() + 1,
        m.memory_matrix.len() + 2,
        m.output_matrix.len() + 1,
        inst.iter().map(|v| v.len()).max().unwrap_or(0) + 1,
        R,
        // constants column
        12,
    ]
    .into_iter()
    .max()
    .unwrap();
    let mut k = 4;
    while (1usize << k) < longest + sh.sys.unusable {
        k += 1;
    }
    k
}

