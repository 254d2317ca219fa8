//! Deviating provers: traces that claim an execution which did not happen, made as consistent as
//! possible over all tables.

use crate::bf::*;
use crate::core::Rng;
use ckb_bf_vm::interpreter::Register;
use ckb_bf_vm::matrix::{InstructionMatrixRow, Matrix, MemoryMatrixRow};
use ff::Field;
use halo2_proofs::halo2curves::bn256::Fr;
use std::collections::BTreeMap;

pub const KINDS: &[&str] = &[
    "cell", "poke", "lostwrite", "glitch", "branch", "target", "fetch", "fetchni", "mp", "input", "output", "init",
    "early", "late", "clk", "segment", "memrow", "instrow", "program", "statement", "arith", "mvi", "field",
    "fieldonly", "row", "table", "double", "shift", "halt", "noinput", "offset", "tail",
];

struct Dev {
    kind: String,
    t: usize,
    rng: Rng,
    fired: bool,
}

pub struct Forged {
    /// the statement the prover's own cells are made from, where it differs from the public one
    pub own: Option<Vec<Vec<Fr>>>,
    pub m: Matrix,
    pub inst: Vec<Vec<Fr>>,
    pub what: String,
}

fn mvi(v: Fr) -> Fr {
    v.invert().unwrap_or(Fr::zero())
}

fn value(rng: &mut Rng, bits: u32, cur: Fr) -> Fr {
    let m = 1i64 << bits;
    match rng.below(10) {
        0 => cur + Fr::one(),
        1 => cur - Fr::one(),
        2 => Fr::zero(),
        3 => fr(m - 1),
        4 => fr(m),
        5 => cur - fr(m - 1),
        6 => cur + fr(m - 1),
        7 => -Fr::one(),
        8 => Fr::random(&mut *rng),
        _ => fr(rng.below(m as usize) as i64),
    }
}

fn small_value(rng: &mut Rng, bits: u32, cur: Fr) -> Fr {
    let m = 1usize << bits;
    loop {
        let v = match rng.below(4) {
            0 => cur + Fr::one(),
            1 => cur - Fr::one(),
            2 => Fr::zero(),
            _ => fr(rng.below(m) as i64),
        };
        let s = small(v);
        if s >= 0 && s < m as i64 && v != cur {
            return v;
        }
        if m == 1 {
            return v;
        }
    }
}

/// Tables of a trace, from its registers.
pub fn tables(words: &[Fr], regs: Vec<Register>, input: Vec<Fr>, output: Vec<Fr>) -> Matrix {
    let mut im: Vec<InstructionMatrixRow> = vec![];
    for i in 0..words.len() {
        im.push(InstructionMatrixRow {
            instruction_pointer: fr(i as i64),
            current_instruction: words[i],
            next_instruction: words.get(i + 1).copied().unwrap_or(Fr::zero()),
        });
    }
    for r in &regs {
        im.push(InstructionMatrixRow {
            instruction_pointer: r.instruction_pointer,
            current_instruction: r.current_instruction,
            next_instruction: r.next_instruction,
        });
    }
    im.sort_by_key(|r| small(r.instruction_pointer));
    let mut mm: Vec<MemoryMatrixRow> = regs
        .iter()
        .map(|r| MemoryMatrixRow {
            cycle: r.cycle,
            memory_pointer: r.memory_pointer,
            memory_value: r.memory_value,
            interweave_indicator: Fr::zero(),
        })
        .collect();
    mm.sort_by_key(|r| small(r.memory_pointer));
    Matrix {
        processor_matrix: regs,
        instruction_matrix: im,
        memory_matrix: mm,
        input_matrix: input,
        output_matrix: output,
        program: words.to_vec(),
    }
}

/// Orders the visits of each cell so that every visit starts with the value the previous one ended with,
/// if there is such an order: the history a deviating prover would claim.
fn chain_memory(m: &mut Matrix) {
    let mut groups: BTreeMap<i64, Vec<Vec<MemoryMatrixRow>>> = BTreeMap::new();
    let rows = std::mem::take(&mut m.memory_matrix);
    for r in rows {
        let g = groups.entry(small(r.memory_pointer)).or_default();
        let new = match g.last().and_then(|s| s.last()) {
            Some(p) => r.cycle != p.cycle + Fr::one(),
            None => true,
        };
        if new {
            g.push(vec![r]);
        } else {
            g.last_mut().unwrap().push(r);
        }
    }
    for (_, mut segs) in groups {
        let n = segs.len();
        let ends: Vec<(Fr, Fr)> =
            segs.iter().map(|s| (s[0].memory_value, s[s.len() - 1].memory_value)).collect();
        fn dfs(ends: &[(Fr, Fr)], used: &mut Vec<bool>, order: &mut Vec<usize>, cur: Fr, fuel: &mut usize) -> bool {
            if order.len() == ends.len() {
                return true;
            }
            if *fuel == 0 {
                return false;
            }
            *fuel -= 1;
            for i in 0..ends.len() {
                if !used[i] && ends[i].0 == cur {
                    used[i] = true;
                    order.push(i);
                    if dfs(ends, used, order, ends[i].1, fuel) {
                        return true;
                    }
                    order.pop();
                    used[i] = false;
                }
            }
            false
        }
        let mut order = vec![];
        let mut fuel = 500;
        if !dfs(&ends, &mut vec![false; n], &mut order, Fr::zero(), &mut fuel) {
            order = (0..n).collect();
        }
        let mut segs: Vec<Option<Vec<MemoryMatrixRow>>> = segs.drain(..).map(Some).collect();
        for i in order {
            m.memory_matrix.extend(segs[i].take().unwrap());
        }
    }
}

/// Runs the machine with deviations.
fn evil_trace(words: &[Fr], input: &[Fr], bits: u32, cap: usize, devs: &mut [Dev]) -> (Vec<Register>, Vec<Fr>, Vec<Fr>) {
    let max = fr((1i64 << bits) - 1);
    let len = words.len() as i64;
    let mut mem: BTreeMap<i64, Fr> = BTreeMap::new();
    let (mut ip, mut mp, mut clk, mut inp) = (0i64, 0i64, Fr::zero(), 0usize);
    let mut regs: Vec<Register> = vec![];
    let mut output = vec![];
    let mut consumed = vec![];
    let at = |i: i64| -> Fr {
        if i >= 0 && i < len {
            words[i as usize]
        } else {
            Fr::zero()
        }
    };
    for d in devs.iter_mut() {
        if d.kind == "init" {
            d.fired = true;
            match d.rng.below(4) {
                0 => {
                    mem.insert(0, value(&mut d.rng, bits, Fr::zero()));
                }
                1 => mp = *d.rng.pick(&[1, -1, 2, 5]),
                2 => ip = d.rng.below(words.len() + 1) as i64,
                _ => clk = *d.rng.pick(&[Fr::one(), -Fr::one(), fr(7)]),
            }
        }
    }
    let mut t = 0usize;
    loop {
        // fetch
        let mut ci = at(ip);
        let mut ni = at(ip + 1);
        let mut mv = *mem.get(&mp).unwrap_or(&Fr::zero());
        let mut inv = mvi(mv);
        let mut stop = ip >= len || ip < 0;
        let mut flip = false;
        let mut lost = false;
        let mut skip_input = false;
        let mut force: Option<Fr> = None;
        let mut go: Option<i64> = None;
        let mut extra = 0;
        for d in devs.iter_mut() {
            if t < d.t || d.fired {
                continue;
            }
            let bracket = ci == fr(b'[' as i64) || ci == fr(b']' as i64);
            let arith = ci == fr(b'+' as i64) || ci == fr(b'-' as i64);
            match d.kind.as_str() {
                "glitch" => {
                    mv = value(&mut d.rng, bits, mv);
                    inv = mvi(mv);
                    d.fired = true;
                }
                "mvi" => {
                    inv = match d.rng.below(4) {
                        0 => Fr::zero(),
                        1 => Fr::one(),
                        2 => Fr::random(&mut d.rng),
                        _ => mvi(value(&mut d.rng, bits, mv)),
                    };
                    if bracket && d.rng.chance(3, 4) {
                        flip = true;
                    }
                    d.fired = true;
                }
                "branch" if bracket => {
                    flip = true;
                    d.fired = true;
                }
                "target" if !stop => {
                    go = Some(d.rng.below(words.len() + 1) as i64);
                    d.fired = true;
                }
                "halt" if !stop => {
                    // jump out of the program
                    go = Some(len + d.rng.below(3) as i64);
                    d.fired = true;
                }
                "fetch" if !stop => {
                    ci = match d.rng.below(5) {
                        0 => Fr::zero(),
                        1 => Fr::random(&mut d.rng),
                        _ => fr(*d.rng.pick(b"<>+-,.[]") as i64),
                    };
                    if d.rng.chance(1, 3) {
                        ni = fr(d.rng.below(words.len() + 2) as i64);
                    }
                    d.fired = true;
                }
                "fetchni" if bracket => {
                    ni = fr(d.rng.below(words.len() + 2) as i64);
                    if d.rng.chance(1, 2) {
                        flip = true;
                    }
                    d.fired = true;
                }
                "lostwrite" if arith || ci == fr(b',' as i64) => {
                    lost = true;
                    d.fired = true;
                }
                "arith" if arith => {
                    force = Some(match d.rng.below(6) {
                        0 => mv + Fr::one(),
                        1 => mv - Fr::one(),
                        2 => mv + max,
                        3 => mv - max,
                        4 => mv + fr(2),
                        _ => mv,
                    });
                    d.fired = true;
                }
                "input" if ci == fr(b',' as i64) => {
                    match d.rng.below(3) {
                        0 => skip_input = true,
                        1 => force = Some(value(&mut d.rng, bits, mv)),
                        _ => {
                            skip_input = true;
                            force = Some(value(&mut d.rng, bits, mv));
                        }
                    }
                    d.fired = true;
                }
                "noinput" if !stop => {
                    // read where the program does not
                    ci = fr(b',' as i64);
                    d.fired = true;
                }
                "early" if !stop => {
                    d.fired = true;
                    stop = true;
                    match d.rng.below(4) {
                        0 => {}
                        1 => {
                            ci = Fr::zero();
                            ni = Fr::zero();
                        }
                        2 => {
                            ip = len;
                            ci = Fr::zero();
                            ni = Fr::zero();
                        }
                        _ => ip = len,
                    }
                }
                "late" if stop => {
                    d.fired = true;
                    extra = 1 + d.rng.below(3);
                }
                _ => {}
            }
        }
        regs.push(Register {
            cycle: clk,
            instruction_pointer: fr(ip),
            current_instruction: ci,
            next_instruction: ni,
            memory_pointer: fr(mp),
            memory_value: mv,
            memory_value_inverse: inv,
        });
        if stop {
            for e in 0..extra {
                let d = devs.iter_mut().find(|d| d.kind == "late").unwrap();
                let mut r = regs.last().unwrap().clone();
                r.cycle += Fr::one();
                match d.rng.below(6) {
                    0 => r.instruction_pointer += Fr::one(),
                    1 => r.memory_value = value(&mut d.rng, bits, r.memory_value),
                    2 => r.memory_pointer += Fr::one(),
                    3 => {
                        let i = d.rng.below(words.len());
                        r.instruction_pointer = fr(i as i64);
                        r.current_instruction = at(i as i64);
                        r.next_instruction = at(i as i64 + 1);
                    }
                    _ => {}
                }
                r.memory_value_inverse = mvi(r.memory_value);
                let _ = e;
                regs.push(r);
            }
            break;
        }
        if t >= cap {
            break;
        }
        // execute
        let op = small(ci);
        let mut next_ip = ip + 1;
        let mut next_mp = mp;
        let cur = mv;
        let mut write: Option<Fr> = None;
        match op {
            60 => next_mp -= 1,
            62 => next_mp += 1,
            43 => write = Some(if cur == max { Fr::zero() } else { cur + Fr::one() }),
            45 => write = Some(if cur == Fr::zero() { max } else { cur - Fr::one() }),
            46 => output.push(cur),
            44 => {
                let v = input.get(inp).copied().unwrap_or(Fr::zero());
                if !skip_input {
                    inp += 1;
                }
                consumed.push(v);
                write = Some(v);
            }
            91 | 93 => {
                let mut taken = (cur == Fr::zero()) == (op == 91);
                if flip {
                    taken = !taken;
                }
                next_ip = if taken { small(ni).clamp(-1, len + 5) } else { ip + 2 };
            }
            _ => {}
        }
        if let Some(v) = force {
            write = Some(v);
        }
        if lost {
            write = None;
        }
        if let Some(v) = write {
            mem.insert(mp, v);
        }
        if let Some(g) = go {
            next_ip = g;
        }
        ip = next_ip;
        mp = next_mp;
        clk += Fr::one();
        t += 1;
        for d in devs.iter_mut() {
            if t < d.t || d.fired {
                continue;
            }
            match d.kind.as_str() {
                "cell" => {
                    let c = *mem.get(&mp).unwrap_or(&Fr::zero());
                    mem.insert(mp, value(&mut d.rng, bits, c));
                    d.fired = true;
                }
                "segment" | "poke" => {
                    let keys: Vec<i64> = mem.keys().copied().chain([mp, mp + 1, 0]).collect();
                    let k = *d.rng.pick(&keys);
                    let c = *mem.get(&k).unwrap_or(&Fr::zero());
                    mem.insert(k, small_value(&mut d.rng, bits, c));
                    d.fired = true;
                }
                "mp" => {
                    mp += *d.rng.pick(&[1, -1, 2, -2]);
                    d.fired = true;
                }
                "clk" => {
                    clk += *d.rng.pick(&[Fr::one(), -Fr::one(), -fr(2), fr(3)]);
                    d.fired = true;
                }
                _ => {}
            }
        }
    }
    (regs, consumed, output)
}

fn any_value(rng: &mut Rng, cur: Fr, n: usize) -> Fr {
    match rng.below(8) {
        0 => cur + Fr::one(),
        1 => cur - Fr::one(),
        2 => Fr::zero(),
        3 => Fr::one(),
        4 => fr(rng.below(n + 2) as i64),
        5 => fr(*rng.pick(b"<>+-,.[]") as i64),
        6 => -cur,
        _ => Fr::random(&mut *rng),
    }
}

fn reg_field<'a>(r: &'a mut Register, i: usize) -> &'a mut Fr {
    match i {
        0 => &mut r.cycle,
        1 => &mut r.instruction_pointer,
        2 => &mut r.current_instruction,
        3 => &mut r.next_instruction,
        4 => &mut r.memory_pointer,
        5 => &mut r.memory_value,
        _ => &mut r.memory_value_inverse,
    }
}

fn table_edit(m: &mut Matrix, rng: &mut Rng) -> String {
    let n = m.processor_matrix.len() + m.program.len();
    match rng.below(12) {
        0 | 1 => {
            let i = rng.below(m.memory_matrix.len());
            let f = rng.below(3);
            let r = &mut m.memory_matrix[i];
            let x = match f {
                0 => &mut r.cycle,
                1 => &mut r.memory_pointer,
                _ => &mut r.memory_value,
            };
            *x = any_value(rng, *x, n);
            format!("memory row {} field {}", i, f)
        }
        2 => {
            let (i, j) = (rng.below(m.memory_matrix.len()), rng.below(m.memory_matrix.len()));
            m.memory_matrix.swap(i, j);
            format!("memory rows {} and {} swapped", i, j)
        }
        3 => {
            let i = rng.below(m.memory_matrix.len());
            let r = m.memory_matrix.remove(i);
            let j = rng.below(m.memory_matrix.len() + 1);
            m.memory_matrix.insert(j, r);
            format!("memory row {} moved to {}", i, j)
        }
        4 | 5 => {
            let i = rng.below(m.instruction_matrix.len());
            let f = rng.below(3);
            let r = &mut m.instruction_matrix[i];
            let x = match f {
                0 => &mut r.instruction_pointer,
                1 => &mut r.current_instruction,
                _ => &mut r.next_instruction,
            };
            *x = any_value(rng, *x, n);
            format!("instruction row {} field {}", i, f)
        }
        6 => {
            let i = rng.below(m.instruction_matrix.len());
            let r = m.instruction_matrix.remove(i);
            let j = rng.below(m.instruction_matrix.len() + 1);
            m.instruction_matrix.insert(j, r);
            format!("instruction row {} moved to {}", i, j)
        }
        7 => {
            if m.output_matrix.is_empty() || rng.chance(1, 3) {
                let v = fr(rng.below(16) as i64);
                let i = rng.below(m.output_matrix.len() + 1);
                m.output_matrix.insert(i, v);
                format!("output {} inserted", i)
            } else {
                let i = rng.below(m.output_matrix.len());
                match rng.below(3) {
                    0 => {
                        m.output_matrix.remove(i);
                    }
                    1 => {
                        let j = rng.below(m.output_matrix.len());
                        m.output_matrix.swap(i, j);
                    }
                    _ => m.output_matrix[i] = any_value(rng, m.output_matrix[i], n),
                }
                format!("output {} changed", i)
            }
        }
        8 => {
            let i = rng.below(m.instruction_matrix.len());
            let r = &m.instruction_matrix[i];
            let d = InstructionMatrixRow {
                instruction_pointer: r.instruction_pointer,
                current_instruction: r.current_instruction,
                next_instruction: r.next_instruction,
            };
            m.instruction_matrix.insert(i, d);
            if rng.chance(1, 2) {
                let j = rng.below(m.instruction_matrix.len());
                m.instruction_matrix.remove(j);
            }
            format!("instruction row {} doubled", i)
        }
        9 => {
            let i = rng.below(m.memory_matrix.len());
            m.memory_matrix.remove(i);
            if m.memory_matrix.is_empty() {
                m.memory_matrix.push(MemoryMatrixRow {
                    cycle: Fr::one(),
                    memory_pointer: Fr::zero(),
                    memory_value: Fr::zero(),
                    interweave_indicator: Fr::zero(),
                });
            }
            format!("memory row {} dropped", i)
        }
        _ => {
            let i = rng.below(m.processor_matrix.len());
            let f = rng.below(7);
            let x = reg_field(&mut m.processor_matrix[i], f);
            *x = any_value(rng, *x, n);
            format!("processor row {} field {}", i, f)
        }
    }
}

/// Builds the forged claim. None: this deviation does not change anything here.
pub fn forge(kind: &str, seed: u64, src: &[u8], input: &[u8], bits: u32) -> Option<Forged> {
    let p = Program::parse(src)?;
    let words: Vec<u64> = p.words();
    let wf: Vec<Fr> = words.iter().map(|x| Fr::from(*x)).collect();
    let inf: Vec<Fr> = input.iter().map(|x| Fr::from(*x as u64)).collect();
    let r = reference(&p, input, bits, 300);
    let valid = r.end == End::Halt && r.consumed == input.len();
    let steps = r.steps.min(40);
    let cap = steps * 2 + 12;
    let mut rng = Rng::new(seed);
    let honest = {
        let (a, b, c) = evil_trace(&wf, &inf, bits, cap, &mut []);
        tables(&wf, a, b, c)
    };
    let honest_inst = instances(&words, input);
    let mut inst = honest_inst.clone();
    let dev = |rng: &mut Rng, kind: &str| Dev {
        kind: kind.to_string(),
        t: rng.below(steps + 1),
        rng: Rng::new(rng.u64()),
        fired: false,
    };
    let mut m;
    let mut what = kind.to_string();
    match kind {
        "program" | "statement" => {
            // The execution of one program presented for another statement.
            m = clone_matrix(&honest);
            let part = rng.below(2);
            let op = rng.below(6);
            {
                let v = &mut inst[part];
                match op {
                    0 if v.len() > 1 => {
                        let i = 1 + rng.below(v.len() - 1);
                        v[i] = any_value(&mut rng, v[i], words.len());
                    }
                    1 if v.len() > 1 => {
                        let i = 1 + rng.below(v.len() - 1);
                        v.remove(i);
                        v[0] -= Fr::one();
                    }
                    2 => {
                        let i = 1 + rng.below(v.len());
                        let x = any_value(&mut rng, Fr::zero(), words.len());
                        v.insert(i, x);
                        v[0] += Fr::one();
                    }
                    3 => v[0] = any_value(&mut rng, v[0], words.len()),
                    4 => {
                        // trailing or leading zeros
                        v[0] += Fr::one();
                        if rng.chance(1, 2) {
                            v.push(Fr::zero());
                        } else {
                            v.insert(1, Fr::zero());
                        }
                    }
                    _ if v.len() > 2 => {
                        let i = 1 + rng.below(v.len() - 2);
                        v.swap(i, i + 1);
                    }
                    _ => {}
                }
            }
            what = format!("statement part {} op {}", part, op);
            if kind == "program" {
                // the prover adapts its own copies
                let v: Vec<Fr> = inst[part][1..].to_vec();
                if part == 0 {
                    m.program = v.clone();
                    if rng.chance(1, 2) && !v.is_empty() {
                        let (a, b, c) = evil_trace(&wf, &inf, bits, cap, &mut []);
                        let t = tables(&v, a, b, c);
                        m = t;
                    }
                } else {
                    m.input_matrix = v;
                }
            }
        }
        "output" | "memrow" | "instrow" | "table" | "fieldonly" => {
            m = clone_matrix(&honest);
            let n = 1 + rng.below(2);
            let mut w = vec![];
            for _ in 0..n {
                w.push(table_edit(&mut m, &mut rng));
            }
            what = w.join(", ");
        }
        "field" => {
            let (mut a, b, c) = evil_trace(&wf, &inf, bits, cap, &mut []);
            let n = 1 + rng.below(2);
            for _ in 0..n {
                let i = rng.below(a.len());
                let f = rng.below(7);
                let x = reg_field(&mut a[i], f);
                *x = any_value(&mut rng, *x, words.len() + steps);
                if f == 5 && rng.chance(3, 4) {
                    a[i].memory_value_inverse = mvi(a[i].memory_value);
                }
                what = format!("{} row {} field {}", what, i, f);
            }
            m = tables(&wf, a, b, c);
            if rng.chance(1, 2) {
                chain_memory(&mut m);
            }
        }
        "offset" => {
            // start in the middle of the program, with the instruction table shifted accordingly
            if wf.len() < 2 {
                return None;
            }
            let off = 1 + rng.below((wf.len() - 1).min(3));
            let (a, b, c) = evil_trace(&wf[off..], &inf, bits, cap, &mut []);
            m = tables(&wf, a, b, c);
            let mut im: Vec<InstructionMatrixRow> = vec![];
            for i in 0..wf.len() {
                im.push(InstructionMatrixRow {
                    instruction_pointer: fr(i as i64 - off as i64),
                    current_instruction: wf[i],
                    next_instruction: wf.get(i + 1).copied().unwrap_or(Fr::zero()),
                });
            }
            im.extend(m.processor_matrix.iter().map(InstructionMatrixRow::from));
            im.sort_by_key(|r| small(r.instruction_pointer));
            m.instruction_matrix = im;
            if rng.chance(1, 2) {
                m.input_matrix = inf.clone();
            }
            what = format!("start at word {}", off);
        }
        "tail" => {
            // something after the last instruction
            let x = any_value(&mut rng, Fr::one(), words.len());
            let y = if rng.chance(1, 2) { Fr::zero() } else { any_value(&mut rng, Fr::one(), words.len()) };
            m = clone_matrix(&honest);
            let n = fr(words.len() as i64);
            for r in m.processor_matrix.iter_mut() {
                if r.instruction_pointer == n {
                    r.current_instruction = x;
                    r.next_instruction = y;
                } else if r.instruction_pointer == n - Fr::one() {
                    r.next_instruction = x;
                }
            }
            for r in m.instruction_matrix.iter_mut() {
                if r.instruction_pointer == n {
                    r.current_instruction = x;
                    r.next_instruction = y;
                } else if r.instruction_pointer == n - Fr::one() {
                    r.next_instruction = x;
                }
            }
            what = format!("{:?} after the last instruction", x);
        }
        "row" => {
            let (mut a, b, c) = evil_trace(&wf, &inf, bits, cap, &mut []);
            let i = rng.below(a.len());
            match rng.below(3) {
                0 if a.len() > 1 => {
                    a.remove(i);
                }
                1 => {
                    let r = a[i].clone();
                    a.insert(i, r);
                }
                _ => {
                    let j = rng.below(a.len());
                    a.swap(i, j);
                }
            }
            if rng.chance(1, 2) {
                for (i, r) in a.iter_mut().enumerate() {
                    r.cycle = fr(i as i64);
                }
            }
            what = format!("row {}", i);
            m = tables(&wf, a, b, c);
        }
        "shift" => {
            // a whole register column shifted by a constant
            let (mut a, b, c) = evil_trace(&wf, &inf, bits, cap, &mut []);
            let f = *rng.pick(&[0usize, 1, 4, 5]);
            let d = *rng.pick(&[Fr::one(), -Fr::one(), fr(2)]);
            for r in a.iter_mut() {
                *reg_field(r, f) += d;
                r.memory_value_inverse = mvi(r.memory_value);
            }
            what = format!("column {} shifted", f);
            m = tables(&wf, a, b, c);
        }
        _ => {
            let mut devs = if kind == "double" {
                let base = ["cell", "poke", "branch", "target", "fetch", "mp", "input", "early", "late", "arith", "mvi", "clk", "init", "segment"];
                let (x, y) = (*rng.pick(&base), *rng.pick(&base));
                what = format!("{}+{}", x, y);
                vec![dev(&mut rng, x), dev(&mut rng, y)]
            } else {
                vec![dev(&mut rng, kind)]
            };
            let at: Vec<usize> = devs.iter().map(|d| d.t).collect();
            let (a, b, c) = evil_trace(&wf, &inf, bits, cap, &mut devs);
            if valid && devs.iter().all(|d| !d.fired) {
                return None;
            }
            what = format!("{} at step {:?}", what, at);
            m = tables(&wf, a, b, c);
            if kind == "segment" || rng.chance(1, 3) {
                chain_memory(&mut m);
                what.push_str(", memory history re-ordered");
            }
            // the statement stays the same; how many inputs the prover claims to have read may not
            match rng.below(3) {
                0 => {}
                _ => m.input_matrix = inf.clone(),
            }
            if kind == "fetch" || kind == "fetchni" || kind == "noinput" {
                // the instruction table may be adapted to the forged fetch
                let k = rng.below(3);
                if k > 0 {
                    for r in &m.processor_matrix {
                        let i = small(r.instruction_pointer);
                        if i >= 0 && (i as usize) < words.len() {
                            let row = m.instruction_matrix.iter_mut().find(|x| x.instruction_pointer == r.instruction_pointer);
                            if let Some(row) = row {
                                if k == 1 || row.current_instruction != r.current_instruction {
                                    row.current_instruction = r.current_instruction;
                                    row.next_instruction = r.next_instruction;
                                }
                            }
                        }
                    }
                    what.push_str(", instruction table adapted");
                }
            }
            if rng.chance(1, 10) {
                let w = table_edit(&mut m, &mut rng);
                what.push_str(", ");
                what.push_str(&w);
            }
        }
    }
    if inst == honest_inst {
        if valid && dump_matrix(&m) == dump_matrix(&honest) {
            return None;
        }
    } else if inst.iter().all(|v| (0..v.len() as i64 + 4).contains(&small(v[0]))) {
        // A different statement: compare with its own run, where the language defines one. Entries past
        // the length are not part of it, missing ones are zero.
        let eff: Vec<Vec<Fr>> = inst
            .iter()
            .map(|v| (1..=small(v[0]) as usize).map(|i| v.get(i).copied().unwrap_or(Fr::zero())).collect())
            .collect();
        let (w, i) = (&eff[0][..], &eff[1][..]);
        if w.is_empty() {
            return None;
        }
        let (a, b, c) = evil_trace(w, i, bits, cap, &mut []);
        let n = w.len() as i64;
        let legal = a.iter().all(|r| {
            let ip = small(r.instruction_pointer);
            ip >= n || (0..256).contains(&small(r.current_instruction)) && b"<>+-,.[]".contains(&(small(r.current_instruction) as u8))
        });
        if !legal {
            return None;
        }
        // (also not where that run is itself invalid: the caller's programs cover those)
        let off = a.iter().any(|r| small(r.memory_pointer) < 0) || b.len() != i.len();
        if !off && dump_matrix(&tables(w, a, b, c)) == dump_matrix(&m) {
            return None;
        }
    }
    let own = if inst != honest_inst && !valid_only_public(&mut rng) { Some(honest_inst) } else { None };
    Some(Forged { m, inst, what, own })
}

fn valid_only_public(rng: &mut Rng) -> bool {
    rng.chance(1, 2)
}

/// The honest trace built by this module (to be compared with the repository's interpreter).
pub fn honest_by_model(src: &[u8], input: &[u8], bits: u32) -> Matrix {
    let words: Vec<Fr> = Program::parse(src).unwrap().words().iter().map(|x| Fr::from(*x)).collect();
    let inf: Vec<Fr> = input.iter().map(|x| Fr::from(*x as u64)).collect();
    let (a, b, c) = evil_trace(&words, &inf, bits, 100_000, &mut []);
    tables(&words, a, b, c)
}
