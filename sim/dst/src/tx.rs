//! Requests, the transactions the real prover writes for them, and the native verifier script.

use crate::bf::*;
use crate::core::*;
use ckb_std::error::SysError;
use ckb_std::sim::Answer;
use serde_json::Value as J;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

pub const BINARY: &str = "target/riscv64imac-unknown-none-elf/release/ckb_bf_verifier";

#[derive(Clone, Debug, PartialEq)]
pub struct Req {
    pub src: Vec<u8>,
    pub input: Vec<u8>,
}

impl Req {
    pub fn words(&self) -> Vec<u8> {
        Program::parse(&self.src).unwrap().words().iter().flat_map(|w| (*w as u16).to_le_bytes()).collect()
    }
    pub fn show(&self) -> String {
        format!("{} / {:?}", String::from_utf8_lossy(&self.src), String::from_utf8_lossy(&self.input))
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Tx {
    /// params, vk, proof, program, input
    pub wit: Vec<Vec<u8>>,
    pub code_hash: Vec<u8>,
    pub binary: Vec<u8>,
}

fn bytes_of(j: &J) -> Option<Vec<u8>> {
    let s = j.as_str()?.strip_prefix("0x")?;
    if s.len() % 2 != 0 || !s.bytes().all(|c| c.is_ascii_hexdigit()) {
        return None;
    }
    Some(unhex(s))
}

/// Parses a complete transaction file; None if it is not one.
pub fn parse_tx(b: &[u8]) -> Option<Tx> {
    let j: J = serde_json::from_slice(b).ok()?;
    let w = j["tx"]["witnesses"].as_array()?;
    let wit: Option<Vec<Vec<u8>>> = w.iter().map(bytes_of).collect();
    Some(Tx {
        wit: wit?,
        code_hash: bytes_of(&j["mock_info"]["inputs"][0]["output"]["lock"]["code_hash"])?,
        binary: bytes_of(&j["mock_info"]["cell_deps"][0]["data"])?,
    })
}

/// Does this transaction serve exactly this request with this binary? (without the proof itself)
pub fn serves(tx: &Tx, r: &Req, binary: &[u8]) -> Result<(), String> {
    if tx.wit.len() < 5 {
        return Err(format!("{} witnesses", tx.wit.len()));
    }
    if tx.wit[3] != r.words() {
        return Err("the program in the transaction is not the requested one".into());
    }
    if tx.wit[4] != r.input {
        return Err("the input in the transaction is not the requested one".into());
    }
    if tx.binary != binary {
        return Err("the transaction does not carry the verifier binary".into());
    }
    if tx.code_hash != ckb_hash::blake2b_256(binary) {
        return Err("the lock does not refer to the verifier binary".into());
    }
    Ok(())
}

/// The verifier script run against simulated witness loads. Err: it panicked.
pub fn run_script(load: Box<dyn FnMut(usize) -> Answer>) -> Result<i8, String> {
    run_script_loads(load).0
}

/// Also: the witnesses whose latest load ended in an error.
pub fn run_script_loads(load: Box<dyn FnMut(usize) -> Answer>) -> (Result<i8, String>, Vec<usize>) {
    let mut load = load;
    ckb_std::sim::install(Box::new(move |i, _| load(i)));
    let r = catch(verifier_native::program_entry);
    let rt = ckb_std::sim::take();
    let failed = rt.map(|t| t.failed.into_iter().filter(|x| x.1).map(|x| x.0).collect()).unwrap_or_default();
    (r, failed)
}

pub fn accepts(wit: &[Vec<u8>]) -> Result<bool, String> {
    let w = wit.to_vec();
    run_script(Box::new(move |i| match w.get(i) {
        Some(b) => Answer::Bytes(b.clone()),
        None => Answer::Fail(SysError::IndexOutOfBound),
    }))
    .map(|r| r == 0)
}

/// A working directory for the prover.
pub fn make_dir(dir: &Path, r: &Req, binary: &[u8]) {
    std::fs::create_dir_all(dir.join("res")).unwrap();
    std::fs::create_dir_all(dir.join(BINARY).parent().unwrap()).unwrap();
    std::fs::write(dir.join(BINARY), binary).unwrap();
    std::fs::write(dir.join("prog.bf"), &r.src).unwrap();
}


pub fn prover_cmd(bin: &Path, dir: &Path, prog: &str, r: &Req) -> Command {
    let mut c = Command::new(bin);
    c.current_dir(dir).arg(prog);
    if !r.input.is_empty() {
        use std::os::unix::ffi::OsStringExt;
        c.arg(std::ffi::OsString::from_vec(r.input.clone()));
    }
    c.env_clear().env("PATH", "/usr/bin:/bin").stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null());
    c
}

/// Runs the prover plainly; true if it exits with success in the given time.
pub fn run_plain(bin: &Path, dir: &Path, r: &Req, secs: u64) -> Result<bool, String> {
    let mut ch = prover_cmd(bin, dir, "prog.bf", r).spawn().map_err(|e| e.to_string())?;
    let t = std::time::Instant::now();
    loop {
        match ch.try_wait() {
            Ok(Some(s)) => return Ok(s.success()),
            Ok(None) => {}
            Err(e) => return Err(e.to_string()),
        }
        if t.elapsed().as_secs() > secs {
            let _ = ch.kill();
            let _ = ch.wait();
            return Err("did not end".into());
        }
        std::thread::sleep(std::time::Duration::from_millis(10));
    }
}

/// Proves the requests in parallel, each in a directory of its own; result per request: the bytes of
/// tx.json, if the prover succeeded and the file is there.
pub fn prove_all(bin: &Path, base: &Path, reqs: &[(Req, Vec<u8>)]) -> Vec<Option<Vec<u8>>> {
    std::thread::scope(|s| {
        let hs: Vec<_> = reqs
            .iter()
            .enumerate()
            .map(|(i, (r, b))| {
                let dir: PathBuf = base.join(format!("p{}", i));
                s.spawn(move || {
                    make_dir(&dir, r, b);
                    let ok = run_plain(bin, &dir, r, 240);
                    let out = if ok == Ok(true) { std::fs::read(dir.join("res/tx.json")).ok() } else { None };
                    let _ = std::fs::remove_dir_all(&dir);
                    out
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    })
}

/// A halting request whose input can be passed on a command line.
pub fn gen_req(rng: &mut Rng, budget: usize, want_input: bool) -> Req {
    loop {
        let (src, input) = gen_case(rng, 8, budget);
        let input: Vec<u8> = input.iter().map(|b| b % 127 + 1).collect();
        if want_input && input.is_empty() {
            continue;
        }
        let p = Program::parse(&src).unwrap();
        let r = reference(&p, &input, 8, budget);
        if r.end == End::Halt && r.consumed == input.len() {
            return Req { src, input };
        }
    }
}
