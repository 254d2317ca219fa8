mod bf;
mod board;
mod c01;
mod c02;
mod c04;
mod c06;
mod c09;
mod c10;
mod c11;
mod c12;
mod c13;
mod c14;
mod c15;
mod c16;
mod c17;
mod c18;
mod pos;
mod circ;
mod core;
mod evil;
mod open;
mod osim;
mod plonk;
mod rec;
mod tx;

use crate::core::*;
use std::path::{Path, PathBuf};

fn props() -> Vec<Box<dyn Prop>> {
    vec![Box::new(c01::C01), Box::new(c02::C02), Box::new(c02::C03),
        Box::new(c04::C04), Box::new(c04::C05),
        Box::new(c06::C06), Box::new(c06::C07), Box::new(c06::C08),
        Box::new(c09::C09), Box::new(c10::C10), Box::new(c11::C11), Box::new(c12::C12),
        Box::new(c13::C13),
        Box::new(c14::C14), Box::new(c15::C15), Box::new(c16::C16), Box::new(c17::C17), Box::new(c18::C18)]
}

fn find(id: &str) -> Box<dyn Prop> {
    props().into_iter().find(|p| p.id() == id).unwrap_or_else(|| {
        eprintln!("unknown property {}", id);
        std::process::exit(2)
    })
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let root = PathBuf::from(std::env::var("DST_ROOT").unwrap_or_else(|_| "/verif".into()));
    let tier = |s: &str| if s == "thorough" { Tier::Thorough } else { Tier::Quick };
    let cmd = a.get(1).map(|s| s.as_str()).unwrap_or("");
    let code = match cmd {
        "run" => run_check(&*find(&a[2]), a[4].parse().unwrap_or(1), tier(&a[3]), &root).code,
        "worker" => {
            let ctx = Ctx { scratch: a[3].clone().into(), own: a[4].clone().into(), seed: a[5].parse().unwrap(), tier: tier(&a[6]) };
            worker_main(&*find(&a[2]), ctx);
            0
        }
        "replay" => {
            let doc: serde_json::Value =
                serde_json::from_str(&std::fs::read_to_string(&a[2]).expect("replay file")).expect("json");
            replay(&*find(doc["property"].as_str().unwrap()), Path::new(&a[2]))
        }
        "determinism" => {
            // dst determinism SEED N ID...
            let seed = a[2].parse().unwrap();
            let n = a[3].parse().unwrap();
            let mut bad = 0;
            for id in &a[4..] {
                let p = find(id);
                let x = determinism(&*p, seed, n, 8);
                let y = determinism(&*p, seed, n, 3);
                let d: Vec<u64> = x.iter().zip(&y).filter(|(a, b)| a != b).map(|(a, _)| a.0).collect();
                println!("{}: {} runs twice, {} differ {:?}", id, x.len(), d.len(), &d[..d.len().min(5)]);
                bad += d.len();
            }
            (bad > 0) as i32
        }
        "zs" => {
            c18::print_zs();
            0
        }
        "killmatrix" => {
            c02::kill_matrix(a[2].parse().unwrap(), a[3].parse().unwrap());
            0
        }
        _ => {
            eprintln!("usage: dst run ID TIER SEED | replay FILE | determinism SEED N ID...");
            2
        }
    };
    std::process::exit(code);
}
