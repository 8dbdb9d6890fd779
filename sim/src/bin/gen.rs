//! gen grams --seed S --first ID --n N [--ill] : one grammar per line (s-expression)
//! gen modules --in FILE --dir DIR : writes gN.rs for each grammar of FILE
use oaksim::gram::*;
use oaksim::rng::mix;
use oaksim::sexp::S;

fn arg(k: &str) -> Option<String> { let a: Vec<String> = std::env::args().collect(); a.iter().position(|x| x == k).map(|i| a[i + 1].clone()) }

fn main() {
    let cmd = std::env::args().nth(1).unwrap();
    match cmd.as_str() {
        "grams" => {
            let seed: u64 = arg("--seed").unwrap().parse().unwrap();
            let first: usize = arg("--first").unwrap().parse().unwrap();
            let n: usize = arg("--n").unwrap().parse().unwrap();
            let ill = std::env::args().any(|x| x == "--ill");
            let focus = arg("--focus").unwrap_or_default();
            let mut w = World::new();
            for i in first..first + n {
                let g = oaksim::ggen::gram(mix(seed, i as u64), i, &w, ill, &focus);
                println!("{}", g.sx());
                w.insert(i, g);
            }
        }
        "modules" => {
            let f = std::fs::read_to_string(arg("--in").unwrap()).unwrap();
            let dir = arg("--dir").unwrap();
            let gs: Vec<Gram> = f.lines().filter(|x| !x.trim().is_empty()).map(|l| Gram::of(&S::parse(l))).collect();
            for g in &gs {
                let src = g.module(true);
                std::fs::write(format!("{}/g{}.rs", dir, g.id), src).unwrap();
                println!("{} {}", g.id, g.exts().iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","));
            }
        }
        // One line per rule-level reduction of a grammar, for minimising replays.
        o => panic!("unknown command {}", o),
    }
}
