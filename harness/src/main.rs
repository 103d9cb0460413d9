#![allow(dead_code, unused_imports)]
mod c01;
mod c02;
mod c03;
mod c04;
mod c05;
mod c06;
mod c07;
mod c09;
mod c10;
mod c11;
mod c12;
#[cfg(feature = "solver")]
mod c13;
mod c15;
mod c16;
mod c17;
#[cfg(feature = "solver")]
mod c18;
mod c19;
mod c20;
#[cfg(feature = "solver")]
mod c21;
mod gen;
mod geo;
mod problems;
mod rec;
mod rng;
mod scene;

use rec::{Outcome, Violation};
use std::sync::OnceLock;

static OUT: OnceLock<String> = OnceLock::new();

pub fn write_result(o: &Outcome, extra: Option<Violation>) {
    let v = rec::outcome_json(o, extra.as_ref());
    match OUT.get() {
        Some(p) => std::fs::write(p, v.to_string()).expect("write result"),
        None => println!("{}", serde_json::to_string_pretty(&v).unwrap()),
    }
}

type CaseFn = fn(usize, &mut rng::Rng, &mut rec::Rec);

/// (cases in the quick tier, cases in the thorough tier, monitor)
fn table(prop: &str) -> (usize, usize, CaseFn) {
    match prop {
        "C01" => (600, 20000, c01::run),
        "C02" => (600, 20000, c02::run),
        "C03" => (600, 20000, c03::run),
        "C04" => (600, 20000, c04::run),
        "C05" => (600, 20000, c05::run),
        "C06" => (600, 20000, c06::run),
        "C07" => (600, 20000, c07::run),
        "C08" => (600, 20000, c07::run_quantities),
        "C09" => (600, 20000, c09::run),
        "C10" => (600, 20000, c10::run),
        "C11" => (600, 20000, c11::run),
        "C12" => (600, 20000, c12::run),
        #[cfg(feature = "solver")]
        "C13" => (600, 20000, c13::run),
        #[cfg(feature = "solver")]
        "C14" => (600, 20000, c13::run_repro),
        "C15" => (600, 20000, c15::run),
        "C16" => (3000, 3000, c16::run),
        "C17" => (3000, 3000, c17::run),
        #[cfg(feature = "solver")]
        "C18" => (300, 3000, c18::run),
        "C19" => (1000, 10000, c19::run),
        "C20" => (3000, 3000, c20::run),
        #[cfg(feature = "solver")]
        "C21" => (1000, 10000, c21::run),
        _ => {
            eprintln!("unknown property {prop}");
            std::process::exit(3)
        }
    }
}

fn main() {
    let mut a = std::env::args().skip(1);
    let prop = a.next().expect("usage: monitor PROP [options]");
    #[cfg(feature = "solver")]
    if prop == "--digest" {
        return c13::digest_main(a.next().unwrap().parse().unwrap());
    }
    let (mut tier, mut seed, mut variant) = ("quick".to_string(), 1u64, "f32".to_string());
    let (mut only, mut n, mut verbose, mut threads) = (None, None, false, 8usize);
    while let Some(k) = a.next() {
        match k.as_str() {
            "--tier" => tier = a.next().unwrap(),
            "--seed" => seed = a.next().unwrap().parse().unwrap(),
            "--variant" => variant = a.next().unwrap(),
            "--case" => only = Some(a.next().unwrap().parse::<usize>().unwrap()),
            "--cases" => n = Some(a.next().unwrap().parse::<usize>().unwrap()),
            "--threads" => threads = a.next().unwrap().parse().unwrap(),
            "--out" => OUT.set(a.next().unwrap()).unwrap(),
            "-v" => verbose = true,
            x => panic!("unknown option {x}"),
        }
    }
    rec::install_panic_hook();
    let (quick, thorough, f) = table(&prop);
    let n = n.unwrap_or(if tier == "thorough" { thorough } else { quick });
    let range = match only {
        Some(c) => c..c + 1,
        None => 0..n,
    };
    let o = rec::run_cases(&prop, &variant, seed, range, threads, 240, verbose, &f);
    write_result(&o, None);
}
