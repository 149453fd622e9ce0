//! Bounded checks on the real crate: stand-ins for functions outside the verifier's reach, and the
//! replay search that turns a rejected obligation into a failing input.
#![allow(dead_code)]
mod api;
mod c01;
mod c02;
mod hx;
mod oracle;
mod props;
mod rng;
mod run;
mod walk;

use run::Opts;

fn main() {
    let mut o = Opts {
        check: String::new(),
        seed: 1,
        secs: 5.0,
        threads: 8,
        case: None,
        skip: Default::default(),
        dir: String::from("/tmp/vh"),
        max_cases: u64::MAX,
        hang_secs: 20,
        bin: String::new(),
        arg: String::new(),
    };
    let mut a = std::env::args().skip(1);
    o.check = a.next().unwrap_or_default();
    while let Some(k) = a.next() {
        let v = a.next().unwrap_or_default();
        match k.as_str() {
            "--seed" => o.seed = v.parse().unwrap(),
            "--secs" => o.secs = v.parse().unwrap(),
            "--threads" => o.threads = v.parse().unwrap(),
            "--case" => o.case = Some(v.parse().unwrap()),
            "--skip" => o.skip = v.split(',').filter_map(|x| x.parse().ok()).collect(),
            "--dir" => o.dir = v,
            "--max" => o.max_cases = v.parse().unwrap(),
            "--hang" => o.hang_secs = v.parse().unwrap(),
            "--bin" => o.bin = v,
            "--arg" => o.arg = v,
            _ => panic!("unknown option {k}"),
        }
    }
    std::fs::create_dir_all(&o.dir).unwrap();
    let f: run::CaseFn = match o.check.as_str() {
        "c01" => c01::case,
        "c02" => c02::case,
        "c06" => props::c06,
        "c07" => props::c07,
        "c08" => props::c08,
        "c09" => props::c09,
        "c10" => props::c10,
        "c11" => props::c11,
        "c12" => props::c12,
        "c14" => props::c14,
        "c03" => api::c03,
        "c04" => api::c04,
        "c05" => api::c05,
        "c06s" => api::c06s,
        "c13" => api::c13,
        "c15" => api::c15,
        "c16" => api::c16,
        "c17" => api::c17,
        x => {
            eprintln!("unknown check {x}");
            std::process::exit(2);
        }
    };
    run::run(&o, f);
}
