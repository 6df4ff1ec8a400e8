//! Driver of the generated checks. Subcommands:
//!   list                         the checks of this build
//!   run --prop Cxx | --check n   generate and run cases, one RESULT line per check
//!   replay --check n --choices f run one recorded case (exit 0 pass, 1 fail)
//!   case --check n --case i      run one generated case, writing its choices as they are drawn
//!   digest --check n --choices f print the digest of one case's observable outputs
mod ciphers;
mod engine;
mod gens;
mod p_core;
mod p_cross;
mod p_ct;
mod p_ctor;
#[cfg(not(miri))]
mod p_long;
#[cfg(not(miri))]
mod p_mem;
#[cfg(feature = "cc_rng")]
mod p_rng;
mod p_stream;
mod p_subj;
mod p_wipe;
mod refs;
mod table;

use engine::*;

#[cfg(not(any(miri, fuzzing)))]
#[global_allocator]
static A: p_wipe::Watch = p_wipe::Watch;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let get = |n: &str| args.iter().position(|a| a == n).and_then(|i| args.get(i + 1)).cloned();
    let has = |n: &str| args.iter().any(|a| a == n);
    let num = |n: &str, d: u64| get(n).map(|v| v.parse().expect("HARNESS number")).unwrap_or(d);
    let cmd = args.get(1).cloned().unwrap_or_default();
    let mut opt = Opts {
        seed: num("--seed", 1),
        thorough: has("--thorough"),
        small: has("--small") || cfg!(miri),
        shard: (num("--shard", 0), num("--shards", 1)),
        scale: get("--scale").map(|v| v.parse().unwrap()).unwrap_or(1.0),
        known: get("--known").map(|v| v.split(',').map(String::from).collect()).unwrap_or_default(),
        journal: get("--journal"),
        hashes: get("--hashes"),
        digests: get("--digests"),
        only: get("--only"),
        shrink_budget: num("--shrink", 3000),
        slow: has("--slow"),
    };
    if opt.small {
        opt.shrink_budget = opt.shrink_budget.min(60);
    }
    let table = table::checks();
    if cmd == "list" {
        for c in &table {
            println!("{} {} quick={} thorough={} small={} digest={}", c.prop, c.name, c.quick, c.thorough, c.small, c.digest);
        }
        return;
    }
    if !has("--no-self-test") {
        refs::self_test();
    }
    install_hook();
    let find = |n: &str| -> &Check {
        table.iter().find(|c| c.name == n).unwrap_or_else(|| {
            eprintln!("HARNESS no check {n}");
            std::process::exit(3)
        })
    };
    let choices = || -> Vec<u64> {
        let f = get("--choices").expect("HARNESS --choices");
        let t = if f == "-" { get("--list").unwrap_or_default() } else { std::fs::read_to_string(f).expect("HARNESS choices file") };
        t.split(|c: char| !c.is_ascii_digit()).filter(|s| !s.is_empty()).map(|s| s.parse().expect("HARNESS choice")).collect()
    };
    match cmd.as_str() {
        "run" => {
            let sel: Vec<&Check> = match (get("--check"), get("--prop")) {
                (Some(n), _) => n.split(',').map(find).collect(),
                (_, Some(p)) => table.iter().filter(|c| p.split(',').any(|q| q == c.prop)).collect(),
                _ => table.iter().collect(),
            };
            run(&sel, &opt);
        }
        "replay" | "digest" | "case" => {
            let n = get("--check").expect("HARNESS --check");
            let c = find(&n);
            let (r, ctx) = if cmd == "case" {
                if let Some(t) = get("--trace") {
                    trace_to(&t);
                }
                raw_choices_mode(c, opt.seed, num("--case", 0), &opt, true)
            } else {
                run_choices(c, &choices(), &opt, true)
            };
            println!("CASE {} {}", c.name, ctx.desc);
            println!("DIGEST {:016x}", ctx.digest);
            println!("RECORDED {}", ctx.rec.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","));
            match r {
                Ok(()) => println!("PASS"),
                Err(f) => {
                    println!("FAIL sig={} {}", f.sig, f.msg);
                    std::process::exit(1);
                }
            }
        }
        _ => {
            eprintln!("HARNESS unknown command");
            std::process::exit(3);
        }
    }
}
