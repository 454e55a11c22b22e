//! fsim: deterministic simulation of fundsp. See /verif/DESIGN.md.

#[macro_use]
mod core;
mod cat;
mod files;
mod nest;
mod net;
mod oracle;
mod ports;
mod probe;
mod rt;
mod runner;
mod seq;
mod settings;
mod shared;
mod timed;
mod units;

use std::path::PathBuf;

#[global_allocator]
static ALLOCATOR: crate::core::Counting = crate::core::Counting;

fn props() -> Vec<runner::Prop> {
    let mut v = vec![];
    v.extend(net::props());
    v.extend(seq::props());
    v.extend(ports::props());
    v.extend(rt::props());
    v.extend(files::props());
    v.extend(shared::props());
    v.extend(units::props());
    v.extend(nest::props());
    v.extend(timed::props());
    v.extend(settings::props());
    v
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let verif = PathBuf::from(std::env::var("FSIM_VERIF").unwrap_or_else(|_| "/verif".into()));
    let props = props();
    let find = |id: &str| -> &runner::Prop {
        props.iter().find(|p| p.id == id).unwrap_or_else(|| {
            eprintln!("unknown property {id}");
            std::process::exit(2)
        })
    };
    let num = |i: usize| -> u64 { args[i].parse().expect("number") };
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("list") => {
            for p in &props {
                println!("{} {}", p.id, p.title);
            }
            0
        }
        Some("check") => {
            let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
            let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
            let tier = args.get(3).cloned().unwrap_or(tier);
            runner::check(find(&args[2]), &verif, &tier, seed)
        }
        Some("worker") => runner::worker_main(
            find(&args[2]),
            &verif,
            num(3),
            num(4),
            num(5),
            args[6].parse().unwrap(),
            &PathBuf::from(&args[7]),
        ),
        Some("single") => runner::single(find(&args[2]), &verif, num(3), num(4)),
        Some("replay") => {
            let path = PathBuf::from(&args[2]);
            let r = runner::Replay::read(&path);
            runner::replay(find(&r.property), &r, &path, &verif)
        }
        Some("survey") => {
            fundsp::sim::install(&crate::core::HOOK);
            units::survey(&args[2], num(3));
            0
        }
        Some("determinism") => runner::determinism(find(&args[2]), num(3), num(4), num(5)),
        _ => {
            eprintln!("usage: fsim list | check ID [TIER] | replay FILE | determinism ID SEED FIRST N");
            2
        }
    };
    std::process::exit(code);
}
