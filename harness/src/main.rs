mod engine;
mod exit;
mod world;
mod admin;
mod crowd;
mod factory;
mod lapse;
mod multihop;
mod probe;
mod pure;
mod rewards;
mod settings;
mod stable;
mod system;
mod stake;
mod taxed;
mod token;
mod trader;
mod vesting;
mod xyk;

use std::time::Duration;

extern "C" {
    fn mallopt(param: i32, value: i32) -> i32;
}

fn main() {
    // contract memories are allocated and dropped on every call: keep them in the heap
    unsafe {
        mallopt(-3, 1 << 30); // M_MMAP_THRESHOLD
        mallopt(-1, i32::MAX); // M_TRIM_THRESHOLD
    }
    let args: Vec<String> = std::env::args().collect();
    let root = std::env::var("VH_ROOT").unwrap_or_else(|_| "/verif".into());
    let dir = std::env::var("VH_WASM").unwrap_or_else(|_| "/repo/target/wasm32-unknown-unknown/release".into());
    if let Err(e) = world::load_wasm(&dir, &format!("{root}/reference")) {
        eprintln!("cannot load contracts: {e}");
        std::process::exit(2);
    }
    let mut props = vec![];
    props.extend(xyk::props());
    props.extend(stable::props());
    props.extend(stake::props());
    props.extend(trader::props());
    props.extend(vesting::props());
    props.extend(factory::props());
    props.extend(multihop::props());
    props.extend(rewards::props());
    props.extend(pure::props());
    props.extend(token::props());
    props.extend(admin::props());
    props.extend(settings::props());
    props.extend(lapse::props());
    props.extend(crowd::props());
    props.extend(exit::props());
    props.extend(system::props());
    match args.get(1).map(|s| s.as_str()) {
        Some("list") => {
            for p in &props {
                println!("{} {}", p.id, p.title);
            }
        }
        Some("replay") => std::process::exit(engine::replay(&props, &args[2])),
        Some("run") => {
            let id = &args[2];
            let tier = args.get(3).cloned().or_else(|| std::env::var("VERIF_TIER").ok()).unwrap_or_else(|| "quick".into());
            let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
            let scale: f64 = std::env::var("VH_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
            let thorough = tier == "thorough";
            let cap: u64 = std::env::var("VH_CAP").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough { 3000 } else { 150 });
            let Some(p) = props.iter().find(|p| p.id == id) else {
                eprintln!("unknown property {id}");
                std::process::exit(2);
            };
            let cfg = engine::Config { seed, thorough, scale, time_cap: Duration::from_secs(cap), root };
            std::process::exit(engine::run_prop(p, &cfg));
        }
        _ => {
            eprintln!("usage: vh list | run ID [quick|thorough] | replay FILE");
            std::process::exit(2);
        }
    }
}
