#![allow(dead_code)]
mod alloc;
#[macro_use]
mod engine;
mod gen;
mod interp;
mod keys;
mod kv;
mod model2;
mod mutate;
mod props;
mod source;
mod up;
mod wallet;

#[global_allocator]
static A: alloc::Tracking = alloc::Tracking;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let props = props::all();
    let find = |id: &str| props.iter().find(|p| p.id == id).unwrap_or_else(|| panic!("unknown property {}", id));
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("worker") => {
            let n = |i: usize| args[i].parse::<u64>().unwrap();
            let known = args[11].split('\u{1}').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect();
            engine::worker(
                find(&args[2]),
                engine::WorkerArgs {
                    seed: n(3), w: n(4), n: n(5), total: n(6),
                    out: args[7].clone(), progress: args[8].clone(),
                    deadline_s: n(9), only: args[10].parse().ok(), known,
                },
            );
            0
        }
        Some("check") => {
            let id = &args[2];
            let env = |k: &str, d: &str| std::env::var(k).ok().filter(|s| !s.is_empty()).unwrap_or_else(|| d.to_string());
            let root = env("VERIF_ROOT", "/verif");
            let seed_text = env("VERIF_SEED", "1");
            let seed = seed_text.parse().unwrap_or_else(|_| source::hash64(seed_text.as_bytes()));
            engine::check(
                find(id),
                engine::CheckArgs {
                    tier: if env("VERIF_TIER", "quick") == "thorough" { "thorough".into() } else { "quick".into() },
                    seed,
                    bin_sp: env("VERIF_BIN_SP", ""),
                    bin_nosp: env("VERIF_BIN_NOSP", ""),
                    root,
                    workers: env("VERIF_WORKERS", "8").parse().unwrap(),
                    cases: std::env::var("VERIF_CASES").ok().and_then(|s| s.parse().ok()),
                },
            )
        }
        Some("replay") => {
            let f: serde_json::Value = serde_json::from_slice(&std::fs::read(&args[2]).unwrap()).unwrap();
            if f["variant"] != engine::VARIANT {
                eprintln!("note: this replay was recorded with the {} build", f["variant"]);
            }
            engine::replay(find(f["property"].as_str().unwrap()), &f)
        }
        Some("list") => {
            for p in &props {
                println!("{} {} {}", p.id, p.quick, p.thorough);
            }
            0
        }
        _ => {
            eprintln!("usage: psbt-pbt check|replay|list");
            2
        }
    };
    std::process::exit(code);
}
