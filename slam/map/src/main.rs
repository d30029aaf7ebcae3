use cvsim::runner::{self, Config};
use mapsim as scenarios;
use std::path::PathBuf;
use std::time::Duration;

fn main() {
    runner::install_panic_hook();
    let args: Vec<String> = std::env::args().skip(1).collect();
    let opt = |name: &str| {
        args.iter()
            .position(|a| a == name)
            .and_then(|i| args.get(i + 1))
            .cloned()
    };
    let seed = opt("--seed")
        .or_else(|| std::env::var("VERIF_SEED").ok())
        .and_then(|s| s.trim().parse::<u64>().ok())
        .unwrap_or(1);
    let tier = opt("--tier")
        .or_else(|| std::env::var("VERIF_TIER").ok())
        .unwrap_or_else(|| "quick".into());
    let thorough = tier == "thorough";
    let cfg = Config {
        seed,
        thorough,
        runs: opt("--runs").and_then(|s| s.parse().ok()),
        wall: Duration::from_secs(
            opt("--wall")
                .and_then(|s| s.parse().ok())
                .unwrap_or(if thorough { 3000 } else { 300 }),
        ),
        threads: opt("--threads")
            .and_then(|s| s.parse().ok())
            .unwrap_or_else(|| std::thread::available_parallelism().map_or(4, |n| n.get())),
        verif: PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into())),
        verbose: args.iter().any(|a| a == "-v"),
    };
    let code = match args.first().map(String::as_str) {
        Some("check") => match args.get(1).and_then(|id| scenarios::find(id)) {
            Some(s) => runner::check(s, &cfg),
            None => {
                eprintln!("unknown property");
                2
            }
        },
        // Search without minimising or evidence: determinism and calibration.
        Some("probe") => {
            let ids: Vec<String> = match args.get(1) {
                Some(id) if id != "all" => vec![id.clone()],
                _ => scenarios::all().iter().map(|s| s.id().to_string()).collect(),
            };
            let mut code = 0;
            for id in ids {
                let s = scenarios::find(&id).expect("known property");
                let (cov, first, wall) = runner::search(s, &cfg);
                println!("{id} seed {seed} wall {wall:.1}s digest {}", cov["event_log_digest"]);
                if cfg.verbose {
                    for k in [
                        "simulated_runs", "distinct_nontrivial", "events", "oracle_evaluations", "simulated_seconds",
                        "faults_fired", "probes", "distinct_interleavings", "distinct_states", "distinct_fault_mixes",
                    ] {
                        println!("  {k}: {}", cov[k]);
                    }
                    for (k, v) in cov["worst_error_over_tolerance"].as_object().unwrap() {
                        println!("  margin {k}: {v}");
                    }
                }
                if let Some((i, v)) = first {
                    println!("  run {i} {} : {}", v.class, v.detail);
                    code = 1;
                }
            }
            code
        }
        Some("trace") => {
            let s = scenarios::find(&args[1]).expect("known property");
            let plan = runner::make_plan(s, seed, args[2].parse().unwrap(), thorough);
            println!("{}", serde_json::to_string(&plan).unwrap());
            if cfg.verbose {
                let _ = log::set_logger(&Print).map(|()| log::set_max_level(log::LevelFilter::Info));
            }
            let (cx, v) = runner::exec(s, &plan, true);
            for l in cx.lines.unwrap() {
                println!("{l}");
            }
            println!("{v:?}");
            0
        }
        Some("replay") => match args.get(1) {
            Some(p) => runner::replay(scenarios::find, PathBuf::from(p).as_path()),
            None => 2,
        },
        Some("list") => {
            for s in scenarios::all() {
                println!("{}", s.id());
            }
            0
        }
        _ => {
            eprintln!("usage: cvsim check|probe|replay|trace|list ...");
            2
        }
    };
    std::process::exit(code);
}

/// What the node says about itself, for looking into a run.
struct Print;
impl log::Log for Print {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, r: &log::Record) {
        println!("    {}", r.args());
    }
    fn flush(&self) {}
}
