//! Seeded search over plans, minimisation, replay and evidence.

use crate::rng::{fnv, mix, Rng};
use crate::sim::{Cx, Plan, Res, Violation};
use serde::{Deserialize, Serialize};
use serde_json::json;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub trait Scenario: Sync + Send {
    fn id(&self) -> &'static str;
    /// Number of simulated runs in a tier.
    fn runs(&self, thorough: bool) -> u64;
    fn gen(&self, rng: &mut Rng, thorough: bool) -> Plan;
    fn run(&self, plan: &Plan, cx: &mut Cx) -> Res;
    /// Components of the repository that run for real.
    fn real(&self) -> &'static [&'static str];
    /// Components replaced by the simulator or the harness.
    fn stub(&self) -> &'static [&'static str];
    fn rule(&self) -> &'static str;
    /// Knob values the minimiser tries.
    fn floors(&self) -> &'static [(&'static str, f64)] {
        &[]
    }
    fn nontrivial(&self, cx: &Cx) -> bool {
        cx.checks > 0 && cx.events >= 3
    }
}

#[derive(Serialize, Deserialize)]
pub struct Replay {
    pub violation: Violation,
    /// Hash of the event log of the failing run, to show that a replay is the same execution.
    pub log_hash: String,
    pub minimised_from_ops: usize,
    pub plan: Plan,
}

thread_local! {
    static PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            (*s).to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = Some(format!("{msg} at {loc}")));
    }));
}

/// Executes a plan once.
pub fn exec(s: &dyn Scenario, plan: &Plan, verbose: bool) -> (Cx, Option<Violation>) {
    let mut cx = Cx::new(verbose);
    let r = catch_unwind(AssertUnwindSafe(|| s.run(plan, &mut cx)));
    let v = match r {
        Ok(Ok(())) => None,
        Ok(Err(v)) => Some(v),
        Err(_) => {
            let detail = PANIC
                .with(|p| p.borrow_mut().take())
                .unwrap_or_else(|| "panic".into());
            Some(Violation {
                class: "panic".into(),
                detail,
            })
        }
    };
    if let Some(v) = &v {
        let line = format!("VIOLATION {} : {}", v.class, v.detail);
        cx.log(line);
    }
    (cx, v)
}

/// Executes a plan on a thread of its own, and gives up on it as hung after `limit` of real time.
/// A hung thread is left behind until the process ends.
fn exec_limited(s: &'static dyn Scenario, plan: &Plan, limit: Duration, verbose: bool) -> (Cx, Option<Violation>) {
    let (tx, rx) = std::sync::mpsc::channel();
    let p = plan.clone();
    std::thread::spawn(move || {
        let _ = tx.send(exec(s, &p, verbose));
    });
    rx.recv_timeout(limit).unwrap_or_else(|_| {
        (
            Cx::new(verbose),
            Some(Violation {
                class: "hang".into(),
                detail: format!("no progress for {limit:?} of real time; runs take milliseconds"),
            }),
        )
    })
}

pub fn make_plan(s: &dyn Scenario, seed: u64, index: u64, thorough: bool) -> Plan {
    let mut rng = Rng::of(&[seed, fnv(s.id().as_bytes()), index]);
    let mut plan = s.gen(&mut rng, thorough);
    plan.property = s.id().to_string();
    plan.origin = format!("VERIF_SEED={seed} run={index}");
    plan
}

/// A plan must survive being written down: everything runs from its parsed form.
fn through_json(plan: &Plan) -> Plan {
    serde_json::from_str(&serde_json::to_string(plan).unwrap()).unwrap()
}

pub struct Config {
    pub seed: u64,
    pub thorough: bool,
    pub runs: Option<u64>,
    pub wall: Duration,
    pub threads: usize,
    pub verif: PathBuf,
    pub verbose: bool,
}

#[derive(Default)]
struct Agg {
    runs: u64,
    nontrivial: u64,
    events: u64,
    checks: u64,
    sim_us: u64,
    faults: BTreeMap<&'static str, u64>,
    faulty_runs: BTreeMap<&'static str, u64>,
    probes: BTreeMap<&'static str, u64>,
    worst: BTreeMap<&'static str, (f64, u64)>,
    states: BTreeSet<u64>,
    orders: BTreeSet<u64>,
    hashes: BTreeMap<u64, u64>,
    fault_mixes: BTreeSet<u64>,
    rechecked: u64,
    violations: BTreeMap<u64, (Violation, u64)>,
}

/// How long one run may take in real time before it counts as stuck. Runs take milliseconds.
const STUCK: Duration = Duration::from_secs(60);
/// The same while a failure is being minimised, and how many hung executions that may leave behind.
const STUCK_AGAIN: Duration = Duration::from_secs(4);
const MAX_HUNG: usize = 10;

pub fn search(s: &'static dyn Scenario, cfg: &Config) -> (serde_json::Value, Option<(u64, Violation)>, f64) {
    let start = Instant::now();
    let total = cfg.runs.unwrap_or_else(|| s.runs(cfg.thorough));
    let next = AtomicU64::new(0);
    let stop_at = AtomicU64::new(u64::MAX);
    let agg = Mutex::new(Agg::default());
    let slots: Vec<Mutex<Option<(u64, Instant)>>> =
        (0..cfg.threads).map(|_| Mutex::new(None)).collect();
    let done = AtomicU64::new(0);
    std::thread::scope(|sc| {
        for slot in &slots {
            let (next, stop_at, agg, done) = (&next, &stop_at, &agg, &done);
            sc.spawn(move || {
                loop {
                    let i = next.fetch_add(1, Ordering::SeqCst);
                    if i >= total || i > stop_at.load(Ordering::SeqCst) {
                        break;
                    }
                    if start.elapsed() > cfg.wall {
                        break;
                    }
                    *slot.lock().unwrap() = Some((i, Instant::now()));
                    let plan = through_json(&make_plan(s, cfg.seed, i, cfg.thorough));
                    let (cx, mut v) = exec(s, &plan, false);
                    let mut again = false;
                    if v.is_none() && i % 16 == 0 {
                        // The same plan again: one seed is one execution.
                        let (cx2, v2) = exec(s, &plan, false);
                        again = true;
                        if cx2.hash != cx.hash || v2.is_some() {
                            v = Some(Violation {
                                class: "nondeterministic".into(),
                                detail: "the same plan gave two different event logs".into(),
                            });
                        }
                    }
                    *slot.lock().unwrap() = None;
                    let mut a = agg.lock().unwrap();
                    a.runs += 1;
                    a.rechecked += u64::from(again);
                    if s.nontrivial(&cx) {
                        a.nontrivial += 1;
                    }
                    a.events += cx.events;
                    a.checks += cx.checks;
                    a.sim_us += cx.sim_us;
                    let mut fm = vec![];
                    for (k, n) in &cx.faults {
                        *a.faults.entry(k).or_insert(0) += n;
                        *a.faulty_runs.entry(k).or_insert(0) += 1;
                        fm.push(fnv(k.as_bytes()));
                    }
                    a.fault_mixes.insert(mix(&fm));
                    for (k, n) in &cx.probes {
                        *a.probes.entry(k).or_insert(0) += n;
                    }
                    for (k, r) in &cx.worst {
                        let e = a.worst.entry(k).or_insert((0.0, i));
                        if *r > e.0 || r.is_nan() {
                            *e = (*r, i);
                        }
                    }
                    if a.states.len() < 4_000_000 {
                        a.states.extend(cx.states.iter().copied());
                    }
                    a.orders.insert(mix(&[cx.order, plan.world]));
                    a.hashes.insert(i, cx.hash);
                    if let Some(v) = v {
                        a.violations.insert(i, (v, cx.hash));
                        stop_at.fetch_min(i, Ordering::SeqCst);
                    }
                }
                done.fetch_add(1, Ordering::SeqCst);
            });
        }
        // Watchdog: the only place that looks at a real clock to judge a run.
        while done.load(Ordering::SeqCst) < cfg.threads as u64 {
            std::thread::sleep(Duration::from_millis(20));
            for slot in &slots {
                let cur = *slot.lock().unwrap();
                if let Some((i, t)) = cur {
                    if t.elapsed() > STUCK {
                        let v = Violation {
                            class: "hang".into(),
                            detail: format!("run {i} made no progress for {STUCK:?} of real time; runs take milliseconds"),
                        };
                        println!("run {i}: {} : {}", v.class, v.detail);
                        report(s, cfg, &through_json(&make_plan(s, cfg.seed, i, cfg.thorough)), &v);
                        std::process::exit(1);
                    }
                }
            }
        }
    });
    let a = agg.into_inner().unwrap();
    let wall = start.elapsed().as_secs_f64();
    let digest = a.hashes.iter().fold(0, |h, (i, x)| mix(&[h, *i, *x]));
    let samples: Vec<_> = (0..2.min(total))
        .map(|i| {
            let p = make_plan(s, cfg.seed, i, cfg.thorough);
            json!({"origin": p.origin, "knobs": p.knobs, "steps": p.ops.len(),
                "first_steps": p.ops.iter().take(6).collect::<Vec<_>>()})
        })
        .collect();
    let cov = json!({
        "evaluations": a.runs,
        "distinct_nontrivial": a.nontrivial.min(a.orders.len() as u64),
        "rule": s.rule(),
        "samples": samples,
        "simulated_runs": a.runs,
        "seeds_per_hour": if wall > 0.0 { (a.runs as f64 / wall * 3600.0).round() } else { 0.0 },
        "simulated_seconds": a.sim_us as f64 / 1e6,
        "events": a.events,
        "oracle_evaluations": a.checks,
        "faults_fired": a.faults,
        "runs_with_fault": a.faulty_runs,
        "distinct_fault_mixes": a.fault_mixes.len(),
        "probes": a.probes,
        "distinct_interleavings": a.orders.len(),
        "interleaving_measure": "hash of the sequence of scheduling decisions (delivery, sampling, crash and step order) with the world seed",
        "distinct_states": a.states.len(),
        "state_measure": "hash of the abstract state after each step, as each scenario defines it",
        "runs_executed_twice_with_equal_logs": a.rechecked,
        "event_log_digest": format!("{digest:016x}"),
        "worst_error_over_tolerance": a.worst.iter().map(|(k, (r, i))| (k.to_string(), json!({"ratio": r, "run": i}))).collect::<BTreeMap<_, _>>(),
        "real_components": s.real(),
        "stub_components": s.stub(),
    });
    let first = a.violations.into_iter().next().map(|(i, (v, _))| (i, v));
    (cov, first, wall)
}

fn write_replay(
    cfg: &Config,
    id: &str,
    v: &Violation,
    hash: u64,
    from: usize,
    plan: &Plan,
) -> PathBuf {
    let dir = cfg.verif.join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{id}-seed{}.json", cfg.seed));
    let r = Replay {
        violation: v.clone(),
        log_hash: format!("{hash:016x}"),
        minimised_from_ops: from,
        plan: plan.clone(),
    };
    std::fs::write(&path, serde_json::to_string_pretty(&r).unwrap()).expect("write replay");
    path
}

/// Executes a plan the way the class of violation needs, in order to see whether it fails.
fn fails(s: &'static dyn Scenario, plan: &Plan, class: &str) -> Option<(Violation, u64)> {
    let (cx, v) = exec_limited(s, plan, STUCK_AGAIN, false);
    if let Some(v) = v {
        return Some((v, cx.hash));
    }
    if class == "nondeterministic" {
        let (cx2, v2) = exec_limited(s, plan, STUCK_AGAIN, false);
        if cx2.hash != cx.hash || v2.is_some() {
            return Some((
                Violation {
                    class: class.into(),
                    detail: "the same plan gave two different event logs".into(),
                },
                cx.hash,
            ));
        }
    }
    None
}

pub fn minimise(s: &'static dyn Scenario, plan: &Plan, class: &str, budget: Duration) -> Plan {
    let start = Instant::now();
    let mut best = plan.clone();
    let hung = std::cell::Cell::new(0);
    let keeps = |p: &Plan| {
        if hung.get() >= MAX_HUNG {
            return false;
        }
        fails(s, p, class).map_or(false, |(v, _)| {
            hung.set(hung.get() + usize::from(v.class == "hang"));
            v.class == class
        })
    };
    loop {
        let before = best.clone();
        // Drop steps, in ever smaller chunks.
        let mut chunk = best.ops.len().div_ceil(2).max(1);
        loop {
            let mut i = 0;
            while i < best.ops.len() {
                if start.elapsed() > budget {
                    return best;
                }
                let mut cand = best.clone();
                let end = (i + chunk).min(cand.ops.len());
                cand.ops.drain(i..end);
                if keeps(&cand) {
                    best = cand;
                } else {
                    i += chunk;
                }
            }
            if chunk == 1 {
                break;
            }
            chunk = chunk.div_ceil(2);
        }
        // Simplify knobs.
        for &(k, v) in s.floors() {
            if best.knobs.get(k).map_or(false, |x| *x != v) && start.elapsed() < budget {
                let mut cand = best.clone();
                cand.set(k, v);
                if keeps(&cand) {
                    best = cand;
                }
            }
        }
        // Simplify arguments: trailing ones are deliveries, so fewer is simpler.
        for i in 0..best.ops.len() {
            while !best.ops[i].a.is_empty() && start.elapsed() < budget {
                let mut cand = best.clone();
                cand.ops[i].a.pop();
                if keeps(&cand) {
                    best = cand;
                } else {
                    break;
                }
            }
        }
        if best == before || start.elapsed() > budget {
            return best;
        }
    }
}

/// Findings that are recorded instead of repaired: `KNOWN property=<id> class=<class> plan=<hash>`.
fn known(cfg: &Config, id: &str) -> Vec<(String, String)> {
    let text = std::fs::read_to_string(cfg.verif.join("known-findings.txt")).unwrap_or_default();
    text.lines()
        .filter_map(|l| l.strip_prefix("known: "))
        .filter(|l| l.contains(&format!("property={id} ")))
        .map(|l| {
            let class = l
                .split_whitespace()
                .find_map(|w| w.strip_prefix("class="))
                .unwrap_or("")
                .to_string();
            (class, l.to_string())
        })
        .collect()
}

pub fn check(s: &'static dyn Scenario, cfg: &Config) -> i32 {
    println!(
        "{}: VERIF_SEED={} tier={} threads={}",
        s.id(),
        cfg.seed,
        if cfg.thorough { "thorough" } else { "quick" },
        cfg.threads
    );
    for (_, line) in known(cfg, s.id()) {
        println!("KNOWN-FINDING: {line}");
    }
    // First what once failed: minimised plans of defects that are repaired.
    let corpus = corpus(cfg, s.id());
    let returned = corpus.iter().find_map(|plan| Some((plan, exec_limited(s, plan, STUCK, false).1?)));
    let (mut cov, first, wall) = search(s, cfg);
    cov["replayed_plans"] = json!(corpus.len());
    let evidence = json!({
        "property": s.id(),
        "tier": if cfg.thorough { "thorough" } else { "quick" },
        "seed": cfg.seed,
        "level": "exploration",
        "coverage": cov,
        "assumptions": [
            "seeded sampling of schedules, histories and faults: evidence, not proof",
            "float behaviour of this machine and toolchain (release profile with debug assertions and overflow checks)",
        ],
        "wall_s": wall,
        "violations": u64::from(first.is_some() || returned.is_some()),
    });
    let dir = cfg.verif.join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    std::fs::write(
        dir.join(format!("{}.json", s.id())),
        serde_json::to_string_pretty(&evidence).unwrap(),
    )
    .expect("write evidence");
    println!(
        "{}: {} runs, {} events, {} oracle evaluations, {:.1}s",
        s.id(),
        cov["simulated_runs"],
        cov["events"],
        cov["oracle_evaluations"],
        wall
    );
    if let Some((plan, v)) = returned {
        println!("{}: {} : {}", plan.origin, v.class, v.detail);
        report(s, cfg, plan, &v);
        return 1;
    }
    let Some((index, v)) = first else {
        println!("{}: held on everything explored", s.id());
        return 0;
    };
    println!("run {index}: {} : {}", v.class, v.detail);
    report(s, cfg, &through_json(&make_plan(s, cfg.seed, index, cfg.thorough)), &v);
    1
}

/// Minimised plans that failed before a defect was repaired, one to a line.
fn corpus(cfg: &Config, id: &str) -> Vec<Plan> {
    let text = std::fs::read_to_string(cfg.verif.join("corpus").join(format!("{id}.jsonl"))).unwrap_or_default();
    text.lines().map(|l| serde_json::from_str(l).expect("a plan")).collect()
}

/// Minimises a failing run, writes its replay file and shows that it fails again.
fn report(s: &'static dyn Scenario, cfg: &Config, plan: &Plan, v: &Violation) {
    let from = plan.ops.len();
    let small = minimise(s, plan, &v.class, Duration::from_secs(60));
    let (path, shown) = match fails(s, &small, &v.class) {
        Some((v2, hash)) => (write_replay(cfg, s.id(), &v2, hash, from, &small), v2),
        None => (write_replay(cfg, s.id(), v, 0, from, plan), v.clone()),
    };
    // The replay file must fail the same way in a fresh process.
    let again = std::process::Command::new(std::env::current_exe().unwrap())
        .arg("replay")
        .arg(&path)
        .output();
    let ok = matches!(&again, Ok(o) if o.status.code() == Some(1));
    println!(
        "minimised from {from} to {} steps; replay in a fresh process {}",
        small.ops.len(),
        if ok { "reproduces it" } else { "did NOT reproduce it (state outside the plan)" }
    );
    println!("{} : {}", shown.class, shown.detail);
    println!("VIOLATION property={} replay={}", s.id(), path.display());
}

pub fn replay(find: impl Fn(&str) -> Option<&'static dyn Scenario>, path: &Path) -> i32 {
    let Ok(text) = std::fs::read_to_string(path) else {
        eprintln!("cannot read {}", path.display());
        return 2;
    };
    let Ok(r) = serde_json::from_str::<Replay>(&text) else {
        eprintln!("not a replay file");
        return 2;
    };
    let Some(s) = find(&r.plan.property) else {
        eprintln!("unknown property {}", r.plan.property);
        return 2;
    };
    let (cx, v) = exec_limited(s, &r.plan, STUCK, true);
    for l in cx.lines.unwrap_or_default() {
        println!("{l}");
    }
    let v = v.or_else(|| fails(s, &r.plan, &r.violation.class).map(|x| x.0));
    match v {
        Some(v) if v.class == r.violation.class => {
            let same = format!("{:016x}", cx.hash) == r.log_hash;
            println!(
                "REPRODUCED {} : {} (event log {})",
                v.class,
                v.detail,
                if same { "identical" } else { "differs" }
            );
            1
        }
        Some(v) => {
            println!("DIFFERENT {} : {}", v.class, v.detail);
            3
        }
        None => {
            println!("NOT REPRODUCED");
            0
        }
    }
}

/// Runs `f` on a thread of its own, so that it starts from fresh thread-local state. A panic in it is
/// a panic of the caller.
pub fn in_fresh_thread<R: Send>(f: impl FnOnce() -> R + Send) -> R {
    let r = std::thread::scope(|s| {
        s.spawn(|| catch_unwind(AssertUnwindSafe(f)).map_err(|e| (e, PANIC.with(|p| p.borrow_mut().take()))))
            .join()
            .expect("caught")
    });
    match r {
        Ok(r) => r,
        Err((e, msg)) => {
            PANIC.with(|p| *p.borrow_mut() = msg);
            std::panic::resume_unwind(e)
        }
    }
}
