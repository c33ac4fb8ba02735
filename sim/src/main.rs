//! Deterministic simulation of silverfox: seeded search for a violation.
//!
//!   sim check <property>      (VERIF_SEED, VERIF_TIER)
//!   sim replay <file>         runs a replay file again
//!   sim show <property> <i>   writes out scenario number i and its execution
//!   sim same <property> <n>   runs n scenarios twice and compares the executions
mod cal;
mod gen;
mod machine;
mod model;
mod outp;
mod props;
mod rng;
mod scen;
mod shm;
mod shrink;

use rng::Rng;
use scen::*;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

fn root() -> String {
    std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into())
}
fn binary() -> String {
    std::env::var("SIM_BINARY").unwrap_or_else(|_| format!("{}/.build/sut/debug/silverfox", root()))
}
fn shim() -> String {
    std::env::var("SIM_SHIM").unwrap_or_else(|_| format!("{}/.build/shim.so", root()))
}
fn env_num(k: &str) -> Option<u64> {
    std::env::var(k).ok().and_then(|s| s.trim().parse().ok())
}

fn scenario(prop: &str, seed: u64, i: u64) -> Scenario {
    let mut r = Rng::new(rng::mix(rng::mix(seed) ^ rng::hash_str(prop)).wrapping_add(rng::mix(i)));
    props::generate(prop, &mut r)
}

/// One execution, judged.  When the clock is set during runs, each may go by
/// the date before or after that, but has to stick to it: a violation is one
/// under each way to read it.
fn eval(ctx: &mut Ctx, s: &Scenario) -> Verdict {
    let v = eval_as_is(ctx, s);
    let jumps = s.runs().filter(|r| r.jump.is_some()).count();
    if jumps == 0 || !matches!(v, Verdict::Bad { .. }) {
        return v;
    }
    let n = jumps.min(4);
    for mask in 1..1u32 << n {
        let mut t = s.clone();
        for (i, r) in t.runs_mut().filter(|r| r.jump.is_some()).enumerate() {
            r.late = mask >> i.min(n - 1) & 1 == 1;
        }
        if matches!(eval_as_is(ctx, &t), Verdict::Pass) {
            return Verdict::Pass;
        }
    }
    eval_as_is(ctx, s)
}

/// A panic of the simulator itself is no verdict.
fn eval_as_is(ctx: &mut Ctx, s: &Scenario) -> Verdict {
    ctx.begin();
    match catch_unwind(AssertUnwindSafe(|| props::check(ctx, s))) {
        Ok(v) => v,
        Err(e) => {
            let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            ctx.m = machine::Machine::new(&binary(), &shim());
            Verdict::Unclear(format!("simulator: {m}"))
        }
    }
}

struct Found {
    index: u64,
    class: String,
    text: String,
    scen: Scenario,
}

/// Scenarios per quick run.
fn quick_count(prop: &str) -> u64 {
    match prop {
        "C08" => 30_000,
        "C17" => 36_000,
        "C04" | "C18" => 60_000,
        _ => 100_000,
    }
}

struct Known {
    property: String,
    class: String,
    contains: String,
    what: String,
}
fn known(prop: &str) -> Vec<Known> {
    let Ok(t) = std::fs::read_to_string(format!("{}/known_findings.json", root())) else { return vec![] };
    let v: Value = serde_json::from_str(&t).expect("known_findings.json");
    let g = |e: &Value, k: &str| e[k].as_str().unwrap_or("").to_string();
    v["known"]
        .as_array()
        .map(|a| {
            a.iter()
                .map(|e| Known { property: g(e, "property"), class: g(e, "class"), contains: g(e, "contains"), what: g(e, "what") })
                .filter(|k| k.property == prop)
                .collect()
        })
        .unwrap_or_default()
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    // simulator panics are caught and counted
    if std::env::var("SIM_DEBUG").is_err() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("check") => check(&a[2]),
        Some("replay") => replay(&a[2]),
        Some("show") => show(&a[2], a[3].parse().unwrap()),
        Some("same") => same(&a[2], a[3].parse().unwrap()),
        _ => {
            eprintln!("usage: sim check <property> | replay <file> | show <property> <index> | same <property> <count>");
            2
        }
    };
    std::process::exit(code);
}

fn check(prop: &str) -> i32 {
    assert!(props::ALL.contains(&prop), "unknown property");
    let t0 = Instant::now();
    let seed = env_num("VERIF_SEED").unwrap_or(1);
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let tier = if tier == "thorough" { "thorough" } else { "quick" };
    let (count, cap) = if tier == "quick" { (quick_count(prop), 80) } else { (u64::MAX >> 8, 1500) };
    let count = env_num("SIM_COUNT").unwrap_or(count);
    let cap = Duration::from_secs(env_num("SIM_WALL").unwrap_or(cap));
    let threads = env_num("SIM_THREADS").unwrap_or_else(|| std::thread::available_parallelism().map_or(8, |n| n.get() as u64)).clamp(1, 8);
    let known = known(prop);
    let next = AtomicU64::new(0);
    let stop = AtomicU64::new(count);
    let found: Mutex<Vec<Found>> = Mutex::new(vec![]);
    let total: Mutex<Stats> = Mutex::new(Stats::default());
    let hit_known: Mutex<BTreeMap<usize, u64>> = Mutex::new(BTreeMap::new());
    let samples: Mutex<BTreeMap<u64, Value>> = Mutex::new(BTreeMap::new());
    std::thread::scope(|sc| {
        for _ in 0..threads {
            sc.spawn(|| {
                let mut ctx = Ctx::new(&binary(), &shim());
                loop {
                    let i = next.fetch_add(1, Ordering::SeqCst);
                    if i >= stop.load(Ordering::SeqCst) || t0.elapsed() > cap {
                        break;
                    }
                    let Ok(s) = catch_unwind(|| scenario(prop, seed, i)) else {
                        *ctx.st.unclear.entry("generator".into()).or_default() += 1;
                        continue;
                    };
                    let v = eval(&mut ctx, &s);
                    ctx.st.scenarios += 1;
                    match v {
                        Verdict::Pass => {
                            if ctx.nontrivial {
                                ctx.st.nontrivial += 1;
                                ctx.st.prints.insert(ctx.print);
                                if i < 400 {
                                    let mut m = samples.lock().unwrap();
                                    if m.len() < 3 || m.keys().next_back().is_some_and(|k| *k > i) {
                                        m.insert(i, sample(i, &s, ctx.print));
                                        if m.len() > 3 {
                                            m.pop_last();
                                        }
                                    }
                                }
                            }
                        }
                        Verdict::Unclear(u) => *ctx.st.unclear.entry(u).or_default() += 1,
                        Verdict::Bad { class, text } => {
                            if let Some(k) = known.iter().position(|k| k.class == class && text.contains(&k.contains)) {
                                *hit_known.lock().unwrap().entry(k).or_default() += 1;
                                continue;
                            }
                            stop.fetch_min(i, Ordering::SeqCst);
                            found.lock().unwrap().push(Found { index: i, class, text, scen: s });
                        }
                    }
                }
                total.lock().unwrap().merge(&ctx.st);
            });
        }
    });
    let mut st = total.into_inner().unwrap();
    let mut found = found.into_inner().unwrap();
    found.sort_by_key(|f| f.index);
    for (k, n) in hit_known.into_inner().unwrap() {
        println!("KNOWN-FINDING: property={prop} {} ({n} scenarios)", known[k].what);
    }
    let search_s = t0.elapsed().as_secs_f64();
    let mut violation = None;
    if !found.is_empty() {
        let mut ctx = Ctx::new(&binary(), &shim());
        for f in &found {
            // one seed is one execution: it has to come out the same again
            let v1 = eval(&mut ctx, &f.scen);
            let p1 = ctx.print;
            let v2 = eval(&mut ctx, &f.scen);
            let again = matches!((&v1, &v2), (Verdict::Bad { class: a, .. }, Verdict::Bad { class: b, .. }) if *a == f.class && *b == f.class) && ctx.print == p1;
            if !again {
                eprintln!("scenario {} did not come out the same again; not believed: {} {}", f.index, f.class, f.text);
                *st.unclear.entry("not reproduced".into()).or_default() += 1;
                continue;
            }
            violation = Some(report(prop, seed, f, &mut ctx));
            break;
        }
        if violation.is_none() {
            eprintln!("the executions are not deterministic");
            return 3;
        }
    }
    let unclear: u64 = st.unclear.values().sum();
    let wall = t0.elapsed().as_secs_f64();
    let ev = json!({
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": st.scenarios,
            "distinct_nontrivial": st.prints.len(),
            "rule": format!("Scenario i is drawn from the seed ({seed}, {prop}, i): files, commands, dates, zones, hash seeds, faults and schedule. Non-trivial: {}. Distinct: by a hash over every simulated call with its result, all output, exit status and the disk after each run.", nontrivial_rule(prop)),
            "samples": samples.into_inner().unwrap().into_values().collect::<Vec<_>>(),
            "processes_simulated": st.runs,
            "dry_runs_to_place_faults": st.dry,
            "scenarios_per_hour": (st.scenarios as f64 / search_s * 3600.0) as u64,
            "processes_per_hour": (st.runs as f64 / search_s * 3600.0) as u64,
            "simulated_days_between_runs": st.sim_days,
            "faults_and_disturbances_injected": st.fired,
            "situations_reached": st.probes,
            "distinct_interleavings": st.schedules.len(),
            "no_verdict": st.unclear,
            "real_code": ["the silverfox binary built from /repo, unmodified", "chrono, csv, terminal_size", "Rust std"],
            "simulated": ["file system, file locks and disk space", "system clock and time zone", "entropy", "terminal and standard streams", "process kill, scheduling of concurrent processes"],
        },
        "assumptions": [
            "a completed write() survives a kill; power loss and fsync are not modelled",
            "silverfox reaches the outside only through the libc functions that the simulated libc replaces (calls it lacks are detected and give no verdict)",
            "the reference model in sim/src/model.rs reads journals as the documentation describes them"
        ],
        "wall_s": wall,
        "violations": if violation.is_some() { 1 } else { 0 },
    });
    std::fs::create_dir_all(format!("{}/evidence", root())).expect("evidence folder");
    std::fs::write(format!("{}/evidence/{prop}.json", root()), serde_json::to_string_pretty(&ev).unwrap() + "\n").expect("evidence");
    println!(
        "{prop} {tier} seed {seed}: {} scenarios ({} non-trivial, {} distinct), {} processes, {:.1} s, {} without verdict",
        st.scenarios, st.nontrivial, st.prints.len(), st.runs, wall, unclear
    );
    if std::env::var("SIM_DEBUG").is_ok() {
        println!("{:#?}\n{:#?}\n{:#?}", st.fired, st.probes, st.unclear);
    }
    if let Some(p) = violation {
        println!("VIOLATION property={prop} replay={p}");
        return 1;
    }
    if st.scenarios == 0 || unclear * 3 > st.scenarios {
        eprintln!("too many scenarios without a verdict: {:?}", st.unclear);
        return 2;
    }
    0
}

fn nontrivial_rule(prop: &str) -> &'static str {
    match prop {
        "C01" => "the journal grew or a fault took effect",
        "C02" => "a kill took effect in a run that has something to record",
        "C03" => "a write fault took effect in a run that has something to record",
        "C04" => "the run recorded something",
        "C05" => "the import stopped with an error",
        "C06" | "C07" | "C08" => "money was moved automatically",
        "C09" => "an envelope that holds money was shown",
        "C10" | "C11" | "C12" => "the journal has entries for the view to show",
        "C13" => "the twins were run and printed or recorded something",
        "C14" => "an input was missing, unreadable or failed",
        "C15" => "every scenario (an arbitrary input run to its end)",
        "C16" => "both spellings of the path were run and gave a result",
        "C17" => "control changed between the processes more than once",
        "C18" => "the run recorded something",
        "C20" => "the layouts differ and the command gave a result",
        "C22" => "the journal or the rules have a mistake in them",
        "C21" => "the command line was refused, or both spellings gave a result",
        _ => "the CSV file has at least one row",
    }
}

fn sample(i: u64, s: &Scenario, print: u64) -> Value {
    json!({ "index": i, "family": s.family, "files": s.world.files.iter().map(|f| format!("{} ({} bytes)", f.path, f.render().len())).collect::<Vec<_>>(),
        "steps": s.steps.iter().map(show_step).collect::<Vec<_>>(), "execution": format!("{print:016x}") })
}
fn show_step(st: &Step) -> String {
    match st {
        Step::Run(r) => r.show(),
        Step::Edit { path, text } => format!("append to {path}: {text:?}"),
        Step::Conc { runs, appends, sched } => format!(
            "at once: [{}], outside appends {}, choices {:?}",
            runs.iter().map(|r| r.show()).collect::<Vec<_>>().join(" | "),
            appends.len(),
            &sched[..sched.len().min(40)]
        ),
    }
}

fn report(prop: &str, seed: u64, f: &Found, ctx: &mut Ctx) -> String {
    let limit = Duration::from_secs(env_num("SIM_SHRINK").unwrap_or(20));
    let (small, evals) = shrink::shrink(&f.scen, &f.class, ctx, &mut eval, limit);
    ctx.log = Some(vec![]);
    let v = eval(ctx, &small);
    let (class, text) = match v {
        Verdict::Bad { class, text } => (class, text),
        _ => (f.class.clone(), f.text.clone()),
    };
    let print = ctx.print;
    let log = ctx.log.take().unwrap();
    let dir = format!("{}/replays", root());
    std::fs::create_dir_all(&dir).expect("replays folder");
    let path = format!("{dir}/{prop}-{seed}-{}.json", f.index);
    let files: BTreeMap<String, String> = small.world.files.iter().map(|x| (x.path.clone(), String::from_utf8_lossy(&x.render()).into_owned())).collect();
    let v = json!({
        "property": prop, "seed": seed, "index": f.index, "class": class, "what": text, "fingerprint": format!("{print:016x}"),
        "minimiser_evaluations": evals, "scenario": small, "files": files, "trace": log,
    });
    std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap() + "\n").expect("replay file");
    println!("{prop}: {class}: {text}");
    for (p, t) in &files {
        println!("--- {p}\n{t}");
    }
    for st in &small.steps {
        println!("> {}", show_step(st));
    }
    path
}

fn replay(path: &str) -> i32 {
    let v: Value = serde_json::from_str(&std::fs::read_to_string(path).expect("replay file")).expect("replay file");
    let s: Scenario = serde_json::from_value(v["scenario"].clone()).expect("scenario");
    let mut ctx = Ctx::new(&binary(), &shim());
    ctx.log = Some(vec![]);
    let r = eval(&mut ctx, &s);
    for l in ctx.log.take().unwrap() {
        println!("{l}");
    }
    match r {
        Verdict::Bad { class, text } => {
            println!("{class}: {text}");
            let same = format!("{:016x}", ctx.print) == v["fingerprint"].as_str().unwrap_or("");
            println!("execution {:016x}, {}", ctx.print, if same { "exactly the recorded one" } else { "not the recorded one (the code has changed)" });
            println!("VIOLATION property={} replay={path}", s.prop);
            1
        }
        Verdict::Pass => {
            println!("the property holds on this execution");
            0
        }
        Verdict::Unclear(u) => {
            println!("no verdict: {u}");
            2
        }
    }
}

fn show(prop: &str, i: u64) -> i32 {
    let s = scenario(prop, env_num("VERIF_SEED").unwrap_or(1), i);
    for f in &s.world.files {
        println!("--- {}{}\n{}", f.path, if f.crlf { " (crlf)" } else { "" }, String::from_utf8_lossy(&f.render()));
    }
    for st in &s.steps {
        println!("> {}", show_step(st));
    }
    let mut ctx = Ctx::new(&binary(), &shim());
    ctx.log = Some(vec![]);
    let v = eval(&mut ctx, &s);
    for l in ctx.log.take().unwrap() {
        println!("{l}");
    }
    println!("nontrivial {} execution {:016x}", ctx.nontrivial, ctx.print);
    match v {
        Verdict::Pass => println!("pass"),
        Verdict::Unclear(u) => println!("no verdict: {u}"),
        Verdict::Bad { class, text } => println!("BAD {class}: {text}"),
    }
    0
}

fn same(prop: &str, n: u64) -> i32 {
    let seed = env_num("VERIF_SEED").unwrap_or(1);
    let next = AtomicU64::new(0);
    let diff = AtomicU64::new(0);
    let acc = AtomicU64::new(0);
    std::thread::scope(|sc| {
        for _ in 0..8 {
            sc.spawn(|| {
                let mut a = Ctx::new(&binary(), &shim());
                let mut b = Ctx::new(&binary(), &shim());
                loop {
                    let i = next.fetch_add(1, Ordering::SeqCst);
                    if i >= n {
                        break;
                    }
                    let s = scenario(prop, seed, i);
                    if s != scenario(prop, seed, i) {
                        diff.fetch_add(1, Ordering::SeqCst);
                        println!("scenario {i} is generated differently");
                    }
                    // another machine, another history of processes before it
                    eval(&mut a, &s);
                    if i % 3 == 0 {
                        eval(&mut b, &scenario(prop, seed, i + 1));
                    }
                    eval(&mut b, &s);
                    acc.fetch_xor(rng::mix(a.print ^ i), Ordering::SeqCst);
                    if a.print != b.print {
                        diff.fetch_add(1, Ordering::SeqCst);
                        println!("scenario {i} runs differently");
                    }
                }
            });
        }
    });
    let d = diff.load(Ordering::SeqCst);
    println!("{prop}: {n} scenarios twice, {d} differ, digest {:016x}", acc.load(Ordering::SeqCst));
    (d > 0) as i32
}
