//! Search, determinism check, minimisation, replay and evidence, shared by the two simulators.
use std::{
    cell::RefCell,
    collections::BTreeMap,
    fs,
    io::Write,
    path::{Path, PathBuf},
    process::{Child, Command, Stdio},
    time::{Duration, Instant},
};

use serde_json::{json, Value};

use crate::{
    props::{self, Prop},
    rng,
    scenario::{summary, Scenario},
    shrink,
    stats::{self, Stats, Verdict, Violation},
    world,
};

thread_local! {
    static PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}

fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        let loc =
            info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if std::env::var_os("MEGASIM_BT").is_some() {
            eprintln!("{msg} at {loc}\n{}", std::backtrace::Backtrace::force_capture());
        }
        PANIC.with(|p| *p.borrow_mut() = Some((msg, loc)));
    }));
}

/// Runs `f`, turning a panic into (message, location).
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, (String, String)> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default()),
    }
}

fn is_harness_location(loc: &str) -> bool {
    loc.starts_with("src/")
}

/// One complete simulated run.
fn run_scenario(p: &Prop, sc: &Scenario, st: &mut Stats) -> Verdict {
    st.runs += 1;
    st.trace = 0;
    match guarded(|| (p.check)(sc, st)) {
        Ok(v) => v,
        Err((msg, loc)) => {
            if is_harness_location(&loc) {
                // The simulator's own arithmetic or lookups only fail when the machine did something
                // its model rules out; never on a tree where the property holds.
                return stats::fail("model-assumption", format!("model assumption broken at {loc}: {msg}"));
            }
            let file = loc.rsplit("/src/").next().unwrap_or(&loc).to_string();
            stats::fail(format!("panic {file}"), format!("panic at {loc}: {msg}"))
        }
    }
}

fn run_seed(base: u64, id: &str, k: u64) -> u64 {
    rng::mix(rng::mix(base ^ world::hash_str(id)).wrapping_add(k.wrapping_mul(0x9e3779b97f4a7c15)))
}

fn arg(args: &[String], name: &str) -> Option<String> {
    args.iter().position(|a| a == name).and_then(|i| args.get(i + 1).cloned())
}

fn prop(id: &str) -> Prop {
    props::all().into_iter().find(|p| p.id == id).unwrap_or_else(|| {
        eprintln!("unknown property {id}");
        std::process::exit(2)
    })
}

pub fn main() {
    install_panic_hook();
    let args: Vec<String> = std::env::args().collect();
    // A generous but finite stack, the same in every process.
    let h = std::thread::Builder::new()
        .stack_size(16 << 20)
        .spawn(move || real_main(&args))
        .expect("spawn");
    let code = h.join().unwrap_or(2);
    std::process::exit(code);
}

fn real_main(args: &[String]) -> i32 {
    match args.get(1).map(|s| s.as_str()) {
        Some("run") => match guarded(|| parent(args)) {
            Ok(c) => c,
            Err((m, l)) => {
                eprintln!("megasim: harness error: {m} at {l}");
                2
            }
        },
        Some("worker") => worker(args),
        Some("replay") => replay(args),
        Some("one") => one(args),
        Some("list") => {
            for p in props::all() {
                println!("{} {}", p.id, p.quick_runs);
            }
            0
        }
        _ => {
            eprintln!("usage: megasim run --property C01 --tier quick --seed 1 --out FILE");
            2
        }
    }
}

// ------------------------------------------------------------------------------------------------
// Worker: runs indices w, w+W, w+2W, ... and stops at its first violation.
// ------------------------------------------------------------------------------------------------

fn worker(args: &[String]) -> i32 {
    let p = prop(&arg(args, "--property").unwrap());
    let base: u64 = arg(args, "--seed").unwrap().parse().unwrap();
    let start: u64 = arg(args, "--start").unwrap().parse().unwrap();
    let stride: u64 = arg(args, "--stride").unwrap().parse().unwrap();
    let runs: u64 = arg(args, "--runs").unwrap().parse().unwrap();
    let deadline: f64 = arg(args, "--deadline").unwrap().parse().unwrap();
    let file = PathBuf::from(arg(args, "--file").unwrap());
    let known = known_findings(&p);
    let t0 = Instant::now();
    let mut st = Stats::default();
    let mut k = start;
    let mut cur = fs::File::create(file.with_extension("cur")).unwrap();
    while k < runs && t0.elapsed().as_secs_f64() < deadline {
        use std::io::{Seek, SeekFrom};
        cur.seek(SeekFrom::Start(0)).unwrap();
        cur.write_all(format!("{k:020}").as_bytes()).unwrap();
        let sc = (p.gen)(run_seed(base, p.id, k));
        match run_scenario(&p, &sc, &mut st) {
            Ok(()) => {}
            Err(v) if known.contains(&v.class) => st.probe(&format!("known finding: {}", v.class)),
            Err(v) => {
                let out = json!({"k": k, "class": v.class, "detail": v.detail});
                fs::write(file.with_extension("bad"), out.to_string()).unwrap();
                break;
            }
        }
        if k % 97 < 8 {
            st.traces.insert(k, st.trace);
        }
        if st.samples.is_empty() && k >= start + stride * 3 {
            st.samples.push(json!({"run": k, "scenario": summary(&sc)}));
        }
        k += stride;
    }
    fs::write(&file, serde_json::to_vec(&st).unwrap()).unwrap();
    0
}

/// Violation classes listed in the known-findings file for this property.
fn known_findings(p: &Prop) -> Vec<String> {
    let Ok(path) = std::env::var("MEGASIM_KNOWN") else { return vec![] };
    let Ok(text) = fs::read_to_string(path) else { return vec![] };
    text.lines()
        .filter_map(|l| {
            let l = l.strip_prefix("known: property=")?;
            let (id, rest) = l.split_once(' ')?;
            let class = rest.strip_prefix("class=[")?.split_once(']')?.0;
            (id == p.id).then(|| class.to_string())
        })
        .collect()
}

// ------------------------------------------------------------------------------------------------
// Parent
// ------------------------------------------------------------------------------------------------

struct Work {
    child: Child,
    file: PathBuf,
    done: bool,
    last: (String, Instant),
}

fn spawn_worker(
    p: &Prop,
    base: u64,
    start: u64,
    stride: u64,
    runs: u64,
    deadline: f64,
    file: &Path,
) -> Work {
    let child = Command::new(std::env::current_exe().unwrap())
        .args(["worker", "--property", p.id])
        .args(["--seed", &base.to_string(), "--start", &start.to_string()])
        .args(["--stride", &stride.to_string(), "--runs", &runs.to_string()])
        .args(["--deadline", &deadline.to_string(), "--file", file.to_str().unwrap()])
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(if std::env::var_os("MEGASIM_BT").is_some() {
            Stdio::inherit()
        } else {
            Stdio::null()
        })
        .spawn()
        .expect("spawn worker");
    Work { child, file: file.to_path_buf(), done: false, last: (String::new(), Instant::now()) }
}

struct Found {
    k: u64,
    v: Violation,
}

/// Runs a batch over `n` worker processes.
fn batch(
    p: &Prop,
    base: u64,
    n: u64,
    runs: u64,
    deadline: f64,
    dir: &Path,
) -> (Stats, Option<Found>) {
    fs::create_dir_all(dir).unwrap();
    let mut ws: Vec<Work> = (0..n)
        .map(|i| spawn_worker(p, base, i, n, runs, deadline, &dir.join(format!("w{i}.json"))))
        .collect();
    let mut found: Option<Found> = None;
    let mut stats = Stats::default();
    loop {
        let mut all = true;
        for w in ws.iter_mut() {
            if w.done {
                continue;
            }
            let cur = fs::read_to_string(w.file.with_extension("cur")).unwrap_or_default();
            match w.child.try_wait().unwrap() {
                Some(status) => {
                    w.done = true;
                    if let Ok(b) = fs::read(&w.file) {
                        if let Ok(s) = serde_json::from_slice::<Stats>(&b) {
                            stats.merge(s);
                        }
                    }
                    if let Ok(b) = fs::read(w.file.with_extension("bad")) {
                        let v: Value = serde_json::from_slice(&b).unwrap();
                        let f = Found {
                            k: v["k"].as_u64().unwrap(),
                            v: Violation {
                                class: v["class"].as_str().unwrap().into(),
                                detail: v["detail"].as_str().unwrap().into(),
                            },
                        };
                        if found.as_ref().is_none_or(|o| f.k < o.k) {
                            found = Some(f);
                        }
                    } else if !status.success() {
                        let k = cur.parse().unwrap_or(0);
                        let f = Found {
                            k,
                            v: Violation {
                                class: "abort".into(),
                                detail: format!("process died: {status}"),
                            },
                        };
                        if found.as_ref().is_none_or(|o| f.k < o.k) {
                            found = Some(f);
                        }
                    }
                }
                None => {
                    all = false;
                    if cur != w.last.0 {
                        w.last = (cur, Instant::now());
                    } else if w.last.1.elapsed() > Duration::from_secs(120) {
                        let _ = w.child.kill();
                        let _ = w.child.wait();
                        w.done = true;
                        let f = Found {
                            k: cur.parse().unwrap_or(0),
                            v: Violation {
                                class: "hang".into(),
                                detail: "no progress within 120 s of one run".into(),
                            },
                        };
                        if found.is_none() {
                            found = Some(f);
                        }
                    }
                }
            }
        }
        if found.is_some() {
            for w in ws.iter_mut().filter(|w| !w.done) {
                let _ = w.child.kill();
                let _ = w.child.wait();
                w.done = true;
            }
            all = true;
        }
        if all {
            break;
        }
        std::thread::sleep(Duration::from_millis(20));
    }
    (stats, found)
}

fn parent(args: &[String]) -> i32 {
    let p = prop(&arg(args, "--property").expect("--property"));
    let tier = arg(args, "--tier").unwrap_or("quick".into());
    let base: u64 = arg(args, "--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let out = PathBuf::from(arg(args, "--out").expect("--out"));
    let scratch = PathBuf::from(arg(args, "--scratch").expect("--scratch"));
    let n: u64 = arg(args, "--workers").and_then(|s| s.parse().ok()).unwrap_or(8);
    let thorough = tier == "thorough";
    let runs = arg(args, "--runs").and_then(|s| s.parse().ok()).unwrap_or(if thorough {
        p.quick_runs * 60
    } else {
        p.quick_runs
    });
    let deadline: f64 =
        arg(args, "--deadline").and_then(|s| s.parse().ok()).unwrap_or(if thorough {
            3000.0
        } else {
            240.0
        });
    let t0 = Instant::now();
    let dir = scratch.join(format!("{}-{}", p.id, std::process::id()));
    let _ = fs::remove_dir_all(&dir);
    println!("megasim property={} tier={tier} VERIF_SEED={base} runs<={runs} workers={n}", p.id);
    let (mut stats, mut found) = batch(&p, base, n, runs, deadline, &dir.join("a"));

    // Determinism: the same run indices in other processes, at another worker count.
    let mut det_compared = 0u64;
    let mut det_diff = 0u64;
    if found.is_none() {
        let lim = runs.min(if thorough { 4000 } else { 200 });
        let (s2, f2) = batch(&p, base, 3, lim, 60.0, &dir.join("b"));
        if f2.is_some() {
            // Found only the second time: the code under test is not deterministic.
            found = f2;
        }
        for (k, t) in &s2.traces {
            if let Some(u) = stats.traces.get(k) {
                det_compared += 1;
                if t != u {
                    det_diff += 1;
                    if found.is_none() && p.id == "C01" {
                        found = Some(Found {
                            k: *k,
                            v: Violation {
                                class: "nondeterminism".into(),
                                detail: format!("run {k} differs between two processes"),
                            },
                        });
                    }
                }
            }
        }
    }
    let search_s = t0.elapsed().as_secs_f64();

    let mut code = 0;
    let mut violation = Value::Null;
    if let Some(f) = found {
        if f.v.class == "harness" {
            eprintln!("megasim: harness error in run {}: {}", f.k, f.v.detail);
            let sc = (p.gen)(run_seed(base, p.id, f.k));
            fs::write(dir.join("harness.json"), serde_json::to_vec(&sc).unwrap()).unwrap();
            eprintln!("scenario: {}", dir.join("harness.json").display());
            return 2;
        }
        let replays = out.parent().unwrap().join("replays");
        fs::create_dir_all(&replays).unwrap();
        let sc = (p.gen)(run_seed(base, p.id, f.k));
        let (min, tried, v) = minimise(&p, &sc, &f.v, if thorough { 120.0 } else { 40.0 }, &dir);
        let path = replays.join(format!("{}-seed{}-run{}.json", p.id, base, f.k));
        let file = json!({
            "property": p.id, "class": v.class, "detail": v.detail,
            "verif_seed": base, "run": f.k, "run_seed": sc.seed, "scenario": min,
        });
        fs::write(&path, serde_json::to_vec_pretty(&file).unwrap()).unwrap();
        println!(
            "run {} (seed {}) violated the property: {}: {}",
            f.k, sc.seed, v.class, v.detail
        );
        println!("minimised with {tried} re-executions; replay: megasim replay {}", path.display());
        println!("VIOLATION property={} replay={}", p.id, path.display());
        violation = json!({"class": v.class, "detail": v.detail, "run": f.k,
            "replay": path.display().to_string(), "shrink_reexecutions": tried});
        code = 1;
    }
    for (k, n) in stats.probes.iter().filter(|(k, _)| k.starts_with("known finding: ")) {
        println!("KNOWN-FINDING: property={} {} ({n} runs)", p.id, &k["known finding: ".len()..]);
    }
    let samples = if stats.samples.is_empty() {
        vec![json!({"run": 0, "scenario": summary(&(p.gen)(run_seed(base, p.id, 0)))})]
    } else {
        std::mem::take(&mut stats.samples)
    };
    let wall = t0.elapsed().as_secs_f64();
    let faults: BTreeMap<_, _> = stats.faults.clone();
    let ev = json!({
        "property": p.id,
        "tier": if thorough { "thorough" } else { "quick" },
        "seed": base,
        "level": p.level,
        "coverage": {
            "evaluations": stats.runs,
            "distinct_nontrivial": stats.distinct.len(),
            "rule": p.rule,
            "samples": samples,
            "runs_per_hour": (stats.runs as f64 / search_s * 3600.0) as u64,
            "simulated_seconds": stats.sim_seconds,
            "blocks_executed": stats.blocks,
            "transactions_executed": stats.txs,
            "scheduler_steps": stats.steps,
            "oracle_checks": stats.checks,
            "crash_restarts": stats.crashes,
            "faults_fired": faults,
            "probes": stats.probes,
            "determinism": {"runs_compared_between_processes": det_compared, "differences": det_diff, "worker_counts": [n, 3]},
            "components_real": p.real,
            "components_stubbed": p.stub,
            "violation": violation,
        },
        "assumptions": p.assumptions,
        "wall_s": wall,
        "violations": if code == 1 { 1 } else { 0 },
    });
    fs::create_dir_all(out.parent().unwrap()).unwrap();
    fs::write(&out, serde_json::to_vec_pretty(&ev).unwrap()).unwrap();
    println!(
        "{}: {} runs, {} txs, {} checks, {} distinct, {:.1}s{}",
        p.id,
        stats.runs,
        stats.txs,
        stats.checks,
        stats.distinct.len(),
        wall,
        if det_diff > 0 { ", NOT DETERMINISTIC" } else { "" }
    );
    let _ = fs::remove_dir_all(&dir);
    if code == 0 && det_diff > 0 && p.id != "C01" {
        eprintln!("megasim: {det_diff} runs differ between processes");
    }
    code
}

fn minimise(
    p: &Prop,
    sc: &Scenario,
    v: &Violation,
    budget: f64,
    dir: &Path,
) -> (Scenario, u64, Violation) {
    if v.class == "nondeterminism" {
        return (sc.clone(), 0, v.clone());
    }
    let in_child = v.class == "abort" || v.class == "hang";
    let mut last = v.clone();
    let (min, tried) = shrink::shrink(sc, if v.class == "hang" { 0.0 } else { budget }, |c| {
        if in_child {
            let f = dir.join("cand.json");
            fs::write(&f, json!({"property": p.id, "scenario": c}).to_string()).unwrap();
            let st = Command::new(std::env::current_exe().unwrap())
                .args(["replay", f.to_str().unwrap()])
                .stdout(Stdio::null())
                .stderr(Stdio::null())
                .status()
                .unwrap();
            st.code().is_none()
        } else {
            match run_scenario(p, c, &mut Stats::default()) {
                Err(w) if w.class == v.class => {
                    last = w;
                    true
                }
                _ => false,
            }
        }
    });
    if !in_child {
        // The kept scenario is the last accepted one; take its own message.
        if let Err(w) = run_scenario(p, &min, &mut Stats::default()) {
            last = w;
        }
    }
    (min, tried, last)
}

// ------------------------------------------------------------------------------------------------
// Replay and debugging
// ------------------------------------------------------------------------------------------------

fn replay(args: &[String]) -> i32 {
    let file = &args[2];
    let v: Value = serde_json::from_slice(&fs::read(file).expect("replay file")).expect("json");
    let p = prop(v["property"].as_str().expect("property"));
    let sc: Scenario = serde_json::from_value(v["scenario"].clone()).expect("scenario");
    let mut st = Stats::default();
    match run_scenario(&p, &sc, &mut st) {
        Ok(()) => {
            println!("property {} held (trace {:016x})", p.id, st.trace);
            0
        }
        Err(v) if v.class == "harness" => {
            eprintln!("harness error: {}", v.detail);
            2
        }
        Err(v) => {
            println!("{}: {} (trace {:016x})", v.class, v.detail, st.trace);
            println!("VIOLATION property={} replay={file}", p.id);
            1
        }
    }
}

fn one(args: &[String]) -> i32 {
    let p = prop(&args[2]);
    let base: u64 = args[3].parse().unwrap();
    let k: u64 = args[4].parse().unwrap();
    let sc = (p.gen)(run_seed(base, p.id, k));
    if args.get(5).map(|s| s.as_str()) == Some("-v") {
        println!("{}", serde_json::to_string_pretty(&sc).unwrap());
    }
    let mut st = Stats::default();
    let v = run_scenario(&p, &sc, &mut st);
    println!("{v:?}\n{:?}\n{:?}\ntrace {:016x}", st.probes, st.faults, st.trace);
    0
}
