//! Runs one scenario through the real runner under the scheduler and judges what a user sees.
use std::{
    collections::BTreeMap,
    fs,
    path::{Path, PathBuf},
    sync::atomic::{AtomicU64, Ordering},
};

use serde_json::Value;
use simstd::sim::{self, Event, Fate, Plan, Report};

use crate::{
    refer::{self, FileVerdict, FileView},
    scenario::*,
    stats::{fail, Stats, Verdict},
};

static COUNT: AtomicU64 = AtomicU64::new(0);

/// A directory of this process's own, next to the search's other scratch files.
fn scratch() -> PathBuf {
    let args: Vec<String> = std::env::args().collect();
    let of = |n: &str| args.iter().position(|a| a == n).and_then(|i| args.get(i + 1)).map(PathBuf::from);
    let base = of("--file")
        .and_then(|f| f.parent().map(Path::to_path_buf))
        .or_else(|| of("--scratch"))
        .unwrap_or_else(std::env::temp_dir);
    base.join(format!("strun-{}-{}", std::process::id(), COUNT.fetch_add(1, Ordering::SeqCst)))
}

struct Scratch(PathBuf);
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = fs::remove_dir_all(&self.0);
    }
}

const SKIP_NAMES: &[&str] =
    &["ValueOverflow.json", "loopMul.json", "InitCollision.json", "CreateTransactionHighNonce.json"];

struct Placed {
    path: PathBuf,
    view: FileView,
    group: usize,
}

fn place(sc: &Scenario, dir: &Path) -> Vec<Placed> {
    let mut out = vec![];
    for (i, f) in sc.files.iter().enumerate() {
        let group = if sc.cli { sc.groups.get(i).copied().unwrap_or(0) as usize } else { 0 };
        let mut home = dir.join(format!("g{group}"));
        let name = match f.state {
            FileState::Skipped(k) => {
                home = home.join(format!("s{i}"));
                SKIP_NAMES[k as usize % SKIP_NAMES.len()].to_string()
            }
            _ => format!("f{i}.json"),
        };
        fs::create_dir_all(&home).unwrap();
        let path = home.join(name);
        let view = refer::view(f, 0);
        match f.state {
            FileState::Vanished if sc.cli => std::os::unix::fs::symlink(home.join("gone"), &path).unwrap(),
            FileState::Vanished => {}
            FileState::Directory => fs::create_dir_all(&path).unwrap(),
            _ => fs::write(&path, &view.text).unwrap(),
        }
        out.push(Placed { path, view, group });
    }
    // Not tests.
    if sc.cli {
        for g in out.iter().map(|p| p.group) {
            let _ = fs::write(dir.join(format!("g{g}")).join("notes.txt"), b"not a test");
        }
    }
    out
}

fn counted(line: &str) -> Option<(u64, u64)> {
    let rest = line.trim().strip_prefix("Encountered ")?;
    let (k, rest) = rest.split_once(' ')?;
    let n = rest.split_whitespace().find_map(|w| w.parse().ok())?;
    Some((k.parse().ok()?, n))
}

enum Ended {
    Success,
    Failure(Option<String>),
}

pub fn check(sc: &Scenario, st: &mut Stats) -> Verdict {
    if sc.files.is_empty() {
        return Ok(());
    }
    let dir = Scratch(scratch());
    let _ = fs::remove_dir_all(&dir.0);
    fs::create_dir_all(&dir.0).unwrap();
    let mut placed = place(sc, &dir.0);

    let mut plan = Plan {
        schedule: sc.schedule.clone(),
        stalls: sc.stalls.clone(),
        parallelism: (sc.parallelism > 0).then_some(sc.parallelism as usize),
        spawn_fail: sc.spawn_fail.clone(),
        jumps: sc.jumps.clone(),
        max_steps: 40_000,
        ..Plan::default()
    };
    for (f, p) in sc.files.iter().zip(&placed) {
        if let FileState::ReadError(e) = f.state {
            plan.read_fail.insert(p.path.clone(), e);
        }
    }

    // Argument order of the groups, with the extras in between.
    let mut order: Vec<Option<usize>> = vec![];
    let mut args = vec!["state-test".to_string()];
    if sc.cli {
        let mut seen = vec![];
        for p in &placed {
            if !seen.contains(&p.group) {
                seen.push(p.group);
            }
        }
        let mut paths: Vec<(Option<usize>, PathBuf)> = seen
            .into_iter()
            .map(|g| {
                let mine: Vec<&Placed> = placed.iter().filter(|p| p.group == g).collect();
                // A lone plain file may be named itself.
                let alone = mine.len() == 1 && sc.seed % 2 == 0 && mine[0].path.is_file();
                (Some(g), if alone { mine[0].path.clone() } else { dir.0.join(format!("g{g}")) })
            })
            .collect();
        for e in &sc.extra {
            let (at, path) = match e {
                Extra::MissingPath(at) => (*at, dir.0.join("nowhere")),
                Extra::EmptyDir(at) => {
                    let d = dir.0.join("empty");
                    fs::create_dir_all(&d).unwrap();
                    (*at, d)
                }
            };
            paths.insert((at as usize).min(paths.len()), (None, path));
        }
        for (flag, on) in [
            ("--single-thread", sc.single_thread),
            ("--json", sc.trace),
            ("--json-outcome", sc.json),
            ("--keep-going", sc.keep_going),
        ] {
            if on {
                args.push(flag.into());
            }
        }
        for (g, p) in paths {
            order.push(g);
            args.push(p.to_string_lossy().into_owned());
        }
        plan.args = args;
    }

    let (report, ended) = if sc.cli {
        let Some((report, value)) = command_line(plan) else { return Ok(()) };
        let e = match (&report.fate, value) {
            (Fate::Returned, Some(true)) | (Fate::Exit(0), _) => Ended::Success,
            (Fate::Panicked(m), _) => Ended::Failure(Some(m.clone())),
            _ => Ended::Failure(None),
        };
        (report, e)
    } else {
        let files: Vec<PathBuf> = placed.iter().map(|p| p.path.clone()).collect();
        let (s, t, j, k) = (sc.single_thread, sc.trace, sc.json, sc.keep_going);
        let (report, value) = sim::run(plan, move || {
            state_test::runner::run(files, s, t, j, k).map_err(|e| e.to_string())
        });
        let e = match (&report.fate, value) {
            (Fate::Returned, Some(Ok(()))) | (Fate::Exit(0), _) => Ended::Success,
            (Fate::Returned, Some(Err(m))) => Ended::Failure(Some(m)),
            _ => Ended::Failure(None),
        };
        (report, e)
    };
    note(sc, &dir.0.to_string_lossy(), &report, &placed, &ended, st);
    let verdict = judge(sc, &placed, &order, &report, &ended, st);
    if verdict.is_err() {
        let at_issue = sc.files.iter().fold(0, |a, f| a | refer::at_issue(f));
        let both = refer::NO_LIMITS | refer::CANCUN_BLOBS;
        for found in [refer::NO_LIMITS, refer::CANCUN_BLOBS, both] {
            if found & at_issue != found {
                continue;
            }
            for (f, p) in sc.files.iter().zip(&mut placed) {
                p.view = refer::view(f, found);
            }
            if judge(sc, &placed, &order, &report, &ended, st).is_ok() {
                return if found == refer::CANCUN_BLOBS {
                    fail("blob fees of Prague cases", "a Prague case was executed with Cancun's blob fee schedule")
                } else {
                    fail("MiniRex cases without limits", "a MiniRex case was executed without MiniRex's resource limits")
                };
            }
        }
    }
    verdict
}

#[cfg(feature = "cli")]
fn command_line(plan: Plan) -> Option<(Report, Option<bool>)> {
    Some(sim::run(plan, state_test::sim_cli::invoke))
}
#[cfg(not(feature = "cli"))]
fn command_line(_: Plan) -> Option<(Report, Option<bool>)> {
    None
}

fn note(sc: &Scenario, dir: &str, r: &Report, placed: &[Placed], ended: &Ended, st: &mut Stats) {
    st.steps += r.steps;
    st.sim_seconds += r.clock_ns.min(10_000_000_000_000) / 1_000_000_000;
    st.txs += placed.iter().map(|p| p.view.all_cases as u64).sum::<u64>();
    let fate = format!("{:?}", r.fate).replace(dir, "");
    st.see(&format!("{fate} {:x} {}", r.signature, r.steps));
    st.distinct(&format!("{:x}", r.signature));
    st.fault("thread pre-empted", r.switches);
    st.fault("thread stalled (scheduling points)", r.stalled);
    st.fault("clock jump", r.jumped);
    st.fault("thread creation refused", r.events.iter().filter(|e| e.1 == Event::SpawnFailed).count() as u64);
    for f in &sc.files {
        match f.state {
            FileState::Fine => {}
            FileState::Torn(_) => st.fault("torn file", 1),
            FileState::Skipped(_) => st.probe("file on the skip list"),
            FileState::ReadError(_) => st.fault("read error", 1),
            FileState::Vanished => st.fault("file vanished", 1),
            FileState::Directory => st.fault("directory in place of a file", 1),
            FileState::NotText => st.fault("file corrupted", 1),
        }
    }
    let panicked = r.events.iter().filter(|e| matches!(e.1, Event::Finish { panicked: true, .. })).count();
    st.fault("worker crashed", panicked as u64);
    st.probe_n("worker threads", r.threads as u64 - 1);
    if r.threads > 2 && panicked > 0 && panicked < r.threads - 1 {
        st.probe("some but not all workers crashed");
    }
    match ended {
        Ended::Success => st.probe("run reported success"),
        Ended::Failure(_) => st.probe("run reported failure"),
    }
    for p in placed {
        match &p.view.verdict {
            FileVerdict::Pass => st.probe("file: passes"),
            FileVerdict::Skip => {}
            FileVerdict::Fail(_, w) => st.probe(&format!("file: {}", if w.is_empty() { "unreadable JSON" } else { w })),
            FileVerdict::Panic => st.probe("file: crashes its worker"),
        }
        for (_, c) in &p.view.executed {
            if c.got.as_ref().is_some_and(|g| g.refused) {
                st.probe("case: transaction refused");
            } else {
                st.probe("case: transaction executed");
            }
        }
    }
    if sc.cli {
        st.probe("through the command line");
    }
}

fn judge(
    sc: &Scenario,
    placed: &[Placed],
    order: &[Option<usize>],
    r: &Report,
    ended: &Ended,
    st: &mut Stats,
) -> Verdict {
    st.checks += 1;
    match r.fate {
        Fate::Deadlock => return fail("deadlock", "the runner's threads wait for each other for ever"),
        Fate::StepLimit => return fail("no-progress", format!("not finished after {} steps", r.steps)),
        _ => {}
    }
    let refused_threads = r.events.iter().any(|e| e.1 == Event::SpawnFailed);
    let index = |p: &Path| placed.iter().position(|x| x.path == *p);
    let mut reads: BTreeMap<usize, u64> = BTreeMap::new();
    let mut sequence = vec![];
    for (_, e) in &r.events {
        if let Event::Read { path, .. } = e {
            let Some(i) = index(path) else {
                return fail("strange-read", format!("read {}, which is not a listed test", path.display()));
            };
            *reads.entry(i).or_default() += 1;
            sequence.push(i);
        }
    }
    // Reads that bypass the seam leave nothing to say about who read what.
    let seen = !reads.is_empty() || placed.iter().all(|p| p.view.verdict == FileVerdict::Skip);
    if !seen && sc.files.iter().any(|f| matches!(f.state, FileState::ReadError(_))) {
        return Ok(());
    }
    let name = |i: usize| format!("file {i} ({:?})", placed[i].view.verdict);
    if let Some((i, n)) = reads.iter().find(|x| *x.1 > 1) {
        return fail("executed-twice", format!("{} was executed {n} times", name(*i)));
    }

    let bad: Vec<usize> = (0..placed.len())
        .filter(|i| matches!(placed[*i].view.verdict, FileVerdict::Fail(..) | FileVerdict::Panic))
        .collect();
    let failing = |i: usize| matches!(placed[i].view.verdict, FileVerdict::Fail(..));
    let all_good = bad.is_empty() && sc.extra.is_empty();
    match ended {
        Ended::Success => {
            if let Some(i) = bad.first() {
                return fail("false-success", format!("reported success although {} fails", name(*i)));
            }
            if !sc.extra.is_empty() {
                return fail("false-success", format!("reported success although {:?} has no tests", sc.extra));
            }
            if seen {
                for (i, p) in placed.iter().enumerate() {
                    if p.view.verdict == FileVerdict::Pass && reads.get(&i).is_none() {
                        return fail("false-success", format!("reported success without executing {}", name(i)));
                    }
                }
            }
        }
        Ended::Failure(m) => {
            if all_good && !refused_threads {
                return fail("false-failure", format!("every test passes, yet it ended with {:?} {m:?}", r.fate));
            }
        }
    }
    if !sc.cli {
        if let Fate::Panicked(m) = &r.fate {
            if !refused_threads {
                return fail("runner-crash", format!("the runner itself panicked: {m}"));
            }
        }
        let claims = r.out.iter().any(|l| l.contains("All tests passed"));
        if claims && !all_good {
            return fail("false-success", "printed that all tests passed");
        }
    }
    if refused_threads {
        st.probe("runs with refused thread creation");
        return Ok(());
    }

    // What each invocation of the runner printed and executed, per group.
    let groups: Vec<Vec<usize>> = if sc.cli {
        let mut v = vec![];
        for g in order {
            match g {
                None => break,
                Some(g) => v.push((0..placed.len()).filter(|i| placed[*i].group == *g).collect()),
            }
        }
        v
    } else {
        vec![(0..placed.len()).collect()]
    };
    let counts: Vec<(u64, u64)> = r.out.iter().filter_map(|l| counted(l)).collect();
    let first_bad = groups.iter().position(|g: &Vec<usize>| g.iter().any(|i| bad.contains(i)));
    let ordered = sc.single_thread || sc.json || sc.trace;
    if !sc.cli && ordered && seen {
        let mut want: Vec<usize> = vec![];
        for i in 0..placed.len() {
            match &placed[i].view.verdict {
                FileVerdict::Skip => {}
                v => {
                    want.push(i);
                    if *v == FileVerdict::Panic || (failing(i) && !sc.keep_going) {
                        break;
                    }
                }
            }
        }
        if sequence != want {
            return fail("wrong-order", format!("one thread executed files {sequence:?}, should be {want:?}"));
        }
    }
    for (k, g) in groups.iter().enumerate() {
        let bad_here = g.iter().any(|i| bad.contains(i));
        let crashes = g.iter().filter(|i| placed[**i].view.verdict == FileVerdict::Panic).count();
        let threads = if ordered || sc.parallelism == 0 { 1 } else { (sc.parallelism as usize).min(g.len()) };
        // Someone is left to execute the rest.
        let complete = (sc.keep_going || !bad_here) && crashes < threads.max(1);
        if complete && seen {
            for i in g {
                if placed[*i].view.verdict != FileVerdict::Skip && reads.get(i).is_none() {
                    return fail("not-executed", format!("{} was never executed", name(*i)));
                }
            }
        }
        if bad_here {
            if let (Some((errors, total)), true) = (counts.first(), seen) {
                let want = g.iter().filter(|i| failing(**i) && reads.contains_key(i)).count() as u64;
                if *errors != want || *total != g.len() as u64 {
                    return fail(
                        "wrong-count",
                        format!("reported {errors} errors out of {total}, really {want} out of {}", g.len()),
                    );
                }
            }
            if Some(k) == first_bad {
                break;
            }
        }
    }

    // The reported error is a real one.
    if let (Ended::Failure(Some(m)), Some(g)) = (ended, first_bad) {
        let real = groups[g].iter().any(|i| match &placed[*i].view.verdict {
            FileVerdict::Fail(unit, words) if !sc.cli => {
                m.contains(&placed[*i].path.to_string_lossy().to_string()) && m.contains(unit) && m.contains(words)
            }
            FileVerdict::Fail(..) => true,
            FileVerdict::Panic => m.contains("panicked"),
            _ => false,
        });
        if !real {
            return fail("wrong-error", format!("reported an error no test has: {m}"));
        }
    }

    // Fail fast: once a worker has stopped with its error, each other starts at most one more file.
    if !sc.keep_going && !sc.cli {
        let last_read = |t: usize| {
            r.events.iter().rev().find_map(|(_, e)| match e {
                Event::Read { thread, path, .. } if *thread == t => index(path),
                _ => None,
            })
        };
        let stop = r.events.iter().position(|(_, e)| match e {
            Event::Finish { thread, panicked: false } => last_read(*thread).is_some_and(failing),
            _ => false,
        });
        if let Some(at) = stop {
            let mut more: BTreeMap<usize, u64> = BTreeMap::new();
            for (_, e) in &r.events[at..] {
                if let Event::Read { thread, .. } = e {
                    *more.entry(*thread).or_default() += 1;
                }
            }
            if let Some((t, n)) = more.iter().find(|x| *x.1 > 1) {
                return fail("kept-going", format!("thread {t} started {n} files after another had failed"));
            }
            st.probe("fail-fast observed");
        }
    }

    // The machine-readable outcome of every executed case.
    if (sc.json || sc.trace) && !sc.cli && seen {
        let lines: Vec<Value> = r
            .err
            .iter()
            .filter_map(|l| serde_json::from_str::<Value>(l).ok())
            .filter(|v| v.get("stateRoot").is_some())
            .collect();
        let want: Vec<_> = sequence.iter().flat_map(|i| placed[*i].view.executed.iter()).collect();
        if lines.len() != want.len() {
            return fail("outcome-lines", format!("{} outcomes printed for {} executed cases", lines.len(), want.len()));
        }
        for (l, (unit, c)) in lines.iter().zip(want) {
            st.checks += 1;
            let g = c.got.as_ref().unwrap();
            let output = if g.refused { None } else { g.output.clone() }.unwrap_or_default();
            let right = l["test"] == unit.as_str()
                && (&l["d"], &l["g"], &l["v"]) == (&c.d.into(), &c.g.into(), &c.v.into())
                && l["pass"] == c.error.is_none()
                && l["stateRoot"] == serde_json::json!(g.root)
                && l["logsRoot"] == serde_json::json!(g.logs)
                && l["postLogsHash"] == serde_json::json!(g.logs)
                && l["fork"] == c.fork
                && l["evmResult"].as_str().is_some_and(|e| {
                    if g.refused { !["Success", "Revert", "Halt"].iter().any(|k| e.starts_with(k)) } else { e.starts_with(g.kind) }
                })
                && l["errorMsg"].as_str().is_some_and(|e| e.is_empty() == c.error.is_none() && e.contains(c.error.unwrap_or("")))
                && l["gasUsed"] == g.gas
                && l["output"] == serde_json::json!(output);
            if !right {
                return fail("wrong-outcome", format!("printed {l}, should be {c:?} of {unit}"));
            }
        }
    }
    Ok(())
}
