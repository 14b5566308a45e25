use crate::{
    gen, oracle,
    scenario::Scenario,
    stats::{Stats, Verdict},
};

pub struct Prop {
    pub id: &'static str,
    pub gen: fn(u64) -> Scenario,
    pub check: fn(&Scenario, &mut Stats) -> Verdict,
    pub quick_runs: u64,
    pub level: &'static str,
    pub rule: &'static str,
    pub real: &'static [&'static str],
    pub stub: &'static [&'static str],
    pub assumptions: &'static [&'static str],
}

const REAL: &[&str] = &[
    "the state-test runner, its file format, roots and command line (built from /repo's working tree)",
    "mega-evm and revm underneath; the file system (scratch directory), directory walking, argument parsing",
];
const STUB: &[&str] = &[
    "std's threads, locks, atomics, channels, monotonic clock, parallelism query, process exit and console (simstd: one baton, seeded schedule)",
    "file reads pass through the scheduler and can fail",
];
const ASSUME: &[&str] = &[
    "sequentially consistent memory (the scheduler interleaves whole operations)",
    "the scheduler is fair: a runnable thread is not postponed for ever",
];

pub fn all() -> Vec<Prop> {
    vec![
        Prop {
            id: "C24",
            gen: gen::parallel,
            check: oracle::check,
            quick_runs: 12_000,
            level: "exploration",
            rule: "distinct sequences of (thread, operation) over the whole run",
            real: REAL,
            stub: STUB,
            assumptions: ASSUME,
        },
        Prop {
            id: "C25",
            gen: gen::contents,
            check: oracle::check,
            quick_runs: 12_000,
            level: "exploration",
            rule: "distinct sequences of (thread, operation) over the whole run",
            real: REAL,
            stub: STUB,
            assumptions: ASSUME,
        },
    ]
}
