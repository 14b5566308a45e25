//! What a batch of runs covered; merged over workers.
use std::collections::{BTreeMap, BTreeSet};

use serde::{Deserialize, Serialize};

use crate::world::{Hasher, Plane};

#[derive(Default, Serialize, Deserialize)]
pub struct Stats {
    pub runs: u64,
    pub steps: u64,
    pub blocks: u64,
    pub txs: u64,
    pub checks: u64,
    pub sim_seconds: u64,
    pub crashes: u64,
    pub faults: BTreeMap<String, u64>,
    /// Rare conditions reached.
    pub probes: BTreeMap<String, u64>,
    /// Hashes of distinct non-trivial behaviours (see the property's rule).
    pub distinct: BTreeSet<u64>,
    /// Hash over everything observed in the current run.
    #[serde(skip)]
    pub trace: u64,
    /// run index -> trace hash, for a sample, to compare between processes.
    pub traces: BTreeMap<u64, u64>,
    pub samples: Vec<serde_json::Value>,
}

impl Stats {
    pub fn probe(&mut self, name: &str) {
        *self.probes.entry(name.to_string()).or_default() += 1;
    }
    pub fn probe_n(&mut self, name: &str, n: u64) {
        *self.probes.entry(name.to_string()).or_default() += n;
    }
    pub fn fault(&mut self, name: &str, n: u64) {
        if n > 0 {
            *self.faults.entry(name.to_string()).or_default() += n;
        }
    }
    pub fn plane(&mut self, p: &mut Plane) {
        for (k, n) in std::mem::take(&mut p.fired) {
            self.fault(&format!("{k:?} error"), n);
        }
    }
    pub fn see(&mut self, s: &str) {
        let mut h = Hasher::new();
        h.put(&self.trace.to_be_bytes());
        h.put(s.as_bytes());
        self.trace = h.finish();
    }
    pub fn distinct(&mut self, s: &str) {
        if self.distinct.len() < 400_000 {
            self.distinct.insert(crate::world::hash_str(s));
        }
    }
    pub fn merge(&mut self, o: Stats) {
        self.runs += o.runs;
        self.steps += o.steps;
        self.blocks += o.blocks;
        self.txs += o.txs;
        self.checks += o.checks;
        self.sim_seconds += o.sim_seconds;
        self.crashes += o.crashes;
        for (k, v) in o.faults {
            *self.faults.entry(k).or_default() += v;
        }
        for (k, v) in o.probes {
            *self.probes.entry(k).or_default() += v;
        }
        self.distinct.extend(o.distinct);
        for (k, v) in o.traces {
            self.traces.insert(k, v);
        }
        if self.samples.len() < 3 {
            self.samples.extend(o.samples.into_iter().take(1));
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Violation {
    /// Stable short name of what broke; the minimiser preserves it.
    pub class: String,
    pub detail: String,
}

pub type Verdict = Result<(), Violation>;

pub fn fail<T>(class: impl Into<String>, detail: impl Into<String>) -> Result<T, Violation> {
    Err(Violation { class: class.into(), detail: detail.into() })
}
