use crate::{
    scenario::Scenario,
    stats::{Stats, Verdict},
};

mod c01;
mod c02;
mod c03;
mod c08;
mod c09;
mod c10;
mod c11;
mod c12;
mod c13;
mod c14;
mod c15;
mod c17;
mod c18;
mod c19;
mod c20;
mod c21;
mod c22;
mod c23;
mod metering;

pub struct Prop {
    pub id: &'static str,
    pub gen: fn(u64) -> Scenario,
    pub check: fn(&Scenario, &mut Stats) -> Verdict,
    pub quick_runs: u64,
    pub level: &'static str,
    pub rule: &'static str,
    pub real: &'static [&'static str],
    pub stub: &'static [&'static str],
    pub assumptions: &'static [&'static str],
}

pub const REAL: &[&str] = &[
    "mega-evm block executor, EVM, limits, external gas pricing, oracle, keyless sandbox, system contracts (built from /repo's working tree)",
    "revm journal and State cache, op-revm handler, alloy receipts",
];
pub const STUB: &[&str] = &[
    "node storage (simulator's ledger behind revm's Database trait, with fault injection)",
    "SALT bucket source and oracle service (simulator, behind SaltEnv/OracleEnv)",
    "mempool, consensus, networking (the seeded scheduler chooses transactions, order, speculation)",
];
pub const ASSUME: &[&str] = &[
    "the storage layer returns either an error or the true value",
    "transaction signatures of ordinary transactions are recovered outside the EVM",
];

pub fn all() -> Vec<Prop> {
    vec![c01::prop(), c02::prop(), c03::prop(), c08::prop(), c09::prop(), c10::prop(), c11::prop(), c12::prop(), c13::prop(), c14::prop(), c15::prop(), c17::prop(), c18::prop(), c19::prop(), c20::prop(), c21::prop(), c22::prop(), c23::prop()]
        .into_iter()
        .chain(metering::props())
        .collect()
}
