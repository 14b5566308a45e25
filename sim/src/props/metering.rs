//! C04, C05, C06, C07, C16: the reference model runs next to the machine; each property decides one
//! class of disagreement under a workload of its own.

use crate::{exec::*, gen::*, metered::drive, model::Cl, scenario::*, stats::*};

use super::*;

const RULE: &str = "seeded scenario (programs, transactions, speculation, aborted attempts, restarts, bucket growth) executed next to the reference model; a case counts when a committed transaction has a new (rules, outcome, gas, usage, logs) signature";

pub fn props() -> Vec<Prop> {
    let p = |id, gen, check, quick_runs| Prop {
        id,
        gen,
        check,
        quick_runs,
        level: "exploration",
        rule: RULE,
        real: REAL,
        stub: STUB,
        assumptions: ASSUME,
    };
    vec![
        p("C04", gen04 as fn(u64) -> Scenario, check04 as fn(&Scenario, &mut Stats) -> Verdict, 25_000),
        p("C05", gen05, check05, 25_000),
        p("C06", gen06, check06, 25_000),
        p("C07", gen07, check07, 25_000),
        p("C16", gen16, check16, 25_000),
    ]
}

fn check04(sc: &Scenario, st: &mut Stats) -> Verdict {
    drive(sc, st, &[Cl::Limit])
}
fn check05(sc: &Scenario, st: &mut Stats) -> Verdict {
    drive(sc, st, &[Cl::Usage])
}
fn check06(sc: &Scenario, st: &mut Stats) -> Verdict {
    drive(sc, st, &[Cl::Price])
}
fn check07(sc: &Scenario, st: &mut Stats) -> Verdict {
    drive(sc, st, &[Cl::Detention])
}
fn check16(sc: &Scenario, st: &mut Stats) -> Verdict {
    drive(sc, st, &[Cl::Forward])
}

fn start(seed: u64) -> Gen {
    let mut g = Gen::new(seed);
    g.sw.min_rules = Rules::MiniRex;
    // Top-level keyless deployments run in a sandbox of their own (decided elsewhere).
    g.sw.keyless = g.sw.keyless.min(1);
    g
}

fn blocks(g: &mut Gen, sc: &mut Scenario, max_blocks: u64, limits: &mut dyn FnMut(&mut Gen, &mut Limits)) {
    let nb = g.r.range(1, max_blocks);
    for _ in 0..nb {
        let ntx = g.r.range(1, 5) as usize;
        let mut b = g.block(ntx);
        limits(g, &mut b.limits);
        let faults = g.r.chance(1, 4);
        let inter = g.r.chance(1, 3);
        b.events = g.events(ntx, faults, false, inter);
        if g.r.chance(1, 4) {
            let at = g.r.idx(b.events.len() + 1);
            let (k, v) = (g.r.below(4), g.r.below(4));
            b.events.insert(at, Ev::OracleSet(k, if v == 3 { None } else { Some(v) }));
        }
        sc.blocks.push(b);
    }
    if g.r.chance(1, 2) {
        sc.hint_sets.clear();
    }
    sc.knobs = vec![g.r.below(6)];
}

fn gen04(seed: u64) -> Scenario {
    let mut g = start(seed);
    let crossing = g.r.chance(1, 4);
    let mut sc = g.world("C04", seed, crossing);
    blocks(&mut g, &mut sc, 2, &mut |g, l| {
        l.env_compute = NO_LIMIT;
        l.oracle_compute = NO_LIMIT;
        match g.r.below(6) {
            0 => l.tx_data = g.r.range(150, 2_500),
            1 => l.tx_kv = g.r.range(1, 20),
            2 => l.tx_compute = g.r.range(22_000, 400_000),
            3 => l.tx_growth = g.r.below(6),
            _ => {
                l.tx_data = g.r.range(200, 4_000);
                l.tx_kv = g.r.range(2, 30);
                l.tx_compute = g.r.range(25_000, 600_000);
                l.tx_growth = g.r.below(8);
            }
        }
    });
    sc
}

fn gen05(seed: u64) -> Scenario {
    let mut g = start(seed);
    let crossing = g.r.chance(1, 3);
    let mut sc = g.world("C05", seed, crossing);
    blocks(&mut g, &mut sc, 3, &mut |g, l| {
        if g.r.chance(1, 3) {
            g.tight_limits(l);
        }
    });
    sc
}

fn gen06(seed: u64) -> Scenario {
    let mut g = start(seed);
    g.sw.salt_max = *g.r.pick(&[2, 3, 8, 40]);
    let crossing = g.r.chance(1, 3);
    let mut sc = g.world("C06", seed, crossing);
    // Buckets keep growing while the chain runs.
    for _ in 0..g.r.range(5, 40) {
        let b = sc.first_block.saturating_sub(1) + g.r.below(4);
        let k = if g.r.chance(1, 3) {
            1000 + g.r.below(crate::world::ACCOUNT_BUCKETS as u64) as u32
        } else {
            2000 + g.r.below(crate::world::SLOT_BUCKETS as u64) as u32
        };
        sc.salt.push((b, k, 256 * g.r.range(1, g.sw.salt_max)));
    }
    blocks(&mut g, &mut sc, 3, &mut |_, _| {});
    sc
}

fn gen07(seed: u64) -> Scenario {
    let mut g = start(seed);
    let o_ = [o::BLOCKENV, o::BENEFICIARY, o::ORACLE, o::TIME, o::BLOCKHASH];
    for i in o_ {
        if g.r.chance(1, 2) {
            g.sw.op[i] = g.sw.op[i].max(2);
        }
    }
    if g.r.chance(1, 3) {
        g.sw.system = 3;
    }
    let crossing = g.r.chance(1, 4);
    let mut sc = g.world("C07", seed, crossing);
    blocks(&mut g, &mut sc, 2, &mut |g, l| match g.r.below(4) {
        0 => l.env_compute = g.r.range(1_000, 200_000),
        1 => l.oracle_compute = g.r.range(1_000, 200_000),
        _ => {
            l.env_compute = g.r.range(10_000, 400_000);
            l.oracle_compute = g.r.range(10_000, 400_000);
            if g.r.chance(1, 3) {
                l.tx_compute = g.r.range(60_000, 600_000);
            }
        }
    });
    sc
}

fn gen16(seed: u64) -> Scenario {
    let mut g = start(seed);
    for i in [o::CALL, o::VCALL, o::CODE_CALLS, o::CREATE] {
        g.sw.op[i] = g.sw.op[i].max(2);
    }
    let crossing = g.r.chance(1, 3);
    let mut sc = g.world("C16", seed, crossing);
    blocks(&mut g, &mut sc, 3, &mut |_, _| {});
    sc
}
