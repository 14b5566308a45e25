//! Witness completeness: what an execution reports as accessed is enough to repeat it statelessly.

use std::collections::BTreeSet;

use crate::{chain::*, exec::*, gen::*, ids::*, scenario::*, stats::*, world::*};

use super::*;

pub fn prop() -> Prop {
    Prop {
        id: "C18",
        gen,
        check,
        quick_runs: 30_000,
        level: "exploration",
        rule: "seeded scenario; a stateless replica that holds only the reported buckets, block hashes, accounts and slots repeats every block; a case counts when a committed transaction has a new (rules, outcome, gas, usage, logs) signature",
        real: REAL,
        stub: STUB,
        assumptions: &[
            "the storage layer returns either an error or the true value",
            "the L1 attributes contract and the fee recipients are part of every witness",
        ],
    }
}

fn gen(seed: u64) -> Scenario {
    let mut g = Gen::new(seed);
    g.sw.salt_max = g.sw.salt_max.max(2);
    if g.r.chance(1, 2) {
        g.sw.op[o::BLOCKHASH] = 4;
    }
    let crossing = g.r.chance(1, 3);
    let mut sc = g.world("C18", seed, crossing);
    sc.hint_sets.clear();
    for _ in 0..g.r.range(1, 3) {
        let ntx = g.r.range(1, 4) as usize;
        let mut b = g.block(ntx);
        if g.r.chance(1, 3) {
            g.tight_limits(&mut b.limits);
        }
        if g.r.chance(1, 2) {
            b.events = g.events(ntx, true, false, true);
        }
        sc.blocks.push(b);
    }
    sc.knobs = vec![g.r.below(3)];
    sc
}

fn check(sc: &Scenario, st: &mut Stats) -> Verdict {
    let ids = Ids::new(sc);
    let ctxs = block_ctxs(sc, &ids);
    let mut seq = Node::new(sc, &ids);
    let mut shadow = seq.durable.clone();
    for (bi, b) in ctxs.iter().enumerate() {
        st.sim_seconds += sc.blocks[bi].dt;
        let spec = &sc.blocks[bi];
        let ar = arena(spec.txs.len());
        let pre = shadow.clone();
        let opts = Opts {
            keep_before: false,
            speculate: b.rules >= Rules::Rex1,
            plane: (b.rules >= Rules::Rex1).then(|| seq.plane.clone()),
        };
        let world = seq.world.clone();
        world.borrow_mut().log.clear();
        let run = seq
            .with_executor(b, |ex| sequence(ex, &ar, spec, &ids, &mut shadow, &world, &opts, st))?;
        note_done(st, b.rules, &run);
        seq.persist();
        if sc.knob(0) == 0 {
            seq.crash();
            st.crashes += 1;
        }
        // Nothing is reported that was not consulted.
        let asked: BTreeSet<_> = world
            .borrow()
            .log
            .iter()
            .filter_map(|e| match e {
                EnvEvent::SaltRead(x) => Some(*x),
                _ => None,
            })
            .collect();
        st.checks += 1;
        if let Some(x) = run.buckets.difference(&asked).next() {
            return fail("bucket-not-consulted", format!("block {bi}: bucket {x} reported"));
        }
        for (n, h) in &run.hashes {
            if *h != sim_block_hash(sc.seed, *n) {
                return fail("wrong-block-hash", format!("block {bi}: hash of {n}"));
            }
        }
        // The witness.
        let mut known: BTreeSet<(_, Option<_>)> = BTreeSet::new();
        for s in run.pre.iter().chain(run.done.iter().map(|d| &d.state)) {
            for (a, acc) in s {
                known.insert((*a, None));
                for k in acc.storage.keys() {
                    known.insert((*a, Some(*k)));
                }
            }
        }
        let txs: Vec<&Tx> = run.done.iter().map(|d| &d.tx).collect();
        let mut light = Node::new(sc, &ids);
        light.durable = pre.clone();
        light.hash_filter = Some(run.hashes.clone());
        light.world.borrow_mut().salt_filter = Some(run.buckets.clone());
        light.world.borrow_mut().oracle = world.borrow().oracle.clone();
        light.plane.borrow_mut().reads = Some(Default::default());
        st.probe(&format!("{} buckets", run.buckets.len().min(4)));
        st.probe(&format!("{} hashes", run.hashes.len().min(3)));
        let r = match light.with_executor(b, |ex| replay(ex, &txs, Mode::RunCommit, None)) {
            Ok(Some(r)) => r,
            Ok(None) => return harness("incomplete"),
            Err(e) => return fail("witness-too-small", format!("block {bi}: {}", err_text(&e))),
        };
        super::c01::compare("stateless replica", &run, &r, st)?;
        st.checks += 1;
        if !r.buckets.is_subset(&run.buckets) {
            return fail("bucket-not-reported", format!("block {bi}"));
        }
        let reads = light.plane.borrow_mut().reads.take().unwrap_or_default();
        st.checks += 1;
        for (a, k) in &reads {
            if *a == L1BLOCK || [BASE_FEE_VAULT, L1_FEE_VAULT, OP_FEE_VAULT].contains(a) {
                continue;
            }
            if !known.contains(&(*a, *k)) {
                return fail(
                    "state-read-not-reported",
                    format!("block {bi} ({:?}): {a} {k:?} was read but is in no outcome", b.rules),
                );
            }
        }
        light.persist();
        if let Some(d) = light.durable.diff(&shadow) {
            return fail("stateless-divergence", format!("block {bi}: {d}"));
        }
    }
    Ok(())
}
