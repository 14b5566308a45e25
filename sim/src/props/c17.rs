//! History independence: a transaction's outcome depends on the world state, the block and the
//! transaction, not on what the same executor ran, dropped, rejected or aborted before.

use crate::{chain::*, exec::*, gen::*, ids::Ids, scenario::*, stats::*};

use super::*;

pub fn prop() -> Prop {
    Prop {
        id: "C17",
        gen,
        check,
        quick_runs: 30_000,
        level: "exploration",
        rule: "seeded scenario with speculative, repeated, rejected and aborted attempts; a case counts when a committed transaction with a new (rules, outcome, gas, usage, logs) signature was re-executed on a pristine executor",
        real: REAL,
        stub: STUB,
        assumptions: ASSUME,
    }
}

fn gen(seed: u64) -> Scenario {
    let mut g = Gen::new(seed);
    if g.r.chance(3, 4) {
        // Access-dependent features make leaks visible.
        g.sw.op[o::BLOCKENV] = g.sw.op[o::BLOCKENV].max(2);
        g.sw.op[o::ORACLE] = g.sw.op[o::ORACLE].max(1);
    }
    g.sw.bad_nonce = 1;
    let crossing = g.r.chance(1, 3);
    let mut sc = g.world("C17", seed, crossing);
    sc.hint_sets.clear();
    let nb = g.r.range(1, 2);
    for _ in 0..nb {
        let ntx = g.r.range(2, 6) as usize;
        let mut b = g.block(ntx);
        if g.r.chance(2, 3) {
            g.tight_limits(&mut b.limits);
        }
        b.events = g.events(ntx, true, false, true);
        sc.blocks.push(b);
    }
    sc
}

fn check(sc: &Scenario, st: &mut Stats) -> Verdict {
    let ids = Ids::new(sc);
    let ctxs = block_ctxs(sc, &ids);
    let mut node = Node::new(sc, &ids);
    let mut shadow = node.durable.clone();
    for (bi, b) in ctxs.iter().enumerate() {
        st.sim_seconds += sc.blocks[bi].dt;
        let mut b = b.clone();
        if b.rules < Rules::Rex1 {
            // Documented exception: before Rex1 a detention outlives its transaction.
            b.limits.block_env_access_compute_gas_limit = u64::MAX;
            b.limits.oracle_access_compute_gas_limit = u64::MAX;
        }
        let b = &b;
        let spec = &sc.blocks[bi];
        let ar = arena(spec.txs.len());
        let opts = Opts { keep_before: true, speculate: true, plane: Some(node.plane.clone()) };
        let world = node.world.clone();
        let run = node
            .with_executor(b, |ex| sequence(ex, &ar, spec, &ids, &mut shadow, &world, &opts, st))?;
        note_done(st, b.rules, &run);
        node.persist();
        for d in &run.done {
            // A commit may come later than its run; then its base state is not `before`.
            if !ran_on_base(spec, d.idx) {
                continue;
            }
            let mut fresh = Node::new(sc, &ids);
            fresh.durable = d.before.clone().expect("kept");
            let got = fresh.with_executor(b, |mut ex| {
                ex.run_transaction(&d.tx)
                    .map(|o| (TxOut::new(&o.inner, o.tx_size, o.da_size), delta_of(&o.inner.state)))
            });
            st.checks += 1;
            match got {
                Ok((out, delta)) => {
                    if out != d.out {
                        return fail(
                            "outcome-depends-on-history",
                            format!("block {bi} tx {} ({:?}): in block {:?}, alone {out:?}", d.idx, b.rules, d.out),
                        );
                    }
                    if delta != delta_of(&d.state) {
                        return fail(
                            "delta-depends-on-history",
                            format!("block {bi} tx {}: in block {:?}, alone {delta:?}", d.idx, delta_of(&d.state)),
                        );
                    }
                }
                Err(e) => {
                    return fail(
                        "admission-depends-on-history",
                        format!("block {bi} tx {}: accepted in block, alone {}", d.idx, err_text(&e)),
                    )
                }
            }
        }
    }
    Ok(())
}

/// True when no other commit lies between the run of `i` that was committed and its commit.
pub fn ran_on_base(spec: &BlockSpec, i: usize) -> bool {
    let evs = &spec.events;
    let Some(c) = evs.iter().position(|e| matches!(e, Ev::Commit(j) if *j == i)) else {
        return true;
    };
    let Some(r) = evs[..c].iter().rposition(|e| matches!(e, Ev::Run(j) if *j == i)) else {
        return true;
    };
    !evs[r..c].iter().any(|e| matches!(e, Ev::Commit(_) | Ev::Exec(_)))
}
