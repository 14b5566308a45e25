//! Replay determinism: every replica that executes the committed block reaches the sequencer's
//! results, whatever the sequencer speculated and however the replica's memory came about.

use crate::{chain::*, exec::*, gen::*, ids::Ids, scenario::*, stats::*};

use super::*;

pub fn prop() -> Prop {
    Prop {
        id: "C01",
        gen,
        check,
        quick_runs: 24_000,
        level: "exploration",
        rule: "seeded scenario: world, programs, hardfork schedule, transactions, speculation schedule, crash points; a case counts when a committed transaction has a new (rules, outcome, gas, usage, logs) signature",
        real: REAL,
        stub: STUB,
        assumptions: ASSUME,
    }
}

fn gen(seed: u64) -> Scenario {
    let mut g = Gen::new(seed);
    let crossing = g.r.chance(1, 2);
    let mut sc = g.world("C01", seed, crossing);
    sc.hint_sets.clear();
    let nb = g.r.range(1, 4) as usize;
    for _ in 0..nb {
        let ntx = g.r.range(1, 5) as usize;
        let mut b = g.block(ntx);
        if g.r.chance(1, 2) {
            b.events = g.events(ntx, false, false, true);
        }
        if g.r.chance(1, 3) {
            g.tight_limits(&mut b.limits);
        }
        sc.blocks.push(b);
    }
    sc.knobs = (0..3).map(|_| g.r.below(6)).collect();
    sc
}

pub fn compare(
    who: &str,
    run: &BlockRun,
    r: &Replayed,
    st: &mut Stats,
) -> Verdict {
    for (i, d) in run.done.iter().enumerate() {
        st.checks += 1;
        if r.results[i] != d.out.result {
            return fail(
                "result-divergence",
                format!("{who}: tx {} {:?} vs sequencer {:?}", d.idx, r.results[i], d.out.result),
            );
        }
        if let Some(o) = &r.outs[i] {
            if *o != d.out {
                return fail(
                    "usage-divergence",
                    format!("{who}: tx {} {:?} vs sequencer {:?}", d.idx, o, d.out),
                );
            }
        }
    }
    st.checks += 1;
    if r.receipts != run.receipts || r.gas_used != run.gas_used {
        let i = (0..run.receipts.len()).find(|i| r.receipts.get(*i) != run.receipts.get(*i));
        return fail(
            "receipt-divergence",
            format!(
                "{who}: gas {} vs {}, first differing receipt {i:?}: {:?} vs {:?}",
                r.gas_used,
                run.gas_used,
                i.map(|i| &r.receipts[i]),
                i.map(|i| &run.receipts[i])
            ),
        );
    }
    Ok(())
}

fn check(sc: &Scenario, st: &mut Stats) -> Verdict {
    let ids = Ids::new(sc);
    let ctxs = block_ctxs(sc, &ids);
    let mut seq = Node::new(sc, &ids);
    let mut shadow = seq.durable.clone();
    let mut warm = Node::new(sc, &ids);
    let mut cold = Node::new(sc, &ids);
    cold.lazy_code = !sc.lazy_code;
    let mut crashy = Node::new(sc, &ids);
    for (bi, b) in ctxs.iter().enumerate() {
        st.sim_seconds += sc.blocks[bi].dt;
        let spec = &sc.blocks[bi];
        let ar = arena(spec.txs.len());
        // Before Rex1 a speculative run legitimately leaves its detention behind in the executor.
        let opts = Opts { keep_before: false, speculate: b.rules >= Rules::Rex1, plane: None };
        let world = seq.world.clone();
        let run = seq
            .with_executor(b, |ex| sequence(ex, &ar, spec, &ids, &mut shadow, &world, &opts, st))?;
        note_done(st, b.rules, &run);
        seq.persist();
        st.checks += 1;
        if let Some(d) = seq.durable.diff(&shadow) {
            return fail("persisted-state", format!("block {bi}: persisted vs outcomes: {d}"));
        }
        if sc.knob(0) == bi as u64 {
            seq.crash();
            st.crashes += 1;
        }
        let txs: Vec<&Tx> = run.done.iter().map(|d| &d.tx).collect();
        let twice = b.rules >= Rules::Rex1 && sc.knob(1) % 2 == 0;
        for (name, node, mode) in [
            ("warm replica", &mut warm, if twice { Mode::Twice } else { Mode::RunCommit }),
            ("cold replica", &mut cold, Mode::RunCommit),
            ("crashing replica", &mut crashy, Mode::Trait),
        ] {
            if name == "cold replica" {
                node.crash();
                st.crashes += 1;
            }
            if name == "crashing replica" {
                // Dies part-way through the block; the half-done block must leave nothing behind.
                let at = (sc.knob(2) as usize + bi) % (txs.len() + 1);
                let _ = node.with_executor(b, |ex| replay(ex, &txs, Mode::RunCommit, Some(at)));
                node.crash();
                st.crashes += 1;
                st.fault("crash mid-block", 1);
            }
            let r = match node.with_executor(b, |ex| replay(ex, &txs, mode, None)) {
                Ok(Some(r)) => r,
                Ok(None) => return harness("replay incomplete"),
                Err(e) => {
                    return fail(
                        "replica-rejects",
                        format!("{name} rejects block {bi}: {}", err_text(&e)),
                    )
                }
            };
            compare(name, &run, &r, st)?;
            node.persist();
            st.checks += 1;
            if let Some(d) = node.durable.diff(&shadow) {
                return fail("state-divergence", format!("block {bi}, {name} vs sequencer: {d}"));
            }
        }
        st.see(&format!("{:x}", shadow.digest()));
    }
    Ok(())
}
