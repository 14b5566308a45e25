//! Infrastructure failures (storage, bucket source) are contained: reported as infrastructure errors,
//! never absorbed into an outcome, never fatal, and invisible after a retry.

use crate::{chain::*, exec::*, gen::*, ids::Ids, scenario::*, stats::*, world::*};
use mega_evm::alloy_evm::block::BlockExecutor;

use super::*;

pub fn prop() -> Prop {
    Prop {
        id: "C02",
        gen,
        check,
        quick_runs: 40_000,
        level: "fault_enumeration",
        rule: "seeded scenario with one armed fault (operation kind, position, burst length) per transaction attempt or block boundary; a case counts when a fault actually fired at a new (stage, operation kind, position, rules) point",
        real: REAL,
        stub: STUB,
        assumptions: ASSUME,
    }
}

fn gen(seed: u64) -> Scenario {
    let mut g = Gen::new(seed);
    let crossing = g.r.chance(1, 3);
    let mut sc = g.world("C02", seed, crossing);
    sc.hint_sets.clear();
    let nb = g.r.range(1, 3) as usize;
    for _ in 0..nb {
        let ntx = g.r.range(1, 3) as usize;
        let mut b = g.block(ntx);
        for i in 0..ntx {
            if g.r.chance(3, 4) {
                b.events.push(Ev::FaultExec(i, g.fault()));
            }
            b.events.push(Ev::Exec(i));
        }
        if g.r.chance(1, 3) {
            b.pre_fault = Some(g.fault());
        }
        if g.r.chance(1, 5) {
            g.tight_limits(&mut b.limits);
        }
        sc.blocks.push(b);
    }
    sc.knobs = (0..4).map(|_| g.r.below(8)).collect();
    sc
}

fn same(a: &Result<(TxOut, std::collections::BTreeMap<mega_evm::alloy_primitives::Address, String>), String>,
        b: &Result<(TxOut, std::collections::BTreeMap<mega_evm::alloy_primitives::Address, String>), String>) -> bool {
    a == b
}

fn check(sc: &Scenario, st: &mut Stats) -> Verdict {
    let ids = Ids::new(sc);
    let ctxs = block_ctxs(sc, &ids);
    let mut node = Node::new(sc, &ids);
    let mut reference = Node::new(sc, &ids);
    let mut shadow = node.durable.clone();
    for (bi, b) in ctxs.iter().enumerate() {
        st.sim_seconds += sc.blocks[bi].dt;
        let spec = &sc.blocks[bi];
        let ar = arena(spec.txs.len());
        // Fault-free reference execution.
        let opts = Opts::plain();
        let world = reference.world.clone();
        let run = reference
            .with_executor(b, |ex| sequence(ex, &ar, spec, &ids, &mut shadow, &world, &opts, st))?;
        note_done(st, b.rules, &run);
        reference.persist();

        let plane = node.plane.clone();
        // Fault in the block's opening system steps; the executor is then abandoned.
        if let Some(p) = spec.pre_fault {
            let (res, fired) = node.with_executor(b, |mut ex| {
                plane.borrow_mut().arm(p);
                let r = ex.apply_pre_execution_changes();
                (r, plane.borrow_mut().disarm())
            });
            st.plane(&mut plane.borrow_mut());
            if fired > 0 {
                st.checks += 1;
                st.distinct(&format!("pre {:?} {:?}", b.rules, p));
                match res {
                    Ok(()) => {
                        return fail("absorbed-pre-block", format!("block {bi}: {fired} storage failures but the block opened normally"))
                    }
                    Err(e) if !is_infra_error(&e) => {
                        return fail("misreported-pre-block", err_text(&e))
                    }
                    Err(_) => {}
                }
            } else if let Err(e) = res {
                return fail("pre-block-error", err_text(&e));
            }
            // A half-opened block is dropped together with the in-memory state.
            node.crash();
            st.crashes += 1;
        }

        // Attempts with faults; after each failure retry on the same executor (or, where an aborted
        // run may legitimately leave detention behind, on a restarted node).
        let mut done: Vec<usize> = vec![];
        let mut evs: Vec<Ev> = spec.events.clone();
        if evs.is_empty() {
            evs = (0..spec.txs.len()).map(Ev::Exec).collect();
        }
        let mut pos = 0;
        let mut replays = 0;
        while pos <= evs.len() {
            let last = node.with_executor(b, |mut ex| -> Result<bool, Violation> {
                if let Err(e) = ex.apply_pre_execution_changes() {
                    return fail("reopen", err_text(&e));
                }
                // Redo what was committed before a restart.
                for i in &done {
                    let tx = ar[*i].get().expect("built");
                    if let Err(e) = ex.run_transaction(tx).and_then(|o| ex.commit_transaction_outcome(o)) {
                        return fail("restart-replay", err_text(&e));
                    }
                }
                while pos < evs.len() {
                    let ev = evs[pos].clone();
                    pos += 1;
                    st.steps += 1;
                    match ev {
                        Ev::FaultExec(i, p) if i < spec.txs.len() => {
                            let Some(tx) = ar[i].get() else { continue };
                            let want = expected(&run, i);
                            plane.borrow_mut().arm(p);
                            let got = ex.run_transaction(tx);
                            let fired = plane.borrow_mut().disarm();
                            st.plane(&mut plane.borrow_mut());
                            st.txs += 1;
                            if fired == 0 {
                                // Then it is an ordinary discarded run.
                                let got = view(got);
                                if !done.contains(&i) && !same(&got, &want) {
                                    return fail("fault-free-attempt", format!("tx {i}: {got:?} vs {want:?}"));
                                }
                            } else {
                                st.checks += 1;
                                st.distinct(&format!("tx {:?} {:?} {:?}", b.rules, p, spec.txs[i].ty));
                                match got {
                                    Ok(o) => return fail("absorbed-fault", format!(
                                        "block {bi} tx {i}: {fired} injected failures ({p:?}) but the transaction was executed: {:?}", o.inner.result)),
                                    Err(e) if !is_infra_error(&e) => return fail("misreported-fault", format!(
                                        "block {bi} tx {i}: infrastructure failure reported as invalid transaction: {}", err_text(&e))),
                                    Err(_) => st.probe("fault surfaced"),
                                }
                            }
                            if b.rules < Rules::Rex1 {
                                return Ok(false);
                            }
                        }
                        Ev::Exec(i) if i < spec.txs.len() => {
                            let Some(tx) = ar[i].get() else { continue };
                            if done.contains(&i) { continue }
                            let want = expected(&run, i);
                            let got = ex.run_transaction(tx);
                            st.txs += 1;
                            st.checks += 1;
                            match got {
                                Ok(o) => {
                                    let v: Result<_, String> = Ok((TxOut::new(&o.inner, o.tx_size, o.da_size), delta_of(&o.inner.state)));
                                    if !same(&v, &want) {
                                        return fail("retry-differs", format!("block {bi} tx {i} after faults: {v:?} but without faults: {want:?}"));
                                    }
                                    if let Err(e) = ex.commit_transaction_outcome(o) {
                                        return fail("retry-commit", err_text(&e));
                                    }
                                    done.push(i);
                                }
                                Err(e) => {
                                    let v = Err(err_text(&e));
                                    if !same(&v, &want) {
                                        return fail("retry-differs", format!("block {bi} tx {i} after faults: {v:?} but without faults: {want:?}"));
                                    }
                                }
                            }
                        }
                        _ => {}
                    }
                }
                // Closing steps under a fault.
                match ex.finish() {
                    Ok((_, f)) => {
                        let r: Vec<String> = f.receipts.iter().map(|x| format!("{x:?}")).collect();
                        if r != run.receipts {
                            return fail("receipts-differ", format!("block {bi}: {r:?} vs {:?}", run.receipts));
                        }
                    }
                    Err(e) => return fail("finish", err_text(&e)),
                }
                Ok(true)
            })?;
            if last {
                break;
            }
            node.crash();
            st.crashes += 1;
            replays += 1;
            if replays > 50 {
                return harness("restart loop");
            }
        }
        st.blocks += 1;
        node.persist();
        st.checks += 1;
        if let Some(d) = node.durable.diff(&shadow) {
            return fail("state-after-faults", format!("block {bi}: {d}"));
        }
        st.see(&format!("{:x}", shadow.digest()));
    }
    Ok(())
}

type View = Result<(TxOut, std::collections::BTreeMap<mega_evm::alloy_primitives::Address, String>), String>;

fn expected(run: &BlockRun, i: usize) -> View {
    if let Some(d) = run.done.iter().find(|d| d.idx == i) {
        return Ok((d.out.clone(), delta_of(&d.state)));
    }
    Err(run.rejected.iter().find(|r| r.0 == i).map(|r| r.1.clone()).unwrap_or_default())
}

fn view(
    got: Result<mega_evm::BlockMegaTransactionOutcome<&Tx>, mega_evm::alloy_evm::block::BlockExecutionError>,
) -> View {
    match got {
        Ok(o) => Ok((TxOut::new(&o.inner, o.tx_size, o.da_size), delta_of(&o.inner.state))),
        Err(e) => Err(err_text(&e)),
    }
}
