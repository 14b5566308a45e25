//! What a block reports (receipts, state-change feed, gas) is exactly what it committed.

use std::{
    collections::BTreeMap,
    sync::{Arc, Mutex},
};

use mega_evm::{
    alloy_consensus::{Transaction, TxReceipt, Typed2718},
    alloy_evm::block::{BlockExecutor, CommitChanges, StateChangeSource},
    alloy_primitives::Log,
    op_alloy_consensus::OpReceiptEnvelope,
    revm::state::EvmState,
};

use crate::{chain::*, exec::*, gen::*, ids::Ids, scenario::*, stats::*};

use super::*;

pub fn prop() -> Prop {
    Prop {
        id: "C22",
        gen,
        check,
        quick_runs: 15_000,
        level: "exploration",
        rule: "seeded chain of all transaction kinds with speculative, declined, discarded, refused, late-committed and aborted attempts through every entry point of the executor; receipts, feed and block gas rebuilt independently from the outcomes; a case counts when a receipt has a new (rules, kind, status, gas, number of logs, attempts so far) signature",
        real: REAL,
        stub: STUB,
        assumptions: ASSUME,
    }
}

fn gen(seed: u64) -> Scenario {
    let mut g = Gen::new(seed);
    g.sw.bad_nonce = 1;
    if g.r.chance(1, 2) {
        g.sw.deposits = g.sw.deposits.max(3);
    }
    if g.r.chance(1, 2) {
        g.sw.system = g.sw.system.max(2);
    }
    g.sw.op[o::LOG] = g.sw.op[o::LOG].max(2);
    let reorder = g.r.chance(1, 2);
    if reorder {
        // Commits on top of a later state are well defined for plain changes only.
        for i in [o::CREATE, o::SELFDESTRUCT, o::KEYLESS] {
            g.sw.op[i] = 0;
        }
        g.sw.creates = 0;
        g.sw.keyless = 0;
        g.sw.t7702 = 0;
    }
    let crossing = g.r.chance(1, 3);
    let mut sc = g.world("C22", seed, crossing);
    for _ in 0..g.r.range(1, 3) {
        let ntx = g.r.range(2, 7) as usize;
        let mut b = g.block(ntx);
        if g.r.chance(1, 3) {
            g.tight_limits(&mut b.limits);
        }
        if reorder {
            g.squeeze(&mut b);
            b.events = g.any_order(ntx);
            for _ in 0..g.r.below(3) {
                let at = g.r.idx(b.events.len());
                let e = Ev::FaultExec(g.r.idx(ntx), g.fault());
                b.events.insert(at, e);
            }
        } else {
            b.events = g.events(ntx, true, false, true);
        }
        sc.blocks.push(b);
    }
    sc
}

/// What the receipt of a committed transaction has to say.
#[derive(Debug, Clone)]
struct Expect {
    ty: u8,
    ok: bool,
    cumulative: u64,
    logs: Vec<Log>,
    deposit: Option<u64>,
}

fn matches(r: &OpReceiptEnvelope, e: &Expect) -> bool {
    let d = match r {
        OpReceiptEnvelope::Deposit(d) => Some((d.receipt.deposit_nonce, d.receipt.deposit_receipt_version)),
        _ => None,
    };
    let bloom = e.logs.iter().fold(mega_evm::alloy_primitives::Bloom::default(), |mut b, l| {
        b.accrue_log(l);
        b
    });
    r.tx_type() as u8 == e.ty
        && r.status() == e.ok
        && r.cumulative_gas_used() == e.cumulative
        && r.logs() == e.logs.as_slice()
        && r.bloom() == bloom
        && d == e.deposit.map(|n| (Some(n), Some(1)))
}

fn check(sc: &Scenario, st: &mut Stats) -> Verdict {
    let ids = Ids::new(sc);
    let ctxs = block_ctxs(sc, &ids);
    let mut node = Node::new(sc, &ids);
    let mut shadow = node.durable.clone();
    for (bi, b) in ctxs.iter().enumerate() {
        st.sim_seconds += sc.blocks[bi].dt;
        let spec = &sc.blocks[bi];
        let ar = arena(spec.txs.len());
        let world = node.world.clone();
        let plane = node.plane.clone();
        node.with_executor(b, |mut ex| -> Verdict {
            let feed: Arc<Mutex<Vec<(StateChangeSource, EvmState)>>> = Arc::default();
            let f = feed.clone();
            ex.set_state_hook(Some(Box::new(move |s: StateChangeSource, state: &EvmState| {
                f.lock().unwrap().push((s, state.clone()))
            })));
            // Opening the block: every step is announced once, when it is committed.
            let outs = match ex.pre_execution_changes() {
                Ok(o) => o,
                Err(e) => return fail("pre-execution", err_text(&e)),
            };
            if !feed.lock().unwrap().is_empty() {
                return fail("feed-early", format!("block {bi}: fed before the opening was committed"));
            }
            let steps: Vec<EvmState> = outs.iter().map(|o| o.state.clone()).collect();
            if let Err(e) = ex.commit_system_call_outcomes(outs) {
                return fail("pre-commit", err_text(&e));
            }
            st.checks += 1;
            {
                let f = feed.lock().unwrap();
                if f.len() != steps.len() || f.iter().zip(&steps).any(|((_, a), b)| a != b) {
                    return fail("feed-opening", format!("block {bi}: {} steps, {} announced", steps.len(), f.len()));
                }
                for s in &steps {
                    shadow.apply(s);
                }
            }
            let mut want: Vec<Expect> = vec![];
            let mut gas = 0u64;
            let mut attempts = 0u64;
            let mut pending = BTreeMap::new();
            let mut committed = std::collections::BTreeSet::new();
            let mut evs = spec.events.clone();
            if evs.is_empty() {
                evs = (0..spec.txs.len()).map(Ev::Exec).collect();
            }
            for (n, ev) in evs.iter().enumerate() {
                st.steps += 1;
                let fed = feed.lock().unwrap().len();
                // (outcome to account for, the state the executor reported if visible)
                let mut got: Option<(usize, bool, u64, Vec<Log>, Option<EvmState>, u64)> = None;
                match ev {
                    Ev::Run(i) | Ev::Exec(i) | Ev::FaultExec(i, _) if *i < spec.txs.len() => {
                        let i = *i;
                        attempts += 1;
                        let tx = ar[i]
                            .get_or_init(|| build_tx(&ids, &spec.txs[i], &|a| shadow.nonce(&a), i as u64));
                        let nonce = shadow.nonce(&tx.signer());
                        let done = committed.contains(&i);
                        match ev {
                            Ev::FaultExec(_, p) => {
                                plane.borrow_mut().arm(*p);
                                let r = ex.run_transaction(tx);
                                plane.borrow_mut().disarm();
                                st.plane(&mut plane.borrow_mut());
                                if r.is_err() {
                                    st.probe("aborted attempt");
                                }
                            }
                            Ev::Exec(_) if !done => {
                                // Every way in: which one is a function of the schedule.
                                let way = (n as u64 + bi as u64 * 3 + sc.seed) % 4;
                                st.probe(&format!("way {way}"));
                                let mut seen = None;
                                let mut calls = 0;
                                let r = match way {
                                    0 => match ex.run_transaction(tx) {
                                        Ok(o) => {
                                            let (r, s) = (o.inner.result.clone(), o.inner.state.clone());
                                            seen = Some((r.is_success(), r.gas_used(), r.into_logs(), Some(s)));
                                            ex.commit_transaction_outcome(o).map(Some)
                                        }
                                        Err(e) => Err(e),
                                    },
                                    1 => ex
                                        .execute_transaction_with_result_closure(tx, |r| {
                                            calls += 1;
                                            seen = Some((r.is_success(), r.gas_used(), r.clone().into_logs(), None));
                                        })
                                        .map(Some),
                                    2 => ex.execute_transaction_with_commit_condition(tx, |r| {
                                        calls += 1;
                                        seen = Some((r.is_success(), r.gas_used(), r.clone().into_logs(), None));
                                        CommitChanges::Yes
                                    }),
                                    _ => {
                                        // Declined first, then taken.
                                        let r = ex.execute_transaction_with_commit_condition(tx, |_| {
                                            calls += 1;
                                            CommitChanges::No
                                        });
                                        st.checks += 1;
                                        if feed.lock().unwrap().len() != fed || ex.receipts.len() != want.len() {
                                            return fail("declined-reported", format!("block {bi} tx {i}: {r:?}"));
                                        }
                                        match r {
                                            Ok(None) => {
                                                st.fault("declined result", 1);
                                                calls = 0;
                                                ex.execute_transaction_with_commit_condition(tx, |r| {
                                                    calls += 1;
                                                    seen = Some((r.is_success(), r.gas_used(), r.clone().into_logs(), None));
                                                    CommitChanges::Yes
                                                })
                                            }
                                            Ok(Some(g)) => {
                                                return fail("declined-committed", format!("block {bi} tx {i}: {g}"))
                                            }
                                            Err(e) => Err(e),
                                        }
                                    }
                                };
                                if calls > 1 {
                                    return fail("decided-twice", format!("block {bi} tx {i}: {calls}"));
                                }
                                match r {
                                    Ok(Some(g)) => {
                                        let Some((ok, used, logs, state)) = seen else {
                                            return fail("undecided-commit", format!("block {bi} tx {i}"));
                                        };
                                        if g != used {
                                            return fail("commit-gas", format!("block {bi} tx {i}: {g} vs {used}"));
                                        }
                                        got = Some((i, ok, used, logs, state, nonce));
                                    }
                                    Ok(None) => {
                                        return fail("not-committed", format!("block {bi} tx {i}: accepted but dropped"))
                                    }
                                    Err(e) if is_infra_error(&e) => {
                                        return fail("infra-error-without-fault", err_text(&e))
                                    }
                                    Err(_) => st.probe("refused"),
                                }
                            }
                            Ev::Run(_) => match ex.run_transaction(tx) {
                                Ok(o) => {
                                    st.txs += 1;
                                    if !done {
                                        pending.insert(i, (o, nonce));
                                    }
                                }
                                Err(e) if is_infra_error(&e) => {
                                    return fail("infra-error-without-fault", err_text(&e))
                                }
                                Err(_) => {
                                    pending.remove(&i);
                                }
                            },
                            _ => {}
                        }
                    }
                    Ev::Commit(i) => {
                        if let Some((o, nonce)) = pending.remove(i) {
                            if !committed.contains(i) {
                                let (r, s) = (o.inner.result.clone(), o.inner.state.clone());
                                match ex.commit_transaction_outcome(o) {
                                    Ok(g) => {
                                        if g != r.gas_used() {
                                            return fail("commit-gas", format!("block {bi} tx {i}: {g} vs {r:?}"));
                                        }
                                        st.probe("late commit");
                                        got = Some((*i, r.is_success(), g, r.into_logs(), Some(s), nonce));
                                    }
                                    Err(_) => st.probe("refused at commit"),
                                }
                            }
                        }
                    }
                    Ev::Discard(i) => {
                        if pending.remove(i).is_some() {
                            st.fault("discarded speculation", 1);
                        }
                    }
                    Ev::OracleSet(k, v) => set_oracle(&world, *k, *v),
                    _ => {}
                }
                st.checks += 2;
                let f = feed.lock().unwrap();
                match got {
                    None => {
                        if f.len() != fed {
                            return fail("feed-uncommitted", format!("block {bi} step {n} {ev:?} announced a change"));
                        }
                    }
                    Some((i, ok, used, logs, state, nonce)) => {
                        st.txs += 1;
                        committed.insert(i);
                        if f.len() != fed + 1 {
                            return fail("feed-count", format!("block {bi} tx {i}: {} announcements", f.len() - fed));
                        }
                        let (src, s) = &f[fed];
                        if !matches!(src, StateChangeSource::Transaction(k) if *k == want.len()) {
                            return fail("feed-index", format!("block {bi} tx {i}: {src:?}, position {}", want.len()));
                        }
                        if state.as_ref().is_some_and(|x| x != s) {
                            return fail("feed-state", format!("block {bi} tx {i}: {s:?} vs {state:?}"));
                        }
                        shadow.apply(s);
                        gas += used;
                        let tx = ar[i].get().expect("built").inner();
                        let ty = tx.ty();
                        if used > tx.gas_limit() {
                            return fail("gas-over-limit", format!("block {bi} tx {i}: {used} > {}", tx.gas_limit()));
                        }
                        st.distinct(&format!("{:?} {ty} {ok} {used} {} {attempts}", b.rules, logs.len()));
                        st.see(&format!("{i} {ok} {used}"));
                        want.push(Expect {
                            ty,
                            ok,
                            cumulative: gas,
                            logs,
                            deposit: (ty == 0x7e).then_some(nonce),
                        });
                    }
                }
                if ex.receipts.len() != want.len() {
                    return fail(
                        "receipt-count",
                        format!("block {bi} step {n} {ev:?}: {} receipts, {} committed", ex.receipts.len(), want.len()),
                    );
                }
            }
            let fed = feed.lock().unwrap().len();
            let out = match ex.finish() {
                Ok((_, f)) => f,
                Err(e) => return fail("finish", err_text(&e)),
            };
            st.blocks += 1;
            st.checks += 3;
            if out.gas_used != gas {
                return fail("block-gas", format!("block {bi}: {} vs {gas}", out.gas_used));
            }
            if out.receipts.len() != want.len() || !out.requests.is_empty() {
                return fail("receipt-count", format!("block {bi}: {} vs {}", out.receipts.len(), want.len()));
            }
            for (k, (r, e)) in out.receipts.iter().zip(&want).enumerate() {
                st.checks += 1;
                if !matches(r, e) {
                    return fail("receipt", format!("block {bi} position {k}: {r:?}, expected {e:?}"));
                }
            }
            let f = feed.lock().unwrap();
            for (_, s) in &f[fed..] {
                shadow.apply(s);
            }
            Ok(())
        })?;
        node.persist();
        st.checks += 1;
        if let Some(d) = node.durable.diff(&shadow) {
            return fail("feed-incomplete", format!("block {bi}: persisted state is not the sum of the feed: {d}"));
        }
        st.see(&format!("{:x}", shadow.digest()));
    }
    Ok(())
}
