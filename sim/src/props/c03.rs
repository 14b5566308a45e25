//! Block limits hold under every interleaving of speculative execution and commit.

use std::collections::BTreeMap;

use mega_evm::{
    alloy_evm::block::{BlockExecutionError, BlockExecutor, BlockValidationError},
    MegaBlockLimitExceededError, MegaTxLimitExceededError,
};

use crate::{chain::*, exec::*, gen::*, ids::Ids, scenario::*, stats::*};

use super::*;

pub fn prop() -> Prop {
    Prop {
        id: "C03",
        gen,
        check,
        quick_runs: 60_000,
        level: "exploration",
        rule: "seeded blocks with binding limits and seeded run/commit/discard interleavings against a reference accountant; a case counts when a (limit that decided, stage, margin) combination is new",
        real: REAL,
        stub: STUB,
        assumptions: ASSUME,
    }
}

fn gen(seed: u64) -> Scenario {
    let mut g = Gen::new(seed);
    for i in [o::CREATE, o::SELFDESTRUCT, o::KEYLESS] {
        g.sw.op[i] = 0;
    }
    g.sw.creates = 0;
    g.sw.keyless = 0;
    g.sw.t7702 = 0;
    g.sw.deposits = g.sw.deposits.max(1);
    let mut sc = g.world("C03", seed, false);
    sc.hint_sets.clear();
    let ntx = g.r.range(2, 8) as usize;
    let mut b = g.block(ntx);
    for t in b.txs.iter_mut() {
        if g.r.chance(1, 3) {
            t.input = Input::Fill { n: g.r.below(1500) as u32, zeros: g.r.below(1500) as u32 };
        }
        if g.r.chance(1, 2) {
            t.gas = *g.r.pick(&[200_000u64, 500_000, 1_000_000]);
        }
    }
    g.squeeze(&mut b);
    b.events = g.any_order(ntx);
    sc.blocks.push(b);
    sc
}

/// Reference accountant.
#[derive(Default, Clone, Debug)]
struct Used {
    gas: u64,
    size: u64,
    /// Without and with deposits: whether deposits fill the data-availability budget is left open.
    da: (u64, u64),
    data: u64,
    kv: u64,
    compute: u64,
    growth: u64,
}

#[derive(Debug, PartialEq, Clone, Copy)]
enum Decision {
    Admit,
    Refuse(&'static str),
    Open,
}

fn decide(l: &Limits, gas_limit: u64, u: &Used, gas: u64, size: u64, da: u64, deposit: bool) -> Decision {
    use Decision::*;
    if gas > l.tx_gas {
        return Refuse("tx gas");
    }
    if u.gas.saturating_add(gas) > gas_limit {
        return Refuse("block gas");
    }
    if size > l.tx_size {
        return Refuse("tx size");
    }
    if u.size.saturating_add(size) > l.block_size {
        return Refuse("block size");
    }
    if !deposit && da > l.tx_da {
        return Refuse("tx da");
    }
    if u.data >= l.block_data {
        return Refuse("block data");
    }
    if u.kv >= l.block_kv {
        return Refuse("block kv");
    }
    if u.compute >= l.block_compute {
        return Refuse("block compute");
    }
    if u.growth >= l.block_growth {
        return Refuse("block growth");
    }
    if !deposit && u.da.0.saturating_add(da) > l.block_da {
        return Refuse("block da");
    }
    if !deposit && u.da.1.saturating_add(da) > l.block_da {
        return Open;
    }
    Admit
}

/// Whether an error is a limit refusal.
fn is_limit_error(e: &BlockExecutionError) -> bool {
    match e {
        BlockExecutionError::Validation(BlockValidationError::InvalidTx { error, .. }) => {
            (&**error as &dyn std::any::Any).downcast_ref::<MegaTxLimitExceededError>().is_some()
                || (&**error as &dyn std::any::Any).downcast_ref::<MegaBlockLimitExceededError>().is_some()
        }
        BlockExecutionError::Validation(
            BlockValidationError::TransactionGasLimitMoreThanAvailableBlockGas { .. },
        ) => true,
        _ => false,
    }
}

fn judge(stage: &str, i: usize, d: Decision, err: Option<&BlockExecutionError>, u: &Used, st: &mut Stats) -> Verdict {
    st.checks += 1;
    match (d, err) {
        (Decision::Open, _) => Ok(()),
        (Decision::Refuse(why), None) => fail(
            format!("admitted over {why}"),
            format!("{stage} tx {i} was admitted although {why} forbids it; used {u:?}"),
        ),
        (Decision::Refuse(why), Some(e)) => {
            st.probe(&format!("{stage} refused: {why}"));
            st.distinct(&format!("{stage} {why} {u:?}"));
            if is_limit_error(e) {
                Ok(())
            } else {
                // Another defect of the transaction may be reported instead, but not at commit.
                if stage == "commit" {
                    fail("commit-error", err_text(e))
                } else {
                    Ok(())
                }
            }
        }
        (Decision::Admit, Some(e)) if is_limit_error(e) => fail(
            "refused within limits",
            format!("{stage} tx {i} refused within limits: {}; used {u:?}", err_text(e)),
        ),
        (Decision::Admit, Some(e)) if stage == "commit" => fail("commit-error", err_text(e)),
        _ => Ok(()),
    }
}

fn check(sc: &Scenario, st: &mut Stats) -> Verdict {
    use mega_evm::alloy_consensus::{Transaction, Typed2718};
    use mega_evm::alloy_eips::Encodable2718;
    let ids = Ids::new(sc);
    let ctxs = block_ctxs(sc, &ids);
    let mut node = Node::new(sc, &ids);
    let mut shadow = node.durable.clone();
    for (bi, b) in ctxs.iter().enumerate() {
        st.sim_seconds += sc.blocks[bi].dt;
        let spec = &sc.blocks[bi];
        let ar = arena(spec.txs.len());
        let l = spec.limits;
        node.with_executor(b, |mut ex| -> Verdict {
            let outs = match ex.pre_execution_changes() {
                Ok(o) => o,
                Err(e) => return fail("pre-execution", err_text(&e)),
            };
            for o in &outs {
                shadow.apply(&o.state);
            }
            if let Err(e) = ex.commit_system_call_outcomes(outs) {
                return fail("pre-commit", err_text(&e));
            }
            let mut u = Used::default();
            let mut pending = BTreeMap::new();
            let mut gas_list: Vec<u64> = vec![];
            let mut evs = spec.events.clone();
            if evs.is_empty() {
                evs = (0..spec.txs.len()).map(Ev::Exec).collect();
            }
            for ev in evs {
                st.steps += 1;
                let (i, run, commit) = match ev {
                    Ev::Run(i) => (i, true, false),
                    Ev::Exec(i) => (i, true, true),
                    Ev::Commit(i) => (i, false, true),
                    Ev::Discard(i) => {
                        if pending.remove(&i).is_some() {
                            st.fault("discarded speculation", 1);
                        }
                        continue;
                    }
                    _ => continue,
                };
                if i >= spec.txs.len() {
                    continue;
                }
                // Concurrent senders speculate on top of committed state; same-sender nonce gaps are
                // ordinary rejections.
                let tx = ar[i]
                    .get_or_init(|| build_tx(&ids, &spec.txs[i], &|a| shadow.nonce(&a), i as u64));
                let gas = tx.inner().gas_limit();
                let size = tx.inner().encode_2718_len() as u64;
                let deposit = tx.inner().ty() == 0x7e;
                if run {
                    use mega_evm::MegaTransactionExt;
                    let da = tx.inner().estimated_da_size();
                    let d = decide(&l, spec.gas_limit, &u, gas, size, da, deposit);
                    let got = ex.run_transaction(tx);
                    st.txs += 1;
                    judge("run", i, d, got.as_ref().err(), &u, st)?;
                    st.see(&format!("{i} {}", got.is_ok()));
                    if let Ok(o) = got {
                        if o.tx_size != size || o.da_size != da {
                            return fail("size-report", format!("tx {i}: reported {} / {}", o.tx_size, o.da_size));
                        }
                        pending.insert(i, o);
                    }
                }
                if commit {
                    let Some(o) = pending.remove(&i) else { continue };
                    let d = decide(&l, spec.gas_limit, &u, gas, size, o.da_size, deposit);
                    let out = TxOut::new(&o.inner, o.tx_size, o.da_size);
                    let state = o.inner.state.clone();
                    let got = ex.commit_transaction_outcome(o);
                    judge("commit", i, d, got.as_ref().err(), &u, st)?;
                    if let Ok(g) = got {
                        if g != out.result.gas_used() {
                            return fail("commit-gas", format!("tx {i}: {g} vs {}", out.result.gas_used()));
                        }
                        shadow.apply(&state);
                        u.gas += g;
                        u.size += size;
                        u.da.1 += out.da_size;
                        if !deposit {
                            u.da.0 += out.da_size;
                        }
                        u.data += out.data;
                        u.kv += out.kv;
                        u.compute += out.compute;
                        u.growth += out.growth;
                        gas_list.push(u.gas);
                        st.probe("committed");
                    }
                }
            }
            st.checks += 3;
            if u.gas > spec.gas_limit {
                return fail("block gas overrun", format!("{} > {}", u.gas, spec.gas_limit));
            }
            if u.size > l.block_size || u.da.0 > l.block_da {
                return fail("block size overrun", format!("{u:?}"));
            }
            match ex.finish() {
                Ok((_, f)) => {
                    use mega_evm::alloy_consensus::TxReceipt;
                    let cum: Vec<u64> = f.receipts.iter().map(|r| r.cumulative_gas_used()).collect();
                    if cum != gas_list || f.gas_used != u.gas {
                        return fail("receipt-gas", format!("{cum:?}/{} vs {gas_list:?}/{}", f.gas_used, u.gas));
                    }
                }
                Err(e) => return fail("finish", err_text(&e)),
            }
            Ok(())
        })?;
        st.blocks += 1;
        node.persist();
        st.checks += 1;
        if let Some(d) = node.durable.diff(&shadow) {
            return fail("refused transactions left traces", format!("block {bi}: {d}"));
        }
        st.see(&format!("{:x}", shadow.digest()));
    }
    Ok(())
}
