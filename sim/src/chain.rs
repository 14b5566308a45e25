//! Block production (a sequencer following the scenario's schedule) and block replay (a replica).

use std::{
    cell::OnceCell,
    collections::{BTreeMap, BTreeSet},
};

use mega_evm::{
    alloy_evm::{block::BlockExecutionError, block::BlockExecutor},
    alloy_primitives::{Address, B256},
    revm::{state::EvmState, Inspector},
    BlockMegaTransactionOutcome, BucketId,
};

use crate::{exec::*, ids::Ids, scenario::*, stats::*, world::*};

pub type Arena = Vec<OnceCell<Tx>>;
pub fn arena(n: usize) -> Arena {
    (0..n).map(|_| OnceCell::new()).collect()
}

#[derive(Clone)]
pub struct Done {
    pub idx: usize,
    pub tx: Tx,
    pub out: TxOut,
    pub state: EvmState,
    /// World state right before the transaction ran.
    pub before: Option<Ledger>,
}

#[derive(Default, Clone)]
pub struct BlockRun {
    pub pre: Vec<EvmState>,
    pub done: Vec<Done>,
    pub rejected: Vec<(usize, String)>,
    /// How many transactions were in the block when each rejection happened.
    pub rejected_at: Vec<usize>,
    pub receipts: Vec<String>,
    pub gas_used: u64,
    pub buckets: BTreeSet<BucketId>,
    pub hashes: BTreeMap<u64, B256>,
}

/// The run cannot be completed although every fault has healed.
pub fn harness<T>(what: impl Into<String>) -> Result<T, Violation> {
    fail("no-progress", what)
}

pub struct Opts {
    /// Keep a copy of the world state before each committed transaction.
    pub keep_before: bool,
    /// Obey the schedule's speculative runs (otherwise every transaction is executed in order).
    pub speculate: bool,
    /// Fault plane for the schedule's faulty attempts (otherwise they are skipped).
    pub plane: Option<std::rc::Rc<std::cell::RefCell<Plane>>>,
}

impl Opts {
    pub fn plain() -> Self {
        Opts { keep_before: false, speculate: false, plane: None }
    }
    pub fn before() -> Self {
        Opts { keep_before: true, speculate: false, plane: None }
    }
}

/// Executes the block's schedule on a sequencer. `shadow` is the simulator's own ledger and ends up
/// as the post-state of the block.
pub fn sequence<'a, 't, I: Inspector<Ctx<'a>>>(
    mut ex: Ex<'a, I>,
    arena: &'t Arena,
    spec: &BlockSpec,
    ids: &Ids,
    shadow: &mut Ledger,
    world: &std::rc::Rc<std::cell::RefCell<EnvWorld>>,
    opts: &Opts,
    st: &mut Stats,
) -> Result<BlockRun, Violation> {
    let mut run = BlockRun::default();
    match ex.pre_execution_changes() {
        Ok(outs) => {
            for o in &outs {
                shadow.apply(&o.state);
                run.pre.push(o.state.clone());
            }
            if let Err(e) = ex.commit_system_call_outcomes(outs) {
                return fail("pre-commit", err_text(&e));
            }
        }
        Err(e) => return fail("pre-execution", err_text(&e)),
    }
    let in_order: Vec<Ev> = (0..spec.txs.len()).map(Ev::Exec).collect();
    let events = if spec.events.is_empty() || !opts.speculate {
        if spec.events.is_empty() {
            in_order
        } else {
            spec.events
                .iter()
                .filter_map(|e| match e {
                    Ev::Exec(i) | Ev::Commit(i) => Some(Ev::Exec(*i)),
                    Ev::OracleSet(..) => Some(e.clone()),
                    _ => None,
                })
                .collect()
        }
    } else {
        spec.events.clone()
    };
    let mut pending: BTreeMap<usize, BlockMegaTransactionOutcome<&'t Tx>> = BTreeMap::new();
    let mut committed = BTreeSet::new();
    for ev in &events {
        st.steps += 1;
        match ev {
            Ev::Run(i) | Ev::Exec(i) if *i < spec.txs.len() => {
                if committed.contains(i) {
                    // Running an already included transaction again must fail or be dropped.
                    if matches!(ev, Ev::Run(_)) {
                        let tx = arena[*i].get().expect("committed");
                        let _ = ex.run_transaction(tx).map(|_| st.probe("stale re-run"));
                    }
                    continue;
                }
                let tx = arena[*i]
                    .get_or_init(|| build_tx(ids, &spec.txs[*i], &|a| shadow.nonce(&a), *i as u64));
                match ex.run_transaction(tx) {
                    Ok(o) => {
                        st.txs += 1;
                        if matches!(ev, Ev::Exec(_)) {
                            finish_commit(&mut ex, *i, o, shadow, &mut run, opts, &mut committed)?;
                        } else {
                            pending.insert(*i, o);
                        }
                    }
                    Err(e) => {
                        pending.remove(i);
                        if is_infra_error(&e) {
                            return fail("infra-error-without-fault", err_text(&e));
                        }
                        run.rejected.push((*i, err_text(&e)));
                        run.rejected_at.push(run.done.len());
                    }
                }
            }
            Ev::FaultExec(i, p) if *i < spec.txs.len() => {
                let Some(plane) = &opts.plane else { continue };
                let tx = arena[*i]
                    .get_or_init(|| build_tx(ids, &spec.txs[*i], &|a| shadow.nonce(&a), *i as u64));
                plane.borrow_mut().arm(*p);
                let r = ex.run_transaction(tx);
                let fired = plane.borrow_mut().disarm();
                st.plane(&mut plane.borrow_mut());
                if fired > 0 && r.is_err() {
                    st.probe("aborted attempt");
                }
            }
            Ev::Commit(i) => {
                if let Some(o) = pending.remove(i) {
                    if !committed.contains(i) {
                        finish_commit(&mut ex, *i, o, shadow, &mut run, opts, &mut committed)?;
                    }
                }
            }
            Ev::Discard(i) => {
                if pending.remove(i).is_some() {
                    st.fault("discarded speculation", 1);
                }
            }
            Ev::OracleSet(k, v) => {
                set_oracle(world, *k, *v);
            }
            _ => {}
        }
    }
    run.buckets = ex.get_accessed_bucket_ids().into_iter().collect();
    run.hashes = ex.get_accessed_block_hashes();
    let f = match ex.finish() {
        Ok((_, f)) => f,
        Err(e) => return fail("finish", err_text(&e)),
    };
    run.gas_used = f.gas_used;
    run.receipts = f.receipts.iter().map(|r| format!("{r:?}")).collect();
    st.blocks += 1;
    Ok(run)
}

pub fn set_oracle(world: &std::rc::Rc<std::cell::RefCell<EnvWorld>>, k: u64, v: Option<u64>) {
    use mega_evm::alloy_primitives::U256;
    let mut w = world.borrow_mut();
    match v {
        Some(v) => w.oracle.insert(U256::from(k), U256::from(v)),
        None => w.oracle.remove(&U256::from(k)),
    };
}

pub fn finish_commit<'a, 't, I: Inspector<Ctx<'a>>>(
    ex: &mut Ex<'a, I>,
    i: usize,
    o: BlockMegaTransactionOutcome<&'t Tx>,
    shadow: &mut Ledger,
    run: &mut BlockRun,
    opts: &Opts,
    committed: &mut BTreeSet<usize>,
) -> Result<(), Violation> {
    let out = TxOut::new(&o.inner, o.tx_size, o.da_size);
    let state = o.inner.state.clone();
    let tx = o.tx.clone();
    match ex.commit_transaction_outcome(o) {
        Ok(_) => {
            let before = opts.keep_before.then(|| shadow.clone());
            shadow.apply(&state);
            committed.insert(i);
            run.done.push(Done { idx: i, tx, out, state, before });
            Ok(())
        }
        Err(e) if is_infra_error(&e) => fail("infra-error-without-fault", err_text(&e)),
        Err(e) => {
            run.rejected.push((i, err_text(&e)));
            run.rejected_at.push(run.done.len());
            Ok(())
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Mode {
    /// run + commit, usage visible.
    RunCommit,
    /// The generic block-executor interface.
    Trait,
    /// Run every transaction twice, commit the second outcome.
    Twice,
}

pub struct Replayed {
    pub outs: Vec<Option<TxOut>>,
    pub results: Vec<ExecRes>,
    pub receipts: Vec<String>,
    pub gas_used: u64,
    pub buckets: BTreeSet<BucketId>,
    pub hashes: BTreeMap<u64, B256>,
}

/// Replays a block. `stop_after`: abandon the block after that many transactions (crash).
pub fn replay<'a, I: Inspector<Ctx<'a>>>(
    mut ex: Ex<'a, I>,
    txs: &[&Tx],
    mode: Mode,
    stop_after: Option<usize>,
) -> Result<Option<Replayed>, BlockExecutionError> {
    let mut r = Replayed {
        outs: vec![],
        results: vec![],
        receipts: vec![],
        gas_used: 0,
        buckets: Default::default(),
        hashes: Default::default(),
    };
    ex.apply_pre_execution_changes()?;
    for (n, tx) in txs.iter().enumerate() {
        if stop_after == Some(n) {
            return Ok(None);
        }
        match mode {
            Mode::RunCommit => {
                let o = ex.run_transaction(*tx)?;
                r.outs.push(Some(TxOut::new(&o.inner, o.tx_size, o.da_size)));
                r.results.push(o.inner.result.clone());
                ex.commit_transaction_outcome(o)?;
            }
            Mode::Twice => {
                let _ = ex.run_transaction(*tx)?;
                let o = ex.run_transaction(*tx)?;
                r.outs.push(Some(TxOut::new(&o.inner, o.tx_size, o.da_size)));
                r.results.push(o.inner.result.clone());
                ex.commit_transaction_outcome(o)?;
            }
            Mode::Trait => {
                let mut res = None;
                ex.execute_transaction_with_result_closure(*tx, |x| res = Some(x.clone()))?;
                r.outs.push(None);
                r.results.push(res.expect("closure ran"));
            }
        }
    }
    if stop_after.is_some() {
        return Ok(None);
    }
    r.buckets = ex.get_accessed_bucket_ids().into_iter().collect();
    r.hashes = ex.get_accessed_block_hashes();
    let (_, f) = ex.finish()?;
    r.gas_used = f.gas_used;
    r.receipts = f.receipts.iter().map(|x| format!("{x:?}")).collect();
    Ok(Some(r))
}

/// Behaviour signature of one committed transaction, for distinctness counting.
pub fn signature(sc_rules: Rules, d: &Done) -> String {
    use mega_evm::revm::context::result::ExecutionResult;
    let kind = match &d.out.result {
        ExecutionResult::Success { .. } => "ok".to_string(),
        ExecutionResult::Revert { .. } => "revert".to_string(),
        ExecutionResult::Halt { reason, .. } => {
            let s = format!("{reason:?}");
            s.split([' ', '{', '(']).next().unwrap_or("").to_string() + &s[..s.len().min(30)]
        }
    };
    format!(
        "{sc_rules:?}|{kind}|{}|{}|{}|{}|{}|{}",
        d.out.result.gas_used(),
        d.out.data,
        d.out.kv,
        d.out.growth,
        d.out.compute,
        d.out.result.logs().len()
    )
}

pub fn note_done(st: &mut Stats, rules: Rules, run: &BlockRun) {
    use mega_evm::revm::context::result::ExecutionResult;
    for d in &run.done {
        st.distinct(&signature(rules, d));
        st.see(&format!("{:?}", d.out));
        match &d.out.result {
            ExecutionResult::Success { .. } => st.probe("tx success"),
            ExecutionResult::Revert { .. } => st.probe("tx revert"),
            ExecutionResult::Halt { reason, .. } => {
                let s = format!("{reason:?}");
                let s: String = s.chars().take_while(|c| *c != '{').collect();
                st.probe(&format!("halt {}", s.trim()));
            }
        }
    }
    for (_, e) in &run.rejected {
        st.see(e);
        st.probe("tx rejected");
    }
}

#[allow(unused)]
pub fn touched(state: &EvmState) -> Vec<Address> {
    let mut v: Vec<_> = state.iter().filter(|(_, a)| a.is_touched()).map(|(k, _)| *k).collect();
    v.sort();
    v
}
