//! Before the first MegaETH fork, and while MiniRex is suspended, a block behaves exactly as an
//! OP Stack (Isthmus) block: the reference is the upstream executor over the same ledger.

use std::{
    cell::RefCell,
    collections::BTreeMap,
    rc::Rc,
    sync::{Arc, Mutex},
};

use mega_evm::{
    alloy_evm::{
        block::{BlockExecutor, CommitChanges, StateChangeSource},
        EvmEnv, EvmFactory,
    },
    alloy_hardforks::ForkCondition,
    alloy_op_evm::{block::OpAlloyReceiptBuilder, OpBlockExecutionCtx, OpBlockExecutor, OpEvmFactory},
    alloy_op_hardforks::{OpChainHardforks, OpHardfork},
    alloy_primitives::{Address, Bytes},
    op_revm::{OpHaltReason, OpSpecId},
    revm::{
        context::{result::ExecutionResult, CfgEnv},
        database::{states::bundle_state::BundleRetention, State},
        state::EvmState,
    },
    MegaHaltReason,
};

use crate::{chain::*, exec::*, gen::*, ids::*, scenario::*, stats::*, world::*};

use super::*;

pub fn prop() -> Prop {
    Prop {
        id: "C14",
        gen,
        check,
        quick_runs: 20_000,
        level: "exploration",
        rule: "seeded chain before the first fork or in the suspension window, with speculative, discarded, repeated, refused and aborted attempts, crashes and lazily loaded code; every committed block re-executed by the upstream OP Stack executor; a case counts when a committed transaction with a new (outcome, gas, usage, logs) signature was compared",
        real: REAL,
        stub: STUB,
        assumptions: ASSUME,
    }
}

fn gen(seed: u64) -> Scenario {
    let mut g = Gen::new(seed);
    g.sw.bad_nonce = 1;
    for i in [o::SELFDESTRUCT, o::BLOCKENV, o::CREATE, o::ORACLE] {
        if g.r.chance(1, 2) {
            g.sw.op[i] = g.sw.op[i].max(2);
        }
    }
    if g.r.chance(1, 2) {
        g.sw.system = g.sw.system.max(1);
    }
    let mut sc = g.world("C14", seed, false);
    let t = sc.genesis_time;
    sc.forks = [None; 8];
    match g.r.below(4) {
        0 => sc.forks[0] = Some(t + g.r.range(1, 12)),
        1 => {
            sc.forks[0] = Some(t.saturating_sub(g.r.below(3)));
            sc.forks[1] = Some(t + g.r.below(4));
            if g.r.chance(1, 3) {
                sc.forks[2] = Some(t + g.r.range(4, 12));
            }
        }
        _ => {}
    }
    for _ in 0..g.r.range(1, 3) {
        let ntx = g.r.range(1, 6) as usize;
        let mut b = g.block(ntx);
        if g.r.chance(1, 2) {
            // Resource limits of later rule sets are not in force here.
            let (enc, da) = (b.limits.clone(), 0);
            let _ = da;
            g.tight_limits(&mut b.limits);
            b.limits.tx_gas = enc.tx_gas;
            b.limits.tx_size = enc.tx_size;
            b.limits.block_size = enc.block_size;
            b.limits.tx_da = enc.tx_da;
            b.limits.block_da = enc.block_da;
            b.limits.block_data = enc.block_data;
            b.limits.block_kv = enc.block_kv;
            b.limits.block_compute = enc.block_compute;
            b.limits.block_growth = enc.block_growth;
        }
        b.events = g.events(ntx, true, true, true);
        sc.blocks.push(b);
    }
    sc
}

pub fn op_forks() -> OpChainHardforks {
    OpChainHardforks::new(
        OpHardfork::op_mainnet()
            .into_iter()
            .filter(|(f, _)| *f <= OpHardfork::Isthmus)
            .map(|(f, _)| (f, if f == OpHardfork::Bedrock { ForkCondition::Block(0) } else { ForkCondition::Timestamp(0) })),
    )
}

pub fn op_env(b: &BlockCtx) -> EvmEnv<OpSpecId> {
    let mut cfg = CfgEnv::new_with_spec(OpSpecId::ISTHMUS);
    cfg.chain_id = CHAIN_ID;
    EvmEnv { cfg_env: cfg, block_env: b.env.clone() }
}

fn halt(r: ExecRes) -> Result<ExecutionResult<OpHaltReason>, String> {
    Ok(match r {
        ExecutionResult::Success { reason, gas_used, gas_refunded, logs, output } => {
            ExecutionResult::Success { reason, gas_used, gas_refunded, logs, output }
        }
        ExecutionResult::Revert { gas_used, output } => ExecutionResult::Revert { gas_used, output },
        ExecutionResult::Halt { reason: MegaHaltReason::Base(reason), gas_used } => {
            ExecutionResult::Halt { reason, gas_used }
        }
        ExecutionResult::Halt { reason, .. } => return Err(format!("{reason:?}")),
    })
}

fn only(s: &EvmState, keep: &[Address]) -> EvmState {
    s.iter().filter(|(a, _)| keep.contains(a)).map(|(a, x)| (*a, x.clone())).collect()
}

/// What a refusal says about the transaction, without the wording of the wrapper.
fn reason(t: &str) -> String {
    t.rsplit("reason: ").next().unwrap_or(t).rsplit(" <- ").next().unwrap_or(t).to_string()
}

fn check(sc: &Scenario, st: &mut Stats) -> Verdict {
    let ids = Ids::new(sc);
    let ctxs = block_ctxs(sc, &ids);
    let mut node = Node::new(sc, &ids);
    let mut shadow = node.durable.clone();
    let protocol = [ids.addr(Who::Oracle), ids.addr(Who::TimeOracle), ids.addr(Who::Keyless)];
    for (bi, b) in ctxs.iter().enumerate() {
        st.sim_seconds += sc.blocks[bi].dt;
        let spec = &sc.blocks[bi];
        let ar = arena(spec.txs.len());
        let mut refl = shadow.clone();
        let opts = Opts { keep_before: false, speculate: true, plane: Some(node.plane.clone()) };
        let world = node.world.clone();
        let run = node
            .with_executor(b, |ex| sequence(ex, &ar, spec, &ids, &mut shadow, &world, &opts, st))?;
        note_done(st, b.rules, &run);
        node.persist();
        if sc.blocks[bi].events.iter().any(|e| matches!(e, Ev::Crash)) {
            node.crash();
            st.crashes += 1;
        }
        if b.rules != Rules::Equivalence {
            continue;
        }
        // Deployed protocol contracts are the only thing a suspended fork leaves in the opening.
        for s in &run.pre {
            refl.apply(&only(s, &protocol));
        }
        reference(b, bi, &ids, spec, &ar, &run, &mut refl, sc.seed, st)?;
        st.checks += 1;
        if let Some(d) = node.durable.diff(&refl) {
            return fail("state", format!("block {bi}: {d}"));
        }
    }
    Ok(())
}

fn reference(
    b: &BlockCtx,
    bi: usize,
    _ids: &Ids,
    _spec: &BlockSpec,
    ar: &Arena,
    run: &BlockRun,
    ledger: &mut Ledger,
    salt: u64,
    st: &mut Stats,
) -> Verdict {
    let plane: Rc<RefCell<Plane>> = Default::default();
    let open = |l: &Ledger| {
        State::builder()
            .with_database(LedgerDb::new(Rc::new(l.clone()), plane.clone(), false, salt))
            .with_bundle_update()
            .build()
    };
    let ctx = OpBlockExecutionCtx {
        parent_hash: sim_block_hash(salt, b.number - 1),
        parent_beacon_block_root: Some(sim_block_hash(salt ^ 0xbeac, b.number)),
        extra_data: Bytes::new(),
    };
    let forks = op_forks();
    let builder = OpAlloyReceiptBuilder::default();
    let feed: Arc<Mutex<Vec<EvmState>>> = Arc::default();
    let mut db = open(ledger);
    let evm = OpEvmFactory::default().create_evm(&mut db, op_env(b));
    let mut ex = OpBlockExecutor::new(evm, ctx.clone(), &forks, &builder);
    let f = feed.clone();
    ex.set_state_hook(Some(Box::new(move |_: StateChangeSource, s: &EvmState| f.lock().unwrap().push(s.clone()))));
    if let Err(e) = ex.apply_pre_execution_changes() {
        return fail("reference", err_text(&e));
    }
    let mut cur = ledger.clone();
    for s in feed.lock().unwrap().drain(..) {
        cur.apply(&s);
    }
    let mut refused: BTreeMap<usize, Vec<(usize, &str)>> = BTreeMap::new();
    for ((i, why), at) in run.rejected.iter().zip(&run.rejected_at) {
        refused.entry(*at).or_default().push((*i, why));
    }
    let mut used = 0u64;
    for n in 0..=run.done.len() {
        for (i, why) in refused.remove(&n).unwrap_or_default() {
            // A transaction the block refused has to be one the reference refuses at that place.
            let tx = ar[i].get().expect("built");
            let mut env = op_env(b);
            let room = env.block_env.gas_limit - used;
            st.checks += 1;
            use mega_evm::alloy_consensus::Transaction;
            if tx.inner().gas_limit() > room {
                st.probe("refused: block is full");
                continue;
            }
            env.block_env.gas_limit = b.env.gas_limit;
            let mut db = open(&cur);
            let evm = OpEvmFactory::default().create_evm(&mut db, env);
            let mut ex = OpBlockExecutor::new(evm, ctx.clone(), &forks, &builder);
            match ex.execute_transaction_with_commit_condition(tx, |_| CommitChanges::No) {
                Ok(_) => {
                    return fail("refused", format!("block {bi} tx {i}: the reference accepts it, refused with {why}"))
                }
                Err(e) => {
                    let (a, b) = (reason(why), reason(&err_text(&e)));
                    st.probe("refused by both");
                    st.distinct(&a);
                    if a != b {
                        return fail("refusal-reason", format!("block {bi} tx {i}: {why} / reference {}", err_text(&e)));
                    }
                }
            }
        }
        let Some(d) = run.done.get(n) else { break };
        let mut res = None;
        let r = ex.execute_transaction_with_result_closure(&d.tx, |x| res = Some(x.clone()));
        st.checks += 2;
        let gas = match r {
            Ok(g) => g,
            Err(e) => return fail("accepted", format!("block {bi} tx {}: the reference refuses it: {}", d.idx, err_text(&e))),
        };
        used += gas;
        let want = res.expect("ran");
        match halt(d.out.result.clone()) {
            Ok(got) if got == want => {}
            Ok(got) => return fail("result", format!("block {bi} tx {}: {got:?}, reference {want:?}", d.idx)),
            Err(h) => return fail("halt", format!("block {bi} tx {}: {h}, reference {want:?}", d.idx)),
        }
        let s = feed.lock().unwrap().pop().unwrap_or_default();
        let (x, y) = (delta_of(&d.state), delta_of(&s));
        if x != y {
            let a = x.iter().find(|(k, v)| y.get(*k) != Some(v)).map(|x| *x.0).or_else(|| y.keys().find(|k| !x.contains_key(*k)).copied());
            return fail(
                "changes",
                format!("block {bi} tx {}: {a:?}: {:?}, reference {:?}", d.idx, a.and_then(|a| x.get(&a)), a.and_then(|a| y.get(&a))),
            );
        }
        cur.apply(&s);
        feed.lock().unwrap().clear();
    }
    let out = match ex.finish() {
        Ok((_, f)) => f,
        Err(e) => return fail("reference", err_text(&e)),
    };
    st.checks += 2;
    if out.gas_used != run.gas_used {
        return fail("block-gas", format!("block {bi}: {} vs {}", run.gas_used, out.gas_used));
    }
    let rs: Vec<String> = out.receipts.iter().map(|r| format!("{r:?}")).collect();
    if rs != run.receipts {
        return fail("receipts", format!("block {bi}: {:?} vs {rs:?}", run.receipts));
    }
    db.merge_transitions(BundleRetention::Reverts);
    ledger.apply_bundle(&db.take_bundle());
    st.checks += 1;
    if let Some(d) = ledger.diff(&cur) {
        return fail("reference", format!("ledger {d}"));
    }
    Ok(())
}

