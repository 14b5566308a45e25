//! The EVM used on its own, through any of its entry points and however it was put together, does
//! what the block executor does with the same transactions on the same state.

use std::{collections::BTreeSet, sync::Arc};

use mega_evm::{
    alloy_eips::{
        eip2935::HISTORY_STORAGE_ADDRESS,
        eip4788::{BEACON_ROOTS_ADDRESS, SYSTEM_ADDRESS},
    },
    alloy_evm::{precompiles::DynPrecompile, Evm, EvmEnv, EvmFactory, IntoTxEnv},
    alloy_primitives::{address, Address, TxKind, B256},
    op_revm::L1BlockInfo,
    revm::{
        context::{result::{ExecutionResult, ResultAndState}, ContextSetters, TxEnv},
        database::EmptyDB,
        inspector::NoOpInspector,
        precompile::PrecompileOutput,
        ExecuteCommitEvm, ExecuteEvm, InspectEvm,
    },
    DynPrecompilesBuilder, ExternalEnvFactory, MegaContext, MegaEvm, MegaEvmFactory, MegaSpecId, MegaTransaction,
};

use crate::{
    chain::*,
    exec::*,
    gen::*,
    ids::{Ids, BASE_FEE_VAULT, L1_FEE_VAULT, OP_FEE_VAULT},
    rng::Rng,
    scenario::*,
    stats::*,
    world::*,
};

use super::*;

type Bare<'a> = MegaEvm<&'a mut Db, NoOpInspector, Envs>;

pub fn prop() -> Prop {
    Prop {
        id: "C23",
        gen,
        check,
        quick_runs: 25_000,
        level: "exploration",
        rule: "seeded chain produced by the block executor and executed again on bare EVMs assembled in a random way, each transaction through a random entry point, with aborted attempts in between; a case counts when a compared transaction has a new (rules, outcome, gas, usage, logs) signature",
        real: REAL,
        stub: STUB,
        assumptions: ASSUME,
    }
}

fn gen(seed: u64) -> Scenario {
    let mut g = Gen::new(seed);
    if g.r.chance(1, 2) {
        g.sw.op[o::BLOCKENV] = g.sw.op[o::BLOCKENV].max(1);
        g.sw.op[o::ORACLE] = g.sw.op[o::ORACLE].max(1);
    }
    g.sw.bad_nonce = g.r.below(2) as u32;
    let crossing = g.r.chance(1, 4);
    let mut sc = g.world("C23", seed, crossing);
    sc.hint_sets.clear();
    for _ in 0..g.r.range(1, 2) {
        let ntx = g.r.range(2, 7) as usize;
        let mut b = g.block(ntx);
        b.limits = no_limits();
        if g.r.chance(1, 2) {
            g.tight_limits(&mut b.limits);
        }
        b.events = g.events(ntx, true, false, false);
        b.events.retain(|e| !matches!(e, Ev::OracleSet(..)));
        sc.blocks.push(b);
    }
    sc.knobs = vec![g.r.next()];
    sc
}

/// The identity function at its usual price, as an embedder's own precompile.
const IDENTITY: Address = address!("0x0000000000000000000000000000000000000004");

fn own_identity() -> DynPrecompile {
    use mega_evm::alloy_evm::precompiles::PrecompileInput;
    use mega_evm::revm::precompile::PrecompileError;
    DynPrecompile::new(|i: PrecompileInput<'_>| {
        let gas = 15 + 3 * (i.data.len() as u64).div_ceil(32);
        if gas > i.gas {
            return Err(PrecompileError::OutOfGas);
        }
        Ok(PrecompileOutput::new(gas, i.data.to_vec().into()))
    })
}

/// An account nobody else knows.
const FRESH: Address = address!("0x00000000000000000000000000000000fe000001");
/// A precompile of the embedder's own, at an address of its own.
const REVERSE: Address = address!("0x00000000000000000000000000000000be000001");

fn own_reverse() -> DynPrecompile {
    use mega_evm::alloy_evm::precompiles::PrecompileInput;
    DynPrecompile::new(|i: PrecompileInput<'_>| {
        Ok(PrecompileOutput::new(77, i.data.iter().rev().copied().collect::<Vec<_>>().into()))
    })
}

fn assemble<'a>(how: u64, db: &'a mut Db, b: &BlockCtx, env: EvmEnv<MegaSpecId>, node: &Shell) -> Bare<'a> {
    let envs = SimEnvFactory { world: node.world.clone(), plane: node.plane.clone() };
    let limits = b.limits.to_evm_tx_runtime_limits();
    let f = MegaEvmFactory::new();
    let own: DynPrecompilesBuilder =
        Arc::new(|_| [(IDENTITY, own_identity()), (REVERSE, own_reverse())].into_iter().collect());
    match how {
        0 => f.with_external_env_factory(envs).create_evm(db, env).with_tx_runtime_limits(limits),
        1 => f
            .with_external_env_factory(envs)
            .create_evm_with_inspector(db, env, NoOpInspector)
            .with_tx_runtime_limits(limits),
        2 => f
            .with_dyn_precompiles_builder(own)
            .with_external_env_factory(envs)
            .create_evm(db, env)
            .with_tx_runtime_limits(limits),
        3 => f
            .with_external_env_factory(envs)
            .create_evm(db, env)
            .with_tx_runtime_limits(limits)
            .with_inspector(NoOpInspector)
            .without_inspector(),
        4 => MegaEvm::new(
            MegaContext::new(db, b.rules.spec())
                .with_tx_runtime_limits(limits)
                .with_block(env.block_env)
                .with_cfg(env.cfg_env)
                .with_external_envs(envs.external_envs(b.number))
                .with_chain(L1BlockInfo::default()),
        ),
        5 => MegaEvm::new(
            MegaContext::new(EmptyDB::default(), b.rules.spec())
                .with_external_envs(envs.external_envs(b.number))
                .with_cfg(env.cfg_env)
                .with_tx_runtime_limits(limits)
                .with_chain(L1BlockInfo::default())
                .with_block(env.block_env)
                .with_db(db),
        ),
        6 => f
            .with_external_env_factory(envs)
            .with_dyn_precompiles_builder(own)
            .create_evm_with_inspector(db, env, NoOpInspector)
            .with_tx_runtime_limits(limits),
        7 => f
            .with_dyn_precompiles_builder(own)
            .with_external_env_factory(envs)
            .create_evm(db, env)
            .with_tx_runtime_limits(limits)
            .with_inspector(NoOpInspector)
            .without_inspector(),
        _ => {
            let mut e = f
                .with_external_env_factory(envs)
                .create_evm(db, env)
                .with_inspector(NoOpInspector)
                .with_tx_runtime_limits(limits);
            e.set_inspector_enabled(false);
            e
        }
    }
}

/// The block's environment with some admission checks switched off or limits made explicit.
fn relaxed(b: &BlockCtx, r: &mut Rng) -> EvmEnv<MegaSpecId> {
    let mut env = evm_env(b);
    let c = &mut env.cfg_env;
    c.tx_chain_id_check = r.chance(1, 2);
    c.disable_nonce_check = r.chance(1, 2);
    c.disable_balance_check = r.chance(1, 2);
    c.disable_block_gas_limit = r.chance(1, 2);
    c.disable_eip3607 = r.chance(1, 2);
    c.disable_base_fee = r.chance(1, 2);
    c.memory_limit += r.below(3);
    if r.chance(1, 2) {
        c.max_blobs_per_tx = Some(r.range(1, 9));
        c.blob_base_fee_update_fraction = Some(r.range(1_000_000, 9_000_000));
    }
    if r.chance(1, 2) {
        c.tx_gas_limit_cap = Some(u64::MAX - r.below(2));
    }
    if r.chance(1, 2) {
        // The sizes in force since MiniRex.
        c.limit_contract_code_size = Some(512 * 1024);
        c.limit_contract_initcode_size = Some(512 * 1024 + 24 * 1024);
    }
    env
}

/// The parts of a node an EVM is attached to.
struct Shell {
    plane: std::rc::Rc<std::cell::RefCell<Plane>>,
    world: std::rc::Rc<std::cell::RefCell<EnvWorld>>,
}

struct Got {
    result: ExecRes,
    state: Option<mega_evm::revm::state::EvmState>,
}

fn usage(evm: &Bare<'_>) -> (u64, u64, u64, u64) {
    let u = evm.ctx.additional_limit.borrow().get_usage();
    (u.data_size, u.kv_updates, u.compute_gas, u.state_growth)
}

fn run_one(evm: &mut Bare<'_>, how: u64, tx: MegaTransaction) -> Result<Got, String> {
    let split = |r: ResultAndState<_>| Got { result: r.result, state: Some(r.state) };
    let text = |e: &dyn std::error::Error| e.to_string().replace("transaction validation error: ", "");
    match how {
        0 => evm
            .execute_transaction(tx)
            .map(|o| Got { result: o.result, state: Some(o.state) })
            .map_err(|e| text(&e)),
        1 => evm.transact_raw(tx).map(split).map_err(|e| text(&e)),
        2 => ExecuteEvm::transact(evm, tx).map(split).map_err(|e| text(&e)),
        3 => match evm.transact_one(tx) {
            Ok(result) => Ok(Got { result, state: Some(evm.finalize()) }),
            Err(e) => {
                let _ = evm.finalize();
                Err(text(&e))
            }
        },
        4 => match evm.inspect_tx(tx) {
            Ok(r) => Ok(split(r)),
            Err(e) => {
                let _ = evm.finalize();
                Err(text(&e))
            }
        },
        5 => {
            evm.ctx.set_tx(tx);
            match evm.replay() {
                Ok(r) => Ok(split(r)),
                Err(e) => {
                    let _ = evm.finalize();
                    Err(text(&e))
                }
            }
        }
        6 => match ExecuteCommitEvm::transact_commit(evm, tx) {
            Ok(result) => Ok(Got { result, state: None }),
            Err(e) => {
                let _ = evm.finalize();
                Err(text(&e))
            }
        },
        _ => match Evm::transact_commit(evm, tx) {
            Ok(result) => Ok(Got { result, state: None }),
            Err(e) => {
                let _ = evm.finalize();
                Err(text(&e))
            }
        },
    }
}

fn check(sc: &Scenario, st: &mut Stats) -> Verdict {
    let ids = Ids::new(sc);
    let ctxs = block_ctxs(sc, &ids);
    let mut node = Node::new(sc, &ids);
    let mut bare = Node::new(sc, &ids);
    let mut shadow = node.durable.clone();
    let mut r = Rng::new(sc.knob(0));
    for (bi, b) in ctxs.iter().enumerate() {
        st.sim_seconds += sc.blocks[bi].dt;
        let spec = &sc.blocks[bi];
        let ar = arena(spec.txs.len());
        let world = node.world.clone();
        let opts = Opts::before();
        let run = node.with_executor(b, |ex| sequence(ex, &ar, spec, &ids, &mut shadow, &world, &opts, st))?;
        note_done(st, b.rules, &run);
        node.persist();

        let shell = Shell { plane: bare.plane.clone(), world: bare.world.clone() };
        let asm = r.below(9);
        st.probe(&format!("assembly {asm}"));
        let mut db = bare.state.take().unwrap_or_else(|| bare.boot());
        {
            let mut evm = assemble(asm, &mut db, b, evm_env(b), &shell);
            // The calls the protocol makes itself at the start of a block.
            let cx = exec_ctx(b, sc.seed);
            let calls = [
                (HISTORY_STORAGE_ADDRESS, cx.parent_hash),
                (BEACON_ROOTS_ADDRESS, cx.parent_beacon_block_root.expect("set")),
            ];
            for (k, (to, arg)) in calls.into_iter().enumerate() {
                st.checks += 1;
                let got = match evm.transact_system_call(SYSTEM_ADDRESS, to, arg.0.into()) {
                    Ok(r) => delta_of(&r.state),
                    Err(e) => return fail("system-call", format!("block {bi} call {k}: {e}")),
                };
                let want = delta_of(&run.pre[k]);
                if got != want {
                    return fail("system-call", format!("block {bi} call {k}: executor {want:?}, bare EVM ({asm}) {got:?}"));
                }
            }
            for s in &run.pre {
                for a in s.keys() {
                    let _ = evm.db_mut().load_cache_account(*a);
                }
                evm.ctx_commit(s.clone());
            }
            let mut clean = run.rejected.is_empty();
            let mut i = 0;
            while i < run.done.len() {
                let d = &run.done[i];
                // Attempts that storage or the environment cut short leave no trace.
                if b.rules >= Rules::Rex1 {
                    for e in &spec.events {
                        let Ev::FaultExec(j, p) = e else { continue };
                        if *j != d.idx {
                            continue;
                        }
                        shell.plane.borrow_mut().arm(*p);
                        let x = run_one(&mut evm, r.below(2), (&d.tx).into_tx_env());
                        let fired = shell.plane.borrow_mut().disarm();
                        st.plane(&mut shell.plane.borrow_mut());
                        clean = false;
                        st.checks += 1;
                        if fired == 0 && x.is_err() {
                            return fail("fault-free-attempt-fails", format!("block {bi} tx {}: {:?}", d.idx, x.err()));
                        }
                    }
                    for ((j, why), at) in run.rejected.iter().zip(&run.rejected_at) {
                        if *at != i {
                            continue;
                        }
                        let Some(tx) = ar[*j].get() else { continue };
                        let how = r.below(6);
                        let x = run_one(&mut evm, how, tx.into_tx_env());
                        st.checks += 1;
                        // Only refusals by the EVM itself concern a bare EVM.
                        if !why.contains("EVM reported") {
                            st.probe("refused by the block");
                            continue;
                        }
                        match x {
                            Err(e) if why.contains(&e) => st.probe("refused alike"),
                            x => {
                                return fail(
                                    "refused-otherwise",
                                    format!("block {bi} tx {j}: executor {why}, bare EVM ({how}) {:?}", x.map(|g| g.result)),
                                )
                            }
                        }
                    }
                }
                let how = r.below(8);
                st.probe(&format!("entry point {how}"));
                let got = match run_one(&mut evm, how, (&d.tx).into_tx_env()) {
                    Ok(g) => g,
                    Err(e) => {
                        return fail("refused", format!("block {bi} tx {} ({:?}): accepted in the block, bare EVM ({asm}/{how}) {e}", d.idx, b.rules))
                    }
                };
                st.checks += 3;
                if got.result != d.out.result {
                    return fail(
                        "result",
                        format!("block {bi} tx {} ({:?}): executor {:?}, bare EVM ({asm}/{how}) {:?}", d.idx, b.rules, d.out.result, got.result),
                    );
                }
                let want = (d.out.data, d.out.kv, d.out.compute, d.out.growth);
                let u = usage(&evm);
                if u != want {
                    return fail("usage", format!("block {bi} tx {} ({:?}): executor {want:?}, bare EVM ({asm}/{how}) {u:?}", d.idx, b.rules));
                }
                if let Some(s) = got.state {
                    let (x, y) = (delta_of(&d.state), delta_of(&s));
                    if x != y {
                        return fail("delta", format!("block {bi} tx {}: executor {x:?}, bare EVM ({asm}/{how}) {y:?}", d.idx));
                    }
                    evm.ctx_commit(s);
                }
                st.distinct(&signature(b.rules, d));
                i += 1;
            }
            if clean {
                st.checks += 2;
                let buckets: BTreeSet<_> = evm.get_accessed_bucket_ids().into_iter().collect();
                if buckets != run.buckets {
                    return fail("buckets", format!("block {bi}: executor {:?}, bare EVM {buckets:?}", run.buckets));
                }
                if evm.get_accessed_block_hashes() != run.hashes {
                    return fail("block-hashes", format!("block {bi}: executor {:?}, bare EVM {:?}", run.hashes, evm.get_accessed_block_hashes()));
                }
            }
            let want = evm_env(b);
            if evm.block() != &want.block_env || evm.chain_id() != want.cfg_env.chain_id {
                return fail("environment", format!("block {bi}: {:?}", evm.block()));
            }
            let (_, env) = evm.finish();
            st.checks += 1;
            if env.block_env != want.block_env
                || env.cfg_env.spec != want.cfg_env.spec
                || env.cfg_env.chain_id != want.cfg_env.chain_id
            {
                return fail("environment", format!("block {bi}: given back {env:?}"));
            }
        }
        bare.state = Some(db);
        bare.persist();
        st.checks += 1;
        if let Some(d) = bare.durable.diff(&node.durable) {
            return fail("state", format!("block {bi}: {d}"));
        }
        // Relaxed admission changes nothing for a transaction that passes anyway; without a fee
        // recipient everything but the fee accounts stays the same.
        if b.rules >= Rules::Rex1 && !run.done.is_empty() {
            let d = &run.done[r.below(run.done.len() as u64) as usize];
            let mut alone = Node::new(sc, &ids);
            alone.durable = d.before.clone().expect("kept");
            let mut db = alone.boot();
            let shell = Shell { plane: alone.plane.clone(), world: alone.world.clone() };
            let mut env = relaxed(b, &mut r);
            if matches!(spec.txs[d.idx].ty, TxType::Deposit { .. } | TxType::System) || format!("{:?}", d.out.result).contains("FailedDeposit") {
                // Deposits are included even if the sender cannot pay.
                env.cfg_env.disable_balance_check = false;
            }
            let asm = r.below(9);
            let mut evm = assemble(asm, &mut db, b, env.clone(), &shell);
            let no_fees = r.chance(1, 2);
            if no_fees {
                evm.ctx.disable_beneficiary();
            }
            let how = r.below(6);
            let got = match run_one(&mut evm, how, (&d.tx).into_tx_env()) {
                Ok(g) => g,
                Err(e) => return fail("relaxed-refused", format!("block {bi} tx {} ({asm}/{how}): {e}", d.idx)),
            };
            st.checks += 3;
            if got.result != d.out.result {
                return fail("relaxed-result", format!("block {bi} tx {} ({asm}/{how}, no fees {no_fees}, {:?}): {:?} vs {:?}", d.idx, env.cfg_env, d.out.result, got.result));
            }
            let fees = [b.coinbase, BASE_FEE_VAULT, L1_FEE_VAULT, OP_FEE_VAULT];
            let cut = |s| {
                let mut d = delta_of(s);
                d.retain(|a, _| !no_fees || !fees.contains(a));
                d
            };
            let (x, y) = (cut(&d.state), cut(got.state.as_ref().expect("state")));
            if x != y {
                return fail("relaxed-delta", format!("block {bi} tx {} (no fees {no_fees}): {x:?} vs {y:?}", d.idx));
            }
            if matches!(asm, 2 | 6 | 7) {
                // Such a precompile answers under every rule set and costs what it says.
                let data: Vec<u8> = (0..r.below(40)).map(|_| 1 + r.below(255) as u8).collect();
                let call = |to, data: &[u8]| {
                    let mut tx = MegaTransaction::new(TxEnv {
                        caller: FRESH,
                        kind: TxKind::Call(to),
                        data: data.to_vec().into(),
                        gas_limit: 100_000,
                        chain_id: None,
                        tx_type: 126,
                        ..Default::default()
                    });
                    tx.deposit.source_hash = B256::repeat_byte(1);
                    tx
                };
                evm.ctx.modify_block(|b| b.basefee = 0);
                let (x, y) = (evm.transact_raw(call(REVERSE, &data)), evm.transact_raw(call(FRESH, &data)));
                evm.ctx.modify_block(|e| e.basefee = b.env.basefee);
                st.checks += 1;
                let ok = match (&x, &y) {
                    (Ok(x), Ok(y)) => {
                        let rev: Vec<u8> = data.iter().rev().copied().collect();
                        // Short of a limit, the call costs what a plain call costs, and the price.
                        match (&x.result, &y.result) {
                            (ExecutionResult::Success { output, gas_used, .. }, ExecutionResult::Success { gas_used: plain, .. }) => {
                                let floor = 21_000 + 40 * data.len() as u64;
                                output.data()[..] == rev[..] && (*gas_used == plain + 77 || *gas_used == floor || *plain == floor)
                            }
                            (ExecutionResult::Halt { .. }, _) | (_, ExecutionResult::Halt { .. }) => true,
                            _ => false,
                        }
                    }
                    _ => false,
                };
                if !ok {
                    return fail("own-precompile", format!("block {bi}: {x:?}, plain call {y:?}"));
                }
            }
            let (_, mut back) = evm.finish();
            if env.cfg_env.limit_contract_code_size.is_none() {
                back.cfg_env.limit_contract_code_size = None;
            }
            if env.cfg_env.limit_contract_initcode_size.is_none() {
                back.cfg_env.limit_contract_initcode_size = None;
            }
            if back.cfg_env != env.cfg_env || back.block_env != env.block_env {
                return fail("environment", format!("block {bi}: given {env:?}, given back {back:?}"));
            }
        }
    }
    Ok(())
}

trait CommitInto {
    fn ctx_commit(&mut self, s: mega_evm::revm::state::EvmState);
}
impl CommitInto for Bare<'_> {
    fn ctx_commit(&mut self, s: mega_evm::revm::state::EvmState) {
        ExecuteCommitEvm::commit(self, s);
    }
}
