//! The protocol's maintenance address: its whitelisted legacy calls are free, unconditional and
//! touch nothing but their own accounts; everything else it sends is refused; nobody else gets any
//! of these privileges.

use std::{cell::RefCell, rc::Rc};

use mega_evm::{
    alloy_consensus::Transaction,
    alloy_evm::block::BlockExecutor,
    alloy_primitives::{TxKind, U256},
    revm::context::result::ExecutionResult,
    MegaTxEnvelope,
};

use crate::{chain::*, exec::*, gen::*, ids::*, scenario::*, stats::*, world::*};

use super::*;

pub fn prop() -> Prop {
    Prop {
        id: "C11",
        gen,
        check,
        quick_runs: 40_000,
        level: "exploration",
        rule: "seeded chain of maintenance and ordinary transactions with hostile nonces, prices, balances, targets and types, aborted and repeated attempts, restarts; admission and effects predicted; a case counts when an attempt has a new (rules, sender, type, target, price, nonce, outcome) signature",
        real: REAL,
        stub: STUB,
        assumptions: ASSUME,
    }
}

fn gen(seed: u64) -> Scenario {
    let mut g = Gen::new(seed);
    g.sw.op[o::ORACLE] = g.sw.op[o::ORACLE].max(2);
    g.sw.system = 3;
    g.sw.bad_nonce = 1;
    if g.r.chance(5, 6) {
        g.sw.min_rules = Rules::MiniRex;
    }
    let crossing = g.r.chance(1, 3);
    let mut sc = g.world("C11", seed, crossing);
    sc.hint_sets.clear();
    if g.r.chance(1, 2) {
        sc.sys_pre.push((Who::SysAddr, *g.r.pick(&[1u64, 1_000, 10_000_000_000_000])));
    }
    for _ in 0..g.r.range(1, 3) {
        let ntx = g.r.range(2, 6) as usize;
        let mut b = g.block(ntx);
        if g.r.chance(1, 4) {
            g.tight_limits(&mut b.limits);
        }
        for t in b.txs.iter_mut() {
            match g.r.below(8) {
                0..=2 => {
                    t.ty = TxType::System;
                    t.to = Some(Who::Oracle);
                    t.input = if g.r.chance(1, 2) {
                        Input::OracleSet(g.r.below(4), g.r.below(5))
                    } else {
                        g.oracle_input()
                    };
                    t.gas = *g.r.pick(&[20_000u64, 60_000, 65_000, 70_000, 1_000_000, 100_000_000, 100_000_000]);
                    t.gas_price = *g.r.pick(&[0u64, 0, 1, 10, u64::MAX]);
                    t.value = *g.r.pick(&[0u64, 0, 0, 1, u64::MAX]);
                    t.nonce_delta = *g.r.pick(&[0i64, 0, -1, 1, 1000]);
                }
                3 => {
                    // Refused shapes.
                    t.from = Who::SysAddr;
                    if g.r.chance(1, 3) {
                        t.ty = TxType::System;
                        if g.r.chance(1, 3) {
                            t.to = None;
                        } else if t.to == Some(Who::Oracle) || g.r.chance(1, 2) {
                            t.to = Some(*g.r.pick(&[Who::TimeOracle, Who::Keyless, Who::SysAddr, Who::Con(0), Who::Pre(1), Who::Fresh(0)]));
                        }
                    } else {
                        t.ty = *g.r.pick(&[TxType::Eip2930, TxType::Eip1559, TxType::Eip7702, TxType::Deposit { mint: 0, system: false }, TxType::Deposit { mint: 5, system: false }]);
                        if g.r.chance(1, 2) {
                            t.to = Some(Who::Oracle);
                            t.input = Input::OracleSet(g.r.below(4), g.r.below(5));
                        }
                    }
                }
                4 if t.to.is_some() => {
                    // The same call from somebody else.
                    t.to = Some(Who::Oracle);
                    t.input = Input::OracleSet(g.r.below(4), g.r.below(5));
                    t.gas_price = *g.r.pick(&[0u64, 10]);
                    t.nonce_delta = *g.r.pick(&[0i64, 0, 1, -1]);
                }
                _ => {}
            }
        }
        for i in 0..ntx {
            if g.r.chance(1, 6) {
                b.events.push(Ev::FaultExec(i, g.fault()));
            }
            if g.r.chance(1, 8) {
                b.events.push(Ev::Run(i));
            }
            b.events.push(Ev::Exec(i));
            if g.r.chance(1, 6) {
                // Submitted again.
                b.events.push(Ev::Exec(g.r.idx(i + 1)));
            }
        }
        sc.blocks.push(b);
    }
    sc.knobs = vec![g.r.below(8)];
    sc
}

fn check(sc: &Scenario, st: &mut Stats) -> Verdict {
    let ids = Ids::new(sc);
    let ctxs = block_ctxs(sc, &ids);
    let mut node = Node::new(sc, &ids);
    let mut shadow = node.durable.clone();
    for (bi, b) in ctxs.iter().enumerate() {
        st.sim_seconds += sc.blocks[bi].dt;
        let spec = &sc.blocks[bi];
        let ar = arena(spec.txs.len());
        let plane = node.plane.clone();
        node.with_executor(b, |ex| block(ex, b, spec, &ar, &ids, &mut shadow, &plane, st))
            .map_err(|v| Violation { detail: format!("block {bi} {:?}: {}", b.rules, v.detail), ..v })?;
        st.blocks += 1;
        node.persist();
        if sc.knob(0) == bi as u64 {
            node.crash();
            st.crashes += 1;
        }
        st.checks += 1;
        if let Some(d) = node.durable.diff(&shadow) {
            return fail("ledger", format!("block {bi}: {d}"));
        }
    }
    Ok(())
}

#[allow(clippy::too_many_arguments)]
fn block<I>(
    mut ex: Ex<'_, I>,
    b: &BlockCtx,
    spec: &BlockSpec,
    arena: &Arena,
    ids: &Ids,
    shadow: &mut Ledger,
    plane: &Rc<RefCell<Plane>>,
    st: &mut Stats,
) -> Verdict
where
    I: for<'a> mega_evm::revm::Inspector<Ctx<'a>>,
{
    match ex.pre_execution_changes() {
        Ok(outs) => {
            for o in &outs {
                shadow.apply(&o.state);
            }
            if let Err(e) = ex.commit_system_call_outcomes(outs) {
                return fail("pre-commit", err_text(&e));
            }
        }
        Err(e) => return fail("pre-execution", err_text(&e)),
    }
    let mut events = spec.events.clone();
    if events.is_empty() {
        events = (0..spec.txs.len()).map(Ev::Exec).collect();
    }
    for ev in events {
        st.steps += 1;
        let (Ev::Exec(i) | Ev::FaultExec(i, _) | Ev::Run(i)) = ev else { continue };
        if i >= spec.txs.len() {
            continue;
        }
        let tx = arena[i].get_or_init(|| build_tx(ids, &spec.txs[i], &|a| shadow.nonce(&a), i as u64));
        if let Ev::FaultExec(_, p) = ev {
            plane.borrow_mut().arm(p);
        }
        let r = ex.run_transaction(tx);
        if let Ev::FaultExec(..) = ev {
            let fired = plane.borrow_mut().disarm();
            st.plane(&mut plane.borrow_mut());
            if fired > 0 {
                st.probe("aborted attempt");
                continue;
            }
        }
        st.checks += 1;
        let env = tx.inner();
        let t = &spec.txs[i];
        let what = format!("tx {i} {:?} {:?}->{:?}", env.tx_type(), tx.signer(), env.kind());
        let from = tx.signer();
        let privileged = b.rules >= Rules::MiniRex && from == MEGA_SYSTEM_ADDRESS;
        let deposit = matches!(env, MegaTxEnvelope::Deposit(_));
        let maintenance = privileged
            && matches!(env, MegaTxEnvelope::Legacy(_))
            && env.kind() == TxKind::Call(ORACLE_CONTRACT_ADDRESS);
        let off = env.nonce() as i64 - shadow.nonce(&from) as i64;
        let shape = |res: &str| {
            format!(
                "{:?}|{}|{:?}|{:?}|{}|{}|{}|{res}",
                b.rules,
                from == MEGA_SYSTEM_ADDRESS,
                env.tx_type(),
                t.to.map(|w| std::mem::discriminant(&w)),
                (t.gas_price).min(11),
                off,
                t.value.min(2),
            )
        };
        let o = match r {
            Ok(o) => o,
            Err(e) => {
                let text = err_text(&e);
                st.distinct(&shape("refused"));
                if maintenance {
                    return fail("maintenance-refused", format!("{what}: {text}"));
                }
                if privileged {
                    // (It may not even fit the block.)
                    if !text.contains("whitelist") && env.gas_limit() < 10_000_000_000 {
                        return fail("refused-otherwise", format!("{what}: {text}"));
                    }
                    st.probe("misuse of the maintenance address refused");
                } else if is_infra_error(&e) {
                    return fail("infra-error-without-fault", text);
                } else if text.contains("whitelist") {
                    return fail("whitelist-for-others", format!("{what}: {text}"));
                }
                continue;
            }
        };
        if privileged && !maintenance {
            return fail("misuse-accepted", what);
        }
        if !maintenance && !deposit {
            // Nobody else is exempt from anything.
            let price = U256::from(env.max_fee_per_gas());
            let need = price * U256::from(env.gas_limit()) + env.value();
            if env.nonce() != shadow.nonce(&from) {
                return fail("nonce-unchecked", format!("{what}: {} at {}", env.nonce(), shadow.nonce(&from)));
            }
            if price < U256::from(b.env.basefee) {
                return fail("price-unchecked", what);
            }
            if shadow.balance(&from) < need {
                return fail("funds-unchecked", format!("{what}: {} of {need}", shadow.balance(&from)));
            }
        }
        if !matches!(ev, Ev::Exec(_)) {
            continue;
        }
        st.txs += 1;
        let res = o.inner.result.clone();
        let state = o.inner.state.clone();
        if let Err(e) = ex.commit_transaction_outcome(o) {
            return fail("commit", err_text(&e));
        }
        let before = shadow.clone();
        shadow.apply(&state);
        let kind = match &res {
            ExecutionResult::Success { .. } => "ok",
            ExecutionResult::Revert { .. } => "revert",
            ExecutionResult::Halt { .. } => "halt",
        };
        if !maintenance {
            st.distinct(&shape(kind));
            continue;
        }
        st.probe(&format!("maintenance call {kind}"));
        // Nothing but the two accounts changes.
        let mut rest = before.clone();
        let mut now = shadow.clone();
        for a in [MEGA_SYSTEM_ADDRESS, ORACLE_CONTRACT_ADDRESS] {
            rest.accts.remove(&a);
            now.accts.remove(&a);
        }
        if let Some(d) = now.diff(&rest) {
            return fail("side-effect", format!("{what}: {d}"));
        }
        let (n0, n1) = (before.nonce(&from), shadow.nonce(&from));
        if n1 != n0 + 1 {
            return fail("nonce", format!("{what}: {n0} -> {n1}"));
        }
        let v = if res.is_success() { env.value() } else { U256::ZERO };
        let (s0, s1) = (before.balance(&from), shadow.balance(&from));
        let o0 = before.balance(&ORACLE_CONTRACT_ADDRESS);
        let o1 = shadow.balance(&ORACLE_CONTRACT_ADDRESS);
        if s0 < v || s1 != s0 - v || o1 != o0 + v {
            return fail("charged", format!("{what}: sender {s0} -> {s1}, oracle {o0} -> {o1}, {res:?}"));
        }
        let (c0, c1) = (before.get(&ORACLE_CONTRACT_ADDRESS), shadow.get(&ORACLE_CONTRACT_ADDRESS));
        if c0.code != c1.code || c0.nonce != c1.nonce {
            return fail("oracle-account", what);
        }
        if !res.is_success() && c0.storage != c1.storage {
            return fail("failed-call-wrote", format!("{what}: {res:?}"));
        }
        if res.gas_used() > env.gas_limit() {
            return fail("gas", format!("{what}: {}", res.gas_used()));
        }
        // A plain write with enough gas gets through, whatever limits volatile data is under.
        if let Input::OracleSet(k, x) = t.input {
            let free = spec.limits.tx_data > 1_000
                && spec.limits.tx_kv > 10
                && spec.limits.tx_growth > 2
                && spec.limits.tx_compute > 100_000;
            // Before Rex1 the detention of earlier steps stays in force.
            let fresh = b.rules >= Rules::Rex1 || spec.limits == no_limits();
            if t.gas >= 100_000_000 && t.value == 0 && free && fresh {
                st.probe("plain write");
                let want = U256::from(x);
                if !res.is_success() || shadow.slot(&ORACLE_CONTRACT_ADDRESS, &U256::from(k)) != want {
                    return fail("write-lost", format!("{what}: slot {k} should be {x}: {res:?}"));
                }
            }
        }
        st.distinct(&shape(kind));
    }
    ex.finish().map(|_| ()).or_else(|e| fail("finish", err_text(&e)))
}
