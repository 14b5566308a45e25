//! Keyless deployment: all of the standalone creation it stands for, or nothing but the outer fee.

use std::{cell::RefCell, rc::Rc};

use mega_evm::{
    alloy_consensus::Transaction,
    alloy_eips::Encodable2718,
    alloy_evm::{block::BlockExecutor, Evm},
    alloy_primitives::{Address, Bytes, Log, TxKind, U256},
    alloy_sol_types::{SolCall, SolError},
    revm::{
        context::{
            result::{ExecutionResult, Output},
            CfgEnv, TxEnv,
        },
        state::EvmState,
    },
    IKeylessDeploy, MegaContext, MegaEvm, MegaHaltReason, MegaTransaction, MegaTxEnvelope,
};

use crate::{chain::*, exec::*, gen::*, ids::*, scenario::*, stats::*, world::*};

use super::{
    c09::{fees, fees_of, Fees},
    *,
};

pub fn prop() -> Prop {
    Prop {
        id: "C10",
        gen,
        check,
        quick_runs: 30_000,
        level: "exploration",
        rule: "seeded chain of keyless deployments (valid, invalid in every documented way, failing, repeated, with prepared or hostile signers and target addresses) among other transactions, aborted attempts and restarts; complete ledger, logs and returned data predicted from a standalone execution; a case counts when a keyless call has a new (rules, outer type, verdict, inner outcome, inner gas, accounts changed) signature",
        real: REAL,
        stub: STUB,
        assumptions: ASSUME,
    }
}

fn gen(seed: u64) -> Scenario {
    let mut g = Gen::new(seed);
    g.sw.keyless = 6;
    g.sw.op[o::KEYLESS] = 1;
    if g.r.chance(7, 8) {
        g.sw.min_rules = Rules::Rex2;
    }
    if g.r.chance(1, 2) {
        g.sw.selfdestruct = true;
        g.sw.op[o::SELFDESTRUCT] = 1;
    }
    let crossing = g.r.chance(1, 4);
    let mut sc = g.world("C10", seed, crossing);
    sc.hint_sets.clear();
    for k in sc.keyless.iter_mut() {
        if g.r.chance(1, 2) {
            // One that gets as far as running its init code.
            k.nonce = 0;
            k.to = None;
            k.eip155 = false;
            k.gas_price = *g.r.pick(&[10u64, 12, 100, 1000]);
            k.signer_balance = 1_000_000_000_000_000_000;
            k.signer_nonce = *g.r.pick(&[0u64, 0, 1]);
        }
        if g.r.chance(1, 3) {
            k.value = *g.r.pick(&[1u64, 7, 1_000_000_000_000_000_000]);
        }
    }
    if sc.keyless.len() > 1 && g.r.chance(1, 6) {
        // Two transactions, one signature scheme: same signer only if equal.
        sc.keyless[1] = sc.keyless[0].clone();
    }
    for _ in 0..g.r.range(1, 3) {
        let ntx = g.r.range(2, 6) as usize;
        let mut b = g.block(ntx);
        if g.r.chance(1, 6) {
            g.tight_limits(&mut b.limits);
        }
        for t in b.txs.iter_mut() {
            if matches!(t.ty, TxType::System) {
                continue;
            }
            let r = g.r.below(12);
            if r < 7 {
                t.to = Some(Who::Keyless);
                t.init.clear();
                t.runtime.clear();
                t.value = if g.r.chance(1, 10) { 1 } else { 0 };
                t.input = g.keyless_input();
                if let Input::Keyless { gas_override, .. } = &mut t.input {
                    if g.r.chance(2, 3) {
                        *gas_override = *g.r.pick(&[500_000u64, 3_000_000, 20_000_000, 100_000_000]);
                    }
                }
                t.gas = *g.r.pick(&[60_000u64, 160_000, 200_000, 1_000_000, 100_000_000, 100_000_000, 100_000_000]);
                t.auths.clear();
                if matches!(t.ty, TxType::Eip7702) {
                    t.ty = TxType::Eip1559;
                }
                if matches!(t.ty, TxType::Deposit { .. }) && g.r.chance(1, 2) {
                    t.from = Who::KlSigner(g.r.below(2) as u8);
                }
                if matches!(t.ty, TxType::Eip2930 | TxType::Eip1559) && g.r.chance(1, 3) {
                    let w = if g.r.chance(1, 2) { Who::KlSigner(g.r.below(2) as u8) } else { Who::KlContract(g.r.below(2) as u8) };
                    t.access.push((w, (0..g.r.below(3)).map(|_| g.r.below(4)).collect()));
                }
            } else if r == 7 {
                // Pays the signer or the future contract.
                t.to = Some(if g.r.chance(1, 2) { Who::KlSigner(g.r.below(2) as u8) } else { Who::KlContract(g.r.below(2) as u8) });
                t.input = Input::Empty;
                t.init.clear();
                t.runtime.clear();
                t.value = g.r.range(0, 1_000_000);
            }
        }
        for i in 0..ntx {
            if g.r.chance(1, 6) {
                b.events.push(Ev::FaultExec(i, g.fault()));
            }
            if g.r.chance(1, 6) {
                b.events.push(Ev::Run(i));
            }
            b.events.push(Ev::Exec(i));
        }
        sc.blocks.push(b);
    }
    sc.knobs = vec![g.r.below(8)];
    sc
}

fn check(sc: &Scenario, st: &mut Stats) -> Verdict {
    let ids = Ids::new(sc);
    let ctxs = block_ctxs(sc, &ids);
    let mut node = Node::new(sc, &ids);
    let mut shadow = node.durable.clone();
    for (bi, b) in ctxs.iter().enumerate() {
        st.sim_seconds += sc.blocks[bi].dt;
        let spec = &sc.blocks[bi];
        let ar = arena(spec.txs.len());
        let plane = node.plane.clone();
        let lazy = node.lazy_code;
        node.with_executor(b, |ex| block(ex, sc, b, spec, &ar, &ids, &mut shadow, &plane, lazy, st))
            .map_err(|v| Violation { detail: format!("block {bi} {:?}: {}", b.rules, v.detail), ..v })?;
        st.blocks += 1;
        node.persist();
        if sc.knob(0) == bi as u64 {
            node.crash();
            st.crashes += 1;
        }
        st.checks += 1;
        if let Some(d) = node.durable.diff(&shadow) {
            return fail("ledger", format!("block {bi}: {d}"));
        }
    }
    Ok(())
}

#[allow(clippy::too_many_arguments)]
fn block(
    mut ex: Ex<'_, mega_evm::revm::inspector::NoOpInspector>,
    sc: &Scenario,
    b: &BlockCtx,
    spec: &BlockSpec,
    arena: &Arena,
    ids: &Ids,
    shadow: &mut Ledger,
    plane: &Rc<RefCell<Plane>>,
    lazy: bool,
    st: &mut Stats,
) -> Verdict {
    match ex.pre_execution_changes() {
        Ok(outs) => {
            for o in &outs {
                shadow.apply(&o.state);
            }
            if let Err(e) = ex.commit_system_call_outcomes(outs) {
                return fail("pre-commit", err_text(&e));
            }
        }
        Err(e) => return fail("pre-execution", err_text(&e)),
    }
    let mut events = spec.events.clone();
    if events.is_empty() {
        events = (0..spec.txs.len()).map(Ev::Exec).collect();
    }
    for ev in events {
        st.steps += 1;
        let (Ev::Exec(i) | Ev::FaultExec(i, _) | Ev::Run(i)) = ev else { continue };
        if i >= spec.txs.len() {
            continue;
        }
        let tx = arena[i].get_or_init(|| build_tx(ids, &spec.txs[i], &|a| shadow.nonce(&a), i as u64));
        if let Ev::FaultExec(_, p) = ev {
            plane.borrow_mut().arm(p);
        }
        let r = ex.run_transaction(tx);
        if let Ev::FaultExec(..) = ev {
            let fired = plane.borrow_mut().disarm();
            st.plane(&mut plane.borrow_mut());
            if fired > 0 {
                st.probe("aborted attempt");
            }
            continue;
        }
        let o = match r {
            Ok(o) => o,
            Err(e) if is_infra_error(&e) => return fail("infra-error-without-fault", err_text(&e)),
            Err(_) => continue,
        };
        if !matches!(ev, Ev::Exec(_)) {
            continue;
        }
        st.txs += 1;
        let res = o.inner.result.clone();
        let delta = o.inner.state.clone();
        match ex.commit_transaction_outcome(o) {
            Ok(_) => {}
            Err(e) if is_infra_error(&e) => return fail("infra-error-without-fault", err_text(&e)),
            Err(_) => continue,
        }
        let before = shadow.clone();
        shadow.apply(&delta);
        st.checks += 1;
        let c = Case { sc, b, ids, tx, spec: &spec.txs[i], before: &before, after: shadow, res: &res, spec_limits: &spec.limits, lazy };
        let v = if tx.to() == Some(KEYLESS_DEPLOY_ADDRESS) && b.rules >= Rules::Rex2 && spec.txs[i].auths.is_empty() {
            c.keyless(st)
        } else {
            c.other(st)
        };
        v.map_err(|e| Violation { detail: format!("tx {i} {:?}: {}", tx.inner().tx_type(), e.detail), ..e })?;
    }
    ex.finish().map(|_| ()).or_else(|e| fail("finish", err_text(&e)))
}

struct Case<'a> {
    sc: &'a Scenario,
    b: &'a BlockCtx,
    ids: &'a Ids,
    tx: &'a Tx,
    spec: &'a TxSpec,
    before: &'a Ledger,
    after: &'a Ledger,
    res: &'a ExecRes,
    spec_limits: &'a Limits,
    lazy: bool,
}

/// What running the keyless transaction on its own gives.
struct Alone {
    res: ExecRes,
    state: EvmState,
}

fn add(l: &mut Ledger, a: Address, v: U256) {
    if !v.is_zero() {
        let e = l.accts.entry(a).or_default();
        e.balance = e.balance.saturating_add(v);
    }
}

fn take(l: &mut Ledger, a: Address, v: U256) {
    if !v.is_zero() {
        let e = l.accts.entry(a).or_default();
        e.balance = e.balance.saturating_sub(v);
    }
}

impl Case<'_> {
    /// Calls that are not top-level keyless calls never deploy for a signer.
    fn other(&self, st: &mut Stats) -> Verdict {
        if self.tx.to() == Some(KEYLESS_DEPLOY_ADDRESS) && self.b.rules >= Rules::Rex2 {
            st.probe("keyless call with authorisations, not decided");
            return Ok(());
        }
        for i in 0..self.sc.keyless.len() as u8 {
            let Some(signer) = self.ids.kl_signer(i) else { continue };
            if signer == self.tx.signer() {
                continue;
            }
            let c = signer.create(0);
            let (n0, n1) = (self.before.nonce(&signer), self.after.nonce(&signer));
            if n0 != n1 {
                return fail("stray-deployment", format!("nonce of signer {signer} {n0} -> {n1}"));
            }
            if self.before.get(&c).code != self.after.get(&c).code && self.before.get(&c).code.is_empty() {
                return fail("stray-deployment", format!("contract of signer {signer}"));
            }
            if self.after.balance(&signer) < self.before.balance(&signer) {
                return fail("stray-deployment", format!("signer {signer} was charged"));
            }
        }
        if self.tx.to() == Some(KEYLESS_DEPLOY_ADDRESS) {
            st.probe("top-level call before Rex2");
        }
        Ok(())
    }

    fn alone(&self, mid: &Ledger, signer: Address, k: &KeylessSpec, raw: &Bytes, input: &Bytes, gas: u64, chain: u64) -> Result<Alone, String> {
        let mut l = mid.clone();
        if let Some(a) = l.accts.get_mut(&signer) {
            a.nonce = 0;
        }
        let db = LedgerDb::new(Rc::new(l), Default::default(), self.lazy, self.sc.seed);
        let mut cfg = CfgEnv::default();
        cfg.chain_id = chain;
        cfg.spec = self.b.rules.spec();
        let ctx = MegaContext::new(db, self.b.rules.spec()).with_cfg(cfg).with_block(self.b.env.clone());
        let mut evm = MegaEvm::new(ctx);
        let mut tx = MegaTransaction::new(TxEnv {
            caller: signer,
            kind: TxKind::Create,
            data: input.clone(),
            value: U256::from(k.value),
            gas_limit: gas,
            gas_price: k.gas_price as u128,
            nonce: 0,
            chain_id: Some(chain),
            ..Default::default()
        });
        tx.enveloped_tx = Some(raw.clone());
        evm.transact_raw(tx).map(|r| Alone { res: r.result, state: r.state }).map_err(|e| format!("{e:?}"))
    }

    /// The ledger after the outer transaction's own effects, on top of `l`.
    fn settle(&self, l: &mut Ledger, fee: &Option<Fees>) {
        if let Some(x) = fee {
            let (used, limit) = (self.res.gas_used(), self.tx.inner().gas_limit());
            add(l, self.tx.signer(), U256::from(limit - used) * x.price + x.op(limit) - x.op(used));
            credit(l, self.b, x, used);
        }
    }

    fn same(&self, want: &Ledger) -> Option<String> {
        self.after.diff(want)
    }

    fn keyless(&self, st: &mut Stats) -> Verdict {
        let env = self.tx.inner();
        let from = self.tx.signer();
        let deposit = matches!(env, MegaTxEnvelope::Deposit(_));
        let fee = (!deposit).then(|| fees(self.sc, self.b, env));
        // What the outer transaction does before its call starts.
        let mut mid = self.before.clone();
        if let MegaTxEnvelope::Deposit(d) = env {
            add(&mut mid, from, U256::from(d.mint));
        }
        if let Some(x) = &fee {
            take(&mut mid, from, U256::from(env.gas_limit()) * x.price + x.l1 + x.op(env.gas_limit()));
        }
        let failed_deposit = matches!(self.res, ExecutionResult::Halt { .. }) && deposit;
        mid.accts.entry(from).or_default().nonce += 1;

        // The gas of the outer transaction.
        let data = env.input();
        let zeros = data.iter().filter(|x| **x == 0).count() as u64;
        let tokens = zeros + 4 * (data.len() as u64 - zeros);
        let mut need = 60_000 + 44 * tokens;
        for (_, ks) in &self.spec.access {
            if !matches!(self.spec.ty, TxType::Eip2930 | TxType::Eip1559) {
                break;
            }
            need += 2_400 + 1_900 * ks.len() as u64;
        }
        let floor = 21_000 + 110 * tokens;
        let enough = env.gas_limit() >= need + 100_000;

        let mut only_fee = mid.clone();
        self.settle(&mut only_fee, &fee);
        match self.res {
            ExecutionResult::Halt { reason, .. } => {
                let l = &self.spec_limits;
                let tight = l.tx_data < 10_000_000 ||
                    l.tx_kv < 1_000 ||
                    l.tx_compute < 100_000_000 ||
                    l.tx_growth < 100 ||
                    l.env_compute < 20_000_000 ||
                    l.oracle_compute < 1_000_000;
                let out_of_gas = matches!(reason, MegaHaltReason::Base(_));
                if enough && (!tight || (out_of_gas && !deposit)) {
                    return fail("halt", format!("{reason:?} with {} gas, {need} needed", env.gas_limit()));
                }
                st.probe("halted before deploying");
                if let Some(d) = self.same(&only_fee) {
                    return fail("halt-leaves-trace", format!("{reason:?} deposit {failed_deposit}: {d}"));
                }
                return Ok(());
            }
            _ if !enough => return fail("free-overhead", format!("{} gas, {need}+100000 needed: {:?}", env.gas_limit(), self.res)),
            _ => {}
        }
        let used = (need + 100_000).max(floor).min(env.gas_limit());
        if self.res.gas_used() != used {
            return fail("outer-gas", format!("{} instead of {used}", self.res.gas_used()));
        }

        // Reasons for a refusal.
        let mut why: Vec<Vec<u8>> = vec![];
        if !env.value().is_zero() {
            why.push(IKeylessDeploy::NoEtherTransfer {}.abi_encode());
        }
        let (k, raw, gas) = match &self.spec.input {
            Input::Keyless { idx, gas_override } => match (self.sc.keyless.get(*idx as usize), self.ids.kl(*idx)) {
                (Some(k), Some(t)) => (Some((k, t)), t.rlp.clone(), *gas_override),
                _ => (None, Bytes::new(), *gas_override),
            },
            Input::KeylessRaw { bytes, gas_override } => (None, bytes.clone().into(), *gas_override),
            _ => return self.not_keyless(&only_fee, &mid, &fee, st),
        };
        let mut run = None;
        if let Some((k, t)) = k {
            if k.to.is_some() {
                why.push(IKeylessDeploy::NotContractCreation {}.abi_encode());
            }
            if k.eip155 {
                why.push(IKeylessDeploy::NotPreEIP155 {}.abi_encode());
            }
            if k.nonce != 0 {
                why.push(IKeylessDeploy::NonZeroTxNonce { txNonce: k.nonce }.abi_encode());
            }
            if gas < k.gas {
                why.push(IKeylessDeploy::GasLimitTooLow { txGasLimit: k.gas, providedGasLimit: gas }.abi_encode());
            }
            match t.signer {
                None => why.push(IKeylessDeploy::InvalidSignature {}.abi_encode()),
                Some(s) => {
                    if mid.nonce(&s) > 1 {
                        why.push(IKeylessDeploy::SignerNonceTooHigh { signerNonce: mid.nonce(&s) }.abi_encode());
                    }
                    if !mid.get(&s.create(0)).code.is_empty() {
                        why.push(IKeylessDeploy::ContractAlreadyExists {}.abi_encode());
                    }
                    let cost = U256::from(gas) * U256::from(k.gas_price) + U256::from(k.value);
                    if mid.balance(&s) < cost {
                        why.push(IKeylessDeploy::InsufficientBalance {}.abi_encode());
                    }
                    run = Some((s, k, t));
                }
            }
        } else {
            why.push(IKeylessDeploy::MalformedEncoding {}.abi_encode());
        }
        let sig = |v: &str, more: String| format!("{:?}|{:?}|{v}|{more}", self.b.rules, env.tx_type());
        if !why.is_empty() {
            st.probe("refused");
            let ExecutionResult::Revert { output, .. } = self.res else {
                return fail("not-refused", format!("should be refused: {:?}", self.res));
            };
            if !why.iter().any(|w| w[..] == output[..]) {
                return fail("refusal", format!("{output} instead of one of {why:02x?}"));
            }
            st.distinct(&sig("refused", format!("{}", why.len())));
            for w in &why {
                st.probe(&format!("refusal {:02x}{:02x}{:02x}{:02x}", w[0], w[1], w[2], w[3]));
            }
            return match self.same(&only_fee) {
                None => Ok(()),
                Some(d) => fail("refusal-leaves-trace", d),
            };
        }
        let Some((signer, k, t)) = run else { return harness("no signer") };
        let mut first = None;
        // Known deviations: the init code sees another chain id, and the signer pays the data fee of
        // the outer transaction instead of its own.
        let outer: Bytes = env.encoded_2718().into();
        for (chain, other) in [(CHAIN_ID, false), (1, false), (CHAIN_ID, true), (1, true)] {
            if other && deposit {
                continue;
            }
            let raw = if other { &outer } else { &raw };
            let ref_ = self.alone(&mid, signer, k, raw, &t.input, gas, chain);
            match self.against(&ref_, &mid, &only_fee, &fee, signer, k, raw, st) {
                Ok(None) => {
                    if chain == 1 {
                        st.probe("known finding: keyless init code sees chain id 1");
                    }
                    if other {
                        st.probe("known finding: keyless signer pays the outer data fee");
                    }
                    let inner = match &ref_ {
                        Ok(a) => format!("{}|{}|{}", a.res.is_success(), a.res.gas_used(), a.state.values().filter(|x| x.is_touched()).count()),
                        Err(_) => "invalid".into(),
                    };
                    st.distinct(&sig("run", inner));
                    return Ok(());
                }
                Ok(Some(known)) => {
                    st.probe(&format!("known finding: {known}"));
                    return Ok(());
                }
                Err(v) => {
                    first.get_or_insert(v);
                }
            }
        }
        Err(first.expect("failed twice"))
    }

    /// Compares with the standalone run; `Some` names a known deviation.
    #[allow(clippy::too_many_arguments)]
    fn against(
        &self,
        alone: &Result<Alone, String>,
        mid: &Ledger,
        only_fee: &Ledger,
        fee: &Option<Fees>,
        signer: Address,
        k: &KeylessSpec,
        raw: &Bytes,
        st: &mut Stats,
    ) -> Result<Option<&'static str>, Violation> {
        let a = match alone {
            Ok(a) => a,
            Err(e) => {
                st.probe("not valid as a standalone transaction");
                let ExecutionResult::Revert { output, .. } = self.res else {
                    return fail("invalid-inner", format!("alone {e}, but {:?}", self.res));
                };
                if IKeylessDeploy::InternalError::abi_decode(output).is_err() {
                    return fail("invalid-inner", format!("alone {e}, but {output}"));
                }
                return match self.same(only_fee) {
                    None => Ok(None),
                    Some(d) => fail("refusal-leaves-trace", d),
                };
            }
        };
        let ExecutionResult::Success { output: Output::Call(out), logs, .. } = self.res else {
            return fail("inner-result", format!("alone {:?}, but {:?}", a.res, self.res));
        };
        let (mut address, mut error, mut want_logs): (Address, Vec<u8>, Vec<Log>) = (Address::ZERO, vec![], vec![]);
        let inner_used = a.res.gas_used();
        let mut empty = false;
        match &a.res {
            ExecutionResult::Success { output, logs, .. } => match output {
                Output::Create(code, Some(at)) if !code.is_empty() => {
                    if *at != signer.create(0) {
                        return harness("standalone deployment elsewhere");
                    }
                    address = *at;
                    want_logs = logs.clone();
                    st.probe("deployed");
                }
                _ => {
                    st.probe("empty code");
                    empty = true;
                    error = IKeylessDeploy::EmptyCodeDeployed { gasUsed: inner_used }.abi_encode();
                }
            },
            ExecutionResult::Revert { output, .. } => {
                st.probe("inner revert");
                error = IKeylessDeploy::ExecutionReverted { gasUsed: inner_used, output: output.clone() }.abi_encode();
            }
            ExecutionResult::Halt { .. } => {
                st.probe("inner halt");
                error = IKeylessDeploy::ExecutionHalted { gasUsed: inner_used }.abi_encode();
            }
        }
        let want = IKeylessDeploy::keylessDeployCall::abi_encode_returns(&IKeylessDeploy::keylessDeployReturn {
            gasUsed: inner_used,
            deployedAddress: address,
            errorData: error.into(),
        });
        if want[..] != out[..] {
            return fail("returned-data", format!("{out} instead of {}; alone {:?}", Bytes::from(want), a.res));
        }
        if *logs != want_logs {
            return fail("logs", format!("{logs:?} instead of {want_logs:?}"));
        }
        if self.after.nonce(&signer) != 1 && self.after.accts.contains_key(&signer) {
            return fail("signer-nonce", format!("{}", self.after.nonce(&signer)));
        }
        let mut l = mid.clone();
        l.apply(&a.state);
        self.settle(&mut l, fee);
        let full = self.same(&l);
        if !empty {
            return match full {
                None => Ok(None),
                Some(d) => fail("ledger-differs", format!("{d}; alone {:?}", a.res)),
            };
        }
        // Nothing was deployed: only the signer's fee should remain.
        let mut l = mid.clone();
        let x = fees_of(self.sc, self.b, k.gas_price as u128, raw);
        take(&mut l, signer, U256::from(inner_used) * x.price + x.l1 + x.op(inner_used));
        l.accts.entry(signer).or_default().nonce = 1;
        credit(&mut l, self.b, &x, inner_used);
        self.settle(&mut l, fee);
        match (self.same(&l), full) {
            (None, _) => Ok(None),
            (Some(_), None) => Ok(Some("empty-code deployment keeps its side effects")),
            (Some(d), Some(_)) => fail("ledger-differs", format!("{d}; alone {:?}", a.res)),
        }
    }

    /// Top-level call of the contract with other call data.
    fn not_keyless(&self, only_fee: &Ledger, mid: &Ledger, fee: &Option<Fees>, st: &mut Stats) -> Verdict {
        st.probe("other call data");
        let mut l = only_fee.clone();
        if self.res.is_success() {
            l = mid.clone();
            take(&mut l, self.tx.signer(), self.tx.inner().value());
            add(&mut l, KEYLESS_DEPLOY_ADDRESS, self.tx.inner().value());
            self.settle(&mut l, fee);
        }
        match self.same(&l) {
            None => Ok(()),
            Some(d) => fail("other-call-data", d),
        }
    }
}

fn credit(l: &mut Ledger, b: &BlockCtx, x: &Fees, used: u64) {
    add(l, b.env.beneficiary, U256::from(used) * (x.price - x.base));
    add(l, BASE_FEE_VAULT, U256::from(used) * x.base);
    add(l, L1_FEE_VAULT, x.l1);
    add(l, OP_FEE_VAULT, x.op(used));
}
