//! Conservation of value: every balance change of a transaction is accounted for by its transfers,
//! its fees and its mint, and nothing else.

use std::{cell::RefCell, collections::{BTreeMap, BTreeSet}, rc::Rc};

use mega_evm::{
    alloy_consensus::Transaction,
    alloy_eips::Encodable2718,
    alloy_evm::block::BlockExecutor,
    alloy_primitives::{Address, B256, U256},
    op_alloy_flz::flz_compress_len,
    revm::{
        context::result::ExecutionResult,
        context_interface::{ContextTr, CreateScheme},
        interpreter::{
            interpreter_types::{Jumps, LegacyBytecode},
            CallInputs, CallOutcome, CallScheme, CreateInputs, CreateOutcome, InstructionResult,
            Interpreter,
        },
        Inspector,
    },
    MegaHaltReason, MegaTxEnvelope,
};

use crate::{chain::*, exec::*, gen::*, ids::*, scenario::*, stats::*, world::*};

use super::*;

pub fn prop() -> Prop {
    Prop {
        id: "C09",
        gen,
        check,
        quick_runs: 30_000,
        level: "exploration",
        rule: "seeded chain of transactions moving value in every way, with aborted and repeated attempts; every account balance predicted after every transaction; a case counts when a transaction has a new (rules, type, outcome, kinds and number of transfers) signature",
        real: REAL,
        stub: STUB,
        assumptions: ASSUME,
    }
}

fn gen(seed: u64) -> Scenario {
    let mut g = Gen::new(seed);
    g.sw.op[o::CALL] = g.sw.op[o::CALL].max(3);
    if g.r.chance(1, 2) {
        g.sw.selfdestruct = true;
        g.sw.op[o::SELFDESTRUCT] = 2;
        g.sw.op[o::CREATE] = g.sw.op[o::CREATE].max(2);
    }
    g.sw.l1 = g.r.chance(3, 4);
    let crossing = g.r.chance(1, 4);
    let mut sc = g.world("C09", seed, crossing);
    sc.hint_sets.clear();
    for _ in 0..g.r.range(1, 3) {
        let ntx = g.r.range(2, 6) as usize;
        let mut b = g.block(ntx);
        if g.r.chance(1, 4) {
            g.tight_limits(&mut b.limits);
        }
        for t in b.txs.iter_mut() {
            if g.r.chance(1, 3) {
                t.value = *g.r.pick(&[1u64, 1000, 1_000_000, u64::MAX]);
            }
        }
        for i in 0..ntx {
            if g.r.chance(1, 6) {
                b.events.push(Ev::FaultExec(i, g.fault()));
            }
            if g.r.chance(1, 6) && crossing {
                b.events.push(Ev::Run(i));
            }
            b.events.push(Ev::Exec(i));
        }
        sc.blocks.push(b);
    }
    sc.knobs = vec![g.r.below(8)];
    sc
}

/// Running balances, as transfers happen.
#[derive(Default)]
pub struct Flow {
    base: Ledger,
    now: BTreeMap<Address, U256>,
    made: BTreeSet<Address>,
    gone: BTreeSet<Address>,
    saved: Vec<(BTreeMap<Address, U256>, BTreeSet<Address>, BTreeSet<Address>)>,
    leaving: Option<(Address, Address)>,
    top: Option<InstructionResult>,
    bad: Option<String>,
    kinds: [u32; 5],
}

impl Flow {
    fn get(&self, a: &Address) -> U256 {
        self.now.get(a).copied().unwrap_or_else(|| self.base.balance(a))
    }
    fn add(&mut self, a: Address, v: U256) {
        let x = self.get(&a).saturating_add(v);
        self.now.insert(a, x);
    }
    fn sub(&mut self, a: Address, v: U256) {
        let x = self.get(&a);
        if x < v {
            self.bad.get_or_insert(format!("{a} pays {v} out of {x}"));
        }
        self.now.insert(a, x.saturating_sub(v));
    }
    fn enter(&mut self) {
        self.saved.push((self.now.clone(), self.made.clone(), self.gone.clone()));
    }
    /// A transfer that starts a frame; one that cannot be paid makes the frame fail.
    fn pay(&mut self, from: Address, to: Address, v: U256) {
        if self.get(&from) >= v {
            self.sub(from, v);
            self.add(to, v);
        } else {
            self.kinds[3] += 1;
        }
    }
    fn leave(&mut self, res: InstructionResult) {
        let Some(s) = self.saved.pop() else { return };
        if let Some((c, t)) = self.leaving.take() {
            if res.is_ok() {
                self.kinds[2] += 1;
                let v = self.get(&c);
                if c != t {
                    self.sub(c, v);
                    self.add(t, v);
                } else if self.made.contains(&c) {
                    self.sub(c, v);
                }
                if self.made.contains(&c) {
                    self.gone.insert(c);
                }
            }
        }
        if !res.is_ok() {
            (self.now, self.made, self.gone) = s;
            self.kinds[4] += 1;
        }
        if self.saved.is_empty() {
            self.top = Some(res);
        }
    }
}

#[derive(Clone, Default)]
pub struct Watch(Rc<RefCell<Flow>>);

impl<'a> Inspector<Ctx<'a>> for Watch {
    fn step(&mut self, i: &mut Interpreter, _: &mut Ctx<'a>) {
        let mut f = self.0.borrow_mut();
        f.leaving = None;
        if i.bytecode.opcode() == 0xff && i.stack.len() > 0 {
            let t = Address::from_word(B256::from(i.stack.data()[i.stack.len() - 1]));
            f.leaving = Some((i.input.target_address, t));
        }
        let _ = i.bytecode.bytecode_len();
    }
    fn call(&mut self, _: &mut Ctx<'a>, i: &mut CallInputs) -> Option<CallOutcome> {
        let mut f = self.0.borrow_mut();
        f.enter();
        f.leaving = None;
        if i.scheme == CallScheme::Call {
            let v = i.value.get();
            if !v.is_zero() {
                f.kinds[0] += 1;
            }
            f.pay(i.caller, i.target_address, v);
        }
        None
    }
    fn call_end(&mut self, _: &mut Ctx<'a>, _: &CallInputs, o: &mut CallOutcome) {
        self.0.borrow_mut().leave(o.result.result);
    }
    fn create(&mut self, ctx: &mut Ctx<'a>, i: &mut CreateInputs) -> Option<CreateOutcome> {
        let mut f = self.0.borrow_mut();
        f.enter();
        f.leaving = None;
        let n = ctx.journal_ref().inner.state.get(&i.caller).map_or(0, |a| a.info.nonce);
        let a = match i.scheme {
            CreateScheme::Create => i.caller.create(n),
            CreateScheme::Create2 { salt } => {
                i.caller.create2_from_code(B256::from(salt), &i.init_code)
            }
            CreateScheme::Custom { address } => address,
        };
        f.kinds[1] += 1;
        f.made.insert(a);
        f.pay(i.caller, a, i.value);
        None
    }
    fn create_end(&mut self, _: &mut Ctx<'a>, _: &CreateInputs, o: &mut CreateOutcome) {
        self.0.borrow_mut().leave(o.result.result);
    }
}

/// What the chain's parameters make a transaction pay besides its gas.
pub struct Fees {
    pub price: U256,
    pub base: U256,
    pub l1: U256,
    op: [U256; 2],
}

impl Fees {
    pub fn op(&self, gas: u64) -> U256 {
        U256::from(gas) * self.op[0] / U256::from(1_000_000) + self.op[1]
    }
}

pub fn fees(sc: &Scenario, b: &BlockCtx, tx: &MegaTxEnvelope) -> Fees {
    let base = b.env.basefee as u128;
    let price = match tx.max_priority_fee_per_gas() {
        Some(tip) => tx.max_fee_per_gas().min(base + tip),
        None => tx.max_fee_per_gas(),
    };
    fees_of(sc, b, price, &tx.encoded_2718())
}

pub fn fees_of(sc: &Scenario, b: &BlockCtx, price: u128, raw: &[u8]) -> Fees {
    let base = b.env.basefee as u128;
    let len = flz_compress_len(raw) as u64;
    let size = (836_500 * len).saturating_sub(42_585_600).max(100_000_000);
    let l = sc.l1.map(U256::from);
    let scaled = l[2] * l[0] * U256::from(16) + l[3] * l[1];
    Fees {
        price: U256::from(price),
        base: U256::from(base),
        l1: U256::from(size) * scaled / U256::from(1_000_000_000_000u64),
        op: [l[4], l[5]],
    }
}

fn check(sc: &Scenario, st: &mut Stats) -> Verdict {
    let ids = Ids::new(sc);
    let ctxs = block_ctxs(sc, &ids);
    let mut node = Node::new(sc, &ids);
    let mut shadow = node.durable.clone();
    let mut supply = shadow.supply();
    for (bi, b) in ctxs.iter().enumerate() {
        st.sim_seconds += sc.blocks[bi].dt;
        let spec = &sc.blocks[bi];
        let ar = arena(spec.txs.len());
        let watch = Watch::default();
        let w2 = watch.clone();
        let plane = node.plane.clone();
        node.with_inspected(b, watch, |ex| block(ex, &w2, sc, b, spec, &ar, &ids, &mut shadow, &mut supply, &plane, st))?;
        st.blocks += 1;
        node.persist();
        if sc.knob(0) == bi as u64 {
            node.crash();
            st.crashes += 1;
        }
        st.checks += 1;
        if let Some(d) = node.durable.diff(&shadow) {
            return fail("ledger", format!("block {bi}: {d}"));
        }
        if node.durable.supply() != supply {
            return fail("supply", format!("block {bi}: {} expected {supply}", node.durable.supply()));
        }
    }
    Ok(())
}

#[allow(clippy::too_many_arguments)]
fn block(
    mut ex: Ex<'_, Watch>,
    watch: &Watch,
    sc: &Scenario,
    b: &BlockCtx,
    spec: &BlockSpec,
    arena: &Arena,
    ids: &Ids,
    shadow: &mut Ledger,
    supply: &mut U256,
    plane: &Rc<RefCell<Plane>>,
    st: &mut Stats,
) -> Verdict {
    match ex.pre_execution_changes() {
        Ok(outs) => {
            for o in &outs {
                shadow.apply(&o.state);
            }
            if let Err(e) = ex.commit_system_call_outcomes(outs) {
                return fail("pre-commit", err_text(&e));
            }
        }
        Err(e) => return fail("pre-execution", err_text(&e)),
    }
    if shadow.supply() != *supply {
        return fail("opening-moves-value", format!("{} instead of {supply}", shadow.supply()));
    }
    let mut events = spec.events.clone();
    if events.is_empty() {
        events = (0..spec.txs.len()).map(Ev::Exec).collect();
    }
    for ev in events {
        st.steps += 1;
        let (Ev::Exec(i) | Ev::FaultExec(i, _) | Ev::Run(i)) = ev else { continue };
        if i >= spec.txs.len() {
            continue;
        }
        let tx = arena[i].get_or_init(|| build_tx(ids, &spec.txs[i], &|a| shadow.nonce(&a), i as u64));
        if let Ev::FaultExec(_, p) = ev {
            plane.borrow_mut().arm(p);
        }
        let env = tx.inner();
        let deposit = matches!(env, MegaTxEnvelope::Deposit(_));
        let system = b.rules >= Rules::MiniRex && ids.addr(Who::SysAddr) == tx.signer();
        let fee = (!deposit && !system).then(|| fees(sc, b, env));
        let mint = match env {
            MegaTxEnvelope::Deposit(d) => U256::from(d.mint),
            _ => U256::ZERO,
        };
        let from = tx.signer();
        {
            let mut f = watch.0.borrow_mut();
            *f = Flow { base: shadow.clone(), ..Default::default() };
            f.add(from, mint);
            if let Some(x) = &fee {
                let v = U256::from(env.gas_limit()) * x.price + x.l1 + x.op(env.gas_limit());
                let have = f.get(&from);
                f.sub(from, v.min(have));
            }
        }
        let r = ex.run_transaction(tx);
        if let Ev::FaultExec(..) = ev {
            let fired = plane.borrow_mut().disarm();
            st.plane(&mut plane.borrow_mut());
            if fired > 0 {
                st.probe("aborted attempt");
            }
            continue;
        }
        let o = match r {
            Ok(o) => o,
            Err(e) if is_infra_error(&e) => return fail("infra-error-without-fault", err_text(&e)),
            Err(_) => continue,
        };
        if matches!(ev, Ev::Run(_)) {
            continue;
        }
        st.txs += 1;
        let res = o.inner.result.clone();
        let delta = o.inner.state.clone();
        match ex.commit_transaction_outcome(o) {
            Ok(_) => {}
            Err(e) if is_infra_error(&e) => return fail("infra-error-without-fault", err_text(&e)),
            Err(_) => continue,
        }
        let before = shadow.clone();
        shadow.apply(&delta);
        let f = std::mem::take(&mut *watch.0.borrow_mut());
        st.checks += 1;
        let burnt = delta.values().any(|a| a.is_selfdestructed());
        verdict(sc, b, tx, from, burnt, fee, mint, &res, f, &before, shadow, supply, ids, st)
            .or_else(|e| Err(Violation { detail: format!("tx {i}: {}", e.detail), ..e }))?;
    }
    ex.finish().map(|_| ()).or_else(|e| fail("finish", err_text(&e)))
}

#[allow(clippy::too_many_arguments)]
fn verdict(
    _sc: &Scenario,
    b: &BlockCtx,
    tx: &Tx,
    from: Address,
    burnt: bool,
    fee: Option<Fees>,
    mint: U256,
    res: &ExecRes,
    mut f: Flow,
    before: &Ledger,
    after: &Ledger,
    supply: &mut U256,
    ids: &Ids,
    st: &mut Stats,
) -> Verdict {
    let what = format!("{:?} {:?}", b.rules, tx.inner().tx_type());
    let keyless = tx.to() == Some(ids.addr(Who::Keyless)) && b.rules >= Rules::Rex2;
    let limit_halt = matches!(res, ExecutionResult::Halt { reason, .. } if !matches!(reason, MegaHaltReason::Base(_)));
    let kept = f.top.is_some_and(|t| t.is_ok()) || tx.to().is_none();
    if let Some(t) = &f.bad {
        return fail("model", format!("{what}: {t}"));
    }
    let failed_deposit = matches!(res, ExecutionResult::Halt { .. }) && fee.is_none();
    if failed_deposit {
        // Everything but the mint is undone.
        f.now.clear();
        f.gone.clear();
        f.add(from, mint);
    }
    if let Some(x) = &fee {
        let used = res.gas_used();
        let limit = tx.inner().gas_limit();
        if used > limit {
            return fail("gas-used", format!("{what}: {used} of {limit}"));
        }
        f.add(from, U256::from(limit - used) * x.price + x.op(limit) - x.op(used));
        f.add(b.env.beneficiary, U256::from(used) * (x.price - x.base));
        f.add(BASE_FEE_VAULT, U256::from(used) * x.base);
        f.add(L1_FEE_VAULT, x.l1);
        f.add(OP_FEE_VAULT, x.op(used));
    }
    for a in std::mem::take(&mut f.gone) {
        f.now.insert(a, U256::ZERO);
        st.probe("contract destroyed");
    }
    st.distinct(&format!("{what}|{}|{:?}|{}", res.is_success(), f.kinds.map(|k| k.min(9)), fee.is_some()));
    for (k, n) in f.kinds.iter().zip(["value call", "creation", "self-destruction", "unpayable transfer", "undone frame"]) {
        st.probe_n(n, *k as u64);
    }
    if keyless || (limit_halt && kept) {
        // The inner deployment is not shown to observers (and a finished outermost frame may be kept
        // although the transaction halts): only the total is decided.
        st.probe("total only");
        let (s, e) = (after.supply(), *supply + mint);
        // A contract destroyed within the deployment may burn what it was sent.
        if s > e || (s < e && !(keyless && burnt)) {
            return fail("total", format!("{what}: {s}, expected {e}"));
        }
        *supply = s;
        return Ok(());
    }
    let all: BTreeSet<Address> =
        f.now.keys().chain(before.accts.keys()).chain(after.accts.keys()).copied().collect();
    let mut sum = *supply;
    for a in all {
        let (want, got) = (f.get(&a), after.balance(&a));
        if want != got {
            return fail(
                "balance",
                format!("{what}: {a} has {got}, expected {want} (had {}); {res:?}", before.balance(&a)),
            );
        }
        sum = sum + want - before.balance(&a);
    }
    st.checks += 1;
    *supply = sum;
    Ok(())
}
