//! The oracle: reads see the service first and storage otherwise, always at the cold price; hints
//! reach the service once, in order, from whoever calls; only the protocol address writes.

use std::{
    cell::RefCell,
    collections::{BTreeMap, BTreeSet},
    rc::Rc,
};

use mega_evm::{
    alloy_consensus::Transaction,
    alloy_evm::block::BlockExecutor,
    alloy_primitives::{keccak256, Address, Bytes, B256, U256},
    revm::{
        interpreter::{
            interpreter_types::{Jumps, LoopControl},
            CallInputs, CallOutcome, CreateInputs, CreateOutcome, InstructionResult, Interpreter,
        },
        Inspector,
    },
};

use crate::{chain::*, exec::*, gen::*, ids::*, scenario::*, stats::*, world::*};

use super::*;

pub fn prop() -> Prop {
    Prop {
        id: "C08",
        gen,
        check,
        quick_runs: 25_000,
        level: "exploration",
        rule: "seeded chain of transactions using the oracle in every way while the service's values change between transactions and on hints, with aborted and repeated attempts; every read, hint and stored value predicted; a case counts when a transaction has a new (rules, sender, outcome, sequence of oracle reads, hints and writes) signature",
        real: REAL,
        stub: STUB,
        assumptions: ASSUME,
    }
}

fn gen(seed: u64) -> Scenario {
    let mut g = Gen::new(seed);
    g.sw.op[o::ORACLE] = 8;
    g.sw.op[o::TIME] = g.sw.op[o::TIME].max(1);
    g.sw.system = 2;
    if g.r.chance(7, 8) {
        g.sw.min_rules = Rules::MiniRex;
    }
    let crossing = g.r.chance(1, 3);
    let mut sc = g.world("C08", seed, crossing);
    if g.r.chance(1, 2) {
        sc.hint_sets.clear();
    }
    for _ in 0..g.r.range(1, 3) {
        let ntx = g.r.range(2, 6) as usize;
        let mut b = g.block(ntx);
        if g.r.chance(1, 4) {
            g.tight_limits(&mut b.limits);
        }
        for t in b.txs.iter_mut() {
            if t.ty == TxType::System && g.r.chance(1, 2) {
                t.to = Some(Who::Oracle);
                t.input = Input::OracleSet(g.r.below(4), g.r.below(5));
                t.value = 0;
                t.gas = 100_000_000;
            } else if t.to.is_some() && g.r.chance(1, 6) {
                t.to = Some(Who::Oracle);
                t.input = g.oracle_input();
            }
        }
        for i in 0..ntx {
            if g.r.chance(1, 3) {
                let v = if g.r.chance(1, 2) { Some(g.r.below(9)) } else { None };
                b.events.push(Ev::OracleSet(g.r.below(4), v));
            }
            if g.r.chance(1, 6) {
                b.events.push(Ev::FaultExec(i, g.fault()));
            }
            if g.r.chance(1, 6) {
                b.events.push(Ev::Run(i));
            }
            b.events.push(Ev::Exec(i));
        }
        sc.blocks.push(b);
    }
    sc.knobs = vec![g.r.below(8), g.r.below(3)];
    if sc.knobs[1] == 0 {
        sc.hint_sets.clear();
    }
    sc
}

#[derive(Clone, Debug)]
enum Want {
    Event(EnvEvent),
    /// May or may not happen: the instruction died, or the payload is not canonical.
    Maybe(EnvEvent),
}

struct Flow {
    world: Rc<RefCell<EnvWorld>>,
    rules: Rules,
    stored: BTreeMap<U256, U256>,
    saved: Vec<BTreeMap<U256, U256>>,
    want: Vec<Want>,
    /// Ongoing instruction on oracle storage: opcode, key, value, gas.
    at: Option<(u8, U256, U256, u64)>,
    served: BTreeMap<U256, BTreeSet<U256>>,
    /// Some write was attempted.
    wrote: bool,
    /// Some read was served a value other than the stored one.
    unpublished: bool,
    bad: Option<(&'static str, String)>,
    shape: String,
    reads: u64,
    served_reads: u64,
    hints: u64,
    writes: u64,
}

#[derive(Clone)]
pub struct Watch(Rc<RefCell<Option<Flow>>>);

fn hint_selector() -> [u8; 4] {
    let h = keccak256(b"sendHint(bytes32,bytes)");
    [h[0], h[1], h[2], h[3]]
}

/// Topic, data and whether this is exactly the canonical encoding.
fn decode_hint(d: &[u8]) -> Option<(B256, Bytes, bool)> {
    if d.len() < 100 || d[..4] != hint_selector() {
        return None;
    }
    let word = |i: usize| U256::from_be_slice(&d[4 + 32 * i..36 + 32 * i]);
    let topic = B256::from(word(0));
    let n = word(2);
    if word(1) != U256::from(64) || n > U256::from(1_000_000) {
        return Some((topic, Bytes::new(), false));
    }
    let n = n.to::<usize>();
    let padded = n.div_ceil(32) * 32;
    if d.len() != 100 + padded {
        return Some((topic, Bytes::new(), false));
    }
    Some((topic, Bytes::copy_from_slice(&d[100..100 + n]), true))
}

impl Flow {
    fn frame(&mut self, ctx: &mut Ctx<'_>, i: &CallInputs) {
        self.saved.push(self.stored.clone());
        if i.target_address != ORACLE_CONTRACT_ADDRESS || self.rules < Rules::Rex2 {
            return;
        }
        let d = i.input.bytes(ctx);
        if let Some((topic, data, exact)) = decode_hint(&d) {
            let e = EnvEvent::Hint(i.caller, topic, data);
            self.shape.push('h');
            self.hints += 1;
            self.want.push(if exact { Want::Event(e) } else { Want::Maybe(e) });
        }
    }
    fn leave(&mut self, r: InstructionResult) {
        if let Some(s) = self.saved.pop() {
            if !r.is_ok() {
                self.stored = s;
            }
        }
    }
}

impl<'a> Inspector<Ctx<'a>> for Watch {
    fn step(&mut self, i: &mut Interpreter, _: &mut Ctx<'a>) {
        let mut f = self.0.borrow_mut();
        let Some(f) = f.as_mut() else { return };
        f.at = None;
        let op = i.bytecode.opcode();
        let n = i.stack.len();
        if i.input.target_address != ORACLE_CONTRACT_ADDRESS || n < 1 {
            return;
        }
        let top = i.stack.data()[n - 1];
        if op == 0x54 {
            f.at = Some((op, top, U256::ZERO, i.gas.remaining()));
        } else if op == 0x55 && n >= 2 {
            f.at = Some((op, top, i.stack.data()[n - 2], i.gas.remaining()));
        }
    }
    fn step_end(&mut self, i: &mut Interpreter, _: &mut Ctx<'a>) {
        let mut f = self.0.borrow_mut();
        let Some(f) = f.as_mut() else { return };
        let Some((op, key, val, gas)) = f.at.take() else { return };
        let died = i.bytecode.action().is_some();
        if op == 0x55 {
            f.wrote = true;
            if !died {
                f.stored.insert(key, val);
                f.writes += 1;
                f.shape.push('w');
            }
            return;
        }
        let served = f.world.borrow().oracle.get(&key).copied();
        let consulted = f.rules >= Rules::MiniRex;
        // (A dead read has consulted the service as well.)
        f.unpublished |= died;
        if consulted {
            let e = EnvEvent::OracleRead(key, served);
            f.want.push(if died { Want::Maybe(e) } else { Want::Event(e) });
        }
        if died {
            return;
        }
        let stored = f.stored.get(&key).copied().unwrap_or_default();
        let want = if consulted { served.unwrap_or(stored) } else { stored };
        let got = i.stack.data().last().copied().unwrap_or_default();
        f.reads += 1;
        f.shape.push(if served.is_some() { 's' } else { 'r' });
        if consulted {
            if served.is_some() {
                f.served_reads += 1;
                f.unpublished |= served != Some(stored);
            }
            f.served.entry(key).or_default().insert(want);
        }
        if got != want {
            f.bad.get_or_insert(("value", format!("slot {key} reads {got}, service {served:?}, stored {stored}")));
        }
        let cost = gas - i.gas.remaining();
        if consulted && cost != 2_100 {
            f.bad.get_or_insert(("price", format!("reading slot {key} cost {cost}")));
        }
    }
    fn call(&mut self, c: &mut Ctx<'a>, i: &mut CallInputs) -> Option<CallOutcome> {
        if let Some(f) = self.0.borrow_mut().as_mut() {
            f.frame(c, i);
        }
        None
    }
    fn call_end(&mut self, _: &mut Ctx<'a>, _: &CallInputs, o: &mut CallOutcome) {
        if let Some(f) = self.0.borrow_mut().as_mut() {
            f.leave(o.result.result);
        }
    }
    fn create(&mut self, _: &mut Ctx<'a>, _: &mut CreateInputs) -> Option<CreateOutcome> {
        if let Some(f) = self.0.borrow_mut().as_mut() {
            f.saved.push(f.stored.clone());
        }
        None
    }
    fn create_end(&mut self, _: &mut Ctx<'a>, _: &CreateInputs, o: &mut CreateOutcome) {
        if let Some(f) = self.0.borrow_mut().as_mut() {
            f.leave(o.result.result);
        }
    }
}

fn oracle_slots(l: &Ledger) -> BTreeMap<U256, U256> {
    l.accts.get(&ORACLE_CONTRACT_ADDRESS).map(|a| a.storage.clone()).unwrap_or_default()
}

fn check(sc: &Scenario, st: &mut Stats) -> Verdict {
    let ids = Ids::new(sc);
    let ctxs = block_ctxs(sc, &ids);
    let mut node = Node::new(sc, &ids);
    let mut shadow = node.durable.clone();
    for (bi, b) in ctxs.iter().enumerate() {
        st.sim_seconds += sc.blocks[bi].dt;
        let mut b = b.clone();
        if b.rules < Rules::Rex1 {
            // Before Rex1 a detention outlives its transaction; the replica below starts afresh.
            b.limits.block_env_access_compute_gas_limit = u64::MAX;
            b.limits.oracle_access_compute_gas_limit = u64::MAX;
        }
        let b = &b;
        let spec = &sc.blocks[bi];
        let ar = arena(spec.txs.len());
        let watch = Watch(Default::default());
        let w2 = watch.clone();
        let (plane, world) = (node.plane.clone(), node.world.clone());
        let mut done = vec![];
        node.with_inspected(b, watch, |ex| {
            block(ex, &w2, b, spec, &ar, &ids, &mut shadow, &plane, &world, sc.knob(1) == 0, &mut done, st)
        })
        .map_err(|v| Violation { detail: format!("block {bi} {:?}: {}", b.rules, v.detail), ..v })?;
        st.blocks += 1;
        node.persist();
        if sc.knob(0) == bi as u64 {
            node.crash();
            st.crashes += 1;
        }
        st.checks += 1;
        if let Some(d) = node.durable.diff(&shadow) {
            return fail("ledger", format!("block {bi}: {d}"));
        }
        // A node without the service, once the values have been published, sees the same.
        for (before, tx, out, delta, served) in done {
            let mut other = Node::new(sc, &ids);
            other.world.borrow_mut().oracle.clear();
            other.world.borrow_mut().on_hint_set.clear();
            other.durable = before;
            for (k, v) in &served {
                other.durable.set_slot(ORACLE_CONTRACT_ADDRESS, *k, *v);
            }
            let got = other.with_executor(b, |mut ex| {
                ex.run_transaction(&tx)
                    .map(|o| (TxOut::new(&o.inner, o.tx_size, o.da_size), delta_of(&o.inner.state)))
            });
            st.checks += 1;
            st.probe("re-executed without service");
            match got {
                Ok((o2, d2)) if o2 == out && d2 == delta => {}
                Ok((o2, d2)) => {
                    return fail(
                        "replica-differs",
                        format!("block {bi} {:?} served {served:?}: {out:?} {delta:?} without service {o2:?} {d2:?}", b.rules),
                    )
                }
                Err(e) => return fail("replica-refuses", format!("block {bi}: {}", err_text(&e))),
            }
        }
    }
    Ok(())
}

type Again = (Ledger, Tx, TxOut, BTreeMap<Address, String>, BTreeMap<U256, U256>);

#[allow(clippy::too_many_arguments)]
fn block(
    mut ex: Ex<'_, Watch>,
    watch: &Watch,
    b: &BlockCtx,
    spec: &BlockSpec,
    arena: &Arena,
    ids: &Ids,
    shadow: &mut Ledger,
    plane: &Rc<RefCell<Plane>>,
    world: &Rc<RefCell<EnvWorld>>,
    mirror: bool,
    done: &mut Vec<Again>,
    st: &mut Stats,
) -> Verdict {
    match ex.pre_execution_changes() {
        Ok(outs) => {
            for o in &outs {
                shadow.apply(&o.state);
            }
            if let Err(e) = ex.commit_system_call_outcomes(outs) {
                return fail("pre-commit", err_text(&e));
            }
        }
        Err(e) => return fail("pre-execution", err_text(&e)),
    }
    let mut events = spec.events.clone();
    if events.is_empty() {
        events = (0..spec.txs.len()).map(Ev::Exec).collect();
    }
    for ev in events {
        st.steps += 1;
        if let Ev::OracleSet(k, v) = ev {
            set_oracle(world, k, v);
            st.probe("service changed between transactions");
            continue;
        }
        let (Ev::Exec(i) | Ev::FaultExec(i, _) | Ev::Run(i)) = ev else { continue };
        if i >= spec.txs.len() {
            continue;
        }
        let tx = arena[i].get_or_init(|| build_tx(ids, &spec.txs[i], &|a| shadow.nonce(&a), i as u64));
        if let Ev::FaultExec(_, p) = ev {
            plane.borrow_mut().arm(p);
        }
        let base = oracle_slots(shadow);
        if mirror {
            // A service that reads the chain's own database.
            let mut w = world.borrow_mut();
            w.oracle.clear();
            w.oracle.extend(base.iter().map(|(k, v)| (*k, *v)));
            st.probe("service mirrors the chain");
        }
        *watch.0.borrow_mut() = Some(Flow {
            world: world.clone(),
            rules: b.rules,
            stored: base.clone(),
            saved: vec![],
            want: vec![],
            at: None,
            served: Default::default(),
            wrote: false,
            unpublished: false,
            bad: None,
            shape: String::new(),
            reads: 0,
            served_reads: 0,
            hints: 0,
            writes: 0,
        });
        world.borrow_mut().log.clear();
        let r = ex.run_transaction(tx);
        let mut log: Vec<EnvEvent> = world
            .borrow_mut()
            .log
            .drain(..)
            .filter(|e| matches!(e, EnvEvent::OracleRead(..) | EnvEvent::Hint(..)))
            .collect();
        // Nobody can tell how often the service was asked the same thing in a row.
        log.dedup_by(|a, b| a == b && matches!(a, EnvEvent::OracleRead(..)));
        let f = watch.0.borrow_mut().take().expect("set above");
        let what = format!("tx {i} {:?}", tx.inner().tx_type());
        if let Ev::FaultExec(..) = ev {
            let fired = plane.borrow_mut().disarm();
            st.plane(&mut plane.borrow_mut());
            if fired > 0 {
                st.probe("aborted attempt");
                continue;
            }
        }
        st.checks += 1;
        if let Some((c, t)) = f.bad {
            return fail(c, format!("{what}: {t}"));
        }
        // What reached the service, in order.
        let mut k = 0;
        for w in &f.want {
            let (e, must) = match w {
                Want::Event(e) => (e, true),
                Want::Maybe(e) => (e, false),
            };
            let same = match (log.get(k), e) {
                (Some(EnvEvent::Hint(a, t, _)), EnvEvent::Hint(a2, t2, _)) if !must => a == a2 && t == t2,
                (g, e) => g == Some(e),
            };
            let again = k > 0 && matches!(e, EnvEvent::OracleRead(..)) && log[k - 1] == *e;
            if same {
                k += 1;
            } else if must && !again {
                return fail(
                    "service-events",
                    format!("{what}: event {k} should be {e:?}; got {:?}", log.get(k)),
                );
            }
        }
        if k < log.len() {
            return fail("service-events", format!("{what}: unexpected {:?}", log[k]));
        }
        let o = match r {
            Ok(o) => o,
            Err(e) if is_infra_error(&e) => return fail("infra-error-without-fault", err_text(&e)),
            Err(_) => continue,
        };
        if !matches!(ev, Ev::Exec(_)) {
            continue;
        }
        st.txs += 1;
        let out = TxOut::new(&o.inner, o.tx_size, o.da_size);
        let state = o.inner.state.clone();
        match ex.commit_transaction_outcome(o) {
            Ok(_) => {}
            Err(e) if is_infra_error(&e) => return fail("infra-error-without-fault", err_text(&e)),
            Err(_) => continue,
        }
        let before = shadow.clone();
        shadow.apply(&state);
        let system = tx.signer() == MEGA_SYSTEM_ADDRESS;
        let mut want = if out.result.is_success() { f.stored } else { base.clone() };
        want.retain(|_, v| !v.is_zero());
        let got = oracle_slots(shadow);
        if got != want {
            return fail("stored", format!("{what}: oracle holds {got:?}, expected {want:?}"));
        }
        if got != base && !system {
            return fail("foreign-write", format!("{what} from {}: {base:?} -> {got:?}", tx.signer()));
        }
        let logs = out.result.logs().iter().filter(|l| l.address == ORACLE_CONTRACT_ADDRESS).count();
        if logs > 0 && !system {
            return fail("foreign-log", format!("{what} from {}", tx.signer()));
        }
        let shape: String = f.shape.chars().take(12).collect();
        st.distinct(&format!("{:?}|{system}|{}|{shape}", b.rules, out.result.is_success()));
        st.probe_n("oracle read", f.reads);
        st.probe_n("read served by the service", f.served_reads);
        st.probe_n("hint", f.hints);
        st.probe_n("write", f.writes);
        if got != base {
            st.probe("oracle changed");
        }
        let keyless = tx.inner().to() == Some(KEYLESS_DEPLOY_ADDRESS);
        // Writes to a slot are priced by what is stored, so a transaction that tries one is comparable
        // only if the service says what is stored.
        let comparable = !f.wrote || !f.unpublished;
        let steady = !f.unpublished || f.served.values().all(|v| v.len() == 1);
        if f.reads > 0 && comparable && !keyless && steady {
            let served = f
                .served
                .into_iter()
                .filter(|_| f.unpublished)
                .map(|(k, v)| (k, v.into_iter().next().unwrap_or_default()))
                .collect();
            done.push((before, tx.clone(), out, delta_of(&state), served));
        }
    }
    ex.finish().map(|_| ()).or_else(|e| fail("finish", err_text(&e)))
}
