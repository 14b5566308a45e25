//! Runs a scenario's schedule next to the reference model and collects what differs.

use std::{
    cell::RefCell,
    collections::{BTreeMap, BTreeSet},
    rc::Rc,
};

use mega_evm::{
    alloy_evm::{block::BlockExecutor, Evm, IntoTxEnv, RecoveredTx},
    alloy_primitives::Address,
    revm::context::transaction::{AccessList, AccessListItem},
    BlockMegaTransactionOutcome, MegaTransaction, MegaTxEnvelope,
};

use crate::{chain::*, exec::*, ids::Ids, model::*, scenario::*, stats::*, world::*};

/// A transaction whose decoded lists carry spare capacity, as a decoder that grows its buffers
/// leaves them.
#[derive(Clone, Copy)]
pub struct Wire<'a>(pub &'a Tx);

impl IntoTxEnv<MegaTransaction> for Wire<'_> {
    fn into_tx_env(self) -> MegaTransaction {
        let mut t: MegaTransaction = self.0.into_tx_env();
        let l = std::mem::take(&mut t.base.access_list);
        t.base.access_list = AccessList(
            l.0.into_iter()
                .map(|i| {
                    let mut ks = Vec::with_capacity(i.storage_keys.len() * 2 + 4);
                    ks.extend(i.storage_keys);
                    AccessListItem { address: i.address, storage_keys: ks }
                })
                .collect(),
        );
        t
    }
}
impl RecoveredTx<MegaTxEnvelope> for Wire<'_> {
    fn tx(&self) -> &MegaTxEnvelope {
        self.0.inner()
    }
    fn signer(&self) -> &Address {
        self.0.signer_ref()
    }
}

/// `classes`: the kinds of disagreement this property decides.
pub fn drive(sc: &Scenario, st: &mut Stats, classes: &[Cl]) -> Verdict {
    let ids = Ids::new(sc);
    let ctxs = block_ctxs(sc, &ids);
    let mut node = Node::new(sc, &ids);
    let mut shadow = node.durable.clone();
    let mut late = vec![];
    for (bi, b) in ctxs.iter().enumerate() {
        st.sim_seconds += sc.blocks[bi].dt;
        let spec = &sc.blocks[bi];
        let ar = arena(spec.txs.len());
        let model = Rc::new(RefCell::new(Model::new(node.world.clone(), b)));
        if sc.eips & 3 != 0 && b.rules < Rules::Rex1 {
            // The opening steps read the block number and the clock; before Rex1 that stays with
            // the block.
            model.borrow_mut().detained_block();
        }
        let m2 = model.clone();
        let plane = node.plane.clone();
        let world = node.world.clone();
        let run = node.with_inspected(b, Shadow(model), |ex| {
            follow(ex, &m2, b, spec, &ar, &ids, &mut shadow, &plane, &world, classes, &mut late, st)
        })?;
        note_done(st, b.rules, &run);
        node.persist();
        if sc.knob(0) == bi as u64 {
            node.crash();
            st.crashes += 1;
        }
        st.checks += 1;
        if let Some(d) = node.durable.diff(&shadow) {
            return fail("ledger", format!("block {bi}: {d}"));
        }
    }
    match late.into_iter().next() {
        Some(v) => Err(v),
        None => Ok(()),
    }
}

fn judge(
    m: &mut Model,
    classes: &[Cl],
    late: &mut Vec<Violation>,
    what: &str,
    st: &mut Stats,
) -> Verdict {
    for (p, n) in std::mem::take(&mut m.probes) {
        if p.starts_with("known finding") && !classes.contains(&Cl::Price) {
            continue;
        }
        st.probe_n(p, n);
    }
    st.checks += m.asserted;
    m.asserted = 0;
    for i in std::mem::take(&mut m.issues) {
        if !classes.contains(&i.cl) {
            continue;
        }
        let v: Verdict = fail(i.kind, format!("{what}: {}", i.text));
        if SOFT.contains(&i.kind) {
            late.extend(v.err());
        } else {
            return v;
        }
    }
    Ok(())
}

/// Kinds recorded as known findings: reported only when nothing else is wrong in the run.
const SOFT: [&str; 2] = ["limit-at-call-burns-forwarded-gas", "limit-halt-keeps-finished-top-frame"];

#[allow(clippy::too_many_arguments)]
fn follow<'a>(
    mut ex: Ex<'a, Shadow>,
    model: &Rc<RefCell<Model>>,
    b: &BlockCtx,
    spec: &BlockSpec,
    arena: &Arena,
    ids: &Ids,
    shadow: &mut Ledger,
    plane: &Rc<RefCell<Plane>>,
    world: &Rc<RefCell<EnvWorld>>,
    classes: &[Cl],
    late: &mut Vec<Violation>,
    st: &mut Stats,
) -> Result<BlockRun, Violation> {
    let mut run = BlockRun::default();
    match ex.pre_execution_changes() {
        Ok(outs) => {
            for o in &outs {
                shadow.apply(&o.state);
            }
            if let Err(e) = ex.commit_system_call_outcomes(outs) {
                return fail("pre-commit", err_text(&e));
            }
        }
        Err(e) => return fail("pre-execution", err_text(&e)),
    }
    let in_order: Vec<Ev> = (0..spec.txs.len()).map(Ev::Exec).collect();
    let events = if spec.events.is_empty() { &in_order } else { &spec.events };
    let mut pending: BTreeMap<usize, BlockMegaTransactionOutcome<&Tx>> = BTreeMap::new();
    let mut committed = BTreeSet::new();
    for ev in events {
        st.steps += 1;
        match ev {
            Ev::Run(i) | Ev::Exec(i) if *i < spec.txs.len() && !committed.contains(i) => {
                let tx = arena[*i]
                    .get_or_init(|| build_tx(ids, &spec.txs[*i], &|a| shadow.nonce(&a), *i as u64));
                // The plain machine first, sometimes: tracing must not be what makes it right.
                let again = b.rules >= Rules::Rex1 && !st_hints(world);
                let plain = if again && (*i + spec.txs.len()) % 2 == 0 {
                    ex.evm_mut().set_inspector_enabled(false);
                    let r = ex.run_transaction(Wire(tx));
                    ex.evm_mut().set_inspector_enabled(true);
                    Some(r.map(|o| TxOut::new(&o.inner, o.tx_size, o.da_size)))
                } else {
                    None
                };
                model.borrow_mut().begin(tx, shadow);
                match ex.run_transaction(tx) {
                    Ok(o) => {
                        st.txs += 1;
                        let out = TxOut::new(&o.inner, o.tx_size, o.da_size);
                        let mut m = model.borrow_mut();
                        m.finish(&out, &o.inner.state, out.result.logs().len());
                        judge(&mut m, classes, late, &format!("tx {i}"), st)?;
                        drop(m);
                        if let Some(p) = plain {
                            st.checks += 1;
                            match p {
                                Ok(p) if p == out => st.probe("untraced run agrees"),
                                Ok(p) => return fail("untraced-differs", format!("tx {i}: {p:?} traced {out:?}")),
                                Err(e) => return fail("untraced-differs", format!("tx {i}: {}", err_text(&e))),
                            }
                        }
                        if matches!(ev, Ev::Exec(_)) {
                            finish_commit(&mut ex, *i, o, shadow, &mut run, &Opts::plain(), &mut committed)?;
                        } else {
                            pending.insert(*i, o);
                        }
                    }
                    Err(e) => {
                        model.borrow_mut().abort();
                        judge(&mut model.borrow_mut(), classes, late, &format!("tx {i} rejected"), st)?;
                        pending.remove(i);
                        if is_infra_error(&e) {
                            return fail("infra-error-without-fault", err_text(&e));
                        }
                        run.rejected.push((*i, err_text(&e)));
                    }
                }
            }
            Ev::FaultExec(i, p) if *i < spec.txs.len() && !committed.contains(i) => {
                // Before Rex1 an abandoned attempt may leave its lowered compute limit behind.
                if b.rules < Rules::Rex1 {
                    continue;
                }
                let tx = arena[*i]
                    .get_or_init(|| build_tx(ids, &spec.txs[*i], &|a| shadow.nonce(&a), *i as u64));
                plane.borrow_mut().arm(*p);
                let r = ex.run_transaction(tx);
                let fired = plane.borrow_mut().disarm();
                st.plane(&mut plane.borrow_mut());
                if fired > 0 && r.is_err() {
                    st.probe("aborted attempt");
                }
            }
            Ev::Commit(i) => {
                if let Some(o) = pending.remove(i) {
                    if !committed.contains(i) {
                        finish_commit(&mut ex, *i, o, shadow, &mut run, &Opts::plain(), &mut committed)?;
                    }
                }
            }
            Ev::Discard(i) => {
                if pending.remove(i).is_some() {
                    st.fault("discarded speculation", 1);
                }
            }
            Ev::OracleSet(k, v) => set_oracle(world, *k, *v),
            _ => {}
        }
    }
    match ex.finish() {
        Ok((_, f)) => run.gas_used = f.gas_used,
        Err(e) => return fail("finish", err_text(&e)),
    }
    st.blocks += 1;
    Ok(run)
}

/// Whether hints change what the oracle service answers (then a re-run sees another world).
fn st_hints(world: &Rc<RefCell<EnvWorld>>) -> bool {
    !world.borrow().on_hint_set.is_empty()
}
