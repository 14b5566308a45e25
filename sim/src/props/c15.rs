//! Tracer transparency: an attached observer never changes what happens, however it is switched on
//! and off, and what it is shown is consistent with the outcome.

use std::{cell::RefCell, rc::Rc};

use mega_evm::{
    MegaHaltReason,
    alloy_evm::{block::BlockExecutor, Evm},
    alloy_primitives::{Address, Bytes, Log},
    revm::{
        context::{result::ExecutionResult, ContextTr, JournalTr},
        interpreter::{
            CallInputs, CallOutcome, CallValue, CreateInputs, CreateOutcome, Gas, Interpreter,
            InstructionResult, InterpreterResult,
        },
        Inspector,
    },
    KEYLESS_DEPLOY_ADDRESS, ORACLE_CONTRACT_ADDRESS,
};

use crate::{chain::*, exec::*, gen::*, ids::Ids, scenario::*, stats::*};

use super::*;

pub fn prop() -> Prop {
    Prop {
        id: "C15",
        gen,
        check,
        quick_runs: 30_000,
        level: "exploration",
        rule: "seeded scenario executed plain and traced, with the tracer toggled and storage faults injected between transactions; a case counts when a traced transaction has a new (rules, outcome, gas, usage, logs) signature",
        real: REAL,
        stub: STUB,
        assumptions: ASSUME,
    }
}

fn gen(seed: u64) -> Scenario {
    let mut g = Gen::new(seed);
    let crossing = g.r.chance(1, 3);
    let mut sc = g.world("C15", seed, crossing);
    sc.hint_sets.clear();
    for _ in 0..g.r.range(1, 2) {
        let ntx = g.r.range(1, 5) as usize;
        let mut b = g.block(ntx);
        if g.r.chance(1, 3) {
            g.tight_limits(&mut b.limits);
        }
        for i in 0..ntx {
            if g.r.chance(1, 5) {
                b.events.push(Ev::FaultExec(i, g.fault()));
            }
            b.events.push(Ev::Exec(i));
        }
        sc.blocks.push(b);
    }
    sc.knobs = vec![g.r.next(), g.r.below(4), if g.r.chance(1, 2) { g.r.next() } else { 0 }];
    sc
}

#[derive(Default)]
pub struct Trace {
    depth: i64,
    max_depth: i64,
    underflow: bool,
    steps: u64,
    step_ends: u64,
    frames: u64,
    ends: u64,
    logs: u64,
    selfdestructs: u64,
    /// Result of the outermost frame.
    top: Option<InstructionResult>,
    /// Answer calls of accounts without code in the machine's place, exactly as it would.
    stand_in: bool,
    answered: u64,
    /// Spend what is left of the gas of failed frames, as upstream's gas inspector (and with it its
    /// standard tracer) does.
    spends: bool,
    spent: u64,
}

#[derive(Clone, Default)]
pub struct Recorder(Rc<RefCell<Trace>>);

impl<'a> Inspector<Ctx<'a>> for Recorder {
    fn step(&mut self, i: &mut Interpreter, _: &mut Ctx<'a>) {
        let mut t = self.0.borrow_mut();
        t.steps += 1;
        // A tracer looks at the machine.
        std::hint::black_box((i.stack.len(), i.gas.remaining()));
    }
    fn step_end(&mut self, i: &mut Interpreter, _: &mut Ctx<'a>) {
        self.0.borrow_mut().step_ends += 1;
        std::hint::black_box(i.stack.len());
    }
    fn log(&mut self, _: &mut Interpreter, _: &mut Ctx<'a>, _: Log) {
        self.0.borrow_mut().logs += 1;
    }
    fn call(&mut self, ctx: &mut Ctx<'a>, i: &mut CallInputs) -> Option<CallOutcome> {
        let mut t = self.0.borrow_mut();
        t.open();
        if !t.stand_in || t.depth > 900 || i.transfers_value() || !blank(ctx, i.bytecode_address) {
            return None;
        }
        if let CallValue::Transfer(v) = i.value {
            // Both parties are loaded, so that this cannot fail.
            if !loaded(ctx, i.caller) || !loaded(ctx, i.target_address) {
                return None;
            }
            ctx.journal_mut().transfer(i.caller, i.target_address, v).ok()?;
        }
        t.answered += 1;
        Some(CallOutcome::new(
            InterpreterResult::new(InstructionResult::Stop, Bytes::new(), Gas::new(i.gas_limit)),
            i.return_memory_offset.clone(),
        ))
    }
    fn call_end(&mut self, _: &mut Ctx<'a>, _: &CallInputs, o: &mut CallOutcome) {
        self.0.borrow_mut().close(&mut o.result);
    }
    fn create(&mut self, _: &mut Ctx<'a>, _: &mut CreateInputs) -> Option<CreateOutcome> {
        self.0.borrow_mut().open();
        None
    }
    fn create_end(&mut self, _: &mut Ctx<'a>, _: &CreateInputs, o: &mut CreateOutcome) {
        self.0.borrow_mut().close(&mut o.result);
    }
    fn selfdestruct(
        &mut self,
        _: mega_evm::alloy_primitives::Address,
        _: mega_evm::alloy_primitives::Address,
        _: mega_evm::alloy_primitives::U256,
    ) {
        self.0.borrow_mut().selfdestructs += 1;
    }
}

fn loaded(ctx: &Ctx<'_>, a: Address) -> bool {
    ctx.journal_ref().state.contains_key(&a)
}

/// An account already loaded that has no code and no meaning to the machine.
fn blank(ctx: &Ctx<'_>, a: Address) -> bool {
    let j = ctx.journal_ref();
    a != ORACLE_CONTRACT_ADDRESS &&
        a != KEYLESS_DEPLOY_ADDRESS &&
        !j.precompile_addresses().contains(&a) &&
        j.state.get(&a).is_some_and(|acc| acc.info.is_empty_code_hash())
}

impl Trace {
    fn open(&mut self) {
        self.depth += 1;
        self.frames += 1;
        self.max_depth = self.max_depth.max(self.depth);
    }
    fn close(&mut self, result: &mut InterpreterResult) {
        let r = result.result;
        if self.spends && r.is_error() {
            self.spent += (result.gas.remaining() > 0) as u64;
            result.gas.spend_all();
        }
        self.ends += 1;
        self.depth -= 1;
        self.underflow |= self.depth < 0;
        if self.depth == 0 {
            self.top = Some(r);
        }
    }
}

fn check(sc: &Scenario, st: &mut Stats) -> Verdict {
    let ids = Ids::new(sc);
    let ctxs = block_ctxs(sc, &ids);
    let mut plain = Node::new(sc, &ids);
    let mut traced = Node::new(sc, &ids);
    let mut shadow = plain.durable.clone();
    for (bi, b) in ctxs.iter().enumerate() {
        st.sim_seconds += sc.blocks[bi].dt;
        let spec = &sc.blocks[bi];
        let ar = arena(spec.txs.len());
        let opts = Opts::plain();
        let world = plain.world.clone();
        let run = plain
            .with_executor(b, |ex| sequence(ex, &ar, spec, &ids, &mut shadow, &world, &opts, st))?;
        note_done(st, b.rules, &run);
        plain.persist();
        if sc.knob(1) == bi as u64 {
            traced.crash();
            st.crashes += 1;
        }
        let rec = Recorder::default();
        let plane = traced.plane.clone();
        let rec2 = rec.clone();
        let toggles = sc.knob(0) >> (8 * bi as u64 % 32);
        let stand = sc.knob(2) >> (16 * bi as u64 % 48);
        traced.with_inspected(b, rec, |ex| {
            follow(ex, &rec2, &plane, spec, &ar, &run, b, toggles, stand, st)
        })?;
        traced.persist();
        st.checks += 1;
        if let Some(d) = traced.durable.diff(&plain.durable) {
            return fail("state-differs", format!("block {bi}: traced vs plain: {d}"));
        }
    }
    Ok(())
}

#[allow(clippy::too_many_arguments)]
fn follow<'a>(
    mut ex: Ex<'a, Recorder>,
    rec: &Recorder,
    plane: &Rc<RefCell<crate::world::Plane>>,
    spec: &BlockSpec,
    ar: &Arena,
    run: &BlockRun,
    b: &BlockCtx,
    toggles: u64,
    stand: u64,
    st: &mut Stats,
) -> Verdict {
    if let Err(e) = ex.apply_pre_execution_changes() {
        return fail("open", err_text(&e));
    }
    let mut n = 0u64;
    for ev in &spec.events {
        st.steps += 1;
        match ev {
            // An aborted traced run must leave neither the tracer nor the machine out of balance.
            Ev::FaultExec(i, p) if *i < spec.txs.len() && b.rules >= Rules::Rex1 => {
                let Some(tx) = ar[*i].get() else { continue };
                plane.borrow_mut().arm(*p);
                let got = ex.run_transaction(tx);
                let fired = plane.borrow_mut().disarm();
                st.plane(&mut plane.borrow_mut());
                *rec.0.borrow_mut() = Trace::default();
                if fired > 0 {
                    match got {
                        Ok(_) => return fail("absorbed-fault", format!("tx {i} {p:?}")),
                        Err(e) if !is_infra_error(&e) => {
                            return fail("misreported-fault", err_text(&e))
                        }
                        Err(_) => st.probe("fault under tracing"),
                    }
                }
            }
            Ev::Exec(i) if *i < spec.txs.len() => {
                let Some(tx) = ar[*i].get() else { continue };
                let on = toggles >> (n % 16) & 3 != 0;
                let stand_in = stand >> (n % 16) & 1 != 0;
                let spends = stand >> ((n + 5) % 16) & 1 != 0;
                n += 1;
                ex.evm_mut().set_inspector_enabled(on);
                *rec.0.borrow_mut() = Trace { stand_in, spends, ..Default::default() };
                let got = ex.run_transaction(tx);
                let want = run.done.iter().find(|d| d.idx == *i);
                st.checks += 1;
                match (got, want) {
                    (Ok(o), Some(d)) => {
                        let out = TxOut::new(&o.inner, o.tx_size, o.da_size);
                        if out != d.out {
                            return fail("outcome-differs", format!("tx {i} traced={on}: {out:?} vs plain {:?}", d.out));
                        }
                        if delta_of(&o.inner.state) != delta_of(&d.state) {
                            return fail("delta-differs", format!("tx {i} traced={on}"));
                        }
                        st.probe(if on { "traced" } else { "tracer off" });
                        if rec.0.borrow().spent > 0 {
                            st.probe("tracer spent a failed frame's gas");
                        }
                        if rec.0.borrow().answered > 0 {
                            st.probe("tracer answered a call");
                        }
                        consistent(&rec.0.borrow(), &out, on, *i, b, spec.txs[*i].to == Some(Who::Keyless))?;
                        if let Err(e) = ex.commit_transaction_outcome(o) {
                            return fail("commit", err_text(&e));
                        }
                    }
                    (Err(_), None) => {}
                    (Ok(_), None) => return fail("accepts", format!("tx {i} is accepted only with a tracer")),
                    (Err(e), Some(_)) => return fail("rejects", format!("tx {i} is rejected only with a tracer: {}", err_text(&e))),
                }
            }
            _ => {}
        }
    }
    st.checks += 1;
    match ex.finish() {
        Ok((_, f)) => {
            let rs: Vec<String> = f.receipts.iter().map(|r| format!("{r:?}")).collect();
            if rs != run.receipts || f.gas_used != run.gas_used {
                return fail("receipts-differ", format!("{rs:?} vs {:?}", run.receipts));
            }
            Ok(())
        }
        Err(e) => fail("finish", err_text(&e)),
    }
}

fn consistent(t: &Trace, out: &TxOut, on: bool, i: usize, b: &BlockCtx, keyless: bool) -> Verdict {
    if !on {
        if t.frames + t.steps + t.ends + t.logs > 0 {
            return fail("shown-while-off", format!("tx {i}: {} frames {} steps", t.frames, t.steps));
        }
        return Ok(());
    }
    if t.depth != 0 || t.underflow || t.frames != t.ends || t.steps != t.step_ends {
        return fail(
            "unbalanced",
            format!("tx {i} {:?}: frames {} ends {} steps {} step ends {}", b.rules, t.frames, t.ends, t.steps, t.step_ends),
        );
    }
    let Some(top) = t.top else {
        // Never reached the first frame (not enough gas for the storage part of the intrinsic cost,
        // or a failed deposit).
        if matches!(out.result, ExecutionResult::Halt { .. }) {
            return Ok(());
        }
        return fail("no-frame-shown", format!("tx {i}: {:?}", out.result));
    };
    let same = match &out.result {
        ExecutionResult::Success { .. } => top.is_ok(),
        ExecutionResult::Revert { .. } => top.is_revert(),
        ExecutionResult::Halt { .. } => !top.is_ok(),
    };
    // A limit first exceeded by the last thing the outermost frame does halts the transaction after
    // that frame has finished (known finding of C04).
    let late = top.is_ok() &&
        matches!(&out.result, ExecutionResult::Halt { reason, .. } if !matches!(reason, MegaHaltReason::Base(_)));
    if !same && !late {
        return fail("top-frame-differs", format!("tx {i}: shown {top:?}, outcome {:?}", out.result));
    }
    if !keyless && (out.result.logs().len() as u64) > t.logs {
        // A keyless deployment runs in a sandbox of its own, which the tracer does not see.
        return fail("logs-not-shown", format!("tx {i}: {} logs, {} shown", out.result.logs().len(), t.logs));
    }
    Ok(())
}
