//! Under every rule set a contract does what it does on the OP Stack: apart from prices, limits,
//! the protocol's own contracts and self-destruction before Rex2, effects and results are those of
//! the upstream EVM on the same state.

use std::{cell::RefCell, collections::BTreeSet, rc::Rc};

use mega_evm::{
    alloy_evm::{Evm, EvmFactory, IntoTxEnv},
    alloy_op_evm::OpEvmFactory,
    alloy_primitives::Address,
    op_revm::OpHaltReason,
    revm::{
        context::result::ExecutionResult,
        database::State,
        interpreter::{
            interpreter::EthInterpreter, interpreter_types::{Jumps, LegacyBytecode}, CallInputs, CallOutcome, CreateInputs,
            CreateOutcome, InstructionResult, Interpreter,
        },
        Inspector,
    },
    MegaHaltReason,
};

use crate::{chain::*, exec::*, gen::*, ids::Ids, scenario::*, stats::*, world::*};

use super::{c14::op_env, c17::ran_on_base, *};

pub fn prop() -> Prop {
    Prop {
        id: "C21",
        gen,
        check,
        quick_runs: 20_000,
        level: "exploration",
        rule: "seeded chain under every rule set with ample gas and limits, with speculative, discarded, repeated, refused and aborted attempts; every committed transaction re-executed by the upstream EVM on the state it met; a case counts when a compared transaction has a new (rules, outcome, gas, usage, logs) signature",
        real: REAL,
        stub: STUB,
        assumptions: ASSUME,
    }
}

fn gen(seed: u64) -> Scenario {
    let mut g = Gen::new(seed);
    g.sw.min_rules = Rules::MiniRex;
    g.sw.system = 0;
    g.sw.keyless = 0;
    g.sw.op[o::KEYLESS] = 0;
    g.sw.op[o::IFGAS] = 0;
    g.sw.bad_nonce = 1;
    if g.r.chance(1, 2) {
        g.sw.op[o::SOUP] = g.sw.op[o::SOUP].max(4);
    }
    let crossing = g.r.chance(1, 4);
    let mut sc = g.world("C21", seed, crossing);
    sc.oracle.clear();
    sc.hint_sets.clear();
    if g.r.chance(1, 4) && !sc.contracts.is_empty() {
        let op = g.short_stack();
        let i = g.r.below(sc.contracts.len() as u64) as usize;
        let at = g.r.below(sc.contracts[i].ops.len() as u64 + 1) as usize;
        sc.contracts[i].ops.insert(at, op);
    }
    // Charges that depend on the gas used would make balances differ.
    sc.l1[4] = 0;
    sc.l1[5] = 0;
    for _ in 0..g.r.range(1, 2) {
        let ntx = g.r.range(2, 6) as usize;
        let mut b = g.block(ntx);
        b.basefee = 0;
        b.gas_limit = 1 << 50;
        b.limits = no_limits();
        b.limits.env_compute = u64::MAX;
        b.limits.oracle_compute = u64::MAX;
        for t in &mut b.txs {
            t.gas_price = 0;
            t.tip = 0;
            if g.r.chance(5, 6) {
                t.gas = 200_000_000;
            }
        }
        b.events = g.events(ntx, true, false, true);
        b.events.retain(|e| !matches!(e, Ev::OracleSet(..)));
        sc.blocks.push(b);
    }
    sc
}

/// Notes whatever makes a transaction depend on prices or limits.
#[derive(Clone, Default)]
pub struct Probe {
    pub odd: Rc<RefCell<BTreeSet<&'static str>>>,
    pub selfdestruct: bool,
    pub reference: bool,
}

impl Probe {
    fn note(&self, what: &'static str) {
        self.odd.borrow_mut().insert(what);
    }
    fn before_call(&self, i: &Interpreter<EthInterpreter>) -> bool {
        let pc = i.bytecode.pc() + 1;
        matches!(i.bytecode.bytecode_slice().get(pc), Some(0xf1 | 0xf2 | 0xf4 | 0xfa))
    }
    fn result(&self, r: InstructionResult, to: Option<Address>) {
        use InstructionResult as R;
        match r {
            R::OutOfGas | R::MemoryOOG | R::MemoryLimitOOG | R::PrecompileOOG | R::InvalidOperandOOG | R::ReentrancySentryOOG => {
                self.note("out of gas")
            }
            // Sizes the reference does not allow; whatever it allows has to be allowed.
            R::CreateContractSizeLimit | R::CreateInitCodeSizeLimit if self.reference => {
                self.note("size limit")
            }
            R::PrecompileError if to == Some(Address::with_last_byte(5)) => self.note("modexp"),
            _ => {}
        }
    }
}

impl<C> Inspector<C, EthInterpreter> for Probe {
    fn step(&mut self, i: &mut Interpreter<EthInterpreter>, _: &mut C) {
        match i.bytecode.opcode() {
            // Reading the gas left only to pass all of it on reveals nothing.
            0x5a if !self.before_call(i) => self.note("gas read"),
            0xff if self.selfdestruct => self.note("selfdestruct"),
            _ => {}
        }
    }
    fn call_end(&mut self, _: &mut C, c: &CallInputs, o: &mut CallOutcome) {
        self.result(o.result.result, Some(c.bytecode_address));
    }
    fn create_end(&mut self, _: &mut C, _: &CreateInputs, o: &mut CreateOutcome) {
        self.result(o.result.result, None);
    }
}

/// Outcome without gas.
fn shape<H: std::fmt::Debug>(r: &ExecutionResult<H>, halt: impl Fn(&H) -> String) -> String {
    match r {
        ExecutionResult::Success { reason, logs, output, .. } => format!("ok {reason:?} {output:?} {logs:?}"),
        ExecutionResult::Revert { output, .. } => format!("revert {output}"),
        ExecutionResult::Halt { reason, .. } => format!("halt {}", halt(reason)),
    }
}

fn check(sc: &Scenario, st: &mut Stats) -> Verdict {
    let ids = Ids::new(sc);
    let ctxs = block_ctxs(sc, &ids);
    let mut node = Node::new(sc, &ids);
    let mut shadow = node.durable.clone();
    for (bi, b) in ctxs.iter().enumerate() {
        st.sim_seconds += sc.blocks[bi].dt;
        let spec = &sc.blocks[bi];
        let ar = arena(spec.txs.len());
        let opts = Opts { keep_before: true, speculate: true, plane: Some(node.plane.clone()) };
        let world = node.world.clone();
        let run = node
            .with_executor(b, |ex| sequence(ex, &ar, spec, &ids, &mut shadow, &world, &opts, st))?;
        for (_, e) in &run.rejected {
            st.see(e);
        }
        node.persist();
        for d in &run.done {
            st.see(&format!("{:?}", d.out));
            if !ran_on_base(spec, d.idx) {
                continue;
            }
            let before = d.before.clone().expect("kept");
            // Is the transaction free of anything that prices or limits decide?
            let probe = Probe { selfdestruct: b.rules < Rules::Rex2, ..Default::default() };
            let mut fresh = Node::new(sc, &ids);
            fresh.durable = before.clone();
            let r = fresh.with_inspected(b, probe.clone(), |mut ex| {
                ex.evm.enable_inspector();
                ex.run_transaction(&d.tx).map(|_| ())
            });
            if let Err(e) = r {
                return fail("not-repeatable", format!("block {bi} tx {}: {}", d.idx, err_text(&e)));
            }
            let mut db = State::builder()
                .with_database(LedgerDb::new(Rc::new(before), Default::default(), false, sc.seed))
                .build();
            let tx = (&d.tx).into_tx_env();
            let got = OpEvmFactory::default()
                .create_evm_with_inspector(&mut db, op_env(b), Probe { reference: true, ..probe.clone() })
                .transact_raw(tx);
            if let Some(why) = probe.odd.borrow().iter().next() {
                st.probe(&format!("not comparable: {why}"));
                continue;
            }
            st.checks += 2;
            st.probe(&format!("compared {:?}", b.rules));
            st.distinct(&signature(b.rules, d));
            let want = match got {
                Ok(r) => r,
                Err(e) if format!("{e:?}").contains("CreateInitCodeSizeLimit") => {
                    st.probe("not comparable: size limit");
                    continue;
                }
                Err(e) => return fail("accepted", format!("block {bi} tx {}: the reference refuses it: {e:?}", d.idx)),
            };
            let x = shape(&d.out.result, |h| match h {
                MegaHaltReason::Base(h) => format!("{h:?}"),
                h => format!("{h:?}"),
            });
            let y = shape(&want.result, |h: &OpHaltReason| format!("{h:?}"));
            use mega_evm::alloy_consensus::Transaction;
            if x == "halt FailedDeposit" && d.tx.inner().gas_limit() < 50_000_000 {
                // Its gas may not cover the higher intrinsic price.
                st.probe("not comparable: short deposit");
                continue;
            }
            if x.contains("OutOfGas") || y.contains("OutOfGas") {
                st.probe("not comparable: out of gas");
                continue;
            }
            if x != y {
                return fail("result", format!("block {bi} tx {} ({:?}): {x}, reference {y}", d.idx, b.rules));
            }
            let (x, y) = (delta_of(&d.state), delta_of(&want.state));
            if x != y {
                let a = x
                    .iter()
                    .find(|(k, v)| y.get(*k) != Some(v))
                    .map(|x| *x.0)
                    .or_else(|| y.keys().find(|k| !x.contains_key(*k)).copied());
                return fail(
                    "changes",
                    format!(
                        "block {bi} tx {} ({:?}): {a:?}: {:?}, reference {:?}",
                        d.idx,
                        b.rules,
                        a.and_then(|a| x.get(&a)),
                        a.and_then(|a| y.get(&a))
                    ),
                );
            }
        }
    }
    Ok(())
}
