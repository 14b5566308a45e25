//! The clock decides the rules: every block runs under the rule set (and the limits) scheduled for
//! its time, whatever the schedule, and no other rule set is accepted for it.

use std::{
    panic::{catch_unwind, AssertUnwindSafe},
    rc::Rc,
};

use mega_evm::{
    alloy_evm::block::BlockExecutor, alloy_hardforks::ForkCondition,
    revm::context::result::ExecutionResult, BlockLimits,
    MegaHardfork, MegaHardforkConfig, MegaHardforks,
};

use crate::{chain::*, exec::*, gen::*, ids::Ids, scenario::*, stats::*, world::*};

use super::*;

pub fn prop() -> Prop {
    Prop {
        id: "C19",
        gen,
        check,
        quick_runs: 10_000,
        level: "exploration",
        rule: "seeded hardfork schedule and block times with restarts at arbitrary points; a case counts when a (schedule shape, rule set, probe, outcome) combination is new",
        real: REAL,
        stub: STUB,
        assumptions: ASSUME,
    }
}

const PROBES: [&str; 11] = [
    "selfdestruct",
    "transfer",
    "keyless",
    "oracle-detention",
    "growth",
    "compute",
    "code-size",
    "system-address",
    "hint",
    "carry",
    "point-evaluation",
];

fn tx(to: Option<Who>, gas: u64) -> TxSpec {
    TxSpec {
        ty: TxType::Legacy,
        from: Who::Eoa(0),
        to,
        init: vec![],
        runtime: vec![],
        pad: 0,
        value: 0,
        gas,
        gas_price: 100,
        tip: 0,
        nonce_delta: 0,
        input: Input::Empty,
        access: vec![],
        auths: vec![],
    }
}

fn gen(seed: u64) -> Scenario {
    let mut g = Gen::new(seed);
    let mut sc = g.world("C19", seed, true);
    sc.salt.clear();
    sc.hint_sets.clear();
    sc.l1 = [0; 6];
    sc.keyless.clear();
    sc.eips = 0;
    // Any schedule: in order, bunched, with gaps, with activations that never come.
    if g.r.chance(3, 4) {
        let mut t = if g.r.chance(1, 2) { 0 } else { sc.genesis_time };
        for f in sc.forks.iter_mut() {
            t += *g.r.pick(&[0u64, 0, 1, 2, 5, 20]);
            *f = if g.r.chance(1, 6) { None } else { Some(t) };
        }
        if g.r.chance(1, 4) {
            // Not in order, as a mistaken configuration may be.
            let (i, j) = (g.r.idx(8), g.r.idx(8));
            sc.forks.swap(i, j);
        }
        if g.r.chance(1, 10) {
            sc.forks[g.r.idx(8)] = Some(u64::MAX);
        }
    }
    for _ in 0..g.r.range(3, 8) {
        let mut b = g.block(0);
        b.dt = *g.r.pick(&[0u64, 1, 1, 2, 3, 7, 30]);
        // Which probes to run on this block.
        b.randao = g.r.next() & g.r.next();
        sc.blocks.push(b);
    }
    sc.knobs = vec![g.r.below(256), g.r.below(7), g.r.next()];
    sc
}

/// The probes' world is fixed; only schedule, clock and restarts vary.
fn fixed(sc: &Scenario) -> Scenario {
    let mut sc = sc.clone();
    let con = |ops: Vec<Op>| ConSpec { ops, pad: 0, balance: 0, storage: vec![] };
    let oracle = Op::Call {
        kind: CallKind::Static,
        to: Who::Oracle,
        value: 0,
        gas: Some(100_000),
        input: Input::OracleGet(1),
    };
    sc.contracts = vec![
        con(vec![Op::SelfDestruct(Who::Eoa(1))]),
        // About two million compute gas after a look at the oracle.
        con(vec![oracle, Op::Mem(1_000_000)]),
        con(vec![Op::SStoreRange { start: 0, n: 1001 }]),
        // About 210 million compute gas.
        con(vec![Op::Mem(10_400_000)]),
        con(vec![Op::Env(0x42)]),
        // About 25 million compute gas.
        con(vec![Op::Mem(3_600_000)]),
    ];
    sc.eoas = vec![EoaSpec { balance: 1_000_000_000_000_000_000, nonce: 0, delegate: None }; 6];
    sc.sys_pre.push((Who::SysAddr, 1_000_000_000_000));
    sc.blocks.iter_mut().for_each(|b| {
        b.gas_limit = 100_000_000_000;
        b.coinbase = Who::Coinbase;
        b.basefee = 0;
    });
    sc
}

fn halted(o: &ExecRes, word: &str) -> bool {
    matches!(o, ExecutionResult::Halt { reason, .. } if format!("{reason:?}").contains(word))
}

fn expect_limits(fork: Option<usize>) -> [u64; 9] {
    const M: u64 = u64::MAX;
    // tx: data, kv, compute, growth, block-env detention, oracle detention; block: data, kv, growth
    const MB: u64 = 1024 * 1024;
    let data = 12 * MB + MB / 2;
    match fork {
        None | Some(1) => [M; 9],
        Some(0) | Some(2) => {
            [data / 4, 125_000, 1_000_000_000, M, 20_000_000, 1_000_000, data, 500_000, M]
        }
        Some(3..=5) => {
            [data, 500_000, 200_000_000, 1000, 20_000_000, 1_000_000, data, 500_000, 1000]
        }
        Some(_) => [data, 500_000, 200_000_000, 1000, 20_000_000, 20_000_000, data, 500_000, 1000],
    }
}

/// The same schedule, reached by revising other ones.
fn revised(forks: &[Option<u64>; 8], bits: u64) -> MegaHardforkConfig {
    let mut c = MegaHardforkConfig::default();
    if bits & 1 == 1 {
        c = c.with_all_activated();
    }
    for k in 0..8 {
        let i = (k * (1 + 2 * (bits as usize >> 1 & 3)) + (bits as usize >> 3)) % 8;
        if bits >> (8 + i) & 1 == 1 {
            c = c.with(FORKS[i], ForkCondition::Timestamp(forks[i].unwrap_or(7) / 2));
        }
        c = match forks[i] {
            Some(t) => c.with(FORKS[i], ForkCondition::Timestamp(t)),
            None => c.without(FORKS[i]),
        };
    }
    c
}

fn check(sc: &Scenario, st: &mut Stats) -> Verdict {
    let sc = &fixed(sc);
    let ids = Ids::new(sc);
    let mut ctxs = block_ctxs(sc, &ids);
    let hf = revised(&sc.forks, sc.knob(2));
    let mut node = Node::new(sc, &ids);
    let mut parent_time = sc.genesis_time;
    for (bi, b) in ctxs.iter_mut().enumerate() {
        st.sim_seconds += sc.blocks[bi].dt;
        st.blocks += 1;
        let active: Vec<bool> = sc.forks.iter().map(|f| f.is_some_and(|t| b.time >= t)).collect();
        let last = (0..8).rev().find(|i| active[*i]);
        // The schedule's answers.
        st.checks += 1;
        if hf.spec_id(b.time) != b.rules.spec() {
            return fail("scheduled-rules", format!("time {}: {:?}, expected {:?} for {:?}", b.time, hf.spec_id(b.time), b.rules, sc.forks));
        }
        if hf.hardfork(b.time) != last.map(|i| FORKS[i]) {
            return fail("scheduled-fork", format!("time {}: {:?} for {:?}", b.time, hf.hardfork(b.time), sc.forks));
        }
        for (i, f) in FORKS.iter().enumerate() {
            let first = active[i]
                && (b.number == 1 || !sc.forks[i].is_some_and(|t| parent_time >= t));
            if hf.first_hardfork_block(*f, parent_time, (b.number, b.time)) != first {
                return fail("first-block", format!("{f:?} at {} after {parent_time}, block {}: {:?}", b.time, b.number, sc.forks));
            }
        }
        // The limits that come with the fork.
        if let Some(f) = hf.hardfork(b.time) {
            b.limits = BlockLimits::from_hardfork_and_block_gas_limit(f, b.env.gas_limit);
            let l = &b.limits;
            let got = [
                l.tx_data_limit,
                l.tx_kv_update_limit,
                l.tx_compute_gas_limit,
                l.tx_state_growth_limit,
                l.block_env_access_compute_gas_limit,
                l.oracle_access_compute_gas_limit,
                l.block_txs_data_limit,
                l.block_kv_update_limit,
                l.block_state_growth_limit,
            ];
            st.checks += 1;
            if got != expect_limits(last) || l.block_gas_limit != b.env.gas_limit {
                return fail("scheduled-limits", format!("{f:?}: {got:?}, expected {:?}", expect_limits(last)));
            }
        } else {
            b.limits = block_limits(&no_limits(), b.env.gas_limit);
        }
        let b = &*b;
        parent_time = b.time;
        // No other rule set is accepted for this block.
        let wrong = [
            Rules::Equivalence,
            Rules::MiniRex,
            Rules::Rex,
            Rules::Rex1,
            Rules::Rex2,
            Rules::Rex3,
            Rules::Rex4,
        ][(sc.knob(1) as usize + bi) % 7];
        let mut other = b.clone();
        other.rules = wrong;
        let accepted = {
            let mut n = Node::new(sc, &ids);
            catch_unwind(AssertUnwindSafe(|| n.with_executor(&other, |_| ()))).is_ok()
        };
        st.checks += 1;
        if accepted != (wrong == b.rules) {
            return fail("foreign-rules", format!("time {}: {wrong:?} accepted={accepted}, scheduled {:?}", b.time, b.rules));
        }
        // What the rules do.
        for (k, name) in PROBES.iter().enumerate() {
            if sc.blocks[bi].randao >> (5 * k) & 1 == 0 {
                continue;
            }
            st.checks += 1;
            st.steps += 1;
            probe(sc, &ids, b, &node.durable, name, st)?;
            st.distinct(&format!("{:?}|{last:?}|{name}|{}", b.rules, sc.forks.iter().flatten().count()));
        }
        node.with_executor(b, |mut ex| {
            ex.apply_pre_execution_changes().map(|_| ()).or_else(|e| fail("open", err_text(&e)))?;
            ex.finish().map(|_| ()).or_else(|e| fail("finish", err_text(&e)))
        })?;
        node.persist();
        st.see(&format!("{:?} {:x}", b.rules, node.durable.digest()));
        if sc.knob(0) >> bi & 1 == 1 {
            node.crash();
            st.crashes += 1;
        }
    }
    Ok(())
}

fn probe(sc: &Scenario, ids: &Ids, b: &BlockCtx, l: &Ledger, name: &str, st: &mut Stats) -> Verdict {
    let mut node = Node::new(sc, ids);
    node.durable = l.clone();
    let world = Rc::clone(&node.world);
    let r = b.rules;
    let mini = r >= Rules::MiniRex;
    let rex = r >= Rules::Rex;
    let mut txs = vec![match name {
        "selfdestruct" => tx(Some(Who::Con(0)), 10_000_000),
        "transfer" => TxSpec { value: 1, ..tx(Some(Who::Eoa(1)), 100_000) },
        "keyless" => TxSpec {
            input: Input::KeylessRaw { bytes: vec![1, 2, 3], gas_override: 1_000_000 },
            ..tx(Some(Who::Keyless), 10_000_000)
        },
        "oracle-detention" => tx(Some(Who::Con(1)), 50_000_000),
        "growth" => tx(Some(Who::Con(2)), 9_000_000_000),
        "compute" => tx(Some(Who::Con(3)), 400_000_000),
        "code-size" => TxSpec { pad: 30_000, ..tx(None, 9_000_000_000) },
        "system-address" => {
            TxSpec { ty: TxType::System, ..tx(Some(Who::Con(4)), 1_000_000) }
        }
        "hint" => TxSpec {
            input: Input::OracleHint { topic: 77, len: 5 },
            ..tx(Some(Who::Oracle), 10_000_000)
        },
        "carry" => tx(Some(Who::Con(4)), 1_000_000),
        _ => {
            let Op::Call { input, .. } = (Op::Call {
                kind: CallKind::Static,
                to: Who::Pre(10),
                value: 0,
                gas: None,
                input: Input::Empty,
            })
            .kzg(0) else {
                unreachable!()
            };
            TxSpec { input, ..tx(Some(Who::Pre(10)), 10_000_000) }
        }
    }];
    if name == "carry" {
        txs.push(tx(Some(Who::Con(5)), 100_000_000));
    }
    let built: Vec<Tx> = txs.iter().map(|t| build_tx(ids, t, &|a| l.nonce(&a), 0)).collect();
    st.txs += built.len() as u64;
    let got = node.with_executor(b, |mut ex| {
        ex.apply_pre_execution_changes().map_err(|e| err_text(&e))?;
        let mut out = Err("no transaction".to_string());
        for t in &built {
            out = ex.run_transaction(t).map(|o| (o.inner.result, o.inner.compute_gas_used)).map_err(|e| err_text(&e));
        }
        out
    });
    st.see(&format!("{got:?}"));
    let bad = |want: &str| -> Verdict {
        fail(if got.is_err() { "not-executed" } else { "feature" }, format!("{name} under {r:?} (time {}, schedule {:?}): {got:?}, expected {want}", b.time, sc.forks))
    };
    if name == "system-address" {
        return match &got {
            Err(e) if mini && e.contains("whitelist") => Ok(()),
            Ok((o, _)) if !mini && o.is_success() => Ok(()),
            _ => bad(if mini { "refusal" } else { "success" }),
        };
    }
    let Ok((o, compute)) = &got else { return bad("execution") };
    let (ok, want) = match name {
        "selfdestruct" if mini && r < Rules::Rex2 => (o.is_halt(), "halt"),
        "selfdestruct" => (o.is_success(), "success"),
        "transfer" if rex => (o.is_success() && o.gas_used() == 60_000, "60000 gas"),
        "transfer" => (o.is_success() && o.gas_used() == 21_000, "21000 gas"),
        "keyless" if r >= Rules::Rex3 => (
            matches!(o, ExecutionResult::Revert { .. }) && *compute >= 121_000,
            "revert, overhead counted as computation",
        ),
        "keyless" if r >= Rules::Rex2 => (
            matches!(o, ExecutionResult::Revert { .. }) && *compute < 100_000 && o.gas_used() > 160_000,
            "revert, overhead charged",
        ),
        "keyless" if sc.forks[5].is_some_and(|t| b.time >= t) => return Ok(()),
        "keyless" => (o.is_success() && o.gas_used() < 120_000, "call of an empty account"),
        "oracle-detention" if mini && r < Rules::Rex3 => (halted(o, "VolatileData"), "detention"),
        "oracle-detention" => (o.is_success(), "success"),
        "growth" if rex => (halted(o, "StateGrowth"), "growth limit"),
        "growth" => (o.is_success(), "success"),
        "compute" if rex => (halted(o, "ComputeGas"), "compute limit"),
        "compute" => (o.is_success(), "success"),
        "code-size" if mini => (o.is_success(), "success"),
        "code-size" => (o.is_halt(), "code size limit"),
        "hint" => {
            let n = world.borrow().log.iter().filter(|e| matches!(e, EnvEvent::Hint(..))).count();
            (n == (r >= Rules::Rex2) as usize, "hints from Rex2 on")
        }
        "carry" if mini && r < Rules::Rex1 => (o.is_halt(), "detention carried over"),
        "carry" => (o.is_success(), "success"),
        _ => {
            let input = ids.input(&txs[0].input);
            let z = input.iter().filter(|x| **x == 0).count() as u64;
            let t = z + 4 * (input.len() as u64 - z);
            let mut gas = 21_000 + 4 * t + if mini { 100_000 + 40 * t } else { 50_000 };
            let mut floor = 21_000 + 10 * t;
            if mini {
                floor += 100 * t;
            }
            if rex {
                gas += 39_000;
            }
            (o.is_success() && o.gas_used() == gas.max(floor), "documented price")
        }
    };
    if ok {
        Ok(())
    } else {
        bad(want)
    }
}

#[allow(unused)]
fn _f(_: MegaHardfork) {}
