//! Lifecycle of the protocol's own contracts and block-opening steps: present with the scheduled
//! code from activation on, installed once, upgraded in place, unaffected by aborted openings,
//! crashes, rollbacks of the rule set and anything transactions do.

use mega_evm::{
    alloy_eips::{eip2935, eip4788},
    alloy_primitives::{b256, keccak256, Address, B256, U256},
};

use crate::{
    chain::*,
    exec::*,
    gen::*,
    ids::{Ids, KEYLESS_DEPLOY_ADDRESS, ORACLE_CONTRACT_ADDRESS, TIME_ORACLE},
    scenario::*,
    stats::*,
    world::*,
};

use super::*;

pub fn prop() -> Prop {
    Prop {
        id: "C12",
        gen,
        check,
        quick_runs: 40_000,
        level: "exploration",
        rule: "seeded chain crossing hardfork activations with storage faults while blocks are opened, abandoned openings, crashes and hostile transactions; a case counts when a committed transaction has a new (rules, outcome, gas, usage, logs) signature",
        real: REAL,
        stub: STUB,
        assumptions: ASSUME,
    }
}

// Identity of the released contract versions.
const ORACLE_V1: B256 = b256!("e9b044afb735a0f569faeb248088b4f267578f60722f87d06ec3867b250a2c34");
const ORACLE_V11: B256 = b256!("06df675a69e53ea2a3c948521e330b3801740fede324a1cef2044418f8e09242");
const TIME_V1: B256 = b256!("1b2df8ca5350cd7106d67ed95532584526f97a5ca267c8eef73a1831f53720f2");
const KEYLESS_V1: B256 = b256!("55020d41649acf7a84add6e628b887f802218d9ac86f142ef0994da43ea5eeb6");

const K5: &str = "known finding: block-opening record lost in a grown bucket";

fn gen(seed: u64) -> Scenario {
    let mut g = Gen::new(seed);
    g.sw.system = 2;
    let mut sc = g.world("C12", seed, true);
    if g.r.chance(1, 4) {
        sc.forks = g.forks(false, sc.genesis_time);
    }
    // Accounts of the protocol may hold funds before their code arrives.
    for w in [Who::Oracle, Who::TimeOracle, Who::Keyless] {
        if g.r.chance(1, 4) {
            sc.sys_pre.push((w, g.r.range(1, 1000)));
        }
    }
    let nb = g.r.range(2, 6) as usize;
    for _ in 0..nb {
        let ntx = g.r.range(0, 3) as usize;
        let mut b = g.block(ntx);
        b.limits.env_compute = NO_LIMIT;
        b.limits.oracle_compute = NO_LIMIT;
        for t in b.txs.iter_mut() {
            // Traffic aimed at the protocol's own accounts.
            if t.to.is_some() && t.ty != TxType::System && g.r.chance(1, 4) {
                t.to = Some(*g.r.pick(&[Who::Oracle, Who::TimeOracle, Who::Keyless]));
                t.value = g.r.below(3);
            }
            // Write to the oracle now and then, so that it has something to lose.
            if t.ty == TxType::System && g.r.chance(1, 2) {
                t.to = Some(Who::Oracle);
                t.input = Input::OracleSet(g.r.below(4), g.r.below(5));
                t.value = 0;
                t.gas = 100_000_000;
            }
        }
        if g.r.chance(1, 2) {
            b.pre_fault = Some(FaultPlan { at: g.r.below(12), len: *g.r.pick(&[1, 1, 3, u64::MAX]), kind: None });
        }
        sc.blocks.push(b);
    }
    sc.knobs = (0..3).map(|_| g.r.below(64)).collect();
    sc
}

/// What opening a block has to do to the ledger, from the documentation.
fn expected(
    sc: &Scenario,
    b: &BlockCtx,
    l: &Ledger,
    w: &EnvWorld,
    codes: &mut Vec<(Address, B256)>,
    lost: &mut Vec<(Address, U256, U256)>,
    st: &mut Stats,
) -> Ledger {
    let mut e = l.clone();
    let active = |i: usize| sc.forks[i].is_some_and(|t| b.time >= t);
    codes.clear();
    lost.clear();
    if active(0) {
        codes.push((ORACLE_CONTRACT_ADDRESS, if active(5) { ORACLE_V11 } else { ORACLE_V1 }));
        codes.push((TIME_ORACLE, TIME_V1));
    }
    if active(5) {
        codes.push((KEYLESS_DEPLOY_ADDRESS, KEYLESS_V1));
    }
    let parent = sim_block_hash(sc.seed, b.number - 1);
    let root = sim_block_hash(sc.seed ^ 0xbeac, b.number);
    let k = b.time % 8191;
    let steps: [(u8, Address, Vec<(u64, U256)>); 2] = [
        (1, eip2935::HISTORY_STORAGE_ADDRESS, vec![((b.number - 1) % 8191, parent.into())]),
        (
            2,
            eip4788::BEACON_ROOTS_ADDRESS,
            vec![(k, U256::from(b.time)), (k + 8191, root.into())],
        ),
    ];
    for (bit, a, writes) in steps {
        if sc.eips & bit == 0 {
            continue;
        }
        // Under MiniRex a grown bucket makes the write dearer than a system step may spend.
        let price: u64 = writes
            .iter()
            .filter(|(k, _)| l.slot(&a, &U256::from(*k)).is_zero())
            .map(|(k, _)| w.capacity(b.number, slot_bucket(a, U256::from(*k))) / 256 * 2_000_000)
            .sum();
        if b.rules == Rules::MiniRex && price >= 30_000_000 {
            st.probe(K5);
            lost.extend(writes.into_iter().map(|(k, v)| (a, U256::from(k), v)));
            continue;
        }
        for (k, v) in writes {
            e.set_slot(a, U256::from(k), v);
        }
    }
    e
}

/// The ledger agrees with the expectation everywhere, and the protocol's contracts carry the
/// expected code.
fn opened(
    what: &str,
    want: &Ledger,
    codes: &[(Address, B256)],
    lost: &[(Address, U256, U256)],
    got: &Ledger,
) -> Verdict {
    let mut want = want.clone();
    for (a, k, v) in lost {
        if got.slot(a, k) == *v {
            want.set_slot(*a, *k, *v);
        }
    }
    for (a, h) in codes {
        let code = got.get(a).code;
        if keccak256(&code) != *h {
            return fail("system-code", format!("{what}: {a} carries code {}", keccak256(&code)));
        }
        want.accts.entry(*a).or_default().code = code;
    }
    if let Some(d) = got.diff(&want) {
        return fail("opening-state", format!("{what}: {d} (got vs expected)"));
    }
    Ok(())
}

fn check(sc: &Scenario, st: &mut Stats) -> Verdict {
    let ids = Ids::new(sc);
    let ctxs = block_ctxs(sc, &ids);
    let mut node = Node::new(sc, &ids);
    let mut shadow = node.durable.clone();
    let (mut codes, mut lost) = (vec![], vec![]);
    let mut installed: Vec<(Address, B256)> = vec![];
    for (bi, b) in ctxs.iter().enumerate() {
        st.sim_seconds += sc.blocks[bi].dt;
        let spec = &sc.blocks[bi];
        let want = expected(sc, b, &shadow, &node.world.borrow(), &mut codes, &mut lost, st);
        // A first attempt at opening the block meets failing storage, or is abandoned.
        if let Some(p) = &spec.pre_fault {
            let plane = node.plane.clone();
            plane.borrow_mut().arm(*p);
            let r = node.with_executor(b, |mut ex| ex.pre_execution_changes().map(|v| {
                v.into_iter().map(|o| o.state).collect::<Vec<_>>()
            }));
            let fired = plane.borrow_mut().disarm();
            st.plane(&mut plane.borrow_mut());
            st.checks += 1;
            match r {
                Ok(_) if fired > 0 => {
                    return fail("absorbed-fault", format!("block {bi} opened although storage failed, {p:?}"))
                }
                Ok(outs) => {
                    let mut l = shadow.clone();
                    outs.iter().for_each(|o| l.apply(o));
                    opened(&format!("block {bi}, abandoned opening"), &want, &codes, &lost, &l)?;
                    st.probe("abandoned opening");
                }
                Err(_) if fired > 0 => st.probe("opening aborted by a fault"),
                Err(e) => return fail("pre-execution", err_text(&e)),
            }
            if sc.knob(0) >> bi & 1 == 1 {
                node.crash();
                st.crashes += 1;
            }
        }
        // Which of the protocol's accounts the node's opening changes.
        let before = shadow.clone();
        let ar = arena(spec.txs.len());
        let opts = Opts::before();
        let world = node.world.clone();
        let run = node
            .with_executor(b, |ex| sequence(ex, &ar, spec, &ids, &mut shadow, &world, &opts, st))?;
        note_done(st, b.rules, &run);
        let mut l = before.clone();
        run.pre.iter().for_each(|o| l.apply(o));
        st.checks += 2;
        opened(&format!("block {bi} ({:?})", b.rules), &want, &codes, &lost, &l)?;
        for (a, h) in &codes {
            let old = installed.iter().find(|x| x.0 == *a).map(|x| x.1);
            let touched = run.pre.iter().any(|s| s.get(a).is_some_and(|x| x.is_touched()));
            // Every opening reports the account as read, and writes it exactly when it changes.
            if !run.pre.iter().any(|s| s.contains_key(a)) {
                return fail("not-reported", format!("block {bi}: {a} is not reported as read"));
            }
            if touched != (keccak256(&before.get(a).code) != *h) {
                return fail("rewritten", format!("block {bi}: {a} written={touched}, had {old:?}"));
            }
            st.probe(match (old, touched) {
                (None, _) => "system contract installed",
                (_, true) => "system contract upgraded",
                _ => "system contract kept",
            });
        }
        installed = codes.clone();
        // No transaction changes the protocol's code.
        for d in &run.done {
            let mut l = d.before.clone().expect("kept");
            l.apply(&d.state);
            st.checks += 1;
            for (a, h) in &codes {
                if keccak256(&l.get(a).code) != *h || l.get(a).nonce != want.nonce(a) {
                    return fail("code-changed", format!("block {bi} tx {} changes {a}", d.idx));
                }
                if *a != ORACLE_CONTRACT_ADDRESS && l.get(a).storage != want.get(a).storage {
                    return fail("storage-changed", format!("block {bi} tx {} changes {a}", d.idx));
                }
            }
        }
        node.persist();
        st.checks += 1;
        if let Some(d) = node.durable.diff(&shadow) {
            return fail("persisted-state", format!("block {bi}: {d}"));
        }
        if sc.knob(1) >> bi & 1 == 1 {
            node.crash();
            st.crashes += 1;
        }
    }
    Ok(())
}
