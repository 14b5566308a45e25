//! Merged state deltas: folding the outcomes of a run of transactions into one delta, in any
//! grouping, is the same as committing them one by one.

use mega_evm::{
    merge_evm_state,
    revm::{state::EvmState, DatabaseCommit},
};

use crate::{chain::*, exec::*, gen::*, ids::Ids, scenario::*, stats::*, world::Ledger};

use super::*;

pub fn prop() -> Prop {
    Prop {
        id: "C20",
        gen,
        check,
        quick_runs: 30_000,
        level: "exploration",
        rule: "seeded scenario; outcomes of consecutive transactions and blocks folded with seeded groupings; a case counts when a folded account went through a new sequence of status changes",
        real: REAL,
        stub: STUB,
        assumptions: ASSUME,
    }
}

fn gen(seed: u64) -> Scenario {
    let mut g = Gen::new(seed);
    if g.r.chance(2, 3) {
        g.sw.selfdestruct = true;
        g.sw.creates = g.sw.creates.max(2);
        g.sw.op[o::CREATE] = g.sw.op[o::CREATE].max(2);
        g.sw.op[o::SELFDESTRUCT] = 2;
    }
    let crossing = g.r.chance(1, 3);
    let mut sc = g.world("C20", seed, crossing);
    sc.hint_sets.clear();
    for _ in 0..g.r.range(1, 3) {
        let ntx = g.r.range(2, 6) as usize;
        let mut b = g.block(ntx);
        if g.r.chance(1, 2) {
            b.events = g.events(ntx, false, false, true);
        }
        sc.blocks.push(b);
    }
    sc.knobs = vec![g.r.next(), g.r.next()];
    sc
}

const K6: &str = "known finding: account destroyed on top of a balance";

/// Folds `xs` in the grouping selected by `bits`.
fn fold(xs: &[EvmState], bits: u64) -> EvmState {
    match xs.len() {
        0 => EvmState::default(),
        1 => {
            let mut s = EvmState::default();
            merge_evm_state(&mut s, &xs[0]);
            s
        }
        n => {
            let cut = 1 + (bits % (n as u64 - 1)) as usize;
            let mut l = fold(&xs[..cut], crate::rng::mix(bits));
            let r = fold(&xs[cut..], crate::rng::mix(bits ^ 1));
            merge_evm_state(&mut l, &r);
            l
        }
    }
}

fn check(sc: &Scenario, st: &mut Stats) -> Verdict {
    let ids = Ids::new(sc);
    let ctxs = block_ctxs(sc, &ids);
    let mut node = Node::new(sc, &ids);
    let start = node.durable.clone();
    let mut shadow = start.clone();
    let mut all: Vec<EvmState> = vec![];
    for (bi, b) in ctxs.iter().enumerate() {
        st.sim_seconds += sc.blocks[bi].dt;
        let spec = &sc.blocks[bi];
        let ar = arena(spec.txs.len());
        let opts = Opts { keep_before: false, speculate: b.rules >= Rules::Rex1, plane: None };
        let world = node.world.clone();
        let before = shadow.clone();
        let run = node
            .with_executor(b, |ex| sequence(ex, &ar, spec, &ids, &mut shadow, &world, &opts, st))?;
        note_done(st, b.rules, &run);
        node.persist();
        let xs: Vec<EvmState> =
            run.pre.iter().cloned().chain(run.done.iter().map(|d| d.state.clone())).collect();
        same(&xs, sc.knob(0), &before, &shadow, sc, &ids, st, &format!("block {bi}"))?;
        all.extend(xs);
    }
    same(&all, sc.knob(1), &start, &shadow, sc, &ids, st, "whole history")
}

#[allow(clippy::too_many_arguments)]
fn same(
    xs: &[EvmState],
    bits: u64,
    before: &Ledger,
    after: &Ledger,
    sc: &Scenario,
    ids: &Ids,
    st: &mut Stats,
    what: &str,
) -> Verdict {
    let merged = fold(xs, bits);
    for (a, _) in &merged {
        let seq: String = xs
            .iter()
            .filter_map(|x| x.get(a))
            .map(|x| {
                format!(
                    "{}{}{}",
                    if x.is_created() { "C" } else { "" },
                    if x.is_selfdestructed() { "D" } else { "" },
                    if x.is_touched() { "t" } else { "r" }
                )
            })
            .collect::<Vec<_>>()
            .join(".");
        if seq.contains('D') && seq.rfind('C') > seq.find('D') {
            st.probe("recreated after destruction");
        }
        if seq.len() > 2 {
            st.distinct(&seq);
        }
    }
    st.checks += 1;
    // Every account and slot any of the outcomes mentions stays visible in the merged delta.
    for x in xs {
        for a in x.keys() {
            if !merged.contains_key(a) {
                return fail("access-lost", format!("{what}: {a}"));
            }
        }
    }
    let mut l = before.clone();
    l.apply(&merged);
    if let Some(d) = l.diff(after) {
        return fail("merged-differs", format!("{what}: merged delta vs one by one: {d}"));
    }
    // The same through the node's state cache and persistence.
    let mut n = Node::new(sc, ids);
    n.durable = before.clone();
    let b = &block_ctxs(sc, ids)[0];
    n.with_executor(b, |_| ());
    let s = n.state.as_mut().expect("booted");
    s.set_state_clear_flag(true);
    let mut addrs: Vec<_> = merged.keys().copied().collect();
    addrs.sort();
    for a in addrs {
        // The cache has to know an account before it takes its changes.
        let _ = s.load_cache_account(a);
    }
    let mut merged = merged;
    for (a, x) in merged.iter_mut() {
        let held = !before.get(a).is_blank();
        if x.is_touched() && x.is_empty() && !x.is_selfdestructed() && !x.is_created() && held {
            // Known finding: the state cache cannot take the emptied account that a merge leaves
            // for one destroyed on top of an existing balance.
            st.probe(K6);
            x.mark_created();
            x.mark_selfdestruct();
        }
    }
    s.commit(merged);
    n.persist();
    st.checks += 1;
    if let Some(d) = n.durable.diff(after) {
        return fail("merged-commit-differs", format!("{what}: merged delta committed vs one by one: {d}"));
    }
    Ok(())
}
