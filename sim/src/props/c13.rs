//! Access reports are complete: data a transaction is not reported to have read cannot matter.

use mega_evm::{
    alloy_evm::Evm,
    alloy_primitives::{Address, B256, U256},
    revm::{
        context_interface::block::BlobExcessGasAndPrice,
        handler::EvmTr,
        interpreter::{interpreter::EthInterpreter, interpreter_types::Jumps, CallInputs, CallOutcome, Interpreter},
        Inspector,
    },
    VolatileDataAccess as A,
};

use crate::{chain::*, exec::*, gen::*, ids::*, rng::Rng, scenario::*, stats::*, world::*};

use super::*;

pub fn prop() -> Prop {
    Prop {
        id: "C13",
        gen,
        check,
        quick_runs: 20_000,
        level: "exploration",
        rule: "seeded chain with repeated and aborted attempts; every accepted transaction is executed again in a world where all block data, fee-recipient and oracle data it is not reported to have read are different; a case counts when a transaction has a new (rules, report, outcome, gas) signature",
        real: REAL,
        stub: STUB,
        assumptions: ASSUME,
    }
}

fn gen(seed: u64) -> Scenario {
    let mut g = Gen::new(seed);
    for k in [o::BLOCKENV, o::ORACLE] {
        if g.r.chance(1, 2) {
            g.sw.op[k] = g.sw.op[k].max(1);
        }
    }
    if g.r.chance(3, 4) && g.sw.min_rules < Rules::MiniRex {
        g.sw.min_rules = Rules::MiniRex;
    }
    let crossing = g.r.chance(1, 4);
    let mut sc = g.world("C13", seed, crossing);
    sc.hint_sets.clear();
    for _ in 0..g.r.range(1, 3) {
        let ntx = g.r.range(2, 6) as usize;
        let mut b = g.block(ntx);
        if g.r.chance(1, 2) {
            g.tight_limits(&mut b.limits);
        }
        b.events = g.events(ntx, true, false, true);
        sc.blocks.push(b);
    }
    sc
}

/// Everything reported as read, of all kinds.
fn report<'a, I: Inspector<Ctx<'a>>>(ex: &Ex<'a, I>) -> A {
    let ctx = ex.evm.ctx_ref();
    let t = ctx.volatile_data_tracker.borrow();
    let mut a = ctx.get_block_env_accesses();
    if t.has_accessed_beneficiary_balance() {
        a |= A::BENEFICIARY_BALANCE;
    }
    if t.has_accessed_oracle() {
        a |= A::ORACLE;
    }
    a
}

/// The pieces of the outside world that can be changed independently.
const PIECES: &[(&str, A)] = &[
    ("block number", A::from_bits_truncate(A::BLOCK_NUMBER.bits() | A::BLOCK_HASH.bits())),
    ("timestamp", A::TIMESTAMP),
    ("fee recipient", A::from_bits_truncate(A::COINBASE.bits() | A::BENEFICIARY_BALANCE.bits())),
    ("difficulty", A::DIFFICULTY),
    ("randao", A::from_bits_truncate(A::PREV_RANDAO.bits() | A::DIFFICULTY.bits())),
    ("gas limit", A::GAS_LIMIT),
    ("base fee", A::BASE_FEE),
    ("block hashes", A::BLOCK_HASH),
    ("blob fee", A::BLOB_BASE_FEE),
    ("fee recipient's balance", A::BENEFICIARY_BALANCE),
    ("oracle data", A::ORACLE),
];

/// Values at least this large are never written by transactions.
const BIG: u64 = 1 << 40;
const ELSEWHERE: Address = Address::repeat_byte(0xe1);

/// A world that differs from `b`/`base` exactly in the pieces with a set bit.
fn vary(
    pieces: u32,
    b: &BlockCtx,
    base: &Ledger,
    sc: &Scenario,
    ids: &Ids,
    free: bool,
    r: &mut Rng,
) -> (Node, BlockCtx) {
    let mut b = b.clone();
    let mut node = Node::new(sc, ids);
    node.durable = base.clone();
    {
        // Bucket capacities belong to the block; they are not what is varied here.
        let mut w = node.world.borrow_mut();
        let m = w.salt.range(..=b.number).next_back().map(|(_, m)| m.clone()).unwrap_or_default();
        w.salt.clear();
        w.salt.insert(0, m);
    }
    let old = b.coinbase;
    for (i, _) in PIECES.iter().enumerate() {
        if pieces & (1 << i) == 0 {
            continue;
        }
        match i {
            0 => {
                let n = if r.chance(1, 2) { b.number + r.range(1, 400) } else { b.number.saturating_sub(r.range(1, 30)).max(1) };
                b.number = n;
                b.env.number = U256::from(n);
            }
            1 => {
                for _ in 0..8 {
                    let t = if r.chance(1, 2) { b.time + r.range(1, 1000) } else { b.time.saturating_sub(r.range(1, 1000)) };
                    if rules_at(&sc.forks, t) == b.rules {
                        b.time = t;
                        b.env.timestamp = U256::from(t);
                        break;
                    }
                }
            }
            2 => {
                b.coinbase = ELSEWHERE;
                b.env.beneficiary = ELSEWHERE;
            }
            3 => b.env.difficulty = U256::from(r.range(1, 1 << 40)),
            4 => b.env.prevrandao = Some(B256::from(U256::from(r.range(1, u64::MAX - 1)))),
            5 => {
                b.env.gas_limit += r.range(1, 1_000_000);
                b.limits.block_gas_limit = b.env.gas_limit;
            }
            6 if free => b.env.basefee += r.range(1, 1_000_000_000),
            7 => node.hash_salt ^= r.range(1, u64::MAX - 1),
            8 => {
                b.env.blob_excess_gas_and_price = Some(BlobExcessGasAndPrice {
                    excess_blob_gas: r.range(1, 1 << 24),
                    blob_gasprice: r.range(2, 1 << 30) as u128,
                })
            }
            9 => {
                let a = node.durable.accts.entry(old).or_default();
                a.balance = match r.below(3) {
                    0 => U256::from(1),
                    1 => a.balance / U256::from(2),
                    _ => a.balance + U256::from(r.range(1, 1_000_000)),
                }
                .max(U256::from(1));
            }
            10 if b.rules >= Rules::MiniRex => {
                let mut w = node.world.borrow_mut();
                for k in 0..16u64 {
                    if r.chance(1, 2) {
                        w.oracle.insert(U256::from(k), U256::from(r.range(100, 1 << 30)));
                    } else {
                        w.oracle.remove(&U256::from(k));
                    }
                    // From Rex3 on a (doomed) write is priced by the stored value without being
                    // reported as a read: whether a slot is zero or equals a written value stays.
                    let oracle = ids.addr(Who::Oracle);
                    let old = node.durable.slot(&oracle, &U256::from(k));
                    if b.rules < Rules::Rex3 || old >= U256::from(BIG) {
                        node.durable.set_slot(oracle, U256::from(k), U256::from(r.range(BIG, 1 << 50)));
                    }
                }
            }
            _ => {}
        }
    }
    (node, b)
}

type Seen = Result<(TxOut, std::collections::BTreeMap<Address, String>, A), String>;

fn observe(node: &mut Node, b: &BlockCtx, tx: &Tx, hide: &[Address]) -> Seen {
    node.with_executor(b, |mut ex| {
        let got = ex.run_transaction(tx);
        let rep = report(&ex);
        match got {
            Ok(o) => {
                let mut d = delta_of(&o.inner.state);
                for a in hide {
                    d.remove(a);
                }
                Ok((TxOut::new(&o.inner, o.tx_size, o.da_size), d, rep))
            }
            Err(e) => Err(err_text(&e)),
        }
    })
}

fn check(sc: &Scenario, st: &mut Stats) -> Verdict {
    let ids = Ids::new(sc);
    let ctxs = block_ctxs(sc, &ids);
    let mut node = Node::new(sc, &ids);
    let mut shadow = node.durable.clone();
    let mut r = Rng::new(sc.seed ^ 0xc13);
    for (bi, b) in ctxs.iter().enumerate() {
        st.sim_seconds += sc.blocks[bi].dt;
        let mut b = b.clone();
        if b.rules < Rules::Rex1 {
            // Documented exception: before Rex1 a detention outlives its transaction.
            b.limits.block_env_access_compute_gas_limit = u64::MAX;
            b.limits.oracle_access_compute_gas_limit = u64::MAX;
        }
        let b = &b;
        let spec = &sc.blocks[bi];
        let ar = arena(spec.txs.len());
        let plane = node.plane.clone();
        let mut evs = spec.events.clone();
        if evs.is_empty() {
            evs = (0..spec.txs.len()).map(Ev::Exec).collect();
        }
        node.with_executor(b, |mut ex| -> Verdict {
            match ex.pre_execution_changes() {
                Ok(outs) => {
                    for o in &outs {
                        shadow.apply(&o.state);
                    }
                    if let Err(e) = ex.commit_system_call_outcomes(outs) {
                        return fail("pre-commit", err_text(&e));
                    }
                }
                Err(e) => return fail("pre-execution", err_text(&e)),
            }
            let mut committed = std::collections::BTreeSet::new();
            for ev in &evs {
                st.steps += 1;
                let (i, commit) = match ev {
                    Ev::FaultExec(i, p) if *i < spec.txs.len() => {
                        let tx = ar[*i]
                            .get_or_init(|| build_tx(&ids, &spec.txs[*i], &|a| shadow.nonce(&a), *i as u64));
                        plane.borrow_mut().arm(*p);
                        let _ = ex.run_transaction(tx);
                        plane.borrow_mut().disarm();
                        st.plane(&mut plane.borrow_mut());
                        continue;
                    }
                    Ev::Run(i) => (*i, false),
                    Ev::Exec(i) | Ev::Commit(i) => (*i, true),
                    _ => continue,
                };
                if i >= spec.txs.len() || committed.contains(&i) {
                    continue;
                }
                let tx = ar[i].get_or_init(|| build_tx(&ids, &spec.txs[i], &|a| shadow.nonce(&a), i as u64));
                let o = match ex.run_transaction(tx) {
                    Ok(o) => o,
                    Err(e) if is_infra_error(&e) => return fail("infra-error-without-fault", err_text(&e)),
                    Err(_) => continue,
                };
                st.txs += 1;
                let rep = report(&ex);
                let here = (TxOut::new(&o.inner, o.tx_size, o.da_size), delta_of(&o.inner.state), rep);
                judge(bi, i, b, tx, here, &shadow, sc, &ids, &mut r, st)?;
                if commit {
                    let state = o.inner.state.clone();
                    if ex.commit_transaction_outcome(o).is_ok() {
                        shadow.apply(&state);
                        committed.insert(i);
                    }
                }
            }
            st.blocks += 1;
            Ok(())
        })?;
        node.persist();
        // Stored oracle data, as left by maintenance between the blocks; a restart follows.
        let oracle = ids.addr(Who::Oracle);
        if node.durable.accts.get(&oracle).is_some_and(|a| !a.code.is_empty()) {
            for k in 0..8u64 {
                if r.chance(1, 3) {
                    let v = U256::from(r.range(BIG, 1 << 50));
                    node.durable.set_slot(oracle, U256::from(k), v);
                    shadow.set_slot(oracle, U256::from(k), v);
                }
            }
            node.crash();
            st.crashes += 1;
        }
        st.see(&format!("{:x}", shadow.digest()));
    }
    Ok(())
}

fn judge(
    bi: usize,
    i: usize,
    b: &BlockCtx,
    tx: &Tx,
    here: (TxOut, std::collections::BTreeMap<Address, String>, A),
    base: &Ledger,
    sc: &Scenario,
    ids: &Ids,
    r: &mut Rng,
    st: &mut Stats,
) -> Verdict {
    use mega_evm::alloy_consensus::{Transaction, Typed2718};
    let rep = here.2;
    let system = tx.signer() == mega_evm::MEGA_SYSTEM_ADDRESS && b.rules >= Rules::MiniRex;
    let deposit = tx.inner().ty() == 0x7e;
    let keyless = tx.inner().to() == Some(ids.addr(Who::Keyless)) && b.rules >= Rules::Rex2;
    let mut pieces = 0u32;
    for (k, (_, needs)) in PIECES.iter().enumerate() {
        if rep.intersects(*needs) {
            continue;
        }
        match k {
            6 if !(system || deposit) || keyless => continue,
            // An empty account stays empty: that is looked at for pricing without being reported.
            9 if base.get(&b.coinbase).is_blank() => continue,
            10 if system || b.rules < Rules::MiniRex => continue,
            _ => {}
        }
        pieces |= 1 << k;
    }
    st.distinct(&format!("{:?} {rep:?} {} {}", b.rules, here.0.result.gas_used(), here.0.result.is_success()));
    // First in the same world, on a node of its own: the report is about this transaction only.
    let (mut n0, b0) = vary(0, b, base, sc, ids, false, r);
    st.checks += 1;
    match observe(&mut n0, &b0, tx, &[]) {
        Ok((_, _, rep0)) if rep0 == rep => {}
        other => {
            return fail(
                "report-depends-on-history",
                format!("block {bi} tx {i} ({:?}): reported {rep:?} after other attempts, alone {:?}", b.rules, other.map(|x| x.2)),
            )
        }
    }
    // Nothing is reported that was not asked for.
    if !rep.is_empty() && !keyless && r.chance(1, 2) {
        let seen = watch(b, tx, base, sc, ids).1;
        st.checks += 1;
        let extra = rep.block_env_only() - seen;
        if !extra.is_empty() || (rep.has_oracle_access() && !seen.has_oracle_access()) {
            return fail(
                "reported-unread",
                format!("block {bi} tx {i} ({:?}): reported {rep:?}, instructions seen read {seen:?}", b.rules),
            );
        }
    }
    let hide = [b.coinbase, ELSEWHERE];
    let mut want = here;
    for a in &hide {
        want.1.remove(a);
    }
    let mut try_pieces = |p: u32, r: &mut Rng| -> Option<String> {
        let (mut n, b1) = vary(p, b, base, sc, ids, system || deposit, r);
        match observe(&mut n, &b1, tx, &hide) {
            Ok(got) if got == want => None,
            Ok(got) => Some(if got.0 != want.0 {
                format!("{:?} vs {:?}", got.0, want.0)
            } else if got.1 != want.1 {
                format!("{:?} vs {:?}", got.1, want.1)
            } else {
                format!("reported {:?} vs {:?}", got.2, want.2)
            }),
            Err(e) => Some(format!("refused: {e}")),
        }
    };
    st.checks += 1;
    st.fault("world changed behind a transaction", 1);
    while let Some(all) = try_pieces(pieces, r) {
        let mut cause = None;
        for k in 0..PIECES.len() {
            for _ in 0..4 {
                if pieces & (1 << k) != 0 && cause.is_none() {
                    cause = try_pieces(1 << k, r).map(|d| (k, d));
                }
            }
        }
        let Some((k, d)) = cause else {
            return fail("depends on unreported data", format!("block {bi} tx {i} ({:?}), reported {rep:?}: {all}", b.rules));
        };
        // Inside the sandbox of a keyless deployment no observer sees the self-destruction.
        let unseen = keyless && format!("{sc:?}").contains("SelfDestruct(");
        if (k == 2 || k == 9) && (unseen || watch(b, tx, base, sc, ids).0.contains(&b.coinbase)) {
            st.probe("known finding: self-destruction in favour of the fee recipient is not reported");
            pieces &= !(1 << 2 | 1 << 9);
            continue;
        }
        if (k == 2 || k == 9) && delegated_to(tx, base, b.coinbase) {
            st.probe("known finding: following a delegation to the fee recipient is not reported");
            pieces &= !(1 << 2 | 1 << 9);
            continue;
        }
        return fail(
            format!("depends on unreported {}", PIECES[k].0),
            format!("block {bi} tx {i} ({:?}), reported {rep:?}: {d}", b.rules),
        );
    }
    Ok(())
}

/// Whether some account delegates its code to `a`, or `a` itself signs a delegation.
fn delegated_to(tx: &Tx, base: &Ledger, a: Address) -> bool {
    use mega_evm::alloy_consensus::Transaction;
    base.accts.values().any(|x| x.code.len() == 23 && x.code[..3] == [0xef, 1, 0] && x.code[3..] == a[..])
        || tx.inner().authorization_list().is_some_and(|l| {
            l.iter().any(|x| x.address == a || x.recover_authority().is_ok_and(|s| s == a))
        })
}

/// Sees which instructions asked for what, and in whose favour contracts gave up.
#[derive(Clone, Default)]
struct Watch(std::rc::Rc<std::cell::RefCell<(Vec<Address>, A)>>);

impl<'a> Inspector<Ctx<'a>> for Watch {
    fn step(&mut self, interp: &mut Interpreter<EthInterpreter>, _: &mut Ctx<'a>) {
        let bits = match interp.bytecode.opcode() {
            0x40 => A::BLOCK_HASH | A::BLOCK_NUMBER,
            0x41 => A::COINBASE,
            0x42 => A::TIMESTAMP,
            0x43 => A::BLOCK_NUMBER,
            0x44 => A::DIFFICULTY | A::PREV_RANDAO,
            0x45 => A::GAS_LIMIT,
            0x48 => A::BASE_FEE,
            0x49 => A::BLOB_HASH,
            0x4a => A::BLOB_BASE_FEE,
            _ => return,
        };
        self.0.borrow_mut().1 |= bits;
    }
    fn call(&mut self, _: &mut Ctx<'a>, i: &mut CallInputs) -> Option<CallOutcome> {
        if i.target_address == ORACLE_CONTRACT_ADDRESS {
            self.0.borrow_mut().1 |= A::ORACLE;
        }
        None
    }
    fn selfdestruct(&mut self, _: Address, target: Address, _: U256) {
        self.0.borrow_mut().0.push(target);
    }
}

fn watch(b: &BlockCtx, tx: &Tx, base: &Ledger, sc: &Scenario, ids: &Ids) -> (Vec<Address>, A) {
    let mut n = Node::new(sc, ids);
    n.durable = base.clone();
    let w = Watch::default();
    n.with_inspected(b, w.clone(), |mut ex| {
        ex.evm.enable_inspector();
        let _ = ex.run_transaction(tx);
    });
    let out = w.0.borrow().clone();
    out
}
