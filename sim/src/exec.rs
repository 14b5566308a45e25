//! Drives the real block executor over the simulated world.

use std::{
    cell::RefCell,
    collections::{BTreeMap, BTreeSet},
    rc::Rc,
};

use mega_evm::{
    alloy_consensus::{
        transaction::Recovered, SignableTransaction, TxEip1559, TxEip2930, TxEip7702, TxLegacy,
    },
    alloy_eips::{
        eip2930::{AccessList, AccessListItem},
        eip7702::{Authorization, SignedAuthorization},
    },
    alloy_evm::{block::BlockExecutionError, EvmEnv},
    alloy_hardforks::ForkCondition,
    alloy_op_evm::block::OpAlloyReceiptBuilder,
    alloy_primitives::{Address, Bytes, Sealable, Signature, TxKind, B256, U256},
    op_alloy_consensus::{OpReceiptEnvelope, TxDeposit},
    revm::{
        context::{
            result::{ExecutionResult, Output},
            BlockEnv, CfgEnv,
        },
        database::{states::bundle_state::BundleRetention, State},
        inspector::NoOpInspector,
        Inspector,
    },
    BlockLimits, MegaBlockExecutionCtx, MegaBlockExecutor, MegaBlockExecutorFactory, MegaContext,
    MegaEvm, MegaEvmFactory, MegaHaltReason, MegaHardfork, MegaHardforkConfig, MegaHardforks,
    MegaSpecId, MegaTransactionOutcome, MegaTxEnvelope,
};

use crate::{
    asm,
    ids::{Ids, CHAIN_ID, COINBASE, L1BLOCK},
    scenario::*,
    world::*,
};

pub type Envs = (SimEnv, SimEnv);
pub type Db = State<LedgerDb>;
pub type Ctx<'a> = MegaContext<&'a mut Db, Envs>;
pub type Ex<'a, I> =
    MegaBlockExecutor<MegaHardforkConfig, MegaEvm<&'a mut Db, I, Envs>, OpAlloyReceiptBuilder>;
pub type Tx = Recovered<MegaTxEnvelope>;
pub type ExecRes = ExecutionResult<MegaHaltReason>;

pub const FORKS: [MegaHardfork; 8] = [
    MegaHardfork::MiniRex,
    MegaHardfork::MiniRex1,
    MegaHardfork::MiniRex2,
    MegaHardfork::Rex,
    MegaHardfork::Rex1,
    MegaHardfork::Rex2,
    MegaHardfork::Rex3,
    MegaHardfork::Rex4,
];

/// Simulator's own order of rule sets. Independent of the code under test.
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Rules {
    Equivalence,
    MiniRex,
    Rex,
    Rex1,
    Rex2,
    Rex3,
    Rex4,
}

impl Rules {
    pub fn spec(self) -> MegaSpecId {
        match self {
            Rules::Equivalence => MegaSpecId::EQUIVALENCE,
            Rules::MiniRex => MegaSpecId::MINI_REX,
            Rules::Rex => MegaSpecId::REX,
            Rules::Rex1 => MegaSpecId::REX1,
            Rules::Rex2 => MegaSpecId::REX2,
            Rules::Rex3 => MegaSpecId::REX3,
            Rules::Rex4 => MegaSpecId::REX4,
        }
    }
}

/// The rule set in force at a time, from the documented hardfork table.
pub fn rules_at(forks: &[Option<u64>; 8], t: u64) -> Rules {
    const R: [Rules; 8] = [
        Rules::MiniRex,
        Rules::Equivalence,
        Rules::MiniRex,
        Rules::Rex,
        Rules::Rex1,
        Rules::Rex2,
        Rules::Rex3,
        Rules::Rex4,
    ];
    let mut out = Rules::Equivalence;
    for i in 0..8 {
        if forks[i].is_some_and(|x| t >= x) {
            out = R[i];
        }
    }
    out
}

pub fn hardforks(forks: &[Option<u64>; 8]) -> MegaHardforkConfig {
    let mut c = MegaHardforkConfig::default();
    for i in 0..8 {
        if let Some(t) = forks[i] {
            c = c.with(FORKS[i], ForkCondition::Timestamp(t));
        }
    }
    c
}

// ---------------------------------------------------------------------------------------------
// Genesis and environments
// ---------------------------------------------------------------------------------------------

pub fn genesis(sc: &Scenario, ids: &Ids) -> Ledger {
    let mut l = Ledger::default();
    for (i, e) in sc.eoas.iter().enumerate() {
        let code = match e.delegate {
            Some(w) => {
                let mut c = vec![0xef, 0x01, 0x00];
                c.extend_from_slice(ids.addr(w).as_slice());
                Bytes::from(c)
            }
            None => Bytes::new(),
        };
        let a = LAcct { nonce: e.nonce, balance: U256::from(e.balance), code, ..Default::default() };
        if !a.is_blank() {
            l.accts.insert(ids.addr(Who::Eoa(i as u8)), a);
        }
    }
    for (i, c) in sc.contracts.iter().enumerate() {
        l.accts.insert(
            ids.addr(Who::Con(i as u8)),
            LAcct {
                nonce: 1,
                balance: U256::from(c.balance),
                code: asm::program(ids, &c.ops, c.pad).into(),
                storage: c
                    .storage
                    .iter()
                    .filter(|x| x.1 != 0)
                    .map(|(k, v)| (U256::from(*k), U256::from(*v)))
                    .collect(),
            },
        );
    }
    for (i, k) in sc.keyless.iter().enumerate() {
        if let Some(s) = ids.kl_signer(i as u8) {
            let a = l.accts.entry(s).or_default();
            a.balance = U256::from(k.signer_balance);
            a.nonce = k.signer_nonce;
            if a.is_blank() {
                l.accts.remove(&s);
            }
        }
    }
    // L1 attributes contract: fee parameters at the slots op-revm reads.
    let mut l1 = LAcct { nonce: 1, code: Bytes::from_static(&[0x00]), ..Default::default() };
    let put = |l1: &mut LAcct, k: u64, v: U256| {
        if !v.is_zero() {
            l1.storage.insert(U256::from(k), v);
        }
    };
    put(&mut l1, 1, U256::from(sc.l1[0]));
    put(&mut l1, 7, U256::from(sc.l1[1]));
    // slot 3: blobBaseFeeScalar at bytes 12..16? (big-endian offsets 16..20 base, 20..24 blob)
    let mut s3 = [0u8; 32];
    s3[16..20].copy_from_slice(&(sc.l1[2] as u32).to_be_bytes());
    s3[20..24].copy_from_slice(&(sc.l1[3] as u32).to_be_bytes());
    put(&mut l1, 3, U256::from_be_bytes(s3));
    let mut s8 = [0u8; 32];
    s8[20..24].copy_from_slice(&(sc.l1[4] as u32).to_be_bytes());
    s8[24..32].copy_from_slice(&sc.l1[5].to_be_bytes());
    put(&mut l1, 8, U256::from_be_bytes(s8));
    l.accts.insert(L1BLOCK, l1);
    use mega_evm::alloy_eips::{eip2935, eip4788};
    for (bit, a, code) in [
        (1, eip2935::HISTORY_STORAGE_ADDRESS, eip2935::HISTORY_STORAGE_CODE.clone()),
        (2, eip4788::BEACON_ROOTS_ADDRESS, mega_evm::alloy_primitives::bytes!("3373fffffffffffffffffffffffffffffffffffffffe14604d57602036146024575f5ffd5b5f35801560495762001fff810690815414603c575f5ffd5b62001fff01545f5260205ff35b5f5ffd5b62001fff42064281555f359062001fff015500")),
    ] {
        if sc.eips & bit != 0 {
            l.accts.insert(a, LAcct { nonce: 1, code, ..Default::default() });
        }
    }
    for (w, v) in &sc.sys_pre {
        l.accts.entry(ids.addr(*w)).or_default().balance += U256::from(*v);
    }
    for (w, k, v) in &sc.sys_storage {
        let a = ids.addr(*w);
        if l.accts.contains_key(&a) {
            l.set_slot(a, U256::from(*k), U256::from(*v));
        }
    }
    l
}

pub fn env_world(sc: &Scenario) -> EnvWorld {
    let mut w = EnvWorld { default_capacity: sc.salt_default, ..Default::default() };
    let blocks: BTreeSet<u64> = sc.salt.iter().map(|x| x.0).collect();
    for b in blocks {
        // Each snapshot carries forward the previous one.
        let mut m = w.salt.range(..=b).next_back().map(|(_, m)| m.clone()).unwrap_or_default();
        for (bb, k, c) in &sc.salt {
            if *bb == b {
                m.insert(*k, *c);
            }
        }
        w.salt.insert(b, m);
    }
    w.oracle = sc.oracle.iter().map(|(k, v)| (U256::from(*k), U256::from(*v))).collect();
    w.on_hint_set = sc
        .hint_sets
        .iter()
        .map(|(t, k, v)| (B256::from(U256::from(*t)), (U256::from(*k), U256::from(*v))))
        .collect();
    w
}

#[derive(Clone, Debug)]
pub struct BlockCtx {
    pub number: u64,
    pub time: u64,
    pub rules: Rules,
    pub env: BlockEnv,
    pub limits: BlockLimits,
    pub coinbase: Address,
}

pub fn block_limits(l: &Limits, gas_limit: u64) -> BlockLimits {
    BlockLimits {
        tx_gas_limit: l.tx_gas,
        block_gas_limit: gas_limit,
        tx_encode_size_limit: l.tx_size,
        block_txs_encode_size_limit: l.block_size,
        tx_da_size_limit: l.tx_da,
        block_da_size_limit: l.block_da,
        tx_data_limit: l.tx_data,
        block_txs_data_limit: l.block_data,
        tx_kv_update_limit: l.tx_kv,
        block_kv_update_limit: l.block_kv,
        tx_compute_gas_limit: l.tx_compute,
        block_compute_gas_limit: l.block_compute,
        tx_state_growth_limit: l.tx_growth,
        block_state_growth_limit: l.block_growth,
        block_env_access_compute_gas_limit: l.env_compute,
        oracle_access_compute_gas_limit: l.oracle_compute,
    }
}

pub fn block_ctxs(sc: &Scenario, ids: &Ids) -> Vec<BlockCtx> {
    let mut t = sc.genesis_time;
    sc.blocks
        .iter()
        .enumerate()
        .map(|(i, b)| {
            t += b.dt;
            let number = sc.first_block + i as u64;
            let coinbase = ids.addr(b.coinbase);
            let env = BlockEnv {
                number: U256::from(number),
                beneficiary: coinbase,
                timestamp: U256::from(t),
                gas_limit: b.gas_limit,
                basefee: b.basefee,
                prevrandao: Some(B256::from(U256::from(b.randao))),
                ..Default::default()
            };
            BlockCtx {
                number,
                time: t,
                rules: rules_at(&sc.forks, t),
                env,
                limits: block_limits(&b.limits, b.gas_limit),
                coinbase,
            }
        })
        .collect()
}

// ---------------------------------------------------------------------------------------------
// Transactions
// ---------------------------------------------------------------------------------------------

/// Builds the concrete signed transaction; `nonce_of` is the sequencer's view of account nonces.
pub fn build_tx(ids: &Ids, t: &TxSpec, nonce_of: &dyn Fn(Address) -> u64, uniq: u64) -> Tx {
    let from = match t.ty {
        TxType::System => ids.addr(Who::SysAddr),
        _ => ids.addr(t.from),
    };
    let nonce = nonce_of(from).wrapping_add_signed(t.nonce_delta);
    let (to, input) = match t.to {
        Some(w) => (TxKind::Call(ids.addr(w)), Bytes::from(ids.input(&t.input))),
        None => {
            let mut code = asm::initcode(ids, &t.init, &t.runtime, t.pad);
            code.extend(ids.input(&t.input));
            (TxKind::Create, Bytes::from(code))
        }
    };
    let access = AccessList(
        t.access
            .iter()
            .map(|(w, ks)| AccessListItem {
                address: ids.addr(*w),
                storage_keys: ks.iter().map(|k| B256::from(U256::from(*k))).collect(),
            })
            .collect(),
    );
    let value = U256::from(t.value);
    let sig = Signature::test_signature();
    let env = match t.ty {
        TxType::Legacy | TxType::System => {
            let tx = TxLegacy {
                chain_id: Some(CHAIN_ID),
                nonce,
                gas_price: t.gas_price as u128,
                gas_limit: t.gas,
                to,
                value,
                input,
            };
            MegaTxEnvelope::Legacy(tx.into_signed(sig))
        }
        TxType::Eip2930 => {
            let tx = TxEip2930 {
                chain_id: CHAIN_ID,
                nonce,
                gas_price: t.gas_price as u128,
                gas_limit: t.gas,
                to,
                value,
                access_list: access,
                input,
            };
            MegaTxEnvelope::Eip2930(tx.into_signed(sig))
        }
        TxType::Eip1559 => {
            let tx = TxEip1559 {
                chain_id: CHAIN_ID,
                nonce,
                gas_limit: t.gas,
                max_fee_per_gas: t.gas_price as u128,
                max_priority_fee_per_gas: t.tip as u128,
                to,
                value,
                access_list: access,
                input,
            };
            MegaTxEnvelope::Eip1559(tx.into_signed(sig))
        }
        TxType::Eip7702 => {
            let auths = t.auths.iter().map(|a| sign_auth(ids, a, nonce_of, t.from)).collect();
            let tx = TxEip7702 {
                chain_id: CHAIN_ID,
                nonce,
                gas_limit: t.gas,
                max_fee_per_gas: t.gas_price as u128,
                max_priority_fee_per_gas: t.tip as u128,
                to: match to {
                    TxKind::Call(a) => a,
                    TxKind::Create => ids.addr(Who::Fresh(0)),
                },
                value,
                access_list: access,
                authorization_list: auths,
                input,
            };
            MegaTxEnvelope::Eip7702(tx.into_signed(sig))
        }
        TxType::Deposit { mint, system } => {
            let tx = TxDeposit {
                source_hash: B256::from(U256::from(0xd0_0000 + uniq)),
                from,
                to,
                mint: mint as u128,
                value,
                gas_limit: t.gas,
                is_system_transaction: system,
                input,
            };
            MegaTxEnvelope::Deposit(tx.seal_slow())
        }
    };
    Recovered::new_unchecked(env, from)
}

fn sign_auth(ids: &Ids, a: &Auth, nonce_of: &dyn Fn(Address) -> u64, from: Who) -> SignedAuthorization {
    // When the authority is the sender its nonce has already been bumped by the transaction.
    let who = Who::Eoa(a.authority);
    let base = nonce_of(ids.addr(who)).wrapping_add((who == from) as u64);
    let auth = Authorization {
        chain_id: U256::from(if a.wrong_chain { CHAIN_ID + 1 } else { CHAIN_ID }),
        address: ids.addr(a.to),
        nonce: base.wrapping_add_signed(a.nonce_delta as i64),
    };
    let sig = if a.bad_sig {
        Signature::new(U256::from(1), U256::MAX >> 2, false)
    } else {
        ids.sign(a.authority, auth.signature_hash())
    };
    auth.into_signed(sig)
}

// ---------------------------------------------------------------------------------------------
// Results in a comparable form
// ---------------------------------------------------------------------------------------------

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct TxOut {
    pub result: ExecRes,
    pub data: u64,
    pub kv: u64,
    pub compute: u64,
    pub growth: u64,
    pub tx_size: u64,
    pub da_size: u64,
}

impl TxOut {
    pub fn new(o: &MegaTransactionOutcome, tx_size: u64, da_size: u64) -> Self {
        TxOut {
            result: o.result.clone(),
            data: o.data_size,
            kv: o.kv_updates,
            compute: o.compute_gas_used,
            growth: o.state_growth_used,
            tx_size,
            da_size,
        }
    }
    pub fn output(&self) -> Bytes {
        match &self.result {
            ExecutionResult::Success { output, .. } => match output {
                Output::Call(b) => b.clone(),
                Output::Create(b, _) => b.clone(),
            },
            ExecutionResult::Revert { output, .. } => output.clone(),
            _ => Bytes::new(),
        }
    }
}

/// Canonical text of a state delta (touched accounts only), for exact comparison.
pub fn delta_of(state: &mega_evm::revm::state::EvmState) -> BTreeMap<Address, String> {
    let mut out = BTreeMap::new();
    for (a, acc) in state {
        if !acc.is_touched() {
            continue;
        }
        let st: BTreeMap<_, _> = acc
            .storage
            .iter()
            .filter(|(_, s)| s.is_changed())
            .map(|(k, s)| (*k, (s.original_value, s.present_value)))
            .collect();
        out.insert(
            *a,
            format!(
                "n{} b{} c{} created={} sd={} {:?}",
                acc.info.nonce,
                acc.info.balance,
                acc.info.code_hash,
                acc.is_created(),
                acc.is_selfdestructed(),
                st
            ),
        );
    }
    out
}

pub fn err_text(e: &BlockExecutionError) -> String {
    use std::error::Error;
    let mut s = e.to_string();
    let mut src = e.source();
    while let Some(x) = src {
        s.push_str(" <- ");
        s.push_str(&x.to_string());
        src = x.source();
    }
    s
}

/// Whether an execution error reports broken infrastructure rather than a bad transaction.
pub fn is_infra_error(e: &BlockExecutionError) -> bool {
    let t = err_text(e);
    matches!(e, BlockExecutionError::Internal(_)) && !t.contains("whitelist")
}

pub fn receipts_digest(rs: &[OpReceiptEnvelope]) -> u64 {
    let mut h = Hasher::new();
    for r in rs {
        h.put(format!("{r:?}").as_bytes());
    }
    h.finish()
}

// ---------------------------------------------------------------------------------------------
// Node
// ---------------------------------------------------------------------------------------------

/// One simulated node: durable ledger, in-memory state cache, its connection to the environment.
pub struct Node {
    pub durable: Ledger,
    pub state: Option<Box<Db>>,
    pub plane: Rc<RefCell<Plane>>,
    pub world: Rc<RefCell<EnvWorld>>,
    pub forks: [Option<u64>; 8],
    pub lazy_code: bool,
    pub hash_salt: u64,
    pub hash_filter: Option<BTreeMap<u64, B256>>,
}

impl Node {
    pub fn new(sc: &Scenario, ids: &Ids) -> Self {
        Node {
            durable: genesis(sc, ids),
            state: None,
            plane: Default::default(),
            world: Rc::new(RefCell::new(env_world(sc))),
            forks: sc.forks,
            lazy_code: sc.lazy_code,
            hash_salt: sc.seed,
            hash_filter: None,
        }
    }

    /// Forgets everything that is not durable.
    pub fn crash(&mut self) {
        self.state = None;
    }

    pub fn boot(&mut self) -> Box<Db> {
        let mut db = LedgerDb::new(
            Rc::new(self.durable.clone()),
            self.plane.clone(),
            self.lazy_code,
            self.hash_salt,
        );
        db.hash_filter = self.hash_filter.clone();
        Box::new(State::builder().with_database(db).with_bundle_update().build())
    }

    /// Runs `script` over a fresh executor for the block. The in-memory state survives the call.
    pub fn with_executor<R>(
        &mut self,
        b: &BlockCtx,
        script: impl FnOnce(Ex<'_, NoOpInspector>) -> R,
    ) -> R {
        let mut state = self.state.take().unwrap_or_else(|| self.boot());
        let out = {
            let f = factory(&self.forks, &self.world, &self.plane);
            let ex = f.create_executor(&mut *state, exec_ctx(b, self.hash_salt), evm_env(b));
            script(ex)
        };
        self.state = Some(state);
        out
    }

    pub fn with_inspected<I, R>(
        &mut self,
        b: &BlockCtx,
        insp: I,
        script: impl for<'a> FnOnce(Ex<'a, I>) -> R,
    ) -> R
    where
        I: for<'a> Inspector<Ctx<'a>> + 'static,
    {
        let mut state = self.state.take().unwrap_or_else(|| self.boot());
        let out = {
            let f = factory(&self.forks, &self.world, &self.plane);
            let ex = f.create_executor_with_inspector(
                &mut *state,
                exec_ctx(b, self.hash_salt),
                evm_env(b),
                insp,
            );
            script(ex)
        };
        self.state = Some(state);
        out
    }

    /// Persists the block: the bundle delta is applied to the durable ledger.
    pub fn persist(&mut self) {
        if let Some(s) = self.state.as_mut() {
            s.merge_transitions(BundleRetention::Reverts);
            let bundle = s.take_bundle();
            self.durable.apply_bundle(&bundle);
        }
    }
}

pub fn factory(
    forks: &[Option<u64>; 8],
    world: &Rc<RefCell<EnvWorld>>,
    plane: &Rc<RefCell<Plane>>,
) -> MegaBlockExecutorFactory<MegaHardforkConfig, MegaEvmFactory<SimEnvFactory>, OpAlloyReceiptBuilder>
{
    MegaBlockExecutorFactory::new(
        hardforks(forks),
        MegaEvmFactory::new().with_external_env_factory(SimEnvFactory {
            world: world.clone(),
            plane: plane.clone(),
        }),
        OpAlloyReceiptBuilder::default(),
    )
}

pub fn exec_ctx(b: &BlockCtx, salt: u64) -> MegaBlockExecutionCtx {
    MegaBlockExecutionCtx::new(
        sim_block_hash(salt, b.number - 1),
        Some(sim_block_hash(salt ^ 0xbeac, b.number)),
        Bytes::new(),
        b.limits,
    )
}

pub fn evm_env(b: &BlockCtx) -> EvmEnv<MegaSpecId> {
    let mut cfg = CfgEnv::default();
    cfg.chain_id = CHAIN_ID;
    cfg.spec = b.rules.spec();
    EvmEnv { cfg_env: cfg, block_env: b.env.clone() }
}

#[allow(unused)]
fn _unused(_: &dyn MegaHardforks, _: Address) -> Address {
    COINBASE
}
