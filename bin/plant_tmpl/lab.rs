//! A small laboratory around the crate: in-memory storage that can fail, bucket and oracle
//! services, a block executor.
#![allow(dead_code, unused_imports, missing_docs, unreachable_pub, missing_debug_implementations)]

use std::{
    cell::RefCell,
    collections::{BTreeMap, BTreeSet},
    fmt,
    rc::Rc,
};

pub use alloy_consensus::{
    transaction::Recovered, SignableTransaction, TxEip1559, TxEip2930, TxLegacy,
};
pub use alloy_eips::eip2930::{AccessList, AccessListItem};
pub use alloy_evm::{block::BlockExecutor, Evm, EvmEnv};
pub use alloy_hardforks::ForkCondition;
use alloy_op_evm::block::OpAlloyReceiptBuilder;
pub use alloy_primitives::{
    address, keccak256, Address, Bytes, Sealable, Signature, TxKind, B256, U256,
};
pub use mega_evm::*;
pub use op_alloy_consensus::TxDeposit;
pub use revm::{
    context::{result::ExecutionResult, BlockEnv, CfgEnv},
    database::State,
    inspector::NoOpInspector,
    state::{AccountInfo, Bytecode, EvmState},
    Database,
};

pub const A: Address = address!("0x1000000000000000000000000000000000000001");
pub const B: Address = address!("0x1000000000000000000000000000000000000002");
pub const C: Address = address!("0xc000000000000000000000000000000000000001");
pub const D: Address = address!("0xc000000000000000000000000000000000000002");
pub const E: Address = address!("0xc000000000000000000000000000000000000003");
pub const FRESH: Address = address!("0xf000000000000000000000000000000000000009");
pub const COINBASE: Address = address!("0xc01ba5ec01ba5ec01ba5ec01ba5ec01ba5ec0000");
pub const ORACLE: Address = address!("0x6342000000000000000000000000000000000001");
pub const SYSTEM: Address = address!("0xA887dCB9D5f39Ef79272801d05Abdf707CFBbD1d");

#[derive(Default)]
pub struct World {
    pub accounts: BTreeMap<Address, (u64, U256, Bytes)>,
    pub storage: BTreeMap<(Address, U256), U256>,
    /// Hand out code only through the by-hash lookup.
    pub lazy_code: bool,
    /// Operations that fail: "basic:<addr>", "slot:<addr>:<key>", "bucket:<id>", "hash:<n>", "code".
    pub fail: BTreeSet<String>,
    pub reads: Vec<String>,
    pub capacity: BTreeMap<u32, u64>,
    pub only_buckets: Option<BTreeSet<u32>>,
    pub oracle: BTreeMap<U256, U256>,
    pub hints: Vec<(Address, B256, Bytes)>,
}
pub type W = Rc<RefCell<World>>;

#[derive(Debug, Clone)]
pub struct Fail(pub String);
impl fmt::Display for Fail {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "injected {}", self.0)
    }
}
impl std::error::Error for Fail {}
impl revm::database_interface::DBErrorMarker for Fail {}

#[derive(Clone)]
pub struct Store(pub W);
impl fmt::Debug for Store {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Store")
    }
}
impl Store {
    fn op(&self, what: String) -> Result<(), Fail> {
        let mut w = self.0.borrow_mut();
        w.reads.push(what.clone());
        if w.fail.contains(&what) {
            return Err(Fail(what));
        }
        Ok(())
    }
}
impl Database for Store {
    type Error = Fail;
    fn basic(&mut self, a: Address) -> Result<Option<AccountInfo>, Fail> {
        self.op(format!("basic:{a}"))?;
        let w = self.0.borrow();
        Ok(w.accounts.get(&a).map(|(n, b, c)| {
            if c.is_empty() {
                AccountInfo { nonce: *n, balance: *b, ..Default::default() }
            } else {
                AccountInfo {
                    nonce: *n,
                    balance: *b,
                    code_hash: keccak256(c),
                    code: (!w.lazy_code).then(|| Bytecode::new_raw(c.clone())),
                }
            }
        }))
    }
    fn code_by_hash(&mut self, h: B256) -> Result<Bytecode, Fail> {
        self.op("code".into())?;
        let w = self.0.borrow();
        Ok(w.accounts
            .values()
            .find(|x| keccak256(&x.2) == h)
            .map(|x| Bytecode::new_raw(x.2.clone()))
            .unwrap_or_default())
    }
    fn storage(&mut self, a: Address, k: U256) -> Result<U256, Fail> {
        self.op(format!("slot:{a}:{k}"))?;
        Ok(self.0.borrow().storage.get(&(a, k)).copied().unwrap_or_default())
    }
    fn block_hash(&mut self, n: u64) -> Result<B256, Fail> {
        self.op(format!("hash:{n}"))?;
        Ok(keccak256(n.to_be_bytes()))
    }
}
impl SaltEnv for Store {
    type Error = Fail;
    fn get_bucket_capacity(&self, id: BucketId) -> Result<u64, Fail> {
        self.op(format!("bucket:{id}"))?;
        let w = self.0.borrow();
        if w.only_buckets.as_ref().is_some_and(|b| !b.contains(&id)) {
            return Err(Fail(format!("bucket {id} is not in the witness")));
        }
        Ok(w.capacity.get(&id).copied().unwrap_or(256))
    }
    fn bucket_id_for_account(a: Address) -> BucketId {
        1000 + a.0[19] as u32
    }
    fn bucket_id_for_slot(a: Address, k: U256) -> BucketId {
        2000 + a.0[19] as u32 * 256 + k.to::<u64>() as u32 % 256
    }
}
impl OracleEnv for Store {
    fn get_oracle_storage(&self, slot: U256) -> Option<U256> {
        self.0.borrow().oracle.get(&slot).copied()
    }
    fn on_hint(&self, from: Address, topic: B256, data: Bytes) {
        self.0.borrow_mut().hints.push((from, topic, data));
    }
}
#[derive(Clone)]
pub struct Envs(pub W);
impl ExternalEnvFactory for Envs {
    type EnvTypes = (Store, Store);
    fn external_envs(&self, _: u64) -> ExternalEnvs<(Store, Store)> {
        ExternalEnvs { salt_env: Store(self.0.clone()), oracle_env: Store(self.0.clone()) }
    }
}

pub type Db = State<Store>;
pub type Ex<'a> = MegaBlockExecutor<
    MegaHardforkConfig,
    MegaEvm<&'a mut Db, NoOpInspector, (Store, Store)>,
    OpAlloyReceiptBuilder,
>;
pub type ExI<'a, I> = MegaBlockExecutor<
    MegaHardforkConfig,
    MegaEvm<&'a mut Db, I, (Store, Store)>,
    OpAlloyReceiptBuilder,
>;
pub type Tx = Recovered<MegaTxEnvelope>;

pub fn world() -> W {
    let w = World::default();
    let w = Rc::new(RefCell::new(w));
    for a in [A, B] {
        account(&w, a, 0, 1_000_000_000_000_000_000, &[]);
    }
    w
}
pub fn account(w: &W, a: Address, nonce: u64, balance: u64, code: &[u8]) {
    w.borrow_mut()
        .accounts
        .insert(a, (nonce, U256::from(balance), Bytes::copy_from_slice(code)));
}
pub fn slot(w: &W, a: Address, k: u64, v: u64) {
    w.borrow_mut().storage.insert((a, U256::from(k)), U256::from(v));
}
pub fn db(w: &W) -> Db {
    State::builder().with_database(Store(w.clone())).with_bundle_update().build()
}

/// All forks up to and including this one active from the start.
pub fn forks(upto: MegaHardfork) -> MegaHardforkConfig {
    let mut c = MegaHardforkConfig::default();
    for f in [
        MegaHardfork::MiniRex,
        MegaHardfork::MiniRex1,
        MegaHardfork::MiniRex2,
        MegaHardfork::Rex,
        MegaHardfork::Rex1,
        MegaHardfork::Rex2,
        MegaHardfork::Rex3,
        MegaHardfork::Rex4,
    ] {
        c = c.with(f, ForkCondition::Timestamp(0));
        if f == upto {
            break;
        }
    }
    c
}

pub fn block_env(number: u64, time: u64) -> BlockEnv {
    BlockEnv {
        number: U256::from(number),
        timestamp: U256::from(time),
        beneficiary: COINBASE,
        gas_limit: 100_000_000_000,
        basefee: 0,
        prevrandao: Some(B256::from(U256::from(7))),
        ..Default::default()
    }
}

pub fn executor<'a>(
    w: &W,
    db: &'a mut Db,
    forks: MegaHardforkConfig,
    spec: MegaSpecId,
    limits: BlockLimits,
    env: BlockEnv,
) -> Ex<'a> {
    let f = MegaBlockExecutorFactory::new(
        forks,
        MegaEvmFactory::new().with_external_env_factory(Envs(w.clone())),
        OpAlloyReceiptBuilder::default(),
    );
    let mut cfg = CfgEnv::default();
    cfg.chain_id = 4326;
    cfg.spec = spec;
    f.create_executor(
        db,
        MegaBlockExecutionCtx::new(B256::repeat_byte(1), Some(B256::ZERO), Bytes::new(), limits),
        EvmEnv { cfg_env: cfg, block_env: env },
    )
}
pub fn executor_inspected<'a, I>(
    w: &W,
    db: &'a mut Db,
    forks: MegaHardforkConfig,
    spec: MegaSpecId,
    limits: BlockLimits,
    env: BlockEnv,
    insp: I,
) -> ExI<'a, I>
where
    I: revm::Inspector<MegaContext<&'a mut Db, (Store, Store)>> + 'a,
{
    let f = MegaBlockExecutorFactory::new(
        forks,
        MegaEvmFactory::new().with_external_env_factory(Envs(w.clone())),
        OpAlloyReceiptBuilder::default(),
    );
    let mut cfg = CfgEnv::default();
    cfg.chain_id = 4326;
    cfg.spec = spec;
    f.create_executor_with_inspector(
        db,
        MegaBlockExecutionCtx::new(B256::repeat_byte(1), Some(B256::ZERO), Bytes::new(), limits),
        EvmEnv { cfg_env: cfg, block_env: env },
        insp,
    )
}

pub fn unlimited() -> BlockLimits {
    BlockLimits::no_limits()
}

pub fn legacy(from: Address, nonce: u64, to: Option<Address>, gas: u64, value: u64, input: &[u8]) -> Tx {
    let tx = TxLegacy {
        chain_id: Some(4326),
        nonce,
        gas_price: 0,
        gas_limit: gas,
        to: to.map_or(TxKind::Create, TxKind::Call),
        value: U256::from(value),
        input: Bytes::copy_from_slice(input),
    };
    Recovered::new_unchecked(
        MegaTxEnvelope::Legacy(tx.into_signed(Signature::test_signature())),
        from,
    )
}
pub fn deposit(from: Address, to: Option<Address>, gas: u64, mint: u64, value: u64, input: &[u8]) -> Tx {
    let tx = TxDeposit {
        source_hash: B256::repeat_byte(9),
        from,
        to: to.map_or(TxKind::Create, TxKind::Call),
        mint: mint as u128,
        value: U256::from(value),
        gas_limit: gas,
        is_system_transaction: false,
        input: Bytes::copy_from_slice(input),
    };
    Recovered::new_unchecked(MegaTxEnvelope::Deposit(tx.seal_slow()), from)
}

// ---- tiny assembler -----------------------------------------------------------------------
pub fn push(n: u64) -> Vec<u8> {
    let b = n.to_be_bytes();
    let skip = b.iter().take_while(|x| **x == 0).count().min(7);
    let mut v = vec![0x60 + (7 - skip) as u8];
    v.extend_from_slice(&b[skip..]);
    v
}
pub fn push_addr(a: Address) -> Vec<u8> {
    let mut v = vec![0x73];
    v.extend_from_slice(a.as_slice());
    v
}
pub fn code(parts: &[Vec<u8>]) -> Vec<u8> {
    parts.concat()
}
pub fn op(b: &[u8]) -> Vec<u8> {
    b.to_vec()
}
pub fn sstore(k: u64, v: u64) -> Vec<u8> {
    [push(v), push(k), op(&[0x55])].concat()
}
/// CALL with no input and output; leaves the success flag.
pub fn call(to: Address, value: u64, gas: u64) -> Vec<u8> {
    [op(&[0x5f, 0x5f, 0x5f, 0x5f]), push(value), push_addr(to), push(gas), op(&[0xf1])].concat()
}
