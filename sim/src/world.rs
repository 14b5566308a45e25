//! The simulated world around the real code: durable ledger, fault-injecting database,
//! bucket-capacity source, oracle service. All nondeterminism of the system under test enters here.

use std::{
    cell::RefCell,
    collections::{BTreeMap, BTreeSet},
    fmt,
    rc::Rc,
};

use mega_evm::{
    alloy_primitives::{keccak256, Address, Bytes, B256, U256},
    revm::{
        database::{states::AccountStatus as DbStatus, BundleState},
        state::{AccountInfo, Bytecode, EvmState},
        Database,
    },
    BucketId, ExternalEnvFactory, ExternalEnvs, OracleEnv, SaltEnv,
};

use crate::rng::mix;

// ---------------------------------------------------------------------------------------------
// Durable ledger
// ---------------------------------------------------------------------------------------------

#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct LAcct {
    pub nonce: u64,
    pub balance: U256,
    pub code: Bytes,
    pub storage: BTreeMap<U256, U256>,
}

impl LAcct {
    pub fn is_blank(&self) -> bool {
        self.nonce == 0 && self.balance.is_zero() && self.code.is_empty()
    }
}

/// World state kept by the simulator itself; its commit rules are written here independently of the
/// database layer of revm.
#[derive(Clone, Default, PartialEq, Eq)]
pub struct Ledger {
    pub accts: BTreeMap<Address, LAcct>,
}

impl Ledger {
    pub fn get(&self, a: &Address) -> LAcct {
        self.accts.get(a).cloned().unwrap_or_default()
    }
    pub fn balance(&self, a: &Address) -> U256 {
        self.accts.get(a).map(|x| x.balance).unwrap_or_default()
    }
    pub fn nonce(&self, a: &Address) -> u64 {
        self.accts.get(a).map(|x| x.nonce).unwrap_or_default()
    }
    pub fn slot(&self, a: &Address, k: &U256) -> U256 {
        self.accts.get(a).and_then(|x| x.storage.get(k).copied()).unwrap_or_default()
    }
    pub fn set_slot(&mut self, a: Address, k: U256, v: U256) {
        let acct = self.accts.entry(a).or_default();
        if v.is_zero() {
            acct.storage.remove(&k);
        } else {
            acct.storage.insert(k, v);
        }
    }
    pub fn supply(&self) -> U256 {
        self.accts.values().fold(U256::ZERO, |s, a| s.wrapping_add(a.balance))
    }

    /// Applies the state changes of one transaction or system step.
    pub fn apply(&mut self, state: &EvmState) {
        let mut addrs: Vec<_> = state.keys().copied().collect();
        addrs.sort();
        for a in addrs {
            let acc = &state[&a];
            if !acc.is_touched() {
                continue;
            }
            if acc.is_selfdestructed() {
                self.accts.remove(&a);
                continue;
            }
            let old = self.accts.remove(&a).unwrap_or_default();
            let code = match &acc.info.code {
                Some(c) => c.original_bytes(),
                None if acc.info.code_hash == AccountInfo::default().code_hash => Bytes::new(),
                None => old.code.clone(),
            };
            let mut new = LAcct {
                nonce: acc.info.nonce,
                balance: acc.info.balance,
                code,
                storage: if acc.is_created() { BTreeMap::new() } else { old.storage },
            };
            for (k, s) in &acc.storage {
                if !acc.is_created() && !s.is_changed() {
                    continue;
                }
                if s.present_value.is_zero() {
                    new.storage.remove(k);
                } else {
                    new.storage.insert(*k, s.present_value);
                }
            }
            if !new.is_blank() {
                self.accts.insert(a, new);
            }
        }
    }

    /// Applies a block's persisted delta, as a node's storage layer does.
    pub fn apply_bundle(&mut self, bundle: &BundleState) {
        let mut addrs: Vec<_> = bundle.state.keys().copied().collect();
        addrs.sort();
        for a in addrs {
            let acc = &bundle.state[&a];
            let wiped = matches!(
                acc.status,
                DbStatus::Destroyed | DbStatus::DestroyedChanged | DbStatus::DestroyedAgain
            );
            let mut old = self.accts.remove(&a).unwrap_or_default();
            if wiped {
                old.storage.clear();
            }
            let Some(info) = &acc.info else {
                continue;
            };
            let code = match &info.code {
                Some(c) => c.original_bytes(),
                None => bundle
                    .contracts
                    .get(&info.code_hash)
                    .map(|c| c.original_bytes())
                    .unwrap_or(old.code.clone()),
            };
            let mut new =
                LAcct { nonce: info.nonce, balance: info.balance, code, storage: old.storage };
            for (k, s) in &acc.storage {
                if s.present_value.is_zero() {
                    new.storage.remove(k);
                } else {
                    new.storage.insert(*k, s.present_value);
                }
            }
            if !new.is_blank() {
                self.accts.insert(a, new);
            }
        }
    }

    pub fn digest(&self) -> u64 {
        let mut h = Hasher::new();
        for (a, acct) in &self.accts {
            h.put(a.as_slice());
            h.put(&acct.nonce.to_be_bytes());
            h.put(&acct.balance.to_be_bytes::<32>());
            h.put(&acct.code);
            for (k, v) in &acct.storage {
                h.put(&k.to_be_bytes::<32>());
                h.put(&v.to_be_bytes::<32>());
            }
        }
        h.finish()
    }

    /// First difference between two ledgers, for reports.
    pub fn diff(&self, other: &Ledger) -> Option<String> {
        let keys: BTreeSet<_> = self.accts.keys().chain(other.accts.keys()).collect();
        for a in keys {
            let (x, y) = (self.get(a), other.get(a));
            if x == y {
                continue;
            }
            if x.nonce != y.nonce {
                return Some(format!("{a} nonce {} vs {}", x.nonce, y.nonce));
            }
            if x.balance != y.balance {
                return Some(format!("{a} balance {} vs {}", x.balance, y.balance));
            }
            if x.code != y.code {
                return Some(format!("{a} code {}B vs {}B", x.code.len(), y.code.len()));
            }
            let slots: BTreeSet<_> = x.storage.keys().chain(y.storage.keys()).collect();
            for k in slots {
                let (p, q) = (x.storage.get(k), y.storage.get(k));
                if p != q {
                    return Some(format!("{a} slot {k:#x}: {p:?} vs {q:?}"));
                }
            }
        }
        None
    }
}

/// FNV-style streaming hash; stable across processes.
pub struct Hasher(u64);
impl Hasher {
    pub fn new() -> Self {
        Hasher(0xcbf29ce484222325)
    }
    pub fn put(&mut self, b: &[u8]) {
        for x in b {
            self.0 = (self.0 ^ *x as u64).wrapping_mul(0x100000001b3);
        }
        self.0 = mix(self.0 ^ b.len() as u64);
    }
    pub fn finish(&self) -> u64 {
        mix(self.0)
    }
}
pub fn hash_str(s: &str) -> u64 {
    let mut h = Hasher::new();
    h.put(s.as_bytes());
    h.finish()
}

// ---------------------------------------------------------------------------------------------
// Fault plane
// ---------------------------------------------------------------------------------------------

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, serde::Serialize, serde::Deserialize)]
pub enum OpKind {
    Basic,
    Code,
    Storage,
    BlockHash,
    Salt,
}

/// Which infrastructure operation fails. `at` counts operations since arming.
#[derive(Clone, Copy, Debug, serde::Serialize, serde::Deserialize)]
pub struct FaultPlan {
    pub at: u64,
    /// Number of consecutive operations that fail from `at` on (u64::MAX: until disarmed).
    pub len: u64,
    /// Restrict to one kind (then `at` counts operations of that kind only).
    pub kind: Option<OpKind>,
}

#[derive(Default)]
pub struct Plane {
    pub plan: Option<FaultPlan>,
    pub seen: u64,
    pub fired: BTreeMap<OpKind, u64>,
    pub fired_now: u64,
    pub ops: u64,
    pub total_fired: u64,
    /// When set: every account (None) and slot (Some) read from storage.
    pub reads: Option<BTreeSet<(Address, Option<U256>)>>,
    /// Block hashes read from storage.
    pub hash_reads: BTreeSet<u64>,
}

impl Plane {
    pub fn arm(&mut self, plan: FaultPlan) {
        self.plan = Some(plan);
        self.seen = 0;
        self.fired_now = 0;
    }
    pub fn disarm(&mut self) -> u64 {
        self.plan = None;
        std::mem::take(&mut self.fired_now)
    }
    /// True: this operation fails.
    pub fn hit(&mut self, kind: OpKind) -> bool {
        self.ops += 1;
        let Some(p) = self.plan else { return false };
        if p.kind.is_some_and(|k| k != kind) {
            return false;
        }
        let n = self.seen;
        self.seen += 1;
        if n >= p.at && n - p.at < p.len {
            *self.fired.entry(kind).or_default() += 1;
            self.fired_now += 1;
            self.total_fired += 1;
            true
        } else {
            false
        }
    }
}

#[derive(Debug, Clone)]
pub struct SimDbError(pub String);
impl fmt::Display for SimDbError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "injected storage failure: {}", self.0)
    }
}
impl std::error::Error for SimDbError {}
impl mega_evm::revm::database_interface::DBErrorMarker for SimDbError {}

// ---------------------------------------------------------------------------------------------
// Database
// ---------------------------------------------------------------------------------------------

/// Database view of a ledger snapshot.
pub struct LedgerDb {
    pub ledger: Rc<Ledger>,
    pub plane: Rc<RefCell<Plane>>,
    /// Return account code lazily (via the code-by-hash path) instead of inline.
    pub lazy_code: bool,
    codes: BTreeMap<B256, Bytes>,
    /// Chain identity for block hashes.
    pub hash_salt: u64,
    /// Block hashes available; `None`: all.
    pub hash_filter: Option<BTreeMap<u64, B256>>,
}

impl fmt::Debug for LedgerDb {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("LedgerDb")
    }
}

pub fn sim_block_hash(salt: u64, n: u64) -> B256 {
    let mut b = [0u8; 16];
    b[..8].copy_from_slice(&salt.to_be_bytes());
    b[8..].copy_from_slice(&n.to_be_bytes());
    keccak256(b)
}

impl LedgerDb {
    pub fn new(ledger: Rc<Ledger>, plane: Rc<RefCell<Plane>>, lazy_code: bool, salt: u64) -> Self {
        let codes = ledger
            .accts
            .values()
            .filter(|a| !a.code.is_empty())
            .map(|a| (keccak256(&a.code), a.code.clone()))
            .collect();
        LedgerDb { ledger, plane, lazy_code, codes, hash_salt: salt, hash_filter: None }
    }
}

pub fn to_bytecode(code: &Bytes) -> Bytecode {
    if code.is_empty() {
        Bytecode::default()
    } else {
        Bytecode::new_raw_checked(code.clone())
            .unwrap_or_else(|_| Bytecode::new_legacy(code.clone()))
    }
}

impl Database for LedgerDb {
    type Error = SimDbError;

    fn basic(&mut self, address: Address) -> Result<Option<AccountInfo>, SimDbError> {
        if self.plane.borrow_mut().hit(OpKind::Basic) {
            return Err(SimDbError(format!("basic {address}")));
        }
        if let Some(r) = &mut self.plane.borrow_mut().reads {
            r.insert((address, None));
        }
        // Some stores answer "empty account" instead of "no account" for some addresses.
        if self.hash_salt % 3 == 0 && address[..2] == [0xf0, 0x51] && !self.ledger.accts.contains_key(&address) {
            return Ok(Some(AccountInfo::default()));
        }
        Ok(self.ledger.accts.get(&address).map(|a| {
            if a.code.is_empty() {
                AccountInfo { balance: a.balance, nonce: a.nonce, ..Default::default() }
            } else {
                AccountInfo {
                    balance: a.balance,
                    nonce: a.nonce,
                    code_hash: keccak256(&a.code),
                    code: (!self.lazy_code).then(|| to_bytecode(&a.code)),
                }
            }
        }))
    }

    fn code_by_hash(&mut self, code_hash: B256) -> Result<Bytecode, SimDbError> {
        if self.plane.borrow_mut().hit(OpKind::Code) {
            return Err(SimDbError(format!("code {code_hash}")));
        }
        Ok(self.codes.get(&code_hash).map(to_bytecode).unwrap_or_default())
    }

    fn storage(&mut self, address: Address, index: U256) -> Result<U256, SimDbError> {
        if self.plane.borrow_mut().hit(OpKind::Storage) {
            return Err(SimDbError(format!("storage {address} {index}")));
        }
        if let Some(r) = &mut self.plane.borrow_mut().reads {
            r.insert((address, Some(index)));
        }
        Ok(self.ledger.slot(&address, &index))
    }

    fn block_hash(&mut self, number: u64) -> Result<B256, SimDbError> {
        if self.plane.borrow_mut().hit(OpKind::BlockHash) {
            return Err(SimDbError(format!("block hash {number}")));
        }
        self.plane.borrow_mut().hash_reads.insert(number);
        match &self.hash_filter {
            None => Ok(sim_block_hash(self.hash_salt, number)),
            Some(m) => m
                .get(&number)
                .copied()
                .ok_or_else(|| SimDbError(format!("block hash {number} not in witness"))),
        }
    }
}

// ---------------------------------------------------------------------------------------------
// External environments
// ---------------------------------------------------------------------------------------------

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum EnvEvent {
    OracleRead(U256, Option<U256>),
    Hint(Address, B256, Bytes),
    SaltRead(BucketId),
    EnvsCreated(u64),
}

#[derive(Default)]
pub struct EnvWorld {
    /// Bucket capacities by block the environment is created for; looked up with the greatest key
    /// that is <= block.
    pub salt: BTreeMap<u64, BTreeMap<BucketId, u64>>,
    pub default_capacity: u64,
    /// Buckets the source knows; `None`: all.
    pub salt_filter: Option<BTreeSet<BucketId>>,
    pub oracle: BTreeMap<U256, U256>,
    /// Values that appear in the oracle service once a hint with this topic arrived.
    pub on_hint_set: BTreeMap<B256, (U256, U256)>,
    pub log: Vec<EnvEvent>,
}

#[derive(Clone)]
pub struct SimEnv {
    pub world: Rc<RefCell<EnvWorld>>,
    pub plane: Rc<RefCell<Plane>>,
    pub block: u64,
}

impl fmt::Debug for SimEnv {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("SimEnv")
    }
}

pub const ACCOUNT_BUCKETS: u32 = 12;
pub const SLOT_BUCKETS: u32 = 24;

pub fn account_bucket(a: Address) -> BucketId {
    let mut h = Hasher::new();
    h.put(a.as_slice());
    1000 + (h.finish() % ACCOUNT_BUCKETS as u64) as u32
}
pub fn slot_bucket(a: Address, k: U256) -> BucketId {
    let mut h = Hasher::new();
    h.put(a.as_slice());
    h.put(&k.to_be_bytes::<32>());
    2000 + (h.finish() % SLOT_BUCKETS as u64) as u32
}

impl EnvWorld {
    pub fn capacity(&self, block: u64, bucket: BucketId) -> u64 {
        self.salt
            .range(..=block)
            .next_back()
            .and_then(|(_, m)| m.get(&bucket).copied())
            .unwrap_or(self.default_capacity)
            .max(256)
    }
}

#[derive(Debug, Clone)]
pub struct SaltError(pub String);

impl SaltEnv for SimEnv {
    type Error = SaltError;
    fn get_bucket_capacity(&self, bucket_id: BucketId) -> Result<u64, SaltError> {
        let mut w = self.world.borrow_mut();
        w.log.push(EnvEvent::SaltRead(bucket_id));
        if self.plane.borrow_mut().hit(OpKind::Salt) {
            return Err(SaltError(format!("bucket {bucket_id}")));
        }
        if w.salt_filter.as_ref().is_some_and(|f| !f.contains(&bucket_id)) {
            return Err(SaltError(format!("bucket {bucket_id} not in witness")));
        }
        Ok(w.capacity(self.block, bucket_id))
    }
    fn bucket_id_for_account(account: Address) -> BucketId {
        account_bucket(account)
    }
    fn bucket_id_for_slot(address: Address, key: U256) -> BucketId {
        slot_bucket(address, key)
    }
}

impl OracleEnv for SimEnv {
    fn get_oracle_storage(&self, slot: U256) -> Option<U256> {
        let mut w = self.world.borrow_mut();
        let v = w.oracle.get(&slot).copied();
        w.log.push(EnvEvent::OracleRead(slot, v));
        v
    }
    fn on_hint(&self, from: Address, topic: B256, data: Bytes) {
        let mut w = self.world.borrow_mut();
        w.log.push(EnvEvent::Hint(from, topic, data));
        if let Some((k, v)) = w.on_hint_set.get(&topic).copied() {
            w.oracle.insert(k, v);
        }
    }
}

#[derive(Clone)]
pub struct SimEnvFactory {
    pub world: Rc<RefCell<EnvWorld>>,
    pub plane: Rc<RefCell<Plane>>,
}

impl ExternalEnvFactory for SimEnvFactory {
    type EnvTypes = (SimEnv, SimEnv);
    fn external_envs(&self, block: u64) -> ExternalEnvs<(SimEnv, SimEnv)> {
        self.world.borrow_mut().log.push(EnvEvent::EnvsCreated(block));
        let e = SimEnv { world: self.world.clone(), plane: self.plane.clone(), block };
        ExternalEnvs { salt_env: e.clone(), oracle_env: e }
    }
}
