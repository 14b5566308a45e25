//! What a test file should say and what its verdict should be, computed without the runner: for
//! Ethereum forks by upstream revm's mainnet EVM, for MegaETH forks by the library's own EVM over
//! another database; roots by alloy-trie.
use std::collections::BTreeMap;

use k256::ecdsa::SigningKey;
use mega_evm::{
    alloy_eips::{eip2930::{AccessList, AccessListItem}, eip7702::{Authorization, SignedAuthorization}},
    alloy_primitives::{hex, keccak256, Address, Bytes, B256, U256},
    revm::{
        context::{block::BlockEnv, cfg::CfgEnv, tx::TxEnv},
        context_interface::{block::BlobExcessGasAndPrice, result::ExecutionResult},
        database::{in_memory_db::CacheDB, AccountState, EmptyDB},
        primitives::{hardfork::SpecId, Log, TxKind},
        state::{AccountInfo, Bytecode},
        Context, ExecuteCommitEvm, MainBuilder, MainContext,
    },
    Either, MegaContext, MegaEvm, MegaSpecId, MegaTransaction,
};
use serde_json::{json, Value};

use crate::scenario::*;

/// In the order the runner's type orders them; Constantinople is skipped, the last one unknown.
pub const SPECS: &[&str] = &[
    "Frontier", "Homestead", "EIP150", "EIP158", "Byzantium", "Constantinople",
    "ConstantinopleFix", "Istanbul", "Berlin", "London", "Paris", "Merge", "Shanghai", "Cancun",
    "Prague", "MiniRex", "Verkle",
];
pub const SKIPPED_SPEC: usize = 5;
const PRAGUE: usize = 14;
pub const MINI_REX: usize = 15;
pub const UNKNOWN: usize = 16;

const VAULT: Address = mega_evm::alloy_primitives::address!("0x4200000000000000000000000000000000000019");

/// 0..=3 hold keys, the rest are contracts and strangers.
pub fn key(who: u8) -> [u8; 32] {
    let mut k = [7u8; 32];
    k[31] = who + 1;
    k
}
pub fn addr(who: u8) -> Address {
    if who < 4 {
        let k = SigningKey::from_slice(&key(who)).unwrap();
        Address::from_public_key(k.verifying_key())
    } else {
        let mut a = [0u8; 20];
        a[0] = 0xc0;
        a[19] = who;
        Address::from(a)
    }
}

fn push(o: &mut Vec<u8>, v: U256) {
    let b = v.to_be_bytes::<32>();
    let skip = b.iter().take_while(|x| **x == 0).count().min(31);
    o.push(0x60 + (31 - skip) as u8);
    o.extend_from_slice(&b[skip..]);
}
fn p(o: &mut Vec<u8>, v: u64) {
    push(o, U256::from(v));
}
fn pa(o: &mut Vec<u8>, who: u8) {
    o.push(0x73);
    o.extend_from_slice(addr(who).as_slice());
}
/// Every gadget leaves the stack as it found it.
pub fn assemble(ops: &[Op]) -> Vec<u8> {
    let mut o = vec![];
    for op in ops {
        match op {
            Op::Store(k, v) => {
                p(&mut o, *v);
                p(&mut o, *k as u64);
                o.push(0x55);
            }
            Op::Env(code, k) => {
                if *code == 0x49 {
                    p(&mut o, *k as u64 % 3);
                }
                o.push(*code);
                p(&mut o, *k as u64);
                o.push(0x55);
            }
            Op::Load(k) => {
                p(&mut o, *k as u64);
                o.extend([0x54, 0x60, 0x20, 0x52]);
            }
            Op::Log(n, len) => {
                for t in 0..*n {
                    p(&mut o, 0xabc0 + t as u64);
                }
                p(&mut o, *len as u64);
                p(&mut o, 0);
                o.push(0xa0 + n);
            }
            Op::Call { kind, to, value, gas } => {
                p(&mut o, 0x20);
                p(&mut o, 0x40);
                p(&mut o, 0x20);
                p(&mut o, 0);
                if *kind < 2 {
                    p(&mut o, *value);
                }
                pa(&mut o, *to);
                p(&mut o, *gas as u64);
                o.push([0xf1, 0xf2, 0xf4, 0xfa][*kind as usize % 4]);
                o.extend([0x60, 0x60, 0x52]);
            }
            Op::Create { two, value, code } => {
                let code = assemble(code);
                for (i, chunk) in code.chunks(32).enumerate() {
                    let mut w = [0u8; 32];
                    w[..chunk.len()].copy_from_slice(chunk);
                    o.push(0x7f);
                    o.extend(w);
                    p(&mut o, 0x100 + 32 * i as u64);
                    o.push(0x52);
                }
                if *two {
                    p(&mut o, 5);
                }
                p(&mut o, code.len() as u64);
                p(&mut o, 0x100);
                p(&mut o, *value);
                o.push(if *two { 0xf5 } else { 0xf0 });
                o.extend([0x60, 0x80, 0x52]);
            }
            Op::Transient(k, v) => {
                p(&mut o, *v);
                p(&mut o, *k as u64);
                o.push(0x5d);
                p(&mut o, *k as u64);
                o.extend([0x5c, 0x5f, 0x52]);
            }
            Op::Hash(n) => {
                p(&mut o, *n as u64);
                o.extend([0x5f, 0x20, 0x5f, 0x52]);
            }
            Op::Expand(kb) => {
                o.push(0x5f);
                p(&mut o, *kb as u64 * 1024);
                o.push(0x52);
            }
            Op::Balance(w) => {
                pa(&mut o, *w);
                o.extend([0x31, 0x5f, 0x52]);
            }
            Op::CodeHash(w) => {
                pa(&mut o, *w);
                o.extend([0x3f, 0x5f, 0x52]);
            }
            Op::Input(k) => {
                o.extend([0x5f, 0x35]);
                p(&mut o, *k as u64);
                o.push(0x55);
            }
            Op::Return(n) => {
                p(&mut o, *n as u64);
                o.extend([0x5f, 0xf3]);
            }
            Op::Revert(n) => {
                p(&mut o, *n as u64);
                o.extend([0x5f, 0xfd]);
            }
            Op::Stop => o.push(0x00),
            Op::Invalid => o.push(0xfe),
            Op::Destroy(w) => {
                pa(&mut o, *w);
                o.push(0xff);
            }
            // As init code: deploys a contract of n+1 bytes STOP.
            Op::Deploy(n) => {
                p(&mut o, *n as u64 + 1);
                p(&mut o, 0x800);
                o.push(0xf3);
            }
        }
    }
    o
}

/// No account of the pre-state is empty (their fate in a root is not at issue).
fn balance_of(a: &AccountSpec) -> u64 {
    a.balance.max(1)
}

fn code_of(a: &AccountSpec) -> Bytes {
    match a.delegate {
        Some(d) => {
            let mut v = hex!("ef0100").to_vec();
            v.extend_from_slice(addr(d).as_slice());
            v.into()
        }
        None => assemble(&a.ops).into(),
    }
}

pub fn data_of(d: &Data) -> Bytes {
    match d {
        Data::Bytes(b) => b.clone().into(),
        Data::Init(ops) => assemble(ops).into(),
    }
}

fn signed(a: &AuthSpec) -> SignedAuthorization {
    let auth = Authorization { chain_id: U256::from(a.chain), address: addr(a.address), nonce: a.nonce };
    let k = SigningKey::from_slice(&key(a.signer)).unwrap();
    let (sig, rec) = k.sign_prehash_recoverable(auth.signature_hash().as_slice()).unwrap();
    let b = sig.to_bytes();
    let r = U256::from_be_slice(&b[..32]);
    let s = if a.broken { U256::from(3) } else { U256::from_be_slice(&b[32..]) };
    SignedAuthorization::new_unchecked(auth, rec.to_byte(), r, s)
}

/// None: the parts do not describe any transaction.
fn tx_env(t: &TxSpec, c: &CaseSpec) -> Option<TxEnv> {
    if !t.named && t.bad_key {
        return None;
    }
    let d = c.d as usize % t.data.len();
    let access = t.access.get(d).cloned().flatten();
    let ty = if t.blobs.is_some() {
        t.to?;
        3
    } else if t.auths.is_some() {
        t.to?;
        4
    } else if t.max_fee.is_some() {
        2
    } else if access.is_some() {
        1
    } else {
        0
    };
    Some(TxEnv {
        tx_type: ty,
        caller: addr(t.sender),
        gas_limit: t.gas[c.g as usize % t.gas.len()],
        gas_price: t.gas_price.or(t.max_fee).unwrap_or(0) as u128,
        blob_hashes: blob_hashes(t),
        max_fee_per_blob_gas: t.blobs.map_or(0, |b| b.2 as u128),
        gas_priority_fee: t.priority.map(|x| x as u128),
        kind: t.to.map_or(TxKind::Create, |w| TxKind::Call(addr(w))),
        value: U256::from(t.value[c.v as usize % t.value.len()]),
        data: data_of(&t.data[d]),
        nonce: t.nonce,
        access_list: AccessList(
            access
                .unwrap_or_default()
                .iter()
                .map(|(w, k)| AccessListItem {
                    address: addr(*w),
                    storage_keys: vec![B256::with_last_byte(*k)],
                })
                .collect(),
        ),
        authorization_list: t
            .auths
            .iter()
            .flatten()
            .map(|a| Either::Left(signed(a)))
            .collect(),
        ..TxEnv::default()
    })
}

fn blob_hashes(t: &TxSpec) -> Vec<B256> {
    let (good, bad, _) = t.blobs.unwrap_or_default();
    (0..good + bad)
        .map(|i| {
            let mut h = keccak256([i]);
            h.0[0] = if i < good { 1 } else { 9 };
            h
        })
        .collect()
}

/// Which fork's blob fees: the case's own, or (as found) always Cancun's.
fn block_env(e: &EnvSpec, prague: bool) -> BlockEnv {
    let (target, fraction) = if prague { (786_432, 5_007_716) } else { (393_216, 3_338_477) };
    let excess = e.blob.map(|b| match b {
        Blob::Current(x) => x,
        Blob::Parent { used, excess } => (used + excess).saturating_sub(target),
    });
    let fee = excess.map_or(BlockEnv::default().blob_excess_gas_and_price, |x| {
        let blob_gasprice = mega_evm::alloy_eips::eip4844::fake_exponential(1, x as u128, fraction);
        Some(BlobExcessGasAndPrice { excess_blob_gas: x, blob_gasprice })
    });
    BlockEnv {
        blob_excess_gas_and_price: fee,
        number: U256::from(e.number),
        beneficiary: addr(e.coinbase),
        timestamp: U256::from(e.time),
        gas_limit: e.gas_limit,
        basefee: e.basefee.unwrap_or(0),
        difficulty: U256::from(e.difficulty),
        prevrandao: Some(e.random.map_or(B256::ZERO, |r| B256::from(U256::from(r)))),
        ..BlockEnv::default()
    }
}

#[derive(Clone, Debug)]
pub struct Outcome {
    pub refused: bool,
    pub root: B256,
    pub logs: B256,
    pub output: Option<Bytes>,
    pub gas: u64,
    /// First word of the result.
    pub kind: &'static str,
}

fn logs_hash(logs: &[Log]) -> B256 {
    let mut b = vec![];
    alloy_rlp::encode_list(logs, &mut b);
    keccak256(&b)
}

fn root(db: &CacheDB<EmptyDB>) -> B256 {
    let mut accounts = BTreeMap::new();
    for (a, x) in &db.cache.accounts {
        if *a == VAULT || x.account_state == AccountState::NotExisting || x.info.is_empty() {
            continue;
        }
        let storage = x.storage.iter().filter(|s| !s.1.is_zero()).map(|s| (B256::from(*s.0), *s.1));
        accounts.insert(
            *a,
            alloy_trie::TrieAccount {
                nonce: x.info.nonce,
                balance: x.info.balance,
                storage_root: alloy_trie::root::storage_root_unhashed(storage),
                code_hash: x.info.code_hash,
            },
        );
    }
    alloy_trie::root::state_root_unhashed(accounts)
}

fn finish<H, E: std::fmt::Debug>(r: Result<ExecutionResult<H>, E>, db: &CacheDB<EmptyDB>) -> Outcome {
    if let (Err(e), true) = (&r, std::env::var_os("STRUN_WHY").is_some()) {
        eprintln!("refused: {e:?}");
    }
    Outcome {
        refused: r.is_err(),
        root: root(db),
        logs: logs_hash(r.as_ref().map(|x| x.logs()).unwrap_or_default()),
        output: r.as_ref().ok().and_then(|x| x.output().cloned()),
        gas: r.as_ref().map(|x| x.gas_used()).unwrap_or(0),
        kind: match &r {
            Ok(ExecutionResult::Success { .. }) => "Success",
            Ok(ExecutionResult::Revert { .. }) => "Revert",
            Ok(ExecutionResult::Halt { .. }) => "Halt",
            Err(_) => "",
        },
    }
}

/// None: no transaction can be formed.
fn execute(u: &UnitSpec, c: &CaseSpec, spec: usize, found: u8) -> Option<Outcome> {
    let prague = spec == PRAGUE && found & CANCUN_BLOBS == 0;
    let tx = tx_env(&u.tx, c)?;
    let mut db = CacheDB::new(EmptyDB::default());
    for a in &u.accounts {
        let code = code_of(a);
        let info = AccountInfo {
            balance: U256::from(balance_of(a)),
            nonce: a.nonce,
            code_hash: keccak256(&code),
            code: Some(Bytecode::new_raw(code)),
        };
        db.insert_account_info(addr(a.who), info);
        for (k, v) in &a.storage {
            db.insert_account_storage(addr(a.who), U256::from(*k), U256::from(*v)).unwrap();
        }
    }
    let block = block_env(&u.env, prague);
    let chain = u.env.chain_id.unwrap_or(6342);
    if spec == MINI_REX {
        let mut cfg = CfgEnv::new_with_spec(MegaSpecId::MINI_REX);
        cfg.chain_id = chain;
        cfg.set_max_blobs_per_tx(9);
        let ctx = if found & NO_LIMITS == 0 {
            MegaContext::new(&mut db, MegaSpecId::MINI_REX)
        } else {
            MegaContext::new(&mut db, MegaSpecId::EQUIVALENCE)
        };
        let ctx = ctx.with_cfg(cfg).with_block(block);
        let mut t = MegaTransaction::new(tx);
        t.enveloped_tx = Some(Bytes::default());
        let r = MegaEvm::new(ctx).transact_commit(t);
        Some(finish(r, &db))
    } else {
        let mut cfg = CfgEnv::new_with_spec(SpecId::PRAGUE);
        cfg.chain_id = chain;
        cfg.set_max_blobs_per_tx(9);
        let r = Context::mainnet()
            .with_db(&mut db)
            .with_cfg(cfg)
            .with_block(block)
            .build_mainnet()
            .transact_commit(tx);
        Some(finish(r, &db))
    }
}

/// What the runner should conclude about one case it executes.
#[derive(Clone, Debug)]
pub struct CaseView {
    pub d: usize,
    pub g: usize,
    pub v: usize,
    /// The rule set printed.
    pub fork: &'static str,
    /// None: no transaction could be formed, nothing executed.
    pub got: Option<Outcome>,
    /// What the file states.
    truth: Option<Outcome>,
    pub error: Option<&'static str>,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum FileVerdict {
    Pass,
    /// Not even read.
    Skip,
    /// (unit, words in the message)
    Fail(String, &'static str),
    /// Reading or interpreting it panics.
    Panic,
}

pub struct FileView {
    pub text: Vec<u8>,
    pub verdict: FileVerdict,
    /// Cases in the order the runner executes them, up to the first failure.
    pub executed: Vec<(String, CaseView)>,
    pub all_cases: usize,
}

fn h(v: u64) -> Value {
    json!(format!("0x{v:x}"))
}

fn unit_json(u: &UnitSpec, out: Option<&Bytes>, post: Value) -> Value {
    let mut pre = serde_json::Map::new();
    for a in &u.accounts {
        let mut st = serde_json::Map::new();
        for (k, v) in &a.storage {
            st.insert(format!("0x{k:02x}"), h(*v));
        }
        pre.insert(
            format!("{:?}", addr(a.who)),
            json!({"balance": h(balance_of(a)), "nonce": h(a.nonce), "code": code_of(a), "storage": st}),
        );
    }
    let e = &u.env;
    let mut env = json!({
        "currentCoinbase": addr(e.coinbase), "currentDifficulty": h(e.difficulty),
        "currentGasLimit": h(e.gas_limit), "currentNumber": h(e.number),
        "currentTimestamp": h(e.time),
    });
    if let Some(c) = e.chain_id {
        env["currentChainID"] = h(c);
    }
    if let Some(b) = e.basefee {
        env["currentBaseFee"] = h(b);
    }
    if let Some(r) = e.random {
        env["currentRandom"] = h(r);
    }
    match e.blob {
        None => {}
        Some(Blob::Current(x)) => env["currentExcessBlobGas"] = h(x),
        Some(Blob::Parent { used, excess }) => {
            env["parentBlobGasUsed"] = h(used);
            env["parentExcessBlobGas"] = h(excess);
        }
    }
    let t = &u.tx;
    let k = if t.bad_key { [0u8; 32] } else { key(t.sender) };
    let mut tx = json!({
        "data": t.data.iter().map(data_of).collect::<Vec<_>>(),
        "gasLimit": t.gas.iter().map(|g| h(*g)).collect::<Vec<_>>(),
        "value": t.value.iter().map(|g| h(*g)).collect::<Vec<_>>(),
        "nonce": h(t.nonce), "secretKey": B256::from(k),
        "to": t.to.map_or(String::new(), |w| format!("{:?}", addr(w))),
    });
    if t.named {
        tx["sender"] = json!(addr(t.sender));
    }
    for (name, v) in [("gasPrice", t.gas_price), ("maxFeePerGas", t.max_fee), ("maxPriorityFeePerGas", t.priority)] {
        if let Some(v) = v {
            tx[name] = h(v);
        }
    }
    if t.access.iter().any(|a| a.is_some()) {
        tx["accessLists"] = t
            .access
            .iter()
            .map(|l| match l {
                None => Value::Null,
                Some(l) => l
                    .iter()
                    .map(|(w, k)| json!({"address": addr(*w), "storageKeys": [B256::with_last_byte(*k)]}))
                    .collect(),
            })
            .collect();
    }
    if let Some(auths) = &t.auths {
        tx["authorizationList"] = auths
            .iter()
            .map(|a| {
                let s = signed(a);
                let mut j = json!({
                    "chainId": h(a.chain), "address": addr(a.address), "nonce": h(a.nonce),
                    "r": format!("0x{:x}", s.r()), "s": format!("0x{:x}", s.s()),
                    "v": h(s.y_parity() as u64), "signer": addr(a.signer),
                });
                if a.both_parities {
                    j["yParity"] = h(s.y_parity() as u64);
                }
                j
            })
            .collect();
    }
    if let Some(b) = t.blobs {
        tx["blobVersionedHashes"] = json!(blob_hashes(t));
        tx["maxFeePerBlobGas"] = h(b.2);
    }
    if t.explicit_type {
        if let Some(x) = tx_env(t, &CaseSpec { d: 0, g: 0, v: 0, wrong: Wrong::Nothing }) {
            tx["type"] = json!(x.tx_type);
        }
    }
    let mut j = json!({"_info": {"comment": "generated"}, "env": env, "pre": pre, "transaction": tx, "post": post});
    if let Some(o) = out {
        j["out"] = json!(o);
    }
    j
}

pub fn unit_name(i: usize) -> String {
    format!("unit{i}")
}

/// Known deviations of the runner.
pub const CANCUN_BLOBS: u8 = 1;
pub const NO_LIMITS: u8 = 2;

/// Which of them can matter for this file.
pub fn at_issue(f: &FileSpec) -> u8 {
    let names = |u: &UnitSpec, s: usize| u.posts.iter().any(|p| p.spec as usize % SPECS.len() == s);
    let blobs = f.units.iter().any(|u| u.env.blob.is_some() && names(u, PRAGUE));
    let limits = f.units.iter().any(|u| names(u, MINI_REX));
    blobs as u8 * CANCUN_BLOBS | limits as u8 * NO_LIMITS
}

/// Builds the file and its verdict, given the deviations `found`.
pub fn view(f: &FileSpec, found: u8) -> FileView {
    let mut suite = serde_json::Map::new();
    let mut executed = vec![];
    let mut verdict = FileVerdict::Pass;
    let mut all_cases = 0;
    for (i, u) in f.units.iter().enumerate() {
        let name = unit_name(i);
        let mut specs: BTreeMap<u8, Vec<CaseSpec>> = BTreeMap::new();
        for post in &u.posts {
            specs.entry(post.spec % SPECS.len() as u8).or_default().extend(post.cases.clone());
        }
        let mut views: Vec<(usize, Vec<(CaseSpec, CaseView)>)> = vec![];
        for (s, cases) in &specs {
            let s = *s as usize;
            let v = cases
                .iter()
                .map(|c| {
                    all_cases += 1;
                    let truth = if s == UNKNOWN { None } else { execute(u, c, s, 0) };
                    let differs = found != 0 && (s == PRAGUE || s == MINI_REX);
                    let got = if differs { execute(u, c, s, found) } else { truth.clone() };
                    let view = CaseView {
                        d: c.d as usize % u.tx.data.len(),
                        g: c.g as usize % u.tx.gas.len(),
                        v: c.v as usize % u.tx.value.len(),
                        fork: if s == MINI_REX { "MINI_REX" } else { "EQUIVALENCE" },
                        got,
                        truth,
                        error: None,
                    };
                    (c.clone(), view)
                })
                .collect();
            views.push((s, v));
        }
        // The unit's output: stated only when every executed case that has one agrees.
        let mut outs: Vec<Bytes> = views
            .iter()
            .filter(|(s, _)| *s != SKIPPED_SPEC && *s != UNKNOWN)
            .flat_map(|(_, v)| v.iter().filter_map(|(_, x)| x.truth.as_ref().and_then(|g| g.output.clone())))
            .collect();
        outs.dedup();
        let out = match (u.out, outs.as_slice()) {
            (Out::Right, [o]) => Some(o.clone()),
            (Out::Wrong, [o, ..]) => {
                let mut w = o.to_vec();
                w.push(0x5a);
                Some(Bytes::from(w))
            }
            _ => None,
        };
        let mut post = serde_json::Map::new();
        for (s, cases) in &mut views {
            let mut list = vec![];
            for (c, x) in cases.iter_mut() {
                let refused = x.truth.as_ref().is_none_or(|g| g.refused);
                let expect = refused != (c.wrong == Wrong::Exception);
                let mut hash = x.truth.as_ref().map_or(B256::ZERO, |g| g.root);
                let mut logs = x.truth.as_ref().map_or(B256::ZERO, |g| g.logs);
                if c.wrong == Wrong::Root {
                    hash.0[(c.d as usize * 7) % 32] ^= 1;
                }
                if c.wrong == Wrong::Logs {
                    logs.0[(c.g as usize * 5 + 31) % 32] ^= 0x80;
                }
                x.error = match &x.got {
                    None if expect => None,
                    None => Some("unknown private key"),
                    Some(g) if g.refused != expect => Some("unexpected exception"),
                    Some(g) if g.refused => None,
                    Some(g) if out.is_some() && g.output.is_some() && g.output != out => Some("unexpected output"),
                    Some(g) if g.logs != logs => Some("logs root mismatch"),
                    Some(g) if g.root != hash => Some("state root mismatch"),
                    Some(_) => None,
                };
                let mut j = json!({
                    "indexes": {"data": x.d, "gas": x.g, "value": x.v},
                    "hash": hash, "logs": logs, "txbytes": "0x00",
                });
                if expect {
                    j["expectException"] = json!("TransactionException.GENERATED");
                }
                list.push(j);
            }
            post.insert(SPECS[*s].to_string(), Value::Array(list));
            if verdict != FileVerdict::Pass || *s == SKIPPED_SPEC {
                continue;
            }
            if *s == UNKNOWN {
                verdict = FileVerdict::Panic;
                continue;
            }
            for (_, x) in cases.iter() {
                if x.got.is_some() {
                    executed.push((name.clone(), x.clone()));
                }
                if let Some(e) = x.error {
                    verdict = FileVerdict::Fail(name.clone(), e);
                    break;
                }
            }
        }
        suite.insert(name, unit_json(u, out.as_ref(), Value::Object(post)));
    }
    let mut text = serde_json::to_vec(&Value::Object(suite)).unwrap();
    match f.state {
        FileState::Fine => {}
        FileState::Skipped(_) => {
            verdict = FileVerdict::Skip;
            executed.clear();
        }
        FileState::Torn(n) => {
            let keep = (text.len() as u64 * n as u64 / 1000) as usize;
            text.truncate(keep.min(text.len() - 1));
            verdict = FileVerdict::Fail("Unknown".into(), "");
            executed.clear();
        }
        FileState::NotText => {
            let i = text.len() / 2;
            text[i] = 0xff;
            verdict = FileVerdict::Panic;
            executed.clear();
        }
        FileState::Vanished | FileState::Directory | FileState::ReadError(_) => {
            verdict = FileVerdict::Panic;
            executed.clear();
        }
    }
    FileView { text, verdict, executed, all_cases }
}
