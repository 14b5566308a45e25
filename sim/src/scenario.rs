//! A `Scenario` is one fully determined simulated history: world, programs, transactions, schedule
//! and faults. It is what a seed expands to, what the minimiser shrinks and what a replay file holds.

use serde::{Deserialize, Serialize};

use crate::world::FaultPlan;

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Serialize, Deserialize)]
pub enum Who {
    Eoa(u8),
    Con(u8),
    Fresh(u8),
    Pre(u16),
    Oracle,
    TimeOracle,
    Keyless,
    Coinbase,
    SysAddr,
    L1Block,
    BaseFeeVault,
    L1FeeVault,
    OpFeeVault,
    KlSigner(u8),
    KlContract(u8),
    /// Where the first contract created by a genesis contract lands.
    Child(u8),
    /// The executing account itself (programs only).
    Me,
    /// The contract most recently created by this frame (programs only).
    Last,
    /// The transaction's sender (programs only).
    Origin,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum CallKind {
    Call,
    Code,
    Delegate,
    Static,
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Input {
    Empty,
    Bytes(Vec<u8>),
    /// `n` bytes of filler, `zeros` of them zero.
    Fill { n: u32, zeros: u32 },
    OracleGet(u64),
    OracleSet(u64, u64),
    OracleHint { topic: u64, len: u16 },
    OracleLog { topic: u64, len: u16 },
    /// Several oracle calls in one.
    OracleMulti(Vec<Input>),
    TimeNow,
    Keyless { idx: u8, gas_override: u64 },
    KeylessRaw { bytes: Vec<u8>, gas_override: u64 },
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Op {
    SStore { slot: u64, val: u64 },
    SStoreAcc { slot: u64 },
    SStoreRange { start: u64, n: u16 },
    SLoad { slot: u64 },
    TStore { slot: u64, val: u64 },
    TLoad { slot: u64 },
    Log { topics: u8, len: u16 },
    Call { kind: CallKind, to: Who, value: u64, gas: Option<u64>, input: Input },
    Create { salt: Option<u64>, init: Vec<Op>, runtime: Vec<Op>, pad: u16, value: u64 },
    SelfDestruct(Who),
    /// Any zero-operand opcode that pushes one word.
    Env(u8),
    BlockHash(u64),
    BlobHash,
    Balance(Who),
    ExtCodeSize(Who),
    ExtCodeHash(Who),
    ExtCodeCopy(Who),
    /// Touch memory word at this offset (quadratic gas burn).
    Mem(u32),
    Keccak(u32),
    Loop { n: u16, body: Vec<Op> },
    IfSlot { slot: u64, body: Vec<Op> },
    /// Runs the body only when at least this much gas is left.
    IfGas { at_least: u64, body: Vec<Op> },
    CalldataWord,
    Revert,
    Invalid,
    Stop,
    Raw(Vec<u8>),
    /// Raw code leaving one word, which is folded.
    Soup(Vec<u8>),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum TxType {
    Legacy,
    Eip2930,
    Eip1559,
    Eip7702,
    Deposit { mint: u64, system: bool },
    /// Legacy transaction sent from the privileged maintenance address.
    System,
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct Auth {
    pub authority: u8,
    pub to: Who,
    pub nonce_delta: i8,
    pub wrong_chain: bool,
    pub bad_sig: bool,
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct TxSpec {
    pub ty: TxType,
    pub from: Who,
    /// `None`: contract creation from `init`/`runtime`.
    pub to: Option<Who>,
    pub init: Vec<Op>,
    pub runtime: Vec<Op>,
    pub pad: u16,
    pub value: u64,
    pub gas: u64,
    pub gas_price: u64,
    pub tip: u64,
    /// 0: next nonce of the sender at the time the sequencer first sees the transaction.
    pub nonce_delta: i64,
    pub input: Input,
    pub access: Vec<(Who, Vec<u64>)>,
    pub auths: Vec<Auth>,
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct KeylessSpec {
    pub nonce: u64,
    pub gas_price: u64,
    pub gas: u64,
    pub value: u64,
    pub init: Vec<Op>,
    pub runtime: Vec<Op>,
    pub pad: u16,
    pub sig: u64,
    /// Not a creation: call this address instead (must be refused).
    pub to: Option<Who>,
    /// Sign as EIP-155 (must be refused).
    pub eip155: bool,
    pub signer_balance: u64,
    pub signer_nonce: u64,
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct EoaSpec {
    pub balance: u64,
    pub nonce: u64,
    pub delegate: Option<Who>,
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct ConSpec {
    pub ops: Vec<Op>,
    pub pad: u16,
    pub balance: u64,
    pub storage: Vec<(u64, u64)>,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct Limits {
    pub tx_gas: u64,
    pub tx_size: u64,
    pub block_size: u64,
    pub tx_da: u64,
    pub block_da: u64,
    pub tx_data: u64,
    pub block_data: u64,
    pub tx_kv: u64,
    pub block_kv: u64,
    pub tx_compute: u64,
    pub block_compute: u64,
    pub tx_growth: u64,
    pub block_growth: u64,
    pub env_compute: u64,
    pub oracle_compute: u64,
}

/// Scheduler decisions and faults inside one block, in order. Indices refer to `BlockSpec::txs`.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Ev {
    /// Execute transaction i against the executor's current state, keep the outcome pending.
    Run(usize),
    /// Commit pending outcome of transaction i (no-op when there is none).
    Commit(usize),
    /// Drop the pending outcome of transaction i.
    Discard(usize),
    /// Run and commit transaction i.
    Exec(usize),
    /// Same as Exec, with an infrastructure fault armed for the run.
    FaultExec(usize, FaultPlan),
    /// Kill the node, restart from durable state, replay the block's committed prefix.
    Crash,
    /// Change the oracle service's value.
    OracleSet(u64, Option<u64>),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct BlockSpec {
    pub dt: u64,
    pub basefee: u64,
    pub coinbase: Who,
    pub gas_limit: u64,
    pub randao: u64,
    pub limits: Limits,
    /// Fault during the pre-execution system steps.
    pub pre_fault: Option<FaultPlan>,
    pub txs: Vec<TxSpec>,
    /// Empty: execute in order.
    pub events: Vec<Ev>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Scenario {
    pub prop: String,
    pub seed: u64,
    /// Activation times of MiniRex, MiniRex1, MiniRex2, Rex, Rex1, Rex2, Rex3, Rex4.
    pub forks: [Option<u64>; 8],
    pub genesis_time: u64,
    pub first_block: u64,
    pub eoas: Vec<EoaSpec>,
    pub contracts: Vec<ConSpec>,
    pub keyless: Vec<KeylessSpec>,
    /// (block, bucket, capacity)
    pub salt: Vec<(u64, u32, u64)>,
    pub salt_default: u64,
    pub oracle: Vec<(u64, u64)>,
    pub hint_sets: Vec<(u64, u64, u64)>,
    pub sys_storage: Vec<(Who, u64, u64)>,
    /// L1 cost parameters (base fee, blob base fee, scalars, operator fee).
    pub l1: [u64; 6],
    pub lazy_code: bool,
    /// Bit 0: block-hash history contract present at genesis, bit 1: beacon-root contract.
    #[serde(default)]
    pub eips: u8,
    /// Protocol accounts that hold funds at genesis.
    #[serde(default)]
    pub sys_pre: Vec<(Who, u64)>,
    pub blocks: Vec<BlockSpec>,
    /// Free per-property knobs.
    pub knobs: Vec<u64>,
}

impl Scenario {
    pub fn knob(&self, i: usize) -> u64 {
        self.knobs.get(i).copied().unwrap_or(0)
    }
}

/// A valid point-evaluation input.
pub const KZG: &str = "01e798154708fe7789429634053cbf9f99b619f9f084048927333fce637f549b73eda753299d7d483339d80809a1d80553bda402fffe5bfeffffffff000000001522a4a7f34e1ea350ae07c29c96c7e79655aa926122e95fe69fcbd932ca49e98f59a8d2a1a625a17f3fea0fe5eb8c896db3764f3185481bc22f91b4aaffcca25f26936857bc3a7c2539ea8ec3a952b7a62ad71d14c5719385c0686f1871430475bf3a00f0aa3f7b8dd99a9abc2160744faf0070725e00b60ad9a026a15b1a8c";

impl Op {
    /// Gives a call of the point-evaluation precompile a valid input (`k` = 0, 1) or leaves it.
    pub fn kzg(mut self, k: u64) -> Self {
        if let Op::Call { to: Who::Pre(10), input, .. } = &mut self {
            if k < 2 {
                let v = KZG.as_bytes().chunks(2).map(|c| {
                    u8::from_str_radix(std::str::from_utf8(c).expect("hex"), 16).expect("hex")
                });
                *input = Input::Bytes(v.collect());
            }
        }
        self
    }
}

/// What the evidence shows of a sampled run.
pub fn summary(sc: &Scenario) -> serde_json::Value {
    serde_json::json!({
        "seed": sc.seed,
        "forks": sc.forks,
        "first_block": sc.first_block,
        "blocks": sc.blocks.len(),
        "txs": sc.blocks.iter().map(|b| b.txs.len()).collect::<Vec<_>>(),
        "events": sc.blocks.iter().map(|b| format!("{:?}", b.events)).collect::<Vec<_>>(),
        "first_tx": sc.blocks.first().and_then(|b| b.txs.first()).map(|t| format!("{t:?}")),
        "contract_0": sc.contracts.first().map(|c| format!("{:?}", c.ops)),
        "salt_entries": sc.salt.len(),
        "knobs": sc.knobs,
    })
}
