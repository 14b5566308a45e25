//! One simulated execution of the state-test tool, as data.
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Scenario {
    pub prop: String,
    pub seed: u64,
    pub files: Vec<FileSpec>,
    /// Through the command line (else the library's run function).
    pub cli: bool,
    /// Command line only: how the files are spread over path arguments (group number per file), and
    /// extra arguments that lead nowhere.
    pub groups: Vec<u8>,
    pub extra: Vec<Extra>,
    pub single_thread: bool,
    pub trace: bool,
    pub json: bool,
    pub keep_going: bool,
    pub parallelism: u8,
    pub schedule: Vec<u8>,
    pub stalls: Vec<(usize, u64, u64)>,
    pub spawn_fail: Vec<usize>,
    pub jumps: Vec<(u64, u64)>,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Extra {
    MissingPath(u8),
    EmptyDir(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct FileSpec {
    pub state: FileState,
    pub units: Vec<UnitSpec>,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum FileState {
    Fine,
    /// Listed, then gone before it is read.
    Vanished,
    /// A directory by the time it is read.
    Directory,
    /// Only this share (per mille) of the bytes made it to disk.
    Torn(u16),
    /// One byte is not UTF-8.
    NotText,
    /// Reads fail with this OS error.
    ReadError(i32),
    /// Named like a test the runner skips.
    Skipped(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct UnitSpec {
    pub accounts: Vec<AccountSpec>,
    pub env: EnvSpec,
    pub tx: TxSpec,
    pub posts: Vec<PostSpec>,
    /// The unit states its expected output (when all its cases agree on one).
    pub out: Out,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Out {
    Absent,
    Right,
    Wrong,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct AccountSpec {
    pub who: u8,
    pub nonce: u64,
    pub balance: u64,
    pub storage: Vec<(u8, u64)>,
    pub ops: Vec<Op>,
    /// EIP-7702 designator instead of code.
    pub delegate: Option<u8>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct EnvSpec {
    pub chain_id: Option<u64>,
    pub number: u64,
    pub time: u64,
    pub gas_limit: u64,
    pub basefee: Option<u64>,
    pub difficulty: u64,
    pub random: Option<u64>,
    pub coinbase: u8,
    pub blob: Option<Blob>,
}

/// What the file says about blob gas.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Blob {
    Current(u64),
    Parent { used: u64, excess: u64 },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct TxSpec {
    pub sender: u8,
    /// The file names the sender (else it follows from the key).
    pub named: bool,
    pub bad_key: bool,
    pub to: Option<u8>,
    pub nonce: u64,
    pub data: Vec<Data>,
    pub gas: Vec<u64>,
    pub value: Vec<u64>,
    pub gas_price: Option<u64>,
    pub max_fee: Option<u64>,
    pub priority: Option<u64>,
    /// Per data index.
    pub access: Vec<Option<Vec<(u8, u8)>>>,
    pub auths: Option<Vec<AuthSpec>>,
    pub explicit_type: bool,
    /// A blob transaction: (well-formed hashes, malformed hashes, fee limit).
    pub blobs: Option<(u8, u8, u64)>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Data {
    Bytes(Vec<u8>),
    Init(Vec<Op>),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct AuthSpec {
    pub signer: u8,
    pub address: u8,
    pub nonce: u64,
    pub chain: u64,
    pub broken: bool,
    pub both_parities: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct PostSpec {
    /// Index into refer::SPECS.
    pub spec: u8,
    pub cases: Vec<CaseSpec>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct CaseSpec {
    pub d: u8,
    pub g: u8,
    pub v: u8,
    pub wrong: Wrong,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Wrong {
    Nothing,
    Root,
    Logs,
    /// Claims a refusal that does not happen, or conceals one that does.
    Exception,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Store(u8, u64),
    /// Stores what an environment opcode pushes.
    Env(u8, u8),
    Load(u8),
    Log(u8, u8),
    Call { kind: u8, to: u8, value: u64, gas: u32 },
    Create { two: bool, value: u64, code: Vec<Op> },
    Transient(u8, u64),
    Hash(u16),
    /// Touches memory this many KiB up: expensive, quickly executed.
    Expand(u16),
    Balance(u8),
    CodeHash(u8),
    Input(u8),
    Return(u8),
    Revert(u8),
    Stop,
    Invalid,
    Destroy(u8),
    Deploy(u8),
}

/// What the evidence shows of a sampled run.
pub fn summary(sc: &Scenario) -> serde_json::Value {
    serde_json::json!({
        "seed": sc.seed,
        "files": sc.files.iter().map(|f| format!("{:?}, {} units, {} cases", f.state, f.units.len(),
            f.units.iter().flat_map(|u| &u.posts).map(|p| p.cases.len()).sum::<usize>())).collect::<Vec<_>>(),
        "cli": sc.cli,
        "modes": format!("single={} trace={} json={} keep_going={} parallelism={}", sc.single_thread,
            sc.trace, sc.json, sc.keep_going, sc.parallelism),
        "schedule": sc.schedule.iter().take(60).collect::<Vec<_>>(),
        "stalls": sc.stalls, "spawn_fail": sc.spawn_fail, "clock_jumps": sc.jumps,
        "first_unit": sc.files.iter().flat_map(|f| &f.units).next().map(|u| format!("{u:?}")),
    })
}
