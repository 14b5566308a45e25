//! Reference model of resource metering. An inspector that replays, next to the real machine, the
//! documented rules for gas, storage gas, compute gas, data size, key-value updates, state growth,
//! gas forwarding, volatile-data detention and limit halts. It shares no code with the code under
//! test: costs come from its own tables, warm/cold sets and bucket prices are its own.

use std::{
    cell::RefCell,
    collections::{BTreeMap, BTreeSet},
    rc::Rc,
};

use mega_evm::{
    alloy_consensus::Transaction as _,
    alloy_primitives::{Address, Bytes, TxKind, B256, U256},
    revm::{
        context::{result::ExecutionResult, ContextTr, CreateScheme},
        interpreter::{
            interpreter_types::{Jumps, LoopControl},
            CallInputs, CallOutcome, CallScheme, CreateInputs, CreateOutcome, FrameInput, Gas,
            InstructionResult, Interpreter, InterpreterAction,
        },
        state::{Account, EvmState},
        Inspector,
    },
    MegaHaltReason, MegaTxEnvelope,
};

use crate::{
    exec::*,
    ids::*,
    stats::*,
    world::*,
};

#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord)]
pub enum Cl {
    /// An instruction, creation or transaction costs something else than it should.
    Price,
    /// Gas handed to a child.
    Forward,
    /// Reported resource usage.
    Usage,
    /// Limit enforcement.
    Limit,
    /// Limit enforcement after volatile data was read.
    Detention,
}

#[derive(Clone, Debug)]
pub struct Issue {
    pub cl: Cl,
    pub kind: &'static str,
    pub text: String,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Res {
    Data,
    Kv,
    Compute,
    Growth,
}

// Bits of the reported access types, in the documented order.
pub mod vol {
    pub const BLOCK_NUMBER: u16 = 1 << 0;
    pub const TIMESTAMP: u16 = 1 << 1;
    pub const COINBASE: u16 = 1 << 2;
    pub const DIFFICULTY: u16 = 1 << 3;
    pub const GAS_LIMIT: u16 = 1 << 4;
    pub const BASE_FEE: u16 = 1 << 5;
    pub const PREV_RANDAO: u16 = 1 << 6;
    pub const BLOCK_HASH: u16 = 1 << 7;
    pub const BLOB_BASE_FEE: u16 = 1 << 8;
    pub const BLOB_HASH: u16 = 1 << 9;
    pub const BENEFICIARY: u16 = 1 << 10;
    pub const ORACLE: u16 = 1 << 11;
}

#[derive(Clone, Default)]
struct Warm {
    acc: BTreeSet<Address>,
    slots: BTreeSet<(Address, U256)>,
}

struct Fr {
    create: bool,
    target: Option<Address>,
    updated: bool,
    d: i64,
    k: i64,
    g: i64,
    gas_limit: u64,
    gas: u64,
    started: bool,
    refused: bool,
    ret: Option<(InstructionResult, usize, Option<u8>)>,
    warm: Warm,
    /// Address and expected price when the call runs a precompile.
    pre: Option<(Address, Option<u64>)>,
}

#[derive(Clone, Copy, Default)]
struct Pend {
    op: u8,
    gas0: u64,
    std: u64,
    storage: u64,
    afford: bool,
    /// Requested child gas (calls), `None`: all but 1/64 (creates).
    req: Option<u64>,
    child: bool,
    stipend: u64,
    capped: bool,
    sstore: Option<(Address, U256, U256, U256, U256)>,
    log: Option<(u64, u64)>,
    mark: u16,
    detain: bool,
    account: bool,
    unsure_on_error: bool,
}

pub struct Model {
    pub world: Rc<RefCell<EnvWorld>>,
    pub on: bool,
    pub rules: Rules,
    base: Ledger,
    block: u64,
    coinbase: Address,
    lim: [u64; 4],
    env_limit: u64,
    oracle_limit: u64,
    // current transaction
    caller: Address,
    to: Option<Address>,
    tx_gas: u64,
    deposit: bool,
    n_auth: usize,
    auth_refund: u64,
    authorities: BTreeSet<Address>,
    initial: u64,
    floor: u64,
    data: i64,
    kv: i64,
    growth: i64,
    compute: u64,
    compute_limit: u64,
    pub exceeded: Option<(Res, u64, u64)>,
    pub vol: u16,
    vol_limit: Option<u64>,
    rescued: u64,
    frames: Vec<Fr>,
    warm: Warm,
    forever: BTreeSet<Address>,
    preloaded: BTreeSet<Address>,
    seen: BTreeSet<Address>,
    pend: Option<Pend>,
    top: Option<(InstructionResult, u64, i64)>,
    pub uncertain: bool,
    pub no_frame: bool,
    /// Gas burnt because the limit was crossed on a call or create instruction.
    burnt: u64,
    /// The outermost frame had already taken effect when the limit was found exceeded.
    late: bool,
    block_number: u64,
    pub issues: Vec<Issue>,
    pub asserted: u64,
    pub probes: BTreeMap<&'static str, u64>,
}

#[derive(Clone)]
pub struct Shadow(pub Rc<RefCell<Model>>);

fn words(n: u64) -> u64 {
    n.div_ceil(32)
}
fn mem_cost(w: u64) -> u64 {
    3u64.saturating_mul(w).saturating_add(w.saturating_mul(w) / 512)
}
const HUGE: u64 = 1 << 62;

fn to64(v: U256) -> u64 {
    if v > U256::from(HUGE) {
        HUGE
    } else {
        v.to::<u64>()
    }
}

/// Cost of growing memory from `now` bytes so that every given range is covered.
fn grow(now: usize, ranges: &[(U256, U256)]) -> u64 {
    let have = words(now as u64);
    let mut need = have;
    for (off, len) in ranges {
        if len.is_zero() {
            continue;
        }
        let end = to64(*off).saturating_add(to64(*len));
        if end >= 1 << 40 {
            return HUGE;
        }
        need = need.max(words(end));
    }
    mem_cost(need) - mem_cost(have)
}

pub fn is_limit_reason(r: &MegaHaltReason) -> bool {
    matches!(
        r,
        MegaHaltReason::DataLimitExceeded { .. } |
            MegaHaltReason::KVUpdateLimitExceeded { .. } |
            MegaHaltReason::ComputeGasLimitExceeded { .. } |
            MegaHaltReason::StateGrowthLimitExceeded { .. } |
            MegaHaltReason::VolatileDataAccessOutOfGas { .. }
    )
}

/// Gas of a precompiled contract, where the simulator knows the formula.
fn precompile_gas(a: &Address, input: &[u8]) -> Option<u64> {
    let b = a.as_slice();
    if b[..18].iter().any(|x| *x != 0) {
        return None;
    }
    let n = u16::from_be_bytes([b[18], b[19]]);
    let w = words(input.len() as u64);
    Some(match n {
        1 => 3000,
        2 => 60 + 12 * w,
        3 => 600 + 120 * w,
        4 => 15 + 3 * w,
        5 => modexp_gas(input)?,
        6 => 150,
        7 => 6000,
        8 => 45_000 + 34_000 * (input.len() as u64 / 192),
        9 => u32::from_be_bytes(input.get(..4)?.try_into().ok()?) as u64,
        10 => 100_000,
        0x100 => 3450,
        _ => return None,
    })
}

/// EIP-7883.
fn modexp_gas(input: &[u8]) -> Option<u64> {
    let word = |i: usize| {
        let mut b = [0u8; 32];
        for (j, x) in b.iter_mut().enumerate() {
            *x = input.get(i * 32 + j).copied().unwrap_or(0);
        }
        U256::from_be_bytes(b)
    };
    let (bl, el, ml) = (to64(word(0)), to64(word(1)), to64(word(2)));
    if bl > 1024 || el > 1024 || ml > 1024 {
        return None;
    }
    let mut head = [0u8; 32];
    let hl = el.min(32) as usize;
    for j in 0..hl {
        head[32 - hl + j] = input.get(96 + bl as usize + j).copied().unwrap_or(0);
    }
    let bits = 256 - U256::from_be_bytes(head).leading_zeros() as u64;
    let iter = if el <= 32 { bits.saturating_sub(1) } else { 16 * (el - 32) + bits.saturating_sub(1) };
    let mx = bl.max(ml);
    let wds = mx.div_ceil(8);
    let mult = if mx <= 32 { 16 } else { 2 * wds * wds };
    Some((mult * iter.max(1)).max(500))
}

impl Model {
    pub fn new(world: Rc<RefCell<EnvWorld>>, b: &BlockCtx) -> Self {
        let l = &b.limits;
        Model {
            world,
            on: false,
            rules: b.rules,
            base: Ledger::default(),
            block: b.number,
            coinbase: b.coinbase,
            lim: [
                l.tx_data_limit,
                l.tx_kv_update_limit,
                l.tx_compute_gas_limit,
                l.tx_state_growth_limit,
            ],
            env_limit: l.block_env_access_compute_gas_limit,
            oracle_limit: l.oracle_access_compute_gas_limit,
            caller: Address::ZERO,
            to: None,
            tx_gas: 0,
            deposit: false,
            n_auth: 0,
            auth_refund: 0,
            authorities: Default::default(),
            initial: 0,
            floor: 0,
            data: 0,
            kv: 0,
            growth: 0,
            compute: 0,
            compute_limit: l.tx_compute_gas_limit,
            exceeded: None,
            vol: 0,
            vol_limit: None,
            rescued: 0,
            frames: vec![],
            warm: Warm::default(),
            forever: Default::default(),
            preloaded: Default::default(),
            seen: Default::default(),
            pend: None,
            top: None,
            uncertain: false,
            no_frame: false,
            burnt: 0,
            late: false,
            block_number: b.number,
            issues: vec![],
            asserted: 0,
            probes: Default::default(),
        }
    }

    pub fn detained_block(&mut self) {
        self.compute_limit = self.compute_limit.min(self.env_limit);
    }

    fn rex(&self) -> bool {
        self.rules >= Rules::Rex
    }

    fn issue(&mut self, cl: Cl, kind: &'static str, text: String) {
        if self.issues.len() < 8 {
            let ops = self.frames.len();
            self.issues.push(Issue { cl, kind, text: format!("[{:?} depth {ops}] {text}", self.rules) });
        }
    }
    fn probe(&mut self, p: &'static str) {
        *self.probes.entry(p).or_default() += 1;
    }

    // ------------------------------------------------------------------ prices by bucket

    fn m(&self, bucket: u32) -> u64 {
        self.world.borrow().capacity(self.block, bucket) / 256
    }
    fn price_slot(&self, a: Address, k: U256) -> u64 {
        let m = self.m(slot_bucket(a, k));
        if self.rex() { 20_000 * (m - 1) } else { 2_000_000 * m }
    }
    fn price_account(&self, a: Address) -> u64 {
        let m = self.m(account_bucket(a));
        if self.rex() { 25_000 * (m - 1) } else { 2_000_000 * m }
    }
    fn price_contract(&self, a: Address) -> u64 {
        let m = self.m(account_bucket(a));
        if self.rex() { 32_000 * (m - 1) } else { 2_000_000 * m }
    }

    // ------------------------------------------------------------------ limits

    fn check(&mut self) -> bool {
        if self.exceeded.is_some() {
            return true;
        }
        let u = self.usage();
        let lim = [self.lim[0], self.lim[1], self.compute_limit, self.lim[3]];
        let names = [Res::Data, Res::Kv, Res::Compute, Res::Growth];
        for i in 0..4 {
            if u[i] > lim[i] {
                self.exceeded = Some((names[i], lim[i], u[i]));
                return true;
            }
        }
        false
    }
    /// data, kv, compute, growth
    fn usage(&self) -> [u64; 4] {
        [self.data.max(0) as u64, self.kv.max(0) as u64, self.compute, self.growth.max(0) as u64]
    }
    fn add(&mut self, d: i64, k: i64, g: i64) {
        self.data += d;
        self.kv += k;
        self.growth += g;
        if let Some(f) = self.frames.last_mut() {
            f.d += d;
            f.k += k;
            f.g += g;
        }
    }
    fn mark(&mut self, bits: u16) {
        if bits == 0 {
            return;
        }
        self.vol |= bits;
        let l = if bits & vol::ORACLE != 0 { self.oracle_limit } else { self.env_limit };
        self.vol_limit = Some(self.vol_limit.map_or(l, |x| x.min(l)));
    }
    fn lower(&mut self) {
        if let Some(l) = self.vol_limit {
            if l < self.compute_limit {
                self.compute_limit = l;
                self.probe("compute limit lowered");
            }
        }
    }

    // ------------------------------------------------------------------ warm/cold

    /// Access with the usual warming. Returns whether it was cold.
    fn access(&mut self, a: Address) -> bool {
        if self.preloaded.contains(&a) && self.seen.insert(a) {
            self.forever.insert(a);
        }
        if self.forever.contains(&a) {
            return false;
        }
        self.warm.acc.insert(a)
    }
    fn inspect(&mut self, a: Address) {
        if self.preloaded.contains(&a) && self.seen.insert(a) && !self.warm.acc.contains(&a) {
            self.probe("known finding: inspected preloaded address is charged as cold");
        }
    }
    fn access_slot(&mut self, a: Address, k: U256) -> bool {
        self.warm.slots.insert((a, k))
    }

    // ------------------------------------------------------------------ accounts

    fn jacct<'b>(ctx: &'b Ctx<'_>, a: &Address) -> Option<&'b Account> {
        ctx.journal().inner.state.get(a)
    }
    fn empty(&self, ctx: &Ctx<'_>, a: &Address) -> bool {
        match Self::jacct(ctx, a) {
            Some(x) => {
                x.info.nonce == 0 &&
                    x.info.balance.is_zero() &&
                    x.info.code_hash == mega_evm::revm::primitives::KECCAK_EMPTY
            }
            None => self.base.get(a).is_blank(),
        }
    }
    fn delegate(&self, ctx: &Ctx<'_>, a: &Address) -> Option<Address> {
        let code = match Self::jacct(ctx, a) {
            Some(x) => match &x.info.code {
                Some(c) => c.original_bytes(),
                None if x.info.code_hash == mega_evm::revm::primitives::KECCAK_EMPTY => Bytes::new(),
                None => self.base.get(a).code,
            },
            None => self.base.get(a).code,
        };
        (code.len() == 23 && code[..3] == [0xef, 0x01, 0x00]).then(|| Address::from_slice(&code[3..]))
    }
    fn balance(&self, ctx: &Ctx<'_>, a: &Address) -> U256 {
        Self::jacct(ctx, a).map_or_else(|| self.base.balance(a), |x| x.info.balance)
    }
    fn nonce(&self, ctx: &Ctx<'_>, a: &Address) -> u64 {
        Self::jacct(ctx, a).map_or_else(|| self.base.nonce(a), |x| x.info.nonce)
    }
    /// (value at transaction start, current value)
    fn slot(&self, ctx: &Ctx<'_>, a: &Address, k: &U256) -> (U256, U256) {
        match Self::jacct(ctx, a) {
            Some(x) => match x.storage.get(k) {
                Some(s) => (s.original_value, s.present_value),
                None if x.is_created() => (U256::ZERO, U256::ZERO),
                None => (self.base.slot(a, k), self.base.slot(a, k)),
            },
            None => (self.base.slot(a, k), self.base.slot(a, k)),
        }
    }

    // ------------------------------------------------------------------ transaction

    pub fn begin(&mut self, tx: &Tx, base: &Ledger) {
        self.on = self.rules >= Rules::MiniRex;
        self.base = base.clone();
        let env: &MegaTxEnvelope = tx.inner();
        self.caller = tx.signer();
        self.to = env.to();
        self.tx_gas = env.gas_limit();
        self.deposit =
            matches!(env, MegaTxEnvelope::Deposit(_)) || self.caller == MEGA_SYSTEM_ADDRESS;
        self.data = 0;
        self.kv = 0;
        self.growth = 0;
        self.compute = 0;
        if self.rules >= Rules::Rex1 {
            self.compute_limit = self.lim[2];
        }
        self.exceeded = None;
        self.vol = 0;
        self.vol_limit = None;
        self.rescued = 0;
        self.frames.clear();
        self.warm = Warm::default();
        self.forever.clear();
        self.seen.clear();
        self.pend = None;
        self.top = None;
        self.uncertain = false;
        self.no_frame = true;
        self.burnt = 0;
        self.late = false;
        self.authorities.clear();

        let input = env.input();
        let zeros = input.iter().filter(|b| **b == 0).count() as u64;
        let tokens = zeros + 4 * (input.len() as u64 - zeros);
        let create = env.kind().is_create();
        let mut std = 21_000 + 4 * tokens;
        if create {
            std += 32_000 + 2 * words(input.len() as u64);
        }
        self.data += 110 + input.len() as i64;
        self.preloaded = (1u16..=0x11)
            .chain([0x100])
            .map(|n| {
                let mut b = [0u8; 20];
                b[18..].copy_from_slice(&n.to_be_bytes());
                Address::from(b)
            })
            .collect();
        self.preloaded.insert(self.coinbase);
        self.access(self.caller);
        self.warm.acc.insert(self.caller);
        self.forever.insert(self.caller);
        let mut listed = vec![];
        if let Some(al) = env.access_list() {
            for it in al.0.iter() {
                std += 2400 + 1900 * it.storage_keys.len() as u64;
                self.data += 20 + 32 * it.storage_keys.len() as i64;
                self.preloaded.insert(it.address);
                if !it.storage_keys.is_empty() {
                    listed.push(it.clone());
                }
            }
        }
        for it in listed {
            self.access(it.address);
            self.forever.insert(it.address);
            for k in &it.storage_keys {
                self.access_slot(it.address, U256::from_be_bytes(k.0));
            }
        }
        self.n_auth = 0;
        self.auth_refund = 0;
        // Nonce and emptiness of authorities as the list is worked through.
        let mut seen: BTreeMap<Address, (u64, bool, bool)> = BTreeMap::new();
        if let Some(auths) = env.authorization_list() {
            for a in auths {
                self.n_auth += 1;
                std += 25_000;
                self.data += 101;
                if let Ok(w) = a.recover_authority() {
                    self.data += 40;
                    self.kv += 1;
                    self.authorities.insert(w);
                    if (a.chain_id.is_zero() || a.chain_id == U256::from(CHAIN_ID)) &&
                        a.nonce != u64::MAX
                    {
                        self.access(w);
                        self.forever.insert(w);
                        let e = seen.entry(w).or_insert_with(|| {
                            let l = base.get(&w);
                            let delegated = l.code.len() == 23 && l.code[..3] == [0xef, 0x01, 0x00];
                            let n = l.nonce + (w == self.caller) as u64;
                            (n, l.is_blank() && w != self.caller, l.code.is_empty() || delegated)
                        });
                        if e.2 && e.0 == a.nonce {
                            if !e.1 {
                                self.auth_refund += 12_500;
                            }
                            *e = (e.0 + 1, false, true);
                        }
                    }
                }
            }
        }
        self.data += 40;
        self.kv += 1;
        self.check();
        self.compute += std;
        self.check();
        self.initial = std + 40 * tokens;
        self.floor = 21_000 + 10 * tokens + 100 * tokens;
        if self.rex() {
            self.initial += 39_000;
        }
        let value = env.value();
        self.initial += match env.kind() {
            TxKind::Create => {
                let nonce = match env {
                    MegaTxEnvelope::Deposit(_) => 0,
                    _ => env.nonce(),
                };
                if nonce != base.nonce(&self.caller) {
                    self.probe("known finding: deposit creation priced by another address");
                }
                self.price_contract(self.caller.create(nonce))
            }
            TxKind::Call(a) if !value.is_zero() && base.get(&a).is_blank() => self.price_account(a),
            _ => 0,
        };
        if self.caller == self.coinbase || self.to == Some(self.coinbase) {
            self.mark(vol::BENEFICIARY);
        }
    }

    pub fn abort(&mut self) {
        self.on = false;
        self.frames.clear();
    }

    pub fn finish(&mut self, out: &TxOut, state: &EvmState, logs: usize) {
        if !self.on {
            return;
        }
        self.on = false;
        if self.uncertain {
            self.issues.clear();
            self.probe("not modelled");
            return;
        }
        let failed_deposit =
            self.deposit && matches!(out.result, ExecutionResult::Halt { .. });
        if self.no_frame {
            // Not enough gas for the bucket-priced part of the intrinsic cost, or a deposit that
            // failed validation.
            if failed_deposit {
                return;
            }
            if self.tx_gas >= self.initial {
                return self.issue(Cl::Price, "nothing-ran", format!("{:?}", out.result));
            }
            self.probe("bucket price exceeds gas limit");
            match &out.result {
                ExecutionResult::Halt { gas_used, .. }
                    if *gas_used ==
                        (self.tx_gas - self.auth_refund.min(self.tx_gas / 5))
                            .max(self.floor.min(self.tx_gas)) => {}
                r => return self.issue(Cl::Price, "unpaid-intrinsic", format!("{r:?}")),
            }
        } else if self.tx_gas < self.initial {
            return self.issue(
                Cl::Price,
                "ran-unpaid",
                format!("gas {} < intrinsic {}", self.tx_gas, self.initial),
            );
        }
        if !self.frames.is_empty() {
            return self.issue(Cl::Usage, "frames-left", format!("{}", self.frames.len()));
        }

        // Usage.
        let got = [out.data, out.kv, out.compute, out.growth];
        let want = self.usage();
        if got != want {
            let names = ["data size", "key-value updates", "compute gas", "state growth"];
            let t: Vec<String> = (0..4)
                .filter(|i| got[*i] != want[*i])
                .map(|i| format!("{} reported {} expected {}", names[i], got[i], want[i]))
                .collect();
            self.issue(Cl::Usage, "usage", format!("{} ({:?})", t.join(", "), out.result));
        }

        // Halt reason.
        let cl = match self.exceeded {
            Some((Res::Compute, ..)) if self.vol_limit.is_some() => Cl::Detention,
            None if self.vol_limit.is_some() => Cl::Detention,
            _ => Cl::Limit,
        };
        let reason = match &out.result {
            ExecutionResult::Halt { reason, .. } => Some(reason.clone()),
            _ => None,
        };
        match self.exceeded {
            None => {
                if reason.as_ref().is_some_and(is_limit_reason) {
                    self.issue(cl, "limit-halt-within-limits", format!("{reason:?}, usage {want:?}"));
                }
            }
            Some((r, limit, actual)) => {
                self.probe(match r {
                    Res::Data => "data limit hit",
                    Res::Kv => "kv limit hit",
                    Res::Compute => "compute limit hit",
                    Res::Growth => "growth limit hit",
                });
                let detained = self.vol_limit.filter(|l| self.compute > *l);
                if detained.is_some() {
                    self.probe("detention hit");
                }
                if failed_deposit {
                    self.probe("limit hit in deposit");
                } else {
                    let want = match (detained, r) {
                        (Some(l), _) => format!("volatile {:#x} {} {}", self.vol, l, self.compute),
                        (None, r) => format!("{r:?} {limit} {actual}"),
                    };
                    let have = match &reason {
                        Some(MegaHaltReason::DataLimitExceeded { limit, actual }) => format!("Data {limit} {actual}"),
                        Some(MegaHaltReason::KVUpdateLimitExceeded { limit, actual }) => format!("Kv {limit} {actual}"),
                        Some(MegaHaltReason::ComputeGasLimitExceeded { limit, actual }) => format!("Compute {limit} {actual}"),
                        Some(MegaHaltReason::StateGrowthLimitExceeded { limit, actual }) => format!("Growth {limit} {actual}"),
                        Some(MegaHaltReason::VolatileDataAccessOutOfGas { access_type, limit, actual }) => {
                            format!("volatile {:#x} {limit} {actual}", access_type.bits() as u64)
                        }
                        r => format!("{:?}", r.as_ref().map(|x| format!("{x:?}"))),
                    };
                    if want != have {
                        let cl = if detained.is_some() { Cl::Detention } else { cl };
                        self.issue(cl, "halt-reason", format!("reported {have}, expected {want}: {:?}", out.result));
                    }
                }
                self.no_effects(state, logs, cl);
            }
        }

        // Gas.
        if self.no_frame {
            return;
        }
        let used = out.result.gas_used();
        if failed_deposit {
            if used != self.tx_gas {
                self.issue(Cl::Price, "failed-deposit-gas", format!("{used} of {}", self.tx_gas));
            }
            return;
        }
        let Some((res, remaining, refund)) = self.top else { return };
        let floor = self.floor.min(self.tx_gas);
        if self.exceeded.is_some() {
            let spent = self.tx_gas.saturating_sub(self.rescued);
            let want = (spent - self.auth_refund.min(spent / 5)).max(floor);
            if used == want {
                if self.burnt > 0 {
                    self.issue(
                        cl,
                        "limit-at-call-burns-forwarded-gas",
                        format!("{} gas earmarked for a child that never ran is not refunded", self.burnt),
                    );
                }
            } else {
                self.issue(cl, "limit-gas", format!("gas used {used}, expected {want}: unspent gas must be refunded on a limit halt"));
            }
        } else if res.is_ok() || res.is_revert() {
            let spent = self.tx_gas - remaining;
            let refund = if res.is_ok() { refund } else { 0 } + self.auth_refund as i64;
            let want = (spent - (refund.max(0) as u64).min(spent / 5)).max(floor);
            if used != want {
                self.issue(Cl::Price, "gas-used", format!("gas used {used}, expected {want} (floor {floor})"));
            }
        } else {
            let want = (self.tx_gas - self.auth_refund.min(self.tx_gas / 5)).max(floor);
            if used != want {
                self.issue(Cl::Price, "halt-gas", format!("gas used {used}, expected {want} of {} after {res:?}", self.tx_gas));
            }
        }
    }

    /// A limit halt keeps nothing but the fee and nonce effects.
    fn no_effects(&mut self, state: &EvmState, logs: usize, cl: Cl) {
        let mut bad = vec![];
        if logs > 0 {
            bad.push(format!("{logs} logs"));
        }
        let fees = [self.caller, self.coinbase, BASE_FEE_VAULT, L1_FEE_VAULT, OP_FEE_VAULT];
        let mut addrs: Vec<_> = state.keys().copied().collect();
        addrs.sort();
        for a in addrs {
            let acc = &state[&a];
            if !acc.is_touched() {
                continue;
            }
            let old = self.base.get(&a);
            let auth = self.authorities.contains(&a);
            if acc.is_selfdestructed() {
                bad.push(format!("{a} destroyed"));
            }
            if acc.info.balance != old.balance && !fees.contains(&a) {
                bad.push(format!("{a} balance {} -> {}", old.balance, acc.info.balance));
            }
            if acc.info.nonce != old.nonce && a != self.caller && !auth {
                bad.push(format!("{a} nonce {} -> {}", old.nonce, acc.info.nonce));
            }
            let h = if old.code.is_empty() {
                mega_evm::revm::primitives::KECCAK_EMPTY
            } else {
                mega_evm::alloy_primitives::keccak256(&old.code)
            };
            if acc.info.code_hash != h && !auth {
                bad.push(format!("{a} code changed"));
            }
            for (k, s) in &acc.storage {
                if s.present_value != self.base.slot(&a, k) {
                    bad.push(format!("{a} slot {k}"));
                }
            }
        }
        if !bad.is_empty() {
            let kind = if self.late {
                "limit-halt-keeps-finished-top-frame"
            } else {
                "limit-halt-keeps-effects"
            };
            bad.sort();
            self.issue(cl, kind, bad.join("; "));
        }
    }

    // ------------------------------------------------------------------ frames

    fn snapshot(&mut self) {
        let w = self.warm.clone();
        if let Some(f) = self.frames.last_mut() {
            f.warm = w;
        }
    }

    fn on_call(&mut self, ctx: &mut Ctx<'_>, i: &CallInputs) {
        let top = self.frames.is_empty();
        self.no_frame = false;
        if top {
            if i.gas_limit + self.initial != self.tx_gas {
                self.issue(
                    Cl::Price,
                    "intrinsic",
                    format!("first frame gets {} of {}, intrinsic cost {}", i.gas_limit, self.tx_gas, self.initial),
                );
            }
            if self.rules >= Rules::Rex2 && i.target_address == KEYLESS_DEPLOY_ADDRESS {
                self.uncertain = true;
            }
        }
        let target = i.target_address;
        if self.rules < Rules::Rex3 && target == ORACLE_CONTRACT_ADDRESS && i.caller != MEGA_SYSTEM_ADDRESS {
            self.mark(vol::ORACLE);
            self.lower();
        }
        let transfer = i.transfers_value();
        let parent_stale = self.frames.last().is_some_and(|f| !f.updated);
        let pre_gas = {
            let input = i.input.bytes(ctx);
            precompile_gas(&i.bytecode_address, &input)
        };
        let is_pre = self.is_precompile(&i.bytecode_address);
        self.frames.push(Fr {
            create: false,
            target: Some(target),
            updated: transfer,
            d: 0,
            k: 0,
            g: 0,
            gas_limit: i.gas_limit,
            gas: i.gas_limit,
            started: false,
            refused: false,
            ret: None,
            warm: Warm::default(),
            pre: is_pre.then_some((i.bytecode_address, pre_gas)),
        });
        if transfer {
            if parent_stale {
                self.add(40, 1, 0);
            }
            self.add(40, 1, 0);
        }
        let followed = self.delegate(ctx, &target).unwrap_or(target);
        self.inspect(target);
        self.inspect(followed);
        if transfer && self.empty(ctx, &followed) {
            self.add(0, 0, 1);
        }
        if self.check() {
            self.frames.last_mut().expect("frame").refused = true;
            return;
        }
        self.access(i.bytecode_address);
        if let Some(d) = self.delegate(ctx, &i.bytecode_address) {
            self.access(d);
        }
        self.snapshot();
    }

    fn is_precompile(&self, a: &Address) -> bool {
        let b = a.as_slice();
        b[..18].iter().all(|x| *x == 0) && {
            let n = u16::from_be_bytes([b[18], b[19]]);
            (1..=0x11).contains(&n) || n == 0x100
        }
    }

    fn on_create(&mut self, ctx: &mut Ctx<'_>, i: &CreateInputs) {
        if self.frames.is_empty() && i.gas_limit + self.initial != self.tx_gas {
            self.issue(
                Cl::Price,
                "intrinsic",
                format!("first frame gets {} of {}, intrinsic cost {}", i.gas_limit, self.tx_gas, self.initial),
            );
        }
        self.no_frame = false;
        let parent_stale = self.frames.last().is_some_and(|f| !f.updated);
        self.frames.push(Fr {
            create: true,
            target: None,
            updated: true,
            d: 0,
            k: 0,
            g: 0,
            gas_limit: i.gas_limit,
            gas: i.gas_limit,
            started: false,
            refused: false,
            ret: None,
            warm: Warm::default(),
            pre: None,
        });
        if parent_stale {
            self.add(40, 1, 0);
        }
        self.add(0, 0, 1);
        if self.check() {
            self.frames.last_mut().expect("frame").refused = true;
            return;
        }
        if self.balance(ctx, &i.caller) >= i.value {
            let n = self.nonce(ctx, &i.caller);
            let a = match i.scheme {
                CreateScheme::Create => i.caller.create(n),
                CreateScheme::Create2 { salt } => {
                    i.caller.create2_from_code(B256::from(salt), &i.init_code)
                }
                CreateScheme::Custom { address } => address,
            };
            self.access(a);
        }
        self.snapshot();
    }

    fn on_start(&mut self, interp: &Interpreter) {
        let Some(f) = self.frames.last_mut() else { return };
        if f.refused {
            let t = format!("{:?}", self.exceeded);
            return self.issue(self.limit_class(), "frame-starts-past-limit", t);
        }
        f.started = true;
        let (want, got) = (f.gas_limit, interp.gas.remaining());
        if f.create {
            f.target = Some(interp.input.target_address);
            self.add(40, 1, 0);
        }
        self.check();
        if want != got {
            self.issue(Cl::Forward, "frame-gas", format!("frame starts with {got}, was given {want}"));
        }
    }

    fn limit_class(&self) -> Cl {
        match self.exceeded {
            Some((Res::Compute, ..)) | None if self.vol_limit.is_some() => Cl::Detention,
            _ => Cl::Limit,
        }
    }

    fn on_end(&mut self, res: InstructionResult, gas: &Gas) {
        let Some(f) = self.frames.last() else { return };
        let top = self.frames.len() == 1;
        let before = self.exceeded.is_some();
        if f.refused {
            if res != InstructionResult::OutOfGas || gas.remaining() != f.gas_limit {
                let t = format!("{res:?}, {} of {} gas left", gas.remaining(), f.gas_limit);
                self.issue(self.limit_class(), "refused-frame", t);
            }
        } else if !f.started {
            let spent = gas.spent();
            if let Some((a, want)) = f.pre {
                if res.is_ok() {
                    self.probe("precompile ran");
                    if let Some(w) = want {
                        if w != spent {
                            self.issue(Cl::Price, "precompile-price", format!("{a} costs {spent}, expected {w}"));
                        }
                    }
                }
            } else if spent != 0 {
                self.issue(Cl::Price, "frame-without-code-costs", format!("{spent} {res:?}"));
            }
            self.compute += spent;
            self.check();
            if top && !before && self.exceeded.is_some() {
                self.late = true;
            }
        } else if f.create {
            let mut left = f.gas;
            let (mut r, len, first) =
                f.ret.unwrap_or((InstructionResult::OutOfGas, 0, None));
            let n = len as u64;
            if r.is_ok() {
                if left < 10_000 * n {
                    r = InstructionResult::OutOfGas;
                } else {
                    left -= 10_000 * n;
                }
            }
            if self.exceeded.is_none() {
                self.add(n as i64, 0, 0);
                if self.check() {
                    r = InstructionResult::OutOfGas;
                }
            }
            if r.is_ok() {
                if first == Some(0xef) {
                    r = InstructionResult::CreateContractStartingWithEF;
                } else if len > 512 * 1024 {
                    r = InstructionResult::CreateContractSizeLimit;
                } else if left < 200 * n {
                    r = InstructionResult::OutOfGas;
                } else {
                    left -= 200 * n;
                    self.compute += 200 * n;
                    if self.check() {
                        r = InstructionResult::OutOfGas;
                        if top {
                            self.late = true;
                        }
                    }
                }
            } else {
                self.check();
            }
            let same = r.is_ok() == res.is_ok() && r.is_revert() == res.is_revert();
            if !same || (n > 0 && !r.is_ok() && r != res) {
                let cl = if self.exceeded.is_some() { self.limit_class() } else { Cl::Price };
                self.issue(cl, "create-result", format!("creation ends {res:?}, expected {r:?} ({n} bytes)"));
            } else if (r.is_ok() || r.is_revert() || self.exceeded.is_some()) && gas.remaining() != left {
                self.issue(Cl::Price, "create-gas", format!("creation of {n} bytes leaves {}, expected {left}", gas.remaining()));
            }
        } else {
            let left = f.gas;
            let pre = self.exceeded.is_some();
            self.check();
            if (res.is_ok() || res.is_revert() || self.exceeded.is_some()) && gas.remaining() != left {
                self.issue(Cl::Price, "call-gas", format!("{res:?} leaves {}, expected {left}", gas.remaining()));
            }
            if pre && res != InstructionResult::OutOfGas {
                let t = format!("{res:?} after {:?}", self.exceeded);
                self.issue(self.limit_class(), "frame-survives-limit", t);
            }
        }
        // Pop.
        let f = self.frames.pop().expect("frame");
        if res.is_ok() {
            if let Some(p) = self.frames.last_mut() {
                p.d += f.d;
                p.k += f.k;
                p.g += f.g;
            }
        } else {
            self.data -= f.d;
            self.kv -= f.k;
            self.growth -= f.g;
            self.warm = f.warm;
        }
        if self.check() {
            self.rescued += gas.remaining();
        } else if res.is_ok() || res.is_revert() {
            if let Some(p) = self.frames.last_mut() {
                p.gas += gas.remaining();
            }
        }
        if top {
            self.top = Some((res, gas.remaining(), gas.refunded()));
        }
    }

    // ------------------------------------------------------------------ instructions

    fn on_step(&mut self, interp: &mut Interpreter, ctx: &mut Ctx<'_>) {
        let op = interp.bytecode.opcode();
        let gas0 = interp.gas.remaining();
        if self.exceeded.is_some() {
            let t = format!("opcode {op:#x} after {:?}", self.exceeded);
            self.issue(self.limit_class(), "instruction-past-limit", t);
        }
        if let Some(f) = self.frames.last_mut() {
            if f.gas != gas0 {
                let t = format!("before opcode {op:#x}: {gas0} left, expected {}", f.gas);
                f.gas = gas0;
                self.issue(Cl::Price, "gas-drift", t);
            }
        }
        let me = interp.input.target_address;
        let stack = interp.stack.data();
        let n = stack.len();
        let s = |i: usize| if i < n { stack[n - 1 - i] } else { U256::ZERO };
        let mem = interp.memory.len();
        let addr = |v: U256| Address::from_word(B256::from(v));
        let mut p = Pend { op, gas0, ..Default::default() };
        let mut need = 0usize;
        let std: u64 = match op {
            0x00 | 0xfe => 0,
            0xf3 | 0xfd => {
                need = 2;
                grow(mem, &[(s(0), s(1))])
            }
            0x5b => 1,
            0x30 | 0x32 | 0x33 | 0x34 | 0x36 | 0x38 | 0x3a | 0x3d | 0x46 | 0x58 | 0x59 | 0x5a |
            0x5f | 0x50 => {
                need = (op == 0x50) as usize;
                2
            }
            0x41..=0x45 | 0x48 | 0x4a => {
                p.detain = true;
                p.mark = match op {
                    0x41 => vol::COINBASE,
                    0x42 => vol::TIMESTAMP,
                    0x43 => vol::BLOCK_NUMBER,
                    0x44 => vol::PREV_RANDAO,
                    0x45 => vol::GAS_LIMIT,
                    0x48 => vol::BASE_FEE,
                    _ => vol::BLOB_BASE_FEE,
                };
                2
            }
            0x49 => {
                need = 1;
                p.detain = true;
                p.mark = vol::BLOB_HASH;
                3
            }
            0x40 => {
                need = 1;
                p.detain = true;
                p.mark = vol::BLOCK_NUMBER;
                let b = U256::from(self.block_number);
                if s(0) < b && b - s(0) <= U256::from(256) {
                    p.mark |= vol::BLOCK_HASH;
                }
                20
            }
            0x01 | 0x03 | 0x10..=0x14 | 0x16..=0x18 | 0x1a..=0x1d => {
                need = 2;
                3
            }
            0x15 | 0x19 | 0x35 => {
                need = 1;
                3
            }
            0x60..=0x7f => 3,
            0x80..=0x8f => {
                need = (op - 0x7f) as usize;
                3
            }
            0x90..=0x9f => {
                need = (op - 0x8e) as usize;
                3
            }
            0x02 | 0x04..=0x07 | 0x0b => {
                need = 2;
                5
            }
            0x47 => {
                if me == self.coinbase {
                    p.mark = vol::BENEFICIARY;
                }
                5
            }
            0x08 | 0x09 => {
                need = 3;
                8
            }
            0x56 => {
                need = 1;
                8
            }
            0x57 => {
                need = 2;
                10
            }
            0x0a => {
                need = 2;
                10 + 50 * (32 - s(1).leading_zeros() as u64 / 8)
            }
            0x20 => {
                need = 2;
                30u64
                    .saturating_add(6u64.saturating_mul(words(to64(s(1)))))
                    .saturating_add(grow(mem, &[(s(0), s(1))]))
            }
            0x51 | 0x52 => {
                need = 1 + (op == 0x52) as usize;
                3u64.saturating_add(grow(mem, &[(s(0), U256::from(32))]))
            }
            0x53 => {
                need = 2;
                3u64.saturating_add(grow(mem, &[(s(0), U256::from(1))]))
            }
            0x37 | 0x39 | 0x3e => {
                need = 3;
                3u64.saturating_add(3u64.saturating_mul(words(to64(s(2)))))
                    .saturating_add(grow(mem, &[(s(0), s(2))]))
            }
            0x5e => {
                need = 3;
                3u64.saturating_add(3u64.saturating_mul(words(to64(s(2)))))
                    .saturating_add(grow(mem, &[(s(0).max(s(1)), s(2))]))
            }
            0x5c => {
                need = 1;
                100
            }
            0x5d => {
                need = 2;
                100
            }
            0x31 | 0x3b | 0x3f | 0x3c => {
                need = if op == 0x3c { 4 } else { 1 };
                p.detain = true;
                p.account = true;
                if n >= need {
                    let a = addr(s(0));
                    if a == self.coinbase {
                        p.mark = vol::BENEFICIARY;
                        p.unsure_on_error = true;
                    }
                    let cold = self.access(a);
                    let mut c = if cold { 2600 } else { 100u64 };
                    if op == 0x3c {
                        c = c
                            .saturating_add(3u64.saturating_mul(words(to64(s(3)))))
                            .saturating_add(grow(mem, &[(s(1), s(3))]));
                    }
                    c
                } else {
                    0
                }
            }
            0x54 => {
                need = 1;
                if n >= 1 {
                    let k = s(0);
                    if me == ORACLE_CONTRACT_ADDRESS {
                        self.access_slot(me, k);
                        if self.rules >= Rules::Rex3 {
                            p.detain = true;
                            if self.caller != MEGA_SYSTEM_ADDRESS {
                                p.mark = vol::ORACLE;
                                p.unsure_on_error = true;
                            }
                        }
                        2100
                    } else {
                        p.detain = self.rules >= Rules::Rex3;
                        if self.access_slot(me, k) { 2100 } else { 100 }
                    }
                } else {
                    0
                }
            }
            0x55 => {
                need = 2;
                if n >= 2 {
                    let (k, new) = (s(0), s(1));
                    let (orig, pres) = self.slot(ctx, &me, &k);
                    p.sstore = Some((me, k, orig, pres, new));
                    if orig.is_zero() && pres.is_zero() && !new.is_zero() {
                        p.storage = self.price_slot(me, k);
                    }
                    let mut c = if new == pres {
                        100
                    } else if orig == pres {
                        if orig.is_zero() { 20_000 } else { 2_900 }
                    } else {
                        100
                    };
                    if self.access_slot(me, k) {
                        c += 2100;
                    }
                    c
                } else {
                    0
                }
            }
            0xa0..=0xa4 => {
                let t = (op - 0xa0) as u64;
                need = 2 + t as usize;
                let len = to64(s(1));
                p.log = Some((t, len));
                p.storage = (3_750 * t).saturating_add(80u64.saturating_mul(len));
                (375 + 375 * t)
                    .saturating_add(8u64.saturating_mul(len))
                    .saturating_add(grow(mem, &[(s(0), s(1))]))
            }
            0xf0 | 0xf5 => {
                need = 3 + (op == 0xf5) as usize;
                p.child = true;
                p.capped = true;
                let (off, len) = (s(1), s(2));
                if n >= need {
                    let created = if op == 0xf0 {
                        Some(me.create(self.nonce(ctx, &me)))
                    } else {
                        memory_range(interp, off, len)
                            .map(|code| me.create2_from_code(B256::from(s(3)), &code))
                    };
                    p.storage = created.map_or(0, |a| self.price_contract(a));
                }
                let per_word = if op == 0xf5 { 8u64 } else { 2 };
                32_000u64
                    .saturating_add(per_word.saturating_mul(words(to64(len))))
                    .saturating_add(grow(mem, &[(off, len)]))
            }
            0xf1 | 0xf2 | 0xf4 | 0xfa => {
                let with_value = matches!(op, 0xf1 | 0xf2);
                need = if with_value { 7 } else { 6 };
                if n >= need {
                    let a = addr(s(1));
                    let o = if with_value { 3 } else { 2 };
                    let value = with_value && !s(2).is_zero();
                    let d = self.delegate(ctx, &a);
                    let inspects = self.rex() || op == 0xf1;
                    if inspects {
                        self.inspect(a);
                        self.inspect(d.unwrap_or(a));
                    } else if self.preloaded.contains(&a) && !self.seen.contains(&a) {
                        p.unsure_on_error = true;
                    }
                    if inspects && value && self.empty(ctx, &d.unwrap_or(a)) {
                        p.storage = self.price_account(a);
                    }
                    if a == self.coinbase {
                        p.mark = vol::BENEFICIARY;
                        p.unsure_on_error = true;
                    }
                    let mut c = if self.access(a) { 2600 } else { 100u64 };
                    if let Some(d) = d {
                        c += if self.access(d) { 2600 } else { 100 };
                    }
                    if value {
                        c += 9000;
                        p.stipend = 2300;
                        if op == 0xf1 && self.empty(ctx, &a) {
                            c += 25_000;
                        }
                    }
                    p.child = true;
                    p.req = Some(to64(s(0)));
                    p.capped = op == 0xf1 || self.rex();
                    c.saturating_add(grow(mem, &[(s(o), s(o + 1)), (s(o + 2), s(o + 3))]))
                } else {
                    0
                }
            }
            0xff if self.rules >= Rules::Rex2 => {
                need = 1;
                if n >= 1 {
                    let t = addr(s(0));
                    let empty = self.empty(ctx, &t);
                    let had = !self.balance(ctx, &me).is_zero();
                    let mut c = 5000;
                    if self.access(t) {
                        c += 2600;
                    }
                    if had && empty && t != me {
                        c += 25_000;
                    }
                    c
                } else {
                    0
                }
            }
            // Not an instruction of this machine: always an error.
            _ => HUGE,
        };
        p.std = std;
        let total = std.saturating_add(p.storage);
        p.afford = n >= need && gas0 >= total;
        self.pend = Some(p);
    }

    fn on_step_end(&mut self, interp: &mut Interpreter) {
        let Some(p) = self.pend.take() else { return };
        self.asserted += 1;
        let gas1 = interp.gas.remaining();
        let (mut child, mut ret) = (None, None);
        match interp.bytecode.action() {
            Some(InterpreterAction::NewFrame(FrameInput::Call(c))) => child = Some(c.gas_limit),
            Some(InterpreterAction::NewFrame(FrameInput::Create(c))) => child = Some(c.gas_limit),
            Some(InterpreterAction::Return(r)) => {
                ret = Some((r.result, r.output.len(), r.output.first().copied()))
            }
            _ => {}
        }
        if let Some(f) = self.frames.last_mut() {
            f.gas = gas1;
            f.ret = ret;
        }
        let op = p.op;
        let err = ret.filter(|r| r.0.is_error());
        if err.is_some() && p.unsure_on_error {
            self.uncertain = true;
        }
        if let Some((r, ..)) = err {
            use InstructionResult as IR;
            if r == IR::OutOfGas && p.afford {
                // Only a limit can stop an instruction that was paid for.
                self.apply(&p);
                if self.exceeded.is_none() {
                    return self.issue(
                        Cl::Price,
                        "out-of-gas-though-paid",
                        format!("opcode {op:#x} needs {}+{} of {}", p.std, p.storage, p.gas0),
                    );
                }
                let left = p.gas0 - p.std - p.storage;
                if p.child {
                    let fwd = (left - left / 64).min(p.req.unwrap_or(u64::MAX));
                    if gas1 != left && gas1 + fwd == left {
                        self.burnt += fwd;
                        return;
                    }
                }
                if gas1 != left {
                    self.issue(
                        self.limit_class(),
                        "limit-instruction-gas",
                        format!("opcode {op:#x} at the limit leaves {gas1}, expected {left}"),
                    );
                }
            } else if p.afford &&
                (r == IR::MemoryOOG ||
                    r == IR::MemoryLimitOOG ||
                    (r == IR::ReentrancySentryOOG && p.gas0 - p.storage > 2300))
            {
                self.issue(Cl::Price, "out-of-gas-though-paid", format!("opcode {op:#x} {r:?}, {}+{} of {}", p.std, p.storage, p.gas0));
            }
            return;
        }
        if !p.afford {
            return self.issue(
                Cl::Price,
                "underpriced",
                format!("opcode {op:#x} runs with {} gas, costs {}+{}", p.gas0, p.std, p.storage),
            );
        }
        let left = p.gas0 - p.std - p.storage;
        let delta = p.gas0.saturating_sub(gas1);
        if let Some(c) = child {
            let fwd = c.saturating_sub(p.stipend);
            if delta != p.std + p.storage + fwd {
                self.issue(
                    Cl::Price,
                    "instruction-price",
                    format!("opcode {op:#x} costs {} besides the forwarded gas, expected {}+{}", delta as i64 - fwd as i64, p.std, p.storage),
                );
            }
            // Forwarding is judged on what caller and child end up with, whatever the price was.
            let avail = gas1.saturating_add(fwd);
            let mut want = (avail - avail / 64).min(p.req.unwrap_or(u64::MAX));
            if p.capped {
                let cap = avail - (avail as u128 * 2 / 100) as u64;
                if cap < want {
                    self.probe("98/100 cap binds");
                }
                want = want.min(cap);
            }
            if p.stipend > 0 {
                self.probe("stipend");
            }
            if c != want + p.stipend {
                self.issue(
                    Cl::Forward,
                    "forwarded-gas",
                    format!("opcode {op:#x} forwards {c} and keeps {gas1}, expected to forward {}", want + p.stipend),
                );
            }
        } else if delta != p.std + p.storage {
            self.issue(
                Cl::Price,
                "instruction-price",
                format!("opcode {op:#x} costs {delta}, expected {}+{} storage", p.std, p.storage),
            );
        }
        if p.storage > 0 {
            self.probe(match op {
                0x55 => "slot storage gas",
                0xf0 | 0xf5 => "creation storage gas",
                0xa0..=0xa4 => "log storage gas",
                _ => "account storage gas",
            });
        }
        self.apply(&p);
        if self.exceeded.is_some() {
            let t = format!("opcode {op:#x} goes on after {:?}", self.exceeded);
            self.issue(self.limit_class(), "runs-past-limit", t);
        }
    }

    /// Usage of one instruction that was not stopped for lack of gas.
    fn apply(&mut self, p: &Pend) {
        self.mark(p.mark);
        self.compute += p.std.saturating_sub(p.stipend);
        if self.check() {
            return;
        }
        if let Some((_, _, orig, pres, new)) = p.sstore {
            let g = match (orig.is_zero(), pres.is_zero(), new.is_zero()) {
                (true, true, false) => 1,
                (true, false, true) => -1,
                _ => 0,
            };
            let w = if orig == pres && new != orig {
                1
            } else if orig != pres && new == orig {
                -1
            } else {
                0
            };
            self.add(40 * w, w, g);
            if self.check() {
                return;
            }
        }
        if let Some((t, len)) = p.log {
            self.add((32 * t + len) as i64, 0, 0);
            if self.check() {
                return;
            }
        }
        if p.detain {
            self.lower();
        }
    }
}

/// Bytes of memory as the instruction will see them after growing it; `None` when absurdly large.
fn memory_range(interp: &Interpreter, off: U256, len: U256) -> Option<Vec<u8>> {
    let len = to64(len);
    if len == 0 {
        return Some(vec![]);
    }
    let off = to64(off);
    if len > 1 << 20 || off > 1 << 28 {
        return None;
    }
    let have = (interp.memory.len() as u64).saturating_sub(off).min(len);
    let mut v = vec![0u8; len as usize];
    if have > 0 {
        v[..have as usize]
            .copy_from_slice(&interp.memory.slice_len(off as usize, have as usize));
    }
    Some(v)
}

impl<'a> Inspector<Ctx<'a>> for Shadow {
    fn initialize_interp(&mut self, i: &mut Interpreter, _: &mut Ctx<'a>) {
        let mut m = self.0.borrow_mut();
        if m.on {
            m.on_start(i);
        }
    }
    fn step(&mut self, i: &mut Interpreter, ctx: &mut Ctx<'a>) {
        let mut m = self.0.borrow_mut();
        if m.on {
            m.on_step(i, ctx);
        }
    }
    fn step_end(&mut self, i: &mut Interpreter, _: &mut Ctx<'a>) {
        let mut m = self.0.borrow_mut();
        if m.on {
            m.on_step_end(i);
        }
    }
    fn call(&mut self, ctx: &mut Ctx<'a>, i: &mut CallInputs) -> Option<CallOutcome> {
        let mut m = self.0.borrow_mut();
        if m.on {
            m.on_call(ctx, i);
        }
        None
    }
    fn call_end(&mut self, _: &mut Ctx<'a>, _: &CallInputs, o: &mut CallOutcome) {
        let mut m = self.0.borrow_mut();
        if m.on {
            m.on_end(o.result.result, &o.result.gas);
        }
    }
    fn create(&mut self, ctx: &mut Ctx<'a>, i: &mut CreateInputs) -> Option<CreateOutcome> {
        let mut m = self.0.borrow_mut();
        if m.on {
            m.on_create(ctx, i);
        }
        None
    }
    fn create_end(&mut self, _: &mut Ctx<'a>, _: &CreateInputs, o: &mut CreateOutcome) {
        let mut m = self.0.borrow_mut();
        if m.on {
            m.on_end(o.result.result, &o.result.gas);
        }
    }
}

#[allow(unused)]
fn _s(_: CallScheme, _: &Stats) {}
