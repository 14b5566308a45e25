//! Seed -> Scenario. Swarm style: every scenario first draws which features it uses and how often,
//! then draws programs, transactions and the schedule from those weights.

use mega_evm::alloy_primitives::U256;

use crate::{
    exec::Rules,
    ids::N_EOA,
    rng::Rng,
    scenario::*,
    world::{FaultPlan, OpKind, ACCOUNT_BUCKETS, SLOT_BUCKETS},
};

pub const NO_LIMIT: u64 = u64::MAX;

pub fn no_limits() -> Limits {
    Limits {
        tx_gas: NO_LIMIT,
        tx_size: NO_LIMIT,
        block_size: NO_LIMIT,
        tx_da: NO_LIMIT,
        block_da: NO_LIMIT,
        tx_data: NO_LIMIT,
        block_data: NO_LIMIT,
        tx_kv: NO_LIMIT,
        block_kv: NO_LIMIT,
        tx_compute: NO_LIMIT,
        block_compute: NO_LIMIT,
        tx_growth: NO_LIMIT,
        block_growth: NO_LIMIT,
        env_compute: 20_000_000,
        oracle_compute: 1_000_000,
    }
}

/// Weights of program gadgets and transaction features.
#[derive(Clone, Debug)]
pub struct Swarm {
    pub op: [u32; N_OPS],
    pub min_rules: Rules,
    pub max_rules: Rules,
    pub deposits: u32,
    pub creates: u32,
    pub t7702: u32,
    pub system: u32,
    pub keyless: u32,
    pub bad_nonce: u32,
    pub selfdestruct: bool,
    pub delegates: bool,
    pub salt_max: u64,
    pub l1: bool,
    pub free_gas: bool,
    /// Number of distinct slots programs touch.
    pub slots: u64,
}

pub const N_OPS: usize = 32;
pub mod o {
    pub const SSTORE: usize = 0;
    pub const SSTORE_ACC: usize = 1;
    pub const SSTORE_RANGE: usize = 2;
    pub const SLOAD: usize = 3;
    pub const TSTORE: usize = 4;
    pub const TLOAD: usize = 5;
    pub const LOG: usize = 6;
    pub const CALL: usize = 7;
    pub const VCALL: usize = 8;
    pub const CODE_CALLS: usize = 9;
    pub const CREATE: usize = 10;
    pub const SELFDESTRUCT: usize = 11;
    pub const ENV: usize = 12;
    pub const BLOCKENV: usize = 13;
    pub const BLOCKHASH: usize = 14;
    pub const BALANCE: usize = 15;
    pub const EXTCODE: usize = 16;
    pub const MEM: usize = 17;
    pub const KECCAK: usize = 18;
    pub const LOOP: usize = 19;
    pub const IFSLOT: usize = 20;
    pub const REVERT: usize = 21;
    pub const INVALID: usize = 22;
    pub const STOP: usize = 23;
    pub const ORACLE: usize = 24;
    pub const TIME: usize = 25;
    pub const PRECOMPILE: usize = 26;
    pub const KEYLESS: usize = 27;
    pub const BENEFICIARY: usize = 28;
    pub const IFGAS: usize = 29;
    pub const SOUP: usize = 30;
    pub const WILD: usize = 31;
}

impl Swarm {
    pub fn new(r: &mut Rng) -> Self {
        let mut op = [0u32; N_OPS];
        for w in op.iter_mut() {
            // Features are off in about a third of the scenarios.
            *w = if r.chance(1, 3) { 0 } else { r.range(1, 6) as u32 };
        }
        // Always some state effects and calls.
        op[o::SSTORE] = op[o::SSTORE].max(2);
        op[o::CALL] = op[o::CALL].max(1);
        // Terminal gadgets stay rare.
        for t in [o::REVERT, o::INVALID, o::STOP, o::SELFDESTRUCT, o::WILD] {
            op[t] = op[t].min(1);
        }
        Swarm {
            op,
            min_rules: Rules::Equivalence,
            max_rules: Rules::Rex4,
            deposits: r.below(3) as u32,
            creates: r.below(4) as u32,
            t7702: r.below(3) as u32,
            system: r.below(2) as u32,
            keyless: r.below(3) as u32,
            bad_nonce: if r.chance(1, 4) { 1 } else { 0 },
            selfdestruct: r.chance(1, 2),
            delegates: r.chance(1, 3),
            salt_max: *r.pick(&[1, 1, 2, 4, 16]),
            l1: r.chance(1, 2),
            free_gas: false,
            slots: *r.pick(&[2, 4, 8]),
        }
    }
}

pub struct Gen {
    pub r: Rng,
    pub sw: Swarm,
    pub n_con: u8,
    /// Contract whose program is being generated (-1: none). Calls mostly go to later contracts, so
    /// that call trees stay bounded; every other call gets a gas cap.
    pub cur: i32,
}

impl Gen {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng::new(seed);
        let sw = Swarm::new(&mut r);
        let n_con = r.range(2, 5) as u8;
        Gen { r, sw, n_con, cur: -1 }
    }

    /// Any account.
    pub fn who(&mut self) -> Who {
        let n = self.n_con;
        match self.r.weighted(&[4, 4, 3, 1, 1, 1, 1, 1, 1, 1]) {
            0 => Who::Con(self.r.below(n as u64) as u8),
            1 => Who::Eoa(self.r.below(N_EOA as u64) as u8),
            2 => Who::Fresh(self.r.below(5) as u8),
            3 => Who::Coinbase,
            4 => Who::Oracle,
            5 => Who::KlContract(self.r.below(2) as u8),
            6 => Who::Pre(*self.r.pick(&[1u16, 2, 4])),
            7 => Who::BaseFeeVault,
            8 => Who::Child(self.r.below(n as u64) as u8),
            _ => Who::Me,
        }
    }
    /// A target worth calling, that cannot cost much when it is called.
    pub fn callee(&mut self) -> Who {
        let n = self.n_con as i32;
        match self.r.weighted(&[8, 2, 3, 1, 1]) {
            0 if self.cur + 1 < n && !self.r.chance(1, 8) => {
                Who::Con(self.r.range((self.cur + 1) as u64, n as u64 - 1) as u8)
            }
            0 => Who::Con(self.r.below(n as u64) as u8),
            1 => Who::Eoa(self.r.below(N_EOA as u64) as u8),
            2 => Who::Fresh(self.r.below(5) as u8),
            3 => Who::Coinbase,
            _ => Who::Last,
        }
    }

    fn slot(&mut self) -> u64 {
        let n = self.sw.slots;
        self.r.below(n)
    }
    fn val(&mut self) -> u64 {
        *self.r.pick(&[0, 0, 1, 2, 7])
    }
    fn gas(&mut self) -> Option<u64> {
        match self.r.below(8) {
            0 => Some(0),
            1 => Some(2_300),
            2 => Some(self.r.range(1_000, 60_000)),
            3 => Some(self.r.range(100_000, 5_000_000)),
            4 => Some(u64::MAX),
            _ => None,
        }
    }

    pub fn ops(&mut self, depth: u32, max: u64) -> Vec<Op> {
        let n = self.r.range(1, max);
        let mut v = vec![];
        for _ in 0..n {
            let o = self.op(depth);
            let end = matches!(o, Op::Revert | Op::Invalid | Op::Stop | Op::SelfDestruct(_));
            v.push(o);
            if end {
                break;
            }
        }
        v
    }

    pub fn op(&mut self, depth: u32) -> Op {
        let mut op = self.raw_op(depth);
        if let Op::Call { to, gas, .. } = &mut op {
            let free = match to {
                Who::Con(i) => *i as i32 > self.cur,
                Who::Fresh(_) | Who::Pre(_) | Who::Oracle | Who::TimeOracle | Who::Keyless => true,
                _ => false,
            };
            if !free && gas.is_none_or(|g| g > 200_000) {
                *gas = Some(self.r.range(20_000, 200_000));
            }
        }
        op
    }

    fn raw_op(&mut self, depth: u32) -> Op {
        let mut w = self.sw.op;
        if depth == 0 {
            for i in [o::CREATE, o::LOOP, o::IFSLOT, o::IFGAS] {
                w[i] = 0;
            }
        }
        if !self.sw.selfdestruct {
            w[o::SELFDESTRUCT] = 0;
        }
        if self.sw.keyless == 0 {
            w[o::KEYLESS] = 0;
        }
        match self.r.weighted(&w) {
            o::SSTORE => Op::SStore { slot: self.slot(), val: self.val() },
            o::SSTORE_ACC => Op::SStoreAcc { slot: self.slot() },
            o::SSTORE_RANGE => {
                Op::SStoreRange { start: self.r.below(20), n: self.r.range(1, 6) as u16 }
            }
            o::SLOAD => Op::SLoad { slot: self.slot() },
            o::TSTORE => Op::TStore { slot: self.slot(), val: self.val() },
            o::TLOAD => Op::TLoad { slot: self.slot() },
            o::LOG => Op::Log {
                topics: self.r.below(5) as u8,
                len: *self.r.pick(&[0u16, 1, 32, 33, 200]),
            },
            o::CALL => Op::Call {
                kind: *self.r.pick(&[CallKind::Call, CallKind::Call, CallKind::Static]),
                to: self.callee(),
                value: 0,
                gas: self.gas(),
                input: self.small_input(),
            },
            o::VCALL => Op::Call {
                kind: *self.r.pick(&[CallKind::Call, CallKind::Call, CallKind::Call, CallKind::Code]),
                to: self.who(),
                value: *self.r.pick(&[1u64, 1, 3, 1_000_000, u64::MAX]),
                gas: self.gas(),
                input: Input::Empty,
            },
            o::CODE_CALLS => Op::Call {
                kind: *self.r.pick(&[CallKind::Delegate, CallKind::Code, CallKind::Static]),
                to: self.callee(),
                value: 0,
                gas: self.gas(),
                input: Input::Empty,
            },
            o::CREATE => Op::Create {
                salt: if self.r.chance(1, 2) { Some(self.r.below(3)) } else { None },
                init: if self.r.chance(1, 2) { self.ops(0, 3) } else { vec![] },
                runtime: if self.r.chance(2, 3) { self.ops(0, 3) } else { vec![] },
                pad: if self.r.chance(1, 4) { self.r.range(1, 300) as u16 } else { 0 },
                value: if self.r.chance(1, 4) { 1 } else { 0 },
            },
            o::SELFDESTRUCT => Op::SelfDestruct(self.who()),
            // ADDRESS ORIGIN CALLER CALLVALUE CALLDATASIZE CODESIZE GASPRICE RETURNDATASIZE
            // CHAINID SELFBALANCE PC MSIZE GAS
            o::ENV => Op::Env(*self.r.pick(&[
                0x30u8, 0x32, 0x33, 0x34, 0x36, 0x38, 0x3a, 0x3d, 0x46, 0x47, 0x58, 0x59, 0x5a,
            ])),
            // COINBASE TIMESTAMP NUMBER PREVRANDAO GASLIMIT BASEFEE BLOBBASEFEE
            o::BLOCKENV => {
                if self.r.chance(1, 8) {
                    Op::BlobHash
                } else {
                    Op::Env(*self.r.pick(&[0x41u8, 0x42, 0x43, 0x44, 0x45, 0x48, 0x4a]))
                }
            }
            o::BLOCKHASH => Op::BlockHash(self.r.below(300)),
            o::BALANCE => Op::Balance(self.who()),
            o::EXTCODE => {
                let w = self.who();
                match self.r.below(3) {
                    0 => Op::ExtCodeSize(w),
                    1 => Op::ExtCodeHash(w),
                    _ => Op::ExtCodeCopy(w),
                }
            }
            o::MEM => Op::Mem(*self.r.pick(&[0x100u32, 0x1000, 0x4000, 0x10000])),
            o::KECCAK => Op::Keccak(*self.r.pick(&[0u32, 32, 500, 5000])),
            o::LOOP => Op::Loop { n: self.r.range(1, 6) as u16, body: self.ops(0, 3) },
            o::IFSLOT => Op::IfSlot { slot: self.slot(), body: self.ops(depth - 1, 3) },
            o::REVERT => Op::Revert,
            o::INVALID => Op::Invalid,
            o::STOP => Op::Stop,
            o::ORACLE => self.oracle_call(),
            o::TIME => Op::Call {
                kind: *self.r.pick(&[CallKind::Call, CallKind::Static]),
                to: Who::TimeOracle,
                value: 0,
                gas: None,
                input: Input::TimeNow,
            },
            o::PRECOMPILE => Op::Call {
                kind: CallKind::Static,
                to: Who::Pre(*self.r.pick(&[1u16, 2, 3, 4, 5, 6, 7, 8, 9, 10, 0x100])),
                value: 0,
                gas: *self.r.pick(&[None, Some(100u64), Some(100_000)]),
                input: self.pre_input(),
            }
            .kzg(self.r.below(3)),
            o::KEYLESS => Op::Call {
                kind: CallKind::Call,
                to: Who::Keyless,
                value: 0,
                gas: None,
                input: self.keyless_input(),
            },
            o::BENEFICIARY => match self.r.below(4) {
                0 => Op::Balance(Who::Coinbase),
                1 => Op::ExtCodeSize(Who::Coinbase),
                2 => Op::ExtCodeHash(Who::Coinbase),
                _ => Op::Call {
                    kind: CallKind::Call,
                    to: Who::Coinbase,
                    value: self.r.below(2),
                    gas: None,
                    input: Input::Empty,
                },
            },
            o::SOUP => Op::Soup(self.soup(true)),
            o::WILD => self.wild(),
            _ => Op::IfGas {
                at_least: *self.r.pick(&[10_000u64, 100_000, 1_000_000]),
                body: self.ops(depth - 1, 3),
            },
        }
    }

    fn word(&mut self) -> U256 {
        let one = U256::from(1);
        match self.r.below(8) {
            0 => U256::ZERO,
            1 => one,
            2 => U256::MAX,
            3 => one << 255,
            4 => (one << 255) - one,
            5 => U256::from(self.r.below(300)),
            6 => U256::from(self.r.next()),
            _ => {
                let b: Vec<u8> = self.r.bytes(32);
                U256::from_be_slice(&b) >> self.r.below(250) as usize
            }
        }
    }

    /// Straight-line code over all pure instructions; leaves exactly one word.
    pub fn soup(&mut self, position: bool) -> Vec<u8> {
        let mut v = vec![];
        let mut h = 0u64;
        if self.r.chance(1, 4) {
            for _ in 0..17 {
                let w = self.word();
                crate::asm::push_u256(&mut v, w);
                h += 1;
            }
        }
        for _ in 0..self.r.range(3, 24) {
            let (op, pops, pushes) = match self.r.below(10) {
                0 => (*self.r.pick(&[0x08u8, 0x09]), 3, 1),
                1 | 2 => (self.r.range(0x01, 0x07) as u8, 2, 1),
                3 => (*self.r.pick(&[0x0a, 0x0b]), 2, 1),
                4 => (*self.r.pick(&[0x10, 0x11, 0x12, 0x13, 0x14, 0x16, 0x17, 0x18]), 2, 1),
                5 => (*self.r.pick(&[0x1a, 0x1b, 0x1c, 0x1d]), 2, 1),
                6 => (*self.r.pick(&[0x15, 0x19, 0x35]), 1, 1),
                7 => {
                    let n = self.r.range(1, 16);
                    if n <= h {
                        v.push(0x7f + n as u8);
                        h += 1;
                    }
                    continue;
                }
                8 => {
                    let n = self.r.range(1, 16);
                    if n < h {
                        v.push(0x8f + n as u8);
                    }
                    continue;
                }
                _ => {
                    if position && self.r.chance(1, 2) {
                        // ADDRESS ORIGIN CALLER CALLVALUE CALLDATASIZE CODESIZE RETURNDATASIZE PC
                        let o = *self.r.pick(&[0x30u8, 0x32, 0x33, 0x34, 0x36, 0x38, 0x3d, 0x58]);
                        v.push(o);
                    } else {
                        let n = self.r.range(0, 32);
                        v.push(0x5f + n as u8);
                        let b = self.r.bytes(n as usize);
                        v.extend(b);
                    }
                    h += 1;
                    continue;
                }
            };
            while h < pops {
                let w = self.word();
                crate::asm::push_u256(&mut v, w);
                h += 1;
            }
            v.push(op);
            h = h - pops + pushes;
        }
        if h == 0 {
            v.push(0x5f);
            h = 1;
        }
        while h > 1 {
            v.push(0x18);
            h -= 1;
        }
        v
    }

    fn mem_off(&mut self) -> U256 {
        match self.r.below(10) {
            0 => U256::MAX,
            1 => U256::from(1u64 << 40),
            2 => U256::from(0x10_0000u64),
            3 => U256::from(self.r.below(0x4000)),
            4 => U256::from(u64::MAX),
            _ => U256::from(self.r.below(0x200)),
        }
    }
    fn mem_len(&mut self) -> U256 {
        match self.r.below(12) {
            0 => U256::MAX,
            1 => U256::from(0x86000u64),
            2 => U256::from(0x86001u64),
            3 => U256::from(u64::MAX),
            4 => U256::from(self.r.below(0x8000)),
            5 | 6 => U256::ZERO,
            _ => U256::from(self.r.below(0x100)),
        }
    }

    /// Too few operands, or too many: the frame ends there and then.
    pub fn short_stack(&mut self) -> Op {
        let mut v = vec![];
        if self.r.chance(1, 8) {
            v.extend(std::iter::repeat_n(0x5fu8, 1024));
            v.push(*self.r.pick(&[0x5f, 0x30, 0x42, 0x80, 0x60]));
            return Op::Raw(v);
        }
        let (op, n) = *self.r.pick(&[
            (0xf0u8, 3u64), (0xf5, 4), (0xf1, 7), (0xf2, 7), (0xf4, 6), (0xfa, 6), (0x55, 2), (0x54, 1),
            (0xa0, 2), (0xa1, 3), (0xa2, 4), (0xa3, 5), (0xa4, 6), (0xff, 1), (0x31, 1), (0x3b, 1), (0x3c, 4),
            (0x3f, 1), (0x40, 1), (0x5c, 1), (0x5d, 2), (0x0a, 2), (0x05, 2), (0x1d, 2), (0x5e, 3), (0x20, 2),
            (0xf3, 2), (0xfd, 2), (0x57, 2), (0x08, 3), (0x49, 1),
        ]);
        let have = if self.r.chance(2, 3) { n - 1 } else { self.r.below(n) };
        for _ in 0..have {
            let w = if self.r.chance(3, 4) { U256::from(self.r.below(4)) } else { self.word() };
            crate::asm::push_u256(&mut v, w);
        }
        v.push(op);
        Op::Raw(v)
    }

    /// Instructions on memory ranges, inside and outside the memory in use.
    pub fn wild(&mut self) -> Op {
        let mut v = vec![];
        let p = |v: &mut Vec<u8>, w: U256| crate::asm::push_u256(v, w);
        match self.r.below(13) {
            12 => {
                self.short_stack()
            }
            10 => {
                // A creation deploying this many zero bytes.
                let n = match self.r.below(4) {
                    0 => self.r.range(524_280, 524_296),
                    1 => self.r.range(24_570, 24_580),
                    _ => self.r.range(1, 60_000),
                };
                let b = (n as u32).to_be_bytes();
                v.extend([0x65, 0x62, b[1], b[2], b[3], 0x5f, 0xf3, 0x5f, 0x52, 0x60, 6, 0x60, 26, 0x5f, 0xf0]);
                Op::Soup(v)
            }
            11 => {
                // A creation from init code around the size limit (zeros: deploys nothing).
                let len = if self.r.chance(1, 2) {
                    U256::from(self.r.range(548_850, 548_870))
                } else {
                    U256::from(*self.r.pick(&[24_577u64, 32_769, 40_000, 49_152, 49_153, 60_000]))
                };
                let two = self.r.chance(1, 2);
                if two {
                    v.push(0x5f);
                }
                p(&mut v, len);
                v.extend([0x60, 0x80, 0x5f, if two { 0xf5 } else { 0xf0 }]);
                Op::Soup(v)
            }
            0..=4 => {
                let salt = self.r.below(50);
                let (len, off) = (self.mem_len(), self.mem_off());
                let two = self.r.chance(3, 4);
                if two {
                    p(&mut v, U256::from(salt));
                }
                p(&mut v, len);
                p(&mut v, off);
                p(&mut v, U256::ZERO);
                v.push(if two { 0xf5 } else { 0xf0 });
                Op::Soup(v)
            }
            5 => {
                let (len, off) = (self.mem_len(), self.mem_off());
                p(&mut v, len);
                p(&mut v, off);
                v.push(0x20);
                Op::Soup(v)
            }
            6 => {
                let (len, off) = (self.mem_len(), self.mem_off());
                p(&mut v, len);
                p(&mut v, off);
                v.push(0xa0);
                Op::Raw(v)
            }
            7 => {
                // Return data cannot be read past its end, so the copy starts at zero.
                let len = self.mem_len();
                let src = self.mem_off();
                let dst = self.mem_off().max(U256::from(0x60));
                p(&mut v, len);
                p(&mut v, src);
                p(&mut v, dst);
                v.push(*self.r.pick(&[0x37, 0x39, 0x5e]));
                Op::Raw(v)
            }
            8 => {
                let off = self.mem_off();
                p(&mut v, off);
                v.push(0x51);
                Op::Soup(v)
            }
            _ => {
                let off = self.mem_off().max(U256::from(0x60));
                let w = self.word();
                p(&mut v, w);
                p(&mut v, off);
                v.push(*self.r.pick(&[0x52, 0x53]));
                Op::Raw(v)
            }
        }
    }

    pub fn oracle_call(&mut self) -> Op {
        let kind = *self.r.pick(&[
            CallKind::Call,
            CallKind::Call,
            CallKind::Static,
            CallKind::Delegate,
            CallKind::Code,
        ]);
        let input = self.oracle_input();
        // In another account's context a multi-call re-enters that account.
        let reenters = matches!(kind, CallKind::Delegate | CallKind::Code)
            && matches!(input, Input::OracleMulti(_));
        Op::Call {
            kind,
            to: Who::Oracle,
            value: 0,
            gas: if reenters {
                Some(self.r.range(20_000, 200_000))
            } else if self.r.chance(1, 6) {
                Some(self.r.range(100, 20_000))
            } else {
                None
            },
            input,
        }
    }
    pub fn oracle_input(&mut self) -> Input {
        match self.r.below(6) {
            0 => Input::OracleSet(self.r.below(4), self.r.below(3)),
            1 => Input::OracleHint { topic: self.r.below(4), len: *self.r.pick(&[0u16, 1, 40]) },
            2 => Input::OracleLog { topic: self.r.below(4), len: *self.r.pick(&[0u16, 1, 40]) },
            3 if self.r.chance(1, 2) => Input::Bytes(self.r.bytes(4)),
            4 if self.r.chance(1, 2) => {
                Input::OracleMulti((0..self.r.range(1, 3)).map(|_| self.oracle_input()).collect())
            }
            _ => Input::OracleGet(self.r.below(4)),
        }
    }
    fn small_input(&mut self) -> Input {
        if self.r.chance(3, 4) {
            Input::Empty
        } else {
            Input::Fill { n: 32, zeros: self.r.below(33) as u32 }
        }
    }
    fn pre_input(&mut self) -> Input {
        match self.r.below(4) {
            0 => Input::Empty,
            1 => Input::Fill { n: 128, zeros: 100 },
            2 => Input::Fill { n: 96, zeros: 31 },
            _ => Input::Fill { n: 213, zeros: 8 },
        }
    }
    pub fn keyless_input(&mut self) -> Input {
        if self.r.chance(1, 10) {
            return Input::KeylessRaw {
                bytes: {
                    let n = self.r.below(40) as usize;
                    self.r.bytes(n)
                },
                gas_override: 1_000_000,
            };
        }
        Input::Keyless {
            idx: self.r.below(2) as u8,
            gas_override: *self.r.pick(&[
                0u64,
                50_000,
                200_000,
                1_000_000,
                1_000_000,
                5_000_000,
                100_000_000,
                10_000_000_000,
            ]),
        }
    }

    pub fn tx(&mut self) -> TxSpec {
        let sw = self.sw.clone();
        // The last two accounts are poor or absent.
        let rich = if self.r.chance(1, 12) { N_EOA } else { N_EOA - 2 };
        let from = Who::Eoa(self.r.below(rich as u64) as u8);
        let ty = match self.r.weighted(&[4, 2, 4, sw.t7702, sw.deposits, sw.system]) {
            0 => TxType::Legacy,
            1 => TxType::Eip2930,
            2 => TxType::Eip1559,
            3 => TxType::Eip7702,
            4 => TxType::Deposit {
                mint: *self.r.pick(&[0u64, 0, 5, 1_000_000_000_000]),
                system: false,
            },
            _ => TxType::System,
        };
        let mut t = TxSpec {
            ty,
            from,
            to: Some(match self.r.weighted(&[10, 2, 1, 1]) {
                0 => Who::Con(self.r.below(self.n_con as u64) as u8),
                1 => self.who(),
                2 => Who::Fresh(self.r.below(5) as u8),
                _ => Who::Eoa(self.r.below(N_EOA as u64) as u8),
            }),
            init: vec![],
            runtime: vec![],
            pad: 0,
            value: *self.r.pick(&[0u64, 0, 0, 1, 1000]),
            gas: *self.r.pick(&[
                90_000u64,
                150_000,
                400_000,
                1_000_000,
                3_000_000,
                10_000_000,
                50_000_000,
                200_000_000,
                2_000_000_000,
            ]),
            gas_price: *self.r.pick(&[10u64, 10, 100, 1000]),
            tip: self.r.below(4),
            nonce_delta: 0,
            input: Input::Empty,
            access: vec![],
            auths: vec![],
        };
        if t.to == Some(Who::Me) {
            t.to = Some(Who::Con(0));
        }
        if self.r.chance(1, 4) {
            t.input = Input::Fill { n: self.r.below(200) as u32, zeros: self.r.below(100) as u32 };
        }
        if self.r.weighted(&[12, sw.creates]) == 1 && ty != TxType::Eip7702 {
            t.to = None;
            t.init = if self.r.chance(1, 2) { self.ops(1, 4) } else { vec![] };
            t.runtime = if self.r.chance(3, 4) { self.ops(1, 4) } else { vec![] };
            t.pad = if self.r.chance(1, 4) { self.r.range(1, 400) as u16 } else { 0 };
        } else if self.r.weighted(&[14, sw.keyless * 2]) == 1 {
            t.to = Some(Who::Keyless);
            t.input = self.keyless_input();
            t.value = if self.r.chance(1, 8) { 1 } else { 0 };
        } else if self.sw.op[o::ORACLE] > 0 && self.r.chance(1, 12) {
            t.to = Some(Who::Oracle);
            t.input = self.oracle_input();
        }
        if self.r.chance(1, 60) {
            // Large payloads.
            let n = match self.r.below(8) {
                0 => self.r.range(548_000, 549_500),
                1 => self.r.range(100_000, 300_000),
                _ => self.r.range(1_000, 70_000),
            } as u32;
            let zeros = self.r.below(n as u64) as u32;
            if t.to.is_none() || matches!(t.input, Input::Empty | Input::Fill { .. }) {
                t.input = Input::Fill { n, zeros };
            }
            t.gas = 2_000_000_000;
        }
        if self.r.chance(1, 25) {
            t.gas = 9_000_000_000;
        }
        if self.r.chance(1, 60) {
            t.gas = *self.r.pick(&[0u64, 20_000, 21_000, 40_000, 60_000, u64::MAX]);
        }
        if sw.bad_nonce > 0 && self.r.chance(1, 10) {
            t.nonce_delta = *self.r.pick(&[-1i64, 1, 2]);
        }
        match ty {
            TxType::Eip2930 | TxType::Eip1559 | TxType::Eip7702 => {
                if self.r.chance(1, 2) {
                    let n = self.r.range(1, 3);
                    for _ in 0..n {
                        let mut w = self.who();
                        if w == Who::Me {
                            w = Who::KlSigner(self.r.below(2) as u8);
                        }
                        let ks = (0..self.r.below(3)).map(|_| self.r.below(4)).collect();
                        t.access.push((w, ks));
                    }
                }
            }
            TxType::System => {
                t.to = Some(if self.r.chance(1, 4) { self.who() } else { Who::Oracle });
                if t.to == Some(Who::Me) {
                    t.to = Some(Who::TimeOracle);
                }
                t.input = self.oracle_input();
                t.value = if self.r.chance(1, 6) { 1 } else { 0 };
                t.gas_price = *self.r.pick(&[0u64, 0, 10]);
                t.gas = *self.r.pick(&[100_000u64, 5_000_000, 100_000_000]);
            }
            TxType::Deposit { .. } => {
                t.gas_price = 0;
                if self.r.chance(1, 8) {
                    t.from = Who::Fresh(self.r.below(3) as u8);
                }
                if self.r.chance(1, 10) {
                    t.value = u64::MAX;
                }
            }
            _ => {}
        }
        if ty == TxType::Eip7702 {
            let n = self.r.range(1, 3);
            for _ in 0..n {
                let mut to = self.who();
                if to == Who::Me {
                    to = Who::Pre(0);
                }
                t.auths.push(Auth {
                    authority: self.r.below(N_EOA as u64) as u8,
                    to,
                    nonce_delta: if self.r.chance(1, 6) { 1 } else { 0 },
                    wrong_chain: self.r.chance(1, 10),
                    bad_sig: self.r.chance(1, 10),
                });
            }
        }
        t
    }

    pub fn keyless_spec(&mut self) -> KeylessSpec {
        KeylessSpec {
            nonce: if self.r.chance(1, 12) { 1 } else { 0 },
            gas_price: *self.r.pick(&[0u64, 1, 100]),
            gas: *self.r.pick(&[50_000u64, 100_000, 500_000]),
            value: *self.r.pick(&[0u64, 0, 7]),
            init: {
                let mut v = self.ops(1, 4);
                if self.sw.selfdestruct && self.r.chance(1, 4) {
                    let w = self.who();
                    v.push(Op::SelfDestruct(w));
                }
                v
            },
            runtime: if self.r.chance(3, 4) { self.ops(1, 3) } else { vec![] },
            pad: if self.r.chance(1, 4) { self.r.range(1, 200) as u16 } else { 0 },
            sig: self.r.below(64),
            to: if self.r.chance(1, 20) { Some(Who::Con(0)) } else { None },
            eip155: self.r.chance(1, 20),
            signer_balance: *self.r.pick(&[0u64, 10_000_000, 1_000_000_000_000, 1_000_000_000_000_000]),
            signer_nonce: *self.r.pick(&[0u64, 0, 0, 0, 1, 2]),
        }
    }

    /// Hardfork schedule. `crossing`: activations happen while the chain runs.
    pub fn forks(&mut self, crossing: bool, genesis_time: u64) -> [Option<u64>; 8] {
        const ORDER: [Rules; 6] =
            [Rules::MiniRex, Rules::Rex, Rules::Rex1, Rules::Rex2, Rules::Rex3, Rules::Rex4];
        // Recent rule sets get more weight: they are what runs.
        let all = [
            Rules::Equivalence,
            Rules::MiniRex,
            Rules::Rex,
            Rules::Rex1,
            Rules::Rex2,
            Rules::Rex3,
            Rules::Rex4,
        ];
        let w = [1u32, 2, 2, 2, 3, 4, 4];
        let target = loop {
            let i = self.r.weighted(&w);
            if all[i] >= self.sw.min_rules && all[i] <= self.sw.max_rules {
                break all[i];
            }
        };
        let mut f = [None; 8];
        let mut t = 0u64;
        let _ = ORDER;
        let idx = |x: Rules| match x {
            Rules::Equivalence => 0,
            Rules::MiniRex => 1,
            Rules::Rex => 4,
            Rules::Rex1 => 5,
            Rules::Rex2 => 6,
            Rules::Rex3 => 7,
            Rules::Rex4 => 8,
        };
        let n = idx(target);
        if crossing && n > 0 {
            // The last few activations fall inside the run.
            let inside = self.r.range(1, 3.min(n as u64)) as usize;
            for i in 0..n {
                if i < n - inside {
                    f[i] = Some(0);
                } else {
                    t = t.max(genesis_time) + self.r.below(8);
                    f[i] = Some(t);
                }
            }
            // Sometimes the rollback pair is skipped entirely, as on chains born later.
            if n >= 4 && self.r.chance(1, 2) {
                f[1] = None;
                f[2] = None;
            }
        } else {
            for i in 0..n {
                f[i] = Some(0);
            }
        }
        f
    }

    pub fn events(&mut self, n: usize, faults: bool, crashes: bool, interleave: bool) -> Vec<Ev> {
        let mut v = vec![];
        for i in 0..n {
            if interleave && self.r.chance(1, 2) {
                match self.r.below(6) {
                    0 => {
                        v.push(Ev::Run(i));
                        v.push(Ev::Discard(i));
                        v.push(Ev::Exec(i));
                    }
                    1 => {
                        v.push(Ev::Run(i));
                        if self.r.chance(1, 2) && i + 1 < n {
                            v.push(Ev::Run(i + 1));
                            v.push(Ev::Discard(i + 1));
                        }
                        v.push(Ev::Commit(i));
                    }
                    2 => {
                        v.push(Ev::Run(i));
                        v.push(Ev::Run(i));
                        v.push(Ev::Commit(i));
                    }
                    3 if i > 0 => {
                        v.push(Ev::Run(self.r.idx(i)));
                        v.push(Ev::Discard(self.r.idx(i)));
                        v.push(Ev::Exec(i));
                    }
                    _ => v.push(Ev::Exec(i)),
                }
            } else {
                v.push(Ev::Exec(i));
            }
            if faults && self.r.chance(1, 2) {
                let p = self.fault();
                let at = v.len() - 1;
                v.insert(at, Ev::FaultExec(i, p));
            }
            if crashes && self.r.chance(1, 6) {
                v.push(Ev::Crash);
            }
        }
        v
    }

    pub fn fault(&mut self) -> FaultPlan {
        let kind = match self.r.below(7) {
            0 => Some(OpKind::Basic),
            1 => Some(OpKind::Code),
            2 => Some(OpKind::Storage),
            3 => Some(OpKind::BlockHash),
            4 => Some(OpKind::Salt),
            _ => None,
        };
        let at = match kind {
            Some(OpKind::BlockHash) | Some(OpKind::Code) => self.r.below(2),
            Some(_) => self.r.below(5),
            None => self.r.below(24),
        };
        FaultPlan { at, len: *self.r.pick(&[1u64, 1, 1, 3, u64::MAX]), kind }
    }

    pub fn block(&mut self, ntx: usize) -> BlockSpec {
        let txs = (0..ntx).map(|_| self.tx()).collect();
        BlockSpec {
            dt: self.r.range(1, 6),
            basefee: *self.r.pick(&[0u64, 1, 7, 10]),
            coinbase: match self.r.below(8) {
                0 => Who::Eoa(0),
                1 => Who::Con(0),
                2 => Who::Eoa(1),
                _ => Who::Coinbase,
            },
            gas_limit: 100_000_000_000,
            randao: self.r.below(1000),
            limits: no_limits(),
            pre_fault: None,
            txs,
            events: vec![],
        }
    }

    pub fn world(&mut self, prop: &str, seed: u64, crossing: bool) -> Scenario {
        let genesis_time = 1_000;
        let forks = self.forks(crossing, genesis_time);
        let mut eoas: Vec<EoaSpec> = (0..N_EOA)
            .map(|_| EoaSpec {
                balance: 10_000_000_000_000_000,
                nonce: *self.r.pick(&[0u64, 0, 0, 3]),
                delegate: None,
            })
            .collect();
        // One poor, one absent account.
        eoas[N_EOA - 1] = EoaSpec { balance: 50_000_000, nonce: 0, delegate: None };
        if self.r.chance(1, 2) {
            eoas[N_EOA - 2] = EoaSpec { balance: 0, nonce: 0, delegate: None };
        }
        if self.sw.delegates {
            for i in 0..3 {
                if self.r.chance(1, 2) {
                    let mut w = self.who();
                    if w == Who::Me {
                        w = Who::Fresh(0);
                    }
                    eoas[i].delegate = Some(w);
                    eoas[i].nonce += 1;
                }
            }
        }
        let contracts = (0..self.n_con)
            .map(|i| {
                self.cur = i as i32;
                ConSpec {
                    ops: self.ops(2, 7),
                    pad: 0,
                    balance: *self.r.pick(&[0u64, 10, 1_000_000]),
                    storage: (0..self.r.below(4))
                        .map(|_| (self.r.below(8), self.r.below(3)))
                        .collect(),
                }
            })
            .collect();
        self.cur = -1;
        let keyless = if self.sw.keyless > 0 {
            (0..2).map(|_| self.keyless_spec()).collect()
        } else {
            vec![]
        };
        let mut salt = vec![];
        let first_block = *self.r.pick(&[1u64, 2, 100, 300, 8_191, 1_000_000]);
        if self.sw.salt_max > 1 {
            for _ in 0..self.r.range(1, 30) {
                let b = first_block + self.r.below(3);
                let k = if self.r.chance(1, 3) {
                    1000 + self.r.below(ACCOUNT_BUCKETS as u64) as u32
                } else {
                    2000 + self.r.below(SLOT_BUCKETS as u64) as u32
                };
                salt.push((b, k, 256 * self.r.range(1, self.sw.salt_max)));
            }
        }
        let l1 = if self.sw.l1 {
            [
                self.r.range(1, 1_000_000),
                self.r.range(1, 1_000),
                self.r.range(1, 2_000_000),
                self.r.range(1, 1_000_000),
                self.r.below(3) * 1_000_000,
                self.r.below(1000),
            ]
        } else {
            [0; 6]
        };
        let mut sys_pre = vec![];
        for _ in 0..2 {
            if self.r.chance(1, 4) {
                let w = if keyless.is_empty() || self.r.chance(1, 2) {
                    Who::Child(self.r.below(self.n_con as u64) as u8)
                } else {
                    Who::KlContract(self.r.below(2) as u8)
                };
                sys_pre.push((w, self.r.range(1, 50)));
            }
        }
        Scenario {
            prop: prop.into(),
            seed,
            forks,
            genesis_time,
            first_block,
            eoas,
            contracts,
            keyless,
            salt,
            salt_default: 256,
            oracle: (0..self.r.below(4)).map(|_| (self.r.below(4), self.r.range(0, 9))).collect(),
            hint_sets: (0..self.r.below(3))
                .map(|_| (self.r.below(4), self.r.below(4), self.r.range(1, 9)))
                .collect(),
            sys_storage: vec![],
            l1,
            lazy_code: self.r.chance(1, 3),
            sys_pre,
            eips: *self.r.pick(&[0u8, 0, 1, 2, 3, 3]),
            blocks: vec![],
            knobs: vec![],
        }
    }

    /// Runtime limits that bind in some of the generated transactions.
    pub fn tight_limits(&mut self, l: &mut Limits) {
        match self.r.below(6) {
            0 => l.tx_data = self.r.range(150, 2_500),
            1 => l.tx_kv = self.r.range(1, 20),
            2 => l.tx_compute = self.r.range(22_000, 400_000),
            3 => l.tx_growth = self.r.below(6),
            4 => {
                l.env_compute = self.r.range(1_000, 120_000);
                l.oracle_compute = self.r.range(1_000, 120_000);
            }
            _ => {
                l.tx_data = self.r.range(300, 5_000);
                l.tx_kv = self.r.range(3, 40);
                l.tx_compute = self.r.range(60_000, 1_000_000);
                l.tx_growth = self.r.range(1, 10);
                l.env_compute = self.r.range(10_000, 400_000);
                l.oracle_compute = self.r.range(10_000, 400_000);
            }
        }
    }

    /// Makes one to three of the block's own limits bind.
    pub fn squeeze(&mut self, b: &mut BlockSpec) {
        let total: u64 = b.txs.iter().fold(0u64, |s, t| s.saturating_add(t.gas.min(1 << 40)));
        let l = &mut b.limits;
        // One to three binding limits.
        for _ in 0..self.r.range(1, 3) {
            match self.r.below(11) {
                0 => l.tx_gas = *self.r.pick(&[400_000u64, 1_000_000, 10_000_000]),
                1 => b.gas_limit = self.r.range(total / 8, total + 1).max(30_000),
                2 => l.tx_size = self.r.range(100, 1_600),
                3 => l.block_size = self.r.range(100, 6_000),
                4 => l.tx_da = self.r.range(100, 1_000),
                5 => l.block_da = self.r.range(100, 3_000),
                6 => l.block_data = self.r.range(0, 4_000),
                7 => l.block_kv = self.r.range(0, 20),
                8 => l.block_compute = self.r.range(0, 400_000),
                9 => l.block_growth = self.r.range(0, 6),
                _ => b.gas_limit = total / 2 + 30_000,
            }
        }
    }

    /// Runs, commits and discards in any order.
    pub fn any_order(&mut self, ntx: usize) -> Vec<Ev> {
        // Schedule: runs, commits, discards in any order.
        let mut evs = vec![];
        let mut open: Vec<usize> = vec![];
        let mut next = 0;
        while next < ntx || !open.is_empty() {
            if next < ntx && (open.is_empty() || self.r.chance(1, 2)) {
                if self.r.chance(1, 3) {
                    evs.push(Ev::Exec(next));
                } else {
                    evs.push(Ev::Run(next));
                    open.push(next);
                }
                next += 1;
            } else {
                let k = self.r.idx(open.len());
                let i = open.remove(k);
                evs.push(if self.r.chance(1, 5) { Ev::Discard(i) } else { Ev::Commit(i) });
            }
        }
        evs
    }
}
