//! Seeded scenarios.
use crate::{refer, rng::Rng, scenario::*};

pub struct Gen {
    pub r: Rng,
}

const ENV: &[u8] = &[
    0x30, 0x32, 0x33, 0x34, 0x36, 0x38, 0x3a, 0x3d, 0x41, 0x42, 0x43, 0x44, 0x45, 0x46, 0x47, 0x48, 0x59, 0x5a, 0x4a, 0x4a, 0x49,
];

impl Gen {
    pub fn new(seed: u64) -> Self {
        Gen { r: Rng::new(seed) }
    }
    fn word(&mut self) -> u64 {
        match self.r.below(5) {
            0 => 0,
            1 => 1,
            2 => self.r.below(300),
            3 => u64::MAX,
            _ => self.r.next(),
        }
    }
    fn op(&mut self, depth: u32) -> Op {
        let r = &mut self.r;
        match r.weighted(&[10, 8, 3, 5, 6, 3, 2, 3, 2, 2, 2, 1, 2]) {
            0 => {
                let k = r.below(6) as u8;
                let v = self.word();
                Op::Store(k, v)
            }
            1 => Op::Env(*r.pick(ENV), 8 + r.below(8) as u8),
            2 => Op::Load(r.below(6) as u8),
            3 => Op::Log(r.below(5) as u8, r.below(70) as u8),
            4 => Op::Call {
                kind: r.below(4) as u8,
                to: *r.pick(&[3, 4, 5, 6, 7, 9, 11]),
                value: if r.chance(1, 3) { r.below(2000) } else { 0 },
                gas: *r.pick(&[0, 700, 5_000, 40_000, 200_000, u32::MAX]),
            },
            5 if depth > 0 => {
                let n = r.below(4);
                let two = r.chance(1, 2);
                let value = if r.chance(1, 3) { r.below(50) } else { 0 };
                let mut code: Vec<Op> = (0..n).map(|_| self.op(depth - 1)).collect();
                if self.r.chance(2, 3) {
                    code.push(Op::Deploy(self.r.below(40) as u8));
                }
                Op::Create { two, value, code }
            }
            6 => {
                let k = r.below(3) as u8;
                let v = self.word();
                Op::Transient(k, v)
            }
            7 => Op::Hash(*r.pick(&[0, 32, 500, 4000, 60_000])),
            8 => Op::Balance(r.below(12) as u8),
            9 => Op::CodeHash(r.below(12) as u8),
            10 => Op::Input(r.below(6) as u8),
            11 => Op::Destroy(r.below(12) as u8),
            _ => Op::Expand(*r.pick(&[1, 64, 900, 2500, 3500])),
        }
    }
    fn program(&mut self, n: u64) -> Vec<Op> {
        let n = self.r.below(n + 1);
        let mut v: Vec<Op> = (0..n).map(|_| self.op(2)).collect();
        match self.r.below(9) {
            0 => v.push(Op::Revert(self.r.below(64) as u8)),
            1 => v.push(Op::Invalid),
            2 | 3 => v.push(Op::Return(self.r.below(130) as u8)),
            4 => v.push(Op::Stop),
            _ => {}
        }
        v
    }

    /// A unit that executes quickly and passes for the right reasons.
    pub fn small_unit(&mut self) -> UnitSpec {
        let mut u = self.unit();
        for a in &mut u.accounts {
            a.ops.truncate(3);
        }
        u.env.blob = None;
        // Far below any resource limit.
        for g in &mut u.tx.gas {
            *g = (*g).min(3_000_000);
        }
        u.posts.truncate(1);
        for p in &mut u.posts {
            p.cases.truncate(2);
        }
        u
    }

    pub fn unit(&mut self) -> UnitSpec {
        let sender = self.r.below(3) as u8;
        // Most transactions are valid.
        let sound = self.r.chance(4, 5);
        let mut accounts = vec![];
        for who in 0..10u8 {
            let eoa = who < 4;
            if who != sender && self.r.chance(1, 4) {
                continue;
            }
            let n_storage = if eoa { 0 } else { self.r.below(4) };
            let ops = if eoa { vec![] } else { self.program(7) };
            let mut storage: Vec<(u8, u64)> = vec![];
            for _ in 0..n_storage {
                let k = self.r.below(6) as u8;
                if storage.iter().all(|s| s.0 != k) {
                    storage.push((k, 1 + self.r.below(1000)));
                }
            }
            let r = &mut self.r;
            accounts.push(AccountSpec {
                who,
                nonce: if eoa { *r.pick(&[0, 0, 1, 7, 255]) } else { 1 },
                balance: match r.below(if who == sender && sound { 1 } else if who == sender { 9 } else { 4 }) {
                    _ if who == sender && sound => 1_000_000_000_000_000_000,
                    0 => 1 + r.below(100_000),
                    1 => 1,
                    _ => 1_000_000_000_000_000_000,
                },
                storage,
                ops,
                delegate: (eoa && r.chance(1, 8)).then(|| 4 + r.below(5) as u8),
            });
        }
        let r = &mut self.r;
        let basefee = match r.below(4) {
            0 => None,
            1 => Some(0),
            _ => Some(1 + r.below(100)),
        };
        let env = EnvSpec {
            chain_id: match r.below(3) {
                0 => None,
                1 => Some(1),
                _ => Some(6342),
            },
            number: r.below(1_000_000),
            time: r.below(4_000_000_000),
            gas_limit: if sound { *r.pick(&[100_000_000, 10_000_000_000, u64::MAX]) } else { *r.pick(&[30_000_000, 10_000_000_000, 400_000, u64::MAX]) },
            basefee,
            difficulty: r.below(1 << 40),
            random: r.chance(2, 3).then(|| r.next()),
            coinbase: *r.pick(&[9, 10, 3, 4]),
            blob: match r.below(6) {
                0 => Some(Blob::Current(*r.pick(&[0, 131_072, 20_000_000, 60_000_000]))),
                1 => Some(Blob::Parent {
                    used: *r.pick(&[0, 131_072, 393_216, 786_432]),
                    excess: *r.pick(&[0, 262_144, 10_000_000, 60_000_000]),
                }),
                _ => None,
            },
        };
        let to = if r.chance(1, 6) { None } else { Some(*r.pick(&[4u8, 4, 5, 6, 7, 3, 9, 11])) };
        let nonce = accounts.iter().find(|a| a.who == sender).map_or(0, |a| a.nonce);
        let nonce = match r.below(14) {
            _ if sound => nonce,
            0 => nonce + 1,
            1 => nonce.saturating_sub(1),
            _ => nonce,
        };
        let nd = 1 + r.below(3);
        let base = basefee.unwrap_or(0);
        let dynamic = r.chance(1, 2);
        let price = if !sound && r.chance(1, 12) { base.saturating_sub(1) } else { base + r.below(40) };
        let mut tx = TxSpec {
            sender,
            named: r.chance(1, 2),
            bad_key: r.chance(1, if sound { 60 } else { 15 }),
            to,
            nonce,
            data: vec![],
            gas: (0..1 + r.below(2))
                .map(|_| {
                    if sound {
                        *r.pick(&[150_000u64, 400_000, 1_000_000, 5_000_000, 90_000_000])
                    } else {
                        *r.pick(&[21_000u64, 60_000, 150_000, 400_000, 2_000_000, 20_999])
                    }
                })
                .collect(),
            value: (0..1 + r.below(2)).map(|_| *r.pick(&[0u64, 0, 1, 999, 50_000])).collect(),
            gas_price: (!dynamic).then_some(price),
            max_fee: dynamic.then_some(price),
            priority: if dynamic { Some(if !sound && r.chance(1, 10) { price + 1 } else { r.below(price + 1) }) } else { None },
            access: vec![],
            auths: None,
            explicit_type: r.chance(1, 4),
            blobs: None,
        };
        for _ in 0..nd {
            let d = if to.is_none() || self.r.chance(1, 8) {
                let mut ops = self.program(4);
                if self.r.chance(1, 2) {
                    ops.push(Op::Deploy(self.r.below(60) as u8));
                }
                Data::Init(ops)
            } else {
                let n = *self.r.pick(&[0usize, 4, 32, 68, 300]);
                Data::Bytes(self.r.bytes(n))
            };
            tx.data.push(d);
            let r = &mut self.r;
            let list = r.chance(1, 3).then(|| {
                (0..r.below(3)).map(|_| (r.below(12) as u8, r.below(6) as u8)).collect()
            });
            tx.access.push(list);
        }
        // One type for all data indices when it is stated.
        if tx.explicit_type {
            let first = tx.access[0].is_some();
            if tx.access.iter().any(|a| a.is_some() != first) {
                tx.explicit_type = false;
            }
        }
        if dynamic && self.r.chance(1, 4) {
            let n = self.r.below(3);
            let auths = (0..n)
                .map(|_| {
                    let r = &mut self.r;
                    let signer = r.below(4) as u8;
                    let nonce = accounts.iter().find(|a| a.who == signer).map_or(0, |a| a.nonce);
                    AuthSpec {
                        signer,
                        address: 4 + r.below(6) as u8,
                        nonce: if r.chance(1, 5) { nonce + 1 } else { nonce },
                        chain: *r.pick(&[0, 0, 1, 6342]),
                        broken: r.chance(1, 8),
                        both_parities: r.chance(1, 2),
                    }
                })
                .collect();
            tx.auths = Some(auths);
        }
        if dynamic && tx.auths.is_none() && self.r.chance(1, 5) {
            let r = &mut self.r;
            let fee = *r.pick(&[0, 1, 1, 1000, 1 << 40]);
            let broken = (!sound && r.chance(1, 6)) as u8;
            tx.blobs = Some((*r.pick(&[1u8, 1, 2, 3, 6, 9, 10, 0]), broken, fee));
        }
        let np = 1 + self.r.below(3);
        let posts = (0..np)
            .map(|_| {
                let r = &mut self.r;
                let spec = if r.chance(1, 4) {
                    refer::MINI_REX
                } else if r.chance(1, 12) {
                    refer::SKIPPED_SPEC
                } else {
                    r.idx(refer::MINI_REX)
                } as u8;
                let n = 1 + r.below(4);
                let cases = (0..n)
                    .map(|_| CaseSpec {
                        d: r.below(3) as u8,
                        g: r.below(2) as u8,
                        v: r.below(2) as u8,
                        wrong: Wrong::Nothing,
                    })
                    .collect();
                PostSpec { spec, cases }
            })
            .collect();
        let out = *self.r.pick(&[Out::Absent, Out::Absent, Out::Right]);
        UnitSpec { accounts, env, tx, posts, out }
    }

    /// Makes one statement of the file false.
    pub fn spoil(&mut self, f: &mut FileSpec) {
        let r = &mut self.r;
        if f.units.is_empty() {
            return;
        }
        let i = r.idx(f.units.len());
        let u = &mut f.units[i];
        if r.chance(1, 6) {
            u.out = Out::Wrong;
            return;
        }
        let k = r.idx(u.posts.len());
        let p = &mut u.posts[k];
        let k = r.idx(p.cases.len());
        p.cases[k].wrong = *r.pick(&[Wrong::Root, Wrong::Logs, Wrong::Exception]);
    }

    pub fn schedule(&mut self) -> Vec<u8> {
        let n = *self.r.pick(&[0u64, 40, 120, 400, 900]);
        let dense = *self.r.pick(&[2u64, 5, 20, 60]);
        (0..n)
            .map(|_| if self.r.below(dense) == 0 { 1 + self.r.below(7) as u8 } else { 0 })
            .collect()
    }
}

fn blank(prop: &str, seed: u64) -> Scenario {
    Scenario {
        prop: prop.into(),
        seed,
        files: vec![],
        cli: false,
        groups: vec![],
        extra: vec![],
        single_thread: false,
        trace: false,
        json: false,
        keep_going: false,
        parallelism: 1,
        schedule: vec![],
        stalls: vec![],
        spawn_fail: vec![],
        jumps: vec![],
    }
}

/// Many small files, many threads, every kind of fault.
pub fn parallel(seed: u64) -> Scenario {
    let mut g = Gen::new(seed);
    let mut sc = blank("C24", seed);
    let n = 1 + g.r.below(8);
    let flavour = g.r.below(6);
    let cheap: Vec<UnitSpec> = (0..2).map(|_| g.small_unit()).collect();
    for _ in 0..n {
        let nu = 1 + g.r.below(2);
        let mut units: Vec<UnitSpec> = vec![];
        for _ in 0..nu {
            let u = if g.r.chance(1, 5) { g.small_unit() } else { g.r.pick(&cheap).clone() };
            units.push(u);
        }
        let mut f = FileSpec { state: FileState::Fine, units };
        let bad = match flavour {
            0 => false,
            1 => g.r.chance(1, 8),
            2 => g.r.chance(9, 10),
            _ => g.r.chance(1, 3),
        };
        if bad {
            g.spoil(&mut f);
        }
        if flavour >= 3 && g.r.chance(1, 4) {
            f.state = match g.r.below(7) {
                0 => FileState::Vanished,
                1 => FileState::Directory,
                2 => FileState::Torn(g.r.below(1000) as u16),
                3 => FileState::NotText,
                4 => FileState::ReadError(*g.r.pick(&[5, 13, 24])),
                _ => FileState::Skipped(g.r.below(4) as u8),
            };
        }
        if flavour == 5 && g.r.chance(1, 8) {
            f.units[0].posts.push(PostSpec {
                spec: refer::UNKNOWN as u8,
                cases: vec![CaseSpec { d: 0, g: 0, v: 0, wrong: Wrong::Nothing }],
            });
        }
        sc.files.push(f);
    }
    sc.keep_going = g.r.chance(1, 2);
    sc.single_thread = g.r.chance(1, 10);
    sc.json = g.r.chance(1, 10);
    sc.trace = g.r.chance(1, 30);
    sc.parallelism = *g.r.pick(&[0, 1, 2, 2, 3, 4, 4, 6, 8]);
    sc.schedule = g.schedule();
    for _ in 0..g.r.below(3) {
        if g.r.chance(1, 2) {
            sc.stalls.push((g.r.idx(6), g.r.below(80), 1 + g.r.below(400)));
        }
    }
    if g.r.chance(1, 12) {
        sc.spawn_fail.push(g.r.idx(5));
    }
    if g.r.chance(1, 5) {
        sc.jumps.push((g.r.below(100), *g.r.pick(&[1_000_000, 3_600_000_000_000, 1 << 60])));
    }
    sc.cli = g.r.chance(1, 3);
    if sc.cli {
        let k = 1 + g.r.below(3);
        sc.groups = (0..n).map(|_| g.r.below(k) as u8).collect();
        if g.r.chance(1, 8) {
            let at = g.r.below(4) as u8;
            sc.extra.push(if g.r.chance(1, 2) { Extra::MissingPath(at) } else { Extra::EmptyDir(at) });
        }
    }
    sc
}

/// Few files, rich contents: what each test means.
pub fn contents(seed: u64) -> Scenario {
    let mut g = Gen::new(seed);
    let mut sc = blank("C25", seed);
    let n = 1 + g.r.below(2);
    for _ in 0..n {
        let units = (0..1 + g.r.below(3)).map(|_| g.unit()).collect();
        let mut f = FileSpec { state: FileState::Fine, units };
        if g.r.chance(1, 2) {
            g.spoil(&mut f);
        }
        sc.files.push(f);
    }
    sc.keep_going = g.r.chance(1, 2);
    sc.json = g.r.chance(1, 2);
    sc.trace = g.r.chance(1, 12);
    sc.single_thread = g.r.chance(1, 4);
    sc.parallelism = 1 + g.r.below(2) as u8;
    if g.r.chance(1, 4) {
        sc.schedule = g.schedule();
    }
    sc
}
