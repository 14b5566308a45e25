//! Assembles gadget programs to EVM bytecode. Every gadget is stack-neutral and folds what it
//! observed into an accumulator word at memory 0, which the program finally returns.

use mega_evm::alloy_primitives::{Address, U256};

use crate::{
    ids::Ids,
    scenario::{CallKind, Op, Who},
};

const ACC: u8 = 0x00;
const IN: u8 = 0x20;
const LAST: u8 = 0x40;
const OUT: u8 = 0x60;
const BUF: u32 = 0x80;

enum Item {
    B(Vec<u8>),
    Label(usize),
    PushLabel(usize),
    PushBlob(usize),
}

struct Asm<'a> {
    items: Vec<Item>,
    blobs: Vec<Vec<u8>>,
    labels: usize,
    ids: &'a Ids,
}

pub fn push_u256(out: &mut Vec<u8>, v: U256) {
    let b = v.to_be_bytes::<32>();
    let skip = b.iter().take_while(|x| **x == 0).count();
    if skip == 32 {
        out.push(0x5f);
    } else {
        out.push(0x60 + (31 - skip) as u8);
        out.extend_from_slice(&b[skip..]);
    }
}

impl<'a> Asm<'a> {
    fn op(&mut self, bytes: &[u8]) {
        if let Some(Item::B(v)) = self.items.last_mut() {
            v.extend_from_slice(bytes);
        } else {
            self.items.push(Item::B(bytes.to_vec()));
        }
    }
    fn push(&mut self, v: u64) {
        let mut b = vec![];
        push_u256(&mut b, U256::from(v));
        self.op(&b);
    }
    fn push_addr(&mut self, a: Address) {
        let mut b = vec![0x73];
        b.extend_from_slice(a.as_slice());
        self.op(&b);
    }
    fn who(&mut self, w: Who) {
        match w {
            Who::Me => self.op(&[0x30]),
            Who::Origin => self.op(&[0x32]),
            Who::Last => self.op(&[0x60, LAST, 0x51]),
            w => {
                let a = self.ids.addr(w);
                self.push_addr(a)
            }
        }
    }
    /// Folds the top of stack into the accumulator.
    fn fold(&mut self) {
        self.op(&[0x60, IN, 0x52, 0x60, 0x40, 0x5f, 0x20, 0x5f, 0x52]);
    }
    fn label(&mut self) -> usize {
        self.labels += 1;
        self.labels - 1
    }
    fn blob_to_mem(&mut self, blob: Vec<u8>) -> u64 {
        let n = blob.len() as u64;
        if n > 0 {
            self.push(n);
            let i = self.blobs.len();
            self.blobs.push(blob);
            self.items.push(Item::PushBlob(i));
            self.push(BUF as u64);
            self.op(&[0x39]);
        }
        n
    }

    fn ops(&mut self, ops: &[Op]) {
        for o in ops {
            self.one(o);
        }
    }

    fn one(&mut self, o: &Op) {
        match o {
            Op::SStore { slot, val } => {
                self.push(*val);
                self.push(*slot);
                self.op(&[0x55]);
            }
            Op::SStoreAcc { slot } => {
                self.op(&[0x60, ACC, 0x51]);
                self.push(*slot);
                self.op(&[0x55]);
            }
            Op::SStoreRange { start, n } => {
                let l = self.label();
                self.push((*n).max(1) as u64);
                self.items.push(Item::Label(l));
                // value = counter, slot = counter + start
                self.op(&[0x80, 0x80]);
                self.push(*start);
                self.op(&[0x01, 0x55]);
                self.op(&[0x60, 1, 0x90, 0x03, 0x80]);
                self.items.push(Item::PushLabel(l));
                self.op(&[0x57, 0x50]);
            }
            Op::SLoad { slot } => {
                self.push(*slot);
                self.op(&[0x54]);
                self.fold();
            }
            Op::TStore { slot, val } => {
                self.push(*val);
                self.push(*slot);
                self.op(&[0x5d]);
            }
            Op::TLoad { slot } => {
                self.push(*slot);
                self.op(&[0x5c]);
                self.fold();
            }
            Op::Log { topics, len } => {
                for t in 0..*topics {
                    self.push(0xa0 + t as u64);
                }
                self.push(*len as u64);
                self.op(&[0x5f, 0xa0 + topics]);
            }
            Op::Call { kind, to, value, gas, input } => {
                let data = self.ids.input(input);
                let n = self.blob_to_mem(data);
                self.op(&[0x5f, 0x60, OUT, 0x52]);
                self.op(&[0x60, 32, 0x60, OUT]);
                self.push(n);
                self.push(BUF as u64);
                if matches!(kind, CallKind::Call | CallKind::Code) {
                    self.push(*value);
                }
                self.who(*to);
                match gas {
                    Some(g) => self.push(*g),
                    None => self.op(&[0x5a]),
                }
                self.op(&[match kind {
                    CallKind::Call => 0xf1,
                    CallKind::Code => 0xf2,
                    CallKind::Delegate => 0xf4,
                    CallKind::Static => 0xfa,
                }]);
                self.fold();
                self.op(&[0x3d]);
                self.fold();
                self.op(&[0x60, OUT, 0x51]);
                self.fold();
            }
            Op::Create { salt, init, runtime, pad, value } => {
                let code = initcode(self.ids, init, runtime, *pad);
                if let Some(s) = salt {
                    self.push(*s);
                }
                let n = self.blob_to_mem(code);
                self.push(n);
                self.push(BUF as u64);
                self.push(*value);
                self.op(&[if salt.is_some() { 0xf5 } else { 0xf0 }]);
                self.op(&[0x80, 0x60, LAST, 0x52]);
                self.fold();
            }
            Op::SelfDestruct(w) => {
                self.who(*w);
                self.op(&[0xff]);
            }
            Op::Env(code) => {
                self.op(&[*code]);
                self.fold();
            }
            Op::BlockHash(n) => {
                self.push(*n);
                self.op(&[0x40]);
                self.fold();
            }
            Op::BlobHash => {
                self.op(&[0x5f, 0x49]);
                self.fold();
            }
            Op::Balance(w) => {
                self.who(*w);
                self.op(&[0x31]);
                self.fold();
            }
            Op::ExtCodeSize(w) => {
                self.who(*w);
                self.op(&[0x3b]);
                self.fold();
            }
            Op::ExtCodeHash(w) => {
                self.who(*w);
                self.op(&[0x3f]);
                self.fold();
            }
            Op::ExtCodeCopy(w) => {
                self.op(&[0x60, 32, 0x5f, 0x60, OUT]);
                self.who(*w);
                self.op(&[0x3c, 0x60, OUT, 0x51]);
                self.fold();
            }
            Op::Mem(off) => {
                self.push(*off as u64);
                self.op(&[0x51, 0x50]);
            }
            Op::Keccak(n) => {
                self.push(*n as u64);
                self.op(&[0x5f, 0x20]);
                self.fold();
            }
            Op::Loop { n, body } => {
                let l = self.label();
                self.push((*n).max(1) as u64);
                self.items.push(Item::Label(l));
                self.ops(body);
                self.op(&[0x60, 1, 0x90, 0x03, 0x80]);
                self.items.push(Item::PushLabel(l));
                self.op(&[0x57, 0x50]);
            }
            Op::IfSlot { slot, body } => {
                let l = self.label();
                self.push(*slot);
                self.op(&[0x54, 0x15]);
                self.items.push(Item::PushLabel(l));
                self.op(&[0x57]);
                self.ops(body);
                self.items.push(Item::Label(l));
            }
            Op::IfGas { at_least, body } => {
                let l = self.label();
                self.push(*at_least);
                self.op(&[0x5a, 0x10]);
                self.items.push(Item::PushLabel(l));
                self.op(&[0x57]);
                self.ops(body);
                self.items.push(Item::Label(l));
            }
            Op::CalldataWord => {
                self.op(&[0x5f, 0x35]);
                self.fold();
            }
            Op::Revert => self.op(&[0x60, 32, 0x5f, 0xfd]),
            Op::Invalid => self.op(&[0xfe]),
            Op::Stop => self.op(&[0x00]),
            Op::Raw(b) => self.op(b),
            Op::Soup(b) => {
                self.op(b);
                self.fold();
            }
        }
    }

    fn finish(self) -> Vec<u8> {
        // Every label and blob reference is PUSH2.
        let mut pos = 0usize;
        let mut label_pos = vec![0usize; self.labels];
        for it in &self.items {
            match it {
                Item::B(b) => pos += b.len(),
                Item::Label(l) => {
                    label_pos[*l] = pos;
                    pos += 1;
                }
                Item::PushLabel(_) | Item::PushBlob(_) => pos += 3,
            }
        }
        let mut blob_pos = vec![];
        for b in &self.blobs {
            blob_pos.push(pos);
            pos += b.len();
        }
        let mut out = Vec::with_capacity(pos);
        for it in &self.items {
            let mut p2 = |v: usize| {
                out.push(0x61);
                out.extend_from_slice(&(v as u16).to_be_bytes());
            };
            match it {
                Item::B(b) => out.extend_from_slice(b),
                Item::Label(_) => out.push(0x5b),
                Item::PushLabel(l) => p2(label_pos[*l]),
                Item::PushBlob(i) => p2(blob_pos[*i]),
            }
        }
        for b in &self.blobs {
            out.extend_from_slice(b);
        }
        out
    }
}

/// Runtime program: body, then return the accumulator.
pub fn program(ids: &Ids, ops: &[Op], pad: u16) -> Vec<u8> {
    let mut a = Asm { items: vec![], blobs: vec![], labels: 0, ids };
    a.ops(ops);
    a.op(&[0x60, 32, 0x5f, 0xf3]);
    let mut out = a.finish();
    // Padding is unreachable but deployed and paid for.
    out.extend((0..pad).map(|i| 1 + (i % 0x5) as u8));
    out
}

/// Init code: body, then deploy `program(runtime)`. An empty runtime with no padding deploys
/// nothing.
pub fn initcode(ids: &Ids, init: &[Op], runtime: &[Op], pad: u16) -> Vec<u8> {
    let code = if runtime.is_empty() && pad == 0 { vec![] } else { program(ids, runtime, pad) };
    let mut a = Asm { items: vec![], blobs: vec![], labels: 0, ids };
    a.ops(init);
    let n = a.blob_to_mem(code);
    a.push(n);
    a.push(BUF as u64);
    a.op(&[0xf3]);
    a.finish()
}
