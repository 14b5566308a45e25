//! Names to addresses, keys, calldata.

use k256::ecdsa::SigningKey;
use mega_evm::{
    alloy_consensus::{transaction::RlpEcdsaEncodableTx, SignableTransaction, Signed, TxLegacy},
    alloy_primitives::{address, keccak256, Address, Bytes, Signature, TxKind, B256, U256},
    alloy_sol_types::SolCall,
    IKeylessDeploy, IOracle,
};

use crate::{
    asm,
    scenario::{Input, KeylessSpec, Scenario, Who},
};

pub const CHAIN_ID: u64 = 4326;
pub const COINBASE: Address = address!("0xc01ba5ec01ba5ec01ba5ec01ba5ec01ba5ec0000");
pub const L1BLOCK: Address = address!("0x4200000000000000000000000000000000000015");
pub const BASE_FEE_VAULT: Address = address!("0x4200000000000000000000000000000000000019");
pub const L1_FEE_VAULT: Address = address!("0x420000000000000000000000000000000000001A");
pub const OP_FEE_VAULT: Address = address!("0x420000000000000000000000000000000000001B");
// Protocol constants, written down here rather than imported from the code under test.
pub const ORACLE_CONTRACT_ADDRESS: Address = address!("0x6342000000000000000000000000000000000001");
pub const TIME_ORACLE: Address = address!("0x6342000000000000000000000000000000000002");
pub const KEYLESS_DEPLOY_ADDRESS: Address = address!("0x6342000000000000000000000000000000000003");
pub const MEGA_SYSTEM_ADDRESS: Address = address!("0xA887dCB9D5f39Ef79272801d05Abdf707CFBbD1d");

pub const N_EOA: usize = 6;

pub struct Ids {
    keys: Vec<SigningKey>,
    eoas: Vec<Address>,
    keyless: Vec<KlTx>,
}

#[derive(Clone)]
pub struct KlTx {
    pub rlp: Bytes,
    pub signer: Option<Address>,
    pub input: Bytes,
}

fn eoa_key(i: usize) -> SigningKey {
    let mut seed = b"megasim eoa ".to_vec();
    seed.push(i as u8);
    SigningKey::from_slice(keccak256(seed).as_slice()).expect("valid key")
}

fn key_address(k: &SigningKey) -> Address {
    let p = k.verifying_key().to_encoded_point(false);
    Address::from_slice(&keccak256(&p.as_bytes()[1..])[12..])
}

fn numbered(tag: u8, i: u8) -> Address {
    let mut b = [0u8; 20];
    b[0] = tag;
    b[1] = 0x51;
    b[19] = i + 1;
    Address::from(b)
}

thread_local! {
    static KEYS: Vec<(SigningKey, Address)> =
        (0..N_EOA).map(|i| { let k = eoa_key(i); let a = key_address(&k); (k, a) }).collect();
}

impl Ids {
    pub fn new(sc: &Scenario) -> Self {
        let (keys, eoas) =
            KEYS.with(|k| (k.iter().map(|x| x.0.clone()).collect(), k.iter().map(|x| x.1).collect()));
        let mut ids = Ids { keys, eoas, keyless: vec![] };
        for k in &sc.keyless {
            let t = ids.keyless_tx(k);
            ids.keyless.push(t);
        }
        ids
    }

    pub fn addr(&self, w: Who) -> Address {
        match w {
            Who::Eoa(i) => self.eoas[i as usize % self.eoas.len()],
            Who::Con(i) => numbered(0xc0, i),
            Who::Fresh(i) => numbered(0xf0, i),
            Who::Pre(n) => {
                let mut b = [0u8; 20];
                b[18..].copy_from_slice(&n.to_be_bytes());
                Address::from(b)
            }
            Who::Oracle => ORACLE_CONTRACT_ADDRESS,
            Who::TimeOracle => TIME_ORACLE,
            Who::Keyless => KEYLESS_DEPLOY_ADDRESS,
            Who::Coinbase => COINBASE,
            Who::SysAddr => MEGA_SYSTEM_ADDRESS,
            Who::L1Block => L1BLOCK,
            Who::BaseFeeVault => BASE_FEE_VAULT,
            Who::L1FeeVault => L1_FEE_VAULT,
            Who::OpFeeVault => OP_FEE_VAULT,
            Who::KlSigner(i) => self.kl_signer(i).unwrap_or(Address::repeat_byte(0xee)),
            Who::KlContract(i) => {
                self.kl_signer(i).unwrap_or(Address::repeat_byte(0xee)).create(0)
            }
            Who::Child(i) => self.addr(Who::Con(i)).create(1),
            Who::Me | Who::Last | Who::Origin => Address::ZERO,
        }
    }

    pub fn kl_signer(&self, i: u8) -> Option<Address> {
        self.keyless.get(i as usize).and_then(|k| k.signer)
    }
    pub fn kl(&self, i: u8) -> Option<&KlTx> {
        self.keyless.get(i as usize)
    }

    pub fn sign(&self, authority: u8, hash: B256) -> Signature {
        let k = &self.keys[authority as usize % self.keys.len()];
        let (sig, rec) = k.sign_prehash_recoverable(hash.as_slice()).expect("sign");
        Signature::from((sig, rec))
    }

    fn keyless_tx(&self, k: &KeylessSpec) -> KlTx {
        let input = Bytes::from(asm::initcode(self, &k.init, &k.runtime, k.pad));
        let tx = TxLegacy {
            chain_id: k.eip155.then_some(CHAIN_ID),
            nonce: k.nonce,
            gas_price: k.gas_price as u128,
            gas_limit: k.gas,
            to: k.to.map_or(TxKind::Create, |w| TxKind::Call(self.addr(w))),
            value: U256::from(k.value),
            input: input.clone(),
        };
        let r = U256::from_be_bytes([0x22u8; 32]);
        let s = U256::from_be_bytes([0x22u8; 32]) + U256::from(k.sig);
        let sig = Signature::new(r, s, k.sig % 2 == 0);
        let mut rlp = vec![];
        tx.rlp_encode_signed(&sig, &mut rlp);
        let hash = tx.signature_hash();
        let signer = Signed::new_unchecked(tx, sig, hash).recover_signer().ok();
        KlTx { rlp: rlp.into(), signer, input }
    }

    pub fn input(&self, i: &Input) -> Vec<u8> {
        match i {
            Input::Empty => vec![],
            Input::Bytes(b) => b.clone(),
            Input::Fill { n, zeros } => {
                (0..*n).map(|i| if i < *zeros { 0 } else { 1 + (i % 251) as u8 }).collect()
            }
            Input::OracleGet(s) => IOracle::getSlotCall { slot: U256::from(*s) }.abi_encode(),
            Input::OracleSet(s, v) => IOracle::setSlotCall {
                slot: U256::from(*s),
                value: B256::from(U256::from(*v)),
            }
            .abi_encode(),
            Input::OracleHint { topic, len } => IOracle::sendHintCall {
                topic: B256::from(U256::from(*topic)),
                data: vec![0x5a; *len as usize].into(),
            }
            .abi_encode(),
            Input::OracleLog { topic, len } => IOracle::emitLogCall {
                topic: B256::from(U256::from(*topic)),
                data: vec![0x5b; *len as usize].into(),
            }
            .abi_encode(),
            Input::OracleMulti(v) => IOracle::multiCallCall {
                data: v.iter().map(|x| self.input(x).into()).collect(),
            }
            .abi_encode(),
            // timestamp() of the high-precision timestamp oracle
            Input::TimeNow => keccak256(b"timestamp()")[..4].to_vec(),
            Input::Keyless { idx, gas_override } => IKeylessDeploy::keylessDeployCall {
                keylessDeploymentTransaction: self
                    .keyless
                    .get(*idx as usize)
                    .map(|k| k.rlp.clone())
                    .unwrap_or_default(),
                gasLimitOverride: U256::from(*gas_override),
            }
            .abi_encode(),
            Input::KeylessRaw { bytes, gas_override } => IKeylessDeploy::keylessDeployCall {
                keylessDeploymentTransaction: bytes.clone().into(),
                gasLimitOverride: U256::from(*gas_override),
            }
            .abi_encode(),
        }
    }
}
