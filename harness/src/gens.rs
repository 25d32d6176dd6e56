//! Small generators and message builders shared by the checks.
use ed25519_dalek::{Signer, SigningKey};
use prost::Message as _;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use snapchain::proto;
pub use proptest::strategy::{BoxedStrategy, Just, Strategy};
pub use proptest::{collection::vec as pvec, option, prop_oneof};

pub fn signing_key(i: u8) -> SigningKey {
    SigningKey::from_bytes(blake3::hash(&[b'k', i]).as_bytes())
}
pub fn h20(b: &[u8]) -> Vec<u8> {
    blake3::hash(b).as_bytes()[..20].to_vec()
}
/// One of the limits, plus or minus a little; or anything up to a bit over the largest.
pub fn near(limits: &'static [usize]) -> BoxedStrategy<usize> {
    let max = *limits.iter().max().unwrap();
    prop_oneof![
        4 => (0..limits.len(), -2i64..=2).prop_map(move |(i, d)| (limits[i] as i64 + d).max(0) as usize),
        2 => 0..=(max + 2).min(40),
        2 => 0..=max + max / 4 + 2,
    ]
    .boxed()
}
/// A string by recipe: `len` bytes of a fill character (two-byte characters when `kind` is 1).
#[derive(Debug, Clone, Serialize, Deserialize, PartialEq)]
pub struct Str {
    pub len: usize,
    pub kind: u8,
}
impl Str {
    pub fn get(&self) -> String {
        match self.kind {
            1 if self.len >= 2 => {
                let mut s = "é".repeat(self.len / 2);
                if self.len % 2 == 1 {
                    s.push('x')
                }
                s
            }
            _ => (0..self.len).map(|i| (b'a' + (i % 26) as u8) as char).collect(),
        }
    }
}
pub fn str_near(limits: &'static [usize]) -> BoxedStrategy<Str> {
    (near(limits), 0u8..2).prop_map(|(len, kind)| Str { len, kind }).boxed()
}
/// `n` mostly right, sometimes off by one, empty or doubled
pub fn len_mostly(n: usize) -> BoxedStrategy<usize> {
    prop_oneof![14 => Just(n), 1 => Just(n - 1), 1 => Just(n + 1), 1 => Just(0usize), 1 => Just(2 * n)].boxed()
}
pub fn fill(len: usize, tag: u8) -> Vec<u8> {
    let mut out = vec![];
    let mut i = 0u32;
    while out.len() < len {
        out.extend_from_slice(blake3::hash(&[&[tag][..], &i.to_be_bytes()].concat()).as_bytes());
        i += 1;
    }
    out.truncate(len);
    out
}
pub fn any_fid() -> BoxedStrategy<u64> {
    prop_oneof![
        1 => Just(0u64), 6 => 1u64..6, 2 => 1u64..1_000_000, 1 => Just(u32::MAX as u64),
        1 => Just(u32::MAX as u64 + 1), 1 => Just(u64::MAX), 1 => any::<u64>()
    ]
    .boxed()
}
pub fn sign_data(data: &proto::MessageData, key: &SigningKey) -> proto::Message {
    let bytes = data.encode_to_vec();
    let hash = h20(&bytes);
    let signature = key.sign(&hash).to_bytes().to_vec();
    proto::Message {
        data: Some(data.clone()),
        hash,
        hash_scheme: proto::HashScheme::Blake3 as i32,
        signature,
        signature_scheme: proto::SignatureScheme::Ed25519 as i32,
        signer: key.verifying_key().to_bytes().to_vec(),
        data_bytes: None,
    }
}
pub fn keccak(b: &[u8]) -> [u8; 32] {
    alloy_primitives::keccak256(b).0
}
pub fn u256(n: u64) -> [u8; 32] {
    let mut o = [0u8; 32];
    o[24..].copy_from_slice(&n.to_be_bytes());
    o
}
pub fn pad_addr(a: &[u8]) -> [u8; 32] {
    let mut o = [0u8; 32];
    o[12..].copy_from_slice(a);
    o
}
pub fn eth_key(i: u8) -> alloy_signer_local::PrivateKeySigner {
    let b = blake3::hash(&[b'e', i]);
    alloy_signer_local::PrivateKeySigner::from_slice(b.as_bytes()).unwrap()
}
pub fn eth_sign(i: u8, prehash: [u8; 32]) -> Vec<u8> {
    use alloy_signer::SignerSync;
    eth_key(i).sign_hash_sync(&prehash.into()).unwrap().as_bytes().to_vec()
}
/// keccak256(0x19 0x01 || domain || struct)
pub fn eip712(domain: [u8; 32], strukt: [u8; 32]) -> [u8; 32] {
    keccak(&[&[0x19, 0x01][..], &domain, &strukt].concat())
}
pub fn monotone_version(i: u8) -> snapchain::version::version::EngineVersion {
    use snapchain::version::version::EngineVersion::*;
    [V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21]
        [i as usize]
}
