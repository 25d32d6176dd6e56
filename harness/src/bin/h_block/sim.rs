//! Histories for shard 0: generated operations, the real messages they stand for, a reference model
//! of what the blocks make of them, and nodes running the real block engine and data shards.
use crate::gens::*;
use proptest::prelude::*;
use prost::Message as _;
use serde::{Deserialize, Serialize};
use snapchain::core::util::FarcasterTime;
use snapchain::proto::{self, message_data::Body, MessageData, MessageType};
use snapchain::storage::db::RocksDB;
use snapchain::storage::store::account::StoreOptions;
use snapchain::storage::store::block_engine::BlockEngine;
use snapchain::storage::store::engine::ShardEngine;
use snapchain::storage::store::mempool_poller::MempoolMessage;
use snapchain::storage::store::test_helper as th;
use snapchain::storage::trie::merkle_trie::{MerkleTrie, TrieKey};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::{Arc, OnceLock};

/// Users 1001..1005, then the two apps that request keys.
pub const USERS: u8 = 5;
pub const PEOPLE: u8 = 7;
pub fn fid(f: u8) -> u64 {
    1001 + (f % PEOPLE) as u64
}
pub const UNITS: [u32; 7] = [8, 4, 3, 2, 1, 0, 0];
pub const CHANNELS: u8 = 3;
/// A nonce above all before it.
pub const AUTO: u8 = 255;
pub fn t0() -> u32 {
    static T: OnceLock<u32> = OnceLock::new();
    *T.get_or_init(|| (FarcasterTime::current().to_u64() - 30 * 86400) as u32)
}
pub fn addr(a: u8) -> Vec<u8> {
    h20(&[b'a', a % 4])
}
pub fn cname(c: u8) -> String {
    format!("chan{}", c % CHANNELS)
}
pub fn cid(c: u8) -> Vec<u8> {
    keccak(cname(c).as_bytes()).to_vec()
}
pub fn hash20(h: u8) -> Vec<u8> {
    h20(&[b'h', h])
}
pub fn pubkey(k: u8) -> Vec<u8> {
    signing_key(k).verifying_key().to_bytes().to_vec()
}
pub fn custody_addr(e: u8) -> Vec<u8> {
    eth_key(e).address().to_vec()
}
/// Fids a channel action may be about; only the first few are registered.
pub fn target(t: u8) -> u64 {
    1001 + (t % 14) as u64
}

#[derive(Debug, Clone, Serialize, Deserialize, PartialEq)]
pub enum B {
    Lend { to: u8, units: u8, old: bool },
    Ver { a: u8, rm: bool },
    Update { c: u8, mm: u8, cm: u8, name: u8 },
    Member { c: u8, t: u8, act: u8 },
    Pin { c: u8, h: u8 },
    Moderate { c: u8, h: u8, act: u8 },
    /// `by` whose custody signs, `app` who asks, `app_by` whose custody signs the request
    KeyAdd { key: u8, app: u8, by: u8, app_by: u8, ttl: u8, scopes: u8, nonce: u8, flaw: u8 },
    KeyRm { key: u8, own: bool, by: u8, nonce: u8, flaw: u8 },
    /// the type of one message over the body of another
    Mix { ty: u8, body: u8 },
}
#[derive(Debug, Clone, Serialize, Deserialize, PartialEq)]
pub enum Op {
    Custody { f: u8, to: u8 },
    Signer { f: u8, k: u8 },
    Rent { f: u8, units: u8 },
    Chan { c: u8, ev: u8, owner: u8, pos: u8, flaw: u8 },
    M { f: u8, k: u8, ts: i16, b: B, bad: bool },
    /// the channel owner's or moderator's action on one target after another
    Many { f: u8, c: u8, act: u8, from: u8, n: u8 },
    /// an earlier message, sent again
    Again { i: u8 },
    /// an earlier channel or signer event, sent again
    ChainAgain { i: u8 },
    /// a cast on the author's own shard
    Cast { f: u8, k: u8, ts: i16 },
}
#[derive(Debug, Clone, Serialize, Deserialize, PartialEq)]
pub struct Case {
    pub cap: Option<u32>,
    /// addresses verified and channels registered at the start
    pub start: u8,
    pub blocks: Vec<(u32, Vec<Op>)>,
}

/// A user message with what its maker knows of it.
#[derive(Clone, Debug)]
pub struct Sub {
    pub m: proto::Message,
    /// well-formed on its own
    pub ok: bool,
    pub kind: Kind,
}
#[derive(Clone, Debug)]
pub enum Kind {
    Lend { to: u64, units: u32 },
    Ver { a: Vec<u8>, rm: bool },
    Update { c: Vec<u8>, mm: Option<i32> },
    Member { c: Vec<u8>, t: u64, act: i32 },
    Pin { c: Vec<u8> },
    Moderate { c: Vec<u8>, h: Vec<u8> },
    KeyAdd { key: u8, app: u64, by: u8, app_by: u8, ttl: u32, scopes: Vec<i32>, nonce: u32, request_ok: bool, expired: bool },
    KeyRm { key: u8, own: bool, by: u8, nonce: u32, signer: Vec<u8>, expired: bool },
    Mix,
}

// ---- messages --------------------------------------------------------------------------------

fn key_domain() -> [u8; 32] {
    keccak(
        &[
            keccak(b"EIP712Domain(string name,string version,uint256 chainId)"),
            keccak(b"Farcaster KeyAdd"),
            keccak(b"1"),
            u256(1),
        ]
        .concat(),
    )
}
const TTLS: [u32; 5] = [400, 60, 7200, 90 * 86400, 1];
pub fn scope_set(s: u8) -> Vec<i32> {
    use MessageType as M;
    match s % 5 {
        0 => vec![M::VerificationAddEthAddress, M::VerificationRemove, M::CastAdd],
        1 => vec![M::LendStorage],
        2 => vec![M::VerificationAddEthAddress, M::LendStorage, M::ReactionAdd],
        3 => vec![M::CastAdd, M::UserDataAdd],
        _ => vec![M::VerificationRemove, M::LinkAdd],
    }
    .into_iter()
    .map(|m| m as i32)
    .collect()
}
/// Everything a well-formed body could get wrong on its own.
fn key_flaw(b: &mut proto::KeyAddBody, flaw: u8) -> bool {
    match flaw {
        1 => b.key_type = 2,
        2 => b.scopes = vec![],
        3 => b.scopes.push(MessageType::KeyAdd as i32),
        4 => b.scopes.push(MessageType::ChannelMember as i32),
        5 => b.ttl = 90 * 86400 + 1,
        6 => b.ttl = 0,
        7 => b.metadata_type = 2,
        8 => b.scopes = vec![1; 17],
        _ => return false,
    }
    true
}
pub fn sub(f: u8, k: u8, ts: u32, b: &B, bad: bool) -> Sub {
    let mut ok = !bad;
    let mut signer = k;
    let (t, body, kind) = match b {
        B::Lend { to, units, .. } => {
            let to = fid(*to);
            (
                MessageType::LendStorage,
                Body::LendStorageBody(proto::LendStorageBody {
                    to_fid: to,
                    num_units: *units as u64,
                    unit_type: proto::StorageUnitType::UnitType2025 as i32,
                }),
                Kind::Lend { to, units: *units as u32 },
            )
        }
        B::Ver { a, rm: false } => (
            MessageType::VerificationAddEthAddress,
            Body::VerificationAddAddressBody(proto::VerificationAddAddressBody {
                address: addr(*a),
                // a contract's signature, which the chain decides before a message is submitted
                claim_signature: fill(65, *a),
                block_hash: fill(32, 1),
                verification_type: 1,
                chain_id: 10,
                protocol: proto::Protocol::Ethereum as i32,
            }),
            Kind::Ver { a: addr(*a), rm: false },
        ),
        B::Ver { a, rm: true } => (
            MessageType::VerificationRemove,
            Body::VerificationRemoveBody(proto::VerificationRemoveBody {
                address: addr(*a),
                protocol: proto::Protocol::Ethereum as i32,
            }),
            Kind::Ver { a: addr(*a), rm: true },
        ),
        B::Update { c, mm, cm, name } => {
            let mode = |m: u8| match m % 5 {
                0 => None,
                4 => Some(9),
                m => Some(m as i32 - 1),
            };
            ok &= mode(*mm) != Some(9) && mode(*cm) != Some(9);
            (
                MessageType::ChannelUpdate,
                Body::ChannelUpdateBody(proto::ChannelUpdateBody {
                    channel_id: cid(*c),
                    name: (*name > 0).then(|| format!("n{name}")),
                    description: (*name > 1).then(|| format!("d{name}")),
                    casting_mode: mode(*cm),
                    membership_mode: mode(*mm),
                    ..Default::default()
                }),
                Kind::Update { c: cid(*c), mm: mode(*mm) },
            )
        }
        B::Member { c, t, act } => {
            ok &= (1..=6).contains(act);
            (
                MessageType::ChannelMember,
                Body::ChannelMemberBody(proto::ChannelMemberBody { channel_id: cid(*c), fid: target(*t), action: *act as i32 }),
                Kind::Member { c: cid(*c), t: target(*t), act: *act as i32 },
            )
        }
        B::Pin { c, h } => (
            MessageType::ChannelPin,
            Body::ChannelPinBody(proto::ChannelPinBody {
                channel_id: cid(*c),
                cast_hash: match h {
                    0 => vec![],
                    9 => {
                        ok = false;
                        fill(19, 9)
                    }
                    h => hash20(*h),
                },
            }),
            Kind::Pin { c: cid(*c) },
        ),
        B::Moderate { c, h, act } => {
            ok &= (1..=2).contains(act) && *h != 9;
            let hash = if *h == 9 { fill(21, 9) } else { hash20(*h) };
            (
                MessageType::ChannelModerate,
                Body::ChannelModerateBody(proto::ChannelModerateBody { channel_id: cid(*c), cast_hash: hash.clone(), action: *act as i32 }),
                Kind::Moderate { c: cid(*c), h: hash },
            )
        }
        B::KeyAdd { key, app, by, app_by, ttl, scopes, nonce, flaw } => {
            let app = fid(5 + app % 2);
            let pk = pubkey(*key);
            let request_deadline: u32 = if *flaw == 9 { ts - 1 } else { ts };
            let request = eip712(
                key_domain(),
                keccak(
                    &[
                        keccak(b"SignedKeyRequest(uint256 requestFid,bytes key,uint256 deadline)"),
                        u256(app),
                        // a request for another key
                        keccak(&if *flaw == 10 { pubkey(19) } else { pk.clone() }),
                        u256(request_deadline as u64),
                    ]
                    .concat(),
                ),
            );
            let sig = eth_sign(*app_by, request);
            let metadata = [
                u256(32).to_vec(),
                u256(app).to_vec(),
                pad_addr(&custody_addr(if *flaw == 11 { *app_by ^ 1 } else { *app_by })).to_vec(),
                u256(128).to_vec(),
                u256(request_deadline as u64).to_vec(),
                u256(sig.len() as u64).to_vec(),
                sig.iter().copied().chain(std::iter::repeat(0)).take(96).collect(),
            ]
            .concat();
            let mut b = proto::KeyAddBody {
                key: pk,
                key_type: 1,
                scopes: scope_set(*scopes),
                ttl: TTLS[*ttl as usize % TTLS.len()],
                nonce: *nonce as u32,
                deadline: if *flaw == 12 { ts - 1 } else { ts },
                metadata_type: 1,
                metadata,
                ..Default::default()
            };
            ok &= !key_flaw(&mut b, *flaw);
            let sc: Vec<u8> = b.scopes.iter().flat_map(|s| u256(*s as u32 as u64)).collect();
            b.custody_signature = eth_sign(
                *by,
                eip712(
                    key_domain(),
                    keccak(
                        &[
                            keccak(b"KeyAdd(uint256 fid,bytes key,uint32 keyType,uint32[] scopes,uint32 ttl,uint32 nonce,uint256 deadline)"),
                            u256(fid(f)),
                            keccak(&b.key),
                            u256(b.key_type as u64),
                            keccak(&sc),
                            // signed for another nonce
                            u256(b.ttl as u64),
                            u256(b.nonce as u64 + (*flaw == 13) as u64),
                            u256(b.deadline as u64),
                        ]
                        .concat(),
                    ),
                ),
            );
            let kind = Kind::KeyAdd {
                key: *key,
                app,
                by: if *flaw == 13 { 255 } else { *by },
                app_by: *app_by,
                ttl: b.ttl,
                scopes: b.scopes.clone(),
                nonce: b.nonce,
                request_ok: !(9..=11).contains(flaw),
                expired: *flaw == 12,
            };
            (MessageType::KeyAdd, Body::KeyAddBody(b), kind)
        }
        B::KeyRm { key, own, by, nonce, flaw } => {
            let pk = pubkey(*key);
            let deadline = if *flaw == 12 { ts - 1 } else { ts };
            if *own && *flaw != 1 {
                signer = *key;
            }
            let signature = eth_sign(
                *by,
                eip712(
                    key_domain(),
                    keccak(
                        &[
                            keccak(b"KeyRemove(uint256 fid,bytes key,uint32 nonce,uint256 deadline)"),
                            u256(fid(f)),
                            keccak(&pk),
                            u256(*nonce as u64 + (*flaw == 2) as u64),
                            u256(deadline as u64),
                        ]
                        .concat(),
                    ),
                ),
            );
            (
                MessageType::KeyRemove,
                Body::KeyRemoveBody(proto::KeyRemoveBody {
                    key: pk,
                    signature_type: if *own { 2 } else { 1 },
                    signature,
                    nonce: *nonce as u32,
                    deadline,
                    ..Default::default()
                }),
                Kind::KeyRm {
                    key: *key,
                    own: *own,
                    by: if *flaw == 2 { 255 } else { *by },
                    nonce: *nonce as u32,
                    signer: pubkey(signer),
                    expired: *flaw == 12 && !*own,
                },
            )
        }
        B::Mix { ty, body } => {
            let bodies = [
                B::Lend { to: 1, units: 1, old: false },
                B::Ver { a: 0, rm: false },
                B::Ver { a: 0, rm: true },
                B::Update { c: 0, mm: 0, cm: 0, name: 1 },
                B::Member { c: 0, t: 3, act: 1 },
                B::Pin { c: 0, h: 1 },
                B::Moderate { c: 0, h: 1, act: 1 },
                B::KeyAdd { key: 5, app: 0, by: f, app_by: 5, ttl: 3, scopes: 0, nonce: 200, flaw: 0 },
                B::KeyRm { key: 5, own: false, by: f, nonce: 200, flaw: 0 },
            ];
            let s = sub(f, k, ts, &bodies[*body as usize % bodies.len()], bad);
            let mut d = s.m.data.unwrap();
            let types = [15, 7, 8, 18, 19, 20, 21, 16, 17, 1, 11, 0, 9, 13];
            let mut t = types[*ty as usize % types.len()];
            if t == d.r#type {
                t = 3;
            }
            d.r#type = t;
            let m = sign_data(&d, &signing_key(k));
            return Sub { m, ok: false, kind: Kind::Mix };
        }
    };
    let d = MessageData {
        r#type: t as i32,
        fid: fid(f),
        timestamp: ts,
        network: proto::FarcasterNetwork::Devnet as i32,
        body: Some(body),
    };
    let mut m = sign_data(&d, &signing_key(signer));
    if bad {
        m.signature[0] ^= 1;
    }
    Sub { m, ok, kind }
}
pub fn cast(f: u8, k: u8, ts: u32, n: usize) -> proto::Message {
    let d = MessageData {
        r#type: MessageType::CastAdd as i32,
        fid: fid(f),
        timestamp: ts,
        network: proto::FarcasterNetwork::Devnet as i32,
        body: Some(Body::CastAddBody(proto::CastAddBody { text: format!("c{n}"), ..Default::default() })),
    };
    sign_data(&d, &signing_key(k))
}
fn chain(f: u64, t: proto::OnChainEventType, bn: u32, log: u32, tx: u32, body: proto::on_chain_event::Body) -> proto::OnChainEvent {
    let mut e = proto::OnChainEvent {
        r#type: t as i32,
        chain_id: 10,
        block_number: bn,
        block_hash: vec![],
        block_timestamp: FarcasterTime::new(t0() as u64 + 10 * 86400).to_unix_seconds(),
        transaction_hash: vec![],
        log_index: log,
        fid: f,
        tx_index: tx,
        version: 1,
        body: Some(body),
    };
    e.transaction_hash = blake3::hash(&e.encode_to_vec()).as_bytes().to_vec();
    e
}
pub fn custody_event(f: u8, to: u8, bn: u32) -> proto::OnChainEvent {
    chain(
        fid(f),
        proto::OnChainEventType::EventTypeIdRegister,
        bn,
        0,
        0,
        proto::on_chain_event::Body::IdRegisterEventBody(proto::IdRegisterEventBody {
            to: custody_addr(to),
            event_type: if to == f { proto::IdRegisterEventType::Register } else { proto::IdRegisterEventType::Transfer } as i32,
            from: vec![],
            recovery_address: vec![],
        }),
    )
}
pub fn signer_event(f: u8, k: u8, add: bool, bn: u32) -> proto::OnChainEvent {
    chain(
        fid(f),
        proto::OnChainEventType::EventTypeSigner,
        bn,
        0,
        0,
        proto::on_chain_event::Body::SignerEventBody(proto::SignerEventBody {
            key: pubkey(k),
            key_type: 1,
            event_type: if add { proto::SignerEventType::Add } else { proto::SignerEventType::Remove } as i32,
            metadata: vec![],
            metadata_type: 1,
        }),
    )
}
pub fn rent_event(f: u8, units: u32, bn: u32) -> proto::OnChainEvent {
    chain(
        fid(f),
        proto::OnChainEventType::EventTypeStorageRent,
        bn,
        0,
        0,
        proto::on_chain_event::Body::StorageRentEventBody(proto::StorageRentEventBody { payer: addr(0), units, expiry: 0 }),
    )
}
pub fn channel_event(c: u8, ev: u8, owner: u8, pos: u8, flaw: u8) -> proto::OnChainEvent {
    let mut body = proto::ChannelRegisterBody {
        label: cid(c),
        channel_key: cname(c),
        expiry: 1_900_000_000 + pos as u64,
        owner_address: addr(owner),
        event_type: (ev % 4) as i32,
    };
    match flaw {
        1 => body.label[3] ^= 1,
        2 => {
            body.owner_address.pop();
        }
        3 => {
            body.label.pop();
        }
        4 => body.channel_key = "other".into(),
        _ => {}
    }
    chain(
        0,
        proto::OnChainEventType::EventTypeChannelRegister,
        500 + (pos / 4) as u32,
        (pos % 4) as u32,
        (pos % 4 / 2) as u32,
        proto::on_chain_event::Body::ChannelRegisterEventBody(body),
    )
}

// ---- the model -------------------------------------------------------------------------------

#[derive(Clone, Debug, PartialEq)]
pub struct Key {
    pub m: proto::Message,
    pub app: u64,
    pub ttl: u32,
    pub scopes: Vec<i32>,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Owner {
    pub addr: Vec<u8>,
    pub expiry: u64,
    pub pos: (u32, u32, u32),
}
#[derive(Clone, Default)]
pub struct Model {
    pub cap: Option<u32>,
    /// messages whose custody signature's deadline the block overlooked
    pub tolerate: BTreeSet<Vec<u8>>,
    pub custody: BTreeMap<u64, u8>,
    pub signers: BTreeSet<(u64, Vec<u8>)>,
    pub units: BTreeMap<u64, u32>,
    pub seen_chain: BTreeSet<(i32, u64, u32, u32)>,
    pub chain_log: Vec<proto::OnChainEvent>,

    pub keys: BTreeMap<(u64, Vec<u8>), Key>,
    pub used: BTreeMap<(u64, Vec<u8>), u32>,
    pub user_nonce: BTreeMap<u64, u32>,
    pub app_nonce: BTreeMap<u64, u32>,
    /// merged removals of keys, which stay in the tree
    pub removals: Vec<proto::Message>,

    pub lends: BTreeMap<(u64, u64), proto::Message>,
    pub vers: BTreeMap<(u64, Vec<u8>), proto::Message>,

    pub owners: BTreeMap<String, Owner>,
    pub labels: BTreeMap<Vec<u8>, String>,
    pub updates: BTreeMap<Vec<u8>, proto::Message>,
    pub members: BTreeMap<(Vec<u8>, u64), proto::Message>,
    pub pins: BTreeMap<Vec<u8>, proto::Message>,
    pub moderations: BTreeMap<(Vec<u8>, Vec<u8>), proto::Message>,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Ev {
    Message(Vec<u8>),
    Chain(proto::OnChainEvent),
}
/// What became of a user message.
#[derive(Clone, Debug, PartialEq)]
pub enum Fate {
    /// not admitted
    Refused(&'static str),
    /// admitted, then not merged
    Lost(&'static str),
    Merged,
}
pub fn data(m: &proto::Message) -> &MessageData {
    m.data.as_ref().unwrap()
}
pub fn lend_units(m: &proto::Message) -> u32 {
    match &data(m).body {
        Some(Body::LendStorageBody(b)) => b.num_units as u32,
        _ => unreachable!(),
    }
}
pub fn order(m: &proto::Message) -> (u32, Vec<u8>) {
    (data(m).timestamp, m.hash.clone())
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum St {
    Member,
    Moderator,
    Removed,
    Banned,
}
pub fn member_st(m: &proto::Message) -> St {
    match &data(m).body {
        Some(Body::ChannelMemberBody(b)) => match b.action {
            1 | 4 => St::Member,
            3 => St::Moderator,
            2 | 6 => St::Removed,
            _ => St::Banned,
        },
        _ => unreachable!(),
    }
}
/// The storage and counters one transaction sees.
struct Tx {
    own_minus_lent: i64,
    with_borrowed: i64,
    live: u32,
    dead: u32,
}
impl Model {
    pub fn lent(&self, f: u64) -> u32 {
        self.lends.iter().filter(|(k, _)| k.0 == f).map(|(_, m)| lend_units(m)).sum()
    }
    pub fn borrowed(&self, f: u64) -> u32 {
        self.lends.iter().filter(|(k, _)| k.1 == f).map(|(_, m)| lend_units(m)).sum()
    }
    /// Whether a fid's messages are taken up at all.
    pub fn active(&self, f: u64, pending: bool) -> bool {
        pending || self.units.contains_key(&f) || self.borrowed(f) > 0
    }
    pub fn ver_live(m: &proto::Message) -> bool {
        data(m).r#type == MessageType::VerificationAddEthAddress as i32
    }
    /// Who holds an address: the fid with the latest live verification of it.
    pub fn holder(&self, a: &[u8]) -> Option<u64> {
        self.vers
            .iter()
            .filter(|((_, x), m)| x == a && Model::ver_live(m))
            .map(|((f, _), m)| (order(m), std::cmp::Reverse(*f)))
            .max()
            .map(|x| x.1 .0)
    }
    pub fn channel_owner(&self, c: &[u8]) -> Option<&Owner> {
        self.owners.get(self.labels.get(c)?)
    }
    pub fn member(&self, c: &[u8], f: u64) -> Option<St> {
        self.members.get(&(c.to_vec(), f)).map(member_st)
    }
    pub fn moderators(&self, c: &[u8]) -> usize {
        self.members.iter().filter(|((x, _), m)| x == c && member_st(m) == St::Moderator).count()
    }
    pub fn member_slots(&self, c: &[u8]) -> usize {
        self.members.keys().filter(|k| k.0 == c).count()
    }
    pub fn moderate_slots(&self, c: &[u8]) -> usize {
        self.moderations.keys().filter(|k| k.0 == c).count()
    }
    /// (casting, membership) as the enum numbers
    pub fn modes(&self, c: &[u8]) -> (i32, i32) {
        let (mut casting, mut membership) =
            (proto::CastingMode::MembersOnly as i32, proto::MembershipMode::Approval as i32);
        if let Some(m) = self.updates.get(c) {
            if let Some(Body::ChannelUpdateBody(b)) = &data(m).body {
                casting = b.casting_mode.filter(|x| *x != 0).unwrap_or(casting);
                membership = b.membership_mode.filter(|x| *x != 0).unwrap_or(membership);
            }
        }
        (casting, membership)
    }

    pub fn chain_event(&mut self, e: &proto::OnChainEvent) -> bool {
        if !self.seen_chain.insert((e.r#type, e.fid, e.block_number, e.log_index)) {
            return false;
        }
        self.chain_log.push(e.clone());
        use proto::on_chain_event::Body as OB;
        match e.body.as_ref().unwrap() {
            OB::IdRegisterEventBody(b) => {
                let to = (0..40u8).find(|i| custody_addr(*i) == b.to).unwrap();
                self.custody.insert(e.fid, to);
            }
            OB::SignerEventBody(b) => {
                if b.event_type == proto::SignerEventType::Add as i32 {
                    self.signers.insert((e.fid, b.key.clone()));
                } else {
                    self.signers.remove(&(e.fid, b.key.clone()));
                }
            }
            OB::StorageRentEventBody(b) => *self.units.entry(e.fid).or_default() += b.units,
            OB::ChannelRegisterEventBody(b) => self.register(e, b),
            _ => {}
        }
        true
    }
    fn register(&mut self, e: &proto::OnChainEvent, b: &proto::ChannelRegisterBody) {
        let pos = (e.block_number, e.tx_index, e.log_index);
        let named = keccak(b.channel_key.as_bytes()).to_vec() == b.label;
        match b.event_type {
            1 if named && b.owner_address.len() == 20 => {
                if self.owners.get(&b.channel_key).is_some_and(|o| pos < o.pos) {
                    return;
                }
                self.labels.insert(b.label.clone(), b.channel_key.clone());
                self.owners.insert(b.channel_key.clone(), Owner { addr: b.owner_address.clone(), expiry: b.expiry, pos });
            }
            2 if named => {
                if let Some(o) = self.owners.get_mut(&b.channel_key) {
                    if pos >= o.pos {
                        o.expiry = b.expiry;
                        o.pos = pos;
                    }
                }
            }
            3 if b.owner_address.len() == 20 => {
                let Some(k) = self.labels.get(&b.label) else { return };
                let o = self.owners.get_mut(k).unwrap();
                if pos >= o.pos {
                    o.addr = b.owner_address.clone();
                    o.pos = pos;
                }
            }
            _ => {}
        }
    }

    fn authority(&self, c: &[u8], author: u64, t: u64, act: i32) -> Result<(), &'static str> {
        let owner_fid = self.holder(&self.channel_owner(c).unwrap().addr);
        let own = owner_fid == Some(author);
        let modr = !own && self.member(c, author) == Some(St::Moderator);
        let st = self.member(c, t);
        let me = author == t;
        let open = self.modes(c).1 == proto::MembershipMode::Open as i32;
        if act == 5 && owner_fid == Some(t) {
            return Err("owner cannot be banned");
        }
        if st == Some(St::Banned) && act != 6 {
            return Err("banned");
        }
        let need = |b: bool| if b { Ok(()) } else { Err("unauthorized") };
        let fresh = matches!(st, None | Some(St::Removed));
        match act {
            1 if fresh => need(own || modr || me && open),
            2 => match st {
                Some(St::Member) => need(own || modr || me).map_err(|_| "state"),
                Some(St::Moderator) => need(me).map_err(|_| "state"),
                _ => Err("state"),
            },
            3 if fresh || st == Some(St::Member) => need(own),
            4 if st == Some(St::Moderator) => need(own),
            5 if st == Some(St::Moderator) => need(own),
            5 => need(own || modr),
            6 if st == Some(St::Banned) => need(own || modr),
            _ => Err("state"),
        }
    }

    fn admit(&mut self, s: &Sub, now: u32, tx: &Tx) -> Result<(), &'static str> {
        let d = data(&s.m);
        let f = d.fid;
        if !s.ok {
            return Err("malformed");
        }
        if d.timestamp > now + 600 {
            return Err("future");
        }
        if matches!(s.kind, Kind::Lend { .. }) && d.timestamp < now - 600 {
            return Err("late lend");
        }
        self.custody.get(&f).ok_or("no fid")?;
        let mut bump = None;
        if !matches!(s.kind, Kind::KeyAdd { .. } | Kind::KeyRm { .. }) && !self.signers.contains(&(f, s.m.signer.clone())) {
            let k = self.keys.get(&(f, s.m.signer.clone())).ok_or("no signer")?;
            if !k.scopes.contains(&d.r#type) {
                return Err("scope");
            }
            bump = Some(k.ttl);
        }
        match &s.kind {
            Kind::Lend { units, .. } => {
                if tx.own_minus_lent < *units as i64 + 1 {
                    return Err("storage");
                }
            }
            Kind::KeyAdd { .. } | Kind::KeyRm { .. } | Kind::Mix => {}
            Kind::Ver { a, rm } => {
                let max = 5 * tx.with_borrowed.max(0) as u32;
                let cap = if max == 0 { 0 } else { max.max(256) };
                if !rm && max == 0 {
                    return Err("storage");
                }
                let full = match (rm, self.vers.get(&(f, a.clone()))) {
                    (true, Some(_)) => false,
                    (false, Some(m)) if Model::ver_live(m) => false,
                    (false, Some(_)) => tx.live >= max,
                    (false, None) => tx.live >= max || tx.live + tx.dead >= max + cap,
                    (true, None) => tx.dead >= cap || tx.live + tx.dead >= max + cap,
                };
                if full {
                    return Err("quota");
                }
            }
            Kind::Update { c, .. } | Kind::Member { c, .. } | Kind::Pin { c } | Kind::Moderate { c, .. } => {
                let owner = self.channel_owner(c).ok_or("unknown channel")?.clone();
                let holder = self.holder(&owner.addr);
                if holder.is_none() && !matches!(&s.kind, Kind::Member { t, act: 2, .. } if *t == f) {
                    return Err("parked");
                }
                let own = holder == Some(f);
                let modr = self.member(c, f) == Some(St::Moderator);
                match &s.kind {
                    Kind::Update { .. } if !own => return Err("unauthorized"),
                    Kind::Pin { .. } | Kind::Moderate { .. } if !own && !modr => return Err("unauthorized"),
                    Kind::Member { t, act, .. } => {
                        self.authority(c, f, *t, *act)?;
                        if *act == 3 && self.moderators(c) >= 10 {
                            return Err("moderator cap");
                        }
                    }
                    _ => {}
                }
            }
        }
        if let Some(ttl) = bump {
            let used = self.used.get_mut(&(f, s.m.signer.clone())).unwrap();
            if *used as u64 + (ttl as u64) < now as u64 {
                return Err("expired key");
            }
            if d.timestamp > *used + 300 {
                *used = d.timestamp;
            }
        }
        Ok(())
    }
    /// Merges an admitted message.
    fn merge(&mut self, s: &Sub, tx: &mut Tx, replica: bool) -> Result<(), &'static str> {
        let m = &s.m;
        let d = data(m).clone();
        let f = d.fid;
        match &s.kind {
            Kind::Mix => return Err("mixed"),
            Kind::Lend { to, units } => {
                let old = self.lends.get(&(f, *to)).cloned();
                if let Some(o) = &old {
                    if order(o) >= order(m) {
                        return Err("lost");
                    }
                }
                let change = *units as i64 - old.as_ref().map_or(0, |o| lend_units(o) as i64);
                tx.own_minus_lent -= change;
                tx.with_borrowed -= change;
                if *units == 0 {
                    self.lends.remove(&(f, *to));
                } else {
                    self.lends.insert((f, *to), m.clone());
                }
            }
            Kind::Ver { a, rm } => {
                if let Some(o) = self.vers.get(&(f, a.clone())) {
                    let rank = |m: &proto::Message| (data(m).timestamp, !Model::ver_live(m), m.hash.clone());
                    if rank(o) >= rank(m) {
                        return Err("lost");
                    }
                    if Model::ver_live(o) {
                        tx.live -= 1;
                    } else {
                        tx.dead -= 1;
                    }
                }
                if *rm {
                    tx.dead += 1;
                } else {
                    tx.live += 1;
                }
                self.vers.insert((f, a.clone()), m.clone());
            }
            Kind::Update { c, .. } => slot(&mut self.updates, c.clone(), m, None)?,
            Kind::Member { c, t, .. } => {
                let room = self.cap.is_none_or(|cap| self.member_slots(c) < cap as usize);
                slot(&mut self.members, (c.clone(), *t), m, Some(room))?
            }
            Kind::Pin { c } => slot(&mut self.pins, c.clone(), m, None)?,
            Kind::Moderate { c, h } => {
                let room = self.cap.is_none_or(|cap| self.moderate_slots(c) < cap as usize);
                slot(&mut self.moderations, (c.clone(), h.clone()), m, Some(room))?
            }
            Kind::KeyAdd { key, app, by, app_by, ttl, scopes, nonce, request_ok, expired } => {
                if *expired && !self.tolerate.contains(&m.hash) {
                    return Err("expired");
                }
                let pk = pubkey(*key);
                if !request_ok || !replica && self.custody.get(app) != Some(app_by) {
                    return Err("request");
                }
                if self.custody.get(&f) != Some(by) {
                    return Err("custody");
                }
                if self.signers.contains(&(f, pk.clone())) {
                    return Err("on chain");
                }
                if let Some(((g, _), k)) = self.keys.iter().find(|((_, k), _)| *k == pk) {
                    if *g != f || k.app != *app {
                        return Err("taken");
                    }
                }
                if *nonce <= self.user_nonce.get(&f).copied().unwrap_or(0) {
                    return Err("nonce");
                }
                self.user_nonce.insert(f, *nonce);
                self.used.insert((f, pk.clone()), d.timestamp);
                self.keys.insert((f, pk), Key { m: m.clone(), app: *app, ttl: *ttl, scopes: scopes.clone() });
            }
            Kind::KeyRm { key, own, by, nonce, signer, expired } => {
                if *expired && !self.tolerate.contains(&m.hash) {
                    return Err("expired");
                }
                let pk = pubkey(*key);
                let k = self.keys.get(&(f, pk.clone())).ok_or("no key")?;
                let (ns, who) = if *own {
                    if *signer != pk {
                        return Err("signature");
                    }
                    (&mut self.app_nonce, k.app)
                } else {
                    if self.custody.get(&f) != Some(by) {
                        return Err("custody");
                    }
                    (&mut self.user_nonce, f)
                };
                if *nonce <= ns.get(&who).copied().unwrap_or(0) {
                    return Err("nonce");
                }
                ns.insert(who, *nonce);
                self.keys.remove(&(f, pk.clone()));
                self.used.remove(&(f, pk));
                self.removals.push(m.clone());
            }
        }
        Ok(())
    }
    /// Shard 0's part of replaying one fid's transaction.
    pub fn transaction(&mut self, f: u64, chain: &[proto::OnChainEvent], subs: &[Sub], now: u32, lent: &Model) -> (Vec<Ev>, Vec<Fate>) {
        let mut out = vec![];
        let mut sorted: Vec<_> = chain.iter().collect();
        sorted.sort_by_key(|e| (e.block_number, e.log_index));
        for e in sorted {
            if self.chain_event(e) && e.r#type == proto::OnChainEventType::EventTypeChannelRegister as i32 {
                out.push(Ev::Chain(e.clone()));
            }
        }
        let own = self.units.get(&f).copied().unwrap_or(0) as i64 - lent.lent(f) as i64;
        let live = |b| self.vers.iter().filter(|((g, _), m)| *g == f && Model::ver_live(m) == b).count() as u32;
        let mut tx = Tx { own_minus_lent: own, with_borrowed: own + lent.borrowed(f) as i64, live: live(true), dead: live(false) };
        let mut fates = vec![];
        for s in subs {
            let fate = match self.admit(s, now, &tx) {
                Err(e) => Fate::Refused(e),
                Ok(()) => match self.merge(s, &mut tx, false) {
                    Err(e) => Fate::Lost(e),
                    Ok(()) => {
                        out.push(Ev::Message(s.m.hash.clone()));
                        Fate::Merged
                    }
                },
            };
            fates.push(fate);
        }
        (out, fates)
    }
    /// What a data shard makes of a message that shard 0 merged.
    pub fn replay(&mut self, s: &Sub) {
        if matches!(s.kind, Kind::KeyAdd { .. } | Kind::KeyRm { .. }) {
            self.tolerate.insert(s.m.hash.clone());
            let _ = self.merge(s, &mut Tx { own_minus_lent: 0, with_borrowed: 0, live: 0, dead: 0 }, true);
        }
    }
    /// Whether a cast is taken up on its author's own shard.
    pub fn cast(&mut self, m: &proto::Message, now: u32) -> bool {
        let d = data(m);
        let who = (d.fid, m.signer.clone());
        if !self.active(d.fid, false) || d.timestamp > now + 600 || !self.custody.contains_key(&d.fid) {
            return false;
        }
        if self.signers.contains(&who) {
            return true;
        }
        let Some(k) = self.keys.get(&who) else { return false };
        let used = self.used.get_mut(&who).unwrap();
        if !k.scopes.contains(&d.r#type) || *used as u64 + (k.ttl as u64) < now as u64 {
            return false;
        }
        if d.timestamp > *used + 300 {
            *used = d.timestamp;
        }
        true
    }
    /// Everything the tree of shard 0 should hold.
    pub fn tree(&self) -> BTreeSet<Vec<u8>> {
        let mut t = BTreeSet::new();
        for e in &self.chain_log {
            t.insert(TrieKey::for_onchain_event(e));
        }
        let all = self
            .keys
            .values()
            .map(|k| &k.m)
            .chain(self.removals.iter())
            .chain(self.lends.values())
            .chain(self.vers.values())
            .chain(self.updates.values())
            .chain(self.members.values())
            .chain(self.pins.values())
            .chain(self.moderations.values());
        for m in all {
            t.extend(TrieKey::for_message(m));
        }
        t
    }
}
fn slot<K: Ord>(at: &mut BTreeMap<K, proto::Message>, k: K, m: &proto::Message, room: Option<bool>) -> Result<(), &'static str> {
    match at.get(&k) {
        Some(o) if o.hash == m.hash => return Err("duplicate"),
        None if room == Some(false) => return Err("slots"),
        _ => {}
    }
    at.insert(k, m.clone());
    Ok(())
}

// ---- nodes -----------------------------------------------------------------------------------

pub struct Zero {
    pub e: BlockEngine,
    pub db: Arc<RocksDB>,
    cap: Option<u32>,
    _dir: tempfile::TempDir,
}
impl Zero {
    pub fn new(cap: Option<u32>) -> Zero {
        let dir = tempfile::TempDir::new().unwrap();
        let db = RocksDB::new(dir.path().join("z.db").to_str().unwrap());
        db.open().unwrap();
        let db = Arc::new(db);
        Zero { e: Zero::engine(&db, cap), db, cap, _dir: dir }
    }
    fn engine(db: &Arc<RocksDB>, cap: Option<u32>) -> BlockEngine {
        BlockEngine::new_with_opts(
            MerkleTrie::new().unwrap(),
            th::statsd_client(),
            db.clone(),
            100,
            None,
            proto::FarcasterNetwork::Devnet,
            StoreOptions { channel_slot_cap_override: cap, ..Default::default() },
        )
    }
    pub fn dir(&self) -> &std::path::Path {
        self._dir.path()
    }
    /// As when the process ended and was started again.
    pub fn reopen(&mut self) {
        self.db.close();
        self.db.open().unwrap();
        self.restart()
    }
    pub fn restart(&mut self) {
        self.e = Zero::engine(&self.db, self.cap);
    }
}
pub struct Shard {
    pub e: ShardEngine,
    pub db: Arc<RocksDB>,
    pub shard: u32,
    _dir: tempfile::TempDir,
}
fn plenty() -> snapchain::storage::store::stores::StoreLimits {
    let l = || snapchain::storage::store::stores::Limits {
        casts: 1000,
        links: 1000,
        reactions: 1000,
        user_data: 1000,
        user_name_proofs: 1000,
        verifications: 1000,
        storage_lends: 1000,
    };
    snapchain::storage::store::stores::StoreLimits::new(l(), l(), l())
}
impl Shard {
    pub fn new(rt: &tokio::runtime::Runtime, shard: u32, cap: Option<u32>) -> Shard {
        let dir = tempfile::TempDir::new().unwrap();
        let db = RocksDB::new(dir.path().join("d.db").to_str().unwrap());
        db.open().unwrap();
        let db = Arc::new(db);
        let (tx, _rx) = tokio::sync::mpsc::channel(1);
        let e = rt
            .block_on(th::new_engine_with_options(th::EngineOptions {
                db: Some(db.clone()),
                shard_id: shard,
                messages_request_tx: Some(tx),
                channel_slot_cap_override: cap,
                limits: Some(plenty()),
                ..Default::default()
            }))
            .0;
        Shard { e, db, shard, _dir: dir }
    }
    /// One block of this shard.
    pub fn block(&mut self, rt: &tokio::runtime::Runtime, msgs: Vec<MempoolMessage>, ts: u32) {
        let n = self.e.get_confirmed_height().block_number + 1;
        self.e.start_round(
            proto::Height { shard_index: self.shard, block_number: n },
            informalsystems_malachitebft_core_types::Round::Nil,
        );
        let c = self.e.propose_state_change(self.shard, msgs, Some(FarcasterTime::new(ts as u64)));
        let mut ch = th::state_change_to_shard_chunk(self.shard, n, &c);
        ch.hash = blake3::hash(&ch.encode_to_vec()).as_bytes()[..20].to_vec();
        rt.block_on(self.e.commit_shard_chunk(&ch));
    }
}
pub fn home(f: u64, shards: u32) -> u32 {
    use sha2::Digest;
    let h = sha2::Sha256::digest((f as u32).to_be_bytes());
    u32::from_be_bytes(h[..4].try_into().unwrap()) % shards + 1
}
pub fn rt() -> tokio::runtime::Runtime {
    tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap()
}

// ---- turning a case into blocks --------------------------------------------------------------

#[derive(Clone, Debug, Default)]
pub struct Block {
    pub ts: u32,
    /// in the order submitted
    pub chain: Vec<proto::OnChainEvent>,
    pub subs: Vec<Sub>,
    /// positions in `order`: chain events and subs as they were submitted
    pub mempool: Vec<MempoolMessage>,
    pub casts: Vec<proto::Message>,
}
/// The block every history starts with: the fids, their signers and storage, and maybe a channel
/// whose owner has verified the address that holds it.
pub fn setup(start: u8) -> Vec<Block> {
    let mut b = Block { ts: t0() + 900, ..Default::default() };
    for f in 0..PEOPLE {
        let mut es = vec![custody_event(f, f, 100)];
        if f < USERS {
            es.push(signer_event(f, 0, true, 101));
            es.push(signer_event(f, 1, true, 102));
            es.push(rent_event(f, UNITS[f as usize], 103));
        }
        b.chain.extend(es);
    }
    for c in 0..CHANNELS {
        if start >> c & 1 == 1 {
            b.chain.push(channel_event(c, 1, c, c, 0));
            b.subs.push(sub(c, 0, t0() + 800, &B::Ver { a: c, rm: false }, false));
        }
    }
    // and maybe each user has a key of its own
    if start & 8 == 8 {
        for f in 0..USERS {
            let key = B::KeyAdd { key: 4 + f, app: f % 2, by: f, app_by: 5 + f % 2, ttl: [3, 2, 0, 3, 2][f as usize], scopes: [0, 0, 2, 3, 0][f as usize], nonce: 1, flaw: 0 };
            b.subs.push(sub(f, 8, t0() + 850, &key, false));
        }
    }
    b.mempool = b.chain.iter().cloned().map(MempoolMessage::OnchainEvent).collect();
    b.mempool.extend(b.subs.iter().map(|s| MempoolMessage::UserMessage(s.m.clone())));
    vec![b]
}
pub fn blocks(c: &Case) -> Vec<Block> {
    let mut out = setup(c.start);
    let mut now = t0() + 1000;
    let mut bn = 1000;
    // on-chain signers go from never seen to added to removed
    let mut keys: BTreeMap<(u8, u8), u8> = BTreeMap::new();
    for f in 0..USERS {
        keys.insert((f, 0), 1);
        keys.insert((f, 1), 1);
    }
    let mut sent: Vec<Sub> = out[0].subs.clone();
    let mut logs: Vec<proto::OnChainEvent> =
        out[0].chain.iter().filter(|e| e.r#type != proto::OnChainEventType::EventTypeStorageRent as i32).cloned().collect();
    let mut n = 0;
    let mut serial = 8u8;
    for (dt, ops) in &c.blocks {
        now += dt;
        let mut b = Block { ts: now, ..Default::default() };
        for op in ops {
            bn += 1;
            match op {
                Op::Custody { f, to } => {
                    let e = custody_event(*f % PEOPLE, 10 + to % 4, bn);
                    b.chain(e, &mut logs)
                }
                Op::Signer { f, k } => {
                    let st = keys.entry((*f % USERS, *k)).or_default();
                    *st += 1;
                    if *st <= 2 {
                        let e = signer_event(*f % USERS, *k, *st == 1, bn);
                        b.chain(e, &mut logs)
                    }
                }
                Op::Rent { f, units } => {
                    let e = rent_event(*f % PEOPLE, 1 + *units as u32 % 3, bn);
                    b.chain(e, &mut vec![])
                }
                Op::Chan { c, ev, owner, pos, flaw } => b.chain(channel_event(*c, *ev, *owner, *pos, *flaw), &mut logs),
                Op::ChainAgain { i } => {
                    let e = logs[*i as usize % logs.len()].clone();
                    b.chain(e, &mut vec![])
                }
                Op::M { f, k, ts, b: body, bad } => {
                    serial += 1;
                    let mut body = body.clone();
                    if let B::KeyAdd { nonce, .. } | B::KeyRm { nonce, .. } = &mut body {
                        if *nonce == AUTO {
                            *nonce = serial;
                        }
                    }
                    let body = &body;
                    let s = sub(*f, *k, (now as i64 + *ts as i64) as u32, body, *bad);
                    b.user(s, &mut sent)
                }
                Op::Many { f, c, act, from, n } => {
                    for i in 0..*n {
                        let s = sub(*f, 0, now - 50 + i as u32, &B::Member { c: *c, t: from + i, act: *act }, false);
                        b.user(s, &mut sent)
                    }
                }
                Op::Again { i } => {
                    if !sent.is_empty() {
                        let s = sent[*i as usize % sent.len()].clone();
                        b.user(s, &mut vec![])
                    }
                }
                Op::Cast { f, k, ts } => {
                    n += 1;
                    b.casts.push(cast(*f, *k, (now as i64 + *ts as i64) as u32, n));
                }
            }
        }
        out.push(b);
    }
    out
}
impl Block {
    fn chain(&mut self, e: proto::OnChainEvent, log: &mut Vec<proto::OnChainEvent>) {
        log.push(e.clone());
        self.mempool.push(MempoolMessage::OnchainEvent(e.clone()));
        self.chain.push(e);
    }
    fn user(&mut self, s: Sub, sent: &mut Vec<Sub>) {
        sent.push(s.clone());
        self.mempool.push(MempoolMessage::UserMessage(s.m.clone()));
        self.subs.push(s);
    }
}

// ---- generators ------------------------------------------------------------------------------

#[derive(Clone, Copy)]
pub struct Mix {
    pub keys: u32,
    pub channels: u32,
    pub lends: u32,
    pub vers: u32,
    pub casts: u32,
    pub blocks: (usize, usize),
    pub per_block: (usize, usize),
}
fn ts() -> BoxedStrategy<i16> {
    prop_oneof![
        10 => -60i16..60, 2 => Just(0i16), 1 => Just(600i16), 1 => Just(601i16), 1 => Just(-600i16), 1 => Just(-601i16),
        2 => 295i16..310, 2 => -2000i16..600,
    ]
    .boxed()
}
fn user() -> BoxedStrategy<u8> {
    prop_oneof![12 => 0u8..5, 1 => 5u8..7].boxed()
}
fn flaw(n: u8) -> BoxedStrategy<u8> {
    prop_oneof![8 => Just(0u8), 1 => 0u8..n].boxed()
}
/// The custody key a fid most likely still has.
fn custody_of(f: u8) -> BoxedStrategy<u8> {
    prop_oneof![8 => Just(f), 2 => 10u8..14, 1 => 0u8..7].boxed()
}
fn own_key(f: u8, k: u8) -> u8 {
    if k == 99 {
        4 + f % 5
    } else {
        k
    }
}
pub fn op(mix: Mix) -> BoxedStrategy<Op> {
    // 99: the key of one's own
    let key = || prop_oneof![9 => Just(0u8), 2 => Just(1u8), 10 => Just(99u8), 3 => 4u8..9, 1 => Just(9u8)];
    let chain_key = || prop_oneof![30 => Just(0u8), 2 => Just(1u8), 1 => Just(99u8)];
    let bad = || prop_oneof![40 => Just(false), 1 => Just(true)];
    let act = || prop_oneof![4 => Just(1u8), 3 => Just(2u8), 5 => Just(3u8), 2 => Just(4u8), 3 => Just(5u8), 2 => Just(6u8), 1 => Just(0u8), 1 => Just(7u8)];
    let hh = || prop_oneof![12 => 1u8..5, 1 => Just(0u8), 1 => Just(9u8)];
    let m = |f: BoxedStrategy<u8>, k: BoxedStrategy<u8>, b: BoxedStrategy<B>| {
        (f, k, ts(), b, prop_oneof![40 => Just(false), 1 => Just(true)]).prop_map(|(f, k, ts, b, bad)| Op::M { f, k: own_key(f, k), ts, b, bad }).boxed()
    };
    let nonce = || prop_oneof![6 => Just(AUTO), 2 => 0u8..8, 1 => 8u8..30];
    // mostly each user has a key of its own, and an app
    let keyadd = (user(), prop_oneof![20 => Just(99u8), 6 => 4u8..9, 1 => Just(0u8)], prop_oneof![5 => Just(9u8), 1 => 0u8..2], 0u8..5, 0u8..5, nonce(), flaw(14), ts(), bad())
        .prop_flat_map(|(f, key, app, ttl, scopes, nonce, flaw, ts, bad)| {
            let (key, app) = (if key == 99 { 4 + f % 5 } else { key }, if app == 9 { f % 2 } else { app });
            (custody_of(f), custody_of(5 + app)).prop_map(move |(by, app_by)| Op::M {
                f,
                k: 8,
                ts,
                b: B::KeyAdd { key, app, by, app_by, ttl, scopes, nonce, flaw },
                bad,
            })
        });
    let keyrm = (user(), prop_oneof![6 => Just(99u8), 1 => 4u8..9], any::<bool>(), nonce(), prop_oneof![8 => Just(0u8), 1 => 1u8..3, 1 => Just(12u8)], ts(), bad())
        .prop_flat_map(|(f, key, own, nonce, flaw, ts, bad)| {
            let key = if key == 99 { 4 + f % 5 } else { key };
            custody_of(f).prop_map(move |by| Op::M { f, k: 8, ts, b: B::KeyRm { key, own, by, nonce, flaw }, bad })
        });
    let update = (0u8..3, 0u8..5, 0u8..5, 0u8..4).prop_map(|(c, mm, cm, name)| B::Update { c, mm: if mm == 4 && cm != 4 { 2 } else { mm }, cm, name });
    let member = (0u8..3, prop_oneof![8 => 0u8..5, 2 => 5u8..14], act()).prop_map(|(c, t, act)| B::Member { c, t, act });
    // about oneself
    let own = (0u8..5, 0u8..3, act(), ts()).prop_map(|(f, c, act, ts)| Op::M { f, k: 0, ts, b: B::Member { c, t: f, act }, bad: false });
    // by the one most likely to own the channel
    let ruled = (0u8..3, prop_oneof![8 => 0u8..5, 2 => 5u8..14], act(), ts()).prop_map(|(c, t, act, ts)| Op::M { f: c, k: 0, ts, b: B::Member { c, t, act }, bad: false });
    prop_oneof![
        (mix.keys).max(1) => keyadd.boxed(),
        (mix.keys / 2).max(1) => keyrm.boxed(),
        (mix.keys / 8).max(1) => (0u8..7, 0u8..4).prop_map(|(f, to)| Op::Custody { f, to }).boxed(),
        (mix.keys / 8).max(1) => (0u8..5, prop_oneof![Just(0u8), Just(1u8), 4u8..9]).prop_map(|(f, k)| Op::Signer { f, k }).boxed(),
        1 => (0u8..7, 0u8..3).prop_map(|(f, units)| Op::Rent { f, units }).boxed(),
        (mix.channels / 3).max(1) => (0u8..3, 0u8..4, 0u8..4, 0u8..40, flaw(5)).prop_map(|(c, ev, owner, pos, flaw)| Op::Chan { c, ev, owner, pos, flaw }).boxed(),
        (mix.lends).max(1) => m(user(), key().boxed(), (0u8..7, 0u8..5).prop_map(|(to, units)| B::Lend { to, units, old: false }).boxed()),
        (mix.vers).max(1) => m(user(), key().boxed(), (0u8..4, prop_oneof![3 => Just(false), 2 => Just(true)]).prop_map(|(a, rm)| B::Ver { a, rm }).boxed()),
        (mix.channels / 2).max(1) => m(prop_oneof![3 => 0u8..3, 2 => user()].boxed(), chain_key().boxed(), update.boxed()),
        (mix.channels).max(1) => m(user(), chain_key().boxed(), member.boxed()),
        (mix.channels).max(1) => ruled.boxed(),
        (mix.channels).max(1) => own.boxed(),
        (mix.channels / 2).max(1) => m(user(), chain_key().boxed(), (0u8..3, hh()).prop_map(|(c, h)| B::Pin { c, h }).boxed()),
        (mix.channels / 2).max(1) => m(user(), chain_key().boxed(), (0u8..3, hh(), prop_oneof![8 => 1u8..3, 1 => 0u8..4]).prop_map(|(c, h, act)| B::Moderate { c, h, act }).boxed()),
        (mix.channels / 4).max(1) => (0u8..3, prop_oneof![4 => Just(3u8), 1 => act()], 0u8..10, 1u8..13).prop_map(|(c, act, from, n)| Op::Many { f: c, c, act, from, n }).boxed(),
        (mix.casts).max(1) => (user(), key(), ts()).prop_map(|(f, k, ts)| Op::Cast { f, k: own_key(f, k), ts }).boxed(),
        2 => (any::<u8>()).prop_map(|i| Op::Again { i }).boxed(),
        1 => (any::<u8>(), 0u8..5, 0u8..14, 0u8..9, ts()).prop_map(|(i, f, ty, body, ts)| if i < 64 { Op::ChainAgain { i } } else { Op::M { f, k: 0, ts, b: B::Mix { ty, body }, bad: false } }).boxed(),
    ]
    .boxed()
}
pub fn case(mix: Mix, cap: bool) -> BoxedStrategy<Case> {
    (
        if cap { prop_oneof![2 => Just(None), 1 => (1u32..5).prop_map(Some)].boxed() } else { Just(None).boxed() },
        prop_oneof![3 => Just(7u8), 3 => Just(15u8), 1 => 0u8..16],
        pvec(
            (
                prop_oneof![8 => 1u32..40, 3 => 290u32..420, 2 => 3000u32..9000, 1 => Just(86400u32)],
                pvec(op(mix), mix.per_block.0..=mix.per_block.1),
            ),
            mix.blocks.0..=mix.blocks.1,
        ),
    )
        .prop_map(|(cap, start, blocks)| Case { cap, start, blocks })
        .boxed()
}
