//! Histories for one data shard: generated operations, the real messages they stand for, and nodes
//! running the real engine over the in-memory database.
use crate::gens::*;
use proptest::prelude::*;
use prost::Message as _;
use serde::{Deserialize, Serialize};
use snapchain::consensus::consensus::SystemMessage;
use snapchain::core::types::SnapchainValidatorContext;
use snapchain::core::util::FarcasterTime;
use snapchain::proto::{self, message_data::Body, HubEvent, MessageData, MessageType, ShardChunk};
use snapchain::storage::db::{PageOptions, RocksDB};
use snapchain::storage::store::engine::{ShardEngine, ShardStateChange};
use snapchain::storage::store::mempool_poller::MempoolMessage;
use snapchain::storage::store::test_helper as th;
use std::collections::BTreeMap;
use std::sync::{Arc, OnceLock};

#[allow(unused)]
type _Unused = (SystemMessage, SnapchainValidatorContext);

pub const FIDS: [u64; 5] = [1001, 1002, 1003, 1004, 0];
pub const NAMES: [&str; 5] = ["alice", "bob", "carol", "dave.eth", "erin.eth"];

/// A Farcaster time thirty days before this process started; every generated time is relative to it.
pub fn t0() -> u32 {
    static T: OnceLock<u32> = OnceLock::new();
    *T.get_or_init(|| (FarcasterTime::current().to_u64() - 30 * 86400) as u32)
}
fn unix_recent() -> u64 {
    FarcasterTime::new(t0() as u64 + 10 * 86400).to_unix_seconds()
}

#[derive(Debug, Clone, Serialize, Deserialize, PartialEq)]
pub enum B {
    Cast { n: u8, p: u8 },
    CastRm { n: u8, p: u8, ts: u8 },
    Link { t: u8, ty: u8 },
    Unlink { t: u8, ty: u8 },
    Compact { ty: u8, mask: u8 },
    React { t: u8, ty: u8 },
    Unreact { t: u8, ty: u8 },
    Ud { ty: u8, v: u8 },
    Ens { n: u8 },
}
#[derive(Debug, Clone, Serialize, Deserialize, PartialEq)]
pub enum Op {
    Id { f: u8, ev: u8, bn: u8 },
    Signer { f: u8, k: u8, ev: u8, bn: u8 },
    Rent { f: u8, units: u8, bn: u8 },
    Fname { n: u8, from: u8, to: u8, ts: u8 },
    Ver { f: u8, a: u8, ts: u8, rm: bool },
    M { f: u8, k: u8, ts: u8, b: B, bad: u8 },
}
#[derive(Debug, Clone, Serialize, Deserialize, PartialEq)]
pub struct History {
    /// fids (by index) that start registered, with two signers and one storage unit
    pub setup: u8,
    pub blocks: Vec<Vec<Op>>,
}

pub fn fid(f: u8) -> u64 {
    FIDS[f as usize % FIDS.len()]
}
pub fn addr(a: u8) -> Vec<u8> {
    h20(&[b'a', a])
}
pub fn checksum(a: u8) -> String {
    alloy_primitives::Address::from_slice(&addr(a)).to_checksum(None)
}
pub fn link_type(ty: u8) -> String {
    ["follow", "block"][ty as usize % 2].into()
}
pub fn cast_parent(p: u8) -> Option<proto::cast_add_body::Parent> {
    use proto::cast_add_body::Parent;
    match p % 4 {
        1 => Some(Parent::ParentUrl("https://farcaster.xyz/~/channel/a".into())),
        2 => Some(Parent::ParentUrl("https://farcaster.xyz/~/channel/ab".into())),
        3 => Some(Parent::ParentCastId(proto::CastId { fid: 1002, hash: h20(b"parent") })),
        _ => None,
    }
}
pub fn reaction_target(t: u8) -> proto::reaction_body::Target {
    use proto::reaction_body::Target;
    match t % 4 {
        0 => Target::TargetUrl("https://e.com/1".into()),
        1 => Target::TargetUrl("https://e.com/12".into()),
        t => Target::TargetCastId(proto::CastId { fid: 1001, hash: h20(&[b't', t]) }),
    }
}
pub fn reaction_type(ty: u8) -> i32 {
    [proto::ReactionType::Like as i32, proto::ReactionType::Recast as i32][ty as usize % 2]
}
pub fn user_data(ty: u8, v: u8) -> (proto::UserDataType, String) {
    use proto::UserDataType as U;
    match ty % 6 {
        0 => (U::Pfp, format!("https://p/{v}")),
        1 => (U::Display, format!("d{v}")),
        2 => (U::Bio, format!("b{v}")),
        3 => (U::Url, format!("https://u/{v}")),
        4 => (U::Username, if v == 9 { String::new() } else { NAMES[v as usize % NAMES.len()].into() }),
        _ => (
            U::UserDataPrimaryAddressEthereum,
            if v == 9 { String::new() } else { checksum(v % 3) },
        ),
    }
}
pub fn data(f: u8, ts: u8, t: MessageType, body: Body) -> MessageData {
    MessageData {
        r#type: t as i32,
        fid: fid(f),
        timestamp: t0() + ts as u32,
        network: proto::FarcasterNetwork::Devnet as i32,
        body: Some(body),
    }
}
pub fn cast_data(f: u8, ts: u8, n: u8, p: u8) -> MessageData {
    data(
        f,
        ts,
        MessageType::CastAdd,
        Body::CastAddBody(proto::CastAddBody {
            text: format!("c{n}"),
            mentions: if n % 3 == 1 { vec![1001, 1003] } else { vec![] },
            mentions_positions: if n % 3 == 1 { vec![0, 1] } else { vec![] },
            parent: cast_parent(p),
            ..Default::default()
        }),
    )
}
pub fn message(f: u8, k: u8, ts: u8, b: &B, bad: u8) -> proto::Message {
    let d = match b {
        B::Cast { n, p } => cast_data(f, ts, *n, *p),
        B::CastRm { n, p, ts: cts } => data(
            f,
            ts,
            MessageType::CastRemove,
            Body::CastRemoveBody(proto::CastRemoveBody {
                target_hash: h20(&cast_data(f, *cts, *n, *p).encode_to_vec()),
            }),
        ),
        B::Link { t, ty } | B::Unlink { t, ty } => data(
            f,
            ts,
            if matches!(b, B::Link { .. }) { MessageType::LinkAdd } else { MessageType::LinkRemove },
            Body::LinkBody(proto::LinkBody {
                r#type: link_type(*ty),
                display_timestamp: None,
                target: Some(proto::link_body::Target::TargetFid(2000 + *t as u64)),
            }),
        ),
        B::Compact { ty, mask } => data(
            f,
            ts,
            MessageType::LinkCompactState,
            Body::LinkCompactStateBody(proto::LinkCompactStateBody {
                r#type: link_type(*ty),
                target_fids: (0..5).filter(|i| mask >> i & 1 == 1).map(|i| 2000 + i).collect(),
            }),
        ),
        B::React { t, ty } | B::Unreact { t, ty } => data(
            f,
            ts,
            if matches!(b, B::React { .. }) {
                MessageType::ReactionAdd
            } else {
                MessageType::ReactionRemove
            },
            Body::ReactionBody(proto::ReactionBody {
                r#type: reaction_type(*ty),
                target: Some(reaction_target(*t)),
            }),
        ),
        B::Ud { ty, v } => {
            let (t, value) = user_data(*ty, *v);
            data(
                f,
                ts,
                MessageType::UserDataAdd,
                Body::UserDataBody(proto::UserDataBody { r#type: t as i32, value }),
            )
        }
        B::Ens { n } => data(
            f,
            ts,
            MessageType::UsernameProof,
            Body::UsernameProofBody(proto::UserNameProof {
                timestamp: (t0() + ts as u32) as u64,
                name: NAMES[3 + *n as usize % 2].as_bytes().to_vec(),
                owner: addr(f),
                signature: fill(65, *n),
                fid: fid(f),
                r#type: proto::UserNameType::UsernameTypeEnsL1 as i32,
            }),
        ),
    };
    let mut m = sign_data(&d, &signing_key(k));
    if bad == 1 {
        m.signature[0] ^= 1;
    }
    m
}
pub fn chain_event(f: u64, t: proto::OnChainEventType, bn: u8, body: proto::on_chain_event::Body) -> proto::OnChainEvent {
    let mut e = proto::OnChainEvent {
        r#type: t as i32,
        chain_id: 10,
        block_number: 1000 + (bn / 2) as u32,
        block_hash: vec![],
        block_timestamp: unix_recent() + bn as u64,
        transaction_hash: vec![],
        log_index: (bn % 2) as u32,
        fid: f,
        tx_index: 0,
        version: 1,
        body: Some(body),
    };
    e.transaction_hash = blake3::hash(&e.encode_to_vec()).as_bytes().to_vec();
    e
}
pub fn id_event(f: u8, ev: u8, bn: u8) -> proto::OnChainEvent {
    use proto::on_chain_event::Body as OB;
    chain_event(
        fid(f),
        proto::OnChainEventType::EventTypeIdRegister,
        bn,
        OB::IdRegisterEventBody(proto::IdRegisterEventBody {
            to: addr(100 + bn),
            event_type: [
                proto::IdRegisterEventType::Register,
                proto::IdRegisterEventType::Transfer,
                proto::IdRegisterEventType::ChangeRecovery,
            ][ev as usize % 3] as i32,
            from: vec![],
            recovery_address: vec![],
        }),
    )
}
pub fn signer_event(f: u8, k: u8, ev: u8, bn: u8) -> proto::OnChainEvent {
    use proto::on_chain_event::Body as OB;
    chain_event(
        fid(f),
        proto::OnChainEventType::EventTypeSigner,
        bn,
        OB::SignerEventBody(proto::SignerEventBody {
            key: signing_key(k).verifying_key().to_bytes().to_vec(),
            key_type: if ev == 3 { 2 } else { 1 },
            event_type: [
                proto::SignerEventType::Add,
                proto::SignerEventType::Remove,
                proto::SignerEventType::AdminReset,
                proto::SignerEventType::Add,
            ][ev as usize % 4] as i32,
            metadata: vec![],
            metadata_type: 1,
        }),
    )
}
/// Storage generations a rent can fall in: rented, and good until (both in unix seconds).
pub fn generation(g: u8) -> (u64, u64) {
    const YEAR: u64 = 365 * 86400;
    let now = unix_recent() + 20 * 86400;
    match g % 4 {
        // before the legacy cutoff, four years
        1 => (now - 5 * YEAR, now - YEAR),
        2 => {
            let t = (now - 3 * YEAR).min(1724889600 - 100);
            (t, t + 4 * YEAR)
        }
        // between the legacy and the 2024 cutoff, three years
        3 => (1752426000 - 100, 1752426000 - 100 + 3 * YEAR),
        _ => (unix_recent(), unix_recent() + YEAR),
    }
}
/// `units`: how many in the low two bits, the generation above
pub fn rent_event(f: u8, units: u8, bn: u8) -> proto::OnChainEvent {
    use proto::on_chain_event::Body as OB;
    let mut e = chain_event(
        fid(f),
        proto::OnChainEventType::EventTypeStorageRent,
        bn,
        OB::StorageRentEventBody(proto::StorageRentEventBody {
            payer: addr(0),
            units: (units % 4) as u32,
            expiry: 0,
        }),
    );
    e.block_timestamp = generation(units / 4).0 + bn as u64;
    e
}
pub fn fname_transfer(n: u8, from: u8, to: u8, ts: u8) -> proto::FnameTransfer {
    proto::FnameTransfer {
        id: ts as u64,
        from_fid: fid(from),
        proof: Some(proto::UserNameProof {
            timestamp: (t0() + ts as u32) as u64,
            name: NAMES[n as usize % 3].as_bytes().to_vec(),
            owner: addr(to),
            signature: fill(65, 10 + n.wrapping_mul(16) + to),
            fid: fid(to),
            r#type: proto::UserNameType::UsernameTypeFname as i32,
        }),
    }
}
pub fn verification(f: u8, a: u8, ts: u8, rm: bool) -> proto::Message {
    let d = if rm {
        data(
            f,
            ts,
            MessageType::VerificationRemove,
            Body::VerificationRemoveBody(proto::VerificationRemoveBody {
                address: addr(a),
                protocol: proto::Protocol::Ethereum as i32,
            }),
        )
    } else {
        data(
            f,
            ts,
            MessageType::VerificationAddEthAddress,
            Body::VerificationAddAddressBody(proto::VerificationAddAddressBody {
                address: addr(a),
                claim_signature: fill(65, a),
                block_hash: fill(32, 1),
                verification_type: 0,
                chain_id: 0,
                protocol: proto::Protocol::Ethereum as i32,
            }),
        )
    };
    sign_data(&d, &signing_key(0))
}
pub fn block_event(seqnum: u64, body: proto::block_event_data::Body) -> proto::BlockEvent {
    use proto::block_event_data::Body as BB;
    let d = proto::BlockEventData {
        seqnum,
        r#type: match body {
            BB::HeartbeatEventBody(_) => proto::BlockEventType::Heartbeat,
            BB::MergeMessageEventBody(_) => proto::BlockEventType::MergeMessage,
            BB::MergeOnChainEventEventBody(_) => proto::BlockEventType::MergeOnChainEvent,
        } as i32,
        block_number: seqnum,
        event_index: 0,
        block_timestamp: t0() as u64 + 50,
        body: Some(body),
    };
    proto::BlockEvent { hash: blake3::hash(&d.encode_to_vec()).as_bytes().to_vec(), data: Some(d) }
}
pub fn merge_block_event(seqnum: u64, m: proto::Message) -> proto::BlockEvent {
    block_event(
        seqnum,
        proto::block_event_data::Body::MergeMessageEventBody(proto::MergeMessageEventBody {
            message: Some(m),
        }),
    )
}

/// The mempool messages a block of operations stands for; block events take the next sequence
/// numbers after `last_seq`.
pub fn mempool(ops: &[Op], last_seq: u64) -> Vec<MempoolMessage> {
    let mut seq = last_seq;
    ops.iter()
        .map(|op| match op {
            Op::Id { f, ev, bn } => MempoolMessage::OnchainEvent(id_event(*f, *ev, *bn)),
            Op::Signer { f, k, ev, bn } => MempoolMessage::OnchainEvent(signer_event(*f, *k, *ev, *bn)),
            Op::Rent { f, units, bn } => MempoolMessage::OnchainEvent(rent_event(*f, *units, *bn)),
            Op::Fname { n, from, to, ts } => {
                MempoolMessage::FnameTransfer(fname_transfer(*n, *from, *to, *ts))
            }
            Op::Ver { f, a, ts, rm } => {
                seq += 1;
                MempoolMessage::BlockEvent {
                    for_shard: 1,
                    message: merge_block_event(seq, verification(*f, *a, *ts, *rm)),
                }
            }
            Op::M { f, k, ts, b, bad } => MempoolMessage::UserMessage(message(*f, *k, *ts, b, *bad)),
        })
        .collect()
}
pub fn setup_ops(mask: u8) -> Vec<Op> {
    let mut ops = vec![];
    for f in 0..4u8 {
        if mask >> f & 1 == 1 {
            ops.push(Op::Id { f, ev: 0, bn: 0 });
            ops.push(Op::Signer { f, k: 0, ev: 0, bn: 1 });
            ops.push(Op::Signer { f, k: 1, ev: 0, bn: 2 });
            ops.push(Op::Rent { f, units: 1, bn: 3 });
        }
    }
    ops
}

/// Which operations a history draws from, how many per block.
#[derive(Clone, Copy)]
pub struct Mix {
    pub per_block: (usize, usize),
    pub blocks: (usize, usize),
    pub compact: u32,
    pub chain: u32,
    pub names: u32,
    pub vers: u32,
    pub msgs: u32,
    pub bad: bool,
    pub fids: u8,
    /// storage of every generation, not only the newest
    pub old: bool,
}
pub const FULL: Mix =
    Mix { per_block: (0, 4), blocks: (3, 14), compact: 2, chain: 3, names: 3, vers: 2, msgs: 24, bad: true, fids: 4, old: false };

pub fn body(mix: Mix) -> BoxedStrategy<B> {
    prop_oneof![
        6 => (0u8..4, 0u8..4).prop_map(|(n, p)| B::Cast { n, p }),
        2 => (0u8..4, 0u8..4, 0u8..8).prop_map(|(n, p, ts)| B::CastRm { n, p, ts }),
        4 => (0u8..4, prop_oneof![5 => Just(0u8), 1 => Just(1u8)]).prop_map(|(t, ty)| B::Link { t, ty }),
        2 => (0u8..4, prop_oneof![5 => Just(0u8), 1 => Just(1u8)]).prop_map(|(t, ty)| B::Unlink { t, ty }),
        mix.compact => (prop_oneof![5 => Just(0u8), 1 => Just(1u8)], 0u8..32).prop_map(|(ty, mask)| B::Compact { ty, mask }),
        4 => (0u8..4, 0u8..2).prop_map(|(t, ty)| B::React { t, ty }),
        2 => (0u8..4, 0u8..2).prop_map(|(t, ty)| B::Unreact { t, ty }),
        5 => (0u8..6, prop_oneof![4 => 0u8..5, 1 => Just(9u8)]).prop_map(|(ty, v)| B::Ud { ty, v }),
        mix.names => (0u8..2).prop_map(|n| B::Ens { n }),
    ]
    .boxed()
}
pub fn op(mix: Mix) -> BoxedStrategy<Op> {
    let f = move || 0u8..mix.fids;
    let key = || prop_oneof![6 => Just(0u8), 3 => Just(1u8), 1 => Just(2u8)];
    let bad = if mix.bad { prop_oneof![20 => Just(0u8), 1 => Just(1u8)].boxed() } else { Just(0u8).boxed() };
    prop_oneof![
        mix.msgs => (f(), key(), 0u8..8, body(mix), bad).prop_map(|(f, k, ts, b, bad)| Op::M { f, k, ts, b, bad }),
        mix.chain => (f(), 0u8..3, 0u8..12).prop_map(|(f, ev, bn)| Op::Id { f, ev, bn }),
        mix.chain => (f(), key(), prop_oneof![3 => Just(0u8), 2 => Just(1u8), 1 => Just(2u8), 1 => Just(3u8)], 0u8..16)
            .prop_map(|(f, k, ev, bn)| Op::Signer { f, k, ev, bn }),
        mix.chain => (f(), 0u8..3, 0u8..16, if mix.old { (0u8..4).boxed() } else { Just(0u8).boxed() }).prop_map(|(f, units, bn, g)| (f, units + 4 * g, bn)).prop_map(|(f, units, bn)| Op::Rent { f, units, bn }),
        mix.names => (0u8..3, prop_oneof![2 => Just(4u8), 3 => 0u8..4], prop_oneof![5 => 0u8..4, 1 => Just(4u8)], 0u8..8)
            .prop_map(|(n, from, to, ts)| Op::Fname { n, from, to, ts }),
        mix.vers => (f(), 0u8..3, 0u8..8, any::<bool>()).prop_map(|(f, a, ts, rm)| Op::Ver { f, a, ts, rm }),
    ]
    .boxed()
}
pub fn history(mix: Mix) -> BoxedStrategy<History> {
    (
        prop_oneof![6 => Just(15u8), 2 => 0u8..16],
        pvec(pvec(op(mix), mix.per_block.0..=mix.per_block.1), mix.blocks.0..=mix.blocks.1),
    )
        .prop_map(|(setup, blocks)| History { setup, blocks })
        .boxed()
}

pub fn rt() -> tokio::runtime::Runtime {
    tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap()
}

pub const L2025: [u32; 7] = [4, 4, 3, 4, 2, 2, 1];
pub const L2024: [u32; 7] = [5, 3, 4, 3, 1, 3, 1];
pub const LEGACY: [u32; 7] = [2, 2, 1, 2, 1, 1, 1];
/// casts, links, reactions, user data, username proofs, verifications, lends per unit
pub fn limits() -> snapchain::storage::store::stores::StoreLimits {
    let l = |x: [u32; 7]| snapchain::storage::store::stores::Limits {
        casts: x[0],
        links: x[1],
        reactions: x[2],
        user_data: x[3],
        user_name_proofs: x[4],
        verifications: x[5],
        storage_lends: x[6],
    };
    snapchain::storage::store::stores::StoreLimits::new(l(L2025), l(L2024), l(LEGACY))
}

pub struct Node {
    pub e: ShardEngine,
    pub db: Arc<RocksDB>,
    pub rx: tokio::sync::broadcast::Receiver<HubEvent>,
    pub shard: u32,
    _dir: tempfile::TempDir,
}
impl Node {
    pub fn new(rt: &tokio::runtime::Runtime) -> Node {
        Node::for_shard(rt, 1)
    }
    pub fn for_shard(rt: &tokio::runtime::Runtime, shard: u32) -> Node {
        let dir = tempfile::TempDir::new().unwrap();
        let db = RocksDB::new(dir.path().join("n.db").to_str().unwrap());
        db.open().unwrap();
        let db = Arc::new(db);
        let e = Self::engine(rt, &db, shard);
        let rx = e.get_senders().events_tx.subscribe();
        Node { e, db, rx, shard, _dir: dir }
    }
    /// A node being filled from another's snapshot, with the options replication uses.
    pub fn bootstrapped(rt: &tokio::runtime::Runtime) -> Node {
        let mut n = Node::new(rt);
        n.e = rt
            .block_on(ShardEngine::new_with_opts(
                n.db.clone(),
                proto::FarcasterNetwork::Devnet,
                snapchain::storage::trie::merkle_trie::MerkleTrie::new().unwrap(),
                n.shard,
                th::limits::unlimited_store_limits(),
                th::statsd_client(),
                256,
                None,
                None,
                None,
                snapchain::storage::store::account::StoreOptions {
                    conflict_free: true,
                    save_hub_events: false,
                    ..Default::default()
                },
            ))
            .unwrap();
        let mut s = n.e.get_stores();
        s.trie.initialize(&n.db).unwrap();
        n.e.reset_event_id();
        n
    }
    pub fn engine(rt: &tokio::runtime::Runtime, db: &Arc<RocksDB>, shard: u32) -> ShardEngine {
        let (tx, _rx) = tokio::sync::mpsc::channel(1);
        rt.block_on(th::new_engine_with_options(th::EngineOptions {
            db: Some(db.clone()),
            shard_id: shard,
            messages_request_tx: Some(tx),
            limits: Some(limits()),
            ..Default::default()
        }))
        .0
    }
    pub fn restart(&mut self, rt: &tokio::runtime::Runtime) {
        self.e = Self::engine(rt, &self.db, self.shard);
        self.rx = self.e.get_senders().events_tx.subscribe();
    }
    pub fn dir(&self) -> &std::path::Path {
        self._dir.path()
    }
    /// As when the process ended and was started again: the database is closed and read from its files.
    pub fn reopen(&mut self, rt: &tokio::runtime::Runtime) {
        self.db.close();
        self.db.open().unwrap();
        self.restart(rt)
    }
    pub fn height(&self) -> u64 {
        self.e.get_confirmed_height().block_number
    }
    pub fn next(&self) -> proto::Height {
        proto::Height { shard_index: self.shard, block_number: self.height() + 1 }
    }
    pub fn start_round(&mut self) {
        let h = self.next();
        self.e.start_round(h, informalsystems_malachitebft_core_types::Round::Nil);
    }
    pub fn propose(&mut self, msgs: Vec<MempoolMessage>, ts: u32) -> ShardStateChange {
        self.e.propose_state_change(self.shard, msgs, Some(FarcasterTime::new(ts as u64)))
    }
    pub fn validate(&mut self, c: &ShardStateChange) -> bool {
        let h = self.next();
        self.e.validate_state_change(c, h)
    }
    pub fn commit(&mut self, rt: &tokio::runtime::Runtime, chunk: &ShardChunk) {
        rt.block_on(self.e.commit_shard_chunk(chunk))
    }
    pub fn chunk(&self, c: &ShardStateChange) -> ShardChunk {
        let n = self.height() + 1;
        let mut ch = th::state_change_to_shard_chunk(self.shard, n, c);
        ch.hash = blake3::hash(&ch.encode_to_vec()).as_bytes()[..20].to_vec();
        ch
    }
    /// Propose, validate and commit one block; returns the chunk and the proposal.
    pub fn block(
        &mut self,
        rt: &tokio::runtime::Runtime,
        msgs: Vec<MempoolMessage>,
        ts: u32,
    ) -> (ShardChunk, ShardStateChange) {
        self.start_round();
        let c = self.propose(msgs, ts);
        let ch = self.chunk(&c);
        self.commit(rt, &ch);
        (ch, c)
    }
    pub fn dump(&self) -> BTreeMap<Vec<u8>, Vec<u8>> {
        let mut m = BTreeMap::new();
        self.db
            .for_each_iterator_by_prefix(
                Some(vec![0]),
                Some(vec![255; 64]),
                &PageOptions::default(),
                |k, v| {
                    m.insert(k.to_vec(), canonical_row(k, v));
                    Ok(false)
                },
            )
            .unwrap();
        m
    }
    pub fn root(&self) -> Vec<u8> {
        let mut s = self.e.get_stores();
        s.trie.reload(&self.db).unwrap();
        s.trie.root_hash().unwrap()
    }
    pub fn last_seq(&self) -> u64 {
        self.e.get_stores().block_event_store.max_seqnum().unwrap()
    }
    /// The stored events of one height, in id order.
    pub fn events(&self, height: u64) -> Vec<HubEvent> {
        self.e
            .get_stores()
            .get_events(height << 14, Some((height + 1) << 14), None)
            .unwrap()
            .events
    }
    pub fn drain(&mut self) -> Vec<HubEvent> {
        let mut out = vec![];
        loop {
            match self.rx.try_recv() {
                Ok(e) => out.push(e),
                Err(tokio::sync::broadcast::error::TryRecvError::Lagged(_)) => {}
                Err(_) => break,
            }
        }
        out
    }
}
/// A row's value with its protobuf maps, whose order on the wire means nothing, in key order.
pub fn canonical_row(k: &[u8], v: &[u8]) -> Vec<u8> {
    match k[0] {
        8 => {
            let Ok(mut n) = proto::DbTrieNode::decode(v) else { return v.to_vec() };
            let mut hashes: BTreeMap<u32, Vec<u8>> = n.child_hashes.drain().collect();
            if n.child_chars.is_empty() {
                // a node whose last child was pulled up keeps that child's hash, unused
                hashes.clear();
            }
            n.child_chars.sort();
            let mut out = n.encode_to_vec();
            for (c, h) in hashes {
                out.extend(c.to_be_bytes());
                out.extend(h);
            }
            out
        }
        9 => {
            let Ok(mut e) = HubEvent::decode(v) else { return v.to_vec() };
            let mut counts = BTreeMap::new();
            if let Some(proto::hub_event::Body::BlockConfirmedBody(b)) = &mut e.body {
                counts.extend(b.event_counts_by_type.drain());
            }
            let mut out = e.encode_to_vec();
            for (t, n) in counts {
                out.extend(t.to_be_bytes());
                out.extend(n.to_be_bytes());
            }
            out
        }
        _ => v.to_vec(),
    }
}
/// first difference between two dumps
pub fn diff(a: &BTreeMap<Vec<u8>, Vec<u8>>, b: &BTreeMap<Vec<u8>, Vec<u8>>) -> Option<String> {
    for (k, v) in a {
        match b.get(k) {
            None => return Some(format!("key {} only in the first", hex::encode(k))),
            Some(w) if w != v => {
                return Some(format!("key {}: {} != {}", hex::encode(k), hex::encode(v), hex::encode(w)))
            }
            _ => {}
        }
    }
    b.keys().find(|k| !a.contains_key(*k)).map(|k| format!("key {} only in the second", hex::encode(k)))
}
pub fn block_ts(i: usize) -> u32 {
    t0() + 100 + i as u32
}
