//! C33: the mempool, driven through its channels, against a model of what waits, in which order, and
//! who may add to it.
use crate::frame::*;
use crate::gens::*;
use crate::world::{self, addr, fid, fname_transfer, id_event, rent_event, signer_event, t0};
use prost::Message as _;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use sha2::Digest as _;
use snapchain::mempool::mempool::{Config, Mempool, MempoolMessagesRequest, MempoolRequest, MempoolSource, ReadNodeMempool};
use snapchain::network::gossip::GossipEvent;
use snapchain::proto::{self, message_data::Body, Block, FarcasterNetwork, MessageType, ShardChunk, Transaction};
use snapchain::storage::db::{RocksDB, RocksDbTransactionBatch};
use snapchain::storage::store::account::{make_message_primary_key, make_ts_hash};
use snapchain::storage::store::block_engine::BlockStores;
use snapchain::storage::store::mempool_poller::MempoolMessage;
use snapchain::storage::store::stores::Stores;
use snapchain::storage::store::test_helper as th;
use snapchain::storage::trie::merkle_trie::MerkleTrie;
use std::collections::{BTreeMap, BTreeSet, HashMap, VecDeque};
use std::sync::Arc;
use std::time::{Duration, Instant};
use tokio::sync::{broadcast, mpsc, oneshot};

#[derive(Debug, Clone, Copy, PartialEq, Eq, Serialize, Deserialize)]
pub enum K {
    Cast,
    CastRm,
    Link,
    Compact,
    React,
    Bio,
    Live,
    KeyAdd,
    KeyRm,
    Lend { to: u8 },
    Ver,
    VerRm,
    Proof,
    Update,
    Member,
    Pin,
    Moderate,
}
#[derive(Debug, Clone, Copy, PartialEq, Eq, Serialize, Deserialize)]
pub struct M {
    k: K,
    f: u8,
    ts: u8,
    n: u8,
}
#[derive(Debug, Clone, Copy, PartialEq, Eq, Serialize, Deserialize)]
pub enum Sys {
    Id { f: u8, bn: u8 },
    Signer { f: u8, bn: u8, n: u8 },
    Rent { f: u8, bn: u8, units: u8 },
    Migrate { f: u8, bn: u8 },
    Fname { n: u8, from: u8, to: u8, ts: u8 },
    Ev { shard: u8, seq: u8, at: u8 },
}
#[derive(Debug, Clone, Copy, PartialEq, Eq, Serialize, Deserialize)]
pub enum Any {
    U(M),
    S(Sys),
}
#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum Op {
    Add { m: Any, src: u8 },
    /// many casts (or presences, or keys) of one fid, one after another
    Burst { k: u8, f: u8, count: u16 },
    Pull { shard: u8, n: u8 },
    /// merged by the engine, without the pool being told
    Merge { m: M },
    MergeEvents { shard: u8, to: u8 },
    Decide { shard: u8, ms: Vec<Any>, rent: bool },
    Size,
}
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Case {
    net: u8,
    /// fnames went to the name's own shard only, long ago
    old: bool,
    limits: bool,
    cap: u8,
    shards: u8,
    units: Vec<u8>,
    ops: Vec<Op>,
}
fn network(n: u8) -> FarcasterNetwork {
    [FarcasterNetwork::Devnet, FarcasterNetwork::Mainnet, FarcasterNetwork::Testnet][n as usize % 3]
}
fn user(m: &M) -> proto::Message {
    use proto::*;
    let ch = |t: MessageType, b: Body| (t, b);
    let (t, b) = match m.k {
        K::Cast => (MessageType::CastAdd, Body::CastAddBody(CastAddBody { text: format!("{}", m.n), ..Default::default() })),
        K::CastRm => (MessageType::CastRemove, Body::CastRemoveBody(CastRemoveBody { target_hash: fill(20, m.n) })),
        K::Link => (MessageType::LinkAdd, Body::LinkBody(LinkBody { r#type: "follow".into(), display_timestamp: None, target: Some(link_body::Target::TargetFid(m.n as u64)) })),
        K::Compact => (
            MessageType::LinkCompactState,
            Body::LinkCompactStateBody(LinkCompactStateBody { r#type: "follow".into(), target_fids: vec![m.n as u64] }),
        ),
        K::React => (
            MessageType::ReactionAdd,
            Body::ReactionBody(ReactionBody { r#type: 1, target: Some(reaction_body::Target::TargetUrl(format!("{}", m.n))) }),
        ),
        K::Bio => (
            MessageType::UserDataAdd,
            Body::UserDataBody(UserDataBody { r#type: UserDataType::Bio as i32, value: format!("{}", m.n) }),
        ),
        K::Live => (
            MessageType::UserDataAdd,
            Body::UserDataBody(UserDataBody { r#type: UserDataType::LiveAt as i32, value: format!("{}", m.n) }),
        ),
        K::KeyAdd => (MessageType::KeyAdd, Body::KeyAddBody(KeyAddBody { key: fill(32, m.n), ..Default::default() })),
        K::KeyRm => (MessageType::KeyRemove, Body::KeyRemoveBody(KeyRemoveBody { key: fill(32, m.n), ..Default::default() })),
        K::Lend { to } => (
            MessageType::LendStorage,
            Body::LendStorageBody(LendStorageBody { to_fid: fid(to), num_units: m.n as u64, unit_type: 2 }),
        ),
        K::Ver => (
            MessageType::VerificationAddEthAddress,
            Body::VerificationAddAddressBody(VerificationAddAddressBody { address: addr(m.n), ..Default::default() }),
        ),
        K::VerRm => (
            MessageType::VerificationRemove,
            Body::VerificationRemoveBody(VerificationRemoveBody { address: addr(m.n), protocol: 0 }),
        ),
        K::Proof => (
            MessageType::UsernameProof,
            Body::UsernameProofBody(UserNameProof { name: vec![m.n], ..Default::default() }),
        ),
        K::Update => ch(MessageType::ChannelUpdate, Body::ChannelUpdateBody(Default::default())),
        K::Member => ch(MessageType::ChannelMember, Body::ChannelMemberBody(Default::default())),
        K::Pin => ch(MessageType::ChannelPin, Body::ChannelPinBody(Default::default())),
        K::Moderate => ch(MessageType::ChannelModerate, Body::ChannelModerateBody(Default::default())),
    };
    let d = proto::MessageData {
        r#type: t as i32,
        fid: fid(m.f),
        timestamp: t0() + m.ts as u32,
        network: FarcasterNetwork::Devnet as i32,
        body: Some(b),
    };
    sign(&d, m.n)
}
/// The pool checks no signatures, so a cheap stand-in does; the hash is the real one.
fn sign(d: &proto::MessageData, n: u8) -> proto::Message {
    let mut bytes = d.encode_to_vec();
    bytes.push(n);
    proto::Message {
        data: Some(d.clone()),
        hash: h20(&bytes),
        hash_scheme: 1,
        signature: vec![n; 64],
        signature_scheme: 1,
        signer: vec![n; 32],
        data_bytes: None,
    }
}
fn sys(s: &Sys) -> MempoolMessage {
    match s {
        Sys::Id { f, bn } => MempoolMessage::OnchainEvent(id_event(*f, 0, *bn)),
        Sys::Signer { f, bn, n } => MempoolMessage::OnchainEvent(signer_event(*f, *n, 0, *bn)),
        Sys::Rent { f, bn, units } => MempoolMessage::OnchainEvent(rent_event(*f, *units % 4, *bn)),
        Sys::Migrate { f, bn } => MempoolMessage::OnchainEventForMigration(id_event(*f, 1, *bn)),
        Sys::Fname { n, from, to, ts } => MempoolMessage::FnameTransfer(fname_transfer(*n, *from, *to, *ts)),
        Sys::Ev { shard, seq, at } => MempoolMessage::BlockEvent { for_shard: *shard as u32, message: event(*seq as u64, *at) },
    }
}
pub fn event(seq: u64, at: u8) -> proto::BlockEvent {
    let mut e = world::block_event(seq, proto::block_event_data::Body::HeartbeatEventBody(Default::default()));
    let d = e.data.as_mut().unwrap();
    d.block_timestamp = t0() as u64 + at as u64;
    e.hash = blake3::hash(&d.encode_to_vec()).as_bytes().to_vec();
    e
}
fn message(a: &Any) -> MempoolMessage {
    match a {
        Any::U(m) => MempoolMessage::UserMessage(user(m)),
        Any::S(s) => sys(s),
    }
}
pub fn shard_of(fid: u64, n: u32) -> u32 {
    let h = sha2::Sha256::digest((fid as u32).to_be_bytes());
    u32::from_be_bytes(h[..4].try_into().unwrap()) % n + 1
}
/// System messages before users', older before newer, then a fixed order; block events in sequence.
type Key = (u8, u64, Vec<u8>);
fn key(m: &MempoolMessage) -> Key {
    match m {
        MempoolMessage::UserMessage(u) => {
            (2, u.data.as_ref().unwrap().timestamp as u64 + 1609459200, u.hash.clone())
        }
        MempoolMessage::OnchainEvent(e) | MempoolMessage::OnchainEventForMigration(e) => (
            1,
            e.block_timestamp,
            format!("{}{}", hex::encode(&e.transaction_hash), e.log_index).into_bytes(),
        ),
        MempoolMessage::FnameTransfer(f) => (1, f.proof.as_ref().unwrap().timestamp, f.id.to_string().into_bytes()),
        MempoolMessage::BlockEvent { message, .. } => {
            let d = message.data.as_ref().unwrap();
            (1, d.block_timestamp, format!("{:020}", d.seqnum).into_bytes())
        }
    }
}
fn body(m: &MempoolMessage) -> Option<&Body> {
    match m {
        MempoolMessage::UserMessage(u) => u.data.as_ref().unwrap().body.as_ref(),
        _ => None,
    }
}
fn is_live(m: &MempoolMessage) -> bool {
    matches!(body(m), Some(Body::UserDataBody(b)) if b.r#type == proto::UserDataType::LiveAt as i32)
}
fn ts_hash(m: &MempoolMessage) -> (u32, Vec<u8>) {
    let MempoolMessage::UserMessage(u) = m else { unreachable!() };
    (u.data.as_ref().unwrap().timestamp, u.hash.clone())
}

struct Bucket {
    quota: u64,
    every: Duration,
    used: u64,
    start: Instant,
}
impl Bucket {
    fn new(quota: u64, per: Duration) -> Bucket {
        Bucket { quota, every: per / quota as u32, used: 0, start: Instant::now() }
    }
    /// Some(verdict) if certain; None if a refill may have happened meanwhile
    fn take(&self) -> Option<bool> {
        if self.used < self.quota {
            return Some(true);
        }
        let refilled = (self.start.elapsed().as_secs_f64() * 1.1 / self.every.as_secs_f64()) as u64;
        if self.used >= self.quota + refilled { Some(false) } else { None }
    }
}
const HOUR: Duration = Duration::from_secs(3600);

struct Model {
    shards: u32,
    channels: bool,
    gasless: bool,
    v21: bool,
    everywhere: bool,
    limits: bool,
    pool: BTreeMap<u32, BTreeMap<Key, MempoolMessage>>,
    merged: BTreeSet<(u32, Vec<u8>)>,
    events: BTreeMap<u32, u64>,
    units: BTreeMap<u64, u64>,
    general: HashMap<u64, Bucket>,
    live: HashMap<u64, Bucket>,
    keys: HashMap<u64, Bucket>,
    gossip: Vec<MempoolMessage>,
}
type Verdict = Result<(), &'static str>;
const DUP: &str = "bad_request.duplicate";
const RATE: &str = "bad_request.rate_limited";
const INVALID: &str = "bad_request.validation_failure";
impl Model {
    fn route(&self, m: &MempoolMessage) -> Vec<u32> {
        match m {
            MempoolMessage::UserMessage(u) => match u.msg_type() {
                MessageType::LendStorage
                | MessageType::KeyAdd
                | MessageType::KeyRemove
                | MessageType::ChannelUpdate
                | MessageType::ChannelMember
                | MessageType::ChannelPin
                | MessageType::ChannelModerate => vec![0],
                MessageType::VerificationAddEthAddress | MessageType::VerificationRemove if self.v21 => vec![0],
                _ => vec![shard_of(u.fid(), self.shards)],
            },
            MempoolMessage::OnchainEvent(e) => vec![0, shard_of(e.fid, self.shards)],
            MempoolMessage::OnchainEventForMigration(_) => vec![0],
            MempoolMessage::FnameTransfer(_) if self.everywhere => (1..=self.shards).collect(),
            MempoolMessage::FnameTransfer(f) => vec![shard_of(f.proof.as_ref().unwrap().fid, self.shards)],
            MempoolMessage::BlockEvent { for_shard, .. } => vec![*for_shard],
        }
    }
    fn exists(&self, shard: u32, m: &MempoolMessage) -> bool {
        match m {
            MempoolMessage::UserMessage(u) => self.merged.contains(&(shard, u.hash.clone())),
            _ => false,
        }
    }
    /// admissible whatever the rate limits say
    fn valid(&self, shard: u32, m: &MempoolMessage) -> Verdict {
        if let MempoolMessage::UserMessage(u) = m {
            let gated = matches!(
                u.msg_type(),
                MessageType::ChannelUpdate
                    | MessageType::ChannelMember
                    | MessageType::ChannelPin
                    | MessageType::ChannelModerate
            );
            let key = matches!(u.msg_type(), MessageType::KeyAdd | MessageType::KeyRemove);
            if gated && !self.channels || key && !self.gasless {
                return Err(INVALID);
            }
        }
        if let MempoolMessage::BlockEvent { for_shard, message } = m {
            if *for_shard == 0 {
                return Err("invalid_internal_state");
            }
            if message.seqnum() <= self.events.get(for_shard).copied().unwrap_or(0) {
                return Err(DUP);
            }
        }
        if self.exists(shard, m) {
            return Err(DUP);
        }
        Ok(())
    }
    /// the verdicts the rate limits allow (one, or both when a refill is due about now)
    fn rated(&mut self, m: &MempoolMessage) -> Vec<bool> {
        let MempoolMessage::UserMessage(u) = m else { return vec![true] };
        let f = u.fid();
        let (mut open, mut sure) = (true, true);
        fn ask(b: &Bucket, open: &mut bool, sure: &mut bool) {
            match b.take() {
                Some(v) => *open &= v,
                None => *sure = false,
            }
        }
        let units = self.units.get(&f).copied().unwrap_or(0);
        let per_unit: u64 = LIMITS.iter().map(|x| *x as u64).sum();
        if matches!(body(m), Some(Body::KeyAddBody(_))) {
            ask(self.keys.entry(f).or_insert_with(|| Bucket::new(1, Duration::from_secs(60))), &mut open, &mut sure);
        }
        if matches!(body(m), Some(Body::KeyRemoveBody(_))) {
            // revoking a key is never held up
        } else if is_live(m) {
            if units == 0 && !self.live.contains_key(&f) {
                open = false;
            } else {
                ask(self.live.entry(f).or_insert_with(|| Bucket::new(units * 5000, HOUR)), &mut open, &mut sure);
            }
        } else if self.limits {
            if units == 0 && !self.general.contains_key(&f) {
                open = false;
            } else if open || !sure {
                let quota = (units * per_unit / 10).max(100);
                ask(self.general.entry(f).or_insert_with(|| Bucket::new(quota, HOUR)), &mut open, &mut sure);
            }
        }
        if !open {
            vec![false]
        } else if sure {
            vec![true]
        } else {
            vec![true, false]
        }
    }
    fn charge(&mut self, m: &MempoolMessage, ok: bool) {
        let MempoolMessage::UserMessage(u) = m else { return };
        let f = u.fid();
        let spend = |b: Option<&mut Bucket>| {
            if let Some(b) = b {
                if b.used < b.quota || ok {
                    b.used += 1
                }
            }
        };
        if matches!(body(m), Some(Body::KeyAddBody(_))) {
            spend(self.keys.get_mut(&f));
        }
        if is_live(m) {
            spend(self.live.get_mut(&f));
        } else if self.limits && !matches!(body(m), Some(Body::KeyRemoveBody(_))) && ok {
            spend(self.general.get_mut(&f));
        }
    }
    /// What adding it must answer, given what it did answer (which matters only around a refill).
    fn add(&mut self, m: &MempoolMessage, src: &MempoolSource, got: &Verdict) -> Verdict {
        let mut first = Ok(());
        for shard in self.route(m) {
            let r = self.add_to(shard, m, src, got);
            if first.is_ok() {
                first = r;
            }
        }
        first
    }
    fn add_to(&mut self, shard: u32, m: &MempoolMessage, src: &MempoolSource, got: &Verdict) -> Verdict {
        if self.pool.get(&shard).is_some_and(|p| p.contains_key(&key(m))) {
            return Err(DUP);
        }
        let mut replaced = None;
        if is_live(m) {
            let waiting = self.pool.get(&shard).and_then(|p| {
                p.iter().find(|(_, x)| is_live(x) && x.fid() == m.fid()).map(|(k, x)| (k.clone(), ts_hash(x)))
            });
            if let Some((k, th)) = waiting {
                if th > ts_hash(m) {
                    return Err(DUP);
                }
                replaced = Some(k);
            }
        }
        self.valid(shard, m)?;
        let allowed = self.rated(m);
        let ok = if allowed.len() == 1 { allowed[0] } else { got.is_ok() };
        self.charge(m, ok);
        if !ok {
            return Err(RATE);
        }
        let p = self.pool.entry(shard).or_default();
        if let Some(k) = replaced {
            p.remove(&k);
        }
        p.insert(key(m), m.clone());
        if matches!(m, MempoolMessage::UserMessage(_)) && *src != MempoolSource::Gossip {
            self.gossip.push(m.clone());
        }
        Ok(())
    }
    fn pull(&mut self, shard: u32, n: usize) -> Vec<MempoolMessage> {
        let mut out = vec![];
        while out.len() < n {
            let Some((_, m)) = self.pool.get_mut(&shard).and_then(|p| p.pop_first()) else { break };
            if self.valid(shard, &m).is_ok() {
                out.push(m);
            }
        }
        out
    }
    fn decided(&mut self, shard: u32, m: &MempoolMessage) {
        let Some(p) = self.pool.get_mut(&shard) else { return };
        p.remove(&key(m));
        let mut fresh = vec![];
        match m {
            MempoolMessage::UserMessage(u) => {
                if let Some(Body::LendStorageBody(l)) = body(m) {
                    fresh = vec![u.fid(), l.to_fid];
                }
            }
            MempoolMessage::OnchainEvent(e) if e.r#type == proto::OnChainEventType::EventTypeStorageRent as i32 => {
                fresh = vec![e.fid]
            }
            _ => {}
        }
        for f in fresh {
            self.general.remove(&f);
            self.live.remove(&f);
        }
    }
    fn total(&self) -> usize {
        self.pool.values().map(|p| p.len()).sum()
    }
}

const LIMITS: [u32; 7] = [400; 7];
pub struct Stage {
    pub stores: HashMap<u32, Stores>,
    pub block: BlockStores,
    _dirs: Vec<tempfile::TempDir>,
}
pub fn stage(shards: u32) -> Stage {
    let mut stores = HashMap::new();
    let mut dirs = vec![];
    let open = |dirs: &mut Vec<tempfile::TempDir>| {
        let dir = tempfile::TempDir::new().unwrap();
        let db = RocksDB::new(dir.path().join("p.db").to_str().unwrap());
        db.open().unwrap();
        dirs.push(dir);
        Arc::new(db)
    };
    let l = snapchain::storage::store::stores::Limits {
        casts: LIMITS[0],
        links: LIMITS[1],
        reactions: LIMITS[2],
        user_data: LIMITS[3],
        user_name_proofs: LIMITS[4],
        verifications: LIMITS[5],
        storage_lends: LIMITS[6],
    };
    for s in 1..=shards {
        let db = open(&mut dirs);
        let mut trie = MerkleTrie::new().unwrap();
        trie.initialize(&db).unwrap();
        stores.insert(
            s,
            Stores::new(
                db,
                s,
                trie,
                snapchain::storage::store::stores::StoreLimits::new(l.clone(), l.clone(), l.clone()),
                FarcasterNetwork::Devnet,
                th::statsd_client(),
            ),
        );
    }
    let db = open(&mut dirs);
    let mut trie = MerkleTrie::new().unwrap();
    trie.initialize(&db).unwrap();
    Stage { stores, block: BlockStores::new(db, trie, FarcasterNetwork::Devnet), _dirs: dirs }
}
impl Stage {
    fn db(&self, shard: u32) -> Arc<RocksDB> {
        if shard == 0 { self.block.db.clone() } else { self.stores[&shard].db.clone() }
    }
    fn rent(&self, f: u8, units: u8, bn: u8, shards: u32) {
        let s = &self.stores[&shard_of(fid(f), shards)];
        let mut t = RocksDbTransactionBatch::new();
        s.onchain_event_store.merge_onchain_event(rent_event(f, units, bn), &mut t).unwrap();
        s.db.commit(t).unwrap();
    }
    pub fn merge_event(&self, shard: u32, e: &proto::BlockEvent) {
        let s = &self.stores[&shard];
        let mut t = RocksDbTransactionBatch::new();
        s.block_event_store.put_block_event(e, &mut t).unwrap();
        s.db.commit(t).unwrap();
    }
    /// as the engine would store it; false for the kinds that have no row of their own
    fn merge(&self, shard: u32, m: &proto::Message) -> bool {
        let d = m.data.as_ref().unwrap();
        let Ok(p) = snapchain::storage::store::account::type_to_set_postfix(m.msg_type()) else { return false };
        let k = make_message_primary_key(d.fid, p as u8, Some(&make_ts_hash(d.timestamp, &m.hash).unwrap()));
        let mut t = RocksDbTransactionBatch::new();
        t.put(k, m.encode_to_vec());
        self.db(shard).commit(t).unwrap();
        true
    }
}
struct Wires {
    tx: mpsc::Sender<MempoolRequest>,
    req: mpsc::Sender<MempoolMessagesRequest>,
    chunks: broadcast::Sender<ShardChunk>,
    blocks: broadcast::Sender<Block>,
    gossip: mpsc::Receiver<GossipEvent<snapchain::core::types::SnapchainValidatorContext>>,
}
impl Wires {
    async fn add(&self, m: &MempoolMessage, src: &MempoolSource) -> oneshot::Receiver<Result<(), snapchain::core::error::HubError>> {
        let (t, r) = oneshot::channel();
        self.tx.send(MempoolRequest::AddMessage(m.clone(), src.clone(), Some(t))).await.unwrap();
        r
    }
    async fn pull(&self, shard: u32, n: u32) -> Option<Vec<MempoolMessage>> {
        let (t, r) = oneshot::channel();
        self.req.send(MempoolMessagesRequest { shard_id: shard, message_tx: t, max_messages_per_block: n }).await.ok()?;
        r.await.ok()
    }
    fn sent(&mut self) -> Vec<MempoolMessage> {
        let mut out = vec![];
        while let Ok(e) = self.gossip.try_recv() {
            match e {
                GossipEvent::BroadcastMempoolMessage(m) => out.push(m),
                _ => panic!("unexpected gossip"),
            }
        }
        out
    }
}
fn code(r: Result<(), snapchain::core::error::HubError>) -> Result<(), String> {
    r.map_err(|e| e.code)
}
fn source(s: u8) -> MempoolSource {
    match s % 3 {
        0 => MempoolSource::RPC,
        1 => MempoolSource::Gossip,
        _ => MempoolSource::Local,
    }
}
fn tell(w: &Wires, shard: u32, ms: &[MempoolMessage]) {
    let mut tx = Transaction { fid: 0, account_root: vec![], system_messages: vec![], user_messages: vec![] };
    let mut v = |c: Option<proto::OnChainEvent>, f: Option<proto::FnameTransfer>, b: Option<proto::BlockEvent>| {
        tx.system_messages.push(proto::ValidatorMessage { on_chain_event: c, fname_transfer: f, block_event: b })
    };
    for m in ms {
        match m {
            MempoolMessage::UserMessage(_) => {}
            MempoolMessage::OnchainEvent(e) | MempoolMessage::OnchainEventForMigration(e) => v(Some(e.clone()), None, None),
            MempoolMessage::FnameTransfer(f) => v(None, Some(f.clone()), None),
            MempoolMessage::BlockEvent { message, .. } => v(None, None, Some(message.clone())),
        }
    }
    for m in ms {
        if let MempoolMessage::UserMessage(u) = m {
            tx.user_messages.push(u.clone())
        }
    }
    let height = Some(proto::Height { shard_index: shard, block_number: 1 });
    if shard == 0 {
        let b = Block {
            header: Some(proto::BlockHeader { height, ..Default::default() }),
            transactions: vec![tx],
            ..Default::default()
        };
        w.blocks.send(b).unwrap();
    } else {
        let c = ShardChunk {
            header: Some(proto::ShardHeader { height, ..Default::default() }),
            transactions: vec![tx],
            ..Default::default()
        };
        w.chunks.send(c).unwrap();
    }
}
fn paused() -> tokio::runtime::Runtime {
    tokio::runtime::Builder::new_current_thread().enable_all().start_paused(true).build().unwrap()
}
/// so old that fname transfers went to one shard only
const OLD: i64 = 1_750_000_000;

fn check(c: &Case, o: &mut Obs) -> R {
    t0();
    if c.old && network(c.net) != FarcasterNetwork::Devnet {
        let now = std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_secs();
        rocksdb::shim::set_clock(OLD - now as i64);
    }
    let shards = 1 + c.shards as u32 % 3;
    let st = stage(shards);
    let net = network(c.net);
    let v = snapchain::version::version::EngineVersion::current(net);
    use snapchain::version::version::ProtocolFeature as P;
    let mut m = Model {
        shards,
        channels: v.is_enabled(P::ChannelMessages),
        gasless: v.is_enabled(P::GaslessSigners),
        v21: v.is_enabled(P::VerificationsOnShardZero),
        everywhere: v.is_enabled(P::UsernameShardRoutingFix),
        limits: c.limits,
        pool: BTreeMap::new(),
        merged: BTreeSet::new(),
        events: BTreeMap::new(),
        units: BTreeMap::new(),
        general: HashMap::new(),
        live: HashMap::new(),
        keys: HashMap::new(),
        gossip: vec![],
    };
    for (f, u) in c.units.iter().enumerate() {
        if *u > 0 {
            st.rent(f as u8, *u, 100 + f as u8, shards);
            m.units.insert(fid(f as u8), *u as u64);
        }
    }
    let cap = match c.cap {
        0 => None,
        n => Some(n as usize * 3),
    };
    let rt = paused();
    rt.block_on(async {
        let (tx, rx) = mpsc::channel(100_000);
        let (req, req_rx) = mpsc::channel(100);
        let (gossip_tx, gossip) = mpsc::channel(200_000);
        let (chunks, chunk_rx) = broadcast::channel(1000);
        let (blocks, block_rx) = broadcast::channel(1000);
        let mut pool = Mempool::new(
            Config {
                queue_size: 1000,
                allow_unlimited_mempool_size: cap.is_none() && c.shards % 2 == 0,
                capacity_per_shard: cap.map(|c| c as u64).unwrap_or(1_000_000),
                rx_poll_interval: Duration::from_millis(1),
                enable_rate_limits: c.limits,
            },
            net,
            rx,
            req_rx,
            shards,
            st.stores.clone(),
            st.block.clone(),
            gossip_tx,
            chunk_rx,
            block_rx,
            th::statsd_client(),
        );
        let run = tokio::spawn(async move { pool.run().await });
        let mut w = Wires { tx, req, chunks, blocks, gossip };
        let mut waiting: VecDeque<(MempoolMessage, MempoolSource, oneshot::Receiver<Result<(), snapchain::core::error::HubError>>)> = VecDeque::new();
        for (i, op) in c.ops.iter().enumerate() {
            let full = |m: &Model| cap.is_some_and(|c| m.total() >= c);
            match op {
                Op::Add { m: a, src } => {
                    let mm = message(a);
                    if let MempoolMessage::BlockEvent { for_shard, .. } = &mm {
                        if *for_shard > shards {
                            continue;
                        }
                    }
                    let src = source(*src);
                    let r = w.add(&mm, &src).await;
                    waiting.push_back((mm, src, r));
                }
                Op::Burst { k, f, count } => {
                    // how many a full pool takes at once depends on when they arrive
                    if cap.is_some() {
                        continue;
                    }
                    for n in 0..*count {
                        let k = [K::Cast, K::Live, K::KeyAdd, K::KeyRm][*k as usize % 4];
                        let mut d = user(&M { k, f: *f, ts: 40, n: (n % 256) as u8 });
                        let dd = d.data.as_mut().unwrap();
                        dd.timestamp += 10 + n as u32;
                        let d = sign(&dd.clone(), 0);
                        let mm = MempoolMessage::UserMessage(d);
                        let r = w.add(&mm, &MempoolSource::Gossip).await;
                        waiting.push_back((mm, MempoolSource::Gossip, r));
                    }
                }
                Op::Pull { shard, n } => {
                    let shard = *shard as u32 % (shards + 1);
                    let want = m.pull(shard, *n as usize);
                    let got = w.pull(shard, *n as u32).await.ok_or("the pool is gone")?;
                    if got.len() > 1 {
                        o.nt();
                        o.label("several pulled");
                    }
                    ensure!(got == want, "op {i}: pulled {} from shard {shard}, expected {}", show(&got), show(&want));
                }
                Op::Merge { m: a } => {
                    let u = user(a);
                    let shard = m.route(&MempoolMessage::UserMessage(u.clone()))[0];
                    if st.merge(shard, &u) {
                        m.merged.insert((shard, u.hash));
                    }
                }
                Op::MergeEvents { shard, to } => {
                    let shard = 1 + *shard as u32 % shards;
                    let from = m.events.get(&shard).copied().unwrap_or(0);
                    for s in from + 1..=*to as u64 {
                        st.merge_event(shard, &event(s, 0));
                        m.events.insert(shard, s);
                    }
                }
                Op::Decide { shard, ms, rent } => {
                    let shard = *shard as u32 % (shards + 1);
                    let list: Vec<_> = ms.iter().map(message).collect();
                    if *rent {
                        for x in ms {
                            if let Any::S(Sys::Rent { f, bn, units }) = x {
                                let u = *units % 4;
                                let e = rent_event(*f, u, *bn);
                                let home = &st.stores[&shard_of(fid(*f), shards)];
                                if !home.onchain_event_store.exists(&e).unwrap() {
                                    st.rent(*f, u, *bn, shards);
                                    *m.units.entry(fid(*f)).or_default() += u as u64;
                                }
                            }
                        }
                    }
                    tell(&w, shard, &list);
                    for x in &list {
                        m.decided(shard, x);
                    }
                    o.label("decided");
                }
                Op::Size => {
                    if full(&m) {
                        continue;
                    }
                    tokio::time::sleep(Duration::from_millis(3)).await;
                }
            }
            tokio::time::sleep(Duration::from_millis(3 + waiting.len() as u64 / 256)).await;
            // whatever had room has been answered by now, in order
            while !waiting.is_empty() && !full(&m) {
                // up to 256 requests are taken per poll before the size is looked at again
                for _ in 0..256 {
                    let Some((mm, src, mut r)) = waiting.pop_front() else { break };
                    let got = r.try_recv().map_err(|_| format!("op {i}: no answer for {}", show(&[mm.clone()])))?;
                    let got = code(got);
                    let hint: Verdict = if got.is_ok() { Ok(()) } else { Err("") };
                    let want = m.add(&mm, &src, &hint).map_err(String::from);
                    if mm.fid() != 0 && want.is_err() {
                        o.label_if(want == Err(DUP.into()), "duplicate");
                        o.label_if(want == Err(RATE.into()), "rate limited");
                        o.label_if(want == Err(INVALID.into()), "too early");
                    }
                    ensure_eq!(got, want, "op {i}: answer for {}", show(&[mm]));
                }
            }
            for (mm, _, r) in waiting.iter_mut() {
                o.label("full");
                ensure!(r.try_recv().is_err(), "op {i}: answered although the pool is full: {}", show(&[mm.clone()]));
            }
            let got = w.sent();
            let want = std::mem::take(&mut m.gossip);
            ensure!(got == want, "op {i}: gossiped {}, expected {}", show(&got), show(&want));
            if !full(&m) {
                let (t, r) = oneshot::channel();
                w.tx.send(MempoolRequest::GetSize(t)).await.unwrap();
                let got: BTreeMap<u32, u64> = r.await.map_err(|_| "no size")?.into_iter().filter(|x| x.1 > 0).collect();
                let want: BTreeMap<u32, u64> = m.pool.iter().filter(|p| !p.1.is_empty()).map(|(k, v)| (*k, v.len() as u64)).collect();
                ensure_eq!(got, want, "op {i}: sizes");
            }
            ensure!(!run.is_finished(), "op {i}: the pool stopped");
        }
        // what is left comes out in order
        for s in 0..=shards {
            if !waiting.is_empty() {
                break;
            }
            let want = m.pull(s, 100_000);
            let got = w.pull(s, 100_000).await.ok_or("the pool is gone")?;
            if want.len() > 1 {
                o.nt();
            }
            ensure!(got == want, "end: pulled {} from shard {s}, expected {}", show(&got), show(&want));
        }
        run.abort();
        Ok(())
    })
}
fn show(ms: &[MempoolMessage]) -> String {
    let one = |m: &MempoolMessage| match m {
        MempoolMessage::UserMessage(u) => {
            format!("{:?}/{}@{}#{}", u.msg_type(), u.fid(), u.data.as_ref().unwrap().timestamp - t0(), hex::encode(&u.hash[..3]))
        }
        MempoolMessage::OnchainEvent(e) => format!("chain({:?} {})", e.r#type(), e.fid),
        MempoolMessage::OnchainEventForMigration(e) => format!("migrate({})", e.fid),
        MempoolMessage::FnameTransfer(f) => format!("fname({})", f.id),
        MempoolMessage::BlockEvent { for_shard, message } => format!("event({} for {for_shard})", message.seqnum()),
    };
    let v: Vec<_> = ms.iter().take(12).map(one).collect();
    format!("[{}{}]", v.join(", "), if ms.len() > 12 { format!(", and {} more", ms.len() - 12) } else { String::new() })
}

fn kind() -> BoxedStrategy<K> {
    prop_oneof![
        4 => Just(K::Cast),
        1 => Just(K::CastRm),
        1 => Just(K::Link),
        1 => Just(K::Compact),
        1 => Just(K::React),
        1 => Just(K::Bio),
        5 => Just(K::Live),
        3 => Just(K::KeyAdd),
        2 => Just(K::KeyRm),
        2 => (0u8..4).prop_map(|to| K::Lend { to }),
        1 => Just(K::Ver),
        1 => Just(K::VerRm),
        1 => Just(K::Proof),
        2 => prop_oneof![Just(K::Update), Just(K::Member), Just(K::Pin), Just(K::Moderate)],
    ]
    .boxed()
}
fn msg() -> BoxedStrategy<M> {
    (kind(), 0u8..4, 0u8..5, 0u8..3).prop_map(|(k, f, ts, n)| M { k, f, ts, n }).boxed()
}
fn sysop() -> BoxedStrategy<Sys> {
    prop_oneof![
        2 => (0u8..4, 0u8..8).prop_map(|(f, bn)| Sys::Id { f, bn }),
        1 => (0u8..4, 0u8..8, 0u8..2).prop_map(|(f, bn, n)| Sys::Signer { f, bn, n }),
        3 => (0u8..4, 0u8..8, 1u8..4).prop_map(|(f, bn, units)| Sys::Rent { f, bn, units }),
        1 => (0u8..4, 0u8..8).prop_map(|(f, bn)| Sys::Migrate { f, bn }),
        2 => (0u8..3, 0u8..4, 0u8..4, 0u8..8).prop_map(|(n, from, to, ts)| Sys::Fname { n, from, to, ts }),
        5 => (0u8..4, prop_oneof![3 => 1u8..14, 1 => 95u8..105], prop_oneof![4 => Just(0u8), 1 => 0u8..3]).prop_map(|(shard, seq, at)| Sys::Ev { shard, seq, at }),
    ]
    .boxed()
}
fn anyop() -> BoxedStrategy<Any> {
    prop_oneof![3 => msg().prop_map(Any::U), 2 => sysop().prop_map(Any::S)].boxed()
}
fn op() -> BoxedStrategy<Op> {
    prop_oneof![
        20 => (anyop(), 0u8..3).prop_map(|(m, src)| Op::Add { m, src }),
        1 => (0u8..4, 0u8..4, prop_oneof![3 => 1u16..4, 2 => 90u16..130, 1 => 250u16..300]).prop_map(|(k, f, count)| Op::Burst { k, f, count }),
        4 => (0u8..4, prop_oneof![3 => 0u8..5, 1 => Just(200u8)]).prop_map(|(shard, n)| Op::Pull { shard, n }),
        2 => msg().prop_map(|m| Op::Merge { m }),
        1 => (0u8..3, 1u8..12).prop_map(|(shard, to)| Op::MergeEvents { shard, to }),
        3 => (0u8..4, pvec(anyop(), 0..5), prop::bool::ANY).prop_map(|(shard, ms, rent)| Op::Decide { shard, ms, rent }),
        1 => Just(Op::Size),
    ]
    .boxed()
}
fn case(ops: usize) -> BoxedStrategy<Case> {
    (
        prop_oneof![4 => Just(0u8), 1 => Just(1u8), 1 => Just(2u8)],
        prop::bool::weighted(0.3),
        prop::bool::weighted(0.4),
        prop_oneof![5 => Just(0u8), 1 => 1u8..5],
        0u8..3,
        pvec(prop_oneof![2 => Just(0u8), 5 => 1u8..4], 4..=4usize),
        pvec(op(), 1..ops),
    )
        .prop_map(|(net, old, limits, cap, shards, units, ops)| Case { net, old, limits, cap, shards, units, ops })
        .boxed()
}

/// The presence budget is large: 5000 an hour for each unit.
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Budget {
    units: u8,
    extra: u16,
    merge_more: bool,
}
fn check_budget(c: &Budget, o: &mut Obs) -> R {
    let case = Case {
        net: 0,
        old: false,
        limits: true,
        cap: 0,
        shards: 0,
        units: vec![c.units],
        ops: vec![
            Op::Burst { k: 1, f: 0, count: c.units as u16 * 5000 + c.extra },
            Op::Burst { k: 0, f: 0, count: 99 },
            Op::Decide { shard: 1, ms: vec![Any::S(Sys::Rent { f: 0, bn: 1, units: 1 })], rent: c.merge_more },
            Op::Burst { k: 1, f: 0, count: 3 },
        ],
    };
    check(&case, o)
}

// ---------------------------------------------------------------------------------- read nodes
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct ReadCase {
    net: u8,
    shards: u8,
    merged: Vec<M>,
    adds: Vec<(Any, u8)>,
}
fn check_read(c: &ReadCase, o: &mut Obs) -> R {
    let shards = 1 + c.shards as u32 % 3;
    let st = stage(shards);
    let net = network(c.net);
    let v = snapchain::version::version::EngineVersion::current(net);
    let v21 = v.is_enabled(snapchain::version::version::ProtocolFeature::VerificationsOnShardZero);
    let m = Model {
        shards,
        channels: true,
        gasless: true,
        v21,
        everywhere: true,
        limits: false,
        pool: BTreeMap::new(),
        merged: BTreeSet::new(),
        events: BTreeMap::new(),
        units: BTreeMap::new(),
        general: HashMap::new(),
        live: HashMap::new(),
        keys: HashMap::new(),
        gossip: vec![],
    };
    let mut merged = BTreeSet::new();
    for x in &c.merged {
        let u = user(x);
        let shard = m.route(&MempoolMessage::UserMessage(u.clone()))[0];
        if st.merge(shard, &u) {
            merged.insert(u.hash);
        }
    }
    let rt = paused();
    rt.block_on(async {
        let (tx, rx) = mpsc::channel(1000);
        let (gossip_tx, mut gossip) = mpsc::channel(1000);
        let mut node = ReadNodeMempool::new(rx, shards, st.stores.clone(), st.block.clone(), gossip_tx, th::statsd_client(), net);
        tokio::spawn(async move { node.run().await });
        for (i, (a, s)) in c.adds.iter().enumerate() {
            let mm = message(a);
            let src = source(*s);
            let (t, r) = oneshot::channel();
            tx.send(MempoolRequest::AddMessage(mm.clone(), src.clone(), Some(t))).await.unwrap();
            let got = code(r.await.map_err(|_| "no answer")?);
            let dup = matches!(&mm, MempoolMessage::UserMessage(u) if merged.contains(&u.hash));
            if dup {
                o.nt();
                o.label("already merged");
            }
            ensure_eq!(got, if dup { Err(DUP.to_string()) } else { Ok(()) }, "add {i} {}", show(&[mm.clone()]));
            let mut out = vec![];
            while let Ok(GossipEvent::BroadcastMempoolMessage(m)) = gossip.try_recv() {
                out.push(m);
            }
            let forward = !dup && src != MempoolSource::Gossip && matches!(mm, MempoolMessage::UserMessage(_));
            ensure!(out == if forward { vec![mm.clone()] } else { vec![] }, "add {i} {}: forwarded {}", show(&[mm]), show(&out));
            let (t, r) = oneshot::channel();
            tx.send(MempoolRequest::GetSize(t)).await.unwrap();
            ensure!(r.await.map_err(|_| "no size")?.is_empty(), "a read node has no pool");
        }
        Ok(())
    })
}

pub fn c33(p: &mut Prop) {
    p.assume("rates refill by a real clock; a verdict close to a refill is taken from the pool");
    p.sub("history", "more than one message waited in a shard when it was pulled", 24_000, 400_000, || case(40), check);
    p.sub(
        "presence_budget",
        "always: the whole hourly budget is used up",
        8,
        40,
        || (1u8..3, 1u16..40, prop::bool::ANY).prop_map(|(units, extra, merge_more)| Budget { units, extra, merge_more }).boxed(),
        |c, o| {
            o.nt();
            check_budget(c, o)
        },
    );
    p.sub(
        "read_node",
        "one of the messages had been merged already",
        12_000, 60_000,
        || {
            (0u8..3, 0u8..3, pvec(msg(), 0..6), pvec((anyop(), 0u8..3), 1..12), any::<u16>())
                .prop_map(|(net, shards, mut merged, adds, again)| {
                    for (i, (a, _)) in adds.iter().enumerate() {
                        if let (Any::U(m), 1) = (a, again >> i & 1) {
                            merged.push(*m)
                        }
                    }
                    ReadCase { net, shards, merged, adds }
                })
                .boxed()
        },
        check_read,
    );
}
