//! C38: a submitted message reaches the mempool exactly when the next block would take it.
use crate::frame::{Obs, Prop, R};
use crate::gens::*;
use crate::world::{self, Node, B};
use alloy_primitives::Address;
use proptest::prelude::*;
use prost::Message as _;
use serde::{Deserialize, Serialize};
use snapchain::connectors::fname::{FetchError, FnameTransferLookup};
use snapchain::connectors::onchain_events::{ens::EnsError, Chain, ChainAPI, ChainClients};
use snapchain::core::error::HubError;
use snapchain::core::util::FarcasterTime;
use snapchain::core::validations;
use snapchain::mempool::mempool::{MempoolRequest, MempoolSource};
use snapchain::mempool::routing::{self, MessageRouter};
use snapchain::network::server::MyHubService;
use snapchain::proto::{self, bulk_message_response::Response as Bulk, hub_service_server::HubService, message_data::Body, MessageType};
use snapchain::storage::store::account::VerificationStore;
use snapchain::storage::store::block_engine::BlockEngine;
use snapchain::storage::store::block_engine_test_helpers as bh;
use snapchain::storage::store::engine::MessageValidationError;
use snapchain::storage::store::mempool_poller::MempoolMessage;
use snapchain::storage::store::test_helper as th;
use std::collections::{BTreeMap, HashMap};
use std::sync::{Arc, Mutex};
use tonic::{Code, Request};

#[derive(Debug, Clone, Serialize, Deserialize, PartialEq)]
enum K {
    Any { f: u8, k: u8, ts: u8, b: B, bad: u8 },
    /// an ENS or Base proof of name `n` by an owner
    Proof { f: u8, k: u8, n: u8, owner: u8, kind: u8 },
    Name { f: u8, k: u8, n: u8 },
    /// a verification by a contract's signature, on a chain
    Contract { f: u8, a: u8, chain: u8, k: u8 },
    NoFid { f: u8 },
    /// a cast so long that only a subscriber may write it
    Long { f: u8, len: u16 },
}
#[derive(Debug, Clone, Serialize, Deserialize, PartialEq)]
struct Item {
    k: K,
    /// how the data travels: as data, as bytes, as both, as bytes with other data
    form: u8,
    /// how the mempool takes it
    reply: u8,
}
/// What the chains say: which answer, whom each name resolves to, which contracts agree.
#[derive(Debug, Clone, Serialize, Deserialize, PartialEq)]
struct Chains {
    present: u8,
    names: [u8; 4],
    contracts: u8,
}
#[derive(Debug, Clone, Serialize, Deserialize, PartialEq)]
struct Case {
    h: world::History,
    chains: Chains,
    items: Vec<Item>,
    bulk: Vec<usize>,
    full: bool,
}

const ENS: [&str; 4] = ["dave.eth", "erin.eth", "dave.base.eth", "erin"];
fn ens(n: u8) -> &'static str {
    ENS[n as usize % 4]
}
/// custody of a fid set up, an address it may have verified, another's
fn owner(o: u8) -> Vec<u8> {
    world::addr([100, 0, 1, 2][o as usize % 4])
}
fn chain(c: u8) -> (u32, Option<Chain>) {
    [
        (1, Some(Chain::EthMainnet)),
        (10, Some(Chain::OptimismMainnet)),
        (8453, Some(Chain::BaseMainnet)),
        (5, None),
    ]
    .into_iter()
    .nth(c as usize % 4)
    .unwrap()
}
struct Mock {
    id: usize,
    c: Chains,
    asked: Arc<Mutex<Vec<String>>>,
}
#[async_trait::async_trait]
impl ChainAPI for Mock {
    async fn resolve_ens_name(&self, name: String) -> Result<Address, EnsError> {
        self.asked.lock().unwrap().push(format!("{}:{name}", self.id));
        match ENS.iter().position(|n| *n == name) {
            // each chain has its own registry
            Some(i) if self.c.names[i] % 5 != 4 => Ok(Address::from_slice(&owner(self.c.names[i] + self.id as u8))),
            _ => Err(EnsError::ResolverNotFound(name)),
        }
    }
    async fn verify_contract_signature(
        &self,
        claim: validations::verification::VerificationAddressClaim,
        body: &proto::VerificationAddAddressBody,
    ) -> Result<(), validations::error::ValidationError> {
        let _ = claim;
        self.asked.lock().unwrap().push(format!("{}:{}", self.id, hex::encode(&body.address)));
        if self.c.contracts >> self.id & 1 == 1 {
            Ok(())
        } else {
            Err(validations::error::ValidationError::InvalidSignature)
        }
    }
}
impl Chains {
    fn clients(&self, asked: &Arc<Mutex<Vec<String>>>) -> ChainClients {
        let mut m: HashMap<Chain, Box<dyn ChainAPI>> = HashMap::new();
        for i in 0..3 {
            if self.present >> i & 1 == 1 {
                m.insert(chain(i).1.unwrap(), Box::new(Mock { id: i as usize, c: self.clone(), asked: asked.clone() }));
            }
        }
        ChainClients { chain_api_map: m }
    }
    /// Whom a name of this kind resolves to.
    fn resolve(&self, name: &str, kind: i32) -> Option<Vec<u8>> {
        let (id, suffix) = if kind == proto::UserNameType::UsernameTypeEnsL1 as i32 {
            (0, ".eth")
        } else if kind == proto::UserNameType::UsernameTypeBasename as i32 {
            (2, ".base.eth")
        } else {
            return None;
        };
        if !name.ends_with(suffix) || self.present >> id & 1 == 0 {
            return None;
        }
        let i = ENS.iter().position(|n| *n == name)?;
        if self.names[i] % 5 == 4 {
            return None;
        }
        Some(owner(self.names[i] + id as u8))
    }
}

fn make(k: &K, i: usize) -> proto::Message {
    let ts = 150 + (i % 100) as u8;
    match k {
        K::Any { f, k, ts, b, bad } => world::message(*f, *k, *ts, b, *bad),
        K::Proof { f, k, n, owner: o, kind } => {
            let p = proto::UserNameProof {
                timestamp: (world::t0() + ts as u32) as u64,
                name: ens(*n).as_bytes().to_vec(),
                owner: owner(*o),
                signature: fill(65, *n),
                fid: world::fid(*f),
                r#type: [3, 2, 1][*kind as usize % 3],
            };
            // kinds 0 and 1 are what the name says, 2 sometimes is not
            let p = match kind % 4 {
                3 => p,
                _ => proto::UserNameProof {
                    r#type: if ens(*n).ends_with(".base.eth") {
                        proto::UserNameType::UsernameTypeBasename
                    } else {
                        proto::UserNameType::UsernameTypeEnsL1
                    } as i32,
                    ..p
                },
            };
            sign_data(&world::data(*f, ts, MessageType::UsernameProof, Body::UsernameProofBody(p)), &signing_key(*k))
        }
        K::Name { f, k, n } => sign_data(
            &world::data(
                *f,
                ts,
                MessageType::UserDataAdd,
                Body::UserDataBody(proto::UserDataBody {
                    r#type: proto::UserDataType::Username as i32,
                    value: if *n == 7 { "alice".into() } else { ens(*n).into() },
                }),
            ),
            &signing_key(*k),
        ),
        K::Contract { f, a, chain: c, k } => sign_data(
            &world::data(
                *f,
                ts,
                MessageType::VerificationAddEthAddress,
                Body::VerificationAddAddressBody(proto::VerificationAddAddressBody {
                    address: world::addr(*a),
                    claim_signature: fill(65, *a),
                    block_hash: fill(32, 1),
                    verification_type: 1,
                    chain_id: chain(*c).0,
                    protocol: proto::Protocol::Ethereum as i32,
                }),
            ),
            &signing_key(*k),
        ),
        K::Long { f, len } => {
            let mut d = world::cast_data(*f, ts, 0, 0);
            let Some(Body::CastAddBody(b)) = &mut d.body else { unreachable!() };
            b.r#type = proto::CastType::TenKCast as i32;
            b.text = "x".repeat(*len as usize);
            sign_data(&d, &signing_key(0))
        }
        K::NoFid { f } => {
            let mut d = world::cast_data(*f, ts, 0, 0);
            d.fid = 0;
            sign_data(&d, &signing_key(0))
        }
    }
}
/// As it travels.
fn wire(m: &proto::Message, form: u8) -> proto::Message {
    let bytes = Some(m.data.as_ref().unwrap().encode_to_vec());
    let mut other = m.data.clone().unwrap();
    other.fid = 1003;
    match form % 4 {
        1 => proto::Message { data: None, data_bytes: bytes, ..m.clone() },
        2 => proto::Message { data_bytes: bytes, ..m.clone() },
        3 => proto::Message { data: Some(other), data_bytes: bytes, ..m.clone() },
        _ => m.clone(),
    }
}
/// The message as it should be queued: the data is what the bytes say.
fn same(a: &proto::Message, m: &proto::Message) -> bool {
    a.data == m.data && a.hash == m.hash && a.signature == m.signature && a.signer == m.signer && a.hash_scheme == m.hash_scheme && a.signature_scheme == m.signature_scheme
}

fn chains() -> BoxedStrategy<Chains> {
    (
        prop_oneof![4 => Just(7u8), 1 => 0u8..8],
        [0u8..5, 0u8..5, 0u8..5, 0u8..5],
        0u8..8,
    )
        .prop_map(|(present, names, contracts)| Chains { present, names, contracts })
        .boxed()
}
fn history() -> BoxedStrategy<world::History> {
    (
        prop_oneof![6 => Just(15u8), 2 => 0u8..16],
        world::history(world::Mix { per_block: (1, 4), blocks: (0, 4), compact: 1, chain: 2, names: 6, vers: 6, msgs: 8, bad: false, fids: 4, old: false }),
        pvec((0u8..4, 0u8..4, 0u8..3), 0..5),
    )
        .prop_map(|(setup, mut h, own)| {
            h.setup = setup;
            let mut first: Vec<world::Op> = own.iter().map(|(f, a, _)| world::Op::Ver { f: *f, a: *a % 3, ts: 5, rm: false }).collect();
            for (f, _, x) in own.iter().filter(|o| o.2 < 2 && o.0 < 3) {
                first.push(world::Op::Ver { f: *f, a: *f, ts: 5, rm: false });
                first.push(world::Op::M { f: *f, k: 0, ts: 6 + x, b: B::Ens { n: f % 2 }, bad: 0 });
            }
            h.blocks.insert(0, first);
            h
        })
        .boxed()
}
fn item(fids: u8) -> BoxedStrategy<Item> {
    let k = prop_oneof![
        8 => (0..fids, prop_oneof![5 => 0u8..2, 1 => 0u8..4], 140u8..200, world::body(world::FULL), prop_oneof![9 => Just(0u8), 1 => Just(1u8)])
            .prop_map(|(f, k, ts, b, bad)| K::Any { f, k, ts, b, bad }),
        6 => (0..fids, prop_oneof![5 => Just(0u8), 1 => 0u8..4], prop_oneof![6 => 0u8..3, 1 => Just(3u8)], prop_oneof![3 => Just(0u8), 3 => 0u8..4], 0u8..8)
            .prop_map(|(f, k, n, owner, kind)| K::Proof { f, k, n, owner, kind: if kind == 3 { 3 } else { 0 } }),
        5 => (0..fids, Just(0u8), prop_oneof![6 => 0u8..3, 1 => Just(7u8)]).prop_map(|(f, k, n)| K::Name { f, k, n: if n == 2 { f % 2 } else { n } }),
        4 => (0..fids, 0u8..3, prop_oneof![6 => 0u8..3, 1 => Just(3u8)], prop_oneof![6 => Just(0u8), 1 => Just(3u8)])
            .prop_map(|(f, a, chain, k)| K::Contract { f, a, chain, k }),
        1 => (0..fids).prop_map(|f| K::NoFid { f }),
        2 => (0..fids, prop_oneof![5 => 1025u16..3000, 1 => 0u16..12000]).prop_map(|(f, len)| K::Long { f, len }),
    ];
    (k, 0u8..4, prop_oneof![6 => Just(0u8), 4 => 1u8..9])
        .prop_map(|(k, form, reply)| Item { k, form, reply })
        .boxed()
}
fn gen() -> BoxedStrategy<Case> {
    (history(), chains(), pvec(item(4), 2..8), pvec(0usize..20, 0..8), prop_oneof![9 => Just(false), 1 => Just(true)])
        .prop_map(|(h, mut chains, items, bulk, full)| {
            // names mostly resolve to the owner their proof claims
            for x in h.blocks.iter().flatten() {
                if let world::Op::M { f, b: B::Ens { n }, .. } = x {
                    chains.names[*n as usize % 2] = (f + 1) % 4;
                }
            }
            let held: Vec<u8> = h
                .blocks
                .iter()
                .flatten()
                .filter_map(|x| match x {
                    world::Op::M { b: B::Ens { n }, .. } => Some(n % 2),
                    _ => None,
                })
                .collect();
            for i in &items {
                if let K::Proof { n, owner, f, .. } = &i.k {
                    if f % 3 != 0 && !held.contains(n) {
                        let id = if ens(*n).ends_with(".base.eth") { 2 } else { 0 };
                        chains.names[*n as usize % 4] = (owner + 4 - id) % 4;
                    }
                }
            }
            Case { h, chains, items, bulk, full }
        })
        .boxed()
}

/// The mempool's answers, and what they become to the client.
fn reply(r: u8) -> Option<Result<(), HubError>> {
    Some(match r {
        0 => Ok(()),
        1 => Err(HubError::duplicate("again")),
        2 => Err(HubError::rate_limited("slow down")),
        3 => Err(HubError::not_found("x")),
        4 => Err(HubError::internal_db_error("y")),
        5 => Err(HubError::invalid_internal_state("z")),
        6 => Err(HubError::unavailable("w")),
        7 => Err(HubError { code: "weird".into(), message: "v".into() }),
        _ => return None, // no answer at all
    })
}
fn code(e: &str) -> Code {
    if e.starts_with("bad_request") {
        Code::InvalidArgument
    } else if e == "not_found" {
        Code::NotFound
    } else if e.starts_with("db") || e.starts_with("internal") {
        Code::Internal
    } else if e.starts_with("unavailable") {
        Code::Unavailable
    } else {
        Code::Unknown
    }
}

struct World {
    nodes: Vec<Node>,
    zero: BlockEngine,
    _dir: tempfile::TempDir,
}
fn router(n: usize) -> Box<dyn MessageRouter> {
    if n == 1 {
        Box::new(routing::ShardRouter {})
    } else {
        Box::new(routing::EvenOddRouterForTest {})
    }
}
impl World {
    fn new(rt: &tokio::runtime::Runtime, h: &world::History, shards: usize) -> World {
        let mut nodes: Vec<Node> = (1..=shards).map(|i| Node::for_shard(rt, i as u32)).collect();
        let (mut zero, dir) = bh::setup();
        let r = router(shards);
        let setup = world::setup_ops(h.setup);
        for n in &mut nodes {
            let own: Vec<MempoolMessage> = world::mempool(&setup, 0).into_iter().filter(|m| r.route_fid(m.fid(), shards as u32) == n.shard).collect();
            // fids with an even index are subscribers
            let own = own.into_iter().chain((0..4).filter(|f| h.setup >> f & 1 == 1 && f % 2 == 0).filter(|f| r.route_fid(world::fid(*f), shards as u32) == n.shard).map(|f| {
                let mut e = world::chain_event(
                    world::fid(f),
                    proto::OnChainEventType::EventTypeTierPurchase,
                    5,
                    proto::on_chain_event::Body::TierPurchaseEventBody(proto::TierPurchaseBody {
                        tier_type: proto::TierType::Pro as i32,
                        for_days: 300,
                        payer: world::addr(0),
                    }),
                );
                e.chain_id = 8453;
                MempoolMessage::OnchainEvent(e)
            }));
            n.block(rt, own.collect(), world::block_ts(0));
        }
        let height = zero.get_confirmed_height().increment();
        let c = zero.propose_state_change(world::mempool(&setup, 0), height, Some(FarcasterTime::new(world::block_ts(0) as u64)));
        bh::validate_and_commit_state_change(&mut zero, &c);
        for (i, b) in h.blocks.iter().enumerate() {
            for n in &mut nodes {
                let seq = n.last_seq();
                let own: Vec<MempoolMessage> = world::mempool(b, seq)
                    .into_iter()
                    .filter(|m| match m {
                        MempoolMessage::BlockEvent { .. } => true,
                        MempoolMessage::FnameTransfer(_) => true,
                        m => r.route_fid(m.fid(), shards as u32) == n.shard,
                    })
                    .map(|m| match m {
                        MempoolMessage::BlockEvent { message, .. } => MempoolMessage::BlockEvent { for_shard: n.shard, message },
                        m => m,
                    })
                    .collect();
                n.block(rt, own, world::block_ts(i + 1));
            }
        }
        World { nodes, zero, _dir: dir }
    }
    fn service(
        &self,
        chains: ChainClients,
        mtx: tokio::sync::mpsc::Sender<MempoolRequest>,
        lookup: Option<Arc<dyn FnameTransferLookup>>,
    ) -> MyHubService {
        let mut stores = HashMap::new();
        let mut senders = HashMap::new();
        for n in &self.nodes {
            let mut s = n.e.get_stores();
            s.trie.reload(&n.db).unwrap();
            stores.insert(n.shard, s);
            senders.insert(n.shard, n.e.get_senders());
        }
        let (gtx, _g) = tokio::sync::mpsc::channel(10);
        let mut blocks = self.zero.stores();
        blocks.trie.reload(&blocks.db).unwrap();
        MyHubService::new(
            String::new(),
            String::new(),
            vec![],
            blocks,
            stores,
            senders,
            th::statsd_client(),
            self.nodes.len() as u32,
            proto::FarcasterNetwork::Devnet,
            router(self.nodes.len()),
            mtx,
            gtx,
            chains,
            "v".into(),
            "p".into(),
            lookup,
            Default::default(),
        )
    }
    fn home(&self, fid: u64) -> usize {
        router(self.nodes.len()).route_fid(fid, self.nodes.len() as u32) as usize - 1
    }
    /// What the next block would make of these messages of one fid.
    fn merges(&mut self, ms: &[proto::Message]) -> Merge {
        let now = FarcasterTime::current();
        let queue: Vec<MempoolMessage> = ms.iter().cloned().map(MempoolMessage::UserMessage).collect();
        let shard = routing::route_message(
            &router(self.nodes.len()),
            &ms[0],
            self.nodes.len() as u32,
            snapchain::version::version::EngineVersion::current(proto::FarcasterNetwork::Devnet),
        );
        if shard == 0 {
            return Merge::Zero;
        }
        let n = &mut self.nodes[shard as usize - 1];
        n.start_round();
        let c = n.propose(queue, now.to_u64() as u32);
        n.start_round();
        let failures: Vec<String> = c
            .events
            .iter()
            .filter_map(|e| match &e.body {
                Some(proto::hub_event::Body::MergeFailure(f)) => Some(f.reason.clone()),
                _ => None,
            })
            .collect();
        if c.transactions.is_empty() {
            return Merge::NoStorage;
        }
        if let Some(f) = failures.first() {
            return Merge::No(f.clone());
        }
        Merge::Yes
    }
    /// Does the name's proof hold on its chain, for this fid?
    fn proof_holds(&self, c: &Chains, fid: u64, p: &proto::UserNameProof) -> bool {
        let Ok(name) = std::str::from_utf8(&p.name) else { return false };
        let Some(a) = c.resolve(name, p.r#type) else { return false };
        if a != p.owner {
            return false;
        }
        let s = self.nodes[self.home(fid)].e.get_stores();
        let Some(id) = s.onchain_event_store.get_id_register_event_by_fid(fid, None).unwrap() else { return false };
        let Some(proto::on_chain_event::Body::IdRegisterEventBody(id)) = id.body else { return false };
        id.to == a || VerificationStore::get_verification_add(&s.verification_store, fid, &a, None).unwrap().is_some()
    }
    /// What the chains say of a message the block would take.
    fn chains_agree(&self, c: &Chains, m: &proto::Message) -> bool {
        let d = m.data.as_ref().unwrap();
        match d.body.as_ref().unwrap() {
            Body::UsernameProofBody(p) => self.proof_holds(c, d.fid, p),
            Body::UserDataBody(u) if u.r#type() == proto::UserDataType::Username && u.value.ends_with(".eth") => {
                let s = self.nodes[self.home(d.fid)].e.get_stores();
                let found = snapchain::storage::store::account::UsernameProofStore::get_username_proof(
                    &s.username_proof_store,
                    &u.value.as_bytes().to_vec(),
                    &mut snapchain::storage::db::RocksDbTransactionBatch::new(),
                );
                match found.ok().flatten().and_then(|m| m.data).and_then(|d| d.body) {
                    Some(Body::UsernameProofBody(p)) => self.proof_holds(c, d.fid, &p),
                    _ => false,
                }
            }
            Body::VerificationAddAddressBody(v) if v.verification_type == 1 => {
                match [1u32, 10, 8453].iter().position(|x| *x == v.chain_id) {
                    Some(i) => c.present >> i & 1 == 1 && c.contracts >> i & 1 == 1,
                    None => false,
                }
            }
            _ => true,
        }
    }
}
#[derive(Debug, PartialEq)]
enum Merge {
    Yes,
    No(String),
    NoStorage,
    /// shard 0's to say
    Zero,
}

type Queue = Arc<Mutex<Vec<(MempoolMessage, MempoolSource)>>>;
/// The mempool: answers by hash as the case says.
fn pool(rt: &tokio::runtime::Runtime, answers: HashMap<Vec<u8>, u8>) -> (tokio::sync::mpsc::Sender<MempoolRequest>, Queue) {
    let (mtx, mut mrx) = tokio::sync::mpsc::channel(50);
    let q: Queue = Default::default();
    let seen = q.clone();
    rt.spawn(async move {
        let mut kept = vec![];
        while let Some(r) = mrx.recv().await {
            let MempoolRequest::AddMessage(m, source, tx) = r else { continue };
            let a = match &m {
                MempoolMessage::UserMessage(m) => answers.get(&m.hash).copied().unwrap_or(0),
                _ => 0,
            };
            seen.lock().unwrap().push((m, source));
            match reply(a) {
                Some(r) => drop(tx.unwrap().send(r)),
                None if a % 2 == 0 => kept.push(tx),
                None => {}
            }
        }
    });
    (mtx, q)
}
fn paused() -> tokio::runtime::Runtime {
    tokio::runtime::Builder::new_current_thread().enable_all().start_paused(true).build().unwrap()
}
fn queued(q: &Queue) -> Vec<(MempoolMessage, MempoolSource)> {
    std::mem::take(&mut q.lock().unwrap())
}
fn x_err(e: &tonic::Status) -> String {
    e.metadata().get("x-err-code").map(|v| v.to_str().unwrap_or("?").to_string()).unwrap_or_default()
}

fn one(c: &Case, o: &mut Obs) -> R {
    let rt = paused();
    let mut w = World::new(&world::rt(), &c.h, 1);
    let asked: Arc<Mutex<Vec<String>>> = Default::default();
    let ms: Vec<proto::Message> = c.items.iter().enumerate().map(|(i, it)| make(&it.k, i)).collect();
    // the same message twice is answered the same
    let mut answers = HashMap::new();
    for (m, it) in ms.iter().zip(&c.items) {
        answers.entry(m.hash.clone()).or_insert(it.reply);
    }
    let (mtx, q) = pool(&rt, answers.clone());
    let (full_tx, mut full_rx) = tokio::sync::mpsc::channel(1);
    full_tx.try_send(MempoolRequest::GetSize(tokio::sync::oneshot::channel().0)).unwrap();
    let svc = w.service(c.chains.clients(&asked), if c.full { full_tx.clone() } else { mtx }, None);
    let mut seen = [false; 2];
    for (i, (it, m)) in c.items.iter().zip(&ms).enumerate() {
        let sent = wire(m, it.form);
        let what = format!("item {i} {it:?}");
        let r = rt.block_on(svc.submit_message(Request::new(sent.clone())));
        let got = queued(&q);
        asked.lock().unwrap().clear();
        let fid = m.data.as_ref().unwrap().fid;
        let verdict = if fid == 0 { Merge::No("fid cannot be 0".into()) } else { w.merges(&[m.clone()]) };
        let block_takes = match verdict {
            Merge::Yes => true,
            Merge::No(_) => false,
            Merge::NoStorage => {
                o.label("no-storage");
                // left out of blocks for now; whether it is queued meanwhile is the mempool's affair
                continue;
            }
            Merge::Zero => match &it.k {
                K::Contract { f, k, chain: ch, .. } => *k == 0 && c.h.setup >> f & 1 == 1 && ch % 4 != 2, // the claim may not name Base
                _ => unreachable!(),
            },
        };
        let agree = block_takes && w.chains_agree(&c.chains, m);
        seen[agree as usize] = true;
        if !agree {
            o.label(if block_takes { "chains-disagree" } else { "would-not-merge" });
            ensure!(got.is_empty(), "{what}: queued though {verdict:?}, chains agree: {agree}");
            let Err(e) = r else { return Err(format!("{what}: accepted though {verdict:?}, chains agree: {agree}")) };
            let named = x_err(&e).starts_with("bad_request") || x_err(&e) == "not_found";
            ensure!(named || block_takes, "{what}: refused as {} ({})", x_err(&e), e.message());
            ensure_eq!(e.code(), code(&x_err(&e)), "{what}: {}", x_err(&e));
            if let Merge::No(why) = &verdict {
                ensure!(e.message().contains(why.as_str()), "{what}: refused with {:?}, the block with {why:?}", e.message());
            }
            continue;
        }
        o.label(match &it.k {
            K::Proof { .. } => "queued-proof",
            K::Name { n: 7, .. } => "queued-fname",
            K::Name { .. } => "queued-ens-name",
            K::Contract { .. } => "queued-contract",
            K::Long { .. } => "queued-long",
            _ => "queued",
        });
        if c.full {
            let Err(e) = r else { return Err(format!("{what}: accepted by a full mempool")) };
            ensure!(e.code() == Code::Unavailable && x_err(&e) == "unavailable", "{what}: full mempool answered {e:?}");
            ensure!(matches!(full_rx.try_recv(), Ok(MempoolRequest::GetSize(_))) && full_rx.try_recv().is_err(), "{what}: queued past the bound");
            full_tx.try_send(MempoolRequest::GetSize(tokio::sync::oneshot::channel().0)).unwrap();
            o.label("full");
            continue;
        }
        ensure_eq!(got.len(), 1, "{what}: times queued (answer {r:?})");
        ensure!(matches!(&got[0], (MempoolMessage::UserMessage(x), MempoolSource::RPC) if same(x, m)), "{what}: queued {:?}", got[0]);
        match (reply(answers[&m.hash]), r) {
            (Some(Ok(())), Ok(r)) => {
                ensure!(same(&r.into_inner(), m), "{what}: another message in the answer");
                o.label("accepted");
            }
            (Some(Err(h)), Err(e)) => {
                ensure_eq!(e.code(), code(&h.code), "{what}");
                ensure_eq!(x_err(&e), h.code, "{what}");
                ensure!(e.message().contains(&h.message), "{what}: {:?} lost from {:?}", h.message, e.message());
                o.label("mempool-refuses");
            }
            (None, Err(e)) => {
                ensure!(e.code() == Code::Unavailable && x_err(&e) == "unavailable", "{what}: a silent mempool answered {e:?}");
                o.label("mempool-silent");
            }
            (a, r) => return Err(format!("{what}: the mempool says {a:?}, the client hears {r:?}")),
        }
    }
    if seen[0] && seen[1] {
        o.nt();
    }
    Ok(())
}

/// The same messages in one request: a fid's messages to a shard stand or fall together.
fn bulk(c: &Case, o: &mut Obs) -> R {
    let rt = paused();
    let mut w = World::new(&world::rt(), &c.h, 2);
    let asked: Arc<Mutex<Vec<String>>> = Default::default();
    let all: Vec<proto::Message> = c.items.iter().enumerate().map(|(i, it)| make(&it.k, i)).collect();
    // the order of the request, each message once
    let mut order: Vec<usize> = vec![];
    for i in c.bulk.iter().map(|i| i % all.len()).chain(0..all.len()) {
        if !order.iter().any(|j| all[*j].hash == all[i].hash) {
            order.push(i);
        }
    }
    let answers: HashMap<Vec<u8>, u8> = order.iter().map(|i| (all[*i].hash.clone(), c.items[*i].reply)).collect();
    let (mtx, q) = pool(&rt, answers.clone());
    let svc = w.service(c.chains.clients(&asked), mtx, None);
    let sent: Vec<proto::Message> = order.iter().map(|i| wire(&all[*i], c.items[*i].form)).collect();
    let r = rt.block_on(svc.submit_bulk_messages(Request::new(proto::SubmitBulkMessagesRequest { messages: sent })));
    let r = r.map_err(|e| format!("the whole request is refused: {e:?}"))?.into_inner().messages;
    ensure_eq!(r.len(), order.len(), "answers");
    let mut answer: BTreeMap<Vec<u8>, Result<proto::Message, proto::MessageError>> = BTreeMap::new();
    for x in r {
        let (h, a) = match x.response {
            Some(Bulk::Message(m)) => (m.hash.clone(), Ok(m)),
            Some(Bulk::MessageError(e)) => (e.hash.clone(), Err(e)),
            None => return Err("an answer without a response".into()),
        };
        ensure!(answer.insert(h.clone(), a).is_none(), "two answers for {}", hex::encode(h));
    }
    // group by destination and fid, in the request's order
    let mut groups: BTreeMap<(bool, u64), Vec<usize>> = BTreeMap::new();
    for i in &order {
        let zero = matches!(c.items[*i].k, K::Contract { .. });
        groups.entry((zero, all[*i].data.as_ref().unwrap().fid)).or_default().push(*i);
    }
    let got = queued(&q);
    let mut kinds = [0usize; 2];
    let mut queued_want: BTreeMap<u64, Vec<Vec<u8>>> = BTreeMap::new();
    for ((zero, fid), items) in &groups {
        let ms: Vec<proto::Message> = items.iter().map(|i| all[*i].clone()).collect();
        let verdict = if *zero { Merge::No("not here".into()) } else { w.merges(&ms) };
        if verdict == Merge::NoStorage || (*fid == 0 && !zero) {
            o.label("no-storage");
            continue;
        }
        // two fids claiming one name: which of them gets it is not laid down
        let claims = |g: &[usize]| -> Vec<Vec<u8>> {
            g.iter()
                .filter_map(|i| match all[*i].data.as_ref().unwrap().body.as_ref().unwrap() {
                    Body::UsernameProofBody(p) => Some(p.name.clone()),
                    Body::UserDataBody(u) => Some(u.value.as_bytes().to_vec()),
                    _ => None,
                })
                .collect()
        };
        let own = claims(items);
        if groups.iter().any(|(k, g)| k.1 != *fid && claims(g).iter().any(|n| own.contains(n))) {
            o.label("contested-name");
            continue;
        }
        let ok = verdict == Merge::Yes;
        kinds[ok as usize] += items.len();
        for i in items {
            let m = &all[*i];
            let what = format!("{:?} of {order:?} ({verdict:?})", c.items[*i]);
            let Some(a) = answer.get(&m.hash) else { return Err(format!("{what}: no answer")) };
            let agree = ok && w.chains_agree(&c.chains, m);
            if agree {
                queued_want.entry(*fid).or_default().push(m.hash.clone());
            }
            match (agree, reply(answers[&m.hash]), a) {
                (false, _, Err(e)) => {
                    let named = e.err_code.starts_with("bad_request") || e.err_code == "not_found";
                    ensure!(named || ok, "{what}: refused as {}", e.err_code);
                    o.label(if *zero { "shard-0" } else if ok { "chains-disagree" } else { "would-not-merge" });
                }
                (true, Some(Ok(())), Ok(x)) => {
                    ensure!(same(x, m), "{what}: another message in the answer");
                    o.label("accepted");
                }
                (true, Some(Err(h)), Err(e)) => {
                    ensure_eq!((&e.err_code, &e.message), (&h.code, &h.message), "{what}");
                    o.label("mempool-refuses");
                }
                (true, None, Err(e)) => {
                    ensure_eq!(e.err_code, "unavailable", "{what}");
                    o.label("mempool-silent");
                }
                x => return Err(format!("{what}: {x:?}")),
            }
        }
        if items.len() > 1 && !*zero {
            o.label(if ok { "group-stands" } else { "group-falls" });
        }
        let mine: Vec<Vec<u8>> = got
            .iter()
            .filter_map(|(m, s)| match m {
                MempoolMessage::UserMessage(x) if items.iter().any(|i| all[*i].hash == x.hash) && *s == MempoolSource::RPC => Some(x.hash.clone()),
                _ => None,
            })
            .collect();
        let want: Vec<Vec<u8>> = items
            .iter()
            .filter(|i| ok && w.chains_agree(&c.chains, &all[**i]))
            .map(|i| all[*i].hash.clone())
            .collect();
        ensure!(mine == want, "fid {fid} ({verdict:?}): {} queued of {} wanted, or in another order", mine.len(), want.len());
        for x in &got {
            if let MempoolMessage::UserMessage(x) = &x.0 {
                ensure!(all.iter().any(|m| same(x, m)), "queued another message");
            }
        }
    }
    if kinds[0] > 0 && kinds[1] > 0 {
        o.nt();
    }
    Ok(())
}

// ---- a username the node has not heard of yet ----
#[derive(Debug, Clone, Serialize, Deserialize, PartialEq)]
struct Late {
    setup: u8,
    f: u8,
    k: u8,
    name: u8,
    /// what the registry lists: the name moves to a fid
    transfers: Vec<(u8, u8, u8)>,
    /// 0 answers, 1 fails, 2 hangs, 3 there is no registry
    registry: u8,
    /// does the chain take the transfers?
    lands: bool,
    /// how the mempool takes them
    reply: u8,
}
struct Registry {
    answer: Vec<proto::FnameTransfer>,
    how: u8,
    asked: Mutex<Vec<String>>,
}
#[async_trait::async_trait]
impl FnameTransferLookup for Registry {
    async fn lookup_fname(&self, fname: &str) -> Result<Vec<proto::FnameTransfer>, FetchError> {
        self.asked.lock().unwrap().push(fname.into());
        match self.how {
            0 => Ok(self.answer.clone()),
            1 => Err(FetchError::InvalidFormat),
            _ => std::future::pending().await,
        }
    }
}
fn late_gen(lands: bool) -> BoxedStrategy<Late> {
    (
        prop_oneof![5 => Just(15u8), 1 => 0u8..16],
        0u8..3,
        prop_oneof![5 => Just(0u8), 1 => 0u8..4],
        0u8..5,
        pvec((0u8..3, 0u8..4, 0u8..20), 0..4),
        if lands { prop_oneof![6 => Just(0u8), 3 => 1u8..4].boxed() } else { Just(0u8).boxed() },
        prop_oneof![3 => Just(0u8), 1 => 1u8..9],
    )
        .prop_map(move |(setup, f, k, name, mut transfers, registry, reply)| {
            if !lands {
                transfers.push((name % 3, f, 3));
            } else if let Some(t) = transfers.first_mut() {
                if t.2 % 2 == 0 {
                    (t.0, t.1) = (name % 3, f);
                }
            }
            // a fid's transfers of other names only: the wait is for nothing, and long
            if lands && !transfers.iter().any(|t| t.1 == f && t.0 == name % 3) {
                if let Some(t) = transfers.iter_mut().find(|t| t.1 == f) {
                    t.0 = name % 3;
                }
            }
            Late { setup, f, k, name, transfers, registry, lands, reply }
        })
        .boxed()
}
fn late(c: &Late, o: &mut Obs) -> R {
    let rt = paused();
    let plain = world::rt();
    let mut w = World::new(&plain, &world::History { setup: c.setup, blocks: vec![] }, 1);
    let value = [world::NAMES[0], world::NAMES[1], world::NAMES[2], "", "dave.eth"][c.name as usize % 5];
    let fid = world::fid(c.f);
    let m = sign_data(
        &world::data(
            c.f,
            150,
            MessageType::UserDataAdd,
            Body::UserDataBody(proto::UserDataBody { r#type: proto::UserDataType::Username as i32, value: value.into() }),
        ),
        &signing_key(c.k),
    );
    let transfers: Vec<proto::FnameTransfer> = c.transfers.iter().map(|(n, to, ts)| world::fname_transfer(*n, 4, *to, *ts)).collect();
    let mine: Vec<MempoolMessage> =
        transfers.iter().filter(|t| t.proof.as_ref().unwrap().fid == fid).cloned().map(MempoolMessage::FnameTransfer).collect();
    let registry = Arc::new(Registry { answer: transfers, how: c.registry, asked: Mutex::new(vec![]) });
    let before = w.merges(&[m.clone()]);
    if before == Merge::NoStorage {
        return Ok(());
    }
    let missing = MessageValidationError::MissingFname.to_string();
    let lost = matches!(&before, Merge::No(e) if e.contains(&missing));
    let (mtx, mut mrx) = tokio::sync::mpsc::channel::<MempoolRequest>(50);
    let lookup: Option<Arc<dyn FnameTransferLookup>> = if c.registry == 3 { None } else { Some(registry.clone()) };
    let svc = w.service(Chains { present: 0, names: [4; 4], contracts: 0 }.clients(&Default::default()), mtx, lookup);
    let mut seen = vec![];
    let node = &mut w.nodes[0];
    let (seen_ref, lands, rep) = (&mut seen, c.lands, c.reply);
    let take = async {
        let mut kept = vec![];
        while let Some(r) = mrx.recv().await {
            let MempoolRequest::AddMessage(x, source, tx) = r else { continue };
            seen_ref.push((x.clone(), source));
            let tx = tx.unwrap();
            if let MempoolMessage::FnameTransfer(_) = x {
                match reply(rep) {
                    Some(r) => drop(tx.send(r)),
                    None => kept.push(tx),
                }
                if lands {
                    let ts = world::block_ts(node.height() as usize + 1);
                    node.start_round();
                    let ch = node.propose(vec![x], ts);
                    let ch = node.chunk(&ch);
                    node.e.commit_shard_chunk(&ch).await;
                }
            } else {
                let _ = tx.send(Ok(()));
            }
        }
    };
    let t0 = std::time::Instant::now();
    let r = rt.block_on(async {
        tokio::select! {
            r = svc.submit_message(Request::new(m.clone())) => r,
            _ = take => unreachable!(),
        }
    });
    let took = t0.elapsed();
    let asked = registry.asked.lock().unwrap().clone();
    let recovers = lost && !value.is_empty() && !value.ends_with(".eth") && c.registry != 3;
    ensure_eq!(asked, if recovers { vec![value.to_string()] } else { vec![] }, "the registry was asked ({before:?})");
    let forwarded: Vec<MempoolMessage> =
        seen.iter().filter(|x| matches!(x.0, MempoolMessage::FnameTransfer(_))).map(|x| x.0.clone()).collect();
    let want = if recovers && c.registry == 0 { mine } else { vec![] };
    ensure!(forwarded == want, "transfers passed on: {} of {} (of the fid's)", forwarded.len(), want.len());
    ensure!(seen.iter().all(|x| x.1 == MempoolSource::RPC), "from elsewhere");
    let users: Vec<&MempoolMessage> = seen.iter().map(|x| &x.0).filter(|x| matches!(x, MempoolMessage::UserMessage(_))).collect();
    // with the transfers that landed, the block takes it or not
    let after = w.merges(&[m.clone()]);
    let ok = after == Merge::Yes && (value.is_empty() || !value.ends_with(".eth"));
    // no answer from the registry and nothing passed on: nothing has changed
    ensure_eq!(r.is_ok(), ok, "{before:?}, then {after:?}: {r:?}");
    ensure_eq!(users.len(), ok as usize, "the message queued, {before:?} then {after:?}");
    if let Err(e) = &r {
        if lost && matches!(&after, Merge::No(e) if e.contains(&missing)) {
            ensure!(e.message().contains(&missing), "the client hears {:?}, not that the name is missing", e.message());
            ensure_eq!((e.code(), x_err(e)), (Code::InvalidArgument, "bad_request.validation_failure".to_string()), "still missing");
        }
    }
    if recovers {
        o.nt();
        o.label(if ok { "recovered" } else if want.is_empty() { "nothing-to-pass-on" } else { "still-missing" });
    }
    if !c.lands {
        ensure!(took < std::time::Duration::from_secs(60), "gave up only after {took:?}");
        o.label("does-not-land");
    }
    o.label_if(!lost, "not-missing");
    Ok(())
}

// ---- validate without submitting ----
fn validate(c: &Case, o: &mut Obs) -> R {
    let rt = world::rt();
    let w = World::new(&rt, &c.h, 2);
    let (mtx, q) = pool(&rt, HashMap::new());
    let svc = w.service(c.chains.clients(&Default::default()), mtx, None);
    for (i, it) in c.items.iter().enumerate() {
        let m = make(&it.k, i);
        let sent = wire(&m, it.form);
        let now = FarcasterTime::current();
        let fid = m.data.as_ref().unwrap().fid;
        let pro = w.nodes[w.home(fid)].e.get_stores().is_pro_user(fid, &now).unwrap();
        let want = validations::message::validate_message(
            &m,
            proto::FarcasterNetwork::Devnet,
            pro,
            &now,
            snapchain::version::version::EngineVersion::current(proto::FarcasterNetwork::Devnet),
        )
        .is_ok();
        let r = rt.block_on(svc.validate_message(Request::new(sent.clone())));
        let r = r.map_err(|e| format!("{it:?}: {e:?}"))?.into_inner();
        ensure_eq!(r.valid, want, "{it:?}: valid");
        ensure!(r.message.is_some_and(|x| x.hash == m.hash), "{it:?}: of another message");
        o.label(if want { "valid" } else { "invalid" });
        if it.form % 4 == 1 && want {
            o.label_if(matches!(it.k, K::Long { .. }), "long-as-bytes");
            o.nt();
        }
    }
    ensure!(queued(&q).is_empty(), "validating queued something");
    Ok(())
}

pub fn c38(p: &mut Prop) {
    p.assume("the chains and the fname registry are stand-ins that answer as the case says; the mempool is a stand-in too (C33 covers the real one)");
    p.assume("whether the next block takes a message is what the real proposer says of it at the same moment (C18 covers the proposer)");
    p.sub("one", "one submitted message is queued and another refused", 1500, 25000, gen, one);
    p.sub("bulk", "a request holds both messages that stand and messages that fall", 1200, 20000, gen, bulk);
    p.sub("late-name", "the username is not known yet and the registry is there to ask", 1500, 25000, || late_gen(true), late);
    p.sub("never-lands", "the username is not known and its transfer does not land", 24, 200, || late_gen(false), late);
    p.sub("validate", "a valid message arrives as bytes only", 800, 12000, gen, validate);
}
