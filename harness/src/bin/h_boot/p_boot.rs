//! C42: a node filled by replication holds what its peers held at the snapshot, or holds nothing.
use crate::frame::{Obs, Prop, R};
use crate::gens::*;
use crate::peers::*;
use crate::world::*;
use proptest::collection::vec as pvec;
use proptest::prelude::*;
use prost::Message as _;
use serde::{Deserialize, Serialize};
use snapchain::bootstrap::replication::service::{ReplicatorBootstrap, ReplicatorBootstrapConfig, WorkUnitResponse};
use snapchain::network::replication::replication_stores::ReplicationStores;
use snapchain::network::replication::replicator::{Replicator, ReplicatorSnapshotOptions};
use snapchain::proto::{self, ShardChunk};
use snapchain::storage::constants::RootPrefix;
use snapchain::storage::db::{PageOptions, RocksDB};
use snapchain::storage::store::block_engine::BlockEngine;
use snapchain::storage::store::engine::PostCommitMessage;
use snapchain::storage::store::mempool_poller::MempoolMessage;
use snapchain::storage::store::test_helper as th;
use snapchain::storage::trie::merkle_trie::{Context, MerkleTrie, TrieKey};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::sync::{Arc, Mutex};
use std::time::Duration;

type Dump = BTreeMap<Vec<u8>, Vec<u8>>;

/// Gives chain events rising positions, so that the events in force are those of the chain order; `step` 1 puts two
/// into a block of the chain, 2 one.
fn in_order(blocks: &mut [Vec<Op>], step: u8) {
    let mut n = 4u8;
    for op in blocks.iter_mut().flatten() {
        if let Op::Id { bn, .. } | Op::Signer { bn, .. } | Op::Rent { bn, .. } = op {
            *bn = n;
            n = n.saturating_add(step);
        }
    }
}
pub struct Source {
    pub nodes: Vec<Node>,
    pub replicator: Arc<Replicator>,
    pub zero: BlockEngine,
    pub at: Vec<At>,
    pub later: Vec<Vec<ShardChunk>>,
    _dir: tempfile::TempDir,
}
/// One shard at the snapshot.
#[derive(Clone)]
pub struct At {
    pub shard: u32,
    pub height: u64,
    pub root: Vec<u8>,
    pub keys: BTreeSet<Vec<u8>>,
    pub dump: Dump,
    pub chunk: ShardChunk,
    pub seq: u64,
}
fn keys(n: &Node) -> BTreeSet<Vec<u8>> {
    // one call gives some thousand at most
    fn under(t: &mut MerkleTrie, db: &RocksDB, p: &mut Vec<u8>, out: &mut BTreeSet<Vec<u8>>) {
        let v = t.get_all_values(&Context::new(), db, p).unwrap();
        if v.len() < 900 {
            out.extend(v.into_iter().filter(|k| !k.is_empty() && k.starts_with(p)));
            return;
        }
        for b in 0..=255 {
            p.push(b);
            under(t, db, p, out);
            p.pop();
        }
    }
    let mut s = n.e.get_stores();
    s.trie.reload(&n.db).unwrap();
    let mut out = BTreeSet::new();
    under(&mut s.trie, &n.db, &mut vec![], &mut out);
    out
}
pub fn at_now(n: &Node, chunk: ShardChunk) -> At {
    At {
        shard: n.shard,
        height: n.height(),
        root: n.root(),
        keys: keys(n),
        dump: n.dump(),
        chunk,
        seq: n.last_seq(),
    }
}
pub fn ops_for(n: &Node, ops: &[Op]) -> Vec<MempoolMessage> {
    mempool(ops, n.last_seq())
        .into_iter()
        .map(|m| match m {
            MempoolMessage::BlockEvent { message, .. } => MempoolMessage::BlockEvent { for_shard: n.shard, message },
            m => m,
        })
        .collect()
}
impl Source {
    /// Plays the histories, takes a snapshot of each shard, and lets them run on.
    pub fn new(hs: &[History], later: &[Vec<Op>], tight: bool, bulk: u16) -> Source {
        let rt = rt();
        let dir = tempfile::TempDir::new().unwrap();
        let db = RocksDB::new(dir.path().join("z.db").to_str().unwrap());
        db.open().unwrap();
        let zero = BlockEngine::new(
            MerkleTrie::new().unwrap(),
            th::statsd_client(),
            Arc::new(db),
            100,
            None,
            proto::FarcasterNetwork::Devnet,
        );
        let mut nodes: Vec<Node> = (0..hs.len()).map(|i| Node::for_shard(&rt, i as u32 + 1)).collect();
        let stores = nodes.iter().map(|n| (n.shard, n.e.get_stores())).collect::<HashMap<_, _>>();
        let rs = Arc::new(ReplicationStores::new(stores, th::statsd_client(), proto::FarcasterNetwork::Devnet));
        let replicator = Arc::new(Replicator::new_with_options(
            rs,
            th::statsd_client(),
            ReplicatorSnapshotOptions {
                interval: 1_000_000,
                max_age: Duration::from_secs(90 * 86400),
            },
        ));
        let (mut at, mut runs_on) = (vec![], vec![]);
        for (n, h) in nodes.iter_mut().zip(hs) {
            let mut blocks: Vec<Vec<Op>> = std::iter::once(setup_ops(h.setup))
                .chain(h.blocks.iter().cloned())
                .chain(later.iter().cloned())
                .collect();
            in_order(&mut blocks[1..], if tight { 1 } else { 2 });
            let cut = 1 + h.blocks.len();
            let mut last = None;
            let mut after = vec![];
            for (i, ops) in blocks.iter().enumerate() {
                let mut m = ops_for(n, ops);
                if i == 0 {
                    m.extend(crate::p_snaps::rents(bulk));
                }
                let (c, _) = n.block(&rt, m, block_ts(i));
                if i + 1 == cut {
                    post(&replicator, &c);
                    last = Some(at_now(n, c));
                } else if i >= cut {
                    after.push(c);
                }
            }
            at.push(last.unwrap());
            runs_on.push(after);
        }
        Source {
            nodes,
            replicator,
            zero,
            at,
            later: runs_on,
            _dir: dir,
        }
    }
    pub fn again(&self) -> Vec<At> {
        // a snapshot of where the shards are now
        self.nodes
            .iter()
            .map(|n| {
                let chunk = n.e.get_last_shard_chunk().unwrap();
                self.replicator
                    .stores
                    .open_snapshot(n.shard, n.height(), chunk.header.as_ref().unwrap().timestamp)
                    .unwrap();
                at_now(n, chunk)
            })
            .collect()
    }
}
pub fn post(r: &Replicator, c: &ShardChunk) {
    let header = c.header.clone().unwrap();
    let (tx, _rx) = tokio::sync::oneshot::channel();
    r.handle_post_commit_message(&PostCommitMessage {
        shard_id: header.height.unwrap().shard_index,
        header,
        channel: tx,
    })
    .unwrap();
}

/// What replication cannot bring over, as C21 lists it: histories with it are left to that check.
pub fn unlearnable(a: &At) -> Option<&'static str> {
    let mut links = vec![];
    let mut compact = BTreeMap::new();
    // messages against the selectors that name them
    let mut named: BTreeMap<(Vec<u8>, u8), i64> = BTreeMap::new();
    for (k, v) in &a.dump {
        if k[0] == RootPrefix::FNameUserNameProof as u8 {
            let p = proto::UserNameProof::decode(v.as_slice()).unwrap();
            if p.fid != 0 && !a.keys.contains(&TrieKey::for_fname(p.fid, &String::from_utf8(p.name.clone()).unwrap())) {
                return Some("a renewed name");
            }
        }
        if k[0] == RootPrefix::User as u8 && k.len() > 6 {
            let (kind, by) = match k[5] {
                c @ 1..=4 => (c, 1),
                6 => (6, 1),
                7 => (7, 1),
                c @ 87..=94 => ((c - 85) / 2, -1),
                97 => (6, -1),
                99 => (7, -1),
                _ => (0, 0),
            };
            *named.entry((k[1..5].to_vec(), kind)).or_default() += by;
        }
        if k[0] == RootPrefix::User as u8 && k.len() > 6 && (k[5] <= 85 || k[5] == 100) {
            let m = proto::Message::decode(v.as_slice()).unwrap();
            let d = signed(&m);
            match d.body {
                Some(proto::message_data::Body::LinkBody(b)) => links.push((
                    d.fid,
                    b.r#type,
                    d.timestamp,
                    if d.r#type == proto::MessageType::LinkAdd as i32 { b.target } else { None },
                )),
                Some(proto::message_data::Body::LinkCompactStateBody(b)) => {
                    compact.insert((d.fid, b.r#type), (d.timestamp, b.target_fids));
                }
                _ => {}
            }
        }
    }
    if named.values().any(|n| *n != 0) {
        return Some("a message without its selector");
    }
    let swept = |(f, t, ts, target)| {
        use proto::link_body::Target::TargetFid;
        compact
            .get(&(f, t))
            .is_some_and(|(c, kept)| *c == ts || ts < *c && !matches!(target, Some(TargetFid(x)) if kept.contains(&x)))
    };
    links.into_iter().any(swept).then_some("a link its compaction should have swept")
}
fn burned(v: &[u8]) -> bool {
    proto::UserNameProof::decode(v).is_ok_and(|p| p.fid == 0)
}
/// The rows a snapshot stands for.
fn kept(d: &Dump) -> Dump {
    let mut names: HashMap<u64, usize> = HashMap::new();
    for (k, v) in d {
        if k[0] == RootPrefix::FNameUserNameProof as u8 {
            *names.entry(proto::UserNameProof::decode(v.as_slice()).unwrap().fid).or_default() += 1;
        }
    }
    d.iter()
        .filter(|(k, v)| {
            matches!(k[0], 3..=8 | 11 | 12 | 14 | 16 | 22..=25)
                && !(k[0] == RootPrefix::FNameUserNameProof as u8 && burned(v))
                // the index of one name to a fid says little of a fid with two
                || k[0] == RootPrefix::FNameUserNameProofByFid as u8 && {
                    let f = u32::from_be_bytes(k[1..5].try_into().unwrap()) as u64;
                    names.get(&f) == Some(&1)
                }
        })
        .map(|(k, v)| (k.clone(), v.clone()))
        .collect()
}
fn dump(db: &RocksDB) -> Dump {
    let mut m = Dump::new();
    db.for_each_iterator_by_prefix(Some(vec![0]), Some(vec![255; 64]), &PageOptions::default(), |k, v| {
        m.insert(k.to_vec(), canonical_row(k, v));
        Ok(false)
    })
    .unwrap();
    m
}

/// One attempt to fill `dir`; `None` when it was killed.
pub struct Try<'a> {
    pub peers: &'a [PeerPlan],
    pub heights: Vec<Option<Vec<u64>>>,
    pub session: usize,
    pub par: usize,
    pub kill_at: Option<usize>,
}
pub struct Tried {
    pub out: Option<Result<WorkUnitResponse, String>>,
    pub asked: usize,
    pub failed: u16,
    pub lied: bool,
}
pub const RETRIES: u32 = 3;
pub fn attempt(s: &Source, dir: &str, t: &Try) -> Tried {
    let rt = rt();
    let shared = Arc::new(Mutex::new(Shared {
        asked: 0,
        kill_at: t.kill_at,
        lied: None,
    }));
    let kill = Arc::new(tokio::sync::Notify::new());
    let states: Vec<Arc<Mutex<_>>> = t.peers.iter().map(|_| Default::default()).collect();
    let out = rt.block_on(async {
        let mut addrs = vec![];
        for (i, p) in t.peers.iter().enumerate() {
            addrs.push(
                serve(Peer {
                    server: server(&s.replicator, s.zero.stores()),
                    plan: p.clone(),
                    heights: t.heights.get(i).cloned().flatten(),
                    shared: shared.clone(),
                    kill: kill.clone(),
                    state: states[i].clone(),
                })
                .await,
            );
        }
        let mut cfg = snapchain::cfg::Config::default();
        cfg.rocksdb_dir = dir.into();
        cfg.consensus.shard_ids = s.nodes.iter().map(|n| n.shard).collect();
        cfg.fc_network = proto::FarcasterNetwork::Devnet;
        cfg.snapshot.replication_peers = addrs;
        cfg.gossip.address = "nowhere".into(); // no discovery
        let mut b = ReplicatorBootstrap::new(th::statsd_client(), &cfg);
        b.config = ReplicatorBootstrapConfig {
            max_messages_in_write_session: t.session,
            num_parallel_vts: t.par,
            rpc_retry_delay: Duration::from_micros(200),
            max_rpc_retries: RETRIES,
        };
        let k = kill.clone();
        tokio::select! {
            r = b.bootstrap_using_replication() => Some(r.map_err(|e| e.to_string())),
            _ = k.notified() => None,
        }
    });
    drop(rt);
    let s = shared.lock().unwrap();
    let failed = states.iter().map(|x: &Arc<Mutex<(HashMap<String, u8>, u16, u16)>>| x.lock().unwrap().2).sum();
    Tried {
        out,
        asked: s.asked,
        failed,
        lied: s.lied.is_some(),
    }
}
/// What lies in the node's directory outside the working copy.
fn promoted(dir: &str) -> Vec<String> {
    std::fs::read_dir(dir).map_or(vec![], |d| {
        d.map(|e| e.unwrap().file_name().to_string_lossy().to_string())
            .filter(|n| n != ".snapshot")
            .collect()
    })
}
/// Chain events whose order a filled node cannot tell: two of a kind in one block, or a reset of a key.
fn order_lost(a: &At) -> bool {
    use proto::on_chain_event::Body as OB;
    let mut seen = BTreeSet::new();
    a.dump.iter().any(|(k, v)| {
        k[0] == RootPrefix::OnChainEvent as u8 && k[1] == 1 && {
            let e = proto::OnChainEvent::decode(v.as_slice()).unwrap();
            let reset = matches!(&e.body, Some(OB::SignerEventBody(b)) if b.event_type() == proto::SignerEventType::AdminReset);
            reset || !seen.insert((e.r#type, e.fid, e.block_number))
        }
    })
}
const LOST: &str = "by the order of chain events";
/// The filled node is the source at its snapshot.
pub fn same(dir: &str, at: &[At]) -> R {
    for a in at {
        let db = RocksDB::open_shard_db(dir, a.shard);
        let mut t = MerkleTrie::new().unwrap();
        t.initialize(&db).unwrap();
        ensure_eq!(
            hex::encode(t.root_hash().unwrap()),
            hex::encode(&a.root),
            "root of shard {} against the snapshot's",
            a.shard
        );
        let d = dump(&db);
        let (want, mut got) = (kept(&a.dump), kept(&d));
        // a fid that gave up one of two names is left without the index to the other
        got.retain(|k, _| k[0] != RootPrefix::FNameUserNameProofByFid as u8 || want.contains_key(k));
        if let Some(x) = diff(&want, &got) {
            let index = |k: &[u8]| k[0] == RootPrefix::OnChainEvent as u8 && k[1] != 1;
            let rest = |d: &Dump| d.iter().filter(|(k, _)| !index(k)).map(|(k, v)| (k.clone(), v.clone())).collect::<Dump>();
            if order_lost(a) && diff(&rest(&want), &rest(&got)).is_none() {
                return Err(format!("{LOST}: {x}"));
            }
            return Err(format!("shard {}: the source's rows against the filled node's: {x}", a.shard));
        }
        ensure!(
            !d.keys().any(|k| k[0] == RootPrefix::ReplicationBootstrapStatus as u8),
            "shard {} keeps notes of its filling",
            a.shard
        );
        let s = snapchain::storage::store::shard::ShardStore::new(db.clone(), a.shard);
        ensure_eq!(s.max_block_number().map_err(|e| e.to_string())?, a.height, "height of shard {}", a.shard);
        ensure!(
            s.get_chunk_by_height(a.height).map_err(|e| e.to_string())?.as_ref() == Some(&a.chunk),
            "the chunk shard {} starts from",
            a.shard
        );
        db.close();
    }
    Ok(())
}
/// `same`, with the finding told apart; false when it was that.
fn same_or_lost(dir: &str, at: &[At], o: &mut Obs) -> Result<bool, String> {
    match same(dir, at) {
        Err(e) if e.starts_with(LOST) => {
            o.finding("chain-order-after-fill", e);
            Ok(false)
        }
        r => r.map(|_| true),
    }
}
/// The filled node takes the blocks after the snapshot as the source did.
fn goes_on(dir: &str, s: &Source, o: &mut Obs) -> R {
    let rt = rt();
    for (a, (n, later)) in s.at.iter().zip(s.nodes.iter().zip(&s.later)) {
        // names given up leave the source a row no other node can learn of (C21: released-name-row)
        if a.dump.iter().any(|(k, v)| k[0] == RootPrefix::FNameUserNameProof as u8 && burned(v)) {
            o.label("released name");
            continue;
        }
        let db = RocksDB::open_shard_db(dir, a.shard);
        let mut e = Node::engine(&rt, &db, a.shard);
        let mut ended = false;
        for c in later {
            let events = c.transactions.iter().flat_map(|t| &t.system_messages).any(|m| m.block_event.is_some());
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| rt.block_on(e.commit_shard_chunk(c))));
            match r {
                Ok(()) => {}
                Err(_) if events && a.seq > 0 => {
                    o.finding(
                        "block-events-after-fill",
                        format!("shard {} cannot commit a block with events of shard 0 numbered after {}", a.shard, a.seq),
                    );
                    ended = true;
                    break;
                }
                Err(p) => {
                    let m = p.downcast_ref::<String>().cloned().unwrap_or_default();
                    return Err(format!(
                        "the filled node cannot commit block {} of shard {}: {m}",
                        c.header.as_ref().unwrap().height.unwrap().block_number,
                        a.shard
                    ));
                }
            }
            if events && a.seq > 0 {
                // taken without its events, if they changed nothing
                ended = true;
                break;
            }
        }
        if !ended && !later.is_empty() {
            o.label("went on");
            let mut st = e.get_stores();
            st.trie.reload(&db).unwrap();
            ensure_eq!(
                hex::encode(st.trie.root_hash().unwrap()),
                hex::encode(n.root()),
                "root of shard {} after the blocks that followed",
                a.shard
            );
        }
        drop(e);
        db.close();
    }
    Ok(())
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Fill {
    shards: Vec<History>,
    later: Vec<Vec<Op>>,
    peers: Vec<PeerPlan>,
    session: u8,
    par: u8,
    kills: Vec<u16>,
    tight: bool,
    bulk: u16,
}
pub fn mix(i: usize) -> Mix {
    Mix {
        blocks: (1, 8),
        vers: if i == 0 { 2 } else { 0 },
        bad: false,
        ..FULL
    }
}
fn plan(fails: bool) -> BoxedStrategy<PeerPlan> {
    let f = if fails {
        pvec((0u16..300, 1u8..5), 0..4).boxed()
    } else {
        Just(vec![]).boxed()
    };
    (prop_oneof![2 => Just(0u8), 6 => 1u8..6, 1 => Just(OWN)], f)
        .prop_map(|(page, fail)| PeerPlan { page, fail, lie: None })
        .boxed()
}
fn fill() -> BoxedStrategy<Fill> {
    (
        history(mix(0)),
        proptest::option::weighted(0.3, history(Mix { blocks: (1, 3), ..mix(1) })),
        pvec(pvec(op(mix(0)), 0..4), 0..4),
        pvec(plan(true), 1..4),
        prop_oneof![2 => Just(250u8), 3 => 0u8..8],
        1u8..6,
        prop_oneof![2 => Just(vec![]), 3 => pvec(1u16..400, 1..4)],
        (proptest::bool::weighted(0.1), prop_oneof![100 => Just(0u16), 1 => 990u16..2010]),
    )
        .prop_map(|(h, g, later, mut peers, session, par, kills, (tight, bulk))| Fill {
            tight,
            bulk,
            shards: std::iter::once(h).chain(g).collect(),
            later,
            peers: {
                if bulk > 0 {
                    // as many calls as a small page would take is too many
                    peers.iter_mut().for_each(|p| p.page = OWN);
                }
                peers
            },
            session,
            par,
            kills,
        })
        .boxed()
}
fn check_fill(c: &Fill, o: &mut Obs) -> R {
    let s = Source::new(&c.shards, &c.later, c.tight, c.bulk);
    if let Some(w) = s.at.iter().find_map(unlearnable) {
        o.label(w);
        return Ok(());
    }
    let dir = tempfile::TempDir::new().unwrap();
    let d = dir.path().to_str().unwrap();
    let mut broken = 0;
    let mut t = Try {
        peers: &c.peers,
        heights: vec![],
        session: c.session as usize,
        par: c.par as usize,
        kill_at: None,
    };
    for k in c.kills.iter().map(|k| Some(*k as usize)).chain([None, None]) {
        t.kill_at = k;
        let r = attempt(&s, d, &t);
        match &r.out {
            None => {
                broken += 1;
                o.label("killed");
            }
            Some(Ok(WorkUnitResponse::Finished)) => {
                o.label_if(broken > 0, "resumed");
                o.label_if(r.failed > 0, "failed answers");
                o.label_if(c.bulk > 0, "thousands");
                if !same_or_lost(d, &s.at, o)? {
                    return Ok(());
                }
                let n: usize = s.at.iter().map(|a| a.keys.len()).sum();
                if n > 12 && (broken > 0 || r.failed > 0 || c.session < 8) {
                    o.nt()
                }
                return goes_on(d, &s, o);
            }
            Some(x) => {
                let worst = c.peers.iter().flat_map(|p| &p.fail).map(|f| f.1 as u32).max().unwrap_or(0);
                ensure!(
                    x.is_err() && worst >= RETRIES && r.failed > 0,
                    "filling ended with {x:?} after {} failed answers",
                    r.failed
                );
                o.label("gave up");
                broken += 1;
            }
        }
        let p = promoted(d);
        ensure!(p.is_empty(), "an attempt that did not finish leaves {p:?} in the node's directory");
    }
    // no more failures
    let calm: Vec<PeerPlan> = c.peers.iter().map(|p| PeerPlan { fail: vec![], ..p.clone() }).collect();
    t.peers = &calm;
    t.kill_at = None;
    let r = attempt(&s, d, &t);
    ensure!(
        r.out == Some(Ok(WorkUnitResponse::Finished)),
        "peers that answer, after attempts that ended early: {:?}",
        r.out
    );
    o.label("resumed");
    o.nt();
    if !same_or_lost(d, &s.at, o)? {
        return Ok(());
    }
    goes_on(d, &s, o)
}

// ---- the peers move on between two attempts ----
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Moved {
    shard: History,
    later: Vec<Vec<Op>>,
    page: u8,
    kill: u16,
    /// the first snapshot is still offered
    both: bool,
}
fn moved() -> BoxedStrategy<Moved> {
    (
        history(Mix { vers: 0, ..mix(0) }),
        pvec(pvec(op(Mix { vers: 0, ..mix(0) }), 1..5), 1..5),
        0u8..5,
        1u16..330,
        any::<bool>(),
    )
        .prop_map(|(shard, later, page, kill, both)| Moved {
            shard,
            later,
            page,
            kill,
            both,
        })
        .boxed()
}
fn check_moved(c: &Moved, o: &mut Obs) -> R {
    let s = Source::new(std::slice::from_ref(&c.shard), &c.later, false, 0);
    let dir = tempfile::TempDir::new().unwrap();
    let d = dir.path().to_str().unwrap();
    let peers = [PeerPlan {
        page: c.page,
        fail: vec![],
        lie: None,
    }];
    let mut t = Try {
        peers: &peers,
        heights: vec![Some(vec![s.at[0].height])],
        session: 1000,
        par: 2,
        kill_at: Some(c.kill as usize),
    };
    let first = attempt(&s, d, &t);
    let at = s.again();
    if unlearnable(&s.at[0]).or(unlearnable(&at[0])).is_some() {
        return Ok(());
    }
    if first.out.is_some() {
        o.label("over at once");
        return Ok(());
    }
    t.kill_at = None;
    t.heights = vec![(!c.both).then(|| vec![at[0].height])];
    let r = attempt(&s, d, &t);
    ensure!(
        r.out == Some(Ok(WorkUnitResponse::Finished)),
        "the peers' snapshot moved from {} to {} between two attempts: {:?}",
        s.at[0].height,
        at[0].height,
        r.out
    );
    if s.at[0].root != at[0].root {
        o.nt();
    }
    o.label_if(c.both, "both offered");
    // the one offered, or the one it began with
    match same_or_lost(d, &at, o) {
        Err(_) if c.both => same_or_lost(d, &s.at, o),
        r => r,
    }
    .map(|_| ())
}

// ---- peers that lie ----
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Lies {
    shard: History,
    page: u8,
    lie: Lie,
    at: u16,
    honest: bool,
    par: u8,
}
fn lies() -> BoxedStrategy<Lies> {
    use Lie::*;
    (
        history(Mix {
            blocks: (2, 6),
            vers: 0,
            ..mix(0)
        }),
        0u8..5,
        proptest::sample::select(vec![
            Omit, Twice, OtherKey, Hash, Signature, Bytes, Beside, Author, Scheme, Root, NoRoots, ShortKey, Nothing, Extra, Resigned, Chain, Name,
        ]),
        any::<u16>(),
        any::<bool>(),
        1u8..4,
    )
        .prop_map(|(shard, page, lie, at, honest, par)| Lies {
            shard,
            page,
            lie,
            at,
            honest,
            par,
        })
        .boxed()
}
fn check_lies(c: &Lies, o: &mut Obs) -> R {
    let s = Source::new(std::slice::from_ref(&c.shard), &[], false, 0);
    if unlearnable(&s.at[0]).is_some() {
        return Ok(());
    }
    let dir = tempfile::TempDir::new().unwrap();
    let d = dir.path().to_str().unwrap();
    let liar = PeerPlan {
        page: c.page,
        fail: vec![],
        lie: Some((c.lie, c.at)),
    };
    let mut peers = vec![liar];
    if c.honest {
        // seeds the metadata, and serves every other part
        peers.insert(
            0,
            PeerPlan {
                page: c.page,
                fail: vec![],
                lie: None,
            },
        );
    }
    let r = attempt(
        &s,
        d,
        &Try {
            peers: &peers,
            heights: vec![],
            session: 1000,
            par: c.par as usize,
            kill_at: None,
        },
    );
    let lied = r.lied;
    if lied {
        o.nt();
    }
    let end = match &r.out {
        Some(Ok(WorkUnitResponse::Finished)) => "finished",
        Some(Err(_)) => "refused",
        x => return Err(format!("{x:?}")),
    };
    o.tag(if lied { format!("{:?} {end}", c.lie) } else { "no lie".into() });
    if end == "refused" {
        ensure!(lied, "honest peers: {:?}", r.out);
        let p = promoted(d);
        ensure!(p.is_empty(), "a refused filling leaves {p:?} in the node's directory");
        return Ok(());
    }
    match same_or_lost(d, &s.at, o) {
        Err(e) if lied && matches!(c.lie, Lie::Chain | Lie::Name | Lie::Resigned) => {
            o.finding("unauthenticated-fields", format!("{:?}: {e}", c.lie));
            Ok(())
        }
        r => r.map(|_| ()).map_err(|e| format!("{:?} told: {e}", r_lied(lied, c.lie))),
    }
}
fn r_lied(l: bool, x: Lie) -> Option<Lie> {
    l.then_some(x)
}

pub fn c42(p: &mut Prop) {
    p.sub(
        "fill",
        "more than twelve entries, and failed answers, a restart or several write sessions",
        2_000,
        40_000,
        fill,
        check_fill,
    );
    p.sub("moved", "the state changed between the two snapshots", 800, 20_000, moved, check_moved);
    p.sub("lies", "a peer lied", 2_000, 40_000, lies, check_lies);
    crate::p_snaps::subs(p);
}
