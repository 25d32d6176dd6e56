//! The snapshots a node keeps to serve from: which there are, and that each stays what its block left.
use crate::frame::{Obs, Prop, R};
use crate::p_boot::{at_now, mix, ops_for, post, unlearnable, At};
use crate::peers::{server, signed};
use crate::world::*;
use proptest::collection::vec as pvec;
use proptest::prelude::*;
use prost::Message as _;
use serde::{Deserialize, Serialize};
use snapchain::core::util::FarcasterTime;
use snapchain::network::replication::replication_server::ReplicationServer;
use snapchain::network::replication::replication_stores::ReplicationStores;
use snapchain::network::replication::replicator::{Replicator, ReplicatorSnapshotOptions};
use snapchain::proto::replication_service_server::ReplicationService;
use snapchain::proto::shard_trie_entry_with_message::TrieMessage as T;
use snapchain::proto::{self, GetShardSnapshotMetadataRequest, GetShardTransactionsRequest};
use snapchain::storage::db::{RocksDB, RocksDbTransactionBatch};
use snapchain::storage::store::block_engine::BlockEngine;
use snapchain::storage::store::mempool_poller::MempoolMessage;
use snapchain::storage::store::test_helper as th;
use snapchain::storage::trie::merkle_trie::{MerkleTrie, TrieKey};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;
use std::time::Duration;
use tonic::Request;

#[derive(Debug, Clone, Serialize, Deserialize)]
enum S {
    /// a block on a shard, so many thousand seconds after the last
    Block { shard: u8, ops: Vec<Op>, dt: u8 },
    /// the process starts anew
    Restart,
    /// everything of one of the snapshots (or of a height without one)
    Read { shard: u8, which: u8 },
}
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Snaps {
    interval: u8,
    /// in thousands of seconds
    age: u16,
    /// seconds the chunks lag behind the clock
    lag: u16,
    /// rents of one fid in the first block
    bulk: u16,
    setup: u8,
    steps: Vec<S>,
}
fn snaps() -> BoxedStrategy<Snaps> {
    let m = Mix { blocks: (1, 1), vers: 0, ..mix(1) };
    let step = prop_oneof![
        12 => (0u8..2, pvec(op(m), 0..5), prop_oneof![4 => 0u8..4, 1 => 0u8..200]).prop_map(|(shard, ops, dt)| S::Block { shard, ops, dt }),
        1 => Just(S::Restart),
        7 => (0u8..2, any::<u8>()).prop_map(|(shard, which)| S::Read { shard, which }),
    ];
    (
        1u8..6,
        prop_oneof![1 => 1u16..20, 1 => Just(1000u16)],
        prop_oneof![3 => Just(0u16), 1 => 0u16..9000],
        prop_oneof![30 => Just(0u16), 1 => 985u16..1003, 1 => 1985u16..2003],
        prop_oneof![4 => Just(15u8), 1 => 0u8..16],
        pvec(step, 3..24),
    )
        .prop_map(|(interval, age, lag, bulk, setup, steps)| Snaps { interval, age, lag, bulk, setup, steps })
        .boxed()
}
struct Held {
    ts: u64,
    at: At,
    roots: BTreeMap<u64, (Vec<u8>, u64)>,
}
fn hold(n: &Node, c: proto::ShardChunk) -> Held {
    let at = at_now(n, c);
    let mut t = MerkleTrie::new().unwrap();
    t.initialize(&n.db).unwrap();
    let fids: BTreeSet<u64> = at.keys.iter().map(|k| TrieKey::decode(k).unwrap().fid).collect();
    let x = RocksDbTransactionBatch::new();
    let roots = fids
        .into_iter()
        .map(|f| {
            let p = TrieKey::for_fid(f);
            let count = at.keys.iter().filter(|k| k.starts_with(&p)).count() as u64;
            (f, (t.get_hash(&n.db, &x, &p).unwrap(), count))
        })
        .collect();
    Held { ts: at.chunk.header.as_ref().unwrap().timestamp, at, roots }
}
pub fn rents(n: u16) -> Vec<MempoolMessage> {
    (0..n)
        .map(|i| {
            let mut e = rent_event(0, 1, 3);
            e.block_number = 100_000 + i as u32;
            e.transaction_hash = blake3::hash(&i.to_be_bytes()).as_bytes().to_vec();
            MempoolMessage::OnchainEvent(e)
        })
        .collect()
}
fn start(nodes: &[Node], c: &Snaps, zero: &BlockEngine) -> (Arc<Replicator>, ReplicationServer) {
    let stores = nodes.iter().map(|n| (n.shard, n.e.get_stores())).collect();
    let rs = Arc::new(ReplicationStores::new(stores, th::statsd_client(), proto::FarcasterNetwork::Devnet));
    let o = ReplicatorSnapshotOptions { interval: c.interval as u64, max_age: Duration::from_secs(c.age as u64 * 1000 + 500) };
    let r = Arc::new(Replicator::new_with_options(rs, th::statsd_client(), o));
    let s = server(&r, zero.stores());
    (r, s)
}
/// Every entry of one snapshot, and its account roots.
fn read(rt: &tokio::runtime::Runtime, s: &ReplicationServer, shard: u32, height: u64, vts: u32) -> Result<Vec<proto::GetShardTransactionsResponse>, String> {
    let mut pages = vec![];
    let mut token = None;
    loop {
        ensure!(pages.len() < 100, "the pages of part {vts} never end");
        let q = GetShardTransactionsRequest { shard_id: shard, height, trie_virtual_shard: vts, page_token: token };
        let p = rt.block_on(s.get_shard_transactions(Request::new(q))).map_err(|e| format!("status {}", e.message()))?.into_inner();
        token = p.next_page_token.clone();
        pages.push(p);
        if token.is_none() {
            return Ok(pages);
        }
    }
}
fn check_read(rt: &tokio::runtime::Runtime, s: &ReplicationServer, h: &Held, o: &mut Obs) -> R {
    let parts: BTreeSet<u32> = h.at.keys.iter().map(|k| k[0] as u32).chain([0, 77, 255]).collect();
    let mut seen = BTreeSet::new();
    for vts in parts {
        let pages = read(rt, s, h.at.shard, h.at.height, vts).map_err(|e| format!("part {vts} of the snapshot at {}: {e}", h.at.height))?;
        o.label_if(pages.len() > 1, "several pages");
        for p in pages {
            ensure!(p.trie_messages.len() <= 1000, "a page of {}", p.trie_messages.len());
            let fids: BTreeSet<u64> = p.trie_messages.iter().map(|e| TrieKey::decode(&e.trie_key).unwrap().fid).collect();
            let told: BTreeSet<u64> = p.fid_account_roots.iter().map(|r| r.fid).collect();
            ensure_eq!(told, fids, "accounts with a root against accounts in the page");
            for r in &p.fid_account_roots {
                let (hash, n) = &h.roots[&r.fid];
                ensure_eq!(r.num_messages, *n, "entries of {} at {}", r.fid, h.at.height);
                ensure_eq!(hex::encode(&r.account_root_hash), hex::encode(hash), "account root of {} at {}", r.fid, h.at.height);
            }
            for e in p.trie_messages {
                ensure!(e.trie_key[0] as u32 == vts, "an entry of part {} in part {vts}", e.trie_key[0]);
                let own = match e.trie_message.as_ref() {
                    Some(T::UserMessage(m)) => {
                        let bytes = m.data_bytes.clone().unwrap_or_else(|| signed(m).encode_to_vec());
                        TrieKey::for_message(m).contains(&e.trie_key) && blake3::hash(&bytes).as_bytes()[..20] == m.hash[..]
                    }
                    Some(T::OnChainEvent(x)) => TrieKey::for_onchain_event(x) == e.trie_key,
                    Some(T::FnameTransfer(t)) => {
                        let p = t.proof.as_ref().unwrap();
                        TrieKey::for_fname(p.fid, &String::from_utf8(p.name.clone()).unwrap()) == e.trie_key
                    }
                    None => false,
                };
                ensure!(own, "entry {} comes with {:?}", hex::encode(&e.trie_key), e.trie_message);
                ensure!(seen.insert(e.trie_key.clone()), "entry {} twice", hex::encode(&e.trie_key));
            }
        }
    }
    ensure!(
        seen == h.at.keys,
        "the snapshot at {}: {} entries where its block left {}; first that differs {:?}",
        h.at.height,
        seen.len(),
        h.at.keys.len(),
        seen.symmetric_difference(&h.at.keys).next().map(hex::encode)
    );
    Ok(())
}
fn check(c: &Snaps, o: &mut Obs) -> R {
    rocksdb::shim::set_clock(0);
    let real = FarcasterTime::current().to_u64();
    let mut now = t0() as u64 + 1000;
    let clock = |t: u64| rocksdb::shim::set_clock(t as i64 - real as i64);
    clock(now);
    let rt = rt();
    let dir = tempfile::TempDir::new().unwrap();
    let db = RocksDB::new(dir.path().join("z.db").to_str().unwrap());
    db.open().unwrap();
    let zero = BlockEngine::new(MerkleTrie::new().unwrap(), th::statsd_client(), Arc::new(db), 100, None, proto::FarcasterNetwork::Devnet);
    let mut nodes: Vec<Node> = (1..3).map(|i| Node::for_shard(&rt, i)).collect();
    let (mut rep, mut srv) = start(&nodes, c, &zero);
    // what there should be: by shard, then height
    let mut held: Vec<BTreeMap<u64, Held>> = vec![BTreeMap::new(), BTreeMap::new()];
    let mut known = [false, false];
    let mut first = [true, true];
    let (mut reads, mut later) = (0, 0);
    for s in &c.steps {
        match s {
            S::Restart => {
                drop(srv);
                drop(rep);
                (rep, srv) = start(&nodes, c, &zero);
                held = vec![BTreeMap::new(), BTreeMap::new()];
                known = [false, false];
                o.label("restarted");
            }
            S::Block { shard, ops, dt } => {
                let i = *shard as usize;
                now += *dt as u64 * 1000;
                clock(now);
                let n = &mut nodes[i];
                let mut m = ops_for(n, ops);
                if std::mem::take(&mut first[i]) {
                    m = ops_for(n, &setup_ops(c.setup)).into_iter().chain(rents(if i == 0 { c.bulk } else { 0 })).chain(m).collect();
                }
                let ts = now - c.lag as u64;
                let (chunk, _) = n.block(&rt, m, ts as u32);
                let n = &nodes[i];
                post(&rep, &chunk);
                let oldest = now - (c.age as u64 * 1000 + 500);
                let gone = held[i].len();
                held[i].retain(|_, h| h.ts >= oldest);
                o.label_if(held[i].len() < gone, "aged");
                // a node without any takes one at once
                let due = n.height() % c.interval as u64 == 0 || held[i].is_empty();
                if due && ts >= oldest {
                    held[i].insert(n.height(), hold(n, chunk));
                    known[i] = true;
                } else if !due {
                    o.label("not due");
                }
                later += 1;
            }
            S::Read { shard, which } => {
                let i = *shard as usize;
                let h = held[i].values().nth(*which as usize % (held[i].len() + 1));
                match h {
                    None => {
                        let height = nodes[i].height() + 1 + *which as u64;
                        ensure!(read(&rt, &srv, i as u32 + 1, height, 0).is_err(), "a page of a snapshot at {height}, where there is none");
                    }
                    Some(h) => {
                        if unlearnable(&h.at).is_some() {
                            continue;
                        }
                        check_read(&rt, &srv, h, o)?;
                        if h.at.height < nodes[i].height() {
                            o.label("read after later blocks");
                            reads += 1;
                        }
                    }
                }
            }
        }
        for i in 0..2 {
            let q = GetShardSnapshotMetadataRequest { shard_id: i as u32 + 1 };
            let got = rt.block_on(srv.get_shard_snapshot_metadata(Request::new(q)));
            if !known[i] {
                // none was ever taken
                ensure!(got.as_ref().map_or(true, |g| g.get_ref().snapshots.is_empty()), "snapshots before any was taken: {got:?}");
                continue;
            }
            let got = got.map_err(|e| format!("snapshots of shard {}: {e}", i + 1))?.into_inner().snapshots;
            let heights: BTreeSet<u64> = got.iter().map(|g| g.height).collect();
            let want: BTreeSet<u64> = held[i].keys().copied().collect();
            ensure!(heights == want && got.len() == want.len(), "shard {} offers snapshots at {heights:?}, not {want:?}", i + 1);
            for g in got {
                let h = &held[i][&g.height];
                ensure_eq!(g.shard_id, i as u32 + 1, "shard of a snapshot");
                ensure_eq!(g.timestamp, h.ts, "time of the snapshot at {}", g.height);
                ensure_eq!(g.num_items as usize, h.at.keys.len(), "entries of the snapshot at {}", g.height);
                ensure!(g.shard_chunk.as_ref() == Some(&h.at.chunk), "the chunk of the snapshot at {}", g.height);
            }
        }
    }
    if reads > 0 && later > 3 {
        o.nt();
    }
    rocksdb::shim::set_clock(0);
    Ok(())
}
pub fn subs(p: &mut Prop) {
    p.sub("snapshots", "a snapshot was read after later blocks", 5_000, 100_000, snaps, check);
}
