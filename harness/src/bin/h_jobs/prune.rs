//! Pruning: what is older than the retention goes, everything else stays, and the node carries on.
use crate::frame::{Obs, R};
use crate::gens::*;
use crate::world::*;
use proptest::prelude::*;
use prost::Message as _;
use serde::{Deserialize, Serialize};
use snapchain::proto::{self, HubEvent};
use snapchain::storage::db::{PageOptions, RocksDB};
use snapchain::storage::store::block_engine::BlockStores;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::sync::Arc;
use std::time::Duration;

#[derive(Debug, Clone, Serialize, Deserialize, PartialEq)]
pub enum Act {
    Chunks { cut: u8, d: i8, page: u8, kill: Option<u8> },
    Events { cut: u8, d: i8, page: u8, kill: Option<u8> },
    Restart,
}
#[derive(Debug, Clone, Serialize, Deserialize, PartialEq)]
pub struct Case {
    h: History,
    /// seconds between a block and the one before
    gaps: Vec<u32>,
    acts: Vec<(u8, Act)>,
}
fn gap() -> BoxedStrategy<u32> {
    prop_oneof![1 => Just(0u32), 4 => 1u32..5, 3 => 5u32..4_000, 2 => 4_000u32..200_000].boxed()
}
pub fn case() -> BoxedStrategy<Case> {
    let kill = || proptest::option::weighted(0.2, 0u8..4);
    let cut = || (any::<u8>(), prop_oneof![3 => Just(0i8), 1 => Just(-1), 1 => Just(1)], prop_oneof![3 => 1u8..4, 1 => Just(100u8)], kill());
    let act = prop_oneof![
        5 => cut().prop_map(|(cut, d, page, kill)| Act::Chunks { cut, d, page, kill }),
        5 => cut().prop_map(|(cut, d, page, kill)| Act::Events { cut, d, page, kill }),
        1 => Just(Act::Restart),
    ];
    let mix = Mix { per_block: (0, 3), blocks: (4, 16), ..FULL };
    (history(mix), pvec(gap(), 20), pvec((any::<u8>(), act), 1..6)).prop_map(|(h, gaps, acts)| Case { h, gaps, acts }).boxed()
}
fn chunk_key(h: u64) -> Vec<u8> {
    [&[2u8][..], &h.to_be_bytes()].concat()
}
fn key_number(k: &[u8]) -> u64 {
    u64::from_be_bytes(k[k.len() - 8..].try_into().unwrap())
}
fn is_chunk(k: &[u8]) -> bool {
    k[0] == 2
}
fn is_event(k: &[u8]) -> bool {
    k[0] == 9
}
type Rows = BTreeMap<Vec<u8>, Vec<u8>>;
fn without(m: &Rows, f: fn(&[u8]) -> bool) -> Rows {
    m.iter().filter(|(k, _)| !f(k)).map(|(k, v)| (k.clone(), v.clone())).collect()
}

pub fn check(c: &Case, o: &mut Obs) -> R {
    let rt = rt();
    let mut node = Node::new(&rt);
    let mut twin = Node::new(&rt);
    let mut stamps: Vec<u64> = vec![];
    let mut ts = block_ts(0);
    let mut all = vec![setup_ops(c.h.setup)];
    all.extend(c.h.blocks.iter().cloned());
    let (mut pruned, mut kept) = (false, false);
    for (i, ops) in all.iter().enumerate() {
        ts += c.gaps[i % c.gaps.len()];
        let msgs = mempool(ops, twin.last_seq());
        let (chunk, _) = twin.block(&rt, msgs, ts);
        node.start_round();
        let next = node.next();
        ensure!(next.block_number == i as u64 + 1, "after pruning the next height is {}", next.block_number);
        node.commit(&rt, &chunk);
        stamps.push(ts as u64);
        ensure_eq!(node.root(), twin.root(), "root of the pruned node at block {}", i + 1);
        for (at, act) in &c.acts {
            if *at as usize % all.len() != i {
                continue;
            }
            let stores = node.e.get_stores();
            let (events, cut, d, page, kill) = match act {
                Act::Restart => {
                    node.restart(&rt);
                    continue;
                }
                Act::Chunks { cut, d, page, kill } => (false, cut, d, page, kill),
                Act::Events { cut, d, page, kill } => (true, cut, d, page, kill),
            };
            let cutoff = (stamps[*cut as usize % stamps.len()] as i64 + *d as i64) as u64;
            // the first block that is not older than the cutoff; without one nothing is pruned
            let stop = stamps.iter().position(|t| *t >= cutoff).map_or(0, |i| i as u64 + 1);
            let before = node.dump();
            let opts = PageOptions { page_size: Some(*page as usize), ..Default::default() };
            let count = {
                let _g = kill.map(|k| rocksdb::shim::Guard::new(std::path::Path::new(&node.db.location()), Some(k as u64)));
                let f = async {
                    if events {
                        stores.prune_events_until(cutoff, Duration::ZERO, Some(opts)).await
                    } else {
                        stores.prune_shard_chunks_until(cutoff, Duration::ZERO, Some(opts)).await
                    }
                };
                match rt.block_on(f) {
                    Ok(n) => n,
                    Err(_) if kill.is_some() => 0,
                    Err(e) => return Err(format!("a prune was refused: {e:?}")),
                }
            };
            let after = node.dump();
            let (which, number): (fn(&[u8]) -> bool, fn(&[u8]) -> u64) =
                if events { (is_event, |k| key_number(k) >> 14) } else { (is_chunk, key_number) };
            if let Some(d) = diff(&without(&before, which), &without(&after, which)) {
                return Err(format!("pruning changed something else: {d}"));
            }
            let old: BTreeSet<_> = before.keys().filter(|k| which(k)).collect();
            let new: BTreeSet<_> = after.keys().filter(|k| which(k)).collect();
            ensure!(new.is_subset(&old), "pruning added rows");
            let gone: Vec<_> = old.difference(&new).collect();
            let lost_index = stop > 0 && !before.contains_key(&chunk_key(stop));
            let due: Vec<_> = old.iter().filter(|k| number(k) < stop).collect();
            for k in &gone {
                ensure!(number(k) < stop, "the row {} of height {} was pruned, the first to keep is {stop}", hex::encode(k), number(k));
            }
            // oldest first, whatever stopped it
            for (a, b) in gone.iter().zip(&due) {
                ensure!(a == b, "pruning did not start with the oldest");
            }
            if kill.is_none() {
                ensure_eq!(gone.len(), due.len(), "rows pruned below height {stop} (cutoff {cutoff}, {stamps:?})");
                ensure_eq!(count as usize, gone.len(), "reported as pruned");
            } else {
                o.label_if(gone.len() < due.len(), "interrupted");
            }
            o.label_if(stop == 0, "cutoff after every block");
            o.label_if(lost_index, "the first block to keep had gone before");
            pruned |= !gone.is_empty();
            kept |= !new.is_empty();
            for k in &new {
                ensure!(twin.dump_one(k) == after.get(*k).cloned(), "row {} changed", hex::encode(k));
            }
        }
    }
    if pruned && kept {
        o.nt();
    }
    // nothing but the old blocks and events is missing at the end
    let (a, b) = (node.dump(), twin.dump());
    for (k, v) in &b {
        match a.get(k) {
            Some(w) => ensure!(v == w, "row {} differs", hex::encode(k)),
            None => ensure!(is_chunk(k) || is_event(k), "row {} is missing", hex::encode(k)),
        }
    }
    ensure!(a.keys().all(|k| b.contains_key(k)), "a row only the pruned node has");
    // what is left is read back as it was
    let stores = node.e.get_stores();
    for h in 1..=stamps.len() as u64 {
        let got = stores.shard_store.get_chunk_by_height(h).map_err(|e| format!("{e:?}"))?;
        let want = a.get(&chunk_key(h)).map(|v| proto::ShardChunk::decode(&v[..]).unwrap());
        ensure!(got == want, "the chunk of height {h} as read");
        let ids: Vec<u64> = node.events(h).iter().map(|e| e.id).collect();
        let rows: Vec<u64> = a.keys().filter(|k| is_event(k) && key_number(k) >> 14 == h).map(|k| key_number(k)).collect();
        ensure_eq!(ids, rows, "events of height {h} as read");
    }
    let tip = stores.shard_store.max_block_number().map_err(|e| format!("{e:?}"))?;
    ensure_eq!(tip, stamps.len() as u64, "tip");
    Ok(())
}
impl Node {
    fn dump_one(&self, k: &[u8]) -> Option<Vec<u8>> {
        self.db.get(k).unwrap().map(|v| canonical_row(k, &v))
    }
}

// ---------------------------------------------------------------- the scheduled jobs

#[derive(Debug, Clone, Serialize, Deserialize, PartialEq)]
pub struct JobCase {
    /// ages of the blocks of shard 0 and of two data shards, in seconds, oldest first
    ages: Vec<Vec<u32>>,
    /// events per block
    events: u8,
    block_days: u8,
    event_days: u8,
    /// how long the node has been behind when the jobs start
    synced: bool,
    jobs: u8,
}
pub fn job_case() -> BoxedStrategy<JobCase> {
    // around the end of a retention, or anywhere
    let age = prop_oneof![
        1 => (0u32..1_000_000).prop_map(|a| (0u8, a as i64)),
        3 => (1u8..3, prop_oneof![Just(-3_600i64), Just(-300), Just(-30), Just(30), Just(300), Just(3_600)]),
    ];
    (pvec(pvec(age, 1..9), 3), 0u8..3, 0u8..10, 0u8..10, proptest::bool::weighted(0.8), 1u8..4)
        .prop_map(|(ages, events, block_days, event_days, synced, jobs)| {
            let days = [0, block_days as i64, event_days as i64];
            let ages = ages
                .into_iter()
                .map(|v| {
                    let mut v: Vec<u32> = v.into_iter().map(|(w, d)| (days[w as usize] * 86_400 + d).max(0) as u32).collect();
                    v.sort_by(|a, b| b.cmp(a));
                    v
                })
                .collect();
            JobCase { ages, events, block_days, event_days, synced, jobs }
        })
        .boxed()
}
fn block(n: u64, ts: u64) -> proto::Block {
    proto::Block {
        header: Some(proto::BlockHeader {
            height: Some(proto::Height { shard_index: 0, block_number: n }),
            timestamp: ts,
            ..Default::default()
        }),
        hash: vec![n as u8; 20],
        ..Default::default()
    }
}
fn chunk(shard: u32, n: u64, ts: u64) -> proto::ShardChunk {
    proto::ShardChunk {
        header: Some(proto::ShardHeader {
            height: Some(proto::Height { shard_index: shard, block_number: n }),
            timestamp: ts,
            ..Default::default()
        }),
        hash: vec![n as u8; 20],
        ..Default::default()
    }
}
fn dump(db: &RocksDB) -> Rows {
    let mut m = BTreeMap::new();
    db.for_each_iterator_by_prefix(Some(vec![0]), Some(vec![255; 64]), &PageOptions::default(), |k, v| {
        m.insert(k.to_vec(), v.to_vec());
        Ok(false)
    })
    .unwrap();
    m
}
pub fn jobs(c: &JobCase, o: &mut Obs) -> R {
    let rt = rt();
    let dir = tempfile::TempDir::new().unwrap();
    let db = RocksDB::new(dir.path().join("0.db").to_str().unwrap());
    db.open().unwrap();
    let db = Arc::new(db);
    let trie = snapchain::storage::trie::merkle_trie::MerkleTrie::new().unwrap();
    let blocks = BlockStores::new(db.clone(), trie, proto::FarcasterNetwork::Devnet);
    let nodes: Vec<Node> = (1..3).map(|s| Node::for_shard(&rt, s)).collect();
    let now = snapchain::core::util::get_farcaster_time().unwrap();
    for (s, ages) in c.ages.iter().enumerate() {
        for (i, age) in ages.iter().enumerate() {
            let (n, ts) = (i as u64 + 1, now - *age as u64);
            if s == 0 {
                blocks.block_store.put_block(&block(n, ts)).unwrap();
                continue;
            }
            let node = &nodes[s - 1];
            node.e.get_stores().shard_store.put_shard_chunk(&chunk(s as u32, n, ts)).unwrap();
            for e in 0..c.events as u64 {
                let id = n << 14 | e;
                let ev = HubEvent { id, block_number: n, shard_index: s as u32, ..Default::default() };
                node.db.put(&[&[9u8][..], &id.to_be_bytes()].concat(), &ev.encode_to_vec()).unwrap();
            }
        }
    }
    let before: Vec<Rows> = std::iter::once(dump(&db)).chain(nodes.iter().map(|n| dump(&n.db))).collect();
    let stores: HashMap<u32, _> = nodes.iter().map(|n| (n.shard, n.e.get_stores())).collect();
    let (block_job, event_job) = (c.jobs & 1 > 0, c.jobs & 2 > 0);
    let day = |d: u8| Duration::from_secs(d as u64 * 86_400);
    let stop = |s: usize, days: u8, at: u64| {
        c.ages[s].iter().position(|a| now - *a as u64 >= at - days as u64 * 86_400).map_or(0, |i| i as u64 + 1)
    };
    let sure = |s, days| stop(s, days, now).min(stop(s, days, now + 40));
    let due_left = || {
        (0..3).any(|s| {
            let db = if s == 0 { &db } else { &nodes[s - 1].db };
            let blocks = (1..sure(s, c.block_days)).any(|n| {
                let k = [&[if s == 0 { 1u8 } else { 2 }][..], &n.to_be_bytes()].concat();
                block_job && c.synced && db.get(&k).unwrap().is_some()
            });
            let events = event_job && s > 0 && c.events > 0 && {
                let k = [&[9u8][..], &(1u64 << 14).to_be_bytes()].concat();
                sure(s, c.event_days) > 1 && db.get(&k).unwrap().is_some()
            };
            blocks || events
        })
    };
    let (tx, rx) = tokio::sync::watch::channel(c.synced);
    rt.block_on(async {
        let mut sched = tokio_cron_scheduler::JobScheduler::new().await.unwrap();
        if block_job {
            let j = snapchain::jobs::block_pruning::block_pruning_job("0/1 * * * * *", day(c.block_days), blocks.clone(), stores.clone(), rx).unwrap();
            sched.add(j).await.unwrap();
        }
        if event_job {
            let j = snapchain::jobs::event_pruning::event_pruning_job("0/1 * * * * *", day(c.event_days), stores.clone()).unwrap();
            sched.add(j).await.unwrap();
        }
        sched.start().await.unwrap();
        // two runs at least; on a busy machine, until what is due by now has gone
        for i in 0..60 {
            tokio::time::sleep(Duration::from_millis(500)).await;
            if i >= 5 && !due_left() {
                break;
            }
        }
        sched.shutdown().await.unwrap();
        tokio::time::sleep(Duration::from_millis(100)).await;
    });
    drop(tx);
    let after: Vec<Rows> = std::iter::once(dump(&db)).chain(nodes.iter().map(|n| dump(&n.db))).collect();
    let later = snapchain::core::util::get_farcaster_time().unwrap();
    let (mut gone, mut left) = (0, 0);
    for (s, ages) in c.ages.iter().enumerate() {
        // the cutoff moved with the clock while the jobs ran: both ends are allowed
        for (k, v) in &before[s] {
            let now_row = after[s].get(k);
            let (n, on, days) = match k[0] {
                1 | 2 => (key_number(k), block_job && c.synced, c.block_days),
                9 => (key_number(k) >> 14, event_job && s > 0, c.event_days),
                _ => {
                    ensure!(now_row == Some(v), "shard {s}: row {} changed", hex::encode(k));
                    continue;
                }
            };
            let (a, b) = (stop(s, days, now), stop(s, days, later));
            match now_row {
                Some(w) => {
                    left += 1;
                    ensure!(v == w, "shard {s}: row {} changed", hex::encode(k));
                    // not even the youngest of the two cutoffs was applied
                    ensure!(!on || n >= a.min(b), "shard {s}: {} of height {n} outlived {days} days", if k[0] == 9 { "an event" } else { "the block" });
                }
                None => {
                    gone += 1;
                    ensure!(
                        on && n < a.max(b),
                        "shard {s}: {} of height {n}, age {} s, was pruned (retention {days} days, synced {})",
                        if k[0] == 9 { "an event" } else { "the block" },
                        ages[n as usize - 1],
                        c.synced
                    );
                }
            }
        }
        ensure!(after[s].keys().all(|k| before[s].contains_key(k)), "shard {s}: rows added");
    }
    o.label_if(!c.synced && block_job, "not in sync");
    if gone > 0 && left > 0 {
        o.nt();
    }
    Ok(())
}
