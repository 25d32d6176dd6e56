//! Migrations: however often they are interrupted, they end with the rows a node that never needed
//! them has.
use crate::frame::{Obs, R};
use crate::gens::*;
use crate::world::*;
use proptest::prelude::*;
use prost::Message as _;
use serde::{Deserialize, Serialize};
use snapchain::mempool::mempool::{MempoolRequest, MempoolSource};
use snapchain::proto;
use snapchain::storage::store::account::{
    make_fid_key, make_fname_username_proof_by_fid_key, OnchainEventStore, StoreEventHandler, VerificationStoreDef,
};
use snapchain::storage::store::mempool_poller::MempoolMessage;
use snapchain::storage::store::migrations::{MigrationContext, MigrationRunner, LATEST_SCHEMA_VERSION};
use snapchain::storage::trie::merkle_trie::{self, TrieKey};
use std::collections::{BTreeMap, BTreeSet};
use std::path::Path;
use std::sync::mpsc;
use std::time::Duration;

#[derive(Debug, Clone, Serialize, Deserialize, PartialEq)]
pub struct Run {
    /// writes that succeed before the process dies
    kill: Option<u8>,
    /// the next block is committed while it runs, from its n-th step on
    during: Option<u8>,
    /// blocks committed before the next start
    then: u8,
}
#[derive(Debug, Clone, Serialize, Deserialize, PartialEq)]
pub struct Case {
    h: History,
    /// further chain events of fid 1001 that are no registrations
    more: u8,
    /// blocks before the node is upgraded
    split: u8,
    /// which per-fid name rows are missing
    names: u8,
    /// which verifications the old rows know (the later ones come from an interrupted migration)
    old: u8,
    /// slots of verifications that have gone
    stray: u8,
    runs: Vec<Run>,
}
pub fn case() -> BoxedStrategy<Case> {
    let run = (proptest::option::weighted(0.4, 0u8..9), proptest::option::weighted(0.7, 0u8..14), prop_oneof![2 => Just(0u8), 3 => 1u8..3])
        .prop_map(|(kill, during, then)| Run { kill, during, then });
    let mix = Mix { per_block: (1, 5), blocks: (4, 12), names: 8, vers: 14, msgs: 8, ..FULL };
    (
        history(mix),
        prop_oneof![6 => Just(0u8), 1 => any::<u8>()],
        any::<u8>(),
        any::<u8>(),
        prop_oneof![3 => Just(255u8), 1 => any::<u8>()],
        prop_oneof![2 => Just(0u8), 1 => any::<u8>()],
        pvec(run, 0..4),
    )
        .prop_map(|(h, more, split, names, old, stray, runs)| Case {
            // shard 0 takes verifications of registered fids only
            h: History { setup: 15, ..h },
            more, split, names, old, stray, runs })
        .boxed()
}
type Rows = BTreeMap<Vec<u8>, Vec<u8>>;
const VER: u8 = 14;
const NAME: u8 = 11;
const NAME_BY_FID: u8 = 15;
const SCHEMA: u8 = 13;

/// fids that hold names here, with the names
fn holders(rows: &Rows) -> BTreeMap<u64, BTreeSet<Vec<u8>>> {
    let mut m: BTreeMap<u64, BTreeSet<Vec<u8>>> = BTreeMap::new();
    for (k, v) in rows.iter().filter(|(k, _)| k[0] == NAME) {
        let p = proto::UserNameProof::decode(&v[..]).unwrap();
        m.entry(p.fid).or_default().insert(k.clone());
    }
    m
}
/// fids the migration visits: those with a registration among this shard's chain events
fn registered(rows: &Rows) -> BTreeSet<u64> {
    rows.iter()
        .filter(|(k, _)| k[0] == 12)
        .filter_map(|(_, v)| proto::OnChainEvent::decode(&v[..]).ok())
        .filter(|e| matches!(&e.body, Some(proto::on_chain_event::Body::IdRegisterEventBody(b)) if b.event_type() == proto::IdRegisterEventType::Register))
        .map(|e| e.fid)
        .collect()
}
fn trie_keys(node: &Node) -> BTreeSet<Vec<u8>> {
    let mut s = node.e.get_stores();
    s.trie.reload(&node.db).unwrap();
    s.trie.get_all_values(&merkle_trie::Context::new(), &node.db, &[]).unwrap().into_iter().collect()
}
fn make_old(node: &Node, c: &Case, o: &mut Obs) -> usize {
    let rows = node.dump();
    let mut txn = node.db.txn();
    let mut made = 0;
    let mut i = 0;
    for (k, v) in rows.iter().filter(|(k, _)| k[0] == VER && k.len() > 4) {
        if v.len() != 24 {
            continue;
        }
        if c.old >> (i % 8) & 1 == 1 {
            txn.delete(k.clone());
        }
        // one slot per address, for whoever came last
        txn.put(k[..k.len() - 4].to_vec(), k[k.len() - 4..].to_vec());
        made += 1;
        i += 1;
    }
    o.label_if(made > 0, "verifications");
    for a in 0..8u8 {
        if c.stray >> a & 1 == 1 {
            let mut k = vec![VER];
            k.extend(addr(a));
            txn.put(k, make_fid_key(fid(a)));
            made += 1;
        }
    }
    for (i, (k, _)) in rows.iter().filter(|(k, _)| k[0] == NAME_BY_FID).enumerate() {
        if c.names >> (i % 8) & 1 == 1 {
            txn.delete(k.clone());
            made += 1;
            o.label("a name without its row");
        }
    }
    node.db.commit(txn).unwrap();
    made
}
fn strip(m: &Rows) -> Rows {
    m.iter().filter(|(k, _)| k[0] != SCHEMA && k[0] != NAME_BY_FID).map(|(k, v)| (k.clone(), v.clone())).collect()
}

pub fn check(c: &Case, o: &mut Obs) -> R {
    let rt = rt();
    let mut twin = Node::new(&rt);
    let mut node = Node::new(&rt);
    let first = setup_ops(c.h.setup);
    if c.more > 128 {
        o.label("many transfers");
    }
    let mut all = vec![first];
    all.extend(c.h.blocks.iter().cloned());
    let chunks: Vec<_> = all
        .iter()
        .enumerate()
        .map(|(i, ops)| {
            let mut msgs = mempool(ops, twin.last_seq());
            if i == 0 && c.more > 128 {
                // more pages of events than the iteration over fids takes at once
                for i in 0..c.more - 20 {
                    let mut e = id_event(0, 1, 0);
                    e.block_number += 1_000 + i as u32;
                    e.log_index = i as u32;
                    msgs.push(MempoolMessage::OnchainEvent(e));
                }
            }
            (twin.block(&rt, msgs, block_ts(i)).0, twin.root(), twin.dump())
        })
        .collect();
    // the registry gives a fid one name; of two, giving one up takes the row of the other
    let mut given: BTreeMap<u64, BTreeSet<u8>> = BTreeMap::new();
    for op in all.iter().flatten() {
        if let Op::Fname { n, to, .. } = op {
            given.entry(fid(*to)).or_default().insert(*n);
        }
    }
    let twice: BTreeSet<u64> = given.into_iter().filter(|(_, n)| n.len() > 1).map(|(f, _)| f).collect();
    let split = 1 + c.split as usize % chunks.len();
    for (ch, _, _) in &chunks[..split] {
        node.start_round();
        node.commit(&rt, ch);
    }
    let made = make_old(&node, c, o);
    let mut next = split;
    let mut live = false;
    let mut finished = false;
    let mut runs = c.runs.clone();
    runs.push(Run { kill: None, during: None, then: 0 });
    for (i, run) in runs.iter().enumerate() {
        let stores = node.e.get_stores();
        let version = stores.get_schema_version().map_err(|e| format!("{e:?}"))?;
        ensure!(finished == (version >= LATEST_SCHEMA_VERSION), "start {i}: schema version {version}, finished before: {finished}");
        // the process starts again: the trie as it is on disk
        let mut trie = snapchain::storage::trie::merkle_trie::MerkleTrie::new().unwrap();
        trie.initialize(&node.db).map_err(|e| format!("{e:?}"))?;
        let mut stores = node.e.get_stores();
        stores.trie = trie;
        let runner = MigrationRunner::new(MigrationContext { db: node.db.clone(), stores });
        let beside = run.during.filter(|_| next < chunks.len() && run.kill.is_none());
        let dir = node.db.location();
        let done = {
            let guard = run.kill.map(|k| rocksdb::shim::Guard::new(Path::new(&dir), Some(k as u64)));
            let (started, done) = std::thread::scope(|s| {
                let (go, wait) = mpsc::channel::<()>();
                let (tell, told) = mpsc::channel::<()>();
                let mover = s.spawn(move || {
                    if let Some(at) = beside {
                        let mut n = 0u8;
                        let mut go = Some(go);
                        rocksdb::shim::on_point(Some(Box::new(move || {
                            if n == at {
                                if let Some(go) = go.take() {
                                    let _ = go.send(());
                                    // it may have to wait for a lock held here
                                    let _ = told.recv_timeout(Duration::from_millis(25));
                                }
                            }
                            n = n.saturating_add(1);
                        })));
                    } else {
                        drop(go);
                    }
                    let r = crate::world::rt().block_on(async {
                        match runner.run_pending_migrations().await {
                            Ok(Some(h)) => h.await.unwrap().map(|_| true),
                            Ok(None) => Ok(false),
                            Err(e) => Err(e),
                        }
                    });
                    rocksdb::shim::on_point(None);
                    r
                });
                let mut committed = false;
                if wait.recv().is_ok() {
                    node.start_round();
                    node.commit(&rt, &chunks[next].0);
                    committed = true;
                    let _ = tell.send(());
                }
                (committed, mover.join().unwrap())
            });
            if started {
                next += 1;
                live = true;
                o.label("a block beside the migration");
            }
            drop(guard);
            done
        };
        let version = node.e.get_stores().get_schema_version().unwrap();
        match (&done, run.kill) {
            (Ok(ran), _) => {
                ensure_eq!(*ran, !finished, "start {i} migrated");
                ensure_eq!(version, LATEST_SCHEMA_VERSION, "schema version after a migration");
                if !finished {
                    let want = &chunks[next - 1];
                    let got = node.dump();
                    if let Some(d) = diff(&strip(&got), &strip(&want.2)) {
                        return Err(format!("after the migration (first) and on a node that never needed it: {d}"));
                    }
                    let held = holders(&got);
                    let keys = trie_keys(&node);
                    for f in registered(&got).difference(&twice).copied() {
                        let Some(names) = held.get(&f) else { continue };
                        // renewing a name takes its key off the trie (C22's finding), which is where the migration looks
                        if !names.iter().any(|n| keys.contains(&TrieKey::for_fname(f, &String::from_utf8(n[1..].to_vec()).unwrap()))) {
                            o.label("a renewed name");
                            continue;
                        }
                        let row = got.get(&make_fname_username_proof_by_fid_key(f));
                        let Some(row) = row else {
                            return Err(format!("fid {f} holds {} names and none is found by fid", names.len()));
                        };
                        ensure!(names.contains(row), "the name found by fid {f} is not one of its");
                    }
                    let unsure: BTreeSet<Vec<u8>> = twice.iter().map(|f| make_fname_username_proof_by_fid_key(*f)).collect();
                    for (k, v) in got.iter().filter(|(k, _)| k[0] == NAME_BY_FID && !unsure.contains(*k)) {
                        let f = held.iter().find(|(f, _)| make_fname_username_proof_by_fid_key(**f) == *k);
                        ensure!(f.is_some_and(|(_, n)| n.contains(v)), "a name is found by the fid {} that does not hold it", hex::encode(k));
                    }
                }
                finished = true;
            }
            (Err(_), Some(_)) => {
                o.label("killed");
                // only its last write was lost, which says that it is no longer running
                if version >= LATEST_SCHEMA_VERSION {
                    o.label("killed at its last write");
                    finished = true;
                    let want = &chunks[next - 1];
                    if let Some(d) = diff(&strip(&node.dump()), &strip(&want.2)) {
                        return Err(format!("a migration that counts as done (first): {d}"));
                    }
                }
            }
            // beside a block it may lose its footing in the trie or a lock; the next start repeats it
            (Err(_), None) if live => o.label("gave up beside a block"),
            (Err(e), None) => return Err(format!("the migration failed: {e:?}")),
        }
        node.restart(&rt);
        for _ in 0..run.then {
            if next < chunks.len() {
                node.start_round();
                node.commit(&rt, &chunks[next].0);
                next += 1;
                live |= !finished;
            }
        }
    }
    if !finished {
        return Ok(());
    }
    while next < chunks.len() {
        node.start_round();
        node.commit(&rt, &chunks[next].0);
        next += 1;
    }
    ensure_eq!(node.root(), chunks[next - 1].1, "root at the end");
    if let Some(d) = diff(&strip(&node.dump()), &strip(&chunks[next - 1].2)) {
        return Err(format!("at the end (migrated first): {d}"));
    }
    if made > 0 && live {
        o.nt();
    }
    Ok(())
}

// ---------------------------------------------------------------- chain events to shard 0

#[derive(Debug, Clone, Serialize, Deserialize, PartialEq)]
pub struct MoveCase {
    /// events of the data shard: fid, kind, and how many of the kind
    events: Vec<(u8, u8, u8)>,
    /// which shard 0 has already
    have: u8,
    /// after so many messages the mempool goes away, per run
    runs: Vec<u16>,
    /// sizes the mempool reports
    sizes: Vec<u16>,
}
pub fn move_case() -> BoxedStrategy<MoveCase> {
    (
        pvec((0u8..5, 0u8..3, prop_oneof![3 => 1u8..6, 1 => 60u8..140]), 0..7),
        any::<u8>(),
        pvec(prop_oneof![2 => 0u16..20, 2 => 80u16..220, 1 => 220u16..500], 0..4),
        pvec(prop_oneof![3 => Just(0u16), 2 => 990u16..1010, 1 => any::<u16>()], 0..8),
    )
        .prop_map(|(events, have, runs, sizes)| MoveCase { events, have, runs, sizes })
        .boxed()
}
pub fn moves(c: &MoveCase, o: &mut Obs) -> R {
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().start_paused(true).build().unwrap();
    let node = Node::new(&rt);
    let dir = tempfile::TempDir::new().unwrap();
    let open = |n: &str| {
        let db = snapchain::storage::db::RocksDB::new(dir.path().join(n).to_str().unwrap());
        db.open().unwrap();
        std::sync::Arc::new(db)
    };
    let (zero, local) = (open("zero"), open("local"));
    let put = |db: &std::sync::Arc<snapchain::storage::db::RocksDB>, e: &proto::OnChainEvent| {
        let s = OnchainEventStore::new(db.clone(), StoreEventHandler::new());
        let mut txn = db.txn();
        s.store_event_handler.set_current_height(1);
        let ok = s.merge_onchain_event(e.clone(), &mut txn).is_ok();
        db.commit(txn).unwrap();
        ok
    };
    let mut all: BTreeMap<Vec<u8>, proto::OnChainEvent> = BTreeMap::new();
    let mut want: BTreeSet<Vec<u8>> = BTreeSet::new();
    let mut i = 0u32;
    for (f, kind, n) in &c.events {
        for _ in 0..*n {
            let mut e = match kind {
                0 => id_event(*f, 1, 0),
                1 => signer_event(*f, 0, 0, 0),
                _ => rent_event(*f, 1, 0),
            };
            e.block_number = 100 + i / 3;
            e.log_index = i % 3;
            i += 1;
            if put(&node.db, &e) {
                if c.have >> (i % 8) & 1 == 1 {
                    put(&zero, &e);
                } else {
                    want.insert(e.encode_to_vec());
                }
                all.insert(e.encode_to_vec(), e);
            }
        }
    }
    let dump = |db: &snapchain::storage::db::RocksDB| {
        let mut m = BTreeMap::new();
        db.for_each_iterator_by_prefix(Some(vec![0]), Some(vec![255; 64]), &Default::default(), |k, v| {
            m.insert(k.to_vec(), v.to_vec());
            Ok(false)
        })
        .unwrap();
        m
    };
    let (source, target) = (dump(&node.db), dump(&zero));
    let state = snapchain::storage::store::node_local_state::LocalStateStore::new(local.clone());
    let mut sent: BTreeSet<Vec<u8>> = BTreeSet::new();
    let mut runs: Vec<Option<u16>> = c.runs.iter().map(|r| Some(*r)).collect();
    runs.push(None);
    let mut interrupted = false;
    let mut resumed = false;
    for (r, stop) in runs.iter().enumerate() {
        let (tx, mut rx) = tokio::sync::mpsc::channel::<MempoolRequest>(1_000);
        let token = state.get_onchain_events_migration_page_token(1).unwrap();
        let fresh = token.is_none();
        resumed |= !fresh;
        let mut this: Vec<Vec<u8>> = vec![];
        let mut bad = None;
        let mut full = false;
        let mut since = 0u32;
        rt.block_on(async {
            let job = tokio::spawn(snapchain::jobs::migrate_onchain_events::migrate_onchain_events(
                node.e.get_stores(),
                zero.clone(),
                tx,
                state.clone(),
                snapchain::storage::store::test_helper::statsd_client(),
            ));
            let mut sizes = c.sizes.iter();
            while stop.is_none_or(|s| this.len() < s as usize) {
                match rx.recv().await {
                    None => break,
                    Some(MempoolRequest::GetSize(t)) => {
                        let n = *sizes.next().unwrap_or(&0) as u64;
                        full = n >= 1_000;
                        since = 0;
                        // other shards' queues are none of its business
                        let _ = t.send([(0u32, n), (1, 1_000_000)].into_iter().collect());
                    }
                    Some(MempoolRequest::AddMessage(MempoolMessage::OnchainEventForMigration(e), MempoolSource::Local, _)) => {
                        since += 1;
                        if full {
                            bad = Some("an event was sent to a mempool that is full".to_string());
                        }
                        if since > 100 {
                            bad = Some("more than a batch without asking how full the mempool is".to_string());
                        }
                        this.push(e.encode_to_vec())
                    }
                    Some(m) => bad = Some(format!("sent {m:?}")),
                }
            }
            // what is in the channel counts as sent
            rx.close();
            while let Ok(m) = rx.try_recv() {
                match m {
                    MempoolRequest::AddMessage(MempoolMessage::OnchainEventForMigration(e), MempoolSource::Local, _) => this.push(e.encode_to_vec()),
                    MempoolRequest::GetSize(_) => {}
                    m => bad = Some(format!("sent {m:?}")),
                }
            }
            drop(rx);
            let _ = tokio::time::timeout(Duration::from_secs(3_600), job).await.map_err(|_| bad = Some("never ended".into()));
        });
        if let Some(b) = bad {
            return Err(b);
        }
        for e in &this {
            ensure!(all.contains_key(e), "an event that is not the source's");
            ensure!(want.contains(e), "an event shard 0 has already");
        }
        let once: BTreeSet<_> = this.iter().cloned().collect();
        ensure_eq!(once.len(), this.len(), "an event sent twice in run {r}");
        sent.extend(once.iter().cloned());
        let token = state.get_onchain_events_migration_page_token(1).unwrap();
        if stop.is_none() {
            ensure!(token.is_none(), "a run that ended left a page token");
            ensure!(sent.is_superset(&want), "{} of {} events were never sent", want.difference(&sent).count(), want.len());
            if fresh {
                ensure_eq!(once, want, "a run from the start");
            }
        } else if token.is_some() {
            interrupted = true;
        } else if fresh && once != want && want.len() <= this.len() {
            return Err("a run that lost its mempool counts as ended".into());
        }
    }
    ensure!(dump(&node.db) == source && dump(&zero) == target, "a database was changed");
    o.label_if(resumed, "taken up again");
    o.label_if(want.len() > 100, "several batches");
    if interrupted && resumed {
        o.nt();
    }
    let _ = VerificationStoreDef::make_verification_by_address_key(&[], 0);
    Ok(())
}
