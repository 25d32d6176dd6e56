//! C41: what a node loads from a published snapshot is what was backed up last.
use crate::bucket::*;
use crate::frame::{Obs, Prop, R};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use snapchain::proto::FarcasterNetwork;
use snapchain::storage::db::snapshot::{self as snap, Config, SnapshotError};
use snapchain::storage::db::multi_chunk_writer::MultiChunkWriter;
use snapchain::storage::db::RocksDB;
use snapchain::utils::statsd_wrapper::StatsdClientWrapper;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::future::Future;
use std::io::{Read, Write};
use std::path::Path;
use std::rc::Rc;
use std::sync::Arc;
use tokio::sync::Notify;

const NET: FarcasterNetwork = FarcasterNetwork::Devnet;
const SHARDS: [u32; 5] = [0, 1, 2, 10, 12];

type Tree = BTreeMap<String, Vec<u8>>;
fn read_tree(at: &Path) -> Tree {
    fn walk(base: &Path, at: &Path, out: &mut Tree) {
        let Ok(d) = std::fs::read_dir(at) else { return };
        for e in d {
            let p = e.unwrap().path();
            if p.is_dir() {
                walk(base, &p, out)
            } else {
                out.insert(p.strip_prefix(base).unwrap().to_str().unwrap().to_string(), std::fs::read(&p).unwrap());
            }
        }
    }
    let mut out = Tree::new();
    walk(at, at, &mut out);
    out
}
fn show(t: &Tree) -> String {
    t.iter().map(|(k, v)| format!("{k}:{}:{:02x}", v.len(), v.iter().fold(0u8, |a, b| a.wrapping_mul(31).wrapping_add(*b)))).collect::<Vec<_>>().join(" ")
}
fn noise(seed: u64, n: usize) -> Vec<u8> {
    let mut x = seed | 1;
    (0..n)
        .map(|_| {
            x ^= x << 13;
            x ^= x >> 7;
            x ^= x << 17;
            (x >> 24) as u8
        })
        .collect()
}

// ---- the writer ----------------------------------------------------------------------------------

#[derive(Debug, Clone, Serialize, Deserialize, PartialEq)]
struct Parts {
    max: usize,
    writes: Vec<(u16, u8)>,
    flush: Vec<u8>,
}
fn gunzip(p: &Path) -> Result<Vec<u8>, String> {
    let mut v = vec![];
    flate2::read::GzDecoder::new(std::fs::File::open(p).map_err(|e| e.to_string())?)
        .read_to_end(&mut v)
        .map_err(|e| format!("{p:?} does not decompress: {e}"))?;
    Ok(v)
}
fn parts(c: &Parts, o: &mut Obs) -> R {
    let dir = tempfile::TempDir::new().unwrap();
    let at = dir.path().join("new").join("parts");
    let mut w = MultiChunkWriter::new(at.clone(), c.max);
    let mut all = vec![];
    for (i, (n, s)) in c.writes.iter().enumerate() {
        let b = noise(*s as u64 + i as u64 * 977 + 1, *n as usize);
        w.write_all(&b).map_err(|e| format!("write of {n}: {e}"))?;
        all.extend_from_slice(&b);
        if c.flush.contains(&(i as u8)) {
            w.flush().map_err(|e| format!("flush: {e}"))?;
        }
    }
    w.finish().map_err(|e| format!("finish: {e}"))?;
    drop(w);
    let tree = read_tree(&at);
    let mut got = vec![];
    let largest = c.writes.iter().map(|w| w.0 as usize).max().unwrap_or(0);
    for (i, name) in tree.keys().enumerate() {
        ensure_eq!(name, &format!("chunk_{:04}.bin", i + 1), "name of part {}", i + 1);
        let b = gunzip(&at.join(name))?;
        ensure!(b.len() <= c.max.max(largest), "part {name} holds {} bytes, more than {}", b.len(), c.max);
        got.extend(b);
    }
    ensure!(got == all, "the parts in order hold {} bytes, other than the {} written", got.len(), all.len());
    if tree.len() > 2 {
        o.nt()
    }
    Ok(())
}

// ---- publishing and downloading ------------------------------------------------------------------

#[derive(Debug, Clone, Serialize, Deserialize, PartialEq)]
enum Step {
    /// back up this content for a shard and publish it, then clear the old ones
    Publish { shard: u8, files: Vec<(u16, u8)>, max: u16, clear: bool, faults: Vec<(u8, u8, Fault)> },
    Download { shards: u8, faults: Vec<(u8, u8, Fault)> },
    Hours(u8),
}
#[derive(Debug, Clone, Serialize, Deserialize, PartialEq)]
struct Hist {
    steps: Vec<Step>,
}
struct Rig {
    rt: tokio::runtime::Runtime,
    set: tokio::task::LocalSet,
    b: Shared,
    crash: Arc<Notify>,
    cfg: Config,
    dir: tempfile::TempDir,
    statsd: StatsdClientWrapper,
}
fn rig() -> Rig {
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().start_paused(true).build().unwrap();
    let b: Shared = Rc::new(RefCell::new(Bucket::default()));
    let crash = Arc::new(Notify::new());
    let set = tokio::task::LocalSet::new();
    let l = std::net::TcpListener::bind("127.0.0.1:0").expect("loopback");
    let port = l.local_addr().unwrap().port();
    l.set_nonblocking(true).unwrap();
    {
        let _g = rt.enter();
        let l = tokio::net::TcpListener::from_std(l).unwrap();
        set.spawn_local(serve(l, b.clone(), crash.clone()));
    }
    let dir = tempfile::TempDir::new().unwrap();
    let path = |s: &str| dir.path().join(s).to_str().unwrap().to_string();
    let cfg = Config {
        endpoint_url: format!("http://127.0.0.1:{port}"),
        s3_bucket: "box".into(),
        backup_dir: path("backup"),
        snapshot_download_dir: path("dl"),
        snapshot_download_url: format!("http://127.0.0.1:{port}/pub"),
        aws_access_key_id: "id".into(),
        aws_secret_access_key: "secret".into(),
        ..Config::default()
    };
    let statsd = StatsdClientWrapper::new(cadence::StatsdClient::builder("", cadence::NopMetricSink {}).build(), true);
    Rig { rt, set, b, crash, cfg, dir, statsd }
}
/// None: the process died on the way.
fn run<T>(r: &Rig, faults: &[(u8, u8, Fault)], f: impl Future<Output = T>) -> Option<T> {
    {
        let mut b = r.b.borrow_mut();
        b.n = 0;
        b.hit = 0;
        b.fragile = 0;
        b.faults = faults.iter().map(|f| (f.0 as u32, f.1 as u32, f.2)).collect();
        b.deleted.clear();
        b.writes.clear();
    }
    let crash = r.crash.clone();
    let out = r.set.block_on(&r.rt, async move {
        tokio::select! {
            biased;
            _ = crash.notified() => None,
            x = f => Some(x),
        }
    });
    r.b.borrow_mut().faults.clear();
    out
}
const MANY: u8 = 40;
fn has(fs: &[(u8, u8, Fault)], p: impl Fn(&(u8, u8, Fault)) -> bool) -> bool {
    fs.iter().any(p)
}
fn circle(c: &Hist, o: &mut Obs) -> R {
    let r = rig();
    // what a download must give, per shard
    let mut published: BTreeMap<u32, Tree> = BTreeMap::new();
    let mut clock = -(30 * 24 * 3600i64);
    rocksdb::shim::set_clock(clock);
    let key = |s: u32, f: &str| format!("{}/{s}/{f}", NET.as_str_name());
    let mut publishes = 0;
    for (at, step) in c.steps.iter().enumerate() {
        match step {
            Step::Hours(h) => {
                clock += *h as i64 * 3600;
                rocksdb::shim::set_clock(clock);
            }
            Step::Publish { shard, files, max, clear, faults } => {
                // a snapshot is named by its second
                clock += 7;
                rocksdb::shim::set_clock(clock);
                let shard = SHARDS[*shard as usize % SHARDS.len()];
                let name = format!("shard-{shard}");
                let src = r.dir.path().join(format!("src{at}")).join(&name);
                std::fs::create_dir_all(&src).unwrap();
                for (i, (n, s)) in files.iter().enumerate() {
                    std::fs::write(src.join(format!("{i:06}.sst")), noise(*s as u64 * 1009 + at as u64 + 1, *n as usize)).unwrap();
                }
                let chunks = r.dir.path().join(format!("chunks{at}"));
                let mut w = MultiChunkWriter::new(chunks.clone(), *max as usize);
                let mut tar = tar::Builder::new(&mut w);
                tar.append_dir_all(&name, &src).unwrap();
                tar.finish().unwrap();
                drop(tar);
                w.finish().map_err(|e| e.to_string())?;
                drop(w);
                let want: Tree = read_tree(&src);
                let n = std::fs::read_dir(&chunks).unwrap().count();
                o.label_if(n > 9, "ten or more chunks");
                let before = r.b.borrow().objects.clone();
                let latest = key(shard, "latest.json");
                let path = chunks.to_str().unwrap().to_string();
                let res = run(&r, faults, snap::upload_to_s3(NET, path, &r.cfg, shard, &r.statsd));
                {
                    let b = r.b.borrow();
                    if let Some(bad) = &b.bad {
                        return Err(format!("harness: {bad}"));
                    }
                    for w in &b.writes {
                        ensure!(w.starts_with(&key(shard, "")), "publishing shard {shard} wrote {w}");
                    }
                    for (k, v) in &before {
                        ensure!(b.objects.contains_key(k), "publishing shard {shard} removed {k}");
                        ensure!(k.starts_with(&key(shard, "")) || b.objects[k] == *v, "publishing shard {shard} changed {k}");
                    }
                    let named = b.writes.contains(&latest);
                    match &res {
                        Some(Ok(())) => ensure!(named, "published, yet the latest snapshot is another"),
                        Some(Err(e)) => {
                            // each object is tried six times
                            ensure!(has(faults, |f| f.1 > 5) || faults.len() > 1, "publishing failed although no request failed six times: {e}; {} failures", b.hit);
                            o.label("publishing failed");
                        }
                        None => o.label("died while publishing"),
                    }
                    if named {
                        published.insert(shard, want);
                        publishes += 1;
                    }
                }
                if *clear && matches!(res, Some(Ok(()))) {
                    let before = r.b.borrow().objects.clone();
                    let fs: Vec<_> = faults.iter().filter(|f| f.1 > 3).map(|f| (f.0 % 3, f.1, f.2)).collect();
                    let res = run(&r, &fs, snap::clear_old_snapshots(NET, &r.cfg, shard));
                    let b = r.b.borrow();
                    let done = matches!(res, Some(Ok(())));
                    ensure!(done || b.hit > 0 || res.is_none(), "clearing failed: {:?}", res.map(|r| r.map_err(|e| e.to_string())));
                    let meta: serde_json::Value = serde_json::from_slice(&b.objects[&latest]).unwrap();
                    let base = meta["key_base"].as_str().unwrap().to_string();
                    for k in before.keys() {
                        let own = k.starts_with(&key(shard, ""));
                        let keep = !own || *k == latest || k.starts_with(&format!("{base}/"));
                        if keep {
                            ensure!(b.objects.contains_key(k), "clearing the old snapshots of shard {shard} removed {k}");
                        } else if done {
                            ensure!(!b.objects.contains_key(k), "clearing the old snapshots of shard {shard} left {k}");
                            o.label("an old snapshot cleared");
                        }
                    }
                }
            }
            Step::Download { shards, faults } => {
                let ids: Vec<u32> = SHARDS.iter().enumerate().filter(|(i, s)| if *shards >= 32 { published.contains_key(*s) } else { shards >> i & 1 == 1 }).map(|s| *s.1).collect();
                let to = r.dir.path().join(format!("db{at}"));
                let before = r.b.borrow().objects.clone();
                let res = run(&r, faults, snap::download_snapshots(NET, &r.cfg, to.to_str().unwrap().to_string(), ids.clone()));
                ensure!(r.b.borrow().objects == before, "a download changed the store");
                let got = read_tree(&to);
                match res {
                    Some(Ok(())) => {
                        let mut want = Tree::new();
                        for s in &ids {
                            let Some(t) = published.get(s) else { return Err(format!("download of shard {s} succeeded, yet it was never published")) };
                            want.extend(t.iter().map(|(k, v)| (format!("shard-{s}/{k}"), v.clone())));
                        }
                        ensure!(got == want, "downloaded {} where {} was backed up", show(&got), show(&want));
                        ensure!(!Path::new(&r.cfg.snapshot_download_dir).exists(), "the download directory is left behind");
                        o.label("downloaded");
                        o.label_if(r.b.borrow().hit > 0, "downloaded in spite of failures");
                        if publishes > 1 {
                            o.nt();
                        }
                    }
                    Some(Err(e)) => {
                        let missing = ids.iter().any(|s| !published.contains_key(s));
                        let b = r.b.borrow();
                        // the description is asked for once, each chunk six times
                        ensure!(missing || b.fragile > 0 || has(faults, |f| f.1 > 5) || faults.len() > 1, "the download failed although nothing stood in its way ({} failures): {e}", b.hit);
                        o.label("download failed");
                        for (k, v) in &got {
                            let s: u32 = k.split(['-', '/']).nth(1).unwrap().parse().unwrap();
                            ensure!(published.get(&s).and_then(|t| t.get(k.split_once('/').unwrap().1)) == Some(v), "a failed download left {k} with other content than was backed up");
                        }
                    }
                    None => o.label("died while downloading"),
                }
            }
        }
    }
    Ok(())
}

// ---- the whole job -------------------------------------------------------------------------------

#[derive(Debug, Clone, Serialize, Deserialize, PartialEq)]
struct Job {
    shards: Vec<u8>,
    rows: Vec<u32>,
    only: Option<u8>,
    /// hours since an earlier run left something in the backup directory
    left: Option<u8>,
    closed: Option<u8>,
    again: bool,
}
fn fill(db: &RocksDB, n: u32, seed: u64) -> Tree {
    let mut t = Tree::new();
    let mut x = snapchain::storage::db::RocksDbTransactionBatch::new();
    for i in 0..n {
        let k = format!("{:02}{i:06}", seed % 90 + 5);
        let v = noise(seed * 7919 + i as u64 + 1, (i % 23) as usize);
        x.put(k.clone().into_bytes(), v.clone());
        t.insert(k, v);
    }
    db.commit(x).unwrap();
    t
}
fn rows(db: &RocksDB) -> Tree {
    let mut t = Tree::new();
    db.for_each_iterator_by_prefix_paged(None, None, &snapchain::storage::db::PageOptions { page_size: None, page_token: None, reverse: false }, |k, v| {
        t.insert(String::from_utf8_lossy(k).to_string(), v.to_vec());
        Ok(false)
    })
    .unwrap();
    t
}
fn job(c: &Job, o: &mut Obs) -> R {
    use snapchain::storage::store::{block_engine::BlockStores, stores::*};
    use snapchain::storage::trie::merkle_trie::MerkleTrie;
    let r = rig();
    rocksdb::shim::set_clock(-3 * 24 * 3600);
    let home = r.dir.path().join("home").to_str().unwrap().to_string();
    let zero = RocksDB::open_shard_db(&home, 0);
    let block = BlockStores::new(zero.clone(), MerkleTrie::new().unwrap(), NET);
    let mut dbs = vec![(0u32, zero)];
    let mut stores = HashMap::new();
    for s in &c.shards {
        let s = SHARDS[1 + *s as usize % 4];
        if stores.contains_key(&s) {
            continue;
        }
        let db = RocksDB::open_shard_db(&home, s);
        stores.insert(s, Stores::new(db.clone(), s, MerkleTrie::new().unwrap(), StoreLimits::default(), NET, r.statsd.clone()));
        dbs.push((s, db));
    }
    let mut want = BTreeMap::new();
    for (i, (s, db)) in dbs.iter().enumerate() {
        fill(db, c.rows[i % c.rows.len()], *s as u64 + 1);
        want.insert(*s, rows(db));
    }
    let backup = Path::new(&r.cfg.backup_dir).to_path_buf();
    if let Some(h) = c.left {
        std::fs::create_dir_all(backup.join("shard-1")).unwrap();
        std::fs::write(backup.join("shard-1").join("x"), b"left").unwrap();
        std::fs::write(backup.join("y"), b"left").unwrap();
        let t = std::time::SystemTime::now() - std::time::Duration::from_secs(h as u64 * 3600);
        std::fs::File::open(&backup).unwrap().set_modified(t).unwrap();
    }
    let only: Option<HashSet<u32>> = c.only.map(|m| SHARDS.iter().enumerate().filter(|(i, _)| m >> i & 1 == 1).map(|s| *s.1).collect());
    let dead = c.closed.map(|i| dbs[i as usize % dbs.len()].clone());
    let go = |r: &Rig| run(r, &[], snapchain::jobs::snapshot_upload::upload_snapshot(r.cfg.clone(), NET, block.clone(), stores.clone(), r.statsd.clone(), only.clone()));
    let taken = |s: &u32| only.as_ref().is_none_or(|o| o.contains(s));
    let recent = c.left.is_some_and(|h| h < 12);
    let res = go(&r).unwrap();
    if recent {
        ensure!(matches!(res, Err(SnapshotError::UploadAlreadyInProgress)), "a running backup was not noticed: {res:?}");
        ensure!(r.b.borrow().objects.is_empty(), "published while another backup runs");
        ensure_eq!(read_tree(&backup).len(), 2, "what the running backup had written");
        o.label("in progress");
        return Ok(());
    }
    ensure!(res.is_ok(), "{res:?}");
    if c.again || dead.is_some() {
        // a later backup takes the place of this one
        rocksdb::shim::set_clock(-2 * 24 * 3600);
        for (s, db) in &dbs {
            if dead.as_ref().is_some_and(|d| d.0 == *s) {
                db.close();
                continue;
            }
            fill(db, 3 + *s % 5, *s as u64 + 31);
            want.insert(*s, rows(db));
        }
        let res = go(&r).unwrap();
        ensure!(res.is_ok(), "{res:?}");
        o.label_if(dead.is_some(), "a database that is not open");
    }
    ensure!(backup.is_dir() && std::fs::read_dir(&backup).unwrap().next().is_none(), "the backup directory is not empty, but there, after a run");
    let ids: Vec<u32> = dbs.iter().map(|d| d.0).filter(taken).collect();
    for (s, _) in &dbs {
        let any = r.b.borrow().objects.keys().any(|k| k.starts_with(&format!("{}/{s}/", NET.as_str_name())));
        ensure_eq!(any, taken(s), "shard {s} published");
    }
    let to = r.dir.path().join("db").to_str().unwrap().to_string();
    let res = run(&r, &[], snap::download_snapshots(NET, &r.cfg, to.clone(), ids.clone())).unwrap();
    ensure!(res.is_ok(), "{:?}", res.map_err(|e| e.to_string()));
    for s in &ids {
        let db = RocksDB::open_shard_db(&to, *s);
        let got = rows(&db);
        ensure!(got == want[s], "shard {s}: {} rows restored, {} backed up", got.len(), want[s].len());
    }
    if ids.len() > 1 {
        o.nt();
    }
    Ok(())
}

fn faults() -> impl Strategy<Value = Vec<(u8, u8, Fault)>> {
    let kind = prop_oneof![
        3 => prop_oneof![Just(500u16), Just(503), Just(404), Just(403)].prop_map(Fault::Status),
        2 => Just(Fault::Drop),
        2 => Just(Fault::Cut),
        1 => Just(Fault::Crash),
    ];
    let one = (prop_oneof![3 => 0u8..6, 1 => 0u8..30], prop_oneof![4 => 1u8..6, 1 => Just(MANY)], kind);
    prop_oneof![4 => Just(vec![]), 3 => prop::collection::vec(one.clone(), 1..2), 1 => prop::collection::vec(one, 2..4)]
}
fn hist() -> BoxedStrategy<Hist> {
    let file = (prop_oneof![2 => 0u16..2000, 1 => Just(0u16), 1 => 2000u16..9000], any::<u8>());
    let publish = (prop_oneof![3 => 0u8..2, 2 => 0u8..5], prop::collection::vec(file, 0..5), prop_oneof![2 => 300u16..3000, 1 => 3000u16..20000], any::<bool>(), faults())
        .prop_map(|(shard, files, max, clear, faults)| Step::Publish { shard, files, max, clear, faults });
    let publish_again = (prop_oneof![Just(1u8), Just(3), Just(4)], 500u16..5000, any::<u8>())
        .prop_map(|(shard, n, s)| Step::Publish { shard, files: vec![(n, s)], max: 2000, clear: true, faults: vec![] });
    let down = (prop_oneof![1 => 1u8..4, 1 => 0u8..32, 4 => Just(255u8)], faults()).prop_map(|(shards, faults)| Step::Download { shards, faults }).boxed();
    let clock = prop_oneof![1 => Just(0u8), 2 => 1u8..60].prop_map(Step::Hours);
    (prop::collection::vec(prop_oneof![5 => publish, 3 => publish_again, 2 => down.clone(), 3 => clock], 1..8), down)
        .prop_map(|(mut steps, last)| {
            steps.push(last);
            Hist { steps }
        })
        .boxed()
}
pub fn c41(p: &mut Prop) {
    p.sub("parts", "three or more parts", 4_000, 60_000, || {
        (prop_oneof![1usize..50, 50usize..5000], prop::collection::vec((prop_oneof![4 => 0u16..600, 1 => 600u16..9000], any::<u8>()), 0..20), prop::collection::vec(0u8..20, 0..3))
            .prop_map(|(max, writes, flush)| Parts { max, writes, flush })
            .boxed()
    }, parts);
    p.sub("circle", "a download after two or more publications", 3_000, 40_000, hist, circle);
    p.sub("job", "two or more shards published and restored", 800, 8_000, || {
        let rows = prop_oneof![6 => 0u32..200, 2 => 9_998u32..10_003, 1 => 19_999u32..20_003];
        (prop::collection::vec(0u8..4, 0..3), prop::collection::vec(rows, 1..4), prop::option::weighted(0.4, 0u8..32), prop::option::weighted(0.3, prop_oneof![0u8..11, 13u8..40]), prop::option::weighted(0.2, 0u8..4), any::<bool>())
            .prop_map(|(shards, rows, only, left, closed, again)| Job { shards, rows, only, left, closed, again })
            .boxed()
    }, job);
}
