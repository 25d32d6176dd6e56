//! C37: write, diagnostic and admin calls ask for a configured user's password.
use crate::frame::{Obs, Prop, R};
use crate::gens::*;
use crate::world::{self, Node};
use base64::Engine as _;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use snapchain::connectors::fname::FnameRequest;
use snapchain::connectors::onchain_events::{ChainClients, OnchainEventsRequest};
use snapchain::mempool::mempool::{MempoolRequest, MempoolSource};
use snapchain::mempool::routing;
use snapchain::network::admin_server::MyAdminService;
use snapchain::network::gossip::GossipEvent;
use snapchain::network::server::MyHubService;
use snapchain::proto::{self, admin_service_server::AdminService, hub_service_server::HubService};
use snapchain::storage::store::block_engine::BlockStores;
use snapchain::storage::store::mempool_poller::MempoolMessage;
use snapchain::storage::store::node_local_state::LocalStateStore;
use snapchain::storage::store::test_helper as th;
use std::collections::HashMap;
use std::sync::{Arc, Mutex};

const USERS: [&str; 7] = ["alice", "bob", "Alice", "", "al", "böb", "root "];
const WORDS: [&str; 7] = ["pw", "s3cret", "PW", "", "p w", "pwd", "p"];

#[derive(Debug, Clone, Serialize, Deserialize, PartialEq)]
enum Entry {
    /// user:password
    Pair(u8, u8),
    /// no colon, or two: not a user
    Bare(u8),
    Triple(u8, u8, u8),
}
impl Entry {
    fn text(&self) -> String {
        match self {
            Entry::Pair(u, p) => format!("{}:{}", user(*u), word(*p)),
            Entry::Bare(u) => user(*u).into(),
            Entry::Triple(u, p, x) => format!("{}:{}:{}", user(*u), word(*p), word(*x)),
        }
    }
}
fn user(u: u8) -> &'static str {
    USERS[u as usize % USERS.len()]
}
fn word(p: u8) -> &'static str {
    WORDS[p as usize % WORDS.len()]
}
#[derive(Debug, Clone, Serialize, Deserialize, PartialEq)]
enum Header {
    None,
    /// scheme, user, password
    Basic(u8, u8),
    Scheme(u8, u8, u8),
    /// no separator / a second one
    Plain(u8, u8),
    /// the text itself, not in base64
    Raw(u8, u8),
    /// cut short: one character off the end of the base64
    Cut(u8, u8),
    /// something after the credentials, or nothing after the scheme
    Extra(u8, u8),
    Bare,
    /// not UTF-8 once decoded
    Bytes,
    /// a header value outside ASCII
    Opaque,
}
#[derive(Debug, Clone, Serialize, Deserialize, PartialEq)]
struct Case {
    rpc: Vec<Entry>,
    admin: Vec<Entry>,
    /// which call, with which header
    calls: Vec<(u8, Header)>,
    network: u8,
}

fn users(e: &[Entry]) -> HashMap<&'static str, &'static str> {
    let mut m = HashMap::new();
    for x in e {
        if let Entry::Pair(u, p) = x {
            m.insert(user(*u), word(*p));
        }
    }
    m
}
fn b64(s: impl AsRef<[u8]>) -> String {
    base64::engine::general_purpose::STANDARD.encode(s)
}
impl Header {
    fn value(&self) -> Option<tonic::metadata::AsciiMetadataValue> {
        let s = match self {
            Header::None => return None,
            Header::Basic(u, p) => format!("Basic {}", b64(format!("{}:{}", user(*u), word(*p)))),
            Header::Scheme(s, u, p) => {
                format!("{} {}", ["basic", "Bearer", "BASIC", "Basic:"][*s as usize % 4], b64(format!("{}:{}", user(*u), word(*p))))
            }
            Header::Plain(u, k) => format!(
                "Basic {}",
                b64(if k % 2 == 0 { user(*u).to_string() } else { format!("{}:{}:", user(*u), word(*k)) })
            ),
            Header::Raw(u, p) => format!("Basic {}:{}", user(*u).replace('ö', "o"), word(*p)),
            Header::Cut(u, p) => {
                let mut s = b64(format!("{}:{}", user(*u), word(*p)));
                s.pop();
                format!("Basic {s}")
            }
            Header::Extra(u, p) => format!("Basic {} x", b64(format!("{}:{}", user(*u), word(*p)))),
            Header::Bare => "Basic".into(),
            Header::Bytes => format!("Basic {}", b64([0xffu8, b':', 0xfe])),
            Header::Opaque => {
                return Some(tonic::metadata::AsciiMetadataValue::try_from(&b"Basic \xfe"[..]).unwrap())
            }
        };
        s.parse().ok()
    }
    fn grants(&self, m: &HashMap<&str, &str>) -> bool {
        m.is_empty() || matches!(self, Header::Basic(u, p) if m.get(user(*u)) == Some(&word(*p)))
    }
}

fn gen() -> BoxedStrategy<Case> {
    let entry = prop_oneof![
        6 => (0u8..7, 0u8..7).prop_map(|(u, p)| Entry::Pair(u, p)),
        1 => (0u8..7).prop_map(Entry::Bare),
        1 => (0u8..7, 0u8..7, 0u8..7).prop_map(|(a, b, c)| Entry::Triple(a, b, c)),
    ];
    let header = || {
        prop_oneof![
            1 => Just(Header::None),
            10 => (0u8..7, 0u8..7).prop_map(|(u, p)| Header::Basic(u, p)),
            1 => (0u8..4, 0u8..7, 0u8..7).prop_map(|(s, u, p)| Header::Scheme(s, u, p)),
            1 => (0u8..7, 0u8..7).prop_map(|(u, p)| Header::Plain(u, p)),
            1 => (0u8..7, 0u8..7).prop_map(|(u, p)| Header::Raw(u, p)),
            1 => (0u8..7, 0u8..7).prop_map(|(u, p)| Header::Cut(u, p)),
            1 => (0u8..7, 0u8..7).prop_map(|(u, p)| Header::Extra(u, p)),
            1 => Just(Header::Bare),
            1 => Just(Header::Bytes),
            1 => Just(Header::Opaque),
        ]
    };
    let users = prop_oneof![1 => Just(vec![]), 5 => pvec(entry, 1..4)].boxed();
    (users.clone(), users, pvec((0u8..8, header()), 1..12), 0u8..4, any::<u64>())
        .prop_map(|(rpc, admin, mut calls, network, pick)| {
            // half the plain headers name a configured user, of either kind
            let all: Vec<(u8, u8)> = rpc
                .iter()
                .chain(&admin)
                .filter_map(|e| match e {
                    Entry::Pair(u, p) | Entry::Triple(u, p, _) => Some((*u, *p)),
                    _ => None,
                })
                .collect();
            for (i, c) in calls.iter_mut().enumerate() {
                let r = pick.rotate_right(5 * i as u32) as usize;
                if all.is_empty() || r & 1 == 0 {
                    continue;
                }
                let (a, b) = all[(r >> 1) % all.len()];
                match &mut c.1 {
                    Header::Basic(u, p) => (*u, *p) = (a, b),
                    Header::Scheme(_, u, p) | Header::Raw(u, p) | Header::Cut(u, p) | Header::Extra(u, p) => (*u, *p) = (a, b),
                    Header::Plain(u, p) => (*u, *p) = (a, b),
                    _ => {}
                }
            }
            Case { rpc, admin, calls, network }
        })
        .boxed()
}

fn request<T>(m: T, h: &Header) -> tonic::Request<T> {
    let mut r = tonic::Request::new(m);
    if let Some(v) = h.value() {
        r.metadata_mut().insert("authorization", v);
    }
    r
}
fn network(n: u8) -> proto::FarcasterNetwork {
    use proto::FarcasterNetwork as N;
    [N::Devnet, N::Mainnet, N::Testnet, N::None][n as usize % 4]
}
fn text(e: &[Entry]) -> String {
    e.iter().map(Entry::text).collect::<Vec<_>>().join(",")
}

#[derive(Default)]
struct Seen {
    mempool: Vec<(MempoolMessage, MempoolSource)>,
    gossip: usize,
}
fn password(c: &Case, o: &mut Obs) -> R {
    let rt = world::rt();
    let mut node = Node::new(&rt);
    node.block(&rt, world::mempool(&world::setup_ops(1), 0), world::block_ts(0));
    let dir = tempfile::TempDir::new().unwrap();
    let db = snapchain::storage::db::RocksDB::new(dir.path().join("b.db").to_str().unwrap());
    db.open().unwrap();
    let db = Arc::new(db);
    let mut trie = snapchain::storage::trie::merkle_trie::MerkleTrie::new().unwrap();
    trie.initialize(&db).unwrap();
    let blocks = BlockStores::new(db.clone(), trie, proto::FarcasterNetwork::Devnet);
    let mut s = node.e.get_stores();
    s.trie.reload(&node.db).unwrap();
    let stores = HashMap::from([(1, s)]);
    let seen = Arc::new(Mutex::new(Seen::default()));
    let (mtx, mut mrx) = tokio::sync::mpsc::channel(10);
    let (gtx, mut grx) = tokio::sync::mpsc::channel(10);
    let x = seen.clone();
    rt.spawn(async move {
        while let Some(r) = mrx.recv().await {
            if let MempoolRequest::AddMessage(m, source, tx) = r {
                x.lock().unwrap().mempool.push((m, source));
                let _ = tx.unwrap().send(Ok(()));
            }
        }
    });
    let x = seen.clone();
    rt.spawn(async move {
        while let Some(r) = grx.recv().await {
            x.lock().unwrap().gossip += 1;
            match r {
                GossipEvent::GetMeshView(tx) => drop(tx.send(proto::MeshView::default())),
                GossipEvent::GetConnectedPeers(tx) => drop(tx.send(vec![])),
                _ => {}
            }
        }
    });
    let svc = MyHubService::new(
        text(&c.rpc),
        text(&c.admin),
        vec![],
        blocks.clone(),
        stores.clone(),
        HashMap::from([(1, node.e.get_senders())]),
        th::statsd_client(),
        1,
        proto::FarcasterNetwork::Devnet,
        Box::new(routing::ShardRouter {}),
        mtx.clone(),
        gtx,
        ChainClients { chain_api_map: Default::default() },
        "v".into(),
        "p".into(),
        None,
        snapchain::network::mesh::config::Config { cache_ttl_secs: 60, nodes: vec![] },
    );
    let (otx, mut orx) = tokio::sync::broadcast::channel(10);
    let (ftx, mut frx) = tokio::sync::broadcast::channel(10);
    let snap = dir.path().join("nothing-here");
    std::fs::write(&snap, b"a file where the backup directory should be").unwrap();
    let admin = MyAdminService::new(
        text(&c.admin),
        mtx,
        otx,
        ftx,
        stores,
        blocks,
        snapchain::storage::db::snapshot::Config { backup_dir: snap.to_str().unwrap().into(), ..Default::default() },
        network(c.network),
        th::statsd_client(),
        LocalStateStore::new(db),
    );
    let (ru, au) = (users(&c.rpc), users(&c.admin));
    ensure_eq!(admin.enabled(), !au.is_empty(), "the admin service enabled");
    let mut kinds = [false; 2];
    for (i, (call, h)) in c.calls.iter().enumerate() {
        *seen.lock().unwrap() = Seen::default();
        let who = match call {
            0 | 1 => &ru,
            _ => &au,
        };
        let granted = h.grants(who);
        if !who.is_empty() {
            kinds[granted as usize] = true;
        }
        let m = world::message(0, 0, i as u8, &world::B::Cast { n: i as u8, p: 0 }, 0);
        let debug = matches!(network(c.network), proto::FarcasterNetwork::Devnet | proto::FarcasterNetwork::None);
        let what = format!("call {i} ({call}) with {h:?} under {:?} / {:?}", text(&c.rpc), text(&c.admin));
        // what came of it, whether the call needs a password, and what should have reached others
        let (code, mempool, gossip): (Option<tonic::Code>, Vec<MempoolMessage>, Option<usize>) = match call {
            0 => {
                let r = rt.block_on(svc.submit_message(request(m.clone(), h)));
                (r.err().map(|e| e.code()), vec![MempoolMessage::UserMessage(m)], Some(0))
            }
            1 => {
                let q = proto::SubmitBulkMessagesRequest { messages: vec![m.clone()] };
                let r = rt.block_on(svc.submit_bulk_messages(request(q, h)));
                (r.err().map(|e| e.code()), vec![MempoolMessage::UserMessage(m)], Some(0))
            }
            2 => {
                let r = rt.block_on(svc.get_mesh_view(request(proto::GetMeshViewRequest::default(), h)));
                (r.err().map(|e| e.code()), vec![], None)
            }
            3 => {
                let r = rt.block_on(svc.get_mesh_topology(request(proto::GetMeshViewRequest::default(), h)));
                (r.err().map(|e| e.code()), vec![], None)
            }
            4 => {
                let r = rt.block_on(admin.upload_snapshot(request(proto::UploadSnapshotRequest { shard_indexes: vec![1] }, h)));
                (r.err().map(|e| e.code()), vec![], Some(0))
            }
            5 => {
                // a shard that is not here: past the door, the request itself is refused
                let q = proto::RunOnchainEventsMigrationRequest { shard_id: 7 };
                let r = rt.block_on(admin.run_onchain_events_migration(request(q, h)));
                let code = r.err().map(|e| e.code());
                ensure!(code.is_some(), "{what}: a migration of a shard that is not there");
                (code.filter(|c| *c != tonic::Code::InvalidArgument), vec![], Some(0))
            }
            6 => {
                // the debugging calls: closed outside the development networks
                let mut e = world::id_event(1, 0, i as u8);
                if i % 4 == 3 {
                    e.fid = 0;
                }
                let r = rt.block_on(admin.submit_on_chain_event(request(e.clone(), h)));
                let got = std::mem::take(&mut seen.lock().unwrap().mempool);
                let want = match (debug, e.fid) {
                    (false, _) => Some(tonic::Code::PermissionDenied),
                    (_, 0) => Some(tonic::Code::InvalidArgument),
                    _ => None,
                };
                ensure_eq!(r.as_ref().err().map(|e| e.code()), want, "{what}: an on-chain event on {:?}", network(c.network));
                match r {
                    Ok(r) => {
                        ensure!(r.into_inner() == e, "{what}: another event in reply");
                        ensure!(got == vec![(MempoolMessage::OnchainEvent(e), MempoolSource::RPC)], "{what}: queued {got:?}");
                    }
                    Err(_) => ensure!(got.is_empty(), "{what}: refused, yet queued {got:?}"),
                }
                // and the retries ask the connectors for exactly that
                use proto::retry_onchain_events_request::Kind;
                let kind = [
                    None,
                    Some(Kind::Fid(i as u64 + 5)),
                    Some(Kind::BlockRange(proto::RetryBlockNumberRange { start_block_number: i as u64, stop_block_number: 3 * i as u64 + 1 })),
                ][i % 3]
                    .clone();
                let r = rt.block_on(admin.retry_onchain_events(request(proto::RetryOnchainEventsRequest { kind: kind.clone() }, h)));
                ensure!(r.is_ok(), "{what}: retry {r:?}");
                let ok = match (kind, orx.try_recv()) {
                    (None, Err(_)) => true,
                    (Some(Kind::Fid(f)), Ok(OnchainEventsRequest::RetryFid(g))) => f == g,
                    (Some(Kind::BlockRange(b)), Ok(OnchainEventsRequest::RetryBlockRange { start_block_number, stop_block_number })) => {
                        (b.start_block_number, b.stop_block_number) == (start_block_number, stop_block_number)
                    }
                    _ => false,
                };
                ensure!(ok && orx.try_recv().is_err(), "{what}: the retry passed on is another");
                o.label("debug-event");
                continue;
            }
            _ => {
                let mut p = world::fname_transfer(i as u8, 3, 1, i as u8).proof.unwrap();
                if i % 4 == 3 {
                    p.fid = 0;
                }
                let r = rt.block_on(admin.submit_user_name_proof(request(p.clone(), h)));
                let got = std::mem::take(&mut seen.lock().unwrap().mempool);
                let want = match (debug, p.fid) {
                    (false, _) => Some(tonic::Code::PermissionDenied),
                    (_, 0) => Some(tonic::Code::InvalidArgument),
                    _ => None,
                };
                ensure_eq!(r.as_ref().err().map(|e| e.code()), want, "{what}: a proof on {:?}", network(c.network));
                match r {
                    Ok(r) => {
                        ensure!(r.into_inner() == p, "{what}: another proof in reply");
                        let t = proto::FnameTransfer { id: p.fid, from_fid: 0, proof: Some(p) };
                        ensure!(got == vec![(MempoolMessage::FnameTransfer(t), MempoolSource::RPC)], "{what}: queued {got:?}");
                    }
                    Err(_) => ensure!(got.is_empty(), "{what}: refused, yet queued {got:?}"),
                }
                use proto::retry_fname_request::Kind;
                let kind = [None, Some(Kind::Fid(i as u64 + 5)), Some(Kind::Fname(format!("n{i}")))][i % 3].clone();
                let r = rt.block_on(admin.retry_fname_events(request(proto::RetryFnameRequest { kind: kind.clone() }, h)));
                ensure!(r.is_ok(), "{what}: retry {r:?}");
                let ok = match (kind, frx.try_recv()) {
                    (None, Err(_)) => true,
                    (Some(Kind::Fid(f)), Ok(FnameRequest::RetryFid(g))) => f == g,
                    (Some(Kind::Fname(f)), Ok(FnameRequest::RetryFname(g))) => f == g,
                    _ => false,
                };
                ensure!(ok && frx.try_recv().is_err(), "{what}: the retry passed on is another");
                o.label("debug-proof");
                continue;
            }
        };
        let want = if granted { None } else { Some(tonic::Code::Unauthenticated) };
        ensure_eq!(code, want, "{what}");
        let s = seen.lock().unwrap();
        let got: Vec<&MempoolMessage> = s.mempool.iter().map(|x| &x.0).collect();
        if granted {
            ensure!(got == mempool.iter().collect::<Vec<_>>(), "{what}: queued {got:?}");
            ensure!(s.mempool.iter().all(|x| x.1 == MempoolSource::RPC), "{what}: queued from {:?}", s.mempool);
            o.label(["granted-submit", "granted-bulk", "granted-view", "granted-topology", "granted-upload", "granted-migration"][*call as usize]);
            if who.is_empty() {
                o.label("open");
            }
        } else {
            ensure!(got.is_empty() && s.gossip == 0, "{what}: refused, yet {} messages queued and {} gossip requests", got.len(), s.gossip);
            o.label(["denied-submit", "denied-bulk", "denied-view", "denied-topology", "denied-upload", "denied-migration"][*call as usize]);
            if matches!(h, Header::Basic(u, p) if [&ru, &au].iter().any(|m| m.get(user(*u)) == Some(&word(*p)))) {
                o.label("the-other-service's-user");
            }
        }
        if granted {
            if let Some(g) = gossip {
                ensure_eq!(s.gossip, g, "{what}: gossip requests");
            }
        }
    }
    if kinds[0] && kinds[1] {
        o.nt();
    }
    Ok(())
}

pub fn c37(p: &mut Prop) {
    p.sub(
        "password",
        "one call is let in and one kept out by configured users",
        3000,
        60000,
        gen,
        password,
    );
}
