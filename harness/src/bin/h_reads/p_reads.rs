//! C26: every read of the gRPC service answers exactly the live records asked for, and walking a
//! read's pages meets each of them once and ends.
use crate::arb::Tape;
use crate::frame::{Obs, Prop, R};
use crate::gens::*;
use crate::model::{chain_key, Model};
use crate::world::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use snapchain::connectors::onchain_events::ChainClients;
use snapchain::mempool::routing;
use snapchain::network::server::MyHubService;
use snapchain::proto::hub_service_server::HubService;
use snapchain::proto::{self, hub_event, message_data::Body, HubEvent, Message, MessageType, OnChainEvent, UserNameProof};
use snapchain::storage::store::mempool_poller::MempoolMessage;
use snapchain::storage::store::test_helper as th;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::future::Future;
use tonic::{Code, Request, Response, Status};

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Case {
    h: History,
    shards: u32,
    tape: Vec<u8>,
}

/// What one shard holds, as its events say.
#[derive(Default, Clone)]
struct Held {
    live: BTreeMap<Vec<u8>, Message>,
    chain: Vec<OnChainEvent>,
    fnames: BTreeMap<Vec<u8>, UserNameProof>,
    /// names given up, with the transfer that did
    given_up: BTreeMap<Vec<u8>, UserNameProof>,
    /// fids that ever held two names at a time
    several: BTreeSet<u64>,
    /// a message was removed that no longer was there: the engine's sweeps go by the rows as they
    /// were before the block (listed under C19), and leave the indices of what replaced it broken
    swept_twice: bool,
}
impl Held {
    fn add(&mut self, m: &Option<Message>) {
        if let Some(m) = m {
            self.live.insert(m.hash.clone(), m.clone());
        }
    }
    fn gone(&mut self, m: &Option<Message>) {
        if let Some(m) = m {
            self.swept_twice |= self.live.remove(&m.hash).is_none();
        }
    }
    fn event(&mut self, e: &HubEvent) {
        use hub_event::Body as H;
        match e.body.as_ref().unwrap() {
            H::MergeMessageBody(b) => {
                b.deleted_messages.iter().for_each(|m| self.gone(&Some(m.clone())));
                self.add(&b.message);
            }
            H::PruneMessageBody(b) => self.gone(&b.message),
            H::RevokeMessageBody(b) => self.gone(&b.message),
            H::MergeUsernameProofBody(b) => {
                self.gone(&b.deleted_username_proof_message);
                self.add(&b.username_proof_message);
                if b.username_proof_message.is_none() && b.deleted_username_proof_message.is_none() {
                    let p = b.username_proof.as_ref().unwrap();
                    if p.fid == 0 {
                        self.fnames.remove(&p.name);
                        self.given_up.insert(p.name.clone(), p.clone());
                    } else {
                        self.fnames.insert(p.name.clone(), p.clone());
                        if self.fnames.values().filter(|x| x.fid == p.fid).count() > 1 {
                            self.several.insert(p.fid);
                        }
                    }
                }
            }
            H::MergeOnChainEventBody(b) => self.chain.push(b.on_chain_event.clone().unwrap()),
            _ => {}
        }
    }
}
fn ts(m: &Message) -> u32 {
    m.data.as_ref().unwrap().timestamp
}
fn mfid(m: &Message) -> u64 {
    m.data.as_ref().unwrap().fid
}
fn body(m: &Message) -> &Body {
    m.data.as_ref().unwrap().body.as_ref().unwrap()
}
fn by_time(v: &mut [Message]) {
    v.sort_by(|a, b| (ts(a), &a.hash).cmp(&(ts(b), &b.hash)));
}

/// Follows page tokens from the first page until there is none.
async fn walk<T, F, Fut>(what: &str, limit: usize, empty_first: bool, mut call: F) -> Result<Vec<Vec<T>>, String>
where
    F: FnMut(Option<Vec<u8>>) -> Fut,
    Fut: Future<Output = Result<(Vec<T>, Option<Vec<u8>>), Status>>,
{
    let mut pages = vec![];
    let mut token = empty_first.then(Vec::new);
    loop {
        let (rows, next) = call(token.take()).await.map_err(|e| format!("{what}: {e}"))?;
        pages.push(rows);
        match next {
            // what a client that cannot tell an absent token from an empty one stops at
            Some(t) if !t.is_empty() => token = Some(t),
            _ => return Ok(pages),
        }
        ensure!(pages.len() <= limit, "{what}: no end after {limit} pages");
    }
}
fn short(m: &[Message]) -> Vec<String> {
    m.iter().map(|m| format!("{}:{:?}@{}", hex::encode(&m.hash[..3]), m.msg_type(), ts(m) as i64 - t0() as i64)).collect()
}
fn rows(r: Result<Response<proto::MessagesResponse>, Status>) -> Result<(Vec<Message>, Option<Vec<u8>>), Status> {
    r.map(|r| r.into_inner()).map(|r| (r.messages, r.next_page_token))
}
fn one(what: String, r: Result<Response<Message>, Status>, want: Option<&Message>) -> R {
    match (r, want) {
        (Ok(m), Some(w)) => ensure_eq!(&m.into_inner(), w, "{what}"),
        (Err(e), None) => ensure_eq!(e.code(), Code::NotFound, "{what}: {e}"),
        (Ok(m), None) => return Err(format!("{what}: answered {:?}, nothing such is live", m.into_inner())),
        (Err(e), Some(_)) => return Err(format!("{what}: live, answered {e}")),
    }
    Ok(())
}

struct World {
    nodes: Vec<Node>,
    held: Vec<Held>,
    events: Vec<Vec<HubEvent>>,
    signers: Vec<Model>,
    stamps: Vec<BTreeMap<u64, u64>>,
    _stage: Option<()>,
}
fn shard_of(fid: u64, n: u32) -> usize {
    if n == 1 { 0 } else { (fid % 2 == 0) as usize }
}
fn op_fid(m: &MempoolMessage) -> u64 {
    m.fid()
}
fn build(c: &Case, rt: &tokio::runtime::Runtime) -> World {
    let n = c.shards;
    let mut w = World {
        nodes: (1..=n).map(|s| Node::for_shard(rt, s)).collect(),
        held: vec![Held::default(); n as usize],
        events: vec![vec![]; n as usize],
        signers: vec![Model::default(); n as usize],
        stamps: vec![BTreeMap::new(); n as usize],
        _stage: None,
    };
    let mut blocks = vec![setup_ops(c.h.setup)];
    blocks.extend(c.h.blocks.iter().cloned());
    for (i, ops) in blocks.iter().enumerate() {
        for s in 0..n as usize {
            let seq = w.nodes[s].last_seq();
            let mine: Vec<Op> = ops
                .iter()
                .filter(|op| match op {
                    // transfers of usernames go to every shard
                    Op::Fname { .. } => true,
                    Op::Id { f, .. } | Op::Signer { f, .. } | Op::Rent { f, .. } | Op::Ver { f, .. } | Op::M { f, .. } => {
                        shard_of(fid(*f), n) == s
                    }
                })
                .cloned()
                .collect();
            let msgs = mempool(&mine, seq);
            let _ = msgs.iter().map(op_fid).count();
            let node = &mut w.nodes[s];
            let (ch, _) = node.block(rt, msgs, block_ts(i));
            let h = node.height();
            w.stamps[s].insert(h, ch.header.as_ref().unwrap().timestamp);
            let before = w.signers[s].clone();
            for e in node.events(h) {
                w.held[s].event(&e);
                if let Some(hub_event::Body::MergeOnChainEventBody(b)) = &e.body {
                    w.signers[s].onchain(b.on_chain_event.as_ref().unwrap(), &before);
                }
                w.events[s].push(e);
            }
        }
    }
    w
}
fn service(w: &World, rt: &tokio::runtime::Runtime) -> (MyHubService, tempfile::TempDir) {
    let n = w.nodes.len() as u32;
    let dir = tempfile::TempDir::new().unwrap();
    let db = snapchain::storage::db::RocksDB::new(dir.path().join("b.db").to_str().unwrap());
    db.open().unwrap();
    let db = std::sync::Arc::new(db);
    let mut trie = snapchain::storage::trie::merkle_trie::MerkleTrie::new().unwrap();
    trie.initialize(&db).unwrap();
    let blocks = snapchain::storage::store::block_engine::BlockStores::new(db, trie, proto::FarcasterNetwork::Devnet);
    let mut stores = HashMap::new();
    let mut senders = HashMap::new();
    for (i, node) in w.nodes.iter().enumerate() {
        let mut s = node.e.get_stores();
        s.trie.reload(&node.db).unwrap();
        stores.insert(i as u32 + 1, s);
        senders.insert(i as u32 + 1, node.e.get_senders());
    }
    let (mtx, mut mrx) = tokio::sync::mpsc::channel(10);
    rt.spawn(async move { while mrx.recv().await.is_some() {} });
    let (gtx, _g) = tokio::sync::mpsc::channel(10);
    let svc = MyHubService::new(
        String::new(),
        String::new(),
        vec![],
        blocks,
        stores,
        senders,
        th::statsd_client(),
        n,
        proto::FarcasterNetwork::Devnet,
        if n == 1 { Box::new(routing::ShardRouter {}) } else { Box::new(routing::EvenOddRouterForTest {}) },
        mtx,
        gtx,
        ChainClients { chain_api_map: Default::default() },
        "v".into(),
        "p".into(),
        None,
        Default::default(),
    );
    (svc, dir)
}

struct Page {
    size: Option<u32>,
    reverse: Option<bool>,
    empty: bool,
}
fn page(t: &mut Tape) -> Page {
    Page {
        size: [None, Some(1), Some(2), Some(3), Some(1), Some(100)][t.below(6)],
        reverse: [None, Some(false), Some(true)][t.below(3)],
        empty: t.below(4) == 0,
    }
}
/// The pages of one shard's read: in order, each within the size, together what is wanted.
fn in_order<T: PartialEq + Clone + std::fmt::Debug>(what: &str, p: &Page, pages: Vec<Vec<T>>, mut want: Vec<T>, show: impl Fn(&[T]) -> String) -> R {
    if p.reverse == Some(true) {
        want.reverse();
    }
    if let Some(s) = p.size {
        ensure!(pages.iter().all(|x| x.len() <= s as usize), "{what}: a page beyond {s}");
    }
    let got: Vec<T> = pages.concat();
    ensure!(
        got == want,
        "{what}, page {:?} reverse {:?}: got {} want {}",
        p.size,
        p.reverse,
        show(&got),
        show(&want)
    );
    Ok(())
}
/// The pages of a read over all shards: each shard's rows in order, nothing twice, nothing missing.
fn fanned<T: PartialEq + Clone + std::fmt::Debug>(what: &str, p: &Page, pages: Vec<Vec<T>>, want: Vec<Vec<T>>, show: impl Fn(&[T]) -> String) -> R {
    if let Some(s) = p.size {
        ensure!(pages.iter().all(|x| x.len() <= s as usize * want.len()), "{what}: a page beyond {s} a shard");
    }
    let got: Vec<T> = pages.concat();
    for (i, w) in want.iter().enumerate() {
        let mine: Vec<T> = got.iter().filter(|g| w.contains(g)).cloned().collect();
        let mut w = w.clone();
        if p.reverse == Some(true) {
            w.reverse();
        }
        ensure!(mine == w, "{what}, page {:?} reverse {:?}, shard {}: got {} want {}", p.size, p.reverse, i + 1, show(&mine), show(&w));
    }
    let all: usize = want.iter().map(|w| w.len()).sum();
    ensure!(got.len() == all, "{what}: rows nobody stored: {}", show(&got));
    Ok(())
}

fn reads(c: &Case, o: &mut Obs) -> R {
    let rt = rt();
    let w = build(c, &rt);
    if w.held.iter().any(|h| h.swept_twice) {
        o.label("left out: a sweep removed what was replaced in the same block");
        return Ok(());
    }
    let (svc, _dir) = service(&w, &rt);
    rt.block_on(check(c, o, &w, &svc))
}
async fn check(c: &Case, o: &mut Obs, w: &World, svc: &MyHubService) -> R {
    let mut t = Tape::new(&c.tape);
    let n = c.shards;
    let show = |m: &[Message]| format!("{:?}", short(m));
    let live: Vec<Vec<Message>> = w
        .held
        .iter()
        .map(|h| {
            let mut v: Vec<Message> = h.live.values().cloned().collect();
            by_time(&mut v);
            v
        })
        .collect();
    let total: usize = live.iter().map(|l| l.len()).sum();
    if total >= 4 {
        o.nt();
    }
    o.label_if(live.iter().all(|l| !l.is_empty()) && n == 2, "both shards hold messages");

    // ---- by fid
    for f in FIDS.into_iter().filter(|f| *f != 0) {
        let s = shard_of(f, n);
        let mine = |pred: &dyn Fn(&Message) -> bool| -> Vec<Message> {
            live[s].iter().filter(|m| mfid(m) == f && pred(m)).cloned().collect()
        };
        let is = |ty: MessageType| move |m: &Message| m.msg_type() == ty;
        macro_rules! by_fid {
            ($rpc:ident, $want:expr) => {{
                let p = page(&mut t);
                let pages = walk(stringify!($rpc), 200, p.empty, |page_token| async {
                    rows(svc.$rpc(Request::new(proto::FidRequest { fid: f, page_size: p.size, page_token, reverse: p.reverse })).await)
                })
                .await?;
                in_order(&format!("{} of {f}", stringify!($rpc)), &p, pages, $want, show)?;
            }};
        }
        by_fid!(get_casts_by_fid, mine(&is(MessageType::CastAdd)));
        by_fid!(get_user_data_by_fid, mine(&is(MessageType::UserDataAdd)));
        by_fid!(get_verifications_by_fid, mine(&is(MessageType::VerificationAddEthAddress)));
        let mut compact = mine(&is(MessageType::LinkCompactState));
        compact.sort_by_key(|m| match body(m) {
            Body::LinkCompactStateBody(b) => b.r#type.clone(),
            _ => unreachable!(),
        });
        by_fid!(get_link_compact_state_message_by_fid, compact);
        macro_rules! all_of {
            ($rpc:ident, $types:expr) => {{
                let p = page(&mut t);
                let bound = |t: &mut Tape| [None, None, Some(t0() as u64 + t.below(9) as u64), Some(0), Some(u32::MAX as u64)][t.below(5)];
                let (start, stop) = (bound(&mut t), bound(&mut t));
                let pages = walk(stringify!($rpc), 200, p.empty, |page_token| async {
                    rows(
                        svc.$rpc(Request::new(proto::FidTimestampRequest {
                            fid: f,
                            page_size: p.size,
                            page_token,
                            reverse: p.reverse,
                            start_timestamp: start,
                            stop_timestamp: stop,
                        }))
                        .await,
                    )
                })
                .await?;
                let want = mine(&|m| {
                    $types.contains(&m.msg_type())
                        && start.map_or(true, |s| ts(m) as u64 >= s)
                        && stop.map_or(true, |s| ts(m) as u64 <= s)
                });
                in_order(&format!("{} of {f} from {start:?} to {stop:?}", stringify!($rpc)), &p, pages, want, show)?;
            }};
        }
        all_of!(get_all_cast_messages_by_fid, [MessageType::CastAdd, MessageType::CastRemove]);
        all_of!(get_all_reaction_messages_by_fid, [MessageType::ReactionAdd, MessageType::ReactionRemove]);
        all_of!(get_all_link_messages_by_fid, [MessageType::LinkAdd, MessageType::LinkRemove]);
        all_of!(get_all_user_data_messages_by_fid, [MessageType::UserDataAdd]);
        all_of!(get_all_verification_messages_by_fid, [MessageType::VerificationAddEthAddress, MessageType::VerificationRemove]);
        // reactions and links of one kind, or of all
        for ty in [None, Some(1), Some(2)] {
            let p = page(&mut t);
            let pages = walk("reactions", 200, p.empty, |page_token| async {
                rows(
                    svc.get_reactions_by_fid(Request::new(proto::ReactionsByFidRequest {
                        fid: f,
                        reaction_type: ty,
                        page_size: p.size,
                        page_token,
                        reverse: p.reverse,
                    }))
                    .await,
                )
            })
            .await?;
            let want = mine(&|m| {
                m.msg_type() == MessageType::ReactionAdd
                    && matches!(body(m), Body::ReactionBody(b) if ty.map_or(true, |t| b.r#type == t))
            });
            in_order(&format!("reactions {ty:?} of {f}"), &p, pages, want, show)?;
        }
        for ty in [None, Some("follow"), Some("block"), Some("fol")] {
            let p = page(&mut t);
            let pages = walk("links", 200, p.empty, |page_token| async {
                rows(
                    svc.get_links_by_fid(Request::new(proto::LinksByFidRequest {
                        fid: f,
                        link_type: ty.map(|s| s.to_string()),
                        page_size: p.size,
                        page_token,
                        reverse: p.reverse,
                    }))
                    .await,
                )
            })
            .await?;
            let want = mine(&|m| {
                m.msg_type() == MessageType::LinkAdd
                    && matches!(body(m), Body::LinkBody(b) if ty.map_or(true, |t| b.r#type == t))
            });
            in_order(&format!("links {ty:?} of {f}"), &p, pages, want, show)?;
        }
        // one at a time
        let mut hashes: BTreeSet<Vec<u8>> = live.iter().flatten().map(|m| m.hash.clone()).collect();
        hashes.insert(h20(b"nothing"));
        for h in hashes {
            let want = live[s].iter().find(|m| m.hash == h && mfid(m) == f && m.msg_type() == MessageType::CastAdd);
            one(format!("cast {} of {f}", hex::encode(&h)), svc.get_cast(Request::new(proto::CastId { fid: f, hash: h.clone() })).await, want)?;
        }
        for k in 0..4u8 {
            for ty in 0..2u8 {
                let target = reaction_target(k);
                let want = live[s].iter().find(|m| {
                    mfid(m) == f
                        && m.msg_type() == MessageType::ReactionAdd
                        && matches!(body(m), Body::ReactionBody(b) if b.r#type == reaction_type(ty) && b.target.as_ref() == Some(&target))
                });
                let target = match target {
                    proto::reaction_body::Target::TargetUrl(u) => proto::reaction_request::Target::TargetUrl(u),
                    proto::reaction_body::Target::TargetCastId(c) => proto::reaction_request::Target::TargetCastId(c),
                };
                let r = svc
                    .get_reaction(Request::new(proto::ReactionRequest { fid: f, reaction_type: reaction_type(ty), target: Some(target) }))
                    .await;
                one(format!("reaction {ty} to {k} of {f}"), r, want)?;
                let want = live[s].iter().find(|m| {
                    mfid(m) == f
                        && m.msg_type() == MessageType::LinkAdd
                        && matches!(body(m), Body::LinkBody(b) if b.r#type == link_type(ty) && b.target == Some(proto::link_body::Target::TargetFid(2000 + k as u64)))
                });
                let r = svc
                    .get_link(Request::new(proto::LinkRequest {
                        fid: f,
                        link_type: link_type(ty),
                        target: Some(proto::link_request::Target::TargetFid(2000 + k as u64)),
                    }))
                    .await;
                one(format!("link {ty} to {k} of {f}"), r, want)?;
            }
            let want = live[s].iter().find(|m| {
                mfid(m) == f
                    && m.msg_type() == MessageType::VerificationAddEthAddress
                    && matches!(body(m), Body::VerificationAddAddressBody(b) if b.address == verified(k))
            });
            one(
                format!("verification {k} of {f}"),
                svc.get_verification(Request::new(proto::VerificationRequest { fid: f, address: verified(k) })).await,
                want,
            )?;
        }
        for ty in 0..6u8 {
            let u = user_data(ty, 0).0;
            let want = live[s].iter().find(|m| {
                mfid(m) == f && matches!(body(m), Body::UserDataBody(b) if b.r#type == u as i32)
            });
            one(
                format!("user data {u:?} of {f}"),
                svc.get_user_data(Request::new(proto::UserDataRequest { fid: f, user_data_type: u as i32 })).await,
                want,
            )?;
        }
        // what of the storage is used
        let used = svc.get_current_storage_limits_by_fid(Request::new(proto::FidRequest { fid: f, ..Default::default() })).await;
        let used = used.map_err(|e| format!("storage of {f}: {e}"))?.into_inner();
        use crate::model::{store_of, Store};
        for (ty, st) in [
            (proto::StoreType::Casts, Store::Casts),
            (proto::StoreType::Links, Store::Links),
            (proto::StoreType::Reactions, Store::Reactions),
            (proto::StoreType::UserData, Store::UserData),
            (proto::StoreType::Verifications, Store::Verifications),
            (proto::StoreType::UsernameProofs, Store::Proofs),
        ] {
            let want = live[s].iter().filter(|m| mfid(m) == f && store_of(m.msg_type()) == st).count() as u64;
            let got = used.limits.iter().find(|l| l.store_type == ty as i32).map(|l| l.used);
            if st == Store::Proofs {
                // usernames from the registry may be counted along
                ensure!(got.is_some_and(|g| g >= want), "proofs of {f}: {got:?} used, {want} live");
            } else {
                ensure_eq!(got, Some(want), "{st:?} of {f} used");
            }
        }
    }

    // ---- over all shards
    let across = |pred: &dyn Fn(&Message) -> bool| -> Vec<Vec<Message>> {
        live.iter().map(|l| l.iter().filter(|m| pred(m)).cloned().collect()).collect()
    };
    for k in 1..5u8 {
        use proto::cast_add_body::Parent;
        use proto::casts_by_parent_request::Parent as P2;
        let parent = match k {
            4 => Parent::ParentUrl("https://farcaster.xyz/~/channel/".into()),
            k => cast_parent(k).unwrap(),
        };
        let p = page(&mut t);
        let pages = walk("casts by parent", 200, p.empty, |page_token| async {
            rows(
                svc.get_casts_by_parent(Request::new(proto::CastsByParentRequest {
                    parent: Some(match parent.clone() {
                        Parent::ParentUrl(u) => P2::ParentUrl(u),
                        Parent::ParentCastId(c) => P2::ParentCastId(c),
                    }),
                    page_size: p.size,
                    page_token,
                    reverse: p.reverse,
                }))
                .await,
            )
        })
        .await?;
        let want = across(&|m| matches!(body(m), Body::CastAddBody(b) if b.parent.as_ref() == Some(&parent)));
        fanned(&format!("casts by parent {parent:?}"), &p, pages, want, show)?;
    }
    for f in [1001u64, 1003, 1002] {
        let p = page(&mut t);
        let pages = walk("casts by mention", 200, p.empty, |page_token| async {
            rows(svc.get_casts_by_mention(Request::new(proto::FidRequest { fid: f, page_size: p.size, page_token, reverse: p.reverse })).await)
        })
        .await?;
        fanned(&format!("casts by mention {f}"), &p, pages, across(&|m| matches!(body(m), Body::CastAddBody(b) if b.mentions.contains(&f))), show)?;
    }
    for k in 0..5u8 {
        use proto::reaction_body::Target;
        use proto::reactions_by_target_request::Target as T2;
        let target = if k == 4 { Target::TargetUrl("https://e.com/".into()) } else { reaction_target(k) };
        let t2 = match target.clone() {
            Target::TargetUrl(u) => T2::TargetUrl(u),
            Target::TargetCastId(c) => T2::TargetCastId(c),
        };
        for ty in [None, Some(1), Some(2)] {
            let want = across(&|m| {
                m.msg_type() == MessageType::ReactionAdd
                    && matches!(body(m), Body::ReactionBody(b) if b.target.as_ref() == Some(&target) && ty.map_or(true, |t| t == b.r#type))
            });
            for by_cast in [false, true] {
                if by_cast && (ty.is_none() || matches!(target, Target::TargetUrl(_))) {
                    continue;
                }
                let p = page(&mut t);
                let pages = walk("reactions by target", 200, p.empty, |page_token| async {
                    let req = Request::new(proto::ReactionsByTargetRequest {
                        target: Some(t2.clone()),
                        reaction_type: ty,
                        page_size: p.size,
                        page_token,
                        reverse: p.reverse,
                    });
                    rows(if by_cast { svc.get_reactions_by_cast(req).await } else { svc.get_reactions_by_target(req).await })
                })
                .await?;
                fanned(&format!("reactions {ty:?} to {target:?}"), &p, pages, want.clone(), show)?;
            }
        }
    }
    for k in 0..4u64 {
        for ty in ["follow", "block"] {
            let p = page(&mut t);
            let pages = walk("links by target", 200, p.empty, |page_token| async {
                rows(
                    svc.get_links_by_target(Request::new(proto::LinksByTargetRequest {
                        target: Some(proto::links_by_target_request::Target::TargetFid(2000 + k)),
                        link_type: Some(ty.into()),
                        page_size: p.size,
                        page_token,
                        reverse: p.reverse,
                    }))
                    .await,
                )
            })
            .await?;
            let want = across(&|m| {
                m.msg_type() == MessageType::LinkAdd
                    && matches!(body(m), Body::LinkBody(b) if b.r#type == ty && b.target == Some(proto::link_body::Target::TargetFid(2000 + k)))
            });
            fanned(&format!("{ty} links to {k}"), &p, pages, want, show)?;
        }
    }

    // ---- names
    for name in NAMES {
        let r = svc.get_username_proof(Request::new(proto::UsernameProofRequest { name: name.into() })).await;
        let can: Vec<UserNameProof> = if name.ends_with(".eth") {
            live.iter()
                .flatten()
                .filter_map(|m| match body(m) {
                    Body::UsernameProofBody(p) if p.name == name.as_bytes() => Some(p.clone()),
                    _ => None,
                })
                .collect()
        } else {
            w.held.iter().filter_map(|h| h.fnames.get(name.as_bytes()).cloned()).collect()
        };
        match r {
            // a name given up may be told as such
            Ok(p) if p.get_ref().fid == 0 => ensure!(
                w.held.iter().any(|h| !h.fnames.contains_key(name.as_bytes()) && h.given_up.get(name.as_bytes()) == Some(p.get_ref())),
                "the proof of {name}: {p:?}, one of {can:?} is current"
            ),
            Ok(p) => ensure!(can.contains(p.get_ref()), "the proof of {name}: {:?}, one of {can:?} is current", p.get_ref()),
            Err(e) => ensure!(e.code() == Code::NotFound && can.is_empty(), "the proof of {name}: {e}, {can:?} is current"),
        }
    }
    for f in FIDS.into_iter().filter(|f| *f != 0) {
        let got = svc
            .get_user_name_proofs_by_fid(Request::new(proto::FidRequest { fid: f, ..Default::default() }))
            .await
            .map_err(|e| format!("the proofs of {f}: {e}"))?
            .into_inner()
            .proofs;
        let (ens, names): (Vec<_>, Vec<_>) = got.into_iter().partition(|p| p.r#type == proto::UserNameType::UsernameTypeEnsL1 as i32);
        let mut want: Vec<UserNameProof> = live[shard_of(f, n)]
            .iter()
            .filter(|m| mfid(m) == f)
            .filter_map(|m| match body(m) {
                Body::UsernameProofBody(p) => Some(p.clone()),
                _ => None,
            })
            .collect();
        let key = |p: &UserNameProof| (p.name.clone(), p.timestamp);
        let (mut ens, mut names) = (ens, names);
        want.sort_by_key(key);
        ens.sort_by_key(key);
        ensure_eq!(ens, want, "the ENS proofs of {f}");
        names.sort_by_key(key);
        let mut held: Vec<UserNameProof> = w.held.iter().flat_map(|h| h.fnames.values().filter(|p| p.fid == f).cloned()).collect();
        held.sort_by_key(key);
        held.dedup();
        if w.held.iter().any(|h| h.several.contains(&f)) {
            o.label("a fid with several names");
            ensure!(names.iter().all(|p| held.contains(p)), "the names of {f}: {names:?}, held {held:?}");
        } else {
            ensure_eq!(names, held, "the names of {f}");
        }
    }

    // ---- on-chain events
    let order = |e: &OnChainEvent| chain_key(e);
    for f in FIDS.into_iter().filter(|f| *f != 0) {
        let s = shard_of(f, n);
        for ty in [proto::OnChainEventType::EventTypeSigner, proto::OnChainEventType::EventTypeIdRegister, proto::OnChainEventType::EventTypeStorageRent] {
            let r = svc
                .get_on_chain_events(Request::new(proto::OnChainEventRequest { fid: f, event_type: ty as i32, ..Default::default() }))
                .await
                .map_err(|e| format!("{ty:?} events of {f}: {e}"))?
                .into_inner();
            let mut want: Vec<OnChainEvent> = w.held[s].chain.iter().filter(|e| e.fid == f && e.r#type == ty as i32).cloned().collect();
            want.sort_by_key(order);
            ensure_eq!(r.events, want, "{ty:?} events of {f}");
            ensure!(r.next_page_token.is_none_or(|t| t.is_empty()), "a next page after all events");
        }
        // the signers in force
        let mut active: Vec<OnChainEvent> = vec![];
        for k in 0..3u8 {
            let key = signing_key(k).verifying_key().to_bytes().to_vec();
            let want = w.signers[s]
                .signers
                .get(&(f, key.clone()))
                .filter(|e| matches!(&e.body, Some(proto::on_chain_event::Body::SignerEventBody(b)) if b.event_type() == proto::SignerEventType::Add));
            let r = svc.get_on_chain_signer(Request::new(proto::SignerRequest { fid: f, signer: key.clone() })).await;
            // a key not meant for signing messages is none of them
            let signs = w.signers[s].signer_active(f, &key);
            match (&r, want) {
                (Ok(e), Some(w)) => ensure_eq!(e.get_ref(), w, "signer {k} of {f}"),
                (Err(e), None) => ensure_eq!(e.code(), Code::NotFound, "signer {k} of {f}"),
                (Err(e), Some(_)) => ensure!(!signs && e.code() == Code::NotFound, "signer {k} of {f} is active: {e}"),
                (Ok(e), None) => return Err(format!("signer {k} of {f} is not active: {:?}", e.get_ref())),
            }
            if let Ok(e) = &r {
                active.push(e.get_ref().clone());
            }
            let u = svc.get_signer(Request::new(proto::SignerRequest { fid: f, signer: key.clone() })).await;
            ensure_eq!(u.is_ok(), r.is_ok(), "signer {k} of {f}, one list or both");
            if let (Ok(u), Ok(e)) = (u, &r) {
                signer_is(u.get_ref().signer.as_ref(), e.get_ref())?;
            }
        }
        active.sort_by_key(order);
        let p = page(&mut t);
        let pages = walk("signers", 200, false, |page_token| async {
            svc.get_on_chain_signers_by_fid(Request::new(proto::FidRequest { fid: f, page_size: p.size, page_token, reverse: p.reverse }))
                .await
                .map(|r| r.into_inner())
                .map(|r| (r.events, r.next_page_token))
        })
        .await?;
        in_order(&format!("the signers of {f}"), &p, pages, active.clone(), |e| format!("{e:?}"))?;
        let p = page(&mut t);
        let pages = walk("signers of both kinds", 200, p.empty, |page_token| async {
            svc.get_signers_by_fid(Request::new(proto::SignersByFidRequest {
                fid: f,
                page_size: p.size,
                page_token,
                reverse: p.reverse,
                requester_fids: vec![],
            }))
            .await
            .map(|r| r.into_inner())
            .map(|r| (r.signers, r.next_page_token))
        })
        .await?;
        if let Some(sz) = p.size {
            ensure!(pages.iter().all(|x| x.len() <= sz as usize), "a page of signers beyond {sz}");
        }
        let got = pages.concat();
        ensure_eq!(got.len(), active.len(), "how many signers of {f}: {got:?}");
        let mut want = active.clone();
        if p.reverse == Some(true) {
            want.reverse();
        }
        for (g, e) in got.iter().zip(&want) {
            signer_is(Some(g), e)?;
        }
        // the id and its custody address
        let id = w.signers[s].ids.get(&f);
        let r = svc.get_id_registry_on_chain_event(Request::new(proto::FidRequest { fid: f, ..Default::default() })).await;
        match (r, id) {
            (Ok(e), Some(w)) => ensure_eq!(e.get_ref(), w, "the id event of {f}"),
            (Err(e), None) => ensure_eq!(e.code(), Code::NotFound, "the id event of {f}"),
            (r, w) => return Err(format!("the id event of {f}: {r:?}, {w:?}")),
        }
        let ids: Vec<&OnChainEvent> = w.held.iter().flat_map(|h| &h.chain).filter(|e| e.r#type == proto::OnChainEventType::EventTypeIdRegister as i32).collect();
        let to = |e: &OnChainEvent| match &e.body {
            Some(proto::on_chain_event::Body::IdRegisterEventBody(b)) => b.to.clone(),
            _ => vec![],
        };
        for a in [addr(100 + t.below(12) as u8), addr(100), addr(101), id.map(to).unwrap_or_default()] {
            let r = svc.get_id_registry_on_chain_event_by_address(Request::new(proto::IdRegistryEventByAddressRequest { address: a.clone() })).await;
            match r {
                Ok(e) => ensure!(to(e.get_ref()) == a && ids.contains(&e.get_ref()), "the id event of {}: {:?}", hex::encode(&a), e.get_ref()),
                Err(e) => ensure!(e.code() == Code::NotFound && ids.iter().all(|x| to(x) != a), "the id event of {}: {e}", hex::encode(&a)),
            }
            let r = svc
                .get_fid_address_type(Request::new(proto::FidAddressTypeRequest { fid: f, address: a.clone() }))
                .await
                .map_err(|e| format!("{e}"))?
                .into_inner();
            ensure_eq!(r.is_custody, id.is_some_and(|e| to(e) == a), "custody of {f} by {}", hex::encode(&a));
            ensure!(!r.is_auth && !r.is_verified, "{} of {f}: {r:?}", hex::encode(&a));
        }
        for k in 0..4u8 {
            let r = svc
                .get_fid_address_type(Request::new(proto::FidAddressTypeRequest { fid: f, address: verified(k) }))
                .await
                .map_err(|e| format!("{e}"))?
                .into_inner();
            let want = live[s].iter().any(|m| {
                mfid(m) == f && matches!(body(m), Body::VerificationAddAddressBody(b) if b.address == verified(k))
            });
            ensure_eq!((r.is_custody, r.is_auth, r.is_verified), (false, false, want), "address {k} of {f}");
            let key = signing_key(k).verifying_key().to_bytes().to_vec();
            let r = svc
                .get_fid_address_type(Request::new(proto::FidAddressTypeRequest { fid: f, address: key.clone() }))
                .await
                .map_err(|e| format!("{e}"))?
                .into_inner();
            use proto::on_chain_event::Body as OB;
            use proto::SignerEventType as E;
            let adds = |e: &&OnChainEvent| matches!(&e.body, Some(OB::SignerEventBody(b)) if b.event_type() == E::Add && b.key_type == 2);
            let auth = w.signers[s].signers.get(&(f, key.clone())).as_ref().is_some_and(adds);
            // the order of one block's events, and what a reset brings back, are open
            let mut about: Vec<&OnChainEvent> = w.held[s].chain.iter().filter(|e| e.fid == f && matches!(&e.body, Some(OB::SignerEventBody(b)) if b.key == key && b.event_type() != E::AdminReset)).collect();
            about.sort_by_key(|e| chain_key(e));
            let last = about.last().is_some_and(adds);
            ensure!(!r.is_custody && !r.is_verified && [auth, last].contains(&r.is_auth), "auth key {k} of {f}: {r:?}, {auth} {last}");
            o.label_if(auth, "an auth address");
        }
    }
    for s in 0..n {
        let p = page(&mut t);
        let pages = walk("fids", 400, false, |page_token| async {
            svc.get_fids(Request::new(proto::FidsRequest { page_size: p.size, page_token, reverse: p.reverse, shard_id: s + 1 }))
                .await
                .map(|r| r.into_inner())
                .map(|r| (r.fids, r.next_page_token))
        })
        .await?;
        let mut want: Vec<&OnChainEvent> = w.held[s as usize]
            .chain
            .iter()
            .filter(|e| matches!(&e.body, Some(proto::on_chain_event::Body::IdRegisterEventBody(b)) if b.event_type() == proto::IdRegisterEventType::Register))
            .collect();
        want.sort_by_key(|e| chain_key(e));
        in_order(&format!("the fids of shard {}", s + 1), &p, pages, want.iter().map(|e| e.fid).collect(), |v| format!("{v:?}"))?;
    }

    // ---- events, chunks
    let told: Vec<Vec<HubEvent>> = w
        .events
        .iter()
        .enumerate()
        .map(|(s, v)| {
            v.iter()
                .map(|e| {
                    let mut e = e.clone();
                    e.block_number = e.id >> 14;
                    e.shard_index = s as u32 + 1;
                    e.timestamp = w.stamps[s][&(e.id >> 14)];
                    if let Some(hub_event::Body::MergeMessageBody(b)) = &mut e.body {
                        if b.message.as_ref().unwrap().msg_type() == MessageType::LinkCompactState {
                            b.deleted_messages.clear();
                        }
                    }
                    e
                })
                .collect()
        })
        .collect();
    let ids: Vec<u64> = told.iter().flatten().map(|e| e.id).collect();
    for _ in 0..3 {
        let p = page(&mut t);
        let some = |t: &mut Tape| ids[(t.u8() as usize * 256 + t.u8() as usize) % ids.len()] + t.below(2) as u64;
        let start = if t.flag() { some(&mut t) } else { 0 };
        let stop = t.flag().then(|| some(&mut t));
        let shard = [None, Some(1), Some(n)][t.below(3)];
        let pages = walk("events", 2000, p.empty, |page_token| async {
            svc.get_events(Request::new(proto::EventsRequest {
                start_id: start,
                shard_index: shard,
                stop_id: stop,
                page_size: p.size,
                page_token,
                reverse: p.reverse,
            }))
            .await
            .map(|r| r.into_inner())
            .map(|r| (r.events, r.next_page_token))
        })
        .await?;
        let want: Vec<Vec<HubEvent>> = told
            .iter()
            .enumerate()
            .filter(|(s, _)| shard.map_or(true, |x| x == *s as u32 + 1))
            .map(|(_, v)| v.iter().filter(|e| e.id >= start && stop.map_or(true, |x| e.id < x)).cloned().collect())
            .collect();
        fanned(&format!("events {start}..{stop:?} of {shard:?}"), &p, pages, want, |v| {
            format!("{:?}", v.iter().map(|e| (e.shard_index, e.id >> 14, e.id & 16383)).collect::<Vec<_>>())
        })?;
    }
    for _ in 0..6 {
        let s = t.below(n as usize);
        let i = (t.u8() as usize * 256 + t.u8() as usize) % told[s].len();
        let e = &told[s][i];
        let r = svc.get_event(Request::new(proto::EventRequest { id: e.id, shard_index: s as u32 + 1 })).await;
        let r = r.map_err(|x| format!("event {} of shard {}: {x}", e.id, s + 1))?.into_inner();
        // a stored event is told as it is, but for what a list would leave out as well
        ensure_eq!(&r, e, "event {}", e.id);
    }
    for s in 0..n as usize {
        let top = w.nodes[s].height();
        let start = t.below(top as usize + 2) as u64;
        let stop = t.flag().then(|| t.below(top as usize + 3) as u64);
        let r = svc
            .get_shard_chunks(Request::new(proto::ShardChunksRequest { shard_id: s as u32 + 1, start_block_number: start, stop_block_number: stop }))
            .await
            .map_err(|e| format!("chunks: {e}"))?
            .into_inner();
        let got: Vec<u64> = r.shard_chunks.iter().map(|c| c.header.as_ref().unwrap().height.unwrap().block_number).collect();
        let want: Vec<u64> = (start.max(1)..=top).filter(|h| stop.map_or(true, |x| *h < x)).collect();
        ensure_eq!(got, want, "chunks {start}..{stop:?} of shard {}", s + 1);
    }
    // every kind of event, from somewhere in the past
    {
        let shard = [None, Some(1), Some(n)][t.below(3)];
        let start = if t.flag() { ids[(t.u8() as usize * 256 + t.u8() as usize) % ids.len()] } else { 0 };
        let types: Vec<i32> = [1, 2, 3, 6, 9, 10, 11, 12].into_iter().filter(|_| t.below(3) > 0).collect();
        let r = svc
            .subscribe(Request::new(proto::SubscribeRequest { event_types: types.clone(), from_id: Some(start), shard_index: shard, ..Default::default() }))
            .await
            .map_err(|e| format!("subscribe: {e}"))?;
        let mut rx = r.into_inner();
        let want: Vec<Vec<HubEvent>> = told
            .iter()
            .enumerate()
            .filter(|(s, _)| shard.map_or(true, |x| x == *s as u32 + 1))
            .map(|(_, v)| v.iter().filter(|e| e.id >= start && types.contains(&e.r#type)).cloned().collect())
            .collect();
        let all: usize = want.iter().map(|v: &Vec<HubEvent>| v.len()).sum();
        let mut got = vec![];
        use tonic::codegen::tokio_stream::StreamExt as _;
        for _ in 0..all {
            match tokio::time::timeout(std::time::Duration::from_secs(20), rx.next()).await {
                Ok(Some(Ok(e))) => got.push(e),
                x => return Err(format!("subscription from {start} of {shard:?} to {types:?}: {x:?} after {} of {all}", got.len())),
            }
        }
        for _ in 0..50 {
            tokio::task::yield_now().await;
        }
        if let Ok(Some(x)) = tokio::time::timeout(std::time::Duration::ZERO, rx.next()).await {
            return Err(format!("subscription from {start}: more than the events there are: {x:?}"));
        }
        let p = Page { size: None, reverse: None, empty: false };
        fanned("the subscription", &p, vec![got], want, |v| format!("{:?}", v.iter().map(|e| (e.shard_index, e.id >> 14, e.id & 16383)).collect::<Vec<_>>()))?;
    }
    // the whole
    let info = svc.get_info(Request::new(proto::GetInfoRequest {})).await.map_err(|e| format!("info: {e}"))?.into_inner();
    for s in 0..n as usize {
        let i = info.shard_infos.iter().find(|i| i.shard_id == s as u32 + 1).ok_or("no info on a shard")?;
        ensure_eq!(i.max_height, w.nodes[s].height(), "height of shard {}", s + 1);
        let (least, most) = (live[s].len() + w.held[s].chain.len(), live[s].len() + trie_extras(&w.held[s]));
        ensure!((least..=most).contains(&(i.num_messages as usize)), "items of shard {}: {}, not {least} to {most}", s + 1, i.num_messages);
    }
    Ok(())
}
/// what the trie holds beside messages: on-chain events, and usernames by fid
fn trie_extras(h: &Held) -> usize {
    h.chain.len() + h.fnames.len()
}
fn verified(k: u8) -> Vec<u8> {
    match body(&verification(0, k, 0, true)) {
        Body::VerificationRemoveBody(b) => b.address.clone(),
        _ => unreachable!(),
    }
}
/// The unified form of an on-chain signer.
fn signer_is(s: Option<&proto::Signer>, e: &OnChainEvent) -> R {
    let s = s.ok_or("no signer")?;
    let Some(proto::on_chain_event::Body::SignerEventBody(b)) = &e.body else { return Err("no signer event".into()) };
    ensure_eq!((s.source, s.fid, &s.key, s.key_type), (proto::SignerSource::Onchain as i32, e.fid, &b.key, b.key_type), "{s:?}");
    ensure_eq!(s.added_at, Some(e.block_timestamp), "{s:?}");
    Ok(())
}

pub fn c26(p: &mut Prop) {
    p.assume("histories in which a sweep removes what the same block already replaced are left out: C19 lists that defect");
    p.assume("the database is the in-memory stand-in of shims/rocksdb");
    p.sub(
        "reads",
        "at least four messages are live",
        15_000,
        150_000,
        || {
            let mix = Mix { per_block: (0, 8), blocks: (3, 12), bad: false, ..FULL };
            (history(mix), 1u32..=2, pvec(any::<u8>(), 300..700))
                .prop_map(|(h, shards, tape)| Case { h, shards, tape })
                .boxed()
        },
        reads,
    );
}
