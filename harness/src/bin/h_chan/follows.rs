//! Channel follows: likes of a channel's one name, on the shards of those who like it.
use crate::frame::{Obs, R};
use crate::gens::*;
use crate::reads::*;
use crate::sim::{self, fid, home, pubkey, rt, t0, Zero};
use proptest::prelude::*;
use prost::Message as _;
use serde::{Deserialize, Serialize};
use snapchain::core::util::FarcasterTime;
use snapchain::proto::{self, hub_service_server::HubService, message_data::Body, reaction_body::Target, MessageType};
use snapchain::storage::db::{PageOptions, RocksDB};
use snapchain::storage::store::account::ReactionStore;
use snapchain::storage::store::engine::ShardEngine;
use snapchain::storage::store::mempool_poller::MempoolMessage;
use snapchain::storage::store::stores::{Limits, StoreLimits};
use snapchain::storage::store::test_helper as th;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;
use tonic::{Code, Request};

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum Op {
    /// `how` the channel is named: 0 as it must be
    React { f: u8, k: u8, ts: i16, rm: bool, recast: bool, c: u8, how: u8 },
    Signer { f: u8, k: u8 },
    Again { i: u8 },
}
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Case {
    limit: u32,
    shards: u8,
    blocks: Vec<Vec<Op>>,
}
pub fn case() -> BoxedStrategy<Case> {
    let react = (0u8..5, prop_oneof![6 => Just(0u8), 2 => Just(1u8)], -40i16..40, any::<bool>(), prop_oneof![5 => Just(false), 1 => Just(true)], 0u8..5, prop_oneof![9 => Just(0u8), 3 => 0u8..9])
        .prop_map(|(f, k, ts, rm, recast, c, how)| Op::React { f, k, ts, rm: rm && ts % 2 == 0, recast, c, how });
    let op = prop_oneof![20 => react, 1 => (0u8..5, 0u8..2).prop_map(|(f, k)| Op::Signer { f, k }), 2 => any::<u8>().prop_map(|i| Op::Again { i })];
    (prop_oneof![2 => Just(1u32), 2 => Just(2u32), 3 => Just(100u32)], 1u8..4, pvec(pvec(op, 1..=12), 1..=5))
        .prop_map(|(limit, shards, blocks)| Case { limit, shards, blocks })
        .boxed()
}
fn id(c: u8) -> Vec<u8> {
    match c % 5 {
        0 => sim::cid(0),
        1 => vec![0xff; 32],
        // next to the first
        2 => {
            let mut x = sim::cid(0);
            x[31] ^= 1;
            x
        }
        3 => [vec![0; 31], vec![7]].concat(),
        _ => vec![0; 32],
    }
}
/// The number a channel's id stands for.
fn decimal(id: &[u8]) -> String {
    let mut digits = vec![0u8];
    for b in id {
        let mut carry = *b as u32;
        for d in digits.iter_mut() {
            let x = *d as u32 * 256 + carry;
            *d = (x % 10) as u8;
            carry = x / 10;
        }
        while carry > 0 {
            digits.push((carry % 10) as u8);
            carry /= 10;
        }
    }
    digits.iter().rev().map(|d| (b'0' + d) as char).collect()
}
/// The registrar of every network but the main one, as its address is written.
fn checksum(hex: &str) -> String {
    let h = keccak(hex.as_bytes());
    hex.chars().enumerate().map(|(i, c)| if h[i / 2] >> (4 * (1 - i % 2)) & 15 >= 8 { c.to_ascii_uppercase() } else { c }).collect()
}
const REGISTRAR: &str = "7dd80c661ded9bfc8d4440224a0b39b345a91be4";
fn name(c: u8, how: u8) -> Target {
    let n = decimal(&id(c));
    let at = checksum(REGISTRAR);
    Target::TargetUrl(match how {
        0 => format!("eip155:11155111/erc721:0x{at}/{n}"),
        1 => format!("eip155:11155111/erc721:0x{REGISTRAR}/{n}"),
        2 => format!("eip155:11155111/erc721:0x{at}/0{n}"),
        3 => format!("eip155:1/erc721:0x{at}/{n}"),
        4 => format!("eip155:11155111/erc721:0x{}/{n}", checksum("90fc42187dd80c661ded9bfc8d4440224a0b39b3")),
        5 => format!("eip155:11155111/erc721:0x{at}/{n}/"),
        6 => format!("https://warpcast.com/~/channel/{c}"),
        7 => format!("EIP155:11155111/erc721:0x{at}/{n}"),
        _ => return Target::TargetCastId(proto::CastId { fid: 1001, hash: fill(20, c) }),
    })
}
struct Node {
    e: ShardEngine,
    db: Arc<RocksDB>,
    _dir: tempfile::TempDir,
}
fn node(rt: &tokio::runtime::Runtime, shard: u32, limit: u32) -> Node {
    let dir = tempfile::TempDir::new().unwrap();
    let db = RocksDB::new(dir.path().join("d.db").to_str().unwrap());
    db.open().unwrap();
    let db = Arc::new(db);
    let (tx, _rx) = tokio::sync::mpsc::channel(1);
    let l = || Limits { casts: 9, links: 9, reactions: limit, user_data: 9, user_name_proofs: 9, verifications: 9, storage_lends: 9 };
    let e = rt
        .block_on(th::new_engine_with_options(th::EngineOptions {
            db: Some(db.clone()),
            shard_id: shard,
            messages_request_tx: Some(tx),
            limits: Some(StoreLimits::new(l(), l(), l())),
            ..Default::default()
        }))
        .0;
    Node { e, db, _dir: dir }
}
/// One block, on the node that proposes it and on one that follows.
/// What it says was pruned or revoked although it had gone before, in the same block.
fn block(rt: &tokio::runtime::Runtime, ns: &mut [Node; 2], shard: u32, msgs: Vec<MempoolMessage>, ts: u32) -> Option<String> {
    let h = proto::Height { shard_index: shard, block_number: ns[0].e.get_confirmed_height().block_number + 1 };
    ns[0].e.start_round(h, informalsystems_malachitebft_core_types::Round::Nil);
    let c = ns[0].e.propose_state_change(shard, msgs, Some(FarcasterTime::new(ts as u64)));
    let mut ch = th::state_change_to_shard_chunk(shard, h.block_number, &c);
    ch.hash = blake3::hash(&ch.encode_to_vec()).as_bytes()[..20].to_vec();
    for n in ns {
        rt.block_on(n.e.commit_shard_chunk(&ch));
    }
    use proto::hub_event::Body as HB;
    let mut gone = BTreeSet::new();
    for e in &c.events {
        match &e.body {
            Some(HB::MergeMessageBody(b)) => gone.extend(b.deleted_messages.iter().map(|m| m.hash.clone())),
            Some(HB::PruneMessageBody(proto::PruneMessageBody { message: Some(m) })) | Some(HB::RevokeMessageBody(proto::RevokeMessageBody { message: Some(m) })) => {
                if !gone.insert(m.hash.clone()) {
                    return Some(format!("message {} of {} was pruned after it had been replaced in the same block", hex::encode(&m.hash[..4]), m.fid()));
                }
            }
            _ => {}
        }
    }
    None
}
fn reaction(f: u8, k: u8, ts: u32, rm: bool, recast: bool, target: Target) -> proto::Message {
    let d = proto::MessageData {
        r#type: if rm { MessageType::ReactionRemove } else { MessageType::ReactionAdd } as i32,
        fid: fid(f),
        timestamp: ts,
        network: proto::FarcasterNetwork::Devnet as i32,
        body: Some(Body::ReactionBody(proto::ReactionBody { r#type: if recast { 2 } else { 1 }, target: Some(target) })),
    };
    sign_data(&d, &signing_key(k))
}
/// (fid, channel) to when.
fn rows(n: &Node, o: &mut Obs) -> Result<(BTreeMap<(u64, Vec<u8>), u32>, usize), String> {
    let names: BTreeMap<String, Vec<u8>> = (0..5)
        .map(|c| match name(c, 0) {
            Target::TargetUrl(u) => (u, id(c)),
            _ => unreachable!(),
        })
        .collect();
    let mut out = BTreeMap::new();
    let mut all = 0;
    for f in (0..5).map(fid) {
        let p = ReactionStore::get_reaction_adds_by_fid(&n.e.stores.reaction_store, f, 0, &PageOptions::default()).map_err(|e| e.to_string())?;
        for m in p.messages {
            all += 1;
            let d = m.data.unwrap();
            let Some(Body::ReactionBody(b)) = d.body else { unreachable!() };
            let Some(Target::TargetUrl(u)) = b.target else { continue };
            match names.get(&u) {
                Some(id) if b.r#type == 1 => {
                    ensure!(out.insert((f, id.clone()), d.timestamp).is_none(), "two likes of one target by {f}");
                }
                Some(_) => o.label("a recast of a channel"),
                None => o.label("another spelling or target"),
            }
        }
    }
    Ok((out, all))
}
pub fn check(c: &Case, o: &mut Obs) -> R {
    let rt = rt();
    let n = c.shards as u32;
    let mut at: Vec<[Node; 2]> = (1..=n).map(|s| [node(&rt, s, c.limit), node(&rt, s, c.limit)]).collect();
    let each = |at: &mut Vec<[Node; 2]>, ms: Vec<(u64, MempoolMessage)>, ts: u32| {
        let mut twice = None;
        for (i, ns) in at.iter_mut().enumerate() {
            let own: Vec<_> = ms.iter().filter(|m| home(m.0, n) == i as u32 + 1).map(|m| m.1.clone()).collect();
            if !own.is_empty() {
                twice = twice.or(block(&rt, ns, i as u32 + 1, own, ts));
            }
        }
        twice
    };
    let mut setup = vec![];
    let mut keys = BTreeMap::new();
    for f in 0..5 {
        for e in [sim::custody_event(f, f, 100), sim::signer_event(f, 0, true, 101), sim::signer_event(f, 1, true, 102), sim::rent_event(f, sim::UNITS[f as usize], 103)] {
            setup.push((e.fid, MempoolMessage::OnchainEvent(e)));
        }
        keys.insert((f, 0), true);
        keys.insert((f, 1), true);
    }
    each(&mut at, setup, t0() + 50);
    let mut sent = vec![];
    let mut once = BTreeSet::new();
    let mut bn = 1000;
    let mut lost = false;
    for (i, ops) in c.blocks.iter().enumerate() {
        let now = t0() + 100 + 20 * i as u32;
        let mut ms = vec![];
        for op in ops {
            match op {
                Op::React { f, k, ts, rm, recast, c, how } => {
                    let m = reaction(*f, *k, (now as i64 + *ts as i64) as u32, *rm, *recast, name(*c, *how));
                    sent.push((fid(*f), m.clone()));
                    ms.push((fid(*f), MempoolMessage::UserMessage(m)));
                }
                Op::Signer { f, k } => {
                    bn += 1;
                    let on = keys.get_mut(&(*f, *k)).unwrap();
                    *on = !*on;
                    let e = sim::signer_event(*f, *k, *on, bn);
                    o.label_if(!*on, "a signer removed");
                    ms.push((e.fid, MempoolMessage::OnchainEvent(e)));
                }
                Op::Again { i } if !sent.is_empty() => {
                    let (f, m) = sent[*i as usize % sent.len()].clone();
                    ms.push((f, MempoolMessage::UserMessage(m)));
                }
                _ => {}
            }
        }
        if let Some(e) = each(&mut at, ms, now) {
            o.finding("prune-superseded", e);
            return Ok(());
        }
        for ns in &at {
            let (want, _) = rows(&ns[0], o)?;
            once.extend(want.iter().map(|(k, v)| (k.clone(), *v)));
        }
    }
    let _ = pubkey(0);
    // what stands
    let mut want = BTreeMap::new();
    for ns in &at {
        let (w, all) = rows(&ns[0], o)?;
        o.label_if(all > 0 && c.limit < 100, "few reactions kept");
        let (other, _) = rows(&ns[1], o)?;
        ensure_eq!(other, w, "reactions on a node that follows");
        want.extend(w);
    }
    lost |= once.len() > want.len();
    if lost && !want.is_empty() {
        o.nt();
    }
    // what is said to stand
    let zero = Zero::new(None);
    for i in 0..2 {
        let a = Api::new(&zero.e, at.iter().enumerate().map(|(s, ns)| (s as u32 + 1, &ns[i].e)));
        let s = &a.s;
        for c in 0..6 {
            let channel_id = if c == 5 { sim::cid(1) } else { id(c) };
            let mine: BTreeMap<u64, u32> = want.iter().filter(|(k, _)| k.1 == channel_id).map(|(k, t)| (k.0, *t)).collect();
            let r = a.call(s.get_channel_follower_count(Request::new(proto::ChannelFollowerCountRequest { channel_id: channel_id.clone() })));
            ensure_eq!(r.map_err(|e| e.to_string())?.count, mine.len() as u64, "followers of channel {c}, counted");
            let read = |page_size, page_token, reverse| {
                let q = proto::ChannelFollowersRequest { channel_id: channel_id.clone(), page_size, page_token, reverse };
                a.call(s.get_channel_followers(Request::new(q)))
            };
            for size in SIZES {
                for reverse in [None, Some(true)] {
                    let what = format!("followers of channel {c}, reverse {reverse:?},");
                    let got = pages(&what, size, n as usize, |p, t| read(p, t.or(Some(vec![])), reverse).map(|r| (r.followers, r.next_page_token)))?;
                    let mut sorted: Vec<_> = got.iter().map(|x| (x.fid, x.followed_at)).collect();
                    // in order within each shard
                    for shard in 1..=n {
                        let f: Vec<u64> = sorted.iter().map(|x| x.0).filter(|f| home(*f, n) == shard).collect();
                        ensure!(f.windows(2).all(|w| (w[0] < w[1]) == reverse.is_none()), "{what} in pages of {size:?}: out of order: {f:?}");
                    }
                    sorted.sort();
                    ensure_eq!(sorted, mine.iter().map(|(f, t)| (*f, *t)).collect::<Vec<_>>(), "{what} in pages of {size:?}");
                }
            }
            code("followers", read(Some(0), None, None), Code::InvalidArgument)?;
            code("followers", read(None, Some(b"[]".to_vec()), None), Code::InvalidArgument)?;
            code("followers", read(None, Some(vec![1, 2]), None), Code::InvalidArgument)?;
            for f in (0..6).map(fid) {
                let r = a.call(s.is_following_channel(Request::new(proto::IsFollowingChannelRequest { fid: f, channel_id: channel_id.clone() })));
                let w = mine.get(&f).copied();
                ensure_eq!(r.map_err(|e| e.to_string())?, proto::IsFollowingChannelResponse { following: w.is_some(), followed_at: w }, "whether {f} follows channel {c}");
            }
        }
        for f in (0..6).map(fid) {
            let mine: Vec<_> = want.iter().filter(|(k, _)| k.0 == f).map(|(k, t)| proto::ChannelFollow { channel_id: k.1.clone(), followed_at: *t }).collect();
            let read = |page_size, page_token, reverse| {
                let q = proto::ChannelFollowsRequest { fid: f, page_size, page_token, reverse };
                a.call(s.get_channel_follows(Request::new(q)))
            };
            for size in SIZES {
                for reverse in [None, Some(true)] {
                    let what = format!("channels {f} follows, reverse {reverse:?},");
                    let mut got = pages(&what, size, 1, |p, t| read(p, t, reverse).map(|r| (r.follows, r.next_page_token)))?;
                    if reverse.is_some() {
                        got.reverse();
                    }
                    ensure_eq!(got, mine, "{what} in pages of {size:?}");
                }
            }
            code("follows", read(Some(0), None, None), Code::InvalidArgument)?;
        }
        for channel_id in [vec![], vec![1; 31], vec![1; 33]] {
            code("count", a.call(s.get_channel_follower_count(Request::new(proto::ChannelFollowerCountRequest { channel_id: channel_id.clone() }))), Code::InvalidArgument)?;
            code("followers", a.call(s.get_channel_followers(Request::new(proto::ChannelFollowersRequest { channel_id: channel_id.clone(), ..Default::default() }))), Code::InvalidArgument)?;
            code("following", a.call(s.is_following_channel(Request::new(proto::IsFollowingChannelRequest { fid: 1001, channel_id }))), Code::InvalidArgument)?;
        }
        for f in [0u64, 1 << 32, (1 << 32) + 1001] {
            code("follows", a.call(s.get_channel_follows(Request::new(proto::ChannelFollowsRequest { fid: f, ..Default::default() }))), Code::InvalidArgument)?;
            code("following", a.call(s.is_following_channel(Request::new(proto::IsFollowingChannelRequest { fid: f, channel_id: id(0) }))), Code::InvalidArgument)?;
        }
    }
    // the rows themselves, on both nodes
    for ns in &at {
        let follow = |n: &Node| -> Vec<(Vec<u8>, Vec<u8>)> {
            let mut out = vec![];
            let p = snapchain::storage::constants::RootPrefix::ChannelFollow as u8;
            n.db.for_each_iterator_by_prefix(Some(vec![p]), Some(vec![p + 1]), &PageOptions::default(), |k, v| {
                out.push((k.to_vec(), v.to_vec()));
                Ok(false)
            })
            .unwrap();
            out
        };
        ensure_eq!(follow(&ns[0]), follow(&ns[1]), "follow rows of the two nodes");
    }
    Ok(())
}
