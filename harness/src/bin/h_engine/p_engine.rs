//! C18-C21: one data shard driven through histories of blocks on several nodes and next to a model.
use crate::frame::{Obs, Prop, R};
use crate::gens::*;
use crate::model::{self, ev, Ev, Model, Msg};
use crate::world::*;
use proptest::prelude::*;
use prost::Message as _;
use serde::{Deserialize, Serialize};
use snapchain::consensus::consensus::SystemMessage;
use snapchain::proto::{self, ShardChunk, Transaction};
use snapchain::storage::constants::RootPrefix;
use snapchain::storage::store::engine::ShardStateChange;
use snapchain::storage::store::mempool_poller::MempoolMessage;
use std::collections::{BTreeMap, BTreeSet};

/// What the mempool offered and what the proposal carries: every system message, and the user
/// messages of exactly the fids with storage, counting storage rented in this very block.
fn check_offer(msgs: &[MempoolMessage], c: &ShardStateChange, db: &Model) -> R {
    let mut sys: BTreeMap<u64, Vec<Vec<u8>>> = BTreeMap::new();
    let mut user: BTreeMap<u64, Vec<Vec<u8>>> = BTreeMap::new();
    let mut stored: BTreeSet<u64> = msgs.iter().map(|m| m.fid()).filter(|f| db.units(*f).is_some()).collect();
    for m in msgs {
        let f = m.fid();
        match m {
            MempoolMessage::UserMessage(x) => user.entry(f).or_default().push(x.encode_to_vec()),
            MempoolMessage::OnchainEvent(e) => {
                if e.r#type() == proto::OnChainEventType::EventTypeStorageRent {
                    stored.insert(f);
                }
                let v = proto::ValidatorMessage { on_chain_event: Some(e.clone()), ..Default::default() };
                sys.entry(f).or_default().push(v.encode_to_vec())
            }
            MempoolMessage::FnameTransfer(t) => {
                let v = proto::ValidatorMessage { fname_transfer: Some(t.clone()), ..Default::default() };
                sys.entry(f).or_default().push(v.encode_to_vec())
            }
            MempoolMessage::BlockEvent { message, .. } => {
                let v = proto::ValidatorMessage { block_event: Some(message.clone()), ..Default::default() };
                sys.entry(f).or_default().push(v.encode_to_vec())
            }
            m => return Err(format!("unexpected offer {m:?}")),
        }
    }
    user.retain(|f, _| stored.contains(f));
    let sort = |mut m: BTreeMap<u64, Vec<Vec<u8>>>| {
        m.values_mut().for_each(|v| v.sort());
        m
    };
    let (mut csys, mut cuser): (BTreeMap<u64, Vec<_>>, BTreeMap<u64, Vec<_>>) = Default::default();
    for tx in &c.transactions {
        ensure!(
            !csys.contains_key(&tx.fid) && !cuser.contains_key(&tx.fid),
            "two transactions of fid {}",
            tx.fid
        );
        for m in &tx.system_messages {
            csys.entry(tx.fid).or_default().push(m.encode_to_vec());
        }
        for m in &tx.user_messages {
            ensure_eq!(m.data.as_ref().unwrap().fid, tx.fid, "author of a message in a transaction");
            cuser.entry(tx.fid).or_default().push(m.encode_to_vec());
        }
    }
    ensure!(sort(csys) == sort(sys), "proposed system messages are not the offered ones");
    ensure!(sort(cuser) == sort(user), "proposed user messages are not those of the fids with storage");
    Ok(())
}

pub struct Play {
    pub node: Node,
    pub m: Model,
    /// the model before each block
    pub chunks: Vec<ShardChunk>,
    pub offers: Vec<Vec<MempoolMessage>>,
    pub changes: Vec<ShardStateChange>,
    /// the engine left the rules in one of the ways the model recognises
    pub deviation: Option<(&'static str, String)>,
}
/// Drive one node through a history, the model alongside.
pub fn play(
    rt: &tokio::runtime::Runtime,
    h: &History,
    o: &mut Obs,
    mut each: impl FnMut(&mut Node, &Model, usize, &ShardStateChange) -> R,
) -> Result<Play, String> {
    let mut p = Play {
        node: Node::new(rt),
        m: Model::default(),
        chunks: vec![],
        offers: vec![],
        changes: vec![],
        deviation: None,
    };
    let blocks: Vec<Vec<Op>> = std::iter::once(setup_ops(h.setup)).chain(h.blocks.iter().cloned()).collect();
    for (i, ops) in blocks.iter().enumerate() {
        let msgs = mempool(ops, p.node.last_seq());
        let db = p.m.clone();
        p.node.start_round();
        let c = p.node.propose(msgs.clone(), block_ts(i));
        check_offer(&msgs, &c, &db)?;
        let mut want = vec![];
        for tx in &c.transactions {
            want.extend(p.m.tx(tx, &db, &valid));
        }
        let got: Vec<Ev> = c.events.iter().map(ev).collect();
        if let Some(hz) = p.m.hazard {
            o.label(hz);
            if got != want {
                p.deviation = Some((hz, format!("block {i}: got {} want {}", show(&got), show(&want))));
            }
            p.m = db;
            p.m.hazard = Some(hz);
            break;
        }
        ensure!(got == want, "block {i}: effects\n got {}\nwant {}\n ops {:?}", show(&got), show(&want), ops);
        let ch = p.node.chunk(&c);
        p.node.commit(rt, &ch);
        p.chunks.push(ch);
        p.offers.push(msgs);
        each(&mut p.node, &p.m, i, &c)?;
        p.changes.push(c);
    }
    Ok(p)
}
pub fn show(e: &[Ev]) -> String {
    let f = |h: &Vec<u8>| hex::encode(&h[..4.min(h.len())]);
    e.iter()
        .map(|e| match e {
            Ev::Merged { new, gone } => format!("merge {} -{:?}", f(new), gone.iter().map(f).collect::<Vec<_>>()),
            Ev::Failed(h) => format!("fail {}", f(h)),
            Ev::Pruned(h) => format!("prune {}", f(h)),
            Ev::Revoked(h) => format!("revoke {}", f(h)),
            Ev::OnChain(h) => format!("chain {}", f(h)),
            Ev::Proof { new, gone } => format!("proof {:?} -{:?}", new.as_ref().map(f), gone.as_ref().map(f)),
            e => format!("{e:?}"),
        })
        .collect::<Vec<_>>()
        .join(", ")
}

/// C01/C02 decide what a valid message is; here it is only required that the engine asks.
pub fn valid(m: &proto::Message) -> bool {
    model::well_formed(m)
        && snapchain::core::validations::message::validate_message(
            m,
            proto::FarcasterNetwork::Devnet,
            false,
            &snapchain::core::util::FarcasterTime::new(block_ts(0) as u64),
            snapchain::version::version::EngineVersion::V21,
        )
        .is_ok()
}

// ---- C19: the rules ----
fn rules(h: &History, o: &mut Obs) -> R {
    let rt = rt();
    let p = play(&rt, h, o, |n, m, i, _| state(n, m).map_err(|e| format!("after block {i}: {e}")))?;
    if let Some((sig, msg)) = p.deviation {
        o.finding(sig, msg);
    }
    if p.chunks.len() > 2 {
        o.nt()
    }
    Ok(())
}
/// Everything readable equals the model.
pub fn state(n: &mut Node, m: &Model) -> R {
    let s = n.e.get_stores();
    let mut stored = BTreeMap::new();
    for (k, v) in n.dump() {
        if k[0] == RootPrefix::User as u8 && k.len() > 6 && (k[5] <= 85 || k[5] == 100) {
            let msg = proto::Message::decode(v.as_slice()).map_err(|e| format!("undecodable message row: {e}"))?;
            stored.insert(msg.hash.clone(), msg);
        }
    }
    let _ = s;
    let have: BTreeSet<_> = stored.keys().cloned().collect();
    ensure!(have == m.hashes(), "stored messages {} differ from the model's {}", have.len(), m.hashes().len());
    Ok(())
}


// ---- several nodes ----
pub struct Run {
    pub node: Node,
    pub chunks: Vec<ShardChunk>,
    pub changes: Vec<ShardStateChange>,
    pub emitted: Vec<Vec<proto::HubEvent>>,
    /// dump before each block, and after the last
    pub dumps: Vec<BTreeMap<Vec<u8>, Vec<u8>>>,
}
/// One proposer drives a history, without a model.
pub fn drive(rt: &tokio::runtime::Runtime, h: &History, dumps: bool) -> Run {
    let mut r = Run { node: Node::new(rt), chunks: vec![], changes: vec![], emitted: vec![], dumps: vec![] };
    let blocks: Vec<Vec<Op>> = std::iter::once(setup_ops(h.setup)).chain(h.blocks.iter().cloned()).collect();
    for (i, ops) in blocks.iter().enumerate() {
        if dumps {
            r.dumps.push(r.node.dump());
        }
        let msgs = mempool(ops, r.node.last_seq());
        let (ch, c) = r.node.block(rt, msgs, block_ts(i));
        r.emitted.push(r.node.drain());
        r.chunks.push(ch);
        r.changes.push(c);
    }
    if dumps {
        r.dumps.push(r.node.dump());
    }
    r
}
/// what another node can know of a proposal
pub fn received(c: &ShardStateChange) -> ShardStateChange {
    ShardStateChange { events: vec![], max_block_event_seqnum: 0, ..c.clone() }
}
/// The events of one height: numbered in emission order, announced first with the right counts.
fn numbered(ev: &[proto::HubEvent], height: u64, chunk: &ShardChunk) -> R {
    let mut last = None;
    let mut by_type = std::collections::HashMap::new();
    for e in ev {
        *by_type.entry(e.r#type).or_insert(0u64) += 1;
    }
    for (i, e) in ev.iter().enumerate() {
        if i == 0 {
            let Some(proto::hub_event::Body::BlockConfirmedBody(b)) = &e.body else {
                return Err(format!("the first event of height {height} is {e:?}"));
            };
            ensure_eq!(b.total_events, ev.len() as u64, "announced number of events");
            ensure!(b.event_counts_by_type == by_type, "announced counts {:?} are not {:?}", b.event_counts_by_type, by_type);
            ensure_eq!(b.block_hash, chunk.hash, "announced chunk hash");
            ensure_eq!(b.block_number, height, "announced height");
            ensure_eq!(b.timestamp, chunk.header.as_ref().unwrap().timestamp, "announced time");
        } else {
            ensure!(e.r#type != proto::HubEventType::BlockConfirmed as i32, "announced twice");
        }
        ensure_eq!(e.timestamp, chunk.header.as_ref().unwrap().timestamp, "time of an event");
        ensure_eq!(e.id >> 14, height, "height in an event id");
        ensure!(last < Some(e.id), "event ids of height {height} do not increase at {i}: {last:?} {}", e.id);
        last = Some(e.id);
    }
    Ok(())
}
fn replicas(c: &(History, Vec<u8>), o: &mut Obs) -> R {
    let rt = rt();
    let a = drive(&rt, &c.0, false);
    let plan = |i: usize| c.1.get(i % c.1.len().max(1)).copied().unwrap_or(0);
    // a validator, a node that only commits, and one that does now this, now that, and restarts
    for who in 0..3 {
        // their clocks are apart, not so far that storage lapses
        rocksdb::shim::set_clock([0, 100 * 86400, -8 * 86400][who] + plan(7) as i64 * 3600);
        let mut n = Node::new(&rt);
        let mut emitted = vec![];
        for (i, ch) in a.chunks.iter().enumerate() {
            let p = match who {
                0 => 1,
                1 => 0,
                _ => plan(i),
            };
            if p & 2 != 0 {
                n.restart(&rt);
                o.label("restarted");
            }
            // consensus starts a round before anything is validated
            if who != 1 {
                n.start_round();
            }
            if p & 1 != 0 {
                ensure!(n.validate(&received(&a.changes[i])), "node {who} refuses block {i}");
                if p & 16 != 0 {
                    ensure!(n.validate(&received(&a.changes[i])), "node {who} refuses block {i} the second time");
                }
            }
            if p & 4 != 0 {
                n.restart(&rt);
            }
            n.commit(&rt, ch);
            emitted.push(n.drain());
            ensure!(n.root() == ch.header.as_ref().unwrap().shard_root, "node {who} block {i}: state root");
            ensure!(
                emitted[i] == a.emitted[i],
                "node {who} block {i}: emitted {} not {}",
                show(&emitted[i].iter().map(ev).collect::<Vec<_>>()),
                show(&a.emitted[i].iter().map(ev).collect::<Vec<_>>())
            );
        }
        if let Some(d) = diff(&a.node.dump(), &n.dump()) {
            return Err(format!("node {who}: {d}"));
        }
        ensure_eq!(n.height(), a.node.height(), "height");
    }
    for (i, e) in a.emitted.iter().enumerate() {
        numbered(e, i as u64 + 1, &a.chunks[i])?;
        let stored: Vec<_> = a.node.events(i as u64 + 1);
        let want: Vec<_> = e.iter().map(|e| proto::HubEvent { timestamp: 0, ..e.clone() }).collect();
        let have: Vec<_> = stored.iter().map(|e| proto::HubEvent { timestamp: 0, ..e.clone() }).collect();
        ensure!(want == have, "block {i}: stored events differ from the emitted ones");
        o.label_if(e.len() > 8, "many-events");
    }
    if a.emitted.iter().filter(|e| e.len() > 1).count() > 2 {
        o.nt()
    }
    Ok(())
}

// ---- no trace ----
#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum Noise {
    /// propose something else
    Propose(Vec<Op>),
    /// validate the coming block with one byte wrong
    BadRoot(u8),
    BadAccountRoot(u8, u8),
    /// validate the coming block without one of its messages, or with its transactions turned round
    Drop(u8),
    Reverse,
    /// ask whether messages would merge
    Simulate(Vec<Op>),
    SimulateBulk(Vec<Op>),
    /// a chunk whose root does not come out is refused by a panic and the process restarts
    BadCommit(u8),
    Restart,
}
fn noise() -> BoxedStrategy<Noise> {
    let ops = || pvec(op(FULL), 0..5);
    prop_oneof![
        4 => ops().prop_map(Noise::Propose),
        2 => any::<u8>().prop_map(Noise::BadRoot),
        2 => (any::<u8>(), any::<u8>()).prop_map(|(a, b)| Noise::BadAccountRoot(a, b)),
        2 => any::<u8>().prop_map(Noise::Drop),
        1 => Just(Noise::Reverse),
        3 => ops().prop_map(Noise::Simulate),
        2 => ops().prop_map(Noise::SimulateBulk),
        1 => any::<u8>().prop_map(Noise::BadCommit),
        1 => Just(Noise::Restart),
    ]
    .boxed()
}
fn user_messages(ops: &[Op]) -> Vec<proto::Message> {
    ops.iter()
        .filter_map(|o| match o {
            Op::M { f, k, ts, b, bad } => Some(message(*f, *k, *ts, b, *bad)),
            _ => None,
        })
        .collect()
}
fn flip(v: &mut Vec<u8>, at: u8) {
    if v.is_empty() {
        v.push(at);
        return;
    }
    let i = at as usize / 8 % v.len();
    v[i] ^= 1 << (at % 8);
}
fn no_trace(c: &(History, Vec<(u8, Noise)>), o: &mut Obs) -> R {
    let rt = rt();
    let a = drive(&rt, &c.0, true);
    let mut n = Node::new(&rt);
    let mut made = 0;
    for (i, ch) in a.chunks.iter().enumerate() {
        for (at, noise) in &c.1 {
            if *at as usize % a.chunks.len() != i {
                continue;
            }
            let before = n.dump();
            let root = n.root();
            made += 1;
            match noise {
                Noise::Propose(ops) => {
                    n.start_round();
                    let seq = n.last_seq();
                    n.propose(mempool(ops, seq), block_ts(i));
                    o.label("proposed");
                }
                Noise::BadRoot(at) => {
                    let mut x = received(&a.changes[i]);
                    flip(&mut x.new_state_root, *at);
                    ensure!(!n.validate(&x), "block {i} with a wrong state root is accepted");
                    o.label("bad-root");
                }
                Noise::BadAccountRoot(w, at) => {
                    let mut x = received(&a.changes[i]);
                    if !x.transactions.is_empty() {
                        let k = *w as usize % x.transactions.len();
                        flip(&mut x.transactions[k].account_root, *at);
                        ensure!(!n.validate(&x), "block {i} with a wrong account root is accepted");
                        o.label("bad-account-root");
                    }
                }
                Noise::Drop(w) => {
                    let mut x = received(&a.changes[i]);
                    if !x.transactions.is_empty() {
                        let k = *w as usize % x.transactions.len();
                        if x.transactions[k].user_messages.pop().is_none() {
                            x.transactions[k].system_messages.pop();
                        }
                        n.validate(&x);
                        o.label("dropped");
                    }
                }
                Noise::Reverse => {
                    let mut x = received(&a.changes[i]);
                    x.transactions.reverse();
                    n.validate(&x);
                }
                Noise::Simulate(ops) => {
                    let mut e = simulator(&rt, &n);
                    for m in user_messages(ops) {
                        let _ = e.simulate_message(&m);
                        o.label("simulated");
                    }
                }
                Noise::SimulateBulk(ops) => {
                    let ms = user_messages(ops);
                    ensure_eq!(simulator(&rt, &n).simulate_bulk_messages(&ms).len(), ms.len(), "answers");
                    o.label_if(!ms.is_empty(), "simulated-bulk");
                }
                Noise::BadCommit(at) => {
                    let mut x = ch.clone();
                    flip(&mut x.header.as_mut().unwrap().shard_root, *at);
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| n.commit(&rt, &x)));
                    ensure!(r.is_err(), "block {i} with a wrong state root is committed");
                    n.restart(&rt);
                    o.label("bad-commit");
                }
                Noise::Restart => n.restart(&rt),
            }
            if let Some(d) = diff(&before, &n.dump()) {
                return Err(format!("before block {i}, {noise:?} left a trace: {d}"));
            }
            ensure!(n.root() == root, "before block {i}, {noise:?} changed the root");
            ensure!(n.drain().is_empty(), "before block {i}, {noise:?} emitted events");
        }
        n.start_round();
        ensure!(n.validate(&received(&a.changes[i])), "block {i} is refused after {:?}", c.1);
        n.commit(&rt, ch);
        let e = n.drain();
        ensure!(e == a.emitted[i], "block {i} emitted other events after {:?}", c.1);
        if let Some(d) = diff(&a.dumps[i + 1], &n.dump()) {
            return Err(format!("after block {i}: {d}"));
        }
    }
    if made > 1 {
        o.nt()
    }
    Ok(())
}
/// the throw-away engine the RPC server builds to try a message
fn simulator(rt: &tokio::runtime::Runtime, n: &Node) -> snapchain::storage::store::engine::ShardEngine {
    let s = n.e.get_stores();
    rt.block_on(snapchain::storage::store::engine::ShardEngine::new(
        s.db.clone(),
        proto::FarcasterNetwork::Devnet,
        s.trie.clone(),
        1,
        s.store_limits.clone(),
        snapchain::storage::store::test_helper::statsd_client(),
        100,
        None,
        None,
        None,
    ))
    .unwrap()
}
/// What a simulation promises: the message merges if it is all the next block holds.
fn promises(c: &(History, Vec<Op>), o: &mut Obs) -> R {
    let rt = rt();
    let a = drive(&rt, &c.0, false);
    let mut n = a.node;
    let ms = user_messages(&c.1);
    let failed = |c: &ShardStateChange| -> Vec<Vec<u8>> {
        c.events
            .iter()
            .filter_map(|e| match ev(e) {
                Ev::Failed(h) => Some(h),
                _ => None,
            })
            .collect()
    };
    for m in &ms {
        let sim = simulator(&rt, &n).simulate_message(m);
        n.start_round();
        let c = n.propose(vec![MempoolMessage::UserMessage(m.clone())], block_ts(a.chunks.len()));
        if c.transactions.is_empty() {
            o.label("no-storage");
            continue;
        }
        o.label(if sim.is_ok() { "promised" } else { "refused" });
        ensure!(sim.is_ok() == failed(&c).is_empty(), "simulated {sim:?}, proposed failures {:?}", failed(&c).len());
    }
    // in bulk: all of a fid's messages are promised or none
    let bulk = simulator(&rt, &n).simulate_bulk_messages(&ms);
    for f in FIDS {
        let own: Vec<usize> = (0..ms.len()).filter(|i| ms[*i].data.as_ref().unwrap().fid == f).collect();
        if own.is_empty() {
            continue;
        }
        n.start_round();
        let c = n.propose(own.iter().map(|i| MempoolMessage::UserMessage(ms[*i].clone())).collect(), block_ts(a.chunks.len()));
        if c.transactions.is_empty() {
            continue;
        }
        let ok = failed(&c).is_empty();
        for i in own {
            ensure!(bulk[i].is_ok() == ok, "bulk answer {:?} where the block's is {ok}", bulk[i]);
        }
        o.label(if ok { "bulk-promised" } else { "bulk-refused" });
    }
    if ms.len() > 1 {
        o.nt()
    }
    Ok(())
}

// ---- the state depends on what is live only ----
fn canonical(h: &History, o: &mut Obs) -> R {
    let rt = rt();
    let mut lost: Vec<String> = vec![];
    let p = play(&rt, h, o, |n, m, i, _| {
        let mut s = n.e.get_stores();
        s.trie.reload(&n.db).unwrap();
        let keys: BTreeSet<Vec<u8>> = s
            .trie
            .get_all_values(&snapchain::storage::trie::merkle_trie::Context::new(), &n.db, &[])
            .map_err(|e| e.to_string())?
            .into_iter()
            .filter(|k| !k.is_empty()) // all an empty trie has to show
            .collect();
        let mut want = m.trie_keys();
        for p in m.renewed.iter().map(|n| &m.fnames[n]).filter(|p| p.fid != 0) {
            let k = snapchain::storage::trie::merkle_trie::TrieKey::for_fname(p.fid, &String::from_utf8(p.name.clone()).unwrap());
            if !keys.contains(&k) {
                want.remove(&k);
                lost.push(hex::encode(k));
            }
        }
        ensure!(
            keys == want,
            "after block {i} the trie holds {} keys, the model {}: {:?}",
            keys.len(),
            want.len(),
            keys.symmetric_difference(&want).map(hex::encode).take(4).collect::<Vec<_>>()
        );
        ensure_eq!(s.trie.items().unwrap(), keys.len(), "items counted");
        Ok(())
    })?;
    if !lost.is_empty() {
        o.finding("renewed-name-key", format!("renewed names without a trie key: {lost:?}"));
        return Ok(());
    }
    if p.m.equal_time_links() > 0 {
        o.finding("equal-time-link-swept", format!("{} links stand next to a compaction of the same time", p.m.equal_time_links()));
        return Ok(());
    }
    let mut chain: Vec<_> = p.m.chain.values().cloned().collect();
    chain.sort_by_key(|e| (e.block_number, e.log_index));
    let mut sorted = Model::default();
    for e in &chain {
        let db = sorted.clone();
        sorted.onchain(e, &db);
    }
    if sorted.ids != p.m.ids || sorted.signers != p.m.signers {
        o.finding("late-chain-event", "the registration or signers in force are not those of the events in chain order".into());
        return Ok(());
    }
    // a node that is handed the survivors only, in another order
    let b = Node::bootstrapped(&rt);
    use proto::shard_trie_entry_with_message::TrieMessage as T;
    let mut all: Vec<T> = chain.into_iter().map(T::OnChainEvent).collect();
    all.extend(p.m.fnames.values().filter(|f| f.fid != 0).map(|f| {
        T::FnameTransfer(proto::FnameTransfer { id: 0, from_fid: 0, proof: Some(f.clone()) })
    }));
    let mut live: Vec<&Msg> = p.m.live.values().collect();
    live.sort_by_key(|m| (m.t == proto::MessageType::LinkCompactState, m.hash()));
    all.extend(live.iter().map(|m| T::UserMessage(m.m.clone())));
    let mut stores = b.e.get_stores();
    for t in all {
        let mut txn = snapchain::storage::db::RocksDbTransactionBatch::new();
        let merged = b
            .e
            .replay_replicator_message(
                &mut txn,
                &proto::ShardTrieEntryWithMessage { trie_message: Some(t.clone()), ..Default::default() },
                true,
            )
            .map_err(|e| format!("a survivor does not merge: {e} {t:?}"))?;
        let ctx = snapchain::storage::trie::merkle_trie::Context::new();
        stores
            .trie
            .insert(&ctx, &b.db, &mut txn, merged.trie_keys.iter().map(|k| k.as_slice()).collect())
            .map_err(|e| e.to_string())?;
        b.db.commit(txn).unwrap();
        stores.trie.reload(&b.db).unwrap();
    }
    let two_names = |k: &[u8]| {
        k[0] == RootPrefix::FNameUserNameProofByFid as u8
            && p.m.several.iter().any(|f| k[1..] == (*f as u32).to_be_bytes())
    };
    let kept = |n: &Node| -> BTreeMap<_, _> {
        n.dump()
            .into_iter()
            .filter(|(k, _)| matches!(k[0], 3..=8 | 11 | 12 | 14 | 15 | 16 | 22..=25) && !two_names(k))
            .collect()
    };
    let mut whole = kept(&p.node);
    let burned: Vec<Vec<u8>> = whole
        .iter()
        .filter(|(k, v)| k[0] == RootPrefix::FNameUserNameProof as u8 && proto::UserNameProof::decode(v.as_slice()).is_ok_and(|p| p.fid == 0))
        .map(|(k, _)| k.clone())
        .collect();
    if !burned.is_empty() {
        o.finding("released-name-row", format!("{} released names keep a row no other node can learn of", burned.len()));
        burned.iter().for_each(|k| {
            whole.remove(k);
        });
    }
    if let Some(d) = diff(&whole, &kept(&b)) {
        return Err(format!("state with history against state of the survivors: {d}"));
    }
    if p.m.live.len() > 4 && p.chunks.len() > 3 {
        o.nt()
    }
    Ok(())
}

pub fn c18(p: &mut Prop) {
    p.sub("replicas", "three blocks with events", 2500, 60_000, || (history(FULL), pvec(0u8..32, 1..8)).boxed(), replicas);
    crate::p_quota::c18(p);
}
pub fn c20(p: &mut Prop) {
    p.sub("noise", "two or more interruptions", 5_000, 60_000, || {
        (history(FULL), pvec((0u8..16, noise()), 0..6)).boxed()
    }, no_trace);
    p.sub("promises", "two or more messages", 7_000, 60_000, || (history(FULL), pvec(op(Mix { chain: 0, names: 0, vers: 0, ..FULL }), 0..5)).boxed(), promises);
}
pub fn c21(p: &mut Prop) {
    p.sub("canonical", "four live messages after four blocks", 6_000, 80_000, || history(FULL), canonical);
}
pub fn c19(p: &mut Prop) {
    p.sub("rules", "history of three or more blocks", 14_000, 100_000, || history(FULL), rules);
}
