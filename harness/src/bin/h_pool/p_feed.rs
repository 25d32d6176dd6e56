//! C34: the block receiver brings shard 0's certified events to a data shard, in sequence, and does
//! not leave any behind.
use crate::frame::*;
use crate::gens::*;
use crate::p_pool::{event, stage};
use libp2p::identity::ed25519::{Keypair, SecretKey};
use prost::Message as _;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use snapchain::consensus::consensus::{SystemMessage, ValidatorSetConfig};
use snapchain::consensus::validator::{StoredValidatorSet, StoredValidatorSets};
use snapchain::core::types::{ShardId, SnapchainShard};
use snapchain::mempool::block_receiver::{BlockReceiver, Config};
use snapchain::mempool::mempool::{MempoolRequest, MempoolSource};
use snapchain::proto::{self, hub_event, Block, Height, HubEvent, ShardHash};
use snapchain::storage::store::mempool_poller::MempoolMessage;
use snapchain::storage::store::test_helper as th;
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex};
use std::time::Duration;
use tokio::sync::{broadcast, mpsc};

fn kp(i: u8) -> Keypair {
    let mut b = *blake3::hash(&[b'r', i]).as_bytes();
    Keypair::from(SecretKey::try_from_bytes(&mut b).unwrap())
}
fn pk(i: u8) -> Vec<u8> {
    kp(i).public().to_bytes().to_vec()
}
#[derive(Debug, Clone, Copy, PartialEq, Eq, Serialize, Deserialize)]
pub enum Bad {
    EventData { i: u8 },
    EventHash { i: u8 },
    EventGone { i: u8 },
    EventTwice { i: u8 },
    EventSwap,
    EventAdded,
    NoData { i: u8 },
    HeaderHash,
    NoQuorum,
    Signature { bit: u16 },
    Stranger,
    Twice,
    OtherValue,
    NoSignatures,
}
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Case {
    validators: u8,
    /// how many events each block carries
    blocks: Vec<u8>,
    /// which blocks arrive, damaged how, after how long (in seconds); the rest get lost
    deliver: Vec<Option<(Option<Bad>, u16)>>,
    /// for each submission in turn: lost before it is merged
    lost: Vec<bool>,
    /// replies to requests for a block, in turn: damaged how
    replies: Vec<Option<Bad>>,
    /// confirmations are announced
    announce: Vec<bool>,
    merge_delay: u16,
    batch: u8,
    before: u8,
}
fn sign(b: &mut Block, who: &[u8]) {
    let height = b.header.as_ref().unwrap().height.unwrap();
    let value = ShardHash { shard_index: height.shard_index, hash: b.header.as_ref().unwrap().state_root.clone() };
    let signatures = who
        .iter()
        .map(|i| {
            let vote = proto::Vote {
                height: Some(height),
                round: 0,
                voter: pk(*i),
                r#type: proto::VoteType::Precommit as i32,
                value: Some(value.clone()),
            };
            proto::CommitSignature { signer: pk(*i), signature: kp(*i).sign(&vote.encode_to_vec()) }
        })
        .collect();
    b.commits = Some(proto::Commits { height: Some(height), round: 0, value: Some(value), signatures });
}
fn events_hash(events: &[proto::BlockEvent]) -> Vec<u8> {
    let mut h = blake3::Hasher::new();
    for e in events {
        h.update(&e.hash);
    }
    h.finalize().as_bytes().to_vec()
}
fn block(n: u64, events: Vec<proto::BlockEvent>, validators: u8) -> Block {
    let mut b = Block {
        header: Some(proto::BlockHeader {
            height: Some(Height { shard_index: 0, block_number: n }),
            timestamp: 1000 + n,
            state_root: fill(32, n as u8),
            events_hash: events_hash(&events),
            ..Default::default()
        }),
        hash: fill(32, n as u8),
        events,
        ..Default::default()
    };
    sign(&mut b, &(0..validators).collect::<Vec<_>>());
    b
}
/// The block damaged, and whether it really is
fn damage(b: &Block, bad: &Bad, validators: u8) -> (Block, bool) {
    let mut d = b.clone();
    let n = d.events.len();
    let at = |i: u8| i as usize % n.max(1);
    match bad {
        _ if n == 0 => {}
        Bad::EventData { i } => d.events[at(*i)].data.as_mut().unwrap().event_index ^= 1,
        Bad::EventHash { i } => d.events[at(*i)].hash[0] ^= 1,
        Bad::EventGone { i } => {
            if n > 1 {
                d.events.remove(at(*i));
            }
        }
        Bad::EventTwice { i } => {
            let e = d.events[at(*i)].clone();
            d.events.insert(at(*i), e)
        }
        Bad::EventSwap => d.events.reverse(),
        Bad::EventAdded => {
            let last = d.events.last().unwrap().seqnum();
            d.events.push(event(last + 1, 9))
        }
        Bad::NoData { i } => {
            // the last one's number is read before anything is checked
            if at(*i) > 0 && at(*i) + 1 < n {
                d.events[at(*i)].data = None
            }
        }
        Bad::HeaderHash => d.header.as_mut().unwrap().events_hash[3] ^= 1,
        Bad::NoQuorum => {
            // exactly two thirds is not enough
            d.commits.as_mut().unwrap().signatures.truncate(validators as usize * 2 / 3);
        }
        Bad::Signature { bit } => {
            let c = d.commits.as_mut().unwrap();
            let s = &mut c.signatures[*bit as usize / 512 % validators as usize];
            s.signature[*bit as usize / 8 % 64] ^= 1 << (bit % 8)
        }
        Bad::Stranger => sign(&mut d, &(1..=validators).collect::<Vec<_>>()),
        Bad::Twice => {
            let c = d.commits.as_mut().unwrap();
            let s = c.signatures[0].clone();
            c.signatures.push(s)
        }
        Bad::OtherValue => d.commits.as_mut().unwrap().value.as_mut().unwrap().hash[0] ^= 1,
        Bad::NoSignatures => d.commits.as_mut().unwrap().signatures.clear(),
    }
    let changed = d != *b;
    (d, changed)
}

fn check(c: &Case, o: &mut Obs) -> R {
    let validators = 1 + c.validators % 5;
    let st = stage(1);
    let mut seq = 0u64;
    let mut blocks = vec![];
    for (i, n) in c.blocks.iter().enumerate() {
        let es = (0..*n)
            .map(|_| {
                seq += 1;
                event(seq, i as u8)
            })
            .collect();
        blocks.push(block(i as u64 + 1, es, validators));
    }
    // the chain goes on: these come at the end, intact, so that what was missed can be noticed
    let mut tail = vec![];
    let faults = c.lost.iter().filter(|x| **x).count() + c.replies.iter().flatten().count();
    for i in 0..2 + faults as u64 {
        seq += 1;
        tail.push(block(100 + i, vec![event(seq, 50 + i as u8)], validators));
    }
    let genuine: BTreeMap<u64, proto::BlockEvent> =
        blocks.iter().chain(&tail).flat_map(|b| b.events.iter().map(|e| (e.seqnum(), e.clone()))).collect();
    for s in 1..=(c.before as u64).min(seq.saturating_sub(3 + faults as u64)) {
        st.merge_event(1, &genuine[&s]);
    }
    let set = StoredValidatorSet::new(
        SnapchainShard::new(0),
        &ValidatorSetConfig {
            effective_at: 0,
            validator_public_keys: (0..validators).map(|i| hex::encode(pk(i))).collect(),
            shard_ids: vec![0],
        },
    );
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().start_paused(true).build().unwrap();
    rt.block_on(async {
        let (block_tx, block_rx) = broadcast::channel(1000);
        let (mempool_tx, mut mempool_rx) = mpsc::channel(1000);
        let (system_tx, mut system_rx) = mpsc::channel(1000);
        let (event_tx, event_rx) = broadcast::channel(4);
        let mut recv = BlockReceiver {
            shard_id: 1,
            block_rx,
            mempool_tx,
            system_tx,
            event_rx,
            stores: st.stores[&1].clone(),
            validator_sets: StoredValidatorSets::new(0, vec![set]),
            config: Config {
                single_block_confirmation_timeout: Duration::from_secs(5),
                sync_confirmation_timeout: Duration::from_secs(10),
                sync_batch_size: 1 + c.batch as u64 % 6,
                enabled: true,
            },
            statsd: th::statsd_client(),
        };
        let run = tokio::spawn(async move { recv.run().await });
        // what was submitted: (event, store's last at that time)
        let log: Arc<Mutex<Vec<(u64, u64)>>> = Default::default();
        let wrong: Arc<Mutex<Option<String>>> = Default::default();
        let consumer = {
            let (log, wrong) = (log.clone(), wrong.clone());
            let (lost, announce, genuine) = (c.lost.clone(), c.announce.clone(), genuine.clone());
            let delay = c.merge_delay as u64;
            let stores = st.stores[&1].clone();
            let merge = {
                let s = stores.clone();
                move |e: &proto::BlockEvent| {
                    let mut t = snapchain::storage::db::RocksDbTransactionBatch::new();
                    s.block_event_store.put_block_event(e, &mut t).unwrap();
                    s.db.commit(t).unwrap();
                }
            };
            tokio::spawn(async move {
                let mut n = 0;
                while let Some(r) = mempool_rx.recv().await {
                    let MempoolRequest::AddMessage(m, src, _) = r else { continue };
                    let MempoolMessage::BlockEvent { for_shard, message } = m else {
                        *wrong.lock().unwrap() = Some("not a block event".into());
                        return;
                    };
                    if for_shard != 1 || src != MempoolSource::Local {
                        *wrong.lock().unwrap() = Some(format!("for shard {for_shard} from {src:?}"));
                        return;
                    }
                    let s = message.seqnum();
                    if genuine.get(&s) != Some(&message) {
                        *wrong.lock().unwrap() = Some(format!("event {s} is not the chain's"));
                        return;
                    }
                    let max = stores.block_event_store.max_seqnum().unwrap();
                    log.lock().unwrap().push((s, max));
                    let drop = lost.get(n).copied().unwrap_or(false);
                    let tell = announce.get(n % announce.len().max(1)).copied().unwrap_or(false);
                    n += 1;
                    if drop || s != max + 1 {
                        continue;
                    }
                    if delay > 0 {
                        tokio::time::sleep(Duration::from_millis(delay)).await;
                    }
                    merge(&message);
                    if tell {
                        let _ = event_tx.send(HubEvent {
                            body: Some(hub_event::Body::BlockConfirmedBody(proto::BlockConfirmedBody {
                                max_block_event_seqnum: s,
                                ..Default::default()
                            })),
                            ..Default::default()
                        });
                    } else {
                        // other traffic, more than the channel holds
                        for _ in 0..6 {
                            let _ = event_tx.send(HubEvent::default());
                        }
                    }
                }
            })
        };
        let requests: Arc<Mutex<Vec<u64>>> = Default::default();
        let server = {
            let all: Vec<Block> = blocks.iter().chain(&tail).cloned().collect();
            let (requests, replies) = (requests.clone(), c.replies.clone());
            tokio::spawn(async move {
                let mut n = 0;
                while let Some(SystemMessage::BlockRequest { block_event_seqnum, block_tx }) = system_rx.recv().await {
                    requests.lock().unwrap().push(block_event_seqnum);
                    let b = all.iter().find(|b| b.events.iter().any(|e| e.seqnum() == block_event_seqnum)).unwrap();
                    // a reply keeps the numbers of its events, or the receiver asks for ever
                    let b = match replies.get(n) {
                        Some(Some(
                            bad @ (Bad::EventData { .. } | Bad::EventHash { .. } | Bad::HeaderHash | Bad::NoQuorum | Bad::Signature { .. } | Bad::Stranger | Bad::Twice | Bad::OtherValue | Bad::NoSignatures),
                        )) => damage(b, bad, validators).0,
                        _ => b.clone(),
                    };
                    n += 1;
                    let _ = block_tx.send(Some(b));
                }
            })
        };
        let mut missed = 0;
        let mut damaged = 0;
        for (i, b) in blocks.iter().enumerate() {
            match c.deliver.get(i) {
                Some(Some((bad, wait))) => {
                    let b = match bad {
                        Some(bad) => {
                            let (d, changed) = damage(b, bad, validators);
                            damaged += changed as u32;
                            d
                        }
                        None => b.clone(),
                    };
                    block_tx.send(b).unwrap();
                    tokio::time::sleep(Duration::from_millis(*wait as u64 * 100)).await;
                }
                _ => missed += !b.events.is_empty() as u32,
            }
        }
        ensure!(!run.is_finished(), "the receiver stopped");
        tokio::time::sleep(Duration::from_secs(600)).await;
        // from here on nothing is lost any more, at most what is left of the plan
        for (i, b) in tail.iter().enumerate() {
            block_tx.send(b.clone()).unwrap();
            let plan = c.lost.len().max(c.replies.len());
            tokio::time::sleep(Duration::from_secs(120 + 30 * plan as u64)).await;
            let _ = i;
        }
        if let Some(w) = wrong.lock().unwrap().take() {
            return Err(format!("submitted: {w}"));
        }
        ensure!(!run.is_finished(), "the receiver stopped");
        let max = st.stores[&1].block_event_store.max_seqnum().unwrap();
        ensure!(max == seq, "the store stands at event {max} of {seq}; submissions {:?}", log.lock().unwrap());
        let log = log.lock().unwrap();
        for (i, (s, max)) in log.iter().enumerate() {
            // never ahead of what the shard holds or was sent just before
            // (unless a block it asked for came damaged and was skipped)
            ensure!(
                *s <= max + 1 || c.replies.iter().any(|r| r.is_some()) || i > 0 && log[i - 1].0 + 1 == *s,
                "event {s} submitted out of sequence, the store at {max}: {:?}",
                log
            );
        }
        let lost = c.lost.iter().take(log.len()).filter(|x| **x).count();
        o.label_if(missed > 0, "blocks missed");
        o.label_if(damaged > 0, "damaged blocks");
        o.label_if(lost > 0, "submissions lost");
        o.label_if(!requests.lock().unwrap().is_empty(), "asked for blocks");
        if missed + damaged > 0 || lost > 0 {
            o.nt()
        }
        run.abort();
        consumer.abort();
        server.abort();
        Ok(())
    })
}
fn bad() -> BoxedStrategy<Bad> {
    prop_oneof![
        2 => (0u8..4).prop_map(|i| Bad::EventData { i }),
        2 => (0u8..4).prop_map(|i| Bad::EventHash { i }),
        1 => (0u8..4).prop_map(|i| Bad::EventGone { i }),
        1 => (0u8..4).prop_map(|i| Bad::EventTwice { i }),
        1 => Just(Bad::EventSwap),
        1 => Just(Bad::EventAdded),
        1 => (0u8..4).prop_map(|i| Bad::NoData { i }),
        2 => Just(Bad::HeaderHash),
        2 => Just(Bad::NoQuorum),
        2 => (0u16..2560).prop_map(|bit| Bad::Signature { bit }),
        1 => Just(Bad::Stranger),
        1 => Just(Bad::Twice),
        1 => Just(Bad::OtherValue),
        1 => Just(Bad::NoSignatures),
    ]
    .boxed()
}
fn case() -> BoxedStrategy<Case> {
    (
        0u8..5,
        pvec(0u8..5, 1..8),
        pvec(
            prop_oneof![1 => Just(None), 4 => (prop_oneof![3 => Just(None), 1 => bad().prop_map(Some)], prop_oneof![3 => Just(0u16), 2 => 0u16..100, 1 => Just(2000u16)]).prop_map(Some)],
            8..=8usize,
        ),
        pvec(prop::bool::weighted(0.3), 0..8),
        pvec(prop_oneof![2 => Just(None), 1 => bad().prop_map(Some)], 0..3),
        pvec(any::<bool>(), 1..4),
        prop_oneof![3 => Just(0u16), 2 => 1u16..400],
        0u8..6,
        0u8..5,
    )
        .prop_map(|(validators, blocks, deliver, lost, replies, announce, merge_delay, batch, before)| Case {
            validators,
            blocks,
            deliver,
            lost,
            replies,
            announce,
            merge_delay,
            batch,
            before,
        })
        .boxed()
}
fn pvec<S: Strategy + 'static>(s: S, r: impl Into<prop::collection::SizeRange>) -> BoxedStrategy<Vec<S::Value>>
where
    S::Value: std::fmt::Debug,
{
    prop::collection::vec(s, r).boxed()
}
pub fn c34(p: &mut Prop) {
    p.assume("shard 0 keeps producing blocks with events, so what was missed is noticed");
    p.sub("feed", "a block was missed or damaged, or a submission was lost", 32_000, 300_000, case, check);
}
