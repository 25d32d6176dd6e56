//! C40: shard 0's blocks, and what the data shards make of them.
use crate::frame::{Obs, Prop, R};
use crate::run::*;
use crate::shards::Shards;
use crate::sim::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use snapchain::storage::constants::RootPrefix;
use snapchain::storage::store::block_engine::BlockStateChange;
use std::collections::BTreeMap;

const MIX: Mix = Mix { keys: 6, channels: 6, lends: 5, vers: 7, casts: 5, blocks: (2, 7), per_block: (1, 9) };

#[derive(Debug, Clone, Serialize, Deserialize, PartialEq)]
struct Tampered {
    case: Case,
    with: Vec<(u8, u8)>,
}
fn dump(z: &Zero) -> BTreeMap<Vec<u8>, Vec<u8>> {
    let mut out = BTreeMap::new();
    z.db.for_each_iterator_by_prefix_paged(None, None, &page(None), |k, v| {
        // the children of a node of the tree are stored in no particular order
        if k[0] != RootPrefix::MerkleTrieNode as u8 {
            out.insert(k.to_vec(), v.to_vec());
        }
        Ok(false)
    })
    .unwrap();
    out
}
/// What a dishonest proposer could make of a proposal; None if this one offers nothing to change.
fn tamper(c: &BlockStateChange, how: u8, at: u8, merged: &[Vec<u8>]) -> Option<(BlockStateChange, &'static str)> {
    let mut t = c.clone();
    // a message that counted, and of which the block has no second copy
    let all: Vec<(usize, usize)> = {
        let every: Vec<&Vec<u8>> = t.transactions.iter().flat_map(|x| x.user_messages.iter().map(|m| &m.hash)).collect();
        let once = |h: &Vec<u8>| every.iter().filter(|x| **x == h).count() == 1 && merged.contains(h);
        t.transactions
            .iter()
            .enumerate()
            .flat_map(|(i, x)| x.user_messages.iter().enumerate().filter(|m| once(&m.1.hash)).map(move |m| (i, m.0)))
            .collect()
    };
    let pick = |n: usize| (n > 0).then(|| at as usize % n);
    let what = match how % 8 {
        0 => {
            let i = pick(t.new_state_root.len())?;
            t.new_state_root[i] ^= 1;
            "root"
        }
        1 => {
            if t.events_hash.is_empty() {
                t.events_hash = vec![0; 32];
            } else {
                let i = pick(t.events_hash.len())?;
                t.events_hash[i] ^= 0x80;
            }
            "events hash"
        }
        2 => {
            let i = pick(t.transactions.len())?;
            t.transactions[i].account_root.push(1);
            "account root"
        }
        3 => {
            // a message that counted goes missing
            let (i, j) = all[pick(all.len())?];
            t.transactions[i].user_messages.remove(j);
            "dropped message"
        }
        4 => {
            let i = pick(t.transactions.len())?;
            if t.transactions[i].system_messages.is_empty() && !t.transactions[i].user_messages.iter().any(|m| merged.contains(&m.hash)) {
                return None;
            }
            // a chain event seen before counts for nothing, so only new ones are taken away
            if !t.transactions[i].system_messages.is_empty() {
                return None;
            }
            t.transactions.remove(i);
            "dropped transaction"
        }
        5 => {
            // a message under someone else's name
            let (i, j) = all[pick(all.len())?];
            t.transactions[i].user_messages[j].signature[0] ^= 1;
            "broken signature"
        }
        6 => {
            let (i, j) = all[pick(all.len())?];
            let m = &mut t.transactions[i].user_messages[j];
            m.data.as_mut()?.timestamp ^= 1;
            "altered data"
        }
        _ => {
            t.new_state_root = vec![];
            "no root"
        }
    };
    Some((t, what))
}
fn agree(t: &Tampered, o: &mut Obs) -> R {
    let mut net = Net::new(t.case.cap);
    let mut with = t.with.iter().cycle();
    for b in blocks(&t.case) {
        // a proposal changes nothing by itself
        let before = (dump(&net.a), net.a.e.trie_root_hash());
        let p1 = net.propose(&b);
        ensure!(before == (dump(&net.a), net.a.e.trie_root_hash()), "proposing changed the node");
        let mut merged: Vec<Vec<u8>> = vec![];
        for e in &p1.events {
            if let Some(snapchain::proto::block_event_data::Body::MergeMessageEventBody(m)) = e.data.as_ref().and_then(|d| d.body.as_ref()) {
                merged.push(m.message.as_ref().unwrap().hash.clone());
            }
        }
        let h = net.height();
        let before = dump(&net.b);
        for _ in 0..3 {
            let Some((how, at)) = with.next() else { break };
            let Some((bad, what)) = tamper(&p1, *how, *at, &merged) else { continue };
            ensure!(!net.b.e.validate_state_change(&bad, h), "block {}: a proposal with a changed {what} is accepted", h.block_number);
            o.tag(format!("refused: {what}"));
            ensure!(net.b.e.validate_state_change(&p1, h), "the true proposal is refused after one with a changed {what}");
        }
        ensure!(before == dump(&net.b), "validating changed the node");
        let d = net.step(&b, o)?;
        if !d.merged.is_empty() && net.n > 1 {
            o.nt();
        }
        let a = dump(&net.a);
        for (who, z) in [("validator", &net.b), ("follower", &net.c)] {
            let z = dump(z);
            if let Some(k) = a.keys().chain(z.keys()).find(|k| a.get(*k) != z.get(*k)) {
                return Err(format!("after block {} the {who} differs from the proposer under {}: {:?} and {:?}", net.n, hex::encode(k), z.get(k).map(hex::encode), a.get(k).map(hex::encode)));
            }
        }
        // what was committed can be read back
        let s = net.a.e.stores();
        ensure_eq!(net.a.e.get_last_block().map(|b| bh_strip(b)), Some(bh_strip(d.block.clone())), "the last block");
        for e in &d.change.events {
            let q = e.data.as_ref().unwrap().seqnum;
            let got = s.block_event_store.get_block_event_by_seqnum(q).map_err(|e| format!("{e:?}"))?;
            ensure_eq!(got.as_ref(), Some(e), "event {q}");
            ensure_eq!(s.get_block_by_event_seqnum(q).map(bh_strip), Some(bh_strip(d.block.clone())), "block of event {q}");
        }
        ensure_eq!(s.block_event_store.max_seqnum().map_err(|e| format!("{e:?}"))?, net.seq, "last sequence number");
    }
    check_all(&mut net.c, &net.model)?;
    Ok(())
}
fn bh_strip(b: snapchain::proto::Block) -> Vec<u8> {
    prost::Message::encode_to_vec(&b)
}
fn no_lends(mut c: Case) -> Case {
    for b in &mut c.blocks {
        b.1.retain(|o| !matches!(o, Op::M { b: B::Lend { .. }, .. } | Op::M { b: B::Mix { .. }, .. }));
    }
    c
}
fn fan(c: &Case, o: &mut Obs) -> R {
    let lends = c.blocks.iter().flat_map(|b| &b.1).any(|o| matches!(o, Op::M { b: B::Lend { .. }, .. } | Op::M { b: B::Mix { .. }, .. }));
    let mut net = Net::new(c.cap);
    let mut sh = Shards::new(2, c.cap, lends);
    for b in blocks(c) {
        let d = net.step(&b, o)?;
        sh.feed(&net, &b, &d, o)?;
        sh.check(&net).map_err(|e| format!("after block {}: {e}", net.n))?;
        if !d.merged.is_empty() && net.n > 1 {
            o.nt();
        }
    }
    Ok(())
}
pub fn c40(p: &mut Prop) {
    p.sub("agree", "a message merged after the first block", 3_000, 60_000, || {
        (case(MIX, true), crate::gens::pvec((any::<u8>(), any::<u8>()), 3..=12)).prop_map(|(case, with)| Tampered { case, with }).boxed()
    }, agree);
    p.sub("replicas", "a message merged after the first block", 2_000, 40_000, || {
        prop_oneof![case(MIX, true), case(MIX, true).prop_map(no_lends)].boxed()
    }, fan);
}
