//! C11: trie keys name exactly one fact each. C12: the trie is a function of the set of keys.
use crate::frame::{Obs, Prop, R};
use crate::gens::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use snapchain::proto::{self, hub_event, MessageType as MT};
use snapchain::storage::db::{RocksDB, RocksDbTransactionBatch};
use snapchain::storage::trie::merkle_trie::{Context, MerkleTrie, TrieKey};
use snapchain::storage::trie::trie_node::TrieNode;
use snapchain::storage::trie::util;
use std::collections::{BTreeMap, BTreeSet};

fn vshard(fid: u64) -> u8 {
    use sha2::Digest;
    let d = sha2::Sha256::digest(((fid & 0xffff_ffff) as u32).to_be_bytes());
    (u32::from_be_bytes(d[..4].try_into().unwrap()) % 256) as u8
}
fn head(fid: u64, t: u8) -> Vec<u8> {
    let mut k = vec![vshard(fid)];
    k.extend(((fid & 0xffff_ffff) as u32).to_be_bytes());
    k.push(t);
    k
}

#[derive(Debug, Clone, Serialize, Deserialize, PartialEq)]
pub struct M {
    t: u8,
    fid: u64,
    h: u8,
    borrower: u64,
}
#[derive(Debug, Clone, Serialize, Deserialize, PartialEq)]
pub struct Proof {
    name: String,
    fid: u64,
    fname: bool,
}
#[derive(Debug, Clone, Serialize, Deserialize, PartialEq)]
pub struct Oc {
    t: u8,
    fid: u64,
    tx: u8,
    log: u32,
}
#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum Ev {
    Merge(Option<M>, Vec<M>),
    OnChain(Option<Oc>),
    Prune(Option<M>),
    Revoke(Option<M>),
    Username { m: Option<M>, dm: Option<M>, p: Option<Proof>, dp: Option<Proof> },
    Failure(M),
    Confirmed,
    Hint,
}
fn mt(t: u8) -> i32 {
    [1, 2, 3, 4, 5, 6, 7, 8, 11, 12, 14, 15, 16, 17, 18, 19, 20, 21][t as usize % 18]
}
impl M {
    fn get(&self) -> proto::Message {
        let t = mt(self.t);
        proto::Message {
            data: Some(proto::MessageData {
                r#type: t,
                fid: self.fid,
                timestamp: 5,
                network: 1,
                body: Some(if t == MT::LendStorage as i32 {
                    proto::message_data::Body::LendStorageBody(proto::LendStorageBody { to_fid: self.borrower, num_units: 1, unit_type: 1 })
                } else {
                    proto::message_data::Body::CastRemoveBody(proto::CastRemoveBody { target_hash: vec![] })
                }),
            }),
            hash: h20(&[self.h]),
            ..Default::default()
        }
    }
    fn keys(&self) -> Vec<Vec<u8>> {
        let t = mt(self.t) as u8;
        let mut a = head(self.fid, t << 3);
        a.extend(h20(&[self.h]));
        let mut o = vec![a];
        if t == 15 {
            let mut b = head(self.borrower, t << 3);
            b.extend(h20(&[self.h]));
            o.push(b);
        }
        o
    }
}
impl Proof {
    fn get(&self) -> proto::UserNameProof {
        proto::UserNameProof {
            timestamp: 1,
            name: self.name.clone().into_bytes(),
            owner: vec![],
            signature: vec![],
            fid: self.fid,
            r#type: if self.fname { 1 } else { 2 },
        }
    }
    fn key(&self) -> Vec<u8> {
        let mut k = head(self.fid, 7);
        let mut n = self.name.clone().into_bytes();
        while n.len() < 20 {
            n.push(0)
        }
        k.extend(n);
        k
    }
}
impl Oc {
    fn get(&self) -> proto::OnChainEvent {
        proto::OnChainEvent {
            r#type: 1 + self.t as i32 % 6,
            fid: self.fid,
            transaction_hash: fill(32, self.tx),
            log_index: self.log,
            block_number: 7,
            ..Default::default()
        }
    }
    fn key(&self) -> Vec<u8> {
        let mut k = head(self.fid, 1 + self.t % 6);
        k.extend(fill(32, self.tx));
        k.extend(self.log.to_be_bytes());
        k
    }
}
impl Ev {
    fn get(&self) -> proto::HubEvent {
        use hub_event::Body as B;
        let m = |m: &Option<M>| m.as_ref().map(|m| m.get());
        proto::HubEvent {
            body: Some(match self {
                Ev::Merge(a, d) => B::MergeMessageBody(proto::MergeMessageBody { message: m(a), deleted_messages: d.iter().map(|m| m.get()).collect() }),
                Ev::OnChain(e) => B::MergeOnChainEventBody(proto::MergeOnChainEventBody { on_chain_event: e.as_ref().map(|e| e.get()) }),
                Ev::Prune(a) => B::PruneMessageBody(proto::PruneMessageBody { message: m(a) }),
                Ev::Revoke(a) => B::RevokeMessageBody(proto::RevokeMessageBody { message: m(a) }),
                Ev::Username { m: a, dm, p, dp } => B::MergeUsernameProofBody(proto::MergeUserNameProofBody {
                    username_proof: p.as_ref().map(|p| p.get()),
                    deleted_username_proof: dp.as_ref().map(|p| p.get()),
                    username_proof_message: m(a),
                    deleted_username_proof_message: m(dm),
                }),
                Ev::Failure(a) => B::MergeFailure(proto::MergeFailureBody { message: Some(a.get()), code: "x".into(), reason: "y".into() }),
                Ev::Confirmed => B::BlockConfirmedBody(Default::default()),
                Ev::Hint => B::ChannelOwnerChangeHintBody(proto::ChannelOwnerChangeHintBody { channel_key: "k".into(), owner_address: vec![1; 20], cause: 1 }),
            }),
            ..Default::default()
        }
    }
    fn keys(&self) -> (Vec<Vec<u8>>, Vec<Vec<u8>>) {
        let k = |m: &Option<M>| m.as_ref().map(|m| m.keys()).unwrap_or_default();
        match self {
            Ev::Merge(a, d) => (k(a), d.iter().flat_map(|m| m.keys()).collect()),
            Ev::OnChain(e) => (e.iter().map(|e| e.key()).collect(), vec![]),
            Ev::Prune(a) | Ev::Revoke(a) => (vec![], k(a)),
            Ev::Username { m, dm, p, dp } => {
                let (mut i, mut d) = (k(m), k(dm));
                if let Some(p) = p {
                    if p.fname && p.fid != 0 {
                        i.push(p.key())
                    }
                }
                if let Some(p) = dp {
                    if p.fname {
                        d.push(p.key())
                    }
                }
                (i, d)
            }
            _ => (vec![], vec![]),
        }
    }
}
fn m_s() -> BoxedStrategy<M> {
    (0u8..18, prop_oneof![3 => 1u64..8, 1 => any_fid()], any::<u8>(), 1u64..8)
        .prop_map(|(t, fid, h, borrower)| M { t, fid, h, borrower })
        .boxed()
}
fn p_s() -> BoxedStrategy<Proof> {
    ("[a-z0-9\\-.]{0,20}", prop_oneof![1 => Just(0u64), 3 => 1u64..8, 1 => any_fid()], prop_oneof![4 => Just(true), 1 => Just(false)])
        .prop_map(|(name, fid, fname)| Proof { name, fid, fname })
        .boxed()
}
fn oc_s() -> BoxedStrategy<Oc> {
    (0u8..6, any_fid(), any::<u8>(), prop_oneof![0u32..4, any::<u32>()]).prop_map(|(t, fid, tx, log)| Oc { t, fid, tx, log }).boxed()
}
fn ev_s() -> BoxedStrategy<Ev> {
    prop_oneof![
        4 => (option::weighted(0.9, m_s()), pvec(m_s(), 0..4)).prop_map(|(a, d)| Ev::Merge(a, d)),
        2 => option::weighted(0.9, oc_s()).prop_map(Ev::OnChain),
        1 => option::weighted(0.9, m_s()).prop_map(Ev::Prune),
        1 => option::weighted(0.9, m_s()).prop_map(Ev::Revoke),
        3 => (option::of(m_s()), option::of(m_s()), option::of(p_s()), option::of(p_s()))
            .prop_map(|(m, dm, p, dp)| Ev::Username { m, dm, p, dp }),
        1 => m_s().prop_map(Ev::Failure),
        1 => Just(Ev::Confirmed),
        1 => Just(Ev::Hint),
    ]
    .boxed()
}

#[derive(Debug, Clone, Serialize, Deserialize)]
enum Tok {
    Good(Vec<Vec<u8>>),
    Damaged(Vec<Vec<u8>>, Vec<(usize, u8)>, Option<usize>),
    Count(u32, Vec<u8>),
    Text(String),
}

pub fn c11(p: &mut Prop) {
    p.sub(
        "events",
        "the event puts or takes at least one key",
        1_000_000, 4_000_000,
        ev_s,
        |c, o: &mut Obs| -> R {
            let want = c.keys();
            if !want.0.is_empty() || !want.1.is_empty() {
                o.nt()
            }
            let got = TrieKey::for_hub_event(&c.get());
            ensure_eq!(got.0, want.0, "keys put in the trie by {c:?}");
            ensure_eq!(got.1, want.1, "keys taken from the trie by {c:?}");
            for k in got.0.iter().chain(&got.1) {
                let d = TrieKey::decode(k).map_err(|e| format!("own key does not decode: {e}"))?;
                ensure_eq!(d.virtual_shard, k[0], "virtual shard read back");
                ensure_eq!(d.fid, u32::from_be_bytes(k[1..5].try_into().unwrap()) as u64, "fid read back");
                if k[5] < 8 {
                    ensure!(d.onchain_message_type == Some(k[5]) && d.message_type.is_none(), "kind read back from {k:?}");
                } else {
                    ensure!(d.message_type == Some(k[5] >> 3) && d.onchain_message_type.is_none(), "kind read back from {k:?}");
                }
                ensure_eq!(d.rest, k[6..].to_vec(), "rest read back");
            }
            Ok(())
        },
    );
    p.sub(
        "distinct",
        "the two facts differ",
        1_000_000, 4_000_000,
        || (prop_oneof![m_s().prop_map(|m| Ev::Merge(Some(m), vec![])), oc_s().prop_map(|e| Ev::OnChain(Some(e))),
                p_s().prop_map(|p| Ev::Username { m: None, dm: None, p: Some(p), dp: None })],
            prop_oneof![m_s().prop_map(|m| Ev::Merge(Some(m), vec![])), oc_s().prop_map(|e| Ev::OnChain(Some(e))),
                p_s().prop_map(|p| Ev::Username { m: None, dm: None, p: Some(p), dp: None })]).boxed(),
        |c, o| {
            let (a, b) = (TrieKey::for_hub_event(&c.0.get()).0, TrieKey::for_hub_event(&c.1.get()).0);
            let fid32 = |e: &Ev| -> Ev {
                let mut e = e.clone();
                match &mut e {
                    Ev::Merge(Some(m), _) => { m.fid &= 0xffff_ffff; m.t %= 18; if mt(m.t) != 15 { m.borrower = 0 } }
                    Ev::OnChain(Some(e)) => { e.fid &= 0xffff_ffff; e.t %= 6 }
                    Ev::Username { p: Some(p), .. } => p.fid &= 0xffff_ffff,
                    _ => {}
                }
                e
            };
            let same = format!("{:?}", fid32(&c.0)) == format!("{:?}", fid32(&c.1));
            let lend = |e: &Ev| matches!(e, Ev::Merge(Some(m), _) if mt(m.t) == 15);
            if same || a.is_empty() || b.is_empty() || (lend(&c.0) && lend(&c.1)) {
                return Ok(());
            }
            o.nt();
            for x in &a {
                for y in &b {
                    ensure!(x != y, "two facts share the trie key {x:?}: {c:?}");
                    // a key that is a prefix of another cannot be stored
                    ensure!(!x.starts_with(y) && !y.starts_with(x), "one fact's key is a prefix of another's: {c:?}");
                }
            }
            Ok(())
        },
    );
    p.sub(
        "short-keys",
        "always",
        200_000, 800_000,
        || pvec(any::<u8>(), 0..40).boxed(),
        |c, o| {
            o.nt();
            let d = TrieKey::decode(c);
            if c.len() < 12 {
                ensure!(d.is_err(), "a key of {} bytes decodes", c.len());
            } else {
                ensure!(d.is_ok(), "a key of {} bytes does not decode", c.len());
            }
            let n = util::expand_nibbles(c);
            ensure_eq!(n.len(), 2 * c.len(), "nibble count");
            for (i, b) in c.iter().enumerate() {
                ensure!(n[2 * i] == b / 16 && n[2 * i + 1] == b % 16, "nibbles of {b}");
            }
            ensure_eq!(util::combine_nibbles(&n), *c, "nibbles joined");
            Ok(())
        },
    );
    p.sub(
        "page-tokens",
        "the token decodes",
        1_000_000, 4_000_000,
        || {
            let seg = || pvec(pvec(any::<u8>(), 0..6), 0..6);
            prop_oneof![
                4 => seg().prop_map(Tok::Good),
                3 => (seg(), pvec((any::<usize>(), any::<u8>()), 0..3), option::of(any::<usize>())).prop_map(|(s, d, t)| Tok::Damaged(s, d, t)),
                1 => (prop_oneof![0u32..6, 0u32..(1 << 22)], pvec(any::<u8>(), 0..30)).prop_map(|(n, b)| Tok::Count(n, b)),
                1 => "[A-Za-z0-9+/=]{0,24}".prop_map(Tok::Text),
            ]
            .boxed()
        },
        |c, o| {
            use base64::Engine;
            let enc = |s: &Vec<Vec<u8>>| {
                let mut b = (s.len() as u32).to_be_bytes().to_vec();
                for x in s {
                    b.extend((x.len() as u32).to_be_bytes());
                    b.extend(x);
                }
                b
            };
            let b64 = base64::engine::general_purpose::STANDARD;
            let text = match c {
                Tok::Good(s) => {
                    let t = util::encode_trie_page_token(&Some(s.clone()));
                    let want = if s.is_empty() { String::new() } else { b64.encode(enc(s)) };
                    ensure_eq!(t, want, "token text");
                    t
                }
                Tok::Damaged(s, d, t) => {
                    let mut b = enc(s);
                    for (i, x) in d {
                        let n = b.len();
                        b[i % n] = if i % n < 2 { 0 } else { *x };
                    }
                    if let Some(t) = t {
                        let n = b.len();
                        b.truncate(t % n)
                    }
                    b64.encode(b)
                }
                Tok::Count(n, b) => b64.encode([&n.to_be_bytes()[..], b].concat()),
                Tok::Text(s) => s.clone(),
            };
            // reference decoder
            let want: Result<Option<Vec<Vec<u8>>>, ()> = (|| {
                if text.is_empty() {
                    return Ok(None);
                }
                let b = b64.decode(&text).map_err(|_| ())?;
                let take = |at: &mut usize, n: usize| -> Result<Vec<u8>, ()> {
                    let r = b.get(*at..at.checked_add(n).ok_or(())?).ok_or(())?.to_vec();
                    *at += n;
                    Ok(r)
                };
                let mut at = 0;
                let n = u32::from_be_bytes(take(&mut at, 4)?.try_into().unwrap());
                let mut out = vec![];
                for _ in 0..n {
                    let l = u32::from_be_bytes(take(&mut at, 4)?.try_into().unwrap());
                    out.push(take(&mut at, l as usize)?);
                }
                if at != b.len() {
                    return Err(());
                }
                Ok(if out.is_empty() { None } else { Some(out) })
            })();
            if matches!(want, Ok(Some(_))) {
                o.nt()
            }
            let (got, big) = harness::alloc::largest(|| util::decode_trie_page_token(&text).map_err(|_| ()));
            ensure_eq!(got, want, "decoding page token {text:?}");
            ensure!(big == 0, "a page token of {} characters makes the node reserve {big} bytes", text.len());
            Ok(())
        },
    );
}

// ---------------------------------------------------------------------------------------------
// C12

#[derive(Debug, Clone, Serialize, Deserialize, PartialEq)]
pub struct Key {
    shard: u8,
    fid: u16,
    t: u8,
    rest: u16,
    long: bool,
}
impl Key {
    /// All nibbles come from a small alphabet, so that keys share long prefixes and shifted keys collide.
    fn get(&self) -> Vec<u8> {
        let nib = |x: u16| [0u8, 8][x as usize & 1];
        let mut n = vec![];
        for i in 0..2 {
            n.push(nib((self.shard >> i) as u16))
        }
        for i in 0..8 {
            n.push(nib(self.fid >> i))
        }
        for i in 0..2 {
            n.push(nib((self.t >> i) as u16))
        }
        for i in 0..6 {
            n.push(nib(self.rest >> i))
        }
        if self.long {
            // same length for all keys under one type
        }
        n.chunks(2).map(|c| c[0] << 4 | c[1]).collect()
    }
}
#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum Op {
    Insert(Vec<Key>),
    Delete(Vec<Key>),
    /// delete one of the keys present
    DeleteOld(u16),
    /// insert a key differing from one present only in its tail
    Sibling(u16, u16),
    Commit,
    Rollback,
    Reload,
    Check(u8, u8),
}
fn key_s() -> BoxedStrategy<Key> {
    (0u8..4, prop_oneof![3 => Just(0u16), 2 => 0u16..4, 1 => 0u16..256], 0u8..4, 0u16..64, Just(false))
        .prop_map(|(shard, fid, t, rest, long)| Key { shard, fid, t, rest, long })
        .boxed()
}
fn op_s() -> BoxedStrategy<Op> {
    prop_oneof![
        8 => key_s().prop_map(|k| Op::Insert(vec![k])),
        1 => pvec(key_s(), 2..5).prop_map(Op::Insert),
        1 => pvec(key_s(), 1..3).prop_map(Op::Delete),
        6 => any::<u16>().prop_map(Op::DeleteOld),
        5 => (any::<u16>(), 0u16..64).prop_map(|(a, b)| Op::Sibling(a, b)),
        4 => Just(Op::Commit),
        1 => Just(Op::Rollback),
        2 => Just(Op::Reload),
        2 => (any::<u8>(), 1u8..6).prop_map(|(a, b)| Op::Check(a, b)),
    ]
    .boxed()
}

struct Node {
    hash: Vec<u8>,
    items: usize,
}
/// Reference trie: every node of the canonical shape for this set.
fn build(keys: &[Vec<u8>], depth: usize, out: &mut BTreeMap<Vec<u8>, Node>) -> Vec<u8> {
    let prefix = keys[0][..depth].to_vec();
    let hash = if depth >= 12 && keys.len() == 1 {
        blake3::hash(&keys[0]).as_bytes()[..20].to_vec()
    } else {
        let mut cat = vec![];
        let mut i = 0;
        while i < keys.len() {
            let mut j = i;
            while j < keys.len() && keys[j][depth] == keys[i][depth] {
                j += 1
            }
            cat.extend(build(&keys[i..j], depth + 1, out));
            i = j;
        }
        blake3::hash(&cat).as_bytes()[..20].to_vec()
    };
    out.insert(prefix, Node { hash: hash.clone(), items: keys.len() });
    hash
}
fn reference(set: &BTreeSet<Vec<u8>>) -> BTreeMap<Vec<u8>, Node> {
    let mut out = BTreeMap::new();
    if !set.is_empty() {
        let keys: Vec<Vec<u8>> = set.iter().map(|k| util_nibbles(k)).collect();
        build(&keys, 0, &mut out);
    }
    out
}
fn util_nibbles(k: &[u8]) -> Vec<u8> {
    k.iter().flat_map(|b| [b >> 4, b & 15]).collect()
}
fn rows(db: &RocksDB) -> Result<BTreeSet<Vec<u8>>, String> {
    let mut out = BTreeSet::new();
    let mut opts = snapchain::storage::db::PageOptions::default();
    opts.page_size = None;
    db.for_each_iterator_by_prefix(Some(vec![8]), Some(vec![9]), &opts, |k, _| {
        out.insert(k.to_vec());
        Ok(false)
    })
    .map_err(|e| format!("{e:?}"))?;
    Ok(out)
}

fn check_all(
    trie: &mut MerkleTrie,
    db: &RocksDB,
    txn: &RocksDbTransactionBatch,
    set: &BTreeSet<Vec<u8>>,
    probe: u8,
    page: usize,
    what: &str,
    gone: &[Vec<u8>],
    o: &mut Obs,
) -> R {
    let ctx = &Context::new();
    let re = reference(set);
    let root = re.get(&vec![]).map(|n| n.hash.clone()).unwrap_or_default();
    ensure_eq!(hex::encode(trie.root_hash().map_err(|e| e.to_string())?), hex::encode(&root), "root {what}, {} keys", set.len());
    ensure_eq!(trie.items().map_err(|e| e.to_string())?, set.len(), "items {what}");
    for k in set.iter() {
        ensure!(trie.exists(ctx, db, k).map_err(|e| e.to_string())?, "a key inserted is gone {what}: {}", hex::encode(k));
    }
    // prefixes: whole trie, one virtual shard, one fid, one fid and type
    let probe_key = set.iter().nth(probe as usize % set.len().max(1)).cloned().unwrap_or(vec![0; 9]);
    for n in [0usize, 1, 5, 6] {
        let pre = &probe_key[..n];
        let want: Vec<Vec<u8>> = set.iter().filter(|k| k.starts_with(pre)).cloned().collect();
        let mut got = trie.get_all_values(ctx, db, pre).map_err(|e| e.to_string())?;
        if set.is_empty() {
            got.retain(|v| !v.is_empty());
        }
        ensure_eq!(got, want, "values under prefix {} {what}", hex::encode(pre));
        let mut paged = vec![];
        let mut tok = None;
        for _ in 0..set.len() + 2 {
            let mut one = vec![];
            tok = trie.get_paged_values_of_subtree(ctx, db, pre, &mut one, page, tok).map_err(|e| format!("paging {what}: {e}"))?;
            ensure!(one.len() <= page, "page of {} with limit {page}", one.len());
            paged.extend(one);
            if tok.is_none() {
                break;
            }
        }
        ensure!(tok.is_none(), "paging does not end {what}");
        ensure_eq!(paged, want, "paged values under prefix {} {what}", hex::encode(pre));
        let node = re.get(&util_nibbles(pre));
        if !set.is_empty() {
            let h = trie.get_hash(db, txn, pre).map_err(|e| e.to_string())?;
            ensure_eq!(hex::encode(h), hex::encode(node.map(|n| n.hash.clone()).unwrap_or_default()), "hash of prefix {} {what}", hex::encode(pre));
            ensure_eq!(trie.get_count(db, txn, pre).map_err(|e| e.to_string())?, node.map(|n| n.items as u64).unwrap_or(0), "count of prefix {} {what}", hex::encode(pre));
        }
        // a neighbouring prefix, most likely of a fid or type whose keys were all deleted
        if let Some(l) = gone.get(probe as usize % gone.len().max(1)) {
            let pre = &l[..n.max(1)];
            if !set.iter().any(|k| k.starts_with(pre)) {
                let (h, c) = (trie.get_hash(db, txn, pre).map_err(|e| e.to_string())?, trie.get_count(db, txn, pre).map_err(|e| e.to_string())?);
                let row = [&[8u8][..], &util_nibbles(pre)].concat();
                if txn.batch.get(&row) != Some(&None) {
                    ensure!(c == 0 && h.is_empty(), "prefix {} without keys: count {c}, hash {} {what}", hex::encode(pre), hex::encode(h));
                } else if c != 0 || !h.is_empty() {
                    o.finding("deleted-prefix-read-from-committed-state", format!("prefix {} without keys: count {c}, hash {} {what}", hex::encode(pre), hex::encode(h)));
                }
                o.label("emptied-prefix");
            }
        }
        if node.is_some() {
            let mut t = RocksDbTransactionBatch::new();
            t.merge(RocksDbTransactionBatch { batch: txn.batch.clone() });
            let md = trie.get_trie_node_metadata(db, &mut t, pre).map_err(|e| format!("metadata {what}: {e}"))?;
            ensure_eq!(md.num_messages, want.len(), "metadata count {what}");
            for (c, ch) in &md.children {
                let mut q = util_nibbles(pre);
                q.push(*c);
                let n = re.get(&q).ok_or(format!("metadata lists a child that does not exist {what}"))?;
                ensure!(ch.hash == hex::encode(&n.hash) && ch.num_messages == n.items && ch.prefix == q, "metadata of child {c} {what}");
            }
            ensure_eq!(md.children.len(), re.keys().filter(|q| q.len() == 2 * n + 1 && q.starts_with(&util_nibbles(pre))).count(), "metadata children {what}");
        }
    }
    Ok(())
}

pub fn c12(p: &mut Prop) {
    p.assume("rocksdb is the in-memory stand-in of /verif/shims");
    p.sub(
        "history",
        "at least two keys were present together and one was deleted",
        18_000, 120_000,
        || pvec(op_s(), 1..60).boxed(),
        |ops, o: &mut Obs| -> R {
            let dir = tempfile::tempdir().unwrap();
            let db = RocksDB::new(dir.path().to_str().unwrap());
            db.open().map_err(|e| format!("{e:?}"))?;
            let ctx = &Context::new();
            let mut trie = MerkleTrie::new().unwrap();
            trie.initialize(&db).map_err(|e| e.to_string())?;
            let mut txn = RocksDbTransactionBatch::new();
            let mut set: BTreeSet<Vec<u8>> = BTreeSet::new();
            let mut committed = set.clone();
            let (mut peak, mut deleted) = (0, 0);
            let gone = std::cell::RefCell::new(vec![]);
            let mut step = |op: &Op, trie: &mut MerkleTrie, txn: &mut RocksDbTransactionBatch, set: &mut BTreeSet<Vec<u8>>, o: &mut Obs| -> R {
                let nth = |set: &BTreeSet<Vec<u8>>, i: u16| set.iter().nth(i as usize % set.len().max(1)).cloned();
                match op {
                    Op::Insert(ks) => {
                        let ks: Vec<Vec<u8>> = ks.iter().map(|k| k.get()).collect::<BTreeSet<_>>().into_iter().collect();
                        let r = trie.insert(ctx, &db, txn, ks.iter().map(|k| &k[..]).collect()).map_err(|e| e.to_string())?;
                        if ks.len() == 1 {
                            ensure_eq!(r[0], !set.contains(&ks[0]), "insert says new");
                        } else {
                            ensure_eq!(r.iter().filter(|x| **x).count(), ks.iter().filter(|k| !set.contains(*k)).count(), "number of new keys");
                        }
                        set.extend(ks);
                    }
                    Op::Sibling(i, t) => {
                        if let Some(mut k) = nth(set, *i) {
                            let n = k.len();
                            let x = Key { shard: 0, fid: 0, t: 0, rest: *t, long: false }.get();
                            k[n - 3..].copy_from_slice(&x[n - 3..]);
                            let r = trie.insert(ctx, &db, txn, vec![&k]).map_err(|e| e.to_string())?;
                            ensure_eq!(r[0], !set.contains(&k), "insert says new");
                            set.insert(k);
                        }
                    }
                    Op::Delete(ks) => {
                        let ks: Vec<Vec<u8>> = ks.iter().map(|k| k.get()).collect::<BTreeSet<_>>().into_iter().collect();
                        let r = trie.delete(ctx, &db, txn, ks.iter().map(|k| &k[..]).collect()).map_err(|e| e.to_string())?;
                        for (k, r) in ks.iter().zip(r) {
                            ensure_eq!(r, set.remove(k), "delete says present");
                        }
                    }
                    Op::DeleteOld(i) => {
                        if let Some(k) = nth(set, *i) {
                            deleted += 1;
                            let r = trie.delete(ctx, &db, txn, vec![&k]).map_err(|e| e.to_string())?;
                            ensure_eq!(r, vec![true], "delete of a key that is present");
                            set.remove(&k);
                            gone.borrow_mut().push(k);
                        }
                    }
                    Op::Commit => {
                        db.commit(std::mem::replace(txn, RocksDbTransactionBatch::new())).map_err(|e| format!("{e:?}"))?;
                        committed = set.clone();
                    }
                    Op::Rollback | Op::Reload => {
                        if matches!(op, Op::Reload) {
                            db.commit(std::mem::replace(txn, RocksDbTransactionBatch::new())).map_err(|e| format!("{e:?}"))?;
                            committed = set.clone();
                            o.label("reload");
                        } else {
                            o.label("rollback");
                            *txn = RocksDbTransactionBatch::new();
                            *set = committed.clone();
                        }
                        trie.reload(&db).map_err(|e| e.to_string())?;
                        o.label_if(set.is_empty(), "reload-empty");
                    }
                    Op::Check(a, b) => check_all(trie, &db, txn, set, *a, *b as usize, "mid-history", &gone.borrow(), o)?,
                }
                peak = peak.max(set.len());
                let re = reference(set);
                let root = re.get(&vec![]).map(|n| n.hash.clone()).unwrap_or_default();
                ensure_eq!(hex::encode(trie.root_hash().map_err(|e| e.to_string())?), hex::encode(&root), "root after {op:?}");
                Ok(())
            };
            for op in ops {
                step(op, &mut trie, &mut txn, &mut set, o)?;
            }
            if peak >= 2 && deleted > 0 {
                o.nt()
            }
            check_all(&mut trie, &db, &txn, &set, 3, 2, "at the end", &gone.borrow(), o)?;
            // a node restarted from what was written sees the same trie
            db.commit(txn).map_err(|e| format!("{e:?}"))?;
            let mut fresh = MerkleTrie::new().unwrap();
            fresh.initialize(&db).map_err(|e| e.to_string())?;
            let empty = RocksDbTransactionBatch::new();
            check_all(&mut fresh, &db, &empty, &set, 5, 3, "after a restart", &gone.borrow(), o)?;
            // nothing but the nodes of the canonical trie is kept on disk
            let want: BTreeSet<Vec<u8>> = reference(&set).keys().map(|k| [&[8u8][..], k].concat()).collect();
            let mut have = rows(&db)?;
            if set.is_empty() {
                have.remove(&vec![8u8]);
            }
            ensure_eq!(have, want, "trie rows on disk");
            Ok(())
        },
    );
    p.sub(
        "node-encoding",
        "the node has children",
        300_000, 1_200_000,
        || {
            (0usize..1000, pvec((0u8..16, option::of(any::<u8>())), 0..16), option::of(pvec(0u8..16, 1..40)))
                .boxed()
        },
        |(items, ch, key), o| {
            let mut n = TrieNode::new();
            n.items = *items;
            n.key = key.clone();
            for (c, h) in ch {
                n.children.insert(*c, snapchain::storage::trie::trie_node::TrieNodeType::Serialized(snapchain::storage::trie::trie_node::SerializedTrieNode {}));
                if let Some(h) = h {
                    n.child_hashes.insert(*c, h20(&[*h]));
                }
            }
            if !ch.is_empty() {
                o.nt()
            }
            let m = TrieNode::deserialize(&TrieNode::serialize(&n)).map_err(|e| e.to_string())?;
            ensure_eq!(m.items(), n.items(), "items");
            ensure_eq!(m.hash(), n.hash(), "hash");
            ensure_eq!(m.value(), n.value(), "value");
            ensure_eq!(m.is_leaf(), n.is_leaf(), "leaf");
            ensure_eq!(m.key, n.key, "key");
            ensure_eq!(m.child_hashes, n.child_hashes, "child hashes");
            let ks = |n: &TrieNode| n.children().keys().copied().collect::<BTreeSet<u8>>();
            ensure_eq!(ks(&m), ks(&n), "children");
            let want = if ch.is_empty() {
                key.as_ref().map(|k| h20(k)).unwrap_or_default()
            } else {
                let hs: BTreeMap<u8, Vec<u8>> = n.child_hashes.clone().into_iter().collect();
                if hs.is_empty() { vec![] } else { h20(&hs.values().flatten().copied().collect::<Vec<u8>>()) }
            };
            ensure_eq!(n.hash(), want, "hash rule");
            Ok(())
        },
    );
}
