//! A reference model of one data shard: what a decided chunk must do to the messages, on-chain events
//! and usernames of its fids, written from the protocol's rules as plain maps and sets.
use crate::world::*;
use prost::Message as _;
use snapchain::proto::{self, hub_event, message_data::Body, HubEvent, MessageType, Transaction};
use std::collections::{BTreeMap, BTreeSet};

pub type Hash = Vec<u8>;

#[derive(Clone, Debug)]
pub struct Msg {
    pub m: proto::Message,
    pub ts: u32,
    pub fid: u64,
    pub t: MessageType,
}
impl Msg {
    pub fn new(m: &proto::Message) -> Msg {
        let d = m.data.as_ref().unwrap();
        Msg { m: m.clone(), ts: d.timestamp, fid: d.fid, t: MessageType::try_from(d.r#type).unwrap() }
    }
    pub fn hash(&self) -> Hash {
        self.m.hash.clone()
    }
    pub fn is_remove(&self) -> bool {
        matches!(
            self.t,
            MessageType::CastRemove
                | MessageType::LinkRemove
                | MessageType::ReactionRemove
                | MessageType::VerificationRemove
        )
    }
    fn body(&self) -> &Body {
        self.m.data.as_ref().unwrap().body.as_ref().unwrap()
    }
    /// The family a message competes and is counted in.
    pub fn store(&self) -> Store {
        store_of(self.t)
    }
    /// What the message is about within its fid and family: at most one live message per topic.
    pub fn topic(&self) -> Topic {
        let s = self.store();
        let k = match self.body() {
            Body::CastAddBody(_) => self.hash(),
            Body::CastRemoveBody(b) => b.target_hash.clone(),
            Body::LinkBody(b) => {
                let t = match b.target {
                    Some(proto::link_body::Target::TargetFid(f)) => f,
                    None => 0,
                };
                [b.r#type.as_bytes(), b"/", &t.to_be_bytes()].concat()
            }
            Body::LinkCompactStateBody(b) => [b"compact:", b.r#type.as_bytes()].concat(),
            Body::ReactionBody(b) => {
                [&b.r#type.to_be_bytes()[..], &format!("{:?}", b.target).into_bytes()].concat()
            }
            Body::UserDataBody(b) => b.r#type.to_be_bytes().to_vec(),
            Body::VerificationAddAddressBody(b) => b.address.clone(),
            Body::VerificationRemoveBody(b) => b.address.clone(),
            Body::UsernameProofBody(b) => b.name.clone(),
            b => panic!("topic of {b:?}"),
        };
        (self.fid, s, k)
    }
}
pub type Topic = (u64, Store, Vec<u8>);

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Store {
    Casts,
    Links,
    Reactions,
    UserData,
    Verifications,
    Proofs,
}
pub fn store_of(t: MessageType) -> Store {
    use MessageType::*;
    match t {
        CastAdd | CastRemove => Store::Casts,
        LinkAdd | LinkRemove | LinkCompactState => Store::Links,
        ReactionAdd | ReactionRemove => Store::Reactions,
        UserDataAdd => Store::UserData,
        VerificationAddEthAddress | VerificationRemove => Store::Verifications,
        UsernameProof => Store::Proofs,
        t => panic!("store of {t:?}"),
    }
}
/// messages one unit of storage allows in the test configuration
pub fn per_unit(s: Store) -> usize {
    match s {
        Store::Casts | Store::Links | Store::UserData => 4,
        Store::Reactions => 3,
        Store::Proofs | Store::Verifications => 2,
    }
}

/// One observable effect, in a form both the engine's events and the model can be put in.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Ev {
    Confirmed,
    OnChain(Hash),
    Fname { name: Vec<u8>, fid: u64, was: Option<u64> },
    Merged { new: Hash, gone: Vec<Hash> },
    Proof { new: Option<Hash>, gone: Option<Hash> },
    Failed(Hash),
    Pruned(Hash),
    Revoked(Hash),
    Hint,
}
pub fn ev(e: &HubEvent) -> Ev {
    use hub_event::Body as H;
    match e.body.as_ref().expect("event without a body") {
        H::MergeMessageBody(b) => {
            let mut gone: Vec<Hash> = b.deleted_messages.iter().map(|m| m.hash.clone()).collect();
            gone.sort();
            Ev::Merged { new: b.message.as_ref().unwrap().hash.clone(), gone }
        }
        H::PruneMessageBody(b) => Ev::Pruned(b.message.as_ref().unwrap().hash.clone()),
        H::RevokeMessageBody(b) => Ev::Revoked(b.message.as_ref().unwrap().hash.clone()),
        H::MergeUsernameProofBody(b) => {
            if b.username_proof_message.is_some() || b.deleted_username_proof_message.is_some() {
                Ev::Proof {
                    new: b.username_proof_message.as_ref().map(|m| m.hash.clone()),
                    gone: b.deleted_username_proof_message.as_ref().map(|m| m.hash.clone()),
                }
            } else {
                let p = b.username_proof.as_ref().unwrap();
                Ev::Fname {
                    name: p.name.clone(),
                    fid: p.fid,
                    was: b.deleted_username_proof.as_ref().map(|p| p.fid),
                }
            }
        }
        H::MergeOnChainEventBody(b) => {
            Ev::OnChain(b.on_chain_event.as_ref().unwrap().transaction_hash.clone())
        }
        H::MergeFailure(b) => Ev::Failed(b.message.as_ref().unwrap().hash.clone()),
        H::BlockConfirmedBody(_) => Ev::Confirmed,
        H::ChannelOwnerChangeHintBody(_) => Ev::Hint,
    }
}

pub type ChainKey = (i32, u64, u32, u32);
pub fn chain_key(e: &proto::OnChainEvent) -> ChainKey {
    (e.r#type, e.fid, e.block_number, e.log_index)
}

#[derive(Clone, Default)]
pub struct Model {
    /// live messages by topic
    pub live: BTreeMap<Topic, Msg>,
    pub chain: BTreeMap<ChainKey, proto::OnChainEvent>,
    /// the id-register event in force
    pub ids: BTreeMap<u64, proto::OnChainEvent>,
    /// the event that last decided about a signer key
    pub signers: BTreeMap<(u64, Vec<u8>), proto::OnChainEvent>,
    pub fnames: BTreeMap<Vec<u8>, proto::UserNameProof>,
    /// fids that held two names at once: the one-name-per-fid index cannot serve them
    pub several: BTreeSet<u64>,
    /// names renewed by the fid that held them (see the finding `renewed-name-key`)
    pub renewed: BTreeSet<Vec<u8>>,
    pub seq: u64,
    /// set when the history left the part of the behaviour the model describes
    pub hazard: Option<&'static str>,
}

impl Model {
    pub fn units(&self, fid: u64) -> Option<u32> {
        let mut rents = self
            .chain
            .values()
            .filter(|e| e.fid == fid)
            .filter_map(|e| match &e.body {
                Some(proto::on_chain_event::Body::StorageRentEventBody(b)) => Some(b.units),
                _ => None,
            })
            .peekable();
        rents.peek()?;
        Some(rents.sum())
    }
    pub fn max(&self, fid: u64, s: Store) -> usize {
        self.units(fid).unwrap_or(0) as usize * per_unit(s)
    }
    pub fn count(&self, fid: u64, s: Store) -> usize {
        self.live.keys().filter(|(f, st, _)| *f == fid && *st == s).count()
    }
    pub fn signer_active(&self, fid: u64, key: &[u8]) -> bool {
        match self.signers.get(&(fid, key.to_vec())).and_then(|e| e.body.as_ref()) {
            Some(proto::on_chain_event::Body::SignerEventBody(b)) => {
                b.event_type() == proto::SignerEventType::Add && b.key_type == 1
            }
            _ => false,
        }
    }
    pub fn of_fid(&self, fid: u64) -> Vec<&Msg> {
        self.live.iter().filter(|((f, _, _), _)| *f == fid).map(|(_, m)| m).collect()
    }
    /// Links as old as their compaction that it does not list: taken when they come after it, swept
    /// when they come before it.
    pub fn equal_time_links(&self) -> usize {
        self.live
            .values()
            .filter(|l| match l.body() {
                Body::LinkBody(b) => {
                    let compact = (l.fid, Store::Links, [b"compact:", b.r#type.as_bytes()].concat());
                    self.live.get(&compact).is_some_and(|c| match c.body() {
                        Body::LinkCompactStateBody(cb) => {
                            let listed = matches!(&b.target, Some(proto::link_body::Target::TargetFid(f)) if cb.target_fids.contains(f));
                            l.ts == c.ts && (l.is_remove() || !listed)
                        }
                        _ => false,
                    })
                }
                _ => false,
            })
            .count()
    }
    fn is_live(&self, m: &Msg) -> bool {
        self.live.get(&m.topic()).is_some_and(|l| l.m.hash == m.m.hash)
    }
    /// every hash the sync trie must hold for messages
    pub fn hashes(&self) -> BTreeSet<Hash> {
        self.live.values().map(|m| m.hash()).collect()
    }

    pub fn onchain(&mut self, e: &proto::OnChainEvent, db: &Model) -> Option<Ev> {
        use proto::on_chain_event::Body as OB;
        if self.chain.contains_key(&chain_key(e)) {
            return None;
        }
        self.chain.insert(chain_key(e), e.clone());
        match e.body.as_ref().unwrap() {
            OB::IdRegisterEventBody(b) => {
                if b.event_type() != proto::IdRegisterEventType::ChangeRecovery
                    && !self.ids.get(&e.fid).is_some_and(|x| x.block_number > e.block_number)
                {
                    self.ids.insert(e.fid, e.clone());
                }
            }
            OB::SignerEventBody(b) => {
                let k = (e.fid, b.key.clone());
                if !self.signers.get(&k).is_some_and(|x| x.block_number > e.block_number) {
                    if b.event_type() == proto::SignerEventType::AdminReset {
                        // the reset brings back the earliest recorded grant of the key, if any
                        let add = db.chain.values().find(|x| match (&x.body, x.fid == e.fid) {
                            (Some(OB::SignerEventBody(s)), true) => {
                                s.key == b.key && s.event_type() == proto::SignerEventType::Add
                            }
                            _ => false,
                        });
                        if let Some(a) = add {
                            self.signers.insert(k, a.clone());
                        }
                    } else {
                        self.signers.insert(k, e.clone());
                    }
                }
            }
            _ => {}
        }
        Some(Ev::OnChain(e.transaction_hash.clone()))
    }

    fn fname(&mut self, t: &proto::FnameTransfer, db: &Model, out: &mut Vec<Ev>) {
        let p = t.proof.as_ref().unwrap();
        let old = self.fnames.get(&p.name);
        let fresh = match old {
            None => p.fid != 0,
            Some(o) => (o.timestamp, &o.signature) < (p.timestamp, &p.signature),
        };
        if fresh {
            out.push(Ev::Fname { name: p.name.clone(), fid: p.fid, was: old.map(|o| o.fid) });
            if old.is_some_and(|o| o.fid == p.fid) {
                self.renewed.insert(p.name.clone());
            } else {
                self.renewed.remove(&p.name);
            }
            self.fnames.insert(p.name.clone(), p.clone());
            if self.fnames.values().filter(|x| x.fid == p.fid).count() > 1 {
                self.several.insert(p.fid);
            }
        }
        if t.from_fid > 0 {
            let topic = (
                t.from_fid,
                Store::UserData,
                (proto::UserDataType::Username as i32).to_be_bytes().to_vec(),
            );
            self.revoke_stored(&topic, db, out);
        }
    }
    fn revoke_stored(&mut self, topic: &Topic, db: &Model, out: &mut Vec<Ev>) {
        if let Some(m) = db.live.get(topic) {
            if !self.is_live(m) {
                self.hazard = Some("revoke-superseded");
                return;
            }
            self.live.remove(topic);
            out.push(Ev::Revoked(m.hash()));
        }
    }

    /// Whether a stateless-valid message may be merged for its author now.
    pub fn admissible(&self, m: &Msg) -> bool {
        if !self.ids.contains_key(&m.fid) || !self.signer_active(m.fid, &m.m.signer) {
            return false;
        }
        match m.body() {
            Body::VerificationAddAddressBody(_) | Body::VerificationRemoveBody(_) => false,
            Body::UserDataBody(b) if b.value.is_empty() => true,
            Body::UserDataBody(b) => match b.r#type() {
                proto::UserDataType::Username if b.value.ends_with(".eth") => self
                    .live
                    .values()
                    .any(|p| p.store() == Store::Proofs && p.topic().2 == b.value.as_bytes() && p.fid == m.fid),
                proto::UserDataType::Username => {
                    self.fnames.get(b.value.as_bytes()).is_some_and(|p| p.fid == m.fid)
                }
                proto::UserDataType::UserDataPrimaryAddressEthereum => self.live.values().any(|v| {
                    v.fid == m.fid
                        && v.t == MessageType::VerificationAddEthAddress
                        && alloy_primitives::Address::from_slice(&v.topic().2).to_checksum(None) == b.value
                }),
                _ => true,
            },
            _ => true,
        }
    }

    /// Whether `old` stands against `new` on the same topic: newer time, then remove over add, then the
    /// greater hash; a cast that was removed never comes back.
    fn stands(old: &Msg, new: &Msg) -> bool {
        if old.store() == Store::Casts && old.is_remove() != new.is_remove() {
            return old.is_remove();
        }
        (old.ts, old.is_remove(), old.hash()) >= (new.ts, new.is_remove(), new.hash())
    }

    /// Merge one admitted message; `Err` when the rules refuse it.
    pub fn merge(&mut self, m: &Msg, db: &Model) -> Result<Ev, ()> {
        match m.body() {
            Body::LinkCompactStateBody(b) => {
                let mut gone = vec![];
                if let Some(old) = self.live.get(&m.topic()) {
                    if old.ts >= m.ts {
                        return Err(());
                    }
                    gone.push(old.hash());
                }
                let prefix = [b.r#type.as_bytes(), b"/"].concat();
                let sweep = |s: &Model| -> Vec<Msg> {
                    s.live
                        .values()
                        .filter(|l| l.fid == m.fid && l.store() == Store::Links && l.ts <= m.ts)
                        .filter(|l| match l.body() {
                            Body::LinkBody(x) => {
                                l.topic().2.starts_with(&prefix)
                                    && (l.is_remove()
                                        || !matches!(&x.target, Some(proto::link_body::Target::TargetFid(f)) if b.target_fids.contains(f)))
                            }
                            _ => false,
                        })
                        .cloned()
                        .collect()
                };
                let swept = sweep(self);
                // the engine sweeps what the block started from
                let hashes = |v: &[Msg]| v.iter().map(|l| l.hash()).collect::<BTreeSet<_>>();
                if hashes(&swept) != hashes(&sweep(db)) {
                    self.hazard = Some("compact-superseded");
                }
                for l in swept {
                    self.live.remove(&l.topic());
                    gone.push(l.hash());
                }
                gone.sort();
                self.live.insert(m.topic(), m.clone());
                Ok(Ev::Merged { new: m.hash(), gone })
            }
            Body::UsernameProofBody(b) => {
                // one holder per name, whoever it is
                let old = self
                    .live
                    .values()
                    .find(|p| p.store() == Store::Proofs && p.topic().2 == b.name)
                    .cloned();
                if let Some(o) = &old {
                    if (o.ts, o.hash()) >= (m.ts, m.hash()) {
                        return Err(());
                    }
                    self.live.remove(&o.topic());
                }
                self.live.insert(m.topic(), m.clone());
                Ok(Ev::Proof { new: Some(m.hash()), gone: old.map(|o| o.hash()) })
            }
            body => {
                if let Body::LinkBody(b) = body {
                    let compact = (m.fid, Store::Links, [b"compact:", b.r#type.as_bytes()].concat());
                    if let Some(c) = self.live.get(&compact) {
                        let Body::LinkCompactStateBody(cb) = c.body() else { panic!() };
                        let listed = matches!(&b.target, Some(proto::link_body::Target::TargetFid(f)) if cb.target_fids.contains(f));
                        if m.ts < c.ts && (m.is_remove() || !listed) {
                            return Err(());
                        }
                    }
                }
                let mut gone = vec![];
                if let Some(old) = self.live.get(&m.topic()) {
                    if Self::stands(old, m) {
                        return Err(());
                    }
                    gone.push(old.hash());
                }
                self.live.insert(m.topic(), m.clone());
                Ok(Ev::Merged { new: m.hash(), gone })
            }
        }
    }

    /// A verification ordered by shard 0 replaces whatever is stored for its address.
    fn merge_ordered(&mut self, m: &Msg, out: &mut Vec<Ev>) {
        let gone = self
            .live
            .get(&m.topic())
            .filter(|o| o.m.hash != m.m.hash)
            .map(|o| o.hash())
            .into_iter()
            .collect();
        self.live.insert(m.topic(), m.clone());
        out.push(Ev::Merged { new: m.hash(), gone });
    }

    /// What the engine takes the count for: it looks a message type's count up in the block's pending
    /// writes, and a count that dropped to zero there is read from the committed state instead.
    fn seen_count(&self, fid: u64, s: Store, db: &Model) -> usize {
        let by_type = |m: &Model| {
            let mut c = BTreeMap::new();
            for l in m.of_fid(fid).iter().filter(|l| l.store() == s) {
                *c.entry(l.t).or_insert(0usize) += 1;
            }
            c
        };
        let (now, before) = (by_type(self), by_type(db));
        now.values().sum::<usize>() + before.iter().filter(|(t, _)| !now.contains_key(t)).map(|(_, n)| n).sum::<usize>()
    }
    /// Storage rented in this block counts from the next one on. Over the quota, the oldest stored messages go; those merged in this very block stay (they are
    /// not in the store yet), as do link compactions.
    fn prune(&mut self, fid: u64, s: Store, db: &Model, out: &mut Vec<Ev>) {
        let max = db.max(fid, s);
        let mut over = self.count(fid, s).saturating_sub(max);
        if self.seen_count(fid, s, db).saturating_sub(max) != over {
            self.hazard = Some("prune-count-stale");
        }
        if over == 0 {
            return;
        }
        let mut stored: Vec<&Msg> = db
            .live
            .values()
            .filter(|m| m.fid == fid && m.store() == s && m.t != MessageType::LinkCompactState)
            .collect();
        stored.sort_by_key(|m| (m.ts, m.hash()));
        for m in stored {
            if over == 0 {
                break;
            }
            if !self.is_live(m) {
                // gone already in this block; must not be pruned again
                self.hazard = Some("prune-superseded");
                continue;
            }
            self.live.remove(&m.topic());
            out.push(if s == Store::Proofs {
                Ev::Proof { new: None, gone: Some(m.hash()) }
            } else {
                Ev::Pruned(m.hash())
            });
            over -= 1;
        }
    }

    /// The effects of one transaction of a decided chunk; `db` is the state the block started from.
    pub fn tx(&mut self, tx: &Transaction, db: &Model, valid: &dyn Fn(&proto::Message) -> bool) -> Vec<Ev> {
        let mut out = vec![];
        let mut touched = BTreeSet::new();
        let mut deleted_adds: Vec<Msg> = vec![];
        let mut chain: Vec<&proto::OnChainEvent> =
            tx.system_messages.iter().filter_map(|s| s.on_chain_event.as_ref()).collect();
        chain.sort_by_key(|e| (e.block_number, e.log_index));
        for e in chain {
            out.extend(self.onchain(e, db));
        }
        for s in &tx.system_messages {
            if let Some(t) = &s.fname_transfer {
                self.fname(t, db, &mut out);
            }
            if let Some(b) = &s.block_event {
                let d = b.data.as_ref().unwrap();
                if d.seqnum != self.seq + 1 {
                    continue;
                }
                self.seq += 1;
                if let Some(proto::block_event_data::Body::MergeMessageEventBody(x)) = &d.body {
                    let m = Msg::new(x.message.as_ref().unwrap());
                    if let Some(o) = self.live.get(&m.topic()) {
                        if o.m.hash != m.m.hash && !o.is_remove() {
                            deleted_adds.push(o.clone());
                        }
                    }
                    self.merge_ordered(&m, &mut out);
                    touched.insert(m.t as i32);
                }
            }
        }
        let mut msgs: Vec<Msg> = tx.user_messages.iter().map(Msg::new).collect();
        msgs.sort_by_key(|m| {
            let p = match (m.t, m.body()) {
                (MessageType::VerificationAddEthAddress, _) => 1,
                (MessageType::UsernameProof, _) => 2,
                (MessageType::UserDataAdd, Body::UserDataBody(b)) => match b.r#type() {
                    proto::UserDataType::Username
                    | proto::UserDataType::UserDataPrimaryAddressEthereum
                    | proto::UserDataType::UserDataPrimaryAddressSolana => 3,
                    _ => 4,
                },
                _ => 5,
            };
            (p, m.ts)
        });
        for m in &msgs {
            let r = if valid(&m.m) && self.admissible(m) { self.merge(m, db) } else { Err(()) };
            match r {
                Ok(e) => {
                    out.push(e);
                    touched.insert(m.t as i32);
                }
                Err(()) => out.push(Ev::Failed(m.hash())),
            }
        }
        for t in touched {
            self.prune(tx.fid, store_of(MessageType::try_from(t).unwrap()), db, &mut out);
        }
        for v in deleted_adds {
            let topic = (
                v.fid,
                Store::UserData,
                (proto::UserDataType::UserDataPrimaryAddressEthereum as i32).to_be_bytes().to_vec(),
            );
            let want = alloy_primitives::Address::from_slice(&v.topic().2).to_checksum(None);
            if let Some(u) = db.live.get(&topic) {
                if matches!(u.body(), Body::UserDataBody(b) if b.value == want) {
                    self.revoke_stored(&topic, db, &mut out);
                }
            }
        }
        out
    }

    /// The sync-trie keys the state stands for.
    pub fn trie_keys(&self) -> BTreeSet<Vec<u8>> {
        use snapchain::storage::trie::merkle_trie::TrieKey;
        let mut out = BTreeSet::new();
        for m in self.live.values() {
            out.extend(TrieKey::for_message(&m.m));
        }
        for e in self.chain.values() {
            out.insert(TrieKey::for_onchain_event(e));
        }
        for p in self.fnames.values().filter(|p| p.fid != 0) {
            out.insert(TrieKey::for_fname(p.fid, &String::from_utf8(p.name.clone()).unwrap()));
        }
        out
    }
}
pub fn well_formed(m: &proto::Message) -> bool {
    use ed25519_dalek::Verifier;
    let d = m.data_bytes.clone().unwrap_or_else(|| m.data.as_ref().unwrap().encode_to_vec());
    blake3::hash(&d).as_bytes()[..20] == m.hash[..]
        && ed25519_dalek::VerifyingKey::try_from(m.signer.as_slice())
            .ok()
            .zip(ed25519_dalek::Signature::from_slice(&m.signature).ok())
            .is_some_and(|(k, s)| k.verify(&m.hash, &s).is_ok())
}
#[allow(unused)]
fn _fids() -> u64 {
    fid(0)
}
