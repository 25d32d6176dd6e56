//! Running a history on shard 0's engine, block by block, against the model.
use crate::frame::{Obs, R};
use crate::sim::*;
use prost::Message as _;
use snapchain::core::util::FarcasterTime;
use snapchain::proto::{self, block_event_data::Body as EB, hub_event, MessageType};
use snapchain::storage::db::{PageOptions, RocksDB, RocksDbTransactionBatch};
use snapchain::storage::store::account::*;
use snapchain::storage::store::block_engine::{BlockEngine, BlockStateChange};
use snapchain::storage::store::block_engine_test_helpers as bh;
use std::collections::{BTreeMap, BTreeSet};

pub struct Net {
    pub model: Model,
    pub a: Zero,
    pub b: Zero,
    /// commits only, and restarts
    pub c: Zero,
    pub seq: u64,
    pub n: u64,
    /// whether keys are what the case is about
    pub keys: bool,
}
pub struct Done {
    pub change: BlockStateChange,
    pub block: proto::Block,
    pub fates: Vec<(Sub, Fate)>,
    /// in the order of the block
    pub merged: Vec<Sub>,
}
pub fn page(size: Option<usize>) -> PageOptions {
    PageOptions { page_size: size, page_token: None, reverse: false }
}
impl Net {
    pub fn new(cap: Option<u32>) -> Net {
        Net {
            model: Model { cap, ..Default::default() },
            a: Zero::new(cap),
            b: Zero::new(cap),
            c: Zero::new(cap),
            seq: 0,
            n: 0,
            keys: false,
        }
    }
    pub fn height(&self) -> proto::Height {
        self.a.e.get_confirmed_height().increment()
    }
    pub fn propose(&mut self, blk: &Block) -> BlockStateChange {
        let h = self.height();
        self.a.e.propose_state_change(blk.mempool.clone(), h, Some(FarcasterTime::new(blk.ts as u64)))
    }
    /// Proposes, checks what the proposal says against the model, and commits it everywhere.
    pub fn step(&mut self, blk: &Block, o: &mut Obs) -> Result<Done, String> {
        let change = self.propose(blk);
        let h = self.height();
        self.n = h.block_number;
        let (fates, merged) = self.judge(blk, &change, o)?;
        ensure!(self.b.e.validate_state_change(&change, h), "another node refuses block {}", self.n);
        let block = bh::state_change_to_block(self.n, &change);
        self.a.e.commit_block(&block);
        self.b.e.commit_block(&block);
        if self.n % 3 == 0 {
            self.c.restart();
        }
        self.c.e.commit_block(&block);
        for (who, z) in [("proposer", &self.a), ("validator", &self.b), ("follower", &self.c)] {
            ensure_eq!(z.e.trie_root_hash(), change.new_state_root, "root of the {who} after block {}", self.n);
            ensure_eq!(z.e.get_confirmed_height(), h, "height of the {who}");
        }
        Ok(Done { change, block, fates, merged })
    }
    fn judge(&mut self, blk: &Block, change: &BlockStateChange, o: &mut Obs) -> Result<(Vec<(Sub, Fate)>, Vec<Sub>), String> {
        // grouped by fid, the order kept within each
        let mut chain: BTreeMap<u64, Vec<proto::OnChainEvent>> = BTreeMap::new();
        let mut subs: BTreeMap<u64, Vec<Sub>> = BTreeMap::new();
        for e in &blk.chain {
            chain.entry(e.fid).or_default().push(e.clone());
        }
        for s in &blk.subs {
            subs.entry(s.m.fid()).or_default().push(s.clone());
        }
        let fids: BTreeSet<u64> = chain.keys().chain(subs.keys()).copied().collect();
        let mut want = BTreeMap::new();
        let mut dropped = vec![];
        for f in fids {
            let es = chain.remove(&f).unwrap_or_default();
            let mut ss = subs.remove(&f).unwrap_or_default();
            let rents = es.iter().filter(|e| e.r#type == proto::OnChainEventType::EventTypeStorageRent as i32).count();
            if !self.model.active(f, rents > 0) {
                dropped.extend(ss.drain(..).map(|s| (s, Fate::Refused("no storage at all"))));
            }
            if !es.is_empty() || !ss.is_empty() {
                want.insert(f, (es, ss));
            }
        }
        let got: BTreeSet<u64> = change.transactions.iter().map(|t| t.fid).collect();
        ensure_eq!(got, want.keys().copied().collect::<BTreeSet<u64>>(), "fids in block {}", self.n);
        ensure_eq!(got.len(), change.transactions.len(), "transactions per fid");

        let merged_hashes: BTreeSet<Vec<u8>> = change
            .events
            .iter()
            .filter_map(|e| match e.data.as_ref()?.body.as_ref()? {
                EB::MergeMessageEventBody(b) => Some(b.message.as_ref()?.hash.clone()),
                _ => None,
            })
            .collect();
        self.model.tolerate = merged_hashes;
        let lent = self.model.clone();
        let mut events = vec![];
        let mut fates = vec![];
        let mut merged = vec![];
        for t in &change.transactions {
            let (es, ss) = &want[&t.fid];
            let sys: Vec<_> = t.system_messages.iter().map(|m| m.on_chain_event.clone().unwrap()).collect();
            ensure_eq!(sys, *es, "system messages of {}", t.fid);
            let hashes: Vec<_> = ss.iter().map(|s| &s.m).collect();
            ensure_eq!(t.user_messages.iter().collect::<Vec<_>>(), hashes, "user messages of {}", t.fid);
            let (ev, fs) = self.model.transaction(t.fid, es, ss, blk.ts, &lent);
            events.extend(ev);
            for (s, f) in ss.iter().zip(fs) {
                if f == Fate::Merged {
                    merged.push(s.clone());
                    if self.keys && matches!(s.kind, Kind::KeyAdd { expired: true, .. } | Kind::KeyRm { expired: true, .. }) {
                        o.finding("expired-custody-deadline", format!("merged although its custody signature expired: {:?}", s.kind));
                    }
                }
                fates.push((s.clone(), f));
            }
        }
        let beat = self.n % 5 == 0;
        let show = |e: &proto::BlockEvent| match e.data.as_ref().and_then(|d| d.body.as_ref()) {
            Some(EB::MergeMessageEventBody(b)) => {
                let m = b.message.as_ref().unwrap();
                format!("message {:?} of {} {}", m.msg_type(), m.fid(), hex::encode(&m.hash[..4]))
            }
            Some(EB::MergeOnChainEventEventBody(b)) => {
                let e = b.on_chain_event.as_ref().unwrap();
                format!("chain {}/{}", e.block_number, e.log_index)
            }
            x => format!("{x:?}"),
        };
        let got: Vec<Ev> = change
            .events
            .iter()
            .filter_map(|e| match e.data.as_ref()?.body.as_ref()? {
                EB::MergeMessageEventBody(b) => Some(Ev::Message(b.message.as_ref()?.hash.clone())),
                EB::MergeOnChainEventEventBody(b) => Some(Ev::Chain(b.on_chain_event.clone()?)),
                _ => None,
            })
            .collect();
        if got != events {
            let first = got.iter().zip(&events).position(|(a, b)| a != b).unwrap_or(got.len().min(events.len()));
            return Err(format!(
                "block {}: its events and the model's differ from the {first}th on: it has {:#?}, the model {:?} of {} at second {}; fates: {:#?}",
                self.n,
                change.events.iter().map(show).collect::<Vec<_>>(),
                events.get(first).map(|e| match e {
                    Ev::Message(h) => hex::encode(&h[..4]),
                    Ev::Chain(e) => format!("chain {}/{}", e.block_number, e.log_index),
                }),
                events.len(),
                blk.ts,
                fates.iter().map(|(s, f)| format!("{} {}@{} {:?}: {f:?}", hex::encode(&s.m.hash[..4]), s.m.fid(), data(&s.m).timestamp, s.kind)).collect::<Vec<_>>()
            ));
        }
        ensure_eq!(change.events.len(), events.len() + beat as usize, "number of events of block {}", self.n);
        if beat {
            let last = change.events.last().unwrap().data.as_ref().unwrap();
            ensure!(matches!(last.body, Some(EB::HeartbeatEventBody(_))), "no heartbeat at block {}", self.n);
            ensure_eq!(last.r#type, proto::BlockEventType::Heartbeat as i32, "type of a heartbeat");
        }
        let mut all = blake3::Hasher::new();
        for (i, e) in change.events.iter().enumerate() {
            let d = e.data.as_ref().unwrap();
            self.seq += 1;
            ensure_eq!(d.seqnum, self.seq, "sequence number of event {i} of block {}", self.n);
            ensure_eq!(d.event_index, i as u64, "index of an event");
            ensure_eq!((d.block_number, d.block_timestamp), (self.n, blk.ts as u64), "block of an event");
            ensure_eq!(e.hash, blake3::hash(&d.encode_to_vec()).as_bytes().to_vec(), "hash of an event");
            all.update(&e.hash);
        }
        let hash = if change.events.is_empty() { vec![] } else { all.finalize().as_bytes().to_vec() };
        ensure_eq!(change.events_hash, hash, "hash over the events");
        ensure_eq!(change.timestamp.to_u64(), blk.ts as u64, "time of block {}", self.n);
        for (_, f) in &fates {
            o.tag(match f {
                Fate::Refused(w) => format!("refused: {w}"),
                Fate::Lost(w) => format!("lost: {w}"),
                Fate::Merged => "merged".into(),
            });
        }
        fates.extend(dropped);
        Ok((fates, merged))
    }
}

pub fn merged_hub_hashes(events: &[proto::HubEvent]) -> BTreeSet<Vec<u8>> {
    events
        .iter()
        .filter_map(|e| match e.body.as_ref()? {
            hub_event::Body::MergeMessageBody(b) => Some(b.message.as_ref()?.hash.clone()),
            _ => None,
        })
        .collect()
}

// ---- the state against the model ---------------------------------------------------------------

pub fn check_tree(e: &mut BlockEngine, m: &Model) -> R {
    let ctx = snapchain::storage::trie::merkle_trie::Context::new();
    let db = e.stores().db.clone();
    let mut got: BTreeSet<Vec<u8>> = e.stores.trie.get_all_values(&ctx, &db, &[]).map_err(|e| e.to_string())?.into_iter().collect();
    got.remove(&Vec::new());
    let want = m.tree();
    for k in got.symmetric_difference(&want) {
        return Err(format!("the tree {} {}", if got.contains(k) { "has an extra key" } else { "lacks" }, hex::encode(k)));
    }
    Ok(())
}
pub fn check_keys(db: &std::sync::Arc<RocksDB>, chain: &OnchainEventStore, m: &Model, fids: &[u64], apps: bool) -> R {
    let t = RocksDbTransactionBatch::new();
    let err = |e: snapchain::core::error::HubError| e.to_string();
    let all: Vec<u8> = vec![0, 1, 4, 5, 6, 7, 8, 9];
    for f in fids {
        let mut n = 0;
        let mut listed = vec![];
        for k in &all {
            let pk = pubkey(*k);
            let want = m.keys.get(&(*f, pk.clone()));
            let got = get_gasless_key_record(db, &t, *f, &pk).map_err(err)?;
            ensure_eq!(
                got.as_ref().map(|r| (r.message.as_ref().map(|m| &m.hash), r.request_fid)),
                want.map(|k| (Some(&k.m.hash), k.app)),
                "key {k} of {f}"
            );
            ensure_eq!(get_last_used_at(db, &t, *f, &pk).map_err(err)?, m.used.get(&(*f, pk.clone())).copied(), "last use of key {k} of {f}");
            if want.is_some() {
                n += 1;
                listed.push(pk.clone());
            }
            let act = get_active_key(chain, db, &t, *f, &pk).map_err(|e| format!("{e:?}"))?;
            let on = m.signers.contains(&(*f, pk.clone()));
            match (&act, on, want) {
                (Some(active_key::ActiveKey::OnChain), true, _) => {}
                (Some(active_key::ActiveKey::Gasless { ttl_seconds, .. }), false, Some(k)) => {
                    ensure_eq!(*ttl_seconds, k.ttl, "life of a key");
                }
                (None, false, None) => {}
                _ => return Err(format!("key {k} of {f} acts as {act:?}; on chain {on}, gasless {}", want.is_some())),
            }
            for ty in 1..=21 {
                let Ok(mt) = MessageType::try_from(ty) else { continue };
                ensure_eq!(
                    act.as_ref().is_some_and(|a| a.admits(mt)),
                    on || want.is_some_and(|k| k.scopes.contains(&ty)),
                    "whether key {k} of {f} may sign {mt:?}"
                );
            }
        }
        listed.sort();
        ensure_eq!(get_gasless_key_count(db, &t, *f).map_err(err)?, n, "number of keys of {f}");
        ensure_eq!(get_user_nonce(db, &t, *f).map_err(err)?.unwrap_or(0), m.user_nonce.get(f).copied().unwrap_or(0), "nonce of {f}");
        if apps {
            ensure_eq!(get_app_nonce(db, &t, *f).map_err(err)?.unwrap_or(0), m.app_nonce.get(f).copied().unwrap_or(0), "app nonce of {f}");
        }
        for size in [None, Some(1)] {
            let mut got = vec![];
            let mut p = page(size);
            loop {
                let r = list_gasless_keys_by_fid(db, *f, &p).map_err(err)?;
                got.extend(r.records.into_iter().map(|x| x.0));
                match r.next_page_token {
                    Some(t) => p.page_token = Some(t),
                    None => break,
                }
            }
            ensure_eq!(got, listed, "keys of {f} in pages of {size:?}");
        }
    }
    for k in &all {
        let pk = pubkey(*k);
        let owner = m.keys.keys().find(|x| x.1 == pk).map(|x| x.0);
        let got = get_gasless_key_owner_fid(db, &t, &pk).map_err(err)?;
        if owner.is_none_or(|f| fids.contains(&f)) {
            ensure_eq!(got, owner, "owner of key {k}");
        }
    }
    Ok(())
}
pub fn check_lends(s: &Store<StorageLendStoreDef>, m: &Model) -> R {
    let err = |e: snapchain::core::error::HubError| e.to_string();
    for f in 0..PEOPLE {
        let f = fid(f);
        let mut got: Vec<_> = s.get_adds_by_fid::<fn(&proto::Message) -> bool>(f, &page(None), None).map_err(err)?.messages.into_iter().map(|m| m.hash).collect();
        got.sort();
        let mut want: Vec<_> = m.lends.iter().filter(|(k, _)| k.0 == f).map(|(_, m)| m.hash.clone()).collect();
        want.sort();
        ensure_eq!(got, want, "lends of {f}");
        let mut by: Vec<_> = StorageLendStore::get_messages_by_borrower_fid(s, f).map_err(err)?.into_iter().map(|m| m.hash).collect();
        by.sort();
        let mut want: Vec<_> = m.lends.iter().filter(|(k, _)| k.1 == f).map(|(_, m)| m.hash.clone()).collect();
        want.sort();
        ensure_eq!(by, want, "loans to {f}");
        let l = StorageLendStore::get_lent_storage(s, f).map_err(err)?;
        ensure_eq!(l.units_for(proto::StorageUnitType::UnitType2025), m.lent(f), "units lent by {f}");
        let b = StorageLendStore::get_borrowed_storage(s, f).map_err(err)?;
        ensure_eq!(b.units_for(proto::StorageUnitType::UnitType2025), m.borrowed(f), "units borrowed by {f}");
    }
    Ok(())
}
pub fn check_vers(s: &Store<VerificationStoreDef>, m: &Model, fids: &[u64]) -> R {
    let err = |e: snapchain::core::error::HubError| e.to_string();
    for f in fids {
        let f = *f;
        for a in 0..4 {
            let a = addr(a);
            let want = m.vers.get(&(f, a.clone()));
            let live = want.filter(|m| Model::ver_live(m)).map(|m| m.hash.clone());
            let dead = want.filter(|m| !Model::ver_live(m)).map(|m| m.hash.clone());
            let got = VerificationStore::get_verification_add(s, f, &a, None).map_err(err)?.map(|m| m.hash);
            ensure_eq!(got, live, "verification of {} by {f}", hex::encode(&a));
            let got = VerificationStore::get_verification_remove(s, f, &a).map_err(err)?.map(|m| m.hash);
            ensure_eq!(got, dead, "removed verification of {} by {f}", hex::encode(&a));
        }
    }
    for a in 0..4 {
        if fids.len() < PEOPLE as usize {
            break;
        }
        let a = addr(a);
        let c = VerificationStore::get_verifications_by_address(s, &a, None).map_err(err)?;
        let got = select_verification_address_winner(
            c.into_iter().map(|(f, t)| (f, t)).collect::<Vec<_>>(),
        );
        ensure_eq!(got, m.holder(&a), "holder of {}", hex::encode(&a));
    }
    Ok(())
}
pub fn check_registry(chain: &OnchainEventStore, db: &RocksDB, m: &Model) -> R {
    let names: Vec<String> = (0..CHANNELS).map(cname).chain(["other".to_string()]).collect();
    for n in &names {
        let got = chain.get_channel_owner(n, None).map_err(|e| format!("{e:?}"))?;
        let want = m.owners.get(n);
        ensure_eq!(
            got.map(|o| (o.owner_address, o.expiry)),
            want.map(|o| (o.addr.clone(), o.expiry)),
            "owner of channel {n}"
        );
        let label = crate::gens::keccak(n.as_bytes()).to_vec();
        ensure_eq!(
            chain.get_channel_key_by_label(&label, None).map_err(|e| format!("{e:?}"))?,
            m.labels.get(&label).cloned(),
            "channel of a label"
        );
    }
    for a in 0..4 {
        let a = addr(a);
        let want: Vec<String> = m.owners.iter().filter(|(_, o)| o.addr == a).map(|x| x.0.clone()).collect();
        for size in [None, Some(1)] {
            let mut got = vec![];
            let mut p = page(size);
            loop {
                let (ks, t) = get_channel_keys_by_owner_address(db, &a, &p).map_err(|e| format!("{e:?}"))?;
                got.extend(ks);
                match t {
                    Some(t) => p.page_token = Some(t),
                    None => break,
                }
            }
            ensure_eq!(got, want, "channels of an address, in pages of {size:?}");
        }
    }
    Ok(())
}
pub struct ChannelStores<'a> {
    pub update: &'a Store<ChannelUpdateStoreDef>,
    pub member: &'a Store<ChannelMemberStoreDef>,
    pub pin: &'a Store<ChannelPinStoreDef>,
    pub moderate: &'a Store<ChannelModerateStoreDef>,
}
pub fn check_channels(s: &ChannelStores, m: &Model) -> R {
    let err = |e: snapchain::core::error::HubError| e.to_string();
    for c in 0..CHANNELS {
        let id = cid(c);
        let u = ChannelUpdateStore::get_channel_update(s.update, &id, None).map_err(err)?;
        ensure_eq!(u.is_some(), m.updates.contains_key(&id), "whether channel {c} was configured");
        if let Some(u) = u {
            let Some(proto::message_data::Body::ChannelUpdateBody(b)) = data(&m.updates[&id]).body.clone() else { unreachable!() };
            ensure_eq!(u.body, b, "configuration of channel {c}");
            ensure_eq!((u.casting_mode as i32, u.membership_mode as i32), m.modes(&id), "modes of channel {c}");
        }
        for t in 0..14 {
            let f = target(t);
            let got = ChannelMemberStore::member(s.member, &id, f, None).map_err(err)?;
            let want = m.members.get(&(id.clone(), f));
            ensure_eq!(got.map(|x| (format!("{:?}", x.state), x.last_action_ts)), want.map(|w| (format!("{:?}", member_st(w)), data(w).timestamp)), "standing of {f} in channel {c}");
        }
        ensure_eq!(ChannelMemberStore::slot_count(s.member, &id, None).map_err(err)? as usize, m.member_slots(&id), "member slots of channel {c}");
        ensure_eq!(ChannelMemberStore::live_moderator_count(s.member, &id, None).map_err(err)? as usize, m.moderators(&id), "moderators of channel {c}");
        ensure_eq!(ChannelModerateStore::slot_count(s.moderate, &id, None).map_err(err)? as usize, m.moderate_slots(&id), "moderation slots of channel {c}");
        let pin = ChannelPinStore::get_channel_pin_state(s.pin, &id, None).map_err(err)?;
        ensure_eq!(
            pin.map(|p| (p.body, p.author_fid)),
            m.pins.get(&id).map(|w| match &data(w).body {
                Some(proto::message_data::Body::ChannelPinBody(b)) => (b.clone(), data(w).fid),
                _ => unreachable!(),
            }),
            "pin of channel {c}"
        );
        for h in 0..10 {
            let h = hash20(h);
            let got = ChannelModerateStore::moderation_state(s.moderate, &id, &h, None).map_err(err)?;
            let want = m.moderations.get(&(id.clone(), h.clone())).map(|m| moderation(m).0);
            ensure_eq!(got.map(|x| if x == ChannelModerationState::Hidden { 1 } else { 2 }), want, "moderation in channel {c}");
        }
    }
    Ok(())
}
/// (action, author)
pub fn moderation(m: &proto::Message) -> (i32, u64) {
    match &data(m).body {
        Some(proto::message_data::Body::ChannelModerateBody(b)) => (b.action, data(m).fid),
        _ => unreachable!(),
    }
}
pub fn check_all(z: &mut Zero, m: &Model) -> R {
    let s = z.e.stores();
    let fids: Vec<u64> = (0..PEOPLE).map(fid).collect();
    check_keys(&z.db, &s.onchain_event_store, m, &fids, true)?;
    check_lends(&s.storage_lend_store, m)?;
    check_vers(&s.verification_store, m, &fids)?;
    for a in 0..4 {
        let got = s.resolve_channel_owner_fid(&addr(a), None).map_err(|e| e.to_string())?;
        ensure_eq!(got, m.holder(&addr(a)), "holder of address {a}");
    }
    check_registry(&s.onchain_event_store, &z.db, m)?;
    check_channels(
        &ChannelStores {
            update: &s.channel_update_store,
            member: &s.channel_member_store,
            pin: &s.channel_pin_store,
            moderate: &s.channel_moderate_store,
        },
        m,
    )?;
    check_tree(&mut z.e, m)
}
