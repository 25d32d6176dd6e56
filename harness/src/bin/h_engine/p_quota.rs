//! C22: storage quotas. A direct oracle over the stored rows: what a fid may keep is the storage it
//! rented, less what it lent, plus what it borrowed, each at its generation's rates and while it lasts.
use crate::frame::{Obs, Prop, R};
use crate::gens::*;
use crate::model::{ev, store_of, Ev, Msg, Store};
use crate::p_engine::show;
use crate::world::*;
use proptest::prelude::*;
use prost::Message as _;
use serde::{Deserialize, Serialize};
use snapchain::proto::{self, message_data::Body, on_chain_event::Body as OB, MessageType};
use snapchain::storage::store::mempool_poller::MempoolMessage;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Lend {
    from: u8,
    to: u8,
    units: u8,
    ty: u8,
    ts: u8,
}
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Step {
    /// days the clock moves before the block
    days: u16,
    lend: Option<Lend>,
    ops: Vec<Op>,
}
fn steps() -> BoxedStrategy<Vec<Step>> {
    let mix = Mix { old: true, fids: 2, msgs: 40, chain: 2, names: 2, vers: 3, compact: 1, bad: false, ..FULL };
    let lend = (0u8..3, 0u8..3, prop_oneof![2 => Just(0u8), 5 => Just(1u8), 2 => Just(2u8)], 0u8..3, 0u8..8)
        .prop_map(|(from, to, units, ty, ts)| Lend { from, to, units, ty, ts });
    let step = (
        prop_oneof![12 => Just(0u16), 2 => 1u16..200, 1 => 200u16..500],
        prop_oneof![4 => Just(None), 1 => lend.prop_map(Some)],
        pvec(op(mix), 0..9),
    )
        .prop_map(|(days, lend, ops)| Step { days, lend, ops });
    pvec(step, 2..14).boxed()
}

fn lend_message(l: &Lend) -> proto::Message {
    let d = data(
        l.from,
        l.ts,
        MessageType::LendStorage,
        Body::LendStorageBody(proto::LendStorageBody {
            to_fid: fid(l.to),
            num_units: l.units as u64,
            unit_type: l.ty as i32,
        }),
    );
    sign_data(&d, &signing_key(0))
}

/// Units per generation (legacy, 2024, 2025).
pub type Units = [u64; 3];
#[derive(Default, Clone)]
struct Rows {
    msgs: Vec<Msg>,
    rents: Vec<(u64, proto::OnChainEvent)>,
    lends: Vec<(u64, u64, usize, u64)>,
}
fn rows(dump: &BTreeMap<Vec<u8>, Vec<u8>>) -> Rows {
    let mut r = Rows::default();
    for (k, v) in dump {
        if k[0] == 3 && k.len() > 6 && (k[5] <= 85 || k[5] == 100) {
            let m = proto::Message::decode(v.as_slice()).expect("message row");
            let d = m.data.as_ref().unwrap();
            if let Some(Body::LendStorageBody(b)) = &d.body {
                r.lends.push((d.fid, b.to_fid, b.unit_type as usize, b.num_units));
            } else {
                r.msgs.push(Msg::new(&m));
            }
        }
        if k[0] == 12 && k[1] == 1 {
            if let Ok(e) = proto::OnChainEvent::decode(v.as_slice()) {
                if matches!(e.body, Some(OB::StorageRentEventBody(_))) {
                    r.rents.push((e.fid, e));
                }
            }
        }
    }
    r.rents.dedup();
    r
}
fn wall() -> u64 {
    rocksdb::shim::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_secs()
}
impl Rows {
    /// rented units that still count, by generation; `None` if there are none such events
    fn own(&self, fid: u64) -> Option<Units> {
        const YEAR: u64 = 365 * 86400;
        let mut live = None;
        for (_, e) in self.rents.iter().filter(|(f, _)| *f == fid) {
            let Some(OB::StorageRentEventBody(b)) = &e.body else { continue };
            let t = e.block_timestamp;
            let (gen, years) = match t {
                t if t < 1724889600 => (0, 4),
                t if t < 1752426000 => (1, 3),
                t if t < 1781283600 => (2, 2),
                _ => (2, 1),
            };
            if t + years * YEAR > wall() {
                live.get_or_insert([0; 3])[gen] += b.units as u64;
            }
        }
        live
    }
    fn lent(&self, fid: u64) -> Units {
        let mut u = [0; 3];
        self.lends.iter().filter(|l| l.0 == fid).for_each(|l| u[l.2] += l.3);
        u
    }
    fn borrowed(&self, fid: u64) -> Units {
        let mut u = [0; 3];
        self.lends.iter().filter(|l| l.1 == fid).for_each(|l| u[l.2] += l.3);
        u
    }
    /// `None` where more is lent than still lasts
    fn net(&self, fid: u64) -> Option<Units> {
        let (own, lent, borrowed) = (self.own(fid).unwrap_or([0; 3]), self.lent(fid), self.borrowed(fid));
        let mut u = [0; 3];
        for i in 0..3 {
            u[i] = own[i].checked_sub(lent[i])? + borrowed[i];
        }
        Some(u)
    }
    fn count(&self, fid: u64, s: Store) -> usize {
        self.msgs.iter().filter(|m| m.fid == fid && m.store() == s).count()
    }
}
pub const STORES: [Store; 6] =
    [Store::Casts, Store::Links, Store::Reactions, Store::UserData, Store::Proofs, Store::Verifications];
fn limit(u: &Units, s: Store) -> usize {
    let i = STORES.iter().position(|x| *x == s).unwrap();
    (0..3).map(|g| u[g] as usize * [LEGACY, L2024, L2025][g][i] as usize).sum()
}

fn quota(c: &Vec<Step>, o: &mut Obs) -> R {
    let rt = rt();
    let mut n = Node::new(&rt);
    let mut clock = 0i64;
    let mut pruned_blocks = 0;
    let all: Vec<Step> =
        std::iter::once(Step { days: 0, lend: None, ops: setup_ops(7) }).chain(c.iter().cloned()).collect();
    for (i, s) in all.iter().enumerate() {
        clock += s.days as i64 * 86400;
        rocksdb::shim::set_clock(clock);
        let before = rows(&n.dump());
        // more lent than still lasts
        for f in FIDS {
            if before.net(f).is_none() {
                let stores = n.e.get_stores();
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| stores.get_storage_limits(f)));
                match r {
                    Ok(Ok(l)) => ensure!(l.units < 1000, "fid {f} lent what expired and has {} units", l.units),
                    Ok(Err(e)) => return Err(format!("limits of {f}: {e}")),
                    Err(_) => o.finding("lent-units-expired", format!("fid {f} lent units whose rent expired")),
                }
                o.label("lent-units-expired");
                return Ok(());
            }
        }
        let mut msgs = mempool(&s.ops, n.last_seq());
        let seq = n.last_seq() + msgs.iter().filter(|m| matches!(m, MempoolMessage::BlockEvent { .. })).count() as u64;
        if let Some(l) = &s.lend {
            // shard 0 lets a fid lend what it rents and does not lend yet
            let own = before.own(fid(l.from)).unwrap_or([0; 3]);
            let other: u64 = before.lends.iter().filter(|x| x.0 == fid(l.from) && x.1 != fid(l.to) && x.2 == l.ty as usize).map(|x| x.3).sum();
            if l.from != l.to && own[l.ty as usize] >= other + l.units as u64 {
                msgs.push(MempoolMessage::BlockEvent { for_shard: 1, message: merge_block_event(seq + 1, lend_message(l)) });
                o.label("lend");
            }
        }
        n.start_round();
        let c = n.propose(msgs, block_ts(i));
        let ch = n.chunk(&c);
        n.commit(&rt, &ch);
        let after = rows(&n.dump());
        let got: Vec<Ev> = c.events.iter().map(ev).collect();
        let by_hash: BTreeMap<Vec<u8>, Msg> = before
            .msgs
            .iter()
            .chain(after.msgs.iter())
            .cloned()
            .chain(c.transactions.iter().flat_map(|t| t.user_messages.iter().map(Msg::new)))
            .chain(c.transactions.iter().flat_map(|t| t.system_messages.iter()).filter_map(|m| {
                match m.block_event.as_ref()?.data.as_ref()?.body.as_ref()? {
                    proto::block_event_data::Body::MergeMessageEventBody(b) => {
                        let m = b.message.as_ref()?;
                        (m.data.as_ref()?.r#type() != MessageType::LendStorage).then(|| Msg::new(m))
                    }
                    _ => None,
                }
            }))
            .map(|m| (m.hash(), m))
            .collect();
        let (mut merged, mut pruned, mut gone) = (BTreeMap::new(), BTreeMap::new(), BTreeSet::new());
        for e in &got {
            match e {
                Ev::Merged { new, gone: g } => {
                    if let Some(m) = by_hash.get(new) {
                        merged.entry((m.fid, m.store())).or_insert_with(BTreeSet::new).insert(new.clone());
                    }
                    gone.extend(g.iter().cloned());
                }
                Ev::Proof { new, gone: g } => {
                    if let Some(n) = new {
                        let m = &by_hash[n];
                        merged.entry((m.fid, m.store())).or_insert_with(BTreeSet::new).insert(n.clone());
                        gone.extend(g.iter().cloned());
                    } else if let Some(g) = g {
                        let m = &by_hash[g];
                        pruned.entry((m.fid, m.store())).or_insert_with(Vec::new).push(g.clone());
                    }
                }
                Ev::Pruned(h) => {
                    if let Some(m) = by_hash.get(h) {
                        pruned.entry((m.fid, m.store())).or_insert_with(Vec::new).push(h.clone());
                    }
                }
                Ev::Revoked(h) => {
                    gone.insert(h.clone());
                }
                _ => {}
            }
        }
        let revoked: BTreeSet<Vec<u8>> =
            got.iter().filter_map(|e| if let Ev::Revoked(h) = e { Some(h.clone()) } else { None }).collect();
        for (k, v) in &pruned {
            ensure!(merged.contains_key(k), "block {i}: {k:?} pruned although nothing was merged there: {}", show(&got));
            o.label("pruned");
            let _ = v;
        }
        if !pruned.is_empty() {
            pruned_blocks += 1;
        }
        for (k @ (f, s), m) in &merged {
            let max = limit(&before.net(*f).unwrap(), *s);
            let p = pruned.get(k).cloned().unwrap_or_default();
            if p.iter().any(|h| gone.contains(h)) {
                o.finding("prune-superseded", format!("block {i} {k:?}"));
                return Ok(());
            }
            let had: BTreeSet<Vec<u8>> =
                before.msgs.iter().filter(|x| x.fid == *f && x.store() == *s && x.t != MessageType::LinkCompactState).map(|x| x.hash()).collect();
            let has: Vec<&Msg> = after.msgs.iter().filter(|x| x.fid == *f && x.store() == *s).collect();
            let kept: Vec<&&Msg> = has.iter().filter(|x| had.contains(&x.hash()) && !m.contains(&x.hash())).collect();
            let over = has.len() > max && !kept.is_empty();
            let revoked_here = revoked.iter().filter(|h| by_hash.get(*h).is_some_and(|x| (x.fid, x.store()) == *k)).count();
            let under = !p.is_empty() && has.len() + revoked_here < max;
            if over || under {
                // a type's count that dropped to zero in the block is taken from before it
                let types = |r: &Rows| -> BTreeSet<MessageType> { r.msgs.iter().filter(|x| x.fid == *f && x.store() == *s).map(|x| x.t).collect() };
                if under && !types(&before).is_subset(&types(&after)) {
                    o.finding("prune-count-stale", format!("block {i} {k:?}"));
                    return Ok(());
                }
                return Err(format!(
                    "block {i} {k:?}: {} messages of at most {max} after pruning {}, {} older ones kept: {}",
                    has.len(), p.len(), kept.len(), show(&got)
                ));
            }
            let newest_pruned = p.iter().map(|h| (by_hash[h].ts, h.clone())).max();
            let oldest_kept = kept.iter().map(|x| (x.ts, x.hash())).min();
            if let (Some(a), Some(b)) = (newest_pruned, oldest_kept) {
                ensure!(a < b, "block {i} {k:?}: pruned {a:?} and kept the older {b:?}");
            }
            o.label_if(has.len() == max, "at-limit");
            o.label_if(max == 0, "no-storage-left");
        }
        // nothing disappears otherwise
        let explained: BTreeSet<Vec<u8>> = gone.iter().cloned().chain(pruned.values().flatten().cloned()).collect();
        let left: BTreeSet<Vec<u8>> = after.msgs.iter().map(|m| m.hash()).collect();
        for m in &before.msgs {
            ensure!(left.contains(&m.hash()) || explained.contains(&m.hash()), "block {i}: message {} vanished without an event", hex::encode(m.hash()));
        }
        for f in FIDS {
            let Some(u) = after.net(f) else { continue };
            let l = n.e.get_stores().get_storage_limits(f).map_err(|e| e.to_string())?;
            let own = after.own(f).unwrap_or([0; 3]);
            ensure_eq!(l.units as u64, u.iter().sum::<u64>(), "block {i}: units of {f}");
            for d in &l.unit_details {
                let g = d.unit_type as usize;
                ensure_eq!(
                    [d.unit_size as u64, d.purchased_unit_size as u64, d.lent_unit_size as u64, d.borrowed_unit_size as u64],
                    [u[g], own[g], after.lent(f)[g], after.borrowed(f)[g]],
                    "block {i}: units of {f}, type {g}"
                );
            }
            ensure_eq!(l.unit_details.len(), 3, "unit types");
            for x in &l.limits {
                use proto::StoreType as T;
                let s = match x.store_type() {
                    T::Casts => Store::Casts,
                    T::Links => Store::Links,
                    T::Reactions => Store::Reactions,
                    T::UserData => Store::UserData,
                    T::UsernameProofs => Store::Proofs,
                    T::Verifications => Store::Verifications,
                    T::StorageLends => {
                        let sum: u64 = own.iter().sum();
                        ensure_eq!(x.limit, sum, "block {i}: lends of {f}");
                        let used = after.lends.iter().filter(|l| l.0 == f || l.1 == f).count() as u64;
                        ensure_eq!(x.used, used, "block {i}: lends used of {f}");
                        continue;
                    }
                    T::None => return Err("limit of no store".into()),
                };
                ensure_eq!(x.limit as usize, limit(&u, s), "block {i}: limit of {f} {s:?}");
                ensure_eq!(x.used as usize, after.count(f, s), "block {i}: usage of {f} {s:?}");
            }
            ensure_eq!(l.limits.len(), 7, "limits reported");
        }
    }
    if pruned_blocks > 0 {
        o.nt()
    }
    let _ = store_of;
    Ok(())
}
pub fn c22(p: &mut Prop) {
    p.sub("quota", "something was pruned", 12_000, 200_000, steps, quota);
}

/// C18: a node that replays the decided blocks later, when storage has lapsed that lasted at the time.
fn later(c: &Vec<Step>, o: &mut Obs) -> R {
    let rt = rt();
    let mut a = Node::new(&rt);
    let mut clock = 0i64;
    let mut chunks = vec![];
    let all: Vec<Step> =
        std::iter::once(Step { days: 0, lend: None, ops: setup_ops(7) }).chain(c.iter().cloned()).collect();
    let live = |n: &Node, clock: i64| {
        rocksdb::shim::set_clock(clock);
        let r = rows(&n.dump());
        FIDS.map(|f| r.own(f))
    };
    let mut lapsed = false;
    let mut marks = vec![];
    for (i, s) in all.iter().enumerate() {
        clock += s.days as i64 * 86400;
        rocksdb::shim::set_clock(clock);
        let msgs = mempool(&s.ops, a.last_seq());
        marks.push((clock, live(&a, clock), rows(&a.dump())));
        chunks.push(a.block(&rt, msgs, block_ts(i)).0);
    }
    rocksdb::shim::set_clock(clock);
    for (_, was, rows) in &marks {
        lapsed |= *was != FIDS.map(|f| rows.own(f));
    }
    let mut b = Node::new(&rt);
    for (i, ch) in chunks.iter().enumerate() {
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| b.commit(&rt, ch)));
        if r.is_err() {
            if lapsed {
                o.finding("wall-clock-expiry", format!("block {i} replayed {} days later has another state root", clock / 86400));
                return Ok(());
            }
            return Err(format!("block {i} is refused {} days later although no storage lapsed", clock / 86400));
        }
    }
    if let Some(d) = diff(&a.dump(), &b.dump()) {
        if lapsed {
            o.finding("wall-clock-expiry", format!("replayed {} days later: {d}", clock / 86400));
            return Ok(());
        }
        return Err(format!("replayed later: {d}"));
    }
    if clock > 0 && chunks.len() > 3 {
        o.nt()
    }
    o.label_if(lapsed, "lapsed");
    Ok(())
}
pub fn c18(p: &mut Prop) {
    p.sub("later", "replayed at another time", 2500, 40_000, steps, later);
}
