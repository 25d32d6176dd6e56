//! C13 event ids, C14 storage units and limits, C15 channel authority, C16 winners and ties,
//! C17 what a delegated key may sign.
use crate::frame::*;
use crate::gens::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use snapchain::proto::{self, message_data::Body, on_chain_event, FarcasterNetwork as Net, MessageType as MT, StorageUnitType as UT};
use snapchain::storage::db::RocksDbTransactionBatch;
use snapchain::storage::store::account as a;
use snapchain::storage::store::account::{HubEventIdGenerator as G, StorageSlot};
use snapchain::storage::store::block_engine as be;
use snapchain::storage::store::stores::{Limits, StoreLimits};
use snapchain::storage::util as su;
use std::cmp::Ordering as O;

const ALL_TYPES: [MT; 19] = [
    MT::None, MT::CastAdd, MT::CastRemove, MT::ReactionAdd, MT::ReactionRemove, MT::LinkAdd, MT::LinkRemove,
    MT::VerificationAddEthAddress, MT::VerificationRemove, MT::UserDataAdd, MT::UsernameProof, MT::FrameAction,
    MT::LinkCompactState, MT::LendStorage, MT::KeyAdd, MT::KeyRemove, MT::ChannelUpdate, MT::ChannelMember,
    MT::ChannelPin,
];
fn msg_type(i: usize) -> MT {
    if i < ALL_TYPES.len() { ALL_TYPES[i] } else { MT::ChannelModerate }
}

// ---- C13 -----------------------------------------------------------------------------------------
#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum IdOp {
    Height(u64),
    Event(u8),
    Burst(u16),
}
fn hub_event(kind: u8) -> proto::HubEvent {
    use proto::hub_event::Body as B;
    use proto::HubEventType as T;
    let (t, b) = match kind % 6 {
        0 => (T::BlockConfirmed, B::BlockConfirmedBody(Default::default())),
        1 => (T::MergeMessage, B::MergeMessageBody(Default::default())),
        2 => (T::PruneMessage, B::PruneMessageBody(Default::default())),
        3 => (T::RevokeMessage, B::RevokeMessageBody(Default::default())),
        4 => (T::MergeUsernameProof, B::MergeUsernameProofBody(Default::default())),
        _ => (T::MergeOnChainEvent, B::MergeOnChainEventBody(Default::default())),
    };
    proto::HubEvent { r#type: t as i32, id: 0, body: Some(b), block_number: 0, shard_index: 0, timestamp: 0 }
}
fn ids(ops: &Vec<IdOp>, o: &mut Obs) -> R {
    let h = a::StoreEventHandler::new();
    let (mut height, mut next) = (0u64, 0u64);
    let mut last: Option<u64> = None;
    let mut seen = std::collections::BTreeSet::new();
    let mut confirmed = 0;
    for op in ops {
        let (kind, n) = match op {
            IdOp::Height(x) => {
                if *x <= height && last.is_some() {
                    continue; // heights only grow
                }
                h.set_current_height(*x);
                height = *x;
                next = 0;
                continue;
            }
            IdOp::Event(k) => (*k, 1),
            IdOp::Burst(n) => (1, *n),
        };
        for _ in 0..n {
            let mut txn = RocksDbTransactionBatch::new();
            let mut ev = hub_event(kind);
            let got = h.commit_transaction(&mut txn, &mut ev);
            let block = kind % 6 == 0;
            if height >= 1 << 50 || next >= 1 << 14 {
                ensure!(got.is_err(), "id {:?} handed out beyond the id space (height {height}, next {next})", got);
                ensure!(txn.batch.is_empty(), "a refused event was written");
                o.label("refused");
                continue;
            }
            let id = got.map_err(|e| format!("refused at height {height}, next {next}: {e:?}"))?;
            ensure_eq!(ev.id, id, "the event carries its id");
            let want_seq = if block { 0 } else { next.max(1) };
            ensure_eq!(G::extract_height_and_seq(id), (height, want_seq), "height and sequence in the id");
            ensure_eq!(id, height << 14 | want_seq, "id layout");
            if block {
                confirmed += 1;
                o.label("block confirmed");
                ensure_eq!(id, G::make_event_id_for_block_number(height), "block id");
            } else {
                next = want_seq + 1;
                ensure!(last.map_or(true, |l| id > l), "ids went back: {id} after {last:?}");
                last = Some(id);
                ensure!(seen.insert(id), "id {id} handed out twice");
            }
            // stored under a key which sorts by id
            let key: Vec<u8> = txn.batch.keys().next().cloned().ok_or("no row written")?;
            ensure_eq!(txn.batch.len(), 1, "rows written for one event");
            ensure_eq!(&key[key.len() - 8..], &id.to_be_bytes()[..], "the key ends with the id");
            o.evals += 1;
        }
    }
    if seen.len() > 1 && (confirmed > 0 || seen.len() > 2) {
        o.nt()
    }
    Ok(())
}
fn heights() -> BoxedStrategy<u64> {
    prop_oneof![6 => 0u64..5, 2 => 0u64..100_000_000, 2 => (0u64..4).prop_map(|d| (1 << 50) - 2 + d), 1 => any::<u64>(),
        1 => (0u32..50, 0u64..3).prop_map(|(b, d)| (1u64 << b) + d)].boxed()
}
fn id_gen() -> BoxedStrategy<Vec<IdOp>> {
    pvec(prop_oneof![2 => heights().prop_map(IdOp::Height), 8 => (0u8..6).prop_map(IdOp::Event)], 1..40).boxed()
}
fn burst_gen() -> BoxedStrategy<Vec<IdOp>> {
    (heights(), 16370u16..16390, pvec((0u8..6).prop_map(IdOp::Event), 0..6), heights(), pvec((0u8..6).prop_map(IdOp::Event), 0..4))
        .prop_map(|(h, n, mid, h2, end)| {
            let mut v = vec![IdOp::Height(h), IdOp::Burst(n)];
            v.extend(mid);
            v.push(IdOp::Height(h2));
            v.extend(end);
            v
        })
        .boxed()
}
fn id_pairs(c: &((u64, u64), (u64, u64)), o: &mut Obs) -> R {
    let ((h1, s1), (h2, s2)) = *c;
    let (a, b) = (G::make_event_id(h1, s1), G::make_event_id(h2, s2));
    ensure_eq!(G::extract_height_and_seq(a), (h1, s1), "id splits back");
    ensure_eq!(a.cmp(&b), (h1, s1).cmp(&(h2, s2)), "ids order as (height, sequence)");
    ensure!(G::make_event_id_for_block_number(h1) <= a, "a block's own id comes first");
    if (h1, s1) != (h2, s2) {
        o.nt()
    }
    Ok(())
}
pub fn c13(p: &mut Prop) {
    p.assume("heights are set in increasing order, as consensus does");
    p.sub("history", "two or more events of which at least one block confirmation or three others", 600_000, 3_600_000, id_gen, ids);
    p.sub("full-blocks", "more events in a block than ids exist", 960, 24000, burst_gen, ids);
    p.sub("layout", "two different positions", 3_000_000, 12_000_000, || {
        let one = || (heights().prop_map(|h| h & ((1 << 50) - 1)), prop_oneof![0u64..4, 16380u64..16384, 0u64..16384]);
        (one(), one()).boxed()
    }, id_pairs);
}

// ---- C14 -----------------------------------------------------------------------------------------
const YEAR: u64 = 365 * 24 * 3600;
fn net(i: u8) -> Net {
    [Net::Mainnet, Net::Testnet, Net::Devnet][i as usize % 3]
}
fn cutoffs(n: Net) -> [u64; 3] {
    if n == Net::Mainnet { [1724889600, 1752685200, 1782147600] } else { [1724889600, 1752426000, 1781283600] }
}
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Rent {
    ts: u64,
    units: u32,
    net: u8,
    version: u8,
    body: u8,
}
fn rent_event(r: &Rent) -> proto::OnChainEvent {
    let body = match r.body {
        0 => Some(on_chain_event::Body::SignerEventBody(Default::default())),
        1 => None,
        _ => Some(on_chain_event::Body::StorageRentEventBody(proto::StorageRentEventBody { payer: vec![1; 20], units: r.units, expiry: 0 })),
    };
    proto::OnChainEvent { block_timestamp: r.ts, fid: 1, body, ..Default::default() }
}
fn rent(r: &Rent, o: &mut Obs) -> R {
    let n = net(r.net);
    let v = monotone_version(r.version);
    let got = StorageSlot::from_event(&rent_event(r), n, v);
    if r.body < 2 {
        ensure!(got.is_err(), "a slot from an event that rents nothing");
        return Ok(());
    }
    let s = got.map_err(|e| format!("a rent event was refused: {e:?}"))?;
    let c = cutoffs(n);
    let kind = c.iter().filter(|x| r.ts >= **x).count();
    let ext = (r.version >= 18) as u64;
    let (want, years) = match kind {
        0 => ([r.units, 0, 0], 3 + ext),
        1 => ([0, r.units, 0], 2 + ext),
        2 => ([0, 0, r.units], 1 + ext),
        _ => ([0, 0, r.units], 1),
    };
    o.label(["legacy", "2024", "2025", "new"][kind]);
    o.label_if(ext == 1, "extended");
    ensure_eq!([s.units_legacy, s.units_2024, s.units_2025], want, "units by kind");
    ensure_eq!(s.invalidate_at as u64, r.ts + years * YEAR, "expiry");
    ensure_eq!([s.units_for(UT::UnitTypeLegacy), s.units_for(UT::UnitType2024), s.units_for(UT::UnitType2025)], want, "units_for");
    ensure_eq!([StorageSlot::unit_type_2024_cutoff(n) as u64, StorageSlot::unit_type_2025_cutoff(n) as u64], [c[1], c[2]], "cutoffs");
    o.nt();
    Ok(())
}
fn rent_gen() -> BoxedStrategy<Rent> {
    let ts = prop_oneof![
        4 => (0usize..5, -2i64..=2).prop_map(|(i, d)| (([1724889600i64, 1752685200, 1752426000, 1782147600, 1781283600])[i] + d) as u64),
        3 => 1_600_000_000u64..1_900_000_000,
        1 => 0u64..3_000_000_000,
    ];
    (ts, prop_oneof![0u32..10, any::<u32>()], 0u8..3, 0u8..22, prop_oneof![1 => 0u8..2, 12 => Just(2u8)])
        .prop_map(|(ts, units, net, version, body)| Rent { ts, units, net, version, body })
        .boxed()
}
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Slot {
    u: [u32; 3],
    /// seconds from now at which it lapses
    left: i32,
}
fn slot_gen() -> BoxedStrategy<Slot> {
    ([0u32..6, 0u32..6, 0u32..2000], prop_oneof![2 => 3600i32..500_000_000, 1 => -500_000_000i32..-3600, 1 => Just(i32::MAX)])
        .prop_map(|(u, left)| Slot { u, left })
        .boxed()
}
fn now() -> u32 {
    std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_secs() as u32
}
fn real(s: &Slot, t: u32) -> StorageSlot {
    let inv = if s.left == i32::MAX { u32::MAX } else { (t as i64 + s.left as i64) as u32 };
    StorageSlot::new(s.u[0], s.u[1], s.u[2], inv)
}
fn units(s: &StorageSlot) -> [u32; 3] {
    [s.units_legacy, s.units_2024, s.units_2025]
}
fn slots(c: &(Vec<Slot>, u8, u32), o: &mut Obs) -> R {
    let t = now();
    let live: Vec<&Slot> = c.0.iter().filter(|s| s.left > 0).collect();
    let want: [u32; 3] = [0, 1, 2].map(|i| live.iter().map(|s| s.u[i]).sum());
    // merging in any order gives the units of the live ones, lapsing when the first of them does
    for rev in [false, true] {
        let mut acc = StorageSlot::new(0, 0, 0, 0);
        ensure!(!acc.is_active(), "an empty slot is active");
        let mut order: Vec<&Slot> = c.0.iter().collect();
        if rev {
            order.reverse()
        }
        for s in order {
            let x = real(s, t);
            ensure_eq!(x.is_active(), s.left > 0, "active");
            ensure_eq!(acc.merge(&x), s.left > 0, "merge reports whether it counted");
        }
        ensure_eq!(units(&acc), want, "merged units (reversed {rev})");
        if !live.is_empty() {
            let min = live.iter().map(|s| real(s, t).invalidate_at).min().unwrap();
            ensure_eq!(acc.invalidate_at, min, "merged expiry");
            ensure!(acc.is_active(), "a merge of live slots is live");
        }
        // lending out what is there takes exactly that
        let kind = [UT::UnitTypeLegacy, UT::UnitType2024, UT::UnitType2025][c.1 as usize % 3];
        let have = acc.units_for(kind);
        let lend = if have == 0 { 0 } else { c.2 % (have + 1) };
        let l = StorageSlot::from_storage_lend(&proto::LendStorageBody { to_fid: 2, num_units: lend as u64, unit_type: kind as i32 });
        ensure_eq!(l.units_for(kind), lend, "lent units");
        ensure_eq!(units(&l).iter().sum::<u32>(), lend, "lent units of other kinds");
        ensure_eq!(l.invalidate_at, u32::MAX, "a lend does not lapse by itself");
        let before = units(&acc);
        acc.sub(&l);
        let mut w = before;
        w[kind as usize] -= 0;
        let i = match kind { UT::UnitTypeLegacy => 0, UT::UnitType2024 => 1, UT::UnitType2025 => 2 };
        w[i] -= lend;
        ensure_eq!(units(&acc), w, "units after lending");
        o.label_if(lend > 0, "lent");
    }
    // the same starting from a slot that holds units already: once lapsed, those never count again
    if let Some((first, rest)) = c.0.split_first() {
        let mut acc = real(first, t);
        for s in rest {
            acc.merge(&real(s, t));
        }
        if live.is_empty() {
            ensure!(!acc.is_active(), "a merge of lapsed slots is live");
        } else {
            ensure_eq!(units(&acc), want, "units merged into an existing slot");
            let min = live.iter().map(|s| real(s, t).invalidate_at).min().unwrap();
            ensure_eq!(acc.invalidate_at, min, "expiry of an existing slot after merging");
            o.label_if(first.left <= 0 && first.u != [0, 0, 0], "into-lapsed");
        }
    }
    o.label_if(live.len() < c.0.len(), "lapsed");
    if live.len() > 1 {
        o.nt()
    }
    Ok(())
}
/// rows: casts links reactions user_data names verifications lends; columns: legacy 2024 2025
const LIMITS: [[u64; 3]; 7] = [[5000, 2000, 100], [2500, 1000, 200], [2500, 1000, 200], [50, 50, 25], [5, 5, 2], [25, 25, 5], [1, 1, 1]];
fn limits(c: &[u32; 3], o: &mut Obs) -> R {
    use proto::StoreType as S;
    let l = StoreLimits::default();
    let slot = StorageSlot::new(c[0], c[1], c[2], u32::MAX);
    for (i, st) in [S::Casts, S::Links, S::Reactions, S::UserData, S::UsernameProofs, S::Verifications, S::StorageLends].into_iter().enumerate() {
        let want: u64 = (0..3).map(|k| LIMITS[i][k] * c[k] as u64).sum();
        ensure_eq!(l.max_messages(&slot, st) as u64, want, "limit of {st:?} for {c:?}");
        let types: Vec<MT> = Limits::store_type_to_message_types(st);
        for t in (0..20).map(msg_type) {
            ensure_eq!(types.contains(&t), Limits::message_type_to_store_type(t) == st, "{t:?} counted in {st:?}");
        }
        for (k, ut) in [UT::UnitTypeLegacy, UT::UnitType2024, UT::UnitType2025].into_iter().enumerate() {
            ensure_eq!(l.for_type(ut).for_store_type(st) as u64, LIMITS[i][k], "per-unit limit");
        }
    }
    ensure_eq!(l.max_messages(&slot, S::None), 0, "no store, no quota");
    let stores = [0u8, 1, 1, 3, 3, 2, 2, 6, 6, 4, 5, 0, 2, 7, 0, 0, 0, 0, 0, 0];
    for i in 0..20 {
        let want = [S::None, S::Casts, S::Links, S::Reactions, S::UserData, S::UsernameProofs, S::Verifications, S::StorageLends][stores[i] as usize];
        ensure_eq!(Limits::message_type_to_store_type(msg_type(i)), want, "store of {:?}", msg_type(i));
    }
    // shard-0 verification rows
    let n = c[0];
    let cap = if n == 0 { 0 } else { n.max(256) };
    ensure_eq!(be::verification_tombstone_cap(n), cap, "tombstone cap");
    ensure_eq!(be::verification_row_cap(n), n.saturating_add(cap), "row cap");
    if c.iter().filter(|x| **x > 0).count() > 1 {
        o.nt()
    }
    Ok(())
}
pub fn c14(p: &mut Prop) {
    p.assume("rent timestamps fit 32 bits with the validity added; slots lapse at least an hour from the wall clock");
    p.sub("rent", "a rent event", 3_000_000, 12_000_000, rent_gen, rent);
    p.sub("slots", "two or more live slots", 2_000_000, 8_000_000, || (pvec(slot_gen(), 0..7), 0u8..3, any::<u32>()).boxed(), slots);
    p.sub("limits", "units of two kinds", 1_000_000, 4_000_000, || prop_oneof![[0u32..5, 0u32..5, 0u32..5], [0u32..100_000, 0u32..100_000, 0u32..100_000]].boxed(), limits);
}

// ---- C15 -----------------------------------------------------------------------------------------
fn authority(c: &(u8, u8, u8, bool, u8, bool), o: &mut Obs) -> R {
    use be::ChannelAuthorRole as Role;
    use be::ChannelAuthorityDecision as D;
    use a::ChannelMemberState as S;
    use proto::ChannelMemberAction as A;
    use proto::MembershipMode as M;
    let action = [A::None, A::AddMember, A::RemoveMember, A::AddModerator, A::RemoveModerator, A::Ban, A::Unban][c.0 as usize % 7];
    let role = [Role::Owner, Role::Moderator, Role::Member, Role::Other][c.1 as usize % 4];
    let target = [None, Some(S::Member), Some(S::Moderator), Some(S::Removed), Some(S::Banned)][c.2 as usize % 5];
    let mode = [M::None, M::Open, M::Approval][c.4 as usize % 3];
    let got = be::channel_member_authority(action, role, target, be::IsSelf(c.3), mode, be::TargetIsOwner(c.5));
    let (owner, staff) = (role == Role::Owner, matches!(role, Role::Owner | Role::Moderator));
    // may this transition happen at all, and who may make it
    let fresh = matches!(target, None | Some(S::Removed));
    let (possible, allowed) = match action {
        A::AddMember => (fresh, staff || (c.3 && mode == M::Open)),
        A::RemoveMember => (match target { Some(S::Member) => staff || c.3, Some(S::Moderator) => c.3, _ => false }, true),
        A::AddModerator => (fresh || target == Some(S::Member), owner),
        A::RemoveModerator => (target == Some(S::Moderator), owner),
        A::Ban => (target != Some(S::Banned), if target == Some(S::Moderator) { owner } else { staff }),
        A::Unban => (target == Some(S::Banned), staff),
        A::None => (false, false),
    };
    let want = if action == A::Ban && c.5 {
        D::OwnerUnbannable
    } else if action == A::None {
        D::InvalidTargetState
    } else if target == Some(S::Banned) && action != A::Unban {
        D::Banned
    } else if !possible {
        D::InvalidTargetState
    } else if !allowed {
        D::Unauthorized
    } else {
        D::Allowed
    };
    ensure_eq!(got, want, "{action:?} by {role:?} on {target:?} self={} mode={mode:?} target-owner={}", c.3, c.5);
    o.label_if(got == D::Allowed, "allowed");
    o.nt();
    Ok(())
}
fn scheme_msg(ty: i32, scheme: i32, body: Option<Body>) -> proto::Message {
    proto::Message {
        data: Some(proto::MessageData { r#type: ty, fid: 3, timestamp: 5, network: 1, body }),
        signature_scheme: scheme,
        ..Default::default()
    }
}
fn folds(c: &(Option<i32>, Option<i32>, i32, i32, u8, u8, i32), o: &mut Obs) -> R {
    use proto::{CastingMode as CM, MembershipMode as MM};
    let (cast, memb, mact, modact, body_kind, ty, scheme) = *c;
    let got = a::fold_channel_modes(&proto::ChannelUpdateBody { casting_mode: cast, membership_mode: memb, ..Default::default() });
    let wc = match cast { None | Some(0) | Some(2) => Some(CM::MembersOnly), Some(1) => Some(CM::Everyone), Some(3) => Some(CM::Recommended), _ => None };
    let wm = match memb { None | Some(0) | Some(2) => Some(MM::Approval), Some(1) => Some(MM::Open), _ => None };
    match (wc, wm) {
        (Some(x), Some(y)) => ensure_eq!(got.map_err(|e| e.to_string())?, (x, y), "folded modes of {cast:?} {memb:?}"),
        _ => ensure!(got.is_err(), "unknown modes {cast:?} {memb:?} gave {got:?}"),
    }
    let bodies = |k: u8| match k {
        0 => Some(Body::ChannelUpdateBody(proto::ChannelUpdateBody { channel_id: vec![4; 32], ..Default::default() })),
        1 => Some(Body::ChannelMemberBody(proto::ChannelMemberBody { channel_id: vec![5; 32], fid: 9, action: mact, ..Default::default() })),
        2 => Some(Body::ChannelPinBody(proto::ChannelPinBody { channel_id: vec![6; 32], ..Default::default() })),
        3 => Some(Body::ChannelModerateBody(proto::ChannelModerateBody { channel_id: vec![7; 32], action: modact, ..Default::default() })),
        4 => Some(Body::CastRemoveBody(Default::default())),
        _ => None,
    };
    let m = scheme_msg(msg_type(ty as usize) as i32, scheme, bodies(body_kind));
    let got = a::member_state_for_message(&m);
    let want = match (body_kind, mact) {
        (1, 1 | 4) => Some(a::ChannelMemberState::Member),
        (1, 3) => Some(a::ChannelMemberState::Moderator),
        (1, 2 | 6) => Some(a::ChannelMemberState::Removed),
        (1, 5) => Some(a::ChannelMemberState::Banned),
        _ => None,
    };
    ensure_eq!(got.ok(), want, "member state after action {mact}");
    let got = a::moderation_state_for_message(&m);
    let want = match (body_kind, modact) {
        (3, 1) => Some(a::ChannelModerationState::Hidden),
        (3, 2) => Some(a::ChannelModerationState::Visible),
        _ => None,
    };
    ensure_eq!(got.ok(), want, "moderation state after action {modact}");
    for (k, want_ty) in [(0u8, MT::ChannelUpdate), (1, MT::ChannelMember), (2, MT::ChannelPin), (3, MT::ChannelModerate)] {
        let want = scheme == 1 && m.data.as_ref().unwrap().r#type == want_ty as i32 && body_kind == k;
        ensure_eq!(a::is_channel_message(&m, want_ty), want, "recognised as {want_ty:?}");
        if want {
            o.nt()
        }
    }
    ensure!(!a::is_channel_message(&m, MT::CastAdd), "a channel message of a non-channel type");
    ensure!(!a::is_channel_message(&proto::Message { signature_scheme: 1, ..Default::default() }, MT::ChannelPin), "no data");
    o.label_if(wc.is_none() || wm.is_none(), "bad mode");
    if cast.is_some() || memb.is_some() {
        o.nt()
    }
    Ok(())
}
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Reg {
    key: String,
    label: u8,
    flip: usize,
}
fn labels(c: &Reg, o: &mut Obs) -> R {
    let h = keccak(c.key.as_bytes());
    let label: Vec<u8> = match c.label {
        0 => h[..31].to_vec(),
        1 => [&h[..], &[0]].concat(),
        2 => vec![],
        3 => { let mut x = h; x[c.flip % 32] ^= 1 << (c.flip / 32 % 8); x.to_vec() }
        4 => keccak(format!("{} ", c.key).as_bytes()).to_vec(),
        _ => h.to_vec(),
    };
    ensure_eq!(a::validate_channel_label(&label), label.len() == 32, "label length");
    ensure_eq!(a::validate_channel_key_label(&c.key, &label), label == h, "label is the hash of the key");
    o.nt();
    Ok(())
}
fn positions(c: &([u8; 3], [u8; 3], bool), o: &mut Obs) -> R {
    let pos = |x: &[u8; 3]| if c.2 { (x[0] as u32, x[1] as u32, x[2] as u32) } else { (x[0] as u32 % 3, x[1] as u32 % 3, x[2] as u32 % 3) };
    let (p, q) = (pos(&c.0), pos(&c.1));
    let ev = |p: (u32, u32, u32)| proto::OnChainEvent { block_number: p.0, tx_index: p.1, log_index: p.2, chain_id: 10, ..Default::default() };
    let body = proto::ChannelRegisterBody { channel_key: "k".into(), owner_address: vec![7; 20], expiry: 99, ..Default::default() };
    let mut owner = a::channel_owner_from_event(&ev(p), &body);
    ensure_eq!((owner.block_number, owner.tx_index, owner.log_index), p, "position recorded");
    ensure_eq!((owner.channel_key.as_str(), owner.owner_address.len(), owner.expiry), ("k", 20, 99), "owner recorded");
    ensure_eq!(a::incoming_channel_event_is_older(&owner, &ev(q)), q < p, "older");
    a::set_channel_owner_event_position(&mut owner, &ev(q));
    ensure_eq!((owner.block_number, owner.tx_index, owner.log_index), q, "position replaced");
    ensure!(!a::incoming_channel_event_is_older(&owner, &ev(q)), "an event is not older than itself");
    if p != q {
        o.nt()
    }
    Ok(())
}
pub fn c15(p: &mut Prop) {
    p.sub("authority", "every case; the table has 7x4x5x2x3x2 entries, covered many times over", 240000, 2400000,
        || (0u8..7, 0u8..4, 0u8..5, any::<bool>(), 0u8..3, any::<bool>()).boxed(), authority);
    p.sub("folds", "a recognised channel message or a given mode", 2_000_000, 8_000_000, || {
        let mode = || prop_oneof![3 => option::of(0i32..5), 1 => option::of(any::<i32>())];
        (mode(), mode(), prop_oneof![5 => 0i32..8, 1 => any::<i32>()], prop_oneof![5 => 0i32..4, 1 => any::<i32>()], 0u8..6,
            prop_oneof![1 => 0u8..16, 2 => 16u8..20], prop_oneof![4 => Just(1i32), 1 => -1i32..4]).boxed()
    }, folds);
    p.sub("labels", "a channel key and a label", 600_000, 2_400_000,
        || ("[a-z0-9-]{0,20}|\\PC{0,8}", 0u8..8, any::<usize>()).prop_map(|(key, label, flip)| Reg { key, label, flip }).boxed(), labels);
    p.sub("positions", "two different chain positions", 1_000_000, 4_000_000, || (any::<[u8; 3]>(), any::<[u8; 3]>(), any::<bool>()).boxed(), positions);
}

// ---- C16 -----------------------------------------------------------------------------------------
fn sgn(x: i8) -> O {
    x.cmp(&0)
}
fn total<T, F: Fn(&T, &T) -> O>(v: &[T], f: F, what: &str) -> R {
    for (i, x) in v.iter().enumerate() {
        ensure_eq!(f(x, x), O::Equal, "{what}: {i} against itself");
        for (j, y) in v.iter().enumerate() {
            ensure_eq!(f(x, y), f(y, x).reverse(), "{what}: {i},{j} one way and the other");
            for (k, z) in v.iter().enumerate() {
                if f(x, y) != O::Greater && f(y, z) != O::Greater {
                    ensure!(f(x, z) != O::Greater, "{what}: {i}<={j}<={k} but not {i}<={k}");
                }
            }
        }
    }
    Ok(())
}
fn bytes_small() -> BoxedStrategy<Vec<u8>> {
    prop_oneof![pvec(0u8..3, 0..5), pvec(prop_oneof![Just(0u8), Just(127), Just(128), Just(255), any::<u8>()], 0..6)].boxed()
}
fn bytes(c: &Vec<Vec<u8>>, o: &mut Obs) -> R {
    for x in c {
        for y in c {
            ensure_eq!(sgn(su::bytes_compare(x, y)), x.cmp(y), "{x:?} against {y:?}");
        }
        // as numbers
        let mut up = x.clone();
        up.insert(0, 0);
        for i in (0..up.len()).rev() {
            if up[i] == 255 { up[i] = 0 } else { up[i] += 1; break }
        }
        if up[0] == 0 { up.remove(0); }
        ensure_eq!(su::increment_vec_u8(x), up, "{x:?} plus one");
        if !x.is_empty() && x.iter().any(|b| *b != 0) {
            ensure_eq!(su::increment_vec_u8(&su::decrement_vec_u8(x)), *x, "{x:?} minus one plus one");
        }
        if x.iter().any(|b| *b != 255) {
            // what the increment of a prefix is for: it bounds everything that starts with the prefix
            let up = su::increment_vec_u8(x);
            let ext = [&x[..], &[255, 255, 255]].concat();
            ensure!(ext < up && *x < up, "{x:?}: {ext:?} not below {up:?}");
        }
        let fits: Result<[u8; 24], _> = su::vec_to_u8_24(&Some(x.repeat(24 / x.len().max(1))));
        ensure_eq!(fits.is_ok(), !x.is_empty() && 24 % x.len() == 0, "24 bytes or refused");
        ensure_eq!(su::blake3_20(x), h20(x), "hash");
    }
    total(c, |x, y| sgn(su::bytes_compare(x, y)), "bytes_compare")?;
    if c.len() > 1 {
        o.nt()
    }
    Ok(())
}
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Cand {
    ts: u32,
    hash: [u8; 20],
    fid: u64,
    add: bool,
}
fn cand_gen() -> BoxedStrategy<Cand> {
    let hash = prop_oneof![2 => (0u8..3).prop_map(|b| { let mut h = [7u8; 20]; h[19] = b; h }), 1 => (0u8..3).prop_map(|b| { let mut h = [7u8; 20]; h[0] = b; h }), 1 => any::<[u8; 20]>()];
    (prop_oneof![3 => 0u32..4, 1 => any::<u32>(), 1 => (0u32..4).prop_map(|b| 1 << (8 * b))], hash, 1u64..5, any::<bool>()).prop_map(|(ts, hash, fid, add)| Cand { ts, hash, fid, add }).boxed()
}
fn ts_hash(c: &Cand) -> [u8; 24] {
    let mut t = [0u8; 24];
    t[..4].copy_from_slice(&c.ts.to_be_bytes());
    t[4..].copy_from_slice(&c.hash);
    t
}
fn winners(c: &Vec<Cand>, o: &mut Obs) -> R {
    use a::StoreDef;
    for x in c {
        let got = a::make_ts_hash(x.ts, &x.hash.to_vec()).map_err(|e| e.to_string())?;
        ensure_eq!(got, ts_hash(x), "ts_hash");
    }
    // verified address: the latest claim, ties to the lower fid, whatever the order they are listed in
    let mut list: Vec<(u64, [u8; 24])> = c.iter().map(|x| (x.fid, ts_hash(x))).collect();
    let want = list.iter().map(|(f, t)| (*t, u64::MAX - f)).max().map(|(_, f)| u64::MAX - f);
    for _ in 0..list.len().max(1) {
        ensure_eq!(a::select_verification_address_winner(list.clone()), want, "address winner of {list:?}");
        if !list.is_empty() {
            list.rotate_left(1)
        }
    }
    list.reverse();
    ensure_eq!(a::select_verification_address_winner(list), want, "address winner, reversed");
    // conflicting messages of one record
    let model = |x: &Cand, y: &Cand| x.ts.cmp(&y.ts).then(y.add.cmp(&x.add)).then(x.hash.cmp(&y.hash));
    let cast_model = |x: &Cand, y: &Cand| y.add.cmp(&x.add).then(x.ts.cmp(&y.ts)).then(x.hash.cmp(&y.hash));
    let link = a::LinkStore { prune_size_limit: 10 };
    let cast = a::CastStoreDef { prune_size_limit: 10 };
    let lt = |x: &Cand| if x.add { MT::LinkAdd as u8 } else { MT::LinkRemove as u8 };
    let ct = |x: &Cand| if x.add { MT::CastAdd as u8 } else { MT::CastRemove as u8 };
    let lc = |x: &Cand, y: &Cand| sgn(link.message_compare(lt(x), &ts_hash(x).to_vec(), lt(y), &ts_hash(y).to_vec()));
    let cc = |x: &Cand, y: &Cand| sgn(cast.message_compare(ct(x), &ts_hash(x).to_vec(), ct(y), &ts_hash(y).to_vec()));
    for x in c {
        for y in c {
            ensure_eq!(lc(x, y), model(x, y), "which link wins, {x:?} or {y:?}");
            ensure_eq!(cc(x, y), cast_model(x, y), "which cast message wins, {x:?} or {y:?}");
        }
    }
    total(c, lc, "link order")?;
    total(c, cc, "cast order")?;
    // names: later proof wins, then the larger signature
    let proofs: Vec<proto::UserNameProof> = c.iter().map(|x| proto::UserNameProof { timestamp: x.ts as u64, signature: x.hash[18..].to_vec(), fid: x.fid, ..Default::default() }).collect();
    let pc = |x: &proto::UserNameProof, y: &proto::UserNameProof| sgn(a::UserDataStore::username_proof_compare(x, y));
    for x in &proofs {
        for y in &proofs {
            ensure_eq!(pc(x, y), x.timestamp.cmp(&y.timestamp).then(x.signature.cmp(&y.signature)), "which proof wins");
        }
    }
    // presence updates waiting in the mempool
    let msgs: Vec<proto::Message> = c.iter().map(|x| proto::Message { data: Some(proto::MessageData { timestamp: x.ts, fid: x.fid, ..Default::default() }), hash: x.hash.to_vec(), ..Default::default() }).collect();
    for (i, x) in msgs.iter().enumerate() {
        for (j, y) in msgs.iter().enumerate() {
            ensure_eq!(snapchain::mempool::mempool::live_at_lww_compare(x, y).map(sgn), Some(ts_hash(&c[i]).cmp(&ts_hash(&c[j]))), "which presence update wins");
        }
    }
    o.label_if(c.iter().enumerate().any(|(i, x)| c[..i].iter().any(|y| y.ts == x.ts)), "equal times");
    if c.len() > 1 {
        o.nt()
    }
    Ok(())
}
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Sys {
    onchain: bool,
    block: u8,
    log: u8,
}
fn replay_order(c: &(Vec<Sys>, u8), o: &mut Obs) -> R {
    let v = monotone_version(c.1);
    let msgs: Vec<proto::ValidatorMessage> = c.0.iter().enumerate().map(|(i, s)| proto::ValidatorMessage {
        on_chain_event: s.onchain.then(|| proto::OnChainEvent { block_number: s.block as u32, log_index: s.log as u32, fid: i as u64, ..Default::default() }),
        block_event: (!s.onchain).then(|| proto::BlockEvent { data: Some(proto::BlockEventData { seqnum: i as u64, ..Default::default() }), ..Default::default() }),
        fname_transfer: None,
    }).collect();
    let got = be::block_engine_system_messages_for_replay(&msgs, v).into_owned();
    let mut want: Vec<usize> = (0..msgs.len()).collect();
    let sorted = v.is_enabled(snapchain::version::version::ProtocolFeature::SortedBlockEngineEvents);
    if sorted {
        want.sort_by_key(|i| { let s = &c.0[*i]; if s.onchain { (0, s.block, s.log) } else { (1, 0, 0) } });
    }
    let want: Vec<_> = want.into_iter().map(|i| msgs[i].clone()).collect();
    ensure_eq!(got, want, "replay order at {v:?}");
    o.label_if(sorted, "sorted");
    if msgs.len() > 1 && sorted && got != msgs {
        o.nt()
    }
    Ok(())
}
pub fn c16(p: &mut Prop) {
    p.sub("bytes", "two or more strings", 1_500_000, 6_000_000, || pvec(bytes_small(), 0..5).boxed(), bytes);
    p.sub("winners", "two or more candidates", 1_000_000, 4_000_000, || pvec(cand_gen(), 0..6).boxed(), winners);
    p.sub("replay-order", "an order that changes", 1_000_000, 4_000_000, || {
        (pvec((prop_oneof![3 => Just(true), 1 => Just(false)], 0u8..4, 0u8..4).prop_map(|(onchain, block, log)| Sys { onchain, block, log }), 0..12), prop_oneof![0u8..22, 18u8..22]).boxed()
    }, replay_order);
}

// ---- C17 -----------------------------------------------------------------------------------------
fn scopes(c: &(Vec<i32>, u32, u8), o: &mut Obs) -> R {
    let (sc, ttl, kind) = c;
    let mask = a::compute_scopes_mask(sc);
    let key_add = Body::KeyAddBody(proto::KeyAddBody { scopes: sc.clone(), ttl: *ttl, ..Default::default() });
    let msg = match kind {
        0 => None,
        1 => Some(scheme_msg(MT::KeyAdd as i32, 1, None)),
        2 => Some(scheme_msg(MT::KeyRemove as i32, 1, Some(Body::KeyRemoveBody(Default::default())))),
        3 => Some(proto::Message::default()),
        _ => Some(scheme_msg(MT::KeyAdd as i32, 1, Some(key_add))),
    };
    let got = a::extract_scope_and_ttl(&msg);
    ensure_eq!(got, (*kind > 3).then_some((mask, *ttl)), "scope and time to live of the key");
    let key = a::ActiveKey::Gasless { scopes_mask: mask, ttl_seconds: *ttl };
    for i in 0..20 {
        let t = msg_type(i);
        ensure_eq!(key.admits(t), sc.contains(&(t as i32)), "{t:?} under scopes {sc:?}");
        ensure!(a::ActiveKey::OnChain.admits(t), "an on-chain key signs anything");
        ensure_eq!(a::message_type_bit(t).count_ones(), 1, "one bit per type");
    }
    ensure!(!a::ActiveKey::Gasless { scopes_mask: 0, ttl_seconds: *ttl }.admits(MT::CastAdd), "no scope, no authority");
    o.label_if(sc.iter().any(|s| !(0..64).contains(s)), "scope out of range");
    if !sc.is_empty() {
        o.nt()
    }
    Ok(())
}
pub fn c17(p: &mut Prop) {
    p.sub("scopes", "some scope", 3_000_000, 12_000_000, || {
        (pvec(prop_oneof![8 => 0i32..22, 1 => 60i32..70, 1 => Just(-1), 1 => any::<i32>(), 1 => (0i32..22).prop_map(|x| x + 64), 1 => (0i32..22).prop_map(|x| x + 32)], 0..8), any::<u32>(), 0u8..12).boxed()
    }, scopes);
}
