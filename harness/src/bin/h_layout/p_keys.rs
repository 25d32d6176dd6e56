//! C10: every key written to disk has the fixed published layout.
use crate::frame::{Obs, Prop, R};
use crate::gens::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use snapchain::proto::{self, MessageType as MT};
use snapchain::storage::constants::{RootPrefix, UserPostfix};
use snapchain::storage::store::account as a;
use snapchain::storage::store::account::StoreDef;

#[derive(Debug, Clone, Serialize, Deserialize, PartialEq)]
pub enum Tgt {
    Url(Vec<u8>),
    Cast(u64, Vec<u8>),
}
#[derive(Debug, Clone, Serialize, Deserialize, PartialEq)]
pub enum K {
    TsHash(u32, Vec<u8>),
    Fid(u64),
    User(u64),
    Primary(u64, u8, Option<(u32, u8)>),
    CastId(u64, Vec<u8>),
    CastAdds(u64, Vec<u8>, bool),
    CastParent(Tgt, u64, Option<(u32, u8)>),
    CastMention(u64, u64, Option<(u32, u8)>),
    Link(u64, String, Option<u64>, bool),
    LinkCompact(u64, String),
    LinkTarget(u64, u64, Option<(u32, u8)>),
    Reaction(u64, i32, Option<Tgt>, bool),
    ReactionTarget(Tgt, u64, Option<(u32, u8)>),
    FollowByFid(u64, u8),
    FollowByChannel(u8, u64),
    Verification(u64, Vec<u8>, bool),
    VerificationByAddress(Vec<u8>, u64),
    UserData(u64, i32),
    Fname(Vec<u8>),
    FnameByFid(u64),
    ProofByName(Vec<u8>),
    ProofByFid(u64, Vec<u8>),
    OnChain(u8, u64, u32, u32),
    IdByFid(u64),
    Signer(u64, Vec<u8>),
    ChannelByKey(String),
    ChannelByLabel(Vec<u8>),
    ChannelByOwner(Vec<u8>, String),
    GaslessByFid(u64, Vec<u8>),
    GaslessByKey(Vec<u8>),
    GaslessCount(u64),
    UserNonce(u64),
    AppNonce(u64),
    LastUsed(u64, Vec<u8>),
    Lend(u64, u64),
    LendByBorrower(u64, u64),
    Event(u64),
    BlockEvent(u64),
    Block(u64),
    Shard(u64),
    BlockTime(u32, u64),
    ShardTime(u32, u64),
    Slot(u8, Vec<u8>, u64, Vec<u8>),
    AuthorSlot(u8, u64, Vec<u8>, u64, Vec<u8>),
    MemberByFid(u64, Vec<u8>),
    Proposal(u32, u64, i64),
    WorkUnit(u8, u8),
    AccountRoot(u32, u8, u64),
}

fn ts(t: &Option<(u32, u8)>) -> Option<[u8; 24]> {
    t.map(|(t, h)| {
        let mut o = [0u8; 24];
        o[..4].copy_from_slice(&t.to_be_bytes());
        o[4..].copy_from_slice(&h20(&[h]));
        o
    })
}
fn cid(b: u8) -> [u8; 32] {
    fill(32, b).try_into().unwrap()
}
fn f4(f: u64) -> [u8; 4] {
    ((f & 0xffff_ffff) as u32).to_be_bytes()
}
fn cat(parts: &[&[u8]]) -> Vec<u8> {
    parts.concat()
}
fn tgt(t: &Tgt) -> Vec<u8> {
    match t {
        Tgt::Url(u) => u.clone(),
        Tgt::Cast(f, h) => cat(&[&f4(*f), h]),
    }
}
fn us(fid: u64, post: u8) -> Vec<u8> {
    cat(&[&[3], &f4(fid), &[post]])
}
/// The published layout.
fn model(k: &K) -> Option<Vec<u8>> {
    Some(match k {
        K::TsHash(t, h) => {
            if h.len() != 20 {
                return None;
            }
            cat(&[&t.to_be_bytes(), h])
        }
        K::Fid(f) => f4(*f).to_vec(),
        K::User(f) => cat(&[&[3], &f4(*f)]),
        K::Primary(f, s, t) => cat(&[&us(*f, *s), ts(t).as_ref().map(|x| &x[..]).unwrap_or(&[])]),
        K::CastId(f, h) => cat(&[&f4(*f), h]),
        K::CastAdds(f, h, rm) => cat(&[&us(*f, if *rm { 88 } else { 87 }), if h.len() == 20 { h } else { &[] }]),
        K::CastParent(t, f, x) => target_index(4, &tgt(t), *f, x),
        K::CastMention(m, f, x) => target_index(5, &f4(*m), *f, x),
        K::Link(f, ty, to, rm) => {
            if (to.is_some() && ty.is_empty()) || ty.len() > 8 {
                return None;
            }
            let mut t = ty.as_bytes().to_vec();
            while t.len() < 8 {
                t.push(0)
            }
            cat(&[&us(*f, if *rm { 90 } else { 89 }), &t, to.map(f4).as_ref().map(|x| &x[..]).unwrap_or(&[])])
        }
        K::LinkCompact(f, ty) => {
            let mut t = ty.as_bytes().to_vec();
            t.truncate(8);
            while t.len() < 8 {
                t.push(0)
            }
            cat(&[&us(*f, 100), &t])
        }
        K::LinkTarget(to, f, x) => {
            if (*f != 0) != x.is_some() {
                return None;
            }
            target_index(6, &f4(*to), *f, x)
        }
        K::Reaction(f, ty, t, rm) => {
            if t.is_some() && *ty == 0 {
                return None;
            }
            let mut o = us(*f, if *rm { 92 } else { 91 });
            if *ty > 0 {
                o.push(*ty as u8)
            }
            if let Some(t) = t {
                o.extend(tgt(t))
            }
            o
        }
        K::ReactionTarget(t, f, x) => target_index(7, &tgt(t), *f, x),
        K::FollowByFid(f, c) => cat(&[&[25, 1], &f4(*f), &cid(*c)]),
        K::FollowByChannel(c, f) => cat(&[&[25, 2], &cid(*c), &f4(*f)]),
        K::Verification(f, ad, rm) => cat(&[&us(*f, if *rm { 94 } else { 93 }), ad]),
        K::VerificationByAddress(ad, f) => cat(&[&[14], ad, &f4(*f)]),
        K::UserData(f, t) => {
            let mut o = us(*f, 97);
            if *t > 0 {
                o.push(*t as u8)
            }
            o
        }
        K::Fname(n) => cat(&[&[11], n]),
        K::FnameByFid(f) => cat(&[&[15], &f4(*f)]),
        K::ProofByName(n) => cat(&[&[16], n]),
        K::ProofByFid(f, n) => cat(&[&us(*f, 99), n]),
        K::OnChain(t, f, b, l) => cat(&[&[12, 1, oct(*t) as u8], &f4(*f), &b.to_be_bytes(), &l.to_be_bytes()]),
        K::IdByFid(f) => cat(&[&[12, 52], &f4(*f)]),
        K::Signer(f, k) => cat(&[&[12, 51], &f4(*f), k]),
        K::ChannelByKey(k) => cat(&[&[12, 55], k.as_bytes()]),
        K::ChannelByLabel(k) => cat(&[&[12, 56], k]),
        K::ChannelByOwner(o, k) => cat(&[&[12, 57], o, k.as_bytes()]),
        K::GaslessByFid(f, k) => {
            if k.len() != 32 {
                return None;
            }
            cat(&[&[23, 105], &f4(*f), k])
        }
        K::GaslessByKey(k) => {
            if k.len() != 32 {
                return None;
            }
            cat(&[&[23, 106], k])
        }
        K::GaslessCount(f) => cat(&[&[23, 107], &f4(*f)]),
        K::UserNonce(f) => cat(&[&[23, 102], &f4(*f)]),
        K::AppNonce(f) => cat(&[&[23, 103], &f4(*f)]),
        K::LastUsed(f, k) => {
            if k.len() != 32 {
                return None;
            }
            cat(&[&[23, 104], &f4(*f), k])
        }
        K::Lend(f, t) => cat(&[&us(*f, 101), &f4(*t)]),
        K::LendByBorrower(f, t) => cat(&[&[22], &f4(*t), &f4(*f)]),
        K::Event(i) => cat(&[&[9], &i.to_be_bytes()]),
        K::BlockEvent(i) => cat(&[&[19], &i.to_be_bytes()]),
        K::Block(i) => cat(&[&[1], &i.to_be_bytes()]),
        K::Shard(i) => cat(&[&[2], &i.to_be_bytes()]),
        K::BlockTime(s, t) | K::ShardTime(s, t) => cat(&[&[18], &s.to_be_bytes(), &t.to_be_bytes()]),
        K::Slot(w, c, f, h) => match w % 4 {
            0 => cat(&[&[24, 1], c]),
            1 => {
                if *f > u32::MAX as u64 {
                    return None;
                }
                cat(&[&[24, 2], c, &f4(*f)])
            }
            2 => cat(&[&[24, 3], c]),
            _ => cat(&[&[24, 4], c, h]),
        },
        K::AuthorSlot(w, author, c, f, h) => match w % 4 {
            0 => cat(&[&us(*author, 108), c]),
            1 => {
                if *f > u32::MAX as u64 {
                    return None;
                }
                cat(&[&us(*author, 109), c, &f4(*f)])
            }
            2 => cat(&[&us(*author, 110), c]),
            _ => cat(&[&us(*author, 111), c, h]),
        },
        K::MemberByFid(f, c) => {
            if *f > u32::MAX as u64 {
                return None;
            }
            cat(&[&[24, 8], &f4(*f), c])
        }
        K::Proposal(s, h, r) => cat(&[&[1], &s.to_be_bytes(), &h.to_be_bytes(), &r.to_be_bytes()]),
        K::WorkUnit(s, v) => vec![21, *s, *v, 1],
        K::AccountRoot(s, v, f) => cat(&[&[21, *s as u8, *v, 2], &f4(*f)]),
    })
}
fn target_index(p: u8, t: &[u8], f: u64, x: &Option<(u32, u8)>) -> Vec<u8> {
    cat(&[
        &[p],
        t,
        ts(x).as_ref().map(|x| &x[..]).unwrap_or(&[]),
        if f > 0 { f4(f).to_vec() } else { vec![] }.as_slice(),
    ])
}
fn oct(t: u8) -> proto::OnChainEventType {
    use proto::OnChainEventType::*;
    [EventTypeNone, EventTypeSigner, EventTypeSignerMigrated, EventTypeIdRegister, EventTypeStorageRent,
     EventTypeTierPurchase, EventTypeChannelRegister][t as usize % 7]
}
fn msg(t: MT, fid: u64, body: proto::message_data::Body) -> proto::Message {
    proto::Message {
        data: Some(proto::MessageData { r#type: t as i32, fid, timestamp: 1, network: 1, body: Some(body) }),
        signature_scheme: 1,
        ..Default::default()
    }
}
fn utf(b: &[u8]) -> String {
    String::from_utf8(b.to_vec()).unwrap()
}
fn rtgt(t: &Tgt) -> proto::reaction_body::Target {
    match t {
        Tgt::Url(u) => proto::reaction_body::Target::TargetUrl(utf(u)),
        Tgt::Cast(f, h) => proto::reaction_body::Target::TargetCastId(proto::CastId { fid: *f, hash: h.clone() }),
    }
}
fn ptgt(t: &Tgt) -> proto::cast_add_body::Parent {
    match t {
        Tgt::Url(u) => proto::cast_add_body::Parent::ParentUrl(utf(u)),
        Tgt::Cast(f, h) => proto::cast_add_body::Parent::ParentCastId(proto::CastId { fid: *f, hash: h.clone() }),
    }
}
fn real(k: &K) -> Option<Vec<u8>> {
    use snapchain::storage::store as st;
    match k {
        K::TsHash(t, h) => a::make_ts_hash(*t, h).ok().map(|x| x.to_vec()),
        K::Fid(f) => Some(a::make_fid_key(*f)),
        K::User(f) => Some(a::make_user_key(*f)),
        K::Primary(f, s, t) => Some(a::make_message_primary_key(*f, *s, ts(t).as_ref())),
        K::CastId(f, h) => Some(a::make_cast_id_key(&proto::CastId { fid: *f, hash: h.clone() })),
        K::CastAdds(f, h, rm) => Some(if *rm { a::CastStoreDef::make_cast_removes_key(*f, h) } else { a::CastStoreDef::make_cast_adds_key(*f, h) }),
        K::CastParent(t, f, x) => Some(a::CastStoreDef::make_cast_by_parent_key(&ptgt(t), *f, ts(x).as_ref())),
        K::CastMention(m, f, x) => Some(a::CastStoreDef::make_cast_by_mention_key(*m, *f, ts(x).as_ref())),
        K::Link(f, ty, to, rm) => {
            let body = proto::LinkBody {
                r#type: ty.clone(),
                display_timestamp: None,
                target: to.map(proto::link_body::Target::TargetFid),
            };
            let m = msg(if *rm { MT::LinkRemove } else { MT::LinkAdd }, *f, proto::message_data::Body::LinkBody(body));
            if *rm { a::LinkStore::make_remove_key(&m).ok() } else { a::LinkStore::make_add_key(&m).ok() }
        }
        K::LinkCompact(f, ty) => a::LinkStore::link_compact_state_add_key(*f, ty).ok(),
        K::LinkTarget(to, f, x) => a::LinkStore::links_by_target_key(&proto::link_body::Target::TargetFid(*to), *f, ts(x).as_ref()).ok(),
        K::Reaction(f, ty, t, rm) => {
            let t = t.as_ref().map(rtgt);
            if *rm { a::ReactionStoreDef::make_reaction_removes_key(*f, *ty, t.as_ref()).ok() } else { a::ReactionStoreDef::make_reaction_adds_key(*f, *ty, t.as_ref()).ok() }
        }
        K::ReactionTarget(t, f, x) => Some(a::ReactionStoreDef::make_reactions_by_target_key(&rtgt(t), *f, ts(x).as_ref())),
        K::FollowByFid(f, c) => Some(a::ReactionStoreDef::make_follow_by_fid_key(*f, &cid(*c))),
        K::FollowByChannel(c, f) => Some(a::ReactionStoreDef::make_follow_by_channel_key(&cid(*c), *f)),
        K::Verification(f, ad, rm) => Some(if *rm { a::VerificationStoreDef::make_verification_removes_key(*f, ad) } else { a::VerificationStoreDef::make_verification_adds_key(*f, ad) }),
        K::VerificationByAddress(ad, f) => Some(a::VerificationStoreDef::make_verification_by_address_key(ad, *f)),
        K::UserData(f, t) => Some(a::UserDataStoreDef::make_user_data_adds_key(*f, *t)),
        K::Fname(n) => Some(a::make_fname_username_proof_key(n)),
        K::FnameByFid(f) => Some(a::make_fname_username_proof_by_fid_key(*f)),
        K::ProofByName(n) => Some(a::UsernameProofStoreDef::make_username_proof_by_name_key(n)),
        K::ProofByFid(f, n) => Some(a::UsernameProofStoreDef::make_username_proof_by_fid_key(*f, n)),
        K::OnChain(t, f, b, l) => Some(a::onchain_event_store::make_onchain_event_primary_key(&proto::OnChainEvent {
            r#type: oct(*t) as i32,
            fid: *f,
            block_number: *b,
            log_index: *l,
            ..Default::default()
        })),
        K::IdByFid(f) => Some(a::onchain_event_store::make_id_register_by_fid_key(*f)),
        K::Signer(f, k) => Some(a::onchain_event_store::make_signer_onchain_event_by_signer_key(*f, k.clone())),
        K::ChannelByKey(k) => Some(a::onchain_event_store::make_channel_register_by_channel_key(k)),
        K::ChannelByLabel(k) => Some(a::onchain_event_store::make_channel_register_channel_key_by_label_key(k)),
        K::ChannelByOwner(o, k) => Some(a::onchain_event_store::make_channel_register_by_owner_address_key(o, k)),
        K::GaslessByFid(f, k) => a::key_add_store::make_gasless_key_by_fid_key(*f, k).ok(),
        K::GaslessByKey(k) => a::key_add_store::make_gasless_key_by_public_key_key(k).ok(),
        K::GaslessCount(f) => Some(a::key_add_store::make_gasless_key_count_by_fid_key(*f)),
        K::UserNonce(f) => Some(a::key_nonce_store::make_user_nonce_key(*f)),
        K::AppNonce(f) => Some(a::key_nonce_store::make_app_nonce_key(*f)),
        K::LastUsed(f, k) => a::key_last_used_at_store::make_last_used_at_key(*f, k).ok(),
        K::Lend(f, t) => {
            let m = msg(MT::LendStorage, *f, proto::message_data::Body::LendStorageBody(proto::LendStorageBody { to_fid: *t, num_units: 1, unit_type: 0 }));
            a::StorageLendStoreDef { prune_size_limit: 1 }.make_add_key(&m).ok()
        }
        K::LendByBorrower(f, t) => {
            let m = msg(MT::LendStorage, *f, proto::message_data::Body::LendStorageBody(proto::LendStorageBody { to_fid: *t, num_units: 1, unit_type: 0 }));
            a::StorageLendStoreDef::by_borrower_secondary_index_key(&m).ok()
        }
        K::Event(i) => Some(a::event::make_event_key(*i)),
        K::BlockEvent(i) => Some(a::block_event_store::make_block_event_key(*i)),
        K::Block(i) => Some(st::block::make_block_key(*i)),
        K::Shard(i) => Some(st::shard::make_shard_key(*i)),
        K::BlockTime(s, t) => Some(st::block::make_block_timestamp_index(*s, *t)),
        K::ShardTime(s, t) => Some(st::shard::make_block_timestamp_index(*s, *t)),
        K::Slot(w, c, f, h) => match w % 4 {
            0 => Some(a::ChannelUpdateStore::slot_key(c)),
            1 => a::ChannelMemberStore::slot_key(c, *f).ok(),
            2 => Some(a::ChannelPinStore::slot_key(c)),
            _ => Some(a::ChannelModerateStore::slot_key(c, h)),
        },
        K::AuthorSlot(w, author, c, f, h) => {
            use proto::message_data::Body as B;
            use snapchain::storage::store::account::channel_store as cs;
            let (m, post, suffix) = match w % 4 {
                0 => {
                    let m = msg(MT::ChannelUpdate, *author, B::ChannelUpdateBody(proto::ChannelUpdateBody { channel_id: c.clone(), ..Default::default() }));
                    let s = cs::update_slot_suffix(&m);
                    (m, UserPostfix::ChannelUpdateAdds, s)
                }
                1 => {
                    let m = msg(MT::ChannelMember, *author, B::ChannelMemberBody(proto::ChannelMemberBody { channel_id: c.clone(), fid: *f, ..Default::default() }));
                    let s = cs::member_slot_suffix(&m);
                    (m, UserPostfix::ChannelMemberAdds, s)
                }
                2 => {
                    let m = msg(MT::ChannelPin, *author, B::ChannelPinBody(proto::ChannelPinBody { channel_id: c.clone(), ..Default::default() }));
                    let s = cs::pin_slot_suffix(&m);
                    (m, UserPostfix::ChannelPinAdds, s)
                }
                _ => {
                    let m = msg(MT::ChannelModerate, *author, B::ChannelModerateBody(proto::ChannelModerateBody { channel_id: c.clone(), cast_hash: h.clone(), ..Default::default() }));
                    let s = cs::moderate_slot_suffix(&m);
                    (m, UserPostfix::ChannelModerateAdds, s)
                }
            };
            cs::author_slot_key(&m, post, &suffix.ok()?).ok()
        }
        K::MemberByFid(f, c) => a::ChannelMemberStoreDef::make_member_by_fid_key(*f, c).ok(),
        K::Proposal(s, h, r) => Some(st::node_local_state::LocalStateStore::make_proposal_key(*s, *h, *r)),
        K::WorkUnit(s, v) => Some(st::node_local_state::LocalStateStore::make_work_unit_key(*s, *v)),
        K::AccountRoot(s, v, f) => Some(st::node_local_state::LocalStateStore::make_account_root_key(*s, *v, *f)),
    }
}

fn ts_s() -> BoxedStrategy<Option<(u32, u8)>> {
    prop_oneof![1 => Just(None), 5 => (prop_oneof![Just(0u32), Just(1), Just(u32::MAX), any::<u32>()], 0u8..4).prop_map(Some)].boxed()
}
fn name_s() -> BoxedStrategy<Vec<u8>> {
    prop_oneof![4 => "[a-z0-9.\\-]{0,20}", 1 => "\\PC{0,8}"].prop_map(|s: String| s.into_bytes()).boxed()
}
fn hash_s() -> BoxedStrategy<Vec<u8>> {
    (prop_oneof![8 => Just(20usize), 1 => Just(0), 1 => Just(19), 1 => Just(21), 1 => Just(32)], 0u8..4).prop_map(|(n, t)| fill(n, t)).boxed()
}
fn key_s() -> BoxedStrategy<Vec<u8>> {
    (prop_oneof![8 => Just(32usize), 1 => Just(0), 1 => Just(31), 1 => Just(33)], 0u8..4).prop_map(|(n, t)| fill(n, t)).boxed()
}
fn addr_s() -> BoxedStrategy<Vec<u8>> {
    (prop_oneof![5 => Just(20usize), 3 => Just(32), 1 => Just(0)], 0u8..4).prop_map(|(n, t)| fill(n, t)).boxed()
}
fn cids() -> BoxedStrategy<Vec<u8>> {
    (0u8..4).prop_map(|t| fill(32, t)).boxed()
}
fn tgt_s() -> BoxedStrategy<Tgt> {
    prop_oneof![name_s().prop_map(Tgt::Url), (any_fid(), hash_s()).prop_map(|(f, h)| Tgt::Cast(f, h))].boxed()
}
fn n64() -> BoxedStrategy<u64> {
    prop_oneof![3 => 0u64..300, 1 => any::<u64>(), 1 => Just(u64::MAX), 1 => Just(1 << 32)].boxed()
}
fn ltype() -> BoxedStrategy<String> {
    prop_oneof![2 => Just("follow".to_string()), 4 => "[a-z]{0,10}", 1 => Just("followin".to_string())].boxed()
}
fn k() -> BoxedStrategy<K> {
    let f = any_fid;
    let b = any::<bool>;
    let g1 = prop_oneof![
        (any::<u32>(), hash_s()).prop_map(|(t, h)| K::TsHash(t, h)),
        f().prop_map(K::Fid),
        f().prop_map(K::User),
        (f(), 1u8..13, ts_s()).prop_map(|(f, s, t)| K::Primary(f, s, t)),
        (f(), hash_s()).prop_map(|(f, h)| K::CastId(f, h)),
        (f(), hash_s(), b()).prop_map(|(f, h, r)| K::CastAdds(f, h, r)),
        (tgt_s(), f(), ts_s()).prop_map(|(t, f, x)| K::CastParent(t, f, x)),
        (f(), f(), ts_s()).prop_map(|(t, f, x)| K::CastMention(t, f, x)),
        (f(), ltype(), option::of(f()), b()).prop_map(|(f, t, o, r)| K::Link(f, t, o, r)),
        (f(), ltype()).prop_map(|(f, t)| K::LinkCompact(f, t)),
        (f(), f(), ts_s()).prop_map(|(t, f, x)| K::LinkTarget(t, f, x)),
        (f(), 0i32..4, option::of(tgt_s()), b()).prop_map(|(f, t, o, r)| K::Reaction(f, t, o, r)),
        (tgt_s(), f(), ts_s()).prop_map(|(t, f, x)| K::ReactionTarget(t, f, x)),
        (f(), 0u8..4).prop_map(|(f, c)| K::FollowByFid(f, c)),
        (f(), 0u8..4).prop_map(|(f, c)| K::FollowByChannel(c, f)),
        (f(), addr_s(), b()).prop_map(|(f, h, r)| K::Verification(f, h, r)),
        (f(), addr_s()).prop_map(|(f, h)| K::VerificationByAddress(h, f)),
        (f(), 0i32..14).prop_map(|(f, t)| K::UserData(f, t)),
    ];
    let g2 = prop_oneof![
        name_s().prop_map(K::Fname),
        f().prop_map(K::FnameByFid),
        name_s().prop_map(K::ProofByName),
        (f(), name_s()).prop_map(|(f, n)| K::ProofByFid(f, n)),
        (0u8..7, f(), any::<u32>(), any::<u32>()).prop_map(|(t, f, b, l)| K::OnChain(t, f, b, l)),
        f().prop_map(K::IdByFid),
        (f(), key_s()).prop_map(|(f, k)| K::Signer(f, k)),
        name_s().prop_map(|n| K::ChannelByKey(utf(&n))),
        name_s().prop_map(K::ChannelByLabel),
        (addr_s(), name_s()).prop_map(|(o, n)| K::ChannelByOwner(o, utf(&n))),
        (f(), key_s()).prop_map(|(f, k)| K::GaslessByFid(f, k)),
        key_s().prop_map(K::GaslessByKey),
        f().prop_map(K::GaslessCount),
        f().prop_map(K::UserNonce),
        f().prop_map(K::AppNonce),
        (f(), key_s()).prop_map(|(f, k)| K::LastUsed(f, k)),
        (f(), f()).prop_map(|(a, b)| K::Lend(a, b)),
        (f(), f()).prop_map(|(a, b)| K::LendByBorrower(a, b)),
    ];
    let g3 = prop_oneof![
        n64().prop_map(K::Event),
        n64().prop_map(K::BlockEvent),
        n64().prop_map(K::Block),
        n64().prop_map(K::Shard),
        (any::<u32>(), n64()).prop_map(|(s, t)| K::BlockTime(s, t)),
        (any::<u32>(), n64()).prop_map(|(s, t)| K::ShardTime(s, t)),
        (0u8..4, cids(), f(), hash_s()).prop_map(|(w, c, f, h)| K::Slot(w, c, f, h)),
        (0u8..4, f(), cids(), f(), hash_s()).prop_map(|(w, a, c, f, h)| K::AuthorSlot(w, a, c, f, h)),
        (f(), cids()).prop_map(|(f, c)| K::MemberByFid(f, c)),
        (0u32..4, n64(), 0i64..5).prop_map(|(s, h, r)| K::Proposal(s, h, r)),
        (0u8..4, any::<u8>()).prop_map(|(s, v)| K::WorkUnit(s, v)),
        (0u32..4, any::<u8>(), f()).prop_map(|(s, v, f)| K::AccountRoot(s, v, f)),
    ];
    prop_oneof![4 => g1, 4 => g2, 3 => g3].boxed()
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Ts {
    fids: (u64, u64),
    set: u8,
    t: (u32, u32),
    h: (u8, u8),
}
#[derive(Debug, Clone, Serialize, Deserialize)]
struct TypeCase {
    t: i32,
}

pub fn c10(p: &mut Prop) {
    p.sub(
        "layout",
        "a key is built (not refused)",
        2_000_000, 8_000_000,
        k,
        |c, o: &mut Obs| -> R {
            let (m, r) = (model(c), real(c));
            if m.is_some() {
                o.nt();
            } else {
                o.label("refused");
            }
            ensure_eq!(r, m, "key of {c:?}");
            Ok(())
        },
    );
    p.sub(
        "order",
        "two different timestamps or owners",
        1_000_000, 4_000_000,
        || {
            (
                (0u64..=u32::MAX as u64, 0u64..=u32::MAX as u64),
                1u8..13,
                (prop_oneof![any::<u32>(), 0u32..300], prop_oneof![any::<u32>(), 0u32..300]),
                (any::<u8>(), any::<u8>()),
                any::<bool>(),
            )
                .prop_map(|(fids, set, t, h, same)| Ts { fids: if same { (fids.0, fids.0) } else { fids }, set, t, h })
                .boxed()
        },
        |c, o| {
            let k1 = a::make_ts_hash(c.t.0, &h20(&[c.h.0])).map_err(|e| e.to_string())?;
            let k2 = a::make_ts_hash(c.t.1, &h20(&[c.h.1])).map_err(|e| e.to_string())?;
            if c.t.0 != c.t.1 || c.fids.0 != c.fids.1 {
                o.nt()
            }
            ensure_eq!(k1.cmp(&k2), (c.t.0, h20(&[c.h.0])).cmp(&(c.t.1, h20(&[c.h.1]))), "ts_hash order");
            let (t, h) = a::unpack_ts_hash(&k1);
            ensure!(t == c.t.0 && h.to_vec() == h20(&[c.h.0]), "unpack_ts_hash does not invert make_ts_hash");
            let p1 = a::make_message_primary_key(c.fids.0, c.set, Some(&k1));
            let p2 = a::make_message_primary_key(c.fids.1, c.set, Some(&k2));
            ensure_eq!(p1.cmp(&p2), (c.fids.0, k1).cmp(&(c.fids.1, k2)), "primary key order");
            ensure_eq!(a::read_fid_key(&p1, 1), c.fids.0, "fid read back from a primary key");
            ensure_eq!(a::read_ts_hash(&p1, 6), k1, "ts_hash read back from a primary key");
            let pre = a::make_message_primary_key(c.fids.0, c.set, None);
            ensure_eq!(p2.starts_with(&pre), c.fids.0 == c.fids.1, "prefix scan of fid {} and a row of fid {}", c.fids.0, c.fids.1);
            Ok(())
        },
    );
    p.sub(
        "message-sets",
        "a known message type",
        3_000,
        3_000,
        || (-2i32..25).prop_map(|t| TypeCase { t }).boxed(),
        |c, o| {
            let want: Option<u8> = match c.t {
                1 | 2 => Some(1),
                3 | 4 => Some(3),
                5 | 6 => Some(2),
                7 | 8 => Some(4),
                11 => Some(6),
                12 => Some(7),
                15 => Some(8),
                18 => Some(9),
                19 => Some(10),
                20 => Some(11),
                21 => Some(12),
                _ => None,
            };
            let Ok(t) = MT::try_from(c.t) else {
                o.label("unknown type");
                return Ok(());
            };
            o.nt();
            ensure_eq!(a::type_to_set_postfix(t).ok().map(|p| p as u8), want, "message set of {t:?}");
            ensure_eq!(a::IntoU8::into_u8(t), c.t as u8, "type byte of {t:?}");
            Ok(())
        },
    );
    p.sub(
        "prefixes",
        "always",
        1,
        1,
        || Just(TypeCase { t: 0 }).boxed(),
        |_, o| {
            o.nt();
            use RootPrefix as P;
            let all: Vec<(u8, u8)> = vec![
                (P::Block as u8, 1), (P::Shard as u8, 2), (P::User as u8, 3), (P::CastsByParent as u8, 4),
                (P::CastsByMention as u8, 5), (P::LinksByTarget as u8, 6), (P::ReactionsByTarget as u8, 7),
                (P::MerkleTrieNode as u8, 8), (P::HubEvents as u8, 9), (P::FNameUserNameProof as u8, 11),
                (P::OnChainEvent as u8, 12), (P::DBSchemaVersion as u8, 13), (P::VerificationByAddress as u8, 14),
                (P::FNameUserNameProofByFid as u8, 15), (P::UserNameProofByName as u8, 16), (P::NodeLocalState as u8, 17),
                (P::BlockIndex as u8, 18), (P::BlockEvent as u8, 19), (P::ReplicationBootstrapStatus as u8, 21),
                (P::LendStorageByRecipient as u8, 22), (P::GaslessKey as u8, 23), (P::Channel as u8, 24), (P::ChannelFollow as u8, 25),
            ];
            for (g, w) in all {
                ensure_eq!(g, w, "root prefix");
            }
            Ok(())
        },
    );
}
