//! C08 commit certificates, C09 validator sets, proposer rotation, consensus messages and proposals.
use crate::frame::*;
use crate::gens::*;
use bytes::Bytes;
use informalsystems_malachitebft_core_types::{self as mt, Context as _, NilOrVal, Round, SigningProvider, VoteType};
use libp2p::identity::ed25519::{Keypair, SecretKey};
use prost::Message as _;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use snapchain::consensus::consensus::{Config, ValidatorSetConfig};
use snapchain::consensus::proposer::ProposedValues;
use snapchain::consensus::validator::{StoredValidatorSet, StoredValidatorSets};
use snapchain::core::types as ty;
use snapchain::core::types::{CommitsExt, ShardId, SnapchainShard, SnapchainValidatorContext as Ctx};
use snapchain::core::util::verify_signatures;
use snapchain::proto::{self, FullProposal, Height, ShardHash};
use std::collections::{BTreeMap, BTreeSet};

pub fn kp(i: u8) -> Keypair {
    let mut b = *blake3::hash(&[b'v', i]).as_bytes();
    Keypair::from(SecretKey::try_from_bytes(&mut b).unwrap())
}
pub fn pk(i: u8) -> Vec<u8> {
    kp(i).public().to_bytes().to_vec()
}
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct SetC {
    effective: u64,
    keys: Vec<u8>,
    shards: Vec<u32>,
}
fn conf(s: &SetC) -> ValidatorSetConfig {
    ValidatorSetConfig {
        effective_at: s.effective,
        validator_public_keys: s.keys.iter().map(|k| hex::encode(pk(*k))).collect(),
        shard_ids: s.shards.clone(),
    }
}
fn stored(shard: u32, sets: &[SetC]) -> StoredValidatorSets {
    StoredValidatorSets::new(shard, sets.iter().map(|s| StoredValidatorSet::new(SnapchainShard::new(shard), &conf(s))).collect())
}
/// The set in force: the one with the highest start not after the height; the first covers everything.
fn in_force(shard: u32, sets: &[SetC], h: u64) -> BTreeSet<u8> {
    let mut best = &sets[0];
    for s in sets {
        if s.shards.contains(&shard) && s.effective <= h && s.effective > best.effective {
            best = s;
        }
    }
    best.keys.iter().copied().collect()
}
fn sets_strategy() -> BoxedStrategy<Vec<SetC>> {
    (
        pvec(0u8..8, 1..8),
        pvec((1u64..60, pvec(0u8..8, 1..8), pvec(0u32..3, 1..3)), 0..4),
        prop::bool::weighted(0.8),
    )
        .prop_map(|(first, mut rest, ordered)| {
            if ordered {
                rest.sort_by_key(|r| r.0);
            }
            let mut seen = BTreeSet::new();
            let mut v = vec![SetC { effective: 0, keys: first, shards: vec![0, 1, 2] }];
            for (e, k, s) in rest {
                if seen.insert(e) {
                    v.push(SetC { effective: e, keys: k, shards: s });
                }
            }
            v
        })
        .boxed()
}
#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum SigFault {
    Good,
    OtherValue,
    OtherHeight,
    OtherRound,
    OtherShard,
    Prevote,
    Nil,
    OtherVoter,
    Bit(u16),
    Short,
    OtherKey,
}
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct CertCase {
    shard: u32,
    sets: Vec<SetC>,
    height: u64,
    round: i64,
    value: u8,
    /// who signs, in order, over all keys; kept signatures are the members of the set in force first
    order: Vec<u8>,
    take: usize,
    extra: Vec<(u8, SigFault)>,
    fault: Option<(u8, SigFault)>,
    malformed: u8,
}
fn cert_sig(c: &CertCase, i: u8, f: &SigFault) -> proto::CommitSignature {
    let mut height = Height::new(c.shard, c.height);
    let mut round = c.round;
    let mut value = ShardHash { shard_index: c.shard, hash: fill(32, c.value) };
    let mut voter = pk(i);
    let mut typ = proto::VoteType::Precommit as i32;
    let mut key = i;
    let mut nil = false;
    match f {
        SigFault::OtherValue => value.hash[0] ^= 1,
        SigFault::OtherHeight => height.block_number += 1,
        SigFault::OtherRound => round += 1,
        SigFault::OtherShard => height.shard_index += 1,
        SigFault::Prevote => typ = proto::VoteType::Prevote as i32,
        SigFault::Nil => nil = true,
        SigFault::OtherVoter => voter = pk(i.wrapping_add(1)),
        SigFault::OtherKey => key = i.wrapping_add(1),
        _ => {}
    }
    // the signed bytes, independently of the code's own vote type
    let vote = proto::Vote { height: Some(height), round, voter, r#type: typ, value: if nil { None } else { Some(value) } };
    let mut signature = kp(key).sign(&vote.encode_to_vec());
    match f {
        SigFault::Bit(b) => signature[*b as usize / 8 % 64] ^= 1 << (b % 8),
        SigFault::Short => { signature.pop(); }
        _ => {}
    }
    proto::CommitSignature { signer: pk(i), signature }
}
fn check_cert(c: &CertCase, o: &mut Obs) -> R {
    let members = in_force(c.shard, &c.sets, c.height);
    let mut who: Vec<(u8, SigFault)> = vec![];
    for i in &c.order {
        if members.contains(i) && !who.iter().any(|w| w.0 == *i) {
            who.push((*i, SigFault::Good));
        }
    }
    who.truncate(c.take);
    if let Some((i, f)) = &c.fault {
        if !who.is_empty() {
            let n = who.len();
            who[*i as usize % n].1 = f.clone();
        }
    }
    who.extend(c.extra.iter().cloned());
    let mut sigs: Vec<_> = who.iter().map(|(i, f)| cert_sig(c, *i, f)).collect();
    let mut commits = proto::Commits {
        height: Some(Height::new(c.shard, c.height)), round: c.round,
        value: Some(ShardHash { shard_index: c.shard, hash: fill(32, c.value) }), signatures: vec![],
    };
    match c.malformed {
        1 => commits.height = None,
        2 => commits.value = None,
        3 => { if let Some(s) = sigs.first_mut() { s.signer.pop(); } }
        4 => { if let Some(s) = sigs.last_mut() { s.signer.clear(); } }
        5 => { if let Some(s) = sigs.first_mut() { s.signer = vec![0xff; 32]; } }
        _ => {}
    }
    let broken = c.malformed != 0 && (c.malformed < 3 || !sigs.is_empty());
    commits.signatures = sigs;
    let got = verify_signatures(&commits, &stored(c.shard, &c.sets));
    let distinct: BTreeSet<u8> = who.iter().map(|w| w.0).collect();
    let good = |f: &SigFault| matches!(f, SigFault::Good);
    let want = !broken
        && distinct.len() == who.len()
        && distinct.is_subset(&members)
        && who.iter().all(|w| good(&w.1))
        && who.len() * 3 > members.len() * 2;
    ensure_eq!(got, want, "certificate with signatures {:?} against members {members:?}", who);
    o.label(if want { "accepted" } else { "rejected" });
    let sorted = {
        let mut v: Vec<_> = who.iter().map(|w| pk(w.0)).collect();
        v.sort();
        v == who.iter().map(|w| pk(w.0)).collect::<Vec<_>>()
    };
    o.label_if(want && !sorted, "accepted, signatures not in validator order");
    o.label_if(broken, "malformed");
    if who.len() * 3 > members.len() * 2 {
        o.nt()
    }
    // certificate conversions
    if c.malformed < 3 && c.malformed == 0 {
        let cert = commits.to_commit_certificate();
        ensure_eq!(proto::Commits::from_commit_certificate(&cert), commits, "certificate round trip");
    }
    Ok(())
}
pub fn c08(p: &mut Prop) {
    p.sub("certificate", "validator set schedules; signatures of members in any order, up to and around two thirds, with outsiders, repeats, votes for other values/heights/rounds/shards, prevotes and damaged bytes; non-trivial = enough signatures for a quorum",
        80_000, 320_000,
        || {
            let fault = || prop_oneof![
                Just(SigFault::OtherValue), Just(SigFault::OtherHeight), Just(SigFault::OtherRound), Just(SigFault::OtherShard),
                Just(SigFault::Prevote), Just(SigFault::Nil), Just(SigFault::OtherVoter), (0u16..512).prop_map(SigFault::Bit),
                Just(SigFault::Short), Just(SigFault::OtherKey), Just(SigFault::Good),
            ];
            (0u32..3, sets_strategy(), 0u64..70, 0i64..3, any::<u8>(), Just((0u8..8).collect::<Vec<_>>()).prop_shuffle(), prop_oneof![2 => Just(8usize), 3 => 0usize..8],
                prop_oneof![4 => Just(vec![]), 1 => pvec((0u8..10, prop_oneof![3 => Just(SigFault::Good), 1 => fault()]), 1..3)],
                prop_oneof![3 => Just(None), 1 => (any::<u8>(), fault()).prop_map(Some)], prop_oneof![12 => Just(0u8), 1 => 1u8..6])
                .prop_map(|(shard, sets, height, round, value, order, take, extra, fault, malformed)| CertCase { shard, sets, height, round, value, order, take, extra, fault, malformed })
                .boxed()
        },
        check_cert);
}

// ---- C09 -----------------------------------------------------------------------------------------
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct SetsCase {
    sets: Vec<SetC>,
    shard: u32,
    height: u64,
    round: u32,
    foreign: Vec<u8>,
    shuffle: u8,
}
fn check_sets(c: &SetsCase, o: &mut Obs) -> R {
    let cfg = Config::default().with(vec![0, 1, 2], c.sets.iter().map(conf).collect());
    let got = cfg.to_stored_validator_sets(c.shard).get_validator_set(c.height);
    let want = in_force(c.shard, &c.sets, c.height);
    let got_keys: Vec<Vec<u8>> = got.validators.iter().map(|v| v.public_key.to_bytes().to_vec()).collect();
    let want_keys: BTreeSet<Vec<u8>> = want.iter().map(|k| pk(*k)).collect();
    ensure_eq!(got_keys.iter().cloned().collect::<BTreeSet<_>>(), want_keys, "validators in force at {}", c.height);
    ensure_eq!(got_keys.len(), want_keys.len(), "a validator is listed twice");
    ensure!(got.validators.iter().all(|v| v.shard_index == c.shard && v.address.0.to_vec() == v.public_key.to_bytes().to_vec()), "shard or address of a validator");
    // the same validators listed in another order give the same set in the same order
    let mut alt = c.sets.clone();
    for s in &mut alt {
        let n = s.keys.len();
        s.keys.rotate_left(c.shuffle as usize % n);
        if c.shuffle % 2 == 1 {
            s.keys.reverse()
        }
    }
    let other = stored(c.shard, &alt).get_validator_set(c.height);
    ensure_eq!(other.validators.iter().map(|v| v.address.clone()).collect::<Vec<_>>(), got.validators.iter().map(|v| v.address.clone()).collect::<Vec<_>>(), "order depends on the configuration's order");
    // proposer rotation
    let ctx = Ctx::new(kp(0));
    let n = got.validators.len() as u64;
    if c.height > 0 {
        let h = Height::new(c.shard, c.height);
        let p = ctx.select_proposer(&got, h, Round::new(c.round));
        ensure_eq!(p.address, got.validators[((c.height - 1 + c.round as u64) % n) as usize].address, "proposer");
        let q = ctx.select_proposer(&other, h, Round::new(c.round));
        ensure_eq!(p.address, q.address, "nodes disagree on the proposer");
        let turn: BTreeSet<_> = (0..n as u32).map(|r| ctx.select_proposer(&got, h, Round::new(c.round + r)).address.clone()).collect();
        ensure_eq!(turn.len() as u64, n, "everyone proposes once in as many rounds as validators");
        let turn: BTreeSet<_> = (0..n).map(|k| ctx.select_proposer(&got, h.increment_by(k), Round::new(0)).address.clone()).collect();
        ensure_eq!(turn.len() as u64, n, "everyone proposes once in as many heights as validators");
    }
    use informalsystems_malachitebft_core_types::ValidatorSet as _;
    ensure_eq!((got.count() as u64, got.total_voting_power(), got.shard_id()), (n, n, c.shard), "size and voting power");
    for k in 0..10u8 {
        let a = ty::Address::from_vec(pk(k));
        ensure_eq!(got.get_by_address(&a).is_some(), want.contains(&k), "membership of {k}");
        ensure_eq!(got.exists(&a), want.contains(&k), "existence of {k}");
    }
    // additions
    let mut set = got.clone();
    for k in &c.foreign {
        let sh = c.shard + (k % 2) as u32;
        let v = ty::SnapchainValidator::new(SnapchainShard::new(sh), kp(*k).public(), None, 0);
        let before = set.validators.clone();
        let dup = set.exists(&v.address);
        let added = set.add(v);
        ensure_eq!(added, !dup && sh == c.shard, "adding a validator");
        if !added {
            ensure_eq!(set.validators, before, "a refused addition changed the set");
        }
    }
    // latest keys over shards
    let latest: BTreeSet<String> = cfg.latest_validator_public_keys().into_iter().collect();
    let mut wanted = BTreeSet::new();
    for sh in 0..3u32 {
        if let Some(s) = c.sets.iter().filter(|s| s.shards.contains(&sh)).last() {
            wanted.extend(s.keys.iter().map(|k| hex::encode(pk(*k))));
        }
    }
    ensure_eq!(latest, wanted, "latest validators of all shards");
    if c.sets.len() > 1 {
        o.nt()
    }
    o.label_if(c.sets.iter().any(|s| s.effective == c.height && s.shards.contains(&c.shard)), "at the first height of a set");
    Ok(())
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct MsgC {
    shard: u32,
    height: u64,
    round: i64,
    pol: i64,
    hash: Option<Vec<u8>>,
    who: u8,
    prevote: bool,
    other: u8,
    sig: Vec<u8>,
}
fn rd(r: i64) -> Round {
    if r < 0 { Round::Nil } else { Round::new(r as u32) }
}
fn check_votes(c: &MsgC, o: &mut Obs) -> R {
    use informalsystems_malachitebft_codec::Codec;
    use informalsystems_malachitebft_core_consensus::SignedConsensusMsg;
    use snapchain::consensus::malachite::snapchain_codec::SnapchainCodec;
    let h = Height::new(c.shard, c.height);
    let val = match &c.hash {
        Some(b) => NilOrVal::Val(ShardHash { shard_index: c.shard, hash: b.clone() }),
        None => NilOrVal::Nil,
    };
    let addr = ty::Address::from_vec(pk(c.who));
    let mk = |h: Height, r: Round, v: NilOrVal<ShardHash>, a: ty::Address, pre: bool| {
        if pre { ty::Vote::new_prevote(h, r, v, a) } else { ty::Vote::new_precommit(h, r, v, a) }
    };
    let vote = mk(h, rd(c.round), val.clone(), addr.clone(), c.prevote);
    let p = vote.to_proto();
    ensure_eq!(ty::Vote::from_proto(p.clone()), vote, "vote round trip");
    ensure_eq!(vote.to_sign_bytes(), p.encode_to_vec(), "signed bytes");
    ensure_eq!((p.height, p.voter.clone(), p.r#type), (Some(h), pk(c.who), if c.prevote { 0 } else { 1 }), "vote on the wire");
    ensure_eq!(p.round, if c.round < 0 { -1 } else { c.round }, "round on the wire");
    // every part of a vote is signed
    let alt = match c.other % 7 {
        0 => mk(h.increment(), rd(c.round), val.clone(), addr.clone(), c.prevote),
        1 => mk(Height::new(c.shard + 1, c.height), rd(c.round), val.clone(), addr.clone(), c.prevote),
        2 => mk(h, rd(c.round + 1), val.clone(), addr.clone(), c.prevote),
        3 => mk(h, rd(c.round), if c.hash.is_some() { NilOrVal::Nil } else { NilOrVal::Val(ShardHash { shard_index: c.shard, hash: vec![1] }) }, addr.clone(), c.prevote),
        4 => mk(h, rd(c.round), val.clone(), ty::Address::from_vec(pk(c.who + 1)), c.prevote),
        5 => mk(h, rd(c.round), val.clone(), addr.clone(), !c.prevote),
        _ => mk(h, rd(c.round), NilOrVal::Val(ShardHash { shard_index: c.shard, hash: [c.hash.clone().unwrap_or_default(), vec![7]].concat() }), addr.clone(), c.prevote),
    };
    ensure!(alt.to_sign_bytes() != vote.to_sign_bytes(), "two votes sign the same bytes");
    let ctx = Ctx::new(kp(c.who));
    let sp = ctx.signing_provider();
    let signed = sp.sign_vote(vote.clone());
    ensure!(sp.verify_signed_vote(&vote, &signed.signature, &kp(c.who).public()), "own vote does not verify");
    ensure!(!sp.verify_signed_vote(&alt, &signed.signature, &kp(c.who).public()), "the signature also covers {alt:?}");
    ensure!(!sp.verify_signed_vote(&vote, &signed.signature, &kp(c.who + 1).public()), "the signature verifies under another key");
    let codec = SnapchainCodec;
    let msg = SignedConsensusMsg::<Ctx>::Vote(signed.clone());
    let bytes = codec.encode(&msg).map_err(|e| e.to_string())?;
    let back: SignedConsensusMsg<Ctx> = codec.decode(bytes.clone()).map_err(|_: snapchain::consensus::malachite::snapchain_codec::SnapchainCodecError| "decode failed".to_string())?;
    match back {
        SignedConsensusMsg::Vote(v) => {
            ensure_eq!(v.message, vote, "vote through the codec");
            ensure_eq!(v.signature, signed.signature, "vote signature through the codec");
        }
        _ => return Err("a vote decoded as a proposal".into()),
    }
    let wire = proto::ConsensusMessage::decode(bytes).unwrap();
    ensure_eq!(wire.shard_id(), Ok(c.shard), "shard of a consensus message");
    // proposals
    let hash = ShardHash { shard_index: c.shard, hash: c.hash.clone().unwrap_or_default() };
    let pr = Ctx::new_proposal(h, rd(c.round.max(0)), hash.clone(), rd(c.pol), addr.clone());
    ensure_eq!(ty::Proposal::from_proto(pr.to_proto()), pr, "proposal round trip");
    ensure_eq!(pr.to_sign_bytes(), pr.to_proto().encode_to_vec(), "proposal signed bytes");
    let sp2 = sp.sign_proposal(pr.clone());
    ensure!(sp.verify_signed_proposal(&pr, &sp2.signature, &kp(c.who).public()), "own proposal does not verify");
    let mut alt = pr.clone();
    match c.other % 5 {
        0 => alt.height = h.increment(),
        1 => alt.round = rd(c.round.max(0) + 1),
        2 => alt.shard_hash.hash.push(1),
        3 => alt.pol_round = rd(c.pol.max(-1) + 1),
        _ => alt.proposer = ty::Address::from_vec(pk(c.who + 1)),
    }
    ensure!(!sp.verify_signed_proposal(&alt, &sp2.signature, &kp(c.who).public()), "the signature also covers {alt:?}");
    let bytes = codec.encode(&SignedConsensusMsg::<Ctx>::Proposal(sp2.clone())).map_err(|e| e.to_string())?;
    match codec.decode(bytes.clone()).map_err(|e: snapchain::consensus::malachite::snapchain_codec::SnapchainCodecError| e.to_string())? {
        SignedConsensusMsg::<Ctx>::Proposal(v) => {
            ensure_eq!(v.message, pr, "proposal through the codec");
            ensure_eq!(v.signature, sp2.signature, "proposal signature through the codec");
        }
        _ => return Err("a proposal decoded as a vote".into()),
    }
    ensure_eq!(proto::ConsensusMessage::decode(bytes).unwrap().shard_id(), Ok(c.shard), "shard of a proposal message");
    // interfaces the consensus engine reads through
    use mt::{Proposal as _, Vote as _};
    ensure_eq!((vote.height(), vote.round(), vote.value().clone(), vote.vote_type(), vote.validator_address().clone()),
        (h, rd(c.round), val, if c.prevote { VoteType::Prevote } else { VoteType::Precommit }, addr.clone()), "vote accessors");
    ensure_eq!((pr.height(), pr.round(), pr.value().clone(), pr.pol_round(), pr.validator_address().clone()),
        (h, rd(c.round.max(0)), hash, rd(c.pol), addr), "proposal accessors");
    o.nt();
    o.label_if(c.hash.is_none(), "nil vote");
    o.label_if(c.round < 0, "nil round");
    let _ = Bytes::new();
    Ok(())
}
/// Any bytes a peer may send must be decoded or refused, never crash.
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct WireCase {
    kind: u8,
    msg: u8,
    drop: u16,
    bytes: Vec<u8>,
    voter_len: usize,
    typ: i32,
    round: i64,
    raw: Option<Vec<u8>>,
}
fn check_wire(c: &WireCase, o: &mut Obs) -> R {
    use informalsystems_malachitebft_codec::Codec;
    use informalsystems_malachitebft_core_consensus::SignedConsensusMsg;
    use informalsystems_malachitebft_engine::util::streaming::StreamMessage;
    use informalsystems_malachitebft_sync as sync;
    use snapchain::consensus::malachite::snapchain_codec::SnapchainCodec;
    let some = |b: u16| c.drop & b == 0;
    let height = some(1).then(|| Height::new(1, 5));
    let value = some(2).then(|| ShardHash { shard_index: 1, hash: c.bytes.clone() });
    let vote = proto::Vote { height, round: c.round, voter: fill(c.voter_len, 1), r#type: c.typ, value: value.clone() };
    let prop = proto::Proposal { height, round: c.round, proposer: fill(c.voter_len, 1), value: value.clone(), pol_round: -1 };
    let commits = some(4).then(|| proto::Commits {
        height, round: c.round, value: value.clone(),
        signatures: vec![proto::CommitSignature { signer: fill(c.voter_len, 2), signature: c.bytes.clone() }],
    });
    let fp = FullProposal {
        height, round: c.round, proposer: fill(c.voter_len, 1),
        proposed_value: some(8).then(|| proto::full_proposal::ProposedValue::Shard(proto::ShardChunk { header: some(32).then(|| proto::ShardHeader { height: some(64).then(|| Height::new(1, 5)), ..Default::default() }), hash: c.bytes.clone(), ..Default::default() })),
    };
    let bytes = match c.raw.clone() {
        Some(r) => r,
        None => match c.msg % 6 {
            0 => proto::ConsensusMessage { consensus_message: some(16).then(|| proto::consensus_message::ConsensusMessage::Vote(vote.clone())), signature: vec![1] }.encode_to_vec(),
            1 => proto::ConsensusMessage { consensus_message: some(16).then(|| proto::consensus_message::ConsensusMessage::Proposal(prop)), signature: vec![1] }.encode_to_vec(),
            2 => fp.encode_to_vec(),
            3 => proto::SyncResponse { sync_response: some(16).then(|| proto::sync_response::SyncResponse::Value(proto::SyncValueResponse { height, full_value: vec![], commits })) }.encode_to_vec(),
            4 => proto::SyncResponse { sync_response: some(16).then(|| proto::sync_response::SyncResponse::VoteSet(proto::SyncVoteSetResponse { height, round: c.round, votes: vec![vote], signatures: vec![vec![2]] })) }.encode_to_vec(),
            _ => proto::SyncRequest { sync_request: some(16).then(|| proto::sync_request::SyncRequest::Value(proto::SyncValueRequest { height })) }.encode_to_vec(),
        },
    };
    let b = || Bytes::from(bytes.clone());
    let codec = SnapchainCodec;
    let ok = match c.kind % 5 {
        0 => Codec::<SignedConsensusMsg<Ctx>>::decode(&codec, b()).is_ok(),
        1 => match Codec::<StreamMessage<FullProposal>>::decode(&codec, b()) {
            Ok(m) => {
                use snapchain::core::types::FullProposalExt;
                let p = m.content.as_data().unwrap();
                // what the host reads off every proposal it is given
                let _ = (p.height(), p.round(), p.shard_hash(), p.proposer_address(), p.shard_id().unwrap());
                true
            }
            Err(_) => false,
        },
        2 => Codec::<sync::Response<Ctx>>::decode(&codec, b()).is_ok(),
        3 => Codec::<sync::Request<Ctx>>::decode(&codec, b()).is_ok(),
        _ => Codec::<sync::Status<Ctx>>::decode(&codec, b()).is_ok(),
    };
    o.label(if ok { "decoded" } else { "refused" });
    let fits = match c.msg % 6 { 0 | 1 => 0, 2 => 1, 5 => 3, _ => 2 } == c.kind % 5;
    if fits && c.raw.is_none() && c.drop & 127 == 0 && c.voter_len == 32 && (0..2).contains(&c.typ) && (0..=u32::MAX as i64).contains(&c.round) {
        ensure!(ok, "a complete message was refused");
        o.label("complete");
    }
    o.nt();
    Ok(())
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum PvOp {
    Add { shard: bool, h: u64, round: i64, hash: u8 },
    Decide(u64),
}
fn check_pv(ops: &Vec<PvOp>, o: &mut Obs) -> R {
    let mut pv = ProposedValues::new();
    let mut model: BTreeMap<u8, (FullProposal, BTreeSet<u64>)> = BTreeMap::new();
    for (i, op) in ops.iter().enumerate() {
        match op {
            PvOp::Add { shard, h, round, hash } => {
                // a hash names one height, as it does for real headers
                let h = *h * 16 + (*hash as u64 % 16);
                let hash = (*hash).wrapping_add((h as u8).wrapping_mul(17));
                let fp = FullProposal {
                    height: Some(Height::new(1, h)), round: *round, proposer: pk(1),
                    proposed_value: Some(if *shard {
                        proto::full_proposal::ProposedValue::Shard(proto::ShardChunk { hash: vec![hash, h as u8, 1], ..Default::default() })
                    } else {
                        proto::full_proposal::ProposedValue::Block(proto::Block { hash: vec![hash, h as u8, 1], ..Default::default() })
                    }),
                };
                ensure_eq!(fp.shard_hash(), ShardHash { shard_index: 1, hash: vec![hash, h as u8, 1] }, "identity of a proposal");
                ensure_eq!((fp.shard_id(), fp.height(), fp.round()), (Ok(1), Height::new(1, h), Round::new(*round as u32)), "parts of a proposal");
                ensure_eq!((fp.block(Default::default()).is_some(), fp.shard_chunk(Default::default()).is_some()), (!*shard, *shard), "kind of a proposal");
                let k = { let mut m = model.keys().copied().collect::<Vec<_>>(); m.push(hash); hash };
                let key = k;
                let e = model.entry(key).or_insert_with(|| (fp.clone(), BTreeSet::new()));
                if e.0.height() != fp.height() {
                    // a collision of this generator's 8-bit hashes: skip
                    continue;
                }
                e.0 = fp.clone();
                e.1.insert(h);
                pv.add_proposed_value(fp);
            }
            PvOp::Decide(h) => {
                pv.decide(Height::new(1, *h));
                model.retain(|_, v| v.0.height().block_number > *h);
            }
        }
        ensure_eq!(pv.count(), model.len(), "proposals kept after step {i}");
        for (hash, (fp, _)) in &model {
            let id = ShardHash { shard_index: 1, hash: vec![*hash, fp.height().block_number as u8, 1] };
            ensure_eq!(pv.get_by_shard_hash(&id), Some(fp), "proposal {hash} after step {i}");
        }
    }
    o.label_if(ops.iter().any(|x| matches!(x, PvOp::Decide(_))), "decided");
    if ops.len() > 2 {
        o.nt()
    }
    Ok(())
}
pub fn c09(p: &mut Prop) {
    p.sub("sets_and_turns", "validator set schedules, key orders, heights and rounds: set in force, order, rotation, membership, additions; non-trivial = more than one set",
        30_000, 150_000,
        || (sets_strategy(), 0u32..3, 0u64..70, 0u32..20, pvec(0u8..12, 0..4), any::<u8>())
            .prop_map(|(sets, shard, height, round, foreign, shuffle)| SetsCase { sets, shard, height, round, foreign, shuffle }).boxed(),
        check_sets);
    p.sub("votes_and_proposals", "random votes and proposals: wire and codec round trips, signed bytes cover every field; every case non-trivial",
        60_000, 240_000,
        || (0u32..4, any::<u32>(), -1i64..4, -1i64..4, prop_oneof![3 => pvec(any::<u8>(), 0..33).prop_map(Some), 1 => Just(None)], 0u8..20, any::<bool>(), any::<u8>())
            .prop_map(|(shard, height, round, pol, hash, who, prevote, other)| MsgC { shard, height: height as u64, round, pol, hash, who, prevote, other, sig: vec![] }).boxed(),
        check_votes);
    p.sub("hostile_bytes", "consensus and sync messages with missing fields, wrong key lengths, unknown vote types and rounds, and arbitrary bytes: decoding ends in a value or an error; every case non-trivial",
        600_000, 2_400_000,
        || (0u8..5, 0u8..6, prop_oneof![2 => Just(0u16), 3 => any::<u16>().prop_map(|x| x & 127)], pvec(any::<u8>(), 0..34), prop_oneof![4 => Just(32usize), 1 => Just(0usize), 1 => Just(31usize), 1 => Just(33usize)],
            prop_oneof![4 => 0i32..2, 1 => any::<i32>()], prop_oneof![4 => -1i64..3, 1 => any::<i64>()], prop_oneof![5 => Just(None), 1 => pvec(any::<u8>(), 0..40).prop_map(Some)], any::<bool>())
            .prop_map(|(kind, msg, drop, bytes, voter_len, typ, round, raw, fit)| WireCase { kind: if fit { [0, 0, 1, 2, 2, 3][msg as usize] } else { kind }, msg, drop, bytes, voter_len, typ, round, raw }).boxed(),
        check_wire);
    p.sub("pending_proposals", "histories of proposals and decisions against a map; non-trivial = three or more steps",
        80_000, 320_000,
        || pvec(prop_oneof![4 => (any::<bool>(), 0u64..4, 0i64..3, any::<u8>()).prop_map(|(shard, h, round, hash)| PvOp::Add { shard, h, round, hash }), 1 => (0u64..64).prop_map(PvOp::Decide)], 0..24).boxed(),
        check_pv);
}
