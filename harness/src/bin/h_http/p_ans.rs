//! C28: how an HTTP answer shows the node's reply.
use crate::arb::Tape;
use crate::frame::{Obs, Prop, R};
use crate::gens::pvec;
use crate::http::exchange;
use crate::p_req::{eps, query, Ep};
use base64::prelude::*;
use prost::Message as _;
use proptest::prelude::*;
use serde_json::{json, Map, Value};
use snapchain::proto::*;
use std::panic::{catch_unwind, AssertUnwindSafe};

type J = Result<Value, ()>;
fn x(b: &[u8]) -> Value {
    json!(format!("0x{}", hex::encode(b)))
}
fn b64(b: &[u8]) -> Value {
    json!(BASE64_STANDARD.encode(b))
}
fn obj(mut v: Value, opt: Vec<(&str, Option<Value>)>) -> Value {
    let m = v.as_object_mut().unwrap();
    for (k, o) in opt {
        if let Some(o) = o {
            m.insert(k.to_string(), o);
        }
    }
    v
}
/// The names of the enum, written out from the protocol definition and not taken from the code.
fn name(t: &[&str], i: i32) -> J {
    usize::try_from(i).ok().and_then(|i| t.get(i)).filter(|s| !s.is_empty()).map(|s| json!(s)).ok_or(())
}
const MT: &[&str] = &[
    "MESSAGE_TYPE_NONE",
    "MESSAGE_TYPE_CAST_ADD",
    "MESSAGE_TYPE_CAST_REMOVE",
    "MESSAGE_TYPE_REACTION_ADD",
    "MESSAGE_TYPE_REACTION_REMOVE",
    "MESSAGE_TYPE_LINK_ADD",
    "MESSAGE_TYPE_LINK_REMOVE",
    "MESSAGE_TYPE_VERIFICATION_ADD_ETH_ADDRESS",
    "MESSAGE_TYPE_VERIFICATION_REMOVE",
    "",
    "",
    "MESSAGE_TYPE_USER_DATA_ADD",
    "MESSAGE_TYPE_USERNAME_PROOF",
    "MESSAGE_TYPE_FRAME_ACTION",
    "MESSAGE_TYPE_LINK_COMPACT_STATE",
    "MESSAGE_TYPE_LEND_STORAGE",
    "MESSAGE_TYPE_KEY_ADD",
    "MESSAGE_TYPE_KEY_REMOVE",
    "MESSAGE_TYPE_CHANNEL_UPDATE",
    "MESSAGE_TYPE_CHANNEL_MEMBER",
    "MESSAGE_TYPE_CHANNEL_PIN",
    "MESSAGE_TYPE_CHANNEL_MODERATE",
];
const NET: &[&str] = &["FARCASTER_NETWORK_NONE", "FARCASTER_NETWORK_MAINNET", "FARCASTER_NETWORK_TESTNET", "FARCASTER_NETWORK_DEVNET"];
const HS: &[&str] = &["HASH_SCHEME_NONE", "HASH_SCHEME_BLAKE3"];
const SS: &[&str] = &["SIGNATURE_SCHEME_NONE", "SIGNATURE_SCHEME_ED25519", "SIGNATURE_SCHEME_EIP712"];
const CT: &[&str] = &["CAST", "LONG_CAST", "TEN_K_CAST"];
const RTY: &[&str] = &["REACTION_TYPE_NONE", "REACTION_TYPE_LIKE", "REACTION_TYPE_RECAST"];
const UD: &[&str] = &[
    "USER_DATA_TYPE_NONE",
    "USER_DATA_TYPE_PFP",
    "USER_DATA_TYPE_DISPLAY",
    "USER_DATA_TYPE_BIO",
    "",
    "USER_DATA_TYPE_URL",
    "USER_DATA_TYPE_USERNAME",
    "USER_DATA_TYPE_LOCATION",
    "USER_DATA_TYPE_TWITTER",
    "USER_DATA_TYPE_GITHUB",
    "USER_DATA_TYPE_BANNER",
    "USER_DATA_PRIMARY_ADDRESS_ETHEREUM",
    "USER_DATA_PRIMARY_ADDRESS_SOLANA",
    "USER_DATA_TYPE_PROFILE_TOKEN",
    "USER_DATA_TYPE_LIVE_AT",
];
const UN: &[&str] = &["USERNAME_TYPE_NONE", "USERNAME_TYPE_FNAME", "USERNAME_TYPE_ENS_L1", "USERNAME_TYPE_BASENAME"];
const PR: &[&str] = &["PROTOCOL_ETHEREUM", "PROTOCOL_SOLANA"];
const CM: &[&str] = &["CASTING_MODE_NONE", "CASTING_MODE_EVERYONE", "CASTING_MODE_MEMBERS_ONLY", "CASTING_MODE_RECOMMENDED"];
const MM: &[&str] = &["MEMBERSHIP_MODE_NONE", "MEMBERSHIP_MODE_OPEN", "MEMBERSHIP_MODE_APPROVAL"];
const MS: &[&str] = &["CHANNEL_MEMBER_STATE_NONE", "CHANNEL_MEMBER_STATE_MEMBER", "CHANNEL_MEMBER_STATE_MODERATOR", "CHANNEL_MEMBER_STATE_REMOVED", "CHANNEL_MEMBER_STATE_BANNED"];
const HE: &[&str] = &[
    "HUB_EVENT_TYPE_NONE",
    "HUB_EVENT_TYPE_MERGE_MESSAGE",
    "HUB_EVENT_TYPE_PRUNE_MESSAGE",
    "HUB_EVENT_TYPE_REVOKE_MESSAGE",
    "",
    "",
    "HUB_EVENT_TYPE_MERGE_USERNAME_PROOF",
    "",
    "",
    "HUB_EVENT_TYPE_MERGE_ON_CHAIN_EVENT",
    "HUB_EVENT_TYPE_MERGE_FAILURE",
    "HUB_EVENT_TYPE_BLOCK_CONFIRMED",
    "HUB_EVENT_TYPE_CHANNEL_OWNER_CHANGE_HINT",
];
fn or0(t: &[&str], i: i32) -> Value {
    name(t, i).unwrap_or(json!(t[0]))
}
fn cast_id(c: &CastId) -> Value {
    json!({"fid": c.fid, "hash": x(&c.hash)})
}
fn addr(p: i32, a: &[u8]) -> Value {
    if p == 0 {
        x(a)
    } else {
        json!(bs58::encode(a).into_string())
    }
}
fn data(d: &MessageData) -> J {
    use message_data::Body as B;
    let (k, body) = match d.body.as_ref().ok_or(())? {
        B::CastAddBody(b) => {
            use cast_add_body::Parent::*;
            let embeds: Vec<Value> = b
                .embeds
                .iter()
                .map(|e| match &e.embed {
                    Some(embed::Embed::Url(u)) => json!({ "url": u }),
                    Some(embed::Embed::CastId(c)) => json!({"castId": cast_id(c)}),
                    None => json!({"url": ""}),
                })
                .collect();
            (
                "castAddBody",
                json!({
                    "embedsDeprecated": b.embeds_deprecated, "mentions": b.mentions, "text": b.text, "embeds": embeds,
                    "mentionsPositions": b.mentions_positions, "type": name(CT, b.r#type)?,
                    "parentCastId": match &b.parent { Some(ParentCastId(c)) => cast_id(c), _ => Value::Null },
                    "parentUrl": match &b.parent { Some(ParentUrl(u)) => json!(u), _ => Value::Null },
                }),
            )
        }
        B::CastRemoveBody(b) => ("castRemoveBody", json!({"targetHash": b64(&b.target_hash)})),
        B::ReactionBody(b) => {
            use reaction_body::Target::*;
            (
                "reactionBody",
                obj(
                    json!({"type": name(RTY, b.r#type)?}),
                    vec![
                        ("targetCastId", match &b.target { Some(TargetCastId(c)) => Some(cast_id(c)), _ => None }),
                        ("targetUrl", match &b.target { Some(TargetUrl(u)) => Some(json!(u)), _ => None }),
                    ],
                ),
            )
        }
        B::VerificationAddAddressBody(b) => (
            "verificationAddAddressBody",
            json!({"address": addr(b.protocol, &b.address), "claimSignature": b64(&b.claim_signature), "blockHash": addr(b.protocol, &b.block_hash),
                "type": b.verification_type, "chainId": b.chain_id, "protocol": name(PR, b.protocol)?}),
        ),
        B::VerificationRemoveBody(b) => ("verificationRemoveBody", json!({"address": addr(b.protocol, &b.address), "protocol": name(PR, b.protocol)?})),
        B::UserDataBody(b) => ("userDataBody", json!({"type": name(UD, b.r#type)?, "value": b.value})),
        B::LinkBody(b) => {
            let Some(link_body::Target::TargetFid(f)) = &b.target else { return Err(()) };
            ("linkBody", json!({"type": b.r#type, "displayTimestamp": b.display_timestamp, "targetFid": f}))
        }
        B::UsernameProofBody(b) => ("usernameProofBody", proof_body(b)?),
        B::FrameActionBody(b) => (
            "frameActionBody",
            obj(
                json!({"url": b64(&b.url), "buttonIndex": b.button_index, "inputText": b64(&b.input_text), "state": b64(&b.state),
                    "transactionId": b64(&b.transaction_id), "address": x(&b.address)}),
                vec![("castId", b.cast_id.as_ref().map(cast_id))],
            ),
        ),
        B::LinkCompactStateBody(b) => ("linkCompactStateBody", json!({"type": b.r#type, "targetFids": b.target_fids})),
        B::LendStorageBody(b) => (
            "lendStorageBody",
            json!({"toFid": b.to_fid, "numUnits": b.num_units, "unitType": or0(&["UnitTypeLegacy", "UnitType2024", "UnitType2025"], b.unit_type)}),
        ),
        B::KeyAddBody(b) => (
            "keyAddBody",
            json!({"key": x(&b.key), "keyType": b.key_type, "custodySignature": x(&b.custody_signature), "deadline": b.deadline, "nonce": b.nonce,
                "metadata": x(&b.metadata), "metadataType": b.metadata_type, "registrationTxHash": x(&b.registration_tx_hash), "ttl": b.ttl,
                "scopes": b.scopes.iter().filter_map(|s| name(MT, *s).ok()).collect::<Vec<_>>()}),
        ),
        B::KeyRemoveBody(b) => {
            ("keyRemoveBody", json!({"key": x(&b.key), "signature": x(&b.signature), "signatureType": b.signature_type, "deadline": b.deadline, "nonce": b.nonce}))
        }
        B::ChannelUpdateBody(b) => (
            "channelUpdateBody",
            obj(
                json!({"channelId": x(&b.channel_id)}),
                vec![
                    ("name", b.name.as_ref().map(|v| json!(v))),
                    ("description", b.description.as_ref().map(|v| json!(v))),
                    ("imageUrl", b.image_url.as_ref().map(|v| json!(v))),
                    ("header", b.header.as_ref().map(|v| json!(v))),
                    ("rules", b.rules.as_ref().map(|v| json!(v))),
                    ("castingMode", b.casting_mode.map(|v| name(CM, v)).transpose()?),
                    ("membershipMode", b.membership_mode.map(|v| name(MM, v)).transpose()?),
                ],
            ),
        ),
        B::ChannelMemberBody(b) => (
            "channelMemberBody",
            json!({"channelId": x(&b.channel_id), "fid": b.fid, "action": name(MA, b.action)?}),
        ),
        B::ChannelPinBody(b) => ("channelPinBody", json!({"channelId": x(&b.channel_id), "castHash": x(&b.cast_hash)})),
        B::ChannelModerateBody(b) => ("channelModerateBody", json!({"channelId": x(&b.channel_id), "castHash": x(&b.cast_hash), "action": name(MO, b.action)?})),
    };
    Ok(obj(json!({"type": name(MT, d.r#type)?, "fid": d.fid, "timestamp": d.timestamp, "network": name(NET, d.network)?}), vec![(k, Some(body))]))
}
const MA: &[&str] = &[
    "CHANNEL_MEMBER_ACTION_NONE",
    "CHANNEL_MEMBER_ACTION_ADD_MEMBER",
    "CHANNEL_MEMBER_ACTION_REMOVE_MEMBER",
    "CHANNEL_MEMBER_ACTION_ADD_MODERATOR",
    "CHANNEL_MEMBER_ACTION_REMOVE_MODERATOR",
    "CHANNEL_MEMBER_ACTION_BAN",
    "CHANNEL_MEMBER_ACTION_UNBAN",
];
const MO: &[&str] = &["CHANNEL_MODERATE_ACTION_NONE", "CHANNEL_MODERATE_ACTION_HIDE", "CHANNEL_MODERATE_ACTION_UNHIDE"];
fn proof_body(b: &UserNameProof) -> J {
    let n = std::str::from_utf8(&b.name).map_err(|_| ())?;
    Ok(json!({"timestamp": b.timestamp, "name": n, "owner": x(&b.owner), "signature": b64(&b.signature), "fid": b.fid, "type": name(UN, b.r#type)?}))
}
fn message(m: &Message) -> J {
    let d = data(m.data.as_ref().ok_or(())?)?;
    Ok(json!({"data": d, "hash": x(&m.hash), "hashScheme": name(HS, m.hash_scheme)?, "signature": b64(&m.signature),
        "signatureScheme": name(SS, m.signature_scheme)?, "signer": x(&m.signer)}))
}
fn all<T>(l: &[T], f: impl Fn(&T) -> J) -> J {
    Ok(Value::Array(l.iter().map(f).collect::<Result<_, _>>()?))
}
fn paged(m: &MessagesResponse) -> J {
    Ok(json!({"messages": all(&m.messages, message)?, "nextPageToken": m.next_page_token.as_ref().map(|t| b64(t)).unwrap_or(json!(""))}))
}
fn with_token(v: Value, t: &Option<Vec<u8>>) -> J {
    Ok(obj(v, vec![("nextPageToken", t.as_ref().map(|t| b64(t)))]))
}
/// An empty token says there is no further page: it may be shown as "" or left out.
fn no_page(v: &mut Value) {
    if v.get("nextPageToken") == Some(&json!("")) {
        v.as_object_mut().unwrap().remove("nextPageToken");
    }
}
fn onchain(e: &OnChainEvent) -> J {
    use on_chain_event::Body as B;
    let mut v = json!({"type": or0(&["EVENT_TYPE_NONE", "EVENT_TYPE_SIGNER", "EVENT_TYPE_SIGNER_MIGRATED", "EVENT_TYPE_ID_REGISTER", "EVENT_TYPE_STORAGE_RENT", "EVENT_TYPE_TIER_PURCHASE", "EVENT_TYPE_CHANNEL_REGISTER"], e.r#type),
        "chainId": e.chain_id, "blockNumber": e.block_number, "blockHash": x(&e.block_hash), "blockTimestamp": e.block_timestamp,
        "transactionHash": x(&e.transaction_hash), "logIndex": e.log_index, "fid": e.fid, "txIndex": e.tx_index, "version": e.version,
        "tier_purchase_event_body": null});
    let (k, b) = match &e.body {
        None => return Ok(v),
        Some(B::SignerEventBody(b)) => (
            "signerEventBody",
            json!({"key": x(&b.key), "keyType": b.key_type, "metadata": b64(&b.metadata), "metadataType": b.metadata_type,
                "eventType": or0(&["SIGNER_EVENT_TYPE_NONE", "SIGNER_EVENT_TYPE_ADD", "SIGNER_EVENT_TYPE_REMOVE", "SIGNER_EVENT_TYPE_ADMIN_RESET"], b.event_type)}),
        ),
        Some(B::SignerMigratedEventBody(b)) => ("signerMigratedEventBody", json!({"migratedAt": b.migrated_at})),
        Some(B::IdRegisterEventBody(b)) => (
            "idRegisterEventBody",
            json!({"to": x(&b.to), "from": x(&b.from), "recoveryAddress": x(&b.recovery_address), "eventType": or0(&["None", "Register", "Transfer", "ChangeRecovery"], b.event_type)}),
        ),
        Some(B::StorageRentEventBody(b)) => ("storageRentEventBody", json!({"payer": x(&b.payer), "units": b.units, "expiry": b.expiry})),
        Some(B::TierPurchaseEventBody(b)) => ("tier_purchase_event_body", json!({"payer": x(&b.payer), "for_days": b.for_days, "tier_type": or0(&["None", "Pro"], b.tier_type)})),
        Some(B::ChannelRegisterEventBody(b)) => (
            "channelRegisterEventBody",
            json!({"channelKey": b.channel_key, "expiry": b.expiry, "ownerAddress": x(&b.owner_address), "label": x(&b.label),
                "eventType": or0(&["CHANNEL_REGISTER_EVENT_TYPE_NONE", "CHANNEL_REGISTER_EVENT_TYPE_REGISTER", "CHANNEL_REGISTER_EVENT_TYPE_RENEW", "CHANNEL_REGISTER_EVENT_TYPE_TRANSFER"], b.event_type)}),
        ),
    };
    v[k] = b;
    Ok(v)
}
fn signer(s: &Signer) -> J {
    let scopes: Vec<Value> = s.scopes.iter().filter_map(|s| name(MT, *s).ok()).collect();
    Ok(obj(
        json!({"source": or0(&["SIGNER_SOURCE_NONE", "SIGNER_SOURCE_ONCHAIN", "SIGNER_SOURCE_OFFCHAIN"], s.source), "key": x(&s.key), "keyType": s.key_type, "fid": s.fid}),
        vec![
            ("addedAt", s.added_at.map(|v| json!(v))),
            ("lastUsedAt", s.last_used_at.map(|v| json!(v))),
            ("ttl", s.ttl.map(|v| json!(v))),
            ("expiresAt", s.expires_at.map(|v| json!(v))),
            ("scopes", (!scopes.is_empty()).then(|| json!(scopes))),
            ("requestFid", s.request_fid.map(|v| json!(v))),
            ("nonce", s.nonce.map(|v| json!(v))),
            ("onChainEvent", s.onchain_event.as_ref().map(onchain).transpose()?),
        ],
    ))
}
fn hub_event(e: &HubEvent) -> J {
    use hub_event::Body as B;
    let msg = |m: &Option<Message>| m.as_ref().map(message).transpose();
    let body: Option<(&str, Value)> = match &e.body {
        None => None,
        Some(B::MergeMessageBody(b)) => match msg(&b.message)? {
            Some(m) => Some(("mergeMessageBody", json!({"message": m, "deletedMessages": all(&b.deleted_messages, message)?}))),
            None => None,
        },
        Some(B::PruneMessageBody(b)) => msg(&b.message)?.map(|m| ("pruneMessageBody", json!({ "message": m }))),
        Some(B::RevokeMessageBody(b)) => msg(&b.message)?.map(|m| ("revokeMessageBody", json!({ "message": m }))),
        Some(B::MergeUsernameProofBody(b)) => Some((
            "mergeUsernameProofBody",
            obj(
                json!({}),
                vec![
                    ("usernameProof", b.username_proof.as_ref().map(proof_body).transpose()?),
                    ("deletedUsernameProof", b.deleted_username_proof.as_ref().map(proof_body).transpose()?),
                    ("usernameProofMessage", msg(&b.username_proof_message)?),
                    ("deletedUsernameProofMessage", msg(&b.deleted_username_proof_message)?),
                ],
            ),
        )),
        Some(B::MergeOnChainEventBody(b)) => b.on_chain_event.as_ref().map(onchain).transpose()?.map(|v| ("mergeOnChainEventBody", json!({ "onChainEvent": v }))),
        Some(B::MergeFailure(b)) => msg(&b.message)?.map(|m| ("mergeFailureBody", json!({"message": m, "code": b.code, "reason": b.reason}))),
        Some(B::BlockConfirmedBody(b)) => Some((
            "blockConfirmedBody",
            json!({"blockNumber": b.block_number, "shardIndex": b.shard_index, "timestamp": b.timestamp, "blockHash": x(&b.block_hash), "totalEvents": b.total_events}),
        )),
        Some(B::ChannelOwnerChangeHintBody(b)) => Some((
            "channelOwnerChangeHintBody",
            json!({"channelKey": b.channel_key, "ownerAddress": x(&b.owner_address), "cause": or0(&["CHANNEL_OWNER_CHANGE_CAUSE_NONE", "CHANNEL_OWNER_CHANGE_CAUSE_REGISTER", "CHANNEL_OWNER_CHANGE_CAUSE_TRANSFER", "CHANNEL_OWNER_CHANGE_CAUSE_VERIFICATION_ADD", "CHANNEL_OWNER_CHANGE_CAUSE_VERIFICATION_REMOVE"], b.cause)}),
        )),
    };
    let mut v = json!({"type": name(HE, e.r#type)?, "id": e.id, "blockNumber": e.block_number, "shardIndex": e.shard_index});
    if let Some((k, b)) = body {
        v[k] = b;
    }
    Ok(v)
}
fn user_name_proof(p: &UserNameProof) -> J {
    // a name that is not text cannot be shown exactly
    let n = std::str::from_utf8(&p.name).map_err(|_| ())?;
    Ok(json!({"timestamp": p.timestamp, "name": n, "owner": x(&p.owner), "signature": b64(&p.signature), "fid": p.fid, "type": or0(UN, p.r#type)}))
}
fn channels(r: &ChannelsResponse) -> J {
    with_token(
        json!({"channels": all(&r.channels, |c| Ok(json!({"channelKey": c.channel_key, "fid": c.fid, "ownerAddress": x(&c.owner_address), "expiry": c.expiry})))?}),
        &r.next_page_token,
    )
}
fn contact(c: &ContactInfoBody) -> J {
    Ok(json!({"gossip_address": c.gossip_address, "announce_rpc_address": c.announce_rpc_address, "peer_id": peer_id(&c.peer_id).ok_or(())?,
        "snapchain_version": c.snapchain_version, "network": or0(&["None", "Mainnet", "Testnet", "Devnet"], c.network), "timestamp": c.timestamp}))
}
fn peer_id(b: &[u8]) -> Option<String> {
    libp2p::PeerId::from_bytes(b).ok().map(|p| p.to_base58())
}

/// one endpoint: how to draw a reply and what the answer must be
struct Reply {
    bytes: Vec<u8>,
    want: J,
    rich: bool,
}
fn draw<T: prost::Message + serde::de::DeserializeOwned + PartialEq>(t: &mut Tape, f: impl Fn(&T) -> J) -> Reply {
    let r: T = t.make();
    fin(r, f)
}
fn fin<T: prost::Message>(r: T, f: impl Fn(&T) -> J) -> Reply {
    let bytes = r.encode_to_vec();
    let want = f(&r);
    Reply { rich: want.is_ok() && bytes.len() > 8, bytes, want }
}
/// fix values that would make the whole reply unshowable, so that most replies can be shown
fn tame(t: &mut Tape, m: &mut Message) {
    m.hash_scheme = m.hash_scheme.rem_euclid(2);
    m.signature_scheme = m.signature_scheme.rem_euclid(3);
    if m.data.is_none() {
        m.data = Some(t.make());
    }
    let d = m.data.as_mut().unwrap();
    if name(MT, d.r#type).is_err() {
        d.r#type = 1 + d.r#type.rem_euclid(8);
    }
    d.network = d.network.rem_euclid(4);
    if d.body.is_none() {
        d.body = Some(message_data::Body::CastRemoveBody(CastRemoveBody { target_hash: m.hash.clone() }));
    }
    use message_data::Body as B;
    match d.body.as_mut().unwrap() {
        B::CastAddBody(b) => b.r#type = b.r#type.rem_euclid(3),
        B::ReactionBody(b) => b.r#type = b.r#type.rem_euclid(3),
        B::VerificationAddAddressBody(b) => b.protocol = b.protocol.rem_euclid(2),
        B::VerificationRemoveBody(b) => b.protocol = b.protocol.rem_euclid(2),
        B::UserDataBody(b) => {
            if name(UD, b.r#type).is_err() {
                b.r#type = 1
            }
        }
        B::LinkBody(b) => {
            if b.target.is_none() {
                b.target = Some(link_body::Target::TargetFid(7))
            }
        }
        B::UsernameProofBody(b) => tame_proof(b),
        B::ChannelUpdateBody(b) => {
            b.casting_mode = b.casting_mode.map(|v| v.rem_euclid(4));
            b.membership_mode = b.membership_mode.map(|v| v.rem_euclid(3));
        }
        B::ChannelMemberBody(b) => b.action = b.action.rem_euclid(7),
        B::ChannelModerateBody(b) => b.action = b.action.rem_euclid(3),
        _ => {}
    }
}
fn tame_proof(b: &mut UserNameProof) {
    b.r#type = b.r#type.rem_euclid(4);
    b.name = b.name.iter().map(|c| b'a' + c % 26).collect();
}
fn tame_event(t: &mut Tape, e: &mut HubEvent) {
    use hub_event::Body as B;
    if name(HE, e.r#type).is_err() {
        e.r#type = 1
    }
    let fix = |t: &mut Tape, m: &mut Option<Message>| {
        if let Some(m) = m {
            tame(t, m)
        }
    };
    match e.body.as_mut() {
        Some(B::MergeMessageBody(b)) => {
            fix(t, &mut b.message);
            b.deleted_messages.iter_mut().for_each(|m| tame(t, m))
        }
        Some(B::PruneMessageBody(b)) => fix(t, &mut b.message),
        Some(B::RevokeMessageBody(b)) => fix(t, &mut b.message),
        Some(B::MergeFailure(b)) => fix(t, &mut b.message),
        Some(B::MergeUsernameProofBody(b)) => {
            fix(t, &mut b.username_proof_message);
            fix(t, &mut b.deleted_username_proof_message);
            b.username_proof.iter_mut().for_each(tame_proof);
            b.deleted_username_proof.iter_mut().for_each(tame_proof);
        }
        _ => {}
    }
}
fn a_message(t: &mut Tape) -> Message {
    let mut m: Message = t.make();
    if t.u8() % 16 != 15 {
        tame(t, &mut m)
    }
    m
}
fn a_peer(t: &mut Tape) -> Vec<u8> {
    if t.u8() % 12 == 11 {
        return t.bytes();
    }
    let k = crate::gens::signing_key(t.u8());
    let pk = libp2p::identity::ed25519::PublicKey::try_from_bytes(k.verifying_key().as_bytes()).unwrap();
    libp2p::identity::PublicKey::from(pk).to_peer_id().to_bytes()
}

fn reply(t: &mut Tape, path: &str) -> Option<Reply> {
    t.enum_max = [1, 2, 3, 6, 13, 21][t.below(6)];
    t.wild = t.u8() % 4 == 3;
    let unit = |t: &mut Tape, m: fn(&Message) -> J| {
        let r = a_message(t);
        fin(r, m)
    };
    Some(match path {
        "info" => draw::<GetInfoResponse>(t, |r| {
            Ok(obj(
                json!({"numShards": r.num_shards, "version": r.version, "peer_id": r.peer_id, "nextEngineVersionTimestamp": r.next_engine_version_timestamp,
                    "shardInfos": all(&r.shard_infos, |s| Ok(json!({"shardId": s.shard_id, "maxHeight": s.max_height, "numMessages": s.num_messages,
                        "numFidRegistrations": s.num_fid_registrations, "approxSize": s.approx_size, "blockDelay": s.block_delay, "mempoolSize": s.mempool_size})))?}),
                vec![("dbStats", r.db_stats.as_ref().map(|d| json!({"numMessages": d.num_messages, "numFidRegistrations": d.num_fid_registrations, "approxSize": d.approx_size})))],
            ))
        }),
        "fids" => draw::<FidsResponse>(t, |r| with_token(json!({"fids": r.fids}), &r.next_page_token)),
        "castById" | "reactionById" | "linkById" => unit(t, message),
        "castsByFid" | "castsByMention" | "castsByParent" | "reactionsByFid" | "reactionsByCast" | "reactionsByTarget" | "linksByFid" | "linksByTargetFid" | "userDataByFid"
        | "verificationsByFid" => {
            let n = t.below(4);
            let messages = (0..n).map(|_| a_message(t)).collect();
            let next_page_token = t.make();
            fin(MessagesResponse { messages, next_page_token }, paged)
        }
        "storageLimitsByFid" => draw::<StorageLimitsResponse>(t, |r| {
            Ok(json!({"units": r.units,
                "limits": all(&r.limits, |l| Ok(json!({"storeType": or0(&["None", "Casts", "Links", "Reactions", "UserData", "Verifications", "UsernameProofs"], l.store_type), "name": l.name, "limit": l.limit, "used": l.used,
                    "earliestTimestamp": l.earliest_timestamp, "earliestHash": l.earliest_hash})))?,
                "unitDetails": all(&r.unit_details, |d| Ok(json!({"unitType": or0(&["UnitTypeLegacy", "UnitType2024", "UnitType2025"], d.unit_type), "unitSize": d.unit_size})))?,
                "tier_subscriptions": all(&r.tier_subscriptions, |d| Ok(json!({"tier_type": or0(&["None", "Pro"], d.tier_type), "expires_at": d.expires_at})))?}))
        }),
        "userNameProofByName" => {
            let mut p: UserNameProof = t.make();
            p.name = t.string().into_bytes();
            fin(p, user_name_proof)
        }
        "userNameProofsByFid" => {
            let mut r: UsernameProofsResponse = t.make();
            for p in &mut r.proofs {
                p.name = t.string().into_bytes();
            }
            fin(r, |r| Ok(json!({"proofs": all(&r.proofs, user_name_proof)?})))
        }
        "onChainSignersByFid" | "onChainEventsByFid" => draw::<OnChainEventResponse>(t, |r| with_token(json!({"events": all(&r.events, onchain)?}), &r.next_page_token)),
        "onChainIdRegistryEventByAddress" => draw::<OnChainEvent>(t, onchain),
        "signer" => draw::<SignerResponse>(t, |r| Ok(json!({"signer": signer(r.signer.as_ref().ok_or(())?)?}))),
        "signersByFid" => draw::<SignersByFidResponse>(t, |r| {
            let n: Map<String, Value> = r.requester_fid_nonces.iter().map(|(k, v)| (k.to_string(), json!(v))).collect();
            Ok(obj(
                json!({"signers": all(&r.signers, signer)?, "gaslessSignerCount": r.gasless_signer_count, "gaslessSignerLimit": r.gasless_signer_limit, "currentUserNonce": r.current_user_nonce}),
                vec![("nextPageToken", r.next_page_token.as_ref().map(|t| b64(t))), ("requesterFidNonces", (!n.is_empty()).then(|| Value::Object(n)))],
            ))
        }),
        "channelOwner" => draw::<ChannelOwnerResponse>(t, |r| Ok(json!({"fid": r.fid, "ownerAddress": x(&r.owner_address), "expiry": r.expiry}))),
        "channelsByAddress" | "channelsByFid" => draw::<ChannelsResponse>(t, channels),
        "channelMember" => draw::<ChannelMemberResponse>(t, |r| Ok(obj(json!({"state": name(MS, r.state)?}), vec![("lastActionTs", r.last_action_ts.map(|v| json!(v)))]))),
        "channelMembers" => draw::<ChannelMembersResponse>(t, |r| {
            with_token(json!({"members": all(&r.members, |m| Ok(json!({"fid": m.fid, "state": name(MS, m.state)?})))?}), &r.next_page_token)
        }),
        "channelPin" => draw::<ChannelPinResponse>(t, |r| Ok(json!({"pin": r.pin.as_ref().map(|p| json!({"castHash": x(&p.cast_hash), "authorFid": p.author_fid}))}))),
        "channelModerations" => draw::<ChannelModerationsResponse>(t, |r| {
            with_token(
                json!({"moderations": all(&r.moderations, |m| Ok(json!({"castHash": x(&m.cast_hash), "action": name(MO, m.action)?, "authorFid": m.author_fid})))?}),
                &r.next_page_token,
            )
        }),
        "channelMetadata" => draw::<ChannelMetadataResponse>(t, |r| {
            Ok(json!({"name": r.name, "description": r.description, "imageUrl": r.image_url, "header": r.header, "rules": r.rules,
                "castingMode": name(CM, r.casting_mode)?, "membershipMode": name(MM, r.membership_mode)?}))
        }),
        "channelMembershipsByFid" => draw::<ChannelMembershipsResponse>(t, |r| {
            with_token(json!({"memberships": all(&r.memberships, |m| Ok(json!({"channelId": x(&m.channel_id), "state": name(MS, m.state)?})))?}), &r.next_page_token)
        }),
        "channelFollowers" => draw::<ChannelFollowersResponse>(t, |r| {
            with_token(json!({"followers": all(&r.followers, |m| Ok(json!({"fid": m.fid, "followedAt": m.followed_at})))?}), &r.next_page_token)
        }),
        "channelFollowerCount" => draw::<ChannelFollowerCountResponse>(t, |r| Ok(json!({"count": r.count}))),
        "channelFollows" => draw::<ChannelFollowsResponse>(t, |r| {
            with_token(json!({"follows": all(&r.follows, |m| Ok(json!({"channelId": x(&m.channel_id), "followedAt": m.followed_at})))?}), &r.next_page_token)
        }),
        "isFollowingChannel" => draw::<IsFollowingChannelResponse>(t, |r| Ok(obj(json!({"following": r.following}), vec![("followedAt", r.followed_at.map(|v| json!(v)))]))),
        "fidAddressType" => draw::<FidAddressTypeResponse>(t, |r| Ok(json!({"is_custody": r.is_custody, "is_auth": r.is_auth, "is_verified": r.is_verified}))),
        "events" => {
            let mut r: EventsResponse = t.make();
            for e in &mut r.events {
                tame_event(t, e)
            }
            // the answer has no place for a page token (a recorded TODO there; readers page by event id)
            fin(r, |r| Ok(json!({"events": all(&r.events, hub_event)?})))
        }
        "eventById" => {
            let mut e: HubEvent = t.make();
            if t.u8() % 16 != 15 {
                tame_event(t, &mut e)
            }
            fin(e, hub_event)
        }
        "currentPeers" => {
            let mut r: GetConnectedPeersResponse = t.make();
            for c in &mut r.contacts {
                c.peer_id = a_peer(t)
            }
            for p in &mut r.peers {
                p.peer_id = a_peer(t);
                if let Some(c) = &mut p.contact_info {
                    c.peer_id = a_peer(t)
                }
            }
            fin(r, |r| {
                Ok(json!({"contacts": all(&r.contacts, contact)?,
                    "peers": all(&r.peers, |p| Ok(obj(json!({"source": name(&["", "collected", "derived"], p.source).unwrap_or(json!("unknown")), "observed_address": p.observed_address,
                        "peer_id": peer_id(&p.peer_id).unwrap_or_else(|| hex::encode(&p.peer_id))}),
                        vec![("contact_info", p.contact_info.as_ref().map(contact).transpose()?)])))?}))
            })
        }
        _ => return None,
    })
}

fn diff(a: &Value, b: &Value, at: String) -> Option<String> {
    match (a, b) {
        (Value::Object(m), Value::Object(n)) => {
            let ks: std::collections::BTreeSet<&String> = m.keys().chain(n.keys()).collect();
            ks.into_iter().find_map(|k| match (m.get(k), n.get(k)) {
                (Some(u), Some(v)) => diff(u, v, format!("{at}.{k}")),
                (u, v) => Some(format!("{at}.{k}: answered {u:?}, held {v:?}")),
            })
        }
        (Value::Array(m), Value::Array(n)) if m.len() == n.len() => m.iter().zip(n).enumerate().find_map(|(i, (u, v))| diff(u, v, format!("{at}[{i}]"))),
        _ => (a != b).then(|| format!("{at}: answered {a}, held {b}")),
    }
}

thread_local! { static EPS: Vec<Ep> = eps(); }
const HONEST: &[&str] = &[
    "channelMember",
    "channelMembers",
    "channelPin",
    "channelModerations",
    "channelMetadata",
    "channelMembershipsByFid",
    "channelFollowers",
    "channelFollowerCount",
    "channelFollows",
    "isFollowingChannel",
];

fn refusal(a: &crate::http::Answer, s: &tonic::Status, status: u16, what: &str) -> R {
    ensure_eq!(a.status, status, "{what}: refused by the node with {s}");
    let v: Value = serde_json::from_slice(&a.body).map_err(|e| format!("{what}: {e}"))?;
    let d = v["error_detail"].as_str().or(v["errorDetail"].as_str()).unwrap_or("");
    ensure!(d.contains(s.message()), "{what}: the node's reason {s} is not in {v}");
    ensure!(v["error"].as_str().is_some_and(|s| !s.is_empty()), "{what}: no error in {v}");
    Ok(())
}
const CODES: [tonic::Code; 9] = [
    tonic::Code::NotFound,
    tonic::Code::InvalidArgument,
    tonic::Code::Internal,
    tonic::Code::Unavailable,
    tonic::Code::Unknown,
    tonic::Code::DataLoss,
    tonic::Code::Unauthenticated,
    tonic::Code::ResourceExhausted,
    tonic::Code::FailedPrecondition,
];

fn shown(a: std::thread::Result<Result<crate::http::Answer, String>>, r: &Reply, what: &str, o: &mut Obs) -> R {
    match (&r.want, a) {
        // what cannot be shown is not shown as something else
        (Err(()), Err(_)) | (Err(()), Ok(Err(_))) => o.label("unshowable"),
        (Err(()), Ok(Ok(a))) => {
            o.label("unshowable");
            ensure!(a.status >= 400, "{what}: a reply that cannot be shown was answered {} {}", a.status, String::from_utf8_lossy(&a.body));
        }
        (Ok(_), Err(p)) => std::panic::resume_unwind(p),
        (Ok(_), Ok(Err(e))) => return Err(format!("{what}: {e}")),
        (Ok(w), Ok(Ok(a))) => {
            ensure_eq!(a.status, 200, "{what}: {}", String::from_utf8_lossy(&a.body));
            ensure_eq!(a.header("content-type"), vec![&b"application/json"[..]], "{what}: content type");
            let v: Value = serde_json::from_slice(&a.body).map_err(|e| format!("{what}: {e}"))?;
            let (mut v, mut w) = (v, w.clone());
            no_page(&mut v);
            no_page(&mut w);
            if let Some(d) = diff(&v, &w, String::new()) {
                return Err(format!("{what}: {d}"));
            }
            if r.rich {
                o.nt()
            }
        }
    }
    Ok(())
}

fn get(tape: &Vec<u8>, o: &mut Obs) -> R {
    let mut t = Tape::new(tape);
    EPS.with(|eps| {
        let ep = &eps[t.below(eps.len())];
        // the plainest request the endpoint takes
        let zero = vec![1u8; 64];
        let mut q = query(&mut Tape::new(&zero), ep);
        if (ep.build)(&q.vals).is_none() || q.bad.len() > 0 || q.missing {
            q.q = match ep.path {
                "castsByParent" => "url=a".into(),
                "reactionById" => "fid=1&reaction_type=Like&target_fid=2".into(),
                "reactionsByTarget" => "url=a".into(),
                p => return Err(format!("harness: no request for {p}: {}", q.q)),
            };
        }
        let url = format!("/v1/{}?{}", ep.path, q.q);
        o.label(ep.path);
        if t.u8() % 12 == 11 {
            let s = tonic::Status::new(CODES[t.below(CODES.len())], format!("reason-{}", t.u8()));
            let a = exchange("GET", &url, &[], b"", Some(Err(s.clone())), "*")?;
            let broken = matches!(s.code(), tonic::Code::Internal | tonic::Code::DataLoss | tonic::Code::Unknown);
            o.label("refused by the node");
            return refusal(&a, &s, if broken && HONEST.contains(&ep.path) { 500 } else { 400 }, &url);
        }
        let r = reply(&mut t, ep.path).ok_or(format!("harness: {}", ep.path))?;
        let a = catch_unwind(AssertUnwindSafe(|| exchange("GET", &url, &[], b"", Some(Ok(r.bytes.clone())), "*")));
        shown(a, &r, &url, o)
    })
}

fn post(tape: &Vec<u8>, o: &mut Obs) -> R {
    let mut t = Tape::new(tape);
    t.enum_max = [1, 2, 3, 6, 13, 21][t.below(6)];
    let path = ["validateMessage", "submitMessage", "submitBulkMessages"][t.below(3)];
    let h = vec![("content-type", b"application/octet-stream".to_vec())];
    let what = format!("POST {path}");
    o.label(path);
    if t.u8() % 10 == 9 {
        let s = tonic::Status::new(CODES[t.below(CODES.len())], format!("reason-{}", t.u8()));
        let a = exchange("POST", &format!("/v1/{path}"), &h, b"", Some(Err(s.clone())), "*")?;
        return refusal(&a, &s, 400, &what);
    }
    let r = match path {
        "validateMessage" => {
            let m = a_message(&mut t);
            let valid = t.flag();
            fin(ValidationResponse { valid, message: Some(m) }, |r| Ok(json!({"valid": r.valid, "message": message(r.message.as_ref().unwrap())?})))
        }
        "submitMessage" => fin(a_message(&mut t), message),
        _ => {
            use bulk_message_response::Response as B;
            let mut r: SubmitBulkMessagesResponse = t.make();
            for b in &mut r.messages {
                if let Some(B::Message(m)) = &mut b.response {
                    tame(&mut t, m)
                }
            }
            if t.u8() % 8 != 7 {
                r.messages.retain(|b| b.response.is_some())
            }
            fin(r, |r| {
                Ok(json!({"messages": all(&r.messages, |b| match &b.response {
                    Some(B::Message(m)) => message(m),
                    Some(B::MessageError(e)) => Ok(json!({"hash": x(&e.hash), "errCode": e.err_code, "message": e.message})),
                    None => Err(()),
                })?}))
            })
        }
    };
    let a = catch_unwind(AssertUnwindSafe(|| exchange("POST", &format!("/v1/{path}"), &h, b"", Some(Ok(r.bytes.clone())), "*")));
    shown(a, &r, &what, o)
}

pub fn c28(p: &mut Prop) {
    p.sub("get", "a reply of more than 8 bytes is shown", 1_000_000, 15_000_000, || pvec(any::<u8>(), 0..600).boxed(), get);
    p.sub("post", "a reply of more than 8 bytes is shown", 300_000, 4_000_000, || pvec(any::<u8>(), 0..400).boxed(), post);
}
