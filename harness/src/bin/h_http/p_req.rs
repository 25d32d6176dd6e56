//! C27: what an HTTP request asks the node for.
use crate::arb::Tape;
use crate::frame::{Obs, Prop, R};
use crate::gens::pvec;
use crate::http::exchange;
use base64::prelude::*;
use prost::Message as _;
use proptest::prelude::*;
use snapchain::proto::*;
use std::collections::HashMap;

#[derive(Clone, Copy, Debug)]
pub enum K {
    U64,
    U32,
    Bool,
    Str,
    Hex,
    B64,
    Name(&'static [(&'static str, i32)]),
}
#[derive(Clone, Debug, PartialEq)]
pub enum V {
    U(u64),
    B(bool),
    S(String),
    X(Vec<u8>),
    N(i32),
}
/// field, accepted names (the first is preferred), kind, required
pub struct Par(pub &'static str, pub &'static [&'static str], pub K, pub bool);
pub type Vals = HashMap<&'static str, V>;
pub struct Ep {
    pub path: &'static str,
    pub rpc: &'static str,
    pub pars: Vec<Par>,
    /// the encoded request the node must receive; None: the request is refused
    pub build: fn(&Vals) -> Option<Vec<u8>>,
}
fn u(v: &Vals, k: &str) -> u64 {
    match v.get(k) {
        Some(V::U(x)) => *x,
        o => panic!("{k} {o:?}"),
    }
}
fn ou(v: &Vals, k: &str) -> Option<u64> {
    v.contains_key(k).then(|| u(v, k))
}
fn ou32(v: &Vals, k: &str) -> Option<u32> {
    ou(v, k).map(|x| x as u32)
}
fn ob(v: &Vals, k: &str) -> Option<bool> {
    match v.get(k) {
        Some(V::B(x)) => Some(*x),
        _ => None,
    }
}
fn os(v: &Vals, k: &str) -> Option<String> {
    match v.get(k) {
        Some(V::S(x)) => Some(x.clone()),
        _ => None,
    }
}
fn ox(v: &Vals, k: &str) -> Option<Vec<u8>> {
    match v.get(k) {
        Some(V::X(x)) => Some(x.clone()),
        _ => None,
    }
}
fn on(v: &Vals, k: &str) -> Option<i32> {
    match v.get(k) {
        Some(V::N(x)) => Some(*x),
        _ => None,
    }
}
fn x(v: &Vals, k: &str) -> Vec<u8> {
    ox(v, k).unwrap()
}
fn tok(v: &Vals) -> Option<Vec<u8>> {
    ox(v, "pt").filter(|t| !t.is_empty())
}

const RT: &[(&str, i32)] = &[("Like", 1), ("Recast", 2), ("None", 0)];
const ET: &[(&str, i32)] = &[
    ("EVENT_TYPE_NONE", 0),
    ("EVENT_TYPE_SIGNER", 1),
    ("EVENT_TYPE_SIGNER_MIGRATED", 2),
    ("EVENT_TYPE_ID_REGISTER", 3),
    ("EVENT_TYPE_STORAGE_RENT", 4),
    ("EVENT_TYPE_TIER_PURCHASE", 5),
    ("EVENT_TYPE_CHANNEL_REGISTER", 6),
];
const CS: &[(&str, i32)] = &[
    ("CHANNEL_MEMBER_STATE_NONE", 0),
    ("CHANNEL_MEMBER_STATE_MEMBER", 1),
    ("CHANNEL_MEMBER_STATE_MODERATOR", 2),
    ("CHANNEL_MEMBER_STATE_REMOVED", 3),
    ("CHANNEL_MEMBER_STATE_BANNED", 4),
];

fn page(mut p: Vec<Par>, rev: bool) -> Vec<Par> {
    p.push(Par("ps", &["page_size", "pageSize"], K::U32, false));
    p.push(Par("pt", &["page_token", "pageToken"], K::B64, false));
    if rev {
        p.push(Par("rev", &["reverse"], K::Bool, false));
    }
    p
}
fn fidp() -> Par {
    Par("fid", &["fid"], K::U64, true)
}
fn chan() -> Par {
    Par("ch", &["channelId"], K::Hex, true)
}
fn fid_req(v: &Vals) -> Option<Vec<u8>> {
    Some(FidRequest { fid: u(v, "fid"), page_size: ou32(v, "ps"), page_token: tok(v), reverse: ob(v, "rev") }.encode_to_vec())
}
fn chan_req(v: &Vals) -> Option<Vec<u8>> {
    Some(ChannelRequest { channel_id: x(v, "ch") }.encode_to_vec())
}
fn cid(fid: u64, hash: Vec<u8>) -> CastId {
    CastId { fid, hash }
}

pub fn eps() -> Vec<Ep> {
    let e = |path, rpc, pars, build| Ep { path, rpc, pars, build };
    vec![
        e("info", "get_info", vec![], |_| Some(vec![])),
        e("fids", "get_fids", page(vec![Par("sh", &["shard_id"], K::U32, true)], true), |v| {
            Some(FidsRequest { shard_id: u(v, "sh") as u32, page_size: ou32(v, "ps"), page_token: tok(v), reverse: ob(v, "rev") }.encode_to_vec())
        }),
        e("castById", "get_cast", vec![fidp(), Par("hash", &["hash"], K::Hex, true)], |v| Some(cid(u(v, "fid"), x(v, "hash")).encode_to_vec())),
        e(
            "castsByFid",
            "get_all_cast_messages_by_fid",
            page(vec![fidp(), Par("st", &["start_timestamp", "startTimestamp"], K::U64, false), Par("sp", &["stop_timestamp", "stopTimestamp"], K::U64, false)], true),
            |v| {
                Some(
                    FidTimestampRequest { fid: u(v, "fid"), page_size: ou32(v, "ps"), page_token: tok(v), reverse: ob(v, "rev"), start_timestamp: ou(v, "st"), stop_timestamp: ou(v, "sp") }
                        .encode_to_vec(),
                )
            },
        ),
        e("castsByMention", "get_casts_by_mention", page(vec![fidp()], true), fid_req),
        e(
            "castsByParent",
            "get_casts_by_parent",
            page(vec![Par("fid", &["fid"], K::U64, false), Par("hash", &["hash"], K::Hex, false), Par("url", &["url"], K::Str, false)], true),
            |v| {
                use casts_by_parent_request::Parent;
                let parent = match (ou(v, "fid"), ox(v, "hash"), os(v, "url")) {
                    (Some(f), Some(h), _) => Parent::ParentCastId(cid(f, h)),
                    (_, _, Some(s)) => Parent::ParentUrl(s),
                    _ => return None,
                };
                Some(CastsByParentRequest { parent: Some(parent), page_size: ou32(v, "ps"), page_token: tok(v), reverse: ob(v, "rev") }.encode_to_vec())
            },
        ),
        e(
            "reactionById",
            "get_reaction",
            vec![
                fidp(),
                Par("rt", &["reaction_type"], K::Name(RT), true),
                Par("tf", &["target_fid"], K::U64, false),
                Par("th", &["target_hash"], K::Hex, false),
                Par("tu", &["target_url"], K::Str, false),
            ],
            |v| {
                use reaction_request::Target;
                let target = match (ou(v, "tf"), os(v, "tu")) {
                    (Some(f), _) => Target::TargetCastId(cid(f, ox(v, "th").unwrap_or_default())),
                    (None, Some(s)) => Target::TargetUrl(s),
                    _ => return None,
                };
                Some(ReactionRequest { fid: u(v, "fid"), reaction_type: on(v, "rt").unwrap(), target: Some(target) }.encode_to_vec())
            },
        ),
        e("reactionsByFid", "get_reactions_by_fid", page(vec![fidp(), Par("rt", &["reaction_type"], K::Name(RT), true)], true), |v| {
            Some(ReactionsByFidRequest { fid: u(v, "fid"), reaction_type: on(v, "rt"), page_size: ou32(v, "ps"), page_token: tok(v), reverse: ob(v, "rev") }.encode_to_vec())
        }),
        e(
            "reactionsByCast",
            "get_reactions_by_target",
            page(vec![Par("tf", &["target_fid"], K::U64, true), Par("th", &["target_hash"], K::Hex, false), Par("rt", &["reaction_type"], K::Name(RT), false)], true),
            |v| {
                let target = reactions_by_target_request::Target::TargetCastId(cid(u(v, "tf"), ox(v, "th").unwrap_or_default()));
                Some(ReactionsByTargetRequest { target: Some(target), reaction_type: on(v, "rt"), page_size: ou32(v, "ps"), page_token: tok(v), reverse: ob(v, "rev") }.encode_to_vec())
            },
        ),
        e(
            "reactionsByTarget",
            "get_reactions_by_target",
            page(
                vec![
                    Par("tf", &["target_cast_id[fid]"], K::U64, false),
                    Par("th", &["target_cast_id[hash]"], K::Hex, false),
                    Par("tu", &["url"], K::Str, false),
                    Par("rt", &["reaction_type"], K::Name(RT), false),
                ],
                true,
            ),
            |v| {
                use reactions_by_target_request::Target;
                let target = match (ou(v, "tf"), ox(v, "th"), os(v, "tu")) {
                    (Some(f), Some(h), _) => Target::TargetCastId(cid(f, h)),
                    (None, None, Some(s)) => Target::TargetUrl(s),
                    _ => return None,
                };
                Some(ReactionsByTargetRequest { target: Some(target), reaction_type: on(v, "rt"), page_size: ou32(v, "ps"), page_token: tok(v), reverse: ob(v, "rev") }.encode_to_vec())
            },
        ),
        e(
            "linkById",
            "get_link",
            vec![fidp(), Par("lt", &["link_type"], K::Str, true), Par("tf", &["target_fid"], K::U64, true)],
            |v| Some(LinkRequest { fid: u(v, "fid"), link_type: os(v, "lt").unwrap(), target: Some(link_request::Target::TargetFid(u(v, "tf"))) }.encode_to_vec()),
        ),
        e("linksByFid", "get_links_by_fid", page(vec![fidp(), Par("lt", &["link_type"], K::Str, false)], true), |v| {
            Some(LinksByFidRequest { fid: u(v, "fid"), link_type: os(v, "lt"), page_size: ou32(v, "ps"), page_token: tok(v), reverse: ob(v, "rev") }.encode_to_vec())
        }),
        e("linksByTargetFid", "get_links_by_target", page(vec![Par("tf", &["target_fid"], K::U64, true), Par("lt", &["link_type"], K::Str, false)], true), |v| {
            Some(
                LinksByTargetRequest {
                    target: Some(links_by_target_request::Target::TargetFid(u(v, "tf"))),
                    link_type: os(v, "lt"),
                    page_size: ou32(v, "ps"),
                    page_token: tok(v),
                    reverse: ob(v, "rev"),
                }
                .encode_to_vec(),
            )
        }),
        e("userDataByFid", "get_user_data_by_fid", page(vec![fidp()], true), fid_req),
        e("storageLimitsByFid", "get_current_storage_limits_by_fid", page(vec![fidp()], true), fid_req),
        e("userNameProofByName", "get_username_proof", vec![Par("name", &["name"], K::Str, true)], |v| {
            Some(UsernameProofRequest { name: os(v, "name").unwrap().into_bytes() }.encode_to_vec())
        }),
        e("userNameProofsByFid", "get_user_name_proofs_by_fid", page(vec![fidp()], true), fid_req),
        e("verificationsByFid", "get_verifications_by_fid", page(vec![fidp()], true), fid_req),
        e("onChainSignersByFid", "get_on_chain_signers_by_fid", page(vec![fidp()], true), fid_req),
        e("signer", "get_signer", vec![fidp(), Par("sg", &["signer"], K::Hex, true)], |v| Some(SignerRequest { fid: u(v, "fid"), signer: x(v, "sg") }.encode_to_vec())),
        e("signersByFid", "get_signers_by_fid", page(vec![fidp()], true), |v| {
            Some(SignersByFidRequest { fid: u(v, "fid"), page_size: ou32(v, "ps"), page_token: tok(v), reverse: ob(v, "rev"), requester_fids: vec![] }.encode_to_vec())
        }),
        e("onChainEventsByFid", "get_on_chain_events", page(vec![fidp(), Par("et", &["event_type"], K::Name(ET), true)], true), |v| {
            Some(OnChainEventRequest { fid: u(v, "fid"), event_type: on(v, "et").unwrap(), page_size: ou32(v, "ps"), page_token: tok(v), reverse: ob(v, "rev") }.encode_to_vec())
        }),
        e("channelOwner", "get_channel_owner", vec![Par("key", &["channel_key"], K::Str, true)], |v| Some(ChannelOwnerRequest { channel_key: os(v, "key").unwrap() }.encode_to_vec())),
        e("channelsByAddress", "get_channels_by_address", page(vec![Par("ad", &["address"], K::Hex, true)], true), |v| {
            Some(ChannelsByAddressRequest { owner_address: x(v, "ad"), page_size: ou32(v, "ps"), page_token: tok(v), reverse: ob(v, "rev") }.encode_to_vec())
        }),
        e("channelsByFid", "get_channels_by_fid", page(vec![fidp()], false), |v| {
            Some(ChannelsByFidRequest { fid: u(v, "fid"), page_size: ou32(v, "ps"), page_token: tok(v) }.encode_to_vec())
        }),
        e("channelMember", "get_channel_member", vec![chan(), fidp()], |v| Some(ChannelMemberRequest { channel_id: x(v, "ch"), fid: u(v, "fid") }.encode_to_vec())),
        e("channelMembers", "get_channel_members", page(vec![chan(), Par("sf", &["stateFilter"], K::Name(CS), false)], true), |v| {
            Some(ChannelMembersRequest { channel_id: x(v, "ch"), state_filter: on(v, "sf"), page_size: ou32(v, "ps"), page_token: tok(v), reverse: ob(v, "rev") }.encode_to_vec())
        }),
        e("channelPin", "get_channel_pin", vec![chan()], chan_req),
        e("channelModerations", "get_channel_moderations", page(vec![chan()], true), |v| {
            Some(ChannelModerationsRequest { channel_id: x(v, "ch"), page_size: ou32(v, "ps"), page_token: tok(v), reverse: ob(v, "rev") }.encode_to_vec())
        }),
        e("channelMetadata", "get_channel_metadata", vec![chan()], chan_req),
        e("channelMembershipsByFid", "get_channel_memberships_by_fid", page(vec![fidp()], true), fid_req),
        e("channelFollowers", "get_channel_followers", page(vec![chan()], true), |v| {
            Some(ChannelFollowersRequest { channel_id: x(v, "ch"), page_size: ou32(v, "ps"), page_token: tok(v), reverse: ob(v, "rev") }.encode_to_vec())
        }),
        e("channelFollowerCount", "get_channel_follower_count", vec![chan()], chan_req),
        e("channelFollows", "get_channel_follows", page(vec![fidp()], true), fid_req),
        e("isFollowingChannel", "is_following_channel", vec![fidp(), chan()], |v| Some(IsFollowingChannelRequest { fid: u(v, "fid"), channel_id: x(v, "ch") }.encode_to_vec())),
        e("onChainIdRegistryEventByAddress", "get_id_registry_on_chain_event_by_address", vec![Par("ad", &["address"], K::Hex, true)], |v| {
            Some(IdRegistryEventByAddressRequest { address: x(v, "ad") }.encode_to_vec())
        }),
        e("fidAddressType", "get_fid_address_type", vec![fidp(), Par("ad", &["address"], K::Hex, true)], |v| {
            Some(FidAddressTypeRequest { fid: u(v, "fid"), address: x(v, "ad") }.encode_to_vec())
        }),
        e(
            "events",
            "get_events",
            page(vec![Par("fe", &["from_event_id"], K::U64, false), Par("si", &["shard_index"], K::U32, false), Par("se", &["stop_id"], K::U64, false)], true),
            |v| {
                Some(
                    EventsRequest { start_id: ou(v, "fe").unwrap_or(0), shard_index: ou32(v, "si"), stop_id: ou(v, "se"), page_size: ou32(v, "ps"), page_token: tok(v), reverse: ob(v, "rev") }
                        .encode_to_vec(),
                )
            },
        ),
        e("eventById", "get_event", vec![Par("id", &["event_id"], K::U64, true), Par("si", &["shard_index"], K::U32, true)], |v| {
            Some(EventRequest { id: u(v, "id"), shard_index: u(v, "si") as u32 }.encode_to_vec())
        }),
        e("currentPeers", "get_connected_peers", vec![], |_| Some(vec![])),
    ]
}

/// A value of the kind and one of the ways to write it (before percent-encoding).
fn value(t: &mut Tape, k: K) -> (V, String) {
    match k {
        K::U64 => {
            let v = t.u64();
            (V::U(v), v.to_string())
        }
        K::U32 => {
            let v = t.u32();
            (V::U(v as u64), v.to_string())
        }
        K::Bool => {
            let v = t.flag();
            (V::B(v), v.to_string())
        }
        K::Str => {
            let mut s = t.string();
            if s.is_empty() {
                s = "a".into()
            }
            (V::S(s.clone()), s)
        }
        K::Hex => {
            let mut b = t.bytes();
            if b.is_empty() {
                b = vec![0xab, 0x00]
            }
            let s = match t.u8() % 4 {
                0 => hex::encode(&b),
                1 => hex::encode_upper(&b),
                _ => format!("0x{}", hex::encode(&b)),
            };
            (V::X(b), s)
        }
        K::B64 => {
            let b = t.bytes();
            let s = BASE64_STANDARD.encode(&b);
            (V::X(b), s)
        }
        K::Name(n) => {
            let (s, v) = n[t.below(n.len())];
            (V::N(v), s.to_string())
        }
    }
}
fn malformed(t: &mut Tape, k: K) -> Option<&'static str> {
    let c: &[&'static str] = match k {
        K::U64 => &["-1", "abc", "18446744073709551616", "1.5", "0x10"],
        K::U32 => &["-1", "abc", "4294967296", "1.5", "18446744073709551615"],
        K::Bool => &["maybe", "2", "tru"],
        K::Str => return None,
        K::Hex => &["0xabc", "zz", "0xgg", "abc"],
        K::B64 => &["a", "****", "ab=c"],
        K::Name(_) => &["like", "Bogus", "7", "EVENT_TYPE_BOGUS"],
    };
    Some(c[t.below(c.len())])
}
fn percent(t: &mut Tape, s: &str, k: K) -> String {
    let mut o = String::new();
    let style = t.u8() % 3;
    for b in s.bytes() {
        let plain = b.is_ascii_alphanumeric() || b"-_.~".contains(&b);
        // a page token may be pasted without escaping its + / =
        let b64 = matches!(k, K::B64) && style == 1 && b"+/=".contains(&b);
        if b == b' ' && style != 2 {
            o.push('+')
        } else if (plain && !(style == 2 && t.u8() % 4 == 0)) || b64 {
            o.push(b as char)
        } else if style == 0 {
            o.push_str(&format!("%{b:02X}"))
        } else {
            o.push_str(&format!("%{b:02x}"))
        }
    }
    o
}

pub struct Query {
    pub q: String,
    pub vals: Vals,
    pub bad: Vec<&'static str>,
    pub missing: bool,
    pub alias: bool,
}
pub fn query(t: &mut Tape, ep: &Ep) -> Query {
    let mut parts: Vec<String> = vec![];
    let mut r = Query { q: String::new(), vals: Vals::new(), bad: vec![], missing: false, alias: false };
    for p in &ep.pars {
        let d = t.u8();
        if d % 16 == 15 {
            if p.3 {
                r.missing = true
            }
            continue;
        }
        if !p.3 && d % 3 == 0 {
            continue;
        }
        // which spellings are present
        let which: Vec<usize> = if p.1.len() == 1 {
            vec![0]
        } else {
            match t.u8() % 4 {
                0 => vec![1],
                1 => vec![0, 1],
                _ => vec![0],
            }
        };
        r.alias |= which.contains(&1);
        for (n, i) in which.iter().enumerate() {
            if t.u8() % 24 == 23 {
                if let Some(m) = malformed(t, p.2) {
                    r.bad.push(p.0);
                    parts.push(format!("{}={}", p.1[*i], percent(t, m, K::Str)));
                    continue;
                }
            }
            let (v, s) = value(t, p.2);
            // the preferred spelling wins; an empty token counts as none
            let counts = !(matches!(p.2, K::B64) && s.is_empty());
            if counts && (n == 0 || !r.vals.contains_key(p.0)) {
                r.vals.insert(p.0, v);
            }
            parts.push(format!("{}={}", p.1[*i], percent(t, &s, p.2)));
        }
    }
    if t.u8() % 8 == 7 {
        parts.push("unrelated=1".into());
    }
    for i in (1..parts.len()).rev() {
        let j = t.below(i + 1);
        parts.swap(i, j);
    }
    r.q = parts.join("&");
    r
}

fn cors(a: &crate::http::Answer, c: &str) -> R {
    ensure_eq!(a.header("access-control-allow-origin"), vec![c.as_bytes()], "the allowed origin");
    Ok(())
}
fn refused(a: &crate::http::Answer, status: u16, what: &str) -> R {
    ensure!(a.calls.is_empty(), "{what}, but the node was asked {:?}", a.calls);
    ensure_eq!(a.status, status, "{what}");
    Ok(())
}

thread_local! { static EPS: Vec<Ep> = eps(); }

fn get(tape: &Vec<u8>, o: &mut Obs) -> R {
    let mut t = Tape::new(tape);
    EPS.with(|eps| {
        let ep = &eps[t.below(eps.len())];
        let m = t.u8();
        let c = ["*", "https://app.example"][t.below(2)];
        let q = query(&mut t, ep);
        let url = if q.q.is_empty() { format!("/v1/{}", ep.path) } else { format!("/v1/{}?{}", ep.path, q.q) };
        if m % 32 == 31 {
            let bad = ["POST", "HEAD", "PUT", "DELETE", "OPTIONS"][m as usize / 32 % 5];
            let a = exchange(bad, &url, &[], b"", None, c)?;
            o.label("other method");
            cors(&a, c)?;
            return refused(&a, 404, bad);
        }
        if m % 32 == 30 {
            let u = [format!("/v2/{}", ep.path), format!("/v1/{}/", ep.path), format!("/v1/{}x?{}", ep.path, q.q), format!("/{}?{}", ep.path, q.q), "/".into(), format!("/v1/{}?{}", ep.path.to_uppercase(), q.q)];
            let a = exchange("GET", &u[t.below(u.len())], &[], b"", None, c)?;
            o.label("other path");
            cors(&a, c)?;
            return refused(&a, 404, "unknown path");
        }
        let a = exchange("GET", &url, &[], b"", None, c).map_err(|e| format!("{url}: {e}"))?;
        cors(&a, c)?;
        // a hash is not looked at when the fid it goes with is absent
        let bad = q.bad.iter().any(|f| match (ep.path, *f) {
            ("castsByParent", "hash") => q.vals.contains_key("fid") || q.bad.contains(&"fid"),
            ("reactionById", "th") => q.vals.contains_key("tf") || q.bad.contains(&"tf"),
            _ => true,
        });
        if bad || q.missing {
            o.label_if(bad, "malformed");
            o.label_if(q.missing, "missing");
            return refused(&a, 400, &format!("GET {url} (malformed or incomplete)"));
        }
        let Some(want) = (ep.build)(&q.vals) else {
            o.label("no target");
            return refused(&a, 400, &format!("GET {url} (no target)"));
        };
        ensure_eq!(a.calls.len(), 1, "GET {url}: calls, status {} {}", a.status, String::from_utf8_lossy(&a.body));
        ensure_eq!(a.calls[0].rpc, ep.rpc, "GET {url}: the call");
        ensure!(a.calls[0].req == want, "GET {url}: asked {} for {} instead of {}", ep.rpc, hex::encode(&a.calls[0].req), hex::encode(&want));
        ensure!(a.calls[0].auth.is_none(), "GET {url}: authorization");
        if q.vals.len() > 1 {
            o.nt()
        }
        o.label_if(q.alias, "camelCase");
        o.label(ep.path);
        Ok(())
    })
}

/// requester_fids are lists: none, one, or several
fn lists(c: &(u64, Vec<u64>, Vec<u64>, u8), o: &mut Obs) -> R {
    let (fid, snake, camel, style) = c;
    let mut q = format!("fid={fid}");
    for (n, l) in [("requester_fids", snake), ("requesterFids", camel)] {
        for (i, f) in l.iter().enumerate() {
            match style % 3 {
                0 => q += &format!("&{n}[{i}]={f}"),
                1 => q += &format!("&{n}[]={f}"),
                _ => q += &format!("&{n}={f}"),
            }
        }
    }
    let url = format!("/v1/signersByFid?{q}");
    let a = exchange("GET", &url, &[], b"", None, "*")?;
    let want = if snake.is_empty() { camel } else { snake };
    let wantr = SignersByFidRequest { fid: *fid, requester_fids: want.clone(), ..Default::default() }.encode_to_vec();
    if a.calls.len() != 1 || a.calls[0].req != wantr || a.calls[0].rpc != "get_signers_by_fid" {
        let sig = if style % 3 == 2 && a.status == 400 { "repeated-requester-fids" } else { "requester-fids" };
        o.finding(sig, format!("GET {url}: answered {} {}, asked {:?}", a.status, String::from_utf8_lossy(&a.body), a.calls));
    }
    if want.len() > 1 {
        o.nt()
    }
    // the API's general page spells the flag reverse=1
    let url = format!("/v1/userDataByFid?fid={fid}&reverse=1");
    let a = exchange("GET", &url, &[], b"", None, "*")?;
    if a.calls.len() != 1 || a.calls[0].req != (FidRequest { fid: *fid, reverse: Some(true), ..Default::default() }).encode_to_vec() {
        o.finding("reverse-1", format!("GET {url}: answered {} {}, asked {:?}", a.status, String::from_utf8_lossy(&a.body), a.calls));
    }
    Ok(())
}

/// POST bodies are messages (or bulks of them), handed over whole with the caller's credentials
fn post(tape: &Vec<u8>, o: &mut Obs) -> R {
    let mut t = Tape::new(tape);
    t.enum_max = 17;
    t.wild = true;
    let (path, rpc) = [("validateMessage", "validate_message"), ("submitMessage", "submit_message"), ("submitBulkMessages", "submit_bulk_messages")][t.below(3)];
    let bulk = path == "submitBulkMessages";
    let ct = t.u8();
    let au = t.u8();
    let junk = t.u8();
    let mut body = if bulk {
        t.make::<SubmitBulkMessagesRequest>().encode_to_vec()
    } else {
        let mut m = t.make::<Message>();
        match t.u8() % 4 {
            // the data travels as bytes only
            0 | 1 => {
                if let Some(d) = m.data.take() {
                    m.data_bytes = Some(d.encode_to_vec());
                }
            }
            2 => m.data_bytes = None,
            _ => {}
        }
        m.encode_to_vec()
    };
    if junk % 16 == 15 {
        let n = body.len().max(1);
        body.insert(junk as usize * 7 % n, 0xff);
    }
    let mut h: Vec<(&str, Vec<u8>)> = vec![];
    let good = match ct % 12 {
        11 => false,
        10 => {
            h.push(("content-type", b"application/json".to_vec()));
            false
        }
        9 => {
            h.push(("content-type", b"application/octet-stream; charset=utf-8".to_vec()));
            false
        }
        8 => {
            h.push(("content-type", b"\xff\xfe".to_vec()));
            false
        }
        _ => {
            h.push(("Content-Type", b"application/octet-stream".to_vec()));
            true
        }
    };
    let mut auth: Option<Vec<u8>> = None;
    let mut unreadable = false;
    match au % 8 {
        0..=2 => {}
        7 => {
            h.push(("authorization", b"Basic \xc3\xa9".to_vec()));
            unreadable = true;
        }
        k => {
            let v: &[u8] = [&b"Basic dXNlcjpwYXNz"[..], b"Bearer abc.def-1", b"x", b"Basic a b\tc"][k as usize - 3];
            h.push(("Authorization", v.to_vec()));
            auth = Some(v.to_vec());
        }
    }
    // what the node should be asked
    let want: Option<Vec<u8>> = if bulk {
        SubmitBulkMessagesRequest::decode(&body[..]).ok().map(|r| r.encode_to_vec())
    } else {
        Message::decode(&body[..]).ok().map(|mut m| {
            // signed bytes, where present, are the data
            if let Some(b) = m.data_bytes.as_ref().filter(|b| !b.is_empty()) {
                m.data = MessageData::decode(&b[..]).ok();
            }
            m.encode_to_vec()
        })
    };
    let reply = (path == "validateMessage").then(|| Ok(ValidationResponse { valid: true, message: Some(Message::default()) }.encode_to_vec()));
    let a = exchange("POST", &format!("/v1/{path}"), &h, &body, reply, "*")?;
    cors(&a, "*")?;
    if !good {
        o.label("content type");
        return refused(&a, 400, "wrong content type");
    }
    let Some(want) = want else {
        o.label("not a message");
        return refused(&a, 400, "not a message");
    };
    if unreadable && path != "validateMessage" {
        o.label("unreadable credentials");
        return refused(&a, 400, "unreadable credentials");
    }
    ensure_eq!(a.calls.len(), 1, "POST {path}: calls, status {}", a.status);
    ensure_eq!(a.calls[0].rpc, rpc, "POST {path}: the call");
    if a.calls[0].req != want {
        return Err(format!("POST {path} {}: asked for {} instead of {}", hex::encode(&body), hex::encode(&a.calls[0].req), hex::encode(&want)));
    }
    if path != "validateMessage" {
        ensure_eq!(a.calls[0].auth, auth, "POST {path}: forwarded credentials");
    }
    o.label(path);
    o.label_if(auth.is_some(), "credentials");
    if body.len() > 20 {
        o.nt()
    }
    Ok(())
}

fn mesh(tape: &Vec<u8>, o: &mut Obs) -> R {
    let mut t = Tape::new(tape);
    let mut parts = vec![];
    let (mut vo, mut crawl, mut ascii) = (true, false, false);
    for _ in 0..t.below(5) {
        let v = ["true", "false", "0", "1", ""][t.below(5)];
        match t.u8() % 4 {
            0 => {
                parts.push(format!("validators_only={v}"));
                vo = v != "false" && v != "0";
            }
            1 => {
                parts.push(format!("crawl={v}"));
                crawl = v != "false" && v != "0";
            }
            2 => {
                if t.flag() {
                    parts.push("format=ascii".into());
                    ascii = true
                } else {
                    parts.push("topics=consensus,mempool".into())
                }
            }
            _ => parts.push("other=1".into()),
        }
    }
    let au = t.u8() % 4;
    let mut h: Vec<(&str, Vec<u8>)> = vec![];
    let mut auth = None;
    match au {
        1 | 2 => {
            h.push(("authorization", b"Basic dXNlcjpwYXNz".to_vec()));
            auth = Some(b"Basic dXNlcjpwYXNz".to_vec())
        }
        3 => h.push(("authorization", b"Basic \xc3\xa9".to_vec())),
        _ => {}
    }
    let err = match t.u8() % 4 {
        0 => Some(tonic::Status::unauthenticated("no")),
        1 => Some(tonic::Status::internal("wedged \"loop\"")),
        _ => None,
    };
    let url = format!("/v1/mesh?{}", parts.join("&"));
    let a = exchange("GET", &url, &h, b"", err.clone().map(Err), "*")?;
    cors(&a, "*")?;
    let want = GetMeshViewRequest { validators_only: vo, ttl: 0, visited_peer_ids: vec![] }.encode_to_vec();
    ensure_eq!(a.calls.len(), 1, "GET {url}: calls");
    ensure_eq!(a.calls[0].rpc, if crawl { "get_mesh_topology" } else { "get_mesh_view" }, "GET {url}");
    ensure_eq!(a.calls[0].req, want, "GET {url}: the request");
    ensure_eq!(a.calls[0].auth, auth, "GET {url}: forwarded credentials");
    match err {
        None => {
            ensure_eq!(a.status, 200, "GET {url}");
            let ct = String::from_utf8_lossy(a.header("content-type").first().unwrap_or(&&b""[..])).to_string();
            ensure!(if ascii { ct.starts_with("text/plain") } else { ct == "application/json" }, "GET {url}: content type {ct}");
            if !ascii {
                ensure!(serde_json::from_slice::<serde_json::Value>(&a.body).is_ok(), "GET {url}: not JSON");
            }
        }
        Some(s) => {
            ensure_eq!(a.status, if s.code() == tonic::Code::Unauthenticated { 401 } else { 500 }, "GET {url} refused with {s}");
            let b = String::from_utf8_lossy(&a.body).to_string();
            ensure!(b.contains("no") || b.contains("wedged"), "GET {url}: the reason is not told: {b}");
            o.label("refused");
        }
    }
    o.label_if(crawl, "crawl");
    o.label_if(ascii, "ascii");
    o.nt();
    // the page itself is open and asks the node nothing
    let a = exchange("GET", "/v1/mesh/ui", &h, b"", None, "*")?;
    ensure!(a.calls.is_empty() && a.status == 200, "the page: {} {:?}", a.status, a.calls);
    Ok(())
}

pub fn c27(p: &mut Prop) {
    p.sub("get", "the request is accepted and carries at least two parameters", 1_200_000, 20_000_000, || pvec(any::<u8>(), 0..160).boxed(), get);
    p.sub("lists", "more than one requester", 40_000, 400_000, || (any::<u64>(), pvec(any::<u64>(), 0..4), pvec(any::<u64>(), 0..3), any::<u8>()).boxed(), lists);
    p.sub("post", "the node is handed a body of more than 20 bytes", 600_000, 8_000_000, || pvec(any::<u8>(), 0..400).boxed(), post);
    p.sub("mesh", "always", 150_000, 2_000_000, || pvec(any::<u8>(), 0..32).boxed(), mesh);
}
