//! The channel and signer reads against the model.
use crate::frame::{Obs, R};
use crate::run::*;
use crate::shards::Shards;
use crate::sim::*;
use snapchain::core::util::FarcasterTime;
use snapchain::mempool::routing::{self, MessageRouter};
use snapchain::network::server::MyHubService;
use snapchain::proto::{self, hub_service_server::HubService, message_data::Body};
use snapchain::storage::store::block_engine::BlockEngine;
use snapchain::storage::store::engine::ShardEngine;
use snapchain::storage::store::test_helper as th;
use std::collections::{BTreeMap, HashMap};
use tonic::{Code, Request, Status};

pub const CHANNELS: Mix = Mix { keys: 1, channels: 16, lends: 1, vers: 9, casts: 1, blocks: (2, 6), per_block: (4, 14) };
pub const KEYS: Mix = Mix { keys: 20, channels: 1, lends: 1, vers: 3, casts: 6, blocks: (2, 6), per_block: (2, 12) };

pub struct Api {
    pub s: MyHubService,
    pub rt: tokio::runtime::Runtime,
    pub n: u32,
}
impl Api {
    pub fn new<'a>(zero: &BlockEngine, shards: impl Iterator<Item = (u32, &'a ShardEngine)>) -> Api {
        let mut stores = HashMap::new();
        let mut senders = HashMap::new();
        for (i, e) in shards {
            stores.insert(i, e.get_stores());
            senders.insert(i, e.get_senders());
        }
        let n = stores.len() as u32;
        let (mtx, _) = tokio::sync::mpsc::channel(10);
        let (gtx, _) = tokio::sync::mpsc::channel(10);
        let router: Box<dyn MessageRouter> = Box::new(routing::ShardRouter {});
        let s = MyHubService::new(
            String::new(),
            String::new(),
            vec![],
            zero.stores(),
            stores,
            senders,
            th::statsd_client(),
            n,
            proto::FarcasterNetwork::Devnet,
            router,
            mtx,
            gtx,
            snapchain::connectors::onchain_events::ChainClients { chain_api_map: HashMap::new() },
            "v".into(),
            "p".into(),
            None,
            Default::default(),
        );
        Api { s, rt: rt(), n }
    }
    pub fn call<T>(&self, f: impl std::future::Future<Output = Result<tonic::Response<T>, Status>>) -> Result<T, Status> {
        self.rt.block_on(f).map(|r| r.into_inner())
    }
}
type Page<T> = (Vec<T>, Option<Vec<u8>>);
/// All rows, read in pages of `size`; every page but the last full, up to `shards` times.
pub fn pages<T>(what: &str, size: Option<u32>, shards: usize, mut get: impl FnMut(Option<u32>, Option<Vec<u8>>) -> Result<Page<T>, Status>) -> Result<Vec<T>, String> {
    let mut out = vec![];
    let mut token = None;
    for _ in 0..400 {
        let (rows, next) = get(size, token).map_err(|e| format!("{what} in pages of {size:?}: {e}"))?;
        if let Some(s) = size {
            ensure!(rows.len() <= s as usize * shards, "{what}: a page of {} rows where {s} were asked for", rows.len());
        }
        out.extend(rows);
        match next {
            // also how a client that echoes an absent token starts
            None => return Ok(out),
            t => token = t,
        }
    }
    Err(format!("{what} in pages of {size:?} has no end"))
}
pub const SIZES: [Option<u32>; 5] = [None, Some(1), Some(2), Some(3), Some(5000)];
pub fn code<T: std::fmt::Debug>(what: &str, r: Result<T, Status>, c: Code) -> R {
    match r {
        Err(e) if e.code() == c => Ok(()),
        r => Err(format!("{what}: {r:?}, and not {c:?}")),
    }
}
fn st(s: St) -> i32 {
    match s {
        St::Member => 1,
        St::Moderator => 2,
        St::Removed => 3,
        St::Banned => 4,
    }
}
pub fn channels(c: &Case, o: &mut Obs) -> R {
    let mut net = Net::new(None);
    let mut sh = Shards::new(2, None, true);
    for b in blocks(c) {
        let d = net.step(&b, o)?;
        sh.feed(&net, &b, &d, o)?;
    }
    let a = Api::new(&net.a.e, sh.at.iter().map(|x| (x.0.shard, &x.0.e)));
    read_channels(&a, &net.model, o)
}
pub fn read_channels(a: &Api, m: &Model, o: &mut Obs) -> R {
    let s = &a.s;
    // who owns what
    for name in (0..CHANNELS_N).map(cname).chain(["other".to_string(), String::new(), "chan".into()]) {
        let r = a.call(s.get_channel_owner(Request::new(proto::ChannelOwnerRequest { channel_key: name.clone() })));
        match m.owners.get(&name) {
            None => code(&format!("owner of {name}"), r, Code::NotFound)?,
            Some(w) => {
                let want = proto::ChannelOwnerResponse { fid: m.holder(&w.addr).unwrap_or(0), owner_address: w.addr.clone(), expiry: w.expiry };
                o.label_if(want.fid == 0, "owned by an address nobody holds");
                ensure_eq!(r.map_err(|e| e.to_string())?, want, "owner of {name}");
            }
        }
    }
    let info = |name: &String, w: &Owner, fid: u64| proto::ChannelInfo { channel_key: name.clone(), fid, owner_address: w.addr.clone(), expiry: w.expiry };
    for x in 0..5 {
        let at = if x == 4 { vec![7; 20] } else { addr(x) };
        let fid = m.holder(&at).unwrap_or(0);
        let want: Vec<_> = m.owners.iter().filter(|(_, w)| w.addr == at).map(|(n, w)| info(n, w, fid)).collect();
        for size in SIZES {
            for reverse in [None, Some(true)] {
                let what = format!("channels of address {x}, reverse {reverse:?},");
                let mut got = pages(&what, size, 1, |page_size, page_token| {
                    let q = proto::ChannelsByAddressRequest { owner_address: at.clone(), page_size, page_token: page_token.or(Some(vec![])), reverse };
                    a.call(s.get_channels_by_address(Request::new(q))).map(|r| (r.channels, r.next_page_token))
                })?;
                if reverse.is_some() {
                    got.reverse();
                }
                ensure_eq!(got, want, "{what} in pages of {size:?}");
            }
        }
        let q = proto::ChannelsByAddressRequest { owner_address: at.clone(), page_size: Some(0), ..Default::default() };
        ensure_eq!(a.call(s.get_channels_by_address(Request::new(q))).ok(), Some(Default::default()), "no channels of an address");
    }
    for f in (0..PEOPLE).map(fid).chain([1014, 4242]) {
        let mut at: Vec<_> = (0..4).map(addr).filter(|x| m.holder(x) == Some(f)).collect();
        at.sort();
        let want: Vec<_> = at.iter().flat_map(|x| m.owners.iter().filter(move |(_, w)| w.addr == *x)).map(|(n, w)| info(n, w, f)).collect();
        o.label_if(at.len() > 1 && want.len() > 1, "a fid with channels by two addresses");
        for size in SIZES {
            let got = pages(&format!("channels of {f}"), size, 1, |page_size, page_token| {
                a.call(s.get_channels_by_fid(Request::new(proto::ChannelsByFidRequest { fid: f, page_size, page_token }))).map(|r| (r.channels, r.next_page_token))
            })?;
            ensure_eq!(got, want, "channels of {f} in pages of {size:?}");
        }
        let q = proto::ChannelsByFidRequest { fid: f, page_size: Some(0), ..Default::default() };
        ensure_eq!(a.call(s.get_channels_by_fid(Request::new(q))).ok(), Some(Default::default()), "no channels of a fid");
    }
    // each channel
    for c in 0..=CHANNELS_N + 2 {
        let id = match c {
            x if x < CHANNELS_N => cid(x),
            x if x == CHANNELS_N => crate::gens::keccak(b"other").to_vec(),
            x if x == CHANNELS_N + 1 => cid(0)[..31].to_vec(),
            _ => [cid(0), vec![0]].concat(),
        };
        let refused = if id.len() != 32 {
            Some(Code::InvalidArgument)
        } else if m.channel_owner(&id).is_none() {
            Some(Code::NotFound)
        } else {
            None
        };
        let one = || Request::new(proto::ChannelRequest { channel_id: id.clone() });
        let member = |f: u64| a.call(s.get_channel_member(Request::new(proto::ChannelMemberRequest { channel_id: id.clone(), fid: f })));
        let members = |state_filter, page_size, page_token, reverse| {
            let q = proto::ChannelMembersRequest { channel_id: id.clone(), state_filter, page_size, page_token, reverse };
            a.call(s.get_channel_members(Request::new(q)))
        };
        let moderations = |page_size, page_token, reverse| {
            let q = proto::ChannelModerationsRequest { channel_id: id.clone(), page_size, page_token, reverse };
            a.call(s.get_channel_moderations(Request::new(q)))
        };
        if let Some(r) = refused {
            code("pin", a.call(s.get_channel_pin(one())), r)?;
            code("metadata", a.call(s.get_channel_metadata(one())), r)?;
            code("member", member(1001), r)?;
            code("members", members(None, None, None, None), r)?;
            code("moderations", moderations(None, None, None), r)?;
            continue;
        }
        // standing
        let who: BTreeMap<u64, (i32, u32)> = m.members.iter().filter(|(k, _)| k.0 == id).map(|(k, w)| (k.1, (st(member_st(w)), data(w).timestamp))).collect();
        if !who.is_empty() {
            o.nt();
        }
        for t in 0..15 {
            let f = target(t);
            let want = match who.get(&f) {
                Some((s, ts)) => proto::ChannelMemberResponse { state: *s, last_action_ts: Some(*ts) },
                None => proto::ChannelMemberResponse { state: 0, last_action_ts: None },
            };
            ensure_eq!(member(f).map_err(|e| e.to_string())?, want, "standing of {f} in channel {c}");
        }
        for f in [0, 1 << 32, u64::MAX, (1 << 32) + 1001] {
            code("member", member(f), Code::InvalidArgument)?;
        }
        code("members", members(None, Some(0), None, None), Code::InvalidArgument)?;
        code("members", members(Some(5), None, None, None), Code::InvalidArgument)?;
        code("members", members(Some(-1), None, None, None), Code::InvalidArgument)?;
        code("moderations", moderations(Some(0), None, None), Code::InvalidArgument)?;
        for filter in [None, Some(0), Some(1), Some(2), Some(3), Some(4)] {
            let want: Vec<_> =
                who.iter().filter(|(_, s)| filter.is_none_or(|x| x == 0 || x == s.0)).map(|(f, s)| proto::ChannelMember { fid: *f, state: s.0 }).collect();
            for size in SIZES {
                for reverse in [None, Some(true), Some(false)] {
                    let what = format!("members of channel {c}, state {filter:?}, reverse {reverse:?},");
                    let mut got = pages(&what, size, 1, |n, t| members(filter, n, t.or(Some(vec![])), reverse).map(|r| (r.members, r.next_page_token)))?;
                    if reverse == Some(true) {
                        got.reverse();
                    }
                    ensure_eq!(got, want, "{what} in pages of {size:?}");
                }
            }
        }
        // moderation
        let want: Vec<_> = m
            .moderations
            .iter()
            .filter(|(k, _)| k.0 == id)
            .map(|(k, w)| {
                let (action, author_fid) = moderation(w);
                proto::ChannelModeration { cast_hash: k.1.clone(), action, author_fid }
            })
            .collect();
        for size in SIZES {
            for reverse in [None, Some(true)] {
                let what = format!("moderations of channel {c}, reverse {reverse:?},");
                let mut got = pages(&what, size, 1, |n, t| moderations(n, t, reverse).map(|r| (r.moderations, r.next_page_token)))?;
                if reverse.is_some() {
                    got.reverse();
                }
                ensure_eq!(got, want, "{what} in pages of {size:?}");
            }
        }
        // the pin
        let want = m.pins.get(&id).and_then(|w| match &data(w).body {
            Some(Body::ChannelPinBody(b)) if !b.cast_hash.is_empty() => Some(proto::ChannelPin { cast_hash: b.cast_hash.clone(), author_fid: data(w).fid }),
            _ => None,
        });
        o.label_if(want.is_none() && m.pins.contains_key(&id), "a pin taken off");
        ensure_eq!(a.call(s.get_channel_pin(one())).map_err(|e| e.to_string())?.pin, want, "pin of channel {c}");
        // its description
        let (casting_mode, membership_mode) = m.modes(&id);
        let b = m.updates.get(&id).map(|w| match &data(w).body {
            Some(Body::ChannelUpdateBody(b)) => b.clone(),
            _ => unreachable!(),
        });
        let b = b.unwrap_or_default();
        let want = proto::ChannelMetadataResponse {
            name: b.name,
            description: b.description,
            image_url: b.image_url,
            header: b.header,
            rules: b.rules,
            casting_mode,
            membership_mode,
        };
        ensure_eq!(a.call(s.get_channel_metadata(one())).map_err(|e| e.to_string())?, want, "description of channel {c}");
        // a page of another channel's list is refused
        if let Some(t) = members(None, Some(1), None, None).ok().and_then(|r| r.next_page_token) {
            let q = proto::ChannelMembersRequest { channel_id: cid((c + 1) % CHANNELS_N), page_token: Some(t), ..Default::default() };
            if m.channel_owner(&q.channel_id).is_some() {
                o.label("a page token of another channel");
                ensure!(a.call(s.get_channel_members(Request::new(q))).is_err(), "a page token of channel {c} was taken for another's");
            }
        }
    }
    // each member
    let of = |f: u64, page_size, page_token, reverse| {
        let q = proto::ChannelMembershipsByFidRequest { fid: f, page_size, page_token, reverse };
        a.call(s.get_channel_memberships_by_fid(Request::new(q)))
    };
    for t in 0..15 {
        let f = target(t);
        let want: Vec<_> = m.members.iter().filter(|(k, _)| k.1 == f).map(|(k, w)| proto::ChannelMembership { channel_id: k.0.clone(), state: st(member_st(w)) }).collect();
        o.label_if(want.len() > 1, "a fid in two channels");
        for size in SIZES {
            for reverse in [None, Some(true)] {
                let what = format!("channels {f} is in, reverse {reverse:?},");
                let mut got = pages(&what, size, 1, |n, t| of(f, n, t, reverse).map(|r| (r.memberships, r.next_page_token)))?;
                if reverse.is_some() {
                    got.reverse();
                }
                ensure_eq!(got, want, "{what} in pages of {size:?}");
            }
        }
        code("memberships", of(f, Some(0), None, None), Code::InvalidArgument)?;
    }
    for f in [0, 1 << 32, (1 << 32) + 1001] {
        code("memberships", of(f, None, None, None), Code::InvalidArgument)?;
    }
    Ok(())
}
const CHANNELS_N: u8 = crate::sim::CHANNELS;

// ---- signers -----------------------------------------------------------------------------------

fn unix(t: u32) -> u64 {
    FarcasterTime::new(t as u64).to_unix_seconds()
}
pub fn signers(c: &Case, o: &mut Obs) -> R {
    let mut net = Net::new(None);
    let mut sh = Shards::new(2, None, true);
    for b in blocks(c) {
        let d = net.step(&b, o)?;
        sh.feed(&net, &b, &d, o)?;
    }
    let a = Api::new(&net.a.e, sh.at.iter().map(|x| (x.0.shard, &x.0.e)));
    let s = &a.s;
    for f in (0..PEOPLE).map(fid).chain([4242]) {
        let m = &sh.at[home(f, 2) as usize - 1].1;
        // the event that made each key a signer
        let mut chain: BTreeMap<(u32, u32), proto::OnChainEvent> = BTreeMap::new();
        let mut by_key = BTreeMap::new();
        for e in &m.chain_log {
            if let (Some(proto::on_chain_event::Body::SignerEventBody(b)), true) = (&e.body, e.fid == f) {
                if b.event_type == proto::SignerEventType::Add as i32 && m.signers.contains(&(f, b.key.clone())) {
                    by_key.insert(b.key.clone(), e.clone());
                }
            }
        }
        for e in by_key.values() {
            chain.insert((e.block_number, e.log_index), e.clone());
        }
        let on_chain = |e: &proto::OnChainEvent| {
            let Some(proto::on_chain_event::Body::SignerEventBody(b)) = &e.body else { unreachable!() };
            proto::Signer {
                source: proto::SignerSource::Onchain as i32,
                key: b.key.clone(),
                key_type: b.key_type,
                fid: f,
                added_at: Some(e.block_timestamp),
                onchain_event: Some(e.clone()),
                ..Default::default()
            }
        };
        let gasless = |k: &Vec<u8>, g: &Key| {
            let used = m.used.get(&(f, k.clone())).copied();
            let Some(Body::KeyAddBody(b)) = &data(&g.m).body else { unreachable!() };
            proto::Signer {
                source: proto::SignerSource::Offchain as i32,
                key: k.clone(),
                key_type: 1,
                fid: f,
                added_at: Some(unix(data(&g.m).timestamp)),
                last_used_at: used.map(unix),
                ttl: Some(g.ttl),
                expires_at: used.map(|u| unix(u) + g.ttl as u64),
                scopes: g.scopes.clone(),
                request_fid: Some(g.app),
                nonce: Some(b.nonce),
                onchain_event: None,
            }
        };
        let keys: Vec<_> = m.keys.iter().filter(|k| k.0 .0 == f).map(|(k, g)| gasless(&k.1, g)).collect();
        if !keys.is_empty() && !chain.is_empty() {
            o.nt();
        }
        o.label_if(keys.len() > 1, "several gasless keys");
        for k in 0..16 {
            let pk = if k == 15 { vec![1, 2, 3] } else { pubkey(k) };
            let q = || Request::new(proto::SignerRequest { fid: f, signer: pk.clone() });
            let event = by_key.get(&pk);
            let r = a.call(s.get_on_chain_signer(q()));
            match event {
                None => code("signer on chain", r, Code::NotFound)?,
                Some(e) => ensure_eq!(r.map_err(|e| e.to_string())?, e.clone(), "signer {k} of {f} on chain"),
            }
            let want = event.map(on_chain).or_else(|| m.keys.get(&(f, pk.clone())).map(|g| gasless(&pk, g)));
            let r = a.call(s.get_signer(q()));
            match want {
                None => code("signer", r, if k == 15 { Code::InvalidArgument } else { Code::NotFound })?,
                want => ensure_eq!(r.map_err(|e| e.to_string())?.signer, want, "signer {k} of {f}"),
            }
        }
        for reverse in [None, Some(true)] {
            let mut es: Vec<_> = chain.values().cloned().collect();
            let mut ks = keys.clone();
            if reverse.is_some() {
                es.reverse();
                ks.reverse();
            }
            // chain signers, then the others, whichever way each is read
            let want: Vec<_> = es.iter().map(on_chain).chain(ks).collect();
            for size in SIZES {
                let what = format!("signers of {f}, reverse {reverse:?},");
                let got = pages(&what, size, 1, |page_size, page_token| {
                    let q = proto::FidRequest { fid: f, page_size, page_token, reverse };
                    a.call(s.get_on_chain_signers_by_fid(Request::new(q))).map(|r| (r.events, r.next_page_token))
                })?;
                ensure_eq!(got, es, "{what} on chain in pages of {size:?}");
                let mut bad = None;
                let got = pages(&what, size, 1, |page_size, page_token| {
                    let q = proto::SignersByFidRequest { fid: f, page_size, page_token, reverse, requester_fids: vec![1006, 1007, 1006, 77] };
                    a.call(s.get_signers_by_fid(Request::new(q))).map(|r| {
                        let nonces: HashMap<u64, u32> = [1006, 1007, 77].into_iter().map(|x| (x, m.app_nonce.get(&x).copied().unwrap_or(0))).collect();
                        let want = (keys.len() as u32, 1000, m.user_nonce.get(&f).copied().unwrap_or(0), nonces);
                        let got = (r.gasless_signer_count, r.gasless_signer_limit, r.current_user_nonce, r.requester_fid_nonces);
                        if got != want {
                            bad = Some(format!("signers of {f}: counted {got:?}, and not {want:?}"));
                        }
                        (r.signers, r.next_page_token)
                    })
                })?;
                ensure_eq!(got, want, "{what} in pages of {size:?}");
                if let Some(e) = bad {
                    return Err(e);
                }
            }
        }
    }
    Ok(())
}
