//! Generated mesh views and the facts about them that the checks compare against.
use crate::arb::Tape;
use libp2p::PeerId;
use snapchain::network::mesh::nodes::{KnownNode, NodeRegistry, NodeRole, Operator};
use snapchain::proto::*;
use std::sync::OnceLock;

pub const TOPICS: [&str; 5] = ["consensus", "mempool", "decided-values", "read-node-peers", "contact-info"];
/// peer ids of the compiled-in table
pub const TABLE: [&str; 16] = [
    "12D3KooWCc28TYrrXFivwUshyZ8R5HqPMgx4f7AP54iCDLYr7kFR",
    "12D3KooWSFyadP8BZkjhKGMcWVZrvVSxVfXEYip7R8jqeVjherRk",
    "12D3KooWQaoBw2gvdmfGdXjepEQU9i47FXxvsCZ6wu8Vn4gwvHm2",
    "12D3KooWJVyaQRovV1rjV8TzkN3cRiysACyey86kXDLdvf6JRq5Z",
    "12D3KooWH527dqZTziqzzuXunismeJ3iFVnUxV5spv6VkS7U7zL1",
    "12D3KooWGmXDC2SfjSG7h7DchyVJHMB4GpA8JYpHf9iwz8L8BFqB",
    "12D3KooWCpHGJd3WYMY4cnbP8wQk4AK99J8YQfczLTsa7w4HkGDP",
    "12D3KooWCnMgP8BYvwGG5eBfU3gLRnk1bA8BwCkrC3xMtHYp3dRR",
    "12D3KooWN1tfvjuYaMdkMbtfed6o5TmAnNw1szjaZowmhet8Y4uF",
    "12D3KooWHTpapWmaNYxPcaWn9Uhoh7TZ67LZcM9dCUMMEwebCe7V",
    "12D3KooWRUQMrmZGXKQvafnqZQBPuAoV1mEFLXvkZwWtgiojhoXB",
    "12D3KooWFy31r6kuGGuxtAcfPzePpUTtoDo4f5gCJb3A17ximJYd",
    "12D3KooWBLWdvcKWCUyuFtaoFWnNWZXbRNVtF629fLHUrRJboghS",
    "12D3KooWPx3CCoZR7Fwg5foTkhiZEYpTdYJVbqgmbpDgzarEoKG9",
    "12D3KooWP4s56tqsCmaqjuuuS1QA5nvavR9DFrLwNeLzER32NbYA",
    "12D3KooWQFn5HaLXuqy5wdsrBy5oeVZT4WVWH8h4rY4XdMhiLf29",
];

/// An Ed25519 public key and the peer id libp2p gives it (identity multihash of the protobuf key).
#[derive(Clone)]
pub struct Id {
    pub key: Vec<u8>,
    pub peer: Vec<u8>,
}
pub fn ids() -> &'static Vec<Id> {
    static P: OnceLock<Vec<Id>> = OnceLock::new();
    P.get_or_init(|| {
        (0..320u16)
            .map(|i| {
                let mut seed = [7u8; 32];
                seed[..2].copy_from_slice(&i.to_be_bytes());
                let key = ed25519_dalek::SigningKey::from_bytes(&seed).verifying_key().to_bytes().to_vec();
                let peer = [&[0x00, 0x24, 0x08, 0x01, 0x12, 0x20][..], &key].concat();
                Id { key, peer }
            })
            .collect()
    })
}
/// the text of a peer id: base58 for a well-formed one, hex otherwise
pub fn text(peer: &[u8]) -> String {
    // identity multihash of a protobuf Ed25519 key, or a sha2-256 multihash
    let ok = (peer.len() == 38 && peer.starts_with(&[0x00, 0x24])) || (peer.len() == 34 && peer.starts_with(&[0x12, 0x20]));
    if ok {
        bs58::encode(peer).into_string()
    } else {
        hex::encode(peer)
    }
}
pub fn builtin() -> &'static Vec<KnownNode> {
    static P: OnceLock<Vec<KnownNode>> = OnceLock::new();
    P.get_or_init(|| {
        let r = NodeRegistry::builtin();
        TABLE.iter().filter_map(|p| r.lookup(p, None).cloned()).collect()
    })
}
/// A peer id from a small pool: fresh keys, the compiled-in table, a sha-256 one, junk.
pub fn peer(t: &mut Tape) -> Vec<u8> {
    match t.below(12) {
        0..=7 => ids()[t.below(8)].peer.clone(),
        8 | 9 => bs58::decode(TABLE[t.below(16)]).into_vec().unwrap(),
        10 => [&[0x12u8, 0x20][..], &[t.u8() % 3; 32]].concat(),
        _ => vec![0xff; 1 + t.below(9)],
    }
}

#[derive(Clone, Debug)]
pub struct Addr {
    pub text: String,
    /// the host a browser would use, when it can be reached from the public internet
    pub public: Option<String>,
}
fn in_net(ip: u32, net: [u8; 4], bits: u32) -> bool {
    (ip ^ u32::from_be_bytes(net)) >> (32 - bits) == 0
}
fn v4_private(b: [u8; 4]) -> bool {
    let ip = u32::from_be_bytes(b);
    in_net(ip, [10, 0, 0, 0], 8)
        || in_net(ip, [172, 16, 0, 0], 12)
        || in_net(ip, [192, 168, 0, 0], 16)
        || in_net(ip, [127, 0, 0, 0], 8)
        || in_net(ip, [169, 254, 0, 0], 16)
        || ip == 0
        || ip == u32::MAX
}
fn v4(t: &mut Tape) -> [u8; 4] {
    const NEAR: [[u8; 4]; 20] = [
        [10, 0, 0, 0],
        [11, 0, 0, 1],
        [9, 255, 255, 255],
        [10, 255, 255, 255],
        [172, 16, 0, 0],
        [172, 15, 255, 255],
        [172, 31, 255, 255],
        [172, 32, 0, 0],
        [192, 168, 0, 1],
        [192, 167, 255, 255],
        [192, 169, 0, 0],
        [127, 0, 0, 1],
        [127, 255, 0, 9],
        [128, 0, 0, 1],
        [169, 254, 9, 9],
        [169, 255, 0, 0],
        [0, 0, 0, 0],
        [0, 0, 0, 1],
        [255, 255, 255, 255],
        [255, 255, 255, 254],
    ];
    match t.below(3) {
        0 => [t.u8(), t.u8(), t.u8(), t.u8()],
        1 => [54, t.u8(), 1, 2],
        _ => NEAR[t.below(20)],
    }
}
thread_local! {
    static ADDRS: std::cell::RefCell<std::collections::HashMap<String, Option<String>>> = Default::default();
}
/// the generated address with this text ("" has no host)
pub fn addr_of(text: &str) -> Addr {
    let public = ADDRS.with(|a| if text.is_empty() { None } else { a.borrow()[text].clone() });
    Addr { text: text.to_string(), public }
}
pub fn addr(t: &mut Tape) -> Addr {
    let a = addr_raw(t);
    ADDRS.with(|m| m.borrow_mut().insert(a.text.clone(), a.public.clone()));
    a
}
fn addr_raw(t: &mut Tape) -> Addr {
    let tail = ["/udp/3382/quic-v1", "/tcp/3382", "", "/udp/1/quic-v1/p2p/12D3KooWCc28TYrrXFivwUshyZ8R5HqPMgx4f7AP54iCDLYr7kFR"]
        [t.below(4)];
    let (head, public) = match t.below(12) {
        0..=4 => {
            let b = v4(t);
            let s = std::net::Ipv4Addr::from(b).to_string();
            (format!("/ip4/{s}"), (!v4_private(b)).then_some(s))
        }
        5..=8 => {
            let mut b = [0u8; 16];
            match t.below(8) {
                0 => b[15] = 1,
                1 => {}
                2 => {
                    b[10] = 0xff;
                    b[11] = 0xff;
                    b[12..].copy_from_slice(&v4(t));
                }
                3 => {
                    b[0] = [0xfb, 0xfc, 0xfd, 0xfe][t.below(4)];
                    b[15] = t.u8();
                }
                4 => {
                    b[0] = 0xfe;
                    b[1] = [0x7f, 0x80, 0xbf, 0xc0, 0x9a][t.below(5)];
                    b[15] = 1;
                }
                5 => {
                    b[0] = 0x26;
                    b[1] = 7;
                    b[15] = t.u8();
                }
                6 => b[15] = t.u8(),
                _ => {
                    for x in &mut b {
                        *x = t.u8()
                    }
                }
            }
            let mapped = b[..10].iter().all(|x| *x == 0) && b[10] == 0xff && b[11] == 0xff;
            let private = if mapped {
                v4_private([b[12], b[13], b[14], b[15]])
            } else {
                b[..15].iter().all(|x| *x == 0) && b[15] <= 1 || b[0] & 0xfe == 0xfc || (b[0] == 0xfe && b[1] & 0xc0 == 0x80)
            };
            let s = std::net::Ipv6Addr::from(b).to_string();
            (format!("/ip6/{s}"), (!private).then(|| format!("[{s}]")))
        }
        9 | 10 => {
            let h = ["node.example.com", "a.b", "xn--p1ai.example"][t.below(3)];
            (format!("/{}/{h}", ["dns", "dns4", "dns6", "dnsaddr"][t.below(4)]), Some(h.to_string()))
        }
        _ => {
            let s = ["", "garbage", "54.1.2.3:3381", "/ip4/54.1.2.3.4/tcp/1", "/tcp/3382", "http://54.1.2.3"][t.below(6)];
            return Addr { text: s.into(), public: None };
        }
    };
    Addr { text: head + tail, public }
}
fn enum_val(t: &mut Tape, top: i32) -> i32 {
    match t.below(16) {
        15 => 99,
        14 => -1,
        _ => t.below(top as usize + 1) as i32,
    }
}
pub fn rate(t: &mut Tape) -> f64 {
    [0.0, 0.04, 0.05, 1.0, 2.25, 12.96, 1e9][t.below(7)] + t.u8() as f64 / 8.0
}
pub fn node(t: &mut Tape, peer_id: Vec<u8>) -> MeshPeer {
    let pick: Vec<&str> = TOPICS.iter().copied().filter(|_| t.below(3) > 0).collect();
    MeshPeer {
        peer_id,
        node_type: enum_val(t, 2),
        consensus_public_key: t.flag().then(|| ids()[t.below(8)].key.clone()),
        connected: t.flag(),
        direct_peer: t.flag(),
        contact_source: enum_val(t, 2),
        contact_info: (t.below(3) == 0).then(|| ContactInfoBody {
            gossip_address: t.string(),
            peer_id: t.bytes(),
            snapchain_version: t.string(),
            network: enum_val(t, 3),
            timestamp: t.u64(),
            announce_rpc_address: t.string(),
            ..Default::default()
        }),
        observed_address: addr(t).text,
        topics: pick
            .iter()
            .map(|n| TopicMembership { topic: n.to_string(), subscribed: t.flag(), in_mesh: t.flag() })
            .collect(),
        gossip_rates: TOPICS
            .iter()
            .filter_map(|n| {
                t.flag().then(|| GossipRate {
                    topic: n.to_string(),
                    msgs_per_sec: rate(t),
                    bytes_per_sec: rate(t),
                    total_msgs: t.u64(),
                    total_bytes: t.u64(),
                })
            })
            .collect(),
    }
}
pub fn me(t: &mut Tape, peer_id: Vec<u8>) -> MeshSelf {
    MeshSelf {
        peer_id,
        consensus_public_key: if t.flag() { ids()[t.below(8)].key.clone() } else { vec![] },
        is_validator: t.flag(),
        gossip_address: addr(t).text,
        rpc_address: t.string(),
        snapchain_version: t.string().replace('\n', ""),
        network: enum_val(t, 3),
        subscribed_topics: TOPICS.iter().filter(|_| t.flag()).map(|s| s.to_string()).collect(),
        consensus_mesh_size: t.u32(),
        current_height: t.u64(),
    }
}
/// A view whose peers are pairwise distinct and differ from the node itself.
pub fn view(t: &mut Tape, local: Option<Vec<u8>>) -> MeshView {
    let local = local.map(|p| me(t, p));
    let mut peers: Vec<MeshPeer> = vec![];
    for _ in 0..t.below(7) {
        let p = peer(t);
        if peers.iter().any(|x| x.peer_id == p) || local.as_ref().is_some_and(|l| l.peer_id == p) {
            continue;
        }
        peers.push(node(t, p));
    }
    MeshView { local, peers, generated_at: t.u64() }
}

/// The registry as a list: every entry is reached by its own keys only.
pub struct Nodes {
    pub list: Vec<KnownNode>,
    /// some entry matched one node by public key and another by peer id
    pub clash: bool,
}
fn key_eq(a: &Option<String>, b: &str) -> bool {
    !b.is_empty() && a.as_ref().is_some_and(|a| a.eq_ignore_ascii_case(b))
}
fn pid_eq(a: &Option<String>, b: &str) -> bool {
    !b.is_empty() && a.as_deref() == Some(b)
}
impl Nodes {
    pub fn new(conf: &[KnownNode]) -> Nodes {
        let mut n = Nodes { list: builtin().clone(), clash: false };
        for c in conf {
            if c.consensus_public_key.is_none() && c.peer_id.is_none() {
                continue;
            }
            let k = c.consensus_public_key.clone().unwrap_or_default();
            let p = c.peer_id.clone().unwrap_or_default();
            let by_key = n.list.iter().position(|e| key_eq(&e.consensus_public_key, &k));
            let by_peer = n.list.iter().position(|e| pid_eq(&e.peer_id, &p));
            n.clash |= matches!((by_key, by_peer), (Some(a), Some(b)) if a != b);
            if let Some(i) = by_key.or(by_peer) {
                n.list.remove(i);
            }
            n.list.push(c.clone());
        }
        n
    }
    pub fn lookup(&self, peer: &str, key: Option<&str>) -> Option<&KnownNode> {
        let k = key.and_then(|k| self.list.iter().find(|e| key_eq(&e.consensus_public_key, k)));
        k.or_else(|| self.list.iter().find(|e| pid_eq(&e.peer_id, peer)))
    }
    pub fn url(known: Option<&KnownNode>, a: &Addr) -> Option<(String, &'static str)> {
        if known.is_some_and(|k| k.offline) {
            return None;
        }
        if let Some(u) = known.and_then(|k| k.http_api_url.clone()).filter(|u| !u.is_empty()) {
            return Some((u, "known"));
        }
        a.public.as_ref().map(|h| (format!("http://{h}:3381"), "observed"))
    }
}
pub fn conf_node(t: &mut Tape, i: usize) -> KnownNode {
    let b = &builtin()[t.below(builtin().len())];
    let fresh = |i: usize| {
        let id = &ids()[i];
        (hex::encode(&id.key), text(&id.peer))
    };
    let (k, p) = match t.below(10) {
        0 => (b.consensus_public_key.clone().map(|k| k.to_uppercase()), b.peer_id.clone()),
        1 => (b.consensus_public_key.clone(), None),
        2 => (None, b.peer_id.clone()),
        3 => (b.consensus_public_key.clone(), Some(fresh(t.below(8)).1)),
        4 => (Some(fresh(t.below(8)).0), b.peer_id.clone()),
        5 => (Some(String::new()), Some(fresh(t.below(8)).1)),
        6 => (Some(fresh(t.below(8)).0.to_uppercase()), Some(String::new())),
        7 => (None, None),
        _ => {
            let (k, p) = fresh(t.below(8));
            (Some(k), Some(p))
        }
    };
    KnownNode {
        name: format!("conf{i}"),
        operator: [Operator::Neynar, Operator::Merkle, Operator::Community, Operator::Unknown][t.below(4)],
        role: [
            NodeRole::MainnetValidator,
            NodeRole::MainnetReader,
            NodeRole::TestnetValidator,
            NodeRole::TestnetReader,
            NodeRole::Unknown,
        ][t.below(5)],
        http_api_url: [None, Some("".into()), Some(format!("https://c{i}.example"))][t.below(3)].clone(),
        consensus_public_key: k,
        peer_id: p,
        offline: t.below(4) == 0,
        note: t.flag().then(|| t.string()),
    }
}
pub fn pid(b: &[u8]) -> PeerId {
    PeerId::from_bytes(b).unwrap()
}
