//! C29: what the mesh pages show is what the node knows.
use crate::arb::Tape;
use crate::frame::{Obs, Prop, R};
use crate::gens::pvec;
use crate::world::{self, addr_of, ids, text, Nodes, TOPICS};
use proptest::prelude::*;
use serde_json::{json, Map, Value};
use snapchain::network::mesh::config::Config;
use snapchain::network::mesh::nodes::{resolve_http_api_url, KnownNode, NodeRegistry, NodeRole, Operator};
use snapchain::network::mesh::render::*;
use snapchain::network::mesh::view::*;
use snapchain::proto::*;
use std::collections::BTreeMap;

fn net(n: i32) -> &'static str {
    ["?", "MAINNET", "TESTNET", "DEVNET"][if (1..=3).contains(&n) { n as usize } else { 0 }]
}
fn kind(n: i32) -> &'static str {
    match n {
        1 => "validator",
        2 => "non-val",
        _ => "unknown",
    }
}
fn source(n: i32) -> &'static str {
    match n {
        1 => "collected",
        2 => "derived",
        _ => "unknown",
    }
}
fn pad(s: &str, n: usize) -> String {
    let mut s = s.to_string();
    while s.chars().count() < n {
        s.push(' ')
    }
    s
}
fn last(s: &str, n: usize) -> String {
    let c: Vec<char> = s.chars().collect();
    c[c.len().saturating_sub(n)..].iter().collect()
}
fn short(p: &[u8]) -> String {
    format!("…{}", last(&text(p), 7))
}
/// 'm' in our mesh, 'd' direct and subscribed, 's' subscribed only, 'n' none
fn link(p: &MeshPeer, topic: &str) -> char {
    match p.topics.iter().find(|t| t.topic == topic) {
        Some(t) if t.in_mesh => 'm',
        Some(t) if t.subscribed => {
            if p.direct_peer {
                'd'
            } else {
                's'
            }
        }
        _ => 'n',
    }
}
fn up(c: char) -> bool {
    c == 'm' || c == 'd'
}
fn want_view(v: &MeshView, topics: &[String]) -> String {
    let me = v.local.as_ref();
    let id = me.map_or("?".into(), |l| short(&l.peer_id));
    let vals: Vec<&MeshPeer> = v.peers.iter().filter(|p| p.node_type == 1).collect();
    let linked = vals.iter().filter(|p| up(link(p, "consensus"))).count();
    let mut o = format!(
        "MESH VIEW  self={id}  {}  height {}  net={}  consensus-mesh {linked}/{}\n",
        match me {
            None => "?",
            Some(l) if l.is_validator => "validator",
            _ => "non-validator",
        },
        me.map_or(0, |l| l.current_height),
        me.map_or("?", |l| net(l.network)),
        vals.len()
    );
    o += &format!(
        "PEERS ({} shown, {} validators)   MESH per topic: ● in-mesh  ◆ direct/explicit  ○ sub-only  · none\n",
        v.peers.len(),
        vals.len()
    );
    let first = topics.first().map_or("consensus", |s| s.as_str());
    o += &format!("{} {} {} ", pad("PEER", 12), pad("TYPE", 13), pad("DIR", 4));
    for t in topics {
        o += &pad(t, 11);
    }
    o += &format!("{} msgs/s({first})\n", pad("CONTACT", 10));
    for p in &v.peers {
        o += &format!(
            "{} {} {} ",
            pad(&short(&p.peer_id), 12),
            pad(kind(p.node_type), 13),
            pad(if p.direct_peer { "yes" } else { "no" }, 4)
        );
        for t in topics {
            o += &pad(
                match link(p, t) {
                    'm' => "●",
                    'd' => "◆",
                    's' => "○",
                    _ => "·",
                },
                11,
            );
        }
        let r = p.gossip_rates.iter().find(|r| r.topic == first);
        o += &format!("{} {}\n", pad(source(p.contact_source), 10), r.map_or("—".into(), |r| format!("{:.1}", r.msgs_per_sec)));
    }
    if topics.iter().any(|t| t == "consensus") {
        o += "GRAPH (consensus mesh)\n";
        for p in &vals {
            let s = short(&p.peer_id);
            o += &match link(p, "consensus") {
                'm' => format!("  {id} ── {s}\n"),
                'd' => format!("  {id} ─◆ {s}   (direct/explicit peer)\n"),
                _ => format!("  {id} ╳  {s}   (connected, not meshed) ← consensus-partition risk\n"),
            };
        }
        if vals.is_empty() {
            o += "  (no validator peers)\n";
        }
    }
    o
}
fn want_topology(topo: &MeshTopology, topics: &[String]) -> String {
    let ns: Vec<(&MeshView, &MeshSelf)> = topo.nodes.iter().filter_map(|n| Some((n, n.local.as_ref()?))).collect();
    let mut o = format!(
        "MESH TOPOLOGY  nodes={}  unreachable={}  net={}\n",
        ns.len(),
        topo.unreachable.len(),
        ns.first().map_or("?", |(_, l)| net(l.network))
    );
    let to = |i: usize, j: usize, t: &str| -> char {
        ns[i].0.peers.iter().find(|p| p.peer_id == ns[j].1.peer_id).map_or('n', |p| link(p, t))
    };
    for t in topics {
        o += &format!(
            "{} LINKS (row->col:  ● mesh  ◆ direct/explicit  > row->col only  < col->row only  · none)\n",
            t.to_uppercase()
        );
        o += &pad("", 16);
        for (_, l) in &ns {
            o += &pad(&last(&text(&l.peer_id), 5), 6);
        }
        o += "\n";
        for i in 0..ns.len() {
            let l = ns[i].1;
            o += &pad(&format!("{} ({})", short(&l.peer_id), if l.is_validator { "val" } else { "non" }), 16);
            for j in 0..ns.len() {
                let (a, b) = (to(i, j, t), to(j, i, t));
                o += &pad(
                    match (up(a), up(b)) {
                        _ if i == j => "—",
                        (true, true) if a == 'm' && b == 'm' => "●",
                        (true, true) => "◆",
                        (true, false) => ">",
                        (false, true) => "<",
                        (false, false) => "·",
                    },
                    6,
                );
            }
            o += "\n";
        }
    }
    o += "NODES (links per topic: mesh + direct)\n";
    o += &format!("{} {} ", pad("PEER", 12), pad("ROLE", 11));
    for t in topics {
        o += &pad(&t.chars().take(5).collect::<String>(), 6);
    }
    o += "VERSION\n";
    for (n, l) in &ns {
        o += &format!("{} {} ", pad(&short(&l.peer_id), 12), pad(if l.is_validator { "validator" } else { "non-val" }, 11));
        for t in topics {
            o += &pad(&n.peers.iter().filter(|p| up(link(p, t))).count().to_string(), 6);
        }
        o += &format!("{}\n", l.snapchain_version);
    }
    if topo.unreachable.is_empty() {
        o += "unreachable: (none)\n";
    } else {
        o += &format!("UNREACHABLE ({})\n", topo.unreachable.len());
        for x in &topo.unreachable {
            o += &format!("  {} {}\n", pad(&short(&x.peer_id), 12), x.reason);
        }
    }
    let mut readers: BTreeMap<&[u8], Vec<String>> = BTreeMap::new();
    for (n, l) in &ns {
        for p in n.peers.iter().filter(|p| p.node_type == 2) {
            readers.entry(&p.peer_id).or_default().push(short(&l.peer_id));
        }
    }
    if !readers.is_empty() {
        o += &format!("READER SPOKES ({})\n", readers.len());
        for (r, by) in readers {
            o += &format!("  {}  ← {}\n", short(r), by.join(", "));
        }
    }
    o
}
fn hexed(b: &[u8]) -> Value {
    if b.is_empty() {
        Value::Null
    } else {
        hex::encode(b).into()
    }
}
fn annotate(o: &mut Map<String, Value>, nodes: &Nodes, peer: &[u8], key: Option<String>, addr: &str) {
    let k = nodes.lookup(&text(peer), key.as_deref());
    let url = Nodes::url(k, &addr_of(addr));
    o.insert("name".into(), json!(k.map(|k| &k.name)));
    let op = k.and_then(|k| match k.operator {
        Operator::Neynar => Some("neynar"),
        Operator::Merkle => Some("merkle"),
        Operator::Community => Some("community"),
        Operator::Unknown => None,
    });
    let role = k.and_then(|k| match k.role {
        NodeRole::MainnetValidator => Some("mainnet_validator"),
        NodeRole::MainnetReader => Some("mainnet_reader"),
        NodeRole::TestnetValidator => Some("testnet_validator"),
        NodeRole::TestnetReader => Some("testnet_reader"),
        NodeRole::Unknown => None,
    });
    o.insert("operator".into(), json!(op));
    o.insert("role".into(), json!(role));
    o.insert("known_offline".into(), json!(k.is_some_and(|k| k.offline)));
    o.insert("note".into(), json!(k.and_then(|k| k.note.clone())));
    o.insert("http_api_url".into(), json!(url.as_ref().map(|u| &u.0)));
    o.insert("http_api_url_source".into(), json!(url.as_ref().map(|u| u.1)));
}
fn want_json(v: &MeshView, nodes: &Nodes) -> Value {
    let me = v.local.as_ref().map(|l| {
        let mut o = Map::new();
        o.insert("peer_id".into(), json!(text(&l.peer_id)));
        o.insert("consensus_public_key".into(), hexed(&l.consensus_public_key));
        o.insert("is_validator".into(), json!(l.is_validator));
        o.insert("gossip_address".into(), json!(l.gossip_address));
        o.insert("rpc_address".into(), json!(l.rpc_address));
        o.insert("snapchain_version".into(), json!(l.snapchain_version));
        o.insert("network".into(), json!(net(l.network)));
        o.insert("subscribed_topics".into(), json!(l.subscribed_topics));
        o.insert("consensus_mesh_size".into(), json!(l.consensus_mesh_size));
        o.insert("current_height".into(), json!(l.current_height));
        let key = (!l.consensus_public_key.is_empty()).then(|| hex::encode(&l.consensus_public_key));
        annotate(&mut o, nodes, &l.peer_id, key, &l.gossip_address);
        Value::Object(o)
    });
    let peers: Vec<Value> = v
        .peers
        .iter()
        .map(|p| {
            let mut o = Map::new();
            let key = p.consensus_public_key.as_ref().map(hex::encode);
            o.insert("peer_id".into(), json!(text(&p.peer_id)));
            o.insert("node_type".into(), json!(kind(p.node_type)));
            o.insert("consensus_public_key".into(), json!(key));
            o.insert("connected".into(), json!(p.connected));
            o.insert("direct_peer".into(), json!(p.direct_peer));
            o.insert("contact_source".into(), json!(source(p.contact_source)));
            o.insert("observed_address".into(), json!(p.observed_address));
            let c = p.contact_info.as_ref().map(|c| {
                json!({"gossip_address": c.gossip_address, "announce_rpc_address": c.announce_rpc_address,
                    "snapchain_version": c.snapchain_version, "network": net(c.network), "timestamp": c.timestamp})
            });
            o.insert("contact_info".into(), json!(c));
            o.insert(
                "topics".into(),
                p.topics.iter().map(|t| json!({"topic": t.topic, "subscribed": t.subscribed, "in_mesh": t.in_mesh})).collect(),
            );
            o.insert(
                "gossip_rates".into(),
                p.gossip_rates
                    .iter()
                    .map(|r| {
                        json!({"topic": r.topic, "msgs_per_sec": r.msgs_per_sec, "bytes_per_sec": r.bytes_per_sec,
                        "total_msgs": r.total_msgs, "total_bytes": r.total_bytes})
                    })
                    .collect(),
            );
            annotate(&mut o, nodes, &p.peer_id, key, &p.observed_address);
            Value::Object(o)
        })
        .collect();
    json!({"self": me, "peers": peers, "generated_at": v.generated_at})
}
fn topics(t: &mut Tape) -> Vec<String> {
    match t.below(4) {
        0 => vec!["consensus".into(), "mempool".into()],
        1 => TOPICS.iter().map(|s| s.to_string()).collect(),
        _ => {
            let mut v: Vec<String> = (0..1 + t.below(4)).map(|_| TOPICS[t.below(5)].to_string()).collect();
            v.dedup();
            v
        }
    }
}
fn registry(t: &mut Tape) -> (NodeRegistry, Nodes) {
    let conf: Vec<KnownNode> = (0..t.below(5)).map(|i| world::conf_node(t, i)).collect();
    let mut model = Nodes::new(&conf);
    let mut used = conf;
    while model.clash {
        used.pop();
        model = Nodes::new(&used);
    }
    (NodeRegistry::from_config(&Config { cache_ttl_secs: 5, nodes: used }), model)
}
fn diff(got: &str, want: &str) -> R {
    for (i, (g, w)) in got.lines().zip(want.lines()).enumerate() {
        ensure!(g == w, "line {i} is\n  {g}\nexpected\n  {w}");
    }
    ensure!(got == want, "{} lines, expected {}:\n{got}\n---\n{want}", got.lines().count(), want.lines().count());
    Ok(())
}

fn parse(c: &Vec<u8>, o: &mut Obs) -> R {
    let mut t = Tape::new(c);
    const W: [&str; 18] = [
        "consensus", "mempool", "decided-values", "read-node-peers", "contact-info", "all", "ALL", "aLL", "Consensus", "consensus ",
        " mempool", "", " ", "bogus", "con", "consensus mempool", " all ", "allx",
    ];
    let n = t.below(6);
    let parts: Vec<&str> = (0..n).map(|_| W[t.below(18)]).collect();
    let arg = (n > 0).then(|| parts.join(","));
    let want: Vec<String> = if parts.iter().any(|p| p.trim().to_lowercase() == "all") {
        TOPICS.iter().map(|s| s.to_string()).collect()
    } else {
        let v: Vec<String> = parts.iter().map(|p| p.trim().to_string()).filter(|p| TOPICS.contains(&p.as_str())).collect();
        if v.is_empty() {
            vec!["consensus".into(), "mempool".into()]
        } else {
            v
        }
    };
    if n > 1 {
        o.nt()
    }
    ensure_eq!(parse_topics(arg.as_deref()), want, "topics {arg:?}");
    Ok(())
}
fn page(c: &Vec<u8>, o: &mut Obs) -> R {
    let mut t = Tape::new(c);
    let mut l = (t.below(10) > 0).then(|| world::peer(&mut t));
    if t.below(20) == 0 {
        l = l.map(|_| vec![1, 2]);
    }
    let v = world::view(&mut t, l);
    let tp = topics(&mut t);
    let (reg, model) = registry(&mut t);
    o.nontrivial = v.local.is_some() && v.peers.len() > 1;
    o.label_if(v.peers.iter().any(|p| p.node_type == 1 && link(p, "consensus") == 'd'), "direct validator");
    o.label_if(v.peers.iter().any(|p| p.node_type == 1 && !up(link(p, "consensus"))), "partition risk");
    diff(&render_mesh_view(&v, &tp), &want_view(&v, &tp))?;
    let (got, want) = (mesh_view_json(&v, &reg), want_json(&v, &model));
    let n = want["peers"].as_array().unwrap().iter().filter(|p| p["http_api_url_source"] == "observed").count();
    o.label_if(n > 0, "url from observed address");
    o.label_if(want["peers"].as_array().unwrap().iter().any(|p| p["http_api_url_source"] == "known"), "url from table");
    ensure_eq!(got["self"], want["self"], "self");
    for (g, w) in got["peers"].as_array().unwrap().iter().zip(want["peers"].as_array().unwrap()) {
        ensure!(g == w, "peer\n {g}\nexpected\n {w}");
    }
    ensure!(got == want, "view json\n {got}\nexpected\n {want}");
    Ok(())
}
fn topo(c: &Vec<u8>, o: &mut Obs) -> R {
    let mut t = Tape::new(c);
    let mut nodes: Vec<MeshView> = vec![];
    for _ in 0..t.below(6) {
        let p = (t.below(12) > 0).then(|| world::peer(&mut t));
        if p.is_some() && nodes.iter().any(|n| n.local.as_ref().is_some_and(|l| Some(&l.peer_id) == p.as_ref())) {
            continue;
        }
        nodes.push(world::view(&mut t, p));
    }
    let unreachable: Vec<UnreachableNode> = (0..t.below(4))
        .map(|_| UnreachableNode {
            peer_id: world::peer(&mut t),
            consensus_public_key: if t.flag() { ids()[t.below(8)].key.clone() } else { vec![] },
            reason: ["timeout", "not_connected", "error: x"][t.below(3)].into(),
        })
        .collect();
    let tp = topics(&mut t);
    let (reg, model) = registry(&mut t);
    let topo = MeshTopology { nodes, unreachable, generated_at: t.u64() };
    o.nontrivial = topo.nodes.len() > 1;
    let want = want_topology(&topo, &tp);
    o.label_if(want.lines().any(|l| l.contains("(val)") && (l.contains(" > ") || l.contains(" < "))), "one-way link");
    o.label_if(want.contains("READER SPOKES"), "reader spokes");
    diff(&render_topology(&topo, &tp), &want)?;
    let got = topology_json(&topo, &reg);
    let nodes: Vec<Value> = topo.nodes.iter().map(|n| want_json(n, &model)).collect();
    let un: Vec<Value> = topo
        .unreachable
        .iter()
        .map(|u| {
            let mut m = Map::new();
            m.insert("peer_id".into(), json!(text(&u.peer_id)));
            m.insert("consensus_public_key".into(), hexed(&u.consensus_public_key));
            m.insert("reason".into(), json!(u.reason));
            let key = (!u.consensus_public_key.is_empty()).then(|| hex::encode(&u.consensus_public_key));
            annotate(&mut m, &model, &u.peer_id, key, "");
            Value::Object(m)
        })
        .collect();
    ensure_eq!(got["unreachable"], Value::Array(un.clone()), "unreachable");
    let want = json!({"nodes": nodes, "unreachable": un, "generated_at": topo.generated_at});
    ensure!(got == want, "topology json\n {got}\nexpected\n {want}");
    Ok(())
}
fn known(c: &Vec<u8>, o: &mut Obs) -> R {
    let mut t = Tape::new(c);
    let conf: Vec<KnownNode> = (0..t.below(7)).map(|i| world::conf_node(&mut t, i)).collect();
    let model = Nodes::new(&conf);
    let reg = NodeRegistry::from_config(&Config { cache_ttl_secs: 0, nodes: conf.clone() });
    let mut wrong = None;
    let mut keys: Vec<Option<String>> = vec![None, Some(String::new()), Some("zz".into())];
    keys.extend(model.list.iter().chain(world::builtin()).filter_map(|n| n.consensus_public_key.clone()).map(Some));
    keys.extend(ids()[..8].iter().map(|i| Some(hex::encode(&i.key).to_uppercase())));
    let mut peers: Vec<String> = vec!["".into(), "nobody".into()];
    peers.extend(world::TABLE.iter().map(|s| s.to_string()));
    peers.extend(ids()[..8].iter().map(|i| text(&i.peer)));
    for p in &peers {
        for k in &keys {
            let (g, w) = (reg.lookup(p, k.as_deref()), model.lookup(p, k.as_deref()));
            if g != w {
                wrong = Some(format!("lookup({p:?}, {k:?}) = {g:?}, expected {w:?}\nconfig {conf:?}"));
            }
        }
    }
    let reachable = |n: &&KnownNode| {
        n.peer_id.as_ref().is_some_and(|p| !p.is_empty()) || n.consensus_public_key.as_ref().is_some_and(|p| !p.is_empty())
    };
    let n = model.list.iter().filter(reachable).count();
    if reg.len() != n && wrong.is_none() {
        wrong = Some(format!("{} nodes, expected {n}; config {conf:?}", reg.len()));
    }
    if conf.len() > 1 {
        o.nt()
    }
    match wrong {
        Some(m) if model.clash => o.finding("config-entry-matches-two-nodes", m),
        Some(m) => return Err(m),
        None => {}
    }
    // the URL of a node
    for _ in 0..6 {
        let a = world::addr(&mut t);
        let node = (t.flag() && !model.list.is_empty()).then(|| &model.list[t.below(model.list.len())]);
        let got = resolve_http_api_url(node, &a.text).map(|(u, s)| (u, s.as_str()));
        ensure_eq!(got, Nodes::url(node, &a), "url of {node:?} at {a:?}");
        o.label_if(a.public.is_some(), "public address");
        o.label_if(a.public.is_none(), "unreachable address");
    }
    Ok(())
}
fn classify(c: &Vec<u8>, o: &mut Obs) -> R {
    let mut t = Tape::new(c);
    // the configured keys, some of them malformed
    let mut want: BTreeMap<Vec<u8>, Vec<u8>> = BTreeMap::new();
    let mut conf: Vec<String> = vec![];
    for _ in 0..t.below(7) {
        let id = &ids()[t.below(10)];
        let h = hex::encode(&id.key);
        match t.below(8) {
            0 => conf.push(h[..62].into()),
            1 => conf.push(format!("{h}00")),
            2 => conf.push(format!("0x{h}")),
            3 => conf.push(["", "zz", "é"][t.below(3)].into()),
            4 => {
                want.insert(id.peer.clone(), id.key.clone());
                conf.push(h.to_uppercase())
            }
            _ => {
                want.insert(id.peer.clone(), id.key.clone());
                conf.push(h)
            }
        }
    }
    let set = build_validator_peer_ids(conf.iter());
    let got: BTreeMap<Vec<u8>, Vec<u8>> = set.iter().map(|(p, k)| (p.to_bytes(), k.clone())).collect();
    ensure_eq!(got, want, "validator ids of {conf:?}");
    let l = (t.below(10) > 0).then(|| world::peer(&mut t));
    let v = world::view(&mut t, l);
    let (height, only) = (t.u64(), t.flag());
    let mut w = v.clone();
    if let Some(l) = &mut w.local {
        l.current_height = height;
        if let Some(k) = want.get(&l.peer_id) {
            l.is_validator = true;
            l.consensus_public_key = k.clone();
        }
    }
    for p in &mut w.peers {
        p.consensus_public_key = want.get(&p.peer_id).cloned();
        p.node_type = if p.consensus_public_key.is_some() { 1 } else { 2 };
    }
    let (a, b) = (w.peers.iter().any(|p| p.node_type == 1), w.peers.iter().any(|p| p.node_type == 2));
    o.nontrivial = a && b;
    if only {
        w.peers.retain(|p| p.node_type == 1);
    }
    o.label_if(only, "validators only");
    let got = classify_mesh_view(v, &set, height, only);
    ensure!(got == w, "classified as\n {got:?}\nexpected\n {w:?}");
    Ok(())
}

pub fn c29(p: &mut Prop) {
    let bytes = |n: usize| move || pvec(any::<u8>(), 0..n).boxed();
    p.sub("topics", "more than one name was given", 400_000, 1_600_000, bytes(12), parse);
    p.sub("page", "the view has a node of its own and two peers", 200_000, 800_000, bytes(700), page);
    p.sub("topology", "two or more nodes answered", 90_000, 360_000, bytes(1500), topo);
    p.sub("known", "two or more configured nodes", 60_000, 240_000, bytes(120), known);
    p.sub("classify", "the view holds validators and others", 300_000, 1_200_000, bytes(500), classify);
}
