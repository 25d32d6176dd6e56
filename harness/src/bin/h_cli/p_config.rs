//! C32: what the command-line client makes of the on-chain node configuration.
use crate::arb::Tape;
use crate::frame::{Obs, Prop, R};
use crate::gens::{self, pvec};
use crate::run::{self, fc, Reply, Server};
use alloy_primitives::U256;
use proptest::prelude::*;
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};
use std::os::unix::fs::PermissionsExt;
use std::path::{Path, PathBuf};
use toml::{Table, Value};

const BAKED: &str = "0x00000000fc51ad6eb74eae89ba4b01b1776fba85";

fn key_hex(t: &mut Tape) -> (String, bool) {
    let k = gens::signing_key(t.below(12) as u8).verifying_key().to_bytes();
    let s = hex::encode(k);
    match t.below(60) {
        7 => (s[2..].into(), false),
        8 => (format!("{s}00"), false),
        9 => (format!("{}g", &s[1..]), false),
        10 => (format!("0x{s}"), false),
        11 => (s.to_uppercase(), true),
        12 => {
            // half of all 32-byte words are no points; the node's own decoder is the judge
            let b = gens::fill(32, t.u8());
            let ok = libp2p::identity::ed25519::PublicKey::try_from_bytes(&b).is_ok();
            (hex::encode(b), ok)
        }
        13 => (String::new(), false),
        _ => (s, true),
    }
}
#[derive(Clone, Debug)]
struct Set {
    at: i64,
    shards: Vec<i64>,
    keys: Vec<String>,
}
/// The registry's document, and whether a node could run with it.
struct Doc {
    text: String,
    table: Option<Table>,
    fine: bool,
    sets: Vec<Set>,
}
fn quote(s: &str) -> String {
    Value::String(s.into()).to_string()
}
fn doc(t: &mut Tape) -> Doc {
    let mut fine = true;
    let mut sets: Vec<Set> = vec![];
    let n = 1 + t.below(4);
    let pool = 1 + t.below(4) as i64;
    let sloppy = t.below(4) == 3;
    let mut last: BTreeMap<i64, i64> = BTreeMap::new();
    for i in 0..n {
        let mut shards: Vec<i64> = (0..pool).filter(|_| t.flag() || i == 0).collect();
        if shards.is_empty() {
            shards.push(t.below(pool as usize) as i64);
        }
        let mut at = if i == 0 { 0 } else { shards.iter().filter_map(|s| last.get(s)).max().copied().unwrap_or(0) + t.u8() as i64 % 4 };
        if sloppy {
            match t.below(14) {
                7 => at = t.u8() as i64 % 6,
                8 => shards.clear(),
                9 => shards.push(t.below(6) as i64),
                10 => {
                    let k = t.below(shards.len().max(1));
                    if shards.len() > 1 {
                        shards.remove(k);
                    }
                }
                11 if t.below(3) == 0 => {
                    at = -1;
                    fine = false
                }
                12 if t.below(3) == 0 => {
                    shards.push(1 << 32);
                    fine = false
                }
                _ => {}
            }
        }
        let mut keys = vec![];
        let k = if sloppy && t.below(14) == 7 { 0 } else { 1 + t.below(4) };
        for _ in 0..k {
            let (s, ok) = if sloppy { key_hex(t) } else { (hex::encode(gens::signing_key(t.below(12) as u8).verifying_key().to_bytes()), true) };
            fine &= ok;
            keys.push(s);
        }
        fine &= !keys.is_empty() && !shards.is_empty();
        for s in &shards {
            fine &= last.get(s).map_or(true, |l| at >= *l);
        }
        for s in &shards {
            last.insert(*s, at);
        }
        sets.push(Set { at, shards, keys });
    }
    let all: BTreeSet<i64> = sets.iter().flat_map(|s| s.shards.clone()).collect();
    fine &= sets[0].at == 0 && all.iter().all(|s| sets[0].shards.contains(s));
    let peers = |t: &mut Tape| ["", "/ip4/10.0.0.148/udp/3382/quic-v1, /ip4/10.0.2.165/udp/3382/quic-v1", "12D3KooWGmXDC2SfjSG7h7DchyVJHMB4GpA8JYpHf9iwz8L8BFqB", "x\ny\"z\\"][t.below(4)].to_string();
    let (boot, direct) = (peers(t), peers(t));
    let flaw = if t.below(5) == 4 { t.below(14) } else { 99 };
    let mut s = String::new();
    if flaw == 0 {
        sets.clear();
    }
    for (i, x) in sets.iter().enumerate() {
        s += "[[consensus.validator_sets]]\n";
        s += &format!("effective_at = {}\n", x.at);
        if !(flaw == 1 && i == 0) {
            s += &format!("shard_ids = {:?}\n", x.shards);
        }
        s += "validator_public_keys = [\n";
        for k in &x.keys {
            s += &format!("  {},\n", quote(k));
        }
        s += "]\n";
        if flaw == 2 && i + 1 == sets.len() {
            s += "extra = 1\n";
        }
        s += "\n";
    }
    match flaw {
        3 => s += "[consensus]\nprivate_key = \"00\"\n\n",
        4 => s += "[other]\nx = 1\n\n",
        5 => s = s.replace("[[consensus.validator_sets]]", "[[consensus.validator_set]]"),
        _ => {}
    }
    if flaw != 6 {
        s += "[gossip]\n";
        if flaw != 7 {
            s += &format!("bootstrap_peers = {}\n", if flaw == 8 { "[\"a\"]".into() } else { quote(&boot) });
        }
        if flaw != 9 {
            s += &format!("direct_peers = {}\n", if flaw == 10 { "3".into() } else { quote(&direct) });
        }
        if flaw == 11 {
            s += "address = \"x\"\n";
        }
    }
    if flaw == 12 {
        s += "not toml\n";
    }
    if flaw <= 12 {
        fine = false;
    }
    let table: Option<Table> = toml::from_str(&s).ok();
    Doc { text: s, table, fine, sets }
}

struct Local {
    table: Table,
    secrets: Vec<String>,
    /// a node could load it
    plain: bool,
    broken: bool,
}
fn local(t: &mut Tape, l1_file: Option<&str>) -> Local {
    let mut x = Table::new();
    let mut secrets = vec![];
    let mut plain = true;
    let secret = |t: &mut Tape, n: &str, secrets: &mut Vec<String>| -> Value {
        match t.below(5) {
            0 => Value::String(String::new()),
            _ => {
                let s = format!("SeCrEt{n}{:02x}", t.u8());
                secrets.push(s.clone());
                Value::String(s)
            }
        }
    };
    match t.below(20) {
        1 | 11 | 12 | 13 | 14 => drop(x.insert("fc_network".into(), Value::String(["Mainnet", "mainnet", "MAINNET"][t.below(3)].into()))),
        7 => drop(x.insert("fc_network".into(), Value::String(["Testnet", "testnet"][t.below(2)].into()))),
        2 => drop(x.insert("fc_network".into(), Value::String(["Devnet", "devnet"][t.below(2)].into()))),
        3 => drop(x.insert("fc_network".into(), Value::String(["", "main", "Mainnet "][t.below(3)].into()))),
        4 => drop(x.insert("fc_network".into(), Value::Integer(1))),
        _ => {}
    }
    if let Some(v) = x.get("fc_network").cloned() {
        plain &= v.as_str().is_some_and(|s| ["Mainnet", "Testnet", "Devnet"].contains(&s));
    }
    match t.below(20) {
        4 => drop(x.insert("read_node".into(), Value::Boolean(true))),
        1 | 2 => drop(x.insert("read_node".into(), Value::Boolean(false))),
        3 => {
            plain = false;
            x.insert("read_node".into(), Value::String("true".into()));
        }
        _ => {}
    }
    match l1_file {
        Some(u) => {
            secrets.push("KeyOfTheFile".into());
            x.insert("l1_rpc_url".into(), Value::String(u.into()));
        }
        None => match t.below(8) {
            1 => drop(x.insert("l1_rpc_url".into(), Value::String(String::new()))),
            2 => {
                plain = false;
                x.insert("l1_rpc_url".into(), Value::Integer(3));
            }
            _ => {}
        },
    }
    for k in ["rpc_auth", "admin_rpc_auth"] {
        if t.flag() {
            let v = secret(t, k, &mut secrets);
            x.insert(k.into(), v);
        }
    }
    if t.below(4) > 0 {
        let mut c = Table::new();
        if t.below(4) > 0 {
            let k = hex::encode(gens::signing_key(t.u8()).to_bytes());
            secrets.push(k.clone());
            c.insert("private_key".into(), Value::String(k));
        } else if t.flag() {
            plain = false;
            let v = secret(t, "pk", &mut secrets);
            c.insert("private_key".into(), v);
        }
        if t.flag() {
            c.insert("num_shards".into(), Value::Integer(2));
            c.insert("shard_ids".into(), Value::Array(vec![Value::Integer(1), Value::Integer(2)]));
            c.insert("block_time".into(), Value::String("1s".into()));
        }
        match t.below(4) {
            0 => drop(c.insert("validator_sets".into(), Value::Array(vec![]))),
            1 => drop(c.insert("validator_sets".into(), toml::from_str::<Table>("a=[{effective_at=5,validator_public_keys=['zz'],shard_ids=[9]}]").unwrap()["a"].clone())),
            2 => drop(c.insert("validator_sets".into(), Value::String("old".into()))),
            _ => {}
        }
        x.insert("consensus".into(), Value::Table(c));
    } else if t.below(6) == 5 {
        plain = false;
        x.insert("consensus".into(), Value::String("none".into()));
    }
    if t.below(4) > 0 {
        let mut g = Table::new();
        match t.below(8) {
            0 => drop(g.insert("bootstrap_peers".into(), Value::String(String::new()))),
            1 => drop(g.insert("bootstrap_peers".into(), Value::String(" \t\n ".into()))),
            2 => {
                plain = false;
                g.insert("bootstrap_peers".into(), Value::Array(vec![]));
            }
            3 | 4 | 5 => drop(g.insert("bootstrap_peers".into(), Value::String(["/ip4/1.2.3.4/udp/1/quic-v1", " x "][t.below(2)].into()))),
            _ => {}
        }
        if t.flag() {
            g.insert("direct_peers".into(), Value::String("mine".into()));
        }
        if t.flag() {
            g.insert("address".into(), Value::String("/ip4/0.0.0.0/udp/3382/quic-v1".into()));
        }
        x.insert("gossip".into(), Value::Table(g));
    } else if t.below(6) == 5 {
        plain = false;
        x.insert("gossip".into(), Value::Integer(4));
    }
    if t.flag() {
        let mut s = Table::new();
        for k in ["aws_access_key_id", "aws_secret_access_key"] {
            if t.below(3) > 0 {
                let v = secret(t, k, &mut secrets);
                s.insert(k.into(), v);
            }
        }
        s.insert("s3_bucket".into(), Value::String("bucket".into()));
        x.insert("snapshot".into(), Value::Table(s));
    }
    for k in ["onchain_events", "base_onchain_events"] {
        if t.flag() {
            let mut s = Table::new();
            let v = secret(t, k, &mut secrets);
            s.insert("rpc_url".into(), v);
            if t.flag() {
                s.insert("start_block_number".into(), Value::Integer(7));
            }
            x.insert(k.into(), Value::Table(s));
        }
    }
    if t.below(3) == 2 {
        plain = false; // keys the node may not know
        let odd = [
            "zz = [1, 2.5, 'a', 1979-05-27T07:32:00Z]",
            "zz = { a = { b = [[]] } }",
            "'key with \"quotes\" é' = inf",
            "zz = '''multi\nline'''\n[[aa]]\nq = 1\n[[aa]]\nq = 2",
            "[zz.yy]\n'' = 'empty key'\nn = -9223372036854775808",
            "[aa]\nrpc_url = 'shown'\n[zz]\nprivate_key_path = 'shown'",
        ];
        x.extend(toml::from_str::<Table>(odd[t.below(6)]).unwrap());
    }
    Local { table: x, secrets, plain, broken: false }
}

fn enc_u256(v: U256) -> String {
    format!("0x{}", hex::encode(v.to_be_bytes::<32>()))
}
fn enc_str(s: &[u8]) -> Vec<u8> {
    let mut b = [gens::u256(32), gens::u256(s.len() as u64)].concat();
    b.extend(s);
    b.resize(64 + (s.len() + 31) / 32 * 32, 0);
    b
}
fn sel(sig: &str) -> String {
    format!("0x{}", hex::encode(&gens::keccak(sig.as_bytes())[..4]))
}
fn counter(t: &mut Tape) -> U256 {
    match t.below(5) {
        0 => U256::ZERO,
        1 => U256::MAX,
        2 => U256::from(u64::MAX) + U256::from(t.u8()),
        _ => U256::from(t.u64()),
    }
}

/// One faulty answer: which read it hits and how.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Fault {
    None,
    At(usize, usize),
}
fn faulty(kind: usize, good: serde_json::Value) -> Reply {
    match kind {
        0 => Reply::new(500, "boom"),
        1 => Reply { status: 302, headers: vec![("location".into(), "/elsewhere".into())], body: vec![], claim: None },
        2 => Reply::new(200, "{ not json"),
        3 => Reply::new(200, json!({"jsonrpc":"2.0","id":1,"error":{"code":-32000,"message":format!("{}http://x/KeyReflected", "e".repeat(200)),"data":"http://x/KeyReflected"}}).to_string()),
        4 => Reply::new(200, json!({"jsonrpc":"2.0","id":1}).to_string()),
        5 => Reply::new(200, json!({"jsonrpc":"2.0","id":1,"result":7}).to_string()),
        6 => Reply::new(200, json!({"jsonrpc":"2.0","id":1,"result":"0xzz"}).to_string()),
        7 => Reply::new(200, json!({"jsonrpc":"2.0","id":1,"result":"0x"}).to_string()),
        8 => {
            // a valid answer, padded beyond four megabytes
            let mut b = good.to_string().into_bytes();
            b.resize(4 * 1024 * 1024 + 1, b' ');
            Reply::new(200, b)
        }
        9 => {
            let b = good.to_string().into_bytes();
            Reply { status: 200, headers: vec![], claim: Some(b.len() + 10), body: b }
        }
        10 => Reply::new(429, good.to_string()),
        _ => Reply::new(200, json!([good]).to_string()),
    }
}
const FAULTS: usize = 12;

struct Env {
    fc_network: Option<&'static str>,
    read_node: Option<&'static str>,
}
fn env(t: &mut Tape) -> Env {
    Env {
        fc_network: if t.below(12) == 5 { Some(["Mainnet", "testnet", "Devnet", "x", ""][t.below(5)]) } else { None },
        read_node: if t.below(10) == 5 { Some(["true", "false", "1", "True", ""][t.below(5)]) } else { None },
    }
}
struct Chosen {
    net: &'static str,
    netarg: Option<&'static str>,
    chain: Option<u64>,
}
fn chosen(t: &mut Tape) -> Chosen {
    match t.below(6) {
        0 | 1 | 2 => Chosen { net: "Mainnet", netarg: if t.flag() { Some("mainnet") } else { None }, chain: Some(1) },
        3 | 4 => Chosen { net: "Testnet", netarg: Some("testnet"), chain: Some(11_155_111) },
        _ => Chosen { net: "Devnet", netarg: Some("devnet"), chain: None },
    }
}

/// Where the endpoint and the registry come from.
struct Source {
    flag: bool,
    env: Option<&'static str>, // "", "empty" or "url"
    file: bool,
    registry: Option<(String, Option<String>)>,
}
fn source(t: &mut Tape, c: &Chosen) -> Source {
    let registry = match t.below(8) {
        2 | 3 => Some(("0x00112233445566778899aabbccddeeff00112233".to_string(), Some("0x00112233445566778899aabbccddeeff00112233".to_string()))),
        1 => match t.below(6) {
            0 => Some(("0x1234".into(), None)),
            1 => Some(("registry.eth".into(), None)),
            _ => Some(("0xf39Fd6e51aad88F6F4ce6aB8827279cffFb92266".into(), Some("0xf39fd6e51aad88f6f4ce6ab8827279cfffb92266".into()))),
        },
        _ if c.net == "Devnet" && t.below(6) < 5 => Some(("0x00112233445566778899aabbccddeeff00112233".to_string(), Some("0x00112233445566778899aabbccddeeff00112233".to_string()))),
        _ => None,
    };
    Source { flag: t.flag() || (c.net != "Mainnet" && t.below(6) < 5), env: [None, None, Some(""), Some("url")][t.below(4)], file: t.below(4) < 3, registry }
}
impl Source {
    /// The path of the endpoint that is asked, and the registry's address; `None`: refused.
    fn resolve(&self, c: &Chosen, has_file: bool) -> Option<(&'static str, String)> {
        let reg = match &self.registry {
            Some((_, a)) => a.clone()?,
            None if c.net == "Devnet" => return None,
            None => BAKED.into(),
        };
        let url = if self.flag {
            "/KeyOfTheFlag"
        } else if c.net != "Mainnet" {
            return None;
        } else if self.env == Some("url") {
            "/KeyOfTheEnv"
        } else if self.file && has_file {
            "/KeyOfTheFile"
        } else {
            return None;
        };
        Some((url, reg))
    }
}

fn tree(dir: &Path) -> BTreeMap<String, Vec<u8>> {
    std::fs::read_dir(dir).unwrap().map(|e| e.unwrap()).map(|e| (e.file_name().into_string().unwrap(), std::fs::read(e.path()).unwrap_or_default())).collect()
}
fn redact(m: &Table) -> Table {
    let mut m = m.clone();
    let hide = |v: Option<&mut Value>| {
        if let Some(Value::String(s)) = v {
            if !s.is_empty() {
                *s = "<redacted>".into();
            }
        }
    };
    for k in ["l1_rpc_url", "rpc_auth", "admin_rpc_auth"] {
        hide(m.get_mut(k));
    }
    for (a, k) in [
        ("consensus", "private_key"),
        ("snapshot", "aws_access_key_id"),
        ("snapshot", "aws_secret_access_key"),
        ("onchain_events", "rpc_url"),
        ("base_onchain_events", "rpc_url"),
    ] {
        hide(m.get_mut(a).and_then(|t| t.get_mut(k)));
    }
    m
}

fn pull(c: &Vec<u8>, o: &mut Obs) -> R {
    let mut t = Tape::new(c);
    let ch = chosen(&mut t);
    let src = source(&mut t, &ch);
    let ev = env(&mut t);
    let d = doc(&mut t);
    let (dry, report, accept) = [(false, false), (false, true), (true, false), (false, false), (false, true), (true, false), (false, false), (true, true)].map(|x| (x.0, x.1, t.flag()))[t.below(8)];
    let version = counter(&mut t);
    let fault = if t.below(6) == 5 { Fault::At(t.below(4), t.below(FAULTS)) } else { Fault::None };
    let wrong_chain = t.below(12) == 7;
    let tmp = tempfile::tempdir().unwrap();
    let home = tmp.path().join("etc");
    std::fs::create_dir(&home).unwrap();
    let real = home.join(["config.toml", "c", "my config.toml"][t.below(3)]);
    let name = real.file_name().unwrap().to_str().unwrap().to_string();
    let given: PathBuf = if t.below(4) == 0 {
        let l = tmp.path().join("link.toml");
        std::os::unix::fs::symlink(&real, &l).unwrap();
        l
    } else {
        real.clone()
    };
    // what other runs and other people left there
    let mut others = BTreeSet::new();
    for n in [format!(".{name}.tmp"), format!("{name}.tmp.1"), ".other.tmp.5".into(), format!(".{name}")] {
        if t.below(3) == 0 {
            std::fs::write(home.join(&n), b"keep").unwrap();
            others.insert(n);
        }
    }
    let stale = format!(".{name}.tmp.4194304999");
    let has_stale = t.below(3) == 0;
    if has_stale {
        std::fs::write(home.join(&stale), b"SeCrEt old copy").unwrap();
    }
    let edit = t.below(12) == 7;
    let rep_path = tmp.path().join("version");
    let old_report = t.flag();
    if old_report {
        std::fs::write(&rep_path, "old").unwrap();
    }

    // the endpoint: its address is part of the file, so it comes up first
    let shared: std::sync::Arc<std::sync::Mutex<Option<Box<dyn FnMut(usize, &run::Req) -> Reply + Send>>>> = Default::default();
    let s2 = shared.clone();
    let srv = Server::start(move |n, r| (s2.lock().unwrap().as_mut().unwrap())(n, r));
    let base = format!("http://127.0.0.1:{}", srv.port);
    let mut lo = local(&mut t, src.file.then(|| format!("{base}/KeyOfTheFile")).as_deref());
    let mut raw = toml::to_string(&lo.table).unwrap();
    if t.flag() {
        raw = format!("# a comment\n{raw}\n# the end\n");
    }
    if t.below(20) == 7 {
        lo.broken = true;
        lo.secrets.push("SeCrEtLine".into());
        raw += ["\nprivate_key = SeCrEtLine\n", "\nprivate_key SeCrEtLine\n", "\nx = \"SeCrEtLine\n", "\n[consensus\nSeCrEtLine"][t.below(4)];
    }
    let mode = [0o600, 0o640, 0o644, 0o400][t.below(4)];
    std::fs::write(&real, &raw).unwrap();
    std::fs::set_permissions(&real, std::fs::Permissions::from_mode(mode)).unwrap();
    lo.secrets.extend(["KeyOfTheFlag".into(), "KeyOfTheEnv".into(), "KeyReflected".into(), "SeCrEt old".into()]);

    // what must come of it
    let resolved = src.resolve(&ch, true);
    let declared = ev.fc_network.or_else(|| lo.table.get("fc_network").and_then(|v| v.as_str()));
    let read_node = match ev.read_node {
        Some("true") => Some(true),
        Some("false") => Some(false),
        Some(_) => None,
        None => Some(matches!(lo.table.get("read_node"), Some(Value::Boolean(true)))),
    };
    let conflict = dry && report;
    let local_ok = !conflict
        && !lo.broken
        && declared.map_or(true, |s| s.eq_ignore_ascii_case(ch.net))
        && read_node.is_some_and(|r| !r || dry)
        && resolved.is_some();
    let mut reads: Vec<&str> = vec![];
    if ch.chain.is_some() {
        reads.push("eth_chainId");
    }
    if report {
        reads.push("eth_getBlockByNumber");
        reads.push("version");
    }
    reads.push("toml");
    let block_hash = format!("0x{}", hex::encode(gens::fill(32, t.u8())));
    let url = resolved.clone().map(|r| r.0).unwrap_or("");
    {
        let (reads, chain, hash, text, file, edited) = (reads.clone(), ch.chain, block_hash.clone(), d.text.clone(), real.clone(), format!("edited = true\n{raw}"));
        *shared.lock().unwrap() = Some(Box::new(move |n, _| {
            let what = reads.get(n).copied().unwrap_or("none");
            let ok = |v: serde_json::Value| json!({"jsonrpc":"2.0","id":1,"result":v});
            let good = match what {
                "eth_chainId" => ok(json!(format!("0x{:x}", chain.unwrap() + wrong_chain as u64))),
                "eth_getBlockByNumber" => ok(json!({"hash": hash, "number": "0x1"})),
                "version" => ok(json!(enc_u256(version))),
                _ => {
                    if edit {
                        std::fs::write(&file, &edited).unwrap();
                    }
                    ok(json!(format!("0x{}", hex::encode(enc_str(text.as_bytes())))))
                }
            };
            match fault {
                Fault::At(k, kind) if k == n => faulty(kind, good),
                _ => Reply::new(200, good.to_string()),
            }
        }));
    }
    // the first read that fails, if any
    let failing = {
        let mut f = usize::MAX;
        if let Fault::At(k, _) = fault {
            if k < reads.len() {
                f = k;
            }
        }
        if wrong_chain && ch.chain.is_some() {
            f = f.min(0);
        }
        f
    };
    let rpc_ok = failing == usize::MAX;
    let targets_ok = ["consensus", "gossip"].iter().all(|k| lo.table.get(*k).map_or(true, |v| v.is_table()));
    let merged = (local_ok && rpc_ok && d.fine && targets_ok).then(|| {
        let reg = d.table.clone().expect("a fine document parses");
        let mut m = lo.table.clone();
        let keep = accept && m.get("gossip").and_then(|g| g.get("bootstrap_peers")).is_some_and(|v| v.as_str().map_or(true, |s| !s.trim().is_empty()));
        for (a, k) in [("consensus", "validator_sets"), ("gossip", "bootstrap_peers"), ("gossip", "direct_peers")] {
            if keep && k == "bootstrap_peers" {
                continue;
            }
            let e = m.entry(a).or_insert(Value::Table(Table::new()));
            e.as_table_mut().unwrap().insert(k.into(), reg[a][k].clone());
        }
        m
    });
    let succeed = merged.is_some() && !(edit && !dry);

    let mut args: Vec<String> = vec![];
    if let Some(n) = ch.netarg {
        args.extend(["--network".into(), n.into()]);
    }
    args.extend(["config".into(), "pull".into(), "--config".into(), given.to_str().unwrap().into()]);
    if let Some((r, _)) = &src.registry {
        args.push(format!("--registry={r}"));
    }
    if src.flag {
        args.push(format!("--rpc-url={base}/KeyOfTheFlag"));
    }
    if dry {
        args.push("--dry-run".into());
    }
    if report {
        args.push(format!("--report-version={}", rep_path.display()));
    }
    if accept {
        args.push("--accept-local-bootstrap-peers-config".into());
    }
    let mut e: Vec<(String, String)> = vec![];
    if let Some(v) = ev.fc_network {
        e.push(("SNAPCHAIN_FC_NETWORK".into(), v.into()));
    }
    if let Some(v) = ev.read_node {
        e.push(("SNAPCHAIN_READ_NODE".into(), v.into()));
    }
    match src.env {
        Some("url") => e.push(("SNAPCHAIN_L1_RPC_URL".into(), format!("{base}/KeyOfTheEnv"))),
        Some(_) => e.push(("SNAPCHAIN_L1_RPC_URL".into(), String::new())),
        None => {}
    }
    let before = tree(&home);
    let out = fc(&args, &e, b"", None);
    let reqs = srv.stop();
    let after = tree(&home);
    let say = || format!("{args:?} {e:?}\nfault {fault:?}\nlocal:\n{raw}\nregistry:\n{}\noutput: {}", d.text, out.all());
    let all = out.all();
    for s in &lo.secrets {
        ensure!(!all.contains(s.as_str()), "prints the secret {s:?}\n{}", say());
    }
    ensure!(out.ok() == succeed, "exit {:?}, should succeed: {succeed} (local {local_ok}, reads {rpc_ok}, document {}, edit {edit})\n{}", out.code, d.fine, say());
    o.label_if(succeed, "pulled");
    o.label_if(!local_ok, "refused before any read");
    o.label_if(local_ok && !rpc_ok, "a read fails");
    o.label_if(local_ok && rpc_ok && !d.fine, "the document is refused");
    // the reads
    if !local_ok {
        ensure!(reqs.is_empty(), "asks the endpoint although the local side is refused\n{}", say());
    }
    let n_max = if rpc_ok { reads.len() } else { failing + 1 };
    if local_ok {
        // a read of which nothing (or half) arrives may be tried again
        ensure!(reqs.len() == n_max, "{} reads, expected {n_max} of {reads:?}\n{}", reqs.len(), say());
    }
    let reg = resolved.map(|r| r.1).unwrap_or_default();
    for (i, q) in reqs.iter().enumerate() {
        ensure_eq!((q.method.as_str(), q.path.as_str()), ("POST", url), "read {i}");
        let v: serde_json::Value = serde_json::from_slice(&q.body).map_err(|e| e.to_string())?;
        let at = if report { json!({"blockHash": block_hash, "requireCanonical": true}) } else { json!("latest") };
        let (m, p) = match reads[i] {
            "eth_chainId" => ("eth_chainId", json!([])),
            "eth_getBlockByNumber" => ("eth_getBlockByNumber", json!(["latest", false])),
            w => {
                let data = sel(if w == "version" { "configVersion()" } else { "configToml()" });
                ("eth_call", json!([{"to": reg, "data": data}, at]))
            }
        };
        let mut got = v["params"].clone();
        if let Some(to) = got.get(0).and_then(|c| c.get("to")).and_then(|s| s.as_str()).map(|s| s.to_lowercase()) {
            got[0]["to"] = json!(to);
        }
        ensure_eq!((v["method"].as_str(), got), (Some(m), p), "read {i}");
    }
    // the files
    let now = std::fs::read_to_string(&real).map_err(|e| format!("the config is gone: {e}\n{}", say()))?;
    let served = reqs.len() == reads.len();
    if succeed && !dry {
        o.nt();
        o.label_if(lo.table.contains_key("consensus"), "with a local consensus table");
        let got: Table = toml::from_str(&now).map_err(|e| format!("the new config does not parse: {e}\n{now}"))?;
        ensure_eq!(&got, merged.as_ref().unwrap(), "the merged config\n{}", say());
        ensure!(!after.contains_key(&stale), "a stale copy of the config is left\n{}", say());
    } else {
        let want = if edit && served { format!("edited = true\n{raw}") } else { raw.clone() };
        ensure_eq!(now, want, "the config was touched\n{}", say());
        ensure!(dry || !succeed, "?");
    }
    let m = std::fs::metadata(&real).unwrap().permissions().mode() & 0o7777;
    ensure_eq!(m, mode, "mode of the config\n{}", say());
    ensure!(given == real || given.symlink_metadata().unwrap().is_symlink(), "the link was replaced");
    for n in &others {
        ensure_eq!(after.get(n).map(|b| &b[..]), Some(&b"keep"[..]), "a file of someone else's, {n}");
    }
    for n in after.keys() {
        ensure!(before.contains_key(n), "{n} is left behind\n{}", say());
    }
    let rep = std::fs::read_to_string(&rep_path).ok();
    if succeed && report {
        o.label("reported");
        ensure_eq!(rep, Some(format!("{version}\n")), "the reported version");
    } else {
        ensure_eq!(rep, old_report.then(|| "old".to_string()), "the report file was touched\n{}", say());
    }
    if dry && succeed {
        o.nt();
        o.label("dry run");
        let got: Table = toml::from_str(&out.out).map_err(|e| format!("the dry run does not print TOML: {e}\n{}", say()))?;
        ensure_eq!(got, redact(merged.as_ref().unwrap()), "the dry run\n{}", say());
    }
    // and a node starts with what was pulled
    if succeed && !dry && lo.plain && !now.contains("zz") {
        let cfg = snapchain::cfg::load_and_merge_config(vec!["snapchain".into(), "--config-path".into(), real.to_str().unwrap().into()]).map_err(|e| format!("the node does not load it: {e}\n{now}"))?;
        o.label("loaded by the node");
        let sets = cfg.consensus.get_validator_set_config(0);
        ensure_eq!(sets.len(), d.sets.len(), "validator sets the node sees");
        for (a, b) in sets.iter().zip(&d.sets) {
            ensure_eq!((a.effective_at as i64, &a.validator_public_keys), (b.at, &b.keys), "a validator set the node sees");
            ensure_eq!(a.shard_ids.iter().map(|s| *s as i64).collect::<Vec<_>>(), b.shards, "shards of a validator set the node sees");
        }
        for s in d.sets[0].shards.iter() {
            cfg.consensus.to_stored_validator_sets(*s as u32);
        }
        snapchain::network::mesh::view::build_validator_peer_ids(cfg.consensus.latest_validator_public_keys().iter());
    }
    Ok(())
}

fn version(c: &Vec<u8>, o: &mut Obs) -> R {
    let mut t = Tape::new(c);
    let ch = chosen(&mut t);
    let src = source(&mut t, &ch);
    let ev = env(&mut t);
    let v = counter(&mut t);
    let fault = if t.below(5) == 4 { Fault::At(t.below(2), t.below(FAULTS)) } else { Fault::None };
    let wrong_chain = t.below(12) == 7;
    let chain = ch.chain;
    let srv = Server::start(move |n, _| {
        let ok = |v: serde_json::Value| json!({"jsonrpc":"2.0","id":1,"result":v});
        let good = if n == 0 && chain.is_some() { ok(json!(format!("0x{:x}", chain.unwrap() + wrong_chain as u64))) } else { ok(json!(enc_u256(v))) };
        match fault {
            Fault::At(k, kind) if k == n => faulty(kind, good),
            _ => Reply::new(200, good.to_string()),
        }
    });
    let base = format!("http://127.0.0.1:{}", srv.port);
    let lo = local(&mut t, src.file.then(|| format!("{base}/KeyOfTheFile")).as_deref());
    let tmp = tempfile::tempdir().unwrap();
    let p = tmp.path().join("config.toml");
    let with = t.below(3) > 0;
    let raw = toml::to_string(&lo.table).unwrap();
    std::fs::write(&p, &raw).unwrap();
    let mut args: Vec<String> = vec!["config".into(), "version".into()];
    if let Some(n) = ch.netarg {
        args.push(format!("--network={n}"));
    }
    if with {
        args.extend(["--config".into(), p.to_str().unwrap().into()]);
    }
    if let Some((r, _)) = &src.registry {
        args.push(format!("--registry={r}"));
    }
    if src.flag {
        args.push(format!("--rpc-url={base}/KeyOfTheFlag"));
    }
    let mut e: Vec<(String, String)> = vec![];
    if let Some(v) = ev.fc_network {
        e.push(("SNAPCHAIN_FC_NETWORK".into(), v.into()));
    }
    match src.env {
        Some("url") => e.push(("SNAPCHAIN_L1_RPC_URL".into(), format!("{base}/KeyOfTheEnv"))),
        Some(_) => e.push(("SNAPCHAIN_L1_RPC_URL".into(), String::new())),
        None => {}
    }
    let declared = ev.fc_network.or_else(|| if with { lo.table.get("fc_network").and_then(|v| v.as_str()) } else { None });
    let resolved = src.resolve(&ch, with);
    let local_ok = declared.map_or(true, |s| s.eq_ignore_ascii_case(ch.net)) && resolved.is_some();
    let n = 1 + ch.chain.is_some() as usize;
    let bad_read = matches!(fault, Fault::At(k, _) if k < n) || (wrong_chain && ch.chain.is_some());
    let out = fc(&args, &e, b"", None);
    let reqs = srv.stop();
    let say = || format!("{args:?} {e:?} {fault:?}\n{raw}\n{}", out.all());
    for s in lo.secrets.iter().map(|s| s.as_str()).chain(["KeyOfTheFlag", "KeyOfTheEnv", "KeyReflected"]) {
        ensure!(!out.all().contains(s), "prints the secret {s:?}\n{}", say());
    }
    ensure!(out.ok() == (local_ok && !bad_read), "exit {:?}, local {local_ok}, a bad read {bad_read}\n{}", out.code, say());
    ensure!(local_ok || reqs.is_empty(), "asks although refused\n{}", say());
    ensure_eq!(std::fs::read_to_string(&p).unwrap(), raw, "the config was touched");
    if out.ok() {
        o.nt();
        ensure_eq!(out.out, format!("{v}\n"), "output");
        ensure_eq!(reqs.len(), n, "reads");
        let q: serde_json::Value = serde_json::from_slice(&reqs[n - 1].body).unwrap();
        let (url, reg) = resolved.unwrap();
        let data = sel("configVersion()");
        ensure!(reqs.iter().all(|q| q.path == url), "the wrong endpoint\n{}", say());
        ensure_eq!((q["method"].as_str(), q["params"][0]["to"].as_str().map(|s| s.to_lowercase()), q["params"][0]["data"].as_str()), (Some("eth_call"), Some(reg), Some(data.as_str())), "the call");
    } else {
        ensure!(out.out.is_empty(), "prints {:?} although it fails", out.out);
    }
    o.label_if(!local_ok, "refused before any read");
    o.label_if(local_ok && bad_read, "a read fails");
    Ok(())
}

fn slot(c: &Vec<u8>, o: &mut Obs) -> R {
    let mut t = Tape::new(c);
    let n = [1, 2, 3, 4, 1, 2, 3, 0][t.below(8)];
    let mut sets: Vec<Vec<String>> = vec![];
    for _ in 0..n {
        let k = t.below(5);
        sets.push(
            (0..k)
                .map(|_| {
                    let s = hex::encode(gens::signing_key(t.below(9) as u8).verifying_key().to_bytes());
                    if t.below(4) == 0 { s.to_uppercase() } else { s }
                })
                .collect(),
        );
    }
    let own = t.below(12) as u8;
    let sk = hex::encode(gens::signing_key(own).to_bytes());
    let other = t.below(12) as u8;
    let write = |t: &mut Tape, s: &str| match t.below(6) {
        0 => s.to_uppercase(),
        1 => format!(" {s}\n"),
        _ => s.to_string(),
    };
    let mut bad = false;
    let mut file_key = write(&mut t, &sk);
    let mut env_key = None;
    let mut have_file = true;
    match t.below(16) {
        5 | 1 => {
            env_key = Some(file_key.trim().to_string());
            file_key = hex::encode(gens::signing_key(other).to_bytes());
            have_file = t.flag();
        }
        2 => {
            bad = true;
            file_key = [&sk[2..], &sk[1..], "", "0x"][t.below(4)].into();
        }
        3 => {
            bad = true;
            env_key = Some(format!("{sk}g"));
        }
        4 => {
            bad = true;
            have_file = false;
        }
        _ => {}
    }
    let odd = [3, 3, 3, 3, 3, 3, 3, 3, 3, 0, 1, 2][t.below(12)];
    let mut s = String::new();
    if odd != 0 {
        s += "[consensus]\n";
        if have_file {
            s += &format!("private_key = {}\n", quote(&file_key));
        }
        if odd == 1 || n == 0 {
            s += match t.below(3) {
                0 => "",
                1 => "validator_sets = []\n",
                _ => "validator_sets = 'none'\n",
            };
        } else {
            for x in &sets {
                s += &format!("[[consensus.validator_sets]]\neffective_at = {}\nshard_ids = [1]\nvalidator_public_keys = {:?}\n", t.u8(), x);
                if odd == 2 {
                    s += "surprise = 1\n";
                }
            }
        }
    }
    let union: BTreeSet<String> = if odd == 1 { Default::default() } else { sets.iter().flatten().map(|k| k.to_lowercase()).collect() };
    bad |= odd <= 2 || union.is_empty();
    let broken = t.below(20) == 7;
    if broken {
        bad = true;
        s += &format!("\nprivate_key = {}zz\n", &sk);
    }
    let tmp = tempfile::tempdir().unwrap();
    let p = tmp.path().join("c.toml");
    std::fs::write(&p, &s).unwrap();
    let args: Vec<String> = vec!["config".into(), "slot".into(), "--config".into(), p.to_str().unwrap().into()];
    let e: Vec<(String, String)> = env_key.iter().map(|k| ("SNAPCHAIN_CONSENSUS__PRIVATE_KEY".to_string(), k.clone())).collect();
    let out = fc(&args, &e, b"", None);
    let all = out.all().to_lowercase();
    ensure!(!all.contains(&sk[2..]) && !all.contains(file_key.to_lowercase().trim()) || file_key.len() < 10, "prints a private key: {all}");
    ensure_eq!(std::fs::read_to_string(&p).unwrap(), s, "the config was touched");
    ensure!(out.ok() != bad, "exit {:?}, should fail: {bad}\n{s}\n{}", out.code, out.all());
    if !bad {
        let mine = hex::encode(gens::signing_key(own).verifying_key().to_bytes());
        let index = union.iter().position(|k| *k == mine).unwrap_or(union.len());
        ensure_eq!(out.out, format!("{index} {}\n", union.len()), "the slot\n{s}");
        if index < union.len() {
            o.nt();
        }
        o.label_if(index == union.len(), "not a validator");
        o.label_if(env_key.is_some(), "key from the environment");
    } else {
        ensure!(out.out.is_empty(), "prints {:?} although it fails", out.out);
        o.label("refused");
    }
    Ok(())
}

/// The disk fills, or the process dies, while the new config is written.
fn crash(c: &(u8, u8, bool, Vec<u8>), o: &mut Obs) -> R {
    let (blocks, len, dies, tape) = c;
    let mut t = Tape::new(tape);
    let tmp = tempfile::tempdir().unwrap();
    let p = tmp.path().join("config.toml");
    let pad: String = "x".repeat(200 + *len as usize * 40);
    let raw = format!("pad = \"{pad}\"\n[consensus]\nprivate_key = \"SeCrEtKey\"\n");
    std::fs::write(&p, &raw).unwrap();
    std::fs::set_permissions(&p, std::fs::Permissions::from_mode(0o600)).unwrap();
    let d = loop {
        let d = doc(&mut t);
        if d.fine {
            break d;
        }
        if t.done() {
            t = Tape::new(&[]);
        }
    };
    let text = d.text.clone();
    let srv = Server::start(move |_, _| Reply::new(200, json!({"jsonrpc":"2.0","id":1,"result":format!("0x{}", hex::encode(enc_str(text.as_bytes())))}).to_string()));
    let args: Vec<String> = vec![
        "--network=devnet".into(),
        "config".into(),
        "pull".into(),
        format!("--config={}", p.display()),
        format!("--rpc-url=http://127.0.0.1:{}/Key", srv.port),
        "--registry=0x00112233445566778899aabbccddeeff00112233".into(),
    ];
    let mut want: Table = toml::from_str(&raw).unwrap();
    let reg = d.table.clone().unwrap();
    want["consensus"].as_table_mut().unwrap().insert("validator_sets".into(), reg["consensus"]["validator_sets"].clone());
    want.insert("gossip".into(), reg["gossip"].clone());
    let size = toml::to_string(&want).unwrap().len();
    // a process may write no file beyond this size: it is told so, or killed
    let limit = (*blocks as usize % 24) * 512;
    let prelude = format!("{}ulimit -f {}", if *dies { "" } else { "trap '' XFSZ\n" }, limit / 512);
    let out = run::fc_under(&prelude, &args, &[]);
    ensure!(!out.all().contains("SeCrEt"), "prints the key: {}", out.all());
    let now = std::fs::read_to_string(&p).unwrap();
    let left: Vec<String> = tree(tmp.path()).into_keys().filter(|n| n != "config.toml").collect();
    if size <= limit {
        ensure!(out.ok(), "exit {:?} although the file fits ({size} of {limit})\n{}", out.code, out.all());
        ensure_eq!(toml::from_str::<Table>(&now).ok(), Some(want.clone()), "the merged config");
        ensure!(left.is_empty(), "left behind: {left:?}");
        o.label("fits");
    } else {
        o.nt();
        ensure!(!out.ok(), "succeeds although the file cannot be written");
        ensure_eq!(now, raw, "the old config did not survive a failed write");
        o.label(if *dies { "dies" } else { "told" });
        if !*dies {
            ensure!(left.is_empty(), "a copy of the config is left after a failed write: {left:?}");
        }
        for n in &left {
            let m = std::fs::metadata(tmp.path().join(n)).unwrap().permissions().mode() & 0o077;
            ensure_eq!(m, 0, "{n} is readable by others");
        }
        // the next pull repairs
        let out = fc(&args, &[], b"", None);
        ensure!(out.ok(), "the next pull fails: {}", out.all());
        ensure_eq!(toml::from_str::<Table>(&std::fs::read_to_string(&p).unwrap()).ok(), Some(want), "the merged config");
        let left: Vec<String> = tree(tmp.path()).into_keys().filter(|n| n != "config.toml").collect();
        ensure!(left.is_empty(), "left behind by the dead one: {left:?}");
    }
    Ok(())
}

pub fn c32(p: &mut Prop) {
    p.assume("the client is run as a process against loopback servers; the registry contract itself is not");
    p.sub("pull", "the pull succeeds (or is printed)", 30_000, 400_000, || pvec(any::<u8>(), 0..200).boxed(), pull);
    p.sub("version", "the counter is printed", 5_000, 100_000, || pvec(any::<u8>(), 0..120).boxed(), version);
    p.sub("slot", "the node is a listed validator", 5_000, 100_000, || pvec(any::<u8>(), 0..80).boxed(), slot);
    p.sub("crash", "the write cannot complete", 1_500, 40_000, || (any::<u8>(), any::<u8>(), any::<bool>(), pvec(any::<u8>(), 0..60)).boxed(), crash);
}
