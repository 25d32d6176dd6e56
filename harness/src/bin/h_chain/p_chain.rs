use crate::frame::*;
use crate::server::{self, Rep, Req};
use harness::gens::{keccak, u256};
use proptest::prelude::*;
use prost::Message as _;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use snapchain::connectors::onchain_events::{self as oce, Config, OnchainEventsRequest, Subscriber};
use snapchain::mempool::mempool::MempoolRequest;
use snapchain::proto::{self, on_chain_event::Body, FarcasterNetwork, OnChainEvent};
use snapchain::storage::db::RocksDB;
use snapchain::storage::store::mempool_poller::MempoolMessage;
use snapchain::storage::store::node_local_state::{Chain, LocalStateStore};
use std::sync::{Arc, Mutex};
use tokio::sync::{broadcast, mpsc, Notify};

// ---- the chain -----------------------------------------------------------------------------------
const STORAGE: &str = "00000000fcce7f938e7ae6d3c335bd6a1a7c593d";
const KEYS: &str = "00000000fc1237824fb747abde0ff18990e59b7e";
const IDS: &str = "00000000fc6c5f01fc30151999387bb99a9f489b";
const TIERS: &str = "00000000fc84484d585c3cf48d213424dfde43fd";
const OTHER_TIERS: &str = "1111111111111111111111111111111111111111";
const CONTROLLER: &str = "2222222222222222222222222222222222222222";
const TOKEN: &str = "3333333333333333333333333333333333333333";
const ENS: &str = "00000000000c2e074ec69a0dfb2997ba6c7d2e1e";
const OTHER_ENS: &str = "4444444444444444444444444444444444444444";
const STRANGER: &str = "5555555555555555555555555555555555555555";
const FIRST: [u64; 2] = [108864739, 31180908];

/// A number that may be too wide for the field it goes to.
#[derive(Debug, Clone, Copy, Serialize, Deserialize)]
pub enum N {
    Low(u8),
    U32(u32),
    U64(u64),
    Over(u8),
    Max,
}
impl N {
    fn word(self) -> [u8; 32] {
        match self {
            N::Low(n) => u256(n as u64),
            N::U32(n) => u256(n as u64),
            N::U64(n) => u256(n),
            N::Over(n) => {
                let mut w = [0; 32];
                w[23 - (n % 20) as usize] = 1;
                w[31] = n;
                w
            }
            N::Max => [255; 32],
        }
    }
    fn u64(self) -> Option<u64> {
        match self {
            N::Low(n) => Some(n as u64),
            N::U32(n) => Some(n as u64),
            N::U64(n) => Some(n),
            _ => None,
        }
    }
    fn u32(self) -> Option<u32> {
        self.u64().and_then(|n| n.try_into().ok())
    }
}
#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum What {
    Rent { payer: u8, fid: N, units: N },
    Register { to: u8, fid: N, recovery: u8 },
    Transfer { from: u8, to: u8, fid: N },
    Recovery { fid: N, to: u8 },
    Recover { from: u8, to: u8, fid: N },
    KeyAdd { fid: N, ty: u32, key: Vec<u8>, mty: u8, meta: Vec<u8> },
    KeyRemove { fid: N, key: Vec<u8> },
    KeyReset { fid: N, key: Vec<u8> },
    Migrated { at: N },
    Paused { id: bool },
    Tier { fid: N, tier: N, days: N, payer: u8 },
    TierMigrated { at: N },
    TierOff { tier: N },
    Named { name: Vec<u8>, label: u8, owner: u8, expires: N },
    Renewed { name: Vec<u8>, label: u8, expires: N },
    Token { from: u8, to: u8, id: N },
    Stranger { fid: N, units: N },
}
#[derive(Debug, Clone, Copy, PartialEq, Serialize, Deserialize)]
pub enum Damage {
    None,
    ShortData,
    NoTopic,
    NoBlockHash,
    NoLogIndex,
    NoBlockNumber,
    NoTxIndex,
    NoTxHash,
    UnknownBlock,
}
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct L {
    /// blocks since the log before
    gap: u16,
    what: What,
    damage: Damage,
}
fn addr(n: u8) -> Vec<u8> {
    vec![n; 20]
}
fn pad(a: &[u8]) -> [u8; 32] {
    harness::gens::pad_addr(a)
}
fn dynamic(parts: &[Result<[u8; 32], &[u8]>]) -> Vec<u8> {
    // ABI encoding: words, and byte strings behind offsets
    let mut head = vec![];
    let mut tail: Vec<u8> = vec![];
    for p in parts {
        match p {
            Ok(w) => head.extend(w),
            Err(b) => {
                head.extend(u256((parts.len() * 32 + tail.len()) as u64));
                tail.extend(u256(b.len() as u64));
                tail.extend(*b);
                while tail.len() % 32 != 0 {
                    tail.push(0)
                }
            }
        }
    }
    [head, tail].concat()
}
struct Placed {
    block: u64,
    index: u32,
    address: String,
    topics: Vec<[u8; 32]>,
    data: Vec<u8>,
    damage: Damage,
    event: Option<OnChainEvent>,
    fid: Option<u64>,
}
fn block_hash(n: u64) -> [u8; 32] {
    keccak(&n.to_be_bytes())
}
fn tx_hash(n: u64, i: u32) -> [u8; 32] {
    keccak(&[&n.to_be_bytes()[..], &i.to_be_bytes()].concat())
}
fn time_of(n: u64) -> u64 {
    1_500_000_000 + (n * 7919) % 200_000_000
}
fn ours(chain: usize, w: &What) -> bool {
    use What::*;
    match w {
        Stranger { .. } => true,
        Tier { .. } | TierMigrated { .. } | TierOff { .. } | Named { .. } | Renewed { .. } | Token { .. } => chain == 1,
        _ => chain == 0,
    }
}
fn place(chain: usize, block: u64, index: u32, l: &L, tiers: &str) -> Placed {
    use What::*;
    let sig = |s: &str| keccak(s.as_bytes());
    let t = time_of(block);
    let reg = |event_type: i32, to: Vec<u8>, from: Vec<u8>, recovery_address: Vec<u8>| {
        Body::IdRegisterEventBody(proto::IdRegisterEventBody { event_type, to, from, recovery_address })
    };
    let signer = |key: &[u8], key_type, event_type, metadata: &[u8], metadata_type| {
        Body::SignerEventBody(proto::SignerEventBody { key: key.to_vec(), key_type, event_type, metadata: metadata.to_vec(), metadata_type })
    };
    let chan = |key: Option<String>, expiry: Option<u64>, owner: Vec<u8>, event_type, label: Vec<u8>| {
        Some(Body::ChannelRegisterEventBody(proto::ChannelRegisterBody { channel_key: key?, expiry: expiry?, owner_address: owner, event_type, label }))
    };
    let utf8 = |n: &Vec<u8>| String::from_utf8(n.clone()).ok();
    let zero = N::Low(0);
    // event types: 1 signer, 2 migrated, 3 id register, 4 rent, 5 tier, 6 channel
    let (address, topics, data, fid, ty, body): (&str, Vec<[u8; 32]>, Vec<u8>, N, i32, Option<Body>) = match &l.what {
        Rent { payer, fid, units } => (
            STORAGE,
            vec![sig("Rent(address,uint256,uint256)"), pad(&addr(*payer)), fid.word()],
            units.word().to_vec(),
            *fid,
            4,
            units.u32().map(|units| Body::StorageRentEventBody(proto::StorageRentEventBody { payer: addr(*payer), units, expiry: (t + 365 * 86400) as u32 })),
        ),
        Stranger { fid, units } => (
            STRANGER,
            vec![sig("Rent(address,uint256,uint256)"), pad(&addr(1)), fid.word()],
            units.word().to_vec(),
            *fid,
            4,
            None,
        ),
        Register { to, fid, recovery } => (
            IDS,
            vec![sig("Register(address,uint256,address)"), pad(&addr(*to)), fid.word()],
            pad(&addr(*recovery)).to_vec(),
            *fid,
            3,
            Some(reg(1, addr(*to), vec![], addr(*recovery))),
        ),
        Transfer { from, to, fid } => (
            IDS,
            vec![sig("Transfer(address,address,uint256)"), pad(&addr(*from)), pad(&addr(*to)), fid.word()],
            vec![],
            *fid,
            3,
            Some(reg(2, addr(*to), addr(*from), vec![])),
        ),
        Recovery { fid, to } => (
            IDS,
            vec![sig("ChangeRecoveryAddress(uint256,address)"), fid.word(), pad(&addr(*to))],
            vec![],
            *fid,
            3,
            Some(reg(3, vec![], vec![], addr(*to))),
        ),
        Recover { from, to, fid } => (
            IDS,
            vec![sig("Recover(address,address,uint256)"), pad(&addr(*from)), pad(&addr(*to)), fid.word()],
            vec![],
            *fid,
            3,
            None,
        ),
        KeyAdd { fid, ty, key, mty, meta } => (
            KEYS,
            vec![sig("Add(uint256,uint32,bytes,bytes,uint8,bytes)"), fid.word(), u256(*ty as u64), keccak(key)],
            dynamic(&[Err(key), Ok(u256(*mty as u64)), Err(meta)]),
            *fid,
            1,
            Some(signer(key, *ty, 1, meta, *mty as u32)),
        ),
        KeyRemove { fid, key } => (
            KEYS,
            vec![sig("Remove(uint256,bytes,bytes)"), fid.word(), keccak(key)],
            dynamic(&[Err(key)]),
            *fid,
            1,
            Some(signer(key, 0, 2, &[], 0)),
        ),
        KeyReset { fid, key } => (
            KEYS,
            vec![sig("AdminReset(uint256,bytes,bytes)"), fid.word(), keccak(key)],
            dynamic(&[Err(key)]),
            *fid,
            1,
            Some(signer(key, 0, 3, &[], 0)),
        ),
        Migrated { at } => (
            KEYS,
            vec![sig("Migrated(uint256)"), at.word()],
            vec![],
            zero,
            2,
            at.u32().map(|migrated_at| Body::SignerMigratedEventBody(proto::SignerMigratedEventBody { migrated_at })),
        ),
        Paused { id } => (if *id { IDS } else { KEYS }, vec![sig("Paused(address)")], pad(&addr(9)).to_vec(), zero, 0, None),
        Tier { fid, tier, days, payer } => (
            tiers,
            vec![sig("PurchasedTier(uint256,uint256,uint256,address)"), fid.word(), tier.word(), pad(&addr(*payer))],
            days.word().to_vec(),
            *fid,
            5,
            (|| {
                let tier_type: i32 = tier.u64()?.try_into().ok()?;
                Some(Body::TierPurchaseEventBody(proto::TierPurchaseBody { tier_type, for_days: days.u64()?, payer: addr(*payer) }))
            })(),
        ),
        // the tier registry's own migration: no signer's
        TierMigrated { at } => (tiers, vec![sig("Migrated(uint256)"), at.word()], vec![], zero, 0, None),
        TierOff { tier } => (tiers, vec![sig("DeactivateTier(uint256)"), tier.word()], vec![], zero, 0, None),
        Named { name, label, owner, expires } => (
            CONTROLLER,
            vec![sig("NameRegistered(string,bytes32,address,uint256)"), [*label; 32], pad(&addr(*owner))],
            dynamic(&[Err(name), Ok(expires.word())]),
            zero,
            6,
            chan(utf8(name), expires.u64(), addr(*owner), 1, vec![*label; 32]),
        ),
        Renewed { name, label, expires } => (
            CONTROLLER,
            vec![sig("NameRenewed(string,bytes32,uint256)"), [*label; 32]],
            dynamic(&[Err(name), Ok(expires.word())]),
            zero,
            6,
            chan(utf8(name), expires.u64(), vec![], 2, vec![*label; 32]),
        ),
        Token { from, to, id } => (
            TOKEN,
            vec![sig("Transfer(address,address,uint256)"), pad(&addr(*from)), pad(&addr(*to)), id.word()],
            vec![],
            zero,
            6,
            chan(Some(String::new()), Some(0), addr(*to), 3, id.word().to_vec()),
        ),
    };
    let mut p = Placed {
        block,
        index,
        address: address.into(),
        topics,
        data,
        damage: l.damage,
        event: None,
        fid: fid.u64(),
    };
    let mut whole = !matches!(l.damage, Damage::NoBlockHash | Damage::NoBlockNumber | Damage::NoLogIndex | Damage::NoTxHash | Damage::NoTxIndex | Damage::UnknownBlock);
    match l.damage {
        Damage::ShortData => {
            if p.data.len() >= 32 {
                // the last word is gone, and with it a value or the end of a byte string
                let n = p.data.len() - 32;
                p.data.truncate(n);
                whole = false;
            }
        }
        Damage::NoTopic => {
            p.topics.pop();
            whole = false;
        }
        _ => {}
    }
    p.event = match (whole, body, fid.u64()) {
        (true, Some(body), Some(fid)) => Some(OnChainEvent {
            r#type: ty,
            chain_id: [10, 8453][chain],
            block_number: block as u32,
            block_hash: block_hash(block).to_vec(),
            block_timestamp: t,
            transaction_hash: tx_hash(block, index).to_vec(),
            log_index: index,
            fid,
            tx_index: index / 3,
            version: 0,
            body: Some(body),
        }),
        _ => None,
    };
    p
}
impl Placed {
    fn json(&self) -> Value {
        let opt = |gone: Damage, v: String| if self.damage == gone { Value::Null } else { Value::String(v) };
        let bh = if self.damage == Damage::UnknownBlock { [0xee; 32] } else { block_hash(self.block) };
        json!({
            "address": format!("0x{}", self.address),
            "topics": self.topics.iter().map(|t| format!("0x{}", hex::encode(t))).collect::<Vec<_>>(),
            "data": format!("0x{}", hex::encode(&self.data)),
            "blockHash": opt(Damage::NoBlockHash, format!("0x{}", hex::encode(bh))),
            "blockNumber": opt(Damage::NoBlockNumber, format!("0x{:x}", self.block)),
            "transactionHash": opt(Damage::NoTxHash, format!("0x{}", hex::encode(tx_hash(self.block, self.index)))),
            "transactionIndex": opt(Damage::NoTxIndex, format!("0x{:x}", self.index / 3)),
            "logIndex": opt(Damage::NoLogIndex, format!("0x{:x}", self.index)),
            "removed": false,
        })
    }
}

// ---- the node that knows the chain -----------------------------------------------------------------
#[derive(Debug, Clone, Copy, PartialEq, Serialize, Deserialize)]
pub enum Answer {
    Address(u8),
    Zero,
    Revert,
    Short,
}
struct Rpc {
    logs: Arc<Vec<Placed>>,
    /// the newest block, and what it becomes at each poll
    head: u64,
    /// requests failed: at these numbers, with this kind of failure
    faults: Vec<(u32, u8)>,
    seen: u32,
    fail_run: u32,
    crash_at: Option<u32>,
    crash: Arc<Notify>,
    crashed: bool,
    idle: u32,
    done: Arc<Notify>,
    filters: Vec<(Value, u64)>,
    root: Answer,
    owner: Answer,
    root_node: [u8; 32],
    ens: String,
    calls: Vec<(String, String)>,
    asked: Vec<Value>,
    grow: Vec<u64>,
    runaway: Arc<Mutex<bool>>,
}
fn hexnum(v: &Value) -> Option<u64> {
    u64::from_str_radix(v.as_str()?.strip_prefix("0x")?, 16).ok()
}
impl Rpc {
    fn matches(&self, f: &Value, l: &Placed) -> bool {
        let one = |v: &Value, x: &str| match v {
            Value::Null => true,
            Value::String(s) => s.eq_ignore_ascii_case(x),
            Value::Array(a) => a.is_empty() || a.iter().any(|s| s.as_str().is_some_and(|s| s.eq_ignore_ascii_case(x))),
            _ => false,
        };
        if !one(&f["address"], &format!("0x{}", l.address)) {
            return false;
        }
        let from = hexnum(&f["fromBlock"]).unwrap_or(0);
        let to = hexnum(&f["toBlock"]).unwrap_or(u64::MAX).min(self.head);
        if l.block < from || l.block > to {
            return false;
        }
        match &f["topics"] {
            Value::Array(ts) => {
                let n = ts.iter().rposition(|t| !t.is_null() && t.as_array().is_none_or(|a| !a.is_empty())).map_or(0, |n| n + 1);
                l.topics.len() >= n && ts[..n].iter().zip(&l.topics).all(|(t, x)| one(t, &format!("0x{}", hex::encode(x))))
            }
            _ => true,
        }
    }
    fn answer(&mut self, req: &Req) -> Rep {
        let v: Value = serde_json::from_slice(&req.body).unwrap_or(Value::Null);
        let id = v["id"].clone();
        let n = self.seen;
        self.seen += 1;
        if self.seen > 20_000 {
            *self.runaway.lock().unwrap() = true;
            self.done.notify_one();
            return Rep::Hang;
        }
        if self.crashed {
            return Rep::Hang;
        }
        if self.crash_at == Some(n) {
            self.crashed = true;
            self.crash.notify_one();
            return Rep::Hang;
        }
        let err = |code: i64, m: &str| Rep::Json(200, json!({"jsonrpc":"2.0","id":id,"error":{"code":code,"message":m}}).to_string());
        let method = v["method"].as_str().unwrap_or("").to_string();
        // at most four failures in a row: five retries must be enough to get through
        let watches = matches!(method.as_str(), "eth_newFilter" | "eth_getFilterChanges" | "eth_call");
        match self.faults.iter().find(|f| f.0 == n) {
            Some((_, kind)) if self.fail_run < 4 && !watches => {
                self.fail_run += 1;
                self.idle = 0;
                return match kind % 3 {
                    0 => err(-32000, "header not found"),
                    1 => Rep::Json(502, "bad gateway".into()),
                    _ => Rep::Drop,
                };
            }
            _ => self.fail_run = 0,
        }
        let ok = |v: Value| Rep::Json(200, json!({"jsonrpc":"2.0","id":id,"result":v}).to_string());
        let p = &v["params"];
        match method.as_str() {
            "eth_getLogs" => {
                self.asked.push(p[0].clone());
                let out: Vec<Value> = self.logs.iter().filter(|l| self.matches(&p[0], l)).map(Placed::json).collect();
                if out.is_empty() && self.grow.is_empty() && hexnum(&p[0]["toBlock"]).is_some_and(|t| t >= self.head) {
                    self.rest()
                } else if !out.is_empty() {
                    self.idle = 0
                }
                ok(Value::Array(out))
            }
            "eth_newFilter" => {
                self.filters.push((p[0].clone(), 0));
                ok(json!(format!("0x{:x}", self.filters.len())))
            }
            "eth_uninstallFilter" => ok(json!(true)),
            "eth_getFilterChanges" => {
                let i = hexnum(&p[0]).unwrap_or(0) as usize - 1;
                let (f, next) = self.filters[i].clone();
                let out: Vec<Value> = self.logs.iter().filter(|l| l.block >= next && self.matches(&f, l)).map(Placed::json).collect();
                self.filters[i].1 = self.head + 1;
                if let Some(g) = self.grow.pop() {
                    self.head += g
                } else if out.is_empty() {
                    self.rest()
                }
                ok(Value::Array(out))
            }
            "eth_getBlockByHash" => {
                let h = p[0].as_str().unwrap_or("").to_string();
                match self.logs.iter().find(|l| h == format!("0x{}", hex::encode(block_hash(l.block)))) {
                    Some(l) => ok(block(l.block)),
                    None => ok(Value::Null),
                }
            }
            "eth_getBlockByNumber" => {
                if let Some(g) = self.grow.pop() {
                    self.head += g
                } else {
                    self.rest()
                }
                ok(block(self.head))
            }
            "eth_call" => {
                let to = p[0]["to"].as_str().unwrap_or("").trim_start_matches("0x").to_ascii_lowercase();
                let data = p[0]["input"].as_str().or(p[0]["data"].as_str()).unwrap_or("").trim_start_matches("0x").to_string();
                self.calls.push((to.clone(), data.clone()));
                let sel = |s: &str| hex::encode(&keccak(s.as_bytes())[..4]);
                let (a, v) = if to == CONTROLLER && data == sel("rootNode()") {
                    (self.root, self.root_node)
                } else if to == self.ens && data == format!("{}{}", sel("owner(bytes32)"), hex::encode(self.root_node)) {
                    (self.owner, match self.owner { Answer::Address(_) => pad(&hex::decode(TOKEN).unwrap()), _ => [0; 32] })
                } else {
                    return err(3, "execution reverted");
                };
                match a {
                    Answer::Revert => err(3, "execution reverted"),
                    Answer::Short => ok(json!("0x")),
                    _ => ok(json!(format!("0x{}", hex::encode(v)))),
                }
            }
            m => err(-32601, &format!("the method {m} does not exist")),
        }
    }
    /// Nothing new was to be told: a few times in a row means that the follower is up to date.
    fn rest(&mut self) {
        self.idle += 1;
        if self.idle > 16 {
            self.done.notify_one()
        }
    }
}
fn block(n: u64) -> Value {
    let z = format!("0x{}", "0".repeat(64));
    json!({
        "hash": format!("0x{}", hex::encode(block_hash(n))), "parentHash": z, "sha3Uncles": z, "miner": format!("0x{}", "0".repeat(40)),
        "stateRoot": z, "transactionsRoot": z, "receiptsRoot": z, "logsBloom": format!("0x{}", "0".repeat(512)), "difficulty": "0x0",
        "number": format!("0x{n:x}"), "gasLimit": "0x0", "gasUsed": "0x0", "timestamp": format!("0x{:x}", time_of(n)), "extraData": "0x",
        "mixHash": z, "nonce": "0x0000000000000000", "transactions": [], "uncles": [],
    })
}

// ---- running the follower ---------------------------------------------------------------------------
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct ChainCase {
    base: bool,
    logs: Vec<L>,
    start: Option<i32>,
    /// blocks between the last log and the newest block
    beyond: u16,
    /// stop block, relative to the newest
    stop: Option<i32>,
    stored: Option<u16>,
    grow: Vec<u16>,
    faults: Vec<(u32, u8)>,
    crashes: Vec<u16>,
    net: u8,
    tiers: bool,
    /// channel registry configured; what its controller and the ENS registry answer
    channels: Option<(Answer, Answer, bool)>,
    ask: Vec<Ask>,
}
#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum Ask {
    Fid(u8),
    Range(u16, u16),
}
pub struct Bench {
    pub store: LocalStateStore,
    pub rx: mpsc::Receiver<MempoolRequest>,
    pub tx: mpsc::Sender<MempoolRequest>,
    pub req: broadcast::Sender<OnchainEventsRequest>,
    _dir: tempfile::TempDir,
}
pub fn bench() -> Bench {
    let dir = tempfile::tempdir().unwrap();
    let db = RocksDB::new(dir.path().join("n").to_str().unwrap());
    db.open().unwrap();
    let (tx, rx) = mpsc::channel(1_000_000);
    Bench { store: LocalStateStore::new(Arc::new(db)), rx, tx, req: broadcast::channel(100).0, _dir: dir }
}
pub fn statsd() -> snapchain::utils::statsd_wrapper::StatsdClientWrapper {
    snapchain::utils::statsd_wrapper::StatsdClientWrapper::new(
        cadence::StatsdClient::builder("", cadence::NopMetricSink {}).build(),
        true,
    )
}
fn paused() -> tokio::runtime::Runtime {
    tokio::runtime::Builder::new_current_thread().enable_all().start_paused(true).build().unwrap()
}
impl Bench {
    fn got(&mut self) -> Result<Vec<OnChainEvent>, String> {
        let mut v = vec![];
        while let Ok(m) = self.rx.try_recv() {
            match m {
                MempoolRequest::AddMessage(MempoolMessage::OnchainEvent(e), _, None) => v.push(e),
                _ => return Err("something else than an on-chain event was submitted".into()),
            }
        }
        Ok(v)
    }
}

fn check_chain(c: &ChainCase, o: &mut Obs) -> R {
    let ci = c.base as usize;
    let first = FIRST[ci];
    let tiers = if c.tiers { OTHER_TIERS } else { TIERS };
    let origin = first - 5;
    let mut at = origin;
    let mut logs = vec![];
    let mut index = 0;
    for l in c.logs.iter().filter(|l| ours(ci, &l.what)) {
        if l.gap > 0 {
            index = 0
        }
        at += l.gap as u64;
        logs.push(place(ci, at, index, l, tiers));
        index += 1;
    }
    let logs = Arc::new(logs);
    let grown: u64 = c.grow.iter().map(|g| *g as u64).sum();
    let last = at + c.beyond as u64;
    let head0 = last.saturating_sub(grown).max(origin);
    let head = head0 + grown;
    let mut b = bench();
    let chain = || if c.base { Chain::Base } else { Chain::Optimism };
    if let Some(s) = c.stored {
        b.store.set_latest_block_number(chain(), first + s as u64).unwrap();
    }
    let start = c.start.map(|s| (first as i64 + s as i64) as u64);
    let stop = c.stop.map(|s| (head as i64 + s as i64) as u64);
    let (channels, net) = (c.channels.filter(|_| c.base), 1 + c.net as i32 % 3);
    let net = FarcasterNetwork::try_from(net).unwrap();
    let active = snapchain::version::version::EngineVersion::current(net)
        .is_enabled(snapchain::version::version::ProtocolFeature::ChannelRegistrations);
    let cfg = |port: u16| Config {
        rpc_url: format!("http://127.0.0.1:{port}"),
        start_block_number: start,
        stop_block_number: stop,
        override_tier_registry_address: c.tiers.then(|| format!("0x{OTHER_TIERS}")),
        override_channel_registrar_address: channels.map(|_| format!("0x{CONTROLLER}")),
        override_ens_registry_address: channels.filter(|c| c.2).map(|_| format!("0x{OTHER_ENS}")),
    };
    let token = matches!(channels, Some((Answer::Address(_), Answer::Address(_), _)));
    let fatal = channels.is_some() && !token && active;
    let watched = |l: &Placed| match l.address.as_str() {
        CONTROLLER => channels.is_some(),
        TOKEN => token,
        STRANGER => false,
        _ => true,
    };
    // the first block that is owed
    let stored = c.stored.map_or(0, |s| first + s as u64);
    let from = start.map_or(first, |s| s.max(first)).max(stored);
    let upto = stop.map_or(head, |s| s.min(head));
    let owed: Vec<&OnChainEvent> = logs.iter().filter(|l| watched(l) && l.block >= from && l.block <= upto).filter_map(|l| l.event.as_ref()).collect();
    let all: Vec<&OnChainEvent> = logs.iter().filter(|l| watched(l)).filter_map(|l| l.event.as_ref()).collect();

    let mut got: Vec<OnChainEvent> = vec![];
    let mut crashes = c.crashes.clone();
    let mut faults = c.faults.clone();
    let mut ended: Option<Result<(), String>> = None;
    let mut runs = 0;
    let mut recorded = b.store.get_latest_block_number(chain()).unwrap().unwrap_or(0);
    let mut grow: Vec<u64> = c.grow.iter().map(|g| *g as u64).collect();
    let mut now = head0;
    loop {
        runs += 1;
        let rt = paused();
        let (crash, done, runaway) = (Arc::new(Notify::new()), Arc::new(Notify::new()), Arc::new(Mutex::new(false)));
        let rpc = Arc::new(Mutex::new(Rpc {
            logs: logs.clone(),
            head: now,
            faults: std::mem::take(&mut faults),
            seen: 0,
            fail_run: 0,
            crash_at: crashes.pop().map(|n| n as u32),
            crash: crash.clone(),
            crashed: false,
            idle: 0,
            done: done.clone(),
            filters: vec![],
            root: channels.map_or(Answer::Revert, |c| c.0),
            owner: channels.map_or(Answer::Revert, |c| c.1),
            root_node: [7; 32],
            ens: if channels.is_some_and(|c| c.2) { OTHER_ENS } else { ENS }.into(),
            calls: vec![],
            asked: vec![],
            grow: std::mem::take(&mut grow),
            runaway: runaway.clone(),
        }));
        let port = server::with(|s| {
            let rpc = rpc.clone();
            s.set(move |r| rpc.lock().unwrap().answer(r));
            s.port
        });
        let mut sub = Subscriber::new(&cfg(port), chain(), net, b.tx.clone(), statsd(), b.store.clone(), b.req.subscribe()).map_err(|e| format!("configuration refused: {e}"))?;
        let end = rt.block_on(async {
            tokio::select! {
                r = sub.run() => Some(r.map_err(|e| e.to_string())),
                _ = crash.notified() => None,
                _ = done.notified() => Some(Err("live".to_string())),
            }
        });
        drop(sub);
        drop(rt);
        got.extend(b.got()?);
        ensure!(!*runaway.lock().unwrap(), "20000 requests and no end: the last asked for {:?}", rpc.lock().unwrap().asked.last());
        let r = b.store.get_latest_block_number(chain()).unwrap().unwrap_or(0);
        ensure!(r >= recorded, "the recorded block number went back from {recorded} to {r}");
        recorded = r;
        let g = rpc.lock().unwrap();
        now = g.head;
        grow = g.grow.clone();
        // everything recorded as done has been delivered
        for e in &owed {
            ensure!(
                e.block_number as u64 >= r || got.contains(e),
                "block {r} is recorded as done, and log {} of block {} was not handed on", e.log_index, e.block_number
            );
        }
        match end {
            None => o.label("crashed and restarted"),
            Some(e) => {
                ended = Some(e);
                break;
            }
        }
        ensure!(runs < 20, "endless");
    }
    let ended = ended.unwrap();
    for e in &got {
        ensure!(all.contains(&e), "an event that no watched log stands for: {e:?}");
    }
    if fatal {
        ensure!(matches!(&ended, Err(e) if e != "live"), "the channel registry could not be resolved and registrations are active, but ingestion went on");
        ensure!(got.is_empty(), "events were handed on before the registry was resolved");
        o.label("registry unresolved, fatal");
        return Ok(());
    }
    // history first, then what comes live
    let historical_end = start.map(|s| (s.max(first).max(stored), stop.map_or(head0, |x| x.min(head0))));
    match &ended {
        Ok(()) => {
            ensure!(start.is_some() && stop.is_some_and(|s| s <= now), "following ended by itself");
            o.label("ended at the stop block");
        }
        Err(e) => ensure!(e == "live", "following failed: {e}"),
    }
    let missing: Vec<_> = owed.iter().filter(|e| !got.contains(e)).map(|e| (e.block_number, e.log_index)).collect();
    ensure!(missing.is_empty(), "logs of watched contracts in blocks {from}..={upto} not handed on: {missing:?} (historical part {historical_end:?}, head {now}, recorded {recorded})");
    // one contract's events come in the order of the chain
    if runs == 1 {
        for a in [STORAGE, KEYS, IDS, tiers, CONTROLLER, TOKEN] {
            let of: Vec<&OnChainEvent> = logs.iter().filter(|l| l.address == a).filter_map(|l| l.event.as_ref()).collect();
            let mut firsts: Vec<(u32, u32)> = vec![];
            for e in got.iter().filter(|e| of.contains(e)) {
                let k = (e.block_number, e.log_index);
                if !firsts.contains(&k) {
                    firsts.push(k)
                }
            }
            ensure!(firsts.windows(2).all(|w| w[0] < w[1]), "events of contract {a} out of order: {firsts:?}");
        }
    }
    o.label(if c.base { "base" } else { "optimism" });
    o.label_if(!c.faults.is_empty(), "RPC failures");
    o.label_if(matches!(&ended, Err(_)), "went on live");
    o.label_if(token, "channel registry resolved");
    if owed.len() >= 3 && logs.len() > owed.len() {
        o.nt()
    }
    Ok(())
}

/// Asked to look again: the events of one fid, or of a range of blocks, and nothing else.
fn check_retry(c: &ChainCase, o: &mut Obs) -> R {
    let ci = c.base as usize;
    let first = FIRST[ci];
    let tiers = if c.tiers { OTHER_TIERS } else { TIERS };
    let mut at = first - 5;
    let mut logs = vec![];
    let mut index = 0;
    for l in c.logs.iter().filter(|l| ours(ci, &l.what)) {
        if l.gap > 0 {
            index = 0
        }
        at += l.gap as u64;
        logs.push(place(ci, at, index, l, tiers));
        index += 1;
    }
    let logs = Arc::new(logs);
    let mut b = bench();
    let rpc = Arc::new(Mutex::new(Rpc {
        logs: logs.clone(),
        head: at + c.beyond as u64,
        faults: c.faults.clone(),
        seen: 0,
        fail_run: 0,
        crash_at: None,
        crash: Default::default(),
        crashed: false,
        idle: 0,
        done: Default::default(),
        filters: vec![],
        root: Answer::Revert,
        owner: Answer::Revert,
        root_node: [7; 32],
        ens: ENS.into(),
        calls: vec![],
        asked: vec![],
        grow: vec![],
        runaway: Default::default(),
    }));
    let port = server::with(|s| {
        let rpc = rpc.clone();
        s.set(move |r| rpc.lock().unwrap().answer(r));
        s.port
    });
    let chain = || if c.base { Chain::Base } else { Chain::Optimism };
    let cfg = Config {
        rpc_url: format!("http://127.0.0.1:{port}"),
        start_block_number: None,
        stop_block_number: None,
        override_tier_registry_address: c.tiers.then(|| format!("0x{OTHER_TIERS}")),
        override_channel_registrar_address: c.channels.map(|_| format!("0x{CONTROLLER}")),
        override_ens_registry_address: None,
    };
    let mut sub = Subscriber::new(&cfg, chain(), FarcasterNetwork::Devnet, b.tx.clone(), statsd(), b.store.clone(), b.req.subscribe()).map_err(|e| e.to_string())?;
    let rt = paused();
    for a in &c.ask {
        let want: Vec<OnChainEvent> = logs
            .iter()
            .filter(|l| match a {
                // resets and changes of the recovery address are not asked for again
                Ask::Fid(f) => {
                    let kept = [
                        keccak(b"Rent(address,uint256,uint256)"),
                        keccak(b"Add(uint256,uint32,bytes,bytes,uint8,bytes)"),
                        keccak(b"Remove(uint256,bytes,bytes)"),
                        keccak(b"Register(address,uint256,address)"),
                        keccak(b"Transfer(address,address,uint256)"),
                        keccak(b"PurchasedTier(uint256,uint256,uint256,address)"),
                    ];
                    l.fid == Some(*f as u64) && l.block >= first && kept.contains(&l.topics[0]) && l.address != CONTROLLER && l.address != TOKEN
                }
                Ask::Range(x, n) => {
                    let x = first - 5 + *x as u64;
                    l.block >= x && l.block <= x + *n as u64 && l.address != TOKEN && (l.address != CONTROLLER || (c.channels.is_some() && c.base))
                }
            })
            .filter_map(|l| l.event.clone())
            .collect();
        let r = rt.block_on(async {
            match a {
                Ask::Fid(f) => sub.retry_fid(*f as u64).await,
                Ask::Range(x, n) => {
                    let x = first - 5 + *x as u64;
                    sub.retry_block_range(x, x + *n as u64).await
                }
            }
        });
        ensure!(r.is_ok(), "{a:?}: {}", r.unwrap_err());
        let got = b.got()?;
        let k = |v: &[OnChainEvent]| {
            let mut v: Vec<Vec<u8>> = v.iter().map(|e| e.encode_to_vec()).collect();
            v.sort();
            v
        };
        if k(&got) != k(&want) {
            let s = |v: &[OnChainEvent]| v.iter().map(|e| (e.block_number, e.log_index, e.fid, e.r#type)).collect::<Vec<_>>();
            return Err(format!("{a:?}: got {:?}, the chain has {:?}", s(&got), s(&want)));
        }
        if !want.is_empty() {
            o.nt();
            o.label(match a { Ask::Fid(_) => "fid", _ => "range" });
        }
        o.evals += 1;
    }
    ensure!(b.store.get_latest_block_number(chain()).unwrap().is_none(), "looking again changed the recorded block number");
    Ok(())
}

// ---- names on chain, and the small functions ---------------------------------------------------------
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct EnsCase {
    name: String,
    which: u8,
    resolver: Answer,
    addr: Answer,
}
fn namehash(name: &str) -> [u8; 32] {
    let name = name.replace('\u{fe0f}', "");
    if name.is_empty() {
        return [0; 32];
    }
    let mut node = [0; 32];
    for l in name.split('.').rev() {
        node = keccak(&[node, keccak(l.as_bytes())].concat());
    }
    node
}
fn check_ens(c: &EnsCase, o: &mut Obs) -> R {
    use snapchain::connectors::onchain_events::{Chain as C, ChainClients};
    let node = namehash(&c.name);
    let registry = ["00000000000c2e074ec69a0dfb2997ba6c7d2e1e", "b94704422c2a1e396835a571837aa5ae53285a95", ""][c.which as usize % 3];
    let calls: Arc<Mutex<Vec<(String, String)>>> = Default::default();
    let port = server::with(|s| {
        let (calls, c) = (calls.clone(), c.clone());
        s.set(move |r| {
            let v: Value = serde_json::from_slice(&r.body).unwrap_or(Value::Null);
            let to = v["params"][0]["to"].as_str().unwrap_or("").to_ascii_lowercase();
            let data = v["params"][0]["input"].as_str().or(v["params"][0]["data"].as_str()).unwrap_or("").to_string();
            let n = calls.lock().unwrap().len();
            calls.lock().unwrap().push((to, data));
            let rep = if n == 0 { c.resolver } else { c.addr };
            let b = match rep {
                Answer::Address(n) => json!({"jsonrpc":"2.0","id":v["id"],"result":format!("0x{}", hex::encode(pad(&addr(n.max(1)))))}),
                Answer::Zero => json!({"jsonrpc":"2.0","id":v["id"],"result":format!("0x{}", "0".repeat(64))}),
                Answer::Short => json!({"jsonrpc":"2.0","id":v["id"],"result":"0x"}),
                Answer::Revert => json!({"jsonrpc":"2.0","id":v["id"],"error":{"code":3,"message":"execution reverted"}}),
            };
            Rep::Json(200, b.to_string())
        });
        s.port
    });
    let mut cfg = snapchain::cfg::Config::default();
    let url = format!("http://127.0.0.1:{port}");
    let chain = match c.which % 3 {
        0 => {
            cfg.l1_rpc_url = url;
            C::EthMainnet
        }
        1 => {
            cfg.base_onchain_events.rpc_url = url;
            C::BaseMainnet
        }
        _ => {
            cfg.onchain_events.rpc_url = url;
            C::OptimismMainnet
        }
    };
    let _rt = paused();
    let _g = _rt.enter();
    let clients = ChainClients::new(&cfg);
    for (i, other) in [C::EthMainnet, C::BaseMainnet, C::OptimismMainnet].into_iter().enumerate() {
        ensure_eq!(clients.for_chain(other).is_ok(), i == c.which as usize % 3, "a client for chain {i} when one for {} is configured", c.which % 3);
    }
    let got = _rt.block_on(clients.for_chain(chain).unwrap().resolve_ens_name(c.name.clone()));
    let calls = calls.lock().unwrap().clone();
    let sel = |s: &str| hex::encode(&keccak(s.as_bytes())[..4]);
    if registry.is_empty() {
        ensure!(got.is_err() && calls.is_empty(), "a chain without a registry resolved a name");
        return Ok(());
    }
    ensure!(!calls.is_empty(), "the registry was not asked");
    ensure_eq!(calls[0], (format!("0x{registry}"), format!("0x{}{}", sel("resolver(bytes32)"), hex::encode(node))), "first call");
    let resolver = match c.resolver {
        Answer::Address(n) => addr(n.max(1)),
        _ => {
            ensure!(got.is_err(), "no resolver, yet an address: {got:?}");
            ensure!(calls.len() == 1, "went on without a resolver");
            o.label("no resolver");
            return Ok(());
        }
    };
    ensure_eq!(calls.len(), 2, "calls");
    ensure_eq!(calls[1], (format!("0x{}", hex::encode(&resolver)), format!("0x{}{}", sel("addr(bytes32)"), hex::encode(node))), "second call");
    match (c.addr, got) {
        (Answer::Address(n), Ok(a)) => ensure_eq!(a.to_vec(), addr(n.max(1)), "address"),
        (Answer::Zero, Ok(a)) => ensure_eq!(a.to_vec(), addr(0), "address"),
        (Answer::Revert | Answer::Short, Err(_)) => {}
        (a, g) => return Err(format!("the resolver says {a:?}, the answer is {g:?}")),
    }
    if c.name.contains('.') {
        o.nt()
    }
    Ok(())
}
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct MetaCase {
    ty: u32,
    fid: N,
    signer: u8,
    sig: Vec<u8>,
    deadline: u64,
    cut: Option<u16>,
    chain_id: u32,
    app: u64,
    over: String,
    good: bool,
}
fn check_meta(c: &MetaCase, o: &mut Obs) -> R {
    // tuple(requestFid, requestSigner, signature, deadline), a dynamic tuple behind one offset
    let inner = dynamic(&[Ok(c.fid.word()), Ok(pad(&addr(c.signer))), Err(&c.sig), Ok(u256(c.deadline))]);
    let mut meta = [u256(32).to_vec(), inner].concat();
    let full = meta.len();
    if let Some(n) = c.cut {
        meta.truncate(n as usize % full);
    }
    let body = proto::SignerEventBody { metadata: meta.clone(), metadata_type: c.ty, ..Default::default() };
    let got = oce::get_request_fid_from_signer_event(&body);
    // what is cut off may be no more than the padding of the signature
    let padding = (32 - c.sig.len() % 32) % 32;
    if c.ty != 1 || meta.len() + padding < full {
        ensure_eq!(got, None, "requesting fid of damaged metadata (type {}, {} of {} bytes)", c.ty, meta.len(), full);
    } else if meta.len() == full {
        ensure_eq!(got, c.fid.u64(), "requesting fid");
        o.nt();
    }
    ensure_eq!(oce::map_signer_fid_to_name(c.app), match c.app { 9152 => "farcaster", 309857 => "base", _ => "unknown" }, "name of app {}", c.app);
    let chain = oce::Chain::from_chain_id(c.chain_id).map(|c| format!("{c:?}"));
    ensure_eq!(chain, match c.chain_id { 1 => Some("EthMainnet".to_string()), 10 => Some("OptimismMainnet".into()), 8453 => Some("BaseMainnet".into()), _ => None }, "chain {}", c.chain_id);
    // an override address is taken exactly if it is one
    let ok = {
        let s = c.over.strip_prefix("0x").unwrap_or(&c.over);
        s.len() == 40 && s.bytes().all(|b| b.is_ascii_hexdigit())
    };
    let b = bench();
    for i in 0..4 {
        let cfg = Config {
            rpc_url: if c.good { "http://127.0.0.1:1".into() } else { String::new() },
            start_block_number: None,
            stop_block_number: None,
            override_tier_registry_address: (i == 0).then(|| c.over.clone()),
            override_channel_registrar_address: (i == 1).then(|| c.over.clone()),
            override_ens_registry_address: (i == 2).then(|| c.over.clone()),
        };
        let rt = paused();
        let _g = rt.enter();
        let r = Subscriber::new(&cfg, Chain::Base, FarcasterNetwork::Devnet, b.tx.clone(), statsd(), b.store.clone(), b.req.subscribe());
        ensure_eq!(r.is_ok(), c.good && (ok || i == 3), "override {i} = {:?}", c.over);
        if let (Err(e), true, true) = (r.map(|_| ()), c.good, i < 3) {
            ensure!(e.to_string().contains(&c.over), "the error does not name the address: {e}");
        }
    }
    Ok(())
}

// ---- generators -------------------------------------------------------------------------------------
fn fid() -> BoxedStrategy<N> {
    prop_oneof![8 => (1u8..5).prop_map(N::Low), 1 => any::<u64>().prop_map(N::U64), 1 => any::<u8>().prop_map(N::Over), 1 => Just(N::Max)].boxed()
}
fn num() -> BoxedStrategy<N> {
    prop_oneof![
        6 => any::<u8>().prop_map(N::Low), 2 => any::<u32>().prop_map(N::U32), 1 => Just(N::U32(i32::MAX as u32)), 1 => any::<u64>().prop_map(N::U64),
        1 => any::<u8>().prop_map(N::Over), 1 => Just(N::Max)
    ]
    .boxed()
}
fn name() -> BoxedStrategy<Vec<u8>> {
    prop_oneof![4 => "[a-z0-9]{1,20}".prop_map(|s| s.into_bytes()), 1 => "\\PC{1,12}".prop_map(|s| s.into_bytes()), 2 => proptest::collection::vec(any::<u8>(), 0..40)].boxed()
}
fn bytes() -> BoxedStrategy<Vec<u8>> {
    prop_oneof![4 => any::<u8>().prop_map(|b| vec![b; 32]), 2 => proptest::collection::vec(any::<u8>(), 0..70)].boxed()
}
fn what(base: bool) -> BoxedStrategy<What> {
    use What::*;
    let a = any::<u8>;
    if base {
        prop_oneof![
            4 => (fid(), num(), num(), a()).prop_map(|(fid, tier, days, payer)| Tier { fid, tier, days, payer }),
            1 => num().prop_map(|at| TierMigrated { at }),
            1 => num().prop_map(|tier| TierOff { tier }),
            3 => (name(), a(), a(), num()).prop_map(|(name, label, owner, expires)| Named { name, label, owner, expires }),
            3 => (name(), a(), num()).prop_map(|(name, label, expires)| Renewed { name, label, expires }),
            3 => (a(), a(), num()).prop_map(|(from, to, id)| Token { from, to, id }),
            1 => (fid(), num()).prop_map(|(fid, units)| Stranger { fid, units }),
        ]
        .boxed()
    } else {
        prop_oneof![
            3 => (a(), fid(), num()).prop_map(|(payer, fid, units)| Rent { payer, fid, units }),
            3 => (a(), fid(), a()).prop_map(|(to, fid, recovery)| Register { to, fid, recovery }),
            3 => (a(), a(), fid()).prop_map(|(from, to, fid)| Transfer { from, to, fid }),
            2 => (fid(), a()).prop_map(|(fid, to)| Recovery { fid, to }),
            1 => (a(), a(), fid()).prop_map(|(from, to, fid)| Recover { from, to, fid }),
            3 => (fid(), any::<u32>(), bytes(), a(), bytes()).prop_map(|(fid, ty, key, mty, meta)| KeyAdd { fid, ty: ty % 4, key, mty, meta }),
            2 => (fid(), bytes()).prop_map(|(fid, key)| KeyRemove { fid, key }),
            2 => (fid(), bytes()).prop_map(|(fid, key)| KeyReset { fid, key }),
            1 => num().prop_map(|at| Migrated { at }),
            1 => any::<bool>().prop_map(|id| Paused { id }),
            1 => (fid(), num()).prop_map(|(fid, units)| Stranger { fid, units }),
        ]
        .boxed()
    }
}
fn log(base: bool) -> BoxedStrategy<L> {
    use Damage::*;
    let gap = prop_oneof![3 => Just(0u16), 5 => 1u16..6, 1 => Just(999), 2 => 995u16..1006, 1 => 7990u16..8010, 1 => 1u16..3000];
    let damage = prop_oneof![
        20 => Just(None), 2 => Just(ShortData), 2 => Just(NoTopic), 1 => Just(NoBlockHash), 1 => Just(NoLogIndex),
        1 => Just(NoBlockNumber), 1 => Just(NoTxIndex), 1 => Just(NoTxHash), 1 => Just(UnknownBlock)
    ];
    (gap, what(base), damage).prop_map(|(gap, what, damage)| L { gap, what, damage }).boxed()
}
fn gen(crash: bool) -> BoxedStrategy<ChainCase> {
    any::<bool>()
        .prop_flat_map(move |base| {
            let answer = || prop_oneof![8 => any::<u8>().prop_map(Answer::Address), 1 => Just(Answer::Zero), 1 => Just(Answer::Revert), 1 => Just(Answer::Short)];
            // the controller's node is any 32 bytes: only a call that fails matters
            let root = prop_oneof![8 => Just(Answer::Address(1)), 1 => Just(Answer::Revert), 1 => Just(Answer::Short)];
            let crashes = if crash { proptest::collection::vec(0u16..40, 1..4).boxed() } else { Just(vec![]).boxed() };
            (
                (proptest::collection::vec(log(base), 1..14), proptest::option::of(prop_oneof![(-10i32..40), Just(1000), (0i32..9000)]), 0u16..20),
                (proptest::option::of(prop_oneof![(-12i32..6), (-2000i32..0)]), proptest::option::weighted(0.3, 0u16..2000), proptest::collection::vec(0u16..1500, 0..4)),
                (prop_oneof![Just(vec![]), proptest::collection::vec((0u32..40, any::<u8>()), 1..6)], crashes),
                (0u8..3, any::<bool>(), proptest::option::weighted(0.7, (root, answer(), any::<bool>()))),
                proptest::collection::vec(prop_oneof![3 => (1u8..6).prop_map(Ask::Fid), 2 => (0u16..9000, prop_oneof![0u16..10, 0u16..9000]).prop_map(|(a, b)| Ask::Range(a, b))], 1..4),
            )
                .prop_map(move |((logs, start, beyond), (stop, stored, grow), (faults, crashes), (net, tiers, channels), ask)| ChainCase {
                    base, logs, start, beyond, stop, stored, grow, faults, crashes, net, tiers, channels, ask,
                })
        })
        .boxed()
}
pub fn c35(p: &mut Prop) {
    p.assume("the Ethereum node is a scripted one on the loopback interface that answers filters as the JSON-RPC specification says; it fails at most four times in a row; a reorganised chain is not generated");
    p.assume("time inside the follower is virtual, so its ten-second retries and thirty-second polls cost nothing");
    p.sub("follow", "chains of generated logs (all event kinds of the registries, damaged ones, other contracts') followed by run() from history into live mode; non-trivial = at least three events owed and some log that stands for none", 20_000, 200_000, || gen(false), check_chain);
    p.sub("restart", "the same, killed at generated RPC requests and started again on the same local state; non-trivial as above", 12_000, 120_000, || gen(true), check_chain);
    p.sub("again", "retry_fid and retry_block_range against the same chains; non-trivial = something to hand on", 15_000, 200_000, || gen(false), check_retry);
    p.sub("names", "ENS look-ups on each chain against a scripted node; every call compared; non-trivial = a name of several labels", 8_000, 100_000, || {
        let ans = || prop_oneof![5 => any::<u8>().prop_map(Answer::Address), 1 => Just(Answer::Zero), 1 => Just(Answer::Revert), 1 => Just(Answer::Short)];
        (prop_oneof![3 => "[a-z]{1,8}\\.(base\\.)?eth", 2 => "([a-z\u{fe0f}é]{0,4}\\.){0,3}[a-z]{0,3}", 1 => Just(String::new())], any::<u8>(), ans(), ans())
            .prop_map(|(name, which, resolver, addr)| EnsCase { name, which, resolver, addr })
            .boxed()
    }, check_ens);
    p.sub("signer_metadata", "signed key request metadata, cut and with other types; chain ids, app names, override addresses; non-trivial = whole metadata of type 1", 10_000, 150_000, || {
        (
            prop_oneof![6 => Just(1u32), 1 => 0u32..4], fid(), any::<u8>(), proptest::collection::vec(any::<u8>(), 0..70), any::<u64>(), proptest::option::weighted(0.4, any::<u16>()),
            prop_oneof![Just(1u32), Just(10), Just(8453), any::<u32>(), 0u32..12], prop_oneof![Just(9152u64), Just(309857), 9150u64..9155, any::<u64>()],
            prop_oneof!["0x[0-9a-f]{40}", "[0-9a-f]{40}", "0x[0-9a-f]{38,42}", "0x[0-9a-g]{40}", Just(String::new())], prop::bool::weighted(0.9),
        )
            .prop_map(|(ty, fid, signer, sig, deadline, cut, chain_id, app, over, good)| MetaCase { ty, fid, signer, sig, deadline, cut, chain_id, app, over, good })
            .boxed()
    }, check_meta);
}
