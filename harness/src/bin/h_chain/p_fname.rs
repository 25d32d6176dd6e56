use crate::frame::*;
use crate::p_chain::{bench, statsd};
use crate::server::{self, Rep};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::json;
use snapchain::connectors::fname::{Config, Fetcher, FnameRequest, FnameTransferLookup, HttpFnameTransferLookup};
use snapchain::mempool::mempool::MempoolRequest;
use snapchain::proto::{FnameTransfer, UserNameProof};
use snapchain::storage::store::mempool_poller::MempoolMessage;
use std::sync::{Arc, Mutex};
use tokio::sync::{broadcast, mpsc, Notify};

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct T {
    gap: u8,
    from: u8,
    to: u8,
    name: u8,
    ts: u32,
    owner: Hex,
    sig: Hex,
}
#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum Hex {
    Good(Vec<u8>),
    Upper(Vec<u8>),
    NoPrefix(Vec<u8>),
    Empty,
    Prefix,
    Odd(Vec<u8>),
    NotHex,
    /// two bytes of another letter before the digits
    Wide,
}
impl Hex {
    fn text(&self) -> String {
        match self {
            Hex::Good(b) => format!("0x{}", hex::encode(b)),
            Hex::Upper(b) => format!("0x{}", hex::encode_upper(b)),
            Hex::NoPrefix(b) => hex::encode(b),
            Hex::Empty => String::new(),
            Hex::Prefix => "0x".into(),
            Hex::Odd(b) => format!("0x{}a", hex::encode(b)),
            Hex::NotHex => "0xzz".into(),
            Hex::Wide => "éabcd".into(),
        }
    }
    fn bytes(&self) -> Option<Vec<u8>> {
        match self {
            Hex::Good(b) | Hex::Upper(b) if !b.is_empty() => Some(b.clone()),
            _ => None,
        }
    }
}
const NAMES: [&str; 8] = ["alice", "bob", "a-b", "x&fid=2", "a b", "ü#1", "1+1=2", "%41"];
fn name(n: u8) -> &'static str {
    NAMES[n as usize % NAMES.len()]
}
#[derive(Debug, Clone, Copy, PartialEq, Serialize, Deserialize)]
pub enum Fault {
    Drop,
    Status,
    Garbage,
    /// the page starts at or before the position asked for
    Back,
    Crash,
}
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct FCase {
    list: Vec<T>,
    page: u8,
    start: Option<u16>,
    stop: Option<u16>,
    stored: Option<u16>,
    faults: Vec<(u8, Fault)>,
    /// transfers known at first; each empty answer reveals as many more
    first: u8,
    ask: Option<(bool, u8)>,
}
type Tr = (u64, serde_json::Value, Option<FnameTransfer>);
fn list(c: &[T]) -> Vec<Tr> {
    let mut id = 0u64;
    c.iter()
        .map(|t| {
            id += 1 + t.gap as u64;
            let j = json!({
                "id": id, "timestamp": t.ts, "username": name(t.name), "owner": t.owner.text(), "from": t.from, "to": t.to,
                "user_signature": "0x00", "server_signature": t.sig.text(),
            });
            let f = t.owner.bytes().zip(t.sig.bytes()).map(|(owner, signature)| FnameTransfer {
                id,
                from_fid: t.from as u64,
                proof: Some(UserNameProof { timestamp: t.ts as u64, name: name(t.name).as_bytes().to_vec(), owner, signature, fid: t.to as u64, r#type: 1 }),
            });
            (id, j, f)
        })
        .collect()
}
fn pct(s: &str) -> String {
    let b = s.replace('+', " ").into_bytes();
    let mut out = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'%' && i + 2 < b.len() {
            if let Some(n) = std::str::from_utf8(&b[i + 1..i + 3]).ok().and_then(|h| u8::from_str_radix(h, 16).ok()) {
                out.push(n);
                i += 3;
                continue;
            }
        }
        out.push(b[i]);
        i += 1;
    }
    String::from_utf8_lossy(&out).into_owned()
}
fn query(target: &str) -> (String, Vec<(String, String)>) {
    let (path, q) = target.split_once('?').unwrap_or((target, ""));
    let q = q.split('&').filter(|s| !s.is_empty()).map(|kv| kv.split_once('=').unwrap_or((kv, ""))).map(|(k, v)| (pct(k), pct(v))).collect();
    (path.to_string(), q)
}
struct Registry {
    all: Arc<Vec<Tr>>,
    shown: usize,
    step: usize,
    page: usize,
    faults: Vec<(u8, Fault)>,
    n: u32,
    idle: u32,
    fail: u32,
    bad: Option<String>,
}
fn answer(g: &mut Registry, target: &str, crash: &Notify, done: &Notify) -> Rep {
    let n = g.n;
    g.n += 1;
    if n > 5000 {
        g.bad.get_or_insert("5000 requests and no end".into());
        done.notify_one();
        return Rep::Hang;
    }
    let fault = g.faults.iter().find(|f| f.0 as u32 == n).map(|f| f.1).filter(|_| g.fail < 6);
    let (path, q) = query(target);
    match fault {
        Some(Fault::Drop) => {
            g.fail += 1;
            return Rep::Drop;
        }
        Some(Fault::Status) => {
            g.fail += 1;
            return Rep::Json(500, "{\"error\":1}".into());
        }
        Some(Fault::Garbage) => {
            g.fail += 1;
            return Rep::Json(200, "{\"transfers\": [{\"id\": \"x\"}]}".into());
        }
        Some(Fault::Crash) => {
            g.faults.retain(|f| f.0 as u32 != n);
            crash.notify_one();
            return Rep::Hang;
        }
        _ => {}
    }
    let page = |v: Vec<&Tr>| Rep::Json(200, json!({ "transfers": v.iter().map(|t| &t.1).collect::<Vec<_>>() }).to_string());
    let known: Vec<&Tr> = g.all[..g.shown].iter().collect();
    if path == "/transfers/current" {
        return match known.last() {
            Some(t) => Rep::Json(200, json!({ "transfer": t.1 }).to_string()),
            None => Rep::Json(404, "{}".into()),
        };
    }
    if path != "/transfers" || q.len() != 1 {
        g.bad.get_or_insert(format!("asked for {target}"));
        return Rep::Json(404, "{}".into());
    }
    match (q[0].0.as_str(), q[0].1.as_str()) {
        ("from_id", from) => {
            let from: u64 = from.parse().unwrap_or(0);
            let mut v: Vec<&Tr> = known.into_iter().filter(|t| t.0 > from).take(g.page).collect();
            if fault == Some(Fault::Back) {
                // one that was handed out before, after the others
                if let Some(old) = g.all.iter().rev().find(|t| t.0 <= from) {
                    v.push(old)
                }
            }
            if v.is_empty() {
                if g.shown < g.all.len() {
                    g.shown = (g.shown + g.step).min(g.all.len())
                } else {
                    g.idle += 1;
                    if g.idle > 3 {
                        done.notify_one()
                    }
                }
            }
            page(v)
        }
        ("fid", f) => page(known.into_iter().filter(|t| t.1["to"].to_string() == f).collect()),
        ("fname", f) => page(known.into_iter().filter(|t| t.1["username"] == f).collect()),
        _ => {
            g.bad.get_or_insert(format!("asked for {target}"));
            page(vec![])
        }
    }
}
fn drain(rx: &mut mpsc::Receiver<MempoolRequest>) -> Result<Vec<FnameTransfer>, String> {
    let mut v = vec![];
    while let Ok(m) = rx.try_recv() {
        match m {
            MempoolRequest::AddMessage(MempoolMessage::FnameTransfer(t), _, None) => v.push(t),
            _ => return Err("something else than a username transfer was submitted".into()),
        }
    }
    Ok(v)
}
fn check(c: &FCase, o: &mut Obs) -> R {
    let all = Arc::new(list(&c.list));
    let mut b = bench();
    if let Some(s) = c.stored {
        b.store.set_latest_fname_transfer_id(s as u64).unwrap();
    }
    let first = (c.first as usize).min(all.len());
    let mut g = Registry {
        all: all.clone(),
        shown: first,
        step: c.first.max(1) as usize,
        page: 1 + c.page as usize,
        faults: c.faults.clone(),
        n: 0,
        idle: 0,
        fail: 0,
        bad: None,
    };
    let mut got: Vec<FnameTransfer> = vec![];
    let mut recorded = c.stored.unwrap_or(0) as u64;
    let mut runs = 0;
    let (mut stopped, mut current_failed) = (false, false);
    let mut from_now = 0;
    loop {
        runs += 1;
        let rt = tokio::runtime::Builder::new_current_thread().enable_all().start_paused(true).build().unwrap();
        let (crash, done) = (Arc::new(Notify::new()), Arc::new(Notify::new()));
        // without a starting point, what the registry knows at this moment is skipped
        current_failed |= g.faults.iter().find(|f| f.0 as u32 == g.n).is_some_and(|f| f.1 != Fault::Back);
        from_now = g.all[..g.shown].last().map_or(0, |t| t.0);
        let shared = Arc::new(Mutex::new(g));
        let port = server::with(|s| {
            let (shared, crash, done) = (shared.clone(), crash.clone(), done.clone());
            s.set(move |r| answer(&mut shared.lock().unwrap(), &r.target, &crash, &done));
            s.port
        });
        let (req, rx) = broadcast::channel(10);
        let cfg = Config { start_from: c.start.map(|s| s as u64), stop_at: c.stop.map(|s| s as u64), url: format!("http://127.0.0.1:{port}/transfers"), disable: false };
        let mut f = Fetcher::new(cfg, b.tx.clone(), statsd(), b.store.clone(), rx);
        let end = rt.block_on(async {
            tokio::select! {
                _ = f.run() => 0,
                _ = crash.notified() => 1,
                _ = done.notified() => 2,
            }
        });
        drop((f, req));
        drop(rt);
        server::with(|s| s.set(|_| Rep::Drop));
        let run = drain(&mut b.rx)?;
        let ids: Vec<u64> = run.iter().map(|t| t.id).collect();
        ensure!(ids.windows(2).all(|w| w[0] < w[1]), "transfers handed on out of order or twice: {ids:?}");
        got.extend(run);
        let r = b.store.get_latest_fname_transfer_id().unwrap().unwrap_or(0);
        ensure!(c.start.is_none() || r >= recorded, "the recorded transfer id went back from {recorded} to {r}");
        recorded = r;
        g = Arc::try_unwrap(shared).map_err(|_| "registry still held").map(|m| m.into_inner().unwrap()).unwrap();
        if let Some(e) = &g.bad {
            return Err(e.clone());
        }
        if let Some(s) = c.start {
            let from = (s as u64).max(c.stored.unwrap_or(0) as u64);
            for (id, _, t) in all.iter() {
                if let (Some(t), true) = (t, *id > from && *id <= recorded) {
                    ensure!(got.contains(t), "transfer {id} was not handed on, yet {recorded} is recorded as done");
                }
            }
        }
        match end {
            1 => o.label("crashed and restarted"),
            e => {
                stopped = e == 0;
                break;
            }
        }
        ensure!(runs < 30, "endless");
    }
    for t in &got {
        ensure!(all.iter().any(|a| a.2.as_ref() == Some(t)), "a transfer the registry does not have: {t:?}");
    }
    let stop = c.stop.map_or(u64::MAX, |s| s as u64);
    ensure!(got.iter().all(|t| t.id < stop), "went past the stop id");
    let from = match c.start {
        Some(s) => (s as u64).max(c.stored.unwrap_or(0) as u64),
        None if runs == 1 && !current_failed => from_now,
        // a failed first question means from the beginning; after a crash, from what is current then
        None if runs == 1 => 0,
        None => u64::MAX,
    };
    for (id, _, t) in all.iter() {
        if let (Some(t), true) = (t, *id > from && *id < stop) {
            ensure!(got.contains(t), "transfer {id} was not handed on (from {from}, to {stop})");
        }
        if *id <= from && from < u64::MAX {
            ensure!(!got.iter().any(|t| t.id == *id), "transfer {id} was handed on although ingestion starts after {from}");
        }
    }
    if stopped {
        ensure!(all.iter().any(|t| t.0 >= stop), "stopped with no transfer at or past the stop id");
        o.label("stopped");
    } else if from < u64::MAX {
        ensure!(!all.iter().any(|t| t.0 >= stop && t.0 > from), "went on at the stop id");
    }
    o.label_if(!c.faults.is_empty(), "failures");
    if got.len() >= 3 {
        o.nt()
    }
    Ok(())
}
/// What is asked for again, by fid or by name, is exactly that.
fn check_ask(c: &FCase, o: &mut Obs) -> R {
    let all = Arc::new(list(&c.list));
    let (by_fid, x) = c.ask.unwrap_or((true, 1));
    let mut b = bench();
    let (crash, done) = (Arc::new(Notify::new()), Arc::new(Notify::new()));
    let shared = Arc::new(Mutex::new(Registry { all: all.clone(), shown: all.len(), step: 1, page: 100, faults: vec![], n: 0, idle: 0, fail: 0, bad: None }));
    let port = server::with(|s| {
        let (shared, crash, done) = (shared.clone(), crash.clone(), done.clone());
        s.set(move |r| answer(&mut shared.lock().unwrap(), &r.target, &crash, &done));
        s.port
    });
    let url = format!("http://127.0.0.1:{port}/transfers");
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().start_paused(true).build().unwrap();
    let (req, rx) = broadcast::channel(10);
    let mut f = Fetcher::new(Config { start_from: Some(1_000_000), stop_at: None, url: url.clone(), disable: false }, b.tx.clone(), statsd(), b.store.clone(), rx);
    let _ = req.send(if by_fid { FnameRequest::RetryFid(x as u64) } else { FnameRequest::RetryFname(name(x).into()) });
    rt.block_on(async {
        tokio::select! {
            _ = f.run() => {}
            _ = done.notified() => {}
        }
    });
    let asked: Vec<&Tr> = all.iter().filter(|t| if by_fid { t.1["to"] == x } else { t.1["username"] == name(x) }).collect();
    let want: Vec<FnameTransfer> = asked.iter().filter_map(|t| t.2.clone()).collect();
    ensure_eq!(shared.lock().unwrap().bad, None, "request");
    ensure_eq!(drain(&mut b.rx)?, want, "handed on again for {}", if by_fid { format!("fid {x}") } else { format!("name {:?}", name(x)) });
    // the look-up the API uses: all of a name's transfers, or an error
    let got = rt.block_on(HttpFnameTransferLookup::new(url).lookup_fname(name(x)));
    let asked: Vec<&Tr> = all.iter().filter(|t| t.1["username"] == name(x)).collect();
    ensure_eq!(shared.lock().unwrap().bad, None, "request of the look-up");
    match got {
        Ok(v) => {
            let want: Option<Vec<FnameTransfer>> = asked.iter().map(|t| t.2.clone()).collect();
            ensure_eq!(Some(v), want, "look-up of {:?}", name(x));
        }
        Err(e) => ensure!(asked.iter().any(|t| t.2.is_none()), "look-up of {:?} failed: {e}", name(x)),
    }
    if want.len() >= 2 {
        o.nt()
    }
    Ok(())
}
fn gen() -> BoxedStrategy<FCase> {
    let b = || proptest::collection::vec(any::<u8>(), 0..40);
    let hex = move || {
        prop_oneof![
            14 => b().prop_map(Hex::Good), 2 => b().prop_map(Hex::Upper), 1 => b().prop_map(Hex::NoPrefix), 1 => Just(Hex::Empty), 1 => Just(Hex::Prefix),
            1 => b().prop_map(Hex::Odd), 1 => Just(Hex::NotHex), 1 => Just(Hex::Wide)
        ]
    };
    let t = (prop_oneof![6 => Just(0u8), 1 => 0u8..5], 0u8..4, 0u8..4, any::<u8>(), any::<u32>(), hex(), hex())
        .prop_map(|(gap, from, to, name, ts, owner, sig)| T { gap, from, to, name, ts, owner, sig });
    let fault = prop_oneof![1 => Just(Fault::Drop), 1 => Just(Fault::Status), 1 => Just(Fault::Garbage), 1 => Just(Fault::Back), 2 => Just(Fault::Crash)];
    (
        proptest::collection::vec(t, 0..25), 0u8..6, proptest::option::weighted(0.8, 0u16..12), proptest::option::weighted(0.4, 0u16..30),
        proptest::option::weighted(0.4, 0u16..15), proptest::collection::vec((0u8..12, fault), 0..5), 0u8..25, proptest::option::of((any::<bool>(), any::<u8>().prop_map(|n| n % 8))),
    )
        .prop_map(|(list, page, start, stop, stored, faults, first, ask)| FCase { list, page, start, stop, stored, faults, first, ask })
        .boxed()
}
pub fn c36(p: &mut Prop) {
    std::env::set_var("SSL_CERT_FILE", "/dev/null");
    p.assume("the username registry is a scripted server on the loopback interface that lists transfers in the order of their ids");
    p.sub("follow", "registries of generated transfers, growing, failing, repeating themselves, and a follower killed at generated requests; non-trivial = three or more transfers handed on", 6_000, 100_000, gen, check);
    p.sub("again", "transfers of one fid or one name asked for again, names with reserved characters; non-trivial = two or more", 4_000, 60_000, gen, check_ask);
}
