//! C30: the mesh crawl, its cache, the gossip counters and the diagnostics codec.
use crate::arb::Tape;
use crate::frame::{Obs, Prop, R};
use crate::gens::pvec;
use crate::world::{self, ids};
use futures::io::Cursor;
use libp2p::request_response::Codec;
use libp2p::PeerId;
use prost::Message;
use proptest::prelude::*;
use snapchain::core::types::SnapchainValidatorContext;
use snapchain::network::gossip::GossipEvent;
use snapchain::network::mesh::cache::MeshCache;
use snapchain::network::mesh::crawl::crawl_mesh;
use snapchain::network::mesh::diagnostics::{MeshDiagnosticsCodec, MESH_DIAGNOSTICS_PROTOCOL};
use snapchain::network::mesh::metrics::GossipMetrics;
use snapchain::network::mesh::view::{build_validator_peer_ids, classify_mesh_view};
use snapchain::proto::*;
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;
use std::time::{Duration, Instant};
use tokio::sync::mpsc;

#[derive(Clone, Debug)]
enum Answer {
    View(MeshView),
    Error(String),
    Drop,
    Never,
}
fn paused() -> tokio::runtime::Runtime {
    tokio::runtime::Builder::new_current_thread().enable_time().start_paused(true).build().unwrap()
}

fn crawl(c: &Vec<u8>, o: &mut Obs) -> R {
    let mut t = Tape::new(c);
    let big = t.below(40) == 7;
    let pool = if big { 300 } else { 10 };
    let inset: Vec<usize> = (0..pool).filter(|_| big || t.below(3) > 0).collect();
    let conf: Vec<String> = inset.iter().map(|i| hex::encode(&ids()[*i].key)).collect();
    let set = build_validator_peer_ids(conf.iter());
    let self_i = (t.below(10) > 0).then(|| t.below(pool));
    let mut peers: Vec<MeshPeer> = vec![];
    let mut order: Vec<usize> = (0..pool).collect();
    for i in 0..pool.min(40) {
        order.swap(i, t.below(pool));
    }
    for i in order {
        // a view may list the node itself, which is never queried
        if big || t.below(3) > 0 {
            peers.push(world::node(&mut t, ids()[i].peer.clone()));
        }
    }
    if t.flag() {
        peers.push(world::node(&mut t, vec![0xff, 1]));
    }
    let view = MeshView {
        local: self_i.map(|i| world::me(&mut t, ids()[i].peer.clone())),
        peers,
        generated_at: t.u64(),
    };
    let (height, only, at) = (t.u64(), t.flag(), t.u64());
    let me = self_i.map(|i| ids()[i].peer.clone());
    let is_val = |p: &[u8]| inset.iter().any(|i| ids()[*i].peer == p);
    // who is asked, and what comes back
    let asked: Vec<Vec<u8>> =
        view.peers.iter().map(|p| p.peer_id.clone()).filter(|p| is_val(p) && Some(p) != me.as_ref()).take(256).collect();
    let mut script: HashMap<Vec<u8>, (u64, Answer)> = HashMap::new();
    for p in &asked {
        let a = match t.below(8) {
            0 => Answer::Error(["dial failure", ""][t.below(2)].into()),
            1 => Answer::Drop,
            2 => Answer::Never,
            _ => Answer::View(world::view(&mut t, Some(p.clone()))),
        };
        let delay = [0, 0, 1, 900, 2900, 3100, 9000][t.below(7)];
        script.insert(p.clone(), (delay, a));
    }
    let local_fault = match t.below(20) {
        7 => 1, // answered too late
        8 => 2, // channel dropped
        9 => 3, // the gossip task is gone
        _ => 0,
    };
    let local_delay = [0, 0, 10, 400][t.below(4)];
    o.nontrivial = asked.len() > 1 && local_fault == 0;

    let seen: Rc<RefCell<Vec<(Vec<u8>, GetMeshViewRequest)>>> = Default::default();
    let (result, took) = paused().block_on(async {
        let (tx, mut rx) = mpsc::channel::<GossipEvent<SnapchainValidatorContext>>(1 + t.below(20));
        let (script, seen2, view) = (script.clone(), seen.clone(), view.clone());
        let ls = tokio::task::LocalSet::new();
        let gossip = async move {
            if local_fault == 3 {
                drop(rx);
                return;
            }
            let mut keep = vec![];
            while let Some(e) = rx.recv().await {
                match e {
                    GossipEvent::GetMeshView(tx) => {
                        let view = view.clone();
                        tokio::task::spawn_local(async move {
                            let d = if local_fault == 1 { 700 } else { local_delay };
                            tokio::time::sleep(Duration::from_millis(d)).await;
                            if local_fault != 2 {
                                let _ = tx.send(view);
                            }
                        });
                    }
                    GossipEvent::SendMeshViewRequest(p, req, tx) => {
                        seen2.borrow_mut().push((p.to_bytes(), req));
                        let (delay, a) = script.get(&p.to_bytes()).cloned().unwrap_or((0, Answer::Drop));
                        if let Answer::Never = a {
                            keep.push(tx);
                            continue;
                        }
                        tokio::task::spawn_local(async move {
                            tokio::time::sleep(Duration::from_millis(delay)).await;
                            let _ = match a {
                                Answer::View(v) => tx.send(Ok(v)),
                                Answer::Error(e) => tx.send(Err(e)),
                                _ => Ok(()),
                            };
                        });
                    }
                    _ => panic!("unexpected gossip event"),
                }
            }
        };
        ls.run_until(async {
            let h = tokio::task::spawn_local(gossip);
            let t0 = tokio::time::Instant::now();
            let r = crawl_mesh(&tx, &set, height, only, at).await;
            let took = t0.elapsed();
            h.abort();
            (r, took)
        })
        .await
    });
    if local_fault > 0 {
        o.label("local view unavailable");
        ensure!(result.is_err(), "crawl succeeded without a local view");
        return Ok(());
    }
    let topo = result.map_err(|e| format!("crawl failed: {e}"))?;
    let seen = seen.borrow();
    let sent: Vec<&Vec<u8>> = seen.iter().map(|s| &s.0).collect();
    ensure!(sent.iter().copied().eq(asked.iter()), "asked {sent:?}, expected {asked:?}");
    let req = GetMeshViewRequest { validators_only: only, ttl: 0, visited_peer_ids: vec![] };
    for (p, r) in seen.iter() {
        ensure_eq!(*r, req, "request to {}", world::text(p));
    }
    let mut nodes = vec![classify_mesh_view(view.clone(), &set, height, only)];
    let mut lost: BTreeSet<(Vec<u8>, Vec<u8>, String)> = BTreeSet::new();
    let mut longest = local_delay;
    for p in &asked {
        let key = ids().iter().find(|i| &i.peer == p).unwrap().key.clone();
        let (delay, a) = &script[p];
        let late = *delay > 3000 || matches!(a, Answer::Never);
        longest = longest.max(local_delay + if late { 3000 } else { *delay });
        let reason = match a {
            _ if late => {
                o.label("timeout");
                "timeout".to_string()
            }
            Answer::View(v) => {
                o.label("answered");
                nodes.push(classify_mesh_view(v.clone(), &set, 0, only));
                continue;
            }
            Answer::Error(e) => format!("error: {e}"),
            _ => "error: response channel closed".into(),
        };
        lost.insert((p.clone(), key, reason));
    }
    for i in &inset {
        let id = &ids()[*i];
        if Some(&id.peer) != me.as_ref() && !asked.contains(&id.peer) {
            o.label("not connected");
            lost.insert((id.peer.clone(), id.key.clone(), "not_connected".into()));
        }
    }
    ensure!(topo.nodes.len() == nodes.len(), "{} nodes answered, expected {}", topo.nodes.len(), nodes.len());
    for (g, w) in topo.nodes.iter().zip(&nodes) {
        ensure!(g == w, "node\n {g:?}\nexpected\n {w:?}");
    }
    let got: Vec<_> = topo.unreachable.iter().map(|u| (u.peer_id.clone(), u.consensus_public_key.clone(), u.reason.clone())).collect();
    ensure_eq!(got.len(), lost.len(), "unreachable nodes {got:?}, expected {lost:?}");
    ensure_eq!(got.into_iter().collect::<BTreeSet<_>>(), lost, "unreachable nodes");
    ensure_eq!(topo.generated_at, at, "generated_at");
    ensure!(took <= Duration::from_millis(longest + 20), "the crawl took {took:?}, at most {longest} ms expected");
    o.label_if(big, "more than 256 validators");
    Ok(())
}

fn cache(c: &Vec<u8>, o: &mut Obs) -> R {
    let mut t = Tape::new(c);
    let ttl = [3600u64, 3600, 3600, 0][t.below(4)];
    let steps: Vec<(bool, bool, usize, Option<i32>)> = (0..1 + t.below(14))
        .map(|_| (t.flag(), t.flag(), 1 + t.below(4), (t.below(4) == 0).then(|| 1 + t.below(16) as i32)))
        .collect();
    let cache = if ttl == 0 && t.flag() { MeshCache::disabled() } else { MeshCache::new(Duration::from_secs(ttl)) };
    let mut model: HashMap<(bool, bool), u64> = HashMap::new();
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    rt.block_on(async {
        for (i, (view, key, n, fail)) in steps.iter().enumerate() {
            let runs = Cell::new(0u64);
            let call = |j: usize| {
                let (cache, runs) = (&cache, &runs);
                let stamp = (i * 10 + j) as u64 + 1;
                async move {
                    let go = || async move {
                        runs.set(runs.get() + 1);
                        for _ in 0..3 {
                            tokio::task::yield_now().await;
                        }
                        match fail {
                            Some(code) => Err(tonic::Status::new((*code).into(), format!("m{stamp}"))),
                            None => Ok(stamp),
                        }
                    };
                    if *view {
                        cache.view(*key, || async { Ok(MeshView { generated_at: go().await?, ..Default::default() }) }).await.map(|v| v.generated_at)
                    } else {
                        cache
                            .topology(*key, || async { Ok(MeshTopology { generated_at: go().await?, ..Default::default() }) })
                            .await
                            .map(|v| v.generated_at)
                    }
                }
            };
            let got = futures::future::join_all((0..*n).map(call)).await;
            let what = format!("step {i} of {steps:?} (ttl {ttl}): {got:?}");
            let answers: Vec<Result<u64, (i32, String)>> =
                got.into_iter().map(|r| r.map_err(|s| (s.code() as i32, s.message().to_string()))).collect();
            if ttl == 0 {
                ensure_eq!(runs.get(), *n as u64, "computations, {what}");
                for (j, a) in answers.iter().enumerate() {
                    let s = (i * 10 + j) as u64 + 1;
                    let w = fail.map_or(Ok(s), |c| Err((c, format!("m{s}"))));
                    ensure_eq!(*a, w, "answer {j}, {what}");
                }
                continue;
            }
            let want = match model.get(&(*view, *key)) {
                Some(v) => {
                    o.label("hit");
                    o.nt();
                    ensure_eq!(runs.get(), 0, "computations on a hit, {what}");
                    Ok(*v)
                }
                None => {
                    // whichever caller computed, everyone gets that one answer
                    ensure_eq!(runs.get(), 1, "computations on a miss, {what}");
                    o.label_if(*n > 1, "shared miss");
                    let a = answers[0].clone();
                    match (&a, fail) {
                        (Ok(v), None) => {
                            ensure!(*v > i as u64 * 10 && *v <= (i as u64 + 1) * 10, "stale answer, {what}");
                            model.insert((*view, *key), *v);
                        }
                        (Err((c, m)), Some(w)) => {
                            ensure!(c == w && m.starts_with('m'), "error changed, {what}");
                        }
                        _ => return Err(format!("wrong outcome, {what}")),
                    }
                    a
                }
            };
            for a in &answers {
                ensure_eq!(*a, want, "answer, {what}");
            }
        }
        Ok(())
    })
}
fn expiry(c: &u8, o: &mut Obs) -> R {
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    let ttl = 5 + (*c as u64 % 4) * 10;
    o.nt();
    rt.block_on(async {
        let cache = MeshCache::new(Duration::from_millis(ttl));
        for i in 0..3u64 {
            let v = cache.view(true, || async { Ok(MeshView { generated_at: i, ..Default::default() }) }).await.unwrap();
            ensure_eq!(v.generated_at, i, "view after its {ttl} ms were over");
            let v = cache.topology(false, || async { Ok(MeshTopology { generated_at: i, ..Default::default() }) }).await.unwrap();
            ensure_eq!(v.generated_at, i, "topology after its {ttl} ms were over");
            std::thread::sleep(Duration::from_millis(ttl + 5));
        }
        Ok(())
    })
}

fn counters(c: &Vec<u8>, o: &mut Obs) -> R {
    let mut t = Tape::new(c);
    let peers: Vec<PeerId> = (0..3).map(|i| world::pid(&ids()[i].peer)).collect();
    let root = GossipMetrics::new();
    let clone = root.clone();
    type K = (usize, usize);
    let mut total: BTreeMap<K, (u64, u64)> = BTreeMap::new();
    // last sample: totals and when it may have been taken
    let mut sample: BTreeMap<K, ((u64, u64), Instant, Instant)> = BTreeMap::new();
    // totals shown, and bounds on the message rate and the byte rate
    type Shown = ((u64, u64), [(f64, f64); 2]);
    let mut shown: BTreeMap<K, Shown> = BTreeMap::new();
    for _ in 0..t.below(40) {
        let m = if t.flag() { &root } else { &clone };
        let topics: Vec<usize> = (0..5).filter(|_| t.below(4) > 0).collect();
        let names: Vec<&str> = topics.iter().map(|i| world::TOPICS[*i]).collect();
        match t.below(8) {
            0..=3 => {
                let (p, k) = (t.below(3), t.below(5));
                let n = t.below(4000) as u64;
                m.record_message(&peers[p], world::TOPICS[k], n);
                let e = total.entry((p, k)).or_default();
                *e = (e.0 + 1, e.1 + n);
            }
            4 | 5 => {
                let who: Vec<usize> = (0..3).filter(|_| t.below(3) > 0).collect();
                let spin = Instant::now();
                while spin.elapsed() < Duration::from_micros(3) {}
                let before = Instant::now();
                m.refresh_rates(who.iter().map(|i| &peers[*i]), &names);
                let after = Instant::now();
                for p in who {
                    for k in &topics {
                        let now = total.get(&(p, *k)).copied().unwrap_or_default();
                        let mut rates = [(0.0, 0.0); 2];
                        if let Some((old, b, a)) = sample.get(&(p, *k)) {
                            let (lo, hi) = ((before - *a).as_secs_f64(), (after - *b).as_secs_f64());
                            let d = [(now.0 - old.0) as f64, (now.1 - old.1) as f64];
                            rates = d.map(|d| if d == 0.0 { (0.0, 0.0) } else { (d / hi * 0.999999, d / lo * 1.000001) });
                            o.nt();
                            o.label_if(d[0] > 0.0, "positive rate");
                        }
                        sample.insert((p, *k), (now, before, after));
                        shown.insert((p, *k), (now, rates));
                    }
                }
            }
            6 => {
                let p = t.below(3);
                m.remove_peer(&peers[p], &names);
                for k in &topics {
                    total.remove(&(p, *k));
                    sample.remove(&(p, *k));
                    shown.remove(&(p, *k));
                }
                o.label("peer removed");
            }
            _ => {}
        }
        for p in 0..3 {
            let got = m.rates_for(&peers[p], &names);
            let want: Vec<(&str, &Shown)> =
                topics.iter().filter_map(|k| shown.get(&(p, *k)).map(|s| (world::TOPICS[*k], s))).collect();
            ensure_eq!(
                got.iter().map(|g| (g.0.as_str(), (g.1.total_msgs, g.1.total_bytes))).collect::<Vec<_>>(),
                want.iter().map(|w| (w.0, w.1 .0)).collect::<Vec<_>>(),
                "counters of peer {p}"
            );
            for (g, w) in got.iter().zip(want) {
                for (v, b) in [g.1.msgs_per_sec, g.1.bytes_per_sec].iter().zip(w.1 .1) {
                    ensure!(*v >= b.0 && *v <= b.1, "rate {v} on {} not within {b:?}", w.0);
                }
            }
        }
    }
    Ok(())
}

/// Hands out the bytes a few at a time.
struct Slow(Cursor<Vec<u8>>, usize);
impl futures::AsyncRead for Slow {
    fn poll_read(
        mut self: std::pin::Pin<&mut Self>,
        cx: &mut std::task::Context<'_>,
        buf: &mut [u8],
    ) -> std::task::Poll<std::io::Result<usize>> {
        let n = buf.len().min(self.1.max(1));
        std::pin::Pin::new(&mut self.0).poll_read(cx, &mut buf[..n])
    }
}
fn codec(c: &Vec<u8>, o: &mut Obs) -> R {
    let mut t = Tape::new(c);
    let step = [1usize, 7, 100, 1 << 20][t.below(4)];
    let mut k = MeshDiagnosticsCodec;
    let proto = MESH_DIAGNOSTICS_PROTOCOL;
    futures::executor::block_on(async {
        let req = GetMeshViewRequest {
            validators_only: t.flag(),
            ttl: t.u32(),
            visited_peer_ids: (0..t.below(4)).map(|_| t.bytes()).collect(),
        };
        let p = world::peer(&mut t);
        let mut view = world::view(&mut t, Some(p));
        let huge = t.below(60) == 59;
        if huge {
            view.local.as_mut().unwrap().rpc_address = "x".repeat(8 * 1024 * 1024);
        }
        o.nontrivial = !view.peers.is_empty();
        let mut w = Cursor::new(vec![]);
        k.write_request(&proto, &mut w, req.clone()).await.map_err(|e| e.to_string())?;
        let b = w.into_inner();
        ensure!(GetMeshViewRequest::decode(&b[..]).as_ref() == Ok(&req), "request bytes");
        let got = k.read_request(&proto, &mut Slow(Cursor::new(b), step)).await.map_err(|e| e.to_string())?;
        ensure_eq!(got, req, "request");
        let mut w = Cursor::new(vec![]);
        k.write_response(&proto, &mut w, view.clone()).await.map_err(|e| e.to_string())?;
        let b = w.into_inner();
        ensure!(MeshView::decode(&b[..]).as_ref() == Ok(&view), "response bytes");
        let got = k.read_response(&proto, &mut Slow(Cursor::new(b.clone()), step.max(if huge { 1 << 20 } else { 1 }))).await;
        if huge {
            o.label("over 8 MiB");
            ensure!(got.is_err(), "a response over 8 MiB was accepted");
            return Ok(());
        }
        ensure!(got.map_err(|e| e.to_string())? == view, "response");
        let e = k.read_response(&proto, &mut Cursor::new(vec![])).await;
        ensure!(matches!(&e, Err(e) if e.kind() == std::io::ErrorKind::UnexpectedEof), "empty response: {e:?}");
        let e = k.read_request(&proto, &mut Cursor::new(vec![])).await;
        ensure!(e.is_ok_and(|r| r == GetMeshViewRequest::default()), "empty request");
        // cut or damaged bytes are decoded as prost decodes them, or refused
        let mut bad = b;
        let cut = t.below(bad.len() + 1);
        bad.truncate(cut.max(1));
        let n = bad.len();
        bad[t.below(n)] ^= t.u8();
        let want = MeshView::decode(&bad[..]);
        o.label_if(want.is_err(), "undecodable response");
        let got = k.read_response(&proto, &mut Slow(Cursor::new(bad), step)).await;
        match (got, want) {
            (Ok(g), Ok(w)) => ensure!(g == w, "damaged response"),
            (Err(e), Err(_)) => ensure!(e.kind() == std::io::ErrorKind::InvalidData, "error kind {e:?}"),
            (g, w) => return Err(format!("damaged response read as {g:?}, decodes as {w:?}")),
        }
        Ok(())
    })
}

pub fn c30(p: &mut Prop) {
    let bytes = |n: usize| move || pvec(any::<u8>(), 0..n).boxed();
    p.sub("crawl", "two or more validators were asked", 60_000, 240_000, bytes(1800), crawl);
    p.sub("cache", "some answer came from the cache", 80_000, 320_000, bytes(80), cache);
    p.sub("expiry", "every case", 40, 200, || any::<u8>().boxed(), expiry);
    p.sub("counters", "a rate was derived from two samples", 60_000, 240_000, bytes(300), counters);
    p.sub("codec", "the view has peers", 60_000, 240_000, bytes(500), codec);
}
