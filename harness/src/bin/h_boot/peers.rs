//! Peers that serve a node's snapshots over gRPC: in pages of any size, failing now and then, or lying.
use prost::Message as _;
use serde::{Deserialize, Serialize};
use snapchain::network::replication::replicator::Replicator;
use snapchain::network::replication::replication_server::ReplicationServer;
use snapchain::proto::replication_service_server::{ReplicationService, ReplicationServiceServer};
use snapchain::proto::shard_trie_entry_with_message::TrieMessage as T;
use snapchain::proto::{self, GetShardSnapshotMetadataRequest as MetaReq, GetShardSnapshotMetadataResponse as Meta, GetShardTransactionsRequest as TxReq, GetShardTransactionsResponse as Txs};
use std::collections::HashMap;
use std::sync::{Arc, Mutex};
use tonic::{Request, Response, Status};

/// What a lying peer does to one entry.
#[derive(Debug, Clone, Copy, Serialize, Deserialize, PartialEq)]
pub enum Lie {
    /// leaves it out
    Omit,
    /// gives it twice
    Twice,
    /// another page's key
    OtherKey,
    /// a bit of the hash
    Hash,
    /// a bit of the signature
    Signature,
    /// a later time inside the signed bytes
    Bytes,
    /// a later time next to the signed bytes
    Beside,
    /// another author next to the signed bytes
    Author,
    /// the scheme of the signature
    Scheme,
    /// the account root
    Root,
    /// no account roots
    NoRoots,
    /// a key too short to be one
    ShortKey,
    /// no message with the key
    Nothing,
    /// a message nobody merged, by the author's own key
    Extra,
    /// signed again, by another key
    Resigned,
    /// another body in a chain event
    Chain,
    /// another owner in a name proof
    Name,
}
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct PeerPlan {
    /// entries to a page; 0 all of them, `OWN` as the server has it
    pub page: u8,
    /// (request number, answers in a row that fail from there)
    pub fail: Vec<(u16, u8)>,
    pub lie: Option<(Lie, u16)>,
}
pub const OWN: u8 = 255;
pub struct Shared {
    /// transactions asked for of all peers
    pub asked: usize,
    /// stop the client at this one
    pub kill_at: Option<usize>,
    /// what the lie changed, for the report
    pub lied: Option<u32>,
}
#[derive(Clone)]
pub struct Peer {
    pub server: ReplicationServer,
    pub plan: PeerPlan,
    pub heights: Option<Vec<u64>>,
    pub shared: Arc<Mutex<Shared>>,
    pub kill: Arc<tokio::sync::Notify>,
    /// failures still to come by request, requests seen
    pub state: Arc<Mutex<(HashMap<String, u8>, u16, u16)>>,
}
impl Peer {
    /// The whole of a virtual shard, gathered over the server's own pages.
    async fn whole(&self, r: &TxReq) -> Result<Txs, Status> {
        let mut all = Txs::default();
        let mut token = None;
        loop {
            let p = self.server.get_shard_transactions(Request::new(TxReq { page_token: token, ..r.clone() })).await?.into_inner();
            all.trie_messages.extend(p.trie_messages);
            for root in p.fid_account_roots {
                if !all.fid_account_roots.iter().any(|x| x.fid == root.fid) {
                    all.fid_account_roots.push(root);
                }
            }
            token = p.next_page_token;
            if token.is_none() {
                return Ok(all);
            }
        }
    }
    fn lie(&self, vts: u32, all: &mut Txs) {
        let Some((lie, at)) = self.plan.lie else { return };
        if all.trie_messages.is_empty() || self.shared.lock().unwrap().lied.is_some_and(|v| v != vts) {
            return;
        }
        let n = all.trie_messages.len();
        let pick = |f: &dyn Fn(&T) -> bool| -> Option<usize> {
            let v: Vec<usize> = (0..n).filter(|i| all.trie_messages[*i].trie_message.as_ref().is_some_and(|m| f(m))).collect();
            (!v.is_empty()).then(|| v[at as usize % v.len()])
        };
        let user = pick(&|m| matches!(m, T::UserMessage(_)));
        let at_any = at as usize % n;
        let msg = |all: &mut Txs, i: usize, f: &dyn Fn(&mut proto::Message)| {
            if let Some(T::UserMessage(m)) = &mut all.trie_messages[i].trie_message {
                f(m);
            }
        };
        let done = match lie {
            Lie::Omit => {
                all.trie_messages.remove(at_any);
                true
            }
            Lie::Twice => {
                let e = all.trie_messages[at_any].clone();
                all.trie_messages.insert(at_any, e);
                true
            }
            Lie::OtherKey => {
                let k = &mut all.trie_messages[at_any].trie_key;
                let l = k.len();
                k[l - 1] ^= 1;
                true
            }
            Lie::Nothing => {
                all.trie_messages[at_any].trie_message = None;
                true
            }
            Lie::Root => {
                let i = at as usize % all.fid_account_roots.len();
                all.fid_account_roots[i].account_root_hash[0] ^= 1;
                true
            }
            Lie::NoRoots => {
                all.fid_account_roots.clear();
                true
            }
            Lie::Chain => {
                let s = pick(&|m| matches!(m, T::OnChainEvent(e) if matches!(e.body, Some(proto::on_chain_event::Body::SignerEventBody(_)))));
                if let Some(i) = s {
                    if let Some(T::OnChainEvent(e)) = &mut all.trie_messages[i].trie_message {
                        if let Some(proto::on_chain_event::Body::SignerEventBody(b)) = &mut e.body {
                            b.key[0] ^= 1;
                        }
                    }
                }
                s.is_some()
            }
            Lie::Name => {
                let s = pick(&|m| matches!(m, T::FnameTransfer(_)));
                if let Some(i) = s {
                    if let Some(T::FnameTransfer(t)) = &mut all.trie_messages[i].trie_message {
                        t.proof.as_mut().unwrap().owner = vec![9; 20];
                    }
                }
                s.is_some()
            }
            _ => match user {
                None => false,
                Some(i) => {
                    match lie {
                        Lie::Hash => msg(all, i, &|m| m.hash[0] ^= 1),
                        Lie::Signature => msg(all, i, &|m| m.signature[40] ^= 1),
                        Lie::Bytes => msg(all, i, &|m| {
                            let mut d = signed(m);
                            d.timestamp += 1;
                            m.data_bytes = Some(d.encode_to_vec());
                            m.data = None;
                        }),
                        Lie::Beside => msg(all, i, &|m| {
                            let d = signed(m);
                            m.data_bytes = Some(m.data_bytes.clone().unwrap_or_else(|| d.encode_to_vec()));
                            m.data = Some(proto::MessageData { timestamp: d.timestamp + 1, ..d });
                        }),
                        Lie::Author => msg(all, i, &|m| {
                            let d = signed(m);
                            m.data_bytes = Some(m.data_bytes.clone().unwrap_or_else(|| d.encode_to_vec()));
                            m.data = Some(proto::MessageData { fid: d.fid + 7, ..d });
                        }),
                        Lie::Scheme => msg(all, i, &|m| m.signature_scheme = 2),
                        Lie::ShortKey => msg(all, i, &|m| {
                            m.signer.pop();
                        }),
                        Lie::Resigned => msg(all, i, &|m| {
                            use ed25519_dalek::Signer;
                            let k = ed25519_dalek::SigningKey::from_bytes(&[99; 32]);
                            m.signer = k.verifying_key().as_bytes().to_vec();
                            m.signature = k.sign(&m.hash).to_bytes().to_vec();
                        }),
                        Lie::Extra => {
                            let Some(T::UserMessage(m)) = all.trie_messages[i].trie_message.clone() else { return };
                            let f = signed(&m).fid;
                            let d = crate::world::cast_data(crate::world::FIDS.iter().position(|x| *x == f).unwrap() as u8, 9, 77, 0);
                            let k = ed25519_dalek::SigningKey::from_bytes(&[99; 32]);
                            let x = crate::gens::sign_data(&d, &k);
                            let key = snapchain::storage::trie::merkle_trie::TrieKey::for_message(&x)[0].clone();
                            all.trie_messages.insert(i, proto::ShardTrieEntryWithMessage { trie_key: key, trie_message: Some(T::UserMessage(x)) });
                        }
                        _ => unreachable!(),
                    }
                    true
                }
            },
        };
        if done {
            self.shared.lock().unwrap().lied = Some(vts);
        }
    }
}
pub fn signed(m: &proto::Message) -> proto::MessageData {
    match &m.data_bytes {
        Some(b) if !b.is_empty() => proto::MessageData::decode(b.as_slice()).unwrap(),
        _ => m.data.clone().unwrap(),
    }
}
#[tonic::async_trait]
impl ReplicationService for Peer {
    async fn get_shard_snapshot_metadata(&self, r: Request<MetaReq>) -> Result<Response<Meta>, Status> {
        let shard = r.get_ref().shard_id;
        let mut m = self.server.get_shard_snapshot_metadata(r).await?.into_inner();
        if shard != 0 {
            if let Some(h) = &self.heights {
                m.snapshots.retain(|s| h.contains(&s.height));
            }
        }
        Ok(Response::new(m))
    }
    async fn get_shard_transactions(&self, r: Request<TxReq>) -> Result<Response<Txs>, Status> {
        let r = r.into_inner();
        {
            let mut s = self.shared.lock().unwrap();
            s.asked += 1;
            if s.kill_at == Some(s.asked) {
                self.kill.notify_one();
            }
        }
        let id = format!("{} {} {:?}", r.shard_id, r.trie_virtual_shard, r.page_token);
        {
            let mut s = self.state.lock().unwrap();
            if !s.0.contains_key(&id) {
                let n = s.1;
                s.1 += 1;
                let k = self.plan.fail.iter().find(|f| f.0 == n).map_or(0, |f| f.1);
                s.0.insert(id.clone(), k);
            }
            let left = s.0.get_mut(&id).unwrap();
            if *left > 0 {
                *left -= 1;
                s.2 += 1;
                return Err(Status::unavailable("busy"));
            }
        }
        if let Some(h) = &self.heights {
            if !h.contains(&r.height) {
                return Err(Status::internal("no such snapshot"));
            }
        }
        if self.plan.page == OWN {
            return self.server.get_shard_transactions(Request::new(r)).await;
        }
        let mut all = self.whole(&r).await?;
        self.lie(r.trie_virtual_shard, &mut all);
        if self.plan.page == 0 {
            return Ok(Response::new(all));
        }
        let from: usize = match r.page_token.as_deref() {
            None | Some("") => 0,
            Some(t) => t.parse().map_err(|_| Status::invalid_argument("token"))?,
        };
        let n = all.trie_messages.len();
        let to = (from + self.plan.page as usize).min(n);
        let part: Vec<_> = all.trie_messages[from.min(n)..to].to_vec();
        let fids: Vec<u64> = part.iter().filter_map(|e| snapchain::storage::trie::merkle_trie::TrieKey::decode(&e.trie_key).ok()).map(|k| k.fid).collect();
        Ok(Response::new(Txs {
            trie_messages: part,
            fid_account_roots: all.fid_account_roots.into_iter().filter(|f| fids.contains(&f.fid)).collect(),
            next_page_token: (to < n).then(|| to.to_string()),
        }))
    }
}
/// Serves a peer on a free port of the loopback until the runtime ends.
pub async fn serve(p: Peer) -> String {
    let l = tokio::net::TcpListener::bind("127.0.0.1:0").await.unwrap();
    let a = l.local_addr().unwrap();
    tokio::spawn(
        tonic::transport::Server::builder()
            .add_service(ReplicationServiceServer::new(p))
            .serve_with_incoming(futures::stream::unfold(l, |l| async move { Some((l.accept().await.map(|x| x.0), l)) })),
    );
    format!("http://{a}")
}
pub fn server(r: &Arc<Replicator>, blocks: snapchain::storage::store::block_engine::BlockStores) -> ReplicationServer {
    ReplicationServer::new(r.clone(), blocks, snapchain::storage::store::test_helper::statsd_client())
}
