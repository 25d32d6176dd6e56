//! Stand-ins for the malachitebft crates snapchain links against (not available offline).
//! Types carry the fields snapchain reads and writes. The consensus, sync and WAL *actors* are inert:
//! nothing here runs Tendermint. The value-sync state machine follows the real crate's rules for
//! picking what to request next, because snapchain's read-node sync actor is driven by it.
pub mod codec {
    use bytes::Bytes;
    pub trait Codec<T>: Send + Sync + 'static {
        type Error: std::error::Error + Send + Sync + 'static;
        fn decode(&self, bytes: Bytes) -> Result<T, Self::Error>;
        fn encode(&self, msg: &T) -> Result<Bytes, Self::Error>;
    }
}

pub mod config {
    use std::time::Duration;
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub struct TimeoutConfig {
        pub timeout_propose: Duration,
        pub timeout_propose_delta: Duration,
        pub timeout_prevote: Duration,
        pub timeout_prevote_delta: Duration,
        pub timeout_precommit: Duration,
        pub timeout_precommit_delta: Duration,
        pub timeout_commit: Duration,
        pub timeout_step: Duration,
    }
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub struct ValueSyncConfig {
        pub enabled: bool,
        pub status_update_interval: Duration,
        pub request_timeout: Duration,
    }
    impl Default for ValueSyncConfig {
        fn default() -> Self {
            Self {
                enabled: true,
                status_update_interval: Duration::from_secs(10),
                request_timeout: Duration::from_secs(10),
            }
        }
    }
}

pub mod metrics {
    use prometheus_client::registry::Registry;
    use std::sync::{Mutex, OnceLock};
    pub struct SharedRegistry(Mutex<Registry>);
    impl SharedRegistry {
        pub fn global() -> &'static Self {
            static R: OnceLock<SharedRegistry> = OnceLock::new();
            R.get_or_init(|| SharedRegistry(Mutex::new(Registry::default())))
        }
        pub fn with_prefix<A>(&self, prefix: impl AsRef<str>, f: impl FnOnce(&mut Registry) -> A) -> A {
            f(self.0.lock().unwrap().sub_registry_with_prefix(prefix))
        }
        pub fn lock<A>(&self, f: impl FnOnce(&mut Registry) -> A) -> A {
            f(&mut self.0.lock().unwrap())
        }
    }
    impl Clone for SharedRegistry {
        fn clone(&self) -> Self {
            SharedRegistry(Mutex::new(Registry::default()))
        }
    }
    #[derive(Clone, Debug, Default)]
    pub struct Metrics;
    impl Metrics {
        pub fn register(_registry: &SharedRegistry) -> Self {
            Metrics
        }
    }
}

pub mod network {
    use bytes::Bytes;
    pub use libp2p::gossipsub::MessageId;
    pub use libp2p::Multiaddr;
    use std::fmt;

    #[derive(Copy, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
    pub struct PeerId(libp2p::PeerId);
    impl PeerId {
        pub fn from_bytes(data: &[u8]) -> Result<Self, ParseError> {
            libp2p::PeerId::from_bytes(data).map(PeerId).map_err(|_| ParseError)
        }
        pub fn to_bytes(&self) -> Vec<u8> {
            self.0.to_bytes()
        }
    }
    #[derive(Debug)]
    pub struct ParseError;
    impl fmt::Display for ParseError {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            write!(f, "invalid peer id")
        }
    }
    impl std::error::Error for ParseError {}
    impl fmt::Display for PeerId {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            fmt::Display::fmt(&self.0, f)
        }
    }
    impl fmt::Debug for PeerId {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            write!(f, "PeerId({})", self.0)
        }
    }
    pub trait PeerIdExt {
        fn to_libp2p(&self) -> libp2p::PeerId;
        fn from_libp2p(peer_id: &libp2p::PeerId) -> Self;
    }
    impl PeerIdExt for PeerId {
        fn to_libp2p(&self) -> libp2p::PeerId {
            self.0
        }
        fn from_libp2p(peer_id: &libp2p::PeerId) -> Self {
            PeerId(*peer_id)
        }
    }

    #[derive(Copy, Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
    pub enum Channel {
        Consensus,
        ProposalParts,
        Sync,
    }

    #[derive(Clone, Debug)]
    pub enum Event {
        Listening(Multiaddr),
        PeerConnected(PeerId),
        PeerDisconnected(PeerId),
        Message(Channel, PeerId, Bytes),
        Sync(crate::sync::RawMessage),
    }
}

pub mod sync {
    pub use crate::network::PeerId;
    use bytes::Bytes;
    use derive_where::derive_where;
    use informalsystems_malachitebft_core_types::{CommitCertificate, Context, Height, Round, VoteSet};
    use libp2p::request_response as rr;
    use std::collections::BTreeMap;
    use std::fmt::{self, Display};
    use std::sync::Arc;
    use std::time::Duration;

    macro_rules! id {
        ($n:ident) => {
            #[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
            pub struct $n(Arc<str>);
            impl $n {
                pub fn new(id: impl ToString) -> Self {
                    Self(Arc::from(id.to_string()))
                }
            }
            impl Display for $n {
                fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                    self.0.fmt(f)
                }
            }
        };
    }
    id!(InboundRequestId);
    id!(OutboundRequestId);

    #[derive_where(Clone, Debug, PartialEq, Eq)]
    pub struct Status<Ctx: Context> {
        pub peer_id: PeerId,
        pub height: Ctx::Height,
        pub history_min_height: Ctx::Height,
    }
    #[derive_where(Clone, Debug, PartialEq, Eq)]
    pub enum Request<Ctx: Context> {
        ValueRequest(ValueRequest<Ctx>),
        VoteSetRequest(VoteSetRequest<Ctx>),
    }
    #[derive_where(Clone, Debug, PartialEq, Eq)]
    pub enum Response<Ctx: Context> {
        ValueResponse(ValueResponse<Ctx>),
        VoteSetResponse(VoteSetResponse<Ctx>),
    }
    #[derive_where(Clone, Debug, PartialEq, Eq)]
    pub struct ValueRequest<Ctx: Context> {
        pub height: Ctx::Height,
    }
    impl<Ctx: Context> ValueRequest<Ctx> {
        pub fn new(height: Ctx::Height) -> Self {
            Self { height }
        }
    }
    #[derive_where(Clone, Debug, PartialEq, Eq)]
    pub struct ValueResponse<Ctx: Context> {
        pub height: Ctx::Height,
        pub value: Option<RawDecidedValue<Ctx>>,
    }
    impl<Ctx: Context> ValueResponse<Ctx> {
        pub fn new(height: Ctx::Height, value: Option<RawDecidedValue<Ctx>>) -> Self {
            Self { height, value }
        }
    }
    #[derive_where(Clone, Debug, PartialEq, Eq)]
    pub struct VoteSetRequest<Ctx: Context> {
        pub height: Ctx::Height,
        pub round: Round,
    }
    #[derive_where(Clone, Debug, PartialEq, Eq)]
    pub struct VoteSetResponse<Ctx: Context> {
        pub height: Ctx::Height,
        pub round: Round,
        pub vote_set: VoteSet<Ctx>,
    }
    #[derive_where(Clone, Debug, PartialEq, Eq)]
    pub struct RawDecidedValue<Ctx: Context> {
        pub value_bytes: Bytes,
        pub certificate: CommitCertificate<Ctx>,
    }
    impl<Ctx: Context> RawDecidedValue<Ctx> {
        pub fn new(value_bytes: Bytes, certificate: CommitCertificate<Ctx>) -> Self {
            Self { value_bytes, certificate }
        }
    }

    #[derive(Clone, Debug)]
    pub enum RawMessage {
        Request { request_id: rr::InboundRequestId, peer: PeerId, body: Bytes },
        Response { request_id: rr::OutboundRequestId, peer: PeerId, body: Bytes },
    }

    // ---- network behaviour: raw bytes over libp2p request-response ----
    #[derive(Clone, Debug, PartialEq, Eq)]
    pub struct RawRequest(pub Bytes);
    #[derive(Clone, Debug, PartialEq, Eq)]
    pub struct RawResponse(pub Bytes);
    pub type ResponseChannel = rr::ResponseChannel<RawResponse>;
    pub type Event = rr::Event<RawRequest, RawResponse>;

    #[derive(Copy, Clone, Debug)]
    pub struct Config {
        pub request_timeout: Duration,
        pub max_request_size: usize,
        pub max_response_size: usize,
    }
    impl Default for Config {
        fn default() -> Self {
            Self {
                request_timeout: Duration::from_secs(10),
                max_request_size: 1024 * 1024,
                max_response_size: 512 * 1024 * 1024,
            }
        }
    }
    impl Config {
        pub fn with_request_timeout(mut self, t: Duration) -> Self {
            self.request_timeout = t;
            self
        }
    }

    #[derive(Clone)]
    pub struct RawCodec {
        max_req: usize,
        max_res: usize,
    }
    async fn read_len<T: futures::AsyncRead + Unpin + Send>(io: &mut T, max: usize) -> std::io::Result<Bytes> {
        use futures::AsyncReadExt;
        let mut l = [0u8; 4];
        io.read_exact(&mut l).await?;
        let n = u32::from_be_bytes(l) as usize;
        if n > max {
            return Err(std::io::Error::new(std::io::ErrorKind::InvalidData, "too large"));
        }
        let mut b = vec![0; n];
        io.read_exact(&mut b).await?;
        Ok(b.into())
    }
    async fn write_len<T: futures::AsyncWrite + Unpin + Send>(io: &mut T, b: &[u8]) -> std::io::Result<()> {
        use futures::AsyncWriteExt;
        io.write_all(&(b.len() as u32).to_be_bytes()).await?;
        io.write_all(b).await?;
        io.close().await
    }
    #[async_trait::async_trait]
    impl rr::Codec for RawCodec {
        type Protocol = libp2p::StreamProtocol;
        type Request = RawRequest;
        type Response = RawResponse;
        async fn read_request<T>(&mut self, _: &Self::Protocol, io: &mut T) -> std::io::Result<RawRequest>
        where
            T: futures::AsyncRead + Unpin + Send,
        {
            read_len(io, self.max_req).await.map(RawRequest)
        }
        async fn read_response<T>(&mut self, _: &Self::Protocol, io: &mut T) -> std::io::Result<RawResponse>
        where
            T: futures::AsyncRead + Unpin + Send,
        {
            read_len(io, self.max_res).await.map(RawResponse)
        }
        async fn write_request<T>(&mut self, _: &Self::Protocol, io: &mut T, r: RawRequest) -> std::io::Result<()>
        where
            T: futures::AsyncWrite + Unpin + Send,
        {
            write_len(io, &r.0).await
        }
        async fn write_response<T>(&mut self, _: &Self::Protocol, io: &mut T, r: RawResponse) -> std::io::Result<()>
        where
            T: futures::AsyncWrite + Unpin + Send,
        {
            write_len(io, &r.0).await
        }
    }

    #[derive(libp2p::swarm::NetworkBehaviour)]
    #[behaviour(to_swarm = "Event")]
    pub struct Behaviour {
        rpc: rr::Behaviour<RawCodec>,
    }
    impl Behaviour {
        pub fn new(config: Config) -> Self {
            Self {
                rpc: rr::Behaviour::with_codec(
                    RawCodec { max_req: config.max_request_size, max_res: config.max_response_size },
                    [(
                        libp2p::StreamProtocol::new("/malachitebft-sync/v1beta1"),
                        rr::ProtocolSupport::Full,
                    )],
                    rr::Config::default().with_request_timeout(config.request_timeout),
                ),
            }
        }
        pub fn send_request(&mut self, peer: libp2p::PeerId, data: Bytes) -> rr::OutboundRequestId {
            self.rpc.send_request(&peer, RawRequest(data))
        }
        pub fn send_response(&mut self, channel: ResponseChannel, data: Bytes) -> Result<(), Error> {
            self.rpc.send_response(channel, RawResponse(data)).map_err(|_| Error::SendResponse)
        }
    }
    #[derive(Debug, thiserror::Error)]
    pub enum Error {
        #[error("failed to send response")]
        SendResponse,
    }

    // ---- value-sync state machine ----
    #[derive(Clone, Debug, Default)]
    pub struct Metrics;
    impl Metrics {
        pub fn register(_r: &crate::metrics::SharedRegistry) -> Self {
            Metrics
        }
    }
    pub struct State<Ctx: Context> {
        rng: Box<dyn rand::RngCore + Send>,
        pub started: bool,
        pub tip_height: Ctx::Height,
        pub sync_height: Ctx::Height,
        pub pending_value_requests: BTreeMap<Ctx::Height, PeerId>,
        pub peers: BTreeMap<PeerId, Status<Ctx>>,
    }
    impl<Ctx: Context> State<Ctx> {
        pub fn new(rng: Box<dyn rand::RngCore + Send>) -> Self {
            Self {
                rng,
                started: false,
                tip_height: Ctx::Height::ZERO,
                sync_height: Ctx::Height::ZERO,
                pending_value_requests: BTreeMap::new(),
                peers: BTreeMap::new(),
            }
        }
        pub fn random_peer_with_value(&mut self, height: Ctx::Height) -> Option<PeerId> {
            use rand::seq::IteratorRandom;
            self.peers
                .iter()
                .filter(|(_, s)| s.history_min_height <= height && height <= s.height)
                .map(|(p, _)| *p)
                .choose(&mut self.rng)
        }
    }
    #[derive_where(Clone, Debug)]
    pub enum Input<Ctx: Context> {
        Tick,
        Status(Status<Ctx>),
        StartHeight(Ctx::Height),
        UpdateHeight(Ctx::Height),
        ValueRequest(InboundRequestId, PeerId, ValueRequest<Ctx>),
        ValueResponse(OutboundRequestId, PeerId, ValueResponse<Ctx>),
        GotDecidedValue(InboundRequestId, Ctx::Height, Option<RawDecidedValue<Ctx>>),
        SyncRequestTimedOut(PeerId, Request<Ctx>),
    }
    #[derive_where(Clone, Debug)]
    pub enum Effect<Ctx: Context> {
        BroadcastStatus(Ctx::Height),
        SendValueRequest(PeerId, ValueRequest<Ctx>),
        SendValueResponse(InboundRequestId, ValueResponse<Ctx>),
        GetDecidedValue(InboundRequestId, Ctx::Height),
        SendVoteSetRequest(PeerId, VoteSetRequest<Ctx>),
    }
    #[derive_where(Clone, Debug, Default)]
    pub enum Resume<Ctx: Context> {
        #[derive_where(default)]
        Continue(std::marker::PhantomData<Ctx>),
    }

    fn request_value<Ctx: Context>(state: &mut State<Ctx>, out: &mut Vec<Effect<Ctx>>) {
        let h = state.sync_height;
        if state.pending_value_requests.contains_key(&h) {
            return;
        }
        if let Some(peer) = state.random_peer_with_value(h) {
            out.push(Effect::SendValueRequest(peer, ValueRequest::new(h)));
            state.pending_value_requests.insert(h, peer);
        }
    }

    pub fn handle<Ctx: Context>(state: &mut State<Ctx>, _m: &Metrics, input: Input<Ctx>) -> Vec<Effect<Ctx>> {
        let mut out = vec![];
        match input {
            Input::Tick => out.push(Effect::BroadcastStatus(state.tip_height)),
            Input::Status(s) => {
                let h = s.height;
                state.peers.insert(s.peer_id, s);
                if state.started && h >= state.sync_height {
                    request_value(state, &mut out);
                }
            }
            Input::StartHeight(h) => {
                state.started = true;
                state.sync_height = h;
                request_value(state, &mut out);
            }
            Input::UpdateHeight(h) => {
                if state.tip_height < h {
                    state.tip_height = h;
                }
                state.pending_value_requests.remove(&h);
            }
            Input::ValueRequest(id, _peer, req) => out.push(Effect::GetDecidedValue(id, req.height)),
            Input::ValueResponse(_id, _peer, res) => {
                state.pending_value_requests.remove(&res.height);
            }
            Input::GotDecidedValue(id, h, v) => {
                out.push(Effect::SendValueResponse(id, ValueResponse::new(h, v)));
            }
            Input::SyncRequestTimedOut(_peer, Request::ValueRequest(r)) => {
                state.pending_value_requests.remove(&r.height);
            }
            Input::SyncRequestTimedOut(_, _) => {}
        }
        out
    }
}

/// Drive the sync state machine and hand each effect to the caller.
#[macro_export]
macro_rules! process {
    (input: $input:expr, state: $state:expr, metrics: $metrics:expr, with: $effect:ident => $handle:expr) => {{
        let effects = $crate::sync::handle($state, $metrics, $input);
        for $effect in effects {
            let _resume = $handle?;
        }
        Ok(())
    }};
}

pub mod core_consensus {
    pub use crate::network::PeerId;
    use derive_where::derive_where;
    use informalsystems_malachitebft_core_types::*;
    use std::marker::PhantomData;

    #[derive_where(Clone, Debug, PartialEq, Eq)]
    pub struct ProposedValue<Ctx: Context> {
        pub height: Ctx::Height,
        pub round: Round,
        pub valid_round: Round,
        pub proposer: Ctx::Address,
        pub value: Ctx::Value,
        pub validity: Validity,
    }
    #[derive_where(Clone, Debug, PartialEq, Eq)]
    pub enum SignedConsensusMsg<Ctx: Context> {
        Vote(SignedVote<Ctx>),
        Proposal(SignedProposal<Ctx>),
    }
    impl<Ctx: Context> SignedConsensusMsg<Ctx> {
        pub fn signature(&self) -> &Signature<Ctx> {
            match self {
                SignedConsensusMsg::Vote(v) => &v.signature,
                SignedConsensusMsg::Proposal(p) => &p.signature,
            }
        }
    }
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub enum ValuePayload {
        ProposalOnly,
        PartsOnly,
        ProposalAndParts,
    }
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub enum VoteSyncMode {
        RequestResponse,
        Rebroadcast,
    }
    #[derive_where(Clone, Debug)]
    pub struct Params<Ctx: Context> {
        pub initial_height: Ctx::Height,
        pub initial_validator_set: Ctx::ValidatorSet,
        pub address: Ctx::Address,
        pub threshold_params: ThresholdParams,
        pub value_payload: ValuePayload,
        pub vote_sync_mode: VoteSyncMode,
    }
    pub struct State<Ctx: Context>(pub PhantomData<Ctx>);
}

pub mod engine {
    pub mod util {
        pub mod streaming {
            use bytes::Bytes;
            use std::fmt;
            #[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
            pub struct StreamId(Bytes);
            impl StreamId {
                pub fn new(b: Bytes) -> Self {
                    Self(b)
                }
                pub fn to_bytes(&self) -> Bytes {
                    self.0.clone()
                }
            }
            impl fmt::Display for StreamId {
                fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                    for b in &self.0 {
                        write!(f, "{b:02x}")?;
                    }
                    Ok(())
                }
            }
            pub type Sequence = u64;
            #[derive(Clone, Debug, PartialEq, Eq)]
            pub enum StreamContent<T> {
                Data(T),
                Fin,
            }
            impl<T> StreamContent<T> {
                pub fn as_data(&self) -> Option<&T> {
                    match self {
                        StreamContent::Data(d) => Some(d),
                        StreamContent::Fin => None,
                    }
                }
                pub fn into_data(self) -> Option<T> {
                    match self {
                        StreamContent::Data(d) => Some(d),
                        StreamContent::Fin => None,
                    }
                }
            }
            #[derive(Clone, Debug, PartialEq, Eq)]
            pub struct StreamMessage<T> {
                pub stream_id: StreamId,
                pub sequence: Sequence,
                pub content: StreamContent<T>,
            }
            impl<T> StreamMessage<T> {
                pub fn new(stream_id: StreamId, sequence: Sequence, content: StreamContent<T>) -> Self {
                    Self { stream_id, sequence, content }
                }
            }
        }
        pub mod output_port {
            use ractor::{ActorRef, Message};
            use tokio::sync::broadcast;
            pub struct OutputPort<M> {
                tx: broadcast::Sender<M>,
            }
            impl<M: Clone + Send + 'static> OutputPort<M> {
                pub fn with_capacity(n: usize) -> Self {
                    Self { tx: broadcast::channel(n).0 }
                }
                pub fn send(&self, msg: M) {
                    let _ = self.tx.send(msg);
                }
                pub fn subscribe<A: Message>(&self, actor: ActorRef<A>, conv: impl Fn(M) -> Option<A> + Send + 'static) {
                    let mut rx = self.tx.subscribe();
                    tokio::spawn(async move {
                        loop {
                            match rx.recv().await {
                                Ok(m) => {
                                    if let Some(m) = conv(m) {
                                        if actor.cast(m).is_err() {
                                            return;
                                        }
                                    }
                                }
                                Err(broadcast::error::RecvError::Lagged(_)) => continue,
                                Err(broadcast::error::RecvError::Closed) => return,
                            }
                        }
                    });
                }
            }
            pub trait OutputPortSubscriber<M>: Send + Sync
            where
                M: Clone + Send + 'static,
            {
                fn subscribe_to_port(&self, port: &OutputPort<M>);
            }
            impl<M, A> OutputPortSubscriber<M> for ActorRef<A>
            where
                M: Clone + Send + 'static,
                A: From<M> + Message,
            {
                fn subscribe_to_port(&self, port: &OutputPort<M>) {
                    port.subscribe(self.clone(), |m| Some(A::from(m)));
                }
            }
        }
        pub mod ticker {
            use ractor::{ActorRef, Message};
            use std::time::Duration;
            pub async fn ticker<M: Message>(interval: Duration, target: ActorRef<M>, msg: impl Fn() -> M) {
                loop {
                    tokio::time::sleep(interval).await;
                    if target.cast(msg()).is_err() {
                        return;
                    }
                }
            }
        }
        pub mod timers {
            use ractor::{ActorRef, Message};
            use std::collections::HashMap;
            use std::hash::Hash;
            use std::time::Duration;
            #[derive(Copy, Clone, Debug, PartialEq, Eq)]
            pub struct TimeoutElapsed<K> {
                key: K,
                generation: u64,
            }
            pub trait Target<K>: Send + Sync {
                fn elapsed(&self, t: TimeoutElapsed<K>);
                fn boxed(&self) -> Box<dyn Target<K>>;
            }
            impl<K: Send + 'static, M: From<TimeoutElapsed<K>> + Message> Target<K> for ActorRef<M> {
                fn elapsed(&self, t: TimeoutElapsed<K>) {
                    let _ = self.cast(M::from(t));
                }
                fn boxed(&self) -> Box<dyn Target<K>> {
                    Box::new(self.clone())
                }
            }
            pub struct TimerScheduler<K> {
                target: Box<dyn Target<K>>,
                generation: u64,
                timers: HashMap<K, (u64, tokio::task::JoinHandle<()>)>,
            }
            impl<K: Clone + Eq + Hash + Send + 'static> TimerScheduler<K> {
                pub fn new(target: Box<dyn Target<K>>) -> Self {
                    Self { target, generation: 0, timers: HashMap::new() }
                }
                pub fn start_timer(&mut self, key: K, timeout: Duration) {
                    self.cancel(&key);
                    self.generation += 1;
                    let generation = self.generation;
                    let target = self.target.boxed();
                    let k = key.clone();
                    let h = tokio::spawn(async move {
                        tokio::time::sleep(timeout).await;
                        target.elapsed(TimeoutElapsed { key: k, generation });
                    });
                    self.timers.insert(key, (generation, h));
                }
                pub fn cancel(&mut self, key: &K) {
                    if let Some((_, h)) = self.timers.remove(key) {
                        h.abort();
                    }
                }
                pub fn intercept_timer_msg(&mut self, msg: TimeoutElapsed<K>) -> Option<K> {
                    match self.timers.get(&msg.key) {
                        Some((g, _)) if *g == msg.generation => {
                            self.timers.remove(&msg.key);
                            Some(msg.key)
                        }
                        _ => None,
                    }
                }
            }
        }
        pub mod events {
            use std::marker::PhantomData;
            pub struct TxEvent<Ctx>(PhantomData<Ctx>);
            impl<Ctx> TxEvent<Ctx> {
                pub fn new() -> Self {
                    Self(PhantomData)
                }
            }
        }
    }

    pub mod network {
        use super::util::output_port::OutputPortSubscriber;
        use super::util::streaming::StreamMessage;
        use crate::core_consensus::SignedConsensusMsg;
        use crate::network::{Event, Multiaddr, PeerId};
        use crate::sync::{InboundRequestId, OutboundRequestId, Request, Response};
        use derive_where::derive_where;
        use informalsystems_malachitebft_core_types::*;
        use ractor::{ActorRef, RpcReplyPort};

        #[derive_where(Clone, Debug, PartialEq, Eq)]
        pub struct Status<Ctx: Context> {
            pub height: Ctx::Height,
            pub history_min_height: Ctx::Height,
        }
        impl<Ctx: Context> Status<Ctx> {
            pub fn new(height: Ctx::Height, history_min_height: Ctx::Height) -> Self {
                Self { height, history_min_height }
            }
        }
        #[derive_where(Clone, Debug)]
        pub enum NetworkEvent<Ctx: Context> {
            Listening(Multiaddr),
            PeerConnected(PeerId),
            PeerDisconnected(PeerId),
            Vote(PeerId, SignedVote<Ctx>),
            Proposal(PeerId, SignedProposal<Ctx>),
            ProposalPart(PeerId, StreamMessage<Ctx::ProposalPart>),
            Status(PeerId, Status<Ctx>),
            Request(InboundRequestId, PeerId, Request<Ctx>),
            Response(OutboundRequestId, PeerId, Response<Ctx>),
        }
        pub enum NetworkMsg<Ctx: Context> {
            Subscribe(Box<dyn OutputPortSubscriber<NetworkEvent<Ctx>>>),
            Publish(SignedConsensusMsg<Ctx>),
            PublishProposalPart(StreamMessage<Ctx::ProposalPart>),
            BroadcastStatus(Status<Ctx>),
            OutgoingRequest(PeerId, Request<Ctx>, RpcReplyPort<OutboundRequestId>),
            OutgoingResponse(InboundRequestId, Response<Ctx>),
            NewEvent(Event),
            GetState { reply: RpcReplyPort<usize> },
        }
        pub type NetworkRef<Ctx> = ActorRef<NetworkMsg<Ctx>>;
    }

    macro_rules! inert {
        ($name:ident, $msg:ty) => {
            pub struct $name<Ctx>(std::marker::PhantomData<Ctx>);
            #[async_trait::async_trait]
            impl<Ctx: Context> ractor::Actor for $name<Ctx> {
                type Msg = $msg;
                type State = ();
                type Arguments = ();
                async fn pre_start(
                    &self,
                    _myself: ractor::ActorRef<Self::Msg>,
                    _args: (),
                ) -> Result<(), ractor::ActorProcessingErr> {
                    Ok(())
                }
            }
        };
    }

    pub mod consensus {
        use super::host::HostRef;
        use super::network::{NetworkEvent, NetworkRef};
        use super::sync::SyncRef;
        use super::util::{events::TxEvent, streaming::StreamMessage};
        use super::wal::WalRef;
        use crate::codec::Codec;
        use crate::core_consensus::SignedConsensusMsg;
        pub use crate::core_consensus::Params as ConsensusParams;
        use informalsystems_malachitebft_core_types::*;
        use ractor::ActorRef;

        pub trait ConsensusCodec<Ctx: Context>:
            Codec<Ctx::ProposalPart> + Codec<SignedConsensusMsg<Ctx>> + Codec<StreamMessage<Ctx::ProposalPart>>
        {
        }
        impl<Ctx: Context, C> ConsensusCodec<Ctx> for C where
            C: Codec<Ctx::ProposalPart> + Codec<SignedConsensusMsg<Ctx>> + Codec<StreamMessage<Ctx::ProposalPart>>
        {
        }
        pub enum ConsensusMsg<Ctx: Context> {
            StartHeight(Ctx::Height, Ctx::ValidatorSet),
            NetworkEvent(NetworkEvent<Ctx>),
        }
        pub type ConsensusRef<Ctx> = ActorRef<ConsensusMsg<Ctx>>;
        inert!(Consensus, ConsensusMsg<Ctx>);
        impl<Ctx: Context> Consensus<Ctx> {
            #[allow(clippy::too_many_arguments)]
            pub async fn spawn(
                _ctx: Ctx,
                _params: ConsensusParams<Ctx>,
                _timeouts: crate::config::TimeoutConfig,
                _signer: Box<dyn SigningProvider<Ctx>>,
                _network: NetworkRef<Ctx>,
                _host: HostRef<Ctx>,
                _wal: WalRef<Ctx>,
                _sync: Option<SyncRef<Ctx>>,
                _metrics: crate::metrics::Metrics,
                _tx: TxEvent<Ctx>,
                _span: tracing::Span,
            ) -> Result<ConsensusRef<Ctx>, ractor::SpawnErr> {
                let (r, _) = ractor::Actor::spawn(None, Consensus(Default::default()), ()).await?;
                Ok(r)
            }
        }
    }

    pub mod host {
        use super::consensus::ConsensusRef;
        use super::util::streaming::StreamMessage;
        use crate::core_consensus::ProposedValue;
        use crate::network::PeerId;
        use crate::sync::RawDecidedValue;
        use bytes::Bytes;
        use derive_where::derive_where;
        use informalsystems_malachitebft_core_types::*;
        use ractor::{ActorRef, RpcReplyPort};
        use std::time::Duration;

        #[derive_where(Clone, Debug, PartialEq, Eq)]
        pub struct LocallyProposedValue<Ctx: Context> {
            pub height: Ctx::Height,
            pub round: Round,
            pub value: Ctx::Value,
        }
        impl<Ctx: Context> LocallyProposedValue<Ctx> {
            pub fn new(height: Ctx::Height, round: Round, value: Ctx::Value) -> Self {
                Self { height, round, value }
            }
        }
        #[derive(Debug)]
        pub enum VoteExtensionError {
            InvalidSignature,
            InvalidVoteExtension,
        }
        pub enum HostMsg<Ctx: Context> {
            ConsensusReady(ConsensusRef<Ctx>),
            StartedRound { height: Ctx::Height, round: Round, proposer: Ctx::Address },
            GetValue {
                height: Ctx::Height,
                round: Round,
                timeout: Duration,
                reply_to: RpcReplyPort<LocallyProposedValue<Ctx>>,
            },
            ExtendVote {
                height: Ctx::Height,
                round: Round,
                value_id: ValueId<Ctx>,
                reply_to: RpcReplyPort<Option<Ctx::Extension>>,
            },
            VerifyVoteExtension {
                height: Ctx::Height,
                round: Round,
                value_id: ValueId<Ctx>,
                extension: Ctx::Extension,
                reply_to: RpcReplyPort<Result<(), VoteExtensionError>>,
            },
            RestreamValue {
                height: Ctx::Height,
                round: Round,
                valid_round: Round,
                address: Ctx::Address,
                value_id: ValueId<Ctx>,
            },
            GetHistoryMinHeight { reply_to: RpcReplyPort<Ctx::Height> },
            ReceivedProposalPart {
                from: PeerId,
                part: StreamMessage<Ctx::ProposalPart>,
                reply_to: RpcReplyPort<ProposedValue<Ctx>>,
            },
            GetValidatorSet { height: Ctx::Height, reply_to: RpcReplyPort<Ctx::ValidatorSet> },
            Decided {
                certificate: CommitCertificate<Ctx>,
                extensions: (),
                consensus: ConsensusRef<Ctx>,
            },
            GetDecidedValue {
                height: Ctx::Height,
                reply_to: RpcReplyPort<Option<RawDecidedValue<Ctx>>>,
            },
            ProcessSyncedValue {
                height: Ctx::Height,
                round: Round,
                validator_address: Ctx::Address,
                value_bytes: Bytes,
                reply_to: RpcReplyPort<ProposedValue<Ctx>>,
            },
            PeerJoined { peer_id: PeerId },
            PeerLeft { peer_id: PeerId },
        }
        pub type HostRef<Ctx> = ActorRef<HostMsg<Ctx>>;
    }

    pub mod sync {
        use super::host::HostRef;
        use super::network::{NetworkEvent, NetworkRef};
        use crate::codec::Codec;
        use crate::sync::{Metrics, Request, Response, Status};
        use informalsystems_malachitebft_core_types::*;
        use ractor::ActorRef;
        use std::time::Duration;

        pub trait SyncCodec<Ctx: Context>: Codec<Status<Ctx>> + Codec<Request<Ctx>> + Codec<Response<Ctx>> {}
        impl<Ctx: Context, C> SyncCodec<Ctx> for C where
            C: Codec<Status<Ctx>> + Codec<Request<Ctx>> + Codec<Response<Ctx>>
        {
        }
        #[derive(Debug, Clone)]
        pub struct Params {
            pub status_update_interval: Duration,
            pub request_timeout: Duration,
        }
        pub enum Msg<Ctx: Context> {
            NetworkEvent(NetworkEvent<Ctx>),
        }
        pub type SyncRef<Ctx> = ActorRef<Msg<Ctx>>;
        inert!(Sync, Msg<Ctx>);
        impl<Ctx: Context> Sync<Ctx> {
            pub async fn spawn(
                _ctx: Ctx,
                _network: NetworkRef<Ctx>,
                _host: HostRef<Ctx>,
                _params: Params,
                _metrics: Metrics,
                _span: tracing::Span,
            ) -> Result<SyncRef<Ctx>, ractor::SpawnErr> {
                let (r, _) = ractor::Actor::spawn(None, Sync(Default::default()), ()).await?;
                Ok(r)
            }
        }
    }

    pub mod wal {
        use crate::codec::Codec;
        use crate::core_consensus::SignedConsensusMsg;
        use informalsystems_malachitebft_core_types::*;
        use ractor::ActorRef;
        use std::path::PathBuf;
        pub trait WalCodec<Ctx: Context>: Codec<SignedConsensusMsg<Ctx>> {}
        impl<Ctx: Context, C: Codec<SignedConsensusMsg<Ctx>>> WalCodec<Ctx> for C {}
        pub enum WalMsg<Ctx: Context> {
            StartedHeight(Ctx::Height),
        }
        pub type WalRef<Ctx> = ActorRef<WalMsg<Ctx>>;
        inert!(Wal, WalMsg<Ctx>);
        impl<Ctx: Context> Wal<Ctx> {
            pub async fn spawn<C: WalCodec<Ctx>>(
                _ctx: &Ctx,
                _codec: C,
                _path: PathBuf,
                _registry: crate::metrics::SharedRegistry,
                _span: tracing::Span,
            ) -> Result<WalRef<Ctx>, ractor::SpawnErr> {
                let (r, _) = ractor::Actor::spawn(None, Wal(Default::default()), ()).await?;
                Ok(r)
            }
        }
    }
}

pub mod wal {}
