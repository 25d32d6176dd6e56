//! A node that records every call it receives and answers with a scripted reply.
use prost::Message as _;
use snapchain::proto::{hub_service_server::HubService, *};
use std::sync::Mutex;
use tonic::{Request, Response, Status};

#[derive(Clone, Debug, PartialEq)]
pub struct Call {
    pub rpc: &'static str,
    pub req: Vec<u8>,
    pub auth: Option<Vec<u8>>,
}
#[derive(Default)]
pub struct Fake {
    pub log: Mutex<Vec<Call>>,
    /// an encoded reply, or a status
    pub reply: Mutex<Option<Result<Vec<u8>, Status>>>,
    /// what a subscriber is sent
    pub events: Mutex<Vec<Result<HubEvent, Status>>>,
}
impl Fake {
    fn call<A: prost::Message, B: prost::Message + Default>(&self, rpc: &'static str, r: Request<A>) -> Result<Response<B>, Status> {
        let auth = r.metadata().get("authorization").map(|v| v.as_bytes().to_vec());
        self.log.lock().unwrap().push(Call { rpc, req: r.into_inner().encode_to_vec(), auth });
        match self.reply.lock().unwrap().clone() {
            None => Ok(Response::new(B::default())),
            Some(Ok(b)) => Ok(Response::new(B::decode(&b[..]).expect("scripted reply"))),
            Some(Err(s)) => Err(s),
        }
    }
}
macro_rules! fake {
    ($($f:ident($q:ty) -> $p:ty;)*) => {
        #[tonic::async_trait]
        impl HubService for Fake {
            type GetBlocksStream = tokio_stream_stub::Empty<Result<Block, Status>>;
            type SubscribeStream = futures::stream::Iter<std::vec::IntoIter<Result<HubEvent, Status>>>;
            async fn get_blocks(&self, _: Request<BlocksRequest>) -> Result<Response<Self::GetBlocksStream>, Status> { Err(Status::unimplemented("get_blocks")) }
            async fn subscribe(&self, r: Request<SubscribeRequest>) -> Result<Response<Self::SubscribeStream>, Status> {
                self.call::<_, Empty>("subscribe", r)?;
                Ok(Response::new(futures::stream::iter(self.events.lock().unwrap().clone())))
            }
            $(async fn $f(&self, request: Request<$q>) -> Result<Response<$p>, Status> { self.call(stringify!($f), request) })*
        }
    };
}
mod tokio_stream_stub {
    pub type Empty<T> = futures::stream::Empty<T>;
}
fake! {
    submit_message(Message) -> Message;
    submit_bulk_messages(SubmitBulkMessagesRequest) -> SubmitBulkMessagesResponse;
    validate_message(Message) -> ValidationResponse;
    get_shard_chunks(ShardChunksRequest) -> ShardChunksResponse;
    get_info(GetInfoRequest) -> GetInfoResponse;
    get_fids(FidsRequest) -> FidsResponse;
    get_connected_peers(GetConnectedPeersRequest) -> GetConnectedPeersResponse;
    get_mesh_view(GetMeshViewRequest) -> MeshView;
    get_mesh_topology(GetMeshViewRequest) -> MeshTopology;
    get_event(EventRequest) -> HubEvent;
    get_events(EventsRequest) -> EventsResponse;
    get_cast(CastId) -> Message;
    get_casts_by_fid(FidRequest) -> MessagesResponse;
    get_casts_by_parent(CastsByParentRequest) -> MessagesResponse;
    get_casts_by_mention(FidRequest) -> MessagesResponse;
    get_reaction(ReactionRequest) -> Message;
    get_reactions_by_fid(ReactionsByFidRequest) -> MessagesResponse;
    get_reactions_by_cast(ReactionsByTargetRequest) -> MessagesResponse;
    get_reactions_by_target(ReactionsByTargetRequest) -> MessagesResponse;
    get_user_data(UserDataRequest) -> Message;
    get_user_data_by_fid(FidRequest) -> MessagesResponse;
    get_username_proof(UsernameProofRequest) -> UserNameProof;
    get_user_name_proofs_by_fid(FidRequest) -> UsernameProofsResponse;
    get_verification(VerificationRequest) -> Message;
    get_verifications_by_fid(FidRequest) -> MessagesResponse;
    get_on_chain_signer(SignerRequest) -> OnChainEvent;
    get_on_chain_signers_by_fid(FidRequest) -> OnChainEventResponse;
    get_signer(SignerRequest) -> SignerResponse;
    get_signers_by_fid(SignersByFidRequest) -> SignersByFidResponse;
    get_on_chain_events(OnChainEventRequest) -> OnChainEventResponse;
    get_channel_owner(ChannelOwnerRequest) -> ChannelOwnerResponse;
    get_channels_by_address(ChannelsByAddressRequest) -> ChannelsResponse;
    get_channels_by_fid(ChannelsByFidRequest) -> ChannelsResponse;
    get_channel_member(ChannelMemberRequest) -> ChannelMemberResponse;
    get_channel_members(ChannelMembersRequest) -> ChannelMembersResponse;
    get_channel_pin(ChannelRequest) -> ChannelPinResponse;
    get_channel_moderations(ChannelModerationsRequest) -> ChannelModerationsResponse;
    get_channel_metadata(ChannelRequest) -> ChannelMetadataResponse;
    get_channel_memberships_by_fid(ChannelMembershipsByFidRequest) -> ChannelMembershipsResponse;
    get_channel_followers(ChannelFollowersRequest) -> ChannelFollowersResponse;
    get_channel_follower_count(ChannelFollowerCountRequest) -> ChannelFollowerCountResponse;
    get_channel_follows(ChannelFollowsRequest) -> ChannelFollowsResponse;
    is_following_channel(IsFollowingChannelRequest) -> IsFollowingChannelResponse;
    get_id_registry_on_chain_event(FidRequest) -> OnChainEvent;
    get_id_registry_on_chain_event_by_address(IdRegistryEventByAddressRequest) -> OnChainEvent;
    get_current_storage_limits_by_fid(FidRequest) -> StorageLimitsResponse;
    get_fid_address_type(FidAddressTypeRequest) -> FidAddressTypeResponse;
    get_link(LinkRequest) -> Message;
    get_links_by_fid(LinksByFidRequest) -> MessagesResponse;
    get_links_by_target(LinksByTargetRequest) -> MessagesResponse;
    get_link_compact_state_message_by_fid(FidRequest) -> MessagesResponse;
    get_all_cast_messages_by_fid(FidTimestampRequest) -> MessagesResponse;
    get_all_reaction_messages_by_fid(FidTimestampRequest) -> MessagesResponse;
    get_all_verification_messages_by_fid(FidTimestampRequest) -> MessagesResponse;
    get_all_user_data_messages_by_fid(FidTimestampRequest) -> MessagesResponse;
    get_all_link_messages_by_fid(FidTimestampRequest) -> MessagesResponse;
    get_all_lend_storage_messages_by_fid(FidTimestampRequest) -> MessagesResponse;
    get_trie_metadata_by_prefix(TrieNodeMetadataRequest) -> TrieNodeMetadataResponse;
}
