PROPS = []
def P(**k): PROPS.append(k)

P(id="C01", bin="h_core", title="A message is accepted statelessly exactly when it meets the protocol's rules",
  statement="For every signed message, network, protocol version and clock time, stateless validation accepts it if and only if the hash, the signature and every field-level rule of its message type hold under that version, and a rejection names a rule that is really broken. The verdict is a function of the message, network, version and time alone.",
  over=["inputs", "configurations"],
  quant="all messages of every type with fields at, below and above each limit, all networks, all protocol versions, all times",
  why="The unit tests sample a few dozen hand-written messages; the rule set is a product of ten body types, five size limits each, twenty-one versions and the clock.",
  files=["src/core/validations/message.rs", "src/core/validations/cast.rs", "src/core/validations/link.rs", "src/core/validations/reaction.rs", "src/core/validations/verification.rs", "src/core/validations/key.rs"],
  mech=[("validate_message", "src/core/validations/message.rs")],
  observe=["core::validations::message::validate_message"],
  tech="proptest structured generation against a reference model of the rules, with shrinking",
  note="Independent model of every rule run over generated messages; exploration, no proof. Time is an argument.")
P(id="C02", bin="h_core", title="No change to a signed message survives validation",
  statement="Changing any bit of an accepted message's signed content, hash, signature, signer key, or hash or signature scheme makes validation reject it. Re-encoding an accepted message and decoding it again gives the same verdict.",
  over=["inputs"],
  quant="all accepted messages and all single-field or single-bit changes of them",
  why="Tests flip a handful of fields by hand on one message.",
  files=["src/core/validations/message.rs"],
  mech=[("validate_message_hash / validate_signature", "src/core/validations/message.rs")],
  observe=["core::validations::message::validate_message"],
  tech="metamorphic property-based testing: random tampering of generated valid messages",
  note="Exploration over generated messages and tamperings; ed25519 and blake3 are trusted.")
P(id="C03", bin="h_core", title="Signed attestations bind exactly what they attest",
  statement="A key custody signature, a signed key request, a username transfer proof and a contract-wallet signature are each accepted if and only if the named signer signed exactly those fields for the right contract and chain, and they have not expired. Changing any attested field, or the signature, makes them be refused; malformed encodings are refused, never fatal.",
  over=["inputs"], quant="all payloads, signers, domains, deadlines, damaged encodings and contract replies",
  why="The tests check a few recorded signatures; binding must hold for every field of every payload.",
  files=["src/core/validations/key.rs", "src/core/validations/contract_signature.rs", "src/connectors/fname/mod.rs", "src/core/validations/verification.rs"],
  mech=[("EIP-712 digests of key custody payloads", "src/core/validations/key.rs"), ("validate_fname_transfer", "src/core/validations/verification.rs")],
  observe=["core::validations"],
  tech="property-based tampering against independently computed EIP-712 digests and a scripted Ethereum node",
  note="Digests are recomputed by the harness from the EIP texts; secp256k1 and keccak are trusted.")
P(id="C04", bin="h_core", title="A channel URI has one canonical spelling and names one channel",
  statement="A channel URI is accepted if and only if it is the canonical spelling for some chain, registry and token, and parsing it gives back exactly those. No two accepted URIs name the same channel.",
  over=["inputs"], quant="all canonical URIs, near misses of them and arbitrary strings",
  why="Tests list a few good and bad strings; uniqueness is a statement about all spellings.",
  files=["src/core/channel_uri.rs"], mech=[("parse / canonical form", "src/core/channel_uri.rs")], observe=["core::channel_uri"],
  tech="round-trip property-based testing with mutated spellings against a reference recogniser",
  note="Exploration over generated and mutated strings.")
P(id="C05", bin="h_core", title="Farcaster time and block heights convert without loss or wrap-around",
  statement="Converting between Unix and Farcaster time is exact for every representable instant and refused outside that range. Block heights increment, decrement and order consistently.",
  over=["inputs"], quant="all instants, durations and heights, at and across every boundary",
  why="Tests use present-day values; the boundaries are where wrap-around happens.",
  files=["src/core/util.rs", "proto/src/lib.rs"], mech=[("to_farcaster_time", "src/core/util.rs")], observe=["core::util", "proto::Height"],
  tech="property-based testing against integer arithmetic in i128", note="Exploration with boundary bias.")
P(id="C06", bin="h_core", title="The protocol version in force is a function of network and block time only",
  statement="For every network and time the version in force is the last one whose activation time has been reached; versions never go backwards, and a feature once switched on stays on in every later version. Nodes therefore switch rules at the same block.",
  over=["inputs", "configurations"], quant="all networks and times, every version",
  why="Tests probe a few instants of the schedule.",
  files=["src/version.rs"], mech=[("version_for, is_enabled", "src/version.rs")], observe=["version::version::EngineVersion"],
  tech="property-based testing against a model of the schedule; exhaustive over versions", note="The activation schedule is recorded in the harness, so a change of a past activation is reported.")
P(id="C07", bin="h_core", title="Settings follow one precedence and secrets stay out of error messages",
  statement="Each setting is taken from the command line if given there, else the environment, else the configuration file, else its default, independently of every other setting. An error in the configuration never prints the private key.",
  over=["configurations"], quant="all subsets of settings in all layers, and damaged files",
  why="Tests load one or two files; settings interact only in combinations.",
  files=["src/cfg.rs"], mech=[("load_and_merge_config", "src/cfg.rs")], observe=["cfg::load_and_merge_config"],
  tech="property-based testing over random layer combinations against a per-setting model", note="Runs in a scratch directory with a private environment lock.")
P(id="C08", bin="h_core", title="A certificate is accepted exactly when a quorum of the right validators signed",
  statement="A commit certificate is accepted if and only if more than two thirds of the validators in force at its height, each counted once and in any order, signed a precommit for exactly its height, round and value. Malformed certificates are refused, never fatal.",
  over=["inputs", "configurations"], quant="all validator set schedules, signer subsets and orders, and forged or damaged signatures",
  why="Tests use one set of one to three validators and well formed certificates.",
  files=["src/core/util.rs", "src/consensus/validator.rs"], mech=[("verify_signatures", "src/core/util.rs"), ("get_validator_set", "src/consensus/validator.rs")], observe=["core::util::verify_signatures"],
  tech="property-based testing with real signatures against a counting model", note="Real ed25519 signatures; exploration.")
P(id="C09", bin="h_core", title="Consensus agrees on turns, and votes survive the wire unchanged",
  statement="Every validator derives the same set, order and proposer for a height and round whatever order its configuration lists keys in. Votes and proposals come through the codecs unchanged, a signature covers every field, and bytes from a peer give a message or an error, never a crash.",
  over=["inputs", "configurations", "histories"], quant="all validator schedules, heights, rounds, votes, proposals, hostile byte strings, and histories of pending proposals",
  why="Tests encode a few messages and never a hostile one.",
  files=["src/consensus/validator.rs", "src/core/types.rs", "src/consensus/malachite/snapchain_codec.rs", "src/consensus/proposer.rs"],
  mech=[("SnapchainCodec", "src/consensus/malachite/snapchain_codec.rs"), ("ProposedValues", "src/consensus/proposer.rs")], observe=["consensus::malachite::snapchain_codec", "core::types"],
  tech="round-trip, metamorphic and structure-aware fuzzing of consensus messages; model-based histories", note="The malachite crates are replaced by stand-ins with the same types (DESIGN.md).")
P(id="C10", bin="h_layout", title="Every stored record has its own key, in the family and order readers scan",
  statement="Two different records, or one record in two roles, never share a database key, and equal inputs always give the same key. Each key lies under the prefix its readers scan, no key of another family or user lies there, and ordered keys sort as their numeric fields do.",
  over=["inputs"], quant="all pairs of records of all stored families, with fields at and around every boundary",
  why="Tests check a few keys; a collision or a mis-sorted key needs particular pairs of field values.",
  files=["src/storage/store/account/cast_store.rs", "src/storage/store/account/reaction_store.rs", "src/storage/store/account/link_store.rs", "src/storage/store/account/message.rs", "src/storage/store/account/onchain_event_store.rs", "src/storage/constants.rs"],
  mech=[("key makers", "src/storage/store/account"), ("RootPrefix", "src/storage/constants.rs")], observe=["storage::store::account"],
  tech="property-based pairwise injectivity, prefix-containment and order checks over all key families",
  note="Exploration with boundary bias; the byte layout of existing families is pinned, since a database on disk outlives the binary.")
P(id="C11", bin="h_trie", title="What counts for the sync trie is exactly the event's message changes",
  statement="Each event adds and removes exactly the trie keys of the messages and on-chain events it says were merged and deleted, and different records have different trie keys. Keys of any length and page tokens of any bytes give a result or an error, never a crash or an outsized reservation.",
  over=["inputs"], quant="all hub events of every kind, pairs of records, hostile keys and page tokens",
  why="Tests build a few events; the root of every shard depends on this mapping.",
  files=["src/storage/trie/merkle_trie.rs", "src/storage/trie/util.rs", "src/storage/trie/trie_node.rs"], mech=[("TrieKey", "src/storage/trie/merkle_trie.rs")], observe=["storage::trie::merkle_trie::TrieKey", "MerkleTrie::get_paged_values_of_subtree"],
  tech="property-based testing against an independent key model; hostile-input fuzzing with an allocation watch", note="Exploration.")
P(id="C12", bin="h_trie", title="The trie's root is a function of its contents, through any history and restart",
  statement="After any history of inserts, deletes, discarded batches, commits and reloads, the trie holds exactly the keys inserted and not deleted, its root hash equals that of a trie built from scratch with those keys in any order, and counts, prefix listings and pages agree with them. Stored nodes decode to what was encoded.",
  over=["histories", "crash_points", "inputs"], quant="all histories of trie operations over colliding keys, with uncommitted batches dropped and reloads between",
  why="Tests insert and delete a few keys in one order; state roots must agree between nodes whose histories differ.",
  files=["src/storage/trie/merkle_trie.rs", "src/storage/trie/trie_node.rs"], mech=[("insert/delete/commit/reload", "src/storage/trie/merkle_trie.rs"), ("TrieNode", "src/storage/trie/trie_node.rs")], observe=["storage::trie::merkle_trie::MerkleTrie"],
  tech="stateful model-based testing against a set model and a rebuilt trie", note="The database is the in-memory stand-in for RocksDB (DESIGN.md); exploration.")
P(id="C13", bin="h_pure", title="Event ids only grow, never repeat, and say where the event is",
  statement="Within a block's events, and across growing heights, each event's id is larger than every earlier one and never reused; it splits back into the height and position it was made from, and the block's own confirmation sorts first. When a height or a block's positions run out of ids, the event is refused and nothing is written.",
  over=["histories", "inputs"], quant="all histories of heights and events, including more events in a block than there are ids",
  why="Tests generate a few ids; consumers resume from an id, so one repeat or step back loses events.",
  files=["src/storage/store/account/event.rs"], mech=[("HubEventIdGenerator", "src/storage/store/account/event.rs"), ("StoreEventHandler::commit_transaction", "src/storage/store/account/event.rs")], observe=["storage::store::account::StoreEventHandler"],
  tech="stateful model-based testing against a counter model", note="Exploration with the id space's ends generated on purpose.")
P(id="C14", bin="h_pure", title="Rented storage gives the right units, quota and lifetime",
  statement="A rent event gives its units to the generation its chain time falls in and lapses when that generation's validity, under the protocol version in force, runs out. Live slots add up in any order, lapsed ones count for nothing, lending moves exactly the units lent, and each message type's quota is the sum of its per-unit limit over the units held.",
  over=["inputs", "configurations"], quant="all rent times around every cutoff, networks, protocol versions, and multisets of live and lapsed slots",
  why="Tests pick a few rents per generation; quota must be the same on every node for every combination.",
  files=["src/storage/store/account/onchain_event_store.rs", "src/storage/store/stores.rs", "src/storage/store/block_engine.rs"], mech=[("StorageSlot", "src/storage/store/account/onchain_event_store.rs"), ("Limits, StoreLimits", "src/storage/store/stores.rs")], observe=["storage::store::account::StorageSlot", "storage::store::stores::StoreLimits"],
  tech="property-based testing against an arithmetic model; metamorphic over merge order", note="The protocol's per-unit limits and cutoffs are recorded in the harness.")
P(id="C15", bin="h_pure", title="Channel authority follows the protocol's role table",
  statement="For every action, author role, target state, self flag, membership mode and owner flag, a channel membership change is allowed exactly when the role table says so, and an owner can never be banned. Unset modes fold to the most restrictive one, unknown ones are refused, and a registry event counts only if its label is its key's hash and its chain position is not older.",
  over=["inputs"], quant="the whole authority table, all mode values, all channel messages, labels and chain positions",
  why="Tests cover rows of the table; a swapped flag or role changes who may ban whom only in some cells.",
  files=["src/storage/store/block_engine.rs", "src/storage/store/account/channel_store.rs", "src/storage/store/account/onchain_event_store.rs"], mech=[("channel_member_authority", "src/storage/store/block_engine.rs"), ("fold_channel_modes", "src/storage/store/account/channel_store.rs")], observe=["storage::store::block_engine::channel_member_authority"],
  tech="exhaustive-by-sampling property-based testing against an independent role table", note="Every cell of the table is hit many times.")
P(id="C16", bin="h_pure", title="Every conflict has one winner, whatever the order of arrival",
  statement="The comparisons that decide conflicts (messages of a record, username proofs, presence updates, address claims, registry events) are total orders: antisymmetric, transitive, later time first, fixed tie-breaks, independent of listing order. System messages are replayed in chain order where the version says so and in block order otherwise.",
  over=["inputs", "schedules"], quant="all sets of conflicting candidates with equal and different times and hashes, in every listing order",
  why="Tests compare a few pairs; convergence needs the order to be total on all of them.",
  files=["src/storage/util.rs", "src/storage/store/account/store.rs", "src/storage/store/account/cast_store.rs", "src/storage/store/account/verification_store.rs", "src/storage/store/account/user_data_store.rs", "src/mempool/mempool.rs"], mech=[("message_compare", "src/storage/store/account/store.rs"), ("bytes_compare", "src/storage/util.rs")], observe=["storage::store::account::StoreDef::message_compare"],
  tech="property-based testing of order axioms and a reference order", note="Exploration biased to near-equal candidates.")
P(id="C17", bin="h_pure", title="A delegated key may sign only the message types it was granted",
  statement="A key added off-chain admits a message type if and only if that type is listed in the scopes of the message that added it, whatever other values the list holds, and an on-chain key admits all. Scope and time to live are read only from a key-add message.",
  over=["inputs"], quant="all scope lists, including negative, huge and aliasing values, and all message types",
  why="Tests try two or three lists; a bit position that wraps grants a type nobody listed.",
  files=["src/storage/store/account/active_key.rs"], mech=[("compute_scopes_mask, admits", "src/storage/store/account/active_key.rs")], observe=["storage::store::account::ActiveKey"],
  tech="property-based testing against set membership", note="Exploration.")
P(id="C18", bin="h_engine", title="Replicas that apply the same chunks hold the same state",
  statement="A block's outcome depends only on the chain before it and its own contents: a proposing, a validating, a restarted and a freshly synced node end each block with the same rows, the same trie root and the same events. A proposer's own chunk always validates on the others.",
  over=["histories", "schedules", "crash_points"], quant="all histories of blocks of user messages and chain events, with nodes restarted, idle rounds and dropped proposals between",
  why="Tests replay a handful of blocks on one or two engines.",
  files=["src/storage/store/engine.rs", "src/storage/store/account/store.rs", "src/storage/store/account/event.rs"], mech=[("ShardEngine::propose_state_change, validate_state_change, commit_shard_chunk", "src/storage/store/engine.rs")], observe=["storage::store::engine::ShardEngine"],
  tech="differential stateful testing of several engines over one generated history", note="Database is the in-memory stand-in; rows compared after normalising rows the trie caches.")
P(id="C19", bin="h_engine", title="A shard's live messages are what the protocol's rules say",
  statement="After every block, the live messages of every user are exactly those a reference model of the protocol keeps: signed by a key active when merged, conflicts won, removed, replaced and swept ones gone, a lost name's or address's claim gone, and the oldest pruned beyond the quota. Each message a block accepts or refuses is one the model accepts or refuses.",
  over=["histories"], quant="all histories of user messages of every kind and chain events, valid and invalid, in any order and grouping",
  why="Tests check single rules on short fixed sequences; interactions (revoke after prune, re-add after remove, quota with conflict) need histories.",
  files=["src/storage/store/engine.rs", "src/storage/store/account/store.rs", "src/storage/store/account/cast_store.rs", "src/storage/store/account/link_store.rs", "src/storage/store/account/reaction_store.rs", "src/storage/store/account/user_data_store.rs", "src/storage/store/account/verification_store.rs", "src/storage/store/account/username_proof_store.rs"],
  mech=[("ShardEngine::merge_message", "src/storage/store/engine.rs"), ("Store::merge, revoke, prune_messages", "src/storage/store/account/store.rs")], observe=["storage::store::engine::ShardEngine"],
  tech="stateful model-based property testing against a reference model", note="Known findings in known_findings.json name the interactions where the tree departs from the model.")
P(id="C20", bin="h_engine", title="Refused input leaves no trace, and a dry run tells the truth",
  statement="A proposal that is discarded, a block that is refused, a message the proposer leaves out and a dry run leave the state and events of every later block as if they had never been. A dry run accepts a message exactly when a block holding that message alone would merge it.",
  over=["histories"], quant="all histories with refused messages, abandoned proposals and dry runs inserted anywhere",
  why="Tests do not compare whole states with and without the noise.",
  files=["src/storage/store/engine.rs", "src/storage/db/rocksdb.rs"], mech=[("ShardEngine::simulate_message", "src/storage/store/engine.rs"), ("RocksDbTransactionBatch", "src/storage/db/rocksdb.rs")], observe=["storage::store::engine::ShardEngine"],
  tech="metamorphic stateful testing: the same history with and without noise", note="Exploration.")
P(id="C21", bin="h_engine", title="The sync trie holds exactly the live records, and they rebuild the state",
  statement="After every block the shard's trie holds exactly the keys of the live messages, on-chain events and names, and no others. Replaying only those survivors into an empty node through replication gives the same root, the same messages and the same index rows.",
  over=["histories"], quant="all histories of blocks, with conflicts, removals, revocations, transfers and pruning",
  why="Tests compare a root after one or two merges; a leaked or missing key appears only after particular sequences.",
  files=["src/storage/store/engine.rs", "src/storage/trie/merkle_trie.rs", "src/storage/store/account/store.rs"], mech=[("update_trie", "src/storage/store/engine.rs"), ("replay_replicator_message", "src/storage/store/engine.rs")], observe=["storage::store::engine::ShardEngine", "storage::trie::merkle_trie::MerkleTrie"],
  tech="stateful model-based testing; differential rebuild from the surviving records", note="Known findings list the index rows the tree leaves behind or loses.")

P(id="C22", bin="h_engine", title="Nobody keeps more than the storage they hold pays for, and the oldest go first",
  statement="Whenever a user's messages of a kind change, the user ends the block with no more of that kind than their live rented units, less those lent, plus those borrowed, allow at each generation's rate; the oldest are pruned first and never more than needed. Nothing disappears without an event, and the reported limits and usage are these numbers.",
  over=["histories"], quant="all histories of messages, rents of every generation, lends and passing time",
  why="Tests prune on fixed sequences of one generation; expiry, lending, several generations and replaced messages meet only in histories.",
  files=["src/storage/store/stores.rs", "src/storage/store/engine.rs", "src/storage/store/account/store.rs", "src/storage/store/account/onchain_event_store.rs", "src/storage/store/account/storage_lend_store.rs"],
  mech=[("Stores::get_usage, get_storage_limits", "src/storage/store/stores.rs"), ("Store::prune_messages", "src/storage/store/account/store.rs"), ("StorageSlot", "src/storage/store/account/onchain_event_store.rs")], observe=["storage::store::stores::Stores::get_storage_limits"],
  tech="stateful property testing with a movable clock against a direct oracle over the stored rows", note="Exploration. Known findings name the interactions where pruning departs from the rule.")

P(id="C27", bin="h_http", title="An HTTP request asks the node exactly what its URL and body say",
  statement="Every documented /v1 endpoint turns a well-formed request, whatever the order, spelling (snake or camel case) and escaping of its parameters, into exactly one call of its RPC with exactly those values, page options and credentials. Malformed, incomplete or unknown requests get 400 or 404 and never reach the node, and every answer carries the configured allowed origin.",
  over=["inputs"], quant="all endpoints with all subsets, values, orders, aliases and escapings of their parameters, wrong methods and paths, all message bodies, content types and credentials",
  why="Unit tests call a few handlers directly with one set of parameters; a swapped, dropped or defaulted parameter answers a different question with status 200.",
  files=["src/network/http_server.rs"], mech=[("Router::handle, parse_request, *Request::to_proto", "src/network/http_server.rs"), ("HubHttpServiceImpl", "src/network/http_server.rs")], observe=["network::http_server::Router::handle"],
  tech="property-based testing over the wire against a table of endpoints; the node is a recording stand-in", note="Documentation forms the parser refuses are known findings.")
P(id="C28", bin="h_http", title="An HTTP answer shows the node's reply completely and exactly",
  statement="For every endpoint and every reply of the node that can be shown, the JSON answer holds every record of the reply, in order, each field under its name with its exact value, encoding and enum name, with nothing added, and the next page token. What cannot be shown is refused, not shown as something else; a refusal by the node becomes an error status with the node's reason.",
  over=["inputs"], quant="all replies of all RPCs behind the HTTP API: every message body, event, signer, channel and peer record, absent fields, large numbers, odd strings, and all status codes",
  why="Unit tests round-trip one sample of some message kinds; clients read every field of every kind.",
  files=["src/network/http_server.rs"], mech=[("map_proto_message_to_json_message, map_proto_hub_event_to_json_hub_event, map_proto_on_chain_event_to_json_on_chain_event, map_proto_signer_to_json_signer", "src/network/http_server.rs")], observe=["network::http_server::Router::handle"],
  tech="property-based differential testing: the answer against JSON built independently from the reply", note="The events endpoint has no page token in its answer, by a recorded TODO; the oracle follows.")

P(id="C29", bin="h_mesh", title="The mesh pages show the peers, links and validators as they are",
  statement="A peer is called a validator exactly when its peer id derives from a configured validator key. The text and JSON pages of a view or a crawled topology show every peer, its link on each chosen topic (meshed, direct, subscribed only, none; in the matrix from both sides), its rates, addresses and table entry, and the HTTP address only when the table has one or the observed address is publicly reachable.",
  over=["inputs"], quant="all views, topologies, topic choices, validator sets, configured node tables and addresses",
  why="Unit tests render a few hand-made views; a partition shown as a healthy link appears only for certain combinations of links.",
  files=["src/network/mesh/render.rs", "src/network/mesh/nodes.rs", "src/network/mesh/view.rs"],
  mech=[("render_mesh_view, render_topology, mesh_view_json, topology_json, parse_topics", "src/network/mesh/render.rs"), ("NodeRegistry, resolve_http_api_url", "src/network/mesh/nodes.rs"), ("classify_mesh_view", "src/network/mesh/view.rs")],
  observe=["network::mesh::render::render_mesh_view"], tech="property-based differential testing against an independent rendering", note="Issue 978 (an entry matching two nodes) is a known finding.")
P(id="C30", bin="h_mesh", title="A mesh crawl accounts for every validator, within one timeout",
  statement="A crawl asks each connected validator other than itself once, and lists every other validator of the set exactly once: as a node with its own view, or as unreachable with the reason; it ends within one request timeout. Its cache runs one computation per key and lifetime and keeps no errors, the gossip counters and rates match the recorded messages, and the diagnostics codec gives back what was written.",
  over=["inputs", "schedules", "fault_sequences"], quant="all local views, validator sets, answers, errors, silences and delays; all sequences and bursts of cached calls; all sequences of recordings, samples and removals",
  why="Tests crawl a two-node network; late, dropped and failing answers combine only in generated schedules.",
  files=["src/network/mesh/crawl.rs", "src/network/mesh/cache.rs", "src/network/mesh/metrics.rs", "src/network/mesh/diagnostics.rs"],
  mech=[("crawl_mesh", "src/network/mesh/crawl.rs"), ("MeshCache", "src/network/mesh/cache.rs"), ("GossipMetrics", "src/network/mesh/metrics.rs"), ("MeshDiagnosticsCodec", "src/network/mesh/diagnostics.rs")],
  observe=["network::mesh::crawl::crawl_mesh"], tech="stateful property testing with scripted peers on a paused clock", note="Exploration; the cache's own clock is exercised with short real lifetimes.")
P(id="C31", bin="h_cli", title="The command-line client submits what its arguments say, and the node accepts it",
  statement="Each submission command of fc posts exactly one message: the one its arguments, environment, network and the clock describe, hashed and signed by the given (or a freshly shown) signer, with custody signatures and claims the node's own rules accept; a run with invalid arguments or without the operator's consent submits nothing and fails. The exit status says whether the node took it; live-at sends ever later heartbeats and clears a presence it began, also when interrupted or refused; devnet bootstrap sends rent, registration and signer of each fid in order; subscribe asks for what was named and prints every event. No secret it was given is printed.",
  over=["inputs", "configurations", "fault_sequences"], quant="all argument lists, ways of supplying secrets, wallets, networks, prompts and node answers",
  why="Tests build messages in-process for fixed inputs; nothing runs the binary or looks at what it sends.",
  files=["cli/src/main.rs", "cli/src/factory.rs", "cli/src/eip712.rs", "cli/src/helpers.rs"],
  mech=[("run_key_add", "cli/src/main.rs"), ("submit", "cli/src/main.rs"), ("create_message_with_data", "cli/src/factory.rs"), ("key_add_typed_data", "cli/src/eip712.rs")],
  observe=["fc (process)", "POST /v1/submitMessage"], tech="property testing of the client as a process against recording servers, with the node's validator as oracle", note="Exploration; TLS set-up is not exercised.")
P(id="C32", bin="h_cli", title="config pull changes exactly the managed keys, or nothing",
  statement="fc config pull ends with the local file holding its old values except consensus.validator_sets, gossip.bootstrap_peers and gossip.direct_peers, taken from a registry document a node can start with and read from the right chain, contract and block; in every other case, including a failed, refused or interrupted run and an edit made meanwhile, the file keeps its contents and mode and no copy of it stays behind. --dry-run prints the merge with credentials hidden and writes nothing, the version report is written only after a merge, and no credential or endpoint is ever printed. config version prints the counter, config slot the node's place among all listed validators, and both change nothing.",
  over=["inputs", "configurations", "fault_sequences", "crash_points"], quant="all local files, registry documents, flags, environment overlays, endpoint failures and points at which the write is cut short",
  why="Tests call the merge on fixed documents; the whole command, its failure paths and its files are never run.",
  files=["cli/src/config_pull.rs", "cli/src/config_slot.rs", "src/cfg.rs"],
  mech=[("splice_managed_keys", "cli/src/config_pull.rs"), ("validate_onchain", "cli/src/config_pull.rs"), ("write_replace", "cli/src/config_pull.rs"), ("slot_in_sets", "cli/src/config_slot.rs")],
  observe=["fc config pull (process)", "cfg::load_and_merge_config"], tech="model-based property testing of the client as a process with a scripted endpoint, injected faults and cut-off writes", note="Exploration; a write is cut off by a file size limit (killed, or told).")

P(id="C33", bin="h_pool", title="The mempool holds each message once and hands it over in order until committed",
  statement="A submitted message waits on exactly the shards its kind and fid route it to, once, or is refused for the stated reason: already waiting or merged, its feature not yet active, or its fid over its rate; revoking a key is never rate limited, and one live presence per fid waits, the newest. A proposer pulling n gets the first n still valid: system messages before users', older before newer, block events in sequence. What a decided block holds leaves the pool, a full pool takes nothing until there is room, and only accepted user messages that did not come from gossip are gossiped, once. A read node forwards by the same rules and keeps nothing.",
  over=["histories", "inputs", "configurations"], quant="all histories of submissions, pulls, merges and decisions of every message kind over any shard count, storage, network and capacity",
  why="Unit tests submit a few messages in fixed order; ordering, replacement, budgets and removal interact only over histories.",
  files=["src/mempool/mempool.rs", "src/mempool/routing.rs"], mech=[("Mempool::insert, pull_messages, remove_committed_txns", "src/mempool/mempool.rs"), ("RateLimits, KeyAddRateLimits, LiveAtRateLimits", "src/mempool/mempool.rs"), ("route_message", "src/mempool/routing.rs")],
  observe=["mempool::mempool::Mempool::run"], tech="stateful model-based property testing through the pool's channels, on a paused clock", note="Rate refills run on a real clock; a verdict near a refill is taken from the pool.")
P(id="C34", bin="h_pool", title="Certified shard-0 events reach a data shard in sequence, and none is left behind",
  statement="The block receiver submits to its shard only events of blocks whose event hashes match and whose certificate holds a quorum, in sequence; events it missed, or whose submission was lost, it requests and submits again, so that while shard 0 goes on producing events the shard's store catches up with it, whatever was lost, delayed or damaged and whether or not confirmations are announced.",
  over=["histories", "schedules", "fault_sequences"], quant="all sequences of arriving, missing and damaged blocks, lost submissions, late merges, silent or overrun confirmation channels and damaged replies",
  why="Tests cover a missed notification and one gap; the wedge comes from combinations of loss and delay.",
  files=["src/mempool/block_receiver.rs"], mech=[("BlockReceiver::run, sync_missing_block_events, ensure_events_confirmed", "src/mempool/block_receiver.rs"), ("validate_block_events", "src/mempool/block_receiver.rs")],
  observe=["mempool::block_receiver::BlockReceiver::run"], tech="stateful property testing with fault injection on a paused clock; the shard and the chain are simulated", note="Eventual: a bounded number of later blocks must suffice.")
P(id="C35", bin="h_chain", title="Every log of a registry contract becomes its event, across failures and restarts",
  statement="Following a chain from its start block (or the recorded one, if later) to the stop block or for ever, the node hands on, for every log of a watched registry contract, exactly the on-chain event that the log states, and nothing for any other log: undecodable, incomplete or unrelated logs never hold up or change others. Blocks recorded as done have been handed on, so failing requests and a kill at any moment lose nothing. Looking again at a fid or a block range hands on that fid's or range's events only.",
  over=["inputs", "crash_points", "fault_sequences", "configurations"],
  quant="all sequences of logs of the six contracts on both chains, start, stop and recorded blocks, RPC failures, kill points, registry answers and configured addresses",
  why="The tests decode two hand-made channel logs; they never run the follower.",
  files=["src/connectors/onchain_events/mod.rs", "src/connectors/onchain_events/ens.rs", "src/storage/store/node_local_state.rs"],
  mech=[("Subscriber::run / process_log", "src/connectors/onchain_events/mod.rs"), ("Contract::retry_filters", "src/connectors/onchain_events/mod.rs"), ("RealL1Client::resolve_ens_name", "src/connectors/onchain_events/mod.rs")],
  observe=["Subscriber::run, retry_fid, retry_block_range; mempool requests", "LocalStateStore::get_latest_block_number"],
  tech="property-based testing against a scripted JSON-RPC node with fault and crash injection and a reference log decoder",
  note="The node is scripted on the loopback interface and evaluates filters itself; chain reorganisations are not modelled; virtual time.")
P(id="C36", bin="h_chain", title="Every username transfer of the registry is handed on, in order, at least once",
  statement="From its starting point to its stop id the follower of the username registry hands on every well-formed transfer in ascending order of ids, skips malformed ones, never records an id it has not handled, and so loses nothing when the registry fails or repeats itself or the node is killed. Asking again for a fid or a name, and the look-up the API uses, asks the registry for exactly that fid or name.",
  over=["inputs", "crash_points", "fault_sequences", "configurations"],
  quant="all transfer lists, page sizes, starting, stop and recorded ids, registry failures, kill points and names",
  why="No unit test runs the follower; the tests decode single transfers.",
  files=["src/connectors/fname/mod.rs"],
  mech=[("Fetcher::fetch / set_initial_position", "src/connectors/fname/mod.rs"), ("fetch_transfers_for_fname", "src/connectors/fname/mod.rs")],
  observe=["Fetcher::run; mempool requests", "LocalStateStore::get_latest_fname_transfer_id", "HttpFnameTransferLookup"],
  tech="property-based testing against a scripted registry with fault and crash injection",
  note="The registry is scripted on the loopback interface; virtual time.")
P(id="C26", bin="h_reads", title="Reads answer exactly what is live, and paging through them ends",
  statement="Whatever blocks a node has executed, each read of its API (messages by fid, kind, time, target, parent or mention, single records, usernames, on-chain events, signers, ids, storage, fids, events, chunks, subscriptions from the past) answers exactly the records that are live or stored and asked for: none missing, stale, doubled or of others. Following page tokens at any page size and in either direction meets each record once, in order within a shard, and comes to an end, also across shards.",
  over=["histories", "inputs", "configurations"],
  quant="all histories of blocks of messages, on-chain events, username transfers and shard-0 events over one or two shards; all reads, page sizes, directions and time bounds",
  why="Tests read back one or two records with one page; endless or repeating page walks, urls that begin another, re-added keys and data of several shards are not among them.",
  files=["src/network/server.rs", "src/network/rpc_extensions.rs", "src/storage/store/account/store.rs", "src/storage/store/account/cast_store.rs", "src/storage/store/account/reaction_store.rs", "src/storage/store/account/link_store.rs", "src/storage/store/account/onchain_event_store.rs", "src/storage/store/account/name_registry_events.rs"],
  mech=[("MyHubService (HubService reads), fan_out_page", "src/network/server.rs"), ("page_options, timestamps", "src/network/rpc_extensions.rs"), ("get_messages_page_by_prefix, get_all_messages_by_fid", "src/storage/store/account")],
  observe=["HubService RPCs of MyHubService", "HubEvents of the engine"],
  tech="stateful property-based testing: real engines fill the stores, the expected answers come from the events they emitted",
  note="Called in process; gRPC transport and shard-0 reads (blocks, channels, lends) are not part of it.")

P(id="C37", bin="h_gate", title="Protected calls need a configured user's password and otherwise do nothing",
  statement="With users configured, submitting a message or a batch, viewing the mesh or its topology (the admin users), uploading a snapshot and running the on-chain migration (the admin users) go through exactly when the request carries `authorization: Basic base64(user:password)` of a configured user (entries of the configuration that are not user:password are no users; of two entries for one user the later counts); any other header, or none, is answered Unauthenticated and nothing reaches the mempool or the gossip layer, not even through a cached answer. Without configured users the calls are open. The debugging calls of the admin service work on development networks only, refuse fid 0, and hand exactly what they were given to the mempool; the retry calls ask the connectors for exactly what was requested.",
  over=["inputs", "configurations", "histories"], quant="every user list and every sequence of calls and headers",
  why="Only one header at a time is tried by hand; what matters is every malformed or misplaced one, and the order of authentication and caching over a sequence of calls.",
  files=["src/network/rpc_extensions.rs", "src/network/server.rs", "src/network/admin_server.rs"],
  mech=[("authenticate_request", "src/network/rpc_extensions.rs"), ("MyHubService::new, submit_message, get_mesh_view", "src/network/server.rs"), ("MyAdminService", "src/network/admin_server.rs")],
  observe=["network::server::MyHubService", "network::admin_server::MyAdminService"],
  tech="stateful property testing: generated user lists and call sequences against an explicit rule; the mempool and gossip channels are watched", note="In-process calls, without the transport.")
P(id="C38", bin="h_gate", title="A submission is queued exactly when the next block would take it",
  statement="A submitted message reaches the mempool, once and unchanged (its data being what its bytes say), exactly when the next block of its shard would merge it and the chains agree: an ENS or Base name proof, or a username backed by one, needs the name to resolve on its own chain to the proof's owner, who is the fid's custody or a verified address; a verification by contract needs that contract's word on the chain it names. The client is told of success exactly when the mempool accepted; a full, closed or silent mempool reads unavailable, and an error carries its code and class. A batch stands or falls per fid and shard, every message is answered once, shard 0's are refused, and the order within a fid is kept. A username not known yet is looked up once in the registry, only its transfers to that fid are passed on, and the message is queued if it is then admissible, else the original error is given within the time budget. Validation without submission gives the same answer however the data travels and queues nothing.",
  over=["inputs", "histories", "fault_sequences"], quant="every state of the shard, every message in every encoding, every answer of chains, registry and mempool",
  why="The answer depends on the shard's whole state, three outside services and how each fails; tests fix one combination at a time.",
  files=["src/network/server.rs", "src/storage/store/engine.rs", "src/storage/store/account/message.rs"],
  mech=[("submit_message, submit_bulk_messages, validate_message", "src/network/server.rs"), ("recover_missing_fname", "src/network/server.rs"), ("validate_ens_username_proof, resolve_ens_address, validate_contract_signature", "src/network/server.rs"), ("ShardEngine::simulate_message, simulate_bulk_messages", "src/storage/store/engine.rs")],
  observe=["network::server::MyHubService"],
  tech="model-based property testing over generated chain histories with scripted chains, registry and mempool; differential against the block proposer", note="Messages of fids without active storage are left out: the proposer leaves them out of blocks without a verdict.")

P(id="C23", bin="h_block", title="Only keys a fid's owner registered sign for it, in scope and while they live",
  statement="A message merges only if its signer is, at that block, a key the chain registry or a KEY_ADD gives the fid. A KEY_ADD needs a signature of the fid's present custody, a key request validly signed by the custody of the requesting app, a user nonce above all before it, a key neither on chain nor another fid's or another app's, and, for a new key, room below the limit. A KEY_REMOVE needs the custody's signature and such a user nonce, or the key's own signature and a nonce above all of its app. A gasless key signs only what its scopes allow and only while its time-to-live since its last use lasts. The keys, nonces, last uses and counts on record are exactly what these rules leave, on shard 0 and on every data shard.",
  over=["histories"], quant="all histories of key messages, signer and custody events, expiries and messages signed by every kind of key, over blocks and shards",
  why="Tests add and remove keys in fixed sequences; a key that outlives its removal, scope, expiry or owner, or a signature that counts twice, appears only in combinations over several blocks.",
  files=["src/storage/store/account/gasless_key_merge.rs", "src/storage/store/account/key_add_store.rs", "src/storage/store/account/key_nonce_store.rs", "src/storage/store/account/key_last_used_at_store.rs", "src/storage/store/account/active_key.rs", "src/storage/store/block_engine.rs", "src/storage/store/engine.rs"],
  mech=[("merge_key_add, merge_key_remove", "src/storage/store/account/gasless_key_merge.rs"), ("KeyAddStore, KeyNonceStore, KeyLastUsedAtStore", "src/storage/store/account"), ("BlockEngine::validate_user_message, ShardEngine key checks", "src/storage/store/block_engine.rs")],
  observe=["storage::store::block_engine::BlockEngine", "storage::store::engine::ShardEngine"],
  tech="stateful model-based property testing: generated blocks against an independent model of the key rules", note="The custody signature's deadline, which nothing enforces, is a known finding.")
P(id="C39", bin="h_block", title="A channel is run by its owner and moderators, and its records all agree",
  statement="A channel setting, membership act, pin or moderation merges exactly when its channel is registered, its author holds at that block the role it needs (the owner is the one fid that has verified the owning address; moderators; or the member concerned), the member's present state permits the act, and a bounded channel has room. Each slot then holds the message merged last, each member is in the state the accepted acts leave, and registry, owner, modes, and every list, count and index by channel, member and address agree with these, also after transfers and after verifications come or go.",
  over=["histories"], quant="all histories of channel registrations, transfers, verifications, settings, membership acts, pins and moderations",
  why="Tests walk single acts; authority depends on registry, verifications and members together, and a count that drifts from its list needs a sequence of opposing acts.",
  files=["src/storage/store/account/channel_store.rs", "src/storage/store/account/onchain_event_store.rs", "src/storage/store/block_engine.rs"],
  mech=[("ChannelUpdateStore, ChannelMemberStore, ChannelPinStore, ChannelModerateStore", "src/storage/store/account/channel_store.rs"), ("channel registry rows", "src/storage/store/account/onchain_event_store.rs"), ("BlockEngine::merge_message", "src/storage/store/block_engine.rs")],
  observe=["storage::store::block_engine::BlockEngine"],
  tech="stateful model-based property testing against an independent model of the channel rules", note="Reads through the stores; the API reads are C43.")
P(id="C40", bin="h_block", title="All nodes draw the same state from shard 0's blocks; the data shards follow",
  statement="A shard-0 block proposed by one node validates and commits on every other, with the same rows, root, events and hash, whatever else that node has proposed, simulated or restarted; a block with any part changed, added, dropped or repeated is refused and leaves no trace. Each data shard that is handed the block events, at its own pace and again after a restart, applies every one of them once and in order and ends with the keys, lends, verifications and counts of shard 0.",
  over=["histories", "schedules", "inputs", "crash_points"], quant="all histories of shard-0 blocks, tampered proposals, abandoned rounds, restarts and interleavings of shard-0 events with data blocks over one to three shards",
  why="Tests propose and validate with the same engine once; agreement must survive abandoned proposals, restarts, and any pace of the shards.",
  files=["src/storage/store/block_engine.rs", "src/storage/store/engine.rs", "src/storage/store/account/block_event_store.rs", "src/storage/store/block.rs"],
  mech=[("propose_state_change, validate_state_change, commit_block", "src/storage/store/block_engine.rs"), ("replay of block events", "src/storage/store/engine.rs"), ("BlockEventStore", "src/storage/store/account/block_event_store.rs")],
  observe=["storage::store::block_engine::BlockEngine", "storage::store::engine::ShardEngine"],
  tech="stateful differential property testing over several real engines with generated tampering", note="The rows of the state tree are compared by their roots: their stored order of children is not fixed.")

P(id="C41", bin="h_snap", title="A published snapshot restores exactly the database that was backed up last",
  statement="A download gives, for each shard asked for, exactly the content of the last backup published for it, through any failures of the store it reports success for, or it fails and leaves nothing else in place. A backup becomes the latest only when all of it is stored, so one that fails, dies or finds its database closed changes nothing that can be downloaded; it touches only its own shard's objects, and clearing removes exactly that shard's older ones. A backup under way is not disturbed by another, and a stale one is cleared away.",
  over=["histories", "fault_sequences", "crash_points", "inputs"],
  quant="all histories of backups, clearings and downloads of several shards; all contents, chunk sizes and request failures or deaths on the way",
  why="Unit tests write one or two chunks and never publish or download; the order of a directory's entries, a name that begins another and a failure between two requests show only in the round trip.",
  files=["src/storage/db/snapshot.rs", "src/storage/db/backup.rs", "src/storage/db/multi_chunk_writer.rs", "src/jobs/snapshot_upload.rs"],
  mech=[("upload_to_s3, download_snapshots, clear_old_snapshots", "src/storage/db/snapshot.rs"), ("backup_db", "src/storage/db/backup.rs"), ("MultiChunkWriter", "src/storage/db/multi_chunk_writer.rs"), ("upload_snapshot", "src/jobs/snapshot_upload.rs")],
  observe=["storage::db::snapshot::download_snapshots", "objects in the store"],
  tech="stateful round-trip property testing against an in-memory object store with fault and crash injection on a paused clock",
  note="The store lists up to a thousand objects at a time; two backups of one shard within the same second are not generated.")

P(id="C42", bin="h_boot", title="A node filled by replication holds what its peers held, or holds nothing",
  statement="Bootstrapping from peers' snapshots that reports success leaves each data shard with exactly the messages, chain events, names and indexes its source held at one snapshot, the same state root, and the chunk to go on from: later blocks commit with the source's roots. Failed answers, kills at any request, limits of a write session and a peer whose snapshot has moved on only cost time: the next attempt resumes or starts over and succeeds. Entries omitted, altered, unsigned, invented or under another key or root are refused, and nothing reaches the node's directory before all of it was verified. A peer offers exactly the snapshots due by interval and age, each with the entries, counts, account roots and chunk of its block, however the node has gone on since, in pages that cover every entry once.",
  over=["histories", "fault_sequences", "crash_points", "schedules", "configurations"],
  quant="all histories of one or two shards, page sizes, peers, write sessions and parallelism; all failures, kills and restarts; all single falsifications by a peer; all histories of commits, restarts and reads of the snapshots",
  why="The tests fill a node from one honest peer with a handful of messages; resuming, moving snapshots, partial pages and falsified entries show only in combination.",
  files=["src/bootstrap/replication/service.rs", "src/bootstrap/replication/rpc_client.rs", "src/network/replication/replicator.rs", "src/network/replication/replication_stores.rs", "src/network/replication/replication_server.rs", "src/storage/store/node_local_state.rs"],
  mech=[("bootstrap_using_replication, start_shard_replication_batch, verify_shard_roots", "src/bootstrap/replication/service.rs"), ("RpcClientsManager", "src/bootstrap/replication/rpc_client.rs"), ("Replicator::messages_for_trie_prefix, handle_post_commit_message", "src/network/replication/replicator.rs"), ("ReplicationStores", "src/network/replication/replication_stores.rs")],
  observe=["bootstrap::replication::service::ReplicatorBootstrap", "network::replication::replication_server::ReplicationServer", "the filled node's database and engine"],
  tech="stateful differential property testing over loopback gRPC with generated failures, kills and falsified pages; model-based testing of the offered snapshots",
  note="Histories whose source rows no other node could rebuild (the C19 and C21 findings) are left out; shard 0 is only caught up, not compared.")

P(id="C43", bin="h_chan", title="The channel, follow and signer reads answer what the blocks made of them",
  statement="Through the API, a channel's owner, description, pin, members, moderations, and the channels of an address, an owner and a member are exactly what the accepted registrations, verifications and channel messages leave, with 0 for an owner nobody has verified; an unregistered channel is not found, a malformed id, fid or page size refused. A fid follows a channel exactly while a like of that channel's one canonical name by it stands, on whatever shard it lives, and each list, count and single answer says so with that like's time. A signer is returned exactly while it is active, on chain or by a key message, with its origin, scopes, life and nonces. Every list, forward or backward and in pages of any size, gives each row once, in order, and ends.",
  over=["histories", "inputs"], quant="all histories of channel, key, signer and reaction messages over one to three shards; all requests and page sizes",
  why="Tests read back one or two rows; indexes that drift, pages that repeat or skip, and answers joined from several shards show only over histories and page sizes.",
  files=["src/network/server.rs", "src/storage/store/account/reaction_store.rs", "src/storage/store/account/channel_store.rs", "src/storage/store/account/onchain_event_store.rs", "src/storage/store/account/key_add_store.rs"],
  mech=[("get_channel_*, is_following_channel, get_signer, get_signers_by_fid", "src/network/server.rs"), ("build_follow_index, delete_follow_index", "src/storage/store/account/reaction_store.rs"), ("members_by_channel, memberships_by_fid, moderations_by_channel", "src/storage/store/account/channel_store.rs"), ("get_channel_keys_for_owner_addresses", "src/storage/store/account/onchain_event_store.rs")],
  observe=["network::server::MyHubService"],
  tech="model-based property testing of the API over generated block histories; the follow index against the reactions that stand", note="In-process calls, without the transport.")

P(id="C44", bin="h_jobs", title="Pruning takes exactly the blocks and events older than the retention",
  statement="A prune of blocks or of events removes every one below the first block that is not older than the retention, on each shard by that shard's own block times, and nothing else: no other row changes, and without such a block nothing goes. That holds for whatever was pruned before, with any retentions, page sizes and interruptions; an interrupted prune has removed only the oldest and does not stand in the way of the next. The node still reads what is left, goes on from its tip, through restarts, and commits every later block with the root of a node that never pruned. The scheduled jobs do this with their own retention for all shards, blocks only once the node is in sync.",
  over=["histories", "configurations", "fault_sequences"], quant="all histories of blocks at any pace, prunes with any cutoff, page size and failing write, and restarts; all ages, retentions and job sets",
  why="Tests prune one store once; two prunes with different retentions, equal timestamps, a failing page and a node that carries on afterwards are never combined.",
  files=["src/storage/store/stores.rs", "src/storage/store/shard.rs", "src/storage/store/block.rs", "src/storage/store/account/event.rs", "src/storage/db/rocksdb.rs", "src/jobs/block_pruning.rs", "src/jobs/event_pruning.rs"],
  mech=[("prune_shard_chunks_until, prune_events_until", "src/storage/store/stores.rs"), ("get_next_height_by_timestamp, prune_until", "src/storage/store/shard.rs"), ("get_next_height_by_timestamp, prune_until", "src/storage/store/block.rs"), ("block_pruning_job", "src/jobs/block_pruning.rs"), ("event_pruning_job", "src/jobs/event_pruning.rs")],
  observe=["storage::store::stores::Stores", "storage::store::engine::ShardEngine", "jobs::block_pruning::block_pruning_job", "jobs::event_pruning::event_pruning_job"],
  tech="stateful differential property testing against an engine that never prunes, with injected write failures; scheduled jobs over generated ages", note="The jobs run on the real clock for a few seconds per case.")

P(id="C45", bin="h_jobs", title="Migrations end where a node that never needed them is, however interrupted",
  statement="A database with the older index rows for verified addresses and names, upgraded while it goes on committing blocks, ends with the rows of a node that never had them: each verification found by its address and verifier, no older row left, each name found by the fid that holds it and by no other. The migration may die before any of its writes, start again any number of times and have a block committed between any two of its steps; it counts as done only when it is, then never runs again, and later blocks commit with the same roots. The move of chain events to shard 0 hands the mempool each event shard 0 does not have exactly once per run, waits while the mempool is full, and takes up again where it was interrupted until all were sent.",
  over=["histories", "crash_points", "schedules"], quant="all histories of verifications, names and registrations, all older states of the index rows, deaths at any write, and blocks before, between and during the runs",
  why="Tests migrate two hand-made rows in one go; what a crash, a restart or a block beside the migration does to the rows is not tested.",
  files=["src/storage/store/migrations/mod.rs", "src/storage/store/migrations/m1_fix_fname_index.rs", "src/storage/store/migrations/m2_verification_by_address_index.rs", "src/storage/store/account/onchain_event_store.rs", "src/jobs/migrate_onchain_events.rs"],
  mech=[("MigrationRunner::run_pending_migrations", "src/storage/store/migrations/mod.rs"), ("M1FixFnameSecondaryIndex::run", "src/storage/store/migrations/m1_fix_fname_index.rs"), ("M2VerificationByAddressIndex::run", "src/storage/store/migrations/m2_verification_by_address_index.rs"), ("FIDIterator", "src/storage/store/account/onchain_event_store.rs"), ("migrate_onchain_events", "src/jobs/migrate_onchain_events.rs")],
  observe=["storage::store::migrations::MigrationRunner", "jobs::migrate_onchain_events::migrate_onchain_events"],
  tech="differential property testing against a node that never migrated, with injected deaths and blocks interleaved at the migration's transactions and writes", note="Names of a fid that is given several, and renewed names (a C22 finding), are left out of the by-fid comparison.")

P(id="C25", bin="h_crash", title="A node killed while it commits a block comes back with all of it or nothing",
  statement="Whenever the process dies between two writes of committing a block, on shard 0 or a data shard, the node started again from its files is either at the height before the block with exactly the state, events and sync trie of that height, or at the block's height with exactly those. Deaths during the start itself change nothing. The block then validates and commits again like on a node that never died, and every later block leads to the same rows, root and height.",
  over=["crash_points", "histories"], quant="all histories of blocks of user messages, chain events, names and block events, the node proposing, validating or only committing, killed before any write of any commit and of the starts after it",
  why="Tests restart an engine between commits, never within one, so state and block written apart go unnoticed.",
  files=["src/storage/store/engine.rs", "src/storage/store/block_engine.rs", "src/storage/store/shard.rs", "src/storage/store/block.rs", "src/storage/trie/merkle_trie.rs", "src/storage/db/rocksdb.rs"],
  mech=[("commit_and_emit_events", "src/storage/store/engine.rs"), ("BlockEngine::commit_block", "src/storage/store/block_engine.rs"), ("MerkleTrie::initialize", "src/storage/trie/merkle_trie.rs"), ("RocksDB::commit", "src/storage/db/rocksdb.rs")],
  observe=["storage::store::engine::ShardEngine", "storage::store::block_engine::BlockEngine", "storage::db::RocksDB"],
  tech="stateful differential property testing against a node that never died, with the process cut off at generated writes and restarted from its files", note="A write batch or transaction is atomic and durable, as RocksDB documents; the stand-in database gives that.")
