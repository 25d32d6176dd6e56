ORACLE = {
 "C01": "messages of every body type with boundary-biased fields (lengths, UTF-8 widths, counts, positions, URLs, timestamps) and envelope faults, under every engine version and network, valid by construction and then edited; the oracle is an independent statement of every validation rule, and the verdict (accepted or refused) must agree.",
 "C02": "valid signed messages with a flipped bit, extra bytes, foreign signers, small-order keys, non-canonical points and S shifted by the group order: a message is accepted only with the one signature of its signer over its bytes.",
 "C03": "custody signatures, signed key requests, username transfers and contract signatures over independently computed EIP-712 digests and ABI calls; every authentic one passes, every one with a changed field or signature fails; the contract's node is scripted and its calls compared byte for byte.",
 "C04": "canonical channel/asset ids and up to two edits of them: exactly one spelling is accepted per asset, and parsing then printing gives it back.",
 "C05": "clock values, durations and heights at their extremes against 128-bit arithmetic.",
 "C06": "the version schedule against an independent table; around every activation; features never switch off.",
 "C07": "random subsets of all settings over file, environment and arguments; each resulting setting is compared with the layer that ranks first; errors never print the private key.",
 "C08": "signature lists over a certificate in any order, with outsiders, repeats and votes for other values; accepted exactly when distinct members holding more than two thirds signed this very value.",
 "C09": "validator schedules against a sorted list model; wire round trips; hostile bytes must end in a value or an error; histories of pending proposals against a map.",
 "C10": "each row key against the documented layout: keys of different facts differ, order by time and owner is byte order, prefixes separate message sets.",
 "C11": "keys put and taken for an event against the rows it stands for; different facts give different keys; paged reads of a subtree from arbitrary tokens end.",
 "C12": "histories of inserts, deletes, commits, rollbacks, reloads and compactions over many roots against an ordered set and an independently hashed tree.",
 "C13": "histories of events through the generator; ids grow strictly, pack height and sequence, and full blocks are refused rather than wrapped.",
 "C14": "rent and lend events of every generation against integer arithmetic per generation and expiry.",
 "C15": "the full authority table (7x4x5x2x3x2) and folds of channel messages against an independent fold.",
 "C16": "byte-string order and increment, winner rules of sets, and replay in any order: the winner does not depend on the order.",
 "C17": "scope lists against set membership for every message type.",
 "C18": "two or more engines execute the same generated blocks at other times, with restarts, re-proposals and checks in between; rows, root, events, ids and block hashes are byte-equal.",
 "C19": "blocks of user messages, chain events and username transfers against a model of each kind's set rule (last write wins, removes beat adds, compaction, revocation), comparing live rows, events and indexes.",
 "C20": "the same blocks with interruptions (simulations, abandoned proposals, invalid proposals, restarts) against the undisturbed run; and every event promises what the store then holds.",
 "C21": "the trie must hold exactly the keys of what is live; a tree built afresh from the rows has the same root.",
 "C22": "per fid and kind, the units held, lent and borrowed at each generation's rate, with a movable clock; pruned messages must be the oldest and no more than needed.",
 "C23": "shard-0 blocks with key messages carrying one of 14 flaws (wrong signer, digest, nonce, expired, foreign app …), re-adds, removals by custody or key, chain signers; every fate and row is predicted by the model in `sim.rs`; the same events then reach two data shards, where casts signed by every key are tried.",
 "C26": "real engines execute blocks (one or two shards); the events they emit are folded into expected live sets; every read is paged at every page size in both directions and compared.",
 "C27": "requests are generated from a table of endpoints written from the documentation: aliases, orders, escapings, omissions; the node is a recording stand-in whose received request must equal the expected one.",
 "C28": "replies of every RPC are generated field by field; the answer is compared with JSON built independently.",
 "C29": "views and topologies with independent rendering of text and JSON.",
 "C30": "scripted peers that answer, fail, stall or vanish, on tokio's paused clock.",
 "C31": "the real `fc` binary is spawned against a recording node on loopback with generated argument lists, prompts and refusals; what it posts is checked with the repository's own validator and an independent expectation.",
 "C32": "validator files pulled by the binary from a scripted server; counters, slots and the file after a crash at every write.",
 "C33": "histories of submissions, pulls, merges and time against a model of queue order, limits, duplicates and rate budgets.",
 "C34": "nodes feed each other blocks that are lost, doubled, damaged or late; what is passed on is each block once and in order.",
 "C35": "a scripted JSON-RPC node with generated logs, failing or killed at generated requests; the requests the follower hands on are compared with an independent log decoder: nothing lost, order kept.",
 "C36": "a scripted username registry with the same treatment.",
 "C37": "user lists and headers, in sequences that include cached answers; the mempool and gossip channels are watched.",
 "C38": "an engine with generated history behind the service, scripted chains, registry and mempool; the verdict must equal the proposer's verdict and the scripted facts.",
 "C39": "registry events (register, renew, transfer, with wrong labels and out of order), verifications and all channel messages; every merge is predicted, and every store read, count, index and page is compared with the model.",
 "C42": "one or two real engines play a history and serve their snapshots over loopback through peers that fail, stall in small pages, die with the client at the n-th request, move on, or falsify one of seventeen things; the filled directory is compared row by row, root and chunk with the source at the snapshot and then commits the source's later chunks; what is offered is compared with a model after every commit and restart.",
 "C43": "two data shards fed by shard 0 (a shard each of up to three for follows) and the whole hub service over them; every read, filter, direction and five page sizes against the model's channels, members, owners, keys and nonces, the follows against the likes the reaction store lists and against a second node that only followed.",
 "C25": "a twin commits the same blocks undisturbed; the other node's database refuses every write after a generated number, the engine is thrown away and started from the files, and its rows must be the twin's of one height or the other.",
 "C44": "the same blocks, at generated times, go to a node that prunes and one that does not; what each prune must remove follows from the block times alone; the jobs run under the real scheduler over stores with blocks aged around the ends of the retentions.",
 "C45": "a node's index rows are put into the older form, the real runner migrates with write failures, restarts and blocks committed at chosen transactions and writes, and every row is compared with a twin's; the move of events talks to a scripted mempool.",
 "C41": "an object store in memory, spoken to over loopback in the code's own runtime with a paused clock; requests fail by status, dropped connection, lost answer, cut body or the death of the asker; after each step every object and every downloaded file is compared with the model of what was published last.",
 "C40": "one engine proposes, others validate and commit, restart, propose and drop in between; tampered proposals (16 kinds of change) must be refused; rows are compared byte for byte; one to three data shards take the events at their own pace, with restarts.",
}
FALSE_ALARMS = [
 "C42: the first oracle compared sources whose rows were already inconsistent by the C19/C21 findings (links their compaction should have swept, messages without selectors, renewed names); such histories are left out, and the index from a fid to its one name is compared only where the source has it.",
 "C27: the table first took its enum spellings from the documentation alone; the parser's accepted numeric forms are documented elsewhere. The table was widened.",
 "C18: trie node rows differ between equal nodes (children are serialised in HashMap order). Rows of the trie are compared by root, not bytes.",
 "C39: the first model refused a channel message older than the one in its slot; by design (documented in the proto and in channel_store.rs) consensus order decides. The model follows.",
 "C40: an on-chain signer added between a KEY_ADD's merge at shard 0 and its replay on a data shard diverges; the generator hands chain events to all shards before. A duplicated rent event inside a block counts twice in that block's slot only; not generated.",
 "C23/C40: a data shard that is not the lender's home underflows in StorageSlot::sub (same root as the C22 finding lent-units-expired); rents are fed to every shard in these checks.",
 "C26: the oracle wanted signers of all fids in key order over shards; the order holds within a shard only. The statement says so.",
 "C38: messages of fids without active storage get no verdict from the proposer and are left out.",
]
CANDIDATES = [
 "Promoting a replicated database renames one shard's directory after the other into place: a crash between two renames leaves a node with some of its shards.",
 "Replication does not carry gasless-key messages (documented in replicator.rs): a node filled from a data shard with such messages fails.",
 "A fid that owns two fnames and gives one up is left without the index row to the other (FNameUserNameProofByFid).",
 "A block's events are committed in `db.commit`, the chunk in a separate write (`put_shard_chunk`): a crash between leaves a state one block ahead of its chunk.",
 "A stale fname transfer revokes its sender's username even when the sender holds another name by then.",
 "Block events of several fids in one shard-0 block are grouped in a HashMap; a data shard that gets them in one block processes them out of sequence and drops the earlier numbers.",
 "`get_fids` gives short pages and swallows errors; the GITHUB user-data rule accepts any Unicode digit; a verification's chain id is cut to 16 bits.",
 "`validate_protocol_version` and read-node certificates: a certificate is not bound to the content of the decided value that travels with it.",
 "A KEY_REMOVE leaves its KEY_ADD's trie key in the tree; a revoked lend of 0 units can be replayed.",
 "Re-verifying an address revokes the primary address set on it.",
 "A fid that holds two fnames loses its by-fid row when one of them is transferred.",
 "The empty trie's `get_all_values` returns one empty key; a compacted leaf keeps a stale child hash in memory.",
 "HTTP list endpoints `unwrap()` on messages that cannot be shown; `/v1/events` has no page token.",
 "The mesh diagnostics codec cuts a message above 8 MiB.",
 "`fc --help` shows secrets that come from the environment (clap default); ctrl-C in the middle of a live-at submission is ignored.",
 "A lagging block receiver panics (`Lagged` unwrap); the sync loop spins on a block reply without events.",
 "Connectors: a closed broadcast channel makes a `biased` select spin; a log whose block look-up returns null is dropped; `retry_fid` leaves out AdminReset and ChangeRecoveryAddress; `on_chain_to_ingest_delay` can underflow.",
 "`get_info`'s block delay of shard 0 is not saturating; `get_id_registry_on_chain_event_by_address` answers from a cache; there is a gap between replay and live events in `subscribe`.",
 "Admin `submit_*` calls answer OK when the mempool refuses; bulk simulation shares one batch across fids; a malformed auth configuration leaves calls open.",
]
CAUGHT = {}
