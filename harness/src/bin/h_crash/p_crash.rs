//! C25: a node is killed at any write of a commit; started again it has all of the block or none of it.
use crate::frame::{Obs, Prop, R};
use crate::gens::*;
use crate::sim::{self, Zero};
use crate::world::{self, *};
use proptest::prelude::*;
use rocksdb::shim::Guard;
use serde::{Deserialize, Serialize};
use snapchain::core::util::FarcasterTime;
use snapchain::proto;
use snapchain::storage::db::PageOptions;
use snapchain::storage::store::block_engine_test_helpers as bh;
use snapchain::storage::store::engine::ShardStateChange;
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};

type Rows = BTreeMap<Vec<u8>, Vec<u8>>;

/// What happens around one block on the node that crashes.
#[derive(Debug, Clone, Copy, Serialize, Deserialize)]
pub struct Step {
    /// validates the proposal first, so that the commit finds it done
    validated: bool,
    /// writes of the commit that reach the disk before the process dies; it lives if there are no more
    kill: Option<u8>,
    /// likewise for each start that follows
    starts: [Option<u8>; 2],
    /// after the restart the block is validated again before it is committed
    again: bool,
}
fn step() -> BoxedStrategy<Step> {
    let kill = || proptest::option::weighted(0.6, prop_oneof![2 => Just(0u8), 3 => 1u8..4]);
    (any::<bool>(), kill(), [kill(), kill()], any::<bool>())
        .prop_map(|(validated, kill, starts, again)| Step { validated, kill, starts, again })
        .boxed()
}
fn steps() -> BoxedStrategy<Vec<Step>> {
    pvec(step(), 1..9).boxed()
}
/// Runs `f` with so many writes under `dir` allowed. True if it was cut short.
fn until(dir: &std::path::Path, allow: Option<u8>, f: impl FnOnce()) -> bool {
    let Some(n) = allow else {
        f();
        return false;
    };
    let g = Guard::new(dir, Some(n as u64));
    let r = catch_unwind(AssertUnwindSafe(f));
    let cut = g.seen() > n as u64;
    drop(g);
    if let (Err(e), false) = (r, cut) {
        std::panic::resume_unwind(e)
    }
    cut
}

// ---- a data shard ----
fn received(c: &ShardStateChange) -> ShardStateChange {
    ShardStateChange { events: vec![], max_block_event_seqnum: 0, ..c.clone() }
}
fn data_shard(c: &(History, Vec<Step>), o: &mut Obs) -> R {
    let rt = rt();
    let mut a = Node::new(&rt);
    let mut n = Node::new(&rt);
    ensure!(world::diff(&a.dump(), &n.dump()).is_none(), "two new nodes differ");
    let blocks: Vec<Vec<Op>> = std::iter::once(setup_ops(c.0.setup)).chain(c.0.blocks.iter().cloned()).collect();
    let dir = n.dir().to_path_buf();
    for (i, ops) in blocks.iter().enumerate() {
        let s = c.1[i % c.1.len()];
        let before = a.dump();
        let msgs = mempool(ops, a.last_seq());
        let (chunk, change) = a.block(&rt, msgs, block_ts(i));
        let after = a.dump();
        n.start_round();
        if s.validated {
            ensure!(n.validate(&received(&change)), "block {i} is refused");
        }
        let killed = until(&dir, s.kill, || n.commit(&rt, &chunk));
        if killed {
            for (k, allow) in s.starts.iter().chain(&[None]).enumerate() {
                // the operating system closes the files of a killed process
                if !until(&dir, *allow, || n.reopen(&rt)) {
                    break;
                }
                o.tag(format!("start {k} killed"));
            }
            let now = n.dump();
            let h = n.height();
            ensure!(h == i as u64 || h == i as u64 + 1, "killed committing block {} the node is at height {h}", i + 1);
            let (want, what) = if h == i as u64 { (&before, "before") } else { (&after, "after") };
            if let Some(d) = world::diff(want, &now) {
                return Err(format!(
                    "killed after {:?} writes of committing block {} and started again, the node is at height {h} but its state is not the one {what} that block: {d}",
                    s.kill, i + 1
                ));
            }
            o.label(if h == i as u64 { "block lost" } else { "block kept" });
            if h == i as u64 {
                if before != after {
                    o.nt();
                }
                n.start_round();
                if s.again {
                    ensure!(n.validate(&received(&change)), "block {} is refused after the crash", i + 1);
                }
                n.commit(&rt, &chunk);
            }
        }
        ensure!(n.root() == chunk.header.as_ref().unwrap().shard_root, "root after block {}", i + 1);
        ensure_eq!(n.height(), i as u64 + 1, "height");
        if let Some(d) = world::diff(&after, &n.dump()) {
            return Err(format!("after block {} (killed: {killed}): {d}", i + 1));
        }
    }
    Ok(())
}

// ---- shard 0 ----
const MIX: sim::Mix = sim::Mix { keys: 6, channels: 6, lends: 5, vers: 5, casts: 0, blocks: (1, 6), per_block: (1, 6) };
fn dump0(z: &Zero) -> Rows {
    let mut out = BTreeMap::new();
    z.db
        .for_each_iterator_by_prefix_paged(None, None, &PageOptions::default(), |k, v| {
            out.insert(k.to_vec(), canonical_row(k, v));
            Ok(false)
        })
        .unwrap();
    out
}
fn shard_zero(c: &(sim::Case, Vec<Step>), o: &mut Obs) -> R {
    let mut a = Zero::new(c.0.cap);
    let mut n = Zero::new(c.0.cap);
    let dir = n.dir().to_path_buf();
    for (i, b) in sim::blocks(&c.0).iter().enumerate() {
        let s = c.1[i % c.1.len()];
        let before = dump0(&a);
        let h: proto::Height = a.e.get_confirmed_height().increment();
        let change = a.e.propose_state_change(b.mempool.clone(), h, Some(FarcasterTime::new(b.ts as u64)));
        let block = bh::state_change_to_block(h.block_number, &change);
        a.e.commit_block(&block);
        let after = dump0(&a);
        if s.validated {
            ensure!(n.e.validate_state_change(&change, h), "block {} is refused", h.block_number);
        }
        let killed = until(&dir, s.kill, || n.e.commit_block(&block));
        if killed {
            for (k, allow) in s.starts.iter().chain(&[None]).enumerate() {
                if !until(&dir, *allow, || n.reopen()) {
                    break;
                }
                o.tag(format!("start {k} killed"));
            }
            let at = n.e.get_confirmed_height().block_number;
            ensure!(at == h.block_number || at + 1 == h.block_number, "killed committing block {} the node is at height {at}", h.block_number);
            let lost = at != h.block_number;
            if let Some(d) = world::diff(if lost { &before } else { &after }, &dump0(&n)) {
                return Err(format!(
                    "killed after {:?} writes of committing block {} and started again, the node is at height {at} but its state is not the one {} that block: {d}",
                    s.kill, h.block_number, if lost { "before" } else { "after" }
                ));
            }
            o.label(if lost { "block lost" } else { "block kept" });
            if lost {
                if !change.events.is_empty() {
                    o.nt();
                }
                if s.again {
                    ensure!(n.e.validate_state_change(&change, h), "block {} is refused after the crash", h.block_number);
                }
                n.e.commit_block(&block);
            }
        }
        ensure_eq!(n.e.trie_root_hash(), change.new_state_root, "root after block {}", h.block_number);
        ensure_eq!(n.e.get_confirmed_height(), h, "height");
        if let Some(d) = world::diff(&after, &dump0(&n)) {
            return Err(format!("after block {} (killed: {killed}): {d}", h.block_number));
        }
    }
    Ok(())
}

pub fn c25(p: &mut Prop) {
    p.assume("a write batch or transaction of the database is atomic and durable, as RocksDB documents; the process dies between writes");
    p.sub("data-shard", "a block that changes the state was lost in a crash", 1_500, 40_000, || (history(FULL), steps()).boxed(), data_shard);
    p.sub("shard-zero", "a block with events was lost in a crash", 1_500, 30_000, || (sim::case(MIX, true), steps()).boxed(), shard_zero);
}
