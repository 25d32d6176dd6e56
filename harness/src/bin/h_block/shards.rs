//! Data shards fed with what shard 0 makes, one event to a block.
use crate::frame::{Obs, R};
use crate::run::*;
use crate::sim::*;
use snapchain::proto;
use snapchain::storage::store::account::CastStore;
use snapchain::storage::store::mempool_poller::MempoolMessage;

pub struct Shards {
    pub rt: tokio::runtime::Runtime,
    pub at: Vec<(Shard, Model)>,
    /// Rents reach every shard. A shard that knows of a fid's loans but not of its rent (every shard
    /// but its own) counts fewer than no units: known, see C22's lent-units-expired.
    pub rents: bool,
}
impl Shards {
    pub fn new(n: u32, cap: Option<u32>, rents: bool) -> Shards {
        let rt = rt();
        let at = (1..=n).map(|i| (Shard::new(&rt, i, cap), Model { cap, ..Default::default() })).collect();
        Shards { rt, at, rents }
    }
    /// Takes a block of shard 0 to every data shard, then the casts.
    pub fn feed(&mut self, net: &Net, blk: &Block, d: &Done, o: &mut Obs) -> R {
        let n = self.at.len() as u32;
        for (s, m) in &mut self.at {
            let home: Vec<_> = blk.chain.iter().filter(|e| home(e.fid, n) == s.shard || self.rents && e.r#type == proto::OnChainEventType::EventTypeStorageRent as i32).cloned().collect();
            if !home.is_empty() {
                s.block(&self.rt, home.iter().cloned().map(MempoolMessage::OnchainEvent).collect(), blk.ts);
                for e in &home {
                    m.chain_event(e);
                }
            }
            for e in &d.change.events {
                s.block(&self.rt, vec![MempoolMessage::BlockEvent { for_shard: s.shard, message: e.clone() }], blk.ts);
            }
            for x in &d.merged {
                m.replay(x);
            }
            m.lends = net.model.lends.clone();
            let casts: Vec<proto::Message> = blk.casts.iter().filter(|c| self::home(c.fid(), n) == s.shard).cloned().collect();
            if casts.is_empty() {
                continue;
            }
            s.block(&self.rt, casts.iter().cloned().map(MempoolMessage::UserMessage).collect(), blk.ts);
            // a data shard takes a fid's messages by their time
            let mut casts = casts;
            casts.sort_by_key(|c| data(c).timestamp);
            for c in &casts {
                let want = m.cast(c, blk.ts);
                let got = CastStore::get_cast_add(&s.e.stores.cast_store, c.fid(), c.hash.clone()).map_err(|e| e.to_string())?.is_some();
                let chain = m.signers.contains(&(c.fid(), c.signer.clone()));
                ensure_eq!(got, want, "whether shard {} takes a cast of {} at {} in a block at {} (signer on chain: {chain})", s.shard, c.fid(), data(c).timestamp, blk.ts);
                o.tag(format!("cast {} by a {} signer", if got { "taken" } else { "refused" }, if chain { "chain" } else { "gasless" }));
            }
        }
        Ok(())
    }
    /// Lends, verifications and channels as on shard 0; keys of the fids at home as well.
    pub fn check(&self, net: &Net) -> R {
        let fids: Vec<u64> = (0..PEOPLE).map(fid).collect();
        for (s, m) in &self.at {
            let st = &s.e.stores;
            let on = |e: String| format!("shard {}: {e}", s.shard);
            check_lends(&st.storage_lend_store, &net.model).map_err(on)?;
            let n = self.at.len() as u32;
            let here: Vec<u64> = fids.iter().copied().filter(|f| self.rents || home(*f, n) == s.shard).collect();
            check_vers(&st.verification_store, &net.model, &here).map_err(on)?;
            check_registry(&st.onchain_event_store, &s.db, &net.model).map_err(on)?;
            check_channels(
                &ChannelStores {
                    update: &st.channel_update_store,
                    member: &st.channel_member_store,
                    pin: &st.channel_pin_store,
                    moderate: &st.channel_moderate_store,
                },
                &net.model,
            )
            .map_err(on)?;
            check_keys(&s.db, &st.onchain_event_store, m, &fids, true).map_err(on)?;
            for f in fids.iter().filter(|f| home(**f, n) == s.shard) {
                let ours: Vec<_> = m.keys.iter().filter(|k| k.0 .0 == *f).map(|k| (k.0, &k.1.m.hash)).collect();
                let zero: Vec<_> = net.model.keys.iter().filter(|k| k.0 .0 == *f).map(|k| (k.0, &k.1.m.hash)).collect();
                ensure_eq!(ours, zero, "keys of {f} at home and on shard 0");
                ensure_eq!(m.user_nonce.get(f), net.model.user_nonce.get(f), "nonce of {f} at home and on shard 0");
            }
        }
        Ok(())
    }
}
