//! C23: who may sign for a fid.
use crate::frame::{Obs, Prop, R};
use crate::run::*;
use crate::shards::Shards;
use crate::sim::*;

const MIX: Mix = Mix { keys: 16, channels: 1, lends: 4, vers: 8, casts: 1, blocks: (3, 8), per_block: (1, 10) };
const CASTS: Mix = Mix { keys: 8, channels: 1, lends: 1, vers: 2, casts: 20, blocks: (3, 8), per_block: (1, 8) };

fn zero(c: &Case, o: &mut Obs) -> R {
    let mut net = Net::new(c.cap);
    net.keys = true;
    for b in blocks(c) {
        let d = net.step(&b, o)?;
        let s = net.a.e.stores();
        let fids: Vec<u64> = (0..PEOPLE).map(fid).collect();
        check_keys(&net.a.db, &s.onchain_event_store, &net.model, &fids, true)?;
        if d.merged.iter().any(|s| matches!(s.kind, Kind::KeyAdd { .. } | Kind::KeyRm { .. })) {
            o.nt();
        }
        for (s, f) in &d.fates {
            match (&s.kind, f) {
                (Kind::KeyAdd { .. }, f) => o.tag(format!("key add {f:?}")),
                (Kind::KeyRm { own, .. }, f) => o.tag(format!("key remove own={own} {f:?}")),
                (_, f) if net.model.keys.keys().any(|k| k.1 == s.m.signer) => o.tag(format!("signed by a key: {f:?}")),
                _ => {}
            }
        }
    }
    check_all(&mut net.a, &net.model)?;
    check_all(&mut net.c, &net.model)
}
/// Casts on the data shards that hold the fids.
fn home(c: &Case, o: &mut Obs) -> R {
    let mut net = Net::new(None);
    let mut sh = Shards::new(2, None, true);
    for b in blocks(c) {
        let d = net.step(&b, o)?;
        sh.feed(&net, &b, &d, o)?;
        for (s, m) in &sh.at {
            let fids: Vec<u64> = (0..PEOPLE).map(fid).collect();
            check_keys(&s.db, &s.e.stores.onchain_event_store, m, &fids, true).map_err(|e| format!("shard {}: {e}", s.shard))?;
        }
        if b.casts.iter().any(|c| net.model.keys.contains_key(&(c.fid(), c.signer.clone()))) {
            o.nt();
        }
    }
    sh.check(&net)
}
pub fn c23(p: &mut Prop) {
    p.sub("authority", "a key was added or removed", 6_000, 120_000, || case(MIX, false), zero);
    p.sub("home", "a gasless key signed a cast", 3_000, 60_000, || case(CASTS, false), home);
}
