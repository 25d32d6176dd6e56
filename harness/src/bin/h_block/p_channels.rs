//! C39: channels.
use crate::frame::{Obs, Prop, R};
use crate::run::*;
use crate::sim::*;

const MIX: Mix = Mix { keys: 2, channels: 16, lends: 1, vers: 5, casts: 1, blocks: (2, 7), per_block: (2, 12) };
fn rule(c: &Case, o: &mut Obs) -> R {
    let mut net = Net::new(c.cap);
    for b in blocks(c) {
        let d = net.step(&b, o)?;
        let s = net.a.e.stores();
        check_registry(&s.onchain_event_store, &net.a.db, &net.model)?;
        check_channels(
            &ChannelStores {
                update: &s.channel_update_store,
                member: &s.channel_member_store,
                pin: &s.channel_pin_store,
                moderate: &s.channel_moderate_store,
            },
            &net.model,
        )?;
        for (s, f) in &d.fates {
            if let Kind::Member { act, .. } = s.kind {
                o.tag(format!("member act {act} {f:?}"));
            }
        }
        if d.merged.iter().any(|s| matches!(s.kind, Kind::Member { .. } | Kind::Update { .. } | Kind::Pin { .. } | Kind::Moderate { .. })) {
            o.nt();
        }
    }
    check_all(&mut net.a, &net.model)?;
    check_all(&mut net.c, &net.model)
}
pub fn c39(p: &mut Prop) {
    p.sub("rule", "a channel message merged", 6_000, 120_000, || case(MIX, true), rule);
}
