//! C04 channel names, C05 clocks and heights, C06 protocol version schedule, C07 configuration layers.
use crate::frame::*;
use crate::gens::*;
use alloy_primitives::Address;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::Value;
use snapchain::core::channel_uri as cu;
use snapchain::core::util as ut;
use snapchain::proto::{self, FarcasterNetwork, Height};
use snapchain::version::version::{EngineVersion, ProtocolFeature as PF};
use std::collections::BTreeMap;
use std::sync::Mutex;

// ---- C04 -----------------------------------------------------------------------------------------
/// Decimal digits of a big-endian number, by hand.
fn decimal(b: &[u8]) -> String {
    let mut digits = vec![0u8];
    for byte in b {
        let mut carry = *byte as u32;
        for d in digits.iter_mut() {
            let v = *d as u32 * 256 + carry;
            *d = (v % 10) as u8;
            carry = v / 10;
        }
        while carry > 0 {
            digits.push((carry % 10) as u8);
            carry /= 10;
        }
    }
    digits.iter().rev().map(|d| (b'0' + d) as char).collect()
}
/// EIP-55 by hand.
fn checksum(a: &[u8]) -> String {
    let h = hex::encode(a);
    let k = keccak(h.as_bytes());
    let mut s = String::from("0x");
    for (i, c) in h.chars().enumerate() {
        let n = (k[i / 2] >> (if i % 2 == 0 { 4 } else { 0 })) & 15;
        s.push(if n >= 8 { c.to_ascii_uppercase() } else { c });
    }
    s
}
fn canonical(chain: u64, addr: &[u8], id: &[u8]) -> String {
    format!("eip155:{}/erc721:{}/{}", chain, checksum(addr), decimal(id))
}
#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum UriMut {
    None,
    Upper(usize),
    Lower(usize),
    Insert(usize, char),
    Delete(usize),
    Replace(usize, char),
    Prefix(String),
    Suffix(String),
    LowerAddr,
    UpperAddr,
    LeadZero(bool),
    Plus(bool),
}
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct UriCase {
    chain: u64,
    addr: Vec<u8>,
    id: Vec<u8>,
    muts: Vec<UriMut>,
    raw: Option<String>,
}
fn edit(s: &str, m: &UriMut, chain: u64, addr: &[u8], id: &[u8]) -> String {
    let cs: Vec<char> = s.chars().collect();
    let at = |i: usize| i % (cs.len().max(1));
    let mut v = cs.clone();
    match m {
        UriMut::None => {}
        UriMut::Upper(i) => { if !v.is_empty() { let j = at(*i); v[j] = v[j].to_ascii_uppercase() } }
        UriMut::Lower(i) => { if !v.is_empty() { let j = at(*i); v[j] = v[j].to_ascii_lowercase() } }
        UriMut::Insert(i, c) => { let j = i % (cs.len() + 1); v.insert(j, *c) }
        UriMut::Delete(i) => { if !v.is_empty() { v.remove(at(*i)); } }
        UriMut::Replace(i, c) => { if !v.is_empty() { let j = at(*i); v[j] = *c } }
        UriMut::Prefix(p) => return format!("{p}{s}"),
        UriMut::Suffix(p) => return format!("{s}{p}"),
        UriMut::LowerAddr => return s.replace(&checksum(addr), &checksum(addr).to_lowercase()),
        UriMut::UpperAddr => return s.replace(&checksum(addr)[2..], &checksum(addr)[2..].to_uppercase()),
        UriMut::LeadZero(true) => return s.replace("eip155:", "eip155:0"),
        UriMut::LeadZero(false) => return format!("eip155:{}/erc721:{}/0{}", chain, checksum(addr), decimal(id)),
        UriMut::Plus(true) => return s.replace("eip155:", "eip155:+"),
        UriMut::Plus(false) => return format!("eip155:{}/erc721:{}/+{}", chain, checksum(addr), decimal(id)),
    }
    v.into_iter().collect()
}
/// Independent recogniser: what the string means, if it is the one spelling of something.
fn recognise(s: &str) -> Option<(u64, Vec<u8>, Vec<u8>)> {
    if s.len() > 256 {
        return None;
    }
    let rest = s.strip_prefix("eip155:")?;
    let (chain, rest) = rest.split_once('/')?;
    let rest = rest.strip_prefix("erc721:")?;
    let (addr, id) = rest.split_once('/')?;
    let digits = |t: &str| !t.is_empty() && t.bytes().all(|b| b.is_ascii_digit()) && (t == "0" || !t.starts_with('0'));
    if !digits(chain) || !digits(id) || id.len() > 78 {
        return None;
    }
    let chain: u64 = chain.parse().ok()?;
    let bytes = hex::decode(addr.strip_prefix("0x")?).ok()?;
    if bytes.len() != 20 || checksum(&bytes) != addr {
        return None;
    }
    let mut big = [0u8; 32];
    for d in id.bytes() {
        let mut carry = (d - b'0') as u32;
        for b in big.iter_mut().rev() {
            let v = *b as u32 * 10 + carry;
            *b = v as u8;
            carry = v >> 8;
        }
        if carry > 0 {
            return None;
        }
    }
    Some((chain, bytes, big.to_vec()))
}
fn check_uri(c: &UriCase, o: &mut Obs) -> R {
    let mut s = match &c.raw {
        Some(r) => r.clone(),
        None => canonical(c.chain, &c.addr, &c.id),
    };
    for m in &c.muts {
        s = edit(&s, m, c.chain, &c.addr, &c.id);
    }
    let want = recognise(&s);
    let got = cu::ChannelAssetId::parse(&s);
    match (&got, &want) {
        (Ok(g), Some((ch, a, id))) => {
            o.nt();
            o.label("canonical");
            ensure_eq!((g.chain_id, g.contract.to_vec(), g.channel_id.to_vec()), (*ch, a.clone(), id.clone()), "parsed value");
            ensure_eq!(g.canonical_string(), s, "canonical spelling of a parsed name");
        }
        (Err(_), None) => {
            o.label("rejected");
            if c.raw.is_none() {
                o.nt()
            }
        }
        _ => return Err(format!("{s:?}: got {got:?}, reference {want:?}")),
    }
    let regs = [
        cu::ChannelRegistrar { chain_id: c.chain, address: Address::from_slice(&c.addr) },
        cu::ChannelRegistrar { chain_id: c.chain ^ 1, address: Address::from_slice(&c.addr) },
        cu::ChannelRegistrar { chain_id: c.chain, address: Address::from_slice(&fill(20, 5)) },
    ];
    for r in &regs {
        let want = want
            .as_ref()
            .filter(|w| w.0 == r.chain_id && w.1 == r.address.as_slice())
            .map(|w| w.2.clone());
        ensure_eq!(cu::channel_id_for_follow_target(&s, r).map(|v| v.to_vec()), want.clone(), "follow target");
        o.label_if(want.is_some(), "followed");
    }
    let mut id = [0u8; 32];
    id.copy_from_slice(&c.id);
    let named = cu::ChannelAssetId::for_channel(&regs[0], id);
    ensure_eq!(named.canonical_string(), canonical(c.chain, &c.addr, &c.id), "name of a channel");
    ensure_eq!(cu::channel_id_for_follow_target(&named.canonical_string(), &regs[0]), Some(id), "round trip");
    for n in [0, 1, 2, 3] {
        let net = FarcasterNetwork::try_from(n).unwrap();
        let got = cu::channel_registrar_for_network(net).map(|r| (r.chain_id, hex::encode(r.address)));
        let want = if n < 2 { None } else { Some((11155111, "7dd80c661ded9bfc8d4440224a0b39b345a91be4".to_string())) };
        ensure_eq!(got, want, "registrar of {net:?}");
    }
    Ok(())
}
pub fn c04(p: &mut Prop) {
    let big = || prop_oneof![
        3 => any::<[u8; 32]>().prop_map(|a| a.to_vec()), 1 => Just(vec![0u8; 32]), 1 => Just(vec![255u8; 32]),
        2 => any::<u16>().prop_map(|n| u256(n as u64).to_vec()), 1 => any::<u64>().prop_map(|n| u256(n).to_vec()),
    ];
    let m = || {
        let ch = || prop_oneof!["[0-9]".prop_map(|s| s.chars().next().unwrap()), "[a-fA-F:/+ xX_-]".prop_map(|s| s.chars().next().unwrap()), any::<char>()];
        prop_oneof![
            1 => any::<usize>().prop_map(UriMut::Upper), 1 => any::<usize>().prop_map(UriMut::Lower),
            2 => (any::<usize>(), ch()).prop_map(|(a, b)| UriMut::Insert(a, b)),
            2 => any::<usize>().prop_map(UriMut::Delete),
            2 => (any::<usize>(), ch()).prop_map(|(a, b)| UriMut::Replace(a, b)),
            1 => prop_oneof![Just(" ".to_string()), Just("/".to_string()), Just("x:".to_string())].prop_map(UriMut::Prefix),
            1 => prop_oneof![Just(" ".to_string()), Just("/".to_string()), Just("0".to_string()), Just("\n".to_string()), Just("?a=b".to_string()), (0usize..200).prop_map(|n| "9".repeat(n))].prop_map(UriMut::Suffix),
            1 => Just(UriMut::LowerAddr), 1 => Just(UriMut::UpperAddr), 1 => any::<bool>().prop_map(UriMut::LeadZero), 1 => any::<bool>().prop_map(UriMut::Plus),
        ]
    };
    p.sub("uri", "canonical channel URIs and up to two edits of them (case, inserted, deleted or replaced characters, leading zeros, signs, affixes), plus arbitrary strings; non-trivial = derived from a canonical one",
        1_000_000, 4_000_000,
        move || (prop_oneof![3 => Just(11155111u64), 1 => Just(1u64), 1 => Just(0u64), 1 => Just(u64::MAX), 2 => any::<u64>()],
            prop_oneof![1 => Just(hex::decode("7dd80c661ded9bfc8d4440224a0b39b345a91be4").unwrap()), 2 => any::<[u8; 20]>().prop_map(|a| a.to_vec()), 1 => Just(vec![0u8; 20])],
            big(), prop_oneof![1 => Just(vec![]), 3 => pvec(m(), 1..3)], prop_oneof![12 => Just(None), 1 => "\\PC{0,40}".prop_map(Some), 1 => "eip155:[0-9+]{0,21}/erc721:0x[0-9a-fA-F]{38,42}/[0-9]{0,80}".prop_map(Some)])
            .prop_map(|(chain, addr, id, muts, raw)| UriCase { chain, addr, id, muts, raw }).boxed(),
        check_uri);
}

// ---- C05 -----------------------------------------------------------------------------------------
const EPOCH_MS: u64 = 1_609_459_200_000;
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct TimeCase {
    ms: u64,
    t: u64,
    d: u64,
    shard: (u32, u32),
    h: (u64, u64),
    n: u64,
}
fn check_time(c: &TimeCase, o: &mut Obs) -> R {
    use informalsystems_malachitebft_core_types::Height as _;
    let want = if c.ms < EPOCH_MS || (c.ms - EPOCH_MS) / 1000 > u32::MAX as u64 { None } else { Some((c.ms - EPOCH_MS) / 1000) };
    ensure_eq!(ut::to_farcaster_time(c.ms).ok(), want, "milliseconds {} to network time", c.ms);
    if let Some(s) = want {
        o.nt();
        let back = ut::from_farcaster_time(s);
        ensure!(back <= c.ms && c.ms - back < 1000, "{} came back as {back}", c.ms);
        ensure_eq!(ut::to_farcaster_time(back).ok(), Some(s), "round trip of {s}");
    }
    let t = ut::FarcasterTime::new(c.t);
    ensure_eq!(t.to_u64(), c.t, "network seconds");
    let v: u64 = t.clone().into();
    ensure_eq!(v, c.t, "network seconds (into)");
    ensure_eq!(t.to_unix_seconds(), c.t + EPOCH_MS / 1000, "unix seconds");
    ensure_eq!(ut::FarcasterTime::from_unix_seconds(t.to_unix_seconds()), t, "unix round trip");
    ensure_eq!(t.incr_by(c.d).to_u64(), c.t + c.d, "later");
    ensure_eq!(t.incr_by(c.d).decr_by(c.d), t, "later then earlier");
    ensure_eq!(t.incr_by(c.d) > t, c.d > 0, "time order");
    ensure_eq!(ut::from_farcaster_time(c.t), c.t * 1000 + EPOCH_MS, "to milliseconds");
    // heights
    let a = Height::new(c.shard.0, c.h.0);
    let b = Height::new(c.shard.1, c.h.1);
    ensure_eq!((a.shard_index, a.as_u64()), (c.shard.0, c.h.0), "height parts");
    ensure_eq!(a.increment_by(c.n), Height::new(c.shard.0, c.h.0 + c.n), "height + n");
    ensure_eq!(a.increment(), Height::new(c.shard.0, c.h.0 + 1), "next height");
    ensure_eq!(a.increment().decrement(), Some(a), "next then previous");
    ensure_eq!(a.decrement_by(c.n), c.h.0.checked_sub(c.n).map(|x| Height::new(c.shard.0, x)), "height - n");
    ensure_eq!(a.decrement(), c.h.0.checked_sub(1).map(|x| Height::new(c.shard.0, x)), "previous height");
    if c.shard.0 == c.shard.1 {
        ensure_eq!(a.cmp(&b), c.h.0.cmp(&c.h.1), "heights of one shard order by block number");
    }
    ensure_eq!((Height::ZERO.as_u64(), Height::INITIAL.as_u64()), (0, 1), "constants");
    // the consensus engine sees the same arithmetic
    fn via<H: informalsystems_malachitebft_core_types::Height>(h: &H, n: u64) -> (H, H, Option<H>, u64) {
        (h.increment(), h.increment_by(n), h.decrement_by(n), h.as_u64())
    }
    ensure_eq!(via(&a, c.n), (a.increment(), a.increment_by(c.n), a.decrement_by(c.n), c.h.0), "heights through the consensus interface");
    Ok(())
}
pub fn c05(p: &mut Prop) {
    p.sub("clock_height", "random and boundary clock values, durations and heights; non-trivial = the clock value is representable",
        1_000_000, 4_000_000,
        || {
            let ms = prop_oneof![
                2 => (0u64..3).prop_map(|d| EPOCH_MS - 1 + d), 2 => (0u64..3000).prop_map(|d| EPOCH_MS + d),
                4 => (0u64..u32::MAX as u64 * 1000 + 5000).prop_map(|d| EPOCH_MS + d),
                2 => (0u64..4000).prop_map(|d| EPOCH_MS + u32::MAX as u64 * 1000 - 2000 + d),
                1 => any::<u64>(), 1 => 0u64..EPOCH_MS,
            ];
            let h = || prop_oneof![2 => 0u64..5, 2 => 0u64..1000, 1 => 0u64..(1 << 60)];
            (ms, 0u64..1 << 33, prop_oneof![Just(0u64), 0u64..100, 0u64..1 << 33], (0u32..4, 0u32..4), (h(), h()), h())
                .prop_map(|(ms, t, d, shard, h, n)| TimeCase { ms, t, d, shard, h, n }).boxed()
        },
        check_time);
}

// ---- C06 -----------------------------------------------------------------------------------------
const MAIN: &[(u64, u8)] = &[
    (0, 0), (1747333800, 1), (1747352400, 2), (1747356000, 3), (1747417200, 4), (1750093200, 5), (1752685200, 6),
    (1756141200, 7), (1756918800, 8), (1757523600, 9), (1758733200, 10), (1759942800, 11), (1759942800, 12),
    (1759942800, 13), (1761757200, 14), (1765386000, 15), (1778173200, 16), (1780592400, 17), (1782147600, 18),
    (1785160800, 19), (1786640400, 20),
];
const TEST: &[(u64, u8)] = &[
    (0, 0), (1748970000, 5), (1752099060, 6), (1755291600, 7), (1755709200, 8), (1756918800, 9), (1757523600, 10),
    (1758733200, 11), (1758763200, 12), (1758906000, 13), (1761152400, 14), (1764783794, 15), (1777406400, 16),
    (1779382800, 17), (1781283600, 18), (1784124000, 19), (1786035600, 20),
];
const DEV: &[(u64, u8)] = &[(0, 21)];
fn features() -> Vec<(PF, u8, &'static str)> {
    vec![
        (PF::FarcasterPro, 5, "pro"), (PF::Basenames, 5, "basenames"), (PF::EnsValidation, 5, "ens"),
        (PF::MessageLengthCheckFix, 5, "length"), (PF::PrimaryAddresses, 5, "primary"),
        (PF::UsernameShardRoutingFix, 5, "routing"), (PF::FutureTimestampValidation, 6, "future"),
        (PF::DependentMessagesInBulkSubmit, 7, "bulk"), (PF::DecoupleShardZeroBlockProduction, 8, "decouple"),
        (PF::WriteDataToShardZero, 9, "write0"), (PF::ReadDataFromShardZero, 10, "read0"),
        (PF::UserProfileToken, 10, "token"), (PF::StorageLending, 11, "lend"), (PF::EventIdBugFix, 12, "eventid"),
        (PF::StorageLendingLimitFix, 13, "lendlimit"), (PF::StopRevokingExistingMessages, 14, "norevoke"),
        (PF::IncreaseUsernameProofSizeLimit, 15, "proofsize"), (PF::GaslessSigners, 16, "gasless"), (PF::LiveAt, 17, "liveat"),
        (PF::StorageExpiryExtension2026, 18, "expiry"), (PF::BlockLinks, 19, "blocks"),
        (PF::IncreaseEmbedLimitForAllUsers, 20, "embeds"), (PF::ChannelRegistrations, 21, "chreg"),
        (PF::SortedBlockEngineEvents, 21, "sorted"), (PF::ChannelOwnershipEvents, 21, "chown"),
        (PF::ChannelMessages, 21, "chmsg"), (PF::VerificationsOnShardZero, 21, "ver0"), (PF::ChannelFollows, 21, "follows"),
    ]
}
fn protocol_of(v: u8) -> u32 {
    match v { 0..=4 => 1, 5 => 2, 6 => 3, 7 => 4, 8 => 5, 9 => 6, 10 => 7, 11..=13 => 8, 14 => 9, 15 => 10, 16 => 11, 17 => 12, _ => 13 }
}
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct VerCase {
    t: u64,
    later: u64,
    net: i32,
}
fn check_version(c: &VerCase, o: &mut Obs) -> R {
    let net = FarcasterNetwork::try_from(c.net).unwrap();
    let table = match c.net { 1 => MAIN, 2 => TEST, _ => DEV };
    let time = ut::FarcasterTime::new(c.t);
    let unix = c.t + EPOCH_MS / 1000;
    let want = table.iter().filter(|e| e.0 <= unix).map(|e| e.1).max().unwrap();
    let got = EngineVersion::version_for(&time, net);
    ensure_eq!(got as u8, want, "version at unix {unix} on {net:?}");
    ensure_eq!(got, monotone_version(want), "version identity");
    let later = EngineVersion::version_for(&ut::FarcasterTime::new(c.t + c.later), net);
    ensure!(later >= got, "the version went back from {got:?} to {later:?}");
    let next = table.iter().map(|e| e.0).find(|t| *t > unix);
    ensure_eq!(EngineVersion::next_version_timestamp_for(&time, net), next, "next activation");
    for (f, since, name) in features() {
        ensure_eq!(got.is_enabled(f), want >= since, "feature {name} at version {want}");
    }
    ensure_eq!(got.is_enabled(PF::SignerRevokeBug), want == 1 || want == 3, "signer revoke bug window");
    ensure_eq!(got.protocol_version(), protocol_of(want), "wire protocol of version {want}");
    ensure_eq!(EngineVersion::channel_messages_enabled_for_snapshot(c.t, net), want >= 21, "snapshot channel gate");
    ensure_eq!(EngineVersion::latest() as u8, 21, "latest version");
    o.label_if(table.iter().any(|e| e.0 == unix), "exactly at an activation");
    o.label_if(table.iter().any(|e| e.0 == unix + 1), "a second before an activation");
    if c.net == 1 || c.net == 2 {
        o.nt()
    }
    Ok(())
}
pub fn c06(p: &mut Prop) {
    p.sub("schedule", "random times and times within two seconds of every activation, all networks; non-trivial = mainnet or testnet",
        1_000_000, 4_000_000,
        || {
            let t = prop_oneof![
                3 => (0usize..40, -2i64..3).prop_map(|(i, d)| {
                    let all: Vec<u64> = MAIN.iter().chain(TEST).map(|e| e.0).filter(|t| *t > 0).collect();
                    (all[i % all.len()] as i64 + d) as u64 - EPOCH_MS / 1000
                }),
                2 => 0u64..200_000_000, 1 => 0u64..u32::MAX as u64, 1 => Just(0u64),
            ];
            (t, prop_oneof![0u64..10, 0u64..100_000_000], 0i32..4).prop_map(|(t, later, net)| VerCase { t, later, net }).boxed()
        },
        check_version);
    p.sub("all_versions", "every version by number: features switch on once and stay on; exhaustive",
        22, 22, || (0u8..22).boxed(),
        |v, o| {
            o.nt();
            for v in 0..22u8 {
                let e = monotone_version(v);
                for (f, since, name) in features() {
                    ensure_eq!(e.is_enabled(f), v >= since, "feature {name} at version {v}");
                }
                ensure_eq!(e.protocol_version(), protocol_of(v), "wire protocol of {v}");
            }
            let _ = v;
            Ok(())
        });
}

// ---- C07 -----------------------------------------------------------------------------------------
static ENV: Mutex<()> = Mutex::new(());
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct CfgCase {
    /// (leaf number, value seed)
    file: Vec<(u16, u8)>,
    env: Vec<(u16, u8)>,
    log: Option<String>,
    clear: bool,
    check: bool,
    eq_form: bool,
}
fn leaves(v: &Value, path: &str, out: &mut Vec<(String, Value)>) {
    match v {
        Value::Object(m) => {
            for (k, x) in m {
                let p = if path.is_empty() { k.clone() } else { format!("{path}.{k}") };
                leaves(x, &p, out);
            }
        }
        Value::Null | Value::Array(_) => {}
        x => out.push((path.to_string(), x.clone())),
    }
}
/// Another value of the same kind as the default.
fn other(path: &str, default: &Value, seed: u8) -> Value {
    match default {
        Value::Bool(_) => Value::Bool(seed % 2 == 0),
        Value::Number(n) if n.is_f64() => serde_json::json!(seed as f64 / 4.0),
        Value::Number(_) => serde_json::json!((seed % 100) as u64 + 1),
        Value::String(s) => {
            if path == "fc_network" {
                Value::String(["Mainnet", "Testnet", "Devnet"][seed as usize % 3].into())
            } else if path == "snapshot.bootstrap_method" {
                Value::String(["Snapshot", "Replicate"][seed as usize % 2].into())
            } else if path == "consensus.private_key" {
                Value::String(format!("ab{}", hex::encode(fill(31, seed))))
            } else if !s.is_empty() && s.as_bytes()[0].is_ascii_digit() && humantime_like(s) {
                Value::String(format!("{}s", seed as u64 % 50 + 1))
            } else {
                Value::String(format!("v{}{}", (b'a' + seed % 26) as char, "xyz/_.-:"[..(seed as usize % 8)].trim_end_matches(['.', '-', ':'])))
            }
        }
        _ => unreachable!(),
    }
}
fn humantime_like(s: &str) -> bool {
    s.split(' ').all(|w| {
        let d = w.trim_start_matches(|c: char| c.is_ascii_digit());
        d.len() < w.len() && !d.is_empty() && d.chars().all(|c| c.is_ascii_alphabetic())
    })
}
fn set(v: &mut Value, path: &str, x: Value) {
    let mut cur = v;
    let parts: Vec<&str> = path.split('.').collect();
    for p in &parts[..parts.len() - 1] {
        cur = cur.get_mut(p).unwrap();
    }
    cur[parts[parts.len() - 1]] = x;
}
fn toml_doc(over: &BTreeMap<String, Value>) -> String {
    let mut root = serde_json::Map::new();
    for (p, v) in over {
        let parts: Vec<&str> = p.split('.').collect();
        let mut cur = &mut root;
        for q in &parts[..parts.len() - 1] {
            cur = cur.entry(q.to_string()).or_insert_with(|| Value::Object(Default::default())).as_object_mut().unwrap();
        }
        cur.insert(parts[parts.len() - 1].to_string(), v.clone());
    }
    toml::to_string(&Value::Object(root)).unwrap()
}
fn check_cfg(c: &CfgCase, o: &mut Obs) -> R {
    let defaults = serde_json::to_value(snapchain::cfg::Config::default()).map_err(|e| e.to_string())?;
    let mut ls = vec![];
    leaves(&defaults, "", &mut ls);
    // durations without the human form are {secs, nanos}: overriding one half of the pair is fine
    let pick = |v: &[(u16, u8)]| -> BTreeMap<String, Value> {
        v.iter()
            .map(|(i, s)| {
                let (p, d) = &ls[*i as usize % ls.len()];
                (p.clone(), other(p, d, *s))
            })
            .collect()
    };
    let file = pick(&c.file);
    let env = pick(&c.env);
    let mut want = defaults.clone();
    for (p, v) in &file {
        set(&mut want, p, v.clone());
    }
    for (p, v) in &env {
        set(&mut want, p, v.clone());
    }
    if let Some(l) = &c.log {
        want["log_format"] = Value::String(l.clone());
    }
    want["clear_db"] = Value::Bool(c.clear);
    want["check_config"] = Value::Bool(c.check);
    let dir = tempfile::tempdir().map_err(|e| e.to_string())?;
    let path = dir.path().join("c.toml");
    std::fs::write(&path, toml_doc(&file)).unwrap();
    let mut args = vec!["snapchain".to_string()];
    if c.eq_form {
        args.push(format!("--config-path={}", path.display()));
    } else {
        args.push("--config-path".into());
        args.push(path.display().to_string());
    }
    if let Some(l) = &c.log {
        args.push("--log-format".into());
        args.push(l.clone());
    }
    if c.clear {
        args.push("--clear-db".into())
    }
    if c.check {
        args.push("--check-config".into())
    }
    let got = {
        let _g = ENV.lock().unwrap_or_else(|e| e.into_inner());
        let names: Vec<String> = env.keys().map(|k| format!("SNAPCHAIN_{}", k.to_uppercase().replace('.', "__"))).collect();
        for (n, v) in names.iter().zip(env.values()) {
            std::env::set_var(n, match v { Value::String(s) => s.clone(), x => x.to_string() });
        }
        let r = snapchain::cfg::load_and_merge_config(args).map_err(|e| e.to_string());
        for n in &names {
            std::env::remove_var(n);
        }
        r
    };
    let cfg = got.map_err(|e| format!("rejected: {e}\n{}", toml_doc(&file)))?;
    let mut got = serde_json::to_value(&cfg).map_err(|e| e.to_string())?;
    if !file.contains_key("consensus.private_key") && !env.contains_key("consensus.private_key") {
        // a fresh random key each time
        set(&mut got, "consensus.private_key", Value::Null);
        set(&mut want, "consensus.private_key", Value::Null);
    }
    let norm = |v: &Value| {
        let mut l = vec![];
        leaves(v, "", &mut l);
        l.into_iter()
            .map(|(p, v)| {
                let v = match &v {
                    Value::String(s) if s == "0s" => v,
                    Value::String(s) if humantime_like(s) && !s.is_empty() => Value::String(
                        // "60s" and "1m" are one duration
                        s.split(' ')
                            .map(|w| {
                                let d = w.trim_start_matches(|c: char| c.is_ascii_digit());
                                let n: u128 = w[..w.len() - d.len()].parse().unwrap_or(0);
                                n * match d { "ms" => 1, "s" => 1000, "m" => 60_000, "h" => 3_600_000, "day" | "days" | "d" => 86_400_000, _ => 7 }
                            })
                            .sum::<u128>()
                            .to_string(),
                    ),
                    _ => v,
                };
                (p, v)
            })
            .collect::<BTreeMap<_, _>>()
    };
    let (g, w) = (norm(&got), norm(&want));
    for (p, v) in &w {
        ensure_eq!(g.get(p), Some(v), "setting {p} (file {:?}, env {:?})", file.get(p), env.get(p));
    }
    ensure_eq!(g.len(), w.len(), "number of settings");
    if file.keys().any(|k| env.contains_key(k)) {
        o.label("set in both layers")
    }
    o.label_if(c.log.is_some(), "command line override");
    if !file.is_empty() && !env.is_empty() {
        o.nt()
    }
    Ok(())
}
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct BadCfg {
    secret: u8,
    kind: u8,
    pad: u8,
    missing: bool,
}
fn check_badcfg(c: &BadCfg, o: &mut Obs) -> R {
    let secret = hex::encode(fill(32, c.secret));
    let line = match c.kind {
        0 => format!("private_key = \"{secret}"),
        1 => format!("private_key = {secret}x"),
        2 => format!("private_key = \"{secret}\" stray"),
        3 => format!("private_key \"{secret}\""),
        4 => format!("private_key = \"{secret}\"\nprivate_key = \"{secret}\""),
        5 => format!("= \"{secret}\""),
        6 => format!("private_key = '{secret}\""),
        7 => format!("private_key = [\"{secret}\""),
        8 => format!("private_key = \"\\q{secret}\""),
        _ => format!("private_key = \"{secret}\" = 1"),
    };
    let doc = format!("{}[consensus]\n{line}\n", "# comment\n".repeat(c.pad as usize));
    let dir = tempfile::tempdir().map_err(|e| e.to_string())?;
    let path = dir.path().join("c.toml");
    if !c.missing {
        std::fs::write(&path, doc).unwrap();
    }
    let _g = ENV.lock().unwrap_or_else(|e| e.into_inner());
    let r = snapchain::cfg::load_and_merge_config(vec!["s".into(), "--config-path".into(), path.display().to_string()]);
    match r {
        Ok(_) => return Err("a broken or missing file was accepted".into()),
        Err(e) => {
            let text = format!("{e} {e:?}");
            for i in 0..secret.len() - 8 {
                ensure!(!text.contains(&secret[i..i + 8]), "the error shows part of the private key: {text}");
            }
            if c.missing {
                ensure!(text.contains("not found"), "missing file not reported: {text}");
            }
        }
    }
    o.nt();
    Ok(())
}
pub fn c07(p: &mut Prop) {
    for (k, _) in std::env::vars() {
        if k.starts_with("SNAPCHAIN_") {
            std::env::remove_var(k)
        }
    }
    p.sub("layers", "random subsets of all settings in the file and in the environment, with command line options; every resulting setting compared; non-trivial = both layers used",
        15_000, 60_000,
        || (pvec((any::<u16>(), any::<u8>()), 0..12), pvec((any::<u16>(), any::<u8>()), 0..8), prop_oneof![Just(None), "[a-z]{1,6}".prop_map(Some)],
            any::<bool>(), any::<bool>(), any::<bool>(), any::<bool>())
            .prop_map(|(file, mut env, log, clear, check, eq_form, overlap)| {
                if overlap {
                    env.extend(file.iter().take(3).map(|(i, s)| (*i, s.wrapping_add(1))));
                }
                CfgCase { file, env, log, clear, check, eq_form }
            }).boxed(),
        check_cfg);
    p.sub("errors", "syntax errors on the line that holds the private key, or no file at all; every case non-trivial",
        4_000, 16_000,
        || (any::<u8>(), 0u8..10, 0u8..4, prop::bool::weighted(0.1)).prop_map(|(secret, kind, pad, missing)| BadCfg { secret, kind, pad, missing }).boxed(),
        check_badcfg);
}
#[allow(unused)]
fn _unused(_: proto::Message) {}
