//! C01, C02: what a message must look like to be admitted, against a reference model.
use crate::frame::*;
use crate::gens::*;
use ed25519_dalek::Signer;
use prost::Message as _;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use snapchain::core::util::FarcasterTime;
use snapchain::core::validations as v;
use snapchain::proto::{self, message_data::Body, MessageData};

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct CId {
    pub fid: u64,
    pub hash_len: usize,
}
impl CId {
    fn get(&self) -> proto::CastId {
        proto::CastId { fid: self.fid, hash: fill(self.hash_len, 7) }
    }
    fn ok(&self) -> bool {
        self.fid != 0 && self.hash_len == 20
    }
}
#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum Emb {
    Url(Str),
    Cast(CId),
    Missing,
}
impl Emb {
    fn ok(&self) -> bool {
        match self {
            Emb::Url(s) => (1..=256).contains(&s.len),
            Emb::Cast(c) => c.ok(),
            Emb::Missing => false,
        }
    }
}
#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum BodyCase {
    Cast {
        text: Str,
        typ: i32,
        embeds: Vec<Emb>,
        deprecated: Vec<Str>,
        mentions: Vec<u64>,
        positions: Vec<u32>,
        parent: Option<Emb>,
    },
    CastRemove(usize),
    Reaction { typ: i32, target: Option<Emb> },
    Link { typ: Str, target: Option<u64> },
    Compact { typ: Str, targets: Vec<u64>, many: usize },
    UserData { typ: i32, value: String },
    UserDataLen { typ: i32, value: Str },
    Proof { typ: i32, name: Vec<u8>, sig_len: usize },
    VerEth {
        signer: u8, claim_fid_delta: u64, claim_net: i32, addr_len: usize, bh_len: usize,
        chain: u32, vtype: u32, v_raw: u8, mutate: u8, proto: i32,
    },
    VerSol { signer: u8, claim_fid_delta: u64, claim_net: i32, addr_len: usize, bh_len: usize, mutate: u8, sig_len: usize },
    VerRemove { addr_len: usize, protocol: i32 },
    Frame { url: usize, button: u32, cast: Option<CId>, input: usize, state: usize, tx: usize, addr: usize },
    Lend { to: u64, units: u64, typ: i32 },
    KeyAdd { key_len: usize, key_type: u32, deadline: u32, ttl: u32, mtype: u32, meta: usize, scopes: Vec<i32> },
    KeyRemove { key_len: usize, styp: u32, deadline: u32 },
    ChUpdate { id_len: usize, casting: Option<i32>, membership: Option<i32> },
    ChMember { id_len: usize, fid: u64, action: i32 },
    ChPin { id_len: usize, hash_len: usize },
    ChModerate { id_len: usize, hash_len: usize, action: i32 },
    Empty,
}
#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum Carrier {
    Data,
    Bytes,
    BothDifferent,
    Neither,
    EmptyBytes,
    Garbage(Vec<u8>),
}
#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum Fault {
    None,
    HashFlip(u8),
    HashLen(usize),
    SigFlip(u16),
    SigLen(usize),
    SignerFlip(u16),
    SignerLen(usize),
    OtherSigner,
    SignedData,
    HashScheme(i32),
    SigScheme(i32),
}
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct MsgCase {
    fid: u64,
    ts_off: i64,
    network: i32,
    cur_net: i32,
    pro: bool,
    version: u8,
    block_ts: u64,
    body: BodyCase,
    mtype_delta: i32,
    carrier: Carrier,
    fault: Fault,
    /// grow the data bytes with an unknown field to this total size
    grow_to: Option<usize>,
    key: u8,
}

fn cid() -> BoxedStrategy<CId> {
    (any_fid(), len_mostly(20)).prop_map(|(fid, hash_len)| CId { fid, hash_len }).boxed()
}
fn good_cid() -> BoxedStrategy<CId> {
    (1u64..1000).prop_map(|fid| CId { fid, hash_len: 20 }).boxed()
}
fn emb() -> BoxedStrategy<Emb> {
    prop_oneof![
        5 => (1usize..60, 0u8..2).prop_map(|(len, kind)| Emb::Url(Str { len, kind })),
        3 => str_near(&[0, 1, 256]).prop_map(Emb::Url),
        4 => good_cid().prop_map(Emb::Cast),
        2 => cid().prop_map(Emb::Cast),
        1 => Just(Emb::Missing),
    ]
    .boxed()
}
fn text() -> BoxedStrategy<Str> {
    str_near(&[0, 320, 1024, 10_000])
}
fn cast_body() -> BoxedStrategy<BodyCase> {
    let good_mentions = (text(), 0usize..12).prop_flat_map(|(t, n)| {
        let l = t.len as u32;
        (Just(t), pvec(1u64..100, n..=n), pvec(0..=l, n..=n)).prop_map(|(t, m, mut p)| {
            p.sort();
            (t, m, p)
        })
    });
    let wild = (text(), 0usize..12).prop_flat_map(|(t, n)| {
        let l = t.len as u32;
        (
            Just(t),
            pvec(any_fid(), n..=n),
            pvec(prop_oneof![3 => 0..=l, 1 => Just(l + 1), 1 => Just(u32::MAX)], n.saturating_sub(1)..=n + 1),
        )
    });
    (
        prop_oneof![3 => good_mentions.boxed(), 1 => wild.boxed()],
        prop_oneof![8 => 0i32..3, 1 => 3i32..5, 1 => Just(-1)],
        prop_oneof![3 => Just(vec![]).boxed(), 3 => pvec(emb(), 0..6).boxed(),
            2 => pvec(good_cid().prop_map(Emb::Cast), 0..6).boxed()],
        prop_oneof![8 => Just(vec![]).boxed(), 2 => pvec(str_near(&[0, 1, 256]), 0..4).boxed()],
        option::of(prop_oneof![2 => good_cid().prop_map(Emb::Cast), 1 => emb()]),
        any::<bool>(),
    )
        .prop_map(|((text, mentions, positions), typ, embeds, deprecated, parent, fit)| {
            let mut parent = parent;
            if matches!(parent, Some(Emb::Missing)) {
                parent = None
            }
            let typ = if fit {
                if text.len <= 320 { 0 } else if text.len <= 1024 { 1 } else { 2 }
            } else {
                typ
            };
            BodyCase::Cast { text, typ, embeds, deprecated, mentions, positions, parent }
        })
        .boxed()
}
fn names() -> BoxedStrategy<String> {
    let label = prop_oneof![
        6 => "[a-z0-9][a-z0-9-]{0,15}",
        2 => "[a-z0-9-]{0,18}",
        1 => "[a-zA-Z0-9_.-]{0,18}",
        1 => Just(String::new()),
        1 => "[a-z]{1,4}[é٣ \n]{1}[a-z]{0,3}",
    ];
    (label, prop_oneof![4 => Just(""), 4 => Just(".eth"), 4 => Just(".base.eth"), 1 => Just(".ETH"), 1 => Just(".a.eth"), 1 => Just("eth"), 1 => Just(".eth\n")])
        .prop_map(|(l, s)| format!("{l}{s}"))
        .boxed()
}
fn caip() -> BoxedStrategy<String> {
    prop_oneof![
        4 => "[a-z0-9]{1,8}:[a-zA-Z0-9]{1,20}/[a-z0-9-]{2,9}:[-.%a-zA-Z0-9]{1,40}(/[a-zA-Z0-9]{1,60})?",
        1 => "[a-z0-9]{1,8}:[a-zA-Z0-9]{1,20}/[a-z0-9-]{3,8}:[-.%a-zA-Z0-9]{126,130}(/[a-zA-Z0-9]{60,100})?",
        1 => "[a-z:/.%A-Z0-9-]{0,40}",
        1 => "[a-z0-9]{1,8}:[a-zA-Z0-9]{1,20}/[a-z0-9-]{3,8}:[-.%a-zA-Z0-9]{1,40}/[a-zA-Z0-9]{150,210}",
    ]
    .boxed()
}
fn geo() -> BoxedStrategy<String> {
    prop_oneof![
        5 => (-9100i32..9100, -18100i32..18100).prop_map(|(a, b)| format!(
            "geo:{}{}.{:02},{}{}.{:02}", if a < 0 {"-"} else {""}, a.abs() / 100, a.abs() % 100,
            if b < 0 {"-"} else {""}, b.abs() / 100, b.abs() % 100)),
        1 => "geo:-?[0-9]{1,3}\\.[0-9]{1,3},-?[0-9]{1,4}\\.[0-9]{1,3}",
        1 => "(geo:)?-?[0-9]{1,2}\\.[0-9]{2}[,; ]{1,2}-?[0-9]{1,2}\\.[0-9]{2}[ \n]?",
        1 => "geo:-?90\\.0[01],-?180\\.0[01]",
        1 => Just(String::new()),
    ]
    .boxed()
}
fn userdata() -> BoxedStrategy<BodyCase> {
    let s = |typ: i32, st: BoxedStrategy<String>| st.prop_map(move |value| BodyCase::UserData { typ, value }).boxed();
    prop_oneof![
        4 => s(6, names()),
        2 => s(7, geo()),
        2 => s(8, prop_oneof!["[a-z0-9_]{0,16}", "[a-zA-Z0-9_-]{0,16}"].boxed()),
        3 => s(9, prop_oneof![3 => "[a-zA-Z0-9]([a-zA-Z0-9]|-[a-zA-Z0-9]){0,20}", 2 => "[a-zA-Z0-9-]{0,40}", 1 => "[a-zA-Z0-9]{36,40}", 1 => "[a-z_. ]{0,8}"].boxed()),
        3 => s(11, (any::<[u8; 20]>(), 0u8..8).prop_map(|(a, m)| {
            let c = alloy_primitives::Address::from(a).to_checksum(None);
            match m { 0 => c.to_lowercase(), 1 => c[2..].to_string(), 2 => format!("{c}0"), 3 => String::new(), 4 => c.replace("0x", "0X"), _ => c }
        }).boxed()),
        3 => s(12, prop_oneof![3 => any::<[u8; 32]>().prop_map(b58), 1 => pvec(any::<u8>(), 30..35).prop_map(b58),
            1 => "[0OIla-z]{0,44}", 1 => Just(String::new())].boxed()),
        3 => s(13, caip()),
        3 => (prop_oneof![Just(1), Just(2), Just(3), Just(5), Just(10), Just(14)], str_near(&[0, 32, 256]))
            .prop_map(|(typ, value)| BodyCase::UserDataLen { typ, value }),
        1 => (-1i32..17, str_near(&[0, 32, 256])).prop_map(|(typ, value)| BodyCase::UserDataLen { typ, value }),
    ]
    .boxed()
}
/// base58 (Bitcoin alphabet), written out here so that the oracle does not share the codec under test
pub fn b58<T: AsRef<[u8]>>(b: T) -> String {
    const A: &[u8] = b"123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz";
    let b = b.as_ref();
    let mut digits: Vec<u8> = vec![];
    for &x in b {
        let mut c = x as u32;
        for d in digits.iter_mut() {
            c += (*d as u32) << 8;
            *d = (c % 58) as u8;
            c /= 58;
        }
        while c > 0 {
            digits.push((c % 58) as u8);
            c /= 58;
        }
    }
    let zeros = b.iter().take_while(|x| **x == 0).count();
    let mut s: Vec<u8> = vec![b'1'; zeros];
    s.extend(digits.iter().rev().map(|d| A[*d as usize]));
    String::from_utf8(s).unwrap()
}
fn unb58(s: &str) -> Option<Vec<u8>> {
    const A: &[u8] = b"123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz";
    let mut out: Vec<u8> = vec![];
    for ch in s.bytes() {
        let mut c = A.iter().position(|x| *x == ch)? as u32;
        for d in out.iter_mut() {
            c += *d as u32 * 58;
            *d = c as u8;
            c >>= 8;
        }
        while c > 0 {
            out.push(c as u8);
            c >>= 8;
        }
    }
    let zeros = s.bytes().take_while(|x| *x == b'1').count();
    out.extend(std::iter::repeat(0).take(zeros));
    out.reverse();
    Some(out)
}
fn scope_list() -> BoxedStrategy<Vec<i32>> {
    prop_oneof![
        3 => pvec(prop_oneof![8 => 1i32..9, 4 => 11i32..16], 0..18),
        2 => pvec(-1i32..24, 0..4),
        1 => pvec(Just(1), 15..19),
    ]
    .boxed()
}
fn body() -> BoxedStrategy<BodyCase> {
    let mode = |n: i32| option::of(-1i32..n + 1);
    prop_oneof![
        10 => cast_body(),
        1 => len_mostly(20).prop_map(BodyCase::CastRemove),
        4 => (prop_oneof![6 => 0i32..3, 1 => Just(3), 1 => Just(-1)], option::weighted(0.9, prop_oneof![2 => good_cid().prop_map(Emb::Cast), 1 => emb()]))
            .prop_map(|(typ, mut target)| { if matches!(target, Some(Emb::Missing)) { target = None } BodyCase::Reaction { typ, target } }),
        4 => (str_near(&[0, 1, 8]), option::weighted(0.9, any_fid())).prop_map(|(typ, target)| BodyCase::Link { typ, target }),
        3 => (str_near(&[1, 8]), pvec(any_fid(), 0..5), prop_oneof![4 => 0usize..6, 2 => 300usize..9000, 1=> 15000usize..33000])
            .prop_map(|(typ, targets, many)| BodyCase::Compact { typ, targets, many }),
        12 => userdata(),
        4 => (-1i32..5, prop_oneof![8 => names().prop_map(|s| s.into_bytes()), 1 => pvec(any::<u8>(), 0..8)], prop_oneof![3 => Just(65usize), 1 => near(&[1800, 2048, 16384])])
            .prop_map(|(typ, name, sig_len)| BodyCase::Proof { typ, name, sig_len }),
        5 => (0u8..4, prop_oneof![6 => Just(0u64), 1 => 1u64..3], prop_oneof![6 => Just(0i32), 1 => 1i32..4], len_mostly(20), len_mostly(32),
            prop_oneof![4 => Just(0u32), 2 => Just(1), 1 => Just(5), 2 => Just(10), 1 => Just(420), 1 => Just(2), 1 => Just(137)],
            prop_oneof![5 => Just(0u32), 2 => Just(1), 1 => 2u32..4], prop_oneof![3 => Just(0u8), 2 => Just(1), 1 => Just(27), 1=> Just(28)],
            prop_oneof![4 => Just(0u8), 1 => 1u8..6], prop_oneof![9 => Just(0i32), 1 => Just(2), 1 => Just(-1)])
            .prop_map(|(signer, claim_fid_delta, claim_net, addr_len, bh_len, chain, vtype, v_raw, mutate, proto)|
                BodyCase::VerEth { signer, claim_fid_delta, claim_net, addr_len, bh_len, chain, vtype, v_raw, mutate, proto }),
        4 => (0u8..4, prop_oneof![6 => Just(0u64), 1 => 1u64..3], prop_oneof![6 => Just(0i32), 1 => 1i32..4], len_mostly(32), len_mostly(32),
            prop_oneof![6 => Just(0u8), 1 => 1u8..5], len_mostly(64))
            .prop_map(|(signer, claim_fid_delta, claim_net, addr_len, bh_len, mutate, sig_len)| BodyCase::VerSol { signer, claim_fid_delta, claim_net, addr_len, bh_len, mutate, sig_len }),
        2 => (prop_oneof![4 => Just(20usize), 4 => Just(32), 1 => 0usize..40], -1i32..3).prop_map(|(addr_len, protocol)| BodyCase::VerRemove { addr_len, protocol }),
        3 => (near(&[0, 1, 1024]), 0u32..8, option::of(cid()), near(&[256]), near(&[100, 4096]), near(&[256]), near(&[64]))
            .prop_map(|(url, button, cast, input, state, tx, addr)| BodyCase::Frame { url, button, cast, input, state, tx, addr }),
        3 => (any_fid(), prop_oneof![3 => 0u64..20, 3 => 4998u64..5003, 1 => any::<u64>()], -1i32..4).prop_map(|(to, units, typ)| BodyCase::Lend { to, units, typ }),
        4 => (len_mostly(32), prop_oneof![8 => Just(1u32), 1 => 0u32..3], prop_oneof![8 => 1u32..100, 1 => Just(0)],
            prop_oneof![4 => 1u32..100, 1 => Just(0u32), 2 => 7_775_998u32..7_776_003, 1 => any::<u32>()],
            prop_oneof![8 => Just(1u32), 1 => 0u32..3], prop_oneof![6 => Just(10usize), 1 => Just(0usize)], scope_list())
            .prop_map(|(key_len, key_type, deadline, ttl, mtype, meta, scopes)| BodyCase::KeyAdd { key_len, key_type, deadline, ttl, mtype, meta, scopes }),
        2 => (len_mostly(32), 0u32..4, prop_oneof![8 => 1u32..100, 1 => Just(0)]).prop_map(|(key_len, styp, deadline)| BodyCase::KeyRemove { key_len, styp, deadline }),
        2 => (len_mostly(32), mode(4), mode(3)).prop_map(|(id_len, casting, membership)| BodyCase::ChUpdate { id_len, casting, membership }),
        2 => (len_mostly(32), any_fid(), prop_oneof![6 => 1i32..7, 1 => Just(0), 1 => 7i32..9, 1 => Just(-1)]).prop_map(|(id_len, fid, action)| BodyCase::ChMember { id_len, fid, action }),
        2 => (len_mostly(32), prop_oneof![3 => Just(20usize), 2 => Just(0), 1 => 1usize..40]).prop_map(|(id_len, hash_len)| BodyCase::ChPin { id_len, hash_len }),
        2 => (len_mostly(32), len_mostly(20), prop_oneof![6 => 1i32..3, 1 => Just(0), 1 => Just(3)]).prop_map(|(id_len, hash_len, action)| BodyCase::ChModerate { id_len, hash_len, action }),
        1 => Just(BodyCase::Empty),
    ]
    .boxed()
}

/// Everything else in order, and one length, count or number at or next to its limit.
fn edge_body() -> BoxedStrategy<BodyCase> {
    let st = |lens: &'static [usize]| (proptest::sample::select(lens), 0u8..2).prop_map(|(len, kind)| Str { len, kind });
    let ud = |typ: i32, st: BoxedStrategy<String>| st.prop_map(move |value| BodyCase::UserData { typ, value }).boxed();
    let cid = || CId { fid: 7, hash_len: 20 };
    let cast = |text: Str, typ: i32| BodyCase::Cast { text, typ, embeds: vec![], deprecated: vec![], mentions: vec![], positions: vec![], parent: None };
    prop_oneof![
        4 => (proptest::sample::select(vec![1, 2, 3, 5, 10, 14]), st(&[31, 32, 33, 255, 256, 257, 258])).prop_map(|(typ, value)| BodyCase::UserDataLen { typ, value }),
        2 => ud(9, prop_oneof!["[a-zA-Z0-9]{36,40}", "[a-z0-9]{18}-[a-z0-9]{17,20}", "[a-z]{1,3}-{1,2}[a-z]{0,2}", "-?[a-z]"].boxed()),
        2 => ud(8, "[a-z0-9_]{13,17}".boxed()),
        3 => ("[a-z0-9-]{14,18}", proptest::sample::select(vec!["", ".eth", ".base.eth"]), -1i32..5, any::<bool>())
            .prop_map(|(l, s, typ, proof)| if proof { BodyCase::Proof { typ, name: format!("{l}{s}").into_bytes(), sig_len: 65 } }
                else { BodyCase::UserData { typ: 6, value: format!("{l}{s}") } }),
        2 => ud(13, prop_oneof!["eip155:1/erc721:[a-z0-9]{126,130}", "eip155:1/erc721:[a-z]{100}/[a-z0-9]{138,141}", "eip155:1/[a-z0-9-]{2,9}:a"].boxed()),
        2 => ud(7, "geo:-?(89|90|91)\\.(00|01|99),-?(179|180|181)\\.(00|01|99)".boxed()),
        4 => (st(&[0, 1, 319, 320, 321, 1023, 1024, 1025, 9999, 10_000, 10_001]), 0i32..3).prop_map(move |(t, typ)| cast(t, typ)),
        2 => (0usize..7, any::<bool>()).prop_map(move |(n, url)| BodyCase::Cast { text: Str { len: 3, kind: 0 }, typ: 0,
            embeds: (0..n).map(|_| if url { Emb::Url(Str { len: 9, kind: 0 }) } else { Emb::Cast(cid()) }).collect(),
            deprecated: vec![], mentions: vec![], positions: vec![], parent: None }),
        2 => (0usize..4, st(&[1, 255, 256, 257])).prop_map(|(n, u)| BodyCase::Cast { text: Str { len: 3, kind: 0 }, typ: 0,
            embeds: vec![], deprecated: vec![u; n], mentions: vec![], positions: vec![], parent: None }),
        2 => (9usize..12, 0u32..3).prop_map(|(n, d)| BodyCase::Cast { text: Str { len: 12, kind: 0 }, typ: 0, embeds: vec![], deprecated: vec![],
            mentions: vec![5; n], positions: (0..n as u32).map(|i| i + d).collect(), parent: None }),
        2 => (st(&[0, 1, 255, 256, 257]), 0u8..3).prop_map(move |(u, w)| match w {
            0 => BodyCase::Reaction { typ: 1, target: Some(Emb::Url(u)) },
            1 => BodyCase::Cast { text: Str { len: 3, kind: 0 }, typ: 0, embeds: vec![Emb::Url(u)], deprecated: vec![], mentions: vec![], positions: vec![], parent: None },
            _ => BodyCase::Cast { text: Str { len: 3, kind: 0 }, typ: 0, embeds: vec![], deprecated: vec![], mentions: vec![], positions: vec![], parent: Some(Emb::Url(u)) },
        }),
        1 => (st(&[0, 1, 7, 8, 9]), any::<bool>()).prop_map(|(typ, c)| if c { BodyCase::Compact { typ, targets: vec![1], many: 0 } } else { BodyCase::Link { typ, target: Some(2) } }),
        3 => (0usize..6, 0usize..3).prop_map(move |(f, d)| {
            let lim = [1023, 255, 4095, 255, 63, 4][f] + d;
            let (mut url, mut button, mut input, mut state, mut tx, mut addr) = (20, 1, 0, 0, 0, 0);
            match f { 0 => url = lim, 1 => input = lim, 2 => state = lim, 3 => tx = lim, 4 => addr = lim, _ => button = lim as u32 }
            BodyCase::Frame { url, button, cast: Some(cid()), input, state, tx, addr }
        }),
        1 => (4999u64..5002, 0i32..3).prop_map(|(units, typ)| BodyCase::Lend { to: 9, units, typ }),
        2 => (7_775_998u32..7_776_003, 15usize..18).prop_map(|(ttl, n)| BodyCase::KeyAdd { key_len: 32, key_type: 1, deadline: 1, ttl, mtype: 1, meta: 4, scopes: vec![1; n] }),
        2 => (2046usize..2051).prop_map(|sig_len| BodyCase::Proof { typ: 2, name: b"abc.eth".to_vec(), sig_len }),
        2 => (0u8..4, 0u8..5).prop_map(|(signer, mutate)| BodyCase::VerSol { signer, claim_fid_delta: 0, claim_net: 0, addr_len: 32, bh_len: 32, mutate, sig_len: 64 }),
    ]
    .boxed()
}
fn edge_case() -> BoxedStrategy<MsgCase> {
    (1u64..1000, -3000i64..0, any::<bool>(), prop_oneof![2 => Just(21u8), 1 => 0u8..22], any::<bool>(), edge_body(), any::<bool>(), 0u8..4)
        .prop_map(|(fid, d, pro, version, old, body, bytes, key)| MsgCase {
            fid, ts_off: d, network: 1, cur_net: 1, pro, version, block_ts: if old { 73_612_000 } else { 150_000_000 }, body, mtype_delta: 0,
            carrier: if bytes { Carrier::Bytes } else { Carrier::Data }, fault: Fault::None, grow_to: None, key,
        })
        .boxed()
}

pub fn msg_case() -> BoxedStrategy<MsgCase> {
    (
        (any_fid(), prop_oneof![6 => -3000i64..0, 3 => -602i64..=-598, 3 => 598i64..=602, 1 => Just(i64::MAX), 2 => Just(i64::MIN)]),
        (prop_oneof![8 => Just(1i32), 2 => 2i32..4, 1 => Just(0), 1 => Just(4)], prop_oneof![4 => Just(1i32), 2 => Just(2), 3 => Just(3)], any::<bool>()),
        (prop_oneof![3 => 15u8..22, 2 => 0u8..22], prop_oneof![6 => 140_000_000u64..200_000_000, 2 => 73_611_000u64..73_613_500]),
        body(),
        prop_oneof![12 => Just(0i32), 1 => -3i32..20],
        prop_oneof![8 => Just(Carrier::Data), 5 => Just(Carrier::Bytes), 2 => Just(Carrier::BothDifferent), 1 => Just(Carrier::Neither),
            1 => Just(Carrier::EmptyBytes), 1 => pvec(any::<u8>(), 1..60).prop_map(Carrier::Garbage)],
        prop_oneof![
            30 => Just(Fault::None),
            1 => (0u8..160).prop_map(Fault::HashFlip), 1 => prop_oneof![Just(0usize), Just(19), Just(21), Just(32)].prop_map(Fault::HashLen),
            1 => (0u16..512).prop_map(Fault::SigFlip), 1 => prop_oneof![Just(0usize), Just(63), Just(65)].prop_map(Fault::SigLen),
            1 => (0u16..256).prop_map(Fault::SignerFlip), 1 => prop_oneof![Just(0usize), Just(31), Just(33)].prop_map(Fault::SignerLen),
            1 => Just(Fault::OtherSigner), 1 => Just(Fault::SignedData), 1 => prop_oneof![Just(0), Just(2)].prop_map(Fault::HashScheme),
            1 => prop_oneof![Just(0), Just(2)].prop_map(Fault::SigScheme)],
        prop_oneof![9 => Just(None), 2 => near(&[2048, 16384, 65536]).prop_map(Some)],
        0u8..4,
    )
        .prop_map(|((fid, ts_off), (network, cur_net, pro), (version, block_ts), body, mtype_delta, carrier, fault, grow_to, key)| MsgCase {
            fid, ts_off, network, cur_net, pro, version, block_ts, body, mtype_delta, carrier, fault, grow_to, key,
        })
        .boxed()
}

fn feat(version: u8, min: u8) -> bool {
    version >= min
}
fn fname_ok(s: &str) -> bool {
    let b = s.as_bytes();
    (1..=16).contains(&b.len())
        && b[0] != b'-'
        && b.iter().all(|c| c.is_ascii_lowercase() || c.is_ascii_digit() || *c == b'-')
}
fn ens_ok(s: &str) -> bool {
    s.strip_suffix(".eth").is_some_and(|l| fname_ok(l) && s.len() <= 20)
}
fn base_ok(s: &str) -> bool {
    s.strip_suffix(".base.eth").is_some_and(fname_ok)
}
fn geo_ok(s: &str) -> bool {
    if s.is_empty() {
        return true;
    }
    let part = |p: &str, maxd: usize, lim: i64| -> bool {
        let q = p.strip_prefix('-').unwrap_or(p);
        let Some((a, b)) = q.split_once('.') else { return false };
        let dig = |x: &str| !x.is_empty() && x.bytes().all(|c| c.is_ascii_digit());
        dig(a) && dig(b) && a.len() <= maxd && b.len() == 2
            && a.parse::<i64>().unwrap() * 100 + b.parse::<i64>().unwrap() <= lim * 100
    };
    s.strip_prefix("geo:")
        .and_then(|r| r.split_once(','))
        .is_some_and(|(a, b)| part(a, 2, 90) && part(b, 3, 180))
}
fn github_ok(s: &str) -> bool {
    let b = s.as_bytes();
    (1..=38).contains(&b.len())
        && b.iter().all(|c| c.is_ascii_alphanumeric() || *c == b'-')
        && b[0] != b'-'
        && !s.contains("--")
}
fn caip_ok(s: &str) -> bool {
    if s.is_empty() {
        return true;
    }
    if s.len() > 256 {
        return false;
    }
    let parts: Vec<&str> = s.split('/').collect();
    if parts.len() != 2 && parts.len() != 3 {
        return false;
    }
    let two = |p: &str| p.split_once(':').map(|(a, b)| (a.to_string(), b.to_string()));
    let all = |p: &str, f: fn(u8) -> bool| p.bytes().all(f);
    let Some((ns, r)) = two(parts[0]) else { return false };
    let Some((an, ar)) = two(parts[1]) else { return false };
    !ns.is_empty() && all(&ns, |c| c.is_ascii_lowercase() || c.is_ascii_digit())
        && !r.is_empty() && all(&r, |c| c.is_ascii_alphanumeric())
        && (3..=8).contains(&an.len()) && all(&an, |c| c.is_ascii_lowercase() || c.is_ascii_digit() || c == b'-')
        && (1..=128).contains(&ar.len()) && all(&ar, |c| c.is_ascii_alphanumeric() || b"-.%".contains(&c))
        && (parts.len() == 2 || (!parts[2].is_empty() && all(parts[2], |c| c.is_ascii_alphanumeric())))
}
fn eth_primary_ok(s: &str) -> bool {
    if s.is_empty() {
        return true;
    }
    let Some(h) = s.strip_prefix("0x") else { return false };
    if h.len() != 40 || !h.bytes().all(|c| c.is_ascii_hexdigit()) {
        return false;
    }
    // EIP-55 by hand
    let low = h.to_lowercase();
    let k = keccak(low.as_bytes());
    low.bytes().zip(h.bytes()).enumerate().all(|(i, (l, c))| {
        let nib = if i % 2 == 0 { k[i / 2] >> 4 } else { k[i / 2] & 15 };
        c == if l.is_ascii_alphabetic() && nib >= 8 { l.to_ascii_uppercase() } else { l }
    })
}
fn userdata_ok(typ: i32, val: &str, pro: bool, ver: u8) -> bool {
    match typ {
        1 | 3 | 5 => val.len() <= 256,
        2 => val.len() <= 32,
        10 => pro && val.len() <= 256,
        14 => feat(ver, 17) && val.len() <= 256,
        6 => val.is_empty() || if val.ends_with(".base.eth") { base_ok(val) } else if val.ends_with(".eth") { ens_ok(val) } else { fname_ok(val) },
        7 => geo_ok(val),
        8 => val.len() <= 15 && val.bytes().all(|c| c.is_ascii_lowercase() || c.is_ascii_digit() || c == b'_'),
        9 => github_ok(val),
        11 => feat(ver, 5) && eth_primary_ok(val),
        12 => feat(ver, 5) && (val.is_empty() || unb58(val).is_some_and(|b| b.len() == 32)),
        13 => feat(ver, 10) && caip_ok(val),
        _ => false,
    }
}
/// EIP-712 digest of an address verification claim, by hand.
pub fn eth_claim_hash(fid: u64, addr: &[u8], block_hash: &[u8], network: i32, chain: Option<u64>) -> [u8; 32] {
    let salt = hex::decode("f2d857f4a3edcb9b78b4d503bfe733db1e3f6cdc2b7971ee739626c97e86a558").unwrap();
    let mut d = vec![];
    match chain {
        None => d.extend(keccak(b"EIP712Domain(string name,string version,bytes32 salt)")),
        Some(_) => d.extend(keccak(b"EIP712Domain(string name,string version,uint256 chainId,bytes32 salt)")),
    }
    d.extend(keccak(b"Farcaster Verify Ethereum Address"));
    d.extend(keccak(b"2.0.0"));
    if let Some(c) = chain {
        d.extend(u256(c));
    }
    d.extend(salt);
    let mut m = vec![];
    m.extend(keccak(b"VerificationClaim(uint256 fid,address address,bytes32 blockHash,uint8 network)"));
    m.extend(u256(fid));
    m.extend(pad_addr(addr));
    m.extend(block_hash);
    m.extend(u256(network as u64));
    eip712(keccak(&d), keccak(&m))
}

struct Built {
    body: Option<Body>,
    natural: i32,
    ok: bool,
}
fn build(c: &MsgCase, ts: u32) -> Built {
    let e2p = |e: &Emb| proto::Embed {
        embed: match e {
            Emb::Url(s) => Some(proto::embed::Embed::Url(s.get())),
            Emb::Cast(c) => Some(proto::embed::Embed::CastId(c.get())),
            Emb::Missing => None,
        },
    };
    let ver = c.version;
    let (body, natural, ok) = match &c.body {
        BodyCase::Cast { text, typ, embeds, deprecated, mentions, positions, parent } => {
            let t = text.len;
            let cap = if c.pro || feat(ver, 20) { 4 } else { 2 };
            let old = ts < 73612800;
            let ok = match typ {
                0 => t <= 320,
                1 => t > 320 && t <= 1024,
                2 => c.pro && t > 1024 && t <= 10_000,
                _ => false,
            } && embeds.len() <= cap
                && embeds.iter().all(|e| e.ok())
                && (if old { deprecated.len() <= 2 } else { deprecated.is_empty() })
                && deprecated.iter().all(|s| (1..=256).contains(&s.len))
                && (embeds.is_empty() || deprecated.is_empty())
                && mentions.len() <= 10
                && mentions.len() == positions.len()
                && mentions.iter().all(|f| *f != 0)
                && positions.iter().all(|p| *p as usize <= t)
                && positions.windows(2).all(|w| w[0] <= w[1])
                && parent.as_ref().map_or(true, |p| p.ok())
                && !(t == 0 && embeds.is_empty() && deprecated.is_empty() && mentions.is_empty());
            let b = Body::CastAddBody(proto::CastAddBody {
                text: text.get(),
                r#type: *typ,
                embeds: embeds.iter().map(e2p).collect(),
                embeds_deprecated: deprecated.iter().map(|s| s.get()).collect(),
                mentions: mentions.clone(),
                mentions_positions: positions.clone(),
                parent: parent.as_ref().map(|p| match p {
                    Emb::Url(s) => proto::cast_add_body::Parent::ParentUrl(s.get()),
                    Emb::Cast(c) => proto::cast_add_body::Parent::ParentCastId(c.get()),
                    Emb::Missing => unreachable!(),
                }),
            });
            (Some(b), 1, ok)
        }
        BodyCase::CastRemove(n) => (Some(Body::CastRemoveBody(proto::CastRemoveBody { target_hash: fill(*n, 3) })), 2, *n == 20),
        BodyCase::Reaction { typ, target } => (
            Some(Body::ReactionBody(proto::ReactionBody {
                r#type: *typ,
                target: target.as_ref().map(|t| match t {
                    Emb::Url(s) => proto::reaction_body::Target::TargetUrl(s.get()),
                    Emb::Cast(c) => proto::reaction_body::Target::TargetCastId(c.get()),
                    Emb::Missing => unreachable!(),
                }),
            })),
            3,
            (0..=2).contains(typ) && target.as_ref().is_some_and(|t| t.ok()),
        ),
        BodyCase::Link { typ, target } => (
            Some(Body::LinkBody(proto::LinkBody {
                r#type: typ.get(),
                display_timestamp: None,
                target: target.map(proto::link_body::Target::TargetFid),
            })),
            5,
            (1..=8).contains(&typ.len) && target.is_some_and(|f| f != 0),
        ),
        BodyCase::Compact { typ, targets, many } => {
            let mut t = targets.clone();
            t.extend((0..*many as u64).map(|i| i + 1));
            let ok = (1..=8).contains(&typ.len) && !t.is_empty() && t.iter().all(|f| *f != 0);
            (Some(Body::LinkCompactStateBody(proto::LinkCompactStateBody { r#type: typ.get(), target_fids: t })), 14, ok)
        }
        BodyCase::UserData { typ, value } => (
            Some(Body::UserDataBody(proto::UserDataBody { r#type: *typ, value: value.clone() })),
            11,
            userdata_ok(*typ, value, c.pro, ver),
        ),
        BodyCase::UserDataLen { typ, value } => (
            Some(Body::UserDataBody(proto::UserDataBody { r#type: *typ, value: value.get() })),
            11,
            userdata_ok(*typ, &value.get(), c.pro, ver),
        ),
        BodyCase::Proof { typ, name, sig_len } => {
            let s = std::str::from_utf8(name);
            let ok = match typ {
                2 => !feat(ver, 5) || s.is_ok_and(ens_ok),
                3 => feat(ver, 5) && s.is_ok_and(base_ok),
                _ => false,
            };
            let b = Body::UsernameProofBody(proto::UserNameProof {
                timestamp: 1, name: name.clone(), owner: fill(20, 1), signature: fill(*sig_len, 2), fid: c.fid, r#type: *typ,
            });
            (Some(b), 12, ok)
        }
        BodyCase::VerEth { signer, claim_fid_delta, claim_net, addr_len, bh_len, chain, vtype, v_raw, mutate, proto } => {
            let real = eth_key(*signer).address().to_vec();
            let mut addr = real.clone();
            addr.resize(*addr_len, 1);
            let bh = fill(*bh_len, 9);
            let mut bh32 = bh.clone();
            bh32.resize(32, 0);
            let h = eth_claim_hash(c.fid.wrapping_add(*claim_fid_delta), &real, &bh32, c.network + claim_net, None);
            let mut sig = eth_sign(*signer, h);
            let parity = sig[64] - 27;
            sig[64] = match v_raw {
                0 => parity,
                1 => 27 + parity,
                other => *other,
            };
            let claimed_parity = !(sig[64] == 27 || sig[64] == 0);
            let mut good_sig = claimed_parity == (parity == 1) && *claim_fid_delta == 0 && *claim_net == 0;
            match mutate {
                1 => { sig[10] ^= 4; good_sig = false }
                2 => { sig[40] ^= 1; good_sig = false }
                3 => { sig.pop(); good_sig = false }
                4 => { sig.push(0); good_sig = false }
                5 => { sig = fill(2100, 3); good_sig = false }
                _ => {}
            }
            let too_long = sig.len() > 2048;
            let ok = *proto == 0
                && *addr_len == 20
                && *bh_len == 32
                && [0, 1, 5, 10, 420].contains(chain)
                && !too_long
                && match vtype { 0 => good_sig, 1 => true, _ => false };
            let b = Body::VerificationAddAddressBody(proto::VerificationAddAddressBody {
                address: addr, claim_signature: sig, block_hash: bh, verification_type: *vtype, chain_id: *chain, protocol: *proto,
            });
            (Some(b), 7, ok)
        }
        BodyCase::VerSol { signer, claim_fid_delta, claim_net, addr_len, bh_len, mutate, sig_len } => {
            let key = signing_key(100 + signer);
            let real = key.verifying_key().to_bytes().to_vec();
            let mut addr = real.clone();
            addr.resize(*addr_len, 1);
            let bh = fill(*bh_len, 9);
            let text = format!(
                "fid: {} address: {} network: {} blockHash: {} protocol: 1",
                c.fid.wrapping_add(*claim_fid_delta), b58(&real), c.network + claim_net, b58(&bh)
            );
            let mut sig = key.sign(text.as_bytes()).to_bytes().to_vec();
            match mutate {
                1 => sig[5] ^= 8,
                2 => sig[33] ^= 1,
                // 3: not a point of the curve; 4: the neutral element, for which R = neutral, S = 0 passes a lax check
                3 | 4 => {
                    addr = vec![0; 32];
                    addr[0] = if *mutate == 3 { 2 } else { 1 };
                    addr.resize(*addr_len, 0);
                    if *mutate == 4 {
                        sig = vec![0; 64];
                        sig[0] = 1;
                    }
                }
                _ => {}
            }
            sig.resize(*sig_len, 0);
            let ok = *addr_len == 32 && *bh_len == 32 && *sig_len == 64 && *mutate == 0 && *claim_fid_delta == 0 && *claim_net == 0;
            let b = Body::VerificationAddAddressBody(proto::VerificationAddAddressBody {
                address: addr, claim_signature: sig, block_hash: bh, verification_type: 0, chain_id: 0, protocol: 1,
            });
            (Some(b), 7, ok)
        }
        BodyCase::VerRemove { addr_len, protocol } => (
            Some(Body::VerificationRemoveBody(proto::VerificationRemoveBody { address: fill(*addr_len, 4), protocol: *protocol })),
            8,
            match protocol { 0 => *addr_len == 20, 1 => *addr_len == 32, _ => false },
        ),
        BodyCase::Frame { url, button, cast, input, state, tx, addr } => (
            Some(Body::FrameActionBody(proto::FrameActionBody {
                url: fill(*url, 1), button_index: *button, cast_id: cast.as_ref().map(|c| c.get()), input_text: fill(*input, 1),
                state: fill(*state, 1), transaction_id: fill(*tx, 1), address: fill(*addr, 1),
            })),
            13,
            *button <= 5 && (1..=1024).contains(url) && *input <= 256 && *state <= 4096 && *tx <= 256 && *addr <= 64
                && cast.as_ref().map_or(true, |c| c.ok()),
        ),
        BodyCase::Lend { to, units, typ } => (
            Some(Body::LendStorageBody(proto::LendStorageBody { to_fid: *to, num_units: *units, unit_type: *typ })),
            15,
            ts as u64 + 600 >= c.block_ts && *units <= 5000 && (0..=2).contains(typ),
        ),
        BodyCase::KeyAdd { key_len, key_type, deadline, ttl, mtype, meta, scopes } => (
            Some(Body::KeyAddBody(proto::KeyAddBody {
                key: fill(*key_len, 1), key_type: *key_type, custody_signature: vec![], deadline: *deadline, nonce: 1,
                metadata: fill(*meta, 1), metadata_type: *mtype, registration_tx_hash: vec![], scopes: scopes.clone(), ttl: *ttl,
            })),
            16,
            *key_len == 32 && *key_type == 1 && *deadline > 0 && *ttl > 0 && *ttl <= 90 * 86400 && *mtype == 1 && *meta > 0
                && !scopes.is_empty() && scopes.len() <= 16
                && scopes.iter().all(|s| [1, 2, 3, 4, 5, 6, 7, 8, 11, 12, 13, 14, 15].contains(s)),
        ),
        BodyCase::KeyRemove { key_len, styp, deadline } => (
            Some(Body::KeyRemoveBody(proto::KeyRemoveBody {
                key: fill(*key_len, 1), signature: vec![], signature_type: *styp, deadline: *deadline, nonce: 1,
            })),
            17,
            *key_len == 32 && (*styp == 1 || *styp == 2) && *deadline > 0,
        ),
        BodyCase::ChUpdate { id_len, casting, membership } => (
            Some(Body::ChannelUpdateBody(proto::ChannelUpdateBody {
                channel_id: fill(*id_len, 5), casting_mode: *casting, membership_mode: *membership, ..Default::default()
            })),
            18,
            feat(ver, 21) && *id_len == 32 && casting.map_or(true, |m| (0..=3).contains(&m)) && membership.map_or(true, |m| (0..=2).contains(&m)),
        ),
        BodyCase::ChMember { id_len, fid, action } => (
            Some(Body::ChannelMemberBody(proto::ChannelMemberBody { channel_id: fill(*id_len, 5), fid: *fid, action: *action })),
            19,
            feat(ver, 21) && *id_len == 32 && *fid > 0 && *fid <= u32::MAX as u64 && (1..=6).contains(action),
        ),
        BodyCase::ChPin { id_len, hash_len } => (
            Some(Body::ChannelPinBody(proto::ChannelPinBody { channel_id: fill(*id_len, 5), cast_hash: fill(*hash_len, 6) })),
            20,
            feat(ver, 21) && *id_len == 32 && (*hash_len == 0 || *hash_len == 20),
        ),
        BodyCase::ChModerate { id_len, hash_len, action } => (
            Some(Body::ChannelModerateBody(proto::ChannelModerateBody { channel_id: fill(*id_len, 5), cast_hash: fill(*hash_len, 6), action: *action })),
            21,
            feat(ver, 21) && *id_len == 32 && *hash_len == 20 && (1..=2).contains(action),
        ),
        BodyCase::Empty => (None, 1, true),
    };
    Built { body, natural, ok }
}

fn check_validate(c: &MsgCase, o: &mut Obs) -> R {
    let ts = match c.ts_off {
        i64::MAX => u32::MAX,
        i64::MIN => 73_612_800u32.wrapping_add_signed((c.fid % 3) as i32 - 1),
        d => (c.block_ts as i64 + d) as u32,
    };
    let b = build(c, ts);
    let mtype = b.natural + c.mtype_delta;
    let data = MessageData {
        r#type: mtype, fid: c.fid, timestamp: ts, network: c.network, body: b.body.clone(),
    };
    let mut enc = data.encode_to_vec();
    let mut padded = false;
    if let (Some(n), Carrier::Bytes) = (c.grow_to, &c.carrier) {
        // unknown field 1000, length-delimited; skipped by decoders but part of the hashed bytes
        for len in (0..=n).rev() {
            let mut extra = vec![0xc2, 0x3e];
            prost::encoding::encode_varint(len as u64, &mut extra);
            if enc.len() + extra.len() + len <= n {
                extra.resize(extra.len() + len, 0);
                enc.extend(extra);
                padded = true;
                break;
            }
        }
    }
    let (data_f, bytes_f, carried) = match &c.carrier {
        Carrier::Data => (Some(data.clone()), None, true),
        Carrier::Bytes => (None, Some(enc.clone()), true),
        Carrier::BothDifferent => {
            // the bytes are authoritative; a parsed copy claiming something else changes nothing
            let mut other = data.clone();
            other.fid = other.fid.wrapping_add(1);
            other.body = Some(Body::CastRemoveBody(proto::CastRemoveBody { target_hash: vec![] }));
            (Some(other), Some(enc.clone()), true)
        }
        Carrier::Neither => (None, None, false),
        Carrier::EmptyBytes => (Some(data.clone()), Some(vec![]), false),
        Carrier::Garbage(g) => (Some(data.clone()), Some(g.clone()), true),
    };
    let signed_bytes = bytes_f.clone().unwrap_or_else(|| enc.clone());
    // garbage may happen to be a valid encoding: then its own content decides, which the model does not follow
    let garbage = matches!(c.carrier, Carrier::Garbage(_));
    let key = signing_key(c.key);
    let mut hash = h20(&signed_bytes);
    let mut sig = key.sign(&hash).to_bytes().to_vec();
    let mut signer = key.verifying_key().to_bytes().to_vec();
    let (mut hs, mut ss) = (1, 1);
    match &c.fault {
        Fault::None => {}
        Fault::HashFlip(i) => {
            hash[(*i / 8) as usize] ^= 1 << (i % 8);
            sig = key.sign(&hash).to_bytes().to_vec();
        }
        Fault::HashLen(n) => {
            let mut full = blake3::hash(&signed_bytes).as_bytes().to_vec();
            full.truncate(*n);
            hash = full;
            sig = key.sign(&hash).to_bytes().to_vec();
        }
        Fault::SigFlip(i) => sig[(*i / 8) as usize] ^= 1 << (i % 8),
        Fault::SigLen(n) => sig.resize(*n, 0),
        Fault::SignerFlip(i) => signer[(*i / 8) as usize] ^= 1 << (i % 8),
        Fault::SignerLen(n) => signer.resize(*n, 0),
        Fault::OtherSigner => signer = signing_key(c.key + 50).verifying_key().to_bytes().to_vec(),
        Fault::SignedData => sig = key.sign(&signed_bytes).to_bytes().to_vec(),
        Fault::HashScheme(s) => hs = *s,
        Fault::SigScheme(s) => ss = *s,
    }
    let msg = proto::Message {
        data: data_f, hash, hash_scheme: hs, signature: sig, signature_scheme: ss, signer, data_bytes: bytes_f,
    };
    let cap = if !feat(c.version, 5) {
        2048
    } else if mtype == 14 {
        65536
    } else if c.pro && mtype == 1 {
        16384
    } else if mtype == 12 && feat(c.version, 15) {
        16384
    } else {
        2048
    };
    let envelope = carried && matches!(c.fault, Fault::None);
    let net_ok = (1..=3).contains(&c.network) && (c.cur_net != 1 || c.network == 1);
    let time_ok = !feat(c.version, 6) || (ts as u64) <= c.block_ts + 600;
    let size_ok = signed_bytes.len() <= cap;
    let expect = envelope && net_ok && time_ok && size_ok && b.ok;
    let got = v::message::validate_message(
        &msg,
        proto::FarcasterNetwork::try_from(c.cur_net).unwrap(),
        c.pro,
        &FarcasterTime::new(c.block_ts),
        monotone_version(c.version),
    );
    if garbage {
        o.label("garbage");
        if proto::MessageData::decode(&signed_bytes[..]).is_err() {
            ensure!(got.is_err(), "bytes that do not decode were accepted");
        }
        return Ok(());
    }
    o.label_if(expect, "valid");
    o.label_if(!expect && envelope && net_ok && time_ok && size_ok, "body-invalid");
    o.label_if(!size_ok, "too-big");
    o.label_if(!time_ok, "future");
    o.label_if(padded, "padded");
    o.label_if(!envelope, "envelope-fault");
    o.label(match &c.body {
        BodyCase::Cast { .. } => if expect { "cast+" } else { "cast-" },
        BodyCase::Reaction { .. } => if expect { "reaction+" } else { "reaction-" },
        BodyCase::Link { .. } => if expect { "link+" } else { "link-" },
        BodyCase::Compact { .. } => if expect { "compact+" } else { "compact-" },
        BodyCase::UserData { .. } | BodyCase::UserDataLen { .. } => if expect { "userdata+" } else { "userdata-" },
        BodyCase::Proof { .. } => if expect { "proof+" } else { "proof-" },
        BodyCase::VerEth { .. } => if expect { "vereth+" } else { "vereth-" },
        BodyCase::VerSol { .. } => if expect { "versol+" } else { "versol-" },
        BodyCase::Lend { .. } => if expect { "lend+" } else { "lend-" },
        BodyCase::KeyAdd { .. } => if expect { "keyadd+" } else { "keyadd-" },
        BodyCase::Frame { .. } => if expect { "frame+" } else { "frame-" },
        BodyCase::ChUpdate { .. } | BodyCase::ChMember { .. } | BodyCase::ChPin { .. } | BodyCase::ChModerate { .. } => if expect { "channel+" } else { "channel-" },
        _ => if expect { "other+" } else { "other-" },
    });
    if envelope {
        o.nt()
    }
    ensure!(
        got.is_ok() == expect,
        "model says {}, validator says {:?} (envelope {envelope} net {net_ok} time {time_ok} size {size_ok} body {})",
        if expect { "valid" } else { "invalid" }, got, b.ok
    );
    Ok(())
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Tamper {
    data: Vec<u8>,
    byte: usize,
    bit: u8,
    field: u8,
    key: u8,
    extra: Vec<u8>,
}
/// A message that validates, then any one-bit change of its bytes, hash, signature or signer: refused.
fn check_tamper(c: &Tamper, o: &mut Obs) -> R {
    let data = MessageData {
        r#type: 1, fid: 1 + c.data.len() as u64, timestamp: 100_000_000, network: 1,
        body: Some(Body::CastAddBody(proto::CastAddBody { text: hex::encode(&c.data) + "x", ..Default::default() })),
    };
    let mut m = sign_data(&data, &signing_key(c.key));
    m.data_bytes = Some(data.encode_to_vec());
    m.data = None;
    let ok = |m: &proto::Message| {
        v::message::validate_message(m, proto::FarcasterNetwork::Mainnet, false, &FarcasterTime::new(100_000_000), monotone_version(21)).is_ok()
    };
    ensure!(ok(&m), "freshly signed message refused");
    ensure_eq!(h20(m.data_bytes.as_ref().unwrap()), snapchain::core::util::calculate_message_hash(m.data_bytes.as_ref().unwrap()), "message hash");
    o.nt();
    let mut t = m.clone();
    let target = match c.field % 4 {
        0 => t.data_bytes.as_mut().unwrap(),
        1 => &mut t.hash,
        2 => &mut t.signature,
        _ => &mut t.signer,
    };
    let i = c.byte % target.len();
    target[i] ^= 1 << (c.bit % 8);
    ensure!(!ok(&t), "accepted with bit {} of byte {i} of field {} flipped", c.bit % 8, c.field % 4);
    // rebind: a matching hash without the matching signature is refused too
    if c.field % 4 == 0 {
        t.hash = h20(t.data_bytes.as_ref().unwrap());
        ensure!(!ok(&t), "accepted with rehashed changed data");
        o.label("rehashed");
    }
    if !c.extra.is_empty() {
        for f in 0..4 {
            let mut t = m.clone();
            match f {
                0 => t.data_bytes.as_mut().unwrap().extend(&c.extra),
                1 => t.hash.extend(&c.extra),
                2 => t.signature.extend(&c.extra),
                _ => t.signer.extend(&c.extra),
            }
            ensure!(!ok(&t), "accepted with trailing bytes on field {f}");
        }
        o.label("extended");
    }
    Ok(())
}

/// Signatures that cost no private key: small-order or non-canonical keys with a small-order R and any
/// S, and a valid signature shifted by the group order. None may ever be accepted, whatever it "signs".
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Forge {
    a: u8,
    r: u8,
    s: u8,
    fid: u64,
    text: u8,
    key: u8,
    via: u8,
}
/// Encodings of the points of order 1, 2, 4 and 8, canonical ones first.
const WEAK: [&str; 14] = [
    "0100000000000000000000000000000000000000000000000000000000000000",
    "ecffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f",
    "0000000000000000000000000000000000000000000000000000000000000000",
    "0000000000000000000000000000000000000000000000000000000000000080",
    "26e8958fc2b227b045c3f489f2ef98f0d5dfac05d3c63339b13802886d53fc05",
    "26e8958fc2b227b045c3f489f2ef98f0d5dfac05d3c63339b13802886d53fc85",
    "c7176a703d4dd84fba3c0b760d10670f2a2053fa2c39ccc64ec7fd7792ac037a",
    "c7176a703d4dd84fba3c0b760d10670f2a2053fa2c39ccc64ec7fd7792ac03fa",
    "0100000000000000000000000000000000000000000000000000000000000080",
    "ecffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff",
    "eeffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f",
    "eeffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff",
    "edffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f",
    "edffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff",
];
const L: [u8; 32] = [
    0xed, 0xd3, 0xf5, 0x5c, 0x1a, 0x63, 0x12, 0x58, 0xd6, 0x9c, 0xf7, 0xa2, 0xde, 0xf9, 0xde, 0x14,
    0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0x10,
];
fn check_forge(c: &Forge, o: &mut Obs) -> R {
    let data = MessageData {
        r#type: 1, fid: c.fid, timestamp: 100_000_000, network: 1,
        body: Some(Body::CastAddBody(proto::CastAddBody { text: format!("x{}", c.text), ..Default::default() })),
    };
    let mut m = sign_data(&data, &signing_key(c.key));
    let ok = |m: &proto::Message| {
        v::message::validate_message(m, proto::FarcasterNetwork::Mainnet, false, &FarcasterTime::new(100_000_000), monotone_version(21)).is_ok()
    };
    if c.via == 0 {
        // S + L: the same equation, another encoding
        ensure!(ok(&m), "freshly signed message refused");
        let mut carry = 0u16;
        for i in 0..32 {
            let x = m.signature[32 + i] as u16 + L[i] as u16 + carry;
            m.signature[32 + i] = x as u8;
            carry = x >> 8;
        }
        o.nt();
        o.label("shifted");
        ensure!(!ok(&m), "accepted a signature shifted by the group order");
        return Ok(());
    }
    let weak = |i: u8| hex::decode(WEAK[i as usize % WEAK.len()]).unwrap();
    let s = match c.s % 3 { 0 => [0u8; 32], 1 => L, _ => { let mut x = [0u8; 32]; x[0] = c.s; x } };
    if c.via == 1 {
        m.signer = weak(c.a);
        o.label("weak-key");
    } else {
        o.label("weak-r");
    }
    m.signature = [weak(c.r), s.to_vec()].concat();
    o.nt();
    ensure!(!ok(&m), "accepted a forged signature: signer {} signature {}", hex::encode(&m.signer), hex::encode(&m.signature));
    Ok(())
}

pub fn c01(p: &mut Prop) {
    p.sub("model", "generated message of every body type, boundary-biased fields, envelope faults, all engine versions and networks; non-trivial = intact envelope so the body rules decide",
        1_000_000, 4_000_000, msg_case, check_validate);
    p.sub("edges", "an otherwise valid message with one length, count or number at or next to its limit, every engine version; non-trivial = intact envelope",
        200_000, 800_000, edge_case, check_validate);
}
pub fn c02(p: &mut Prop) {
    p.sub("tamper", "valid signed message, then one bit flipped or bytes appended in data, hash, signature or signer; every case non-trivial",
        200_000, 800_000,
        || (pvec(any::<u8>(), 0..60), any::<usize>(), any::<u8>(), any::<u8>(), 0u8..8, pvec(any::<u8>(), 0..3))
            .prop_map(|(data, byte, bit, field, key, extra)| Tamper { data, byte, bit, field, key, extra }).boxed(),
        check_tamper);
    p.sub("forge", "small-order and non-canonical keys and nonces with S in {0, L, small}, over many messages, and valid signatures shifted by the group order; every case non-trivial",
        200_000, 800_000,
        || (any::<u8>(), any::<u8>(), any::<u8>(), 1u64..1000, any::<u8>(), 0u8..8, prop_oneof![1 => Just(0u8), 8 => Just(1u8), 1 => Just(2u8)])
            .prop_map(|(a, r, s, fid, text, key, via)| Forge { a, r, s: if s < 200 { 0 } else { s }, fid, text, key, via }).boxed(),
        check_forge);
}
