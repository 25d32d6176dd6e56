//! C31: what the command-line client submits.
use crate::arb::Tape;
use crate::fake::Fake;
use crate::frame::{Obs, Prop, R};
use crate::gens::{self, pvec};
use crate::run::{self, fc, words64, Out, Reply, Req, Server};
use alloy_signer_local::{coins_bip39::English, MnemonicBuilder, PrivateKeySigner};
use ed25519_dalek::{Signature, SigningKey, Verifier, VerifyingKey};
use prost::Message as _;
use proptest::prelude::*;
use snapchain::core::util::FarcasterTime;
use snapchain::core::validations::key as vkey;
use snapchain::core::validations::message::validate_message;
use snapchain::proto::{self, message_data::Body, *};
use snapchain::version::version::EngineVersion;
use std::sync::{Arc, Mutex};
use std::time::SystemTime;

const EPOCH: u64 = 1_609_459_200;
fn now() -> u32 {
    (SystemTime::now().duration_since(SystemTime::UNIX_EPOCH).unwrap().as_secs() - EPOCH) as u32
}

/// A command line under construction.
struct Line {
    args: Vec<Vec<String>>,
    env: Vec<(String, String)>,
    stdin: Vec<u8>,
    bad: Option<&'static str>,
    secrets: Vec<String>,
}
impl Line {
    fn new() -> Line {
        Line { args: vec![], env: vec![], stdin: vec![], bad: None, secrets: vec![] }
    }
    fn bad(&mut self, why: &'static str) {
        self.bad.get_or_insert(why);
    }
    fn arg(&mut self, t: &mut Tape, name: &str, v: impl Into<String>) {
        let v = v.into();
        if v.starts_with('-') || t.flag() {
            self.args.push(vec![format!("--{name}={v}")]);
        } else {
            self.args.push(vec![format!("--{name}"), v]);
        }
    }
    fn num(&mut self, t: &mut Tape, name: &str, v: u64, max: u64) {
        match t.below(60) {
            7 => {
                self.bad("a number that is none");
                let w = ["", "x", "-1", "1.5", "0x10", "18446744073709551616"][t.below(6)];
                self.args.push(vec![format!("--{name}={w}")]);
            }
            8 if max < u64::MAX => {
                self.bad("a number too large");
                self.arg(t, name, (max + 1).to_string());
            }
            9 => {
                self.bad("a required number left out");
            }
            _ => self.arg(t, name, v.to_string()),
        }
    }
    /// A value that may also come from the environment; the flag wins.
    fn or_env(&mut self, t: &mut Tape, name: &str, var: &str, v: String) {
        match t.below(6) {
            0 | 1 => self.env.push((var.into(), v)),
            2 => {
                self.env.push((var.into(), hex::encode([0x5a; 32])));
                self.arg(t, name, v);
            }
            _ => self.arg(t, name, v),
        }
    }
    fn hex(&mut self, t: &mut Tape, b: &[u8]) -> String {
        let mut s = hex::encode(b);
        if t.below(3) == 0 {
            s = s.to_uppercase();
        }
        if t.flag() {
            s = format!("0x{s}");
        }
        if t.below(4) == 0 {
            s = [format!(" {s}"), format!("{s}\n"), format!("{s} ")][t.below(3)].clone();
        }
        match t.below(40) {
            7 => {
                self.bad("bytes that are not hexadecimal");
                s.push('g');
            }
            8 => {
                self.bad("half a byte");
                s = s.trim().to_string() + "a";
            }
            _ => {}
        }
        s
    }
    fn signer(&mut self, t: &mut Tape) -> SigningKey {
        let i = t.u8();
        let key = gens::signing_key(i);
        self.secrets.push(hex::encode(key.to_bytes()));
        let mut b = key.to_bytes().to_vec();
        match t.below(50) {
            7 => {
                self.bad("a secret of 31 bytes");
                b.pop();
            }
            8 => {
                self.bad("a secret of 33 bytes");
                b.push(1);
            }
            9 => {
                self.bad("no secret");
                return key;
            }
            _ => {}
        }
        let s = self.hex(t, &b);
        self.or_env(t, "signer-secret", "SIGNER_SECRET", s);
        key
    }
    fn wallet(&mut self, t: &mut Tape) -> PrivateKeySigner {
        let i = t.below(PHRASES.len());
        let path = ["m/44'/60'/0'/0/0", "m/44'/60'/0'/0/1", "m/44'/60'/0'/0/4", "m/44'/60'/2'/0/0", "m/0"][t.below(5)];
        if t.flag() || path != "m/44'/60'/0'/0/0" {
            self.arg(t, "path", path);
        }
        self.secrets.push(PHRASES[i].into());
        match t.below(40) {
            7 => self.bad("no recovery phrase"),
            8 => {
                self.bad("a recovery phrase that is none");
                self.env.push(("MNEMONIC".into(), format!("{} test", PHRASES[i])));
            }
            9 => self.env.push(("MNEMONIC".into(), format!(" {}\n", PHRASES[i]))),
            _ => self.env.push(("MNEMONIC".into(), PHRASES[i].into())),
        }
        let w = MnemonicBuilder::<English>::default().phrase(PHRASES[i]).derivation_path(path).unwrap().build().unwrap();
        if i == 0 {
            let known = match path {
                "m/44'/60'/0'/0/0" => "0xf39Fd6e51aad88F6F4ce6aB8827279cffFb92266",
                "m/44'/60'/0'/0/1" => "0x70997970C51812dc3A010C7d01b50e0d17dc79C8",
                "m/44'/60'/0'/0/4" => "0x15d34AAf54267DB7D7c367839AAf71A00a2C6A65",
                _ => "",
            };
            assert!(known.is_empty() || w.address().to_string() == known);
        }
        w
    }
    fn confirm(&mut self, t: &mut Tape) {
        if t.below(4) > 0 {
            self.args.push(vec!["--yes".into()]);
        } else {
            let a = ["y", "Y", "yes", "YES\n", "y\r\n", " y \n", "n\n", "", "no", "Yes\n", "\ny\n", "yy", "yes please"][t.below(13)];
            self.stdin = a.as_bytes().to_vec();
            if !["y", "Y", "yes", "YES\n", "y\r\n", " y \n"].contains(&a) {
                self.bad("the operator did not agree");
            }
        }
    }
    fn build(&self, t: &mut Tape, sub: &[&str], node: &str, net: Option<&str>) -> Vec<String> {
        let mut g = self.args.clone();
        for i in (1..g.len()).rev() {
            g.swap(i, t.below(i + 1));
        }
        let mut head: Vec<String> = vec![];
        let n = vec![format!("--node={node}")];
        let w = net.map(|n| vec!["--network".to_string(), n.to_string()]);
        let before = t.below(4);
        let mut tail = vec![];
        if before & 1 == 0 { head.extend(n) } else { tail.extend(n) };
        if let Some(w) = w {
            if before & 2 == 0 { head.extend(w) } else { tail.extend(w) }
        }
        head.extend(sub.iter().map(|s| s.to_string()));
        head.extend(g.into_iter().flatten());
        head.extend(tail);
        head
    }
}
const PHRASES: [&str; 3] = [
    "test test test test test test test test test test test junk",
    "legal winner thank year wave sausage worth useful legal winner thank yellow",
    "zoo zoo zoo zoo zoo zoo zoo zoo zoo zoo zoo zoo zoo zoo zoo zoo zoo zoo zoo zoo zoo zoo zoo vote",
];

fn text(t: &mut Tape) -> String {
    t.string().replace('\0', "")
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum When {
    Now,
    At(u32),
}
fn stamp(t: &mut Tape, l: &mut Line) -> When {
    match t.below(3) {
        0 => {
            let v = match t.below(3) {
                0 => t.u32(),
                _ => now() - 1000 + t.u8() as u32,
            };
            l.arg(t, "timestamp", v.to_string());
            When::At(v)
        }
        _ => When::Now,
    }
}

/// How the server answers, and whether that counts as accepted.
fn reply(t: &mut Tape) -> (Reply, bool) {
    match t.below(16) {
        0 => (Reply::new(400, "{\"error\":\"bad\"}"), false),
        1 => (Reply::new(400, "... JSON mapping not yet implemented ..."), true),
        2 => (Reply::new(500, "JSON mapping not yet implemented"), false),
        3 => (Reply::new(404, "no"), false),
        4 => (Reply::new(503, ""), false),
        5 => (Reply::new(201, "{}"), true),
        6 => (Reply::new(204, ""), true),
        7 => (Reply::new(200, "JSON mapping not yet implemented"), true),
        8 => (Reply::new(401, "unauthorized"), false),
        _ => (Reply::new(200, "{\"hash\":\"0x00\"}"), true),
    }
}

fn net_of(t: &mut Tape) -> (Option<&'static str>, FarcasterNetwork) {
    match t.below(4) {
        0 => (None, FarcasterNetwork::Testnet),
        1 => (Some("mainnet"), FarcasterNetwork::Mainnet),
        2 => (Some("testnet"), FarcasterNetwork::Testnet),
        _ => (Some("devnet"), FarcasterNetwork::Devnet),
    }
}

/// Everything that holds of any message the client submits.
fn envelope(m: &proto::Message, raw: &[u8], key: Option<&SigningKey>, net: FarcasterNetwork) -> Result<MessageData, String> {
    ensure_eq!(m.encode_to_vec(), raw, "the body is not exactly one message");
    let d = m.data.clone().ok_or("no data")?;
    ensure!(m.data_bytes.is_none() || m.data_bytes.as_deref() == Some(&d.encode_to_vec()), "data_bytes differ from the data");
    ensure_eq!(d.network, net as i32, "network");
    ensure_eq!(m.hash_scheme, HashScheme::Blake3 as i32, "hash scheme");
    ensure_eq!(m.signature_scheme, SignatureScheme::Ed25519 as i32, "signature scheme");
    ensure_eq!(m.hash, gens::h20(&d.encode_to_vec()), "hash");
    if let Some(k) = key {
        ensure_eq!(m.signer, k.verifying_key().to_bytes().to_vec(), "signer");
    }
    let vk = VerifyingKey::from_bytes(&m.signer.clone().try_into().map_err(|_| "signer length")?).map_err(|e| e.to_string())?;
    vk.verify(&m.hash, &Signature::from_slice(&m.signature).map_err(|e| e.to_string())?).map_err(|_| "the signature does not verify")?;
    Ok(d)
}
fn posted(r: &Req) -> Result<proto::Message, String> {
    ensure_eq!((r.method.as_str(), r.path.as_str()), ("POST", "/v1/submitMessage"), "the request line");
    ensure!(r.headers.iter().any(|h| h.0 == "content-type" && h.1 == "application/octet-stream"), "content-type: {:?}", r.headers);
    proto::Message::decode(&r.body[..]).map_err(|e| format!("the body is no message: {e}"))
}
fn node_says(m: &proto::Message, net: FarcasterNetwork) -> Result<(), String> {
    let t = FarcasterTime::current();
    validate_message(m, net, false, &t, EngineVersion::version_for(&t, net)).map_err(|e| format!("{e:?}"))
}
fn quiet(o: &Out, l: &Line) -> R {
    let all = o.all().to_lowercase();
    for s in &l.secrets {
        ensure!(!all.contains(&s.to_lowercase()), "a secret it was given is printed: {all}");
    }
    Ok(())
}

enum Kind {
    Plain(Body, MessageType),
    Verify { wallet: PrivateKeySigner, block: Option<Vec<u8>> },
    KeyAdd { custody: PrivateKeySigner, request_fid: u64, nonce: u32, ttl: u32, scopes: Vec<i32>, deadline: u32, fresh: bool },
    KeyRemove { custody: Option<PrivateKeySigner>, key: Vec<u8>, nonce: u32, deadline: u32 },
}

fn submit(c: &Vec<u8>, o: &mut Obs) -> R {
    let mut t = Tape::new(c);
    let (netarg, net) = net_of(&mut t);
    let mut l = Line::new();
    let fid = match t.below(3) {
        0 => 1 + t.u8() as u64,
        _ => t.u64(),
    };
    let which = t.below(9);
    l.num(&mut t, "fid", fid, u64::MAX);
    let mut when = When::Now;
    let mut valid = fid > 0;
    let link = |t: &mut Tape, l: &mut Line, valid: &mut bool| -> String {
        let s = ["follow", "follow", "block", "a", "12345678", "éééé", "123456789", "", "ééééé", "Follow", "a b"][t.below(11)];
        if !(s == "follow" && t.flag()) {
            l.arg(t, "type", s);
        }
        if s.is_empty() || s.len() > 8 {
            l.bad("a link type of 0 or more than 8 bytes");
        }
        // the node looks the target of a link up only when it merges it
        let _ = valid;
        s.into()
    };
    let (sub, kind, label): (&[&str], Kind, &'static str) = match which {
        0 => {
            let text = text(&mut t);
            valid &= !text.is_empty() && text.len() <= 320;
            l.arg(&mut t, "text", text.clone());
            let b = CastAddBody { text, ..Default::default() };
            (&["cast-add"], Kind::Plain(Body::CastAddBody(b), MessageType::CastAdd), "cast-add")
        }
        1 => {
            let n = [20, 20, 20, 20, 19, 21, 0, 32][t.below(8)];
            valid &= n == 20;
            let h = gens::fill(n, t.u8());
            let s = l.hex(&mut t, &h);
            l.arg(&mut t, "target-hash", s);
            let b = CastRemoveBody { target_hash: h };
            (&["cast-remove"], Kind::Plain(Body::CastRemoveBody(b), MessageType::CastRemove), "cast-remove")
        }
        2 | 3 => {
            let target = t.u64();
            l.num(&mut t, "target-fid", target, u64::MAX);
            let ty = link(&mut t, &mut l, &mut valid);
            when = stamp(&mut t, &mut l);
            valid &= target > 0;
            let mut b = LinkBody { r#type: ty, display_timestamp: None, target: Some(link_body::Target::TargetFid(target)) };
            if which == 2 {
                if t.below(3) == 0 {
                    let v = t.u32();
                    l.arg(&mut t, "display-timestamp", v.to_string());
                    b.display_timestamp = Some(v);
                }
                (&["link", "add"], Kind::Plain(Body::LinkBody(b), MessageType::LinkAdd), "link add")
            } else {
                (&["link", "remove"], Kind::Plain(Body::LinkBody(b), MessageType::LinkRemove), "link remove")
            }
        }
        4 => {
            let ty = link(&mut t, &mut l, &mut valid);
            let n = 1 + t.below(5);
            let fids: Vec<u64> = (0..n).map(|_| t.u64()).collect();
            when = stamp(&mut t, &mut l);
            let mut u = fids.clone();
            u.sort();
            u.dedup();
            valid &= u.len() == fids.len() && u[0] > 0;
            if t.below(20) == 7 {
                l.bad("no targets");
                if t.flag() {
                    l.args.push(vec!["--target-fids=".into()]);
                }
            } else if t.below(3) == 0 {
                for f in &fids {
                    l.arg(&mut t, "target-fids", f.to_string());
                }
                // the order in which repeated flags land is the shuffled one: keep it
                if n > 1 {
                    l.args.retain(|a| !a[0].starts_with("--target-fids"));
                    let j = fids.iter().map(|f| f.to_string()).collect::<Vec<_>>();
                    l.args.push(j.iter().map(|f| format!("--target-fids={f}")).collect());
                }
            } else {
                l.arg(&mut t, "target-fids", fids.iter().map(|f| f.to_string()).collect::<Vec<_>>().join(","));
            }
            let b = LinkCompactStateBody { r#type: ty, target_fids: fids };
            (&["link", "compact-state"], Kind::Plain(Body::LinkCompactStateBody(b), MessageType::LinkCompactState), "link compact-state")
        }
        5 => {
            let wallet = if t.flag() {
                let i = t.u8() % 5;
                let w = gens::eth_key(i);
                let raw = w.to_bytes();
                l.secrets.push(hex::encode(raw));
                let s = l.hex(&mut t, raw.as_slice());
                l.or_env(&mut t, "wallet-secret", "WALLET_SECRET", s);
                w
            } else {
                l.wallet(&mut t)
            };
            let block = match t.below(4) {
                0 => None,
                k => {
                    let n = if k == 1 && t.below(5) == 0 {
                        l.bad("a block hash that is not 32 bytes");
                        [31, 33, 0][t.below(3)]
                    } else {
                        32
                    };
                    let b = gens::fill(n, t.u8());
                    let s = l.hex(&mut t, &b);
                    l.arg(&mut t, "block-hash", s);
                    Some(b)
                }
            };
            (&["verification", "add"], Kind::Verify { wallet, block }, "verification add")
        }
        6 => {
            let n = if t.below(10) == 0 {
                l.bad("an address that is not 20 bytes");
                [19, 21, 32, 0][t.below(4)]
            } else {
                20
            };
            let a = gens::fill(n, t.u8());
            let s = l.hex(&mut t, &a);
            l.arg(&mut t, "address", s);
            let b = VerificationRemoveBody { address: a, protocol: 0 };
            (&["verification", "remove"], Kind::Plain(Body::VerificationRemoveBody(b), MessageType::VerificationRemove), "verification remove")
        }
        7 => {
            let custody = l.wallet(&mut t);
            let nonce = t.u32();
            l.num(&mut t, "nonce", nonce as u64, u32::MAX as u64);
            let mut request_fid = fid;
            if t.flag() {
                request_fid = t.u64();
                l.arg(&mut t, "request-fid", request_fid.to_string());
            }
            valid &= request_fid > 0;
            let mut ttl = 7_776_000;
            if t.flag() {
                ttl = [0, 1, 60, 86_400, 7_775_999, 7_776_000, 7_776_001, u32::MAX][t.below(8)];
                l.arg(&mut t, "ttl", ttl.to_string());
            }
            valid &= ttl >= 1 && ttl <= 7_776_000;
            let mut deadline = 600;
            if t.flag() {
                deadline = [600, 60, 1000, 86_400, 1_000_000_000][t.below(5)];
                l.arg(&mut t, "deadline-secs", deadline.to_string());
            }
            const NAMES: [(&str, MessageType); 12] = [
                ("cast-add", MessageType::CastAdd),
                ("cast-remove", MessageType::CastRemove),
                ("reaction-add", MessageType::ReactionAdd),
                ("reaction-remove", MessageType::ReactionRemove),
                ("link-add", MessageType::LinkAdd),
                ("link-remove", MessageType::LinkRemove),
                ("verification-add", MessageType::VerificationAddEthAddress),
                ("verification-remove", MessageType::VerificationRemove),
                ("user-data-add", MessageType::UserDataAdd),
                ("username-proof", MessageType::UsernameProof),
                ("frame-action", MessageType::FrameAction),
                ("link-compact-state", MessageType::LinkCompactState),
            ];
            let scopes: Vec<i32> = if t.flag() {
                let n = 1 + t.below(6);
                let mut s: Vec<usize> = (0..n).map(|_| t.below(12)).collect();
                let mut seen = vec![];
                s.retain(|x| !seen.contains(x) && { seen.push(*x); true });
                if t.below(20) == 7 {
                    l.bad("an unknown scope");
                    let bad = ["key-add", "all", "cast_add"][t.below(3)];
                    l.arg(&mut t, "scopes", format!("{},{}", NAMES[s[0]].0, bad));
                } else {
                    l.arg(&mut t, "scopes", s.iter().map(|i| NAMES[*i].0).collect::<Vec<_>>().join(","));
                }
                s.iter().map(|i| NAMES[*i].1 as i32).collect()
            } else {
                NAMES.iter().map(|n| n.1 as i32).collect()
            };
            l.confirm(&mut t);
            let fresh = t.below(3) == 0;
            (&["key-add"], Kind::KeyAdd { custody, request_fid, nonce, ttl, scopes, deadline, fresh }, "key-add")
        }
        _ => {
            let nonce = t.u32();
            l.num(&mut t, "nonce", nonce as u64, u32::MAX as u64);
            let mut deadline = 600;
            if t.flag() {
                deadline = [600, 60, 1000, 86_400, 1_000_000_000][t.below(5)];
                l.arg(&mut t, "deadline-secs", deadline.to_string());
            }
            l.confirm(&mut t);
            let k = gens::signing_key(t.u8()).verifying_key().to_bytes().to_vec();
            if t.flag() {
                let custody = l.wallet(&mut t);
                if t.flag() {
                    l.arg(&mut t, "mode", "custody");
                }
                let key = match t.below(20) {
                    7 => {
                        l.bad("no target key");
                        k
                    }
                    n => {
                        let k = if n == 8 { l.bad("a key of 31 bytes"); k[1..].to_vec() } else { k };
                        let s = l.hex(&mut t, &k);
                        l.arg(&mut t, "target-key", s);
                        k
                    }
                };
                (&["key-remove"], Kind::KeyRemove { custody: Some(custody), key, nonce, deadline }, "key-remove custody")
            } else {
                l.arg(&mut t, "mode", "self-revoke");
                if t.below(3) == 0 {
                    l.arg(&mut t, "target-key", hex::encode(&k));
                }
                (&["key-remove"], Kind::KeyRemove { custody: None, key: vec![], nonce, deadline }, "key-remove self-revoke")
            }
        }
    };
    let fresh = matches!(kind, Kind::KeyAdd { fresh: true, .. });
    let key = (!fresh).then(|| l.signer(&mut t));
    // a fresh key is what no secret means
    let unsigned = matches!(kind, Kind::KeyAdd { .. }) && l.bad == Some("no secret");
    if unsigned {
        l.bad = None;
    }
    let (rep, good) = reply(&mut t);
    let rep2 = rep.clone();
    let srv = Server::start(move |_, _| rep2.clone());
    let node = format!("http://127.0.0.1:{}{}", srv.port, ["", "/", "//"][t.below(3)]);
    let args = l.build(&mut t, sub, &node, netarg);
    let t0 = now();
    let out = fc(&args, &l.env, &l.stdin, None);
    let t1 = now();
    let reqs = srv.stop();
    o.label(label);
    quiet(&out, &l)?;
    if let Some(why) = l.bad {
        o.label("refused");
        ensure!(!out.ok(), "{why}, but the client succeeded: {args:?}");
        ensure!(reqs.is_empty(), "{why}, but the client submitted something: {args:?}");
        return Ok(());
    }
    o.nt();
    ensure!(reqs.len() == 1, "{} requests: {args:?}\n{}", reqs.len(), out.all());
    ensure!(out.ok() == good, "exit {:?} after HTTP {} {:?}\n{}", out.code, rep.status, String::from_utf8_lossy(&rep.body), out.all());
    o.label_if(!good, "the node refuses");
    let m = posted(&reqs[0])?;
    let key = if unsigned { None } else { key };
    let d = envelope(&m, &reqs[0].body, key.as_ref(), net)?;
    ensure_eq!(d.fid, fid, "fid");
    let fresh_time = (t0..=t1).contains(&d.timestamp);
    match when {
        When::Now => ensure!(fresh_time, "timestamp {} is not now ({t0}..{t1})", d.timestamp),
        When::At(v) => ensure_eq!(d.timestamp, v, "timestamp"),
    }
    let due = |x: u32, secs: u32| (t0 + secs..=t1 + secs).contains(&x);
    let body = d.body.clone().ok_or("no body")?;
    match &kind {
        Kind::Plain(b, ty) => {
            ensure_eq!(d.r#type, *ty as i32, "type");
            ensure_eq!(&body, b, "body");
        }
        Kind::Verify { wallet, block } => {
            ensure_eq!(d.r#type, MessageType::VerificationAddEthAddress as i32, "type");
            let Body::VerificationAddAddressBody(b) = &body else { return Err(format!("{body:?}")) };
            ensure_eq!(b.address, wallet.address().to_vec(), "address");
            ensure_eq!(b.block_hash.len(), 32, "block hash length");
            if let Some(h) = block {
                ensure_eq!(&b.block_hash, h, "block hash");
            }
            ensure_eq!((b.verification_type, b.chain_id, b.protocol), (0, 0, 0), "kind of claim");
        }
        Kind::KeyAdd { custody, request_fid, nonce, ttl, scopes, deadline, .. } => {
            ensure_eq!(d.r#type, MessageType::KeyAdd as i32, "type");
            let Body::KeyAddBody(b) = &body else { return Err(format!("{body:?}")) };
            ensure_eq!(b.key, m.signer, "the key that is added");
            ensure_eq!((b.key_type, b.nonce, b.ttl, &b.scopes, b.metadata_type), (1, *nonce, *ttl, scopes, 1), "terms");
            ensure!(b.registration_tx_hash.is_empty(), "registration hash");
            ensure!(due(b.deadline, *deadline), "deadline {}", b.deadline);
            let p = vkey::KeyAddPayload { fid, key: &b.key, key_type: 1, scopes: &b.scopes, ttl: b.ttl, nonce: b.nonce, deadline: b.deadline };
            let who = vkey::recover_key_add_custody_address(&p, &b.custody_signature, 1).map_err(|e| format!("{e:?}"))?;
            ensure_eq!(who, custody.address(), "custody signature");
            let r = vkey::verify_signed_key_request_metadata(1, &b.metadata, &b.key, t1 as u64, 1).map_err(|e| format!("{e:?}"))?;
            ensure_eq!((r.request_fid, r.request_signer), (*request_fid, custody.address()), "the key request");
            ensure_eq!(r.deadline, b.deadline as u64, "deadline of the key request");
            if fresh || unsigned {
                let found = words64(&out.out).into_iter().any(|w| SigningKey::from_bytes(&w.try_into().unwrap()).verifying_key().to_bytes()[..] == m.signer[..]);
                ensure!(found, "the secret of the fresh signer is not shown: {}", out.out);
            }
        }
        Kind::KeyRemove { custody, key, nonce, deadline } => {
            ensure_eq!(d.r#type, MessageType::KeyRemove as i32, "type");
            let Body::KeyRemoveBody(b) = &body else { return Err(format!("{body:?}")) };
            ensure_eq!(b.nonce, *nonce, "nonce");
            ensure!(due(b.deadline, *deadline), "deadline {}", b.deadline);
            match custody {
                Some(w) => {
                    ensure_eq!((&b.key, b.signature_type), (key, 1), "custody removal");
                    let p = vkey::KeyRemovePayload { fid, key: &b.key, nonce: b.nonce, deadline: b.deadline };
                    let who = vkey::recover_key_remove_custody_address(&p, &b.signature, 1).map_err(|e| format!("{e:?}"))?;
                    ensure_eq!(who, w.address(), "custody signature");
                }
                None => ensure_eq!((&b.key, b.signature_type), (&m.signer, 2), "self revocation"),
            }
        }
    }
    valid &= match when {
        When::Now => true,
        When::At(v) => v <= t0 + 500,
    };
    if valid {
        o.label("acceptable");
        node_says(&m, net).map_err(|e| format!("the node refuses it: {e} {d:?}"))?;
    }
    // a mainnet node takes nothing meant for another network
    ensure!(net == FarcasterNetwork::Mainnet || node_says(&m, FarcasterNetwork::Mainnet).is_err(), "also accepted on mainnet");
    Ok(())
}

/// live-at: every heartbeat is a message of its own, and a presence is cleared when it ends.
fn live(c: &Vec<u8>, o: &mut Obs) -> R {
    let mut t = Tape::new(c);
    let (netarg, net) = net_of(&mut t);
    let mut l = Line::new();
    let fid = 1 + t.u64() % 1_000_000;
    l.num(&mut t, "fid", fid, u64::MAX);
    let key = l.signer(&mut t);
    let mut value = match t.below(3) {
        0 => String::new(),
        1 => "https://example.com/live".into(),
        _ => text(&mut t),
    };
    match t.below(4) {
        0 => {
            l.args.push(vec!["--clear".into()]);
            if t.below(6) == 0 {
                l.bad("a value and --clear");
                l.arg(&mut t, "value", value.clone());
            }
            value = String::new();
        }
        1 => {
            value = value.replace('\n', "");
            let end = ["\n", "\r\n", ""][t.below(3)];
            l.stdin = format!("{value}{end}").into_bytes();
        }
        _ => l.arg(&mut t, "value", value.clone()),
    }
    let when = stamp(&mut t, &mut l);
    let when = match when {
        When::At(v) if v > u32::MAX - 20 => return Ok(()),
        w => w,
    };
    let endless = t.below(24) == 7;
    let count = [0u32, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 2, 3, 1, 1, 1][t.below(16)];
    if !endless {
        l.arg(&mut t, "count", count.to_string());
    }
    let plan: Vec<(Reply, bool)> = (0..10).map(|_| reply(&mut t)).collect();
    let p2 = plan.clone();
    let srv = Server::start(move |n, _| p2[n.min(9)].0.clone());
    let node = format!("http://127.0.0.1:{}", srv.port);
    let args = l.build(&mut t, &["live-at"], &node, netarg);
    let t0 = now();
    // an interrupt ends the run in order
    let log = srv.log.clone();
    let begun = move || !log.lock().unwrap().is_empty();
    let out = fc(&args, &l.env, &l.stdin, if endless && l.bad.is_none() { Some(&begun) } else { None });
    let t1 = now();
    let reqs = srv.stop();
    quiet(&out, &l)?;
    if let Some(why) = l.bad {
        o.label("refused");
        ensure!(!out.ok() && reqs.is_empty(), "{why}: exit {:?}, {} requests {args:?}", out.code, reqs.len());
        return Ok(());
    }
    let mut seen = vec![];
    for r in &reqs {
        let m = posted(r)?;
        let d = envelope(&m, &r.body, Some(&key), net)?;
        ensure_eq!((d.fid, d.r#type), (fid, MessageType::UserDataAdd as i32), "fid, type");
        let Some(Body::UserDataBody(b)) = d.body.clone() else { return Err(format!("{d:?}")) };
        ensure_eq!(b.r#type, UserDataType::LiveAt as i32, "user data type");
        seen.push((d.timestamp, b.value));
        if value.len() <= 256 && when == When::Now && FarcasterTime::current().to_u64() > 0 {
            let says = node_says(&m, net);
            o.label_if(says.is_ok(), "acceptable");
        }
    }
    // the model: heartbeats until the count is reached or one is refused, then a clear
    let mut want: Vec<&str> = vec![];
    let mut fine = true;
    let beats = if endless { seen.len().saturating_sub(!value.is_empty() as usize).max(1) as u32 } else { count };
    let mut sent = 0;
    for i in 0..beats {
        want.push(&value);
        if !plan[(i as usize).min(9)].1 {
            fine = false;
            break;
        }
        sent += 1;
    }
    if !value.is_empty() && sent > 0 {
        want.push("");
    }
    let got: Vec<&str> = seen.iter().map(|s| s.1.as_str()).collect();
    ensure_eq!(got, want, "what was submitted ({} answers, count {count}, endless {endless})", plan.len());
    ensure!(out.ok() == fine, "exit {:?}, every heartbeat accepted: {fine}\n{}", out.code, out.all());
    for (i, w) in seen.iter().enumerate() {
        if i == 0 {
            match when {
                When::Now => ensure!((t0..=t1).contains(&w.0), "first timestamp {}", w.0),
                When::At(v) => ensure_eq!(w.0, v, "first timestamp"),
            }
        } else {
            let p = seen[i - 1].0;
            ensure!(w.0 > p, "timestamps {seen:?} do not increase");
            ensure!(w.0 == p + 1 || (t0..=t1).contains(&w.0), "timestamp {} runs ahead of the clock", w.0);
            ensure!(w.0 >= t0, "a later heartbeat carries a timestamp {} of before the run", w.0);
        }
    }
    if seen.len() > 1 {
        o.nt();
    }
    o.label_if(endless, "interrupted");
    o.label_if(!fine, "a heartbeat is refused");
    o.label_if(seen.len() > 2, "several heartbeats");
    Ok(())
}

struct Admin {
    log: Mutex<Vec<(OnChainEvent, Option<String>)>>,
    fail_at: Option<usize>,
}
struct AdminSvc(Arc<Admin>);
#[tonic::async_trait]
impl admin_service_server::AdminService for AdminSvc {
    async fn submit_on_chain_event(&self, r: tonic::Request<OnChainEvent>) -> Result<tonic::Response<OnChainEvent>, tonic::Status> {
        let auth = r.metadata().get("authorization").map(|v| v.to_str().unwrap_or("?").to_string());
        let e = r.into_inner();
        let mut g = self.0.log.lock().unwrap();
        g.push((e.clone(), auth));
        if self.0.fail_at == Some(g.len() - 1) {
            return Err(tonic::Status::unauthenticated("no"));
        }
        Ok(tonic::Response::new(e))
    }
    async fn submit_user_name_proof(&self, _: tonic::Request<UserNameProof>) -> Result<tonic::Response<UserNameProof>, tonic::Status> {
        Err(tonic::Status::unimplemented(""))
    }
    async fn upload_snapshot(&self, _: tonic::Request<UploadSnapshotRequest>) -> Result<tonic::Response<Empty>, tonic::Status> {
        Err(tonic::Status::unimplemented(""))
    }
    async fn retry_onchain_events(&self, _: tonic::Request<RetryOnchainEventsRequest>) -> Result<tonic::Response<Empty>, tonic::Status> {
        Err(tonic::Status::unimplemented(""))
    }
    async fn retry_fname_events(&self, _: tonic::Request<RetryFnameRequest>) -> Result<tonic::Response<Empty>, tonic::Status> {
        Err(tonic::Status::unimplemented(""))
    }
    async fn run_onchain_events_migration(&self, _: tonic::Request<RunOnchainEventsMigrationRequest>) -> Result<tonic::Response<Empty>, tonic::Status> {
        Err(tonic::Status::unimplemented(""))
    }
}
/// Serves `svc` on a loopback port for as long as `f` runs.
fn serving<T>(add: impl FnOnce(tonic::transport::Server) -> tonic::transport::server::Router + Send + 'static, f: impl FnOnce(u16) -> T) -> T {
    let (etx, erx) = tokio::sync::oneshot::channel::<()>();
    let l = run::listener();
    let port = l.local_addr().unwrap().port();
    let l2 = l.try_clone().unwrap();
    let j = std::thread::spawn(move || {
        crate::frame::rt().block_on(async {
            l2.set_nonblocking(true).unwrap();
            let l = tokio::net::TcpListener::from_std(l2).unwrap();
            let inc = tonic::transport::server::TcpIncoming::from_listener(l, true, None).unwrap();
            let r = add(tonic::transport::Server::builder());
            tokio::select! {
                _ = r.serve_with_incoming(inc) => {}
                _ = erx => {}
            }
        })
    });
    let v = f(port);
    let _ = etx.send(());
    if j.join().is_ok() {
        run::idle(l);
    }
    v
}

fn bootstrap(c: &Vec<u8>, o: &mut Obs) -> R {
    let mut t = Tape::new(c);
    let mut l = Line::new();
    let fid = match t.below(4) {
        0 => u64::MAX - t.u8() as u64 % 6,
        _ => t.u64(),
    };
    let count = [1u64, 1, 2, 3, 5, 0, u64::MAX][t.below(7)];
    l.num(&mut t, "fid", fid, u64::MAX);
    if count != 1 || t.flag() {
        l.arg(&mut t, "count", count.to_string());
    }
    if count == 0 {
        l.bad("a count of zero");
    } else if fid.checked_add(count - 1).is_none() {
        l.bad("fids beyond the last");
    } else if count == u64::MAX {
        return Ok(());
    }
    let mut units = 10;
    if t.flag() {
        units = t.u32();
        l.arg(&mut t, "units", units.to_string());
    }
    let auth = t.flag().then(|| ["dev:dev", "user:pa:ss", "é:ü", ":", "a"][t.below(5)]);
    if let Some(a) = auth {
        l.arg(&mut t, "auth", a);
    }
    let shared = if t.flag() {
        let k = l.signer(&mut t);
        l.secrets.clear(); // this command is documented to print signer secrets
        if l.bad == Some("no secret") {
            l.bad = None;
            None
        } else {
            Some(k)
        }
    } else {
        None
    };
    let fail_at = (t.below(4) == 0).then(|| t.below(9));
    let a = Arc::new(Admin { log: Mutex::new(vec![]), fail_at });
    let a2 = a.clone();
    let u0 = SystemTime::now().duration_since(SystemTime::UNIX_EPOCH).unwrap().as_secs();
    let (out, args) = serving(
        move |mut s| s.add_service(admin_service_server::AdminServiceServer::new(AdminSvc(a2))),
        |port| {
            l.args.push(vec![format!("--grpc-node=http://127.0.0.1:{port}")]);
            let args = l.build(&mut t, &["devnet", "bootstrap"], "http://127.0.0.1:1", None);
            (fc(&args, &l.env, b"", None), args)
        },
    );
    let u1 = SystemTime::now().duration_since(SystemTime::UNIX_EPOCH).unwrap().as_secs();
    let log = a.log.lock().unwrap();
    if let Some(why) = l.bad {
        o.label("refused");
        ensure!(!out.ok() && log.is_empty(), "{why}: exit {:?}, {} events", out.code, log.len());
        return Ok(());
    }
    o.nt();
    o.label_if(count > 1, "several fids");
    let all = 3 * count as usize;
    let n = fail_at.map_or(all, |f| all.min(f + 1));
    o.label_if(n < all, "stopped early");
    ensure_eq!(log.len(), n, "events submitted {args:?}\n{}", out.all());
    ensure!(out.ok() == fail_at.map_or(true, |f| f >= all), "exit {:?}", out.code);
    use base64::Engine;
    let want_auth = auth.map(|a| format!("Basic {}", base64::engine::general_purpose::STANDARD.encode(a)));
    let shown = words64(&out.out);
    let mut keys = vec![];
    let mut hashes = vec![];
    for (i, (e, auth)) in log.iter().enumerate() {
        ensure_eq!(auth, &want_auth, "credentials");
        ensure_eq!((e.fid, e.chain_id), (fid + i as u64 / 3, 10), "fid, chain");
        ensure!((u0 - 10..=u1 - 10).contains(&e.block_timestamp), "block timestamp {}", e.block_timestamp);
        ensure_eq!(e.transaction_hash.len(), 32, "transaction hash");
        ensure!(!hashes.contains(&e.transaction_hash), "one transaction twice");
        hashes.push(e.transaction_hash.clone());
        match (i % 3, e.body.clone()) {
            (0, Some(on_chain_event::Body::StorageRentEventBody(b))) => {
                ensure_eq!((e.r#type, b.units), (OnChainEventType::EventTypeStorageRent as i32, units), "rent")
            }
            (1, Some(on_chain_event::Body::IdRegisterEventBody(b))) => {
                ensure_eq!((e.r#type, b.event_type, b.to.len()), (OnChainEventType::EventTypeIdRegister as i32, IdRegisterEventType::Register as i32, 20), "register")
            }
            (2, Some(on_chain_event::Body::SignerEventBody(b))) => {
                ensure_eq!((e.r#type, b.event_type, b.key_type), (OnChainEventType::EventTypeSigner as i32, SignerEventType::Add as i32, 1), "signer");
                if let Some(k) = &shared {
                    ensure_eq!(b.key, k.verifying_key().to_bytes().to_vec(), "the shared signer");
                } else {
                    ensure!(!keys.contains(&b.key), "one signer for two fids");
                }
                if i + 1 < n || out.ok() {
                    let f = shown.iter().any(|w| SigningKey::from_bytes(w.as_slice().try_into().unwrap()).verifying_key().to_bytes()[..] == b.key[..]);
                    ensure!(f, "the signer secret of fid {} is not shown: {}", e.fid, out.out);
                }
                keys.push(b.key);
            }
            (k, b) => return Err(format!("event {k} of a fid is {b:?}")),
        }
    }
    Ok(())
}

fn subscribe(c: &Vec<u8>, o: &mut Obs) -> R {
    let mut t = Tape::new(c);
    let mut l = Line::new();
    let shard = t.u32();
    l.num(&mut t, "shard", shard as u64, u32::MAX as u64);
    let from = t.flag().then(|| t.u64());
    if let Some(f) = from {
        l.arg(&mut t, "from-id", f.to_string());
    }
    const TYPES: [(&str, HubEventType); 8] = [
        ("merge-message", HubEventType::MergeMessage),
        ("prune-message", HubEventType::PruneMessage),
        ("revoke-message", HubEventType::RevokeMessage),
        ("merge-username-proof", HubEventType::MergeUsernameProof),
        ("merge-on-chain-event", HubEventType::MergeOnChainEvent),
        ("merge-failure", HubEventType::MergeFailure),
        ("block-confirmed", HubEventType::BlockConfirmed),
        ("channel-owner-change-hint", HubEventType::ChannelOwnerChangeHint),
    ];
    let mut want: Vec<i32> = TYPES.iter().map(|x| x.1 as i32).collect();
    if t.flag() {
        let n = 1 + t.below(4);
        let s: Vec<usize> = (0..n).map(|_| t.below(8)).collect();
        want = s.iter().map(|i| TYPES[*i].1 as i32).collect();
        l.arg(&mut t, "event-types", s.iter().map(|i| TYPES[*i].0).collect::<Vec<_>>().join(","));
    }
    let n = t.below(5);
    t.wild = true;
    let events: Vec<HubEvent> = (0..n).map(|_| t.make::<HubEvent>()).collect();
    let broken = t.below(4) == 0;
    let refuse = t.below(10) == 7;
    let f = Arc::new(Fake::default());
    {
        let mut e: Vec<Result<HubEvent, tonic::Status>> = events.iter().cloned().map(Ok).collect();
        if broken {
            e.push(Err(tonic::Status::unavailable("gone")));
        }
        *f.events.lock().unwrap() = e;
        if refuse {
            *f.reply.lock().unwrap() = Some(Err(tonic::Status::invalid_argument("no")));
        }
    }
    let f2 = f.clone();
    let out = serving(
        move |mut s| s.add_service(hub_service_server::HubServiceServer::from_arc(f2)),
        |port| {
            l.args.push(vec![format!("--grpc-node=http://127.0.0.1:{port}")]);
            let args = l.build(&mut t, &["subscribe"], "http://127.0.0.1:1", None);
            fc(&args, &l.env, b"", None)
        },
    );
    let log = f.log.lock().unwrap();
    if let Some(why) = l.bad {
        o.label("refused");
        ensure!(!out.ok() && log.is_empty(), "{why}");
        return Ok(());
    }
    ensure_eq!(log.len(), 1, "calls\n{}", out.all());
    let q = SubscribeRequest::decode(&log[0].req[..]).unwrap();
    ensure_eq!(q, SubscribeRequest { event_types: want, from_id: from, shard_index: Some(shard) }, "the request");
    ensure!(out.ok() == !(broken || refuse), "exit {:?}", out.code);
    let lines: Vec<&str> = out.out.lines().collect();
    let events = if refuse { vec![] } else { events };
    if !events.is_empty() {
        o.nt();
    }
    o.label_if(broken, "the stream breaks");
    if broken || refuse {
        // events already delivered must be a prefix
        ensure!(lines.len() <= events.len(), "{} lines of {} events", lines.len(), events.len());
    } else {
        ensure_eq!(lines.len(), events.len(), "lines\n{}", out.all());
    }
    for (s, e) in lines.iter().zip(&events) {
        let back: HubEvent = serde_json::from_str(s).map_err(|x| format!("{x}: {s}"))?;
        ensure_eq!(&back, e, "event");
    }
    Ok(())
}

pub fn c31(p: &mut Prop) {
    let _ = run::Reply::new(200, "");
    p.assume("the client is run as a process against loopback servers; its TLS set-up and the real chain RPC are not exercised");
    p.sub("submit", "the client submits a message", 16_000, 400_000, || pvec(any::<u8>(), 0..120).boxed(), submit);
    p.sub("live", "at least two heartbeats are submitted", 600, 12_000, || pvec(any::<u8>(), 0..100).boxed(), live);
    p.sub("bootstrap", "at least one event is submitted", 4_000, 60_000, || pvec(any::<u8>(), 0..60).boxed(), bootstrap);
    p.sub("subscribe", "at least one event is streamed", 4_000, 80_000, || pvec(any::<u8>(), 0..300).boxed(), subscribe);
}
