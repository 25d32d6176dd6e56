//! C03: Ethereum-side authorisations bind exactly what they claim to authorise.
use crate::frame::*;
use crate::gens::*;
use crate::p_validate::eth_claim_hash;
use alloy_primitives::{Address, Bytes, Signature};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use snapchain::core::validations::error::ValidationError;
use snapchain::core::validations::{contract_signature as cs, key as k, verification as ver};
use snapchain::proto;
use std::sync::{Arc, Mutex};

fn key_domain(chain: u32) -> [u8; 32] {
    keccak(
        &[
            keccak(b"EIP712Domain(string name,string version,uint256 chainId)"),
            keccak(b"Farcaster KeyAdd"),
            keccak(b"1"),
            u256(chain as u64),
        ]
        .concat(),
    )
}
#[derive(Debug, Clone, Serialize, Deserialize, PartialEq)]
pub struct KA {
    fid: u64,
    key: Vec<u8>,
    key_type: u32,
    scopes: Vec<i32>,
    ttl: u32,
    nonce: u32,
    deadline: u32,
    chain: u32,
}
impl KA {
    fn add_hash(&self) -> [u8; 32] {
        let sc: Vec<u8> = self.scopes.iter().flat_map(|s| u256(*s as u32 as u64)).collect();
        eip712(
            key_domain(self.chain),
            keccak(
                &[
                    keccak(b"KeyAdd(uint256 fid,bytes key,uint32 keyType,uint32[] scopes,uint32 ttl,uint32 nonce,uint256 deadline)"),
                    u256(self.fid), keccak(&self.key), u256(self.key_type as u64), keccak(&sc),
                    u256(self.ttl as u64), u256(self.nonce as u64), u256(self.deadline as u64),
                ]
                .concat(),
            ),
        )
    }
    fn remove_hash(&self) -> [u8; 32] {
        eip712(
            key_domain(self.chain),
            keccak(
                &[
                    keccak(b"KeyRemove(uint256 fid,bytes key,uint32 nonce,uint256 deadline)"),
                    u256(self.fid), keccak(&self.key), u256(self.nonce as u64), u256(self.deadline as u64),
                ]
                .concat(),
            ),
        )
    }
    fn skr_hash(&self) -> [u8; 32] {
        eip712(
            key_domain(self.chain),
            keccak(
                &[
                    keccak(b"SignedKeyRequest(uint256 requestFid,bytes key,uint256 deadline)"),
                    u256(self.fid), keccak(&self.key), u256(self.deadline as u64),
                ]
                .concat(),
            ),
        )
    }
}
/// What is done to the signature or to the payload after signing.
#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum Mut {
    None,
    Field(u8),
    SigBit(u16),
    SigLen(usize),
    V(u8),
    Other,
    Zero,
}
fn muts() -> BoxedStrategy<Mut> {
    prop_oneof![
        4 => Just(Mut::None), 3 => (0u8..8).prop_map(Mut::Field), 1 => (0u16..520).prop_map(Mut::SigBit),
        1 => prop_oneof![Just(0usize), Just(64), Just(66), Just(130)].prop_map(Mut::SigLen),
        2 => prop_oneof![Just(0u8), Just(1), Just(27), Just(28), any::<u8>()].prop_map(Mut::V),
        1 => Just(Mut::Other), 1 => Just(Mut::Zero),
    ]
    .boxed()
}
fn ka() -> BoxedStrategy<KA> {
    (
        any_fid(), prop_oneof![6 => Just(32usize), 1 => Just(0usize), 1 => Just(31usize), 1 => Just(33usize)],
        any::<u8>(), prop_oneof![Just(1u32), any::<u32>()],
        pvec(prop_oneof![8 => 0i32..20, 1 => Just(i32::MAX), 1 => Just(-1i32)], 0..6),
        any::<u32>(), any::<u32>(), any::<u32>(), prop_oneof![3 => Just(1u32), 1 => Just(10u32), 1 => any::<u32>()],
    )
        .prop_map(|(fid, kl, kt, key_type, scopes, ttl, nonce, deadline, chain)| KA {
            fid, key: fill(kl, kt), key_type, scopes, ttl, nonce, deadline, chain,
        })
        .boxed()
}
fn mutate_ka(p: &mut KA, f: u8) {
    match f {
        0 => p.fid ^= 1,
        1 => p.key.push(9),
        2 => p.key_type ^= 1,
        3 => p.scopes.push(1),
        4 => p.ttl = p.ttl.wrapping_add(1),
        5 => p.nonce = p.nonce.wrapping_add(1),
        6 => p.deadline = p.deadline.wrapping_add(1),
        _ => p.chain ^= 2,
    }
}
fn mutate_sig(sig: &mut Vec<u8>, m: &Mut) {
    match m {
        Mut::SigBit(b) => sig[*b as usize / 8] ^= 1 << (b % 8),
        Mut::SigLen(n) => sig.resize(*n, 1),
        Mut::V(v) => sig[64] = *v,
        Mut::Zero => sig.iter_mut().for_each(|b| *b = 0),
        _ => {}
    }
}
/// Reference recovery: 65 bytes, odd parity unless v is 27 or 0.
fn recover(hash: [u8; 32], sig: &[u8]) -> Option<Address> {
    if sig.len() != 65 {
        return None;
    }
    Signature::from_bytes_and_parity(&sig[..64], sig[64] != 27 && sig[64] != 0)
        .recover_address_from_prehash(&hash.into())
        .ok()
}
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct KeyCase {
    p: KA,
    m: Mut,
    signer: u8,
    remove: bool,
}
fn check_key(c: &KeyCase, o: &mut Obs) -> R {
    let signed = if c.remove { c.p.remove_hash() } else { c.p.add_hash() };
    let mut sig = eth_sign(c.signer, signed);
    mutate_sig(&mut sig, &c.m);
    let mut p = c.p.clone();
    if let Mut::Field(f) = c.m {
        mutate_ka(&mut p, f);
    }
    let mut presented = p.clone();
    let (got, hash, same) = if c.remove {
        presented.key_type = c.p.key_type;
        presented.scopes = c.p.scopes.clone();
        presented.ttl = c.p.ttl;
        (
            k::recover_key_remove_custody_address(
                &k::KeyRemovePayload { fid: p.fid, key: &p.key, nonce: p.nonce, deadline: p.deadline },
                &sig, p.chain,
            ),
            p.remove_hash(),
            presented == c.p,
        )
    } else {
        (
            k::recover_key_add_custody_address(
                &k::KeyAddPayload {
                    fid: p.fid, key: &p.key, key_type: p.key_type, scopes: &p.scopes, ttl: p.ttl,
                    nonce: p.nonce, deadline: p.deadline,
                },
                &sig, p.chain,
            ),
            p.add_hash(),
            p == c.p,
        )
    };
    let representable = c.remove || p.scopes.iter().all(|s| *s >= 0);
    let want = if representable { recover(hash, &sig) } else { None };
    match (&got, want) {
        (Ok(a), Some(w)) => ensure_eq!(*a, w, "recovered a different address"),
        (Err(_), None) => {}
        (g, w) => return Err(format!("recovery gave {g:?}, reference {w:?}")),
    }
    if representable && same && matches!(c.m, Mut::None) {
        o.nt();
        o.label("authentic");
        ensure_eq!(got.as_ref().ok(), Some(&eth_key(c.signer).address()), "authentic signature not attributed to its signer");
    } else if !same {
        o.nt();
        o.label("field changed after signing");
        ensure!(got.ok() != Some(eth_key(c.signer).address()), "signature still attributed after a signed field changed");
    }
    Ok(())
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct SkrCase {
    p: KA,
    m: Mut,
    signer: u8,
    claimed: u8,
    now_delta: i64,
    mtype: u32,
    blob: u8,
    fid_hi: u8,
}
fn check_skr(c: &SkrCase, o: &mut Obs) -> R {
    let mut sig = eth_sign(c.signer, c.p.skr_hash());
    mutate_sig(&mut sig, &c.m);
    let mut p = c.p.clone();
    if let Mut::Field(f) = c.m {
        mutate_ka(&mut p, f);
    }
    // ABI encoding of the tuple (uint256, address, bytes, uint256), which is dynamic
    let mut abi = vec![];
    abi.extend(u256(32));
    let mut fid_word = u256(p.fid);
    let mut dl_word = u256(p.deadline as u64);
    match c.fid_hi {
        1 => fid_word[23] = 1,
        2 => dl_word[0] = 1,
        _ => {}
    }
    abi.extend(fid_word);
    let claimed = eth_key(c.claimed).address();
    abi.extend(pad_addr(claimed.as_slice()));
    abi.extend(u256(128));
    abi.extend(dl_word);
    abi.extend(u256(sig.len() as u64));
    abi.extend(&sig);
    abi.resize(abi.len().div_ceil(32) * 32, 0);
    let mut decodes = true;
    match c.blob {
        1 => { abi.clear(); decodes = false }
        2 => { abi.truncate(100); decodes = false }
        3 => { abi = fill(64, 9); decodes = false }
        _ => {}
    }
    let now = (p.deadline as i64 + c.now_delta).max(0) as u64;
    let got = k::verify_signed_key_request_metadata(c.mtype, &abi, &p.key, now, p.chain);
    let want = if c.mtype != 1 {
        Err(ValidationError::InvalidMetadataType)
    } else if !decodes || c.fid_hi == 2 {
        Err(ValidationError::InvalidSignedKeyRequest)
    } else if (p.deadline as u64) < now {
        Err(ValidationError::SignedKeyRequestExpired)
    } else if c.fid_hi == 1 || recover(p.skr_hash(), &sig) != Some(claimed) {
        Err(ValidationError::InvalidSignedKeyRequest)
    } else {
        Ok((p.fid, claimed, p.deadline as u64))
    };
    o.label(if want.is_ok() { "accepted" } else { "rejected" });
    if decodes && c.mtype == 1 {
        o.nt()
    }
    match (got, want) {
        (Ok(g), Ok(w)) => ensure_eq!((g.request_fid, g.request_signer, g.deadline), w, "verified request"),
        (Err(g), Err(w)) => ensure_eq!(g, w, "reason"),
        (g, w) => return Err(format!("got {g:?} want {w:?}")),
    }
    Ok(())
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct FnameCase {
    name: Vec<u8>,
    ts: u64,
    owner: u8,
    owner_len: usize,
    net: u8,
    signer: u8,
    trusted: Option<u8>,
    m: Mut,
}
fn fname_hash(name: &[u8], ts: u64, owner: &[u8]) -> [u8; 32] {
    let d = keccak(
        &[
            keccak(b"EIP712Domain(string name,string version,uint256 chainId,address verifyingContract)"),
            keccak(b"Farcaster name verification"), keccak(b"1"), u256(1),
            pad_addr(&hex::decode("e3be01d99baa8db9905b33a3ca391238234b79d1").unwrap()),
        ]
        .concat(),
    );
    eip712(
        d,
        keccak(
            &[keccak(b"UserNameProof(string name,uint256 timestamp,address owner)"), keccak(name), u256(ts), pad_addr(owner)]
                .concat(),
        ),
    )
}
fn check_fname(c: &FnameCase, o: &mut Obs) -> R {
    let owner = fill(c.owner_len, c.owner);
    let mut padded = owner.clone();
    padded.resize(20, 0);
    let mut sig = eth_sign(c.signer, fname_hash(&c.name, c.ts, &padded));
    mutate_sig(&mut sig, &c.m);
    let (mut name, mut ts, mut own) = (c.name.clone(), c.ts, owner.clone());
    if let Mut::Field(f) = c.m {
        match f % 3 {
            0 => name.push(b'x'),
            1 => ts ^= 1,
            _ => {
                if let Some(b) = own.last_mut() {
                    *b ^= 1
                }
            }
        }
    }
    let net = [proto::FarcasterNetwork::Mainnet, proto::FarcasterNetwork::Testnet, proto::FarcasterNetwork::Devnet][c.net as usize];
    let t = proto::FnameTransfer {
        id: 7,
        from_fid: 1,
        proof: Some(proto::UserNameProof { timestamp: ts, name: name.clone(), owner: own.clone(), signature: sig.clone(), fid: 3, r#type: 1 }),
    };
    let got = ver::validate_fname_transfer(&t, net, c.trusted.map(|i| eth_key(i).address()));
    let trusted = match c.trusted {
        Some(i) => eth_key(i).address(),
        None => Address::from_slice(&hex::decode("bc5274efc266311015793d89e9b591fa46294741").unwrap()),
    };
    let utf8 = std::str::from_utf8(&name).is_ok();
    let well = utf8 && own.len() == 20;
    let want = if !well {
        false
    } else if c.net == 2 {
        true
    } else {
        let mut p20 = own.clone();
        p20.resize(20, 0);
        recover(fname_hash(&name, ts, &p20), &sig) == Some(trusted)
    };
    ensure_eq!(got.is_ok(), want, "transfer verdict ({got:?})");
    o.label(if want { "accepted" } else { "rejected" });
    if well && c.net != 2 {
        o.nt()
    }
    Ok(())
}

// ---- contract signatures -------------------------------------------------------------------------
#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum Rep {
    Ok(Vec<u8>),
    Err(String),
}
#[derive(Clone)]
struct Mock {
    code: Rep,
    call: Rep,
    log: Arc<Mutex<Vec<(String, serde_json::Value)>>>,
}
impl Mock {
    fn one(&self, req: &alloy_json_rpc::SerializedRequest) -> alloy_json_rpc::Response {
        use alloy_json_rpc::{ErrorPayload, Response, ResponsePayload};
        let params = req.params().map(|p| serde_json::from_str(p.get()).unwrap()).unwrap_or_default();
        self.log.lock().unwrap().push((req.method().to_string(), params));
        let rep = match req.method() {
            "eth_getCode" => &self.code,
            "eth_call" => &self.call,
            m => panic!("unexpected RPC {m}"),
        };
        let payload = match rep {
            Rep::Ok(b) => ResponsePayload::Success(
                serde_json::value::RawValue::from_string(format!("\"0x{}\"", hex::encode(b))).unwrap(),
            ),
            Rep::Err(m) => ResponsePayload::Failure(ErrorPayload { code: 3, message: m.clone().into(), data: None }),
        };
        Response { id: req.id().clone(), payload }
    }
}
impl tower::Service<alloy_json_rpc::RequestPacket> for Mock {
    type Response = alloy_json_rpc::ResponsePacket;
    type Error = alloy_transport::TransportError;
    type Future = std::pin::Pin<Box<dyn std::future::Future<Output = Result<Self::Response, Self::Error>> + Send>>;
    fn poll_ready(&mut self, _: &mut std::task::Context<'_>) -> std::task::Poll<Result<(), Self::Error>> {
        std::task::Poll::Ready(Ok(()))
    }
    fn call(&mut self, req: alloy_json_rpc::RequestPacket) -> Self::Future {
        let this = self.clone();
        Box::pin(async move {
            match req {
                alloy_json_rpc::RequestPacket::Single(r) => Ok(alloy_json_rpc::ResponsePacket::Single(this.one(&r))),
                _ => panic!("batch"),
            }
        })
    }
}
fn abi_bytes(b: &[u8]) -> Vec<u8> {
    let mut v = u256(b.len() as u64).to_vec();
    v.extend(b);
    v.resize(v.len().div_ceil(32) * 32, 0);
    v
}
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct CsCase {
    code: Rep,
    call: Rep,
    sig: Vec<u8>,
    addr: u8,
    via_claim: bool,
    fid: u64,
    net: u8,
    chain: u32,
    bh_len: usize,
}
fn bytecode_ok(b: &[u8]) -> bool {
    use sha2::Digest;
    hex::encode(sha2::Sha256::digest(b)) == "7929acc3c7f14ff8fcfe6b7752a6b0327811da4697ce7b3bb438bf7b237ab410"
}
fn check_cs(c: &CsCase, o: &mut Obs) -> R {
    let log: Arc<Mutex<Vec<_>>> = Default::default();
    let mock = Mock { code: c.code.clone(), call: c.call.clone(), log: log.clone() };
    let client = alloy_rpc_client::RpcClient::new(mock, true);
    let provider: alloy_provider::RootProvider = alloy_provider::RootProvider::new(client);
    let addr = fill(20, c.addr);
    let bh = fill(32, 77);
    let net = 1 + c.net as i32;
    let hash = if c.via_claim {
        eth_claim_hash(c.fid, &addr, &bh, net, Some(c.chain as u64))
    } else {
        blake3::hash(&[c.net]).into()
    };
    let verdict: Result<bool, ()> = if c.via_claim {
        let body = proto::VerificationAddAddressBody {
            address: addr.clone(), claim_signature: c.sig.clone(), block_hash: bh.clone(), verification_type: 1,
            chain_id: c.chain, protocol: 0,
        };
        let claim = ver::make_verification_address_claim(
            c.fid, &addr, proto::FarcasterNetwork::try_from(net).unwrap(), &bh, proto::Protocol::Ethereum,
        )
        .map_err(|e| format!("claim: {e:?}"))?;
        Ok(rt().block_on(ver::validate_verification_contract_signature(provider, claim, &body)).is_ok())
    } else {
        rt().block_on(cs::verify_signature(Bytes::from(c.sig.clone()), Address::from_slice(&addr), hash.into(), provider))
            .map(|v| v.is_valid())
            .map_err(|_| ())
    };
    let calls = log.lock().unwrap().clone();
    // reference
    let has_code = match &c.code { Rep::Ok(b) => Some(!b.is_empty()), Rep::Err(_) => None };
    let want: Result<bool, ()> = match has_code {
        None => Err(()),
        Some(code) => match &c.call {
            Rep::Err(m) => if m.starts_with("execution reverted") { Ok(false) } else { Err(()) },
            Rep::Ok(b) => Ok(if code { b.starts_with(&[0x16, 0x26, 0xba, 0x7e]) } else { b.first() == Some(&1) }),
        },
    };
    let want = if c.via_claim { Ok(want == Ok(true)) } else { want };
    ensure_eq!(verdict, want, "verdict");
    ensure!(!calls.is_empty() && calls[0].0 == "eth_getCode", "first asks for the code");
    ensure_eq!(calls[0].1[0].as_str().unwrap_or("").to_lowercase(), format!("0x{}", hex::encode(&addr)), "code of which account");
    match has_code {
        None => ensure_eq!(calls.len(), 1, "calls after a failed code lookup"),
        Some(code) => {
            o.nt();
            o.label(if code { "contract wallet" } else { "no code" });
            ensure_eq!(calls.len(), 2, "calls");
            let tx = &calls[1].1[0];
            let input = tx["input"].as_str().or(tx["data"].as_str()).unwrap_or("0x");
            let input = hex::decode(&input[2..]).unwrap();
            if code {
                ensure_eq!(tx["to"].as_str().unwrap_or("").to_lowercase(), format!("0x{}", hex::encode(&addr)), "call target");
                let want = [&[0x16, 0x26, 0xba, 0x7e][..], &hash, &u256(64), &abi_bytes(&c.sig)].concat();
                ensure_eq!(hex::encode(input), hex::encode(want), "isValidSignature call data");
            } else {
                ensure!(tx.get("to").map_or(true, |t| t.is_null()), "deploy call has a target");
                let args = [&pad_addr(&addr)[..], &hash, &u256(96), &abi_bytes(&c.sig)].concat();
                ensure!(input.ends_with(&args), "constructor arguments");
                ensure!(bytecode_ok(&input[..input.len() - args.len()]), "helper bytecode");
            }
        }
    }
    o.label_if(want == Ok(true), "valid");
    Ok(())
}

pub fn c03(p: &mut Prop) {
    p.sub("key_custody", "random KeyAdd/KeyRemove payload signed over an independently computed EIP-712 digest, then possibly one field or the signature changed; non-trivial = authentic, or a signed field changed",
        90_000, 400_000,
        || (ka(), muts(), 0u8..4, any::<bool>()).prop_map(|(p, m, signer, remove)| KeyCase { p, m, signer, remove }).boxed(),
        check_key);
    p.sub("signed_key_request", "random signed key request metadata, tampered, expired, over-long numbers, damaged encodings; non-trivial = decodes",
        80_000, 320_000,
        || (ka(), muts(), 0u8..3, 0u8..3, prop_oneof![3 => -3i64..3, 1 => -100_000i64..100_000],
            prop_oneof![9 => Just(1u32), 1 => any::<u32>()], prop_oneof![8 => Just(0u8), 1 => 1u8..4], prop_oneof![8 => Just(0u8), 1 => 1u8..3], any::<bool>())
            .prop_map(|(p, m, signer, claimed, now_delta, mtype, blob, fid_hi, same)| SkrCase {
                p, m, signer, claimed: if same { signer } else { claimed }, now_delta, mtype, blob, fid_hi }).boxed(),
        check_skr);
    p.sub("fname_transfer", "random username transfer proofs against the trusted signer; non-trivial = well formed and off devnet",
        60_000, 300_000,
        || (prop_oneof![4 => "[a-z0-9-]{1,16}".prop_map(|s| s.into_bytes()), 1 => pvec(any::<u8>(), 0..12), 1 => "\\PC{0,6}".prop_map(|s| s.into_bytes())],
            any::<u64>(), any::<u8>(), prop_oneof![8 => Just(20usize), 1 => Just(19usize), 1 => Just(21usize), 1 => Just(0usize)],
            0u8..3, 0u8..3, prop_oneof![1 => Just(None), 4 => (0u8..3).prop_map(Some)], muts(), any::<bool>())
            .prop_map(|(name, ts, owner, owner_len, net, signer, trusted, m, same)| FnameCase {
                name, ts, owner, owner_len, net, signer: if same { trusted.unwrap_or(signer) } else { signer }, trusted, m }).boxed(),
        check_fname);
    let rep = || {
        prop_oneof![
            2 => Just(Rep::Ok(vec![])), 2 => Just(Rep::Ok({ let mut v = vec![0x16, 0x26, 0xba, 0x7e]; v.resize(32, 0); v })),
            2 => Just(Rep::Ok({ let mut v = vec![1]; v.resize(32, 0); v })), 1 => Just(Rep::Ok(vec![0; 32])),
            1 => Just(Rep::Ok({ let mut v = vec![0; 32]; v[31] = 1; v })),
            1 => Just(Rep::Ok(vec![0x16, 0x26, 0xba])), 1 => Just(Rep::Ok(vec![0x16, 0x26, 0xba, 0x7e])), 1 => Just(Rep::Ok(vec![1])),
            2 => pvec(any::<u8>(), 0..40).prop_map(Rep::Ok),
            1 => Just(Rep::Err("execution reverted".into())), 1 => Just(Rep::Err("execution reverted: no".into())),
            1 => Just(Rep::Err("insufficient funds".into())), 1 => Just(Rep::Err("error: execution reverted".into())),
        ]
    };
    p.sub("contract_signature", "scripted Ethereum node: account code and call result; call data compared byte for byte; non-trivial = the signature call was made",
        60_000, 240_000,
        move || (prop_oneof![3 => Just(Rep::Ok(vec![])), 4 => Just(Rep::Ok(vec![0x60, 0x80])), 2 => rep()], rep(),
            prop_oneof![2 => Just(fill(65, 1)), 1 => pvec(any::<u8>(), 0..100)], any::<u8>(), any::<bool>(), any_fid(), 0u8..3,
            prop_oneof![Just(0u32), Just(1), Just(5), Just(10), Just(420)])
            .prop_map(|(code, call, sig, addr, via_claim, fid, net, chain)| CsCase { code, call, sig, addr, via_claim, fid, net, chain, bh_len: 32 }).boxed(),
        check_cs);
}
