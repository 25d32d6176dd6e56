//! An object store in memory, spoken to over loopback as S3 does (path style) and read publicly under /pub.
//! It lives in the runtime of the code under test, so that a paused clock only moves when nobody has work.
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::rc::Rc;
use std::{cell::RefCell, sync::Arc};
use tokio::io::{AsyncBufReadExt, AsyncReadExt, AsyncWriteExt, BufReader};
use tokio::net::{TcpListener, TcpStream};
use tokio::sync::Notify;

#[derive(Debug, Clone, Copy, Serialize, Deserialize, PartialEq, Eq)]
pub enum Fault {
    /// an error status, nothing done
    Status(u16),
    /// the connection ends, nothing done
    Drop,
    /// done, but the answer is lost (or, of a read, ends in the middle)
    Cut,
    /// the process that asked dies
    Crash,
}
#[derive(Default)]
pub struct Bucket {
    pub objects: BTreeMap<String, Vec<u8>>,
    /// (request number, how many in a row, what)
    pub faults: Vec<(u32, u32, Fault)>,
    pub n: u32,
    pub hit: u32,
    /// hits in a row, per kind of request that is tried once or a few times only
    pub fragile: u32,
    pub writes: Vec<String>,
    pub deleted: Vec<String>,
    pub bad: Option<String>,
}
pub type Shared = Rc<RefCell<Bucket>>;

fn unescape(s: &str) -> String {
    let b = s.as_bytes();
    let mut out = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'%' && i + 2 < b.len() {
            out.push(u8::from_str_radix(&s[i + 1..i + 3], 16).unwrap_or(b'?'));
            i += 3;
        } else {
            out.push(b[i]);
            i += 1;
        }
    }
    String::from_utf8_lossy(&out).to_string()
}
/// The payload of an upload that came in signed or trailered chunks.
fn dechunk(body: &[u8]) -> Option<Vec<u8>> {
    let mut out = vec![];
    let mut at = 0;
    loop {
        let e = at + body[at..].windows(2).position(|w| w == b"\r\n")?;
        let head = std::str::from_utf8(&body[at..e]).ok()?;
        let n = usize::from_str_radix(head.split(';').next()?, 16).ok()?;
        if n == 0 {
            return Some(out);
        }
        out.extend_from_slice(body.get(e + 2..e + 2 + n)?);
        at = e + 2 + n + 2;
    }
}
pub async fn serve(l: TcpListener, b: Shared, crash: Arc<Notify>) {
    loop {
        let Ok((s, _)) = l.accept().await else { continue };
        let _ = s.set_nodelay(true);
        let _ = s.set_linger(Some(std::time::Duration::ZERO));
        tokio::task::spawn_local(talk(s, b.clone(), crash.clone()));
    }
}
async fn talk(s: TcpStream, b: Shared, crash: Arc<Notify>) {
    let mut s = BufReader::new(s);
    loop {
        let mut line = String::new();
        if s.read_line(&mut line).await.unwrap_or(0) == 0 {
            return;
        }
        let mut it = line.split(' ');
        let (method, target) = (it.next().unwrap_or("").to_string(), it.next().unwrap_or("").to_string());
        let (mut len, mut expect, mut chunked, mut te) = (0usize, false, false, false);
        loop {
            let mut h = String::new();
            if s.read_line(&mut h).await.unwrap_or(0) == 0 {
                return;
            }
            if h == "\r\n" {
                break;
            }
            let l = h.to_ascii_lowercase();
            if let Some(v) = l.strip_prefix("content-length:") {
                len = v.trim().parse().unwrap_or(0);
            }
            expect |= l.starts_with("expect:");
            chunked |= l.starts_with("content-encoding:") && l.contains("aws-chunked");
            te |= l.starts_with("transfer-encoding:");
        }
        if expect && s.get_mut().write_all(b"HTTP/1.1 100 Continue\r\n\r\n").await.is_err() {
            return;
        }
        let mut body = vec![0; len];
        if s.read_exact(&mut body).await.is_err() {
            return;
        }
        if te {
            b.borrow_mut().bad = Some("chunked transfer: not spoken here".into());
            return;
        }
        if chunked {
            match dechunk(&body) {
                Some(x) => body = x,
                None => b.borrow_mut().bad = Some("aws-chunked body not understood".into()),
            }
        }
        let (fault, rep) = {
            let mut b = b.borrow_mut();
            let n = b.n;
            b.n += 1;
            let fault = b.faults.iter().find(|f| n >= f.0 && n - f.0 < f.1).map(|f| f.2);
            if fault.is_some() {
                b.hit += 1;
                let once = method != "PUT" && (target.contains('?') || target.ends_with("latest.json"));
                b.fragile += once as u32;
            }
            let rep = match fault {
                None | Some(Fault::Cut) => b.answer(&method, &target, &body),
                _ => (0, vec![]),
            };
            (fault, rep)
        };
        let (status, out) = match fault {
            Some(Fault::Crash) => {
                crash.notify_one();
                return;
            }
            Some(Fault::Drop) => return,
            Some(Fault::Status(n)) => (n, b"<Error><Code>InternalError</Code><Message>no</Message></Error>".to_vec()),
            _ => rep,
        };
        let head = format!("HTTP/1.1 {status} X\r\ncontent-length: {}\r\ncontent-type: application/xml\r\n\r\n", out.len());
        let mut all = head.into_bytes();
        if fault == Some(Fault::Cut) {
            if method != "GET" {
                return;
            }
            all.extend_from_slice(&out[..out.len() / 2]);
            let _ = s.get_mut().write_all(&all).await;
            return;
        }
        all.extend_from_slice(&out);
        if s.get_mut().write_all(&all).await.is_err() {
            return;
        }
    }
}
impl Bucket {
    fn answer(&mut self, method: &str, target: &str, body: &[u8]) -> (u16, Vec<u8>) {
        let (path, query) = target.split_once('?').unwrap_or((target, ""));
        let path = unescape(path);
        let arg = |k: &str| query.split('&').find_map(|p| p.strip_prefix(k)?.strip_prefix('=')).map(unescape);
        let err = |code: &str| (404, format!("<Error><Code>{code}</Code><Message>x</Message></Error>").into_bytes());
        if let (Some(k), "GET") = (path.strip_prefix("/pub/"), method) {
            return match self.objects.get(k) {
                Some(v) => (200, v.clone()),
                None => (404, b"not here".to_vec()),
            };
        }
        let Some(rest) = path.strip_prefix("/box") else { return err("NoSuchBucket") };
        let key = rest.trim_start_matches('/').to_string();
        match method {
            "PUT" if !key.is_empty() => {
                self.writes.push(key.clone());
                self.objects.insert(key, body.to_vec());
                (200, vec![])
            }
            "GET" if key.is_empty() && arg("list-type").as_deref() == Some("2") => {
                let prefix = arg("prefix").unwrap_or_default();
                let mut x = format!("<?xml version=\"1.0\" encoding=\"UTF-8\"?><ListBucketResult xmlns=\"http://s3.amazonaws.com/doc/2006-03-01/\"><Name>box</Name><Prefix>{prefix}</Prefix><MaxKeys>1000</MaxKeys><IsTruncated>false</IsTruncated>");
                for (k, v) in self.objects.iter().filter(|o| o.0.starts_with(&prefix)) {
                    x += &format!("<Contents><Key>{k}</Key><Size>{}</Size></Contents>", v.len());
                }
                x += "</ListBucketResult>";
                (200, x.into_bytes())
            }
            "POST" if key.is_empty() && query.split('&').any(|q| q == "delete" || q == "delete=") => {
                let s = String::from_utf8_lossy(body).to_string();
                for p in s.split("<Key>").skip(1) {
                    let k = p.split("</Key>").next().unwrap().to_string();
                    self.objects.remove(&k);
                    self.deleted.push(k);
                }
                (200, b"<?xml version=\"1.0\" encoding=\"UTF-8\"?><DeleteResult xmlns=\"http://s3.amazonaws.com/doc/2006-03-01/\"></DeleteResult>".to_vec())
            }
            _ => {
                self.bad = Some(format!("request not understood: {method} {target}"));
                err("NotImplemented")
            }
        }
    }
}
