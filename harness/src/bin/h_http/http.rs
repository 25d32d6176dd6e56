//! One HTTP/1.1 exchange with the real router over an in-memory connection.
use crate::fake::{Call, Fake};
use snapchain::network::http_server::{Config, HubHttpServiceImpl, Router};
use snapchain::network::mesh::nodes::NodeRegistry;
use std::sync::Arc;
use tokio::io::{AsyncReadExt, AsyncWriteExt};
use tonic::Status;

#[derive(Debug)]
pub struct Answer {
    pub status: u16,
    /// lower-case names
    pub headers: Vec<(String, Vec<u8>)>,
    pub body: Vec<u8>,
    pub calls: Vec<Call>,
}
impl Answer {
    pub fn header(&self, n: &str) -> Vec<&[u8]> {
        self.headers.iter().filter(|(k, _)| k == n).map(|(_, v)| &v[..]).collect()
    }
}

thread_local! {
    static RT: tokio::runtime::Runtime = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    static NODES: Arc<NodeRegistry> = Arc::new(NodeRegistry::builtin());
}

pub fn exchange(method: &str, target: &str, headers: &[(&str, Vec<u8>)], body: &[u8], reply: Option<Result<Vec<u8>, Status>>, cors: &str) -> Result<Answer, String> {
    let fake = Arc::new(Fake::default());
    *fake.reply.lock().unwrap() = reply;
    let router = Router::new(HubHttpServiceImpl { service: fake.clone() }, NODES.with(|n| n.clone()));
    let config = Config { cors_origin: cors.to_string() };
    let mut raw = format!("{method} {target} HTTP/1.1\r\nhost: n\r\nconnection: close\r\ncontent-length: {}\r\n", body.len()).into_bytes();
    for (k, v) in headers {
        raw.extend_from_slice(k.as_bytes());
        raw.extend_from_slice(b": ");
        raw.extend_from_slice(v);
        raw.extend_from_slice(b"\r\n");
    }
    raw.extend_from_slice(b"\r\n");
    raw.extend_from_slice(body);
    let out = RT.with(|rt| {
        rt.block_on(async {
            let (mut cl, sv) = tokio::io::duplex(1 << 16);
            let server = async {
                let io = hyper_util::rt::TokioIo::new(sv);
                let _ = hyper::server::conn::http1::Builder::new().serve_connection(io, hyper::service::service_fn(|r| router.handle(r, &config))).await;
            };
            let client = async {
                let _ = cl.write_all(&raw).await;
                let mut v = vec![];
                let _ = cl.read_to_end(&mut v).await;
                v
            };
            tokio::join!(server, client).1
        })
    });
    let calls = fake.log.lock().unwrap().clone();
    let cut = out.windows(4).position(|w| w == b"\r\n\r\n").ok_or("no answer")?;
    let head = &out[..cut];
    let mut lines = head.split(|b| *b == b'\n').map(|l| l.strip_suffix(b"\r").unwrap_or(l));
    let status = String::from_utf8_lossy(lines.next().unwrap()).split(' ').nth(1).and_then(|s| s.parse().ok()).ok_or("no status")?;
    let headers: Vec<(String, Vec<u8>)> = lines
        .filter_map(|l| {
            let i = l.iter().position(|b| *b == b':')?;
            let v = &l[i + 1..];
            let v = v.strip_prefix(b" ").unwrap_or(v);
            Some((String::from_utf8_lossy(&l[..i]).to_lowercase(), v.to_vec()))
        })
        .collect();
    let mut body = out[cut + 4..].to_vec();
    if headers.iter().any(|(k, v)| k == "transfer-encoding" && v == b"chunked") {
        let mut r = vec![];
        let mut p = 0;
        loop {
            let e = p + body[p..].windows(2).position(|w| w == b"\r\n").ok_or("bad chunk")?;
            let n = usize::from_str_radix(std::str::from_utf8(&body[p..e]).unwrap(), 16).map_err(|_| "bad chunk")?;
            if n == 0 {
                break;
            }
            r.extend_from_slice(&body[e + 2..e + 2 + n]);
            p = e + 2 + n + 2;
        }
        body = r;
    }
    Ok(Answer { status, headers, body, calls })
}
