//! Runs the real `fc` binary as a process against servers of our own on the loopback interface.
use std::io::{BufRead, BufReader, Read, Write};
use std::net::{TcpListener, TcpStream};
use std::path::PathBuf;
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub struct Out {
    pub code: Option<i32>,
    pub out: String,
    pub err: String,
}
impl Out {
    pub fn ok(&self) -> bool {
        self.code == Some(0)
    }
    pub fn all(&self) -> String {
        format!("{}{}", self.out, self.err)
    }
}

pub fn fc(args: &[String], env: &[(String, String)], stdin: &[u8], interrupt_when: Option<&dyn Fn() -> bool>) -> Out {
    go(None, args, env, stdin, interrupt_when)
}
/// The same, started by a shell that first runs `prelude`.
pub fn fc_under(prelude: &str, args: &[String], env: &[(String, String)]) -> Out {
    go(Some(prelude), args, env, b"", None)
}
fn go(prelude: Option<&str>, args: &[String], env: &[(String, String)], stdin: &[u8], interrupt_when: Option<&dyn Fn() -> bool>) -> Out {
    let exe: PathBuf = std::env::current_exe().unwrap().with_file_name("fc");
    let mut cmd = match prelude {
        None => Command::new(exe),
        Some(p) => {
            let mut c = Command::new("/bin/sh");
            c.arg("-c").arg(format!("{p}\nexec \"$0\" \"$@\"")).arg(exe);
            c
        }
    };
    let mut c = cmd
        .args(args)
        .env_clear()
        // an empty certificate store: loading the system's costs more than the rest of a run
        .env("SSL_CERT_FILE", "/dev/null")
        .env("SSL_CERT_DIR", "/nonexistent")
        .envs(env.iter().map(|(k, v)| (k, v)))
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::piped())
        .spawn()
        .expect("the client does not start");
    let mut si = c.stdin.take().unwrap();
    let _ = si.write_all(stdin);
    drop(si);
    let (mut so, mut se) = (c.stdout.take().unwrap(), c.stderr.take().unwrap());
    let a = std::thread::spawn(move || {
        let mut v = vec![];
        let _ = so.read_to_end(&mut v);
        v
    });
    let b = std::thread::spawn(move || {
        let mut v = vec![];
        let _ = se.read_to_end(&mut v);
        v
    });
    let t0 = Instant::now();
    let mut next: Option<Instant> = None;
    let code = loop {
        if let Some(s) = c.try_wait().unwrap() {
            break s.code();
        }
        // again and again: one that lands in the middle of a request is not noticed
        if let Some(w) = interrupt_when {
            match next {
                None if w() => next = Some(Instant::now() + Duration::from_millis(400)),
                Some(n) if Instant::now() > n => {
                    let _ = Command::new("kill").arg("-INT").arg(c.id().to_string()).status();
                    next = Some(Instant::now() + Duration::from_millis(310));
                }
                _ => {}
            }
        }
        if t0.elapsed() > Duration::from_secs(40) {
            let _ = c.kill();
            break None;
        }
        std::thread::sleep(Duration::from_millis(if t0.elapsed().as_millis() < 40 { 1 } else { 5 }));
    };
    let s = |v: Vec<u8>| String::from_utf8_lossy(&v).into_owned();
    Out { code, out: s(a.join().unwrap()), err: s(b.join().unwrap()) }
}

#[derive(Clone, Debug)]
pub struct Req {
    pub method: String,
    pub path: String,
    pub headers: Vec<(String, String)>,
    pub body: Vec<u8>,
}
#[derive(Clone, Debug)]
pub struct Reply {
    pub status: u16,
    pub headers: Vec<(String, String)>,
    pub body: Vec<u8>,
    /// announce this length instead of the body's
    pub claim: Option<usize>,
}
impl Reply {
    pub fn new(status: u16, body: impl Into<Vec<u8>>) -> Reply {
        Reply { status, headers: vec![], body: body.into(), claim: None }
    }
}

/// An HTTP/1.1 server that records requests and answers with what `f` says.
pub struct Server {
    pub port: u16,
    pub log: Arc<Mutex<Vec<Req>>>,
    stop: Arc<AtomicBool>,
    join: Option<std::thread::JoinHandle<TcpListener>>,
}
thread_local! {
    /// Listeners of servers that have stopped, for the next ones: thousands of cases a minute, each
    /// on a port of its own, run out of ports.
    static IDLE: std::cell::RefCell<Vec<TcpListener>> = const { std::cell::RefCell::new(vec![]) };
}
pub fn idle(l: TcpListener) {
    let _ = IDLE.try_with(|i| i.borrow_mut().push(l));
}
pub fn listener() -> TcpListener {
    if let Some(l) = IDLE.with(|i| i.borrow_mut().pop()) {
        // what connected to the server before and was never looked at
        l.set_nonblocking(true).unwrap();
        while l.accept().is_ok() {}
        l.set_nonblocking(false).unwrap();
        return l;
    }
    for _ in 0..600 {
        if let Ok(l) = TcpListener::bind("127.0.0.1:0") {
            return l;
        }
        std::thread::sleep(Duration::from_millis(200));
    }
    panic!("no loopback port is free")
}
impl Server {
    pub fn start(mut f: impl FnMut(usize, &Req) -> Reply + Send + 'static) -> Server {
        let l = listener();
        let port = l.local_addr().unwrap().port();
        let log = Arc::new(Mutex::new(vec![]));
        let stop = Arc::new(AtomicBool::new(false));
        let (log2, stop2) = (log.clone(), stop.clone());
        let join = std::thread::spawn(move || {
            loop {
                let s = l.accept().map(|(s, _)| s);
                if stop2.load(Ordering::SeqCst) {
                    return l;
                }
                let Ok(s) = s else { continue };
                let _ = s.set_read_timeout(Some(Duration::from_secs(20)));
                if let Some(r) = read(&s) {
                    let n = {
                        let mut g = log2.lock().unwrap();
                        g.push(r.clone());
                        g.len() - 1
                    };
                    let a = f(n, &r);
                    let _ = answer(&s, &a);
                }
            }
        });
        Server { port, log, stop, join: Some(join) }
    }
    pub fn stop(mut self) -> Vec<Req> {
        self.end();
        let v = self.log.lock().unwrap().clone();
        v
    }
    fn end(&mut self) {
        self.stop.store(true, Ordering::SeqCst);
        let _ = TcpStream::connect(("127.0.0.1", self.port));
        if let Some(j) = self.join.take() {
            if let Ok(l) = j.join() {
                idle(l);
            }
        }
    }
}
impl Drop for Server {
    fn drop(&mut self) {
        self.end();
    }
}
fn read(s: &TcpStream) -> Option<Req> {
    let mut r = BufReader::new(s.try_clone().ok()?);
    let mut line = String::new();
    r.read_line(&mut line).ok()?;
    let mut p = line.split_whitespace();
    let (method, path) = (p.next()?.to_string(), p.next()?.to_string());
    let mut headers = vec![];
    loop {
        let mut h = String::new();
        r.read_line(&mut h).ok()?;
        let h = h.trim_end();
        if h.is_empty() {
            break;
        }
        let (k, v) = h.split_once(':')?;
        headers.push((k.to_ascii_lowercase(), v.trim().to_string()));
    }
    let n: usize = headers.iter().find(|h| h.0 == "content-length").map(|h| h.1.parse().unwrap()).unwrap_or(0);
    let mut body = vec![0; n];
    r.read_exact(&mut body).ok()?;
    Some(Req { method, path, headers, body })
}
fn answer(mut s: &TcpStream, a: &Reply) -> std::io::Result<()> {
    let mut h = format!("HTTP/1.1 {} X\r\nconnection: close\r\n", a.status);
    if a.status != 204 {
        h += &format!("content-length: {}\r\n", a.claim.unwrap_or(a.body.len()));
    }
    for (k, v) in &a.headers {
        h += &format!("{k}: {v}\r\n");
    }
    h += "\r\n";
    s.write_all(h.as_bytes())?;
    if a.status != 204 {
        s.write_all(&a.body)?;
    }
    s.flush()
}

/// The 64-digit hexadecimal words of a text.
pub fn words64(s: &str) -> Vec<Vec<u8>> {
    s.split(|c: char| !c.is_ascii_alphanumeric())
        .filter_map(|w| {
            let w = w.strip_prefix("0x").unwrap_or(w);
            (w.len() == 64).then(|| hex::decode(w).ok()).flatten()
        })
        .collect()
}
