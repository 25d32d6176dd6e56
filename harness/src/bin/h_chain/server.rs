//! A small keep-alive HTTP/1.1 server whose answers come from a closure that can be exchanged.
use std::io::{BufRead, BufReader, Read, Write};
use std::net::TcpListener;
use std::sync::{Arc, Mutex};

pub struct Req {
    pub target: String,
    pub body: Vec<u8>,
}
pub enum Rep {
    Json(u16, String),
    /// close the connection without an answer
    Drop,
    /// never answer
    Hang,
}
type F = Box<dyn FnMut(&Req) -> Rep + Send>;
pub struct Server {
    pub port: u16,
    f: Arc<Mutex<(u64, Option<F>)>>,
}
impl Server {
    pub fn new() -> Server {
        // a port may be hard to find right after a run that used thousands
        let l = (0..600)
            .find_map(|_| {
                TcpListener::bind("127.0.0.1:0")
                    .map_err(|_| std::thread::sleep(std::time::Duration::from_millis(200)))
                    .ok()
            })
            .expect("loopback");
        let port = l.local_addr().unwrap().port();
        let f: Arc<Mutex<(u64, Option<F>)>> = Default::default();
        let g = f.clone();
        std::thread::spawn(move || {
            for s in l.incoming() {
                let Ok(s) = s else { continue };
                let g = g.clone();
                std::thread::spawn(move || {
                    let _ = s.set_nodelay(true);
                    let mut w = s.try_clone().unwrap();
                    let mut r = BufReader::new(s);
                    let born = g.lock().unwrap().0;
                    loop {
                        let mut line = String::new();
                        if r.read_line(&mut line).unwrap_or(0) == 0 {
                            return;
                        }
                        let target = line.split(' ').nth(1).unwrap_or("").to_string();
                        let mut len = 0;
                        loop {
                            let mut h = String::new();
                            if r.read_line(&mut h).unwrap_or(0) == 0 {
                                return;
                            }
                            if h == "\r\n" {
                                break;
                            }
                            if let Some((k, v)) = h.split_once(':') {
                                if k.eq_ignore_ascii_case("content-length") {
                                    len = v.trim().parse().unwrap_or(0)
                                }
                            }
                        }
                        let mut body = vec![0; len];
                        if r.read_exact(&mut body).is_err() {
                            return;
                        }
                        let rep = {
                            let mut q = g.lock().unwrap();
                            if q.0 != born {
                                return; // a connection of an earlier case
                            }
                            match &mut q.1 {
                                Some(f) => f(&Req { target, body }),
                                None => Rep::Drop,
                            }
                        };
                        match rep {
                            Rep::Drop => {
                                let _ = w.shutdown(std::net::Shutdown::Both);
                                return;
                            }
                            Rep::Hang => {
                                let mut b = [0; 64];
                                while r.read(&mut b).unwrap_or(0) > 0 {}
                                return;
                            }
                            Rep::Json(status, b) => {
                                let head = format!("HTTP/1.1 {status} X\r\ncontent-type: application/json\r\ncontent-length: {}\r\n\r\n", b.len());
                                if w.write_all(&[head.as_bytes(), b.as_bytes()].concat()).is_err() {
                                    return;
                                }
                            }
                        }
                    }
                });
            }
        });
        Server { port, f }
    }
    /// Answers with `f` from now on, to new connections only.
    pub fn set(&self, f: impl FnMut(&Req) -> Rep + Send + 'static) {
        let mut g = self.f.lock().unwrap();
        g.0 += 1;
        g.1 = Some(Box::new(f));
    }
}
thread_local! {
    static SERVER: Server = Server::new();
}
pub fn with<T>(f: impl FnOnce(&Server) -> T) -> T {
    SERVER.with(f)
}
