//! A small http server with generated content and faults.
use std::collections::HashMap;
use std::io::{BufRead, BufReader, Write};
use std::net::{SocketAddr, TcpListener, TcpStream};
use std::sync::{Arc, Mutex};
use std::time::Duration;

#[derive(Clone, Debug, PartialEq)]
pub enum Fault {
    No,
    /// an http error status
    Status(u16),
    /// the connection is closed without an answer
    Drop,
    /// the connection is closed in the middle of the body (per mille)
    Truncate(u16),
    /// the compressed content ends early, in a complete answer
    Damage(u16),
}

#[derive(Clone, Debug)]
pub struct Page {
    pub body: Vec<u8>,
    pub fault: Fault,
    pub delay_ms: u16,
    pub chunked: bool,
    pub gzip: bool,
    pub redirect: Option<String>,
}

impl Page {
    pub fn new(body: impl Into<Vec<u8>>) -> Page {
        Page { body: body.into(), fault: Fault::No, delay_ms: 0, chunked: false, gzip: false, redirect: None }
    }
}

/// An answer computed from the path.
pub type Handler = Arc<dyn Fn(&str) -> Option<Page> + Send + Sync>;

#[derive(Default)]
struct State {
    handler: Option<Handler>,
    pages: HashMap<String, Page>,
    /// by path without query
    overrides: HashMap<String, Page>,
    requests: Vec<(String, String)>,
}

#[derive(Clone)]
pub struct Server {
    pub addr: SocketAddr,
    state: Arc<Mutex<State>>,
}

impl Server {
    pub fn start() -> Server {
        let listener = TcpListener::bind("127.0.0.1:0").expect("bind");
        let addr = listener.local_addr().unwrap();
        let state: Arc<Mutex<State>> = Arc::default();
        let s = state.clone();
        std::thread::spawn(move || {
            for stream in listener.incoming().flatten() {
                let state = s.clone();
                std::thread::spawn(move || {
                    let _ = serve(stream, &state);
                });
            }
        });
        Server { addr, state }
    }

    pub fn url(&self, path: &str) -> url::Url {
        url::Url::parse(&format!("http://{}{}", self.addr, path)).expect("url")
    }

    /// Paths are as in the request line, with the query.
    pub fn set(&self, path: &str, page: Page) {
        self.state.lock().unwrap().pages.insert(path.to_string(), page);
    }

    /// Answer for a path whatever its query.
    pub fn override_path(&self, path: &str, page: Option<Page>) {
        let mut s = self.state.lock().unwrap();
        match page {
            Some(page) => s.overrides.insert(path.to_string(), page),
            None => s.overrides.remove(path),
        };
    }

    /// Change the fault of a page.
    pub fn fail(&self, path: &str, fault: Fault) {
        if let Some(p) = self.state.lock().unwrap().pages.get_mut(path) {
            p.fault = fault
        }
    }

    pub fn clear(&self) {
        let mut s = self.state.lock().unwrap();
        s.pages.clear();
        s.overrides.clear();
        s.requests.clear();
        s.handler = None;
    }

    /// For the paths that are not set.
    pub fn handle(&self, h: Handler) {
        self.state.lock().unwrap().handler = Some(h)
    }

    pub fn requests(&self) -> Vec<(String, String)> {
        self.state.lock().unwrap().requests.clone()
    }
}

fn serve(stream: TcpStream, state: &Mutex<State>) -> std::io::Result<()> {
    stream.set_nodelay(true)?;
    stream.set_read_timeout(Some(Duration::from_secs(60)))?;
    let mut out = stream.try_clone()?;
    let mut input = BufReader::new(stream);
    loop {
        let mut line = String::new();
        if input.read_line(&mut line)? == 0 {
            return Ok(());
        }
        loop {
            let mut h = String::new();
            if input.read_line(&mut h)? == 0 || h == "\r\n" {
                break;
            }
        }
        let mut words = line.split_whitespace();
        let method = words.next().unwrap_or("").to_string();
        let path = words.next().unwrap_or("").to_string();
        let page = {
            let mut s = state.lock().unwrap();
            s.requests.push((method.clone(), path.clone()));
            let bare = path.split('?').next().unwrap_or("");
            // a sorted index is the same page
            let sorted = || if path[bare.len()..].starts_with("?C=") { s.pages.get(bare) } else { None };
            s.overrides.get(bare).or_else(|| s.pages.get(&path)).or_else(sorted).cloned().or_else(|| s.handler.as_ref().and_then(|h| h(&path)))
        };
        let head = method == "HEAD";
        let mut send = |status: u16, extra: &str, body: &[u8], cut: Option<usize>, chunked: bool| -> std::io::Result<()> {
            let mut v = format!("HTTP/1.1 {} Status\r\n{}", status, extra).into_bytes();
            if chunked {
                v.extend(b"Transfer-Encoding: chunked\r\n\r\n");
                if !head {
                    let sent = &body[..cut.unwrap_or(body.len())];
                    for c in sent.chunks(1000) {
                        v.extend(format!("{:x}\r\n", c.len()).into_bytes());
                        v.extend(c);
                        v.extend(b"\r\n");
                    }
                    if cut.is_none() {
                        v.extend(b"0\r\n\r\n");
                    }
                }
            } else {
                v.extend(format!("Content-Length: {}\r\n\r\n", body.len()).into_bytes());
                if !head {
                    v.extend(&body[..cut.unwrap_or(body.len())]);
                }
            }
            out.write_all(&v)?;
            out.flush()
        };
        match page {
            None => send(404, "Content-Type: text/html\r\n", b"<html>dolor ipsum: this page is not here</html>\n", None, false)?,
            Some(p) => {
                if p.delay_ms > 0 {
                    std::thread::sleep(Duration::from_millis(p.delay_ms as u64));
                }
                let mut body = if p.gzip { crate::trees::gzip(&p.body, 1) } else { p.body.clone() };
                let enc = if p.gzip { "Content-Encoding: gzip\r\n" } else { "" };
                match p.fault {
                    Fault::Damage(n) if p.gzip => {
                        body.truncate(1 + (body.len() - 1) * (n as usize % 1000) / 1000);
                        send(200, enc, &body, None, p.chunked)?
                    }
                    Fault::Damage(_) => return Ok(()),
                    Fault::Drop => return Ok(()),
                    Fault::Status(n) => send(n, "", &p.body, None, false)?,
                    Fault::Truncate(n) if !body.is_empty() => {
                        // at least the last byte is missing
                        send(200, enc, &body, Some(body.len() * (n as usize % 1000) / 1000), p.chunked)?;
                        return Ok(());
                    }
                    _ => match &p.redirect {
                        Some(to) => send(302, &format!("Location: {}\r\n", to), b"", None, false)?,
                        None => send(200, enc, &body, None, p.chunked)?,
                    },
                }
            }
        }
    }
}
