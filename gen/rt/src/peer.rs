//! A scripted loopback HTTP/1.1 peer on a current-thread runtime.
use crate::*;
use std::cell::RefCell;
use std::rc::Rc;
use std::task::Poll;
use std::time::Duration;
use tokio::io::{AsyncReadExt, AsyncWriteExt};
use tokio::net::{TcpListener, TcpStream};

#[derive(Clone, Debug)]
pub struct Answer {
    pub raw: Vec<u8>,
    pub then: Then,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Then {
    Close,
    /// Send back what arrives until the end.
    Echo,
}

impl Answer {
    pub fn new(status: u16, headers: &[(&str, &str)], body: &[u8]) -> Answer {
        let mut raw = format!("HTTP/1.1 {status} R\r\n").into_bytes();
        for (n, v) in headers {
            raw.extend_from_slice(format!("{n}: {v}\r\n").as_bytes());
        }
        let bodiless = status < 200 || status == 204 || status == 304;
        if !bodiless {
            raw.extend_from_slice(format!("content-length: {}\r\n", body.len()).as_bytes());
        }
        raw.extend_from_slice(b"connection: close\r\n\r\n");
        if !bodiless {
            raw.extend_from_slice(body);
        }
        Answer { raw, then: Then::Close }
    }
    pub fn raw(raw: impl Into<Vec<u8>>) -> Answer {
        Answer { raw: raw.into(), then: Then::Close }
    }
    pub fn json(status: u16, v: &Value) -> Answer {
        Answer::new(status, &[("content-type", "application/json")], v.to_string().as_bytes())
    }
}

pub struct Peer {
    pub rt: tokio::runtime::Runtime,
    listener: TcpListener,
    port: u16,
    pub http: reqwest::Client,
}

async fn read_request(s: &mut TcpStream) -> std::io::Result<Received> {
    let mut buf = Vec::new();
    let mut more = |buf: &mut Vec<u8>, tmp: &[u8]| buf.extend_from_slice(tmp);
    let mut tmp = [0u8; 4096];
    let head_end = loop {
        if let Some(p) = buf.windows(4).position(|w| w == b"\r\n\r\n") {
            break p + 4;
        }
        let n = s.read(&mut tmp).await?;
        if n == 0 {
            return Err(std::io::ErrorKind::UnexpectedEof.into());
        }
        more(&mut buf, &tmp[..n]);
    };
    let head = buf[..head_end - 4].to_vec();
    let mut body = buf[head_end..].to_vec();
    let mut lines = head.split(|b| *b == b'\n').map(|l| l.strip_suffix(b"\r").unwrap_or(l));
    let first = String::from_utf8_lossy(lines.next().unwrap()).into_owned();
    let mut it = first.split(' ');
    let mut r = Received {
        method: it.next().unwrap_or("").into(),
        target: it.next().unwrap_or("").into(),
        ..Default::default()
    };
    for l in lines {
        let p = l.iter().position(|b| *b == b':').unwrap_or(l.len());
        let v = if p < l.len() { &l[p + 1..] } else { &[] };
        let v = v.strip_prefix(b" ").unwrap_or(v);
        r.headers.push((String::from_utf8_lossy(&l[..p]).into_owned(), v.to_vec()));
    }
    let chunked = r.header("transfer-encoding").iter().any(|v| v.contains("chunked"));
    let want = r.header("content-length").first().and_then(|v| v.parse::<usize>().ok()).unwrap_or(0);
    while if chunked { !body.ends_with(b"0\r\n\r\n") } else { body.len() < want } {
        let k = s.read(&mut tmp).await?;
        if k == 0 {
            return Err(std::io::ErrorKind::UnexpectedEof.into());
        }
        body.extend_from_slice(&tmp[..k]);
    }
    if chunked {
        let mut out = vec![];
        let mut rest = &body[..];
        loop {
            let e = rest.windows(2).position(|w| w == b"\r\n").ok_or(std::io::ErrorKind::InvalidData)?;
            let n = usize::from_str_radix(&String::from_utf8_lossy(&rest[..e]), 16).map_err(|_| std::io::ErrorKind::InvalidData)?;
            if n == 0 {
                break;
            }
            out.extend_from_slice(&rest[e + 2..e + 2 + n]);
            rest = &rest[e + 4 + n..];
        }
        body = out;
    }
    r.body = body;
    Ok(r)
}

impl Peer {
    pub fn start() -> Peer {
        let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
        let listener = rt.block_on(TcpListener::bind("127.0.0.1:0")).unwrap();
        let port = listener.local_addr().unwrap().port();
        let http = {
            let _g = rt.enter();
            reqwest::Client::builder().pool_max_idle_per_host(0).no_proxy().redirect(reqwest::redirect::Policy::none()).build().unwrap()
        };
        Peer { rt, listener, port, http }
    }
    pub fn env(&self) -> Env {
        Env { base: format!("http://127.0.0.1:{}", self.port), http: self.http.clone(), inner: Default::default() }
    }
    pub fn env_at(&self, prefix: &str) -> Env {
        let mut e = self.env();
        e.base.push_str(prefix);
        e
    }

    /// Run `fut` against this peer, which gives `answers` in order (204 after
    /// the last); returns what the peer received, and the result.
    pub fn run<T>(&self, answers: &[Answer], fut: impl Future<Output = T>) -> Result<(Vec<Received>, T), String> {
        self.watch(answers, |_| fut)
    }

    /// The same, where the caller may look at what was received so far.
    pub fn watch<T, F: Future<Output = T>>(&self, answers: &[Answer], fut: impl FnOnce(Rc<RefCell<Vec<Received>>>) -> F) -> Result<(Vec<Received>, T), String> {
        let got: Rc<RefCell<Vec<Received>>> = Default::default();
        let fut = fut(got.clone());
        let server = async {
            let mut n = 0;
            loop {
                let Ok((mut s, _)) = self.listener.accept().await else { continue };
                let _ = s.set_nodelay(true);
                match read_request(&mut s).await {
                    Ok(r) => got.borrow_mut().push(r),
                    Err(e) => {
                        got.borrow_mut().push(Received { method: format!("incomplete request: {e}"), ..Default::default() });
                        continue;
                    }
                }
                let none = Answer::new(204, &[], b"");
                let a = answers.get(n).unwrap_or(&none);
                n += 1;
                let _ = s.write_all(&a.raw).await;
                if a.then == Then::Echo {
                    let mut tmp = [0u8; 1024];
                    while let Ok(k) = s.read(&mut tmp).await {
                        if k == 0 || s.write_all(&tmp[..k]).await.is_err() {
                            break;
                        }
                    }
                }
                let _ = s.shutdown().await;
            }
        };
        let all = async {
            let mut server = Box::pin(async {
                let _: () = server.await;
            });
            let mut fut = Box::pin(fut);
            let r = std::future::poll_fn(|cx| {
                if let Poll::Ready(v) = fut.as_mut().poll(cx) {
                    return Poll::Ready(v);
                }
                let _ = server.as_mut().poll(cx);
                Poll::Pending
            })
            .await;
            drop(fut);
            // Anything sent beyond that must not go unnoticed.
            for _ in 0..2 {
                tokio::task::yield_now().await;
                std::future::poll_fn(|cx| {
                    let _ = server.as_mut().poll(cx);
                    Poll::Ready(())
                })
                .await;
            }
            r
        };
        let r = self
            .rt
            .block_on(async { tokio::time::timeout(Duration::from_secs(30), all).await })
            .map_err(|_| "the call did not finish within 30 s".to_string())?;
        let got = got.borrow().clone();
        Ok((got, r))
    }
}

/// Requests received and not answered yet.
#[derive(Default)]
pub struct Held {
    pub log: RefCell<Vec<Received>>,
    open: RefCell<Vec<Option<TcpStream>>>,
}

impl Held {
    /// Answers the request received as number `n`.
    pub async fn answer(&self, n: usize, a: &Answer) {
        let s = self.open.borrow_mut()[n].take();
        if let Some(mut s) = s {
            let _ = s.write_all(&a.raw).await;
            let _ = s.shutdown().await;
        }
    }
}

impl Peer {
    /// Run `fut`, which answers each request when it pleases.
    pub fn holding<T, F: Future<Output = T>>(&self, fut: impl FnOnce(Rc<Held>) -> F) -> Result<T, String> {
        let held: Rc<Held> = Default::default();
        let fut = fut(held.clone());
        let server = async {
            loop {
                let Ok((mut s, _)) = self.listener.accept().await else { continue };
                let _ = s.set_nodelay(true);
                let r = read_request(&mut s).await.unwrap_or_else(|e| Received { method: format!("incomplete request: {e}"), ..Default::default() });
                held.open.borrow_mut().push(Some(s));
                held.log.borrow_mut().push(r);
            }
        };
        let all = async {
            let mut server = Box::pin(async {
                let _: () = server.await;
            });
            let mut fut = Box::pin(fut);
            std::future::poll_fn(|cx| {
                if let Poll::Ready(v) = fut.as_mut().poll(cx) {
                    return Poll::Ready(v);
                }
                let before = held.log.borrow().len();
                let _ = server.as_mut().poll(cx);
                if held.log.borrow().len() != before {
                    cx.waker().wake_by_ref();
                }
                Poll::Pending
            })
            .await
        };
        self.rt.block_on(async { tokio::time::timeout(Duration::from_secs(30), all).await }).map_err(|_| "the calls did not finish within 30 s".to_string())
    }
}

thread_local! {
    static PEER: Peer = Peer::start();
}

/// The peer of this worker thread.
pub fn with<R>(f: impl FnOnce(&Peer) -> R) -> R {
    PEER.with(f)
}
