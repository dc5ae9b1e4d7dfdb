//! A scripted loopback HTTP/1.1 peer and a current-thread runtime.
use std::time::Duration;
use tokio::io::{AsyncReadExt, AsyncWriteExt};
use tokio::net::{TcpListener, TcpStream};

pub struct Wire {
    pub rt: tokio::runtime::Runtime,
    listener: TcpListener,
    port: u16,
    pub client: reqwest::Client,
}

#[derive(Debug, Clone, Default)]
pub struct Received {
    pub method: String,
    pub target: String,
    pub headers: Vec<(String, Vec<u8>)>,
    pub body: Vec<u8>,
}

impl Received {
    pub fn header(&self, name: &str) -> Vec<String> {
        self.headers
            .iter()
            .filter(|(n, _)| n.eq_ignore_ascii_case(name))
            .map(|(_, v)| String::from_utf8_lossy(v).into_owned())
            .collect()
    }
}

/// Read one request (Content-Length or chunked framing).
pub async fn read_request(s: &mut TcpStream) -> std::io::Result<Received> {
    let mut buf = Vec::new();
    let head_end = loop {
        if let Some(p) = buf.windows(4).position(|w| w == b"\r\n\r\n") {
            break p + 4;
        }
        let mut tmp = [0u8; 4096];
        let n = s.read(&mut tmp).await?;
        if n == 0 {
            return Err(std::io::ErrorKind::UnexpectedEof.into());
        }
        buf.extend_from_slice(&tmp[..n]);
    };
    let head = buf[..head_end - 4].to_vec();
    let mut body = buf[head_end..].to_vec();
    let mut lines = head.split(|b| *b == b'\n').map(|l| l.strip_suffix(b"\r").unwrap_or(l));
    let first = String::from_utf8_lossy(lines.next().unwrap()).into_owned();
    let mut it = first.split(' ');
    let mut r = Received {
        method: it.next().unwrap_or("").into(),
        target: it.next().unwrap_or("").into(),
        ..Default::default()
    };
    for l in lines {
        let p = l.iter().position(|b| *b == b':').unwrap_or(l.len());
        let v = if p < l.len() { &l[p + 1..] } else { &[] };
        let v = v.strip_prefix(b" ").unwrap_or(v);
        r.headers.push((String::from_utf8_lossy(&l[..p]).into_owned(), v.to_vec()));
    }
    if let Some(n) = r.header("content-length").first().and_then(|v| v.parse::<usize>().ok()) {
        while body.len() < n {
            let mut tmp = [0u8; 4096];
            let k = s.read(&mut tmp).await?;
            if k == 0 {
                return Err(std::io::ErrorKind::UnexpectedEof.into());
            }
            body.extend_from_slice(&tmp[..k]);
        }
        r.body = body;
    }
    Ok(r)
}

impl Wire {
    pub fn start() -> Wire {
        let rt = tokio::runtime::Builder::new_current_thread()
            .enable_all()
            .build()
            .unwrap();
        let listener = rt.block_on(TcpListener::bind("127.0.0.1:0")).unwrap();
        let port = listener.local_addr().unwrap().port();
        let client = {
            let _g = rt.enter();
            reqwest::Client::builder()
                .pool_max_idle_per_host(0)
                .no_proxy()
                .timeout(Duration::from_secs(60))
                .build()
                .unwrap()
        };
        Wire { rt, listener, port, client }
    }
    pub fn base(&self) -> String {
        format!("http://127.0.0.1:{}", self.port)
    }
    /// Send `rb`; the peer answers with the raw bytes `answer` and closes.
    pub fn exchange(
        &self,
        rb: reqwest::RequestBuilder,
        answer: &[u8],
    ) -> Result<(Received, reqwest::Result<reqwest::Response>), String> {
        let req = rb.build().map_err(|e| format!("request not built: {e}"))?;
        let fut = async {
            let srv = async {
                let (mut s, _) = self.listener.accept().await.map_err(|e| e.to_string())?;
                let r = read_request(&mut s).await.map_err(|e| e.to_string())?;
                s.write_all(answer).await.map_err(|e| e.to_string())?;
                s.shutdown().await.map_err(|e| e.to_string())?;
                Ok::<_, String>(r)
            };
            let (r, resp) = both(srv, self.client.execute(req)).await;
            Ok((r?, resp))
        };
        self.rt
            .block_on(async { tokio::time::timeout(Duration::from_secs(30), fut).await })
            .map_err(|_| "no answer within 30 s".to_string())?
    }
    /// Accept one connection and run the peer `f` concurrently with `g`.
    pub fn session<A, B, FA>(
        &self,
        peer: impl FnOnce(TcpStream) -> FA,
        g: impl std::future::Future<Output = B>,
    ) -> (A, B)
    where
        FA: std::future::Future<Output = A>,
    {
        self.rt.block_on(async {
            let srv = async {
                let (s, _) = self.listener.accept().await.unwrap();
                peer(s).await
            };
            both(srv, g).await
        })
    }
}

/// Drive two futures to completion on one task.
pub async fn both<A, B>(
    a: impl std::future::Future<Output = A>,
    b: impl std::future::Future<Output = B>,
) -> (A, B) {
    let mut a = Box::pin(a);
    let mut b = Box::pin(b);
    let (mut ra, mut rb) = (None, None);
    std::future::poll_fn(move |cx| {
        use std::task::Poll;
        if ra.is_none() {
            if let Poll::Ready(v) = a.as_mut().poll(cx) {
                ra = Some(v);
            }
        }
        if rb.is_none() {
            if let Poll::Ready(v) = b.as_mut().poll(cx) {
                rb = Some(v);
            }
        }
        if ra.is_some() && rb.is_some() {
            Poll::Ready((ra.take().unwrap(), rb.take().unwrap()))
        } else {
            Poll::Pending
        }
    })
    .await
}
