//! C05: an upgrade succeeds on 101 only, and then is a faithful byte channel.
use crate::c_resp::{response, Ev};
use mc_core::*;
use progenitor_client::{Error, ResponseValue};
use tokio::io::{AsyncReadExt, AsyncWriteExt};

pub fn run() {
    let c = Check::new("C05");
    // 1. every status with every small body script, every set of the headers
    // an answer to a handshake may have, and every protocol version
    let sets: Vec<Vec<(&str, &[u8])>> = vec![
        vec![("x-a", b"1"), ("x-a", b"2"), ("upgrade", b"websocket")],
        vec![("x-a", b"1"), ("x-a", b"2")],
        vec![("x-a", b"1"), ("x-a", b"2"), ("connection", b"upgrade")],
        vec![("x-a", b"1"), ("x-a", b"2"), ("connection", b"Upgrade"), ("upgrade", b"WebSocket"), ("sec-websocket-accept", b"s3pPLMBiTxaQ9kYGzzhZRbK+xOo=")],
        vec![("x-a", b"1"), ("x-a", b"2"), ("connection", b"close"), ("upgrade", b"h2c, websocket")],
        vec![("x-a", b"1"), ("x-a", b"2"), ("sec-websocket-version", b"13"), ("retry-after", b"1")],
        vec![("x-a", b"1"), ("x-a", b"2"), ("content-type", b"application/json"), ("content-length", b"2")],
    ];
    let versions = [http::Version::HTTP_09, http::Version::HTTP_10, http::Version::HTTP_11, http::Version::HTTP_2, http::Version::HTTP_3];
    for status in 100..=999u16 {
        for (hi, hdrs) in sets.iter().enumerate() {
          for v in versions {
            for (i, evs) in [
                vec![],
                vec![Ev::Data(b"no".to_vec())],
                vec![Ev::Data(b"n".to_vec()), Ev::Stall, Ev::Data(b"o".to_vec())],
            ]
            .into_iter()
            .enumerate()
            {
                c.case(
                    || format!("status {status} body {i} headers {hi} {v:?}"),
                    || {
                        c.trans(1);
                        let (mut resp, _) = response(status, hdrs, &evs);
                        if v != http::Version::HTTP_11 {
                            let mut r: http::Response<reqwest::Body> = resp.into();
                            *r.version_mut() = v;
                            resp = r.into();
                        }
                        let r = run_ready(Box::pin(ResponseValue::upgrade::<()>(resp)).as_mut(), 16)?;
                        let k = match r {
                            Ok(_) => return Err("upgraded without a connection to upgrade".into()),
                            Err(Error::InvalidUpgrade(_)) if status == 101 => "101: invalid upgrade",
                            Err(Error::UnexpectedResponse(r)) if status != 101 => {
                                if r.status().as_u16() != status {
                                    return Err(format!("status became {}", r.status()));
                                }
                                let mut m = http::HeaderMap::new();
                                for (n, v) in hdrs {
                                    m.append(http::HeaderName::from_bytes(n.as_bytes()).unwrap(), http::HeaderValue::from_bytes(v).unwrap());
                                }
                                if *r.headers() != m {
                                    return Err(format!("headers became {:?}", r.headers()));
                                }
                                if r.version() != v {
                                    return Err(format!("version became {:?}", r.version()));
                                }
                                let b = run_ready(Box::pin(r.bytes()).as_mut(), 16)?.map_err(|e| e.to_string())?;
                                let want: &[u8] = if i == 0 { b"" } else { b"no" };
                                if b != want {
                                    return Err(format!("body became {b:?}"));
                                }
                                "other: unexpected response"
                            }
                            Err(e) => return Err(format!("wrong error: {e}")),
                        };
                        c.outcome(k);
                        c.state(&(status, i, hi));
                        Ok(())
                    },
                );
            }
          }
        }
    }
    c.bound("every status 100..=999 x 3 body scripts x 7 header sets x 5 protocol versions");
    // 2. real connections: every history of reads and writes
    let w = crate::wire::Wire::start();
    let depth = if c.thorough { 6 } else { 4 };
    // op: 0 client sends 1 byte, 1 client sends 3, 2 peer sends 1, 3 peer sends 3
    explore(&c, |ch| {
        let early = ch.choose(3); // bytes glued to the 101 head
        let n = ch.choose(depth + 1);
        let ops: Vec<usize> = (0..n).map(|_| ch.choose(4)).collect();
        let who_closes = ch.choose(2);
        c.case(
            || format!("session early={early} ops={ops:?} close={who_closes}"),
            || session(&w, HEADS[0], EARLY[early], &ops, who_closes).map(|()| {
                c.outcome("101: upgraded, bytes exact both ways");
                c.state(&(early, &ops, who_closes));
            }),
        );
        c.sample("session", || json!({"early": early, "ops": format!("{ops:?}")}));
    });
    c.bound(format!("every session of <= {depth} transfers x 3 amounts of data glued to the 101 head x closing side"));
    // every shape of the 101 answer, and large transfers either way
    for head in 0..HEADS.len() {
        for (e, early) in EARLY.iter().enumerate() {
            for ops in [vec![], vec![0, 2], vec![3, 1]] {
                for closes in 0..2 {
                    c.case(|| format!("head {head} early {e} ops {ops:?} close {closes}"), || session(&w, HEADS[head], early, &ops, closes));
                }
            }
        }
    }
    // every header name on the answer: kept, in order
    for n in crate::c_value::NAMES {
        if ["content-length", "transfer-encoding", "connection", "upgrade"].contains(n) {
            continue;
        }
        let head = format!("HTTP/1.1 101 Switching Protocols\r\nconnection: upgrade\r\nupgrade: websocket\r\nx-a: 1\r\n{n}: 5\r\n{n}: two; words\r\n\r\n");
        c.case(|| format!("101 with {n}"), || session(&w, &head, b"E", &[0, 2], 0));
    }
    c.bound("101 answers with each of 45 further header names given twice");
    for k in 0..2 * BIG.len() {
        for j in 0..4 {
            c.case(|| format!("large {k} then {j}"), || session(&w, HEADS[0], EARLY[j % 3], &[4 + k, j, 4 + (k + j) % (2 * BIG.len())], j % 2));
        }
    }
    for n in [100, 8191, 8192, 16_384, 70_000, 300_000] {
        let early: Vec<u8> = (0..n).map(|i| (i % 253) as u8).collect();
        c.case(|| format!("{n} bytes glued to the head"), || session(&w, HEADS[0], &early, &[0, 2], 0));
    }
    c.bound("8 forms of the 101 head; transfers to 1 MiB each way; up to 300000 bytes glued to the head");
    // 3. non-101 over the wire stays readable
    for status in [200u16, 204, 301, 400, 426, 500] {
        c.case(
            || format!("wire status {status}"),
            || {
                let body: &[u8] = if status == 204 { b"" } else { b"nope!" };
                let a = [format!("HTTP/1.1 {status} X\r\nx-a: 1\r\ncontent-length: {}\r\n\r\n", body.len()).as_bytes(), body].concat();
                let a = if status == 204 { b"HTTP/1.1 204 X\r\nx-a: 1\r\n\r\n".to_vec() } else { a };
                let (_, r) = w.exchange(w.client.get(w.base()), &a)?;
                let r = r.map_err(|e| e.to_string())?;
                match w.rt.block_on(ResponseValue::upgrade::<()>(r)) {
                    Err(Error::UnexpectedResponse(r)) if r.status().as_u16() == status => {
                        let b = w.rt.block_on(r.bytes()).map_err(|e| e.to_string())?;
                        if b != body {
                            return Err(format!("{b:?}"));
                        }
                        Ok(())
                    }
                    Err(e) => Err(format!("{e}")),
                    Ok(_) => Err("upgraded".into()),
                }
            },
        );
    }
    c.finish_and_exit();
}

const EARLY: [&[u8]; 3] = [b"", b"E", b"EARLY DATA \x00\xff"];
const BIG: [usize; 8] = [2, 255, 4096, 8192, 16_385, 65_536, 100_003, 1 << 20];
const HEADS: [&str; 8] = [
    "HTTP/1.1 101 Switching Protocols\r\nconnection: upgrade\r\nupgrade: websocket\r\nx-a: 1\r\n\r\n",
    "HTTP/1.1 101 Switching Protocols\r\nx-a: 1\r\n\r\n",
    "HTTP/1.1 101 \r\nupgrade: websocket\r\nx-a: 1\r\n\r\n",
    "HTTP/1.1 101 ok\r\nConnection: keep-alive, Upgrade\r\nx-a: 1\r\n\r\n",
    "HTTP/1.1 101 Switching Protocols\r\nConnection: Upgrade\r\nUpgrade: WebSocket\r\nSec-WebSocket-Accept: wrong\r\nX-A: 1\r\n\r\n",
    "HTTP/1.1 101 Switching Protocols\r\nConnection: Upgrade\r\nUpgrade: h2c\r\nx-a: 1\r\nx-a: 2\r\n\r\n",
    "HTTP/1.1 100 Continue\r\n\r\nHTTP/1.1 101 Switching Protocols\r\nconnection: upgrade\r\nx-a: 1\r\n\r\n",
    "HTTP/1.0 101 Switching Protocols\r\nconnection: upgrade\r\nupgrade: websocket\r\nx-a: 1\r\n\r\n",
];

/// Even ops are the client's or (from 2) the peer's one byte, odd ones three
/// bytes; from 4 on the size is from `BIG`, even from the client.
fn size(op: usize) -> (bool, usize) {
    match op {
        0..=3 => (op < 2, if op % 2 == 0 { 1 } else { 3 }),
        _ => (op % 2 == 0, BIG[(op - 4) / 2]),
    }
}

fn session(w: &crate::wire::Wire, head: &str, early: &[u8], ops: &[usize], closer: usize) -> Result<(), String> {
    let data = |i: usize, op: usize| -> Vec<u8> { (0..size(op).1).map(|k| (i * 16 + k + k / 251) as u8 ^ 0x80).collect() };
    let url = w.base();
    let peer = |mut s: tokio::net::TcpStream| async move {
        let r = crate::wire::read_request(&mut s).await.map_err(|e| e.to_string())?;
        if r.header("upgrade").is_empty() {
            return Err("no upgrade header".to_string());
        }
        s.write_all(&[head.as_bytes(), early].concat()).await.map_err(|e| e.to_string())?;
        for (i, op) in ops.iter().enumerate() {
            let d = data(i, *op);
            if !size(*op).0 {
                s.write_all(&d).await.map_err(|e| e.to_string())?;
            } else {
                let mut b = vec![0; d.len()];
                s.read_exact(&mut b).await.map_err(|e| format!("peer read: {e}"))?;
                if b != d {
                    return Err(format!("peer read {b:?} instead of {d:?}"));
                }
            }
        }
        if closer == 0 {
            s.shutdown().await.map_err(|e| e.to_string())?;
        } else {
            let mut rest = vec![];
            s.read_to_end(&mut rest).await.map_err(|e| format!("peer end: {e}"))?;
            if !rest.is_empty() {
                return Err(format!("peer got extra {rest:?}"));
            }
        }
        Ok(())
    };
    let us = async {
        let resp = w
            .client
            .get(url)
            .header("connection", "upgrade")
            .header("upgrade", "websocket")
            .send()
            .await
            .map_err(|e| e.to_string())?;
        let rv = ResponseValue::upgrade::<()>(resp).await.map_err(|e| format!("not upgraded: {e}"))?;
        let got: Vec<(String, Vec<u8>)> = rv.headers().iter().map(|(n, v)| (n.to_string(), v.as_bytes().to_vec())).collect();
        let mut sent: Vec<(String, Vec<u8>)> = head
            .rsplit("HTTP/1.")
            .next()
            .unwrap()
            .lines()
            .skip(1)
            .filter_map(|l| l.split_once(": "))
            .map(|(n, v)| (n.to_lowercase(), v.as_bytes().to_vec()))
            .collect();
        let mut sorted = got.clone();
        sorted.sort_by(|a, b| a.0.cmp(&b.0)); // stable: order within a name stays
        sent.sort_by(|a, b| a.0.cmp(&b.0));
        if rv.status().as_u16() != 101 || sorted != sent {
            return Err(format!("status/headers: {} {:?}", rv.status(), rv.headers()));
        }
        let mut up = rv.into_inner();
        let mut b = vec![0; early.len()];
        up.read_exact(&mut b).await.map_err(|e| format!("early: {e}"))?;
        if b != early {
            return Err(format!("early data {b:?}"));
        }
        for (i, op) in ops.iter().enumerate() {
            let d = data(i, *op);
            if size(*op).0 {
                up.write_all(&d).await.map_err(|e| e.to_string())?;
                up.flush().await.map_err(|e| e.to_string())?;
            } else {
                let mut b = vec![0; d.len()];
                up.read_exact(&mut b).await.map_err(|e| format!("read: {e}"))?;
                if b != d {
                    return Err(format!("read {b:?} instead of {d:?}"));
                }
            }
        }
        if closer == 0 {
            let mut rest = vec![];
            up.read_to_end(&mut rest).await.map_err(|e| format!("end: {e}"))?;
            if !rest.is_empty() {
                return Err(format!("extra {rest:?}"));
            }
        } else {
            up.shutdown().await.map_err(|e| e.to_string())?;
        }
        drop(up);
        Ok(())
    };
    let us = async { tokio::time::timeout(std::time::Duration::from_secs(20), us).await.unwrap_or(Err("session stuck".into())) };
    let peer2 = |s| async move { tokio::time::timeout(std::time::Duration::from_secs(20), peer(s)).await.unwrap_or(Err("peer stuck".into())) };
    let (a, b) = w.session(peer2, us);
    b?;
    a
}
