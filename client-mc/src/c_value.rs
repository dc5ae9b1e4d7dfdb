//! C06: a response value carries value, status and headers faithfully.
use crate::c_resp::{response, Ev};
use mc_core::*;
use progenitor_client::ResponseValue;
use reqwest::header::{HeaderMap, HeaderName, HeaderValue};
use reqwest::StatusCode;

fn map(h: &[(&str, &[u8])]) -> HeaderMap {
    let mut m = HeaderMap::new();
    for (n, v) in h {
        m.append(HeaderName::from_bytes(n.as_bytes()).unwrap(), HeaderValue::from_bytes(v).unwrap());
    }
    m
}

/// Reference for Content-Length: digits only, fits in 64 bits.
fn length(h: &[(&str, &[u8])]) -> Option<Option<u64>> {
    let vals: Vec<&[u8]> = h.iter().filter(|(n, _)| *n == "content-length").map(|x| x.1).collect();
    let Some(v) = vals.first() else { return Some(None) };
    if vals.iter().any(|x| x != v) || v.starts_with(b"+") {
        return None; // conflicting or oddly signed: left open
    }
    if v.is_empty() || !v.iter().all(|b| b.is_ascii_digit()) {
        return Some(None);
    }
    let mut n: u128 = 0;
    for d in v.iter() {
        n = (n * 10 + (d - b'0') as u128).min(1 << 100);
    }
    Some(u64::try_from(n).ok())
}

fn check<T: PartialEq + std::fmt::Debug + Clone>(
    rv: &ResponseValue<T>,
    v: &T,
    status: u16,
    h: &[(&str, &[u8])],
) -> Result<(), String> {
    let ne = |what: &str| Err(format!("{what} differs: {rv:?} {:?} {:?}", rv.status(), rv.headers()));
    if rv.status().as_u16() != status {
        return ne("status");
    }
    if *rv.headers() != map(h) {
        return ne("headers");
    }
    for n in map(h).keys() {
        let a: Vec<_> = rv.headers().get_all(n).iter().collect();
        let m = map(h);
        let b: Vec<_> = m.get_all(n).iter().collect();
        if a != b {
            return ne("order of repeated headers");
        }
    }
    if **rv != *v || rv.as_ref() != v {
        return ne("value");
    }
    if format!("{rv:?}") != format!("{v:?}") || format!("{rv:#?}") != format!("{v:#?}") {
        return ne("debug text");
    }
    if let Some(l) = length(h) {
        if rv.content_length() != l {
            return Err(format!("content length {:?} instead of {l:?} for {h:?}", rv.content_length()));
        }
    }
    Ok(())
}

pub const NAMES: &[&str] = &[
    "accept", "accept-ranges", "age", "allow", "alt-svc", "authorization", "cache-control", "connection", "content-disposition", "content-encoding",
    "content-language", "content-length", "content-location", "content-range", "content-security-policy", "content-type", "cookie", "date", "etag",
    "expires", "host", "keep-alive", "last-modified", "link", "location", "pragma", "proxy-authenticate", "proxy-authorization", "proxy-connection",
    "range", "retry-after", "sec-websocket-accept", "sec-websocket-extensions", "sec-websocket-key", "sec-websocket-protocol", "sec-websocket-version",
    "server", "set-cookie", "strict-transport-security", "te", "trailer", "transfer-encoding", "upgrade", "vary", "via", "warning",
    "www-authenticate", "x-request-id", "api-version",
];

pub fn run() {
    let c = Check::new("C06");
    let names = ["content-length", "x-a", "x-b"];
    let vals: [&[u8]; 4] = [b"12", b"", b"a, b", b"\xff0"];
    let mut lists: Vec<Vec<(&str, &[u8])>> = vec![];
    explore(&c, |ch| {
        let n = ch.choose(if c.thorough { 5 } else { 4 });
        lists.push((0..n).map(|_| (*ch.pick(&names), *ch.pick(&vals))).collect());
    });
    // 1. construction, access, map chains and mutation over all header lists
    for h in &lists {
        for status in [100u16, 200, 206, 404, 599, 999] {
            c.case(
                || format!("status {status} headers {h:?}"),
                || {
                    c.trans(1);
                    c.state(&(status, h));
                    let s = StatusCode::from_u16(status).unwrap();
                    let v = vec![1, 2, 3];
                    let mut rv = ResponseValue::new(v.clone(), s, map(h));
                    check(&rv, &v, status, h)?;
                    rv.push(4); // DerefMut
                    let v = vec![1, 2, 3, 4];
                    check(&rv, &v, status, h)?;
                    let calls = std::cell::Cell::new(0);
                    let rv: ResponseValue<usize> = rv
                        .map::<usize, _, ()>(|x| {
                            calls.set(calls.get() + 1);
                            x.len() * 10 + x[0]
                        })
                        .map_err(|_| "map failed")?;
                    if calls.get() != 1 {
                        return Err("map must call its function once".into());
                    }
                    check(&rv, &41, status, h)?;
                    let rv = rv.map::<String, _, ()>(|x| x.to_string()).map_err(|_| "map failed")?;
                    check(&rv, &"41".to_string(), status, h)?;
                    if rv.into_inner() != "41" {
                        return Err("into_inner".into());
                    }
                    // received, not constructed
                    let (resp, _) = response(status, h, &[]);
                    check(&ResponseValue::empty(resp), &(), status, h)?;
                    let (resp, _) = response(status, h, &[Ev::Data(b"body ignored".to_vec())]);
                    check(&ResponseValue::empty(resp), &(), status, h)?;
                    let (resp, _) = response(status, h, &[Ev::Data(b"[7]".to_vec())]);
                    let rv = run_ready(Box::pin(ResponseValue::<Vec<i32>>::from_response::<()>(resp)).as_mut(), 9)?
                        .map_err(|e| e.to_string())?;
                    check(&rv, &vec![7], status, h)?;
                    let (resp, _) = response(status, h, &[]);
                    let rv = ResponseValue::stream(resp);
                    if *rv.headers() != map(h) || rv.status() != s || Some(rv.content_length()) != length(h).or(Some(rv.content_length())) {
                        return Err("stream: status/headers".into());
                    }
                    c.outcome("carried");
                    Ok(())
                },
            );
        }
    }
    for status in 100..=999u16 {
        c.case(
            || format!("status {status}"),
            || {
                let h: &[(&str, &[u8])] = &[("x-a", b"1")];
                let rv = ResponseValue::new(Some(5u8), StatusCode::from_u16(status).unwrap(), map(h));
                check(&rv, &Some(5), status, h)?;
                let (resp, _) = response(status, h, &[]);
                check(&ResponseValue::empty(resp), &(), status, h)
            },
        );
    }
    c.bound(format!("{} header lists x 6 statuses; every status 100..=999", lists.len()));
    // 1b. every status with every registered header name, however received
    let statuses: Vec<u16> = (100..=999).collect();
    par(&statuses, |&status| {
        for n in NAMES {
            for h in [
                &[(*n, &b"v"[..])][..],
                &[("x-a", b"1"), (*n, b"1"), (*n, b"\xff2"), ("x-a", b"")],
                &[(*n, b"gzip, chunked"), ("content-length", b"12")],
                &[("content-length", b"7"), (*n, b"bytes 0-6/12; q=1")],
            ] {
                c.case(
                    || format!("status {status} headers {h:?}"),
                    || {
                        let (resp, _) = response(status, h, &[]);
                        check(&ResponseValue::empty(resp), &(), status, h)?;
                        let (resp, _) = response(status, h, &[]);
                        let rv = ResponseValue::stream(resp);
                        if rv.status().as_u16() != status || *rv.headers() != map(h) {
                            return Err("stream: status/headers".into());
                        }
                        let (resp, _) = response(status, h, &[Ev::Data(b"3".to_vec())]);
                        let mut rv = run_ready(Box::pin(ResponseValue::<u8>::from_response::<()>(resp)).as_mut(), 9)?
                            .map_err(|e| e.to_string())?;
                        check(&rv, &3, status, h)?;
                        *rv += 1;
                        check(&rv, &4, status, h)?;
                        *rv -= 1;
                        check(&ResponseValue::new(3u8, StatusCode::from_u16(status).unwrap(), map(h)), &3, status, h)?;
                        let rv = rv.map::<String, _, ()>(|x| x.to_string()).map_err(|_| "map failed")?;
                        check(&rv, &"3".to_string(), status, h)
                    },
                );
            }
        }
    });
    c.bound(format!("every status x {} registered header names, received in three ways and mapped", NAMES.len()));
    // 2. content length: every short header value over the relevant alphabet
    let alpha: &[u8] = b"0179 +-.xeE,_\t\xb9\xff";
    let depth = if c.thorough { 5 } else { 4 };
    explore(&c, |ch| {
        let n = ch.choose(depth + 1);
        let v: Vec<u8> = (0..n).map(|_| *ch.pick(alpha)).collect();
        c.case(
            || format!("content-length {v:?}"),
            || {
                let h: &[(&str, &[u8])] = &[("x-a", b"5"), ("content-length", &v)];
                let rv = ResponseValue::new(0u8, StatusCode::OK, map(h));
                if let Some(l) = length(h) {
                    if rv.content_length() != l {
                        return Err(format!("{:?} instead of {l:?}", rv.content_length()));
                    }
                    c.outcome(if l.is_some() { "length: valid" } else { "length: none" });
                } else {
                    c.outcome("length: left open");
                }
                Ok(())
            },
        );
    });
    for b in 0..=255u8 {
        if HeaderValue::from_bytes(&[b]).is_ok() {
            for v in [vec![b], vec![b, b'1'], vec![b'1', b]] {
                c.case(
                    || format!("content-length {v:?}"),
                    || {
                        let h: &[(&str, &[u8])] = &[("content-length", &v)];
                        let rv = ResponseValue::new(0u8, StatusCode::OK, map(h));
                        match length(h) {
                            Some(l) if l != rv.content_length() => Err(format!("{:?}", rv.content_length())),
                            _ => Ok(()),
                        }
                    },
                );
            }
        }
    }
    let mut ns: Vec<u128> = (0..=5000).collect();
    for k in 0..=66u32 {
        for d in -2i128..=2 {
            ns.push(((1i128 << k) + d).max(0) as u128);
        }
    }
    for k in 0..=25u32 {
        ns.extend([10u128.pow(k), 10u128.pow(k) - 1]);
    }
    for n in ns {
        for z in ["", "0", "00000000000000000000000000"] {
            c.case(
                || format!("content-length {z}{n}"),
                || {
                    let text = format!("{z}{n}");
                    let rv = ResponseValue::new((), StatusCode::OK, map(&[("content-length", text.as_bytes())]));
                    let want = u64::try_from(n).ok();
                    (rv.content_length() == want).then_some(()).ok_or(format!("{:?} instead of {want:?}", rv.content_length()))
                },
            );
        }
    }
    c.bound(format!("every Content-Length value of length <= {depth} over 17 bytes; 0..=5000, powers of two and ten +-2 beyond 2^64, leading zeros"));
    // many headers
    for n in 0..=(if c.thorough { 2000 } else { 400 }) {
        c.case(
            || format!("{n} headers"),
            || {
                let hs: Vec<(String, Vec<u8>)> = (0..n).map(|i| (format!("x-{}", i / 2), i.to_string().into_bytes())).collect();
                let h: Vec<(&str, &[u8])> = hs.iter().map(|(a, b)| (a.as_str(), b.as_slice())).collect();
                let (resp, _) = response(200, &h, &[]);
                check(&ResponseValue::empty(resp), &(), 200, &h)?;
                let (resp, _) = response(200, &h, &[]);
                let rv = ResponseValue::stream(resp);
                if *rv.headers() != map(&h) {
                    return Err("stream headers".into());
                }
                let (resp, _) = response(200, &h, &[Ev::Data(b"1".to_vec())]);
                let rv = run_ready(Box::pin(ResponseValue::<u8>::from_response::<()>(resp)).as_mut(), 9)?.map_err(|e| e.to_string())?;
                check(&rv, &1, 200, &h)
            },
        );
    }
    c.sample("header list", || json!(format!("{:?}", lists.last())));
    c.finish_and_exit();
}
