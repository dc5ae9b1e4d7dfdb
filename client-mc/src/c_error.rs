//! C07 error classification, status and untyped conversion; C08 rendering.
use crate::c_resp::{response, Boom, Ev};
use bytes::Bytes;
use mc_core::*;
use progenitor_client::{ByteStream, Error, ResponseValue};
use reqwest::header::{HeaderMap, HeaderValue};
use reqwest::StatusCode;

type Hdrs = Vec<(&'static str, &'static [u8])>;

/// A recipe from which an error of each kind is built (errors are not Clone).
#[derive(Clone, Debug, Hash)]
enum R {
    InvalidRequest(String),
    PreHook(String),
    PostHook(String),
    Comm(Rq),
    Upgrade(Rq),
    Body(Rq),
    Payload(Vec<u8>, u8),
    Resp(u16, u8),
    Unexpected(u16, u8),
    /// with the body as one buffer, and another URL
    UnexpectedFull(u16, &'static str),
}

/// How a reqwest::Error is produced.
#[derive(Clone, Debug, Hash, Copy)]
enum Rq {
    BadUrl,
    BadHeader,
    Status(u16),
    BodyFails,
    BodyFailsDeep,
    Decode,
    Refused,
    /// a chain of causes given by the digits of the number
    Chain(u16),
}

fn hdrs(k: u8) -> Hdrs {
    match k {
        3.. => vec![("x-a", b"1"), (crate::c_value::NAMES[k as usize - 3], b"5"), (crate::c_value::NAMES[k as usize - 3], b"two; words=\"x\"")],
        0 => vec![],
        1 => vec![("x-a", b"1"), ("x-a", b"2"), ("content-length", b"3")],
        _ => vec![("x-b", b"\xff"), ("content-type", b"text/plain")],
    }
}

fn hmap(k: u8) -> HeaderMap {
    let mut m = HeaderMap::new();
    for (n, v) in hdrs(k) {
        m.append(n, HeaderValue::from_bytes(v).unwrap());
    }
    m
}

#[derive(Debug)]
struct Deep(u8);
impl std::fmt::Display for Deep {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "deep{}", self.0)
    }
}
const NEXT: [Deep; 3] = [Deep(0), Deep(1), Deep(2)];
impl std::error::Error for Deep {
    fn source(&self) -> Option<&(dyn std::error::Error + 'static)> {
        static N: [Deep; 3] = NEXT;
        (self.0 > 0).then(|| &N[self.0 as usize - 1] as _)
    }
}

const TEXTS: [&str; 4] = ["x", "y", "", "error decoding response body"];
#[derive(Debug)]
struct Link(&'static str, Option<Box<Link>>);
impl std::fmt::Display for Link {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(self.0)
    }
}
impl std::error::Error for Link {
    fn source(&self) -> Option<&(dyn std::error::Error + 'static)> {
        self.1.as_ref().map(|b| &**b as _)
    }
}
/// Base-5 digits: 1..=4 are texts, 0 ends the chain.
fn chain(n: u16) -> Option<Link> {
    (n % 5 > 0).then(|| Link(TEXTS[n as usize % 5 - 1], chain(n / 5).map(Box::new)))
}

struct Fails<E>(Option<E>);
impl<E: Unpin> futures_core::Stream for Fails<E> {
    type Item = Result<Bytes, E>;
    fn poll_next(mut self: std::pin::Pin<&mut Self>, _: &mut std::task::Context<'_>) -> std::task::Poll<Option<Self::Item>> {
        std::task::Poll::Ready(self.0.take().map(Err))
    }
}

fn rq(r: Rq) -> reqwest::Error {
    thread_local!(static W: crate::wire::Wire = crate::wire::Wire::start());
    let client = reqwest::Client::new();
    match r {
        Rq::BadUrl => client.get("not a url").build().unwrap_err(),
        Rq::BadHeader => client.get("http://h").header("bad\n", "x").build().unwrap_err(),
        Rq::Status(s) => response(s, &[], &[]).0.error_for_status().unwrap_err(),
        Rq::BodyFails => run_ready(Box::pin(response(200, &[], &[Ev::Fail]).0.bytes()).as_mut(), 9).unwrap().unwrap_err(),
        Rq::BodyFailsDeep => {
            let r: reqwest::Response = http::Response::new(reqwest::Body::wrap_stream(Fails(Some(Deep(3))))).into();
            run_ready(Box::pin(r.bytes()).as_mut(), 9).unwrap().unwrap_err()
        }
        Rq::Chain(n) => {
            let r: reqwest::Response = http::Response::new(reqwest::Body::wrap_stream(Fails(chain(n)))).into();
            run_ready(Box::pin(r.bytes()).as_mut(), 9).unwrap().unwrap_err()
        }
        Rq::Decode => run_ready(Box::pin(response(200, &[], &[Ev::Data(b"x".to_vec())]).0.json::<u8>()).as_mut(), 9).unwrap().unwrap_err(),
        Rq::Refused => W.with(|w| {
            w.rt.block_on(async { w.client.get("http://127.0.0.1:1/secret").send().await.unwrap_err() })
        }),
    }
}

fn serr(k: u8) -> serde_json::Error {
    match k {
        0 => serde_json::from_slice::<u8>(b"").unwrap_err(),
        1 => serde_json::from_slice::<u8>(b"[1\n,").unwrap_err(),
        3 => serde_json::Error::io(std::io::Error::other(Link("io", Some(Box::new(Link("io", None)))))),
        _ => {
            use serde::de::Error;
            serde_json::Error::custom("custom")
        }
    }
}

fn build<E>(r: &R, e: E) -> Error<E> {
    match r {
        R::InvalidRequest(s) => Error::InvalidRequest(s.clone()),
        R::PreHook(s) => Error::PreHookError(s.clone()),
        R::PostHook(s) => Error::PostHookError(s.clone()),
        R::Comm(q) => Error::CommunicationError(rq(*q)),
        R::Upgrade(q) => Error::InvalidUpgrade(rq(*q)),
        R::Body(q) => Error::ResponseBodyError(rq(*q)),
        R::Payload(b, k) => Error::InvalidResponsePayload(b.clone().into(), serr(*k)),
        R::Resp(s, h) => Error::ErrorResponse(ResponseValue::new(e, StatusCode::from_u16(*s).unwrap(), hmap(*h))),
        R::UnexpectedFull(s, b) => {
            use reqwest::ResponseBuilderExt;
            let r = http::Response::builder().status(*s).version(http::Version::HTTP_10).header("x-a", "1");
            let r = r.url("http://u.example/p?q".parse().unwrap()).body(reqwest::Body::from(*b)).unwrap();
            Error::UnexpectedResponse(r.into())
        }
        R::Unexpected(s, h) => Error::UnexpectedResponse(response(*s, &hdrs(*h), &[Ev::Data(b"left".to_vec())]).0),
    }
}

fn recipes(thorough: bool) -> Vec<R> {
    let mut v = vec![];
    for s in ["", "m", "two\nlines", "\u{e9}{}", "Communication Error: x", " padded\t", "  "] {
        v.extend([R::InvalidRequest(s.into()), R::PreHook(s.into()), R::PostHook(s.into())]);
    }
    let mut qs = vec![Rq::BadUrl, Rq::BadHeader, Rq::BodyFails, Rq::BodyFailsDeep, Rq::Decode, Rq::Refused];
    for s in if thorough { 400..=599u16 } else { 400..=430 } {
        qs.push(Rq::Status(s));
    }
    qs.extend([500, 503, 599].map(Rq::Status));
    // every chain of 1..=4 causes (thorough: 5) over 4 texts
    for n in 1..if thorough { 3125 } else { 625u16 } {
        let d: Vec<u16> = (0..5).map(|i| n / 5u16.pow(i) % 5).collect();
        let len = d.iter().take_while(|x| **x > 0).count();
        if d[len..].iter().all(|x| *x == 0) {
            qs.push(Rq::Chain(n));
        }
    }
    for q in qs {
        v.extend([R::Comm(q), R::Upgrade(q), R::Body(q)]);
    }
    for b in [&b""[..], b"{", b"\xff\x00\"\n", &[b'z'; 5000]] {
        for k in 0..4 {
            v.push(R::Payload(b.to_vec(), k));
        }
    }
    for s in 100..=999 {
        for h in 0..3 {
            v.push(R::Resp(s, h));
            v.push(R::Unexpected(s, h));
        }
        if [200, 301, 404, 426, 503].contains(&s) {
            for h in 3..3 + crate::c_value::NAMES.len() as u8 {
                v.push(R::Resp(s, h));
                v.push(R::Unexpected(s, h));
            }
        }
        v.push(R::UnexpectedFull(s, ""));
        v.push(R::UnexpectedFull(s, "{}"));
    }
    v
}

/// The kind and content of an error, as far as a caller can see it.
fn content<E>(e: Error<E>, val: impl Fn(&E) -> String) -> String {
    let cause = |e: &reqwest::Error| {
        let mut t = format!("{e} url={:?} status={:?} b={} t={} s={}", e.url().map(|u| u.as_str()), e.status(), e.is_body(), e.is_timeout(), e.is_builder());
        let mut src = std::error::Error::source(e);
        while let Some(s) = src {
            t += &format!("<-{s}");
            src = s.source();
        }
        t
    };
    match e {
        Error::InvalidRequest(s) => format!("invalid-request {s}"),
        Error::PreHookError(s) => format!("pre {s}"),
        Error::PostHookError(s) => format!("post {s}"),
        Error::CommunicationError(e) => format!("comm {}", cause(&e)),
        Error::InvalidUpgrade(e) => format!("upgrade {}", cause(&e)),
        Error::ResponseBodyError(e) => format!("body {}", cause(&e)),
        Error::InvalidResponsePayload(b, e) => format!("payload {b:?} {e} {} {}", e.line(), e.column()),
        Error::ErrorResponse(rv) => format!("resp {} {:?} {}", rv.status(), rv.headers(), val(&rv)),
        Error::UnexpectedResponse(r) => {
            let (s, h) = (r.status(), r.headers().clone());
            let more = format!("{} {:?} {:?}", r.url(), r.version(), r.content_length());
            let b = run_ready(Box::pin(r.bytes()).as_mut(), 9);
            format!("unexpected {s} {h:?} {more} {b:?}")
        }
    }
}

pub fn run_status() {
    let c = Check::new("C07");
    let rs = recipes(c.thorough);
    for r in &rs {
        c.case(
            || format!("{r:?}"),
            || {
                c.trans(1);
                let e = build(r, "typed".to_string());
                let want = match r {
                    R::Resp(s, _) | R::Unexpected(s, _) | R::UnexpectedFull(s, _) => Some(*s),
                    R::Comm(q) | R::Upgrade(q) | R::Body(q) => {
                        if let Rq::Status(s) = q {
                            Some(*s)
                        } else {
                            None
                        }
                    }
                    _ => None,
                };
                let got = e.status().map(|s| s.as_u16());
                if got != want {
                    return Err(format!("status {got:?} instead of {want:?}"));
                }
                let before = content(build(r, "typed".to_string()), |_| String::new());
                let u: Error = e.into_untyped();
                if u.status().map(|s| s.as_u16()) != want {
                    return Err(format!("status lost by the untyped conversion: {:?}", u.status()));
                }
                let again = content(build(r, ()).into_untyped(), |()| String::new());
                let stream = build(r, ByteStream::new(Box::pin(Never))).into_untyped();
                let stream = content(stream, |()| String::new());
                let after = content(u, |()| String::new());
                let norm = |s: &str| s.to_string();
                if norm(&after) != norm(&before) || norm(&again) != norm(&before) || norm(&stream) != norm(&before) {
                    return Err(format!("untyped conversion changed\n  {before}\ninto\n  {after}"));
                }
                c.outcome(before.split(' ').next().unwrap());
                c.state(&before);
                Ok(())
            },
        );
    }
    c.sample("recipe", || json!(format!("{:?}", rs[rs.len() / 2])));
    // conversions used by `?` in generated code
    for q in [Rq::BadUrl, Rq::BadHeader, Rq::Status(404), Rq::BodyFails, Rq::BodyFailsDeep, Rq::Decode, Rq::Refused, Rq::Chain(1)] {
        c.case(
            || format!("from reqwest {q:?}"),
            || {
                let e: Error<u8> = rq(q).into();
                let a = content(e, |v| v.to_string());
                let b = content(build(&R::Comm(q), 0u8), |v| v.to_string());
                (a == b).then_some(()).ok_or(format!("{a} instead of {b}"))
            },
        );
    }
    // a bad header value is an invalid request: every byte
    for b in 0..=255u8 {
        for v in [vec![b], vec![b'a', b, b'z']] {
            c.case(
                || format!("header value {v:?}"),
                || {
                    let r: Result<HeaderValue, Error<u8>> = HeaderValue::from_bytes(&v).map_err(Into::into);
                    match r {
                        Ok(_) => Ok(()),
                        Err(Error::InvalidRequest(m)) if !m.is_empty() => {
                            c.outcome("header rejected");
                            Ok(())
                        }
                        Err(e) => Err(format!("wrong kind: {e}")),
                    }
                },
            );
        }
    }
    pipeline(&c);
    c.bound("errors as the receiving functions make them: 5 statuses x 60 bodies x 3 chunkings x failing or not, typed / upgraded; unencodable forms; then untyped");
    c.bound(format!("{} errors: every kind; every status 100..=999 x 3 header sets; 5 statuses x every registered header name, given twice; 7 origins of transport errors; every header byte", rs.len()));
    c.finish_and_exit();
}

/// Errors as the client's own receiving functions make them, and what is left
/// of them after the untyped conversion.
fn pipeline(c: &Check) {
    let mut bodies: Vec<Vec<u8>> = (0x78..0x80u8).chain(0xf8..=0xff).chain([0, 0xc3, b'\n', b'"']).map(|b| vec![b'"', b]).collect();
    for b in [&b""[..], b"{", b"\xff\xfe{", b"[1,", b"x", b"\"\xc3\x28\"", b"\xef\xbb\xbf1x", b"nul", b"\"\xed\xa0\x80\"", b"\0", b"<html>\r\n", b" ", b"1 1"] {
        bodies.push(b.to_vec());
    }
    for n in [255, 256, 257, 511, 512, 1023, 1024, 1025, 4096, 5000, 65_537] {
        bodies.push(vec![b'z'; n]);
        bodies.push([vec![b'1'; n], vec![0xff]].concat());
    }
    for status in [200u16, 204, 404, 500, 999] {
        for b in &bodies {
            for by in [1usize << 20, 700, 1] {
                for fails in [false, true] {
                    if by == 1 && b.len() > 600 {
                        continue;
                    }
                    c.case(
                        || format!("received status {status} body {:?}.. of {} by {by} fails={fails}", &b[..b.len().min(8)], b.len()),
                        || {
                            c.trans(1);
                            let mut evs: Vec<Ev> = b.chunks(by).map(|x| Ev::Data(x.to_vec())).collect();
                            if fails {
                                evs.push(Ev::Fail);
                            }
                            let polls = evs.len() + 8;
                            let (resp, _) = response(status, &hdrs(1)[..2], &evs);
                            let r: Result<ResponseValue<bool>, Error<String>> =
                                run_ready(Box::pin(ResponseValue::from_response(resp)).as_mut(), polls)?;
                            let e = r.err().ok_or("accepted")?;
                            if e.status().is_some() {
                                return Err(format!("status {:?} without a response", e.status()));
                            }
                            let parse = serde_json::from_slice::<bool>(b);
                            let want = if fails {
                                let (resp, _) = response(status, &hdrs(1)[..2], &evs);
                                let e = run_ready(Box::pin(resp.bytes()).as_mut(), polls)?.err().unwrap();
                                content(Error::<()>::ResponseBodyError(e), |_| String::new())
                            } else {
                                content(Error::<()>::InvalidResponsePayload(b.clone().into(), parse.unwrap_err()), |_| String::new())
                            };
                            let untyped = e.into_untyped();
                            if untyped.status().is_some() {
                                return Err("status appeared".into());
                            }
                            let got = content(untyped, |()| String::new());
                            if got != want {
                                return Err(format!("{got:.400} instead of {want:.400}"));
                            }
                            c.outcome(want.split(' ').next().unwrap());
                            Ok(())
                        },
                    );
                }
            }
        }
    }
    for status in 100..=999u16 {
        for h in 0..3 {
            c.case(
                || format!("upgrade refused with status {status} headers {h}"),
                || {
                    let mk = || response(status, &hdrs(h), &[Ev::Data(b"left".to_vec())]).0;
                    let r = run_ready(Box::pin(ResponseValue::upgrade::<String>(mk())).as_mut(), 9)?;
                    let e = r.err().ok_or("upgraded")?;
                    let s = e.status().map(|s| s.as_u16());
                    if s != (status != 101).then_some(status) {
                        return Err(format!("status {s:?}"));
                    }
                    let want = if status == 101 {
                        let e = run_ready(Box::pin(mk().upgrade()).as_mut(), 9)?.err().unwrap();
                        Error::<()>::InvalidUpgrade(e)
                    } else {
                        Error::UnexpectedResponse(mk())
                    };
                    let (got, want) = (content(e.into_untyped(), |()| String::new()), content(want, |()| String::new()));
                    (got == want).then_some(()).ok_or(format!("{got} instead of {want}"))
                },
            );
        }
    }
    c.case(
        || "form of a nested value".into(),
        || {
            use progenitor_client::RequestBuilderExt;
            let r: Result<_, Error<String>> = reqwest::Client::new().post("http://h").form_urlencoded(&json!({"a": {"b": 1}}));
            match r.err().map(|e| e.into_untyped()) {
                Some(Error::InvalidRequest(m)) if !m.is_empty() => Ok(()),
                o => Err(format!("{o:?}")),
            }
        },
    );
}

struct Never;
impl futures_core::Stream for Never {
    type Item = reqwest::Result<Bytes>;
    fn poll_next(self: std::pin::Pin<&mut Self>, _: &mut std::task::Context<'_>) -> std::task::Poll<Option<Self::Item>> {
        panic!("the stream of an error was read")
    }
}

/// (text the rendering must contain, causes the alternate form must append)
fn rendering<E>(e: &Error<E>, val: &str) -> (Vec<String>, Option<Vec<String>>) {
    let causes = |e: &dyn std::error::Error| {
        let mut v = vec![];
        let mut s = e.source();
        while let Some(x) = s {
            v.push(x.to_string());
            s = x.source();
        }
        v
    };
    match e {
        Error::InvalidRequest(s) => (vec!["Invalid Request: ".into(), s.clone()], None),
        Error::PreHookError(s) => (vec!["Pre-hook Error: ".into(), s.clone()], None),
        Error::PostHookError(s) => (vec!["Post-hook Error: ".into(), s.clone()], None),
        Error::CommunicationError(e) => (vec!["Communication Error: ".into(), e.to_string()], Some(causes(e))),
        Error::InvalidUpgrade(e) => (vec!["Invalid Response Upgrade: ".into(), e.to_string()], Some(causes(e))),
        Error::ResponseBodyError(e) => (vec!["Invalid Response Body Bytes: ".into(), e.to_string()], Some(causes(e))),
        Error::InvalidResponsePayload(b, e) => (
            vec!["Invalid Response Payload".into(), format!("{b:?}"), e.to_string()],
            Some(causes(e)),
        ),
        Error::ErrorResponse(rv) => (
            vec!["Error Response: ".into(), rv.status().to_string(), format!("{:?}", rv.headers()), val.to_string()],
            None,
        ),
        Error::UnexpectedResponse(r) => (
            vec!["Unexpected Response: ".into(), r.status().as_u16().to_string(), format!("{:?}", r.headers())],
            None,
        ),
    }
}

fn check_display<E>(c: &Check, e: Error<E>, val: &str) -> Result<(), String>
where
    Error<E>: std::error::Error,
{
    let plain = format!("{e}");
    let (parts, causes) = rendering(&e, val);
    let mut at = 0;
    for (i, p) in parts.iter().enumerate() {
        match plain[at..].find(p.as_str()) {
            Some(o) if i > 0 || o == 0 => at += o + p.len(),
            _ => return Err(format!("{plain:?} does not show {p:?} (part {i})")),
        }
    }
    if causes.is_some() && !plain.ends_with(parts.last().unwrap()) {
        return Err(format!("{plain:?} says more than its cause"));
    }
    let mut want = plain.clone();
    for k in causes.iter().flatten() {
        want += ": ";
        want += k;
    }
    let alt = format!("{e:#}");
    if alt != want {
        return Err(format!("alternate form {alt:?} instead of {want:?}"));
    }
    if format!("{e:?}") != plain || format!("{e:#?}") != alt {
        return Err("debug and display forms differ".into());
    }
    // source(): the immediate cause, of the right concrete type and identity
    let src = std::error::Error::source(&e);
    let ok = match &e {
        Error::CommunicationError(x) | Error::InvalidUpgrade(x) | Error::ResponseBodyError(x) => {
            src.and_then(|s| s.downcast_ref::<reqwest::Error>()).is_some_and(|s| std::ptr::eq(s, x))
        }
        Error::InvalidResponsePayload(_, x) => {
            src.and_then(|s| s.downcast_ref::<serde_json::Error>()).is_some_and(|s| std::ptr::eq(s, x))
        }
        _ => src.is_none(),
    };
    if !ok {
        return Err(format!("source() is {src:?}"));
    }
    c.outcome(match causes.map(|c| c.len()) {
        None => "no cause",
        Some(0) => "cause without causes",
        Some(1) => "chain of 1",
        Some(2) => "chain of 2",
        Some(_) => "chain of 3 or more",
    });
    c.state(&alt);
    Ok(())
}

pub fn run_display() {
    let c = Check::new("C08");
    let _ = Boom;
    let rs = recipes(c.thorough);
    for r in &rs {
        c.case(|| format!("{r:?} unit"), || { c.trans(1); check_display(&c, build(r, ()), "value: ()") });
        c.case(|| format!("{r:?} string"), || check_display(&c, build(r, "v\"1".to_string()), "value: \"v\\\"1\""));
        c.case(
            || format!("{r:?} stream"),
            || check_display(&c, build(r, ByteStream::new(Box::pin(Never))), "<stream>"),
        );
        if matches!(r, R::Resp(404, _)) {
            c.case(
                || format!("{r:?} json"),
                || check_display(&c, build(r, json!({"a": [1]})), "Object {\"a\": Array [Number(1)]}"),
            );
        }
    }
    c.sample("recipe", || json!(format!("{:?}", rs[0])));
    c.bound(format!("{} errors x 3 body types (unit, typed, stream), plain / alternate / debug / source chain", rs.len()));
    c.assume("the labels that begin each rendering are part of the observable behaviour");
    c.finish_and_exit();
}
