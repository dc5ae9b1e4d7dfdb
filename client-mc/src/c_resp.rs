//! C03 typed responses and C04 streamed responses: every way a body can
//! arrive (chunking, stalls, failures, truncation) gives the exact value, the
//! exact bytes, or an error.
use bytes::Bytes;
use futures_core::Stream;
use mc_core::*;
use progenitor_client::{ByteStream, Error, ResponseValue};
use std::collections::BTreeMap;
use std::pin::Pin;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Arc;
use std::task::{Context, Poll};

/// What the environment does at successive polls of the body.
#[derive(Clone, Debug, PartialEq)]
pub enum Ev {
    Data(Vec<u8>),
    Stall,
    Fail,
}

pub struct Script {
    evs: std::vec::IntoIter<Ev>,
    pub produced: Arc<AtomicUsize>,
    dead: bool,
}

#[derive(Debug)]
pub struct Boom;
impl std::fmt::Display for Boom {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("boom")
    }
}
impl std::error::Error for Boom {}

impl Stream for Script {
    type Item = Result<Bytes, Boom>;
    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
        if self.dead {
            return Poll::Ready(None);
        }
        match self.evs.next() {
            None => Poll::Ready(None),
            Some(Ev::Stall) => {
                cx.waker().wake_by_ref();
                Poll::Pending
            }
            Some(Ev::Fail) => {
                self.dead = true;
                Poll::Ready(Some(Err(Boom)))
            }
            Some(Ev::Data(b)) => {
                self.produced.fetch_add(b.len(), Ordering::SeqCst);
                Poll::Ready(Some(Ok(b.into())))
            }
        }
    }
}

pub fn response(
    status: u16,
    headers: &[(&str, &[u8])],
    evs: &[Ev],
) -> (reqwest::Response, Arc<AtomicUsize>) {
    let produced = Arc::new(AtomicUsize::new(0));
    let s = Script {
        evs: evs.to_vec().into_iter(),
        produced: produced.clone(),
        dead: false,
    };
    let mut b = http::Response::builder().status(status);
    for (n, v) in headers {
        b = b.header(*n, http::HeaderValue::from_bytes(v).unwrap());
    }
    (b.body(reqwest::Body::wrap_stream(s)).unwrap().into(), produced)
}

/// All scripts delivering `body`: every split into chunks of allowed sizes,
/// with at most `dev` deviations (a stall, an empty chunk, or a failure after
/// which nothing arrives).
pub fn script(ch: &mut Chooser, body: &[u8], dev: usize, fail: bool) -> Vec<Ev> {
    let mut evs = vec![];
    let mut i = 0;
    let mut left = dev;
    loop {
        // deviations available at this point
        let kinds = if left == 0 { 1 } else if fail { 4 } else { 3 };
        match ch.choose(kinds) {
            0 => {
                if i == body.len() {
                    return evs;
                }
                let n = 1 + ch.choose(body.len() - i);
                // choice 1 takes everything that is left, so that the first
                // explored execution is the simplest
                let n = body.len() - i + 1 - n;
                evs.push(Ev::Data(body[i..i + n].to_vec()));
                i += n;
            }
            1 => {
                left -= 1;
                evs.push(Ev::Stall);
            }
            2 => {
                left -= 1;
                evs.push(Ev::Data(vec![]));
            }
            _ => {
                evs.push(Ev::Fail);
                return evs;
            }
        }
    }
}

const HDRS: &[(&str, &[u8])] = &[
    ("content-type", b"application/json"),
    ("x-a", b"1"),
    ("x-a", b"2"),
    ("x-b", b"\xff\xfe"),
];

/// Headers that could tempt an implementation to treat the body differently.
const SETS: &[&[(&str, &[u8])]] = &[
    HDRS,
    &[],
    &[("content-length", b"0")],
    &[("content-length", b"3"), ("etag", b"\"e\"")],
    &[("content-length", b"99"), ("content-type", b"text/plain; charset=utf-8")],
    &[("content-encoding", b"gzip"), ("vary", b"accept-encoding")],
    &[("content-encoding", b"identity"), ("transfer-encoding", b"chunked"), ("trailer", b"x")],
    &[("content-type", b"application/octet-stream"), ("content-disposition", b"attachment"), ("content-range", b"bytes 0-1/9")],
    &[("content-type", b"application/json; charset=iso-8859-1"), ("connection", b"close"), ("accept-ranges", b"bytes")],
];

fn same_headers(got: &reqwest::header::HeaderMap, want: &[(&str, &[u8])]) -> Result<(), String> {
    let mut m = http::HeaderMap::new();
    for (n, v) in want {
        m.append(
            http::HeaderName::from_bytes(n.as_bytes()).unwrap(),
            http::HeaderValue::from_bytes(v).unwrap(),
        );
    }
    if *got == m {
        Ok(())
    } else {
        Err(format!("headers {got:?} instead of {m:?}"))
    }
}

/// Compare `from_response::<T>` with the meaning of the whole body.
fn typed<T>(status: u16, headers: &[(&str, &[u8])], evs: &[Ev]) -> Result<String, String>
where
    T: serde::de::DeserializeOwned + PartialEq + std::fmt::Debug,
{
    let (resp, _) = response(status, headers, evs);
    let polls = evs.len() + 8;
    let got: Result<ResponseValue<T>, Error<()>> =
        run_ready(Box::pin(ResponseValue::<T>::from_response(resp)).as_mut(), polls)?;
    let failed = evs.contains(&Ev::Fail);
    let full: Vec<u8> = evs
        .iter()
        .flat_map(|e| if let Ev::Data(d) = e { d.clone() } else { vec![] })
        .collect();
    let want: Result<T, serde_json::Error> = serde_json::from_slice(&full);
    match (failed, want, got) {
        (true, _, Err(Error::ResponseBodyError(e))) => {
            let mut src: Option<&dyn std::error::Error> = Some(&e);
            while let Some(s) = src {
                if s.to_string() == "boom" {
                    return Ok("body error".into());
                }
                src = s.source();
            }
            Err(format!("cause of the body error lost: {e:?}"))
        }
        (false, Ok(w), Ok(rv)) => {
            if *rv != w {
                return Err(format!("value {:?} instead of {w:?}", *rv));
            }
            if rv.status().as_u16() != status {
                return Err(format!("status {} instead of {status}", rv.status()));
            }
            same_headers(rv.headers(), headers)?;
            let shown = format!("value {:?}", *rv);
            if rv.into_inner() != w {
                return Err("into_inner differs".into());
            }
            Ok(shown)
        }
        (false, Err(we), Err(Error::InvalidResponsePayload(b, e))) => {
            if b != full {
                return Err(format!("payload error carries {b:?} instead of the body {:?}", Bytes::from(full)));
            }
            if e.to_string() != we.to_string() {
                return Err(format!("payload error says {e} instead of {we}"));
            }
            Ok("invalid payload".into())
        }
        (f, w, g) => Err(format!(
            "body {:?} failed={f} means {w:?}, the client returned {}",
            Bytes::from(full),
            match g {
                Ok(v) => format!("Ok({:?})", *v),
                Err(e) => format!("Err({e})"),
            }
        )),
    }
}

#[derive(serde::Deserialize, PartialEq, Debug)]
struct Rec {
    a: i64,
    #[serde(default)]
    b: Option<Vec<String>>,
}
#[derive(serde::Deserialize, PartialEq, Debug)]
#[serde(untagged)]
enum Unt {
    N(i8),
    S(String),
    R(Rec),
}
#[derive(serde::Deserialize, PartialEq, Debug)]
enum Plain {
    #[serde(rename = "x")]
    X,
    Y(u8),
}

type Run = fn(u16, &[(&str, &[u8])], &[Ev]) -> Result<String, String>;
const TYPES: &[(&str, Run)] = &[
    ("Value", typed::<Value>),
    ("Rec", typed::<Rec>),
    ("u8", typed::<u8>),
    ("String", typed::<String>),
    ("Option<u8>", typed::<Option<u8>>),
    ("Vec<Option<i64>>", typed::<Vec<Option<i64>>>),
    ("()", typed::<()>),
    ("bool", typed::<bool>),
    ("Map", typed::<BTreeMap<String, u64>>),
    ("Unt", typed::<Unt>),
    ("Plain", typed::<Plain>),
    ("f64", typed::<f64>),
    ("(u8,String)", typed::<(u8, String)>),
];

pub fn run_typed() {
    let c = Check::new("C03");
    let docs: &[&[u8]] = &[
        b"{\"a\":1,\"b\":[\"x\"]}",
        b"[1,null,-2]",
        b"\"x\xc3\xa9\"",
        b"17",
        b"null",
        b" true ",
        b"{}",
        b"{\"Y\":3}",
        b"1.5e3",
        b"[3,\"s\"]",
        b"\"\\u00e9\\ud83d\\ude00\"",
        b"{\"a\":1}\n",
        b"{\"a\":1} x",
        b"",
        b"\xef\xbb\xbf{}",
        b"\"\xff\"",
        b"{\"a\":1,\"a\":2}",
        b"256",
        b"18446744073709551616",
    ];
    let one = |c: &Check, key: &dyn Fn() -> String, t: Run, status, h: &[(&str, &[u8])], evs: &[Ev]| {
        c.case(key, || {
            let o = t(status, h, evs)?;
            c.state(&o);
            c.outcome(o.split(' ').next().unwrap());
            Ok(())
        })
    };
    // 1. every document, every prefix of it, each type, whole and bytewise
    for (di, d) in docs.iter().enumerate() {
        for n in 0..=d.len() {
            for (tn, t) in TYPES {
                for by in [1usize, 3, 1000] {
                    let evs: Vec<Ev> = d[..n].chunks(by).map(|x| Ev::Data(x.to_vec())).collect();
                    c.trans(evs.len() as u64);
                    one(&c, &|| format!("doc {di} prefix {n} by {by} as {tn}"), *t, 200, HDRS, &evs);
                }
            }
        }
    }
    // 2. every byte string up to the depth over JSON's alphabet, each type
    let alpha = b"01-.\"[]{},: nae\\\xc3\n";
    let depth = if c.thorough { 5 } else { 3 };
    let firsts: Vec<u8> = alpha.to_vec();
    par(&firsts, |f| {
        fn go(c: &Check, alpha: &[u8], s: &mut Vec<u8>, left: usize) {
            c.trans(1);
            let evs = [Ev::Data(s.clone())];
            for (tn, t) in TYPES {
                c.case(|| format!("bytes {s:?} as {tn}"), || {
                    let o = t(201, &[], &evs)?;
                    c.outcome(o.split(' ').next().unwrap());
                    Ok(())
                });
            }
            if left > 0 && !c.stopped() {
                for b in alpha {
                    s.push(*b);
                    go(c, alpha, s, left - 1);
                    s.pop();
                }
            }
        }
        go(&c, alpha, &mut vec![*f], depth - 1);
    });
    c.bound(format!("{} documents x all prefixes x 3 chunk sizes x {} types; every byte string of length <= {depth} over a {}-symbol alphabet x all types", docs.len(), TYPES.len(), alpha.len()));

    // 3. all chunkings x stalls x empty chunks x failures
    let dev = if c.thorough { 4 } else { 2 };
    let short: &[(&[u8], usize)] = &[(b"", 1), (b"1", 2), (b"17", 2), (b"{\"a\":1}", 1), (b"[null", 5), (b"\"\xc3\xa9\"", 3), (b"\"\xc3\"", 3)];
    for (b, ti) in short {
        let (tn, t) = TYPES[*ti];
        let n = explore(&c, |ch| {
            let evs = script(ch, b, dev, true);
            let p = ch.path();
            one(&c, &|| format!("script {p} of {b:?} as {tn}: {evs:?}"), t, 200, HDRS, &evs);
            c.sample(&format!("script as {tn}"), || json!(format!("{evs:?}")));
        });
        c.extra(&format!("schedules of {}", Bytes::copy_from_slice(b).escape_ascii()), json!(n));
    }
    c.bound(format!("every chunking of 7 bodies with <= {dev} stalls/empty chunks and a failure at every point"));

    // 3b. near-documents: one byte inserted, replaced or removed at every
    // place, what other parsers forgive, and other encodings
    let near: Vec<Vec<u8>> = docs
        .iter()
        .map(|d| d.to_vec())
        .chain([b"\"{\\\"a\\\":1}\"".to_vec(), b"[[1],{\"k\":[]}]".to_vec()])
        .collect();
    par(&near, |d| {
        for at in 0..=d.len() {
            for b in 0..=255u8 {
                let mut forms = vec![[&d[..at], &[b], &d[at..]].concat()];
                if at < d.len() {
                    forms.push([&d[..at], &[b], &d[at + 1..]].concat());
                }
                for f in forms {
                    let evs = [Ev::Data(f)];
                    let edge = at == 0 || at == d.len();
                    for (tn, t) in &TYPES[..if edge || c.thorough { TYPES.len() } else { 2 }] {
                        c.trans(1);
                        one(&c, &|| format!("near {evs:?} as {tn}"), *t, 200, HDRS, &evs);
                    }
                }
            }
        }
    });
    let junk: &[&[u8]] = &[
        b")]}'", b")]}',\n", b"while(1);", b"for(;;);", b"&&&START&&&", b"\xef\xbb\xbf", b"\xff\xfe", b"\xfe\xff", b"\0\0\0\0",
        b"\x1e", b"\x1b", b"\x0b", b"\x0c", b"\x85", b"\xa0", b"\xc2\xa0", b"\xe2\x80\xa8", b"\xe2\x80\x8b", b"\r\n", b"\n\n", b" \t\r\n",
        b"// c\n", b"/* c */", b"# c\n", b"--- ", b"data: ", b"callback(", b")", b");", b";", b",", b"null", b"{}", b"\n{}", b"\x00", b"\x1a", b"\x04",
        b"\r\n0\r\n\r\n", b"\x1f\x8b", b"%7B", b"<html>",
    ];
    par(&near, |d| {
        for (i, j) in junk.iter().enumerate() {
            for (k, e) in [[*j, d].concat(), [d, *j].concat(), [*j, d, *j].concat()].into_iter().enumerate() {
                for (tn, t) in TYPES {
                    c.trans(1);
                    one(&c, &|| format!("junk {i} place {k} around {d:?} as {tn}"), *t, 200, HDRS, &[Ev::Data(e.clone())]);
                }
            }
        }
        // other encodings of the same text
        let text = String::from_utf8_lossy(d).into_owned();
        let encodings: Vec<Vec<u8>> = vec![
            text.encode_utf16().flat_map(|u| u.to_le_bytes()).collect(),
            text.encode_utf16().flat_map(|u| u.to_be_bytes()).collect(),
            text.chars().flat_map(|u| (u as u32).to_le_bytes()).collect(),
            text.chars().map(|u| u as u8).collect(),
            text.to_uppercase().into_bytes(),
            text.replace('"', "'").into_bytes(),
            text.replace(']', ",]").replace('}', ",}").into_bytes(),
            format!("{{\"data\":{text}}}").into_bytes(),
            format!("[{text}]").into_bytes(),
            json!(text).to_string().into_bytes(),
        ];
        for (i, e) in encodings.iter().enumerate() {
            for h in [&[][..], &[("content-type", &b"application/json; charset=utf-16"[..])], &[("content-type", &b"application/json;charset=ISO-8859-1"[..])], &[("content-encoding", &b"gzip"[..])]] {
                for (tn, t) in TYPES {
                    c.trans(1);
                    one(&c, &|| format!("encoding {i} of {d:?} under {h:?} as {tn}"), *t, 200, h, &[Ev::Data(e.clone())]);
                }
            }
        }
    });
    let lenient: &[&[u8]] = &[
        b"01", b"+1", b"1.", b".5", b"0x10", b"1_000", b"1e", b"NaN", b"Infinity", b"-Infinity", b"-0", b"1e400", b"1.0", b"1e0", b"\"17\"",
        b"\"1\"", b"\"null\"", b"\"true\"", b"NULL", b"None", b"undefined", b"True", b"TRUE", b"yes", b"1true", b"'x'", b"{a:1}", b"{'a':1}", b"[1,]", b"{\"a\":1,}",
        b"[1 2]", b"{\"a\" 1}", b"{\"a\":1}{\"a\":1}", b"1 2", b"\"\\x41\"", b"\"\\u00\"", b"\"\\ud800\"", b"\"\t\"", b"\"\n\"", b"\"a", b"a\"", b"{\"A\":1}",
        b"{\"a\":\"1\"}", b"{\"a\":1.0}", b"{\"a\":null}", b"{\"b\":[]}", b"{\"a\":1,\"b\":null}", b"{\"a\":1,\"zz\":2}", b"[1]", b"[1,[\"x\"]]", b"[]", b"[null]", b"[[1]]", b"\"\"", b"false", b"0", b"1", b"-1", b"255", b"256", b"\"x\"", b"\"X\"", b"{\"x\":null}", b"{\"Y\":300}", b"{\"y\":3}", b"[3,\"s\",1]", b"[3]",
    ];
    for d in lenient {
        for (tn, t) in TYPES {
            for s in [200, 202, 204, 205, 206, 304, 400, 500] {
                for h in [&[][..], HDRS, &[("content-length", &b"0"[..])]] {
                    one(&c, &|| format!("lenient {} as {tn} status {s} headers {h:?}", d.escape_ascii()), *t, s, h, &[Ev::Data(d.to_vec())]);
                }
            }
        }
    }
    for n in 1..=120usize {
        one(&c, &|| format!("nesting {n}"), TYPES[0].1, 200, &[], &[Ev::Data([vec![b'['; n], vec![b']'; n]].concat())]);
    }
    c.bound(format!("{} documents with every byte inserted or substituted at every place, {} pieces of junk before/after/around, 10 re-encodings under 4 content headers, {} texts other parsers forgive x types x 8 statuses", near.len(), junk.len(), lenient.len()));

    // 4. every status code
    for s in 100..=999u16 {
        for (i, d) in docs.iter().enumerate() {
            for ti in [0, 1, 4, 6] {
                for (hi, h) in SETS.iter().enumerate() {
                    one(&c, &|| format!("status {s} doc {i} as {} headers {hi}", TYPES[ti].0), TYPES[ti].1, s, h, &[Ev::Data(d.to_vec())]);
                }
            }
        }
    }
    // 5. header multisets
    let names = ["content-length", "x-a", "content-type", "transfer-encoding", "content-encoding"];
    let vals: [&[u8]; 3] = [b"7", b"", b"text/plain\xff"];
    explore(&c, |ch| {
        let n = ch.choose(4);
        let h: Vec<(&str, &[u8])> = (0..n).map(|_| (*ch.pick(&names), *ch.pick(&vals))).collect();
        one(&c, &|| format!("headers {h:?}"), TYPES[1].1, 203, &h, &[Ev::Data(b"{\"a\":5}".to_vec())]);
    });
    for n in crate::c_value::NAMES {
        for status in [200, 206, 404, 503] {
            let h: [(&str, &[u8]); 3] = [("x-a", b"1"), (n, b"5"), (n, b"two; words=\"x\"")];
            one(&c, &|| format!("status {status} headers {h:?}"), TYPES[1].1, status, &h, &[Ev::Data(b"{\"a\":5}".to_vec())]);
        }
    }
    c.bound(format!("{} registered header names given twice x 4 statuses", crate::c_value::NAMES.len()));
    // 6. sizes
    let big: Vec<usize> = (0..=300)
        .chain((9..=if c.thorough { 25 } else { 21 }).flat_map(|k| [(1usize << k) - 1, 1 << k, (1 << k) + 1]))
        .chain([65_535, 1_000_000, 100_000])
        .collect();
    par(&big, |&n| {
        c.case(
            || format!("string of {n} bytes"),
            || {
                let body = format!("\"{}\"", "z".repeat(n)).into_bytes();
                for by in [body.len(), 1460, 7919] {
                    let evs: Vec<Ev> = body.chunks(by.max(1)).map(|x| Ev::Data(x.to_vec())).collect();
                    typed::<String>(200, HDRS, &evs)?;
                    typed::<String>(200, HDRS, &[&evs[..], &[Ev::Fail]].concat())?;
                }
                // trailing garbage beyond a long valid document is not lost
                typed::<String>(200, HDRS, &[Ev::Data(body), Ev::Data(b"!".to_vec())])?;
                Ok(())
            },
        );
    });
    for n in [1usize, 2, 100, 5000] {
        c.case(
            || format!("{n} one-byte chunks"),
            || {
                let body = format!("[{}1]", "1,".repeat(n));
                let evs: Vec<Ev> = body.bytes().map(|b| Ev::Data(vec![b])).collect();
                typed::<Vec<Option<i64>>>(200, HDRS, &evs).map(|_| ())
            },
        );
    }
    c.bound("every status 100..=999; all header lists of <= 3 from 5 names x 3 values; body sizes 0..=300 and around powers of two to 2 MiB (thorough 32 MiB)");

    // 7. on the wire: truncation at every byte, both framings
    wire_truncation(&c);
    c.assume("the meaning of a complete body is what serde_json reads from all of its bytes");
    c.finish_and_exit();
}

fn wire_truncation(c: &Check) {
    let w = crate::wire::Wire::start();
    let body = b"{\"a\":1}";
    let answers: Vec<(&str, Vec<u8>, usize)> = vec![
        (
            "content-length",
            [&b"HTTP/1.1 200 OK\r\nx-a: 1\r\ncontent-length: 7\r\n\r\n"[..], body].concat(),
            0,
        ),
        (
            "chunked",
            b"HTTP/1.1 200 OK\r\ntransfer-encoding: chunked\r\n\r\n3\r\n{\"a\r\n4\r\n\":1}\r\n0\r\n\r\n".to_vec(),
            0,
        ),
        // one digit too many announced: a valid document, but not the whole body
        (
            "content-length short body",
            [&b"HTTP/1.1 200 OK\r\ncontent-length: 8\r\n\r\n"[..], body].concat(),
            1,
        ),
    ];
    for (name, a, miss) in &answers {
        for cut in 0..=a.len() {
            c.case(
                || format!("wire {name} cut after {cut} bytes"),
                || {
                    let (_, r) = w.exchange(w.client.get(w.base()), &a[..cut])?;
                    c.trans(1);
                    let whole = cut == a.len() && *miss == 0;
                    let resp = match r {
                        Err(_) if !whole => {
                            c.outcome("wire: no response");
                            return Ok(());
                        }
                        Err(e) => return Err(format!("{e}")),
                        Ok(r) => r,
                    };
                    let rv = w.rt.block_on(ResponseValue::<Rec>::from_response::<()>(resp));
                    match rv {
                        Ok(v) if whole && *v == Rec { a: 1, b: None } => {
                            c.outcome("wire: complete");
                            Ok(())
                        }
                        Err(Error::ResponseBodyError(_)) if !whole => {
                            c.outcome("wire: body error");
                            Ok(())
                        }
                        Ok(v) => Err(format!("truncated body accepted as {:?}", *v)),
                        Err(e) => Err(format!("wrong error: {e}")),
                    }
                },
            );
        }
    }
    c.bound("three framed answers cut after every byte, over loopback");
}

// ---------------------------------------------------------------- C04

type Items = Vec<Result<Vec<u8>, String>>;

/// Read a stream poll by poll; checks at each stall that everything the peer
/// has produced so far has been handed over.
fn drain<S>(mut s: S, produced: &AtomicUsize, polls: usize) -> Result<Items, String>
where
    S: Stream<Item = reqwest::Result<Bytes>> + Unpin,
{
    let flag = Arc::new(Flag::default());
    let waker = std::task::Waker::from(flag.clone());
    let mut cx = Context::from_waker(&waker);
    let mut items = vec![];
    let mut handed = 0;
    for _ in 0..polls {
        flag.0.store(false, Ordering::SeqCst);
        match Pin::new(&mut s).poll_next(&mut cx) {
            Poll::Ready(None) => return Ok(items),
            Poll::Ready(Some(Ok(b))) => {
                handed += b.len();
                items.push(Ok(b.to_vec()));
            }
            Poll::Ready(Some(Err(e))) => {
                let mut src: Option<&dyn std::error::Error> = Some(&e);
                let mut text = String::new();
                while let Some(x) = src {
                    text += &x.to_string();
                    text += ";";
                    src = x.source();
                }
                items.push(Err(text));
            }
            Poll::Pending => {
                if !flag.0.load(Ordering::SeqCst) {
                    return Err("stalled without arranging a wake-up".into());
                }
                if handed != produced.load(Ordering::SeqCst) {
                    return Err(format!(
                        "stalled holding back data: {} bytes arrived, {handed} handed over",
                        produced.load(Ordering::SeqCst)
                    ));
                }
            }
        }
    }
    Err(format!("not finished after {polls} polls"))
}

fn check_items(items: &Items, evs: &[Ev]) -> Result<(), String> {
    let want: Vec<u8> = evs.iter().flat_map(|e| if let Ev::Data(d) = e { d.clone() } else { vec![] }).collect();
    let got: Vec<u8> = items.iter().flat_map(|i| i.clone().unwrap_or_default()).collect();
    if got != want {
        return Err(format!("delivered {:?} instead of {:?}", Bytes::from(got), Bytes::from(want)));
    }
    let failed = evs.contains(&Ev::Fail);
    let errs: Vec<_> = items.iter().enumerate().filter_map(|(i, x)| x.as_ref().err().map(|e| (i, e))).collect();
    match (failed, &errs[..]) {
        (false, []) => Ok(()),
        (true, [(i, e)]) if *i + 1 == items.len() && e.contains("boom") => Ok(()),
        _ => Err(format!("errors seen: {errs:?}, peer failed: {failed}")),
    }
}

pub fn run_stream() {
    let c = Check::new("C04");
    let one = |c: &Check, key: &dyn Fn() -> String, status: u16, h: &[(&str, &[u8])], evs: &[Ev], how: usize| {
        c.case(key, || {
            let (resp, produced) = response(status, h, evs);
            let mut rv = ResponseValue::stream(resp);
            if produced.load(Ordering::SeqCst) != 0 {
                return Err("body consumed before the stream was polled".into());
            }
            if rv.status().as_u16() != status {
                return Err(format!("status {}", rv.status()));
            }
            same_headers(rv.headers(), h)?;
            let polls = 2 * evs.len() + 8;
            let items = match how {
                0 => drain(rv.into_inner_stream(), &produced, polls)?,
                1 => drain(rv.into_inner().into_inner(), &produced, polls)?,
                2 => drain(ByteStream::new(rv.into_inner_stream()).into_inner(), &produced, polls)?,
                // through the mutable dereferences
                _ => {
                    let bs: &mut ByteStream = &mut rv;
                    drain(&mut **bs, &produced, polls)?
                }
            };
            check_items(&items, evs)?;
            c.state(&format!("{items:?}"));
            c.outcome(if evs.contains(&Ev::Fail) { "error after data" } else { "complete" });
            Ok(())
        })
    };
    let dev = if c.thorough { 4 } else { 2 };
    let bodies: &[&[u8]] = &[b"", b"a", b"ab", b"\x00\xff\n", b"abcd", b"abcde", b"abcdef"];
    for b in &bodies[..if c.thorough { 7 } else { 6 }] {
        let n = explore(&c, |ch| {
            let how = ch.choose(4);
            let evs = script(ch, b, if b.len() > 4 { dev - 1 } else { dev }, true);
            let p = ch.path();
            one(&c, &|| format!("script {p} of {b:?} how={how}: {evs:?}"), 200, HDRS, &evs, how);
            c.sample("script", || json!(format!("{evs:?}")));
        });
        c.extra(&format!("schedules of {} bytes", b.len()), json!(n));
    }
    c.bound(format!("every chunking of bodies up to {} bytes with <= {dev} stalls/empty chunks and a failure at every point; 4 ways to read", if c.thorough { 6 } else { 5 }));
    let scripts: [&[Ev]; 6] = [
        &[],
        &[Ev::Data(b"x".to_vec())],
        &[Ev::Data(b"hello ".to_vec()), Ev::Stall, Ev::Data(b"world".to_vec())],
        &[Ev::Data(b"\x1f\x8b\x08\0".to_vec()), Ev::Data(b"{}\n".to_vec())],
        &[Ev::Data(b"{\"a\":".to_vec()), Ev::Fail],
        &[Ev::Data(b"\xef\xbb\xbfa\r\n\0".to_vec()), Ev::Data(vec![]), Ev::Data(b"b".to_vec())],
    ];
    for s in 100..=999u16 {
        for (i, evs) in scripts.iter().enumerate() {
            for (hi, h) in SETS.iter().enumerate() {
                one(&c, &|| format!("status {s} script {i} headers {hi}"), s, h, evs, i % 4);
            }
        }
    }
    c.bound(format!("every status x {} scripts x {} header sets", scripts.len(), SETS.len()));
    let names = ["content-length", "x-a", "content-type", "transfer-encoding"];
    let vals: [&[u8]; 3] = [b"1", b"", b"text/plain\xff"];
    explore(&c, |ch| {
        let n = ch.choose(4);
        let h: Vec<(&str, &[u8])> = (0..n).map(|_| (*ch.pick(&names), *ch.pick(&vals))).collect();
        one(&c, &|| format!("headers {h:?}"), 203, &h, &[Ev::Data(b"x".to_vec())], 0);
    });
    for n in crate::c_value::NAMES {
        for status in [200, 206, 404, 503] {
            let h: [(&str, &[u8]); 3] = [("x-a", b"1"), (n, b"5"), (n, b"two; words=\"x\"")];
            one(&c, &|| format!("status {status} headers {h:?}"), status, &h, &[Ev::Data(b"data".to_vec())], 0);
        }
    }
    c.bound(format!("{} registered header names given twice x 4 statuses", crate::c_value::NAMES.len()));
    // all byte values, many chunks, big chunks
    let allb: Vec<u8> = (0..=255).collect();
    for by in 1..=256 {
        let evs: Vec<Ev> = allb.chunks(by).map(|x| Ev::Data(x.to_vec())).collect();
        one(&c, &|| format!("all bytes by {by}"), 200, &[], &evs, 0);
    }
    for n in (0..=260).chain([1000, 4096, 20_000]) {
        let evs: Vec<Ev> = (0..n).map(|i| Ev::Data((i as u32).to_le_bytes().to_vec())).collect();
        one(&c, &|| format!("{n} chunks"), 200, &[], &evs, 0);
    }
    for k in 8..=(if c.thorough { 26 } else { 22 }) {
        for d in [-1i64, 0, 1] {
            let n = ((1i64 << k) + d) as usize;
            let evs = [Ev::Data((0..n).map(|i| (i % 251) as u8).collect()), Ev::Stall, Ev::Data(b"tail".to_vec())];
            one(&c, &|| format!("chunk of {n}"), 200, &[], &evs, 0);
        }
    }
    c.bound("every status; header lists <= 3; all byte values in all chunk sizes; 0..=260 chunks and up to 20000; chunk sizes around powers of two to 4 MiB");

    // dropping a half-read stream reads nothing more
    for n in 0..4usize {
        c.case(
            || format!("drop after {n} items"),
            || {
                let evs: Vec<Ev> = (0..4).map(|i| Ev::Data(vec![i])).collect();
                let (resp, produced) = response(200, &[], &evs);
                let mut s = ResponseValue::stream(resp).into_inner_stream();
                for _ in 0..n {
                    let mut cx = Context::from_waker(std::task::Waker::noop());
                    let _ = s.as_mut().poll_next(&mut cx);
                }
                drop(s);
                let p = produced.load(Ordering::SeqCst);
                if p > n {
                    return Err(format!("{p} chunks pulled for {n} items"));
                }
                Ok(())
            },
        );
    }
    // over the wire: truncation at every byte
    let w = crate::wire::Wire::start();
    let answers: [(&str, &[u8], &[u8]); 3] = [
        ("content-length", b"HTTP/1.1 500 X\r\ncontent-length: 5\r\n\r\nhello", b"hello"),
        ("chunked", b"HTTP/1.1 200 OK\r\ntransfer-encoding: chunked\r\n\r\n2\r\nhe\r\n3\r\nllo\r\n0\r\n\r\n", b"hello"),
        ("until close", b"HTTP/1.1 200 OK\r\n\r\nhello", b"hello"),
    ];
    for (name, a, body) in answers {
        for cut in 0..=a.len() {
            c.case(
                || format!("wire {name} cut after {cut}"),
                || {
                    let (_, r) = w.exchange(w.client.get(w.base()), &a[..cut])?;
                    c.trans(1);
                    let Ok(resp) = r else {
                        return if cut == a.len() { Err("complete answer refused".into()) } else { Ok(()) };
                    };
                    let mut s = ResponseValue::stream(resp).into_inner_stream();
                    let (mut got, mut err) = (vec![], false);
                    w.rt.block_on(async {
                        while let Some(x) = std::future::poll_fn(|cx| s.as_mut().poll_next(cx)).await {
                            match x {
                                Ok(b) => got.extend_from_slice(&b),
                                Err(_) => err = true,
                            }
                        }
                    });
                    let whole = cut == a.len() || name == "until close";
                    if whole == err {
                        return Err(format!("truncated={} but error={err}, got {got:?}", !whole));
                    }
                    if !body.starts_with(&got) || (cut == a.len() && got != body) {
                        return Err(format!("bytes {got:?}"));
                    }
                    c.outcome(if err { "wire: truncated" } else { "wire: complete" });
                    Ok(())
                },
            );
        }
    }
    c.bound("three framings cut after every byte, over loopback");
    c.finish_and_exit();
}
