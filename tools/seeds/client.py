"""Planted changes of the client library. python3 tools/seeds/client.py [ID...]"""
import sys
import kit
WANT = sys.argv[1:]
def seed(id, *a, **k):
    if not WANT or id in WANT:
        kit.seed(id, *a, **k)
F = "progenitor-client/src/progenitor_client.rs"

seed("c01-unreserved-fast-path", "C01", [(F,
'''pub fn encode_path(pc: &str) -> String {
''', '''pub fn encode_path(pc: &str) -> String {
    // Most values are identifiers or numbers; there is nothing to do for them.
    if pc
        .bytes()
        .all(|b| b.is_ascii_alphanumeric() || b"-_.~%".contains(&b))
    {
        return pc.to_string();
    }
''')], '''
fn main() {
    for v in ["50%25", "a%2Fb", "abc", "%41", "a/b%20"] {
        let url = url::Url::parse(&format!("http://h/x/{}/y", encode_path(v))).unwrap();
        let seg = url.path_segments().unwrap().nth(1).unwrap().to_string();
        let q = format!("k={}", seg.replace('+', "%2B"));
        let got: Vec<_> = url::form_urlencoded::parse(q.as_bytes()).into_owned().collect();
        assert_eq!(got[0].1, v);
        assert_eq!(url.path_segments().unwrap().count(), 3);
    }
}
''', "a value made only of unreserved characters and percent signs, such as 50%25",
"the percent sign is not encoded, so the server decodes a different text")

seed("c01-tabs-readable", "C01", [(F,
'''&percent_encoding::AsciiSet = &percent_encoding::CONTROLS
    .add(b' ')''', '''&percent_encoding::AsciiSet = &percent_encoding::CONTROLS
    .remove(b'\\t')
    .add(b' ')''')], '''
fn main() {
    for v in ["a\\tb", "plain", "a b"] {
        let url = url::Url::parse(&format!("http://h/x/{}/y", encode_path(v))).unwrap();
        let q = format!("k={}", url.path_segments().unwrap().nth(1).unwrap());
        let got: Vec<_> = url::form_urlencoded::parse(q.as_bytes()).into_owned().collect();
        assert_eq!(got[0].1, v);
    }
}
''', "a path value containing a tab", "the URL parser removes raw tabs, so the value loses a character")

seed("c02-f32-widened", "C02", [(F,
'''    serialize_scalar!(serialize_f32, f32);
''', '''    fn serialize_f32(self, v: f32) -> Result<Self::Ok, Self::Error> {
        self.serialize_f64(v.into())
    }
''')], '''
fn main() {
    let r = reqwest::Client::new().get("http://h/").query(&QueryParam::new("x", &0.1f32)).build().unwrap();
    assert_eq!(r.url().query(), Some("x=0.1"));
    let r = reqwest::Client::new().get("http://h/").query(&QueryParam::new("x", &0.5f32)).build().unwrap();
    assert_eq!(r.url().query(), Some("x=0.5"));
}
''', "a 32-bit float that is not exactly a short decimal", "0.1 is sent as 0.10000000149011612")

seed("c02-seq-brackets", "C02", [(F,
'''        let v = (self.name, value);
        self.inner.serialize_element(&v)
''', '''        let name = self.name.strip_suffix("[]").unwrap_or(self.name);
        self.inner.serialize_element(&(name, value))
''')], '''
fn main() {
    for name in ["ids", "ids[]", "a[]b"] {
        let r = reqwest::Client::new().get("http://h/").query(&QueryParam::new(name, &vec![1, 2])).build().unwrap();
        let got: Vec<_> = r.url().query_pairs().into_owned().collect();
        assert_eq!(got, vec![(name.to_string(), "1".to_string()), (name.to_string(), "2".to_string())]);
    }
}
''', "an array parameter whose name ends in brackets", "elements are sent under a different name")

seed("c03-empty-is-null", "C03", [(F,
'''        let inner =
            serde_json::from_slice(&full).map_err(|e| Error::InvalidResponsePayload(full, e))?;
''', '''        // Tolerate servers that send no content at all where null was meant.
        let text: &[u8] = if full.is_empty() { b"null" } else { &full };
        let inner =
            serde_json::from_slice(text).map_err(|e| Error::InvalidResponsePayload(full, e))?;
''')], '''
fn main() {
    rt().block_on(async {
        let r = ResponseValue::<Option<u8>>::from_response::<()>(resp(200, &[], "")).await;
        assert!(matches!(r, Err(Error::InvalidResponsePayload(b, _)) if b.is_empty()));
        let r = ResponseValue::<Option<u8>>::from_response::<()>(resp(200, &[], "null")).await;
        assert!(matches!(r, Ok(v) if v.is_none()));
    })
}
''', "an empty body where the type accepts null", "an empty (or lost) body is accepted as a value")

seed("c03-payload-capped", "C03", [(F,
'''        let inner =
            serde_json::from_slice(&full).map_err(|e| Error::InvalidResponsePayload(full, e))?;
''', '''        let inner = serde_json::from_slice(&full).map_err(|e| {
            // Don't hang on to enormous bodies.
            Error::InvalidResponsePayload(full.slice(..full.len().min(4096)), e)
        })?;
''')], '''
fn main() {
    rt().block_on(async {
        for n in [1usize, 100, 4096, 5000, 70000] {
            let body = "x".repeat(n);
            match ResponseValue::<u8>::from_response::<()>(resp(200, &[], body.clone())).await {
                Err(Error::InvalidResponsePayload(b, _)) => assert_eq!(b, body.as_bytes()),
                _ => panic!(),
            }
        }
    })
}
''', "an invalid body of more than 4096 bytes", "the payload error does not carry the body's bytes")

seed("c03-trailing-data", "C03", [(F,
'''        let inner =
            serde_json::from_slice(&full).map_err(|e| Error::InvalidResponsePayload(full, e))?;
''', '''        let mut de = serde_json::Deserializer::from_slice(&full);
        let inner = T::deserialize(&mut de);
        let inner = inner.map_err(|e| Error::InvalidResponsePayload(full, e))?;
''')], '''
fn main() {
    rt().block_on(async {
        let r = ResponseValue::<Vec<u8>>::from_response::<()>(resp(200, &[], "[1] trailing")).await;
        assert!(matches!(r, Err(Error::InvalidResponsePayload(..))));
        let r = ResponseValue::<Vec<u8>>::from_response::<()>(resp(200, &[], "[1] ")).await;
        assert!(matches!(r, Ok(v) if *v == [1]));
    })
}
''', "a body with data after the value", "an invalid body is accepted")

ADAPT = '''
/// Joins chunks that are already waiting, to save the caller wakeups.
#[cfg(not(target_arch = "wasm32"))]
struct Joined<S> {
    inner: S,
    held: Vec<u8>,
    failed: Option<reqwest::Error>,
}

#[cfg(not(target_arch = "wasm32"))]
impl<S: Stream<Item = reqwest::Result<Bytes>> + Unpin> Stream for Joined<S> {
    type Item = reqwest::Result<Bytes>;
    fn poll_next(
        mut self: std::pin::Pin<&mut Self>,
        cx: &mut std::task::Context<'_>,
    ) -> std::task::Poll<Option<Self::Item>> {
        use std::task::Poll;
        let this = &mut *self;
        if let Some(e) = this.failed.take() {
            return Poll::Ready(Some(Err(e)));
        }
        loop {
            match std::pin::Pin::new(&mut this.inner).poll_next(cx) {
                Poll::Ready(Some(Ok(b))) => this.held.extend_from_slice(&b),
                Poll::Ready(Some(Err(e))) if this.held.is_empty() => {
                    return Poll::Ready(Some(Err(e)))
                }
                Poll::Ready(Some(Err(e))) => {
                    this.failed = Some(e);
                    break;
                }
                Poll::Ready(None) if this.held.is_empty() => return Poll::Ready(None),
                Poll::Ready(None) => break,
                PENDING
            }
        }
        Poll::Ready(Some(Ok(std::mem::take(&mut this.held).into())))
    }
}

impl ResponseValue<ByteStream> {
    #[doc(hidden)]
    pub fn stream('''
DEMO_STREAM = '''
enum Ev { D(&'static str), Pend, Fail }
struct Script(std::collections::VecDeque<Ev>);
impl Stream for Script {
    type Item = Result<Bytes, std::io::Error>;
    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
        match self.0.pop_front() {
            Some(Ev::D(s)) => Poll::Ready(Some(Ok(Bytes::from_static(s.as_bytes())))),
            Some(Ev::Pend) => { cx.waker().wake_by_ref(); Poll::Pending }
            Some(Ev::Fail) => Poll::Ready(Some(Err(std::io::Error::other("cut")))),
            None => Poll::Ready(None),
        }
    }
}
fn run(evs: Vec<Ev>) -> Vec<Option<Result<Vec<u8>, ()>>> {
    rt().block_on(async {
        let mut s = ResponseValue::stream(resp(200, &[], reqwest::Body::wrap_stream(Script(evs.into())))).into_inner_stream();
        let mut out = vec![];
        loop {
            // one poll at a time: None = pending
            let p = poll_fn(|cx| Poll::Ready(s.as_mut().poll_next(cx))).await;
            match p {
                Poll::Pending => out.push(None),
                Poll::Ready(None) => return out,
                Poll::Ready(Some(Ok(b))) => out.push(Some(Ok(b.to_vec()))),
                Poll::Ready(Some(Err(_))) => out.push(Some(Err(()))),
            }
            if out.len() > 50 { return out; }
        }
    })
}
'''
J = '''            inner: ByteStream(Box::pin(response.bytes_stream())),'''
JN = '''            inner: ByteStream(Box::pin(Joined {
                inner: Box::pin(response.bytes_stream()),
                held: Vec::new(),
                failed: None,
            })),'''
ST = '''
impl ResponseValue<ByteStream> {
    #[doc(hidden)]
    pub fn stream('''
seed("c04-waits-for-more", "C04", [(F, ST, ADAPT.replace("PENDING", "Poll::Pending => return Poll::Pending,")), (F, J, JN)],
DEMO_STREAM + '''
fn main() {
    let out = run(vec![Ev::D("ab"), Ev::Pend, Ev::D("c"), Ev::Fail]);
    // data that has arrived is delivered before waiting for more
    assert!(matches!(&out[0], Some(Ok(b)) if b.starts_with(b"a")), "{out:?}");
    let all: Vec<u8> = out.iter().flatten().flatten().flatten().copied().collect();
    assert_eq!(all, b"abc");
}
''', "a stall between two chunks", "received data is withheld until more arrives")

seed("c04-cut-is-end", "C04", [(F, ST, ADAPT.replace("PENDING", "Poll::Pending if this.held.is_empty() => return Poll::Pending,\n                Poll::Pending => break,").replace('''                Poll::Ready(Some(Err(e))) => {
                    this.failed = Some(e);
                    break;
                }''', '''                Poll::Ready(Some(Err(e))) => {
                    // keep what we have; the error repeats on the next poll
                    this.failed = Some(e).filter(|e| !e.is_body() && !e.is_decode());
                    break;
                }''')), (F, J, JN)],
DEMO_STREAM + '''
fn main() {
    for evs in [vec![Ev::D("ab"), Ev::Fail], vec![Ev::Fail], vec![Ev::D("ab"), Ev::Pend, Ev::Fail]] {
        let out = run(evs);
        assert!(matches!(out.last(), Some(Some(Err(())))), "{out:?}");
    }
}
''', "an error that arrives together with data, without a stall in between", "a cut-off stream ends cleanly")

seed("c05-any-1xx", "C05", [(F,
'''        if status == reqwest::StatusCode::SWITCHING_PROTOCOLS {
''', '''        if status.is_informational() {
''')], '''
fn main() {
    rt().block_on(async {
        for s in [100u16, 102, 103, 200, 404] {
            match ResponseValue::upgrade::<()>(resp(s, &[("x", "y")], "body")).await {
                Err(Error::UnexpectedResponse(r)) => {
                    assert_eq!(r.status().as_u16(), s);
                    assert_eq!(r.text().await.unwrap(), "body");
                }
                Err(e) => panic!("{s}: {e}"),
                Ok(_) => panic!("{s}"),
            }
        }
    })
}
''', "an informational status other than 101", "the response is lost and reported as a failed upgrade")

seed("c06-content-length-32", "C06", [(F,
'''            .parse::<u64>()
            .ok()
''', '''            .parse::<u32>()
            .ok()
            .map(u64::from)
''')], '''
fn main() {
    for n in [0u64, 5, 4294967295, 4294967296, u64::MAX] {
        let s = n.to_string();
        let rv = ResponseValue::empty(resp(200, &[("content-length", &s)], ""));
        assert_eq!(rv.content_length(), Some(n));
    }
}
''', "a content length of 4 GiB or more", "the content length is reported as absent")

seed("c06-map-header-copy", "C06", [(F,
'''        Ok(ResponseValue {
            inner: f(inner),
            status,
            headers,
        })
''', '''        // Carry only what the caller can still look at.
        let mut kept = reqwest::header::HeaderMap::with_capacity(headers.len());
        for (name, value) in headers.iter() {
            kept.insert(name.clone(), value.clone());
        }

        Ok(ResponseValue {
            inner: f(inner),
            status,
            headers: kept,
        })
''')], '''
fn main() {
    let rv = ResponseValue::empty(resp(200, &[("a", "1"), ("a", "2"), ("b", "3")], ""));
    let rv = rv.map::<u8, _, ()>(|_| 7).unwrap();
    let a: Vec<_> = rv.headers().get_all("a").iter().collect();
    assert_eq!(a, ["1", "2"]);
    assert_eq!(*rv, 7);
}
''', "a repeated header and a mapping", "all but the last value of a repeated header are lost")

seed("c07-untyped-reclassifies", "C07", [(F,
'''            Error::UnexpectedResponse(r) => Error::UnexpectedResponse(r),
''', '''            Error::UnexpectedResponse(r) => match r.error_for_status_ref() {
                // a server-side failure has no interesting body
                Err(e) if r.status().is_server_error() && r.content_length() == Some(0) => {
                    Error::CommunicationError(e)
                }
                _ => Error::UnexpectedResponse(r),
            },
''')], '''
fn main() {
    for (s, b) in [(404u16, ""), (500, "x"), (503, ""), (200, "")] {
        let e: Error<u8> = Error::UnexpectedResponse(resp(s, &[("x", "y")], b));
        match e.into_untyped() {
            Error::UnexpectedResponse(r) => assert_eq!(r.status().as_u16(), s),
            e => panic!("{s} {b:?}: {e}"),
        }
    }
}
''', "an undocumented 5xx response with an empty body", "converting the error changes its kind and loses the response")

seed("c08-shallow-causes", "C08", [(F,
'''            let mut src = self.source().and_then(|e| e.source());
            while let Some(s) = src {
                write!(f, ": {s}")?;
                src = s.source();
            }
''', '''            let mut src = self.source().and_then(|e| e.source());
            let mut last = String::new();
            while let Some(s) = src {
                // wrappers often repeat the text of what they wrap
                let text = s.to_string();
                if text != last {
                    write!(f, ": {text}")?;
                    last = text;
                }
                src = s.source();
            }
''')], '''
#[derive(Debug)]
struct C(&'static str, Option<Box<C>>);
impl std::fmt::Display for C { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str(self.0) } }
impl std::error::Error for C {
    fn source(&self) -> Option<&(dyn std::error::Error + 'static)> { self.1.as_ref().map(|b| &**b as _) }
}
struct One(Option<C>);
impl Stream for One {
    type Item = Result<Bytes, C>;
    fn poll_next(mut self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Option<Self::Item>> { Poll::Ready(self.0.take().map(Err)) }
}
fn main() {
    rt().block_on(async {
        let c = C("retry", Some(Box::new(C("retry", Some(Box::new(C("end", None)))))));
        let e = match ResponseValue::<u8>::from_response::<()>(resp(200, &[], reqwest::Body::wrap_stream(One(Some(c))))).await { Err(e) => e, Ok(_) => panic!() };
        let s = format!("{e:#}");
        assert!(s.ends_with(": retry: retry: end"), "{s}");
    })
}
''', "a cause chain in which two consecutive causes have the same text", "a cause is missing from the alternate form")

seed("c08-upgrade-source", "C08", [(F,
'''            Error::CommunicationError(e) => Some(e),
            Error::InvalidUpgrade(e) => Some(e),
            Error::ResponseBodyError(e) => Some(e),
            Error::InvalidResponsePayload(_b, e) => Some(e),
            _ => None,
''', '''            Error::CommunicationError(e) | Error::ResponseBodyError(e) => Some(e),
            Error::InvalidUpgrade(e) => e.source().or(None),
            Error::InvalidResponsePayload(_b, e) => Some(e),
            _ => None,
''')], '''
fn main() {
    use std::error::Error as _;
    rt().block_on(async {
        let e = match ResponseValue::upgrade::<()>(resp(101, &[], "")).await { Err(e) => e, Ok(_) => panic!() };
        assert!(matches!(e, Error::InvalidUpgrade(_)));
        assert!(e.source().map_or(false, |s| s.is::<reqwest::Error>()));
    })
}
''', "a failed upgrade", "the immediate transport error is skipped in the cause chain")

seed("c09-empty-body-on-error", "C09", [(F,
'''                serde_urlencoded::to_string(body)
                    .map_err(|_| Error::InvalidRequest("failed to serialize body".to_string()))?,
''', '''                serde_urlencoded::to_string(body)
                    .or_else(|e| match e {
                        // a unit-like body has no fields
                        serde_urlencoded::ser::Error::Custom(ref s) if s.contains("top-level") => {
                            Ok(String::new())
                        }
                        e => Err(e),
                    })
                    .map_err(|_| Error::InvalidRequest("failed to serialize body".to_string()))?,
''')], '''
fn main() {
    let c = reqwest::Client::new();
    let r: Result<_, Error> = c.post("http://h/").form_urlencoded(&"just text");
    assert!(matches!(r, Err(Error::InvalidRequest(_))));
    let r: Result<_, Error> = c.post("http://h/").form_urlencoded(&42);
    assert!(matches!(r, Err(Error::InvalidRequest(_))));
    let r: Result<_, Error> = c.post("http://h/").form_urlencoded(&[("a", 1)]);
    assert_eq!(r.unwrap().build().unwrap().body().unwrap().as_bytes(), Some(&b"a=1"[..]));
}
''', "a body that is a bare scalar rather than a set of fields", "the value is silently dropped and an empty form is sent")

seed("c10-scratch-across-await", "C10", [(F,
'''        let full = response.bytes().await.map_err(Error::ResponseBodyError)?;
''', '''        // Reuse one buffer per thread rather than allocating for each response.
        thread_local! {
            static BODY: std::cell::RefCell<Vec<u8>> = const { std::cell::RefCell::new(Vec::new()) };
        }
        let mut response = response;
        BODY.with(|b| b.borrow_mut().clear());
        while let Some(chunk) = response.chunk().await.map_err(Error::ResponseBodyError)? {
            BODY.with(|b| b.borrow_mut().extend_from_slice(&chunk));
        }
        let full = BODY.with(|b| Bytes::copy_from_slice(&b.borrow()));
''')], DEMO_STREAM + '''
fn one(a: &'static str, b: &'static str) -> impl Future<Output = Vec<u8>> {
    let r = resp(200, &[], reqwest::Body::wrap_stream(Script(vec![Ev::D(a), Ev::Pend, Ev::D(b)].into())));
    async move {
        match ResponseValue::<Vec<u8>>::from_response::<()>(r).await {
            Ok(v) => v.into_inner(),
            Err(_) => vec![],
        }
    }
}
fn main() {
    rt().block_on(async {
        assert_eq!(one("[1", "]").await, [1]);
        let l = tokio::task::LocalSet::new();
        let x = l.spawn_local(one("[1", ",2]"));
        let y = l.spawn_local(one("[3", ",4]"));
        let (x, y) = l.run_until(async { (x.await.unwrap(), y.await.unwrap()) }).await;
        assert_eq!((x, y), (vec![1, 2], vec![3, 4]));
    })
}
''', "two responses being received on one thread, their chunks interleaved", "the bodies mix")

seed("c10-encode-memo", "C10", [(F,
'''pub fn encode_path(pc: &str) -> String {
    percent_encoding::utf8_percent_encode(pc, PATH_SET).to_string()
''', '''pub fn encode_path(pc: &str) -> String {
    // Loops tend to use the same value again and again.
    thread_local! {
        static LAST: std::cell::RefCell<(usize, usize, String)> =
            const { std::cell::RefCell::new((0, 0, String::new())) };
    }
    LAST.with(|last| {
        let mut last = last.borrow_mut();
        if (last.0, last.1) != (pc.as_ptr() as usize, pc.len()) || pc.len() < 8 {
            last.2 = percent_encoding::utf8_percent_encode(pc, PATH_SET).to_string();
            (last.0, last.1) = (pc.as_ptr() as usize, pc.len());
        }
        last.2.clone()
    })
''')], '''
fn main() {
    let mut s = String::from("value-00");
    for i in 0..10u8 {
        unsafe { s.as_bytes_mut()[7] = b'0' + i; }
        assert_eq!(encode_path(&s), format!("value-0{i}"));
    }
}
''', "two different values of the same length stored one after the other at the same address", "the encoding of an earlier value is used")

seed("c05-upgrade-needs-token", "C05", [(F,
'''            let inner = response.upgrade().await.map_err(Error::InvalidUpgrade)?;
''', '''            // Without the header there is nothing to switch to.
            if !headers
                .get(reqwest::header::CONNECTION)
                .is_some_and(|v| v.as_bytes().eq_ignore_ascii_case(b"upgrade"))
            {
                return Err(Error::UnexpectedResponse(response));
            }
            let inner = response.upgrade().await.map_err(Error::InvalidUpgrade)?;
''')], '''
use tokio::io::{AsyncReadExt, AsyncWriteExt};
fn main() {
    rt().block_on(async {
        for connection in ["Upgrade", "upgrade", "keep-alive, Upgrade"] {
            let l = tokio::net::TcpListener::bind("127.0.0.1:0").await.unwrap();
            let at = l.local_addr().unwrap();
            let server = tokio::spawn(async move {
                let (mut s, _) = l.accept().await.unwrap();
                let mut b = [0; 1024];
                let _ = s.read(&mut b).await.unwrap();
                s.write_all(format!("HTTP/1.1 101 S\\r\\nconnection: {connection}\\r\\nupgrade: websocket\\r\\n\\r\\nhi").as_bytes()).await.unwrap();
                s
            });
            let client = async {
                let r = reqwest::Client::builder().no_proxy().build().unwrap().get(format!("http://{at}/")).header("connection", "upgrade").header("upgrade", "websocket").send().await.unwrap();
                let mut u = ResponseValue::upgrade::<()>(r).await.unwrap_or_else(|e| panic!("{connection}: {e}")).into_inner();
                let mut b = [0; 2];
                u.read_exact(&mut b).await.unwrap();
                assert_eq!(&b, b"hi");
            };
            client.await;
            server.await.unwrap();
        }
    })
}
''', "a Connection header that lists more than one option", "a connection that was switched is reported as an unexpected response")

seed("c07-status-of-payload", "C07", [(F,
'''            Error::UnexpectedResponse(r) => Some(r.status()),
''', '''            // What was followed elsewhere is not an answer of this server.
            Error::UnexpectedResponse(r) => {
                (!r.status().is_redirection()).then(|| r.status())
            }
''')], '''
fn main() {
    for s in [100u16, 200, 204, 301, 304, 404, 500, 599, 999] {
        let e: Error<u8> = Error::UnexpectedResponse(resp(s, &[("x", "y")], "b"));
        assert_eq!(e.status().map(|s| s.as_u16()), Some(s));
        assert_eq!(e.into_untyped().status().map(|s| s.as_u16()), Some(s));
    }
}
''', "an undocumented redirection that is not followed, such as 304", "the error has no status")

seed("c09-blank-fields", "C09", [(F,
'''                serde_urlencoded::to_string(body)
                    .map_err(|_| Error::InvalidRequest("failed to serialize body".to_string()))?,
''', '''                serde_urlencoded::to_string(body)
                    // fields without a value are absent
                    .map(|s| {
                        s.split('&')
                            .filter(|f| !f.ends_with('='))
                            .collect::<Vec<_>>()
                            .join("&")
                    })
                    .map_err(|_| Error::InvalidRequest("failed to serialize body".to_string()))?,
''')], '''
fn main() {
    let c = reqwest::Client::new();
    for fs in [vec![("a", "1"), ("b", "2")], vec![("a", ""), ("b", "2")], vec![("a", "x=&y"), ("", "1")], vec![("a", "")]] {
        let r: Result<_, Error> = c.post("http://h/").form_urlencoded(&fs);
        let b = r.unwrap().build().unwrap();
        let b = b.body().unwrap().as_bytes().unwrap().to_vec();
        let got: Vec<_> = url::form_urlencoded::parse(&b).into_owned().collect();
        assert_eq!(got.iter().map(|(a, b)| (&a[..], &b[..])).collect::<Vec<_>>(), fs);
    }
}
''', "a field whose value is the empty text", "the field is not sent")
