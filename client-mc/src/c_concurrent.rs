//! C10: concurrent and nested use does not interfere.
use crate::c_resp::{response, Ev};
use futures_core::Stream;
use mc_core::*;
use progenitor_client::{encode_path, Error, QueryParam, RequestBuilderExt, ResponseValue};
use std::future::Future;
use std::pin::Pin;
use std::sync::Arc;
use std::task::{Context, Poll, Waker};

/// One task: its final observation as text.
type Task = Pin<Box<dyn Future<Output = String> + Send>>;

fn task(kind: usize, who: usize) -> Task {
    let d = |s: String| Ev::Data(s.into_bytes());
    match kind {
        0 => {
            let evs = [d(format!("{{\"id\":")), Ev::Stall, d(format!("{who}")), Ev::Stall, d("}".into())];
            let (r, _) = response(200 + who as u16, &[("x-a", b"1")], &evs);
            Box::pin(async move {
                match ResponseValue::<Value>::from_response::<()>(r).await {
                    Ok(v) => format!("{:?} {} {:?}", *v, v.status(), v.headers()),
                    Err(e) => format!("{e}"),
                }
            })
        }
        1 => {
            let evs = [d(format!("s{who}")), Ev::Stall, d(format!("t{who}")), Ev::Fail];
            let (r, _) = response(300 + who as u16, &[], &evs);
            Box::pin(async move {
                let rv = ResponseValue::stream(r);
                let st = rv.status();
                let mut s = rv.into_inner_stream();
                let mut out = format!("{st}");
                while let Some(x) = std::future::poll_fn(|cx| s.as_mut().poll_next(cx)).await {
                    match x {
                        Ok(b) => out += &format!("|{b:?}"),
                        Err(_) => out += "|err",
                    }
                }
                out
            })
        }
        2 => {
            let evs = [d(format!("[{who}")), Ev::Stall, d(",".into()), Ev::Stall];
            let (r, _) = response(500, &[], &evs);
            Box::pin(async move {
                match ResponseValue::<Vec<u8>>::from_response::<u8>(r).await {
                    Err(Error::InvalidResponsePayload(b, e)) => format!("{b:?} {e}"),
                    _ => "?".into(),
                }
            })
        }
        _ => Box::pin(async move {
            // builds a request over several scheduling points
            let client = reqwest::Client::new();
            let mut rb = client.post(format!("http://h/{}/x", encode_path(&format!("{who}/%"))));
            YieldNow(false).await;
            rb = rb.query(&QueryParam::new("q", &vec![who, who + 10]));
            YieldNow(false).await;
            let r: Result<_, Error> = rb.form_urlencoded(&[("k", who)]);
            let req = r.unwrap().build().unwrap();
            YieldNow(false).await;
            format!("{} {:?} {:?}", req.url(), req.body().unwrap().as_bytes(), req.headers())
        }),
    }
}

struct YieldNow(bool);
impl Future for YieldNow {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        if std::mem::replace(&mut self.0, true) {
            Poll::Ready(())
        } else {
            cx.waker().wake_by_ref();
            Poll::Pending
        }
    }
}

fn alone(kind: usize, who: usize) -> Result<String, String> {
    run_ready(task(kind, who).as_mut(), 40)
}

pub fn run() {
    let c = Check::new("C10");
    // every interleaving of the polls of 2 tasks (all kind pairs), then 3
    let mut sets: Vec<Vec<usize>> = vec![];
    for a in 0..4 {
        for b in a..4 {
            sets.push(vec![a, b]);
            for d in b..4 {
                sets.push(vec![a, b, d]);
            }
        }
    }
    for kinds in &sets {
        let want: Vec<Result<String, String>> = kinds.iter().enumerate().map(|(w, k)| alone(*k, w + 1)).collect();
        let n = explore(&c, |ch| {
            let run = |ch: &mut Chooser| -> Result<(), String> {
                let mut tasks: Vec<Option<Task>> = kinds.iter().enumerate().map(|(w, k)| Some(task(*k, w + 1))).collect();
                let mut out = vec![None; tasks.len()];
                let flags: Vec<Arc<Flag>> = tasks.iter().map(|_| Arc::new(Flag(true.into()))).collect();
                for _ in 0..80 {
                    let ready: Vec<usize> = (0..tasks.len())
                        .filter(|i| tasks[*i].is_some() && flags[*i].0.load(std::sync::atomic::Ordering::SeqCst))
                        .collect();
                    if ready.is_empty() {
                        break;
                    }
                    let i = *ch.pick(&ready);
                    flags[i].0.store(false, std::sync::atomic::Ordering::SeqCst);
                    let w = Waker::from(flags[i].clone());
                    if let Poll::Ready(o) = tasks[i].as_mut().unwrap().as_mut().poll(&mut Context::from_waker(&w)) {
                        out[i] = Some(o);
                        tasks[i] = None;
                    }
                }
                for (i, w) in want.iter().enumerate() {
                    let w = w.clone()?;
                    match &out[i] {
                        None => return Err(format!("task {i} never finished")),
                        Some(o) if *o != w => return Err(format!("task {i} saw {o:?} instead of {w:?}")),
                        _ => {}
                    }
                }
                c.outcome("same as alone");
                Ok(())
            };
            let r = quietly(|| run(ch)).unwrap_or_else(|p| Err(format!("panicked: {p}")));
            let path = ch.path();
            c.state(&(kinds, &path));
            let key = || format!("tasks {kinds:?} schedule {path}");
            c.case(key, || r);
        });
        c.extra(&format!("schedules of tasks {kinds:?}"), json!(n));
    }
    c.sample("tasks", || json!({"0": alone(0, 1), "1": alone(1, 1), "2": alone(2, 1), "3": alone(3, 1)}));
    c.bound("every interleaving of poll steps of 2 and 3 concurrent operations (4 kinds, 30 sets)");

    // a cancelled operation disturbs nobody: drop task A at each of its points
    for a in 0..4 {
        for b in 0..4 {
            for steps in 0..4 {
                c.case(
                    || format!("cancel kind {a} after {steps} polls beside kind {b}"),
                    || {
                        let mut ta = task(a, 1);
                        let mut tb = task(b, 2);
                        let mut cx = Context::from_waker(Waker::noop());
                        let mut first = None;
                        for _ in 0..steps {
                            if ta.as_mut().poll(&mut cx).is_ready() {
                                break;
                            }
                            if first.is_none() {
                                if let Poll::Ready(o) = tb.as_mut().poll(&mut cx) {
                                    first = Some(o)
                                }
                            }
                        }
                        drop(ta);
                        let o = match first {
                            Some(o) => o,
                            None => run_ready(tb.as_mut(), 40)?,
                        };
                        (o == alone(b, 2)?).then_some(()).ok_or(format!("disturbed: {o}"))
                    },
                );
            }
        }
    }
    // re-entrant use: a value whose serialization uses the client support
    struct Nest<'a>(&'a str, usize);
    impl serde::Serialize for Nest<'_> {
        fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
            if self.1 > 0 {
                let inner = reqwest::Client::new()
                    .get(format!("http://h/{}", encode_path("in/ner")))
                    .query(&QueryParam::new("inner", &Nest(self.0, self.1 - 1)))
                    .build()
                    .unwrap();
                assert_eq!(inner.url().path(), "/in%2Fner");
                assert!(inner.url().query().unwrap().starts_with("inner="), "{}", inner.url());
            }
            s.serialize_str(self.0)
        }
    }
    for depth in 0..5 {
        for v in ["x", "a/b", "", "%"] {
            c.case(
                || format!("nested {depth} {v:?}"),
                || {
                    let req = reqwest::Client::new()
                        .get("http://h/")
                        .query(&QueryParam::new("q", &vec![Nest(v, depth), Nest("z", depth)]))
                        .build()
                        .map_err(|e| e.to_string())?;
                    let got = form_decode(req.url().query().unwrap_or(""))?;
                    let want = vec![("q".to_string(), v.to_string()), ("q".to_string(), "z".to_string())];
                    (got == want).then_some(()).ok_or(format!("{got:?}"))
                },
            );
        }
    }
    // order independence of calls: every sequence of <= 3 calls gives each
    // call the result it has when made first
    let calls: Vec<(&str, Box<dyn Fn() -> String + Send + Sync>)> = vec![
        ("path", Box::new(|| encode_path("a/b c%"))),
        ("path2", Box::new(|| encode_path(""))),
        ("path3", Box::new(|| encode_path("A/B C%"))),
        ("path long", Box::new(|| encode_path(&"\u{20ac}/".repeat(200)))),
        ("query", Box::new(|| build_q(&vec!["x&", "y"]))),
        ("query none", Box::new(|| build_q(&None::<u8>))),
        ("query bad", Box::new(|| build_q(&vec![vec![1]]))),
        ("query obj", Box::new(|| build_q(&std::collections::BTreeMap::from([("k", 1)])))),
        ("form", Box::new(|| {
            let r: Result<_, Error> = reqwest::Client::new().post("http://h/").form_urlencoded(&[("k", "v")]);
            format!("{:?}", r.unwrap().build().unwrap().body().unwrap().as_bytes())
        })),
        ("form bad", Box::new(|| {
            let r: Result<_, Error> = reqwest::Client::new().post("http://h/").form_urlencoded(&3u8);
            format!("{:?}", r.err().map(|e| e.to_string()))
        })),
        ("typed", Box::new(|| alone(0, 1).unwrap())),
        ("typed bad", Box::new(|| alone(2, 1).unwrap())),
    ];
    let first: Vec<String> = calls.iter().map(|c| (c.1)()).collect();
    let depth = if c.thorough { 4 } else { 3 };
    explore(&c, |ch| {
        let n = 1 + ch.choose(depth);
        let seq: Vec<usize> = (0..n).map(|_| ch.choose(calls.len())).collect();
        c.case(
            || format!("calls {:?}", seq.iter().map(|i| calls[*i].0).collect::<Vec<_>>()),
            || {
                for i in &seq {
                    let got = (calls[*i].1)();
                    if got != first[*i] {
                        return Err(format!("{} gave {got:?} instead of {:?}", calls[*i].0, first[*i]));
                    }
                }
                Ok(())
            },
        );
    });
    c.bound(format!("every sequence of <= {depth} calls from 12; nesting to depth 4; cancellation at every poll"));

    // The same as the first calls of a thread.
    let fresh = |seq: &[usize]| -> Vec<String> {
        std::thread::scope(|s| s.spawn(|| seq.iter().map(|i| quietly(|| (calls[*i].1)()).unwrap_or_else(|p| format!("panicked: {p}"))).collect()).join().unwrap())
    };
    let first: Vec<String> = (0..calls.len()).map(|i| fresh(&[i]).remove(0)).collect();
    explore(&c, |ch| {
        let n = 2 + ch.choose(depth - 1);
        let seq: Vec<usize> = (0..n).map(|_| ch.choose(calls.len())).collect();
        c.case(
            || format!("new thread, calls {:?}", seq.iter().map(|i| calls[*i].0).collect::<Vec<_>>()),
            || {
                for (i, got) in seq.iter().zip(fresh(&seq)) {
                    if got != first[*i] {
                        return Err(format!("{} gave {got:?} instead of {:?}", calls[*i].0, first[*i]));
                    }
                }
                Ok(())
            },
        );
    });
    c.bound(format!("every sequence of 2..={depth} calls from 12 in a thread of its own"));

    // every call made from inside another, at each point where the client
    // support calls out: serializing, deserializing, polling the body
    let calls = std::sync::Arc::new(calls);
    let first = std::sync::Arc::new(first);
    CALLS.with(|x| *x.borrow_mut() = Some((calls.clone(), first.clone())));
    for i in 0..calls.len() {
        for host in 0..6 {
            for n in 1..=3usize {
                c.case(
                    || format!("{} inside host {host} x{n}", calls[i].0),
                    || {
                        WHICH.with(|w| w.set(Some(i)));
                        let got = host_op(host, n);
                        WHICH.with(|w| w.set(None));
                        let want = host_op(host, n);
                        let bad = BAD.with(|b| b.borrow_mut().take());
                        if let Some(b) = bad {
                            return Err(b);
                        }
                        let got = got?;
                        let want = want?;
                        (got == want).then_some(()).ok_or(format!("{got} instead of {want}"))
                    },
                );
            }
        }
    }
    c.bound("each of 12 calls inside 6 kinds of operations at every point where the client support calls out");

    // what is received does not depend on what was received before: every
    // ordered pair of received responses
    let mut specs: Vec<Spec> = vec![];
    let headers: [&[(&str, &[u8])]; 6] = [
        &[],
        &[("etag", b"\"e\""), ("cache-control", b"max-age=60")],
        &[("content-length", b"0")],
        &[("set-cookie", b"k=v"), ("set-cookie", b"k=w")],
        &[("last-modified", b"Thu, 01 Jan 1970 00:00:00 GMT")],
        &[("retry-after", b"1"), ("connection", b"close")],
    ];
    let statuses: &[u16] = if c.thorough { &[200, 204, 206, 304, 101, 404, 429, 500, 503] } else { &[200, 204, 304, 101, 503] };
    for how in 0..4 {
        for status in statuses {
            for h in headers {
                for body in [&b""[..], b"1", b"[2]", b"x"] {
                    for fail in [false, true] {
                        specs.push(Spec { how, status: *status, h, body, fail });
                    }
                }
            }
        }
    }
    let want: Vec<String> = specs.iter().map(Spec::expect).collect();
    let idx: Vec<usize> = (0..specs.len()).collect();
    par(&idx, |&a| {
        for b in 0..specs.len() {
            c.trans(2);
            c.case(
                || format!("after {:?} {:?}", specs[a], specs[b]),
                || {
                    for i in [a, b, a] {
                        let got = specs[i].observe()?;
                        if got != want[i] {
                            return Err(format!("{:?} gave {got} instead of {}", specs[i], want[i]));
                        }
                    }
                    Ok(())
                },
            );
            if c.stopped() {
                return;
            }
        }
    });
    c.bound(format!("every ordered pair of {} received responses (typed, streamed, empty, upgraded x {} statuses x 6 header sets x 4 bodies x failing), judged by what each means alone", specs.len(), statuses.len()));

    // operations that move between threads: each poll on either of two
    let pool = [Worker::start(), Worker::start()];
    for a in 0..4 {
        for b in 0..4 {
            let (wa, wb) = (alone(a, 1), alone(b, 2));
            explore(&c, |ch| {
                let mut path = vec![];
                let r = (|| {
                    let mut t = [Some(task(a, 1)), Some(task(b, 2))];
                    let mut out = [None, None];
                    let mut last = 1;
                    for _ in 0..30 {
                        // one operation runs to its next pause, alternating
                        last = 1 - last;
                        let i = if t[last].is_some() { last } else { 1 - last };
                        let Some(x) = t[i].take() else { break };
                        let th = if i == 0 { ch.choose(2) } else { 1 };
                        path.push((i, th));
                        let (x, o) = pool[th].poll(x)?;
                        match o {
                            Some(o) => out[i] = Some(o),
                            None => t[i] = Some(x),
                        }
                    }
                    if out[0] != wa.clone().ok() || out[1] != wb.clone().ok() {
                        return Err(format!("{out:?} instead of {wa:?} {wb:?}"));
                    }
                    Ok(())
                })();
                c.trans(path.len() as u64);
                c.case(|| format!("kinds {a} {b} polls (operation, thread) {path:?}"), || r);
            });
        }
    }
    c.bound("every assignment of one operation's polls to two threads beside another operation");

    // values that occupy the same memory one after the other: every sequence
    // of 4 equally long values through one buffer
    let seeds = ["abcd", "ab/d", "%2F%", "a&=d", "\u{e9}\u{e9}", "zzzz"];
    for pad in [0usize, 1, 4, 30, 300] {
        let cap = 4 + pad;
        explore(&c, |ch| {
            let seq: Vec<&str> = (0..4).map(|_| *ch.pick(&seeds)).collect();
            c.case(
                || format!("same buffer of {cap}: {seq:?}"),
                || {
                    let mut buf = String::with_capacity(cap);
                    for s in &seq {
                        buf.clear();
                        buf.push_str(&"k".repeat(pad));
                        buf.push_str(s);
                        let own = pct_decode(&encode_path(&buf))?;
                        if own != buf.as_bytes() {
                            return Err(format!("path text {:?} for {buf:?}", String::from_utf8_lossy(&own)));
                        }
                        if pad > 30 {
                            continue;
                        }
                        let r = CLIENT.with(|c| c.get("http://h/").query(&QueryParam::new(&buf, &buf)).build());
                        let got = form_decode(r.map_err(|e| e.to_string())?.url().query().unwrap_or(""))?;
                        if got != [(buf.clone(), buf.clone())] {
                            return Err(format!("query {got:?} for {buf:?}"));
                        }
                        let r: Result<_, Error> = CLIENT.with(|c| c.post("http://h/").form_urlencoded(&[(&buf, &buf)]));
                        let r = r.map_err(|e| e.to_string())?.build().unwrap();
                        let body = std::str::from_utf8(r.body().unwrap().as_bytes().unwrap()).unwrap().to_string();
                        if form_decode(&body)? != [(buf.clone(), buf.clone())] {
                            return Err(format!("form {body} for {buf:?}"));
                        }
                    }
                    Ok(())
                },
            );
        });
    }
    c.bound("every sequence of 4 of 6 equally long values in one buffer, 5 lengths");

    fn send_sync<T: Send + Sync>() {}
    fn send<T: Send>() {}
    send_sync::<ResponseValue<u8>>();
    send_sync::<ResponseValue<progenitor_client::ByteStream>>();
    send::<Error<u8>>();
    fn fut_send<F: Future + Send>(_: F) {}
    fut_send(ResponseValue::<u8>::from_response::<()>(response(200, &[], &[]).0));
    c.assume("preemption inside a synchronous call is not explored: the client support keeps no shared state, which the call-sequence and nesting exploration tests for");
    let _: Option<Box<dyn Stream<Item = ()>>> = None;
    c.finish_and_exit();
}

type Calls = Arc<Vec<(&'static str, Box<dyn Fn() -> String + Send + Sync>)>>;
thread_local! {
    static CALLS: std::cell::RefCell<Option<(Calls, Arc<Vec<String>>)>> = const { std::cell::RefCell::new(None) };
    static WHICH: std::cell::Cell<Option<usize>> = const { std::cell::Cell::new(None) };
    static BAD: std::cell::RefCell<Option<String>> = const { std::cell::RefCell::new(None) };
}

/// The point where the client support calls out: run the call under test.
fn inside() {
    let Some(i) = WHICH.with(|w| w.get()) else { return };
    WHICH.with(|w| w.set(None));
    let (calls, first) = CALLS.with(|c| c.borrow().clone()).unwrap();
    let got = (calls[i].1)();
    if got != first[i] {
        BAD.with(|b| *b.borrow_mut() = Some(format!("{} gave {got:?} inside instead of {:?}", calls[i].0, first[i])));
    }
    WHICH.with(|w| w.set(Some(i)));
}

struct Inner(u8);
impl serde::Serialize for Inner {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        inside();
        s.serialize_str(&format!("v/{}", self.0))
    }
}
struct Fields(usize);
impl serde::Serialize for Fields {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        use serde::ser::SerializeMap;
        let mut m = s.serialize_map(None)?;
        for i in 0..self.0 {
            inside();
            m.serialize_entry(&format!("k{i}"), &Inner(i as u8))?;
        }
        inside();
        m.end()
    }
}
#[derive(Debug)]
struct Read(Vec<u8>);
impl<'de> serde::Deserialize<'de> for Read {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        inside();
        let v = Vec::<u8>::deserialize(d)?;
        inside();
        Ok(Read(v))
    }
}
struct Calling(Script2);
type Script2 = std::vec::IntoIter<Ev>;
impl Stream for Calling {
    type Item = Result<bytes::Bytes, crate::c_resp::Boom>;
    fn poll_next(mut self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Option<Self::Item>> {
        inside();
        Poll::Ready(match self.0.next() {
            Some(Ev::Data(d)) => Some(Ok(d.into())),
            Some(_) => Some(Err(crate::c_resp::Boom)),
            None => None,
        })
    }
}

fn host_op(host: usize, n: usize) -> Result<String, String> {
    let vals: Vec<Inner> = (0..n as u8).map(Inner).collect();
    let body = |texts: &[&str]| -> reqwest::Response {
        let evs: Vec<Ev> = texts.iter().map(|t| Ev::Data(t.as_bytes().to_vec())).collect();
        http::Response::new(reqwest::Body::wrap_stream(SendIt(Calling(evs.into_iter())))).into()
    };
    Ok(match host {
        0 => build_q(&vals),
        1 => build_q(&Fields(n)),
        2 | 3 => {
            let r: Result<_, Error> = if host == 2 {
                CLIENT.with(|c| c.post("http://h/").form_urlencoded(&Fields(n)))
            } else {
                CLIENT.with(|c| c.post("http://h/").query(&QueryParam::new("q", &vals)).form_urlencoded(&Fields(n)))
            };
            let r = r.map_err(|e| e.to_string())?.build().map_err(|e| e.to_string())?;
            format!("{} {:?}", r.url(), r.body().unwrap().as_bytes())
        }
        4 => {
            let t: Vec<&str> = ["[1", ",2", "]"][..n].to_vec();
            let r = run_ready(Box::pin(ResponseValue::<Read>::from_response::<()>(body(&t))).as_mut(), 40)?;
            format!("{:?}", r.map(|v| v.into_inner().0).map_err(|e| e.to_string()))
        }
        _ => {
            let mut s = ResponseValue::stream(body(&["ab", "c", ""][..n])).into_inner_stream();
            let mut out = vec![];
            let mut cx = Context::from_waker(Waker::noop());
            while let Poll::Ready(Some(x)) = s.as_mut().poll_next(&mut cx) {
                out.extend_from_slice(&x.map_err(|e| e.to_string())?);
            }
            format!("{out:?}")
        }
    })
}

/// The calling stream stays on its thread here.
struct SendIt<T>(T);
unsafe impl<T> Send for SendIt<T> {}
impl<T: Stream + Unpin> Stream for SendIt<T> {
    type Item = T::Item;
    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<T::Item>> {
        Pin::new(&mut self.0).poll_next(cx)
    }
}

/// A response and how it is received.
#[derive(Debug, Clone, Copy)]
struct Spec {
    how: usize,
    status: u16,
    h: &'static [(&'static str, &'static [u8])],
    body: &'static [u8],
    fail: bool,
}

impl Spec {
    fn head(&self) -> String {
        let mut t = format!("{}", self.status);
        for (n, v) in self.h {
            t += &format!(" {n}={}", v.escape_ascii());
        }
        t
    }
    fn expect(&self) -> String {
        let raw = format!("{}{}", self.body.escape_ascii(), if self.fail { "!" } else { "" });
        match self.how {
            0 if self.fail => "body error".into(),
            0 => match serde_json::from_slice::<Value>(self.body) {
                Ok(v) => format!("{} {v}", self.head()),
                Err(e) => format!("payload {} {e}", self.body.escape_ascii()),
            },
            1 => format!("{} {raw}", self.head()),
            2 => self.head(),
            _ if self.status == 101 => "invalid upgrade".into(),
            _ => format!("unexpected {} {raw}", self.head()),
        }
    }
    fn observe(&self) -> Result<String, String> {
        let mut evs = vec![];
        if !self.body.is_empty() {
            evs.push(Ev::Data(self.body.to_vec()));
        }
        if self.fail {
            evs.push(Ev::Fail);
        }
        let (r, _) = response(self.status, self.h, &evs);
        let head = |s: reqwest::StatusCode, h: &reqwest::header::HeaderMap| {
            let mut t = s.as_u16().to_string();
            for (n, v) in h {
                t += &format!(" {n}={}", v.as_bytes().escape_ascii());
            }
            t
        };
        let drain = |mut s: Pin<Box<dyn Stream<Item = reqwest::Result<bytes::Bytes>> + Send + Sync>>| {
            let mut out = String::new();
            let mut cx = Context::from_waker(Waker::noop());
            while let Poll::Ready(Some(x)) = s.as_mut().poll_next(&mut cx) {
                match x {
                    Ok(b) => out += &b.escape_ascii().to_string(),
                    Err(_) => out += "!",
                }
            }
            out
        };
        Ok(match self.how {
            0 => match run_ready(Box::pin(ResponseValue::<Value>::from_response::<()>(r)).as_mut(), 20)? {
                Ok(v) => format!("{} {}", head(v.status(), v.headers()), *v),
                Err(Error::ResponseBodyError(_)) => "body error".into(),
                Err(Error::InvalidResponsePayload(b, e)) => format!("payload {} {e}", b.escape_ascii()),
                Err(e) => format!("{e}"),
            },
            1 => {
                let v = ResponseValue::stream(r);
                let h = head(v.status(), v.headers());
                format!("{h} {}", drain(v.into_inner_stream()))
            }
            2 => {
                let v = ResponseValue::empty(r);
                head(v.status(), v.headers())
            }
            _ => match run_ready(Box::pin(ResponseValue::upgrade::<()>(r)).as_mut(), 20)? {
                Err(Error::InvalidUpgrade(_)) => "invalid upgrade".into(),
                Err(Error::UnexpectedResponse(r)) => {
                    let h = head(r.status(), r.headers());
                    format!("unexpected {h} {}", drain(Box::pin(r.bytes_stream())))
                }
                Err(e) => format!("{e}"),
                Ok(_) => "upgraded".into(),
            },
        })
    }
}

/// A thread that polls what it is handed once.
type Polled = Result<(Task, Option<String>), String>;
struct Worker(std::sync::mpsc::Sender<Task>, std::sync::mpsc::Receiver<Polled>);
impl Worker {
    fn start() -> Worker {
        let (tx, rx) = std::sync::mpsc::channel::<Task>();
        let (otx, orx) = std::sync::mpsc::channel();
        std::thread::spawn(move || {
            for mut t in rx {
                let r = quietly(|| match t.as_mut().poll(&mut Context::from_waker(Waker::noop())) {
                    Poll::Ready(o) => Some(o),
                    Poll::Pending => None,
                });
                if otx.send(r.map(|o| (t, o)).map_err(|p| format!("panicked: {p}"))).is_err() {
                    return;
                }
            }
        });
        Worker(tx, orx)
    }
    fn poll(&self, t: Task) -> Polled {
        self.0.send(t).map_err(|_| "worker gone".to_string())?;
        self.1.recv().map_err(|_| "worker gone".to_string())?
    }
}

thread_local! {
    static CLIENT: reqwest::Client = reqwest::Client::new();
}

fn build_q<T: serde::Serialize>(v: &T) -> String {
    match reqwest::Client::new().get("http://h/").query(&QueryParam::new("q", v)).build() {
        Ok(r) => r.url().to_string(),
        Err(e) => e.to_string(),
    }
}
