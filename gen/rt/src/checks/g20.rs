//! G20: a client is what it was made from.
use super::*;
use crate::hooks::{self, Edit};
use futures::StreamExt;
use peer::Answer;
use std::collections::VecDeque;

fn universal() -> Value {
    serde_json::json!({"name": "n", "items": [{"name": "n"}], "next_page": "t"})
}

thread_local! {
    /// HTTP clients told apart by a header they add.
    static HTTP: Vec<reqwest::Client> = ["a", "b"].iter().map(|x| {
        let mut h = reqwest::header::HeaderMap::new();
        h.insert("x-own", reqwest::header::HeaderValue::from_static(x));
        reqwest::Client::builder().pool_max_idle_per_host(0).no_proxy().redirect(reqwest::redirect::Policy::none()).user_agent(*x).default_headers(h).build().unwrap()
    }).collect();
}

/// What a client was made from.
#[derive(Clone, Debug)]
struct Made {
    base: String,
    /// Host and path of the base.
    host: String,
    stem: String,
    own: Option<&'static str>,
    inner: Option<u64>,
    version: String,
}

impl Made {
    fn about(&self, l: &dyn Live) -> Result<(), String> {
        if l.base() != self.base {
            return Err(format!("made with the base URL {:?}, the client reports {:?}", self.base, l.base()));
        }
        if l.version() != self.version {
            return Err(format!("the document is of version {:?}, the client reports {:?}", self.version, l.version()));
        }
        if l.inner() != self.inner {
            return Err(format!("made with the inner value {:?}, the client reports {:?}", self.inner, l.inner()));
        }
        Ok(())
    }
    fn sent(&self, op: &model::Op, args: &Args, got: &Received) -> Result<(), String> {
        let mut w = op.want(&self.stem, args).unwrap();
        for h in &mut w.headers {
            if h.0 == "api-version" {
                h.1 = self.version.trim_matches([' ', '\t']).as_bytes().to_vec();
            }
        }
        let mut got = got.clone();
        let host = got.header("host");
        if host.len() != 1 || !host[0].eq_ignore_ascii_case(&self.host) {
            return Err(format!("a client of {:?} sent a request to {host:?}", self.base));
        }
        self.through(&got)?;
        got.headers.retain(|(n, _)| !["x-own", "user-agent"].contains(&&n.to_ascii_lowercase()[..]));
        for h in &mut got.headers {
            if h.0.eq_ignore_ascii_case("api-version") {
                h.1 = h.1.trim_ascii().to_vec();
            }
        }
        model::check(op, &w, &got, false)
    }
    /// The headers the HTTP client adds.
    fn through(&self, got: &Received) -> Result<(), String> {
        let want: Vec<String> = self.own.iter().map(|x| x.to_string()).collect();
        for h in ["x-own", "user-agent"] {
            if got.header(h) != want {
                return Err(format!("a client with the HTTP client {:?} sent a request with {h} {:?}", self.own, got.header(h)));
            }
        }
        Ok(())
    }
}

fn arguments(op: &model::Op, n: usize) -> Args {
    let mut a = Args::new();
    if op.id == "full" {
        a.insert("p".into(), format!("p {n}").into());
        a.insert("q".into(), format!("q{n}").into());
        a.insert("body".into(), serde_json::json!({"name": format!("b{n}")}));
    }
    a
}

/// Every way of making a client, every base, every operation.
fn construction(c: &Check, reg: &Registry, d: &model::Doc, style: Style) {
    let entry = |op: &str| reg.find(&d.key, style, op);
    let port = peer::with(|p| p.env().base.rsplit(':').next().unwrap().to_string());
    let mut bases = vec![];
    for stem in ["", "/api", "/api/v1.0", "/a%20b", "/é", "/x;y=1/~", "/a%2Fb", "/P/p", "/1", "/a:b@c"] {
        bases.push(("http://", "127.0.0.1", stem));
    }
    for (scheme, host) in [("http://", "localhost"), ("http://", "LocalHost"), ("HTTP://", "127.0.0.1"), ("http://", "127.1")] {
        bases.push((scheme, host, "/s"));
    }
    // A version beyond ASCII: one call.
    if !d.version.is_ascii() {
        if d.config.inner.is_none() {
            c.case(
                || format!("version {:?} {style:?}", d.version),
                || {
                    peer::with(|p| {
                        let l = (entry("plain").and_then(|e| e.live).ok_or("the client was not emitted")?)(&p.env(), How::WithClient);
                        let (got, out) = p.run(&[Answer::new(200, &[], b"")], async move { l.call("plain", &Input::of(&Args::new()))?.await })?;
                        let got = got.first().ok_or_else(|| format!("no request was sent: {out:?}"))?;
                        let sent: Vec<String> = got.header("api-version").to_vec();
                        if sent != [d.version.clone()] { Err(format!("the version was sent as {sent:?}")) } else { Ok(()) }
                    })
                },
            );
        }
        bases.clear();
    }
    // Whose requests are left open: only what the client reports is judged.
    let reported = ["http://127.0.0.1/", "http://127.0.0.1/api/", "http://h/?q=1", " http://h ", "not a URL", "", "http://h#f", "https://user:pw@h:1/x"];
    for how in [How::WithClient, How::New] {
        for (n, base) in reported.iter().enumerate() {
            c.case(
                || format!("report {} {style:?} {how:?} base={base:?}", d.key),
                || {
                    let mut env = peer::with(|p| p.env());
                    env.base = base.to_string();
                    env.inner.id = n as u64;
                    let made = Made { base: base.to_string(), host: String::new(), stem: String::new(), own: None, inner: d.config.inner.is_some().then_some(n as u64), version: d.version.clone() };
                    let l = (entry("plain").and_then(|e| e.live).ok_or("the client was not emitted")?)(&env, how);
                    made.about(&*l)?;
                    made.about(&*l.dup())?;
                    c.outcome("reported");
                    Ok(())
                },
            );
        }
        for (scheme, host, stem) in &bases {
            for http in 0..if how == How::New { 1 } else { 2 } {
                for cloned in [0, 1, 2] {
                    for op in d.ops.iter().filter(|o| ["plain", "full", "pages"].contains(&&o.id[..])) {
                        for answer in [200u16, 302, 404] {
                            c.case(
                                || format!("make {} {style:?} {how:?} base={scheme}{host}{stem} http={http} cloned={cloned} {} answer={answer}", d.key, op.id),
                                || {
                                    let base = format!("{scheme}{host}:{port}{stem}");
                                    let mut env = Env { base: base.clone(), http: HTTP.with(|h| h[http].clone()), inner: Default::default() };
                                    env.inner.id = 7 + http as u64;
                                    let made = Made {
                                        base,
                                        host: format!("{}:{port}", if *host == "127.1" { "127.0.0.1" } else { host }),
                                        stem: stem.to_string(),
                                        own: (how == How::WithClient).then_some(["a", "b"][http]),
                                        inner: d.config.inner.is_some().then_some(env.inner.id),
                                        version: d.version.clone(),
                                    };
                                    let args = arguments(op, 1);
                                    let a = if answer == 302 { Answer::new(302, &[("location", "/elsewhere")], b"") } else { Answer::json(answer, &if answer == 200 { universal() } else { serde_json::json!({"message": "m"}) }) };
                                    peer::with(|p| {
                                        let (got, r) = p.watch(&[a, Answer::new(418, &[], b"")], |log| {
                                            hooks::begin(log, Edit::None, &[]);
                                            let l = entry("plain").and_then(|e| e.live).ok_or("the client was not emitted".to_string());
                                            let made = made.clone();
                                            let input = Input::of(&args);
                                            async move {
                                                // A client of a runtime of its own is made where it is used.
                                                let mut l = l?(&env, how);
                                                for _ in 0..cloned {
                                                    l = l.dup();
                                                }
                                                made.about(&*l)?;
                                                let out = l.call(&op.id, &input)?.await?;
                                                made.about(&*l)?;
                                                Ok::<_, String>((out, hooks::end()))
                                            }
                                        })?;
                                        let (out, events) = r?;
                                        // A client made without one follows redirects as its HTTP client pleases.
                                        if answer == 302 && how == How::New {
                                            if got.is_empty() {
                                                return Err(format!("no request was sent, the call gave {out:?}"));
                                            }
                                        } else {
                                            if got.len() != 1 {
                                                return Err(format!("{} requests were sent, the call gave {out:?}", got.len()));
                                            }
                                            let kind = match answer { 200 => Kind::Ok, 404 => Kind::ErrorResponse, _ => Kind::Unexpected };
                                            if out.kind != kind {
                                                return Err(format!("answered with {answer}, the call gave {out:?}"));
                                            }
                                        }
                                        c.state(&(&d.key, style, how, stem, host, http, cloned, &op.id, answer));
                                        made.sent(op, &args, &got[0])?;
                                        if d.config.pre.is_some() && (events.len() != 1 || events[0].inner != made.inner) {
                                            return Err(format!("the hooks were given {:?} instead of {:?}", events.iter().map(|e| e.inner).collect::<Vec<_>>(), made.inner));
                                        }
                                        c.outcome(if how == How::New { "sent by a client of its own" } else { "sent by the given client" });
                                        Ok(())
                                    })
                                },
                            );
                        }
                    }
                }
            }
        }
        // The HTTP client reported is the one given.
        if how == How::WithClient && d.version.is_ascii() {
            for http in 0..2 {
                c.case(
                    || format!("http {} {style:?} {http}", d.key),
                    || {
                        peer::with(|p| {
                            let mut env = p.env();
                            env.http = HTTP.with(|h| h[http].clone());
                            let l = (entry("plain").and_then(|e| e.live).ok_or("the client was not emitted")?)(&env, how);
                            let request = [l.http(), l.dup().http()].map(|h| h.get(&env.base).send());
                            let (got, _) = p.run(&[], async move {
                                for r in request {
                                    let _ = r.await;
                                }
                            })?;
                            let made = Made { base: env.base.clone(), host: String::new(), stem: String::new(), own: Some(["a", "b"][http]), inner: None, version: String::new() };
                            if got.len() != 2 {
                                return Err(format!("{} requests by the HTTP client", got.len()));
                            }
                            got.iter().try_for_each(|g| made.through(g))
                        })
                    },
                );
            }
        }
    }
}

/// Every history of calls, clones, pending calls and streams on two clients.
fn histories(c: &Arc<Check>, reg: &Registry, d: &model::Doc, style: Style) {
    let depth = if c.thorough { 6 } else { 5 };
    let op = |id: &str| d.ops.iter().find(|o| o.id == id).unwrap();
    let Some(make) = reg.find(&d.key, style, "plain").and_then(|e| e.live) else { return };
    let firsts: Vec<usize> = (0..8).collect();
    mc_core::par(&firsts, |first| {
        let mut left = vec![0; depth - 1];
        // All sequences: an odometer over the actions, those not possible skipped.
        loop {
            let mut seq = vec![*first];
            seq.extend(&left);
            c.case(
                || format!("history {} {style:?} {seq:?}", d.key),
                || {
                    peer::with(|p| {
                        let answers: Vec<Answer> = (0..depth).map(|_| Answer::json(200, &universal())).collect();
                        let made: Vec<Made> = (0..2)
                            .map(|i| {
                                let stem = ["/a", "/b/b"][i];
                                let base = format!("{}{stem}", p.env().base);
                                Made { host: base["http://".len()..].split('/').next().unwrap().into(), base, stem: stem.into(), own: Some(["a", "b"][i]), inner: d.config.inner.is_some().then_some(i as u64 + 3), version: d.version.clone() }
                            })
                            .collect();
                        let (got, r) = p.watch(&answers, |log| {
                            hooks::begin(log.clone(), Edit::None, &[]);
                            let seq = &seq;
                            let made = &made;
                            async move {
                                let mut slots: Vec<(usize, Box<dyn Live>)> = (0..2)
                                    .map(|i| {
                                        let mut env = Env { base: made[i].base.clone(), http: HTTP.with(|h| h[i].clone()), inner: Default::default() };
                                        env.inner.id = i as u64 + 3;
                                        (i, make(&env, How::WithClient))
                                    })
                                    .collect();
                                let mut held: VecDeque<(usize, usize, Fut)> = VecDeque::new();
                                let mut streams: VecDeque<(usize, usize, Items)> = VecDeque::new();
                                let mut expect: Vec<(usize, &model::Op, Args)> = vec![];
                                for (n, a) in seq.iter().enumerate() {
                                    let slot = *a % 2;
                                    let sent = log.borrow().len();
                                    let full = op("full");
                                    match a / 2 {
                                        0 => {
                                            let (i, l) = &slots[slot];
                                            let args = arguments(full, n);
                                            let out = l.call("full", &Input::of(&args))?.await?;
                                            if out.kind != Kind::Ok {
                                                return Err(format!("call {n} gave {out:?}"));
                                            }
                                            expect.push((*i, full, args));
                                        }
                                        // A clone takes the place of its original.
                                        1 => {
                                            let (i, l) = &slots[slot];
                                            slots[slot] = (*i, l.dup());
                                        }
                                        // Made now, sent later.
                                        2 => {
                                            let (i, l) = &slots[slot];
                                            held.push_back((*i, n, l.call("full", &Input::of(&arguments(full, n)))?));
                                            // Meanwhile a stream is opened.
                                            streams.push_back((*i, 0, l.stream("pages", &Input::of(&Args::new()))?));
                                        }
                                        _ => {
                                            if slot == 0 {
                                                let Some((i, at, f)) = held.pop_front() else { continue };
                                                let out = f.await?;
                                                if out.kind != Kind::Ok {
                                                    return Err(format!("the call made at {at} and sent at {n} gave {out:?}"));
                                                }
                                                expect.push((i, full, arguments(full, at)));
                                            } else {
                                                let Some((i, k, s)) = streams.front_mut() else { continue };
                                                match s.next().await {
                                                    Some(Ok(v)) if v["name"] == "n" => {}
                                                    o => return Err(format!("the stream gave {:?}", o.map(|r| r.map_err(|e| e.kind)))),
                                                }
                                                let mut args = Args::new();
                                                if *k > 0 {
                                                    args.insert("page_token".into(), "t".into());
                                                }
                                                *k += 1;
                                                expect.push((*i, op("pages"), args));
                                                streams.rotate_left(1);
                                            }
                                        }
                                    }
                                    let now = log.borrow().len();
                                    let sends = matches!(a / 2, 0 | 3) as usize;
                                    if now != sent + sends {
                                        return Err(format!("step {n} sent {} requests instead of {sends}", now - sent));
                                    }
                                    for (i, l) in &slots {
                                        made[*i].about(&**l)?;
                                    }
                                }
                                Ok::<_, String>((expect, hooks::end()))
                            }
                        })?;
                        let (expect, events) = r?;
                        if got.len() != expect.len() || d.config.pre.is_some() && events.len() != expect.len() {
                            return Err(format!("{} requests and {} hooks instead of {}", got.len(), events.len(), expect.len()));
                        }
                        for (n, ((i, op, args), g)) in expect.iter().zip(&got).enumerate() {
                            made[*i].sent(op, args, g).map_err(|m| format!("request {n}: {m}"))?;
                            if d.config.pre.is_some() && events[n].inner != made[*i].inner {
                                return Err(format!("request {n}: the hook was given {:?} instead of {:?}", events[n].inner, made[*i].inner));
                            }
                        }
                        c.outcome("history as by its parts");
                        c.state(&(&d.key, style, &seq));
                        c.trans(seq.len() as u64);
                        Ok(())
                    })
                },
            );
            let Some(k) = left.iter().rposition(|x| *x < 7) else { break };
            left[k] += 1;
            left[k + 1..].fill(0);
        }
    });
}

/// A call in flight: what it yields at last.
type Flight = std::pin::Pin<Box<dyn std::future::Future<Output = Result<String, String>>>>;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum End {
    Good,
    Bad,
    /// Given up by the caller.
    Dropped,
}

/// Orders in which calls can start (even) and end (odd).
fn orders(n: usize) -> Vec<Vec<(usize, bool)>> {
    fn go(n: usize, at: &mut Vec<(usize, bool)>, out: &mut Vec<Vec<(usize, bool)>>) {
        if at.len() == 2 * n {
            out.push(at.clone());
        }
        for i in 0..n {
            for end in [false, true] {
                if !at.contains(&(i, end)) && (!end || at.contains(&(i, false))) {
                    at.push((i, end));
                    go(n, at, out);
                    at.pop();
                }
            }
        }
    }
    let mut out = vec![];
    go(n, &mut vec![], &mut out);
    out
}

/// Calls in flight at the same time: every order of starts and ends.
fn flights(c: &Arc<Check>, reg: &Registry, d: &model::Doc, style: Style, ops: &[&str]) {
    let op = |id: &str| d.ops.iter().find(|o| o.id == id).unwrap();
    let Some(make) = reg.find(&d.key, style, "plain").and_then(|e| e.live) else { return };
    let n = ops.len();
    let orders = orders(n);
    // Each call goes through the first client, its clone or another.
    let whose: Vec<Vec<usize>> = (0..3usize.pow(n as u32 - 1)).map(|k| (0..n).map(|i| if i == 0 { 0 } else { k / 3usize.pow(i as u32 - 1) % 3 }).collect()).collect();
    let ends: Vec<Vec<End>> = (0..3usize.pow(n as u32)).map(|k| (0..n).map(|i| [End::Good, End::Bad, End::Dropped][k / 3usize.pow(i as u32) % 3]).collect()).collect();
    let jobs: Vec<(&Vec<usize>, &Vec<End>)> = whose.iter().flat_map(|w| ends.iter().map(move |e| (w, e))).collect();
    mc_core::par(&jobs, |(whose, ends)| {
        for order in &orders {
            c.case(
                || format!("flights {} {style:?} {ops:?} of {whose:?} ending {ends:?} in the order {order:?}", d.key),
                || {
                    peer::with(|p| {
                        let made: Vec<Made> = [(0, "/a"), (0, "/a"), (1, "/b/b")]
                            .iter()
                            .map(|(i, stem)| {
                                let base = format!("{}{stem}", p.env().base);
                                Made { host: base["http://".len()..].split('/').next().unwrap().into(), base, stem: stem.to_string(), own: Some(["a", "b"][*i]), inner: d.config.inner.is_some().then_some(*i as u64 + 3), version: d.version.clone() }
                            })
                            .collect();
                        p.holding(|held| {
                            hooks::begin(Default::default(), Edit::None, &[]);
                            let made = &made;
                            async move {
                                let live = |i: usize| {
                                    let mut env = Env { base: made[i].base.clone(), http: HTTP.with(|h| h[i / 2].clone()), inner: Default::default() };
                                    env.inner.id = made[i].inner.unwrap_or(3);
                                    make(&env, How::WithClient)
                                };
                                let first = live(0);
                                let clients = [first.dup(), first, live(2)];
                                // All are made before any is started.
                                let mut flying: Vec<Option<Flight>> = vec![];
                                for (k, id) in ops.iter().enumerate() {
                                    let l = &clients[whose[k]];
                                    let input = Input::of(&arguments(op(id), k));
                                    flying.push(Some(if *id == "pages" {
                                        let mut s = l.stream("pages", &input)?;
                                        Box::pin(async move {
                                            match s.next().await {
                                                Some(Ok(v)) => Ok(v["name"].as_str().unwrap_or("?").to_string()),
                                                Some(Err(e)) => Err(format!("{:?} {:?}", e.kind, e.shown)),
                                                None => Ok("the end".into()),
                                            }
                                        })
                                    } else {
                                        let f = l.call(id, &input)?;
                                        let bare = *id == "plain";
                                        Box::pin(async move {
                                            let out = f.await?;
                                            match (out.kind, bare) {
                                                (Kind::Ok, true) => Ok("nothing".into()),
                                                (Kind::Ok, false) => Ok(match &out.shown { Shown::Json(v) => v["name"].as_str().unwrap_or("?").to_string(), s => format!("{s:?}") }),
                                                (k, _) => Err(format!("{k:?} {:?}", out.shown)),
                                            }
                                        })
                                    }));
                                }
                                let mut seat = vec![0; n];
                                let mut waiting = vec![false; n];
                                let mut done: Vec<Option<Result<String, String>>> = vec![None; n];
                                for (k, end) in order {
                                    let k = *k;
                                    if *end && ends[k] == End::Dropped {
                                        flying[k] = None;
                                        waiting[k] = false;
                                        continue;
                                    }
                                    let before = held.log.borrow().len();
                                    if *end {
                                        let a = if ends[k] == End::Good {
                                            let v = serde_json::json!({"name": format!("for {k}"), "items": [{"name": format!("for {k}")}], "next_page": "t"});
                                            Answer::json(200, &v)
                                        } else {
                                            Answer::json(404, &serde_json::json!({"message": format!("for {k}")}))
                                        };
                                        held.answer(seat[k], &a).await;
                                    } else {
                                        waiting[k] = true;
                                    }
                                    std::future::poll_fn(|cx| {
                                        for i in 0..n {
                                            if waiting[i] {
                                                if let Some(f) = &mut flying[i] {
                                                    if let std::task::Poll::Ready(r) = f.as_mut().poll(cx) {
                                                        done[i] = Some(r);
                                                        flying[i] = None;
                                                    }
                                                }
                                            }
                                        }
                                        if done[k].is_some() || !*end && held.log.borrow().len() > before { std::task::Poll::Ready(()) } else { std::task::Poll::Pending }
                                    })
                                    .await;
                                    let now = held.log.borrow().len();
                                    if now != before + !*end as usize {
                                        return Err(format!("{} requests when call {k} {}", now - before, if *end { "was answered" } else { "was started" }));
                                    }
                                    for i in 0..n {
                                        let over = *end && i == k || order.iter().take_while(|o| **o != (k, *end)).any(|o| *o == (i, true)) && ends[i] != End::Dropped;
                                        if done[i].is_some() != over {
                                            return Err(format!("after {:?}: call {i} gave {:?}", (k, end), done[i]));
                                        }
                                    }
                                    if *end {
                                        let want: Result<String, String> = match (ends[k], ops[k]) {
                                            (End::Good, "plain") => Ok("nothing".into()),
                                            (End::Good, _) => Ok(format!("for {k}")),
                                            _ => Err(format!("for {k}")),
                                        };
                                        let got = done[k].clone().unwrap();
                                        let same = match (&want, &got) {
                                            (Ok(a), Ok(b)) => a == b,
                                            (Err(a), Err(b)) => b.starts_with("ErrorResponse") && b.contains(&a[..]),
                                            _ => false,
                                        };
                                        if !same {
                                            return Err(format!("call {k} gave {got:?} instead of {want:?}"));
                                        }
                                    } else {
                                        seat[k] = before;
                                        made[whose[k]].sent(op(ops[k]), &arguments(op(ops[k]), k), &held.log.borrow()[before]).map_err(|m| format!("call {k}: {m}"))?;
                                    }
                                }
                                let events = hooks::end();
                                if d.config.pre.is_some() {
                                    let started: Vec<Option<u64>> = order.iter().filter(|o| !o.1).map(|o| made[whose[o.0]].inner).collect();
                                    let seen: Vec<Option<u64>> = events.iter().map(|e| e.inner).collect();
                                    if started != seen {
                                        return Err(format!("the hooks were given {seen:?} instead of {started:?}"));
                                    }
                                }
                                Ok(())
                            }
                        })??;
                        c.outcome("calls in flight apart");
                        c.state(&(&d.key, style, ops, whose, ends, order));
                        c.trans(2 * n as u64);
                        Ok(())
                    })
                },
            );
        }
    });
}

pub fn run(c: &Arc<Check>, reg: &Registry) {
    let docs = cases::of("G20", c.thorough);
    let jobs: Vec<(&model::Doc, Style)> = docs.iter().flat_map(|d| d.styles.iter().map(move |s| (d, *s))).collect();
    mc_core::par(&jobs, |(d, s)| construction(c, reg, d, *s));
    c.bound(format!("{} clients; every base URL, HTTP client, generation of clones, operation and answer; all histories of {} actions on two clients", jobs.len(), if c.thorough { 6 } else { 5 }));
    c.bound(format!("two calls of any operation and {} in flight, each of a client, its clone or another, and answered, refused or given up, in every order of starts and ends", if c.thorough { "any three" } else { "the three" }));
    c.assume("What a base URL with a trailing slash, query or fragment makes of a request is left open.");
    for (d, s) in &jobs {
        if d.version == model::VERSION {
            histories(c, reg, d, *s);
            const OPS: [&str; 3] = ["plain", "full", "pages"];
            for a in OPS {
                for b in OPS {
                    flights(c, reg, d, *s, &[a, b]);
                    for x in OPS {
                        if c.thorough || [a, b, x] == OPS {
                            flights(c, reg, d, *s, &[a, b, x]);
                        }
                    }
                }
            }
        }
    }
}
