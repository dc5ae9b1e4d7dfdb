//! G06: hooks run once, in order, around the request they see.
use super::*;
use crate::hooks::{self, Edit, Event, EDITS, POST, POST_ASYNC, PRE, PRE_ASYNC};
use futures::StreamExt;
use mc_core::Chooser;
use model::{cases::body_values, Body};
use peer::Answer;

const SEED: &str = "p/é &";

fn arguments(op: &model::Op) -> Args {
    let mut a = Args::new();
    for p in &op.params {
        if p.required || p.name == "q" {
            a.insert(p.key.clone(), SEED.into());
        }
    }
    if op.body != Body::None {
        a.insert("body".into(), body_values(&op.body).last().unwrap().clone());
    }
    if op.id == "octet" {
        a.insert("body".into(), "\u{0}raw".into());
    }
    if op.id == "pages" {
        a.insert("limit".into(), 3.into());
    }
    a
}

/// Answers with what each should be to a call without hooks.
fn answers(op: &model::Op) -> Vec<(&'static str, Answer, Kind)> {
    let (status, ok) = success(op);
    let mut out = vec![];
    if op.id == "socket" {
        out.push(("switched", Answer::new(101, &[("connection", "upgrade"), ("upgrade", "websocket"), ("x-a", "1")], b""), Kind::Ok));
        out.push(("a success", Answer::new(200, &[], b"x"), Kind::Unexpected));
    } else if op.id == "pages" {
        out.push(("ok", Answer::json(200, &serde_json::json!({"items": [{"name": "n"}]})), Kind::Ok));
    } else {
        let _ = status;
        out.push(("ok", ok, Kind::Ok));
    }
    if op.id != "socket" {
        out.push(("described error", Answer::json(404, &serde_json::json!({"message": "m"})), Kind::ErrorResponse));
        out.push(("invalid error", Answer::new(404, &[], b"{"), Kind::InvalidPayload));
    }
    out.push(("undescribed", Answer::new(302, &[("x-b", "2"), ("x-b", "3")], b"no"), Kind::Unexpected));
    out.push(("dropped", Answer::raw(""), Kind::Communication));
    if matches!(op.id.as_str(), "full" | "form" | "pages") {
        out.push(("invalid", Answer::new(200, &[], b"[3"), Kind::InvalidPayload));
        out.push(("cut", Answer::raw("HTTP/1.1 200 R\r\ncontent-length: 9\r\n\r\n{"), Kind::ResponseBody));
    }
    out
}

fn same_request(a: &Received, b: &Received) -> Result<(), String> {
    let own = ["host", "content-length", "transfer-encoding"];
    let h = |r: &Received| {
        let mut v: Vec<(String, Vec<u8>)> =
            r.headers.iter().map(|(n, v)| (n.to_ascii_lowercase(), v.clone())).filter(|(n, v)| !own.contains(&&n[..]) && !(n == "accept" && v == b"*/*")).collect();
        v.sort();
        v
    };
    if a.method != b.method || a.target != b.target || h(a) != h(b) || a.body != b.body {
        return Err(format!("{a:?} instead of {b:?}"));
    }
    Ok(())
}

struct Case<'a> {
    op: &'a model::Op,
    bits: u32,
    args: &'a Args,
    failing: Vec<&'static str>,
    edit: Edit,
    id: u64,
}

/// The events of one request, and whether it is sent and then interpreted.
fn expected(k: &Case) -> (Vec<&'static str>, bool, bool) {
    let mut ev = vec![];
    if k.bits & 1 != 0 {
        ev.push(PRE);
    }
    if k.bits & 2 != 0 {
        ev.push(PRE_ASYNC);
        if k.failing.contains(&PRE_ASYNC) {
            return (ev, false, false);
        }
    }
    if k.bits & 4 != 0 {
        ev.push(POST);
    }
    if k.bits & 8 != 0 {
        ev.push(POST_ASYNC);
        if k.failing.contains(&POST_ASYNC) {
            return (ev, true, false);
        }
    }
    (ev, true, true)
}

/// Compare the events around request number `n` (from 0) with the model.
fn check_events(k: &Case, events: &[Event], sent: Option<&Received>, want: &model::Want, answer: &(&'static str, Answer, Kind), n: usize) -> Result<(), String> {
    let (names, _, _) = expected(k);
    let got: Vec<_> = events.iter().map(|e| e.hook).collect();
    if got != names {
        return Err(format!("the hooks ran as {got:?} instead of {names:?}"));
    }
    let inner = (k.bits & 16 != 0).then_some(k.id);
    let mut left: Option<&Received> = None;
    for e in events {
        if e.inner != inner {
            return Err(format!("{} was given the inner value {:?} instead of {inner:?}", e.hook, e.inner));
        }
        let before = e.hook == PRE || e.hook == PRE_ASYNC;
        if e.received != n + !before as usize {
            return Err(format!("when {} ran, {} requests had been received", e.hook, e.received));
        }
        if (e.hook == PRE_ASYNC || e.hook == POST_ASYNC) && !e.finished {
            return Err(format!("{} was not awaited", e.hook));
        }
        if let Some(r) = &e.request {
            model::check(k.op, want, &r.seen, k.op.id == "socket").map_err(|m| format!("{} saw an incomplete request: {m}", e.hook))?;
            if let Some(l) = left {
                same_request(&r.seen, l).map_err(|m| format!("{} saw another request than the hook before: {m}", e.hook))?;
            }
            left = Some(&r.left);
        }
        if !before {
            let ok = match (&e.result, answer.0) {
                (Some(Err(_)), "dropped") => true,
                (Some(Ok((s, h))), a) if a != "dropped" => {
                    let raw = String::from_utf8_lossy(&answer.1.raw).into_owned();
                    let head = raw.split("\r\n\r\n").next().unwrap();
                    let mut hs: Vec<(String, Vec<u8>)> = head.lines().skip(1).filter_map(|l| l.split_once(": ")).map(|(n, v)| (n.to_string(), v.as_bytes().to_vec())).collect();
                    let mut h = h.clone();
                    hs.sort();
                    h.sort();
                    h == hs && raw[9..12] == s.to_string()
                }
                _ => false,
            };
            if !ok {
                return Err(format!("{} saw the outcome {:?} ({})", e.hook, e.result, answer.0));
            }
        }
    }
    if let Some(sent) = sent {
        match left {
            Some(l) => same_request(sent, l).map_err(|m| format!("not the request the hooks saw and left was sent: {m}"))?,
            None => model::check(k.op, want, sent, k.op.id == "socket")?,
        }
    }
    Ok(())
}

fn check_out(k: &Case, out: Option<&Out>, kind: Kind, sent: bool, interpreted: bool) -> Result<(), String> {
    let want = match (sent, interpreted) {
        (false, _) => Kind::PreHook,
        (_, false) => Kind::PostHook,
        _ => kind,
    };
    let got = out.map_or(Kind::Ok, |o| o.kind);
    if got != want {
        return Err(format!("the call gave {out:?} instead of {want:?}"));
    }
    let text = match want {
        Kind::PreHook => "pre_hook_async says no",
        Kind::PostHook => "post_hook_async says no",
        _ => return Ok(()),
    };
    if !out.unwrap().text.contains(text) {
        return Err(format!("the hook's message is missing from {out:?}"));
    }
    let _ = k;
    Ok(())
}

fn single(c: &Check, e: &Entry, k: &Case, input: &Input, answer: &(&'static str, Answer, Kind)) -> Result<(), String> {
    peer::with(|p| {
        let (got, (out, events)) = p.watch(&[answer.1.clone()], |log| {
            hooks::begin(log, k.edit, &k.failing);
            let mut env = p.env_at("/b");
            env.inner.id = k.id;
            let call = (e.call)(&env, input);
            async move {
                let r = call.await;
                (r, hooks::end())
            }
        })?;
        let out = out.map_err(|m| format!("the arguments do not fit the interface: {m}"))?;
        let (_, sent, interpreted) = expected(k);
        if got.len() != sent as usize {
            return Err(format!("{} requests were sent instead of {}, the call gave {out:?}", got.len(), sent as usize));
        }
        let want = k.op.want("/b", k.args).unwrap();
        check_events(k, &events, got.first(), &want, answer, 0)?;
        check_out(k, Some(&out), answer.2, sent, interpreted)?;
        c.outcome(match (sent, interpreted) {
            (false, _) => "aborted before sending",
            (_, false) => "aborted after the outcome",
            _ => "passed through",
        });
        Ok(())
    })
}

/// A stream of pages: the hooks run around each of them.
fn stream(c: &Check, e: &Entry, k: &Case, input: &Input, pages: usize, fail_at: Option<usize>) -> Result<(), String> {
    let Some(start) = e.stream else { return Err("the operation is not offered as a stream".into()) };
    let script: Vec<(&'static str, Answer, Kind)> = (0..pages)
        .map(|i| {
            let mut v = serde_json::json!({"items": [{"name": format!("n{i}")}]});
            if i + 1 < pages {
                v["next_page"] = "same".into();
            }
            ("ok", Answer::json(200, &v), Kind::Ok)
        })
        .collect();
    peer::with(|p| {
        let raw: Vec<Answer> = script.iter().map(|s| s.1.clone()).collect();
        let (got, r) = p.watch(&raw, |log| {
            hooks::begin(log.clone(), k.edit, if fail_at == Some(0) { &k.failing } else { &[] });
            let mut env = p.env_at("/b");
            env.inner.id = k.id;
            let input = input.clone();
            async move {
                let mut s = start(&env, &input)?;
                let mut all = vec![];
                let mut items = 0;
                let mut error = None;
                loop {
                    match s.next().await {
                        None => break,
                        Some(Ok(_)) => items += 1,
                        Some(Err(x)) => {
                            error = Some(x);
                            break;
                        }
                    }
                    all.push(hooks::end());
                    // From the chosen page on the hook fails.
                    hooks::begin(log.clone(), k.edit, if fail_at.is_some_and(|f| items >= f) { &k.failing } else { &[] });
                }
                let last = hooks::end();
                if !last.is_empty() {
                    all.push(last);
                }
                Ok::<_, String>((items, error, all))
            }
        })?;
        let (items, error, all) = r?;
        let (_, sent, interpreted) = expected(k);
        let ok_pages = fail_at.unwrap_or(pages).min(pages);
        if items != ok_pages {
            return Err(format!("{items} items instead of {ok_pages}, {error:?}"));
        }
        let failing = fail_at.is_some_and(|f| f < pages);
        let requests = ok_pages + (failing && sent) as usize;
        if got.len() != requests {
            return Err(format!("{} requests were sent instead of {requests}", got.len()));
        }
        match (&error, failing) {
            (None, false) => {}
            (Some(x), true) => check_out(k, Some(x), Kind::Ok, sent, interpreted)?,
            _ => return Err(format!("the stream ended with {error:?}")),
        }
        let rounds = ok_pages + failing as usize;
        for n in 0..rounds {
            let mut a = k.args.clone();
            if n > 0 {
                a.remove("q");
                a.insert("page_token".into(), "same".into());
            }
            let want = k.op.want("/b", &a).unwrap();
            let k2 = Case { failing: if n >= ok_pages { k.failing.clone() } else { vec![] }, op: k.op, bits: k.bits, args: k.args, edit: k.edit, id: k.id };
            let none = vec![];
            check_events(&k2, all.get(n).unwrap_or(&none), got.get(n), &want, &script[n], n).map_err(|m| format!("page {n}: {m}"))?;
        }
        c.outcome("stream");
        Ok(())
    })
}

pub fn run(c: &Arc<Check>, reg: &Registry) {
    let ops = operations("G06", c.thorough);
    mc_core::par(&ops, |(d, op, style)| {
        let bits: u32 = d.key.trim_start_matches("hooks").parse().unwrap();
        let Some(e) = reg.find(&d.key, *style, &op.id) else {
            c.fail(&format!("{style:?} {} {}", d.key, op.id), "the operation is missing from the generated client");
            return;
        };
        let args = arguments(op);
        let input = Input::of(&args);
        let answers = answers(op);
        mc_core::explore(c, |ch: &mut Chooser| {
            let edit = if bits & 2 != 0 { *ch.pick(&EDITS) } else { Edit::None };
            let mut failing = vec![];
            for (b, h) in [(2, PRE_ASYNC), (8, POST_ASYNC)] {
                if bits & b != 0 && ch.flag() {
                    failing.push(h);
                }
            }
            let id = 1 + ch.choose(2) as u64;
            let k = Case { op, bits, args: &args, failing, edit, id };
            let what = ch.choose(answers.len() + if op.id == "pages" { 6 } else { 0 });
            c.state(&(bits, *style, &op.id, edit, k.failing.clone(), what));
            c.trans(1);
            if let Some(a) = answers.get(what) {
                c.case(
                    || format!("{style:?} hooks={bits:05b} {} edit={edit:?} failing={:?} inner={id} answer={}", op.id, k.failing, a.0),
                    || single(c, e, &k, &input, a),
                );
            } else {
                let n = what - answers.len();
                let (pages, fail_at) = (1 + n % 3, n / 3);
                let fail_at = if k.failing.is_empty() { None } else { Some(fail_at) };
                c.case(
                    || format!("{style:?} hooks={bits:05b} {} edit={edit:?} failing={:?} inner={id} pages={pages} from={fail_at:?}", op.id, k.failing),
                    || stream(c, e, &k, &input, pages, fail_at),
                );
            }
        });
        // A request that cannot be made is not seen by any hook.
        if op.id == "full" {
            let mut bad = args.clone();
            bad.insert("h".into(), "a\nb".into());
            let mut tries = vec![("a header that cannot be sent", Input::of(&bad))];
            if *style != Style::Positional {
                let mut i = input.clone();
                i.steps.pop();
                tries.push(("a missing parameter", i));
            }
            for (what, i) in tries {
                c.case(
                    || format!("{style:?} hooks={bits:05b} {what}"),
                    || {
                        peer::with(|p| {
                            let (got, (out, events)) = p.watch(&[], |log| {
                                hooks::begin(log, Edit::None, &[PRE_ASYNC, POST_ASYNC]);
                                let call = (e.call)(&p.env(), &i);
                                async move { (call.await, hooks::end()) }
                            })?;
                            let out = out?;
                            if !got.is_empty() || !events.is_empty() || out.kind != Kind::InvalidRequest {
                                return Err(format!("{} requests, events {events:?}, {out:?}", got.len()));
                            }
                            c.outcome("refused before any hook");
                            Ok(())
                        })
                    },
                );
            }
        }
    });
    c.bound(format!("{} operations (6 kinds in each of 32 hook configurations, path or closure); 8 edits of the asynchronous pre-hook; every set of failing hooks; every answer or transport failure of the alphabet; streams of up to 3 pages failing from any page", ops.len()));
    c.assume("Hooks run on the thread of the client; two inner values are distinguished.");
}
