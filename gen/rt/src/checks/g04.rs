//! G04: pagination streams yield every item of every page once, in order.
use super::*;
use futures::StreamExt;
use mc_core::Chooser;
use model::{cases::body_values, Body, Content, Loc};
use peer::Answer;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum End {
    NullToken,
    NoToken,
    /// The page after those listed fails.
    Described(u16),
    Unexpected,
    Dropped,
    Cut,
    Invalid,
}
use End::*;

const TOKENS: [&str; 4] = [" t/1&é=%2B+\t ", "", "same", "same"];

fn item(kind: &str, n: usize) -> Value {
    match kind {
        "numbers" => (n as i64 - 1).into(),
        "inline" | "labels" => format!("item{n} \"é").into(),
        _ => serde_json::json!({"name": format!("n{n}")}),
    }
}

/// Pages of a history: the items of each, then how it ends.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct History {
    sizes: Vec<usize>,
    end: End,
}

fn histories(thorough: bool) -> Vec<History> {
    let (max, width) = if thorough { (4, 4) } else { (3, 3) };
    let mut sizes: Vec<Vec<usize>> = vec![vec![]];
    let mut all = vec![vec![]];
    for _ in 0..max {
        sizes = sizes.iter().flat_map(|s| (0..width).map(move |n| [&s[..], &[n]].concat())).collect();
        all.extend(sizes.clone());
    }
    let mut out = vec![];
    for s in all {
        for end in [NullToken, NoToken, Described(404), Described(500), Unexpected, Dropped, Cut, Invalid] {
            if s.is_empty() && matches!(end, NullToken | NoToken) {
                continue;
            }
            out.push(History { sizes: s.clone(), end });
        }
    }
    out
}

fn script(kind: &str, h: &History) -> Vec<Answer> {
    let mut n = 0;
    let mut out = vec![];
    let failing = !matches!(h.end, NullToken | NoToken);
    for (i, k) in h.sizes.iter().enumerate() {
        let items: Vec<Value> = (0..*k).map(|j| item(kind, n + j)).collect();
        n += k;
        let mut page = serde_json::json!({"items": items});
        if i + 1 < h.sizes.len() || failing {
            page["next_page"] = TOKENS[i].into();
        } else if h.end == NullToken {
            page["next_page"] = Value::Null;
        }
        out.push(Answer::json(200, &page));
    }
    match h.end {
        NullToken | NoToken => {}
        Described(s) => out.push(Answer::json(s, &serde_json::json!({"message": "m"}))),
        Unexpected => out.push(Answer::new(302, &[], b"no")),
        Dropped => out.push(Answer::raw("")),
        Cut => out.push(Answer::raw("HTTP/1.1 200 R\r\ncontent-length: 100\r\n\r\n{\"items\":[")),
        Invalid => out.push(Answer::new(200, &[], b"{\"items\":3}")),
    }
    out
}

fn error_ok(end: End, out: &Out) -> bool {
    match end {
        NullToken | NoToken => false,
        Described(s) => out.kind == Kind::ErrorResponse && out.status == Some(s) && matches!(&out.shown, Shown::Json(v) if v["message"] == "m"),
        Unexpected => out.kind == Kind::Unexpected && out.status == Some(302) && matches!(&out.shown, Shown::Bytes(b, true) if b == b"no"),
        Dropped => out.kind == Kind::Communication,
        Cut => out.kind == Kind::ResponseBody,
        Invalid => out.kind == Kind::InvalidPayload,
    }
}

/// What the consumer saw: items with the number of requests made so far.
struct Seen {
    items: Vec<(Value, usize)>,
    error: Option<Out>,
    ended: bool,
    /// Requests made when it stopped.
    requests: usize,
    before: usize,
}

fn one(c: &Check, e: &Entry, op: &model::Op, args: &Args, input: &Input, h: &History, stop: Option<usize>, token0: Option<&str>) -> Result<(), String> {
    let kind = &op.id;
    let Some(start) = e.stream else { return Err("the operation is not offered as a stream".into()) };
    peer::with(|p| {
        let (got, seen) = p.watch(&script(kind, h), |log| {
            let env = p.env_at("/b");
            let input = input.clone();
            async move {
                let mut s = start(&env, &input)?;
                for _ in 0..3 {
                    tokio::task::yield_now().await;
                }
                let mut seen = Seen { items: vec![], error: None, ended: false, requests: 0, before: log.borrow().len() };
                while stop != Some(seen.items.len()) {
                    match s.next().await {
                        None => {
                            seen.ended = true;
                            break;
                        }
                        Some(Ok(v)) => {
                            tokio::task::yield_now().await;
                            let n = log.borrow().len();
                            seen.items.push((v, n));
                        }
                        Some(Err(e)) => {
                            seen.error = Some(e);
                            seen.ended = s.next().await.is_none();
                            break;
                        }
                    }
                }
                for _ in 0..3 {
                    tokio::task::yield_now().await;
                }
                seen.requests = log.borrow().len();
                Ok::<_, String>(seen)
            }
        })?;
        let seen = seen.map_err(|m| format!("the arguments do not fit the interface: {m}"))?;
        if seen.before != 0 {
            return Err("a page was requested before anything was consumed".into());
        }
        // Items, each not before its page and with no later page requested.
        let total: usize = h.sizes.iter().sum();
        let want_items = stop.unwrap_or(total).min(total);
        let mut page_of = vec![];
        for (i, k) in h.sizes.iter().enumerate() {
            page_of.extend(std::iter::repeat_n(i, *k));
        }
        if seen.items.len() != want_items {
            return Err(format!("{} items were delivered instead of {want_items}", seen.items.len()));
        }
        for (i, (v, n)) in seen.items.iter().enumerate() {
            let mut v = v.clone();
            if let Some(o) = v.as_object_mut() {
                o.retain(|_, x| !x.is_null() && *x != serde_json::json!([]));
            }
            if v != item(kind, i) {
                return Err(format!("item {i} is {v} instead of {}", item(kind, i)));
            }
            if *n != page_of[i] + 1 {
                return Err(format!("when item {i} of page {} was delivered, {n} pages had been requested", page_of[i]));
            }
        }
        let failing = !matches!(h.end, NullToken | NoToken);
        let exhausted = stop.is_none_or(|s| s > total);
        let want_requests = if exhausted {
            h.sizes.len() + failing as usize
        } else {
            // Up to the page of the last item consumed.
            if want_items == 0 { 0 } else { page_of[want_items - 1] + 1 }
        };
        if exhausted {
            match (&seen.error, failing) {
                (None, false) => {}
                (Some(x), true) if error_ok(h.end, x) => {}
                (x, _) => return Err(format!("the stream should have ended with {:?} but ended with {x:?}", h.end)),
            }
            if !seen.ended {
                return Err("the stream goes on after its end".into());
            }
            c.outcome(if failing { "ended with the error" } else { "all items delivered" });
        } else {
            c.outcome("stopped by the consumer");
        }
        if seen.requests != want_requests || got.len() != want_requests {
            return Err(format!("{} pages were requested (then {}) instead of {want_requests}", seen.requests, got.len()));
        }
        for (i, r) in got.iter().enumerate() {
            let mut a = args.clone();
            if i == 0 {
                a.remove("page_token");
                if let Some(t) = token0 {
                    a.insert("page_token".into(), t.into());
                }
            } else {
                for q in op.params.iter().filter(|q| q.loc == Loc::Query && q.name != "limit") {
                    a.remove(&q.key);
                }
                a.insert("page_token".into(), TOKENS[i - 1].into());
            }
            model::check(op, &op.want("/b", &a).unwrap(), r, false).map_err(|m| format!("request {i}: {m}"))?;
        }
        Ok(())
    })
}

pub fn run(c: &Arc<Check>, reg: &Registry) {
    let ops = operations("G04", c.thorough);
    let hs = histories(c.thorough);
    let mut jobs = vec![];
    for (d, op, style) in &ops {
        assert!(op.responses.iter().any(|r| matches!(r.1, Content::Json(_))));
        for h in &hs {
            jobs.push((d, op, *style, h));
        }
    }
    mc_core::par(&jobs, |(d, op, style, h)| {
        let Some(e) = reg.find(&d.key, *style, &op.id) else {
            c.fail(&format!("{} {style:?}", op.id), "the operation is missing from the generated client");
            return;
        };
        c.state(&(&op.id, *style, *h));
        let total: usize = h.sizes.iter().sum();
        mc_core::explore(c, |ch: &mut Chooser| {
            // Optional parameters given or not; where the consumer stops.
            let mut args = Args::new();
            for p in &op.params {
                if p.name == "page_token" {
                    continue;
                }
                let v: Value = match &p.name[..] {
                    "limit" => 2.into(),
                    "zz" => "b c".into(),
                    "mm" => serde_json::json!(["a", "b"]),
                    "page" | "H-Opt" => 7.into(),
                    n => format!("{n}/é &").into(),
                };
                // All optional parameters together, the limit on its own.
                if p.required || p.name == "limit" || c.thorough {
                    if p.required || ch.flag() {
                        args.insert(p.key.clone(), v);
                    }
                } else {
                    args.insert(p.key.clone(), v);
                }
            }
            if op.body != Body::None {
                args.insert("body".into(), body_values(&op.body).last().unwrap().clone());
            }
            let mut input = Input::of(&args);
            // A builder may be given a page token to begin with.
            let token0 = (*style != Style::Positional && ch.flag()).then_some("begin");
            if let Some(t) = token0 {
                let at = ch.choose(2) * input.steps.len();
                input.steps.insert(at, Step::Set("page_token".into(), Given::Value(t.into())));
            }
            let stop = ch.choose(total + 2);
            let stop = (stop <= total).then_some(stop);
            c.case(
                || format!("{style:?} {} {h:?} args={} token={token0:?} stop={stop:?}", op.id, serde_json::json!(args)),
                || one(c, e, op, &args, &input, h, stop, token0),
            );
        });
    });
    // A builder that cannot be sent yields exactly that error.
    for (d, op, style) in &ops {
        let Some(e) = reg.find(&d.key, *style, &op.id) else { continue };
        if *style == Style::Positional || !op.params.iter().any(|p| p.required) {
            continue;
        }
        c.case(
            || format!("{style:?} {} incomplete", op.id),
            || {
                peer::with(|p| {
                    let start = e.stream.ok_or("not offered as a stream")?;
                    let (got, r) = p.run(&[], async {
                        let mut s = start(&p.env(), &Input::default())?;
                        let a = s.next().await;
                        let b = s.next().await;
                        Ok::<_, String>((a, b.is_none()))
                    })?;
                    let (a, end) = r?;
                    if !got.is_empty() || !end || !matches!(&a, Some(Err(o)) if o.kind == Kind::InvalidRequest) {
                        return Err(format!("{} requests, first item {a:?}, then end: {end}", got.len()));
                    }
                    c.outcome("refused by the builder");
                    Ok(())
                })
            },
        );
    }
    c.bound(format!("{} paginated operations (path, query, header parameters and bodies, page types) in three styles; {} server histories (up to {} pages of up to {} items, ending in 2 ways or failing at any page in 6); every consumer stopping point; limit given or not", ops.len() / 3, hs.len(), if c.thorough { 4 } else { 3 }, if c.thorough { 3 } else { 2 }));
    c.assume("The consumer polls one item at a time on one thread.");
}
