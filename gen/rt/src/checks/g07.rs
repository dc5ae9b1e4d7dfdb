//! G07: any documented name becomes usable code without changing the wire.
use super::*;
use futures::StreamExt;
use model::{cases::body_values, Body};

fn arguments(op: &model::Op, optional: bool) -> Args {
    let mut a = Args::new();
    for (i, p) in op.params.iter().enumerate() {
        if (p.required || optional) && p.key != "page_token" {
            a.insert(p.key.clone(), format!("v{i}/é {}", p.key).into());
        }
    }
    if op.body != Body::None {
        a.insert("body".into(), body_values(&op.body).remove(0));
    }
    if matches!(op.body, Body::Octet | Body::Text(_)) {
        a.insert("body".into(), "the body".into());
    }
    a
}

fn socket(op: &model::Op) -> bool {
    op.more.iter().any(|m| m.0 == "x-dropshot-websocket")
}

fn pages(c: &Check, e: &Entry, op: &model::Op, args: &Args) -> Result<(), String> {
    let Some(start) = e.stream else { return Err("the operation is not offered as a stream".into()) };
    peer::with(|p| {
        let page = |next: Value| peer::Answer::json(200, &serde_json::json!({"items": [{"name": "n"}], "next_page": next}));
        let (got, r) = p.run(&[page("next".into()), page(Value::Null)], async {
            let mut s = start(&p.env(), &Input::of(args))?;
            let mut n = 0;
            while let Some(x) = s.next().await {
                x.map_err(|e| format!("{e:?}"))?;
                n += 1;
            }
            Ok::<_, String>(n)
        })?;
        if r? != 2 || got.len() != 2 {
            return Err(format!("{} requests for two pages", got.len()));
        }
        for (i, r) in got.iter().enumerate() {
            let mut a = args.clone();
            if i > 0 {
                for q in op.params.iter().filter(|q| q.loc == model::Loc::Query) {
                    if q.name == "page_token" {
                        a.insert(q.key.clone(), "next".into());
                    } else if q.name != "limit" {
                        a.remove(&q.key);
                    }
                }
            }
            model::check(op, &op.want("", &a).unwrap(), r, false).map_err(|m| format!("page {i}: {m}"))?;
        }
        c.outcome("pages");
        Ok(())
    })
}

pub fn run(c: &Arc<Check>, reg: &Registry) {
    let ops = operations("G07", c.thorough);
    mc_core::par(&ops, |(d, op, style)| {
        let names: Vec<_> = op.params.iter().map(|p| format!("{:?} {:?}", p.loc, p.name)).collect();
        let label = format!("{style:?} {} {} [{}] {:?} tags={:?}", d.key, op.id, names.join(", "), op.body, op.tags);
        c.state(&label);
        let Some(e) = reg.find(&d.key, *style, &op.id) else {
            c.fail(&label, "the operation is missing from the generated client");
            return;
        };
        let n = e.traits.len();
        let distinct: std::collections::BTreeSet<_> = op.tags.iter().collect();
        if *style == Style::Tagged && (n == 0) != distinct.is_empty() {
            c.fail(&label, &format!("offered through the traits {:?} for the tags {:?}", e.traits, op.tags));
        }
        for optional in [true, false] {
            let args = arguments(op, optional);
            for via in 0..n.max(1) {
                let mut input = Input::of(&args);
                input.via = via;
                for order in 0..2 {
                    if order == 1 {
                        if *style == Style::Positional {
                            continue;
                        }
                        input.steps.reverse();
                    }
                    c.trans(1);
                    c.case(
                        || format!("{label} optional={optional} via={via} order={order}"),
                        || {
                            if socket(op) {
                                return handshake(c, e, op, &input, &args);
                            }
                            if op.more.is_empty() {
                                return one_request(c, e, op, "/base", &input, &args, false);
                            }
                            plain_page(c, e, op, &input, &args)
                        },
                    );
                }
            }
            if op.more.iter().any(|m| m.0 == "x-dropshot-pagination") {
                c.case(|| format!("{label} optional={optional} stream"), || pages(c, e, op, &args));
            }
        }
        // Without a required parameter a builder sends nothing.
        if *style != Style::Positional {
            for p in op.params.iter().filter(|p| p.required) {
                let mut a = arguments(op, true);
                a.remove(&p.key);
                c.case(
                    || format!("{label} without {:?}", p.name),
                    || {
                        peer::with(|q| {
                            let (got, out) = q.run(&[], (e.call)(&q.env(), &Input::of(&a)))?;
                            let out = out?;
                            if !got.is_empty() || out.kind != Kind::InvalidRequest {
                                return Err(format!("{} requests, {out:?}", got.len()));
                            }
                            c.outcome("refused without a required parameter");
                            Ok(())
                        })
                    },
                );
            }
        }
    });
    c.bound(format!("{} operations: {} names x locations (path, query, header, together, with every kind of body, paginated, websocket), pairs of 25 names close to each other, names as tags", ops.len(), model::cases::names().len()));
    c.assume("Header parameters have names a header can have; arguments are told apart by their types.");
}

fn handshake(c: &Check, e: &Entry, op: &model::Op, input: &Input, args: &Args) -> Result<(), String> {
    peer::with(|p| {
        let (got, out) = p.run(&[peer::Answer::new(101, &[("connection", "upgrade"), ("upgrade", "websocket")], b"")], (e.call)(&p.env(), input))?;
        let out = out?;
        if got.len() != 1 || out.kind != Kind::Ok {
            return Err(format!("{} requests, {out:?}", got.len()));
        }
        model::check(op, &op.want("", args).unwrap(), &got[0], true)?;
        c.outcome("handshake");
        Ok(())
    })
}

fn plain_page(c: &Check, e: &Entry, op: &model::Op, input: &Input, args: &Args) -> Result<(), String> {
    peer::with(|p| {
        let (got, out) = p.run(&[peer::Answer::json(200, &serde_json::json!({"items": []}))], (e.call)(&p.env(), input))?;
        let out = out?;
        if got.len() != 1 || out.kind != Kind::Ok {
            return Err(format!("{} requests, {out:?}", got.len()));
        }
        model::check(op, &op.want("", args).unwrap(), &got[0], false)?;
        c.outcome("one page");
        Ok(())
    })
}
