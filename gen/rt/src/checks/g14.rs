//! G14: mocks match exactly the requests the client sends.
use super::g03::classify;
use super::*;
use httpmock::HttpMockRequest;
use peer::Answer;
use serde_json::json;

/// What a mock of `httpmock` gets to see of a request.
fn seen(r: &Received) -> HttpMockRequest {
    let headers = r.headers.iter().map(|(n, v)| (n.clone(), String::from_utf8_lossy(v).into_owned())).collect();
    HttpMockRequest::new(&r.method, &r.target, headers, r.body.clone())
}

fn values(d: &model::Doc, op: &model::Op, p: &model::Param) -> Vec<Option<Value>> {
    let mut v: Vec<Option<Value>> = if p.required { vec![] } else { vec![None] };
    let of = |v: Value| v.as_array().unwrap().iter().cloned().map(Some).collect::<Vec<_>>();
    if d.key == "hard" && op.id != "path" {
        let t = p.schema["format"] == "date-time";
        v.push(Some(if t { json!("2020-02-29T23:59:59Z") } else if p.schema["type"] == "number" { json!(3.0) } else { json!("a") }));
    } else if op.id.starts_with("wide") {
        // (few: all sets of given ones are tried)
        v.extend(of(if p.required && p.name.as_str() < "p4" || p.required && p.loc != model::Loc::Path { json!(["a", "b"]) } else { json!(["a"]) }));
    } else if p.schema == json!({"type": "string"}) {
        v.extend(of(match p.loc {
            _ if d.key == "hard" && op.id == "path" => json!(["a", "a b", "a.b", "axb", "é", "a/b", "(x)", "50%", "[a]"]),
            model::Loc::Path => json!(["a", "b", "A1", "aa", "a_~0"]),
            model::Loc::Query => json!(["", "a", " a ", "a&b=c %é", "A"]),
            model::Loc::Header => json!(["", "a"]),
        }));
    } else {
        let t = model::types().into_iter().find(|t| t.schema == p.schema).unwrap();
        v.extend(t.values.into_iter().map(Some));
    }
    v
}

fn bodies(op: &model::Op, hard: bool) -> Vec<Value> {
    match &op.body {
        model::Body::Octet if !hard => vec![json!({"a": [1, "é"]}), json!({"a": [1]}), json!([])],
        model::Body::Octet => vec![json!("raw")],
        b => cases::body_values(b),
    }
}

pub fn run(c: &Arc<Check>, reg: &Registry) {
    let ops = operations("G14", c.thorough);
    // Arguments of the operations and the requests they make.
    let all: Mutex<std::collections::BTreeMap<usize, Vec<(Args, Received)>>> = Default::default();
    let order: Vec<usize> = (0..ops.len()).collect();
    mc_core::par(&order, |&n| {
        let (d, op, style) = &ops[n];
        let Some(e) = reg.find(&d.key, *style, &op.id) else {
            c.fail(&format!("{} {style:?} {}", d.key, op.id), "the operation is missing from the generated client");
            return;
        };
        let hard = d.key == "hard";
        let mut xs: Vec<_> = op.params.iter().map(|p| (p.key.clone(), values(d, op, p))).collect();
        if op.body != model::Body::None {
            xs.push(("body".into(), bodies(op, hard).into_iter().map(Some).collect()));
        }
        for args in combos(&xs) {
            c.trans(1);
            c.case(
                || format!("send {style:?} {} {}", op.id, json!(args)),
                || {
                    let (got, _) = peer::with(|p| p.run(&[], (e.call)(&p.env(), &Input::of(&args))))?;
                    let [r] = &got[..] else { return Err(format!("{} requests were sent", got.len())) };
                    all.lock().unwrap().entry(n).or_default().push((args.clone(), r.clone()));
                    Ok(())
                },
            );
        }
    });
    let all = all.into_inner().unwrap();
    let same = |a: &Args, b: &Args, k: &str| a.get(k).unwrap_or(&Value::Null) == b.get(k).unwrap_or(&Value::Null);
    mc_core::par(&order, |&n| {
        let (d, op, style) = &ops[n];
        let (Some(mine), Some(e)) = (all.get(&n), reg.find(&d.key, *style, &op.id)) else { return };
        let Some(mock) = &e.mock else {
            c.fail(&format!("{} {style:?} {}", d.key, op.id), "the operation has no mock");
            return;
        };
        // Which parameters are given, and as what.
        let keys: Vec<&str> = mock.when.iter().map(|w| w.0).collect();
        let known: Vec<String> = op.params.iter().map(|p| p.key.clone()).chain((op.body != model::Body::None).then(|| "body".to_string())).collect();
        c.case(
            || format!("matchers of {style:?} {}", op.id),
            || {
                let mut a: Vec<&str> = known.iter().map(|k| &k[..]).collect();
                let mut b = keys.clone();
                a.sort();
                b.sort();
                if a != b {
                    return Err(format!("the mock has matchers for {b:?} instead of {a:?}"));
                }
                Ok(())
            },
        );
        let mut sets: Vec<Args> = vec![];
        for (a, _) in mine {
            for m in 0..1u32 << keys.len() {
                let given: Args = keys
                    .iter()
                    .enumerate()
                    .filter(|(i, _)| m & (1 << i) != 0)
                    .map(|(_, k)| (k.to_string(), a.get(*k).cloned().unwrap_or(Value::Null)))
                    .collect();
                if !sets.contains(&given) {
                    sets.push(given);
                }
            }
        }
        for given in &sets {
            c.state(&("given", &op.id, json!(given).to_string()));
            c.case(
                || format!("mock {style:?} {} given {}", op.id, json!(given)),
                || {
                    let m = (mock.make)(given, None)?;
                    for (args, r) in mine {
                        c.trans(1);
                        let want = given.keys().all(|k| same(given, args, k));
                        let got = m.matches(&seen(r));
                        if want != got {
                            return Err(format!("the mock {} the request for {}: {} {} {:?}", if got { "matches" } else { "does not match" }, json!(args), r.method, r.target, String::from_utf8_lossy(&r.body)));
                        }
                        c.outcome(if got { "matched" } else { "told apart" });
                    }
                    Ok(())
                },
            );
        }
        // Requests of other operations, and changed ones.
        c.case(
            || format!("mock {style:?} {} and other requests", op.id),
            || {
                let m = (mock.make)(&Args::new(), None)?;
                for (o, reqs) in &all {
                    let (od, oop, ostyle) = &ops[*o];
                    if *o == n || ostyle != style {
                        continue;
                    }
                    for (_, r) in reqs {
                        // A literal path can be a value of another's parameter.
                        let fits = oop.method == op.method && fits(&op.path, r);
                        let got = m.matches(&seen(r));
                        c.trans(1);
                        if got != fits {
                            return Err(format!("the mock {} the request of {} {}: {} {}", if got { "matches" } else { "does not match" }, od.key, oop.id, r.method, r.target));
                        }
                    }
                }
                for (_, r) in mine {
                    let path = r.target.split('?').next().unwrap().to_string();
                    let mut others = vec![];
                    for m in cases::METHODS.iter().map(|m| m.to_uppercase()).filter(|m| *m != r.method) {
                        others.push(Received { method: m, ..r.clone() });
                    }
                    others.push(Received { target: r.target.replacen(&path, &format!("{path}/x"), 1), ..r.clone() });
                    others.push(Received { target: format!("/x/y{}", r.target), ..r.clone() });
                    for o in others {
                        let fits = fits(&op.path, &o) && o.method == r.method;
                        if m.matches(&seen(&o)) != fits {
                            return Err(format!("the mock of {} {} {} {} {}", op.method, op.path, if fits { "does not match" } else { "matches" }, o.method, o.target));
                        }
                        c.outcome("other requests told apart");
                    }
                }
                Ok(())
            },
        );
        // Answers.
        let thing = json!({"name": "n"});
        let err = json!({"message": "m"});
        for (name, ranged) in mock.then {
            for status in 200..=599u16 {
                if !ranged && status > 200 {
                    break;
                }
                // One value fits whatever is described.
                let cands = [thing.clone(), err.clone(), json!([thing]), Value::Null];
                c.case(
                    || format!("answer {style:?} {} {name} {}", op.id, if *ranged { status } else { 0 }),
                    || {
                        let made: Vec<_> = cands
                            .iter()
                            .map(|v| mc_core::quietly(|| (mock.make)(&Args::new(), Some((name, status, v.clone())))))
                            .collect();
                        // What the answer stands for.
                        let describes = |key: &str| match (&key[..1], *ranged) {
                            ("1", true) => *name == "informational",
                            ("2", true) if key == "2XX" => *name == "success",
                            ("3", true) => *name == "redirect",
                            ("4", true) => *name == "client_error",
                            ("5", true) => *name == "server_error",
                            ("d", true) => *name == "default_response",
                            _ => false,
                        };
                        let range_ok = match *name {
                            "informational" => status / 100 == 1,
                            "success" => status / 100 == 2,
                            "redirect" => status / 100 == 3,
                            "client_error" => status / 100 == 4,
                            "server_error" => status / 100 == 5,
                            _ => true,
                        };
                        if *ranged && !range_ok {
                            if made.iter().any(|m| matches!(m, Ok(Ok(_)))) {
                                return Err("a status outside the range is accepted".into());
                            }
                            c.outcome("status outside the range refused");
                            return Ok(());
                        }
                        let mut good = 0;
                        for (v, m) in cands.iter().zip(made) {
                            let Ok(Ok(m)) = m else { continue };
                            good += 1;
                            let st = m.response.status.ok_or("no status")?;
                            if *ranged && st != status {
                                return Err(format!("status {st} instead of {status}"));
                            }
                            let content = if *ranged {
                                op.responses.iter().find(|r| describes(&r.0)).map(|r| r.1.clone())
                            } else {
                                op.responses.iter().find(|r| r.0 == st.to_string()).map(|r| r.1.clone())
                            };
                            let undescribed = !op.responses.iter().any(|r| r.0.starts_with('2') || r.0 == "default");
                            let content = match content {
                                Some(x) => x,
                                None if undescribed && *name == "success" => model::Content::Raw,
                                None => return Err(format!("an answer with status {st} that is not described")),
                            };
                            // The client takes it for what it stands for.
                            let (class, as_) = classify(op, st);
                            if as_ != content && class != "unexpected" {
                                c.outcome("described otherwise by a closer match");
                                continue;
                            }
                            let hs: Vec<(&str, &str)> = m.response.headers.iter().map(|(a, b)| (&a[..], &b[..])).chain([("x-k", "1"), ("x-k", "two")]).collect();
                            let (_, out) = peer::with(|p| p.run(&[Answer::new(st, &hs, &m.response.body)], (e.call)(&p.env(), &Input::of(&mine[0].0))))?;
                            let out = out?;
                            let shown = match (&out.shown, class, &content) {
                                (Shown::Json(x), "success" | "error", model::Content::Json(_)) => {
                                    let mut x = x.clone();
                                    strip(&mut x);
                                    if x != *v {
                                        return Err(format!("the mocked {v} comes out as {x}"));
                                    }
                                    true
                                }
                                (Shown::None, "success" | "error", model::Content::None) => true,
                                (Shown::Bytes(b, true), _, _) if status == 204 || st == 304 || st == 204 => b.is_empty(),
                                (Shown::Bytes(b, true), _, model::Content::None) => b.is_empty(),
                                (Shown::Bytes(b, true), _, _) => serde_json::from_slice::<Value>(b).is_ok_and(|x| x == *v),
                                _ => st == 204 || st == 304,
                            };
                            let kind = match class {
                                "success" => Kind::Ok,
                                "error" => Kind::ErrorResponse,
                                _ => Kind::Unexpected,
                            };
                            let bodiless = (st == 204 || st == 304) && matches!(content, model::Content::Json(_));
                            if !shown || out.kind != kind && !bodiless || out.status != Some(st) && !bodiless {
                                return Err(format!("the mocked answer {st} with {v} comes out as {out:?}"));
                            }
                            c.outcome(class);
                            c.state(&("answer", &op.id, name, st));
                        }
                        if good == 0 {
                            return Err("no answer can be given".into());
                        }
                        Ok(())
                    },
                );
            }
        }
        // Every described response can be given.
        c.case(
            || format!("answers of {style:?} {}", op.id),
            || {
                let want = op.responses.len() + !op.responses.iter().any(|r| r.0.starts_with('2') || r.0 == "default") as usize;
                if mock.then.len() != want {
                    return Err(format!("{} answers for {want} responses: {:?}", mock.then.len(), mock.then));
                }
                Ok(())
            },
        );
    });
    // Mocks that do not compile.
    for d in cases::broken("G14") {
        c.case(
            || format!("compile {}", d.key),
            || {
                let at = mc_core::verif_dir().join(format!("target/exec/G14/broken-{}", d.key));
                let st = std::fs::read_to_string(at.join("status")).unwrap_or_default();
                if st.trim() != "0" {
                    let log = std::fs::read_to_string(at.join("log")).unwrap_or_default();
                    return Err(log.lines().find(|l| l.starts_with("error")).unwrap_or("no result").to_string());
                }
                Ok(())
            },
        );
    }
    c.bound(format!(
        "{} operations; for each every combination of 2 to 5 values per parameter as request, every subset of the parameters of each as expectation, all pairs; the requests of all other operations; each answer with every status 200..=599",
        ops.len()
    ));
    c.assume("httpmock itself is not available offline; a stand-in with the rules of httpmock 0.7 (raw path, decoded query, JSON equality) decides whether a request matches.");
}

/// Leave out members at their defaults.
fn strip(v: &mut Value) {
    match v {
        Value::Object(o) => {
            o.retain(|_, v| !v.is_null() && *v != json!([]));
            o.values_mut().for_each(strip);
        }
        Value::Array(a) => a.iter_mut().for_each(strip),
        _ => {}
    }
}

/// Can the path of a request be an instance of a template?
fn fits(template: &str, r: &Received) -> bool {
    let ps = model::template(template).unwrap();
    fn go(ps: &[model::Piece], s: &str) -> bool {
        match ps.split_first() {
            None => s.is_empty(),
            Some((model::Piece::Lit(l), rest)) => s.strip_prefix(&l[..]).is_some_and(|s| go(rest, s)),
            Some((model::Piece::Par(_), rest)) => {
                let end = s.find('/').unwrap_or(s.len());
                (0..=end).filter(|i| s.is_char_boundary(*i)).any(|i| go(rest, &s[i..]))
            }
        }
    }
    go(&ps, r.target.split('?').next().unwrap())
}
