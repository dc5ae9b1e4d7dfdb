//! G15: websocket operations perform the upgrade handshake.
use super::g03::{answer, judge, BodyKind};
use super::*;
use peer::{Answer, Then};
use std::collections::HashSet;
use std::sync::Mutex;
use tokio::io::{AsyncReadExt, AsyncWriteExt};

const UPGRADE: &str = "connection: upgrade\r\nupgrade: websocket\r\nsec-websocket-accept: x\r\nx-k: 1\r\nx-k: two\r\n";

fn switch(before: &str, headers: &str, early: &str) -> Answer {
    Answer { raw: format!("{before}HTTP/1.1 101 Switching Protocols\r\n{headers}\r\n{early}").into_bytes(), then: Then::Echo }
}

pub fn run(c: &Arc<Check>, reg: &Registry) {
    let ops = operations("G15", c.thorough);
    let keys: Mutex<HashSet<String>> = Default::default();
    let near: Vec<u16> = vec![200, 201, 204, 226, 299, 300, 302, 304, 399, 400, 404, 426, 499, 500, 503, 599, 600, 999];
    mc_core::par(&ops, |(d, op, style)| {
        let Some(e) = reg.find(&d.key, *style, &op.id) else {
            c.fail(&format!("{} {style:?} {}", d.key, op.id), "the operation is missing from the generated client");
            return;
        };
        let about = |what: String| format!("{style:?} {} responses={:?} {what}", op.id, op.responses.iter().map(|r| (&r.0, &r.1)).collect::<Vec<_>>());
        // A key of a request; no two are the same.
        let fresh = |r: &Received| {
            let key = r.header("sec-websocket-key").concat();
            if !keys.lock().unwrap().insert(key.clone()) {
                return Err(format!("the key {key:?} was sent before"));
            }
            Ok(())
        };
        // 1. Arguments.
        let values = |p: &model::Param| -> Vec<Option<Value>> {
            let v: Vec<Value> = match p.schema["type"].as_str() {
                Some("integer") => vec![0.into(), (-7).into()],
                Some("array") => vec![serde_json::json!([]), serde_json::json!(["b", "a&=", "b"])],
                _ if p.loc == model::Loc::Header => vec!["".into(), "é /".into(), "a\nb".into()],
                _ => vec!["".into(), "a/b?%2F é".into()],
            };
            let none = (!p.required).then_some(None);
            none.into_iter().chain(v.into_iter().map(Some)).collect()
        };
        let mut xs: Vec<_> = op.params.iter().map(|p| (p.key.clone(), values(p))).collect();
        if op.body != model::Body::None {
            xs.push(("body".into(), cases::body_values(&op.body).into_iter().map(Some).collect()));
        }
        let args_all = combos(&xs);
        for (n, args) in args_all.iter().enumerate() {
            // Every answer to the first arguments; the upgrade to each.
            let prefix = ["", "/base"][n % 2];
            let early = ["", "hi", "\u{0}é\r\n\r\n"][n % 3];
            c.trans(1);
            c.state(&(&op.id, args.iter().map(|(k, v)| format!("{k}={v}")).collect::<Vec<_>>()));
            c.case(
                || about(format!("base={prefix:?} args={} early={early:?}", serde_json::json!(args))),
                || {
                    peer::with(|p| {
                        let env = p.env_at(prefix);
                        let input = Input::of(args);
                        let fut = async {
                            let out = (e.call)(&env, &input).await?;
                            if out.kind != Kind::Ok {
                                return Ok((out, vec![]));
                            }
                            let Shown::Upgraded(mut u) = out.shown else { return Err(format!("101 gave {out:?}")) };
                            let mut seen = vec![];
                            for chunk in [&b"one"[..], b"\x00\xff two", b""] {
                                u.write_all(chunk).await.map_err(|e| format!("writing: {e}"))?;
                                u.flush().await.map_err(|e| format!("flushing: {e}"))?;
                                let want = if seen.is_empty() { early.len() } else { 0 } + chunk.len();
                                let mut b = vec![0; want];
                                u.read_exact(&mut b).await.map_err(|e| format!("reading: {e}"))?;
                                seen.extend(b);
                            }
                            u.shutdown().await.map_err(|e| format!("closing: {e}"))?;
                            u.read_to_end(&mut seen).await.map_err(|e| format!("reading to the end: {e}"))?;
                            Ok((Out { shown: Shown::None, ..out }, seen))
                        };
                        let (got, r) = p.run(&[switch("", UPGRADE, early)], fut)?;
                        let (out, seen) = r?;
                        match op.want(prefix, args) {
                            Err(why) => {
                                if !got.is_empty() || out.kind != Kind::InvalidRequest {
                                    return Err(format!("{why}, but {} requests were sent and the call gave {out:?}", got.len()));
                                }
                                c.outcome("refused before sending");
                            }
                            Ok(w) => {
                                if got.len() != 1 {
                                    return Err(format!("{} requests were sent, the call gave {out:?}", got.len()));
                                }
                                model::check(op, &w, &got[0], true)?;
                                fresh(&got[0])?;
                                if out.kind != Kind::Ok || out.status != Some(101) {
                                    return Err(format!("101 gave {out:?}"));
                                }
                                let k: Vec<&[u8]> = out.headers.iter().filter(|h| h.0 == "x-k").map(|h| &h.1[..]).collect();
                                if k != [&b"1"[..], b"two"] {
                                    return Err(format!("101: headers {:?}", out.headers));
                                }
                                if seen != [early.as_bytes(), b"one\x00\xff two"].concat() {
                                    return Err(format!("the upgraded connection carried {:?}", String::from_utf8_lossy(&seen)));
                                }
                                c.outcome("upgraded");
                            }
                        }
                        Ok(())
                    })
                },
            );
        }
        // 2. Answers.
        let Some(args) = args_all.iter().find(|a| op.want("", a).is_ok()) else { return };
        let one = |what: &str, a: Answer, decide: &dyn Fn(Out) -> Result<&'static str, String>| {
            c.trans(1);
            c.state(&(&op.id, what));
            c.case(
                || about(what.to_string()),
                || {
                    peer::with(|p| {
                        let (got, out) = p.run(&[a.clone()], (e.call)(&p.env(), &Input::of(args)))?;
                        let out = out?;
                        if got.len() != 1 {
                            return Err(format!("{} requests instead of one", got.len()));
                        }
                        model::check(op, &op.want("", args)?, &got[0], true)?;
                        fresh(&got[0])?;
                        c.outcome(decide(out)?);
                        Ok(())
                    })
                },
            );
        };
        let status = |s: u16, b: BodyKind| one(&format!("status={s} body={b:?}"), answer(s, b), &|out| judge(op, s, b, &out));
        for s in 200..=999 {
            status(s, BodyKind::Both);
        }
        for s in &near {
            for b in [BodyKind::ErrBody, BodyKind::Garbage, BodyKind::Empty, BodyKind::Cut] {
                status(*s, b);
            }
        }
        status(200, BodyKind::NoAnswer);
        status(200, BodyKind::BadHead);
        let upgraded = |out: Out| match out.shown {
            Shown::Upgraded(_) if out.kind == Kind::Ok && out.status == Some(101) => Ok("upgraded"),
            _ => Err(format!("101 gave {out:?}")),
        };
        one("100 then 101", switch("HTTP/1.1 100 Continue\r\n\r\n", UPGRADE, ""), &upgraded);
        one("103 twice then 101", switch("HTTP/1.1 103 Early Hints\r\nlink: a\r\n\r\nHTTP/1.1 103 Early Hints\r\n\r\n", UPGRADE, ""), &upgraded);
        one("200 with upgrade headers", Answer::raw(format!("HTTP/1.1 200 OK\r\n{UPGRADE}content-length: 4\r\n\r\nbody")), &|out| match &out.shown {
            Shown::Bytes(b, true) if out.kind == Kind::Unexpected && out.status == Some(200) && b == b"body" => Ok("unexpected"),
            _ => Err(format!("200 gave {out:?}")),
        });
    });
    c.bound(format!(
        "{} websocket operations: 17 sets of described responses x 16 sets of parameters and bodies ({}), in each style; every combination of 2 or 3 values per argument, each upgraded and used both ways; every status 200..=999, 18 statuses x 4 bodies and faults, interim responses",
        ops.len(),
        if c.thorough { "all" } else { "each at least once" }
    ));
    c.assume("Distinctness of the keys is observed over the requests of one run; that they cannot be guessed is not decided.");
}
