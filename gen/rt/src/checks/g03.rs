//! G03: responses are classified as the document describes.
use super::*;
use model::Content;
use peer::Answer;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Class {
    Success,
    Error,
    Unexpected,
}

/// What the document says of a status.
pub fn classify(op: &model::Op, status: u16) -> (&'static str, Content) {
    let find = |s: &str| op.responses.iter().find(|r| r.0 == s).map(|r| r.1.clone());
    let range = format!("{}XX", status / 100);
    let success = (200..300).contains(&status);
    // The only success of a websocket operation is the upgrade.
    let websocket = op.more.iter().any(|m| m.0 == "x-dropshot-websocket");
    if websocket && !(400..600).contains(&status) {
        return ("unexpected", Content::None);
    }
    if success || (400..600).contains(&status) {
        let class = if success { "success" } else { "error" };
        for k in [&status.to_string()[..], &range] {
            if let Some(c) = find(k) {
                return (class, c);
            }
        }
    }
    if websocket {
        return ("unexpected", Content::None);
    }
    if let Some(c) = find("default") {
        return (if success { "success" } else { "error" }, c);
    }
    // A document that describes no success at all says nothing about its form.
    if success && !op.responses.iter().any(|r| r.0.starts_with('2')) {
        return ("success", Content::Raw);
    }
    ("unexpected", Content::None)
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum BodyKind {
    Both,
    Thing,
    ErrBody,
    Garbage,
    Empty,
    Trailing,
    Cut,
    NoAnswer,
    BadHead,
}
use BodyKind::*;

fn body(b: BodyKind) -> &'static [u8] {
    match b {
        Both => br#"{"message":"m","name":"n"}"#,
        Thing => br#"{"name":"n","size":3}"#,
        ErrBody => br#"{"message":"m"}"#,
        Garbage => b"\xff{not json",
        Trailing => br#"{"name":"n","message":"m"} x"#,
        _ => b"",
    }
}

/// The value a body denotes for a schema, with defaults left out.
fn decode(schema: &Value, b: &[u8]) -> Option<Value> {
    let v: Value = serde_json::from_slice(b).ok()?;
    let need = if *schema == model::sref("Thing") { "name" } else { "message" };
    let o = v.as_object()?;
    o.get(need)?.as_str()?;
    let keep: &[&str] = if need == "name" { &["name", "size"] } else { &["message"] };
    Some(Value::Object(o.iter().filter(|(k, _)| keep.contains(&k.as_str())).map(|(k, v)| (k.clone(), v.clone())).collect()))
}

pub fn answer(status: u16, b: BodyKind) -> Answer {
    let hs: &[(&str, &str)] = &[("x-k", "1"), ("x-k", "two"), ("content-type", "application/json")];
    match b {
        NoAnswer => Answer::raw(""),
        BadHead => Answer::raw("HTTP/9 what\r\n\r\n"),
        Cut => Answer::raw(format!("HTTP/1.1 {status} R\r\nx-k: 1\r\nx-k: two\r\ncontent-type: application/json\r\ncontent-length: 30\r\n\r\n{{\"name\":\"n\"}}")),
        b => Answer::new(status, hs, body(b)),
    }
}

/// The outcome wanted for an answer.
pub fn judge(op: &model::Op, status: u16, b: BodyKind, out: &Out) -> Result<&'static str, String> {
    if matches!(b, NoAnswer | BadHead) {
        return if out.kind == Kind::Communication { Ok("communication error") } else { Err(format!("no valid answer, but the call gave {out:?}")) };
    }
    let bodiless = status == 204 || status == 304 || status < 200;
    let bytes: &[u8] = match b {
        _ if bodiless => b"",
        Cut => br#"{"name":"n"}"#,
        b => body(b),
    };
    let cut = b == Cut && !bodiless;
    let (class, content) = classify(op, status);
    let whole = |what: &str| {
        if out.status != Some(status) {
            return Err(format!("{what}: status {:?}", out.status));
        }
        let k: Vec<&[u8]> = out.headers.iter().filter(|h| h.0 == "x-k").map(|h| &h.1[..]).collect();
        if k != [&b"1"[..], b"two"] {
            return Err(format!("{what}: headers {:?}", out.headers));
        }
        Ok(())
    };
    let wrong = |want: &str| Err(format!("status {status} with body {b:?} is {want}, but the call gave {out:?}"));
    let kind = match class {
        "success" => Kind::Ok,
        "error" => Kind::ErrorResponse,
        _ => Kind::Unexpected,
    };
    let shown_bytes = |out: &Out| match &out.shown {
        Shown::Bytes(x, ok) => *ok != cut && (cut || x == bytes),
        _ => false,
    };
    match content {
        _ if class == "unexpected" => {
            if out.kind != kind || !shown_bytes(out) {
                return wrong("unexpected, with everything intact");
            }
            whole("unexpected response")?;
            Ok("unexpected")
        }
        Content::None => {
            if out.kind != kind || !matches!(out.shown, Shown::None) {
                return wrong(&format!("{class} without content"));
            }
            whole(class)?;
            Ok(if class == "success" { "success without content" } else { "error without content" })
        }
        Content::Raw => {
            if out.kind != kind || !matches!(&out.shown, Shown::Bytes(x, ok) if *ok != cut && (if cut { bytes.starts_with(x) } else { x == bytes })) {
                return wrong(&format!("{class} with raw content"));
            }
            whole(class)?;
            Ok(if class == "success" { "raw success" } else { "raw error" })
        }
        Content::Json(s) => {
            if cut {
                return if out.kind == Kind::ResponseBody { Ok("body error") } else { wrong("cut off") };
            }
            match decode(&s, bytes) {
                None => {
                    if out.kind != Kind::InvalidPayload || !matches!(&out.shown, Shown::Bytes(x, _) if x == bytes) {
                        return wrong("not a value of the described type");
                    }
                    Ok("invalid payload")
                }
                Some(v) => {
                    let same = match &out.shown {
                        Shown::Json(x) => {
                            let mut x = x.clone();
                            // Absent and defaulted fields are the same.
                            if let Some(o) = x.as_object_mut() {
                                o.retain(|_, v| !v.is_null() && *v != serde_json::json!([]));
                            }
                            x == v
                        }
                        _ => false,
                    };
                    if out.kind != kind || !same {
                        return wrong(&format!("{class} with value {v}"));
                    }
                    whole(class)?;
                    Ok(if class == "success" { "typed success" } else { "typed error" })
                }
            }
        }
    }
}

pub fn run(c: &Arc<Check>, reg: &Registry) {
    let ops = operations("G03", c.thorough);
    let near: Vec<u16> = vec![
        101, 200, 201, 202, 204, 206, 226, 299, 300, 302, 304, 399, 400, 401, 403, 404, 405, 418, 451, 499, 500, 501, 502, 503, 504, 599, 600, 700, 999,
    ];
    mc_core::par(&ops, |(d, op, style)| {
        let Some(e) = reg.find(&d.key, *style, &op.id) else {
            c.fail(&format!("{} {style:?} {}", d.key, op.id), "the operation is missing from the generated client");
            return;
        };
        let one = |status: u16, b: BodyKind| {
            c.trans(1);
            c.state(&(&op.id, status, b));
            c.case(
                || format!("{style:?} {} responses={:?} status={status} body={b:?}", op.id, op.responses.iter().map(|r| (&r.0, &r.1)).collect::<Vec<_>>()),
                || {
                    peer::with(|p| {
                        let (got, out) = p.run(&[answer(status, b)], (e.call)(&p.env(), &Input::default()))?;
                        let out = out?;
                        if got.len() != 1 {
                            return Err(format!("{} requests instead of one", got.len()));
                        }
                        c.outcome(judge(op, status, b, &out)?);
                        Ok(())
                    })
                },
            );
        };
        for status in 200..=999 {
            one(status, Both);
        }
        for status in &near {
            for b in [Thing, ErrBody, Garbage, Empty, Trailing, Cut] {
                one(*status, b);
            }
        }
        for b in [NoAnswer, BadHead] {
            one(200, b);
        }
    });
    c.bound(format!("{} operations: 8 success sets x 3 kinds x {} error sets x 3 kinds x default, and 16 sets of media types x 3 places; each answered with every status 200..=999 and 29 statuses x 8 bodies and faults", ops.len(), if c.thorough { 32 } else { 6 }));
    c.assume("Interim (1xx) responses other than 101 never reach generated code; the HTTP client handles them.");
    c.assume("Outside the supported language, hence not explored: several kinds of content among the successes (or the errors) of one operation.");
}
