//! Abstract operations: what the documents of the executed checks describe,
//! and which request an operation must produce for given arguments. Written
//! from OpenAPI, not from the generator.
use mc_core::{form_decode, pct_decode};
pub use serde_json::{json, Value};
use std::collections::BTreeMap;

pub mod cases;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Style {
    Positional,
    Builder,
    Tagged,
}
pub const STYLES: [Style; 3] = [Style::Positional, Style::Builder, Style::Tagged];

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Loc {
    Path,
    Query,
    Header,
}

#[derive(Clone, Debug)]
pub struct Param {
    /// Name in the document.
    pub name: String,
    /// Key under which the drivers take its value (name of the argument, or
    /// of its type when the type is `P<number>`).
    pub key: String,
    pub loc: Loc,
    pub required: bool,
    pub schema: Value,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Body {
    None,
    Json(Value),
    Form(Value),
    Octet,
    Text(String),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Content {
    None,
    Json(Value),
    Raw,
}

#[derive(Clone, Debug)]
pub struct Op {
    pub id: String,
    pub method: String,
    pub path: String,
    pub params: Vec<Param>,
    pub body: Body,
    pub responses: Vec<(String, Content)>,
    pub tags: Vec<String>,
    /// The media types of described content, unless empty.
    pub media: Vec<String>,
    /// Extensions and other literal members.
    pub more: Vec<(String, Value)>,
}

#[derive(Clone, Debug, Default)]
pub struct Config {
    pub inner: Option<String>,
    pub pre: Option<String>,
    pub pre_async: Option<String>,
    pub post: Option<String>,
    pub post_async: Option<String>,
    /// Also generate the command line / the mock.
    pub cli: bool,
    pub mock: bool,
    /// Also emit the client as something that can be kept.
    pub live: bool,
}

#[derive(Clone, Debug)]
pub struct Doc {
    pub key: String,
    pub ops: Vec<Op>,
    pub schemas: Value,
    pub styles: Vec<Style>,
    pub config: Config,
    pub version: String,
    /// Arguments are identified by the type `P<n>` instead of their names.
    pub by_type: bool,
    /// Operations are identified by the type of their only parameter.
    pub by_op: bool,
}

impl Op {
    pub fn new(id: impl Into<String>, method: &str, path: impl Into<String>) -> Op {
        Op {
            id: id.into(),
            method: method.into(),
            path: path.into(),
            params: vec![],
            body: Body::None,
            responses: vec![("204".into(), Content::None)],
            tags: vec![],
            media: vec![],
            more: vec![],
        }
    }
    pub fn param(mut self, name: &str, loc: Loc, required: bool, schema: Value) -> Op {
        self.params.push(Param { name: name.into(), key: name.into(), loc, required, schema });
        self
    }
    pub fn body(mut self, b: Body) -> Op {
        self.body = b;
        self
    }
    pub fn responses(mut self, r: Vec<(&str, Content)>) -> Op {
        self.responses = r.into_iter().map(|(s, c)| (s.to_string(), c)).collect();
        self
    }
    /// Tell the arguments apart by their types `P<n>`, texts.
    pub fn by_type(&mut self) {
        // A page token is a text itself.
        let paginated = self.more.iter().any(|m| m.0 == "x-dropshot-pagination");
        for (i, p) in self.params.iter_mut().enumerate() {
            if paginated && p.name == "page_token" && p.loc == Loc::Query {
                continue;
            }
            p.key = format!("P{i}");
            p.schema = sref(&p.key);
        }
    }
    pub fn more(mut self, k: &str, v: Value) -> Op {
        self.more.push((k.into(), v));
        self
    }
    pub fn json(&self) -> Value {
        let mut o = json!({"operationId": self.id, "responses": {}});
        if !self.tags.is_empty() {
            o["tags"] = json!(self.tags);
        }
        let params: Vec<Value> = self
            .params
            .iter()
            .map(|p| {
                json!({
                    "name": p.name,
                    "in": match p.loc { Loc::Path => "path", Loc::Query => "query", Loc::Header => "header" },
                    "required": p.required,
                    "schema": p.schema,
                })
            })
            .collect();
        if !params.is_empty() {
            o["parameters"] = json!(params);
        }
        let body = |ct: &str, s: &Value| json!({"required": true, "content": {ct: {"schema": s}}});
        match &self.body {
            Body::None => {}
            Body::Json(s) => o["requestBody"] = body("application/json", s),
            Body::Form(s) => o["requestBody"] = body("application/x-www-form-urlencoded", s),
            Body::Octet => o["requestBody"] = body("application/octet-stream", &json!({"type": "string", "format": "binary"})),
            Body::Text(ct) => o["requestBody"] = body(ct, &json!({"type": "string"})),
        }
        for (s, c) in &self.responses {
            o["responses"][s] = match c {
                Content::None => json!({"description": ""}),
                c if !self.media.is_empty() => {
                    let m: serde_json::Map<String, Value> = self
                        .media
                        .iter()
                        .map(|m| {
                            let json = m.split(';').next() == Some("application/json");
                            (m.clone(), json!({"schema": match c { Content::Json(s) if json => s.clone(), _ => json!({"type": "string"}) }}))
                        })
                        .collect();
                    json!({"description": "", "content": m})
                }
                Content::Json(s) => json!({"description": "", "content": {"application/json": {"schema": s}}}),
                Content::Raw => json!({"description": "", "content": {"*/*": {"schema": {}}}}),
            };
        }
        for (k, v) in &self.more {
            o[k] = v.clone();
        }
        o
    }
}

impl Doc {
    pub fn new(key: impl Into<String>, ops: Vec<Op>) -> Doc {
        Doc { key: key.into(), ops, schemas: schemas(), styles: vec![Style::Positional], config: Config::default(), version: VERSION.into(), by_type: false, by_op: false }
    }
    pub fn styles(mut self, s: &[Style]) -> Doc {
        self.styles = s.to_vec();
        self
    }
    pub fn by_type(&mut self) {
        self.by_type = true;
        for p in self.ops.iter().flat_map(|o| &o.params) {
            if p.schema == sref(&p.key) {
                self.schemas[&p.key] = json!({"type": "string"});
            }
        }
    }
    pub fn json(&self) -> Value {
        let mut paths = json!({});
        for o in &self.ops {
            if paths.get(&o.path).is_none() {
                paths[&o.path] = json!({});
            }
            assert!(paths[&o.path].get(&o.method).is_none(), "{} {} twice", o.method, o.path);
            paths[&o.path][&o.method] = o.json();
        }
        json!({
            "openapi": "3.0.3",
            "info": {"title": "t", "version": self.version},
            "paths": paths,
            "components": {"schemas": self.schemas},
        })
    }
}

pub const VERSION: &str = "1.2.3";

/// Shared component schemas.
pub fn schemas() -> Value {
    json!({
        "Color": {"type": "string", "enum": ["red", "b c", "ü/?#"]},
        "Label": {"type": "string"},
        "Short": {"type": "string", "maxLength": 4},
        "Count": {"type": "integer", "format": "uint16"},
        "Filter": {"type": "object", "properties": {"f1": {"type": "string"}, "f2": {"type": "integer"}}},
        "Thing": {"type": "object", "required": ["name"], "properties": {
            "name": {"type": "string"},
            "size": {"type": "integer"},
            "kind": {"$ref": "#/components/schemas/Color"},
            "list": {"type": "array", "items": {"type": "string"}},
        }},
        "Form": {"type": "object", "required": ["a"], "properties": {"a": {"type": "string"}, "b": {"type": "integer"}}},
        "Err": {"type": "object", "required": ["message"], "properties": {"message": {"type": "string"}}},
    })
}
pub fn sref(n: &str) -> Value {
    json!({"$ref": format!("#/components/schemas/{n}")})
}

/// A type of a parameter, with values in JSON.
#[derive(Clone, Debug)]
pub struct Ty {
    pub name: &'static str,
    pub schema: Value,
    pub values: Vec<Value>,
    /// May stand in a path or a header.
    pub text: bool,
}

pub fn hostile() -> Vec<Value> {
    [
        "", "a", "Hello World", "/", "a/b%2F?#&=+;", "é\u{1F600}", "\\..\\", "\"'<>`{}|^", "%", "%41", "\t", "{p}", "a..b",
        "...", " a ", "?x=1", "#", "@:80", "+", "null", "0", "true", "\u{a0}", "*~!$'()[],",
    ]
    .iter()
    .map(|s| json!(s))
    .chain([json!("a".repeat(300))])
    .collect()
}
/// Texts no header can carry.
pub fn unsendable() -> Vec<Value> {
    ["\n", "a\r\nx: y", "\u{0}", "\u{7f}", "a\u{1}"].iter().map(|s| json!(s)).collect()
}

pub fn types() -> Vec<Ty> {
    let t = |name, schema, values: Value, text| Ty { name, schema, values: values.as_array().unwrap().clone(), text };
    vec![
        Ty { name: "str", schema: json!({"type": "string"}), values: hostile(), text: true },
        t("i32", json!({"type": "integer", "format": "int32"}), json!([-2147483648i64, 0, 2147483647]), true),
        t("u64", json!({"type": "integer", "format": "uint64"}), json!([0, 18446744073709551615u64]), true),
        t("int", json!({"type": "integer"}), json!([-9223372036854775808i64, -1, 9223372036854775807i64]), true),
        t("bool", json!({"type": "boolean"}), json!([true, false]), true),
        t("num", json!({"type": "number"}), json!([1.5, -0.25, 1e300, 0.1, 3.0]), true),
        t("f32", json!({"type": "number", "format": "float"}), json!([0.5, -2.25, 3.0]), true),
        t("uuid", json!({"type": "string", "format": "uuid"}), json!(["00000000-0000-0000-0000-000000000000", "6ba7b810-9dad-11d1-80b4-00c04fd430c8"]), true),
        t("date", json!({"type": "string", "format": "date"}), json!(["2020-02-29", "1999-12-31"]), true),
        t("color", sref("Color"), json!(["red", "b c", "ü/?#"]), true),
        t("choice", json!({"type": "string", "enum": ["x", "y z", "w&z"]}), json!(["x", "y z", "w&z"]), true),
        t("label", sref("Label"), json!(["", "a/b", "é%"]), true),
        t("short", sref("Short"), json!(["", "a/b%"]), true),
        t("count", sref("Count"), json!([0, 65535]), true),
        t("strs", json!({"type": "array", "items": {"type": "string"}}), json!([[], ["a"], ["a", "a"], ["b", "", "a&="]]), false),
        t("ints", json!({"type": "array", "items": {"type": "integer"}}), json!([[], [3, -1, 3]]), false),
        t("colors", json!({"type": "array", "items": sref("Color")}), json!([["ü/?#", "red"]]), false),
        t("filter", sref("Filter"), json!([{}, {"f1": "a&b"}, {"f2": -3}, {"f1": "", "f2": 4}]), false),
        t("time", json!({"type": "string", "format": "date-time"}), json!(["2020-02-29T23:59:59Z", "1970-01-01T00:00:00.125Z"]), false),
        t("maybe", json!({"type": "string", "nullable": true}), json!([null, "", "x y"]), false),
    ]
}
pub fn ty(name: &str) -> Ty {
    types().into_iter().find(|t| t.name == name).unwrap_or_else(|| panic!("no type {name}"))
}

/// Arguments by key; absent optional ones are missing. `"body"` is the body.
pub type Args = BTreeMap<String, Value>;

#[derive(Clone, Debug, PartialEq)]
pub struct Want {
    pub method: String,
    /// Decoded path segments.
    pub segments: Vec<String>,
    /// Sorted by name; order within a name kept.
    pub query: Vec<(String, String)>,
    /// Lower-case name, value.
    pub headers: Vec<(String, Vec<u8>)>,
    pub body: WantBody,
}

#[derive(Clone, Debug, PartialEq)]
pub enum WantBody {
    None,
    Json(Value),
    Form(Vec<(String, String)>),
    Bytes(Vec<u8>, String),
}

fn text(v: &Value) -> String {
    match v {
        Value::String(s) => s.clone(),
        v => v.to_string(),
    }
}

pub fn pairs(name: &str, v: &Value, out: &mut Vec<(String, String)>) {
    match v {
        Value::Null => {}
        Value::Array(xs) => xs.iter().for_each(|x| out.push((name.into(), text(x)))),
        Value::Object(m) => m.iter().for_each(|(k, x)| pairs(k, x, out)),
        v => out.push((name.into(), text(v))),
    }
}

/// A text in a template, or a parameter.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Piece {
    Lit(String),
    Par(String),
}

/// The pieces of a path template, or why it is not one.
pub fn template(t: &str) -> Result<Vec<Piece>, String> {
    if !t.starts_with('/') {
        return Err("no leading slash".into());
    }
    let mut out: Vec<Piece> = vec![];
    let mut rest = t;
    while !rest.is_empty() {
        if let Some(r) = rest.strip_prefix('{') {
            let end = r.find('}').ok_or("unbalanced")?;
            let name = &r[..end];
            if name.contains('{') {
                return Err("nested".into());
            }
            if name.contains('/') {
                return Err("slash in a name".into());
            }
            out.push(Piece::Par(name.into()));
            rest = &r[end + 1..];
        } else {
            let end = rest.find('{').unwrap_or(rest.len());
            let lit = &rest[..end];
            if lit.contains('}') {
                return Err("unbalanced".into());
            }
            let mut s = String::new();
            for c in lit.chars() {
                if c != '/' || !s.ends_with('/') {
                    s.push(c);
                }
            }
            out.push(Piece::Lit(s));
            rest = &rest[end..];
        }
    }
    Ok(out)
}

impl Op {
    /// The request for these arguments; Err if a value cannot be in a header.
    pub fn want(&self, base: &str, args: &Args) -> Result<Want, String> {
        let arg = |k: &str| args.get(k).filter(|v| !v.is_null());
        // The path: literal text decoded, values as they are.
        let lit = |s: &str| String::from_utf8(pct_decode(s).unwrap()).unwrap();
        let mut segments = vec![String::new()];
        for s in base.split('/').skip(1) {
            segments.push(lit(s));
        }
        let mut path = template(&self.path).expect("template of a case");
        let Piece::Lit(first) = &mut path[0] else { panic!() };
        if first.starts_with('/') {
            segments.push(String::new());
            first.remove(0);
        }
        for p in path {
            match p {
                Piece::Lit(l) => {
                    for (i, s) in l.split('/').enumerate() {
                        if i > 0 {
                            segments.push(String::new());
                        }
                        segments.last_mut().unwrap().push_str(&lit(s));
                    }
                }
                Piece::Par(n) => {
                    let p = self.params.iter().find(|p| p.loc == Loc::Path && p.name == n).unwrap();
                    segments.last_mut().unwrap().push_str(&text(&args[&p.key]));
                }
            }
        }
        segments.remove(0);
        let mut query = vec![];
        let mut headers = vec![("api-version".to_string(), VERSION.as_bytes().to_vec())];
        for p in &self.params {
            let Some(v) = arg(&p.key) else { continue };
            match p.loc {
                Loc::Path => {}
                Loc::Query => pairs(&p.name, v, &mut query),
                Loc::Header => {
                    let t = text(v).into_bytes();
                    if t.iter().any(|b| *b < 32 && *b != 9 || *b == 127) {
                        return Err(format!("{} cannot be sent in a header", p.name));
                    }
                    headers.push((p.name.to_ascii_lowercase(), t));
                }
            }
        }
        query.sort_by(|a, b| a.0.cmp(&b.0));
        headers.sort();
        let bytes = |v: &Value| text(v).into_bytes();
        let body = match (&self.body, args.get("body")) {
            (Body::None, _) | (_, None) => WantBody::None,
            (Body::Json(_), Some(b)) => WantBody::Json(b.clone()),
            (Body::Form(_), Some(b)) => {
                let mut f = vec![];
                if b.as_object().is_some_and(|o| o.values().any(|v| v.is_array() || v.is_object())) {
                    return Err("the body is not a flat set of fields".into());
                }
                pairs("", b, &mut f);
                f.sort();
                WantBody::Form(f)
            }
            (Body::Octet, Some(b)) => WantBody::Bytes(bytes(b), "application/octet-stream".into()),
            (Body::Text(ct), Some(b)) => WantBody::Bytes(bytes(b), ct.split(';').next().unwrap().trim().into()),
        };
        Ok(Want { method: self.method.to_uppercase(), segments, query, headers, body })
    }

    /// Is a JSON response expected of this operation?
    pub fn accepts_json(&self) -> Option<bool> {
        if self.more.iter().any(|m| m.0 == "x-dropshot-websocket") {
            // What is wanted is the upgrade.
            return None;
        }
        let range = self.responses.iter().any(|r| r.0 == "2XX");
        let ok = |s: &str| s.starts_with('2') || s == "default" && !range;
        let succ: Vec<_> = self.responses.iter().filter(|r| ok(&r.0)).map(|r| &r.1).collect();
        let err: Vec<_> = self.responses.iter().filter(|r| !r.0.starts_with('2')).map(|r| &r.1).collect();
        let typed = |xs: &[&Content]| xs.iter().any(|c| matches!(c, Content::Json(_)));
        if typed(&succ) {
            Some(true)
        } else if succ.is_empty() || succ.iter().any(|c| matches!(c, Content::Raw)) {
            // Left open: other content is expected as well.
            None
        } else {
            Some(typed(&err))
        }
    }
}

/// A request as received.
#[derive(Debug, Clone, Default)]
pub struct Received {
    pub method: String,
    pub target: String,
    pub headers: Vec<(String, Vec<u8>)>,
    pub body: Vec<u8>,
}

impl Received {
    pub fn header(&self, name: &str) -> Vec<String> {
        self.headers
            .iter()
            .filter(|(n, _)| n.eq_ignore_ascii_case(name))
            .map(|(_, v)| String::from_utf8_lossy(v).into_owned())
            .collect()
    }
    pub fn path(&self) -> &str {
        self.target.split('?').next().unwrap()
    }
    pub fn segments(&self) -> Result<Vec<String>, String> {
        if self.target.contains('#') || !self.target.starts_with('/') {
            return Err(format!("malformed request target {:?}", self.target));
        }
        self.path()
            .split('/')
            .skip(1)
            .map(|s| String::from_utf8(pct_decode(s)?).map_err(|e| e.to_string()))
            .collect()
    }
    pub fn query(&self) -> Result<Vec<(String, String)>, String> {
        let mut q = match self.target.split_once('?') {
            None => vec![],
            Some((_, q)) => form_decode(q)?,
        };
        q.sort_by(|a, b| a.0.cmp(&b.0));
        Ok(q)
    }
}

/// Two texts denote the same number, or are equal.
fn same_text(a: &str, b: &str) -> bool {
    a == b || (a.contains(['.', 'e']) || b.contains(['.', 'e'])) && matches!((a.parse::<f64>(), b.parse::<f64>()), (Ok(x), Ok(y)) if x == y && x.is_finite())
}

fn same(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (Value::Number(x), Value::Number(y)) => x == y || same_text(&x.to_string(), &y.to_string()),
        (Value::Array(x), Value::Array(y)) => x.len() == y.len() && x.iter().zip(y).all(|(x, y)| same(x, y)),
        (Value::Object(x), Value::Object(y)) => x.len() == y.len() && x.iter().all(|(k, v)| y.get(k).is_some_and(|w| same(v, w))),
        (a, b) => a == b,
    }
}

/// Headers the HTTP client adds by itself.
const OWN: &[&str] = &["host", "accept", "content-length", "content-type", "transfer-encoding"];

pub const WEBSOCKET: &[(&str, &str)] = &[("connection", "upgrade"), ("upgrade", "websocket"), ("sec-websocket-version", "13")];

/// Is `r` the wanted request?
pub fn check(op: &Op, w: &Want, r: &Received, websocket: bool) -> Result<(), String> {
    if r.method != w.method {
        return Err(format!("method {} instead of {}", r.method, w.method));
    }
    let seg = r.segments()?;
    if seg.len() != w.segments.len() || !seg.iter().zip(&w.segments).all(|(a, b)| same_text(a, b)) {
        return Err(format!("path {:?} has segments {seg:?} instead of {:?}", r.target, w.segments));
    }
    let q = r.query()?;
    let qsame = q.len() == w.query.len() && q.iter().zip(&w.query).all(|(a, b)| a.0 == b.0 && same_text(&a.1, &b.1));
    if !qsame {
        return Err(format!("query {q:?} instead of {:?}", w.query));
    }
    let mut headers: Vec<(String, Vec<u8>)> = r.headers.iter().map(|(n, v)| (n.to_ascii_lowercase(), v.clone())).collect();
    if websocket {
        for (n, v) in WEBSOCKET {
            let got = r.header(n);
            if got.len() != 1 || !got[0].eq_ignore_ascii_case(v) {
                return Err(format!("header {n} is {got:?} instead of {v:?}"));
            }
        }
        let key = r.header("sec-websocket-key");
        if key.len() != 1 || b64(&key[0]).map_or(true, |k| k.len() != 16) {
            return Err(format!("the websocket key {key:?} is not one base64 encoding of 16 bytes"));
        }
        headers.retain(|(n, _)| n != "sec-websocket-key" && !WEBSOCKET.iter().any(|x| x.0 == n));
    }
    headers.retain(|(n, _)| !OWN.contains(&&n[..]) || w.headers.iter().any(|(m, _)| m == n));
    headers.sort();
    let hsame = headers.len() == w.headers.len()
        && headers.iter().zip(&w.headers).all(|(a, b)| a.0 == b.0 && (a.1 == b.1 || same_text(&String::from_utf8_lossy(&a.1), &String::from_utf8_lossy(&b.1))));
    if !hsame {
        let show = |h: &[(String, Vec<u8>)]| h.iter().map(|(n, v)| format!("{n}: {}", String::from_utf8_lossy(v).escape_debug())).collect::<Vec<_>>();
        return Err(format!("headers {:?} instead of {:?}", show(&headers), show(&w.headers)));
    }
    let accept = r.header("accept");
    if accept.len() > 1 {
        return Err(format!("several accept headers {accept:?}"));
    }
    let json = accept.first().is_some_and(|a| a == "application/json");
    match op.accepts_json() {
        Some(true) if !json => return Err(format!("a JSON response is described but accept is {accept:?}")),
        Some(false) if json => return Err("no JSON response is described but application/json is demanded".into()),
        _ => {}
    }
    let ct: Vec<String> = r.header("content-type").iter().map(|c| c.split(';').next().unwrap().trim().to_string()).collect();
    let want_ct = match &w.body {
        WantBody::None => vec![],
        WantBody::Json(_) => vec!["application/json".to_string()],
        WantBody::Form(_) => vec!["application/x-www-form-urlencoded".to_string()],
        WantBody::Bytes(_, c) => vec![c.clone()],
    };
    if ct != want_ct {
        return Err(format!("content type {ct:?} instead of {want_ct:?}"));
    }
    let body = String::from_utf8_lossy(&r.body);
    let ok = match &w.body {
        WantBody::None => r.body.is_empty(),
        WantBody::Json(v) => serde_json::from_slice::<Value>(&r.body).is_ok_and(|b| same(&b, v)),
        WantBody::Form(f) => {
            let mut b = form_decode(&body)?;
            b.sort();
            b == *f
        }
        WantBody::Bytes(b, _) => *b == r.body,
    };
    if !ok {
        return Err(format!("body {body:?} instead of {:?}", w.body));
    }
    Ok(())
}

pub fn b64(s: &str) -> Option<Vec<u8>> {
    let t = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    if s.len() % 4 != 0 {
        return None;
    }
    let (body, pad) = (s.trim_end_matches('='), s.len() - s.trim_end_matches('=').len());
    let (mut out, mut acc, mut n) = (vec![], 0u32, 0);
    for b in body.bytes() {
        acc = acc << 6 | t.iter().position(|x| *x == b)? as u32;
        n += 6;
        if n >= 8 {
            n -= 8;
            out.push((acc >> n) as u8);
        }
    }
    (pad <= 2 && acc & ((1 << n) - 1) == 0).then_some(out)
}
